From f2ac70ed9127334f5c4ecd7d03af52dba9b04802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:55 +0000
Subject: [PATCH 01/14] fix: delta_at applies a leap second from the first day
 of its month

The lookup used a strict comparison, so a table entry only took effect one
month late (January 2017 gave 36 instead of 37); dat.for compares with >=.
---
 crates/tofas/src/delta_at.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/delta_at.rs b/crates/tofas/src/delta_at.rs
index e02c44c..93592bc 100644
--- a/crates/tofas/src/delta_at.rs
+++ b/crates/tofas/src/delta_at.rs
@@ -84,7 +84,7 @@ impl DeltaAt for GregorianDate {
 	let idat =
 	    DAT_DATA
 	    .iter()
-	    .rposition(|DatData { year,month,.. }| 12*year + month < m)
+	    .rposition(|DatData { year,month,.. }| 12*year + month <= m)
 	    .unwrap_or(0);
 
 	let DatData { dat,drift,.. } = DAT_DATA[idat];
-- 
2.43.0


From b67e02424473245337aa3c01b8a9b99071b2bdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:55 +0000
Subject: [PATCH 02/14] fix: delta_at does not overflow for far-future years

12*year overflowed i32 for years GregorianDate::new accepts.
---
 crates/tofas/src/delta_at.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tofas/src/delta_at.rs b/crates/tofas/src/delta_at.rs
index 93592bc..9ef37f4 100644
--- a/crates/tofas/src/delta_at.rs
+++ b/crates/tofas/src/delta_at.rs
@@ -79,12 +79,12 @@ impl DeltaAt for GregorianDate {
 	    return Ok(None);
 	}
 
-	let m = 12*iy + im;
+	let m = 12*(iy as i64) + im as i64;
 
 	let idat =
 	    DAT_DATA
 	    .iter()
-	    .rposition(|DatData { year,month,.. }| 12*year + month <= m)
+	    .rposition(|DatData { year,month,.. }| 12*(*year as i64) + *month as i64 <= m)
 	    .unwrap_or(0);
 
 	let DatData { dat,drift,.. } = DAT_DATA[idat];
-- 
2.43.0


From a7cf8bcc70d8f8c17fd7c9b905d8916f7ad8f15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:55 +0000
Subject: [PATCH 03/14] fix: delta_at rejects a NaN fraction of day

---
 crates/tofas/src/delta_at.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/delta_at.rs b/crates/tofas/src/delta_at.rs
index 9ef37f4..3eb9460 100644
--- a/crates/tofas/src/delta_at.rs
+++ b/crates/tofas/src/delta_at.rs
@@ -71,7 +71,7 @@ impl DeltaAt for GregorianDate {
 	let iy = self.year;
 	let im = self.month;
 	
-	if fd < 0.0 || fd > 1.0 {
+	if !(fd >= 0.0 && fd <= 1.0) {
 	    return Err(DeltaAtError::BadFract);
 	}
 
-- 
2.43.0


From af66a7d28607915a8161ab2ce1cca0b174c35831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:55 +0000
Subject: [PATCH 04/14] fix: GregorianDate::to_julian does not overflow for
 far-future years

1461*(year+4800) overflowed i32 for years above about 1.46 million, which
GregorianDate::new accepts.
---
 crates/tofas/src/calendar.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index f34a449..2c98694 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -75,10 +75,11 @@ impl GregorianDate {
 	let &Self{ year,month,day } = self;
 	let my = ( month - 14 ) / 12;
 	let iypmy = year + my;
+	let iypmy = iypmy as i64;
 	let djm = ( 1461 * ( iypmy + 4800 ) ) / 4
-	    + (  367 * ( month - 2 - 12*my ) ) / 12
+	    + ( (  367 * ( month - 2 - 12*my ) ) / 12 ) as i64
 	    - (    3 * ( ( iypmy + 4900 ) / 100 ) ) / 4
-	    + day - 2432076;
+	    + day as i64 - 2432076;
 	(MJD_ZERO,djm as R)
     }
 
-- 
2.43.0


From 9d9fcb5e8294d5aa3cab6a17e0ea26628b63b7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:55 +0000
Subject: [PATCH 05/14] fix: GregorianDate::from_julian rejects NaN

A NaN date passed the range check and decoded to an arbitrary date.
---
 crates/tofas/src/calendar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index 2c98694..80205fa 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -88,7 +88,7 @@ impl GregorianDate {
     /// Source: jd2cal.for
     pub fn from_julian(dj1:R,dj2:R)->Result<(Self,R),CalendarError> {
 	let dj = dj1 + dj2;
-	if dj < DJ_MIN || dj > DJ_MAX {
+	if !(dj >= DJ_MIN && dj <= DJ_MAX) {
 	    return Err(CalendarError::BadJulian);
 	}
 
-- 
2.43.0


From 506b2ce8cf55073eced566030408a5c148bc4387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:55 +0000
Subject: [PATCH 06/14] fix: GregorianDate::from_julian does not overflow for
 large Julian dates

4*l overflowed i32 above 5.4e8 although DJ_MAX is 1e9.
---
 crates/tofas/src/calendar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index 80205fa..09d4b60 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -110,8 +110,8 @@ impl GregorianDate {
 	let jd = d as i32 + 1;
 
 	let l = jd + 68569;
-	let n = ( 4*l ) / 146097;
-	let l = l - ( 146097*n + 3 ) / 4;
+	let n = ( ( 4*l as i64 ) / 146097 ) as i32;
+	let l = ( l as i64 - ( 146097*n as i64 + 3 ) / 4 ) as i32;
 	let i = ( 4000 * (l+1) ) / 1461001;
 	let l = l - ( 1461*i ) / 4 + 31;
 	let k = ( 80*l ) / 2447;
-- 
2.43.0


From 4dc6042802da803b3de3baf93f623a732bced386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:55 +0000
Subject: [PATCH 07/14] fix: GregorianDate::from_julian never returns a
 fraction of 1

A remainder of less than 2^-53 below zero rounded to f = 1.0 of the
previous day instead of midnight.
---
 crates/tofas/src/calendar.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index 09d4b60..e1afbf1 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -105,6 +105,10 @@ impl GregorianDate {
 	let mut f = (f1 + f2) % 1.0;
 	if f < 0.0 {
 	    f += 1.0;
+	    if f >= 1.0 {
+		// f was a tiny negative number: the instant is midnight
+		f = 0.0;
+	    }
 	}
 	let d = round(d1 - f1) + round(d2 - f2) + round(f1 + f2 - f);
 	let jd = d as i32 + 1;
-- 
2.43.0


From a42f7ef1c976933eccaf9471b9ca46faacddef5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:55 +0000
Subject: [PATCH 08/14] fix: HMS::from_fraction_of_day rejects NaN

---
 crates/tofas/src/calendar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index e1afbf1..8d7520a 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -145,7 +145,7 @@ impl HMS {
     }
     
     pub fn from_fraction_of_day(f:f64)->Result<Self,CalendarError> {
-	if f < 0.0 || f > 1.0 {
+	if !(f >= 0.0 && f <= 1.0) {
 	    return Err(CalendarError::BadFract)
 	}
 	let s = 86400.0 * f;
-- 
2.43.0


From 522866e511b95c85954e5cb9a7a9c8922b3f5a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:55 +0000
Subject: [PATCH 09/14] fix: anp never returns 2*pi

For a tiny negative angle the sum rounded to TWO_PI, outside [0,2pi[.
---
 crates/tofas/src/common.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/tofas/src/common.rs b/crates/tofas/src/common.rs
index 318334f..b3ed62e 100644
--- a/crates/tofas/src/common.rs
+++ b/crates/tofas/src/common.rs
@@ -31,6 +31,10 @@ pub fn anp(a:R)->R {
     let mut w = a % TWO_PI;
     if w < 0.0 {
 	w += TWO_PI;
+	if w >= TWO_PI {
+	    // w was a tiny negative number
+	    w = 0.0;
+	}
     }
     w
 }
-- 
2.43.0


From 88b45abd5cdfdfd07bdd1041bc5dcc8bda035894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:55 +0000
Subject: [PATCH 10/14] fix: Vector::angle of nearly parallel vectors is not
 NaN

Rounding can bring the dot product of two unit vectors above 1.
---
 crates/tofas/src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/common.rs b/crates/tofas/src/common.rs
index b3ed62e..2c4647d 100644
--- a/crates/tofas/src/common.rs
+++ b/crates/tofas/src/common.rs
@@ -88,7 +88,7 @@ impl Vector for Vec3 {
     }
 
     fn angle(self,b:Self)->R {
-	acos(self.normalize().dot(b.normalize()))
+	acos(self.normalize().dot(b.normalize()).clamp(-1.0,1.0))
     }
 }
 
-- 
2.43.0


From 8f9176617ae54b105c7930ed8469f25c1e43c274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:55 +0000
Subject: [PATCH 11/14] fix: EllipsoidConverter rejects a NaN flattening

---
 crates/tofas/src/ellipsoid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/ellipsoid.rs b/crates/tofas/src/ellipsoid.rs
index 78968b0..63a1d45 100644
--- a/crates/tofas/src/ellipsoid.rs
+++ b/crates/tofas/src/ellipsoid.rs
@@ -125,7 +125,7 @@ impl EllipsoidConverter {
     pub fn new(ellipsoid:&Ellipsoid)->Result<Self,EllipsoidError> {
 	let &Ellipsoid{ a,f } = ellipsoid;
 
-	if f < 0.0 || f >= 1.0 {
+	if !(f >= 0.0 && f < 1.0) {
 	    return Err(EllipsoidError::InvalidFlattening);
 	}
 
-- 
2.43.0


From a8031a3028ad1ee2c88193dd00d43289eb09988e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:55 +0000
Subject: [PATCH 12/14] fix: EllipsoidConverter rejects a zero or NaN radius

A zero radius made every converted latitude NaN; gc2gde.for requires a > 0.
---
 crates/tofas/src/ellipsoid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/ellipsoid.rs b/crates/tofas/src/ellipsoid.rs
index 63a1d45..93eeee2 100644
--- a/crates/tofas/src/ellipsoid.rs
+++ b/crates/tofas/src/ellipsoid.rs
@@ -129,7 +129,7 @@ impl EllipsoidConverter {
 	    return Err(EllipsoidError::InvalidFlattening);
 	}
 
-	if a < 0.0 {
+	if !(a > 0.0) {
 	    return Err(EllipsoidError::InvalidRadius);
 	}
 
-- 
2.43.0


From 3c05c4279fcb56f9f71ec7a8c7c737446f0b8291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:55 +0000
Subject: [PATCH 13/14] fix: the North Pole keeps its latitude in degrees

A latitude of +90 degrees was wrapped to -90.
---
 crates/tofas/src/ellipsoid.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/tofas/src/ellipsoid.rs b/crates/tofas/src/ellipsoid.rs
index 93eeee2..4f8680a 100644
--- a/crates/tofas/src/ellipsoid.rs
+++ b/crates/tofas/src/ellipsoid.rs
@@ -54,7 +54,13 @@ impl From<Geodetic> for Geodetic360 {
 impl From<&Geodetic> for Geodetic360 {
     fn from(gd:&Geodetic)->Self {
 	let lon = (gd.elong/DEGREE + 180.0).rem_euclid(360.0) - 180.0;
-	let lat = (gd.phi/DEGREE + 90.0).rem_euclid(180.0) - 90.0;
+	let lat = gd.phi/DEGREE;
+	let lat =
+	    if -90.0 <= lat && lat <= 90.0 {
+		lat
+	    } else {
+		(lat + 90.0).rem_euclid(180.0) - 90.0
+	    };
 	debug_assert!(-180.0 <= lon && lon <= 180.0);
 	debug_assert!(-90.0 <= lat && lat <= 90.0);
 	Self {
-- 
2.43.0


From 9b1b37d1b1f69c84caf9b7dc00c125628be2c4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:55 +0000
Subject: [PATCH 14/14] fix: longitude in degrees stays in [-180,180[

rem_euclid rounds to 360 for a longitude a hair below -180 degrees.
---
 crates/tofas/src/ellipsoid.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/tofas/src/ellipsoid.rs b/crates/tofas/src/ellipsoid.rs
index 4f8680a..cefb2e4 100644
--- a/crates/tofas/src/ellipsoid.rs
+++ b/crates/tofas/src/ellipsoid.rs
@@ -54,6 +54,7 @@ impl From<Geodetic> for Geodetic360 {
 impl From<&Geodetic> for Geodetic360 {
     fn from(gd:&Geodetic)->Self {
 	let lon = (gd.elong/DEGREE + 180.0).rem_euclid(360.0) - 180.0;
+	let lon = if lon >= 180.0 { lon - 360.0 } else { lon };
 	let lat = gd.phi/DEGREE;
 	let lat =
 	    if -90.0 <= lat && lat <= 90.0 {
-- 
2.43.0

