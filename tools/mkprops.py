import json
P=[]
def p(id,title,statement,text,why,files,mech,over=("inputs",),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
cal="crates/tofas/src/calendar.rs"; com="crates/tofas/src/common.rs"; dat="crates/tofas/src/delta_at.rs"; tim="crates/tofas/src/time.rs"
ear="crates/tofas/src/earth.rs"; epv="crates/tofas/src/epv00_data.rs"; ell="crates/tofas/src/ellipsoid.rs"; fra="crates/tofas/src/frames.rs"; fun="crates/tofas/src/fundargs.rs"; loc="crates/tofas/src/locator.rs"; sun="crates/tofas_extras/src/sun_angle.rs"
p("C01","Only real Gregorian dates can be constructed",
 "Constructing a Gregorian date succeeds exactly when the year is at least -4799, the month is 1 to 12 and the day is 1 to the length of that month in the proleptic Gregorian calendar (leap years: divisible by 4, except centuries not divisible by 400), and the date then carries the given fields unchanged. Otherwise it fails with the error naming the first offending field in the order year, month, day. It never panics.",
 "all year, month, day in the full 32-bit range","The calendar test constructs five valid dates and no invalid one; the accept/reject boundary over all (year, month, day) is never sampled.",
 [cal],[("GregorianDate::new and MTAB",cal)],observe=["result of the constructor"])
p("C02","Date to Julian date is the exact Gregorian day count",
 "For every date the constructor accepts, whatever its year, conversion to a Julian date returns 2400000.5 and, exactly, the number of days from 1858-11-17 to that date in the proleptic Gregorian calendar. In particular the next calendar day is always exactly one day later. The conversion never overflows or panics.",
 "all constructible dates, years -4799 to 2147483647","Tests convert three fixed dates; the random loop only covers dates produced by the inverse within about 6700 years, and never a large year.",
 [cal],[("GregorianDate::to_julian integer day formula",cal)])
p("C03","Julian date decodes to a valid date, a fraction in [0,1) and the same instant",
 "For any two doubles whose double-precision sum lies in [-32000, 1e9], decoding a two-part Julian date yields a valid proleptic Gregorian date and a fraction of day f with 0 <= f < 1, such that midnight of that date plus f equals the exact sum of the two parts to within 2^-50*(1+|dj|) days, dj being the lesser of the two parts, irrespective of the order or the split of the parts. The date may fall in the year -4800. For every other pair, including NaN and infinities, it fails with the bad-Julian-day error. It never overflows or panics.",
 "all pairs of IEEE doubles","The random test only uses one split (a half-integer part and a fraction) over the first 2.4 million days with tolerance 1.5e-8; it never sees the fractions next to 1, other splits, large dates, NaN or out-of-range sums.",
 [cal],[("GregorianDate::from_julian: alignment to midnight, fraction carry, integer date algorithm",cal)])
p("C04","Date to Julian date and back is the identity",
 "For every date the constructor accepts whose Julian date does not exceed 1e9, converting it to a two-part Julian date and decoding that again, with the parts in either order, gives the same year, month and day and a fraction of exactly zero. Distinct dates therefore have distinct Julian dates.",
 "all constructible dates with Julian date up to 1e9","The tests check the opposite composition on random instants with a tolerance and only three dates in this direction.",
 [cal],[("GregorianDate::to_julian and GregorianDate::from_julian",cal)])
p("C05","Fraction of day and hours-minutes-seconds agree",
 "For every fraction f in [0,1), splitting it gives hour 0..23, minute 0..59 and 0 <= second < 60, f = 1 gives 24:00:00, and any value outside [0,1] or NaN is rejected with the bad-fraction error; recombining the split gives back f to within 2^-50. Recombination returns (hour*3600+minute*60+second)/86400 to within a relative error of 2^-50 (and an absolute 2^-1050) for every hour, minute and non-negative second.",
 "all IEEE doubles f; all hour, minute bytes and finite seconds up to 1e6","The test draws 1000 random fractions; it never tries the boundaries, NaN, or rejects.",
 [cal],[("HMS::from_fraction_of_day, HMS::to_fraction_of_day",cal)])
p("C06","Combined date-time conversion preserves the instant",
 "Decoding a two-part Julian date into a date and time of day succeeds exactly when the sum of the parts lies in [-32000, 1e9]; the date is then a valid Gregorian date, the time has hour 0..23, minute 0..59 and 0 <= second < 60, and the instant they denote equals the exact sum of the parts to within 2^-49*(1+|dj|) days, dj being the lesser of the two parts. Encoding a valid date with such a time returns 2400000.5 and the day count plus the fraction of day, to within 2^-50*(1+|day count|).",
 "all pairs of IEEE doubles; all constructible dates with all valid times","No test uses the combined structure at all.",
 [cal],[("GregorianDateHMS::from_julian, GregorianDateHMS::to_julian",cal)])
p("C07","TAI-UTC follows the IERS table from the first day each entry takes effect",
 "For every date the constructor accepts and every fraction of day in [0,1], TAI-UTC is absent before 1960; from 1972 on it is the integer number of seconds of the last IERS leap-second entry whose year and month are not later than the date's (so the new value already applies on the first day of the month, and the value after January 2017 stays 37); from 1960 to 1971 it is that era's published offset plus drift rate times (MJD + fraction - reference MJD), to within 1e-11 s. A fraction outside [0,1] or NaN is rejected with an error, and no accepted date panics.",
 "all constructible dates (every 32-bit year from -4799), all IEEE doubles as fraction","One date (2007-04-05) is tested; none of the 42 entries' boundaries is.",
 [dat],[("DAT_DATA table and the rposition lookup in delta_at",dat)])
p("C08","Time-scale conversions add exactly the defined offset and keep the large part",
 "For all finite two-part dates and finite offsets: TAI = UTC + dAT, TT = TAI + 32.184 s, TT = UT1 + dT, UT1 = TT - dT and TDB = TT + dTR, each offset divided by 86400. The part of the date with the greater value is returned bit for bit, and the other part (the first one when they are equal) is the sum of that part and the offset to within 2^-51*(|part|+|offset|/86400) days (plus an absolute 1e-300). The total of a date is the double-precision sum of its two parts.",
 "all finite two-part dates of magnitude up to 1e300 and offsets up to 1e300","Only TT to TDB and TT to UT1 are tested, on one split of each date; the branch on which part is larger and TAI, UTC and UT1 to TT are untested.",
 [tim],[("TT::from_ut1, TAI::from_utc_delta_at, From<TAI> for TT, TDB::from_tt, UT1::from_tt, total",tim)])
p("C09","Angle normalisation lands in [0, 2pi)",
 "For every finite angle a the normalised angle r satisfies 0 <= r < 2*pi (the double nearest 2*pi), and a - r is an integer multiple of that double to within 2^-50. A value already in the range is returned unchanged.",
 "all finite IEEE doubles","Normalisation is only reached through one test of Earth rotation angles, all positive and away from the ends.",
 [com],[("anp",com)])
p("C10","Earth rotation angle is the IAU 2000 linear function of UT1",
 "For all UT1 dates with parts up to 1e300 in magnitude the Earth rotation angle is in [0, 2*pi) and is bit-identical when the two parts are exchanged. For parts each within 3e6 days in magnitude it equals 2*pi*(0.7790572732640 + 1.00273781191135448*(dj1+dj2-2451545)) modulo 2*pi to within 1e-10 rad, whatever the split of the date.",
 "all pairs of doubles up to 1e300 in magnitude (range, symmetry); all pairs up to 3e6 in magnitude (value)","Test vectors use one date split and one ordering over a limited set of dates.",
 [ear,com],[("earth::rotation_angle, anp",ear)])
p("C11","Vector and matrix operations compute their algebraic definitions",
 "For all 3-vectors and 3x3 matrices of finite entries (magnitude up to 1e100): sum, difference, negation, scaling, dot product, Euclidean norm, matrix product, transpose, zero and identity are the textbook operations; applying a matrix M to x gives the vector whose j-th entry is the sum over i of M[i][j]*x[i]; hence applying a product A*B equals applying A and then B. Each result is within 2^-50 of the sum of the magnitudes of its terms (plus an absolute 1e-300; the norm within 2^-50 relative plus 1e-160); negation, transpose, zero and identity are exact. The elementary rotation about axis k by any finite angle t up to 1e300 has entries cos t, sin t, -sin t, cos t in the two following axes (cyclically) to within 1e-15, and 1 on axis k.",
 "all real vectors and matrices, all axes and angles","Only products of rotations and comparisons with frame test vectors are tested; vector operations, apply, transpose and scale are never checked for values.",
 [com],[("impl Vector for Vec3, impl Matrix for Mat3",com)])
p("C12","Every frame matrix is a proper rotation",
 "For all arguments, elementary rotations, polar motion, nutation, frame bias, precession, bias-precession, precession-nutation, celestial-to-intermediate (for a pole with x^2+y^2<1) and celestial-to-terrestrial matrices satisfy R*transpose(R) = identity and det R = +1 to within 1e-11, so applying the transpose undoes applying the matrix and lengths and angles are preserved. Angles range over all finite values up to 1e300, dates over 1800 to 2200 in any split with parts within 3e6 days, poles over x^2+y^2 <= 1-1e-15; the pole extracted from bias-precession-nutation matrices is within 0.1.",
 "all angles, dates, pole coordinates","Tests compare matrices with sampled vectors and check one random product of rotations about a single axis.",
 [fra,ear,com],[("Mat3::rotation/compose and every function returning Mat3",fra)])
p("C13","Celestial, intermediate and terrestrial frames compose by the CIO method",
 "For every pole (x,y) with x^2+y^2 <= 0.999 and locator |s| <= 10, the celestial-to-intermediate matrix has bottom row (x, y, sqrt(1-x^2-y^2)) and equals R3(-(E+s))*R2(d)*R3(E) with E the pole's longitude and d its distance from the z-axis. The celestial-to-terrestrial matrix is the product polar-motion * R3(Earth rotation angle) * celestial-to-intermediate, polar motion being R1(-yp)*R2(-xp)*R3(s'); the date-driven versions take the pole from the bottom row of the precession-nutation matrix of that TT, the locator from that TT and pole, the rotation angle from UT1, and s' = 0. The matrix of a given pole and locator, polar motion, and the product hold to within 1e-13; the date-driven versions agree with the composition of the public functions to within 1e-11 for all dates.",
 "all dates, poles in the unit disc, locators, polar motion angles","Tests compare final matrices against vectors with xp = yp = 0 only for the date-driven composition, so polar motion in the full chain is never checked.",
 [fra,ear],[("celestial_to_terrestrial and the functions it calls",fra),("polar_motion_matrix",ear)])
p("C14","Bias, precession and nutation follow the IAU 2000B expressions for every date",
 "For every TT from 1800 to 2200 (any split with both parts within 3e6 days), the nutation angles equal the 77-term IAU 2000B series with its fixed planetary offsets, mean obliquity is the IAU 1980 polynomial, the precession-rate corrections are -0.29965 and -0.02524 arcsec per century, the frame bias is (-0.041775, -0.0068192, -0.0146) arcsec, the bias, precession and nutation matrices are the defined products of rotations by these angles, and the precession-nutation matrix is nutation * precession * bias with obliquity mean obliquity plus the obliquity rate correction. Angles agree with the expression to within 1e-13 rad, and matrix entries to within 1e-13; the nutation matrix does so for any angles up to 100 rad.",
 "all TT dates in four centuries and all their splits","Test vectors sample a finite set of dates, in one split each.",
 [fra],[("nutation, precession_rate, mean_obliquity, frame_bias, bias_and_precession, nutation_matrix, PrecessionNutation",fra)])
p("C15","CIO locator and fundamental arguments follow the IERS 2003 expressions",
 "For every TT from 1800 to 2200 (any split) and pole (x,y) within 0.1, the CIO locator s equals the IAU 2000 expression: the series of 33+3+25+4+1 terms over the eight fundamental arguments plus the fifth-degree polynomial, minus x*y/2, to within 1e-15 rad. Each fundamental argument equals its IERS 2003 polynomial modulo one full turn to within 2e-11 rad (the general precession: 1e-14 rad).",
 "all TT dates in four centuries; all poles within 0.1","Test vectors sample a finite set of dates; the fundamental arguments are not tested on their own.",
 [loc,fun],[("locator::cio and its tables",loc),("l03, lp03, f03, d03, om03, ve03, e03, pa03",fun)])
p("C16","Earth position is the SOFA EPV00 series for every date",
 "For every TDB from 1900 to 2100 (any split with both parts within 3e6 days), the heliocentric and barycentric Earth position equals the series of SOFA epv00.for (the term tables, term counts and ecliptic-to-BCRS matrix of the Fortran source shipped in the repository), to within 1e-12 au when the first part is 2451545, 2e-12 au when it is 2400000.5 and 5e-11 au for any other split. The barycentric result is the heliocentric series plus the Sun-to-barycentre series.",
 "all TDB dates in two centuries and all their splits","The only test asserts that no warning is raised and prints the position; no value of position is compared with anything.",
 [ear,epv,"fortran/epv00.for"],[("impl From<TDB> for EarthPosVel",ear),("E0,E1,E2,S0,S1,S2 tables",epv)])
p("C17","Earth velocity is the time derivative of Earth position",
 "For every TDB from 1900 to 2100, the heliocentric and barycentric velocities (au/day) are the exact derivative with respect to time in days of the corresponding position series, to within 2e-14 au/day when the first part of the date is 2451545, 5e-14 when it is 2400000.5 and 1e-12 for any other split with both parts within 3e6 days.",
 "all TDB dates in two centuries","No test looks at velocities.",
 [ear,epv],[("xyzd accumulation in impl From<TDB> for EarthPosVel",ear)])
p("C18","The out-of-range warning is raised exactly outside a century around J2000",
 "The Earth ephemeris carries the date-out-of-range warning exactly when the TDB date is 100 Julian years (36525 days) or more from 2451545.0, infinite or NaN; dates inside never carry it (dates (d1,d2) within 2^-50*(1+|d1|+|d2|) days of the boundary excepted). The computation never panics for any date.",
 "all pairs of IEEE doubles","The single test uses 24 instants of the year 2000.",
 [ear],[("warning in impl From<TDB> for EarthPosVel",ear)])
p("C19","Geodetic coordinates map to the point at that height along the ellipsoid normal",
 "For every valid ellipsoid (radius in [1,1e9] m, flattening in [0,0.9]), finite longitude, latitude and height (|height| up to 1e12 m), the geocentric point equals the point of the ellipsoid with that longitude and whose outward unit normal has that latitude, plus height times that normal, to within 2^-45*(radius+|height|) when the flattening is at most 0.01 and 1e-10*(radius+|height|) up to 0.9; the conversion always succeeds. The zenith vector of a position is that unit normal (cos lat cos lon, cos lat sin lon, sin lat) to within 1e-15.",
 "all ellipsoids in the stated range, all angles and heights","The test only checks a round trip on WGS84 in the southern hemisphere at heights below 10 km; a matching error in both directions would cancel.",
 [ell],[("EllipsoidConverter::geodetic_to_geocentric, Geodetic::zenith",ell)])
p("C20","Geocentric to geodetic conversion inverts the forward conversion",
 "On WGS84 (equatorial radius 6378137 m, flattening 1/298.257223563), for every geocentric point at a distance of 6e6 m to 1e9 m from the Earth's centre: the longitude is atan2(y,x) to 1e-15 (within a nanometre of the axis it may be any constant); the latitude lies in [-pi/2, pi/2]; for z different from zero, changing the sign of z changes the sign of the latitude bit for bit and keeps longitude and height bit for bit; and converting the result back to geocentric coordinates gives the original point to within 2e-5 m up to a distance of 6.9e6 m, 2e-3 m up to 4e7 m and 3e-3 m up to 1e9 m. A point on the axis gives latitude +-pi/2 and height |z| minus the polar radius (to 1e-6 m).",
 "all geocentric points in the shell","1000 random points in the southern hemisphere below 10 km altitude are tested.",
 [ell],[("EllipsoidConverter::geocentric_to_geodetic",ell)])
p("C21","Only meaningful ellipsoids are accepted",
 "Building a converter succeeds exactly when the flattening is in [0,1) and the radius is greater than zero; a flattening outside that range or NaN fails with the invalid-flattening error, otherwise a radius that is zero, negative or NaN fails with the invalid-radius error. A flattening above 1-1e-7 may be refused with the eccentricity error instead. A successful converter reports the ellipsoid it was given.",
 "all pairs of IEEE doubles","Only WGS84 is ever constructed.",
 [ell],[("EllipsoidConverter::new",ell)])
p("C22","Degrees and radians denote the same position, normalised",
 "For every finite geodetic position with longitude and latitude up to 1e6 rad in magnitude (1e8 degrees for the other direction), conversion to degrees gives a longitude in [-180,180) congruent to the original modulo 360 degrees, keeps the height, and gives a latitude in [-90,90]; for latitudes within [-pi/2,pi/2], both poles included, the latitude in degrees is the original latitude. Conversion from degrees multiplies longitude and latitude by pi/180 and keeps the height. Agreement is to within 2^-40*(1+|angle|) and neither direction panics.",
 "all finite positions in the stated range","The conversion is only exercised through one formatted output.",
 [ell],[("From<&Geodetic> for Geodetic360, From<&Geodetic360> for Geodetic",ell)])
p("C23","The angle between two vectors is always a number in [0, pi]",
 "For any two vectors with finite components and lengths between 1e-100 and 1e100, normalising either gives the vector divided by its length, each component to within 2^-49, and the angle between them is a number (never NaN) in [0, pi], bit for bit symmetric in its arguments, and the arc cosine of their normalised dot product, that product to within 2^-46. In particular parallel and anti-parallel vectors never produce NaN.",
 "all pairs of vectors in the stated range","No test calls angle, norm or normalize.",
 [com],[("Vector::angle, Vector::normalize, Vector::norm",com)])
p("C24","The Sun zenith angle chains the time scales, frames and ephemeris correctly",
 "For every valid date (any year the constructor accepts) and time of day (hour 0..23, minute 0..59, 0 <= second < 60), position (longitude and latitude up to 1e8 degrees, height up to 1e12 m in magnitude) and time shift up to 1e9 s in magnitude, the Sun-angle calculator never fails or panics and returns: UTC = date and time plus the shift in seconds, TAI = UTC + dAT of that date (0 before 1960), TT = TAI + 32.184 s, UT1 = UTC - 0.072073685 s (the parts of each date adding up to within 2^-49*(1+|day count|+|shift in days|) days), the Earth rotation angle of that UT1, the heliocentric Earth position at TDB = TT, the geocentric point of the position on WGS84, the Sun vector (minus the Earth position, in metres) rotated into the terrestrial frame of that TT and UT1 with pole (0.0349282, 0.4833163) arcsec (each component within 2^-48 of the sum of the magnitudes of its terms), and a zenith angle that is the angle between that vector and the position's zenith.",
 "all valid parameters and time shifts","tofas_extras has no test at all.",
 [sun],[("SunAngleCalculator::new and compute",sun)])
p("C25","Printed dates, times and positions read back as the same value",
 "For every date the constructor accepts, the date prints as year-month-day with the year zero-padded to at least four characters (a minus sign counted) and month and day to two digits. For any hour and minute bytes and any finite second that is not negative, a time prints as HH:MM:SS.ffffff: hour and minute zero-padded to two digits, the second with six decimals zero-padded to nine characters. A combined date and time prints as the date, one space and the time. A position in degrees prints as latitude, longitude and height separated by commas, each always signed and zero-padded: latitude with six decimals in at least 10 characters, longitude with six decimals in at least 11, height with two decimals in at least 9. A position in radians (angles up to 1e6) prints as its conversion to degrees does. Every number shown is the stored value correctly rounded to the decimals shown (so a second of 59.9999996 shows as 60.000000).",
 "all values of the printable types in the stated ranges","One position is formatted in a test.",
 [cal,ell],[("impl Display for GregorianDate, HMS, GregorianDateHMS",cal),("impl Display for Geodetic, Geodetic360",ell)])
p("C26","The command-line tools print the library's result for their arguments",
 "The Sun-angle report of any valid date, non-negative second and finite values (up to 1e15; rotation angle up to 1e6 rad, zenith angle 0 to 4 rad) prints fourteen lines with fixed labels and formats: date; time and the signed shift in seconds; Julian date as the sum and both parts; position in degrees; geocentric X, Y, Z; UTC, Delta AT, TAI, TT and UT1 (each time scale as the sum of its two parts); the Earth rotation angle in degrees; the Earth position; the Sun position; the zenith angle in degrees and the elevation, which is 90 minus it. Each number is the value of that field of the parameters or result (derived ones to within 2^-49 relative) correctly rounded to the decimals shown. The default parameters are 2007-04-05, 00:00:00, latitude 0, longitude -120, height 0. julian_tool gregorian (or g) prints the date, the time (by default 12:00:00), the Julian date with the fraction of day added, and the fraction of day; julian (or j) prints the sum of --jd and --jd2 (by default 0) and the date, fraction of day and time the library converts them to. sun_angle_tool prints the report of its parameters (by default the default parameters) at the shift --delta0 (by default -600 s) when that does not exceed --delta1 (600 s), or with --scan one introductory line and then an empty line and a report for every shift from --delta0 up to --delta1 in steps of --delta_step (60 s). A missing or unparsable option, a date the library refuses, an unknown subcommand and (except for gregorian) leftover arguments end the tool with an error status.",
 "all values in the stated ranges; all argument vectors","No test prints a report; the examples are compiled but never run by the tests.",
 ["crates/tofas_extras/src/sun_angle.rs","crates/tofas_extras/examples/julian_tool.rs","crates/tofas_extras/examples/sun_angle_tool.rs"],[("impl Display for SunAngleResultBundle, impl Default for SunAngleParameters","crates/tofas_extras/src/sun_angle.rs"),("main of each tool","crates/tofas_extras/examples")],over=("inputs","configurations"))
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), max(len(x['title']) for x in P))
