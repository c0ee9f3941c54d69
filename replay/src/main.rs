//! Runs one public function of the real crates per input line and prints the
//! bits of the result: replays the verifier's counterexamples.
use std::io::{BufRead, Write};
use std::panic::catch_unwind;
use tofas::{calendar::*, common::*, delta_at::*, earth::{self, *}, ellipsoid::*, frames, fundargs, locator, time::*};
use tofas_extras::sun_angle::*;

struct A<'a>(std::str::SplitWhitespace<'a>);
impl<'a> A<'a> {
    fn f(&mut self) -> f64 { f64::from_bits(u64::from_str_radix(self.0.next().unwrap(), 16).unwrap()) }
    fn i(&mut self) -> i32 { self.0.next().unwrap().parse().unwrap() }
    fn v(&mut self) -> Vec3 { [self.f(), self.f(), self.f()] }
    fn m(&mut self) -> Mat3 { [self.v(), self.v(), self.v()] }
    fn p(&mut self) -> (f64, f64) { (self.f(), self.f()) }
    fn date(&mut self) -> GregorianDate { GregorianDate { year: self.i(), month: self.i(), day: self.i() } }
    fn gd(&mut self) -> Geodetic { Geodetic { elong: self.f(), phi: self.f(), height: self.f() } }
    fn el(&mut self) -> Ellipsoid { Ellipsoid { a: self.f(), f: self.f() } }
    fn hms(&mut self) -> HMS { HMS { hour: self.i() as u8, minute: self.i() as u8, second: self.f() } }
}
struct O(String);
impl O {
    fn f(mut self, x: f64) -> O { self.0 += &format!(" {:016x}", x.to_bits()); self }
    fn s(mut self, x: &str) -> O { self.0 += " s"; for b in x.bytes() { self.0 += &format!("{:02x}", b); } self }
    fn i(mut self, x: i64) -> O { self.0 += &format!(" {}", x); self }
    fn v(self, x: &[f64]) -> O { x.iter().fold(self, |o, &y| o.f(y)) }
    fn m(self, x: &Mat3) -> O { x.iter().fold(self, |o, y| o.v(y)) }
    fn p(self, x: (f64, f64)) -> O { self.f(x.0).f(x.1) }
    fn date(self, d: &GregorianDate) -> O { self.i(d.year as i64).i(d.month as i64).i(d.day as i64) }
    fn hms(self, h: &HMS) -> O { self.i(h.hour as i64).i(h.minute as i64).f(h.second) }
}
fn ok() -> O { O("ok".into()) }
fn err<E: std::fmt::Debug>(e: E) -> O { O(format!("err {:?}", e)) }

fn run(line: &str) -> O {
    let mut it = line.split_whitespace();
    let name = it.next().unwrap();
    let mut a = A(it);
    match name {
        "date_new" => match GregorianDate::new(a.i(), a.i(), a.i()) { Ok(d) => ok().date(&d), Err(e) => err(e) },
        "to_julian" => ok().p(a.date().to_julian()),
        "from_julian" => match GregorianDate::from_julian(a.f(), a.f()) { Ok((d, f)) => ok().date(&d).f(f), Err(e) => err(e) },
        "roundtrip" | "roundtrip_swap" => {
            let (a, b) = a.date().to_julian();
            let r = if name == "roundtrip" { GregorianDate::from_julian(a, b) } else { GregorianDate::from_julian(b, a) };
            match r { Ok((d, f)) => ok().date(&d).f(f), Err(e) => err(e) }
        }
        "hms_from" => match HMS::from_fraction_of_day(a.f()) { Ok(h) => ok().hms(&h), Err(e) => err(e) },
        "hms_rt" => match HMS::from_fraction_of_day(a.f()) { Ok(h) => ok().f(h.to_fraction_of_day()), Err(e) => err(e) },
        "hms_to" => ok().f(a.hms().to_fraction_of_day()),
        "hms_new" => ok().hms(&HMS::new(a.i() as u8, a.i() as u8, a.f())),
        "dh_from" => match GregorianDateHMS::from_julian(a.f(), a.f()) { Ok(d) => ok().date(&d.date).hms(&d.hms), Err(e) => err(e) },
        "dh_to" => { let date = a.date(); let hms = a.hms(); ok().p(GregorianDateHMS { date, hms }.to_julian()) }
        "delta_at" => { let d = a.date(); match d.delta_at(a.f()) { Ok(Some(x)) => ok().i(1).f(x), Ok(None) => ok().i(0), Err(e) => err(e) } }
        "tt_from_ut1" => ok().p(TT::from_ut1(UT1(a.p()), a.f()).0),
        "tai_from_utc" => ok().p(TAI::from_utc_delta_at(UTC(a.p()), a.f()).0),
        "tt_from_tai" => ok().p(TT::from(TAI(a.p())).0),
        "tdb_from_tt" => ok().p(TDB::from_tt(TT(a.p()), a.f()).0),
        "ut1_from_tt" => ok().p(UT1::from_tt(TT(a.p()), a.f()).0),
        "tt_total" => ok().f(TT(a.p()).total()),
        "utc_total" => ok().f(UTC(a.p()).total()),
        "tai_total" => ok().f(TAI(a.p()).total()),
        "ut1_total" => ok().f(UT1(a.p()).total()),
        "anp" => ok().f(anp(a.f())),
        "era" => ok().f(earth::rotation_angle(UT1(a.p()))),
        "vneg" => ok().v(&a.v().neg()),
        "vscale" => ok().v(&a.v().scale(a.f())),
        "vadd" => ok().v(&Vector::add(a.v(), a.v())),
        "vsub" => ok().v(&Vector::sub(a.v(), a.v())),
        "vnorm" => ok().f(a.v().norm()),
        "vnormalize" => ok().v(&a.v().normalize()),
        "vdot" => ok().f(a.v().dot(a.v())),
        "vangle" => ok().f(a.v().angle(a.v())),
        "mzero" => ok().m(&Mat3::zero()),
        "midentity" => ok().m(&Mat3::identity()),
        "mapply" => { let m = a.m(); ok().v(&m.apply(a.v())) }
        "mcompose" => { let m = a.m(); ok().m(&m.compose(&a.m())) }
        "mtranspose" => ok().m(&a.m().transpose()),
        "mrotation" => ok().m(&Mat3::rotation(a.i() as usize, a.f())),
        "pom" => ok().m(&polar_motion_matrix(a.f(), a.f(), a.f())),
        "nutation_matrix" => ok().m(&frames::nutation_matrix(a.f(), a.f(), a.f())),
        "nutation" => ok().p(frames::nutation(TT(a.p()))),
        "precession_rate" => ok().p(frames::precession_rate(TT(a.p()))),
        "mean_obliquity" => ok().f(frames::mean_obliquity(TT(a.p()))),
        "frame_bias" => { let (x, y, z) = frames::frame_bias(); ok().v(&[x, y, z]) }
        "bias_and_precession" => { let (x, y, z) = frames::bias_and_precession(TT(a.p())); ok().m(&x).m(&y).m(&z) }
        "precession_nutation" => ok().m(&frames::precession_nutation(TT(a.p()))),
        "pn_dpsi" => { let pn: frames::PrecessionNutation = TT(a.p()).into(); ok().f(pn.dpsi) }
        "c2i" => ok().m(&frames::celestial_to_intermediate(TT(a.p()))),
        "c2i_bpn" => { let t = TT(a.p()); ok().m(&frames::celestial_to_intermediate_with_bpn(t, &a.m())) }
        "c2i_xy" => ok().m(&frames::celestial_to_intermediate_with_bpn_and_xy(TT(a.p()), a.f(), a.f())),
        "c2i_xys" => ok().m(&frames::celestial_to_intermediate_from_xys(a.f(), a.f(), a.f())),
        "xy_bpn" => ok().p(frames::xy_from_bpn(&a.m())),
        "c2t_cio" => { let m = a.m(); let e = a.f(); ok().m(&frames::celestial_to_terrestrial_from_cio_components(&m, e, &a.m())) }
        "c2t" => ok().m(&frames::celestial_to_terrestrial(TT(a.p()), UT1(a.p()), a.f(), a.f())),
        // the function, then the composition of the public functions it is specified by
        "c2i_chain" => { let t = a.p(); let m = frames::precession_nutation(TT(t)); let (x, y) = (m[2][0], m[2][1]);
            ok().m(&frames::celestial_to_intermediate(TT(t))).m(&frames::celestial_to_intermediate_from_xys(x, y, locator::cio(TT(t), x, y))) }
        "c2i_xy_chain" => { let t = a.p(); let (x, y) = a.p();
            ok().m(&frames::celestial_to_intermediate_with_bpn_and_xy(TT(t), x, y)).m(&frames::celestial_to_intermediate_from_xys(x, y, locator::cio(TT(t), x, y))) }
        "c2i_bpn_chain" => { let t = a.p(); let m = a.m(); let (x, y) = (m[2][0], m[2][1]);
            ok().m(&frames::celestial_to_intermediate_with_bpn(TT(t), &m)).m(&frames::celestial_to_intermediate_from_xys(x, y, locator::cio(TT(t), x, y))) }
        "c2t_chain" => { let t = a.p(); let u = a.p(); let (xp, yp) = a.p();
            let m = frames::precession_nutation(TT(t)); let (x, y) = (m[2][0], m[2][1]);
            let c = frames::celestial_to_intermediate_from_xys(x, y, locator::cio(TT(t), x, y));
            ok().m(&frames::celestial_to_terrestrial(TT(t), UT1(u), xp, yp))
                .m(&frames::celestial_to_terrestrial_from_cio_components(&c, earth::rotation_angle(UT1(u)), &polar_motion_matrix(xp, yp, 0.0))) }
        "cio" => ok().f(locator::cio(TT(a.p()), a.f(), a.f())),
        "l03" => ok().f(fundargs::l03(a.f())),
        "lp03" => ok().f(fundargs::lp03(a.f())),
        "f03" => ok().f(fundargs::f03(a.f())),
        "d03" => ok().f(fundargs::d03(a.f())),
        "om03" => ok().f(fundargs::om03(a.f())),
        "ve03" => ok().f(fundargs::ve03(a.f())),
        "e03" => ok().f(fundargs::e03(a.f())),
        "pa03" => ok().f(fundargs::pa03(a.f())),
        "epv" => {
            let e: EarthPosVel = TDB(a.p()).into();
            ok().v(&e.heliocentric.p).v(&e.heliocentric.v).v(&e.barycentric.p).v(&e.barycentric.v).i(e.warning.is_some() as i64)
        }
        // Earth position and velocity, then the derivative of the position by an eighth-order finite difference
        "epv_fd" => {
            let (d1, d2) = a.p();
            let pos = |x: f64| -> [f64; 6] { let e: EarthPosVel = TDB((d1, x)).into(); let (h, b) = (e.heliocentric.p, e.barycentric.p); [h[0], h[1], h[2], b[0], b[1], b[2]] };
            let e: EarthPosVel = TDB((d1, d2)).into();
            let mut fd = [0.0; 6];
            for (i, w) in [(1.0, 4.0 / 5.0), (2.0, -1.0 / 5.0), (3.0, 4.0 / 105.0), (4.0, -1.0 / 280.0)] {
                let (x, y) = (pos(d2 + 0.5 * i), pos(d2 - 0.5 * i));
                for k in 0..6 { fd[k] += 2.0 * w * (x[k] - y[k]); }
            }
            ok().v(&e.heliocentric.p).v(&e.heliocentric.v).v(&e.barycentric.p).v(&e.barycentric.v).v(&fd)
        }
        "ec_new" => match EllipsoidConverter::new(&a.el()) { Ok(c) => { let e = c.ellipsoid(); ok().f(e.a).f(e.f) } Err(e) => err(e) },
        "gd2gc" => match EllipsoidConverter::new(&a.el()) { Ok(c) => match { let g = a.gd(); let _ = c.geodetic_to_geocentric(&Geodetic { phi: g.phi * 0.999, ..g }); c.geodetic_to_geocentric(&g) } { Ok(v) => ok().v(&v), Err(e) => err(e) }, Err(e) => err(e) },
        "gc2gd" => match EllipsoidConverter::new(&a.el()) { Ok(c) => { let v = a.v(); c.geocentric_to_geodetic(&[v[0] * 1.001 + 1.0, v[1], v[2]]); let g = c.geocentric_to_geodetic(&v); ok().v(&[g.elong, g.phi, g.height]) } Err(e) => err(e) },
        "zenith" => ok().v(&a.gd().zenith()),
        "gd_to_360" => { let g: Geodetic360 = (&a.gd()).into(); ok().v(&[g.lon, g.lat, g.height]) }
        "gd_to_360v" => { let g: Geodetic360 = a.gd().into(); ok().v(&[g.lon, g.lat, g.height]) }
        "gd_from_360" => { let (lon, lat, height) = (a.f(), a.f(), a.f()); let g: Geodetic = (&Geodetic360 { lon, lat, height }).into(); ok().v(&[g.elong, g.phi, g.height]) }
        "gd_from_360v" => { let (lon, lat, height) = (a.f(), a.f(), a.f()); let g: Geodetic = Geodetic360 { lon, lat, height }.into(); ok().v(&[g.elong, g.phi, g.height]) }
        "sun" => {
            let date = a.date(); let time = a.hms();
            let (lon, lat, height) = (a.f(), a.f(), a.f());
            let c = SunAngleCalculator::new(&SunAngleParameters { date, time, position: Geodetic360 { lon, lat, height } });
            let d = a.f(); c.compute(d + 30.0);
            let r = c.compute(d);
            ok().f(r.jd0).f(r.jd1).f(r.delta_s).v(&r.p).p(r.utc.0).f(r.dat).p(r.tai.0).p(r.tt.0).p(r.ut1.0).f(r.era).v(&r.earth).v(&r.sun_e).f(r.sza)
        }
        "wgs84" => ok().f(WGS84.a).f(WGS84.f),
        // geocentric -> geodetic on WGS84, back to geocentric, and the mirrored point
        "gc2gd_rt" => {
            let v = a.v();
            let c = EllipsoidConverter::new(&Ellipsoid { a: 6378137.0, f: 1.0 / 298.257223563 }).unwrap();
            let g = c.geocentric_to_geodetic(&v);
            let b = c.geodetic_to_geocentric(&g).unwrap();
            let m = c.geocentric_to_geodetic(&[v[0], v[1], -v[2]]);
            ok().f(g.elong).f(g.phi).f(g.height).v(&b).f(m.elong).f(m.phi).f(m.height)
        }
        // the calculator, then the public functions at the dates it returned
        "sun_chain" => {
            let date = a.date(); let time = a.hms();
            let position = Geodetic360 { lon: a.f(), lat: a.f(), height: a.f() };
            let gd: Geodetic = (&position).into();
            let c = SunAngleCalculator::new(&SunAngleParameters { date, time, position });
            // an earlier call must not matter
            let d = a.f(); c.compute(d + 30.0);
            let r = c.compute(d);
            let e: EarthPosVel = TDB::from_tt(r.tt, 0.0).into();
            let s = std::f64::consts::PI / 648000.0;
            let m = frames::celestial_to_terrestrial(r.tt, r.ut1, 0.0349282 * s, 0.4833163 * s);
            let mut sun = [0.0; 3];
            for i in 0..3 { for j in 0..3 { sun[i] -= m[i][j] * e.heliocentric.p[j] * 149597870700.0; } }
            let p = EllipsoidConverter::new(&Ellipsoid { a: 6378137.0, f: 1.0 / 298.257223563 }).unwrap().geodetic_to_geocentric(&gd).unwrap();
            ok().f(r.jd0).f(r.jd1).f(r.delta_s).v(&r.p).p(r.utc.0).f(r.dat).p(r.tai.0).p(r.tt.0).p(r.ut1.0).f(r.era).v(&r.earth).v(&r.sun_e).f(r.sza)
                .f(earth::rotation_angle(r.ut1)).v(&e.heliocentric.p).v(&p).v(&sun).v(&gd.zenith())
        }
        "sun_report" => {
            let date = a.date(); let time = a.hms();
            let (lon, lat, height) = (a.f(), a.f(), a.f());
            let p = SunAngleParameters { date, time, position: Geodetic360 { lon, lat, height } };
            let r = SunAngleCalculator::new(&p).compute(a.f());
            let text = SunAngleResultBundle { parameters: &p, result: &r }.to_string();
            ok().s(&text).f(r.jd0).f(r.jd1).f(r.delta_s).v(&r.p).p(r.utc.0).f(r.dat).p(r.tai.0).p(r.tt.0).p(r.ut1.0).f(r.era).v(&r.earth).v(&r.sun_e).f(r.sza)
        }
        // the report of arbitrary values
        "sun_text" => {
            let date = a.date(); let time = a.hms();
            let (lon, lat, height) = (a.f(), a.f(), a.f());
            let p = SunAngleParameters { date, time, position: Geodetic360 { lon, lat, height } };
            let r = SunAngleResult { jd0: a.f(), jd1: a.f(), delta_s: a.f(), p: a.v(), utc: UTC(a.p()), dat: a.f(), tai: TAI(a.p()), tt: TT(a.p()), ut1: UT1(a.p()), era: a.f(), earth: a.v(), sun_e: a.v(), sza: a.f() };
            ok().s(&SunAngleResultBundle { parameters: &p, result: &r }.to_string())
        }
        "sun_default" => { let p = SunAngleParameters::default(); ok().i(p.date.year as i64).i(p.date.month as i64).i(p.date.day as i64).i(p.time.hour as i64).i(p.time.minute as i64).f(p.time.second).f(p.position.lon).f(p.position.lat).f(p.position.height) }
        "fmt_date" => ok().s(&a.date().to_string()),
        "fmt_hms" => ok().s(&a.hms().to_string()),
        "fmt_dh" => { let date = a.date(); let hms = a.hms(); ok().s(&GregorianDateHMS { date, hms }.to_string()) }
        "fmt_gd360" => { let (lon, lat, height) = (a.f(), a.f(), a.f()); ok().s(&Geodetic360 { lon, lat, height }.to_string()) }
        // the text, then the position in degrees
        "fmt_gd" => { let g = a.gd(); let s = g.to_string(); let g: Geodetic360 = (&g).into(); ok().s(&s).v(&[g.lon, g.lat, g.height]) }
        o => O(format!("bad {}", o)),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        if l.trim().is_empty() { continue; }
        let r = match catch_unwind(|| run(&l)) { Ok(o) => o.0, Err(_) => "panic".to_string() };
        writeln!(out, "{}", r).unwrap();
    }
}
