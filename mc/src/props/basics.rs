//! C01 units, C02 compass, C03 direction conventions, C04 coordinates, C05 distance, C06 model runs.
use crate::explore::*;
use crate::util::*;
use chrono::{DateTime, Datelike, Duration, NaiveDate, TimeZone, Timelike, Utc};
use std::f64::consts::PI;
use surfrs::data::forecast_cbulletin_wave_data_record::ForecastCBulletinWaveRecord;
use surfrs::data::forecast_spectral_wave_data_record::ForecastSpectralWaveDataRecord;
use surfrs::data::wave_data_record::WaveDataRecord;
use surfrs::dimensional_data::DimensionalData;
use surfrs::location::*;
use surfrs::spectra::Spectra;
use surfrs::swell::{Swell, SwellSummary};
use surfrs::tools::date::*;
use surfrs::units::direction::DirectionConvention;
use surfrs::units::*;

// ---------------------------------------------------------------------------------------------
// C01

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    SmallLength,
    Length,
    Speed,
    Temperature,
    Pressure,
    Other,
}

pub const UNITS: [Unit; 20] = [
    Unit::Millimeters, Unit::Meters, Unit::MetersPerSecond, Unit::Celsius, Unit::Pascal, Unit::HectaPascal,
    Unit::Inches, Unit::Feet, Unit::MilesPerHour, Unit::Fahrenheit, Unit::InchesMercury, Unit::Knots, Unit::Kelvin,
    Unit::MetersSquaredPerHertz, Unit::NauticalMiles, Unit::Degrees, Unit::Seconds, Unit::Percent, Unit::KiloJoules, Unit::Unknown,
];
const SYSTEMS: [UnitSystem; 4] = [UnitSystem::Metric, UnitSystem::English, UnitSystem::Knots, UnitSystem::Kelvin];

fn kind(u: &Unit) -> Kind {
    match u {
        Unit::Millimeters | Unit::Inches => Kind::SmallLength,
        Unit::Meters | Unit::Feet => Kind::Length,
        Unit::MetersPerSecond | Unit::MilesPerHour | Unit::Knots => Kind::Speed,
        Unit::Celsius | Unit::Fahrenheit | Unit::Kelvin => Kind::Temperature,
        Unit::HectaPascal | Unit::InchesMercury => Kind::Pressure,
        _ => Kind::Other,
    }
}

/// The unit a system uses for the kind of quantity of `u`.
fn target_unit(u: &Unit, s: &UnitSystem) -> Unit {
    match (kind(u), s) {
        (Kind::SmallLength, UnitSystem::Metric) => Unit::Millimeters,
        (Kind::SmallLength, UnitSystem::English) => Unit::Inches,
        (Kind::Length, UnitSystem::Metric) => Unit::Meters,
        (Kind::Length, UnitSystem::English) => Unit::Feet,
        (Kind::Speed, UnitSystem::Metric) => Unit::MetersPerSecond,
        (Kind::Speed, UnitSystem::English) => Unit::MilesPerHour,
        (Kind::Speed, UnitSystem::Knots) => Unit::Knots,
        (Kind::Temperature, UnitSystem::Metric) => Unit::Celsius,
        (Kind::Temperature, UnitSystem::English) => Unit::Fahrenheit,
        (Kind::Temperature, UnitSystem::Kelvin) => Unit::Kelvin,
        (Kind::Pressure, UnitSystem::Metric) => Unit::HectaPascal,
        (Kind::Pressure, UnitSystem::English) => Unit::InchesMercury,
        _ => u.clone(),
    }
}

/// value in `u` -> SI (offset, scale): si = (v + off) * scale
fn si(u: &Unit) -> Option<(f64, f64)> {
    Some(match u {
        Unit::Millimeters => (0.0, 0.001),
        Unit::Inches => (0.0, 0.0254),
        Unit::Feet => (0.0, 0.3048),
        Unit::Meters => (0.0, 1.0),
        Unit::MetersPerSecond => (0.0, 1.0),
        Unit::MilesPerHour => (0.0, 0.44704),
        Unit::Knots => (0.0, 1852.0 / 3600.0),
        Unit::Kelvin => (0.0, 1.0),
        Unit::Celsius => (273.15, 1.0),
        Unit::Fahrenheit => (459.67, 5.0 / 9.0),
        Unit::Pascal => (0.0, 1.0),
        Unit::HectaPascal => (0.0, 100.0),
        Unit::InchesMercury => (0.0, 3386.389),
        _ => return None,
    })
}

/// What `v` in `from` reads in `to` (same kind of quantity).
fn physical(v: f64, from: &Unit, to: &Unit) -> f64 {
    match (si(from), si(to)) {
        (Some((o1, s1)), Some((o2, s2))) if from != to => (v + o1) * s1 / s2 - o2,
        _ => v,
    }
}

fn right_amount(got: f64, want: f64, to: &Unit) -> bool {
    match kind(to) {
        Kind::Temperature => (got - want).abs() <= 0.2,
        _ => close(got, want, 1e-12, 0.003),
    }
}

const VALUES: [f64; 27] = [
    0.0, 1.0, -1.0, 0.001, 0.5, 2.5, 3.281, 7.25, 9.9, 10.0, 12.0, 18.0, 25.4, 32.0, 33.0, 40.0, -40.0, 99.99, 100.0, 212.0,
    273.15, 1013.25, 4321.5, -17.5, 101325.0, 2.5e6, 1e-4,
];

fn check_dd(what: &str, before: &DimensionalData<f64>, after: &DimensionalData<f64>, s: &UnitSystem) -> Verdict {
    let want = target_unit(&before.unit, s);
    ensure!(after.unit == want, "{what}: {:?} converted to {s:?} is labelled {:?}, expected {want:?}", before.unit, after.unit);
    ensure!(after.variable_name == before.variable_name, "{what}: variable name changed");
    match (before.value, after.value) {
        (None, None) => Ok(()),
        (Some(b), Some(a)) => {
            let w = physical(b, &before.unit, &want);
            ensure!(right_amount(a, w, &want), "{what}: {b} {:?} converted to {s:?} gives {a} {want:?}, expected {w}", before.unit);
            Ok(())
        }
        (b, a) => fail(format!("{what}: {b:?} became {a:?}")),
    }
}

fn swell_of(h: Option<f64>, p: Option<f64>, d: Option<i32>, unit: Unit) -> Swell {
    Swell {
        wave_height: dd(h, unit),
        period: dd(p, Unit::Seconds),
        direction: dir(d),
        energy: Some(dd(Some(12.5), Unit::KiloJoules)),
        spectral_density: Some(dd(Some(0.75), Unit::MetersSquaredPerHertz)),
        partition: Some(3),
    }
}

fn same_but_height(what: &str, a: &Swell, b: &Swell) -> Verdict {
    ensure!(a.period == b.period, "{what}: period changed by conversion");
    ensure!(a.direction.value.as_ref().map(|d| d.degrees) == b.direction.value.as_ref().map(|d| d.degrees), "{what}: direction changed by conversion");
    ensure!(a.energy == b.energy && a.spectral_density == b.spectral_density && a.partition == b.partition, "{what}: other fields changed by conversion");
    Ok(())
}

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        level: "model_checking",
        rule: "every unit x every value (missing included) x every sequence of target systems; the model state is (unit, physical quantity), checked against the real conversion after every step",
        assumptions: vec!["accepted deviation from the exact physical factors: 0.3 % (0.2 degrees for temperatures); path independence to 1e-6"],
        families: vec![
            family("paths", "20 units x 28 values x all system sequences up to length 4 (quick) / 6 (thorough)", |c| {
                let u = c.pick(&UNITS);
                let vi = c.choose(VALUES.len() + 1);
                let v = VALUES.get(vi).copied();
                let len = c.t(4, 6);
                let mut cur = dd(v, u.clone());
                let start = cur.clone();
                let mut seq = vec![];
                for _ in 0..len {
                    let k = c.choose(SYSTEMS.len() + 1);
                    if k == SYSTEMS.len() {
                        break;
                    }
                    let s = &SYSTEMS[k];
                    seq.push(s.clone());
                    let before = cur.clone();
                    c.run("to_units", || { cur.to_units(s); })?;
                    check_dd("step", &before, &cur, s)?;
                    // idempotent
                    let mut again = cur.clone();
                    c.run("to_units", || { again.to_units(s); })?;
                    ensure!(again == cur, "{before:?}: converting twice to {s:?} gives {again:?} instead of {cur:?}");
                    // independent of the path: the same as going straight from the start
                    if cur.unit != start.unit {
                        if let (Some(a), Some(b)) = (cur.value, start.value) {
                            let mut direct = start.clone();
                            let sys = SYSTEMS.iter().find(|s| target_unit(&start.unit, s) == cur.unit);
                            if let Some(sys) = sys {
                                c.run("to_units", || { direct.to_units(sys); })?;
                                let d = direct.value.unwrap_or(f64::NAN);
                                ensure!(close(a, d, 1e-6, 1e-6), "{b} {:?} via {seq:?} gives {a}, directly {d} {:?}", start.unit, cur.unit);
                            }
                        }
                    } else if let (Some(a), Some(b)) = (cur.value, start.value) {
                        ensure!(close(a, b, 1e-6, 1e-6), "{b} {:?} comes back as {a} after {seq:?}", start.unit);
                    }
                    c.state((format!("{:?}", cur.unit), cur.value.map(|x| (x * 1e6).round() as i64)));
                }
                c.compared(seq.len() as u64);
                c.sample(|| format!("{start:?} via {seq:?} -> {cur:?}"));
                Ok(())
            }),
            family("pairs", "every ordered pair of units that measure the same thing and have a direct conversion, 27 values plus a sweep", |c| {
                let pairs: [(Unit, Unit); 30] = [
                    (Unit::Millimeters, Unit::Meters), (Unit::Millimeters, Unit::Inches), (Unit::Meters, Unit::Millimeters), (Unit::Meters, Unit::Feet),
                    (Unit::MetersPerSecond, Unit::MilesPerHour), (Unit::MetersPerSecond, Unit::Knots), (Unit::Celsius, Unit::Fahrenheit), (Unit::Celsius, Unit::Kelvin),
                    (Unit::Pascal, Unit::HectaPascal), (Unit::HectaPascal, Unit::Pascal), (Unit::HectaPascal, Unit::InchesMercury), (Unit::Inches, Unit::Feet),
                    (Unit::Inches, Unit::Millimeters), (Unit::Feet, Unit::Inches), (Unit::Feet, Unit::Meters), (Unit::MilesPerHour, Unit::MetersPerSecond),
                    (Unit::MilesPerHour, Unit::Knots), (Unit::Fahrenheit, Unit::Celsius), (Unit::Fahrenheit, Unit::Kelvin), (Unit::InchesMercury, Unit::HectaPascal),
                    (Unit::Knots, Unit::MetersPerSecond), (Unit::Knots, Unit::MilesPerHour), (Unit::Kelvin, Unit::Celsius), (Unit::Kelvin, Unit::Fahrenheit),
                    (Unit::Percent, Unit::Percent), (Unit::Seconds, Unit::Seconds), (Unit::Degrees, Unit::Degrees), (Unit::KiloJoules, Unit::KiloJoules),
                    (Unit::Unknown, Unit::Unknown), (Unit::Meters, Unit::Meters),
                ];
                let (a, b) = c.pick(&pairs);
                let k = c.choose(300);
                let v = if k < VALUES.len() { VALUES[k] } else { (k as f64 - 160.0) * 1.75 };
                let got = c.run("convert", || a.convert(v, &b))?;
                let want = physical(v, &a, &b);
                ensure!(right_amount(got, want, &b), "{v} {a:?} in {b:?} is {got}, expected {want}");
                let back = c.run("convert", || b.convert(got, &a))?;
                ensure!(close(back, v, 1e-6, 1e-6), "{v} {a:?} -> {got} {b:?} -> {back}");
                c.state((format!("{a:?}{b:?}"), v.to_bits(), got.to_bits()));
                c.sample(|| format!("{v} {a:?} = {got} {b:?}"));
                Ok(())
            }),
            family("whole_numbers", "whole-number measurements -50..1100 of every unit, one conversion", |c| {
                let u = c.pick(&UNITS);
                let s = c.pick(&SYSTEMS);
                for v in -50i64..1100 {
                    let mut d = DimensionalData::<i64> { value: Some(v), variable_name: "n".into(), unit: u.clone() };
                    c.run("to_units", || { d.to_units(&s); })?;
                    let want = target_unit(&u, &s);
                    ensure!(d.unit == want, "{u:?} to {s:?} labelled {:?}", d.unit);
                    let w = physical(v as f64, &u, &want);
                    let got = d.value.ok_or_else(|| "value lost".to_string())? as f64;
                    ensure!((got - w).abs() <= 1.0 + 0.003 * w.abs() + 0.2, "{v} {u:?} to {s:?} gives {got}, expected {w}");
                    c.state((format!("{u:?}{s:?}"), v, got as i64));
                }
                Ok(())
            }),
            family("long_lists", "summaries and bulletin lines of 0..40 swells, one of them missing its height, every pair of systems", |c| {
                let n = c.range(0, 40) as usize;
                let missing = c.choose(n + 1);
                let bulletin = c.flag();
                let list: Vec<Swell> = (0..n).map(|i| swell_of((i != missing).then(|| 0.3 * i as f64), Some(6.0 + i as f64), Some(9 * i as i32), if i % 3 == 2 { Unit::Feet } else { Unit::Meters })).collect();
                let mut sum = SwellSummary { summary: swell_of(Some(4.0), Some(9.0), Some(1), Unit::Meters), components: list.clone() };
                let mut bull = ForecastCBulletinWaveRecord { date: Utc.with_ymd_and_hms(2023, 1, 2, 3, 0, 0).unwrap(), significant_wave_height: dd(Some(4.0), Unit::Meters), swell_components: list };
                for _ in 0..2 {
                    let k = c.choose(SYSTEMS.len());
                    let s = &SYSTEMS[k];
                    let (before, top) = (sum.components.clone(), sum.summary.wave_height.clone());
                    if bulletin {
                        c.run("to_units", || { bull.to_units(s); })?;
                        sum.components = bull.swell_components.clone();
                        sum.summary.wave_height = bull.significant_wave_height.clone();
                    } else {
                        c.run("to_units", || { sum.to_units(s); })?;
                    }
                    check_dd("total height", &top, &sum.summary.wave_height, s)?;
                    ensure!(sum.components.len() == n, "{} of {n} swells left", sum.components.len());
                    for (i, (p, q)) in before.iter().zip(&sum.components).enumerate() {
                        check_dd(&format!("height of swell {i} of {n}"), &p.wave_height, &q.wave_height, s)?;
                        same_but_height("component", p, q)?;
                    }
                    c.state((n, missing, bulletin, k));
                }
                Ok(())
            }),
            family("records", "swell, summary, wave, bulletin and spectral records; every field missing, zero or present; all system sequences up to length 3", |c| {
                let which = c.choose(5);
                let vals = [None, Some(2.5), Some(31.0), Some(0.0)];
                let (x, y, z) = (c.pick(&vals), c.pick(&vals), c.pick(&vals));
                let l = |v| dd(v, Unit::Meters);
                let sp = |v| dd(v, Unit::MetersPerSecond);
                let now = Utc.with_ymd_and_hms(2023, 1, 2, 3, 0, 0).unwrap();
                let mut wave = WaveDataRecord {
                    date: now, wave_height: l(x), swell_wave_height: l(y), swell_wave_period: dd(Some(9.0), Unit::Seconds), wind_wave_height: l(z),
                    wind_wave_period: dd(z, Unit::Seconds), swell_wave_direction: dir(Some(100)), wind_wave_direction: dir(None), steepness: Steepness::Steep,
                    average_wave_period: dd(x, Unit::Seconds), mean_wave_direction: dir(Some(7)),
                };
                let mut bull = ForecastCBulletinWaveRecord {
                    date: now, significant_wave_height: l(x),
                    swell_components: vec![swell_of(y, Some(7.0), Some(10), Unit::Meters), swell_of(z, None, None, Unit::Meters)],
                };
                let mut spec = ForecastSpectralWaveDataRecord {
                    date: now, reference_date: now, location: Location::new(1.0, 2.0, "p".into()), depth: l(x), wind_speed: sp(y), wind_direction: dir(Some(3)),
                    current_speed: sp(z), current_direction: dir(Some(4)), spectra: Spectra::new(vec![0.1, 0.2], vec![0.0, 1.0], vec![1.0, 2.0, 3.0, 4.0], DirectionConvention::Met),
                };
                let mut swell = swell_of(x, y, Some(33), Unit::Meters);
                let mut sum = SwellSummary { summary: swell_of(x, y, Some(1), Unit::Meters), components: vec![swell_of(y, z, None, Unit::Meters), swell_of(z, x, Some(359), Unit::Meters), swell_of(Some(1.0), x, Some(359), Unit::Feet)] };
                for _ in 0..3 {
                    let k = c.choose(SYSTEMS.len());
                    let s = &SYSTEMS[k];
                    match which {
                        0 => {
                            let b = wave.clone();
                            c.run("to_units", || { wave.to_units(s); })?;
                            for (n, p, q) in [("wave height", &b.wave_height, &wave.wave_height), ("swell height", &b.swell_wave_height, &wave.swell_wave_height),
                                ("wind wave height", &b.wind_wave_height, &wave.wind_wave_height), ("swell period", &b.swell_wave_period, &wave.swell_wave_period),
                                ("wind wave period", &b.wind_wave_period, &wave.wind_wave_period), ("average period", &b.average_wave_period, &wave.average_wave_period)] {
                                check_dd(n, p, q, s)?;
                            }
                            ensure!(wave.date == b.date && wave.steepness == b.steepness, "date or steepness changed");
                            for (p, q) in [(&b.swell_wave_direction, &wave.swell_wave_direction), (&b.wind_wave_direction, &wave.wind_wave_direction), (&b.mean_wave_direction, &wave.mean_wave_direction)] {
                                ensure!(p.value.as_ref().map(|d| d.degrees) == q.value.as_ref().map(|d| d.degrees) && p.unit == q.unit, "direction changed by conversion");
                            }
                        }
                        1 => {
                            let b = bull.clone();
                            c.run("to_units", || { bull.to_units(s); })?;
                            check_dd("significant height", &b.significant_wave_height, &bull.significant_wave_height, s)?;
                            ensure!(bull.swell_components.len() == 2, "components changed");
                            for (p, q) in b.swell_components.iter().zip(&bull.swell_components) {
                                check_dd("component height", &p.wave_height, &q.wave_height, s)?;
                                same_but_height("component", p, q)?;
                            }
                        }
                        2 => {
                            let b = spec.clone();
                            c.run("to_units", || { spec.to_units(s); })?;
                            check_dd("depth", &b.depth, &spec.depth, s)?;
                            check_dd("wind speed", &b.wind_speed, &spec.wind_speed, s)?;
                            check_dd("current speed", &b.current_speed, &spec.current_speed, s)?;
                            ensure!(b.spectra.energy == spec.spectra.energy && b.spectra.frequency == spec.spectra.frequency, "spectrum changed by conversion");
                        }
                        3 => {
                            let b = swell.clone();
                            c.run("to_units", || { swell.to_units(s); })?;
                            check_dd("height", &b.wave_height, &swell.wave_height, s)?;
                            same_but_height("swell", &b, &swell)?;
                        }
                        _ => {
                            let b = sum.clone();
                            c.run("to_units", || { sum.to_units(s); })?;
                            check_dd("summary height", &b.summary.wave_height, &sum.summary.wave_height, s)?;
                            same_but_height("summary", &b.summary, &sum.summary)?;
                            ensure!(sum.components.len() == b.components.len(), "components changed");
                            for (p, q) in b.components.iter().zip(&sum.components) {
                                check_dd("component height", &p.wave_height, &q.wave_height, s)?;
                                same_but_height("component", p, q)?;
                            }
                        }
                    }
                    c.state((which, k, x.map(|v| v.to_bits()), y.map(|v| v.to_bits()), z.map(|v| v.to_bits())));
                }
                c.sample(|| format!("record kind {which} with values {x:?} {y:?} {z:?}"));
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// C02

const POINTS: [(&str, CardinalDirection); 16] = [
    ("n", CardinalDirection::North), ("nne", CardinalDirection::NorthNorthEast), ("ne", CardinalDirection::NorthEast), ("ene", CardinalDirection::EastNorthEast),
    ("e", CardinalDirection::East), ("ese", CardinalDirection::EastSouthEast), ("se", CardinalDirection::SouthEast), ("sse", CardinalDirection::SouthSouthEast),
    ("s", CardinalDirection::South), ("ssw", CardinalDirection::SouthSouthWest), ("sw", CardinalDirection::SouthWest), ("wsw", CardinalDirection::WestSouthWest),
    ("w", CardinalDirection::West), ("wnw", CardinalDirection::WestNorthWest), ("nw", CardinalDirection::NorthWest), ("nnw", CardinalDirection::NorthNorthWest),
];

fn sector(deg: i32) -> CardinalDirection {
    // nearest of the 16 points, 22.5 degrees apart (whole degrees never tie: borders are at .25/.75)
    let k = (0..16).min_by(|a, b| circ(deg as f64, *a as f64 * 22.5).total_cmp(&circ(deg as f64, *b as f64 * 22.5))).unwrap();
    POINTS[k as usize].1.clone()
}

fn dir_ok(what: &str, d: &Direction, want: i32) -> Verdict {
    ensure!(d.degrees == want, "{what}: bearing {} instead of {want}", d.degrees);
    ensure!(*d.cardinal_direction() == sector(want), "{what}: {want} is called {:?}, nearest point is {:?}", d.cardinal_direction(), sector(want));
    Ok(())
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        level: "model_checking",
        rule: "all bearings, pairs of bearings, names in all letter cases, and all reversal sequences; the model is arithmetic modulo 360",
        assumptions: vec![],
        families: vec![
            family("bearings", "0..=360, every sequence of up to 4 flips/inverts", |c| {
                let d = c.range(0, 360) as i32;
                let card = c.run("from_degrees", || CardinalDirection::from_degrees(&d))?;
                ensure!(card == sector(d), "{d} is called {card:?}, nearest point is {:?}", sector(d));
                let mut cur = c.run("from_degrees", || Direction::from_degrees(d))?;
                dir_ok("from_degrees", &cur, d)?;
                let r = c.run("radian", || cur.radian())?;
                ensure!(close(r, d as f64 * PI / 180.0, 1e-9, 0.0), "{d} degrees is {r} rad");
                let back = c.run("from_radians", || Direction::from_radians(r))?;
                dir_ok("radians round trip", &back, d)?;
                let text = c.run("to_string", || cur.to_string())?;
                ensure!(text == format!("{d}\u{b0} {}", POINTS.iter().find(|p| p.1 == sector(d)).unwrap().0), "{d} is printed {text:?}");
                let parsed: Result<Direction, _> = c.run("parse", || d.to_string().parse())?;
                match parsed {
                    Ok(p) => dir_ok("parse", &p, d)?,
                    Err(_) => return fail(format!("{d} cannot be read")),
                }
                let mut want = d;
                for _ in 0..4 {
                    match c.choose(3) {
                        0 => break,
                        1 => {
                            c.run("flip", || cur.flip())?;
                            want = (want + 180) % 360;
                            dir_ok("flip", &cur, want)?;
                        }
                        _ => {
                            let o = cur.clone();
                            cur = c.run("invert", || o.invert())?;
                            want = (want + 180) % 360;
                            dir_ok("invert", &cur, want)?;
                            ensure!(o.is_opposite(&cur), "{} is not opposite of its reverse {}", o.degrees, cur.degrees);
                        }
                    }
                    c.state((d, cur.degrees));
                }
                c.sample(|| format!("{d} -> {text} -> {}", cur.degrees));
                Ok(())
            }),
            family("radians", "bearings in steps of 0.1 degree: nearest whole degree", |c| {
                let t = c.choose(3600);
                let deg = t as f64 * 0.1 + 0.05;
                let got = c.run("from_radians", || Direction::from_radians(deg.to_radians()))?;
                ensure!((got.degrees as f64 - deg).abs() <= 0.5001, "{deg} degrees in radians becomes {}", got.degrees);
                ensure!(*got.cardinal_direction() == sector(got.degrees), "{} is called {:?}", got.degrees, got.cardinal_direction());
                c.state(t);
                Ok(())
            }),
            family("pairs", "all ordered pairs 0..=360", |c| {
                let a = c.range(0, 360) as i32;
                for b in 0..=360 {
                    let (x, y) = (Direction::from_degrees(a), Direction::from_degrees(b));
                    let got = c.run("is_opposite", || x.is_opposite(&y))?;
                    let want = circ(a as f64, b as f64) >= 170.0;
                    ensure!(got == want, "{a} and {b}: opposite = {got}, they are {} degrees apart", circ(a as f64, b as f64));
                    c.state((a, b, got));
                }
                Ok(())
            }),
            family("names", "16 names, all letter cases, display and bearing", |c| {
                let i = c.choose(16);
                let (name, card) = &POINTS[i];
                let mut s = String::new();
                for ch in name.chars() {
                    s.push(if c.flag() { ch.to_ascii_uppercase() } else { ch });
                }
                let p: Result<CardinalDirection, _> = c.run("parse", || s.parse())?;
                match p {
                    Ok(p) => ensure!(p == *card, "{s:?} is read as {p:?}"),
                    Err(_) => return fail(format!("{s:?} cannot be read")),
                }
                let text = c.run("to_string", || card.to_string())?;
                ensure!(text == *name, "{card:?} is printed {text:?}");
                let deg = c.run("to_degrees", || card.to_degrees())?;
                ensure!(sector(deg) == *card && circ(deg as f64, i as f64 * 22.5) <= 0.5, "{card:?} stands for {deg} degrees");
                let d: Result<Direction, _> = c.run("parse", || s.parse())?;
                match d {
                    Ok(d) => dir_ok("parse name", &d, deg)?,
                    Err(_) => return fail(format!("{s:?} cannot be read as a direction")),
                }
                let f = c.run("from_cardinal_direction", || Direction::from_cardinal_direction(card.clone()))?;
                dir_ok("from_cardinal_direction", &f, deg)?;
                c.state(&s);
                Ok(())
            }),
            family("rubbish", "all strings of length <= 4 over a small alphabet that are neither a name nor a number are refused", |c| {
                let abc = ['n', 'E', 's', 'W', 'x', '-', '.', ' ', '1'];
                let len = c.choose(5);
                let s: String = (0..len).map(|_| c.pick(&abc)).collect();
                let is_name = POINTS.iter().any(|(n, _)| *n == s.to_ascii_lowercase());
                let num = s.parse::<i32>().ok();
                let d: Result<Direction, _> = c.run("parse", || s.parse())?;
                match d {
                    Ok(d) => ensure!(is_name || num == Some(d.degrees), "{s:?} is read as {}", d.degrees),
                    Err(_) => ensure!(!is_name && num.is_none(), "{s:?} is refused"),
                }
                c.state(&s);
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// C03

pub const CONV: [DirectionConvention; 3] = [DirectionConvention::From, DirectionConvention::Towards, DirectionConvention::Met];

/// The stored angle (degrees) that denotes waves coming from compass bearing `b`.
pub fn stored(conv: &DirectionConvention, b: f64) -> f64 {
    match conv {
        DirectionConvention::From => wrap360(b),
        DirectionConvention::Towards => wrap360(b + 180.0),
        DirectionConvention::Met => wrap360(270.0 - b),
    }
}

/// A spectrum whose cell (ik, from-bearing) carries `energy(ik, bearing)`, stored with ascending angles.
pub fn spectrum_in(conv: &DirectionConvention, freq: &[f64], nth: usize, offset: f64, energy: &dyn Fn(usize, f64) -> f64) -> (Spectra, Vec<f64>) {
    let step = 360.0 / nth as f64;
    let angles: Vec<f64> = (0..nth).map(|i| offset + i as f64 * step).collect();
    let bearings: Vec<f64> = angles
        .iter()
        .map(|a| match conv {
            DirectionConvention::From => wrap360(*a),
            DirectionConvention::Towards => wrap360(a + 180.0),
            DirectionConvention::Met => wrap360(270.0 - a),
        })
        .collect();
    let mut e = vec![0.0; freq.len() * nth];
    for ith in 0..nth {
        for ik in 0..freq.len() {
            e[ik + ith * freq.len()] = energy(ik, bearings[ith]);
        }
    }
    (Spectra::new(freq.to_vec(), angles.iter().map(|a| a.to_radians()).collect(), e, conv.clone()), bearings)
}

pub fn mean_bearing(pairs: &[(f64, f64)]) -> Option<f64> {
    let (mut s, mut c, mut t) = (0.0, 0.0, 0.0);
    for (b, w) in pairs {
        s += w * b.to_radians().sin();
        c += w * b.to_radians().cos();
        t += w.abs();
    }
    if (s * s + c * c).sqrt() < 1e-6 * (t + 1e-300) {
        None
    } else {
        Some(wrap360(s.atan2(c).to_degrees()))
    }
}

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        level: "model_checking",
        rule: "every convention x bearing; every energy pattern over small direction grids; the oracle is the vector mean of the coming-from bearings",
        assumptions: vec!["directions are stored ascending and evenly spaced", "reported swell directions are whole degrees (compared within 1 degree)"],
        families: vec![
            family("bearings", "3 conventions x bearings in steps of 0.25 degree", |c| {
                let conv = c.pick(&CONV);
                let b = c.choose(1440) as f64 * 0.25;
                let got = c.run("normalize", || conv.normalize(stored(&conv, b)))?;
                ensure!(circ(got, b) < 1e-9, "waves from {b} stored as {} ({conv:?}) are normalised to {got}", stored(&conv, b));
                ensure!((0.0..=360.0).contains(&got), "{got} is not a bearing");
                c.state((format!("{conv:?}"), b.to_bits()));
                Ok(())
            }),
            family("bins", "3 conventions x 2..72 directions x first-bin offsets", |c| {
                let conv = c.pick(&CONV);
                let nth = c.range(2, 72) as usize;
                let off = c.pick(&[0.0, 0.5, 5.0, 2.5]);
                if off + 360.0 * (nth as f64 - 1.0) / nth as f64 > 360.0 {
                    return Ok(());
                }
                let (s, bearings) = spectrum_in(&conv, &[0.1, 0.2], nth, off, &|_, _| 1.0);
                let deg = c.run("direction_deg", || s.direction_deg())?;
                let rad = c.run("direction_rad", || s.direction_rad())?;
                ensure!(deg.len() == nth && rad.len() == nth, "{} directions reported for {nth}", deg.len());
                for i in 0..nth {
                    ensure!(circ(deg[i], bearings[i]) < 1e-6 && deg[i] >= 0.0 && deg[i] <= 360.0, "bin {i} of {nth} ({conv:?}) is {} instead of {}", deg[i], bearings[i]);
                    ensure!(circ(rad[i].to_degrees(), bearings[i]) < 1e-6, "bin {i} in radians is {}", rad[i]);
                }
                ensure!(bits(&s.direction_raw()).len() == nth, "raw directions lost");
                c.state((format!("{conv:?}"), nth, off.to_bits()));
                Ok(())
            }),
            family("means", "all energy patterns {0,1,3} over 4..6 (quick) / 4..8 (thorough) directions, 3 conventions, 3 frequencies, rotations by every whole number of bins", |c| {
                let hi = c.t(6, 8);
                let nth = c.range(4, hi) as usize;
                let pat: Vec<f64> = (0..nth).map(|_| c.pick(&[0.0, 1.0, 3.0])).collect();
                let freq = geometric(0.06, 1.25, 3);
                let step = 360.0 / nth as f64;
                for conv in &CONV {
                    for rot in 0..nth {
                        // the pattern is defined on coming-from bearings, turned by rot bins
                        let val = |ik: usize, b: f64| {
                            let k = (b / step).round() as usize % nth;
                            let k = (k + nth - rot) % nth;
                            match ik {
                                0 => pat[k] * 2.0,
                                1 => pat[k] * 10.0,
                                _ => 1.0 + pat[(k + 1) % nth],
                            }
                        };
                        // offset chosen so that every bearing is a multiple of step
                        let off = match conv {
                            DirectionConvention::From => 0.0,
                            DirectionConvention::Towards => (180.0f64).rem_euclid(step),
                            DirectionConvention::Met => (270.0f64).rem_euclid(step),
                        };
                        let (s, bearings) = spectrum_in(conv, &freq, nth, off, &val);
                        let m = c.run("mean_wave_direction_f", || s.mean_wave_direction_f())?;
                        ensure!(m.len() == 3, "{} mean directions for 3 frequencies", m.len());
                        for ik in 0..3 {
                            let w: Vec<(f64, f64)> = bearings.iter().map(|b| (*b, val(ik, *b))).collect();
                            if let Some(want) = mean_bearing(&w) {
                                ensure!(circ(m[ik], want) < 1e-3, "{conv:?} pattern {pat:?} turned {rot}: mean direction at frequency {ik} is {} instead of {want}", m[ik]);
                                ensure!((-1e-9..360.0 + 1e-9).contains(&m[ik]), "mean direction {} out of range", m[ik]);
                            }
                        }
                        // the one swell made of everything
                        let parts = (vec![1; s.energy.len()], 2usize);
                        let sum = c.run("swell_data", || s.swell_data(None, None, None, &parts))?.map_err(|e| format!("swell_data: {e}"))?;
                        let wide: Vec<f64> = wave_weights(&freq);
                        let mut w = vec![];
                        for b in &bearings {
                            for ik in 0..3 {
                                w.push((*b, val(ik, *b) * wide[ik]));
                            }
                        }
                        if let Some(want) = strong_mean(&w) {
                            let got = sum.summary.direction.value.as_ref().ok_or_else(|| "no direction".to_string())?;
                            ensure!(circ(got.degrees as f64, want) <= 1.01, "{conv:?} pattern {pat:?} turned {rot}: swell from {} instead of {want}", got.degrees);
                            ensure!((0..=360).contains(&got.degrees), "direction {} out of range", got.degrees);
                            for comp in &sum.components {
                                let d = comp.direction.value.as_ref().unwrap();
                                ensure!(circ(d.degrees as f64, want) <= 1.01, "{conv:?} pattern {pat:?} turned {rot}: component from {} instead of {want}", d.degrees);
                            }
                        }
                        c.compared(5);
                        c.state((format!("{conv:?}"), rot, bits(&pat)));
                    }
                }
                c.sample(|| format!("{nth} directions, pattern {pat:?}, all conventions and rotations"));
                Ok(())
            }),
            family("wind_components", "u,v on a circle in steps of 1 degree x 3 speeds", |c| {
                let deg = c.choose(360) as f64;
                let speed = c.pick(&[0.5, 7.0, 40.0]);
                // wind coming from bearing deg+0.5 blows towards the opposite side
                let b = deg + 0.5;
                let (u, v) = (-speed * b.to_radians().sin(), -speed * b.to_radians().cos());
                let (s, a) = c.run("scalar_from_uv", || surfrs::tools::math::scalar_from_uv(u, v))?;
                ensure!(close(s, speed, 1e-9, 1e-9), "speed of ({u},{v}) is {s}");
                ensure!(circ(a as f64, b) <= 1.0 && (0..=360).contains(&a), "wind from {b} is reported from {a}");
                c.state((deg as i64, speed.to_bits()));
                Ok(())
            }),
        ],
    }
}

/// The mean bearing if it is well defined (not nearly cancelling).
pub fn strong_mean(pairs: &[(f64, f64)]) -> Option<f64> {
    let (mut s, mut c, mut t) = (0.0, 0.0, 0.0);
    for (b, w) in pairs {
        s += w * b.to_radians().sin();
        c += w * b.to_radians().cos();
        t += w.abs();
    }
    if (s * s + c * c).sqrt() < 0.02 * t || t == 0.0 {
        None
    } else {
        Some(wrap360(s.atan2(c).to_degrees()))
    }
}

// ---------------------------------------------------------------------------------------------
// C04

pub fn c04() -> Prop {
    Prop {
        id: "C04",
        level: "model_checking",
        rule: "coordinate lattices in every notation; the box oracle walks the arc eastwards from west to east in exact quarter degrees",
        assumptions: vec!["coordinates are multiples of 1/8 degree, so that the oracle is exact"],
        families: vec![
            family("normalise", "all longitudes -180..360 and latitudes -90..180 in steps of 1/8 degree", |c| {
                let lon = -180.0 + c.choose(4321) as f64 * 0.125;
                let n = c.run("normalize_longitude", || normalize_longitude(lon))?;
                let a = c.run("absolute_longitude", || absolute_longitude(lon))?;
                let loc = Location::new(0.0, lon, "x".into());
                let (rl, al) = c.run("relative/absolute", || (loc.relative_longitude(), loc.absolute_longitude()))?;
                for (w, v, lo, hi) in [("-180..180", n, -180.0, 180.0), ("0..360", a, 0.0, 360.0), ("-180..180", rl, -180.0, 180.0), ("0..360", al, 0.0, 360.0)] {
                    ensure!(circ(v, lon) < 1e-9 && v >= lo && v <= hi, "longitude {lon} written {w} is {v}");
                    if lon >= lo && lon <= hi {
                        ensure!(v == lon, "longitude {lon} is already {w} but became {v}");
                    }
                }
                ensure!(circ(normalize_longitude(a), lon) < 1e-9 && circ(absolute_longitude(n), lon) < 1e-9, "longitude {lon} does not survive both notations");
                c.state(lon.to_bits());
                if lon <= 180.0 && lon > -90.0 {
                    let lat = lon; // reuse the lattice: latitudes in -90..90 or 0..180 notation
                    let n = c.run("normalize_latitude", || normalize_latitude(lat))?;
                    let l = Location::new(lat, 0.0, "x".into());
                    let r = c.run("relative_latitude", || l.relative_latitude())?;
                    let want = if lat > 90.0 { lat - 180.0 } else { lat };
                    ensure!(n == want && r == want, "latitude {lat} normalises to {n} / {r}, expected {want}");
                    if lat <= 90.0 {
                        let ab = c.run("absolute_latitude", || l.absolute_latitude())?;
                        ensure!((0.0..=180.0).contains(&ab) && normalize_latitude(ab) == lat, "latitude {lat} written 0..180 is {ab}");
                        ensure!(lat < 0.0 || ab == lat, "latitude {lat} is already 0..180 but became {ab}");
                    }
                }
                Ok(())
            }),
            family("fine", "longitudes and latitudes 0.1 to 1e-9 degrees beside -180, -90, 0, 90, 180 and 360", |c| {
                let at = c.pick(&[-180.0, -90.0, 0.0, 90.0, 180.0, 270.0, 360.0]);
                let off = c.pick(&[0.1, 0.01, 1e-3, 1e-4, 1e-6, 1e-9]) * if c.flag() { 1.0 } else { -1.0 };
                let lon: f64 = at + off;
                if (-180.0..=360.0).contains(&lon) {
                    let loc = Location::new(0.0, lon, "x".into());
                    let v = c.run("longitudes", || [normalize_longitude(lon), loc.relative_longitude(), absolute_longitude(lon), loc.absolute_longitude()])?;
                    for (i, v) in v.into_iter().enumerate() {
                        let (lo, hi) = if i < 2 { (-180.0, 180.0) } else { (0.0, 360.0) };
                        ensure!(circ(v, lon) < 1e-11 && v >= lo && v <= hi, "longitude {lon} written {lo}..{hi} is {v}");
                        ensure!(lon < lo || lon > hi || v == lon, "longitude {lon} is already {lo}..{hi} but became {v}");
                    }
                }
                if (-90.0..=180.0).contains(&lon) {
                    let loc = Location::new(lon, 0.0, "x".into());
                    let v = c.run("latitudes", || [normalize_latitude(lon), loc.relative_latitude()])?;
                    let want = if lon > 90.0 { lon - 180.0 } else { lon };
                    ensure!(v == [want; 2], "latitude {lon} normalises to {v:?}, expected {want}");
                    if lon <= 90.0 {
                        let a = c.run("absolute_latitude", || loc.absolute_latitude())?;
                        ensure!((0.0..=180.0).contains(&a) && (normalize_latitude(a) - lon).abs() < 1e-11, "latitude {lon} written 0..180 is {a}");
                    }
                }
                c.state(lon.to_bits());
                Ok(())
            }),
            family("boxes", "every west/east edge and every point on a 15 degree (quick) / 7.5 degree (thorough) lattice with edges, in all notations", |c| {
                let step = c.t(15.0, 7.5);
                let k = (360.0 / step) as i64;
                let west = c.range(0, k - 1) as f64 * step;
                let width = c.range(0, k) as f64 * step;
                let wnot = c.flag();
                let enot = c.flag();
                let w = if wnot && west >= 180.0 { west - 360.0 } else { west };
                let east = west + width;
                // the east edge in 0..360 or -180..180 notation; a full circle is written w..w+360
                let e = if width == 360.0 {
                    w + 360.0
                } else {
                    let e = east.rem_euclid(360.0);
                    if enot && e > 180.0 { e - 360.0 } else { e }
                };
                // the notation made no difference (the same box is reached with the flag off), or the two
                // notations are mixed so that the box reads as a full turn: not a meaningful box
                if (wnot && west < 180.0) || (width < 360.0 && e - w >= 360.0) {
                    return Ok(());
                }
                for (south, north) in [(-90.0, 90.0), (-30.0, 45.0), (10.0, 10.0), (0.0, 90.0)] {
                    let bbox = (w, south, e, north);
                    for i in 0..(2 * k) {
                        let p = i as f64 * step * 0.5; // on and between the lattice
                        for lat in [-90.0, -45.0, -30.0, 0.0, 10.0, 44.875, 45.0, 45.125, 90.0] {
                            let inside = (p - west).rem_euclid(360.0) <= width && lat >= south && lat <= north;
                            for q in [p, if p > 180.0 { p - 360.0 } else { p }, if p == 180.0 { -180.0 } else { p }] {
                                let l = Location::new(lat, q, "x".into());
                                let got = c.run("within_bbox", || l.within_bbox(&bbox))?;
                                ensure!(got == inside, "({lat}, {q}) in west {w} south {south} east {e} north {north}: {got}, expected {inside}");
                            }
                        }
                    }
                    c.compared((2 * k * 27) as u64);
                    c.state((w.to_bits(), e.to_bits(), south.to_bits()));
                }
                c.sample(|| format!("box west {w} east {e}"));
                Ok(())
            }),
            family("latitudes", "every south and north edge and every point on a lattice of 7.5 degrees, each written -90..90 or 0..180", |c| {
                let south = -82.5 + 7.5 * c.choose(24) as f64;
                let north = south + 7.5 * c.choose(((90.0 - south) / 7.5) as usize + 1) as f64;
                let up = |lat: f64| if lat < 0.0 { lat + 180.0 } else { lat };
                let (s, n) = (if c.flag() { up(south) } else { south }, if c.flag() { up(north) } else { north });
                let bbox = (-75.0, s, -60.0, n);
                for i in 0..=48 {
                    let lat = -90.0 + 3.75 * i as f64;
                    let inside = lat >= south && lat <= north;
                    for p in [lat, if lat > -90.0 { up(lat) } else { lat }] {
                        let l = Location::new(p, 293.0, "x".into());
                        let got = c.run("within_bbox", || l.within_bbox(&bbox))?;
                        ensure!(got == inside, "latitude {p} between {s} and {n}: {got}, expected {inside}");
                    }
                }
                c.compared(98);
                c.state((s.to_bits(), n.to_bits()));
                Ok(())
            }),
            family("globe", "boxes written -180..180, 0..360, 0..359.75 and edges one eighth of a degree around points", |c| {
                let i = c.choose(2881);
                let p = i as f64 * 0.125;
                let l1 = Location::new(12.5, p, "x".into());
                let l2 = Location::new(12.5, if p > 180.0 { p - 360.0 } else { p }, "x".into());
                for l in [&l1, &l2] {
                    for b in [(-180.0, -90.0, 180.0, 90.0), (0.0, -90.0, 360.0, 90.0)] {
                        ensure!(c.run("within_bbox", || l.within_bbox(&b))?, "({}, {}) is outside the globe {b:?}", l.latitude, l.longitude);
                    }
                    let want = p.rem_euclid(360.0) <= 359.75;
                    let b = (0.0, -90.0, 359.75, 90.0);
                    ensure!(c.run("within_bbox", || l.within_bbox(&b))? == want, "({}, {}) in {b:?}: expected {want}", l.latitude, l.longitude);
                    for (d0, d1, want) in [(-0.125, 0.125, true), (0.0, 0.125, true), (-0.125, 0.0, true), (0.125, 0.25, false), (-0.25, -0.125, false)] {
                        let norm = |v: f64| { let v = v.rem_euclid(360.0); if v > 180.0 { v - 360.0 } else { v } };
                        let b = (norm(p + d0), 12.0, norm(p + d1), 13.0);
                        ensure!(c.run("within_bbox", || l.within_bbox(&b))? == want, "({}, {}) in {b:?}: expected {want}", l.latitude, l.longitude);
                    }
                }
                c.state(i);
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// C05

fn great_circle(a: (f64, f64), b: (f64, f64)) -> f64 {
    // independent of the haversine: angle between unit vectors via atan2(|a x b|, a . b)
    let v = |p: (f64, f64)| {
        let (la, lo) = (p.0.to_radians(), p.1.to_radians());
        [la.cos() * lo.cos(), la.cos() * lo.sin(), la.sin()]
    };
    let (x, y) = (v(a), v(b));
    let cr = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]];
    let n = (cr[0] * cr[0] + cr[1] * cr[1] + cr[2] * cr[2]).sqrt();
    n.atan2(x[0] * y[0] + x[1] * y[1] + x[2] * y[2])
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        level: "model_checking",
        rule: "all ordered pairs of a global lattice plus near-coincident and near-antipodal pairs; oracle: angle between unit vectors",
        assumptions: vec!["accepted deviation: 10 m + 1e-6 relative"],
        families: vec![
            family("pairs", "latitudes every 15 degrees and longitudes every 30 (quick) / 10 and 15 (thorough), both notations and unit systems", |c| {
                let (dlat, dlon) = c.t((15.0, 30.0), (10.0, 15.0));
                let (nla, nlo) = ((180.0 / dlat) as usize + 1, (360.0 / dlon) as usize);
                let lat1 = -90.0 + c.choose(nla) as f64 * dlat;
                let lon1 = c.choose(nlo) as f64 * dlon;
                let lat2 = -90.0 + c.choose(nla) as f64 * dlat;
                let base2 = c.choose(nlo) as f64 * dlon;
                for off in [0.0, 0.001, -0.001, 1.5, 7.25] {
                    let lat2 = (lat2 + off * 0.5).clamp(-90.0, 90.0);
                    let lon2 = (base2 + off).rem_euclid(360.0);
                    let ang = great_circle((lat1, lon1), (lat2, lon2));
                    for (sys, r) in [(UnitSystem::Metric, 6371.0), (UnitSystem::English, 3956.0)] {
                        let rel = |v: f64| if v > 180.0 { v - 360.0 } else { v };
                        for (p, q) in [(lon1, lon2), (rel(lon1), rel(lon2)), (lon1, rel(lon2))] {
                            let a = Location::new(lat1, p, "a".into());
                            let b = Location::new(lat2, q, "b".into());
                            let d = c.run("distance", || a.distance(&b, &sys))?;
                            let e = c.run("distance", || b.distance(&a, &sys))?;
                            ensure!(close(d, ang * r, 0.01, 1e-6), "({lat1}, {p}) to ({lat2}, {q}) is {d} ({sys:?}), great circle {}", ang * r);
                            ensure!(close(d, e, 0.01, 1e-6), "({lat1}, {p}) to ({lat2}, {q}) is {d}, back {e}");
                            ensure!(d >= 0.0 && d <= r * PI + 0.01, "distance {d} out of range");
                        }
                    }
                    c.compared(6);
                    c.state((lat1.to_bits(), lon1.to_bits(), lat2.to_bits(), lon2.to_bits()));
                }
                c.sample(|| format!("({lat1}, {lon1}) to ({lat2}, {base2})"));
                Ok(())
            }),
            family("close_by", "places every 5 degrees of latitude (and 0.5 degrees from the poles) x 12 longitudes x 16 directions x 1 m to 100 km, either side of the meridians", |c| {
                let lat = c.pick(&[-89.5, -85.0, -70.0, -60.0, -45.0, -41.3, -30.0, -15.0, -5.0, 0.0, 5.0, 15.0, 30.0, 41.3, 45.0, 60.0, 70.0, 85.0, 89.5]);
                let lon = c.pick(&[0.0, 0.0001, 71.4, 90.0, 179.9999, 180.0, 180.0001, 205.5, 270.0, 288.6, 359.5, 359.9999]);
                let turn = (c.choose(16) as f64 * 22.5f64).to_radians();
                for km in [0.001, 0.01, 0.05, 0.1, 0.3, 0.7, 1.0, 2.5, 6.0, 11.0, 30.0, 100.0] {
                    let arc = (km / 6371.0f64).to_degrees();
                    let lat2: f64 = lat + arc * turn.cos();
                    if lat2.abs() > 90.0 {
                        continue;
                    }
                    let lon2 = (lon + arc * turn.sin() / f64::cos(f64::to_radians(lat))).rem_euclid(360.0);
                    let rel = |v: f64| if v > 180.0 { v - 360.0 } else { v };
                    let ang = great_circle((lat, lon), (lat2, lon2));
                    for (sys, r) in [(UnitSystem::Metric, 6371.0), (UnitSystem::English, 3956.0)] {
                        for (p, q) in [(lon, lon2), (rel(lon), rel(lon2)), (lon, rel(lon2)), (rel(lon), lon2)] {
                            let (a, b) = (Location::new(lat, p, "a".into()), Location::new(lat2, q, "b".into()));
                            let (d, e) = c.run("distance", || (a.distance(&b, &sys), b.distance(&a, &sys)))?;
                            ensure!(close(d, ang * r, 1e-4, 1e-6), "({lat}, {p}) to ({lat2}, {q}) is {d} ({sys:?}), great circle {}", ang * r);
                            ensure!(close(d, e, 1e-4, 1e-6), "({lat}, {p}) to ({lat2}, {q}) is {d}, back {e}");
                        }
                    }
                    c.compared(8);
                    c.state((lat.to_bits(), lon.to_bits(), turn.to_bits(), km.to_bits()));
                }
                Ok(())
            }),
            family("latitude_notation", "pairs of a 7.5 degree lattice of latitudes, each written -90..90 or 0..180, x 6 longitudes", |c| {
                let (a, b) = (-82.5 + 7.5 * c.choose(24) as f64, -82.5 + 7.5 * c.choose(24) as f64);
                let up = |lat: f64| if lat < 0.0 { lat + 180.0 } else { lat };
                for lon in [0.0, 15.5, 90.0, 179.0, 181.0, 300.0] {
                    let ang = great_circle((a, 12.0), (b, lon));
                    for (p, q) in [(up(a), b), (a, up(b)), (up(a), up(b))] {
                        for (sys, r) in [(UnitSystem::Metric, 6371.0), (UnitSystem::English, 3956.0)] {
                            let d = c.run("distance", || Location::new(p, 12.0, "a".into()).distance(&Location::new(q, lon, "b".into()), &sys))?;
                            ensure!(close(d, ang * r, 0.01, 1e-6), "({p}, 12) to ({q}, {lon}) is {d} ({sys:?}), great circle {}", ang * r);
                        }
                    }
                }
                c.compared(36);
                c.state((a.to_bits(), b.to_bits()));
                Ok(())
            }),
            family("self_and_antipode", "every place on a 1 degree lattice against itself and its antipode", |c| {
                let lat = c.range(-90, 90) as f64;
                for lon in 0..360 {
                    let a = Location::new(lat, lon as f64, "a".into());
                    let b = Location::new(lat, if lon > 180 { lon as f64 - 360.0 } else { lon as f64 }, "b".into());
                    let anti = Location::new(-lat, ((lon + 180) % 360) as f64, "c".into());
                    let z = c.run("distance", || a.distance(&a, &UnitSystem::Metric))?;
                    ensure!(z.abs() < 0.01, "({lat}, {lon}) is {z} km from itself");
                    let z = c.run("distance", || a.distance(&b, &UnitSystem::Metric))?;
                    ensure!(z.abs() < 0.01, "({lat}, {lon}) is {z} km from itself in the other notation");
                    let h = c.run("distance", || a.distance(&anti, &UnitSystem::Metric))?;
                    ensure!(close(h, 6371.0 * PI, 0.5, 0.0), "({lat}, {lon}) is {h} km from its antipode");
                    c.state((lat.to_bits(), lon));
                }
                Ok(())
            }),
            family("triangles", "all triples of a 30 x 45 degree lattice", |c| {
                let pts: Vec<(f64, f64)> = (-2..=2).flat_map(|i| (0..8).map(move |j| (i as f64 * 40.0, j as f64 * 45.0 - 180.0))).collect();
                let a = c.choose(pts.len());
                let b = c.choose(pts.len());
                let d = |x: usize, y: usize| Location::new(pts[x].0, pts[x].1, "".into()).distance(&Location::new(pts[y].0, pts[y].1, "".into()), &UnitSystem::Metric);
                for k in 0..pts.len() {
                    let (ab, bk, ak) = c.run("distance", || (d(a, b), d(b, k), d(a, k)))?;
                    ensure!(ak <= ab + bk + 0.01, "{:?} {:?} {:?}: {ak} > {ab} + {bk}", pts[a], pts[b], pts[k]);
                    c.state((a, b, k));
                }
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// C06

/// Minutes since the epoch, floored to a multiple of `n` hours of the day.
fn floor_hours(t: DateTime<Utc>, n: i64) -> DateTime<Utc> {
    let secs = t.timestamp();
    let day = secs.div_euclid(86400);
    let h = secs.rem_euclid(86400) / 3600;
    DateTime::from_timestamp(day * 86400 + (h - h % n) * 3600, 0).unwrap()
}

/// Days around every kind of calendar boundary.
pub fn special_days() -> Vec<NaiveDate> {
    let mut v = vec![];
    for (y, m, d) in [(2023, 1, 1), (2023, 3, 1), (2024, 2, 29), (2024, 3, 1), (2023, 5, 1), (2023, 7, 31), (2023, 12, 31), (2000, 2, 29), (2000, 3, 1), (1999, 12, 31), (2000, 1, 1), (2100, 3, 1), (1970, 1, 1), (2038, 1, 19), (2023, 6, 15), (2023, 10, 1)] {
        v.push(NaiveDate::from_ymd_opt(y, m, d).unwrap());
    }
    v
}

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        level: "model_checking",
        rule: "every minute (with seconds 0, 1, 59 and sub-second parts) of days around calendar boundaries; oracle: integer arithmetic on seconds since the epoch",
        assumptions: vec![],
        families: vec![
            family("selection", "16 boundary days (quick) / every day of 2023-2024 (thorough) x 1440 minutes x seconds", |c| {
                let days: Vec<NaiveDate> = if c.thorough { NaiveDate::from_ymd_opt(2023, 1, 1).unwrap().iter_days().take(731).collect() } else { special_days() };
                let day = c.pick(&days);
                let hour = c.choose(24) as u32;
                for minute in 0..60u32 {
                    for (s, ns) in [(0, 0), (1, 0), (59, 999_999_999), (59, 1_500_000_000), (30, 500)] {
                        let t = Utc.from_utc_datetime(&day.and_hms_nano_opt(hour, minute, s, ns).unwrap());
                        for (what, lag, cyc, got) in [
                            ("station output", 6, 6, c.run("stations", || closest_gfs_model_stations_datetime(&t))?),
                            ("gridded output", 5, 6, c.run("gridded", || closest_gfs_model_gridded_datetime(&t))?),
                            ("hourly model", 2, 1, c.run("hourly", || closest_hourly_model_datetime(&t))?),
                        ] {
                            let want = floor_hours(t - Duration::hours(lag), cyc);
                            ensure!(got == want, "{what} at {t}: run {got}, expected {want}");
                            ensure!(got.nanosecond() == 0 && got.second() == 0 && got.minute() == 0, "{got} is not a whole hour");
                        }
                        c.compared(3);
                    }
                    c.state((day.num_days_from_ce(), hour, minute));
                }
                c.sample(|| format!("{day} {hour}h"));
                Ok(())
            }),
            family("rounding", "16 boundary days x 24 hours x multiples 1..=24", |c| {
                let day = c.pick(&special_days());
                let hour = c.choose(24) as u32;
                let n = c.range(1, 24);
                for (m, s, ns) in [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0), (30, 15, 5), (59, 59, 999_999_999), (59, 59, 1_500_000_000), (7, 59, 1_000_000_000)] {
                    let t = Utc.from_utc_datetime(&day.and_hms_nano_opt(hour, m, s, ns).unwrap());
                    let got = c.run("round", || round_to_nearest_multiple_hour(&t, n as u32))?;
                    ensure!(got == floor_hours(t, n), "{t} rounded to {n} hours is {got}");
                    c.state((day.num_days_from_ce(), hour, n, m));
                }
                Ok(())
            }),
            family("runs", "intervals starting at every hour of boundary days, lengths 0..100 h (quick) / 0..800 h (thorough), with minute offsets", |c| {
                let day = c.pick(&special_days());
                let hour = c.choose(24) as u32;
                let (m, s) = c.pick(&[(0, 0), (0, 1), (30, 0), (59, 59)]);
                let start = Utc.from_utc_datetime(&day.and_hms_opt(hour, m, s).unwrap());
                let max = c.t(100, 800);
                for len in 0..max {
                    for extra in [0, 1, -1] {
                        let end = start + Duration::hours(len) + Duration::seconds(extra);
                        let got = c.run("fmrc", || gfs_model_fmrc_datetimes((start, end)))?;
                        let first = floor_hours(start, 6);
                        let mut want = vec![];
                        let mut t = first;
                        while t <= end {
                            want.push(t);
                            t += Duration::seconds(6 * 3600);
                        }
                        ensure!(got == want, "runs from {start} to {end}: {got:?}");
                        c.state((start.timestamp(), end.timestamp()));
                    }
                }
                Ok(())
            }),
            family("long_runs", "intervals starting on boundary days, every length of 5..500 days (thorough 5000) in steps of a day and some", |c| {
                let day = c.pick(&special_days());
                let (h, m) = c.pick(&[(0, 0), (5, 59), (6, 0), (7, 45), (13, 30), (18, 0), (23, 59)]);
                let start = Utc.from_utc_datetime(&day.and_hms_opt(h, m, 0).unwrap());
                let first = floor_hours(start, 6);
                let mut days = 5;
                while days < c.t(500, 5000) {
                    let end = start + Duration::days(days) + Duration::hours(days % 24);
                    let got = c.run("fmrc", || gfs_model_fmrc_datetimes((start, end)))?;
                    let n = (end - first).num_seconds() / 21600 + 1;
                    ensure!(got.len() as i64 == n, "{} runs from {start} to {end}, expected {n}", got.len());
                    for (i, t) in got.iter().enumerate() {
                        ensure!(*t == first + Duration::seconds(i as i64 * 21600), "runs from {start} to {end}: run {i} is {t}");
                    }
                    c.compared(n as u64);
                    c.state((start.timestamp(), end.timestamp()));
                    days += c.t(7, 37) as i64;
                }
                Ok(())
            }),
        ],
    }
}
