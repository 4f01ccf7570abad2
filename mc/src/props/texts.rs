//! C35 unit spellings, labels and printed measurements.
use super::basics::UNITS;
use crate::explore::*;
use crate::util::*;
use surfrs::dimensional_data::DimensionalData;
use surfrs::swell::{Swell, SwellProviderError};
use surfrs::units::*;

/// The spellings each unit is known by in the feeds (weather service, tide service, GRIB, buoys).
const SPELLINGS: [(Unit, &[&str]); 19] = [
    (Unit::Millimeters, &["mm", "millimeters", "millimeter"]),
    (Unit::Meters, &["m", "meters", "meter", "wmoUnit:m"]),
    (Unit::MetersPerSecond, &["m/s", "mps", "ms-1", "MetersPerSecond", "MeterPerSecond"]),
    (Unit::Celsius, &["°C", "degCelsius", "degreeCelsius", "degreesCelsius", "wmoUnit:degC"]),
    (Unit::Pascal, &["pa", "pascals", "pascal"]),
    (Unit::HectaPascal, &["hPa", "hectapascals", "hectapascal"]),
    (Unit::Inches, &["in", "inches", "inch"]),
    (Unit::Feet, &["ft", "feet", "foot"]),
    (Unit::MilesPerHour, &["mph", "m/h", "mh-1", "milesPerHour"]),
    (Unit::Fahrenheit, &["°F", "F", "degFahrenheit", "degreesFahrenheit", "degreeFahrenheit"]),
    (Unit::InchesMercury, &["in Hg", "inHg", "inches mercury"]),
    (Unit::Knots, &["kt", "kts", "knots", "knot"]),
    (Unit::Kelvin, &["K", "kelvin"]),
    (Unit::MetersSquaredPerHertz, &["m²/Hz", "m^2/Hz", "m2Hz-1", "metersSquaredPerHertz"]),
    (Unit::NauticalMiles, &["nmi", "nauticalMiles", "nauticalMile"]),
    (Unit::Degrees, &["°", "deg", "degs", "degrees", "degree"]),
    (Unit::Seconds, &["s", "second", "seconds"]),
    (Unit::Percent, &["%", "percent", "percentage", "wmoUnit:percent"]),
    (Unit::KiloJoules, &["kJ", "kilojoules", "kilojoule"]),
];
const NAMES: [&str; 20] = [
    "millimeters", "meters", "meters per second", "degrees celsius", "pascal", "hecta pascal", "inches", "feet", "miles per hour", "degrees fahrenheit",
    "inches mercury", "knots", "kelvin", "meters squared per hertz", "nautical miles", "degrees", "seconds", "percent", "kilojoules", "unknown",
];

fn letters(mode: usize, s: &str) -> String {
    match mode {
        0 => s.into(),
        1 => s.to_lowercase(),
        2 => s.to_uppercase(),
        _ => s.chars().enumerate().flat_map(|(i, ch)| if (i + mode) % 2 == 0 { ch.to_uppercase().collect::<Vec<_>>() } else { ch.to_lowercase().collect() }).collect(),
    }
}

/// One decimal, ties either way.
fn prints(text: &str, v: f64, label: &str) -> bool {
    let number = match text.strip_suffix(label) {
        Some(n) => n,
        None => return false,
    };
    let shape = number.strip_prefix('-').unwrap_or(number).split_once('.').is_some_and(|(a, b)| !a.is_empty() && b.len() == 1 && a.chars().chain(b.chars()).all(|c| c.is_ascii_digit()));
    shape && number.parse::<f64>().is_ok_and(|n| (n - v).abs() <= 0.05 + 1e-9 * (1.0 + v.abs()))
}

pub fn c35() -> Prop {
    Prop {
        id: "C35",
        level: "model_checking",
        rule: "every spelling of every unit in every letter case; every short text over an alphabet; every printed measurement of a lattice",
        assumptions: vec!["the spellings are those of the feeds the library reads and the labels it prints itself"],
        families: vec![
            family("spellings", "every spelling of 19 units x 5 letter cases x blanks around", |c| {
                let (unit, all) = c.pick(&SPELLINGS);
                let spelling = c.pick(all);
                let mode = c.choose(5);
                let (before, after) = (c.pick(&["", " ", "\t "]), c.pick(&["", " ", "\r\n"]));
                let text = format!("{before}{}{after}", letters(mode, spelling));
                let got = c.run("reading a unit", || Unit::from(text.as_str()))?;
                ensure!(got == unit, "{text:?} is read as {got:?}, expected {unit:?}");
                c.state((text, format!("{got:?}")));
                Ok(())
            }),
            family("labels", "every pair of units: labels and names are distinct, labels read back", |c| {
                let (i, j) = (c.choose(20), c.choose(20));
                let (u, v) = (&UNITS[i], &UNITS[j]);
                let (a, b) = c.run("labels", || ((u.abbreviation(), u.name()), (v.abbreviation(), v.name())))?;
                ensure!((a.0 == b.0) == (i == j) && (a.1 == b.1) == (i == j), "{u:?} {a:?}, {v:?} {b:?}");
                ensure!(a.1 == NAMES[i], "{u:?} is called {:?}", a.1);
                let back = c.run("reading a unit", || Unit::from(a.0))?;
                ensure!(back == *u, "the label {:?} of {u:?} is read as {back:?}", a.0);
                let shown = c.run("printing a unit", || u.to_string())?;
                ensure!(shown == a.0, "{u:?} prints as {shown:?}");
                c.state((i, j));
                Ok(())
            }),
            family("rubbish", "every text of up to 3 (thorough 4) characters of an alphabet, and every spelling with one character dropped or added", |c| {
                let known = |t: &str| SPELLINGS.iter().find(|(_, l)| l.iter().any(|s| s.to_lowercase() == t.trim().to_lowercase())).map(|x| x.0.clone());
                let text: String = if c.flag() {
                    let n = c.choose(c.t(4, 5));
                    (0..n).map(|_| c.pick(&['m', 's', 'f', 't', 'k', '/', ' ', 'p', 'h', 'i', 'n', '1'])).collect()
                } else {
                    let (_, all) = c.pick(&SPELLINGS);
                    let mut t: Vec<char> = c.pick(all).chars().collect();
                    let at = c.choose(t.len() + 1);
                    match c.choose(3) {
                        0 if at < t.len() => {
                            t.remove(at);
                        }
                        1 => t.insert(at, 'x'),
                        _ => t.insert(at, ' '),
                    }
                    t.into_iter().collect()
                };
                let got = c.run("reading a unit", || Unit::from(text.as_str()))?;
                if let Some(want) = known(&text) {
                    ensure!(got == want, "{text:?} is read as {got:?}, expected {want:?}");
                } else if got != Unit::Unknown {
                    // a further spelling may be understood, if it is one of the unit's long name or a plural, with or without blanks
                    let squeeze = |s: &str| s.to_lowercase().chars().filter(|c| !c.is_whitespace()).collect::<String>();
                    let i = UNITS.iter().position(|u| *u == got).unwrap();
                    let mut names = vec![squeeze(NAMES[i])];
                    names.extend(SPELLINGS.iter().filter(|x| x.0 == got).flat_map(|x| x.1.iter().map(|s| squeeze(s))));
                    ensure!(names.contains(&squeeze(&text)), "{text:?} is read as {got:?}");
                }
                c.state((text, format!("{got:?}")));
                Ok(())
            }),
            family("measurements", "values -120.00..1100.00 in steps of 0.001 within 0.2 of zero, 0.05 around it and 0.25 elsewhere, and missing, of every unit: printed", |c| {
                let i = c.choose(20);
                let u = UNITS[i].clone();
                let label = if u == Unit::Degrees { String::new() } else { format!(" {}", u.abbreviation()) };
                let none = dd(None, u.clone());
                let text = c.run("printing", || none.to_string())?;
                ensure!(text == "N/A", "a missing measurement of {u:?} prints as {text:?}");
                ensure!(none.try_string().is_none() && none.get_value().is_nan() && none.get_value_opt().is_none(), "a missing measurement has a value");
                let values = (-240..=240).map(|k| k as f64 * 0.05).chain((-480..=4400).map(|k| k as f64 * 0.25)).chain((-200..=200).map(|k| k as f64 * 0.001)).chain([1e-9, -1e-9, -0.0, 99999.96, -99999.96, 1e6]);
                for v in values {
                    let m = dd(Some(v), u.clone());
                    let (text, some) = c.run("printing", || (m.to_string(), m.try_string()))?;
                    ensure!(prints(&text, v, &label), "{v} {u:?} prints as {text:?}");
                    ensure!(some.as_deref() == Some(text.as_str()), "{v} {u:?}: {some:?}");
                    ensure!(m.get_value() == v && m.get_value_opt() == Some(v) && m.unit_label() == u.abbreviation(), "{v} {u:?}: value or label lost");
                    let raw: DimensionalData<f64> = c.run("reading", || DimensionalData::from_raw_data(&format!("{v}"), "n".into(), u.clone()))?;
                    ensure!(raw.value == Some(v) && raw.variable_name == "n" && raw.unit == u, "{v} {u:?} is read as {raw:?}");
                    c.compared(4);
                }
                c.state(i);
                Ok(())
            }),
            family("bearings", "bearings 0..360 and missing: printed with their compass point and taken as a number", |c| {
                let k = c.choose(362);
                let d = dir(if k == 361 { None } else { Some(k as i32) });
                let (text, number) = c.run("printing", || (d.to_string(), DimensionalData::<f64>::from(d.clone())))?;
                ensure!(number.unit == d.unit && number.variable_name == d.variable_name, "{d:?} becomes {number:?}");
                if k == 361 {
                    ensure!(text == "N/A" && number.value.is_none() && d.get_value_opt().is_none(), "a missing bearing prints as {text:?}, {number:?}");
                } else {
                    let x = d.get_value();
                    ensure!(x.degrees == k as i32 && number.value == Some(k as f64), "{k}: {x:?} {number:?}");
                    let (a, b) = text.split_once(' ').ok_or_else(|| format!("{k} prints as {text:?}"))?;
                    ensure!(a.trim_end_matches('°') == k.to_string() && b == x.cardinal_direction().to_string(), "{k} prints as {text:?}");
                }
                c.state((k, text));
                Ok(())
            }),
            family("steepness", "5 classes and every text of up to 3 characters of their letters", |c| {
                if c.flag() {
                    let (s, text) = c.pick(&[(Steepness::VerySteep, "VERY_STEEP"), (Steepness::Steep, "STEEP"), (Steepness::Average, "AVERAGE"), (Steepness::Swell, "SWELL"), (Steepness::NA, "NA")]);
                    let shown = c.run("printing", || s.to_string())?;
                    ensure!(shown == text && s.as_str() == text, "{s:?} prints as {shown:?}");
                    let back = c.run("reading", || text.parse::<Steepness>())?;
                    ensure!(back.as_ref().is_ok_and(|b| *b == s), "{text} is not read back");
                } else {
                    let n = c.choose(4);
                    let text: String = (0..n).map(|_| c.pick(&['N', 'A', '/', 'S', 'M', '_', '9'])).collect();
                    let got = c.run("reading", || text.parse::<Steepness>())?;
                    ensure!(got.as_ref().map_or(true, |s| *s == Steepness::NA), "{text:?} is read as a steepness");
                    c.state(&text);
                }
                Ok(())
            }),
            family("swells", "heights, periods and bearings of a lattice, unit systems, missing ones: a swell prints all three", |c| {
                let (h, p, d) = (c.choose(60) as f64 * 0.25, c.choose(40) as f64 * 0.75, c.choose(73) as i32 * 5);
                let s = c.run("a swell", || Swell::new(&UnitSystem::Metric, h, p, Direction::from_degrees(d.min(360)), Some(3.5), None, Some(2)))?;
                ensure!(s.wave_height.unit == Unit::Meters && s.period.unit == Unit::Seconds && s.direction.unit == Unit::Degrees, "units of {s:?}");
                ensure!(s.wave_height.value == Some(h) && s.period.value == Some(p) && s.direction.get_value().degrees == d.min(360) && s.partition == Some(2), "{s:?}");
                ensure!(s.spectral_density.as_ref().is_some_and(|x| x.value == Some(3.5) && x.unit == Unit::MetersSquaredPerHertz) && s.energy.is_none(), "{s:?}");
                let text = c.run("printing", || s.to_string())?;
                let (a, b) = text.split_once(" @ ").ok_or_else(|| format!("{text:?}"))?;
                ensure!(prints(a, h, " m") && b.starts_with(&s.period.to_string()) && b.ends_with(&s.direction.to_string()), "{h} m {p} s {d} prints as {text:?}");
                let f = c.run("a swell", || Swell::new(&UnitSystem::English, h, p, Direction::from_degrees(d.min(360)), None, Some(1.25), None))?;
                ensure!(f.wave_height.unit == Unit::Feet && f.energy.as_ref().is_some_and(|x| x.value == Some(1.25) && x.unit == Unit::KiloJoules) && f.spectral_density.is_none() && f.partition.is_none(), "{f:?}");
                c.state((h.to_bits(), p.to_bits(), d));
                Ok(())
            }),
            family("systems", "4 unit systems: names, sea water and earth", |c| {
                let (s, name, density, radius) = c.pick(&[
                    (UnitSystem::Metric, "metric", 1029.0, 6371.0),
                    (UnitSystem::English, "english", 64.0, 3956.0),
                    (UnitSystem::Knots, "knots", 0.0, 0.0),
                    (UnitSystem::Kelvin, "kelvin", 0.0, 0.0),
                ]);
                let got = c.run("a unit system", || (s.to_string(), s.density_of_seawater(), s.earths_radius()))?;
                ensure!(got.0 == name, "{s:?} is printed {:?}", got.0);
                ensure!(density == 0.0 || (got.1, got.2) == (density, radius), "{s:?}: sea water {}, earth {}", got.1, got.2);
                c.state(name);
                Ok(())
            }),
            family("errors", "swell provider errors carry their reason", |c| {
                let reason = c.pick(&["no data", "x", ""]);
                let (a, b, n) = c.run("printing", || (SwellProviderError::InsufficientData(reason.into()).to_string(), SwellProviderError::SwellPartitionError(reason.into()).to_string(), SwellProviderError::NotImplemented.to_string()))?;
                ensure!(a.contains(reason) && b.contains(reason) && a != b && b != n && a != n && !n.is_empty(), "{a:?} {b:?} {n:?}");
                c.state(reason);
                Ok(())
            }),
        ],
    }
}
