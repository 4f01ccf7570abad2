//! C07 wave summary, C08 spectral files and GRIB inventory, C09 damage, C10 line independence,
//! C11 bulletins, C12 spectral point forecasts.
use crate::explore::*;
use crate::util::*;
use chrono::{DateTime, Datelike, Duration, TimeZone, Timelike, Utc};
use std::f64::consts::PI;
use surfrs::data::forecast_cbulletin_wave_data_record::*;
use surfrs::data::forecast_spectral_wave_data_record::*;
use surfrs::data::grib_index_record::*;
use surfrs::data::nws_weather_forecast_data_record::*;
use surfrs::data::spectral_wave_data_record::*;
use surfrs::data::tidal_data_record::*;
use surfrs::data::wave_data_record::*;
use surfrs::dimensional_data::DimensionalData;
use surfrs::swell::SwellProvider;
use surfrs::tide_station::TideStations;
use surfrs::units::*;

pub const WINDS: [&str; 16] = ["N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE", "S", "SSW", "SW", "WSW", "W", "WNW", "NW", "NNW"];

pub fn days_in(y: i32, m: u32) -> u32 {
    match m {
        2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        2 => 28,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// Checked with plain arithmetic, not with the date library's own accessors.
pub fn same_time(t: &DateTime<Utc>, y: i32, m: u32, d: u32, h: u32, mi: u32) -> bool {
    t.year() == y && t.month() == m && t.day() == d && t.hour() == h && t.minute() == mi && t.second() == 0
}

fn check_num(what: &str, d: &DimensionalData<f64>, text: &str, unit: Unit) -> Verdict {
    let want = if text == "MM" { None } else { Some(text.parse::<f64>().unwrap()) };
    ensure!(d.unit == unit, "{what}: unit {:?}, expected {unit:?}", d.unit);
    ensure!(d.value == want, "{what}: printed {text}, read {:?}", d.value);
    Ok(())
}
fn check_dir(what: &str, d: &DimensionalData<Direction>, text: &str) -> Verdict {
    ensure!(d.unit == Unit::Degrees, "{what}: unit {:?}", d.unit);
    match (text, &d.value) {
        ("MM", None) => Ok(()),
        ("MM", Some(v)) => fail(format!("{what}: printed MM, read {v}")),
        (_, None) => fail(format!("{what}: printed {text}, read as missing")),
        (_, Some(v)) => {
            if let Some(k) = WINDS.iter().position(|w| *w == text) {
                ensure!(circ(v.degrees as f64, 22.5 * k as f64) <= 11.25, "{what}: printed {text}, read {v}");
                ensure!(v.cardinal_direction().to_string().eq_ignore_ascii_case(text), "{what}: printed {text}, read {v}");
            } else {
                ensure!(v.degrees == text.parse::<i32>().unwrap(), "{what}: printed {text}, read {v}");
            }
            Ok(())
        }
    }
}

/// The columns of a .spec line after the date: WVHT SwH SwP WWH WWP SwD WWD STEEPNESS APD MWD.
type Cols<'a> = [&'a str; 10];
fn steep(text: &str) -> Steepness {
    match text {
        "VERY_STEEP" => Steepness::VerySteep,
        "STEEP" => Steepness::Steep,
        "AVERAGE" => Steepness::Average,
        "SWELL" => Steepness::Swell,
        _ => Steepness::NA,
    }
}
fn spec_line(date: (i32, u32, u32, u32, u32), v: &Cols) -> String {
    format!(
        "{:04} {:02} {:02} {:02} {:02} {:>4} {:>4} {:>4} {:>4} {:>4} {:>3} {:>3} {:>10} {:>4} {:>3}",
        date.0, date.1, date.2, date.3, date.4, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]
    )
}
const SPEC_HEAD: &str = "#YY  MM DD hh mm WVHT  SwH  SwP  WWH  WWP SwD WWD  STEEPNESS  APD MWD\n#yr  mo dy hr mn    m    m  sec    m  sec  -  degT     -      sec degT\n";

fn check_spec(r: &WaveDataRecord, date: (i32, u32, u32, u32, u32), v: &Cols) -> Verdict {
    ensure!(same_time(&r.date, date.0, date.1, date.2, date.3, date.4), "printed {date:?}, read {}", r.date);
    check_num("wave height", &r.wave_height, v[0], Unit::Meters)?;
    check_num("swell height", &r.swell_wave_height, v[1], Unit::Meters)?;
    check_num("swell period", &r.swell_wave_period, v[2], Unit::Seconds)?;
    check_num("wind wave height", &r.wind_wave_height, v[3], Unit::Meters)?;
    check_num("wind wave period", &r.wind_wave_period, v[4], Unit::Seconds)?;
    check_dir("swell direction", &r.swell_wave_direction, v[5])?;
    check_dir("wind wave direction", &r.wind_wave_direction, v[6])?;
    ensure!(r.steepness == steep(v[7]), "steepness printed {}, read {:?}", v[7], r.steepness);
    check_num("average period", &r.average_wave_period, v[8], Unit::Seconds)?;
    check_dir("mean direction", &r.mean_wave_direction, v[9])?;
    let s = r.swell_data().map_err(|e| Fail { key: None, msg: format!("no swell summary: {e}") })?;
    for (what, sw, h, p, d) in [
        ("summary", Some(&s.summary), v[0], v[8], v[9]),
        ("swell component", s.components.first(), v[1], v[2], v[5]),
        ("wind wave component", s.components.get(1), v[3], v[4], v[6]),
    ] {
        let sw = sw.ok_or_else(|| format!("{what} is missing"))?;
        check_num(&format!("{what} height"), &sw.wave_height, h, Unit::Meters)?;
        check_num(&format!("{what} period"), &sw.period, p, Unit::Seconds)?;
        check_dir(&format!("{what} direction"), &sw.direction, d)?;
    }
    ensure!(s.components.len() == 2, "{} components", s.components.len());
    Ok(())
}
fn read_spec(c: &mut Ctx, text: &str) -> Result<Vec<WaveDataRecord>, Fail> {
    c.run("reading a wave summary", || WaveDataRecordCollection::from_data(text).records().collect::<Vec<_>>())
}

pub fn c07() -> Prop {
    Prop {
        id: "C07",
        level: "model_checking",
        rule: "every combination of column contents (missing included) printed in the documented layout, read by the real reader and compared field by field with the printed text",
        assumptions: vec!["column layout as in the header of the stored .spec file"],
        families: vec![
            family("columns", "all combinations of 2-3 (quick) / 3-5 (thorough) texts per column, as the second of three lines", |c| {
                let h: &[&str] = c.t(&["MM", "1.2"], &["MM", "1.2", "10.4"]);
                let h2: &[&str] = c.t(&["MM", "0.7"], &["MM", "0.7", "0.0"]);
                let p: &[&str] = c.t(&["MM", "12.5"], &["MM", "12.5", "7.0"]);
                let h3: &[&str] = c.t(&["MM", "2.3"], &["MM", "2.3", "0.1"]);
                let p2: &[&str] = c.t(&["MM", "9.9"], &["MM", "9.9", "3.0"]);
                let d: &[&str] = c.t(&["MM", "ESE", "N"], &["MM", "ESE", "N", "WNW"]);
                let d2: &[&str] = c.t(&["MM", "SW", "91"], &["MM", "SW", "91", "E"]);
                let st: &[&str] = c.t(&["N/A", "VERY_STEEP", "AVERAGE"], &["N/A", "VERY_STEEP", "STEEP", "AVERAGE", "SWELL"]);
                let a: &[&str] = c.t(&["MM", "5.7"], &["MM", "5.7", "16.1"]);
                let m: &[&str] = c.t(&["MM", "118", "0"], &["MM", "118", "0", "359"]);
                let v: Cols = [c.pick(h), c.pick(h2), c.pick(p), c.pick(h3), c.pick(p2), c.pick(d), c.pick(d2), c.pick(st), c.pick(a), c.pick(m)];
                let first: Cols = ["3.3", "3.4", "13.5", "0.6", "4.7", "NNW", "SSE", "STEEP", "6.8", "201"];
                let dates = [(2022, 9, 12, 17, 56), (2022, 9, 12, 17, 26), (2022, 9, 12, 16, 56)];
                let text = format!("{SPEC_HEAD}{}\n{}\n{}\n", spec_line(dates[0], &first), spec_line(dates[1], &v), spec_line(dates[2], &first));
                let r = read_spec(c, &text)?;
                ensure!(r.len() == 3, "{} records of 3 lines:\n{text}", r.len());
                let outcome = check_spec(&r[0], dates[0], &first).and(check_spec(&r[1], dates[1], &v)).and(check_spec(&r[2], dates[2], &first));
                outcome.map_err(|e| Fail { key: e.key, msg: format!("{} in line {}", e.msg, spec_line(dates[1], &v)) })?;
                c.compared(63);
                c.state(v);
                c.sample(|| spec_line(dates[1], &v));
                Ok(())
            }),
            family("values", "every printable value of every column: heights and periods 0.0..120.0, all 16 winds, bearings 0..360", |c| {
                let col = c.choose(10);
                let base: Cols = ["3.3", "3.4", "13.5", "0.6", "4.7", "NNW", "SSE", "STEEP", "6.8", "201"];
                let k = c.choose(1201);
                let text = match col {
                    5 | 6 if k < 16 => WINDS[k].to_string(),
                    7 if k < 5 => ["VERY_STEEP", "STEEP", "AVERAGE", "SWELL", "N/A"][k].to_string(),
                    7 => return Ok(()),
                    5 | 6 | 9 if k <= 360 => k.to_string(),
                    5 | 6 | 9 => return Ok(()),
                    _ => format!("{:.1}", k as f64 * 0.1),
                };
                let mut v = base;
                v[col] = &text;
                let date = (2018, 2, 28, 23, 43);
                let line = spec_line(date, &v);
                let r = read_spec(c, &line)?;
                ensure!(r.len() == 1, "{} records of: {line}", r.len());
                check_spec(&r[0], date, &v)?;
                c.compared(21);
                c.state((col, text.clone()));
                c.sample(|| line.clone());
                Ok(())
            }),
            family("dates", "every day of 2015-2034 (quick) / 1970-2099 (thorough), 24 hours, 6 minutes, two layouts of white space", |c| {
                let y = c.t(2015, 1970) + c.choose(c.t(20, 130)) as i32;
                let m = c.choose(12) as u32 + 1;
                let base: Cols = ["3.3", "3.4", "13.5", "0.6", "4.7", "NNW", "SSE", "STEEP", "6.8", "201"];
                let mut lines = String::new();
                let mut want = vec![];
                for d in 1..=days_in(y, m) {
                    for h in 0..24 {
                        let mi = [0, 1, 26, 40, 56, 59][((d + h) % 6) as usize];
                        want.push((y, m, d, h, mi));
                        let l = spec_line((y, m, d, h, mi), &base);
                        lines += if (d + h) % 2 == 0 { "" } else { "   " };
                        lines += &l;
                        lines += if h % 3 == 0 { "  \r\n" } else { "\n" };
                    }
                }
                let r = read_spec(c, &lines)?;
                ensure!(r.len() == want.len(), "{} records of {} lines in {y}-{m}", r.len(), want.len());
                for (r, w) in r.iter().zip(&want) {
                    check_spec(r, *w, &base)?;
                    c.state(w);
                }
                c.compared(want.len() as u64);
                c.sample(|| format!("{y}-{m}: {} lines", want.len()));
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// C08

fn read_energy(c: &mut Ctx, text: &str) -> Result<Vec<SpectralWaveDataRecord>, Fail> {
    c.run("reading a spectral file", || SpectralWaveDataRecordCollection::from_data(text).records().collect::<Vec<_>>())
}
fn energy_line(date: (i32, u32, u32, u32, u32), sep: Option<&str>, pairs: &[(String, String)]) -> String {
    let mut l = format!("{:04} {:02} {:02} {:02} {:02}", date.0, date.1, date.2, date.3, date.4);
    if let Some(s) = sep {
        l += " ";
        l += s;
    }
    for (v, f) in pairs {
        l += &format!(" {v} ({f})");
    }
    l
}
fn check_energy(r: &SpectralWaveDataRecord, date: (i32, u32, u32, u32, u32), sep: Option<&str>, pairs: &[(String, String)]) -> Verdict {
    ensure!(same_time(&r.date, date.0, date.1, date.2, date.3, date.4), "printed {date:?}, read {}", r.date);
    ensure!(r.separation_frequency == sep.map(|s| s.parse().unwrap()), "separation frequency printed {sep:?}, read {:?}", r.separation_frequency);
    ensure!(r.value.len() == pairs.len() && r.frequency.len() == pairs.len(), "{} pairs read as {} values and {} frequencies", pairs.len(), r.value.len(), r.frequency.len());
    for (i, (v, f)) in pairs.iter().enumerate() {
        ensure!(r.value[i] == v.parse::<f64>().unwrap(), "value {i} printed {v}, read {}", r.value[i]);
        ensure!(r.frequency[i] == f.parse::<f64>().unwrap(), "frequency {i} printed {f}, read {}", r.frequency[i]);
    }
    Ok(())
}
fn read_grib(c: &mut Ctx, text: &str) -> Result<Vec<GribIndexRecord>, Fail> {
    c.run("reading a GRIB inventory", || GribIndexRecordCollection::from_data(text).records().collect::<Vec<_>>())
}

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        level: "model_checking",
        rule: "every number of bins with and without a separation frequency, every combination of values over few bins, every combination of inventory fields; read by the real reader and compared with the printed text",
        assumptions: vec![],
        families: vec![
            family("bins", "1..=130 (quick) / 1..=600 (thorough) bins, with and without separation frequency, 3 lines", |c| {
                let n = c.choose(c.t(130, 600)) + 1;
                let sep = c.pick(&[None, Some("9.999"), Some("0.075"), Some("0.000")]);
                let scale = c.pick(&[0.001, 0.25, 4.0]);
                let mk = |line: usize| -> Vec<(String, String)> {
                    (0..n).map(|i| (format!("{:.3}", ((i * 7 + line * 13) % 997) as f64 * scale), format!("{:.3}", 0.02 + i as f64 * 0.005))).collect()
                };
                let dates = [(2018, 9, 25, 1, 0), (2018, 9, 25, 0, 0), (2018, 9, 24, 23, 0)];
                let mut text = String::from("#YY  MM DD hh mm Sep_Freq  < spec_1 (freq_1) spec_2 (freq_2) spec_3 (freq_3) ... >\n");
                for (k, d) in dates.iter().enumerate() {
                    text += &energy_line(*d, sep, &mk(k));
                    text += if k == 1 { " \r\n" } else { "\n" };
                }
                let r = read_energy(c, &text)?;
                ensure!(r.len() == 3, "{} records of 3 lines with {n} bins, separation {sep:?}", r.len());
                for (k, d) in dates.iter().enumerate() {
                    check_energy(&r[k], *d, sep, &mk(k))?;
                    c.state((n, sep, scale.to_bits(), k));
                }
                c.compared(6 * n as u64);
                c.sample(|| format!("{n} bins, separation {sep:?}"));
                Ok(())
            }),
            family("equal_bins", "2..=12 bins whose values or frequencies (rounded in print) equal their neighbours', fall or are negative, of 8 separation frequencies or none: each pair is kept", |c| {
                let n = c.range(2, 12) as usize;
                let sep = c.pick(&[None, Some("9.999"), Some("0.100"), Some("-0.100"), Some("0"), Some("99.99"), Some("1e-2"), Some("0.033"), Some("12")]);
                let (fs, vs) = (c.choose(4), c.choose(4));
                let pairs: Vec<(String, String)> = (0..n)
                    .map(|i| {
                        let f = match fs { 0 => 33 + i / 2, 1 => 33, 2 => 100 - i, _ => 33 + (i * 7) % 5 };
                        let v = match vs { 0 => 1.5, 1 => -0.25 * i as f64, 2 => 0.0, _ => (i / 3) as f64 * 333.0 };
                        (format!("{v:.3}"), format!("{:.3}", f as f64 / 1000.0))
                    })
                    .collect();
                let line = energy_line((2020, 2, 29, 12, 40), sep, &pairs);
                let r = read_energy(c, &line)?;
                ensure!(r.len() == 1, "{} records of: {line}", r.len());
                check_energy(&r[0], (2020, 2, 29, 12, 40), sep, &pairs)?;
                c.state(&line);
                Ok(())
            }),
            family("values", "every combination of 8 values over 1..=4 (quick) / 5 (thorough) bins, with and without separation", |c| {
                let n = c.choose(c.t(4, 5)) + 1;
                let sep = c.pick(&[None, Some("9.999"), Some("0.123")]);
                let vals = ["0.000", "0.021", "1.06", "12.345", "999.0", "999.00", "68.0", "-0.5"];
                let pairs: Vec<_> = (0..n).map(|i| (c.pick(&vals).to_string(), ["0.033", "0.038", "0.0425", "0.485", "1.000"][i].to_string())).collect();
                let line = energy_line((2020, 2, 29, 12, 40), sep, &pairs);
                let r = read_energy(c, &line)?;
                ensure!(r.len() == 1, "{} records of: {line}", r.len());
                check_energy(&r[0], (2020, 2, 29, 12, 40), sep, &pairs)?;
                c.compared(2 * n as u64);
                c.state((sep, &pairs));
                c.sample(|| line.clone());
                Ok(())
            }),
            family("inventory", "every combination of index, offset, run date, variable, level, validity and trailing fields over 2 lines", |c| {
                let ix = c.pick(&[1usize, 8, 1173]);
                let off = c.pick(&[0usize, 2540945, 4294967296, 9007199254740993]);
                let date = c.pick(&[(2023, 5, 15, 12), (2024, 2, 29, 0), (2022, 12, 31, 18), (2023, 1, 1, 6)]);
                let var = c.pick(&["REFD", "UGRD", "HTSGW", "var discipline=0 center=7 local_table=1 parmcat=16 parm=3"]);
                let level = c.pick(&["2 hybrid level", "10 m above ground", "1 in sequence", "entire atmosphere (considered as a single layer)"]);
                let valid = c.pick(&["anl", "34 hour fcst", "1-2 hour ave fcst", "135 min fcst"]);
                let tail = c.pick(&[":", "", ":ENS=+1:", ":ENS=low-res ctl"]);
                let l = |ix: usize, off: usize| format!("{ix}:{off}:d={:04}{:02}{:02}{:02}:{var}:{level}:{valid}{tail}", date.0, date.1, date.2, date.3);
                let text = format!("{}\n{}\n", l(ix, off), l(ix + 1, off + 77));
                let r = read_grib(c, &text)?;
                ensure!(r.len() == 2, "{} records of 2 lines:\n{text}", r.len());
                for k in 0..2 {
                    let r = &r[k];
                    ensure!(r.index == ix + k && r.offset == off + 77 * k, "index {} offset {} of {text}", r.index, r.offset);
                    ensure!(same_time(&r.reference_date, date.0, date.1, date.2, date.3, 0), "run time {} of {text}", r.reference_date);
                    ensure!(r.var == var && r.level == level && r.valid == valid, "{r:?} of {text}");
                }
                c.compared(12);
                c.state(&text);
                c.sample(|| text.clone());
                Ok(())
            }),
            family("inventory_numbers", "lines whose index or offset is no whole number (parts of a message, signs, fractions, other texts), beside good ones: no record of them", |c| {
                let odd = c.pick(&["8.1", "8.2", "-8", "8-9", "8a", "0x8", "8 9", "1e3", "?", "8,1", "18446744073709551616", "99999999999999999999999"]);
                let column = c.choose(2);
                let at = c.choose(3);
                let mut lines: Vec<String> = (1..=3).map(|i| format!("{i}:{}:d=2023051512:UGRD:10 m above ground:anl:", i * 1000)).collect();
                lines.insert(at, if column == 0 { format!("{odd}:5000:d=2023051512:VGRD:2 m above ground:3 hour fcst:") } else { format!("9:{odd}:d=2023051512:VGRD:2 m above ground:3 hour fcst:") });
                let text = lines.join("\n");
                let r = read_grib(c, &text)?;
                ensure!(r.len() == 3 && r.iter().enumerate().all(|(k, r)| r.index == k + 1 && r.offset == (k + 1) * 1000 && r.var == "UGRD"), "{r:?} of {text}");
                c.state(&text);
                Ok(())
            }),
            family("dates", "every day of 2015-2034, 24 hours, both feeds", |c| {
                let y = 2015 + c.choose(20) as i32;
                let m = c.choose(12) as u32 + 1;
                let pairs = vec![("1.5".to_string(), "0.1".to_string()), ("2.5".to_string(), "0.2".to_string())];
                let (mut a, mut b, mut want) = (String::new(), String::new(), vec![]);
                for d in 1..=days_in(y, m) {
                    for h in 0..24 {
                        let mi = [0, 1, 26, 40, 56, 59][((d + h) % 6) as usize];
                        want.push((y, m, d, h, mi));
                        a += &energy_line((y, m, d, h, mi), if h % 2 == 0 { None } else { Some("9.999") }, &pairs);
                        a += "\n";
                        b += &format!("{}:{}:d={y:04}{m:02}{d:02}{h:02}:UGRD:10 m above ground:anl:\n", d, h * 1000);
                    }
                }
                let ra = read_energy(c, &a)?;
                let rb = read_grib(c, &b)?;
                ensure!(ra.len() == want.len() && rb.len() == want.len(), "{} and {} records of {} lines in {y}-{m}", ra.len(), rb.len(), want.len());
                for (i, w) in want.iter().enumerate() {
                    ensure!(same_time(&ra[i].date, w.0, w.1, w.2, w.3, w.4), "printed {w:?}, read {}", ra[i].date);
                    ensure!(same_time(&rb[i].reference_date, w.0, w.1, w.2, w.3, 0), "printed {w:?}, read {}", rb[i].reference_date);
                    c.state(w);
                }
                c.compared(2 * want.len() as u64);
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// All feeds behind one interface, for C09 and C10

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Feed {
    Spec,
    Energy,
    Directional,
    Grib,
    Bulletin,
    Spectral,
    Tide,
    Weather,
    GridPoint,
    TideStations,
}
use Feed::*;

/// Records as JSON; Err for a reported error.
pub(crate) fn read(feed: Feed, text: &str) -> Result<Vec<String>, String> {
    fn js<T: serde::Serialize + std::fmt::Debug>(x: T) -> String {
        // JSON has no NaN: the debug form is complete
        format!("{x:?}")
    }
    Ok(match feed {
        Spec => WaveDataRecordCollection::from_data(text).records().map(js).collect(),
        Energy | Directional => SpectralWaveDataRecordCollection::from_data(text).records().map(js).collect(),
        Grib => GribIndexRecordCollection::from_data(text).records().map(js).collect(),
        Bulletin => {
            let mut col = ForecastCBulletinWaveRecordCollection::from_data(text);
            let (m, r) = col.records().map_err(|e| e.to_string())?;
            let _ = m;
            r.map(|x| { let s = x.swell_data().map(|s| format!("{s:?}")).unwrap_or_else(|e| e.to_string()); js(x) + &s }).collect()
        }
        Spectral => {
            let mut col = ForecastSpectralWaveDataRecordCollection::from_data(text);
            let (_, r) = col.records().map_err(|e| e.to_string())?;
            r.map(js).collect()
        }
        Tide => TidalDataRecordCollection::from_json(text).map_err(|e| e.to_string())?.records.into_iter().map(js).collect(),
        Weather => NwsWeatherForecastDataRecordCollection::from_json(text).map_err(|e| e.to_string())?.records().into_iter().map(js).collect(),
        GridPoint => {
            let g = NwsGridPointData::from_json(text).map_err(|e| e.to_string())?;
            vec![js(g)]
        }
        TideStations => TideStations::from_raw_data(text).stations.into_iter().map(js).collect(),
    })
}

/// A small well-formed document, and for every record the byte range (start, end) it is written in.
pub(crate) fn document(feed: Feed, variant: usize) -> (String, Vec<(usize, usize)>) {
    let mut text = String::new();
    let mut spans = vec![];
    let mut rec = |text: &mut String, s: &str| {
        let a = text.len();
        text.push_str(s);
        spans.push((a, text.len()));
    };
    let eol = if variant % 2 == 0 { "\n" } else { "\r\n" };
    match feed {
        Spec => {
            text += SPEC_HEAD;
            for (d, v) in [
                ((2022, 12, 31, 23, 56), ["1.2", "0.7", "12.5", "1.0", "9.9", "ESE", "E", "AVERAGE", "5.7", "118"]),
                ((2022, 12, 31, 23, 26), ["MM", "0.7", "12.5", "1.0", "9.9", "ESE", "MM", "N/A", "5.7", "MM"]),
                ((2022, 12, 31, 22, 56), ["11.2", "10.7", "14.5", "2.0", "8.9", "NNW", "119", "VERY_STEEP", "15.7", "8"]),
            ] {
                rec(&mut text, &(spec_line(d, &v) + eol));
            }
        }
        Energy | Directional => {
            text += "#YY  MM DD hh mm Sep_Freq  < spec_1 (freq_1) spec_2 (freq_2) ... >\n";
            for (k, d) in [(2018, 9, 25, 11, 10), (2018, 9, 25, 10, 40), (2018, 9, 25, 10, 10)].into_iter().enumerate() {
                let p = vec![(format!("{}.25", 10 + k), "0.033".into()), ("68.0".into(), "0.038".into()), ("999.0".into(), "0.485".into())];
                rec(&mut text, &(energy_line(d, if feed == Energy { Some("9.999") } else { None }, &p) + eol));
            }
        }
        Grib => {
            for l in ["8:2540945:d=2023051512:REFD:2 hybrid level:34 hour fcst:", "9:3540945:d=2023051512:UGRD:10 m above ground:1-2 hour ave fcst:", "10:44540945:d=2023123118:HTSGW:surface:anl:"] {
                rec(&mut text, &format!("{l}{eol}"));
            }
        }
        Bulletin => {
            text += "Location : 44097      (40.98N  71.12W)\nModel    : spectral resolution for points\nCycle    : 20221231  6 UTC\n\nDDHH HS SS PP DDD SS PP DDD SS PP DDD SS PP DDD\n-----------------------------------------------\n";
            for l in ["3106  4  4 14 111  1 08 176", "3107  4", "0118 10  9 08 034  3 14 212  1 11 180  1 13 282  1 18 296  1 16 294", "0119  4  4 14 011           "] {
                rec(&mut text, &format!("{l}{eol}"));
            }
        }
        Spectral => {
            text += "'WAVEWATCH III SPECTRA'      3     4     1 'spectral resolution for points'\n  0.350E-01 0.375E-01\n  0.401E-01\n  0.148E+01  0.131E+01  0.113E+01\n  0.628E+01\n";
            for (k, d) in ["20220519 120000", "20220519 130000", "20220601 000000"].iter().enumerate() {
                let mut s = format!("{d}\n'44097     '  40.98 -71.12     51.0   4.{k}4 193.1   0.12 270.0\n");
                for i in 0..12 {
                    s += &format!("  0.{}E-0{}", 110 + 13 * i + k, 1 + i % 3);
                    if i % 5 == 4 || i == 11 {
                        s += "\n";
                    }
                }
                rec(&mut text, &s);
            }
        }
        Tide => {
            text = "{ \"predictions\": [\n".into();
            rec(&mut text, "{\"t\":\"2023-01-02 21:06\", \"v\":\"0.873\", \"type\":\"H\"},\n");
            rec(&mut text, "{\"t\":\"2023-12-31 03:36\", \"v\":-0.25, \"type\":\"L\"},\n");
            rec(&mut text, "{\"t\":\"2024-02-29 00:00\", \"v\":\"1\"}\n");
            text += "]}\n";
        }
        Weather => {
            text = "{\"properties\": {\"units\": \"us\", \"forecastGenerator\": \"HourlyForecastGenerator\", \"generatedAt\": \"2024-09-14T18:15:07+00:00\", \"updateTime\": \"2024-09-14T16:53:19+00:00\", \"elevation\": {\"unitCode\": \"wmoUnit:m\", \"value\": 0}, \"periods\": [\n".into();
            for (k, (wind, dp)) in [("10 mph", "16.5"), ("5 to 10 mph", "null"), ("0", "-2")].iter().enumerate() {
                rec(&mut text, &format!("{}{{\"number\": {}, \"name\": \"\", \"startTime\": \"2024-09-14T1{k}:00:00-04:00\", \"endTime\": \"2024-09-14T23:00:00-04:00\", \"isDaytime\": true, \"temperature\": 7{k}, \"temperatureUnit\": \"F\", \"temperatureTrend\": \"\", \"probabilityOfPrecipitation\": {{\"unitCode\": \"wmoUnit:percent\", \"value\": 0}}, \"dewpoint\": {{\"unitCode\": \"wmoUnit:degC\", \"value\": {dp}}}, \"relativeHumidity\": {{\"unitCode\": \"wmoUnit:percent\", \"value\": 63}}, \"windSpeed\": \"{wind}\", \"windDirection\": \"SSE\", \"icon\": \"https://x/y\", \"shortForecast\": \"Sunny\", \"detailedForecast\": \"\"}}\n", if k > 0 { "," } else { "" }, k + 1));
            }
            text += "]}}\n";
        }
        GridPoint => {
            rec(&mut text, "{\"id\": \"x\", \"properties\": {\"gridId\": \"BOX\", \"gridX\": 62, \"gridY\": 31, \"forecast\": \"https://x\"}}");
        }
        TideStations => {
            text = "{\"count\": 2, \"units\": null, \"stations\": [\n".into();
            rec(&mut text, "{\"state\": \"HI\", \"reference_id\": \"1612340\", \"id\": \"1610367\", \"name\": \"Nonopapa, Niihau Island\", \"lat\": 21.87, \"lng\": -160.235, \"self\": null},\n");
            rec(&mut text, "{\"state\": \"RI\", \"reference_id\": \"\", \"id\": \"8454658\", \"name\": \"Pier\", \"lat\": 41.5, \"lng\": -71, \"self\": null}\n");
            text += "]}";
        }
    }
    (text, spans)
}

const DAMAGE: [&str; 24] = [
    "", "x", "-", ".", "-1", "00", "13", "99", "2.5", "1e999", "NaN", "inf", "99999999999999999999", "-2147483649", "é", "\"", "()", ":", "#", "MM", "\u{2028}", "\0", "(0.033)", "1200",
];
fn is_text(f: Feed) -> bool {
    matches!(f, Spec | Energy | Directional | Grib | Bulletin | Spectral)
}
pub(crate) const FEEDS: [Feed; 10] = [Spec, Energy, Directional, Grib, Bulletin, Spectral, Tide, Weather, GridPoint, TideStations];

fn field<'a>(rec: &'a str, name: &str) -> &'a str {
    // the printed (debug) field up to the next top-level field
    rec.find(&format!("{name}: ")).map(|i| &rec[i..]).map(|s| {
        let end = s.find(", ").unwrap_or(s.len());
        if name == "location" { &s[..s.find('}').map_or(end, |e| e + 1)] } else { &s[..end] }
    }).unwrap_or("")
}

/// Reads a damaged document; the key names the one entry point that cannot report an error.
fn read_damaged(c: &mut Ctx, feed: Feed, text: &str, what: &str) -> Result<Result<Vec<String>, String>, Fail> {
    match c.call(|| read(feed, text)) {
        Ok(r) => Ok(r),
        Err(e) => {
            let key = if feed == TideStations && serde_json::from_str::<surfrs::tide_station::TideStations>(text).is_err() { Some("tide_station_list_panics".to_string()) } else { None };
            Err(Fail { key, msg: format!("{feed:?} feed {what}: {e}") })
        }
    }
}

fn damaged_ok(feed: Feed, good: &[String], spans: &[(usize, usize)], at: usize, got: &Result<Vec<String>, String>, cut: bool, what: &str) -> Verdict {
    let before = spans.iter().filter(|s| s.1 <= at).count();
    let got = match got {
        Ok(g) => g,
        Err(_) => {
            // an error may be reported for documents read as a whole, or when the header is damaged
            ensure!(!is_text(feed) || before == 0, "{feed:?} feed {what}: the {before} records before the damage are lost");
            return Ok(());
        }
    };
    if is_text(feed) {
        ensure!(got.len() >= before, "{feed:?} feed {what}: {} records, {before} lie before the damage", got.len());
        for i in 0..before {
            ensure!(got[i] == good[i], "{feed:?} feed {what}: record {i} before the damage became {} instead of {}", got[i], good[i]);
        }
    }
    if cut {
        ensure!(got.len() <= good.len(), "{feed:?} feed {what}: more records than in the whole file");
        for (g, w) in got.iter().zip(good) {
            for f in ["date", "reference_date", "location", "start_time"] {
                ensure!(field(g, f) == field(w, f), "{feed:?} feed {what}: {} became {}", field(w, f), field(g, f));
            }
        }
    }
    Ok(())
}

fn tokens(feed: Feed, text: &str) -> Vec<(usize, usize)> {
    // maximal runs of characters that are neither white space nor (JSON / inventory) punctuation
    let sep = |ch: char| ch.is_whitespace() || match feed {
        Tide | Weather | GridPoint | TideStations => matches!(ch, '{' | '}' | '[' | ']' | ',' | '"'),
        Grib => ch == ':' || ch == '=',
        _ => false,
    };
    let mut out = vec![];
    let mut start = None;
    for (i, ch) in text.char_indices() {
        match (sep(ch), start) {
            (false, None) => start = Some(i),
            (true, Some(s)) => {
                out.push((s, i));
                start = None;
            }
            _ => {}
        }
    }
    if let Some(s) = start {
        out.push((s, text.len()));
    }
    out
}

pub fn c09() -> Prop {
    Prop {
        id: "C09",
        level: "model_checking",
        rule: "every fault: each document of each feed cut at every byte, and every token (quick: one at a time; thorough: every pair of adjacent tokens, too) replaced by every damage text; the reader runs on each result and is compared with the undamaged reading",
        assumptions: vec!["documents of 3-4 records per feed; what a damaged line itself reads as is only constrained after a cut"],
        families: vec![
            family("whole", "the undamaged documents", |c| {
                let feed = c.pick(&FEEDS);
                let v = c.choose(2);
                let (text, spans) = document(feed, v);
                let r = c.run("reading", || read(feed, &text))?;
                let r = r.map_err(|e| Fail { key: None, msg: format!("{feed:?}: {e} in the undamaged document") })?;
                ensure!(r.len() == spans.len(), "{feed:?}: {} records of {}", r.len(), spans.len());
                c.state((feed, &r));
                c.sample(|| r[0].clone());
                Ok(())
            }),
            family("cuts", "every feed, every byte", |c| {
                let feed = c.pick(&FEEDS);
                let v = c.choose(2);
                let (text, spans) = document(feed, v);
                let good = c.run("reading", || read(feed, &text))?.unwrap_or_default();
                let at = c.choose(text.len());
                let what = format!("cut at byte {at}, after {:?}", &text[at.saturating_sub(20)..at]);
                let got = read_damaged(c, feed, &text[..at], &what)?;
                damaged_ok(feed, &good, &spans, at, &got, true, &what)?;
                c.compared(good.len() as u64);
                c.state((feed, at, &got));
                c.sample(|| format!("{feed:?} {what}: {got:?}"));
                Ok(())
            }),
            family("tokens", "every feed, every token replaced by each of 24 texts", |c| {
                let feed = c.pick(&FEEDS);
                let (text, spans) = document(feed, 0);
                let toks = tokens(feed, &text);
                let good = c.run("reading", || read(feed, &text))?.unwrap_or_default();
                let (a, b) = toks[c.choose(toks.len())];
                let d = c.pick(&DAMAGE);
                let bad = format!("{}{}{}", &text[..a], d, &text[b..]);
                let what = format!("with {d:?} in place of {:?} at byte {a}", &text[a..b]);
                let got = read_damaged(c, feed, &bad, &what)?;
                damaged_ok(feed, &good, &spans, a, &got, false, &what)?;
                c.compared(good.len() as u64);
                c.state((feed, a, d, &got));
                c.sample(|| format!("{feed:?} {what}: {} records", got.as_ref().map_or(0, |g| g.len())));
                Ok(())
            }),
            family("pairs", "every two neighbouring tokens replaced by every pair of 8 (quick) / 24 (thorough) texts, text feeds", |c| {
                let feed = c.pick(&FEEDS[..6]);
                let (text, spans) = document(feed, 0);
                let toks = tokens(feed, &text);
                let good = c.run("reading", || read(feed, &text))?.unwrap_or_default();
                let i = c.choose(toks.len() - 1);
                let ((a, b), (x, y)) = (toks[i], toks[i + 1]);
                let n = c.t(8, 24);
                let step = c.t(3, 1);
                let d = DAMAGE[c.choose(n) * step];
                let e = DAMAGE[c.choose(n) * step];
                let bad = format!("{}{}{}{}{}", &text[..a], d, &text[b..x], e, &text[y..]);
                let what = format!("with {d:?} {e:?} in place of {:?} at byte {a}", &text[a..y]);
                let got = read_damaged(c, feed, &bad, &what)?;
                damaged_ok(feed, &good, &spans, a, &got, false, &what)?;
                c.state((feed, a, d, e, &got));
                Ok(())
            }),
            family("bytes", "every byte of every document replaced by each of 16 characters, or removed, or doubled", |c| {
                let feed = c.pick(&FEEDS);
                let (text, spans) = document(feed, 0);
                let good = c.run("reading", || read(feed, &text))?.unwrap_or_default();
                let at = c.choose(text.len());
                let marks = ["", " ", "  ", "\n", "\"", "é", "-", "9", "0", ".", "(", ":", "#", "\t", "e", "{", "\r"];
                let k = c.choose(marks.len() + 1);
                let same = &text[at..at + 1];
                let d = if k == marks.len() { format!("{same}{same}") } else { marks[k].to_string() };
                let bad = format!("{}{}{}", &text[..at], d, &text[at + 1..]);
                let what = format!("with {d:?} in place of byte {at} after {:?}", &text[at.saturating_sub(20)..at]);
                let got = read_damaged(c, feed, &bad, &what)?;
                // a record that ends in the damaged byte's line is not before the damage
                damaged_ok(feed, &good, &spans, at, &got, false, &what)?;
                c.state((feed, at, k, &got));
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// C10

#[derive(Clone)]
struct Line {
    text: &'static str,
    good: bool,
}
fn g(text: &'static str) -> Line {
    Line { text, good: true }
}
fn b(text: &'static str) -> Line {
    Line { text, good: false }
}

fn alphabet(feed: Feed) -> (&'static str, Vec<Line>) {
    match feed {
        Spec => ("", vec![
            g("2022 09 12 17 56  1.2  0.7 12.5  1.0  9.9 ESE ESE    AVERAGE  5.7 118"),
            g("  2022 09  12 17 26   MM  MM  MM  MM  MM  MM  MM     N/A  MM  MM  "),
            b("#YY  MM DD hh mm WVHT  SwH  SwP  WWH  WWP SwD WWD  STEEPNESS  APD MWD"),
            b(""),
            b("2022 09 12 16 56  1.2  0.7 12.5  1.0  9.9 ESE ESE    AVERAGE  5.7"),
            b("2022 13 12 16 56  1.3  0.7 12.5  1.0  9.9 ESE ESE    AVERAGE  5.7 118"),
            b("2022 09 xx 16 56  1.3  0.7 12.5  1.0  9.9 ESE ESE    AVERAGE  5.7 118"),
            b("\"2022 09"),
            g("2022 02 28 00 00 10.2 10.7 12.5  1.0  9.9 N   359 VERY_STEEP  5.7 0"),
            b("    "),
            b("<html>Service unavailable</html>"),
            b("2022 02 29 16 56  1.3  0.7 12.5  1.0  9.9 ESE ESE    AVERAGE  5.7 118"),
        ]),
        Energy => ("", vec![
            g("2018 09 01 10 00 9.999 0.000 (0.033) 0.021 (0.038) 0.450 (0.043)"),
            g(" 2018 09 01  09 30 0.120  1.000 (0.033) "),
            b("#YY  MM DD hh mm Sep_Freq  < spec_1 (freq_1) spec_2 (freq_2) ... >"),
            b(""),
            b("2018 09 01 10"),
            b("2018 09 31 10 00 9.999 0.000 (0.033) 0.021 (0.038) 0.450 (0.043)"),
            b("2018 09 01 10 00 9.999 0.000 (0.033) oops (0.038) 0.450 (0.043)"),
            b("\"2018 09"),
            g("2018 09 01 10 00 56.0 (0.025) 68.0 (0.030) 999.0 (0.035)"),
            b("    "),
            b("<html>Service unavailable</html>"),
            b("2018 09 01 24 00 9.999 0.000 (0.033)"),
        ]),
        Grib => ("", vec![
            g("8:2540945:d=2023051512:REFD:2 hybrid level:34 hour fcst:"),
            g("  9 :3540945:d=2023051512: UGRD :10 m above ground:anl:  "),
            b("# inventory"),
            b(""),
            b("8:2540945:d=2023051512:REFD"),
            b("8:2540945:d=2023053212:REFD:2 hybrid level:34 hour fcst:"),
            b("8:oops:d=2023051512:REFD:2 hybrid level:34 hour fcst:"),
            b("\"8:2540945"),
            g("10:0:d=2024022900:HTSGW:surface:1-2 hour ave fcst:ENS=+1"),
            b("    "),
            b("<html>Service unavailable</html>"),
            b("-8:2540945:d=2023051512:REFD:2 hybrid level:34 hour fcst:"),
        ]),
        _ => ("Location : 44097      (40.98N  71.12W)\nModel    : spectral resolution for points\nCycle    : 20221230  6 UTC\n\nDDHH HS SS PP DDD SS PP DDD SS PP DDD\n-------------------------------------\n", vec![
            g("3006  4  4 14 111  1 08 176"),
            g("  0118 10   9 08 034   "),
            b("# note"),
            b(""),
            b("3006  4  4 14"),
            b("3206  4  4 14 111"),
            b("3006  4  x 14 111"),
            b("\"3006 4"),
            g("3123  2"),
            b("    "),
            b("<html>Service unavailable</html>"),
            b("3024  4  4 14 111"),
        ]),
    }
}

/// The record of a well-formed line read alone (read once, then remembered).
fn by_itself(feed: Feed, i: usize) -> Result<String, String> {
    static SEEN: std::sync::OnceLock<std::collections::HashMap<(String, usize), Result<String, String>>> = std::sync::OnceLock::new();
    SEEN.get_or_init(|| {
        let mut m = std::collections::HashMap::new();
        for feed in [Spec, Energy, Grib, Bulletin] {
            let (head, alpha) = alphabet(feed);
            for (i, l) in alpha.iter().enumerate().filter(|(_, l)| l.good) {
                let t = format!("{head}{}\n", l.text);
                let r = std::panic::catch_unwind(|| read(feed, &t)).unwrap_or_else(|_| Err("panicked".into()));
                let one = r.and_then(|r| if r.len() == 1 { Ok(r[0].clone()) } else { Err(format!("{feed:?}: {} records of the single line {}", r.len(), l.text)) });
                m.insert((format!("{feed:?}"), i), one);
            }
        }
        m
    })[&(format!("{feed:?}"), i)]
    .clone()
}

pub fn c10() -> Prop {
    Prop {
        id: "C10",
        level: "model_checking",
        rule: "every sequence of lines over a 12-line alphabet (well-formed, comment, blank, short, impossible date, unreadable, stray quote); the records must be those of the well-formed lines read alone, in order",
        assumptions: vec!["a damaged value inside an otherwise well-formed wave-summary line is a missing value, not a bad line (C07)"],
        families: vec![
            family("sequences", "4 feeds, all sequences of up to 4 (quick) / 6 (thorough) lines, with and without a final newline, both line endings, read twice", |c| {
                let feed = c.pick(&[Spec, Energy, Grib, Bulletin]);
                let (head, alpha) = alphabet(feed);
                let len = c.t(4, 6);
                let eol = c.pick(&["\n", "\r\n"]);
                let last = c.flag();
                let mut text = head.to_string();
                let mut want = vec![];
                let mut n = 0;
                for k in 0..len {
                    let i = c.choose(alpha.len() + 1);
                    if i == alpha.len() {
                        break;
                    }
                    if k > 0 {
                        text += eol;
                    }
                    text += alpha[i].text;
                    n += 1;
                    if alpha[i].good {
                        want.push(i);
                    }
                }
                if last && n > 0 {
                    text += eol;
                }
                // what each well-formed line gives alone
                let alone: Vec<String> = want.iter().map(|i| by_itself(feed, *i)).collect::<Result<_, _>>().map_err(|e| Fail { key: None, msg: e })?;
                let got = c.run("reading", || read(feed, &text))?.map_err(|e| Fail { key: None, msg: format!("{feed:?}: {e} reading {text}") })?;
                ensure!(got == alone, "{feed:?}: {} records instead of the {} well-formed lines of:\n{text}\n{got:?}", got.len(), alone.len());
                if last {
                    let again = c.run("reading", || read(feed, &text))?.unwrap_or_default();
                    ensure!(again == got, "{feed:?}: reading again gives something else:\n{text}");
                }
                c.compared(got.len() as u64 + 1);
                c.state((feed, &text));
                c.sample(|| format!("{feed:?}, {} records: {text:?}", got.len()));
                Ok(())
            }),
            family("impossible_dates", "each part of the date of a line of each feed replaced by texts that are no such part (0, one and two too many, 99, a sign, a fraction, a letter, nothing), before, between and after well-formed lines", |c| {
                let feed = c.pick(&[Spec, Energy, Grib, Bulletin]);
                let (head, alpha) = alphabet(feed);
                const MONTHS: [&str; 8] = ["00", "0", "13", "14", "99", "-9", "9.", "x9"];
                const DAYS: [&str; 8] = ["00", "0", "31", "32", "99", "-1", "1.", "x1"];
                const HOURS: [&str; 7] = ["24", "25", "48", "99", "-1", "1.", "x1"];
                const MINUTES: [&str; 8] = ["60", "61", "75", "99", "-1", "1.", "x1", "120"];
                let bad = match feed {
                    Spec | Energy => {
                        let part = c.choose(5);
                        let mut date = ["2018", "09", "25", "00", "43"];
                        date[part] = match part {
                            0 => c.pick(&["x018", "20.8", "2O18", "--18", "999999999"]),
                            1 => c.pick(&MONTHS),
                            2 => c.pick(&DAYS),
                            3 => c.pick(&HOURS),
                            _ => c.pick(&MINUTES),
                        };
                        format!("{} {}", date.join(" "), if feed == Spec { "2.0  0.4 12.5  1.9  6.2   E   E VERY_STEEP  5.0 101" } else { "9.999 0.000 (0.033) 0.021 (0.038) 0.450 (0.043)" })
                    }
                    Grib => {
                        let part = c.choose(4);
                        let mut date = ["2018", "09", "25", "12"];
                        date[part] = match part {
                            0 => c.pick(&["x018", "20.8", "2O18", "--18"]),
                            1 => c.pick(&["00", "13", "14", "99", "-9", "9.", "x9"]),
                            2 => c.pick(&["00", "31", "32", "99", "1.", "x1"]),
                            _ => c.pick(&["24", "25", "48", "99", "1.", "x1"]),
                        };
                        format!("8:2540945:d={}:REFD:2 hybrid level:34 hour fcst:", date.concat())
                    }
                    _ => {
                        let part = c.choose(2);
                        let date = if part == 0 { format!("{}06", c.pick(&["00", "32", "33", "99", "-1", "3.", "x1"])) } else { format!("30{}", c.pick(&["24", "25", "48", "99", "-1", "1.", "x1"])) };
                        format!("{date}  4  4 14 111  1 08 176")
                    }
                };
                let goods: Vec<usize> = (0..alpha.len()).filter(|i| alpha[*i].good).take(2).collect();
                let mut lines: Vec<&str> = goods.iter().map(|i| alpha[*i].text).collect();
                lines.insert(c.choose(3), &bad);
                let text = format!("{head}{}\n", lines.join("\n"));
                let want: Vec<String> = goods.iter().map(|i| by_itself(feed, *i)).collect::<Result<_, _>>().map_err(|e| Fail { key: None, msg: e })?;
                let got = c.run("reading", || read(feed, &text))?.map_err(|e| Fail { key: None, msg: format!("{feed:?}: {e} reading {text}") })?;
                ensure!(got == want, "{feed:?}: {} records instead of the two well-formed lines around {bad:?}: {got:?}", got.len());
                c.state((feed, &text));
                Ok(())
            }),
            family("positions", "one bad line at every position of a file of 1..=70 well-formed lines", |c| {
                let feed = c.pick(&[Spec, Energy, Grib, Bulletin]);
                let (head, alpha) = alphabet(feed);
                let goods: Vec<&Line> = alpha.iter().filter(|l| l.good).collect();
                let bads: Vec<&Line> = alpha.iter().filter(|l| !l.good).collect();
                let n = c.choose(70) + 1;
                let bad = c.choose(bads.len());
                let lines: Vec<&str> = (0..n).map(|i| goods[(i * i + 1) % goods.len()].text).collect();
                let whole = format!("{head}{}\n", lines.join("\n"));
                let want = c.run("reading", || read(feed, &whole))?.unwrap_or_default();
                ensure!(want.len() == n, "{feed:?}: {} records of {n} lines", want.len());
                for at in 0..=n {
                    let mut l = lines.clone();
                    l.insert(at, bads[bad].text);
                    let t = format!("{head}{}\n", l.join("\n"));
                    let got = c.run("reading", || read(feed, &t))?.unwrap_or_default();
                    ensure!(got == want, "{feed:?}: {} records instead of {n} with {:?} before line {at}", got.len(), bads[bad].text);
                    c.state((feed, n, bad, at));
                }
                c.compared(n as u64 + 1);
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// C11

struct Row {
    hs: i32,
    swells: Vec<(i32, i32, i32)>,
}
fn bulletin(name: &str, pos: &str, run: DateTime<Utc>, rows: &[(DateTime<Utc>, Row)]) -> String {
    let mut t = format!(
        "Location : {name:<10} ({pos})\nModel    : spectral resolution for points\nCycle    : {:04}{:02}{:02} {:>2} UTC\n\nDDHH HS SS PP DDD SS PP DDD SS PP DDD SS PP DDD SS PP DDD SS PP DDD\n-------------------------------------------------------------------\n",
        run.year(), run.month(), run.day(), run.hour()
    );
    for (d, r) in rows {
        let mut l = format!("{:02}{:02} {:>2}", d.day(), d.hour(), r.hs);
        for (h, p, a) in &r.swells {
            l += &format!(" {h:>2} {p:02} {a:03}");
        }
        t += &format!("{l:<67}\n");
    }
    t
}
fn read_bulletin(c: &mut Ctx, text: &str) -> Result<(ForecastCBulletinWaveRecordMetadata, Vec<ForecastCBulletinWaveRecord>), Fail> {
    c.run("reading a bulletin", || {
        let mut col = ForecastCBulletinWaveRecordCollection::from_data(text);
        col.records().map(|(m, r)| (m, r.collect::<Vec<_>>())).map_err(|e| e.to_string())
    })?
    .map_err(|e| Fail { key: None, msg: format!("{e} reading\n{text}") })
}
fn feet(got: &DimensionalData<f64>, want: f64) -> bool {
    got.unit == Unit::Meters && got.value.is_some_and(|v| close(v, want * 0.3048, 1e-9, 0.003))
}
fn check_row(r: &ForecastCBulletinWaveRecord, date: &DateTime<Utc>, row: &Row) -> Verdict {
    ensure!(r.date == *date, "row of {date} read as {}", r.date);
    ensure!(feet(&r.significant_wave_height, row.hs as f64), "height {} ft read as {}", row.hs, r.significant_wave_height);
    ensure!(r.swell_components.len() == row.swells.len(), "{} swells printed, {} read", row.swells.len(), r.swell_components.len());
    for (i, (s, (h, p, a))) in r.swell_components.iter().zip(&row.swells).enumerate() {
        ensure!(feet(&s.wave_height, *h as f64), "swell {i}: {h} ft read as {}", s.wave_height);
        ensure!(s.period.value == Some(*p as f64) && s.period.unit == Unit::Seconds, "swell {i}: period {p} read as {:?}", s.period);
        ensure!(s.direction.value.as_ref().map(|d| d.degrees) == Some(*a), "swell {i}: direction {a} read as {:?}", s.direction);
        if let Some(e) = &s.energy {
            let m = *h as f64 * 0.3048;
            let want = surfrs::tools::waves::wave_energy(m, *p as f64);
            ensure!(close(e.value.unwrap_or(f64::NAN), want, 1e-9, 0.01), "swell {i}: energy {e} for {m} m and {p} s, expected {want}");
        }
    }
    match (r.swell_data(), row.swells.first()) {
        (Err(_), None) => Ok(()),
        (Ok(s), None) => fail(format!("swell summary {s:?} without swells")),
        (Err(e), Some(_)) => fail(format!("no swell summary: {e}")),
        (Ok(s), Some((_, p, a))) => {
            ensure!(feet(&s.summary.wave_height, row.hs as f64), "summary height {}", s.summary.wave_height);
            ensure!(s.summary.period.value == Some(*p as f64), "summary period {:?}, first swell {p}", s.summary.period);
            ensure!(s.summary.direction.value.as_ref().map(|d| d.degrees) == Some(*a), "summary direction {:?}, first swell {a}", s.summary.direction);
            ensure!(s.components.len() == row.swells.len(), "summary lists {} of {} swells", s.components.len(), row.swells.len());
            for (x, (h, p, a)) in s.components.iter().zip(&row.swells) {
                ensure!(feet(&x.wave_height, *h as f64) && x.period.value == Some(*p as f64) && x.direction.value.as_ref().map(|d| d.degrees) == Some(*a), "summary lists {x} for {h} {p} {a}");
            }
            Ok(())
        }
    }
}

pub fn c11() -> Prop {
    Prop {
        id: "C11",
        level: "model_checking",
        rule: "every run date and forecast hour, every number and combination of swells, every station name and position of a set, printed in the bulletin layout and read back",
        assumptions: vec!["forecasts reach at most 16 days ahead, so that a day earlier than the run day lies in the following month"],
        families: vec![
            family("dates", "every run day of 2019-2028 (quick) / 2000-2040 (thorough), 4 cycles, every hour up to 16 days ahead", |c| {
                let y = c.t(2019, 2000) + c.choose(c.t(10, 41)) as i32;
                let m = c.choose(12) as u32 + 1;
                let d = c.choose(days_in(y, m) as usize) as u32 + 1;
                let h = c.choose(4) as u32 * 6;
                let run = Utc.with_ymd_and_hms(y, m, d, h, 0, 0).unwrap();
                let rows: Vec<_> = (0..=384).map(|k| (run + Duration::hours(k), Row { hs: 4, swells: vec![(3, 14, 111)] })).collect();
                let text = bulletin("44097", "40.98N  71.12W", run, &rows);
                let (meta, r) = read_bulletin(c, &text)?;
                ensure!(meta.model_run_date == run, "model run {run} read as {}", meta.model_run_date);
                ensure!(r.len() == rows.len(), "{} records of {} rows, run {run}", r.len(), rows.len());
                for (r, w) in r.iter().zip(&rows) {
                    ensure!(r.date == w.0, "run {run}: row {:02}{:02} for {} read as {}", w.0.day(), w.0.hour(), w.0, r.date);
                }
                c.compared(rows.len() as u64);
                c.state((y, m, d, h));
                c.sample(|| text.lines().take(8).collect::<Vec<_>>().join("\n"));
                Ok(())
            }),
            family("rows", "0..=6 swells, 4 contents each (3 for more than 4 swells), 3 heights, in three rows", |c| {
                let n = c.choose(7);
                let hs = c.pick(&[0, 4, 12]);
                let alpha: &[(i32, i32, i32)] = &[(1, 8, 176), (10, 14, 0), (3, 3, 359), (21, 25, 90)];
                let alpha = if n > c.t(4, 6) { &alpha[..3] } else { alpha };
                let swells: Vec<_> = (0..n).map(|_| c.pick(alpha)).collect();
                let run = Utc.with_ymd_and_hms(2023, 12, 31, 18, 0, 0).unwrap();
                let rows = vec![
                    (run, Row { hs: 7, swells: vec![(6, 9, 200), (2, 12, 30)] }),
                    (run + Duration::hours(6), Row { hs, swells: swells.clone() }),
                    (run + Duration::hours(7), Row { hs: 1, swells: vec![] }),
                ];
                let text = bulletin("TPC55", " 9.00N  88.00W", run, &rows);
                let (_, r) = read_bulletin(c, &text)?;
                ensure!(r.len() == 3, "{} records of 3 rows", r.len());
                for (r, w) in r.iter().zip(&rows) {
                    check_row(r, &w.0, &w.1)?;
                }
                c.compared(3 + 4 * n as u64);
                c.state((n, hs, &swells));
                c.sample(|| text.lines().nth(7).unwrap_or("").to_string());
                Ok(())
            }),
            family("values", "heights 0..99 ft, periods 1..30 s, directions 0..360, in each of the six places", |c| {
                let place = c.choose(6);
                let k = c.choose(361) as i32;
                let run = Utc.with_ymd_and_hms(2024, 2, 28, 12, 0, 0).unwrap();
                let mut swells: Vec<_> = (0..6).map(|i| (i + 1, 10 + i, 40 * i)).collect();
                swells[place] = (k % 100, 1 + k % 30, k);
                let rows = vec![(run + Duration::hours(14), Row { hs: (k * 7) % 100, swells })];
                let text = bulletin("44097", "40.98N  71.12W", run, &rows);
                let (_, r) = read_bulletin(c, &text)?;
                ensure!(r.len() == 1, "{} records of 1 row", r.len());
                check_row(&r[0], &rows[0].0, &rows[0].1)?;
                c.compared(20);
                c.state((place, k));
                Ok(())
            }),
            family("header", "station names of 1..10 characters, every hemisphere, a lattice of positions", |c| {
                let name = c.pick(&["44097", "TPC55", "A", "ABCDEFGHIJ", "NW SPOT", "46232_1", "WAVE-10"]);
                let lat = c.pick(&[0.0, 0.5, 9.0, 40.98, 77.25, 89.99]);
                let lon = c.pick(&[0.0, 0.25, 5.5, 71.12, 100.0, 179.75]);
                let (ns, ew) = (c.pick(&["N", "S"]), c.pick(&["E", "W"]));
                let run = Utc.with_ymd_and_hms(2022, 1, 2, 0, 0, 0).unwrap();
                let text = bulletin(name, &format!("{lat:>5.2}{ns} {lon:>6.2}{ew}"), run, &[(run, Row { hs: 3, swells: vec![] })]);
                let (m, r) = read_bulletin(c, &text)?;
                ensure!(m.location.name == name, "name {name:?} read as {:?}", m.location.name);
                let (wa, wo) = (if ns == "S" { -lat } else { lat }, if ew == "W" { -lon } else { lon });
                ensure!(m.location.latitude == wa && m.location.longitude == wo, "{lat}{ns} {lon}{ew} read as {} {}", m.location.latitude, m.location.longitude);
                ensure!(r.len() == 1, "{} records", r.len());
                c.compared(4);
                c.state((name, lat.to_bits(), lon.to_bits(), ns, ew));
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// C12

/// Fortran E format: 0.ddddE+xx
fn fortran(v: f64, digits: usize) -> String {
    if v == 0.0 {
        return format!("0.{}E+00", "0".repeat(digits));
    }
    let mut e = v.abs().log10().floor() as i32 + 1;
    let mut m = (v.abs() / 10f64.powi(e) * 10f64.powi(digits as i32)).round() as i64;
    if m >= 10i64.pow(digits as u32) {
        m /= 10;
        e += 1;
    }
    format!("{}0.{m:0w$}E{}{:02}", if v < 0.0 { "-" } else { "" }, if e < 0 { "-" } else { "+" }, e.abs(), w = digits)
}
fn columns(items: &[String], per: usize) -> String {
    let mut s = String::new();
    for l in items.chunks(per) {
        s += "  ";
        s += &l.join("  ");
        s += "\n";
    }
    s
}
#[derive(Clone)]
struct Step {
    date: DateTime<Utc>,
    point: [f64; 7], // lat lon depth wind dir cur dir
    energy: Vec<String>,
}
fn ww3(freq: &[String], dirs: &[String], per: (usize, usize, usize), name: &str, steps: &[Step]) -> String {
    let mut t = format!("'WAVEWATCH III SPECTRA' {:>6} {:>5} {:>5} 'spectral resolution for points'\n", freq.len(), dirs.len(), 1);
    t += &columns(freq, per.0);
    t += &columns(dirs, per.1);
    for s in steps {
        let d = s.date;
        t += &format!("{:04}{:02}{:02} {:02}{:02}{:02}\n", d.year(), d.month(), d.day(), d.hour(), d.minute(), d.second());
        let p = s.point;
        t += &format!("'{name:<10}'{:>8.2}{:>8.2}{:>10.1}{:>7.2}{:>6.1}{:>7.2}{:>6.1}\n", p[0], p[1], p[2], p[3], p[4], p[5], p[6]);
        t += &columns(&s.energy, per.2);
    }
    t
}
fn read_ww3(c: &mut Ctx, text: &str) -> Result<(ForecastSpectralWaveDataRecordMetadata, Vec<ForecastSpectralWaveDataRecord>), Fail> {
    c.run("reading a spectral forecast", || {
        let mut col = ForecastSpectralWaveDataRecordCollection::from_data(text);
        col.records().map(|(m, r)| (m, r.collect::<Vec<_>>())).map_err(|e| e.to_string())
    })?
    .map_err(|e| Fail { key: None, msg: format!("{e} reading\n{}", text.chars().take(300).collect::<String>()) })
}
fn header_lines(freq: &[String], dirs: &[String], per: (usize, usize, usize)) -> usize {
    1 + freq.len().div_ceil(per.0) + dirs.len().div_ceil(per.1)
}
/// WW3 prints compass bearings the energy travels to, starting at the first direction and turning left.
fn printed_dirs(n: usize, offset: f64) -> Vec<String> {
    (0..n).map(|i| fortran((2.5 * PI - (offset + i as f64 / n as f64) * 2.0 * PI).rem_euclid(2.0 * PI), 3)).collect()
}
fn check_ww3(meta: &ForecastSpectralWaveDataRecordMetadata, lines: usize, r: &[ForecastSpectralWaveDataRecord], freq: &[String], dirs: &[String], steps: &[Step]) -> Verdict {
    check_ww3_from(meta, lines, r, freq, dirs, steps[0].date, steps)
}

// `steps` are those expected to be read; `first` is the time of the first one printed.
fn check_ww3_from(meta: &ForecastSpectralWaveDataRecordMetadata, lines: usize, r: &[ForecastSpectralWaveDataRecord], freq: &[String], dirs: &[String], first: DateTime<Utc>, steps: &[Step]) -> Verdict {
    let nums = |v: &[String]| v.iter().map(|s| s.parse::<f64>().unwrap()).collect::<Vec<_>>();
    let (f, d) = (nums(freq), nums(dirs));
    ensure!(meta.frequency == f, "{} frequencies printed, read {:?}", f.len(), meta.frequency);
    ensure!(meta.direction.len() == d.len(), "{} directions printed, {} read", d.len(), meta.direction.len());
    for (i, p) in d.iter().enumerate() {
        let want = 90.0 - p.to_degrees();
        ensure!(circ(meta.direction[i].degrees as f64, want) <= 1.0, "direction {i}: printed {p} rad, read {}, expected {want}", meta.direction[i]);
        ensure!(circ(meta.direction[i].degrees as f64, want) <= 0.5 + 1e-6, "direction {i}: printed {p} rad, read {}, nearest degree to {want} expected", meta.direction[i]);
    }
    ensure!(meta.point_count == 1, "point count {}", meta.point_count);
    ensure!(meta.line_count == lines, "{} header lines counted of {lines}", meta.line_count);
    ensure!(r.len() == steps.len(), "{} time steps printed, {} read ({} frequencies, {} directions)", steps.len(), r.len(), f.len(), d.len());
    for (k, (r, s)) in r.iter().zip(steps).enumerate() {
        ensure!(r.date == s.date, "step {k} of {} read as {}", s.date, r.date);
        ensure!(r.reference_date == first, "step {k}: reference {} instead of {first}", r.reference_date);
        let p = s.point;
        let pr = |v: f64, n: usize| format!("{v:.n$}").parse::<f64>().unwrap();
        ensure!(r.location.latitude == pr(p[0], 2) && r.location.longitude == pr(p[1], 2), "position {} {} read as {:?}", p[0], p[1], r.location);
        ensure!(r.depth.value == Some(pr(p[2], 1)) && r.depth.unit == Unit::Meters, "depth {} read as {:?}", p[2], r.depth);
        ensure!(r.wind_speed.value == Some(pr(p[3], 2)) && r.wind_speed.unit == Unit::MetersPerSecond, "wind {} read as {:?}", p[3], r.wind_speed);
        ensure!(r.current_speed.value == Some(pr(p[5], 2)) && r.current_speed.unit == Unit::MetersPerSecond, "current {} read as {:?}", p[5], r.current_speed);
        for (n, v, w) in [("wind", &r.wind_direction, p[4]), ("current", &r.current_direction, p[6])] {
            let got = v.value.as_ref().map(|d| d.degrees as f64).unwrap_or(f64::NAN);
            ensure!(circ(got, w) <= 0.5 + 1e-6 && v.unit == Unit::Degrees, "{n} direction {w} read as {v:?}");
        }
        let e = nums(&s.energy);
        ensure!(bits(&r.spectra.energy) == bits(&e), "step {k}: energies differ from the printed ones ({} printed, {} read)", e.len(), r.spectra.energy.len());
        ensure!(r.spectra.frequency == f, "step {k}: frequencies of the spectrum differ from the header");
        ensure!(r.spectra.direction_raw().len() == d.len() && r.spectra.direction_raw().iter().zip(&meta.direction).all(|(a, b)| close(a.to_degrees(), b.degrees as f64, 1e-9, 0.0)), "step {k}: directions of the spectrum differ from the header");
        // frequency runs fastest
        for i in 0..f.len() {
            for j in [0, d.len() / 2, d.len() - 1] {
                ensure!(r.spectra.energy_at(i, j).to_bits() == e[i + j * f.len()].to_bits(), "step {k}: energy at frequency {i} direction {j}");
            }
        }
    }
    Ok(())
}

pub fn c12() -> Prop {
    Prop {
        id: "C12",
        level: "model_checking",
        rule: "every shape of file (counts of frequencies, directions, steps, numbers per line), every date and point of a set, printed in the documented layout and compared number for number",
        assumptions: vec!["one output point per file; energies printed in Fortran E format"],
        families: vec![
            family("shapes", "frequencies 1..=12 and 7 larger counts x directions 1..=12 and 7 larger counts x 1..=3 steps x 1, 2, 7, 8, 20, 50 or all numbers per line", |c| {
                let counts = [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 25, 36, 50, 72, 99, 100, 128];
                let nf = c.pick(&counts);
                let nd = c.pick(&counts);
                let ns = c.choose(3) + 1;
                let per = c.pick(&[(8, 7, 7), (8, 7, 1), (1, 2, 2), (5, 5, 8), (17, 19, 20), (999, 999, 50), (3, 200, 1 << 20)]);
                if nf * nd > c.t(2600, 1 << 20) {
                    return Ok(());
                }
                let freq: Vec<_> = (0..nf).map(|i| fortran(0.035 + i as f64 * 0.0021, 3)).collect();
                let dirs = printed_dirs(nd, 0.0);
                let t0 = Utc.with_ymd_and_hms(2022, 12, 31, 21, 0, 0).unwrap();
                let steps: Vec<_> = (0..ns)
                    .map(|k| Step {
                        date: t0 + Duration::hours(k as i64 * 3),
                        point: [40.98 - k as f64, -71.12, 51.0, 4.74 + k as f64, 193.1, 0.0, 270.0],
                        energy: (0..nf * nd).map(|i| fortran(((i + 1) * (k + 2)) as f64 * 10f64.powi(-((i % 9) as i32)), 3)).collect(),
                    })
                    .collect();
                let text = ww3(&freq, &dirs, per, "44097", &steps);
                let (m, r) = read_ww3(c, &text)?;
                check_ww3(&m, header_lines(&freq, &dirs, per), &r, &freq, &dirs, &steps)?;
                c.compared((nf * nd * ns) as u64);
                c.state((nf, nd, ns, per));
                c.sample(|| format!("{nf} frequencies, {nd} directions, {ns} steps, {per:?} per line"));
                Ok(())
            }),
            family("order", "1..5 steps of times in every order, some equal, with energies of 6 kinds (also negative, tiny and huge ones): each step as printed, the first one the reference", |c| {
                let ns = c.choose(5) + 1;
                let t0 = Utc.with_ymd_and_hms(2023, 1, 1, 0, 0, 0).unwrap();
                let freq: Vec<_> = (0..3).map(|i| fortran(0.05 * 1.1f64.powi(i), 3)).collect();
                let dirs = printed_dirs(2, 0.125);
                let kind = c.pick(&[1.0, -1.0, 1e-30, 1e25, -1e-9, 0.0]);
                let steps: Vec<Step> = (0..ns)
                    .map(|k| Step {
                        date: t0 + Duration::hours(c.pick(&[-6, 0, 3, 9])),
                        point: [-9.5, 160.25, 4000.0, 0.0, 0.0, 1.25, 359.9],
                        energy: (0..6).map(|i| fortran(kind * ((i * i + k) % 7) as f64, 3)).collect(),
                    })
                    .collect();
                let text = ww3(&freq, &dirs, (8, 7, 4), "44097", &steps);
                let (m, r) = read_ww3(c, &text)?;
                check_ww3(&m, header_lines(&freq, &dirs, (8, 7, 4)), &r, &freq, &dirs, &steps)?;
                c.state(&text);
                Ok(())
            }),
            family("energies", "every assignment of 4 values to a 2x2 or 3x2 (thorough 3x3) spectrum", |c| {
                let (nf, nd) = c.pick(&[(2, 2), (3, 2), (2, 3), (1, 4), (4, 1)]);
                let (nf, nd) = if c.thorough && (nf, nd) == (1, 4) { (3, 3) } else { (nf, nd) };
                let vals = [0.0, 0.123, 98.7, 4.56e-12];
                let energy: Vec<_> = (0..nf * nd).map(|_| fortran(c.pick(&vals), 3)).collect();
                let freq: Vec<_> = (0..nf).map(|i| fortran(0.05 * 1.1f64.powi(i as i32), 3)).collect();
                let dirs = printed_dirs(nd, 0.125);
                let steps = vec![Step { date: Utc.with_ymd_and_hms(2024, 2, 29, 12, 0, 0).unwrap(), point: [-9.5, 160.25, 4000.0, 0.0, 0.0, 1.25, 359.9], energy }];
                let per = (8, 7, 7);
                let text = ww3(&freq, &dirs, per, "TPC55", &steps);
                let (m, r) = read_ww3(c, &text)?;
                check_ww3(&m, header_lines(&freq, &dirs, per), &r, &freq, &dirs, &steps)?;
                c.compared((nf * nd) as u64);
                c.state((nf, nd, &steps[0].energy));
                Ok(())
            }),
            family("directions", "every first direction of a fine lattice for 1..=72 directions", |c| {
                let nd = c.choose(72) + 1;
                let o = c.choose(c.t(72, 720)) as f64 / c.t(72.0, 720.0);
                let freq = vec![fortran(0.05, 3)];
                let dirs = printed_dirs(nd, o);
                let steps = vec![Step { date: Utc.with_ymd_and_hms(2024, 3, 1, 0, 0, 0).unwrap(), point: [1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0], energy: (0..nd).map(|i| fortran(i as f64 + 1.0, 3)).collect() }];
                let per = (8, 7, 7);
                let text = ww3(&freq, &dirs, per, "X", &steps);
                let (m, r) = read_ww3(c, &text)?;
                check_ww3(&m, header_lines(&freq, &dirs, per), &r, &freq, &dirs, &steps)?;
                c.compared(nd as u64);
                c.state((nd, o.to_bits()));
                Ok(())
            }),
            family("unreadable", "3 steps, every energy, one (thorough: one or two) replaced by each of 6 unreadable texts, 1, 2, 7 numbers per line: costs its own step only", |c| {
                let (nf, nd) = c.pick(&[(3usize, 2usize), (2, 4), (1, 3)]);
                let per = c.pick(&[(8, 7, 7), (1, 2, 2), (5, 5, 1)]);
                let freq: Vec<_> = (0..nf).map(|i| fortran(0.05 + 0.01 * i as f64, 3)).collect();
                let dirs = printed_dirs(nd, 0.0);
                let t0 = Utc.with_ymd_and_hms(2022, 12, 31, 21, 0, 0).unwrap();
                let mut steps: Vec<_> = (0..3)
                    .map(|k| Step { date: t0 + Duration::hours(k), point: [40.98, -71.12, 51.0, 4.74, 193.1, 0.0, 270.0], energy: (0..nf * nd).map(|i| fortran((i as i64 + 10 * k) as f64, 3)).collect() })
                    .collect();
                // the first printed step's time stays the reference, whichever step is lost
                let mut good = steps.clone();
                let k = c.choose(3);
                for _ in 0..1 + c.choose(c.t(1, 2)) {
                    let i = c.choose(nf * nd);
                    steps[k].energy[i] = c.pick(&["**********", "x", "0.1E", "1,5", "--", "1.2.3"]).into();
                }
                good.remove(k);
                let (m, r) = read_ww3(c, &ww3(&freq, &dirs, per, "44097", &steps))?;
                check_ww3_from(&m, header_lines(&freq, &dirs, per), &r, &freq, &dirs, steps[0].date, &good)?;
                c.compared((2 * nf * nd) as u64);
                c.state((nf, nd, per, k, &steps[k].energy));
                Ok(())
            }),
            family("points", "dates at calendar boundaries, signed positions, depths, winds and currents, all combinations", |c| {
                let (date, minutes) = c.pick(&[((2022, 12, 31, 23), 60), ((2023, 1, 1, 0), 30), ((2024, 2, 29, 6), 60), ((2023, 2, 28, 18), 7), ((2022, 10, 9, 9), 90)]);
                let lat = c.pick(&[0.0, 40.98, -40.98, 9.5, -0.25, 90.0]);
                let lon = c.pick(&[0.0, 71.12, -71.12, 179.75, -179.75, 359.5, -0.5]);
                let depth = c.pick(&[10.0, 51.5, 4321.0]);
                let (ws, wd) = c.pick(&[(0.0, 0.0), (4.74, 193.1), (25.5, 359.4)]);
                let (cs, cd) = c.pick(&[(0.0, 270.0), (1.25, 7.0), (0.5, 99.9)]);
                let name = c.pick(&["44097", "ABCDEFGHIJ", "46-2"]);
                let freq: Vec<_> = (0..3).map(|i| fortran(0.05 + 0.01 * i as f64, 3)).collect();
                let dirs = printed_dirs(2, 0.0);
                let t0 = Utc.with_ymd_and_hms(date.0, date.1, date.2, date.3, 0, 0).unwrap();
                let steps: Vec<_> = (0..2).map(|k| Step { date: t0 + Duration::minutes(k * minutes), point: [lat, lon, depth, ws, wd, cs, cd], energy: (0..6).map(|i| fortran((i + k) as f64, 3)).collect() }).collect();
                let per = (8, 7, 7);
                let text = ww3(&freq, &dirs, per, name, &steps);
                let (m, r) = read_ww3(c, &text)?;
                check_ww3(&m, header_lines(&freq, &dirs, per), &r, &freq, &dirs, &steps)?;
                c.compared(28);
                c.state((date, minutes, lat.to_bits(), lon.to_bits(), depth.to_bits(), ws.to_bits(), cs.to_bits(), name));
                c.sample(|| text.clone());
                Ok(())
            }),
        ],
    }
}
