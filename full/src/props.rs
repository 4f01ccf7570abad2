//! C32 stations, observations and archives; C33 model time axis and addresses; C34 grid points.
use crate::explore::*;
use crate::util::*;
use chrono::{DateTime, Datelike, Duration, NaiveDate, TimeZone, Timelike, Utc};
use gribberish::message::Message;
use gribberish::templates::product::tables::FixedSurfaceType;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use surfrs::buoy_station::*;
use surfrs::data::gfs_wave_grib_point_data_record::*;
use surfrs::data::latest_obs_data_record::*;
use surfrs::data::meteorological_data_record::*;
use surfrs::data::parseable_data_record::*;
use surfrs::data::swden_wave_data_record::*;
use surfrs::dimensional_data::DimensionalData;
use surfrs::location::Location;
use surfrs::model::*;
use surfrs::station::Station;
use surfrs::swell::SwellProvider;
use surfrs::tools::dap::*;
use surfrs::units::*;

pub fn find(id: &str) -> Option<Prop> {
    Some(match id {
        "C32" => c32(),
        "C33" => c33(),
        "C34" => c34(),
        "C36" => crate::history::c36(),
        _ => return None,
    })
}

fn special_days() -> Vec<NaiveDate> {
    [(2023, 1, 1), (2023, 3, 1), (2024, 2, 29), (2024, 3, 1), (2023, 7, 31), (2023, 12, 31), (2000, 2, 29), (1999, 12, 31), (2038, 1, 19), (2023, 10, 1), (2023, 6, 15), (2023, 11, 9)]
        .iter()
        .map(|(y, m, d)| NaiveDate::from_ymd_opt(*y, *m, *d).unwrap())
        .collect()
}
pub type When = (i32, u32, u32, u32, u32);
fn same_time(t: &DateTime<Utc>, w: When) -> bool {
    t.year() == w.0 && t.month() == w.1 && t.day() == w.2 && t.hour() == w.3 && t.minute() == w.4 && t.second() == 0
}
/// JSON and back, exactly as C29 asks of the other records.
fn round<T: Serialize + DeserializeOwned + Debug>(c: &mut Ctx, v: &T) -> Verdict {
    let text = c.run("writing", || serde_json::to_string(v))?.map_err(|e| format!("{v:?} is not written: {e}"))?;
    let back: T = c.run("reading", || serde_json::from_str(&text))?.map_err(|e| format!("{text} is not read back: {e}"))?;
    ensure!(alike(&format!("{v:?}"), &format!("{back:?}")), "{v:?} is read back as {back:?}");
    let again = c.run("writing", || serde_json::to_string(&back))?.map_err(|e| format!("{e}"))?;
    ensure!(alike(&text, &again), "{text} is written the second time as {again}");
    Ok(())
}

// ---------------------------------------------------------------- station list

#[derive(Clone)]
pub struct Entry {
    id: String,
    lat: f64,
    lon: f64,
    elev: Option<f64>,
    name: String,
    owner: String,
    program: String,
    kind: &'static str,
    flags: [Option<bool>; 4],
}
const KINDS: [(&str, BuoyType); 9] = [
    ("none", BuoyType::None),
    ("buoy", BuoyType::Buoy),
    ("fixed", BuoyType::Fixed),
    ("oilrig", BuoyType::OilRig),
    ("dart", BuoyType::Dart),
    ("tao", BuoyType::Tao),
    ("usv", BuoyType::USV),
    ("virtual", BuoyType::Virtual),
    ("other", BuoyType::Other),
];
pub fn an_entry(id: &str) -> Entry {
    Entry { id: id.into(), lat: 40.967, lon: -71.124, elev: None, name: "Block Island, RI - 154".into(), owner: "CDIP".into(), program: "IOOS Partners".into(), kind: "buoy", flags: [Some(true), Some(false), Some(false), Some(false)] }
}
fn escape(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;")
}
pub fn station_list(entries: &[Entry], swapped: bool) -> String {
    let mut s = format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<stations created=\"2018-08-14T19:35:01UTC\" count=\"{}\">\n<!--Site Elevation (elev attribute), when present, is reported in meters above mean sea level.-->\n", entries.len());
    for e in entries {
        let mut at = vec![format!("id=\"{}\"", escape(&e.id)), format!("lat=\"{}\"", e.lat), format!("lon=\"{}\"", e.lon)];
        if let Some(v) = e.elev {
            at.push(format!("elev=\"{v}\""));
        }
        at.push(format!("name=\"{}\"", escape(&e.name)));
        at.push(format!("owner=\"{}\"", escape(&e.owner)));
        at.push(format!("pgm=\"{}\"", escape(&e.program)));
        at.push(format!("type=\"{}\"", e.kind));
        for (n, f) in ["met", "currents", "waterquality", "dart"].iter().zip(&e.flags) {
            if let Some(f) = f {
                at.push(format!("{n}=\"{}\"", if *f { "y" } else { "n" }));
            }
        }
        if swapped {
            at.reverse();
        }
        s += &format!("  <station {}/>\n", at.join(" "));
    }
    s + "</stations>\n"
}
/// The written name less its dashes, the numbers between them and the words that open a bracket.
fn plain_name(written: &str) -> String {
    let mut joined = String::new();
    for part in written.split('-') {
        if part.trim().parse::<i64>().is_err() {
            joined += part.trim();
        }
    }
    joined.split_whitespace().filter(|w| !w.starts_with('(')).collect::<Vec<_>>().join(" ")
}
fn check_station(s: &BuoyStation, e: &Entry) -> Verdict {
    ensure!(s.station_id == e.id && s.id() == e.id, "{} read as {}", e.id, s.station_id);
    ensure!(s.latitude == e.lat && s.longitude == e.lon, "{}: {} {} read as {} {}", e.id, e.lat, e.lon, s.latitude, s.longitude);
    ensure!(s.elevation == e.elev.unwrap_or(0.0), "{}: elevation {:?} read as {}", e.id, e.elev, s.elevation);
    ensure!(s.raw_name == e.name && s.owner == e.owner && s.program == e.program, "{}: texts read as {:?} {:?} {:?}", e.id, s.raw_name, s.owner, s.program);
    let kind = KINDS.iter().find(|k| k.0 == e.kind).unwrap().1.clone();
    ensure!(s.buoy_type == kind, "{}: {} read as {:?}", e.id, e.kind, s.buoy_type);
    let got = [s.has_meteorological_data, s.has_currents_data, s.has_water_quality_data, s.has_tsnuami_data];
    let want = e.flags.map(|f| f == Some(true));
    ensure!(got == want, "{}: availability (met, currents, water quality, tsunami) {:?} read as {got:?}", e.id, e.flags);
    let active = want.iter().any(|f| *f);
    ensure!(s.is_active() == active, "{}: {want:?} counts as active: {}", e.id, s.is_active());
    let place = s.location();
    ensure!(place.latitude == e.lat && place.longitude == e.lon, "{}: placed at {place:?}", e.id);
    let name = plain_name(&e.name);
    ensure!(place.name == name, "{}: named {:?}, {:?} expected of {:?}", e.id, place.name, name, e.name);
    let f = s.as_feature();
    let p = f.properties.as_ref().ok_or("no properties".to_string())?;
    ensure!(p["id"] == e.id.as_str() && p["isActive"] == active && p["name"] == name.as_str() && p["type"] == s.buoy_type.to_string().as_str(), "{}: feature {p:?}", e.id);
    match f.geometry.map(|g| g.value) {
        Some(geojson::Value::Point(v)) => ensure!(v == vec![e.lon, e.lat], "{}: point {v:?}", e.id),
        g => return fail(format!("{}: geometry {g:?}", e.id)),
    }
    Ok(())
}

// ---------------------------------------------------------------- observations

/// WDIR WSPD GST WVHT DPD APD MWD PRES PTDY ATMP WTMP DEWP VIS TIDE, in the order of the record.
pub type Obs<'a> = [&'a str; 14];
const MET_HEAD: &str = "#YY  MM DD hh mm WDIR WSPD GST  WVHT   DPD   APD MWD   PRES  ATMP  WTMP  DEWP  VIS PTDY  TIDE\n#yr  mo dy hr mn degT m/s  m/s     m   sec   sec degT   hPa  degC  degC  degC  nmi  hPa    ft\n";
const OBS_HEAD: &str = "#STN     LAT      LON  YYYY MM DD hh mm WDIR WSPD   GST WVHT  DPD APD MWD   PRES  PTDY  ATMP  WTMP  DEWP  VIS   TIDE\n#text    deg      deg   yr mo day hr mn degT  m/s   m/s   m   sec sec degT   hPa   hPa  degC  degC  degC  nmi     ft\n";
pub fn met_line(w: When, v: &Obs) -> String {
    format!(
        "{:04} {:02} {:02} {:02} {:02} {:>3} {:>4} {:>4} {:>5} {:>5} {:>5} {:>3} {:>6} {:>5} {:>5} {:>5} {:>4} {:>4} {:>5}",
        w.0, w.1, w.2, w.3, w.4, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[9], v[10], v[11], v[12], v[8], v[13]
    )
}
pub fn obs_line(id: &str, lat: &str, lon: &str, w: When, v: &Obs) -> String {
    format!(
        "{id:<5} {lat:>7} {lon:>8} {:04} {:02} {:02} {:02} {:02} {:>3} {:>5} {:>5} {:>4} {:>3} {:>4} {:>3} {:>6} {:>5} {:>5} {:>5} {:>5} {:>4} {:>6}",
        w.0, w.1, w.2, w.3, w.4, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13]
    )
}
fn num(what: &str, d: &DimensionalData<f64>, text: &str, unit: Unit) -> Verdict {
    let want = if text == "MM" { None } else { Some(text.parse::<f64>().unwrap()) };
    // whole files are handed out in metric units
    let (want, unit) = match unit {
        Unit::Feet => (want.map(|v| v * 0.3048), Unit::Meters),
        u => (want, u),
    };
    ensure!(d.unit == unit, "{what}: unit {:?}, expected {unit:?}", d.unit);
    match (want, d.value) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) if close(b, a, 1e-9, 0.003) && (unit == Unit::Meters && what == "tide" || a == b) => Ok(()),
        _ => fail(format!("{what}: printed {text}, read {:?}", d.value)),
    }
}
fn bearing(what: &str, d: &DimensionalData<Direction>, text: &str) -> Verdict {
    let want = if text == "MM" { None } else { Some(text.parse::<i32>().unwrap()) };
    ensure!(d.unit == Unit::Degrees && d.value.as_ref().map(|v| v.degrees) == want, "{what}: printed {text}, read {:?}", d.value);
    Ok(())
}
fn check_met(r: &MeteorologicalDataRecord, w: When, v: &Obs) -> Verdict {
    ensure!(same_time(&r.date, w), "printed {w:?}, read {}", r.date);
    bearing("wind direction", &r.wind_direction, v[0])?;
    num("wind speed", &r.wind_speed, v[1], Unit::MetersPerSecond)?;
    num("gust", &r.wind_gust_speed, v[2], Unit::MetersPerSecond)?;
    num("wave height", &r.wave_height, v[3], Unit::Meters)?;
    num("dominant period", &r.dominant_wave_period, v[4], Unit::Seconds)?;
    num("average period", &r.average_wave_period, v[5], Unit::Seconds)?;
    bearing("mean wave direction", &r.mean_wave_direction, v[6])?;
    num("air pressure", &r.air_pressure, v[7], Unit::HectaPascal)?;
    num("pressure tendency", &r.air_pressure_tendency, v[8], Unit::HectaPascal)?;
    num("air temperature", &r.air_temperature, v[9], Unit::Celsius)?;
    num("water temperature", &r.water_temperature, v[10], Unit::Celsius)?;
    num("dew point", &r.dewpoint_temperature, v[11], Unit::Celsius)?;
    num("visibility", &r.visibility, v[12], Unit::NauticalMiles)?;
    num("tide", &r.tide, v[13], Unit::Feet)?;
    let s = r.swell_data().map_err(|e| format!("no summary: {e:?}"))?;
    num("height of the summary", &s.summary.wave_height, v[3], Unit::Meters)?;
    num("period of the summary", &s.summary.period, v[4], Unit::Seconds)?;
    bearing("direction of the summary", &s.summary.direction, v[6])
}
fn check_obs(r: &LatestObsDataRecord, id: &str, lat: &str, lon: &str, w: When, v: &Obs) -> Verdict {
    ensure!(r.station_id == id, "{id} read as {}", r.station_id);
    ensure!(r.latitude == lat.parse::<f64>().unwrap() && r.longitude == lon.parse::<f64>().unwrap(), "{lat} {lon} read as {} {}", r.latitude, r.longitude);
    let s = r.station();
    ensure!(s.station_id == id && s.latitude == r.latitude && s.longitude == r.longitude, "station {s:?} of {id}");
    check_met(
        &MeteorologicalDataRecord {
            date: r.date,
            wind_direction: r.wind_direction.clone(),
            wind_speed: r.wind_speed.clone(),
            wind_gust_speed: r.wind_gust_speed.clone(),
            wave_height: r.wave_height.clone(),
            dominant_wave_period: r.dominant_wave_period.clone(),
            average_wave_period: r.average_wave_period.clone(),
            mean_wave_direction: r.mean_wave_direction.clone(),
            air_pressure: r.air_pressure.clone(),
            air_pressure_tendency: r.air_pressure_tendency.clone(),
            air_temperature: r.air_temperature.clone(),
            water_temperature: r.water_temperature.clone(),
            dewpoint_temperature: r.dewpoint_temperature.clone(),
            visibility: r.visibility.clone(),
            tide: r.tide.clone(),
        },
        w,
        v,
    )?;
    let s = r.swell_data().map_err(|e| format!("no summary: {e:?}"))?;
    num("height of the summary", &s.summary.wave_height, v[3], Unit::Meters)?;
    num("period of the summary", &s.summary.period, v[4], Unit::Seconds)?;
    bearing("direction of the summary", &s.summary.direction, v[6])
}
pub const FIRST: Obs = ["80", "12.0", "14.0", "2.2", "7", "5.4", "101", "1032.4", "+0.3", "16.5", "19.4", "12.9", "1.6", "0.21"];
pub const OTHER: Obs = ["355", "3.1", "4.7", "0.9", "14", "8.8", "6", "987.6", "-1.2", "-3.5", "1.4", "-7.9", "0.4", "-1.38"];

fn read_met(c: &mut Ctx, text: &str) -> Result<Vec<MeteorologicalDataRecord>, Fail> {
    c.run("reading", || MeteorologicalDataRecordCollection::from_data(text).records().collect())
}
fn read_obs(c: &mut Ctx, text: &str) -> Result<Vec<LatestObsDataRecord>, Fail> {
    c.run("reading", || LatestObsDataRecordCollection::from_data(text).records().collect())
}

// ---------------------------------------------------------------- archives (DAP2)

pub enum Column {
    Int(Vec<i32>),
    Float(Vec<f32>),
}
impl Column {
    fn kind(&self) -> &'static str {
        match self {
            Column::Int(_) => "Int32",
            Column::Float(_) => "Float32",
        }
    }
    fn put(&self, out: &mut Vec<u8>) {
        let (n, bytes): (usize, Vec<u8>) = match self {
            Column::Int(v) => (v.len(), v.iter().flat_map(|v| v.to_be_bytes()).collect()),
            Column::Float(v) => (v.len(), v.iter().flat_map(|v| v.to_be_bytes()).collect()),
        };
        for _ in 0..2 {
            out.extend((n as u32).to_be_bytes());
        }
        out.extend(bytes);
    }
}
pub fn archive(times: &[i32], frequencies: Option<&[f32]>, grids: &[(&str, Column)]) -> Vec<u8> {
    let n = times.len();
    let mut s = String::from("Dataset {\n");
    let axis = frequencies.map(|f| format!("[frequency = {}]", f.len())).unwrap_or_default();
    for (name, col) in grids {
        s += &format!("    Grid {{\n     ARRAY:\n        {} {name}[time = {n}]{axis}[latitude = 1][longitude = 1];\n     MAPS:\n        Int32 time[time = {n}];\n", col.kind());
        if let Some(f) = frequencies {
            s += &format!("        Float32 frequency[frequency = {}];\n", f.len());
        }
        s += &format!("        Float32 latitude[latitude = 1];\n        Float32 longitude[longitude = 1];\n    }} {name};\n");
    }
    s += "} data/x.nc;\n\nData:\n";
    let mut out = s.into_bytes();
    for (_, col) in grids {
        col.put(&mut out);
        Column::Int(times.to_vec()).put(&mut out);
        if let Some(f) = frequencies {
            Column::Float(f.to_vec()).put(&mut out);
        }
        Column::Float(vec![40.5]).put(&mut out);
        Column::Float(vec![-69.2]).put(&mut out);
    }
    out
}
/// Name, missing code, whole numbers, and two values, of the archived observations.
pub const STDMET: [(&str, f32, bool, f32, f32); 13] = [
    ("wind_dir", 999.0, true, 80.0, 355.0),
    ("wind_spd", 99.0, false, 12.5, 3.25),
    ("gust", 99.0, false, 14.5, 4.75),
    ("wave_height", 99.0, false, 2.25, 0.5),
    ("dominant_wpd", 99.0, false, 7.5, 14.0),
    ("average_wpd", 99.0, false, 5.25, 8.5),
    ("air_pressure", 9999.0, false, 1032.5, 987.25),
    ("mean_wave_dir", 999.0, true, 101.0, 6.0),
    ("air_temperature", 999.0, false, 16.5, -3.5),
    ("sea_surface_temperature", 999.0, false, 19.5, 1.5),
    ("dewpt_temperature", 999.0, false, 12.75, -7.5),
    ("visibility", 99.0, false, 1.5, 0.25),
    ("water_level", 99.0, false, 0.25, -1.25),
];
/// The values of one archived record in the order of STDMET.
fn archived(r: &MeteorologicalDataRecord) -> [(Option<f64>, Unit); 13] {
    let d = |d: &DimensionalData<Direction>| (d.value.as_ref().map(|v| v.degrees as f64), d.unit.clone());
    let v = |d: &DimensionalData<f64>| (d.value, d.unit.clone());
    [
        d(&r.wind_direction),
        v(&r.wind_speed),
        v(&r.wind_gust_speed),
        v(&r.wave_height),
        v(&r.dominant_wave_period),
        v(&r.average_wave_period),
        v(&r.air_pressure),
        d(&r.mean_wave_direction),
        v(&r.air_temperature),
        v(&r.water_temperature),
        v(&r.dewpoint_temperature),
        v(&r.visibility),
        v(&r.tide),
    ]
}
const STDMET_UNITS: [Unit; 13] = [
    Unit::Degrees,
    Unit::MetersPerSecond,
    Unit::MetersPerSecond,
    Unit::Meters,
    Unit::Seconds,
    Unit::Seconds,
    Unit::HectaPascal,
    Unit::Degrees,
    Unit::Celsius,
    Unit::Celsius,
    Unit::Celsius,
    Unit::NauticalMiles,
    Unit::Feet,
];

const IDS: [&str; 8] = ["44097", "BZBM3", "tplm2", "4401", "44098", "44O97", "440", "TPLM2"];

pub fn c32() -> Prop {
    Prop {
        id: "C32",
        level: "model_checking",
        rule: "every combination of availability flags, types and attributes of a station list, every combination of column contents of the observation files, every list of lines, printed in the documented layout, read by the real reader and compared item by item",
        assumptions: vec![
            "column layouts as in the headers of the stored files; archived files as DAP2 grids with the missing codes 99, 999 and 9999 of the archive",
            "the two git dependencies are replaced by stand-ins, of which the archive reader is one: it decodes the stored archive files, too",
        ],
        families: vec![
            family("stations", "met, currents, waterquality, dart each y, n or absent x 9 types x elevation x attribute order, between two other stations", |c| {
                let mut e = an_entry("44097");
                for f in 0..4 {
                    e.flags[f] = c.pick(&[None, Some(false), Some(true)]);
                }
                e.kind = c.pick(&KINDS).0;
                e.elev = c.pick(&[None, Some(3.5), Some(-1.0)]);
                let swapped = c.flag();
                let mut last = an_entry("44098");
                last.flags = [Some(false); 4];
                let all = [an_entry("13001"), e, last];
                let text = station_list(&all, swapped);
                let l = c.run("reading", || BuoyStations::from_raw_data(&text))?;
                ensure!(l.stations.len() == 3 && l.station_count == 3, "{} stations, counted {}", l.stations.len(), l.station_count);
                for (s, e) in l.stations.iter().zip(&all) {
                    check_station(s, e)?;
                }
                round(c, &l)?;
                c.compared(3);
                c.state((&text, format!("{:?}", l.stations[1])));
                c.sample(|| text.clone());
                Ok(())
            }),
            family("texts", "names, owners, programs and places of a set", |c| {
                let texts = ["Block Island, RI - 154", "", "44025 (LLNR 830) - LONG ISLAND", "A & B <x> \"y\"", "São Tomé", "OTN201 - 4800922", " x ", "A - 12 - B - 34 - C D", "Isle-of-Man - (7) buoy 44", "1 - 2 - 3 - 4 - 5 - 6"];
                let mut e = an_entry(c.pick(&IDS));
                e.name = c.pick(&texts).into();
                e.owner = c.pick(&texts).into();
                e.program = c.pick(&["", "IOOS Partners", "NDBC \"x\" & y"]).into();
                (e.lat, e.lon) = c.pick(&[(0.0, 0.0), (40.967, -71.124), (-33.0, 179.999), (90.0, -180.0), (30.0, -90.0)]);
                let all = [e];
                let l = c.run("reading", || BuoyStations::from_raw_data(&station_list(&all, false)))?;
                ensure!(l.stations.len() == 1, "{} stations", l.stations.len());
                check_station(&l.stations[0], &all[0])?;
                round(c, &l)?;
                round(c, &l.stations[0])?;
                c.state(format!("{l:?}"));
                Ok(())
            }),
            family("lists", "every list of up to 4 (thorough 6) stations of 8 identifiers (one twice in different letter case); every identifier looked up", |c| {
                let n = c.range(0, c.t(4, 6)) as usize;
                let all: Vec<Entry> = (0..n).map(|i| Entry { lat: i as f64, ..an_entry(c.pick(&IDS)) }).collect();
                let l = if n == 0 { BuoyStations::default() } else { c.run("reading", || BuoyStations::from_raw_data(&station_list(&all, false)))? };
                for id in IDS {
                    let want = all.iter().position(|e| e.id == id);
                    let got = c.run("looking up", || l.find_station(id))?;
                    match (want, got) {
                        (None, None) => {}
                        (Some(i), Some(s)) => check_station(&s, &all[i])?,
                        (w, g) => return fail(format!("looking up {id}: {g:?}, listed at {w:?}")),
                    }
                }
                // restricting the list
                let kept: Vec<BuoyStation> = l.stations.iter().filter(|s| s.station_id != "44097").cloned().collect();
                let m = c.run("restricting", || BuoyStations::from(kept.clone()))?;
                ensure!(m.station_count == kept.len() && format!("{:?}", m.stations) == format!("{kept:?}"), "{} stations became {} counted {}", kept.len(), m.stations.len(), m.station_count);
                ensure!(m.find_station("44097").is_none(), "a station left out is found");
                let features: geojson::FeatureCollection = c.run("features", || m.clone().into())?;
                ensure!(features.features.len() == kept.len(), "{} features of {} stations", features.features.len(), kept.len());
                for (f, s) in features.features.iter().zip(&kept) {
                    ensure!(f.property("id") == Some(&s.station_id.as_str().into()), "feature {f:?} of {s:?}");
                }
                c.compared(7);
                c.state(all.iter().map(|e| e.id.clone()).collect::<Vec<_>>());
                Ok(())
            }),
            family("met_columns", "every combination of 2 (thorough 3) contents per column, missing included, as the second of three lines", |c| {
                let mut v: Obs = FIRST;
                for k in 0..14 {
                    v[k] = if c.thorough && k < 9 { c.pick(&[FIRST[k], "MM", OTHER[k]]) } else { c.pick(&[OTHER[k], "MM"]) };
                }
                let text = format!("{MET_HEAD}{}\n{}\n{}\n", met_line((2018, 9, 25, 0, 50), &FIRST), met_line((2018, 9, 24, 23, 50), &v), met_line((2018, 9, 24, 22, 50), &OTHER));
                let r = read_met(c, &text)?;
                ensure!(r.len() == 3, "{} records of 3 lines", r.len());
                check_met(&r[0], (2018, 9, 25, 0, 50), &FIRST)?;
                check_met(&r[1], (2018, 9, 24, 23, 50), &v)?;
                check_met(&r[2], (2018, 9, 24, 22, 50), &OTHER)?;
                c.compared(45);
                c.state(v);
                c.sample(|| met_line((2018, 9, 24, 23, 50), &v));
                Ok(())
            }),
            family("obs_columns", "every combination of 2 (thorough 3) contents per column, missing included, as the second of three lines", |c| {
                let mut v: Obs = FIRST;
                for k in 0..14 {
                    v[k] = if c.thorough && k < 9 { c.pick(&[FIRST[k], "MM", OTHER[k]]) } else { c.pick(&[OTHER[k], "MM"]) };
                }
                let w = (2022, 12, 30, 1, 26);
                let text = format!("{OBS_HEAD}{}\n{}\n{}\n", obs_line("13001", "12.000", "-23.000", w, &FIRST), obs_line("44097", "40.967", "-71.124", w, &v), obs_line("TPLM2", "-38.9", "179.95", w, &OTHER));
                let r = read_obs(c, &text)?;
                ensure!(r.len() == 3, "{} records of 3 lines", r.len());
                check_obs(&r[0], "13001", "12.000", "-23.000", w, &FIRST)?;
                check_obs(&r[1], "44097", "40.967", "-71.124", w, &v)?;
                check_obs(&r[2], "TPLM2", "-38.9", "179.95", w, &OTHER)?;
                c.compared(51);
                c.state(v);
                Ok(())
            }),
            family("records", "every field missing or present one at a time and in pairs: JSON and unit systems", |c| {
                let mut v: Obs = FIRST;
                let a = c.choose(14);
                let b = c.choose(14);
                v[a] = "MM";
                v[b] = if c.flag() { "MM" } else { OTHER[b] };
                let w = (2022, 12, 30, 1, 26);
                let m = read_met(c, &format!("{}\n", met_line(w, &v)))?;
                let o = read_obs(c, &format!("{}\n", obs_line("44097", "40.967", "-71.124", w, &v)))?;
                ensure!(m.len() == 1 && o.len() == 1, "{} and {} records", m.len(), o.len());
                round(c, &m[0])?;
                round(c, &o[0])?;
                for system in [UnitSystem::English, UnitSystem::Knots, UnitSystem::Kelvin] {
                    let mut x = m[0].clone();
                    c.run("converting", || {
                        x.to_units(&system);
                    })?;
                    let mut y = o[0].clone();
                    c.run("converting", || {
                        y.to_units(&system);
                    })?;
                    let pairs = |m: &MeteorologicalDataRecord| {
                        vec![m.wind_speed.clone(), m.wind_gust_speed.clone(), m.wave_height.clone(), m.dominant_wave_period.clone(), m.average_wave_period.clone(), m.air_pressure.clone(), m.air_pressure_tendency.clone(), m.air_temperature.clone(), m.water_temperature.clone(), m.dewpoint_temperature.clone(), m.visibility.clone(), m.tide.clone()]
                    };
                    let y = [y.wind_speed, y.wind_gust_speed, y.wave_height, y.dominant_wave_period, y.average_wave_period, y.air_pressure, y.air_pressure_tendency, y.air_temperature, y.water_temperature, y.dewpoint_temperature, y.visibility, y.tide];
                    for ((before, after), other) in pairs(&m[0]).iter().zip(pairs(&x)).zip(y) {
                        let mut alone = before.clone();
                        alone.to_units(&system);
                        ensure!(alone.unit == after.unit && alone.value == after.value, "{before:?} in {system:?}: {after:?} within its record, {alone:?} alone");
                        ensure!(alone.unit == other.unit && alone.value == other.value, "{before:?} in {system:?}: {other:?} within its record, {alone:?} alone");
                    }
                }
                c.state(v);
                Ok(())
            }),
            family("maps", "every field missing or present one at a time and in pairs: the maps of a record hold every value under a name of its own", |c| {
                let mut v: Obs = FIRST;
                let (a, b) = (c.choose(14), c.choose(14));
                v[a] = "MM";
                v[b] = if c.flag() { "MM" } else { OTHER[b] };
                let day = c.choose(3);
                let w = [(2022, 12, 30, 1, 26), (1969, 12, 31, 23, 59), (2040, 2, 29, 0, 0)][day];
                let m = read_met(c, &format!("{}\n", met_line(w, &v)))?;
                ensure!(m.len() == 1, "{} records", m.len());
                let m = &m[0];
                let numbers: HashMap<String, DimensionalData<f64>> = c.run("map", || m.clone().into())?;
                let texts: HashMap<String, Option<String>> = c.run("map", || m.clone().into())?;
                ensure!(numbers.len() == 15 && texts.len() == 14, "{} and {} entries", numbers.len(), texts.len());
                let seconds = NaiveDate::from_ymd_opt(w.0, w.1, w.2).unwrap().and_hms_opt(w.3, w.4, 0).unwrap().and_utc().timestamp();
                ensure!(numbers.get("date").is_some_and(|d| d.value == Some(seconds as f64) && d.unit == Unit::Seconds), "date {:?}", numbers.get("date"));
                for (name, i) in [("wind direction", 0), ("wind speed", 1), ("wind gust speed", 2), ("wave height", 3), ("dominant wave period", 4), ("average wave period", 5), ("mean wave direction", 6), ("air pressure", 7), ("air pressure tendency", 8), ("air temperature", 9), ("water temperature", 10), ("dewpoint temperature", 11), ("visibility", 12), ("tide", 13)] {
                    // the tide is written in feet and read in metres
                    let want: Option<f64> = v[i].trim_start_matches('+').parse().ok().map(|x: f64| if i == 13 { x * 0.3048 } else { x });
                    let (n, t) = (numbers.get(name), texts.get(name));
                    ensure!(n.is_some_and(|n| n.value.is_some() == want.is_some() && close(n.value.unwrap_or(0.0), want.unwrap_or(0.0), 1e-9, 1e-3) && n.variable_name == name), "{name}: {n:?}, expected {want:?}");
                    ensure!(t.is_some_and(|t| t.is_some() == want.is_some() && t.as_ref().map_or(true, |t| t.split([' ', '°']).next().and_then(|t| t.parse::<f64>().ok()).is_some_and(|x| (x - want.unwrap()).abs() <= 0.0501))), "{name}: {t:?}, expected {want:?}");
                }
                let s = c.run("swell", || m.swell_data())?.map_err(|e| e.to_string())?;
                ensure!(s.components.is_empty() && alike(&format!("{:?} {:?} {:?}", s.summary.wave_height, s.summary.period, s.summary.direction), &format!("{:?} {:?} {:?}", m.wave_height, m.dominant_wave_period, m.mean_wave_direction)), "{s:?} of {m:?}");
                c.compared(30);
                c.state((v, day));
                Ok(())
            }),
            family("identity", "every pair of 7 identifiers: a station of its own; type labels; list addresses", |c| {
                use std::hash::{DefaultHasher, Hash, Hasher};
                let (a, b) = (c.pick(&IDS), c.pick(&IDS));
                let mut s = c.run("a station", || BuoyStation::new(a.into(), 40.5, -71.25))?;
                let t = BuoyStation::new(b.into(), 1.0, 2.0);
                ensure!(s.station_id == a && s.latitude == 40.5 && s.longitude == -71.25 && s.is_active(), "{s:?}");
                ensure!((s == t) == (a == b), "{a} and {b}: equal {}", s == t);
                let hash = |s: &BuoyStation| {
                    let mut h = DefaultHasher::new();
                    s.hash(&mut h);
                    h.finish()
                };
                ensure!((hash(&s) == hash(&t)) == (a == b), "{a} and {b}: hashes");
                ensure!(s.location().latitude == 40.5 && s.location().longitude == -71.25 && s.id() == a, "{:?}", s.location());
                let mut labels = vec![];
                for (_, kind) in KINDS {
                    s.buoy_type = kind.clone();
                    let f: geojson::Feature = c.run("feature", || s.as_feature())?;
                    let label = kind.to_string();
                    ensure!(f.property("type") == Some(&label.as_str().into()) && f.property("isActive") == Some(&true.into()), "{kind:?}: {f:?}");
                    ensure!(!label.is_empty() && label.replace(' ', "").eq_ignore_ascii_case(&format!("{kind:?}")), "{kind:?} is labelled {label:?}");
                    labels.push(label);
                }
                labels.sort();
                labels.dedup();
                ensure!(labels.len() == KINDS.len(), "{labels:?}");
                ensure!(BuoyStations::active_stations_url() == "https://www.ndbc.noaa.gov/activestations.xml" && BuoyStations::latest_obs_url() == "https://www.ndbc.noaa.gov/data/latest_obs/latest_obs.txt", "list addresses");
                c.state((a, b));
                Ok(())
            }),
            family("values", "every printable value of every column: speeds, heights and periods 0.0..120.0, bearings 0..360, pressures 800..1100, temperatures -60..60, tendencies -99..99, tides -30..30", |c| {
                let k = c.choose(14);
                let n = match k {
                    0 | 6 => 361,
                    7 => 3001,
                    8 => 1981,
                    13 => 6001,
                    9..=11 => 1201,
                    _ => 1201,
                };
                let i = c.choose(n) as f64;
                let text = match k {
                    0 | 6 => format!("{i}"),
                    7 => format!("{:.1}", 800.0 + i / 10.0),
                    8 => format!("{:+.1}", i / 10.0 - 99.0),
                    13 => format!("{:.2}", i / 100.0 - 30.0),
                    9..=11 => format!("{:.1}", i / 10.0 - 60.0),
                    _ => format!("{:.1}", i / 10.0),
                };
                let mut v: Obs = FIRST;
                v[k] = &text;
                let w = (2018, 9, 24, 23, 50);
                let r = read_met(c, &format!("{MET_HEAD}{}\n", met_line(w, &v)))?;
                ensure!(r.len() == 1, "{} records", r.len());
                check_met(&r[0], w, &v)?;
                let r = read_obs(c, &format!("{OBS_HEAD}{}\n", obs_line("44097", "40.967", "-71.124", w, &v)))?;
                ensure!(r.len() == 1, "{} records", r.len());
                check_obs(&r[0], "44097", "40.967", "-71.124", w, &v)?;
                c.state((k, &text));
                Ok(())
            }),
            family("odd_values", "each column, and each two, one of 17 numbers (those used elsewhere for missing, signs, zeros, whole and long ones), with none to three columns more than documented", |c| {
                const NUMBERS: [&str; 17] = ["99", "99.0", "99.00", "999", "999.0", "9999.0", "9999", "-99.0", "-9999.0", "0", "-0.1", "+0.0", "+99.9", "-99", "1e2", "3.14159265358979", "MM"];
                let (i, j) = (c.choose(14), c.choose(14));
                let mut v: Obs = FIRST;
                for k in [i, j] {
                    v[k] = if k == 0 || k == 6 { c.pick(&["99", "999", "0", "360", "9999", "-99", "MM"]) } else { c.pick(&NUMBERS) };
                }
                let more = c.choose(4);
                let extra = [" 7.5", " MM", " 99.00"][..more.min(3)].concat();
                let w = (2018, 9, 24, 23, 50);
                let r = read_met(c, &format!("{MET_HEAD}{}{extra}\n{}\n", met_line(w, &v), met_line(w, &OTHER)))?;
                ensure!(!r.is_empty() && (more > 0 || r.len() == 2), "{} records", r.len());
                check_met(r.last().unwrap(), w, &OTHER)?;
                if r.len() == 2 {
                    check_met(&r[0], w, &v)?;
                }
                let r = read_obs(c, &format!("{OBS_HEAD}{}{extra}\n{}\n", obs_line("44097", "40.967", "-71.124", w, &v), obs_line("44097", "40.967", "-71.124", w, &OTHER)))?;
                ensure!(!r.is_empty() && (more > 0 || r.len() == 2), "{} records", r.len());
                check_obs(r.last().unwrap(), "44097", "40.967", "-71.124", w, &OTHER)?;
                if r.len() == 2 {
                    check_obs(&r[0], "44097", "40.967", "-71.124", w, &v)?;
                }
                c.state((v, more));
                Ok(())
            }),
            family("impossible_dates", "each part of the date of a line replaced by texts that are no such part, before, between and after well-formed lines, both files", |c| {
                let part = c.choose(5);
                let w = (2018, 9, 24, 23, 50);
                let bad = match part {
                    0 => c.pick(&["x018", "20.8", "2O18", "--18", "999999999", "MM", "MM", "MM"]),
                    1 => c.pick(&["00", "0", "13", "14", "99", "-9", "9.", "MM"]),
                    2 => c.pick(&["00", "0", "31", "32", "99", "-1", "1.", "MM"]),
                    3 => c.pick(&["24", "25", "48", "99", "-1", "1.", "x1", "MM"]),
                    _ => c.pick(&["60", "61", "75", "99", "-1", "1.", "120", "MM"]),
                };
                let at = c.choose(3);
                let latest = c.flag();
                let line = |v: &Obs, w| if latest { obs_line("44097", "40.967", "-71.124", w, v) } else { met_line(w, v) };
                let mut words: Vec<String> = line(&FIRST, w).split_whitespace().map(String::from).collect();
                words[part + if latest { 3 } else { 0 }] = bad.into();
                let mut lines = vec![line(&FIRST, w), line(&OTHER, w)];
                lines.insert(at, words.join(" "));
                let text = lines.join("\n") + "\n";
                if latest {
                    let r = read_obs(c, &text)?;
                    ensure!(r.len() == 2, "{} records of 2 well-formed lines in {text:?}", r.len());
                    check_obs(&r[0], "44097", "40.967", "-71.124", w, &FIRST)?;
                    check_obs(&r[1], "44097", "40.967", "-71.124", w, &OTHER)?;
                } else {
                    let r = read_met(c, &text)?;
                    ensure!(r.len() == 2, "{} records of 2 well-formed lines in {text:?}", r.len());
                    check_met(&r[0], w, &FIRST)?;
                    check_met(&r[1], w, &OTHER)?;
                }
                c.state(&text);
                Ok(())
            }),
            family("dates", "every day of 2015-2034 (thorough 1990-2049), 6 times a day, both files", |c| {
                let (y0, y1) = c.t((2015, 2034), (1990, 2049));
                let first = NaiveDate::from_ymd_opt(y0, 1, 1).unwrap();
                let days = (NaiveDate::from_ymd_opt(y1, 12, 31).unwrap() - first).num_days();
                let d = first + Duration::days(c.range(0, days));
                for (h, m) in [(0, 0), (0, 1), (9, 59), (12, 30), (23, 0), (23, 59)] {
                    let w = (d.year(), d.month(), d.day(), h, m);
                    let r = read_met(c, &format!("{}\n", met_line(w, &FIRST)))?;
                    ensure!(r.len() == 1, "{} records of {w:?}", r.len());
                    check_met(&r[0], w, &FIRST)?;
                    let r = read_obs(c, &format!("{}\n", obs_line("44097", "40.967", "-71.124", w, &OTHER)))?;
                    ensure!(r.len() == 1, "{} records of {w:?}", r.len());
                    check_obs(&r[0], "44097", "40.967", "-71.124", w, &OTHER)?;
                    c.state(w);
                }
                Ok(())
            }),
            family("lines", "every sequence of up to 4 (thorough 5) lines over 10: well-formed, comment, blank, short, impossible date, unreadable, stray quote; both files, both line endings", |c| {
                let n = c.range(0, c.t(4, 5)) as usize;
                let latest = c.flag();
                let end = c.pick(&["\n", "\r\n"]);
                let (mut text, mut want) = (String::new(), vec![]);
                for i in 0..n {
                    let w = (2020, 2, 28 - i as u32, 3, 10 + i as u32);
                    let line = |v: &Obs, w| if latest { obs_line("44097", "40.967", "-71.124", w, v) } else { met_line(w, v) };
                    let l = match c.choose(10) {
                        0 => {
                            want.push((w, FIRST));
                            line(&FIRST, w)
                        }
                        1 => {
                            want.push((w, OTHER));
                            format!("  {}  ", line(&OTHER, w))
                        }
                        2 => "#YY  MM DD hh mm".into(),
                        3 => "".into(),
                        4 => line(&FIRST, w)[..16].into(),
                        5 => line(&FIRST, (2019, 2, 30, 3, 0)),
                        6 => line(&FIRST, (2019, 2, 3, 25, 0)),
                        7 => "no data".into(),
                        8 => "2020 \"".into(),
                        _ => line(&FIRST, w).replacen("20", "2x", 1),
                    };
                    text += &l;
                    text += end;
                }
                if latest {
                    let r = read_obs(c, &text)?;
                    ensure!(r.len() == want.len(), "{} records of {} well-formed lines in {text:?}", r.len(), want.len());
                    for (r, (w, v)) in r.iter().zip(&want) {
                        check_obs(r, "44097", "40.967", "-71.124", *w, v)?;
                    }
                } else {
                    let r = read_met(c, &text)?;
                    ensure!(r.len() == want.len(), "{} records of {} well-formed lines in {text:?}", r.len(), want.len());
                    for (r, (w, v)) in r.iter().zip(&want) {
                        check_met(r, *w, v)?;
                    }
                }
                c.compared(want.len() as u64);
                c.state(&text);
                Ok(())
            }),
            family("cuts", "both files cut at every byte, and every byte replaced by each of 8 characters", |c| {
                let latest = c.flag();
                let w = |i: u32| (2020, 2, 27 + i, 3, 10 + i);
                let text = if latest {
                    format!("{OBS_HEAD}{}\n{}\n{}\n", obs_line("13001", "12.000", "-23.000", w(0), &FIRST), obs_line("44097", "40.967", "-71.124", w(1), &OTHER), obs_line("TPLM2", "-38.9", "179.95", w(2), &FIRST))
                } else {
                    format!("{MET_HEAD}{}\n{}\n{}\n", met_line(w(0), &FIRST), met_line(w(1), &OTHER), met_line(w(2), &FIRST))
                };
                let at = c.choose(text.len());
                let with = c.pick(&["", "x", " ", "9", "-", "\"", "\n", "#", "."]);
                let cut = with.is_empty();
                let damaged = if cut { text[..at].to_string() } else { format!("{}{with}{}", &text[..at], &text[at + 1..]) };
                let head = text.len() - text.lines().skip(2).map(|l| l.len() + 1).sum::<usize>();
                let dates: Vec<DateTime<Utc>> = if latest { read_obs(c, &damaged)?.iter().map(|r| r.date).collect() } else { read_met(c, &damaged)?.iter().map(|r| r.date).collect() };
                // lines that end before the damage are read as they are
                let mut end = head;
                let mut whole = 0;
                for l in text.lines().skip(2) {
                    end += l.len() + 1;
                    if end <= at {
                        whole += 1;
                    }
                }
                ensure!(dates.len() >= whole, "{} of {whole} whole records after damage at {at}: {damaged:?}", dates.len());
                if at >= head || cut {
                    for (i, d) in dates.iter().take(whole).enumerate() {
                        ensure!(same_time(d, w(i as u32)), "record {i} read with {d}");
                    }
                }
                if cut {
                    ensure!(dates.iter().enumerate().all(|(i, d)| same_time(d, w(i as u32))), "a cut at {at} gives {dates:?}");
                }
                c.state((latest, at, with));
                Ok(())
            }),
            family("archived", "1..3 times, each of 13 columns missing or present one at a time and in pairs; times across the calendar", |c| {
                let n = c.range(1, 3) as usize;
                let (a, b, at) = (c.choose(13), c.choose(13), c.choose(n));
                let t0: i32 = c.pick(&[0, 951782400, 1492019400, 1709164800, 1893455940, 1492019459, 951782399]);
                let times: Vec<i32> = (0..n as i32).map(|i| t0 + 3600 * i).collect();
                let value = |k: usize, i: usize| {
                    let (_, code, _, x, y) = STDMET[k];
                    if i == at && (k == a || k == b) {
                        code
                    } else if i % 2 == 0 {
                        x
                    } else {
                        y
                    }
                };
                let grids: Vec<(&str, Column)> = STDMET
                    .iter()
                    .enumerate()
                    .map(|(k, (name, _, whole, _, _))| (*name, if *whole { Column::Int((0..n).map(|i| value(k, i) as i32).collect()) } else { Column::Float((0..n).map(|i| value(k, i)).collect()) }))
                    .collect();
                let data = archive(&times, None, &grids);
                let r: Vec<MeteorologicalDataRecord> = c.run("reading", || StdmetDataRecordCollection::from_data(&data).records().collect())?;
                ensure!(r.len() == n, "{} records of {n} times", r.len());
                for (i, r) in r.iter().enumerate() {
                    ensure!(r.date.timestamp() == times[i] as i64, "time {} read as {}", times[i], r.date);
                    for (k, (got, unit)) in archived(r).iter().enumerate() {
                        let v = value(k, i);
                        let want = if v == STDMET[k].1 { None } else { Some(v as f64) };
                        ensure!(*got == want && *unit == STDMET_UNITS[k], "{} is {want:?}, read {got:?} {unit:?}", STDMET[k].0);
                    }
                    ensure!(r.air_pressure_tendency.value.is_none(), "a tendency nobody sent: {:?}", r.air_pressure_tendency);
                    let s = r.swell_data().map_err(|e| format!("{e:?}"))?.summary;
                    ensure!(s.wave_height.value == r.wave_height.value && s.period.value == r.dominant_wave_period.value, "summary {s:?}");
                    round(c, r)?;
                }
                c.compared(13 * n as u64);
                c.state((n, a, b, at, t0));
                Ok(())
            }),
            family("near_codes", "every column at 99, 999, 9999, 98.9 and 99.1: missing exactly at its own code", |c| {
                let k = c.choose(13);
                let x: f32 = c.pick(&[99.0, 999.0, 9999.0, 98.5, 99.5, 0.0]);
                let (_, code, whole, _, _) = STDMET[k];
                let x = if whole { x.trunc() } else { x };
                let grids: Vec<(&str, Column)> = STDMET
                    .iter()
                    .enumerate()
                    .map(|(i, (name, _, whole, v, _))| {
                        let v = if i == k { x } else { *v };
                        (*name, if *whole { Column::Int(vec![v as i32]) } else { Column::Float(vec![v]) })
                    })
                    .collect();
                let data = archive(&[1492019400], None, &grids);
                let r: Vec<MeteorologicalDataRecord> = c.run("reading", || StdmetDataRecordCollection::from_data(&data).records().collect())?;
                ensure!(r.len() == 1, "{} records", r.len());
                let got = archived(&r[0])[k].0;
                let want = if x == code { None } else { Some(x as f64) };
                ensure!(got == want, "{} at {x} read as {got:?}", STDMET[k].0);
                c.state((k, x.to_bits()));
                Ok(())
            }),
            family("spectra", "1..12 times x 1..70 frequencies: every value at its own time and frequency", |c| {
                let n = c.range(1, 12) as usize;
                let m = c.range(1, 70) as usize;
                let times: Vec<i32> = (0..n as i32).map(|i| 1492019400 + 3600 * i + i * i).collect();
                let f: Vec<f32> = (0..m).map(|j| 0.0325 + 0.005 * j as f32).collect();
                let v = |k: usize, i: usize, j: usize| (k * 10_000 + i * 100 + j) as f32;
                let names = ["spectral_wave_density", "mean_wave_dir", "principal_wave_dir", "wave_spectrum_r1", "wave_spectrum_r2"];
                let grids: Vec<(&str, Column)> = names
                    .iter()
                    .enumerate()
                    .map(|(k, name)| {
                        let all: Vec<f32> = (0..n).flat_map(|i| (0..m).map(move |j| v(k, i, j))).collect();
                        (*name, if k == 1 || k == 2 { Column::Int(all.iter().map(|x| *x as i32).collect()) } else { Column::Float(all) })
                    })
                    .collect();
                let data = archive(&times, Some(&f), &grids);
                let r: Vec<SwdenWaveDataRecord> = c.run("reading", || SwdenWaveDataRecordCollection::from_data(&data).records().collect())?;
                ensure!(r.len() == n, "{} records of {n} times", r.len());
                for (i, r) in r.iter().enumerate() {
                    ensure!(r.date.timestamp() == times[i] as i64, "time {} read as {}", times[i], r.date);
                    ensure!(r.frequency == f.iter().map(|x| *x as f64).collect::<Vec<_>>(), "frequencies {:?}", r.frequency);
                    for (k, got) in [&r.energy_spectra, &r.mean_wave_direction, &r.primary_wave_direction, &r.first_polar_coefficient, &r.second_polar_coefficient].iter().enumerate() {
                        let want: Vec<f64> = (0..m).map(|j| v(k, i, j) as f64).collect();
                        ensure!(**got == want, "{} of time {i}: {got:?}", names[k]);
                    }
                }
                c.compared((5 * n * m) as u64);
                c.state((n, m));
                Ok(())
            }),
            family("observations", "every list of up to 3 stations and up to 3 (thorough 4) observations of 4 identifiers: each station gets its own latest", |c| {
                let ids = &IDS[..4];
                let n = c.range(0, 3) as usize;
                let stations: Vec<BuoyStation> = (0..n).map(|_| BuoyStation::new(c.pick(ids).into(), 40.0, -71.0)).collect();
                let m = c.range(0, c.t(3, 4)) as usize;
                let mut obs = vec![];
                let mut last: BTreeMap<String, usize> = BTreeMap::new();
                for i in 0..m {
                    let id = c.pick(ids);
                    let mut v = FIRST;
                    let h = format!("{}.5", i + 1);
                    v[3] = &h;
                    v[1] = ["MM", "3.5", "MM", "0.0"][i % 4];
                    if i % 3 == 1 {
                        (v[2], v[0], v[8], v[13]) = ("0.0", "0", "-0.0", "0.00");
                    }
                    last.insert(id.into(), i);
                    obs.extend(read_obs(c, &format!("{}\n", obs_line(id, "1.0", "2.0", (2020, 2, 1 + i as u32, 0, 0), &v)))?);
                }
                ensure!(obs.len() == m, "{} observations of {m}", obs.len());
                let f = c.run("features", || latest_obs_feature_collection(&stations, &obs))?;
                ensure!(f.features.len() == n, "{} features of {n} stations", f.features.len());
                for (f, s) in f.features.iter().zip(&stations) {
                    ensure!(f.property("id") == Some(&s.station_id.as_str().into()), "feature {f:?} of {}", s.station_id);
                    match (f.property("latest_observations"), last.get(&s.station_id)) {
                        (None, None) => {}
                        (Some(o), Some(i)) => {
                            ensure!(o["wave_height"]["value"] == *i as f64 + 1.5, "{}: {o}", s.station_id);
                            ensure!(o.get("wind_speed").is_some() == (i % 2 == 1), "{}: a missing value is shown or a value is not: {o}", s.station_id);
                            ensure!(o.get("station_id").is_none() && o["date"].as_str().is_some_and(|d| d.starts_with(&format!("2020-02-0{}", 1 + i))), "{}: {o}", s.station_id);
                            for k in ["wind_direction", "wind_gust_speed", "dominant_wave_period", "average_wave_period", "mean_wave_direction", "air_pressure", "air_pressure_tendency", "air_temperature", "water_temperature", "dewpoint_temperature", "visibility", "tide"] {
                                ensure!(o.get(k).is_some(), "{}: no {k} in {o}", s.station_id);
                            }
                        }
                        (o, i) => return fail(format!("{}: {o:?}, observed last in {i:?}", s.station_id)),
                    }
                }
                c.compared(n as u64);
                c.state((stations.iter().map(|s| s.station_id.clone()).collect::<Vec<_>>(), format!("{last:?}")));
                Ok(())
            }),
            family("addresses", "7 identifiers x 12 boundary days x 24 hours x 3 sources, every address", |c| {
                let id = c.pick(&IDS);
                let day = c.pick(&special_days());
                let s = BuoyStation::new(id.into(), 0.0, 0.0);
                let rt = "https://www.ndbc.noaa.gov/data/realtime2";
                for (got, want) in [
                    (s.latest_obs_data_url(), format!("https://ndbc.noaa.gov/data/latest_obs/{id}.txt")),
                    (s.meteorological_data_url(), format!("{rt}/{id}.txt")),
                    (s.wave_data_url(), format!("{rt}/{id}.spec")),
                    (s.spectral_wave_data_url(), format!("{rt}/{id}.data_spec")),
                    (s.mean_wave_direction_spectral_data_url(), format!("{rt}/{id}.swdir")),
                    (s.principal_wave_direction_spectral_data_url(), format!("{rt}/{id}.swdir2")),
                    (s.r1_spectral_data_url(), format!("{rt}/{id}.swr1")),
                    (s.r2_spectral_data_url(), format!("{rt}/{id}.swr2")),
                    (s.stdmet_dap_url_root(), format!("https://dods.ndbc.noaa.gov/thredds/dodsC/data/stdmet/{id}/{id}h9999.nc")),
                    (s.swden_dap_url_root(), format!("https://dods.ndbc.noaa.gov/thredds/dodsC/data/swden/{id}/{id}w9999.nc")),
                    (s.stdmet_das_url(), format!("https://dods.ndbc.noaa.gov/thredds/dodsC/data/stdmet/{id}/{id}h9999.nc.das")),
                    (s.stdmet_dds_url(), format!("https://dods.ndbc.noaa.gov/thredds/dodsC/data/stdmet/{id}/{id}h9999.nc.dds")),
                    (s.swden_das_url(), format!("https://dods.ndbc.noaa.gov/thredds/dodsC/data/swden/{id}/{id}w9999.nc.das")),
                    (s.swden_dds_url(), format!("https://dods.ndbc.noaa.gov/thredds/dodsC/data/swden/{id}/{id}w9999.nc.dds")),
                ] {
                    ensure!(got == want, "{got} instead of {want}");
                }
                for hour in 0..24 {
                    let t = Utc.from_utc_datetime(&day.and_hms_opt(hour, 17, 3).unwrap());
                    let (y, m, d) = (day.year(), day.month(), day.day());
                    for (source, root) in SOURCES {
                        let run = format!("gfs.{y:04}{m:02}{d:02}/{hour:02}/wave/station");
                        for (got, want) in [
                            (s.gfswave_bulletin_data_url(&source, &t), format!("{root}/{run}/bulls.t{hour:02}z/gfswave.{id}.cbull")),
                            (s.gfswave_spectral_data_url(&source, &t), format!("{root}/{run}/bulls.t{hour:02}z/gfswave.{id}.spec")),
                            (s.gfswave_bulletin_data_prefix(&t), format!("gfs.{y:04}{m:02}{d:02}/{hour:02}/wave/station/bulls.t{hour:02}z/gfswave.{id}.cbull")),
                            (s.gfswave_spectral_data_prefix(&t), format!("gfs.{y:04}{m:02}{d:02}/{hour:02}/wave/station/bulls.t{hour:02}z/gfswave.{id}.spec")),
                            (BuoyStations::gfswave_source_path(&source).to_string(), root.to_string()),
                            (BuoyStation::gfswave_lsl_url(&source, &t), format!("{root}/{run}/ls-l")),
                            (BuoyStations::gfswave_stations_root_url(&source, &t), format!("{root}/{run}/bulls.t{hour:02}z/")),
                        ] {
                            ensure!(got == want, "{got} instead of {want}");
                        }
                    }
                    c.steps(12);
                    c.state((id, day, hour));
                }
                c.compared(12 + 24 * 12);
                Ok(())
            }),
            family("constraints", "1..3 variables with 0..3 ranges of {0,1,7,120} each: written, read, and in an address", |c| {
                let n = c.range(0, c.t(2, 3)) as usize;
                let s = BuoyStation::new("44097".into(), 0.0, 0.0);
                let mut list = vec![];
                let mut want = vec![];
                for i in 0..n {
                    let var = c.pick(&["gust", "spectral_wave_density", "time"]).to_string();
                    let ranges: Vec<(usize, usize, usize)> = (0..c.range(0, if i == 0 { 2 } else { 1 })).map(|_| (c.pick(&[0, 7, 120]), c.pick(&[1, 7]), c.pick(&[0, 7, 4321]))).collect();
                    let text = format!("{var}{}", ranges.iter().map(|(a, b, e)| format!("[{a}:{b}:{e}]")).collect::<String>());
                    let k = DapConstraint::new(var.clone(), ranges.clone());
                    ensure!(k.to_string() == text, "{k:?} written as {k}");
                    let back: DapConstraint = c.run("reading", || text.parse())?.map_err(|e: String| format!("{text}: {e}"))?;
                    ensure!(back.var == var && back.ranges == ranges, "{text} read as {back:?}");
                    list.push(k);
                    want.push(text);
                }
                let root = "https://dods.ndbc.noaa.gov/thredds/dodsC/data";
                let q = want.join(",");
                for (got, want) in [
                    (s.stdmet_dods_url(&list), format!("{root}/stdmet/44097/44097h9999.nc.dods?{q}")),
                    (s.swden_dods_url(&list), format!("{root}/swden/44097/44097w9999.nc.dods?{q}")),
                ] {
                    ensure!(got == want, "{got} instead of {want}");
                }
                c.state(q);
                Ok(())
            }),
            family("bad_constraints", "every text of up to 7 (thorough 8) characters out of a[:]1 and of the 8 and 9 characters of a[1:1:1] with one or two of them replaced or blanks between is read, and written as it was, or refused", |c| {
                let n = c.range(0, c.t(7, 8)) as usize;
                let mut text: String = (0..n).map(|_| c.pick(&['a', '[', ':', ']', '1'])).collect();
                if n == 0 {
                    text = c.pick(&["a[1:1:1]", "a[1:1:1][1:2:3]", "a"]).into();
                    for _ in 0..2 {
                        let at = c.choose(text.len() + 1);
                        match c.choose(9) {
                            0 => {}
                            k => text.insert(at, [' ', '\t', ']', '[', ':', '-', '.', 'x'][k - 1]),
                        }
                    }
                }
                let r: Result<DapConstraint, String> = c.run(&format!("reading {text:?}"), || text.parse())?;
                // what is read says what was written
                if let Ok(k) = &r {
                    let again = k.to_string();
                    let once: DapConstraint = again.parse().map_err(|e: String| format!("{again}: {e}"))?;
                    ensure!(once.var == k.var && once.ranges == k.ranges && again == text, "{text} read as {k:?}, {again} again");
                }
                c.state((&text, r.is_ok()));
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------- C33

const SOURCES: [(ModelDataSource, &str); 3] = [
    (ModelDataSource::NODDAWS, "https://noaa-gfs-bdp-pds.s3.amazonaws.com"),
    (ModelDataSource::NOMADS, "https://nomads.ncep.noaa.gov/pub/data/nccf/com/gfs/prod"),
    (ModelDataSource::NODDGCP, "https://storage.googleapis.com/global-forecast-system"),
];

/// Spacing of the output before and after the change, and the hour of the change, of a kind of output.
fn output(kind: usize, change: usize) -> (ModelTimeOutputResolution, usize, usize, usize) {
    match kind {
        0 => (ModelTimeOutputResolution::Hourly, 1, 1, 0),
        1 => (ModelTimeOutputResolution::ThreeHourly, 3, 3, 0),
        2 => (ModelTimeOutputResolution::HybridHourlyThreeHourly(change), 1, 3, change),
        _ => (ModelTimeOutputResolution::HybridThreeHourlySixHourly(change), 3, 6, change),
    }
}
/// All output hours up to a limit.
fn output_hours(before: usize, after: usize, change: usize, limit: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut h = 0;
    while h <= limit {
        v.push(h);
        h += if h < change { before } else { after };
    }
    v
}

pub fn c33() -> Prop {
    Prop {
        id: "C33",
        level: "model_checking",
        rule: "every step, every hour and every pair of hours of every kind of output; the oracle lists the output hours one by one",
        assumptions: vec![
            "the resolution changes at an output hour",
            "an hour between two steps belongs to the earlier one",
            "the ensemble model is addressed at the two sources that carry it (AWS and NOMADS), the nearshore model at NOMADS",
        ],
        families: vec![
            family("axis", "4 kinds, changes at 0..=384 in steps of 3: every step and hour up to 800", |c| {
                let kind = c.choose(4);
                let change = if kind < 2 { 0 } else { 3 * c.range(0, 128) as usize };
                let (r, before, after, change) = output(kind, change);
                let hours = output_hours(before, after, change, 800);
                for (i, h) in hours.iter().enumerate() {
                    let got = c.run("hour of a step", || r.hour_for_index(i))?;
                    ensure!(got == *h, "{r:?}: step {i} is hour {got}, expected {h}");
                    let got = c.run("step of an hour", || r.index_for_hour(*h))?;
                    ensure!(got == i, "{r:?}: hour {h} is step {got}, expected {i}");
                    if let Some(next) = hours.get(i + 1) {
                        for k in *h..*next {
                            let got = c.run("step of an hour", || r.index_for_hour(k))?;
                            ensure!(got == i, "{r:?}: hour {k} is step {got}, expected {i}");
                        }
                    }
                    c.state((kind, change, i));
                }
                c.compared(2 * hours.len() as u64);
                round(c, &r)?;
                Ok(())
            }),
            family("ranges", "4 kinds, 5 changes, every pair of hours up to 130 (thorough 400) either side of the change, ranges of 250, 384 and 700 hours and backwards ones too", |c| {
                let kind = c.choose(4);
                let change = if kind < 2 { 0 } else { c.pick(&[0usize, 6, 60, 120, 240]) };
                let (r, before, after, change) = output(kind, change);
                let lo = change.saturating_sub(c.t(65, 240));
                let start = lo + c.choose(c.t(131, 401));
                let hours = output_hours(before, after, change, 1500);
                let step = |h: usize| hours.iter().rposition(|x| *x <= h).unwrap();
                for end in (start..=start + c.t(70, 200)).chain([start + 250, start + 384, start + 700]) {
                    let want = &hours[step(start)..=step(end)];
                    let got = c.run("hours", || r.hours_for_hour_range(start, end))?;
                    ensure!(got == want, "{r:?}: hours of {start}..={end}: {got:?}, expected {want:?}");
                    // once per step or once per hour: the steps are the same
                    let mut got = c.run("steps", || r.indexes_for_hour_range(start, end))?;
                    got.dedup();
                    ensure!(got == (step(start)..=step(end)).collect::<Vec<_>>(), "{r:?}: steps of {start}..={end}: {got:?}");
                    let got = c.run("hours of steps", || r.hours_for_index_range(step(start), step(end)))?;
                    ensure!(got == want, "{r:?}: hours of steps {}..={}: {got:?}, expected {want:?}", step(start), step(end));
                    c.state((kind, change, start, end));
                }
                // a range that ends before it begins holds nothing
                for end in start.saturating_sub(10)..start {
                    if step(end) < step(start) {
                        let got = c.run("hours", || r.hours_for_hour_range(start, end))?;
                        ensure!(got.is_empty(), "{r:?}: hours of {start}..={end}: {got:?}");
                        let got = c.run("hours of steps", || r.hours_for_index_range(step(start), step(end)))?;
                        ensure!(got.is_empty(), "{r:?}: hours of steps {}..={}: {got:?}", step(start), step(end));
                    }
                }
                Ok(())
            }),
            family("models", "8 models: spacing as documented, every step of a run", |c| {
                let k = c.choose(8);
                let (m, before, after, change, last): (Box<dyn NOAAModel>, usize, usize, usize, usize) = match k {
                    0 => (Box::new(GFSWaveModel::atlantic()), 1, 3, 120, 384),
                    1 => (Box::new(GFSWaveModel::west_coast()), 1, 3, 120, 384),
                    2 => (Box::new(GFSWaveModel::east_pacific()), 1, 3, 120, 384),
                    3 => (Box::new(GFSWaveModel::global_16()), 1, 3, 120, 384),
                    4 => (Box::new(GFSWaveModel::global_25()), 1, 3, 120, 384),
                    5 => (Box::new(GEFSWaveModel::global_25_mean()), 3, 6, 240, 384),
                    6 => (Box::new(GEFSWaveModel::global_25_spread()), 3, 6, 240, 384),
                    _ => (Box::new(NWPSModel::boston()), 1, 1, 0, 144),
                };
                for (i, h) in output_hours(before, after, change, last).iter().enumerate() {
                    let got = c.run("hour", || m.hour_for_index(i))?;
                    ensure!(got == *h, "{}: step {i} is hour {got}, expected {h}", m.id());
                    let got = c.run("step", || m.index_for_hour(*h))?;
                    ensure!(got == i, "{}: hour {h} is step {got}, expected {i}", m.id());
                    c.state((k, i));
                }
                Ok(())
            }),
            family("addresses", "8 models x their sources x 12 boundary days (thorough: 2 years) x 24 hours x forecast hours 0..384 (quick: in steps of 3, 1..9 and some between)", |c| {
                let days: Vec<NaiveDate> = if c.thorough { NaiveDate::from_ymd_opt(2023, 1, 1).unwrap().iter_days().take(731).collect() } else { special_days() };
                let day = c.pick(&days);
                let hour = c.choose(24) as u32;
                let minute = c.pick(&[0, 59]);
                let t = Utc.from_utc_datetime(&day.and_hms_opt(hour, minute, 7).unwrap());
                // the run: a multiple of six hours at least five hours old
                let run = ((t.timestamp() - 5 * 3600).div_euclid(6 * 3600)) * 6 * 3600;
                let run = DateTime::from_timestamp(run, 0).unwrap();
                let (date, cycle) = (format!("{:04}{:02}{:02}", run.year(), run.month(), run.day()), format!("{:02}", run.hour()));
                let gfs = [GFSWaveModel::atlantic(), GFSWaveModel::west_coast(), GFSWaveModel::east_pacific(), GFSWaveModel::global_16(), GFSWaveModel::global_25()];
                let names = ["atlocn.0p16", "wcoast.0p16", "epacif.0p16", "global.0p16", "global.0p25"];
                let gefs = [GEFSWaveModel::global_25_mean(), GEFSWaveModel::global_25_spread()];
                let nwps = NWPSModel::boston();
                // hours a model has no output for are named as asked for, too
                let mut steps: Vec<usize> = (0..=384).collect();
                if !c.thorough {
                    steps.retain(|h| h % 3 == 0 || *h < 10 || h % 24 == hour as usize);
                }
                let many = 39 * steps.len() as u64;
                for h in steps {
                    let f = format!("{}{}{}", h / 100, h / 10 % 10, h % 10);
                    for (source, root) in SOURCES {
                        for (m, n) in gfs.iter().zip(names) {
                            let want = format!("{root}/gfs.{date}/{cycle}/wave/gridded/gfswave.t{cycle}z.{n}.f{f}.grib2");
                            let got = m.create_url(&source, h, Some(t));
                            ensure!(got == want, "{got} instead of {want}");
                            let got = m.create_idx_url(&source, h, Some(t));
                            ensure!(got == format!("{want}.idx"), "{got} instead of {want}.idx");
                        }
                    }
                    for (source, root) in [(ModelDataSource::NODDAWS, "https://noaa-gefs-pds.s3.amazonaws.com"), (ModelDataSource::NOMADS, "https://nomads.ncep.noaa.gov/pub/data/nccf/com/gefs/prod")] {
                        for (m, n) in gefs.iter().zip(["mean.global.0p25", "spread.global.0p25"]) {
                            let want = format!("{root}/gefs.{date}/{cycle}/wave/gridded/gefs.wave.t{cycle}z.{n}.f{f}.grib2");
                            let got = m.create_url(&source, h, Some(t));
                            ensure!(got == want, "{got} instead of {want}");
                            let got = m.create_idx_url(&source, h, Some(t));
                            ensure!(got == format!("{want}.idx"), "{got} instead of {want}.idx");
                        }
                    }
                    let want = format!("https://nomads.ncep.noaa.gov/pub/data/nccf/com/nwps/prod/er.{date}/box/{cycle}/CG1/box_nwps_CG1_{date}_{cycle}00.grib2");
                    let got = nwps.create_url(&ModelDataSource::NOMADS, h, Some(t));
                    ensure!(got == want, "{got} instead of {want}");
                    c.steps(39);
                }
                c.compared(many);
                c.state((day, hour, minute));
                Ok(())
            }),
            family("sources", "names of sources in either case, with and without a prefix or an ending; JSON", |c| {
                let (name, want) = c.pick(&[
                    ("aws", Some(ModelDataSource::NODDAWS)),
                    ("amazon", Some(ModelDataSource::NODDAWS)),
                    ("gcp", Some(ModelDataSource::NODDGCP)),
                    ("gcs", Some(ModelDataSource::NODDGCP)),
                    ("google", Some(ModelDataSource::NODDGCP)),
                    ("nomads", Some(ModelDataSource::NOMADS)),
                    ("noaa", Some(ModelDataSource::NOMADS)),
                    ("", None),
                    ("azure", None),
                    ("s3", None),
                ]);
                let prefix = c.pick(&["", "nodd", "x-", " "]);
                let suffix = c.pick(&["", "-nodd", ".com", " bucket"]);
                let text = format!("{prefix}{name}{suffix}");
                let text = if c.flag() { text.to_uppercase() } else { text };
                let got = c.run("source", || ModelDataSource::try_from(text.as_str()))?;
                ensure!(got.clone().ok() == want, "{text} is {got:?}");
                if let Ok(s) = got {
                    round(c, &s)?;
                }
                c.state(text);
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------- C34

pub fn message(date: DateTime<Utc>, abbrev: &str, surface: (FixedSurfaceType, Option<f64>), value: f64) -> Message {
    let latitudes: Vec<f64> = (0..9).map(|i| 42.0 - 0.25 * i as f64).collect();
    let longitudes: Vec<f64> = (0..9).map(|i| 288.0 + 0.25 * i as f64).collect();
    // 1 at the four corners of the cell in the middle changes by +-1/4, so that their mean is the value
    let mut values = vec![f64::NAN; 81];
    for (i, d) in [(40, -0.25), (41, 0.25), (49, 0.25), (50, -0.25)] {
        // directions also lie on both sides of north
        values[i] = if abbrev.contains("DIR") { (value + 24.0 * d).rem_euclid(360.0) } else { value + d };
    }
    Message { date: Some(date), abbrev: Some(abbrev.into()), surface: Some(surface), unit: Some("m".into()), latitudes, longitudes, values }
}

/// A longitude counted from 0 to 360 or from -180 to 180.
fn notation(longitude: f64, west: bool) -> f64 {
    let l = longitude.rem_euclid(360.0);
    if west && l > 180.0 {
        l - 360.0
    } else {
        l
    }
}

/// A grid of n x m cells a quarter of a degree apart, numbered by row; and its western edge.
fn cells_of(c: &mut Ctx, n: usize, m: usize, down: bool, missing: usize) -> (f64, Message) {
    let (grid, signed) = c.pick(&[(288.0, false), (288.0, true), (359.25, false), (359.25, true), (179.25, false), (179.25, true), (359.75, false), (359.75, true), (180.0, true)]);
    let south = c.pick(&[41.0, -42.0, -0.5]);
    let latitudes: Vec<f64> = (0..n).map(|i| if down { south + 0.25 * (n - 1 - i) as f64 } else { south + 0.25 * i as f64 }).collect();
    let longitudes: Vec<f64> = (0..m).map(|j| notation(grid + 0.25 * j as f64, signed)).collect();
    let values: Vec<f64> = (0..n * m).map(|i| if missing > 0 && i % missing == 0 { f64::NAN } else { i as f64 }).collect();
    (grid, Message { date: None, abbrev: None, surface: None, unit: None, latitudes, longitudes, values })
}

pub fn c34() -> Prop {
    Prop {
        id: "C34",
        level: "model_checking",
        rule: "every set and order of messages of a set, every place and tolerance of a lattice; the oracle looks at every cell",
        assumptions: vec![
            "messages are made by a stand-in for the GRIB library: a regular grid with one list of latitudes and one of longitudes",
        ],
        families: vec![
            family("cells", "grids of 1..6 x 1..6 cells ascending and descending, either side of the prime meridian, the antimeridian and the equator, missing cells, places on an eighth of a degree, 4 tolerances", |c| {
                let (n, m) = (c.range(1, 6) as usize, c.range(1, 6) as usize);
                let down = c.flag();
                let missing = c.pick(&[0usize, 2, 3]);
                let tolerance = c.pick(&[0.0, 0.167, 0.25, 0.6]);
                let (grid, msg) = cells_of(c, n, m, down, missing);
                let west = c.flag();
                let (s, e) = (msg.latitudes[0].min(msg.latitudes[n - 1]), msg.latitudes[0].max(msg.latitudes[n - 1]));
                let model = GFSWaveModel::atlantic();
                for a in -2i64..=14 {
                    for b in -2i64..=14 {
                        let (lat, east) = (s + 0.125 * a as f64, 0.125 * b as f64);
                        let inside = lat >= s && lat <= e && b >= 0 && east <= 0.25 * (m - 1) as f64;
                        let place = Location::new(lat, notation(grid + east, west), "x".into());
                        let got = c.run("cells", || model.query_location_tolerance(&place, &tolerance, &msg))?;
                        ensure!(got.is_ok() == inside, "{place:?}: {got:?}, inside the grid: {inside}");
                        if let Ok(got) = got {
                            let want: Vec<f64> = (0..n * m).filter(|i| !msg.values[*i].is_nan() && (msg.latitudes[i / m] - lat).abs() <= tolerance + 1e-9 && (0.25 * (i % m) as f64 - east).abs() <= tolerance + 1e-9).map(|i| msg.values[i]).collect();
                            ensure!(got == want, "{n}x{m} cells around {place:?} within {tolerance}: {got:?}, expected {want:?} of {:?}", msg.longitudes);
                        }
                    }
                }
                c.compared(17 * 17);
                c.state((n, m, down, missing, tolerance.to_bits(), west, grid.to_bits(), msg.longitudes[m - 1].to_bits()));
                Ok(())
            }),
            family("nearest", "the same grids, places on quarters of a cell and just beside the cells and their middles: the value of the nearest cell, and between the cells around", |c| {
                let (n, m) = (c.range(1, 6) as usize, c.range(1, 6) as usize);
                let down = c.flag();
                let (grid, mut msg) = cells_of(c, n, m, down, 0);
                // a plane, and a product of both coordinates: what lies between four cells is then known
                let bent = c.pick(&[0.0, 0.5]);
                let at = |y: f64, x: f64| 3.0 * y - 2.0 * x + bent * x * y;
                msg.values = (0..n * m).map(|i| at((i / m) as f64, (i % m) as f64)).collect();
                let west = c.flag();
                let model = GFSWaveModel::atlantic();
                // on the cells, between them, and just beside the middle and the cells themselves
                const PART: [f64; 8] = [0.0, 1e-6, 0.25, 0.49999, 0.5, 0.50001, 0.75, 0.999999];
                let along = |k: usize| -> Vec<f64> { (-1..=k as i64).flat_map(|i| PART.iter().map(move |p| i as f64 + p)).collect() };
                for y in along(n) {
                    for &x in &along(m) {
                        let inside = y >= 0.0 && x >= 0.0 && y <= (n - 1) as f64 && x <= (m - 1) as f64;
                        let lat = msg.latitudes[0] + if down { -0.25 } else { 0.25 } * y;
                        let place = Location::new(lat, notation(grid + 0.25 * x, west), "x".into());
                        let got = c.run("nearest cell", || model.query_location_data(&place, &msg))?;
                        ensure!(got.is_ok() == inside, "{place:?}: {got:?}, inside the grid: {inside}");
                        if let Ok(got) = got {
                            // halfway between two cells either will do
                            let near = |v: f64| if (v - v.floor() - 0.5).abs() < 1e-9 { vec![v.floor(), v.ceil()] } else { vec![v.round()] };
                            let want: Vec<f64> = near(y).iter().flat_map(|y| near(x).iter().map(|x| at(*y, *x)).collect::<Vec<_>>()).collect();
                            ensure!(want.contains(&got), "{n}x{m} cells, {y} cells along and {x} across: {got}, expected one of {want:?}");
                        }
                        let got = c.run("between cells", || model.interp_location_data(&place, &msg))?;
                        ensure!(got.is_ok() == inside, "{place:?}: {got:?}, inside the grid: {inside}");
                        if let Ok(got) = got {
                            ensure!(close(got, at(y, x), 1e-9, 1e-9), "{n}x{m} cells, {y} cells along and {x} across: {got}, expected {}", at(y, x));
                        }
                    }
                }
                c.compared(2 * 64 * (n + 2) as u64 * (m + 2) as u64);
                c.state((n, m, down, bent.to_bits(), west, grid.to_bits(), msg.longitudes[m - 1].to_bits()));
                Ok(())
            }),
            family("variables", "every subset of the wave variables and of 3 swells and the wind sea, missing values, forwards and backwards, of a time past or to come", |c| {
                let date = Utc.with_ymd_and_hms(2023, 1, 21, 3, 0, 0).unwrap();
                let date = if c.flag() { Utc.with_ymd_and_hms(2123, 12, 31, 21, 0, 0).unwrap() } else { date };
                let ground = (FixedSurfaceType::GroundOrWater, Some(1.0));
                let mut list = vec![];
                let have: Vec<bool> = (0..5).map(|_| c.flag()).collect();
                for ((name, v), h) in [("HTSGW", 2.5), ("PERPW", 9.25), ("DIRPW", 187.25), ("WIND", 6.75), ("WDIR", 41.25)].iter().zip(&have) {
                    if *h {
                        list.push(message(date, name, ground.clone(), *v));
                    }
                }
                // swells: absent, complete, without a direction, or missing at the place: all of it, the period, the direction
                let mut want: Vec<(f64, f64, i32)> = vec![];
                let heights = c.pick(&[[1.5, 0.75, 2.25, 1.0], [0.5, 2.0, 0.5, 2.0], [3.0, 2.0, 1.0, 0.5]]);
                for i in 0..4usize {
                    let how = c.choose(6);
                    let (h, p, d) = (heights[i], 8.0 + i as f64, 90.25 + 30.0 * i as f64);
                    let (names, surface) = if i < 3 { (["SWELL", "SWPER", "SWDIR"], (FixedSurfaceType::OrderedSequence, Some(i as f64 + 1.0))) } else { (["WVHGT", "WVPER", "WVDIR"], ground.clone()) };
                    for (k, v) in [h, p, d].iter().enumerate() {
                        if how == 0 || how == 2 && k == 2 {
                            continue;
                        }
                        list.push(message(date, names[k], surface.clone(), if how == 3 || how == 4 && k == 1 || how == 5 && k == 2 { f64::NAN } else { *v }));
                    }
                    if how == 1 {
                        want.push((h, p, d as i32));
                    }
                }
                if c.flag() {
                    list.reverse();
                }
                let model = GFSWaveModel::atlantic();
                let place = Location::new(40.875, -70.875, "x".into());
                let got = c.run("reading", || GFSWaveGribPointDataRecord::from_messages(&model, &list, &place, 0.167))?;
                let complete = have[0] && have[1] && have[2];
                ensure!(got.is_ok() == complete, "{got:?} of {have:?}");
                if let Ok(r) = got {
                    ensure!(r.date == date, "date {}", r.date);
                    let s = &r.wave_summary;
                    ensure!(s.wave_height.value == Some(2.5) && s.period.value == Some(9.25) && s.direction.value.as_ref().map(|d| d.degrees) == Some(187), "summary {s:?}");
                    ensure!(r.wind_speed.value == have[3].then_some(6.75) && r.wind_direction.value.as_ref().map(|d| d.degrees) == have[4].then_some(41), "wind {:?} {:?}", r.wind_speed, r.wind_direction);
                    let mut all: Vec<(f64, f64, i32)> = r.swell_components.iter().map(|s| (s.wave_height.value.unwrap_or(-1.0), s.period.value.unwrap_or(-1.0), s.direction.value.as_ref().map_or(-1, |d| d.degrees))).collect();
                    ensure!(all.windows(2).all(|w| w[0].0 >= w[1].0), "swells not from highest to lowest: {all:?}");
                    all.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    want.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    ensure!(all == want, "swells {all:?}, expected {want:?}");
                    for s in r.swell_components.iter().chain([&r.wave_summary]) {
                        // 1/8 rho g H^2 times the length of a deep-water wave over the period squared, per unit of crest: grows with (H T)^2
                        let (h, p) = (s.wave_height.value.unwrap(), s.period.value.unwrap());
                        let e = s.energy.as_ref().and_then(|e| e.value).ok_or("no energy".to_string())?;
                        let unit = surfrs::tools::waves::wave_energy(1.0, 1.0);
                        ensure!(close(e, unit * h * h * p * p, 0.0, 1e-6), "energy {e} of {h} m at {p} s");
                    }
                    round(c, &r)?;
                }
                c.state((have, format!("{want:?}")));
                Ok(())
            }),
            family("partitions", "every subset of the four swell partitions (levels 0 to 3) and the wind sea, of equal or different heights, periods and directions, in three orders", |c| {
                let date = Utc.with_ymd_and_hms(2023, 1, 21, 3, 0, 0).unwrap();
                let ground = (FixedSurfaceType::GroundOrWater, Some(1.0));
                let mut list: Vec<Message> = [("HTSGW", 2.5), ("PERPW", 9.25), ("DIRPW", 187.25)].iter().map(|(n, v)| message(date, n, ground.clone(), *v)).collect();
                let equal = [c.flag(), c.flag(), c.flag()];
                let mut want: Vec<(f64, f64, i32)> = vec![];
                for i in 0..5usize {
                    if c.flag() {
                        continue;
                    }
                    let (h, p, d) = (if equal[0] { 1.5 } else { 0.5 + 0.25 * ((i * 3) % 5) as f64 }, if equal[1] { 9.5 } else { 6.5 + i as f64 }, if equal[2] { 200.25 } else { 40.25 + 50.0 * i as f64 });
                    let (names, surface) = if i < 4 { (["SWELL", "SWPER", "SWDIR"], (FixedSurfaceType::OrderedSequence, Some(i as f64))) } else { (["WVHGT", "WVPER", "WVDIR"], ground.clone()) };
                    for (k, v) in [h, p, d].iter().enumerate() {
                        list.push(message(date, names[k], surface.clone(), *v));
                    }
                    want.push((h, p, d as i32));
                }
                match c.choose(3) {
                    0 => {}
                    1 => list.reverse(),
                    _ => {
                        let half = list.len() / 2;
                        list.rotate_left(half)
                    }
                }
                let model = GFSWaveModel::atlantic();
                let place = Location::new(40.875, -70.875, "x".into());
                let r = c.run("reading", || GFSWaveGribPointDataRecord::from_messages(&model, &list, &place, 0.167))?.map_err(|e| format!("refused: {e:?}"))?;
                let mut all: Vec<(f64, f64, i32)> = r.swell_components.iter().map(|s| (s.wave_height.value.unwrap_or(-1.0), s.period.value.unwrap_or(-1.0), s.direction.value.as_ref().map_or(-1, |d| d.degrees))).collect();
                ensure!(all.windows(2).all(|w| w[0].0 >= w[1].0), "swells not from highest to lowest: {all:?}");
                all.sort_by(|a, b| a.partial_cmp(b).unwrap());
                want.sort_by(|a, b| a.partial_cmp(b).unwrap());
                ensure!(all == want, "swells {all:?}, expected {want:?}");
                c.state(format!("{want:?} {equal:?}"));
                Ok(())
            }),
            family("missing", "each wave and wind variable absent, present or missing at the place; 73 directions around the circle; unit systems", |c| {
                let date = Utc.with_ymd_and_hms(2023, 1, 21, 3, 0, 0).unwrap();
                let ground = (FixedSurfaceType::GroundOrWater, Some(1.0));
                let how: Vec<usize> = (0..5).map(|_| c.choose(3)).collect();
                let bearing = 5.0 * c.choose(73) as f64 + 0.25;
                let other = (bearing + 90.0).rem_euclid(360.0);
                let mut list = vec![];
                for ((name, v), h) in [("HTSGW", 2.5), ("PERPW", 9.25), ("DIRPW", bearing), ("WIND", 6.75), ("WDIR", other)].iter().zip(&how) {
                    if *h > 0 {
                        list.push(message(date, name, ground.clone(), if *h == 2 { f64::NAN } else { *v }));
                    }
                }
                for (name, v) in [("SWELL", 1.5), ("SWPER", 11.5), ("SWDIR", other)] {
                    list.push(message(date, name, (FixedSurfaceType::OrderedSequence, Some(1.0)), v));
                }
                let model = GFSWaveModel::atlantic();
                let place = Location::new(40.875, -70.875, "x".into());
                let got = c.run("reading", || GFSWaveGribPointDataRecord::from_messages(&model, &list, &place, 0.167))?;
                let complete = how[..3].iter().all(|h| *h > 0);
                ensure!(complete || got.is_err(), "{got:?} of {how:?}");
                // waves missing at the place may be refused or missing in the record
                ensure!(got.is_ok() || how[..3].iter().any(|h| *h != 1), "{got:?} of {how:?}");
                if let Ok(mut r) = got {
                    let there = |i: usize, v: f64| (how[i] == 1).then_some(v);
                    let degrees = |d: &surfrs::dimensional_data::DimensionalData<surfrs::units::Direction>| d.value.as_ref().map(|d| d.degrees);
                    let round_down = |v: Option<f64>| v.map(|v| v.rem_euclid(360.0) as i32);
                    let s = &r.wave_summary;
                    ensure!(s.wave_height.value == there(0, 2.5) && s.period.value == there(1, 9.25) && degrees(&s.direction) == round_down(there(2, bearing)), "{how:?}, from {bearing}: summary {s:?}");
                    ensure!(r.wind_speed.value == there(3, 6.75) && degrees(&r.wind_direction) == round_down(there(4, other)), "{how:?}, from {other}: wind {:?} {:?}", r.wind_speed, r.wind_direction);
                    ensure!(r.swell_components.len() == 1 && degrees(&r.swell_components[0].direction) == round_down(Some(other)), "from {other}: {:?}", r.swell_components);
                    round(c, &r)?;
                    let system = c.pick(&[UnitSystem::Metric, UnitSystem::English, UnitSystem::Knots, UnitSystem::Kelvin]);
                    let plain = r.clone();
                    c.run("units", || {
                        r.to_units(&system);
                    })?;
                    let mut want = plain.clone();
                    want.wind_speed.to_units(&system);
                    for x in [&mut want.wave_summary].into_iter().chain(want.swell_components.iter_mut()) {
                        x.wave_height.to_units(&system);
                        x.period.to_units(&system);
                        x.direction.to_units(&system);
                        if let Some(e) = &mut x.energy {
                            e.to_units(&system);
                        }
                    }
                    ensure!(alike(&format!("{r:?}"), &format!("{want:?}")), "{system:?}: {r:?}, expected {want:?}");
                }
                c.state((how, bearing.to_bits()));
                Ok(())
            }),
            family("directions", "one to four cells around the place that point evenly to both sides of each of 72 bearings, up to 80 degrees apart from it, in every order: their middle", |c| {
                let date = Utc.with_ymd_and_hms(2023, 1, 21, 3, 0, 0).unwrap();
                let ground = (FixedSurfaceType::GroundOrWater, Some(1.0));
                let bearing = 5.0 * c.choose(72) as f64 + 0.5;
                let spread = c.pick(&[4.0, 44.0, 61.0, 80.0]);
                let turns: Vec<f64> = c.pick(&[vec![0.0], vec![-1.0, 1.0], vec![-1.0, 0.0, 1.0], vec![-1.0, -0.5, 0.5, 1.0], vec![-1.0, -1.0, 1.0, 1.0]]);
                // which cells hold which: every order
                let mut free = vec![40usize, 41, 49, 50];
                let cells: Vec<(usize, f64)> = turns.iter().map(|t| (free.remove(c.choose(free.len())), (bearing + t * spread).rem_euclid(360.0))).collect();
                let mut list = vec![];
                for (name, v) in [("HTSGW", 2.5), ("PERPW", 9.25), ("DIRPW", 0.0), ("WIND", 6.75), ("WDIR", 0.0), ("SWELL", 1.5), ("SWPER", 11.5), ("SWDIR", 0.0), ("WVHGT", 1.0), ("WVPER", 4.5), ("WVDIR", 0.0)] {
                    let surface = if name.starts_with("SW") { (FixedSurfaceType::OrderedSequence, Some(1.0)) } else { ground.clone() };
                    let mut m = message(date, name, surface, v);
                    if name.contains("DIR") {
                        m.values = vec![f64::NAN; 81];
                        for (i, d) in &cells {
                            m.values[*i] = *d;
                        }
                    }
                    list.push(m);
                }
                let place = Location::new(40.875, -70.875, "x".into());
                let r = c.run("reading", || GFSWaveGribPointDataRecord::from_messages(&GFSWaveModel::atlantic(), &list, &place, 0.167))?.map_err(|e| format!("{e:?}"))?;
                let mut all = vec![&r.wave_summary.direction, &r.wind_direction];
                all.extend(r.swell_components.iter().map(|s| &s.direction));
                ensure!(all.len() == 4, "{} swells", r.swell_components.len());
                for d in all {
                    let d = d.value.as_ref().map(|d| d.degrees);
                    ensure!(d == Some(bearing as i32), "from {:?}: {d:?}, expected {bearing}", cells.iter().map(|c| c.1).collect::<Vec<_>>());
                }
                c.state((bearing.to_bits(), spread.to_bits(), turns.len()));
                Ok(())
            }),
            family("calm", "waves, wind and swells of no height, period, speed or from due north: numbers like any other", |c| {
                let date = Utc.with_ymd_and_hms(2023, 1, 21, 3, 0, 0).unwrap();
                let ground = (FixedSurfaceType::GroundOrWater, Some(1.0));
                let v: Vec<f64> = vec![c.pick(&[0.0, 0.5, 18.0]), c.pick(&[0.0, 3.0, 25.0]), c.pick(&[0.25, 180.25]), c.pick(&[0.0, 0.25, 45.0]), c.pick(&[0.25, 359.25])];
                let swell = [c.pick(&[0.0, 0.25, 9.0]), c.pick(&[0.0, 4.0, 30.0]), c.pick(&[0.25, 270.25])];
                let number = c.range(1, 3);
                let one = c.flag();
                // one cell around the place, or four cells that agree
                let flat = |name: &str, surface: (FixedSurfaceType, Option<f64>), v: f64| {
                    let mut m = message(date, name, surface, v);
                    for (k, i) in [40, 41, 49, 50].iter().enumerate() {
                        m.values[*i] = if one && k > 0 { f64::NAN } else { v };
                    }
                    m
                };
                let mut list = vec![];
                for (name, v) in ["HTSGW", "PERPW", "DIRPW", "WIND", "WDIR"].iter().zip(&v) {
                    list.push(flat(name, ground.clone(), *v));
                }
                for (name, v) in ["SWELL", "SWPER", "SWDIR"].iter().zip(&swell) {
                    list.push(flat(name, (FixedSurfaceType::OrderedSequence, Some(number as f64)), *v));
                }
                let place = Location::new(40.875, -70.875, "x".into());
                let r = c.run("reading", || GFSWaveGribPointDataRecord::from_messages(&GFSWaveModel::atlantic(), &list, &place, 0.167))?.map_err(|e| format!("{e:?}"))?;
                let degrees = |d: &surfrs::dimensional_data::DimensionalData<surfrs::units::Direction>| d.value.as_ref().map(|d| d.degrees);
                let s = &r.wave_summary;
                ensure!(s.wave_height.value == Some(v[0]) && s.period.value == Some(v[1]) && degrees(&s.direction) == Some(v[2] as i32), "{v:?}: summary {s:?}");
                ensure!(r.wind_speed.value == Some(v[3]) && degrees(&r.wind_direction) == Some(v[4] as i32), "{v:?}: wind {:?} {:?}", r.wind_speed, r.wind_direction);
                ensure!(r.swell_components.len() == 1, "swell {swell:?}: {:?}", r.swell_components);
                let s = &r.swell_components[0];
                ensure!(s.wave_height.value == Some(swell[0]) && s.period.value == Some(swell[1]) && degrees(&s.direction) == Some(swell[2] as i32), "swell {swell:?}: {s:?}");
                round(c, &r)?;
                c.state((bits(&v), bits(&swell), number, one));
                Ok(())
            }),
            family("contours", "every 3 x 4 field of {0,1,2} of 6 units and two of them across zero, in 5 unit systems or as it is, some cells missing: as the contours of the converted numbers, labelled in their unit", |c| {
                let latitudes: Vec<f64> = vec![42.0, 41.0, 40.0];
                let longitudes: Vec<f64> = vec![288.0, 289.0, 290.0, 291.0];
                // the unit, what a step of the field is worth, and the numbers y = a + b x in each system with their label
                type Line = (f64, f64, &'static str);
                let same = |l: &'static str| -> Line { (0.0, 1.0, l) };
                let (name, origin, step, lines): (&str, f64, f64, [Line; 5]) = c.pick(&[
                    ("m", 0.0, 1.0, [same("m"), same("m"), (0.0, 3.28084, "ft"), same("m"), same("m")]),
                    ("m", -1.0, 1.0, [same("m"), same("m"), (0.0, 3.28084, "ft"), same("m"), same("m")]),
                    ("K", 269.15, 4.0, [same("K"), (-273.15, 1.0, "°C"), (-459.67, 1.8, "°F"), same("K"), same("K")]),
                    ("m/s", 0.0, 5.0, [same("m/s"), same("m/s"), (0.0, 2.2369362921, "mph"), same("m/s"), (0.0, 1.9438444924, "kt")]),
                    ("K", 270.0, 12.0, [same("K"), (-273.15, 1.0, "°C"), (-459.67, 1.8, "°F"), same("K"), same("K")]),
                    ("hPa", 980.0, 20.0, [same("hPa"), same("hPa"), (0.0, 0.0295299830714, "inHg"), same("hPa"), same("hPa")]),
                    ("s", 5.0, 5.0, [same("s"); 5]),
                    ("deg", 90.0, 30.0, [same("°"); 5]),
                ]);
                let system = c.choose(5);
                let units = [None, Some(UnitSystem::Metric), Some(UnitSystem::English), Some(UnitSystem::Kelvin), Some(UnitSystem::Knots)][system].clone();
                let (a, b, label) = lines[system];
                let hole = c.pick(&[99usize, 0, 6]);
                let values: Vec<f64> = (0..12)
                    .map(|i| if i == hole { f64::NAN } else { origin + step * if [0, 3, 5, 8, 10].contains(&i) || c.thorough && i % 2 == 0 { c.pick(&[0.0, 1.0, 2.0]) } else { 1.0 } })
                    .collect();
                let msg = Message { date: None, abbrev: None, surface: None, unit: Some(name.into()), latitudes, longitudes, values: values.clone() };
                // no level is a value of the field: which side of it a rounding falls on is not claimed
                let (low, high) = (a + b * (origin + 0.4 * step), a + b * (origin + 1.7 * step));
                let count = if origin == -1.0 || origin == 269.15 { 3 } else { 4 };
                let model = GFSWaveModel::atlantic();
                let got = c.run("contours", || model.contour_data(&msg, Some(low), Some(high), Some(count), units.clone()))?.map_err(|e| format!("{e}"))?;
                let scaled: Vec<f64> = values.iter().map(|v| a + b * v).collect();
                let want = surfrs::tools::contour::compute_latlng_gridded_contours(scaled, 4, 3, 288.0, 291.0, 42.0, 40.0, Some(low), Some(high), Some(count), None::<fn(&usize, &f64) -> String>).map_err(|_| "no contours".to_string())?;
                ensure!(got.len() == want.len() && got.len() == count, "{} contours instead of {}", got.len(), want.len());
                for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                    // the factors of the library may differ from those here in the seventh digit
                    let numbers = |f: &geojson::Feature| -> Vec<f64> {
                        let text = f.geometry.as_ref().map(|g| g.value.to_string()).unwrap_or_default();
                        text.split(|c: char| !(c.is_ascii_digit() || c == '.' || c == '-' || c == 'e')).filter_map(|t| t.parse().ok()).collect()
                    };
                    let (p, q) = (numbers(g), numbers(w));
                    ensure!(p.len() == q.len() && p.iter().zip(&q).all(|(p, q)| (p - q).abs() < 1e-3), "{name} in {units:?}, {values:?}: contour {i} is {:?} instead of {:?}", g.geometry, w.geometry);
                    let t = low + (high - low) * i as f64 / (count - 1) as f64;
                    let said = g.property("label").and_then(|l| l.as_str()).unwrap_or("none").to_string();
                    let number: String = said.chars().take_while(|c| c.is_ascii_digit() || *c == '-').collect();
                    ensure!(said.is_empty() || Unit::from(&said[number.len()..]) == Unit::from(label) && number.parse::<f64>().is_ok_and(|v| (v - t).abs() <= 0.51), "{name} in {units:?}: contour {i} at {t} is labelled {said}");
                }
                ensure!(got.iter().any(|g| g.property("label").and_then(|l| l.as_str()).is_some_and(|l| !l.is_empty())), "no contour is labelled");
                c.state((name, system, bits(&values)));
                Ok(())
            }),
        ],
    }
}
