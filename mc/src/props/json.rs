//! C29 JSON round trips, C31 tide and weather feeds and request addresses.
use super::basics::{special_days, CONV};
use super::feeds::{same_time, WINDS};
use crate::explore::*;
use crate::util::*;
use chrono::{DateTime, Datelike, Duration, TimeZone, Utc};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::fmt::Debug;
use surfrs::data::directional_spectral_wave_data_record::*;
use surfrs::data::forecast_cbulletin_wave_data_record::*;
use surfrs::data::forecast_spectral_wave_data_record::*;
use surfrs::data::grib_index_record::*;
use surfrs::data::nws_weather_forecast_data_record::*;
use surfrs::data::parseable_data_record::*;
use surfrs::data::spectral_wave_data_record::*;
use surfrs::data::tidal_data_record::*;
use surfrs::data::wave_data_record::*;
use surfrs::dimensional_data::DimensionalData;
use surfrs::location::Location;
use surfrs::solar::SolarEvents;
use surfrs::spectra::{SpectralAxis, Spectra};
use surfrs::station::Station;
use surfrs::swell::*;
use surfrs::tide_station::*;
use surfrs::tools::contour::ContourError;
use surfrs::units::direction::DirectionConvention;
use surfrs::units::*;
use surfrs::weather::*;

/// Writes, reads, compares, writes again.
fn round<T: Serialize + DeserializeOwned + Debug>(c: &mut Ctx, v: &T) -> Result<Value, Fail> {
    let text = c.run("writing", || serde_json::to_string(v))?.map_err(|e| format!("{v:?} is not written: {e}"))?;
    let back: T = c.run("reading", || serde_json::from_str(&text))?.map_err(|e| format!("{v:?} is written as {text} and not read back: {e}"))?;
    ensure!(alike(&format!("{v:?}"), &format!("{back:?}")), "{v:?} is written as {text} and read back as {back:?}");
    let again = c.run("writing", || serde_json::to_string(&back))?.map_err(|e| format!("{e}"))?;
    ensure!(alike(&text, &again), "{text} is written the second time as {again}");
    // through the generic form, which orders the keys by name, and indented
    let value: Value = serde_json::from_str(&text).unwrap();
    let third: T = c.run("reading", || serde_json::from_value(value.clone()))?.map_err(|e| format!("{text} is not read from a JSON value: {e}"))?;
    ensure!(alike(&format!("{v:?}"), &format!("{third:?}")), "{v:?} is read back from a JSON value as {third:?}");
    let pretty = c.run("writing", || serde_json::to_string_pretty(v))?.map_err(|e| format!("{e}"))?;
    let fourth: T = c.run("reading", || serde_json::from_str(&pretty))?.map_err(|e| format!("{pretty} is not read back: {e}"))?;
    ensure!(alike(&format!("{v:?}"), &format!("{fourth:?}")), "{v:?} is read back from indented JSON as {fourth:?}");
    c.state(&text);
    c.compared(4);
    c.sample(|| text.clone());
    Ok(value)
}

const TEXTS: [&str; 8] = ["", "wave height", "a \"quoted\" one", "back\\slash", "line\nend\ttab", "größe °C ☂", "{\"value\":1}", " leading and trailing "];
const NUMBERS: [f64; 14] = [0.0, -0.0, 1.0, -1.0, 0.1, 2.5, 1234.5, -71.3267, 1e-7, 1e21, -2.5e-12, 999.9, 360.0, 123456789012.0];
const UNITS: [Unit; 20] = [
    Unit::Millimeters,
    Unit::Meters,
    Unit::MetersPerSecond,
    Unit::Celsius,
    Unit::Pascal,
    Unit::HectaPascal,
    Unit::Inches,
    Unit::Feet,
    Unit::MilesPerHour,
    Unit::Fahrenheit,
    Unit::InchesMercury,
    Unit::Knots,
    Unit::Kelvin,
    Unit::MetersSquaredPerHertz,
    Unit::NauticalMiles,
    Unit::Degrees,
    Unit::Seconds,
    Unit::Percent,
    Unit::KiloJoules,
    Unit::Unknown,
];
/// The printed label of each unit, in the order of UNITS.
const LABELS: [&str; 20] =
    ["mm", "m", "m/s", "°C", "pa", "hpa", "in", "ft", "mph", "°F", "in Hg", "kt", "K", "m²/Hz", "nmi", "°", "s", "%", "kJ", ""];

fn measured(c: &mut Ctx, unit: Unit) -> DimensionalData<f64> {
    let v = c.pick(&[None, Some(1.25)]);
    dd(v, unit)
}
fn heading(c: &mut Ctx) -> DimensionalData<Direction> {
    let v = c.pick(&[None, Some(202)]);
    dir(v)
}
fn moments() -> Vec<DateTime<Utc>> {
    vec![
        Utc.with_ymd_and_hms(2023, 1, 1, 0, 0, 0).unwrap(),
        Utc.with_ymd_and_hms(2024, 2, 29, 23, 59, 59).unwrap(),
        Utc.with_ymd_and_hms(1969, 12, 31, 12, 30, 0).unwrap(),
        Utc.with_ymd_and_hms(2022, 10, 9, 8, 7, 6).unwrap() + Duration::nanoseconds(5_000_001),
    ]
}
fn swell(c: &mut Ctx) -> Swell {
    let spectral_density = c.pick(&[None, Some(None), Some(Some(2.5))]);
    let energy = c.pick(&[None, Some(None), Some(Some(12.5))]);
    Swell {
        wave_height: measured(c, Unit::Meters),
        period: measured(c, Unit::Seconds),
        direction: heading(c),
        energy: energy.map(|v| dd(v, Unit::KiloJoules)),
        spectral_density: spectral_density.map(|v| dd(v, Unit::MetersSquaredPerHertz)),
        partition: c.pick(&[None, Some(0), Some(7)]),
    }
}
fn some_swell(i: usize) -> Swell {
    let mut s = Swell::new(&UnitSystem::English, 1.5 + i as f64, 8.25, Direction::from_degrees(10 * i as i32), None, Some(3.5), None);
    s.partition = (i % 2 == 1).then_some(i);
    s
}
fn spectrum(w: usize, h: usize, conv: &DirectionConvention) -> Spectra {
    Spectra::new(
        (0..w).map(|i| (i + 1) as f64 * 0.025).collect(),
        (0..h).map(|i| i as f64 * 0.125).collect(),
        (0..w * h).map(|i| (i % 7) as f64 * 0.5).collect(),
        conv.clone(),
    )
}

pub fn c29() -> Prop {
    Prop {
        id: "C29",
        level: "model_checking",
        rule: "every kind of value that can be written, with every combination of missing and present fields; written, read, compared field by field (as text, as JSON value and indented) and written again",
        assumptions: vec![
            "finite numbers of up to 15 significant digits (the JSON library rounds longer ones to the neighbouring number; a NaN has no JSON form)",
            "equality is that of the printed structure, which shows every field",
        ],
        families: vec![
            family("plain", "every direction convention, unit, unit system, compass point, steepness, axis, datum, interval, tidal event, error", |c| {
                match c.choose(12) {
                    0 => { let v = c.pick(&CONV); round(c, &v)? }
                    1 => {
                        let i = c.choose(20);
                        round(c, &UNITS[i])?
                    }
                    2 => {
                        let u = c.pick(&[UnitSystem::Metric, UnitSystem::English, UnitSystem::Knots, UnitSystem::Kelvin]);
                        round(c, &u)?
                    }
                    3 => {
                        let d = c.range(0, 361) as i32;
                        round(c, &CardinalDirection::from_degrees(&d))?
                    }
                    4 => {
                        let s = c.pick(&[Steepness::VerySteep, Steepness::Steep, Steepness::Average, Steepness::Swell, Steepness::NA]);
                        round(c, &s)?
                    }
                    5 => {
                        let a = c.pick(&[SpectralAxis::Frequency, SpectralAxis::Direction]);
                        round(c, &a)?
                    }
                    6 => {
                        let a = c.pick(&[TideDatum::MHHW, TideDatum::MHW, TideDatum::MTL, TideDatum::MSL, TideDatum::MLW, TideDatum::MLLW]);
                        round(c, &a)?
                    }
                    7 => {
                        let a = c.pick(&[DataInterval::Default, DataInterval::Hourly, DataInterval::HiLo]);
                        round(c, &a)?
                    }
                    8 => {
                        let a = c.pick(&[TidalEvent::High, TidalEvent::Low]);
                        round(c, &a)?
                    }
                    9 => {
                        let t = c.pick(&TEXTS).to_string();
                        let e = c.pick(&[
                            DataRecordParsingError::EOF,
                            DataRecordParsingError::NotImplemented,
                            DataRecordParsingError::InvalidData,
                            DataRecordParsingError::ParseFailure(t.clone()),
                            DataRecordParsingError::KeyMissing(t),
                        ]);
                        round(c, &e)?
                    }
                    10 => {
                        let t = c.pick(&TEXTS).to_string();
                        let e = c.pick(&[SwellProviderError::NotImplemented, SwellProviderError::InsufficientData(t.clone()), SwellProviderError::SwellPartitionError(t)]);
                        round(c, &e)?
                    }
                    _ => round(c, &ContourError::ContourFailure)?,
                };
                Ok(())
            }),
            family("measurements", "20 units x 8 names x 14 numbers, missing, whole numbers and every direction 0..360", |c| {
                let i = c.choose(20);
                let variable_name = c.pick(&TEXTS).to_string();
                let unit = UNITS[i].clone();
                let (v, value) = match c.choose(4) {
                    0 => {
                        let value = c.pick(&[&[None], &NUMBERS.map(Some)[..]].concat());
                        (round(c, &DimensionalData { value, variable_name: variable_name.clone(), unit })?, json!(value))
                    }
                    1 => {
                        let value = c.pick(&[None, Some(0i64), Some(-7), Some(1 << 53)]);
                        (round(c, &DimensionalData { value, variable_name: variable_name.clone(), unit })?, json!(value))
                    }
                    2 => {
                        let value = c.pick(&[None, Some(0f32), Some(2.5)]);
                        (round(c, &DimensionalData { value, variable_name: variable_name.clone(), unit })?, json!(value))
                    }
                    _ => {
                        let d = c.range(-1, 360);
                        let value = (d >= 0).then(|| Direction::from_degrees(d as i32));
                        let value = if c.flag() { value } else { value.map(|v| v.invert()) };
                        let shown = value.as_ref().map(|v| v.degrees);
                        let v = round(c, &DimensionalData { value, variable_name: variable_name.clone(), unit })?;
                        ensure!(v["value"]["degrees"].as_i64() == shown.map(|d| d as i64), "bearing {shown:?} is written as {v}");
                        let value = v["value"].clone();
                        (v, value)
                    }
                };
                ensure!(v["unit_label"].as_str() == Some(LABELS[i]), "a measurement in {:?} is written with the label {}", UNITS[i], v["unit_label"]);
                ensure!(v["value"] == value && v["variable_name"] == variable_name, "{value} of {variable_name:?} is written as {v}");
                Ok(())
            }),
            family("directions", "every bearing, every compass point, turned round once and twice", |c| {
                let d = c.range(0, 360) as i32;
                let mut v = match c.choose(3) {
                    0 => Direction::from_degrees(d),
                    1 => Direction::from_cardinal_direction(CardinalDirection::from_degrees(&d)),
                    _ => Direction::from_radians((d as f64).to_radians()),
                };
                for _ in 0..c.choose(3) {
                    v.flip();
                }
                round(c, &v)?;
                Ok(())
            }),
            family("swells", "every combination of missing and present fields", |c| {
                let s = swell(c);
                round(c, &s)?;
                Ok(())
            }),
            family("summaries", "0..40 swells", |c| {
                let n = c.range(0, 40) as usize;
                let s = SwellSummary { summary: some_swell(c.choose(3)), components: (0..n).map(some_swell).collect() };
                round(c, &s)?;
                Ok(())
            }),
            family("wave_records", "every combination of missing and present columns x 5 steepnesses x 4 moments", |c| {
                let r = WaveDataRecord {
                    date: c.pick(&moments()),
                    wave_height: measured(c, Unit::Meters),
                    swell_wave_height: measured(c, Unit::Meters),
                    swell_wave_period: measured(c, Unit::Seconds),
                    wind_wave_height: measured(c, Unit::Feet),
                    wind_wave_period: measured(c, Unit::Seconds),
                    swell_wave_direction: heading(c),
                    wind_wave_direction: heading(c),
                    steepness: c.pick(&[Steepness::VerySteep, Steepness::Steep, Steepness::Average, Steepness::Swell, Steepness::NA]),
                    average_wave_period: measured(c, Unit::Seconds),
                    mean_wave_direction: heading(c),
                };
                round(c, &r)?;
                Ok(())
            }),
            family("spectra", "0..33 frequencies x 0..33 directions x 3 conventions; also inside directional records", |c| {
                let (w, h) = (c.range(0, 33) as usize, c.range(0, 33) as usize);
                let conv = c.pick(&CONV);
                let spectra = spectrum(w, h, &conv);
                round(c, &spectra)?;
                let date = moments()[(w + h) % 4];
                round(c, &DirectionalSpectralWaveDataRecord { date, spectra })?;
                Ok(())
            }),
            family("numbers", "1..3 numbers of 14 as frequency, energy and direction of a spectrum and a place", |c| {
                let n = c.range(1, 3) as usize;
                let v: Vec<f64> = (0..n).map(|_| c.pick(&NUMBERS)).collect();
                round(c, &Spectra::new(v.clone(), vec![v[0]], v.clone(), DirectionConvention::Met))?;
                round(c, &Location { name: "x".into(), latitude: v[0], longitude: v[n - 1], elevation: v[n / 2] })?;
                round(c, &SpectralWaveDataRecord { date: moments()[0], separation_frequency: Some(v[0]), value: v.clone(), frequency: v })?;
                Ok(())
            }),
            family("spectral_records", "0..40 values with and without separation frequency x 4 moments", |c| {
                let n = c.range(0, 40) as usize;
                let r = SpectralWaveDataRecord {
                    date: c.pick(&moments()),
                    separation_frequency: c.pick(&[None, Some(9.999), Some(0.0)]),
                    value: (0..n).map(|i| i as f64 * 0.25).collect(),
                    frequency: (0..n).map(|i| 0.025 + i as f64 * 0.0125).collect(),
                };
                round(c, &r)?;
                Ok(())
            }),
            family("bulletin_records", "0..7 swells, height present or missing, 4 moments, names and places", |c| {
                let n = c.range(0, 7) as usize;
                let r = ForecastCBulletinWaveRecord {
                    date: c.pick(&moments()),
                    significant_wave_height: measured(c, Unit::Feet),
                    swell_components: (0..n).map(some_swell).collect(),
                };
                round(c, &r)?;
                let name = c.pick(&TEXTS).to_string();
                let m = ForecastCBulletinWaveRecordMetadata { location: Location::new(-40.5, 179.75, name), model_run_date: r.date };
                round(c, &m)?;
                Ok(())
            }),
            family("forecast_records", "every combination of missing and present fields, 4 moments, 3 conventions", |c| {
                let conv = c.pick(&CONV);
                let r = ForecastSpectralWaveDataRecord {
                    date: c.pick(&moments()),
                    reference_date: c.pick(&moments()),
                    location: Location::new(41.35, -71.4, "44097".into()),
                    depth: measured(c, Unit::Meters),
                    wind_speed: measured(c, Unit::MetersPerSecond),
                    wind_direction: heading(c),
                    current_speed: measured(c, Unit::MetersPerSecond),
                    current_direction: heading(c),
                    spectra: spectrum(3, 4, &conv),
                };
                round(c, &r)?;
                let m = ForecastSpectralWaveDataRecordMetadata {
                    frequency: r.spectra.frequency.clone(),
                    direction: vec![Direction::from_degrees(7), Direction::from_degrees(359)],
                    point_count: 1,
                    line_count: 12,
                };
                round(c, &m)?;
                Ok(())
            }),
            family("inventory_records", "names, numbers and moments", |c| {
                let r = GribIndexRecord {
                    index: c.pick(&[0usize, 1, 1173]),
                    offset: c.pick(&[0usize, 123_456_789_012]),
                    reference_date: c.pick(&moments()),
                    var: c.pick(&TEXTS).into(),
                    level: c.pick(&TEXTS).into(),
                    valid: c.pick(&["anl", "6 hour fcst", ""]).into(),
                };
                round(c, &r)?;
                Ok(())
            }),
            family("tidal_records", "14 numbers x 3 events x moments, alone and in collections of 0..20", |c| {
                let event = c.pick(&[None, Some(TidalEvent::High), Some(TidalEvent::Low)]);
                let value = c.pick(&NUMBERS);
                let date = c.pick(&moments());
                let r = TidalDataRecord { date, value, event };
                let v = round(c, &r)?;
                ensure!(v["type"].as_str() == r.event.as_ref().map(|e| if *e == TidalEvent::High { "H" } else { "L" }), "{r:?} is written as {v}");
                let n = c.pick(&[0usize, 1, 2, 20]);
                round(c, &TidalDataRecordCollection { records: vec![r; n] })?;
                Ok(())
            }),
            family("stations", "0..4 tide stations, every text as id, name and state", |c| {
                let n = c.range(0, 4) as usize;
                let t = c.choose(8);
                let place = Location::new(c.pick(&NUMBERS), c.pick(&[41.505, -90.0]), TEXTS[(t + 1) % 8].into());
                let mut s = TideStation::new(TEXTS[t], &place, TEXTS[(t + 2) % 8]);
                round(c, &s)?;
                s.reference_id = "8452660".into();
                round(c, &s)?;
                round(c, &TideStations::from_stations(vec![s; n]))?;
                round(c, &place)?;
                Ok(())
            }),
            family("sun", "pairs of moments", |c| {
                let s = SolarEvents { sunrise: c.pick(&moments()), sunset: c.pick(&moments()) };
                round(c, &s)?;
                Ok(())
            }),
            family("grid_cells", "grid cells as read from a feed", |c| {
                let text = json!({"properties": {"gridId": c.pick(&TEXTS), "gridX": c.pick(&[0usize, 64]), "gridY": c.pick(&[0usize, 7])}}).to_string();
                let g = c.run("from_json", || NwsGridPointData::from_json(&text))?.map_err(|e| format!("{text}: {e}"))?;
                round(c, &g)?;
                Ok(())
            }),
            family("weather_records", "forecasts of 0..3 periods as read, every measurement present, null or without unit", |c| {
                let n = c.range(0, 3) as usize;
                let p = Period::pick(c);
                let text = forecast(&vec![p; n]);
                let g = c.run("from_json", || NwsWeatherForecastDataRecordCollection::from_json(&text))?.map_err(|e| format!("{text}: {e}"))?;
                round(c, &g)?;
                for r in c.run("records", || g.records())? {
                    round(c, &r)?;
                }
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------- C31

#[derive(Clone, Debug)]
struct Period {
    start: &'static str,
    start_is: (i32, u32, u32, u32, u32),
    end: &'static str,
    end_is: (i32, u32, u32, u32, u32),
    day: bool,
    temperature: f64,
    temperature_unit: (&'static str, Unit),
    dewpoint: Option<f64>,
    dewpoint_unit: (&'static str, Unit),
    humidity: Option<f64>,
    wind: (&'static str, Option<f64>, Unit),
    heading: &'static str,
    trend: usize,
    text: &'static str,
}
type Moment = (&'static str, (i32, u32, u32, u32, u32));
const STARTS: [Moment; 6] = [
    ("2023-04-13T18:00:00-04:00", (2023, 4, 13, 22, 0)),
    ("2023-12-31T18:30:00-10:00", (2024, 1, 1, 4, 30)),
    ("2024-02-29T00:00:00+05:30", (2024, 2, 28, 18, 30)),
    ("2023-03-01T00:00:00+00:00", (2023, 3, 1, 0, 0)),
    ("2023-07-01T06:00:00Z", (2023, 7, 1, 6, 0)),
    ("2024-03-01T00:15:00+01:00", (2024, 2, 29, 23, 15)),
];
const WIND_TEXTS: [(&str, Option<f64>, Unit); 12] = [
    ("10 mph", Some(10.0), Unit::MilesPerHour),
    ("5 to 10 mph", Some(5.0), Unit::MilesPerHour),
    ("0 mph", Some(0.0), Unit::MilesPerHour),
    ("12 kt", Some(12.0), Unit::Knots),
    ("10 to 25 kt", Some(10.0), Unit::Knots),
    ("3.5 m/s", Some(3.5), Unit::MetersPerSecond),
    ("7", Some(7.0), Unit::Unknown),
    ("calm", None, Unit::Unknown),
    ("", None, Unit::Unknown),
    ("15 furlongs", Some(15.0), Unit::Unknown),
    ("100 mph", Some(100.0), Unit::MilesPerHour),
    ("2 knots", Some(2.0), Unit::Knots),
];
const WEATHER_TEXTS: [&str; 4] = ["Partly Sunny", "", "a \"quoted\" one", "Chance Rain, 50 mph \u{2602}"];

impl Period {
    fn plain() -> Period {
        Period {
            start: STARTS[0].0,
            start_is: STARTS[0].1,
            end: STARTS[1].0,
            end_is: STARTS[1].1,
            day: true,
            temperature: 55.0,
            temperature_unit: ("F", Unit::Fahrenheit),
            dewpoint: Some(7.5),
            dewpoint_unit: ("wmoUnit:degC", Unit::Celsius),
            humidity: Some(81.0),
            wind: WIND_TEXTS[0].clone(),
            heading: "SW",
            trend: 0,
            text: "Sunny",
        }
    }
    fn pick(c: &mut Ctx) -> Period {
        Period {
            day: c.flag(),
            temperature: c.pick(&[55.0, -4.0]),
            temperature_unit: c.pick(&[("F", Unit::Fahrenheit), ("C", Unit::Unknown)]),
            dewpoint: c.pick(&[None, Some(7.5)]),
            humidity: c.pick(&[None, Some(81.0)]),
            wind: c.pick(&[WIND_TEXTS[0].clone(), WIND_TEXTS[1].clone(), WIND_TEXTS[7].clone()]),
            heading: c.pick(&["SW", ""]),
            trend: c.choose(3),
            text: c.pick(&WEATHER_TEXTS),
            ..Period::plain()
        }
    }
    fn json(&self, number: usize) -> Value {
        let mut v = json!({
            "number": number,
            "name": format!("Period {number}"),
            "startTime": self.start,
            "endTime": self.end,
            "isDaytime": self.day,
            "temperature": self.temperature,
            "temperatureUnit": self.temperature_unit.0,
            "temperatureTrend": null,
            "probabilityOfPrecipitation": {"unitCode": "wmoUnit:percent", "value": if number % 2 == 0 { json!(null) } else { json!(30) }},
            "dewpoint": {"unitCode": self.dewpoint_unit.0, "value": self.dewpoint},
            "relativeHumidity": {"unitCode": "wmoUnit:percent", "value": self.humidity},
            "windSpeed": self.wind.0,
            "windDirection": self.heading,
            "icon": format!("https://api.weather.gov/icons/{}?size=medium", self.text),
            "shortForecast": self.text,
            "detailedForecast": format!("{}. Detailed.", self.text),
        });
        match self.trend {
            0 => {}
            1 => v["temperatureTrend"] = json!("falling"),
            _ => {
                v.as_object_mut().unwrap().remove("temperatureTrend");
            }
        }
        v
    }
    fn check(&self, r: &NwsWeatherForecastDataRecord) -> Verdict {
        let at = |t: &DateTime<Utc>, w: (i32, u32, u32, u32, u32)| same_time(t, w.0, w.1, w.2, w.3, w.4);
        ensure!(at(&r.start_time, self.start_is), "start {} is read as {}", self.start, r.start_time);
        ensure!(at(&r.end_time, self.end_is), "end {} is read as {}", self.end, r.end_time);
        ensure!(r.is_daytime == self.day, "day flag {} is read as {}", self.day, r.is_daytime);
        let num = |what: &str, d: &DimensionalData<f64>, v: Option<f64>, u: &Unit| -> Verdict {
            ensure!(d.value == v && d.unit == *u, "{what} {v:?} {u:?} is read as {:?} {:?}", d.value, d.unit);
            Ok(())
        };
        num("temperature", &r.temperature, Some(self.temperature), &self.temperature_unit.1)?;
        num("dew point", &r.dewpoint, self.dewpoint, &self.dewpoint_unit.1)?;
        num("humidity", &r.humidity, self.humidity, &Unit::Percent)?;
        num(&format!("wind {:?}:", self.wind.0), &r.wind_speed, self.wind.1, &self.wind.2)?;
        ensure!(r.wind_direction.unit == Unit::Degrees, "wind direction in {:?}", r.wind_direction.unit);
        match (WINDS.iter().position(|w| *w == self.heading), &r.wind_direction.value) {
            (None, None) => {}
            (Some(k), Some(d)) => {
                ensure!(
                    circ(d.degrees as f64, 22.5 * k as f64) <= 11.25 && d.cardinal_direction().to_string().eq_ignore_ascii_case(self.heading),
                    "wind from {} is read as {d}",
                    self.heading
                )
            }
            (_, d) => return fail(format!("wind from {:?} is read as {d:?}", self.heading)),
        }
        ensure!(r.icon == format!("https://api.weather.gov/icons/{}?size=medium", self.text), "icon {:?}", r.icon);
        ensure!(r.short_forecast == self.text && r.detailed_forecast == format!("{}. Detailed.", self.text), "texts {:?} and {:?} for {:?}", r.short_forecast, r.detailed_forecast, self.text);
        Ok(())
    }
}
fn forecast(periods: &[Period]) -> String {
    json!({
        "@context": ["https://geojson.org/geojson-ld/geojson-context.jsonld", {"@version": "1.1"}],
        "type": "Feature",
        "geometry": {"type": "Polygon", "coordinates": [[[-71.5, 41.3]]]},
        "properties": {
            "units": "us",
            "forecastGenerator": "BaselineForecastGenerator",
            "generatedAt": "2023-04-13T20:04:58+00:00",
            "updateTime": "2023-04-13T18:39:16+00:00",
            "validTimes": "2023-04-13T12:00:00+00:00/P7DT13H",
            "elevation": {"unitCode": "wmoUnit:m", "value": 3.048},
            "periods": periods.iter().enumerate().map(|(i, p)| p.json(i + 1)).collect::<Vec<_>>(),
        }
    })
    .to_string()
}
fn check_forecast(c: &mut Ctx, periods: &[Period]) -> Verdict {
    let text = forecast(periods);
    let all = c.run("from_json", || NwsWeatherForecastDataRecordCollection::from_json(&text))?.map_err(|e| format!("{text} is refused: {e}"))?;
    let rs = c.run("records", || all.records())?;
    ensure!(rs.len() == periods.len(), "{} of {} periods", rs.len(), periods.len());
    for (i, (p, r)) in periods.iter().zip(&rs).enumerate() {
        p.check(r).map_err(|f| format!("period {i}: {}", f.msg))?;
    }
    c.compared(rs.len() as u64);
    c.state(&text);
    c.sample(|| text.clone());
    Ok(())
}

/// Scheme, host and path, and the decoded query in any order.
fn taken_apart(url: &str) -> (String, Vec<(String, String)>) {
    let decode = |s: &str| {
        let b = s.as_bytes();
        let (mut out, mut i) = (vec![], 0);
        while i < b.len() {
            match (b[i], s.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok())) {
                (b'%', Some(x)) => {
                    out.push(x);
                    i += 3;
                }
                (b'+', _) => {
                    out.push(b' ');
                    i += 1;
                }
                (x, _) => {
                    out.push(x);
                    i += 1;
                }
            }
        }
        String::from_utf8_lossy(&out).into_owned()
    };
    let (path, query) = url.split_once('?').unwrap_or((url, ""));
    let q = query.split('&').filter(|p| !p.is_empty()).map(|p| p.split_once('=').unwrap_or((p, ""))).map(|(k, v)| (decode(k), decode(v))).collect();
    (path.to_string(), q)
}

fn check_tide_url(c: &mut Ctx, id: &str, from: DateTime<Utc>, to: DateTime<Utc>, datum: (&TideDatum, &str), interval: (&DataInterval, &str), units: (&UnitSystem, &str)) -> Verdict {
    let s = TideStation::new(id, &Location::new(41.5, -71.3, "NEWPORT".into()), "RI");
    let url = c.run("tidal_data_url", || s.tidal_data_url(&from, &to, datum.0, interval.0, units.0))?;
    let (path, q) = taken_apart(&url);
    ensure!(path == "https://api.tidesandcurrents.noaa.gov/api/prod/datagetter", "address {path}");
    let stamp = |t: DateTime<Utc>| {
        use chrono::Timelike;
        format!("{:04}{:02}{:02} {:02}:{:02}", t.year(), t.month(), t.day(), t.hour(), t.minute())
    };
    let want = [
        ("begin_date", stamp(from)),
        ("end_date", stamp(to)),
        ("station", id.to_string()),
        ("product", "predictions".into()),
        ("datum", datum.1.into()),
        ("interval", interval.1.into()),
        ("units", units.1.into()),
        ("time_zone", "gmt".into()),
        ("format", "json".into()),
    ];
    for (k, v) in want {
        let got: Vec<&String> = q.iter().filter(|p| p.0 == k).map(|p| &p.1).collect();
        ensure!(got == [&v], "{k} should be {v:?}, and is {got:?} in {url}");
    }
    c.state(&url);
    c.sample(|| url.clone());
    c.compared(10);
    Ok(())
}
const DATUMS: [(TideDatum, &str); 6] = [
    (TideDatum::MHHW, "MHHW"),
    (TideDatum::MHW, "MHW"),
    (TideDatum::MTL, "MTL"),
    (TideDatum::MSL, "MSL"),
    (TideDatum::MLW, "MLW"),
    (TideDatum::MLLW, "MLLW"),
];
const INTERVALS: [(DataInterval, &str); 3] = [(DataInterval::Default, ""), (DataInterval::Hourly, "h"), (DataInterval::HiLo, "hilo")];
const SYSTEMS: [(UnitSystem, &str); 2] = [(UnitSystem::Metric, "metric"), (UnitSystem::English, "english")];

fn tide_text(rows: &[(String, Value, Option<&str>)]) -> String {
    let rows: Vec<Value> = rows
        .iter()
        .map(|(t, v, e)| match e {
            Some(e) => json!({"t": t, "v": v, "type": e}),
            None => json!({"t": t, "v": v}),
        })
        .collect();
    json!({ "predictions": rows }).to_string()
}

pub fn c31() -> Prop {
    Prop {
        id: "C31",
        level: "model_checking",
        rule: "every combination of the contents of a feed entry, every list of stations, every request, printed in the documented form, read by the real reader (addresses: taken apart again) and compared item by item",
        assumptions: vec!["the first number of a wind text is the wind and its last word the unit, as the forecasts print it", "units of a tide request are metric or english"],
        families: vec![
            family("tide_minutes", "every minute of 16 boundary days, as text and number, with every kind", |c| {
                let day = c.pick(&special_days());
                let hour = c.choose(24) as u32;
                let as_text = c.flag();
                let kinds = [None, Some("H"), Some("L")];
                let rows: Vec<(String, Value, Option<&str>)> = (0..60u32)
                    .map(|mi| {
                        let v = format!("{:.3}", mi as f64 * 0.031 - 0.4);
                        let v = if as_text { json!(v) } else { serde_json::from_str(&v).unwrap() };
                        (format!("{:04}-{:02}-{:02} {hour:02}:{mi:02}", day.year(), day.month(), day.day()), v, kinds[mi as usize % 3])
                    })
                    .collect();
                let text = tide_text(&rows);
                let all = c.run("from_json", || TidalDataRecordCollection::from_json(&text))?.map_err(|e| format!("{text} is refused: {e}"))?;
                ensure!(all.records.len() == 60, "{} of 60 records", all.records.len());
                for (mi, r) in all.records.iter().enumerate() {
                    let v: f64 = format!("{:.3}", mi as f64 * 0.031 - 0.4).parse().unwrap();
                    let k = [None, Some(TidalEvent::High), Some(TidalEvent::Low)][mi % 3].clone();
                    ensure!(same_time(&r.date, day.year(), day.month(), day.day(), hour, mi as u32), "{} is read as {}", rows[mi].0, r.date);
                    ensure!(r.value == v, "value {} is read as {}", rows[mi].1, r.value);
                    ensure!(r.event == k, "kind {:?} is read as {:?}", rows[mi].2, r.event);
                    c.state((mi, day, hour, as_text));
                }
                c.compared(60);
                c.sample(|| text.clone());
                Ok(())
            }),
            family("tide_lists", "every list of up to 4 (thorough 5) entries of {text, number} x {none, H, L} x 3 values, in any order of time", |c| {
                let n = c.choose(c.t(4, 5)) + 1;
                let mut want = vec![];
                for i in 0..n {
                    let v = c.pick(&["0.873", "-1.2", "0"]);
                    let k = c.pick(&[None, Some("H"), Some("L")]);
                    let as_text = if i < 3 { c.flag() } else { false };
                    // neither ascending nor descending
                    want.push((format!("2023-01-{:02} {:02}:36", (i * 7) % 5 + 1, (i * 11) % 24), v, k, as_text));
                }
                let rows: Vec<_> = want.iter().map(|(t, v, k, s)| (t.clone(), if *s { json!(v) } else { serde_json::from_str(v).unwrap() }, *k)).collect();
                let text = tide_text(&rows);
                let all = c.run("from_json", || TidalDataRecordCollection::from_json(&text))?.map_err(|e| format!("{text} is refused: {e}"))?;
                ensure!(all.records.len() == n, "{} of {n} records", all.records.len());
                for (r, (t, v, k, _)) in all.records.iter().zip(&want) {
                    let shown = r.date.format("%Y-%m-%d %H:%M").to_string();
                    let e = r.event.as_ref().map(|e| if *e == TidalEvent::High { "H" } else { "L" });
                    ensure!(shown == *t && r.value == v.parse::<f64>().unwrap() && e == *k, "{t} {v} {k:?} is read as {r:?}");
                }
                c.state(&text);
                c.compared(n as u64);
                Ok(())
            }),
            family("tide_values", "every value -9.999..9.999 in thousandths, as text, as text without the leading zero, and as number", |c| {
                let hundreds = c.range(-10, 9);
                let how = c.choose(3);
                let as_text = how > 0;
                let bare = |v: String| if how == 2 && v.contains("0.") && v.trim_start_matches('-').starts_with("0.") { v.replacen("0.", ".", 1) } else { v };
                let vals: Vec<String> = (0..1000).map(|i| bare(format!("{:.3}", (hundreds * 1000 + i) as f64 / 1000.0))).collect();
                let rows: Vec<_> = vals.iter().map(|v| ("2023-01-02 21:36".to_string(), if as_text { json!(v) } else { serde_json::from_str(v).unwrap() }, None)).collect();
                let text = tide_text(&rows);
                let all = c.run("from_json", || TidalDataRecordCollection::from_json(&text))?.map_err(|e| format!("refused: {e}"))?;
                ensure!(all.records.len() == 1000, "{} of 1000 records", all.records.len());
                for (r, v) in all.records.iter().zip(&vals) {
                    ensure!(r.value == v.parse::<f64>().unwrap(), "value {v} is read as {}", r.value);
                    c.state(r.value.to_bits());
                }
                c.compared(1000);
                Ok(())
            }),
            family("periods", "every combination of 2-12 contents per item of one period", |c| {
                let (start, start_is) = c.pick(&STARTS);
                let (end, end_is) = c.pick(&STARTS[..c.t(2, 6)]);
                let p = Period {
                    start,
                    start_is,
                    end,
                    end_is,
                    dewpoint_unit: c.pick(&[("wmoUnit:degC", Unit::Celsius), ("wmoUnit:unknown", Unit::Unknown)]),
                    ..Period::pick(c)
                };
                check_forecast(c, &[p])
            }),
            family("winds", "16 winds and none x 12 wind texts x day and night", |c| {
                let heading = c.pick(&[&WINDS[..], &[""]].concat());
                let p = Period { heading, wind: c.pick(&WIND_TEXTS), day: c.flag(), ..Period::plain() };
                check_forecast(c, &[p])
            }),
            family("wind_numbers", "0..150 of each unit, alone and as the range to the next ten", |c| {
                let n = c.range(0, 150);
                let (u, unit) = c.pick(&[("mph", Unit::MilesPerHour), ("kt", Unit::Knots), ("m/s", Unit::MetersPerSecond)]);
                let text = if c.flag() { format!("{n} to {} {u}", n + 10) } else { format!("{n} {u}") };
                let p = Period { wind: (Box::leak(text.into_boxed_str()), Some(n as f64), unit), ..Period::plain() };
                check_forecast(c, &[p])
            }),
            family("temperatures", "-60..130 degrees in each unit", |c| {
                let p = Period {
                    temperature: c.range(-60, 130) as f64,
                    temperature_unit: c.pick(&[("F", Unit::Fahrenheit), ("wmoUnit:degC", Unit::Celsius)]),
                    dewpoint: Some(c.range(-60, 60) as f64 * 0.75),
                    ..Period::plain()
                };
                check_forecast(c, &[p])
            }),
            family("numbers", "temperature, dew point and humidity each one of 23 numbers from -9999 to 9999, with fractions, zero and the numbers used elsewhere for missing", |c| {
                const NUMBERS: [f64; 23] = [-9999.0, -999.0, -99.0, -89.2, -62.222222222222221, -51.5, -40.0, -17.777777777777779, -1.0, -0.5, 0.0, 0.001, 0.5, 1.0, 32.0, 62.999, 99.0, 99.5, 100.0, 101.0, 134.1, 999.0, 9999.0];
                let p = Period { temperature: c.pick(&NUMBERS), dewpoint: Some(c.pick(&NUMBERS)), humidity: Some(c.pick(&NUMBERS)), ..Period::plain() };
                check_forecast(c, &[p])
            }),
            family("forecasts", "0..160 periods, each different", |c| {
                let n = c.range(0, 160) as usize;
                let ps: Vec<Period> = (0..n)
                    .map(|i| Period {
                        start: STARTS[i % 6].0,
                        start_is: STARTS[i % 6].1,
                        end: STARTS[(i / 6) % 6].0,
                        end_is: STARTS[(i / 6) % 6].1,
                        day: i % 2 == 0,
                        temperature: i as f64,
                        dewpoint: (i % 5 != 0).then_some(i as f64 * 0.25),
                        humidity: (i % 7 != 0).then_some((i % 100) as f64),
                        wind: WIND_TEXTS[i % 12].clone(),
                        heading: WINDS[i % 16],
                        trend: i % 3,
                        text: WEATHER_TEXTS[i % 4],
                        ..Period::plain()
                    })
                    .collect();
                check_forecast(c, &ps)
            }),
            family("station_lists", "every list of up to 4 (thorough 5) stations of 6 identifiers that differ by a digit, a blank or a letter's case; every identifier looked up", |c| {
                const IDS: [&str; 8] = ["8452660", "845266", "8452660 ", "TWC0405", "twc0405", "08452660", "", "8452661"];
                let n = c.choose(c.t(5, 6));
                let ids: Vec<&str> = (0..n).map(|_| c.pick(&IDS[..6])).collect();
                let given: Vec<Value> = ids
                    .iter()
                    .enumerate()
                    .map(|(i, id)| json!({"state": format!("S{i}"), "type": "R", "id": id, "name": format!("STATION {i}"), "lat": 41.5 + i as f64, "lng": -71.25 - i as f64, "reference_id": format!("R{i}"), "products": null}))
                    .collect();
                let text = json!({"count": n, "units": null, "stations": given}).to_string();
                let read = c.run("from_raw_data", || TideStations::from_raw_data(&text))?;
                let listed = c.run("from_stations", || TideStations::from_stations(read.stations.clone()))?;
                for all in [read, listed] {
                    ensure!(all.station_count == n && all.stations.len() == n, "{} stations counted and {} kept of {n}", all.station_count, all.stations.len());
                    for (i, s) in all.stations.iter().enumerate() {
                        check_station(s, ids[i], i)?;
                    }
                    for id in IDS {
                        let found = c.run("find_station_by_id", || all.find_station_by_id(id))?;
                        match found {
                            Some(s) => {
                                ensure!(s.station_id == id, "looking up {id:?} finds {:?}", s.station_id);
                                let i = (0..n).find(|i| s.name == format!("STATION {i}")).ok_or_else(|| format!("unknown station {s:?}"))?;
                                check_station(&s, id, i)?;
                            }
                            None => ensure!(!ids.contains(&id), "{id:?} is not found in {ids:?}"),
                        }
                    }
                }
                c.state(&text);
                c.sample(|| text.clone());
                Ok(())
            }),
            family("many_stations", "lists of 0..300 stations, each looked up", |c| {
                let n = c.range(0, 300) as usize;
                let stations: Vec<TideStation> = (0..n).map(|i| TideStation::new(&format!("{}", 8_400_000 + i * 7), &Location::new(i as f64 * 0.25, -(i as f64) * 0.5, format!("N{i}")), "RI")).collect();
                let all = c.run("from_stations", || TideStations::from_stations(stations))?;
                ensure!(all.station_count == n && all.stations.len() == n, "{} of {n}", all.stations.len());
                for i in 0..n * 7 {
                    let id = format!("{}", 8_400_000 + i);
                    let found = c.run("find_station_by_id", || all.find_station_by_id(&id))?;
                    match found {
                        Some(s) => ensure!(i % 7 == 0 && s.station_id == id && s.name == format!("N{}", i / 7), "{id} finds {s:?}"),
                        None => ensure!(i % 7 != 0, "{id} is not found"),
                    }
                }
                c.state(n);
                Ok(())
            }),
            family("station_features", "places in every notation: identity, place and point feature of a station", |c| {
                let (lat, lon) = (c.pick(&[0.0, 41.505, -33.9, 90.0]), c.pick(&[0.0, -71.3267, 151.25, 288.5, -180.0]));
                let (id, name, state) = (c.pick(&["8452660", "TWC0405", ""]), c.pick(&TEXTS), c.pick(&["RI", ""]));
                let s = c.run("new", || TideStation::new(id, &Location::new(lat, lon, name.into()), state))?;
                ensure!(s.station_id == id && s.name == name && s.state == state && s.latitude == lat && s.longitude == lon, "{s:?} for {id:?} {name:?} {state:?} {lat} {lon}");
                let (sid, sname, place, f) = c.run("station", || (s.id().to_string(), s.name(), s.location(), s.as_feature()))?;
                ensure!(sid == id && sname == name && place.latitude == lat && place.longitude == lon && place.name == name, "{sid:?} {sname:?} {place:?}");
                let v = serde_json::to_value(&f).unwrap();
                ensure!(v["geometry"] == json!({"type": "Point", "coordinates": [lon, lat]}), "feature at {} for {lat} {lon}", v["geometry"]);
                ensure!(v["properties"] == json!({"id": id, "name": name, "state": state}), "feature with {}", v["properties"]);
                c.state((id, name, state, lat.to_bits(), lon.to_bits()));
                Ok(())
            }),
            family("tide_requests", "5 stations x 6 datums x 3 intervals x 2 unit systems x 8 pairs of dates", |c| {
                let id = c.pick(&["8454658", "8452660", "TWC0405", "1", "TPT2707"]);
                let (d, i, u) = (c.choose(6), c.choose(3), c.choose(2));
                let days = special_days();
                let k = c.choose(8);
                let from = Utc.from_utc_datetime(&days[k].and_hms_opt(21, 6, 59).unwrap());
                let to = Utc.from_utc_datetime(&days[(k * 5 + 1) % 8].and_hms_opt(0, 59, 1).unwrap());
                check_tide_url(c, id, from, to, (&DATUMS[d].0, DATUMS[d].1), (&INTERVALS[i].0, INTERVALS[i].1), (&SYSTEMS[u].0, SYSTEMS[u].1))
            }),
            family("tide_request_minutes", "every minute of 16 boundary days as begin, and another as end", |c| {
                let day = c.pick(&special_days());
                let hour = c.choose(24) as u32;
                for mi in 0..60 {
                    let from = Utc.from_utc_datetime(&day.and_hms_opt(hour, mi, 30).unwrap());
                    let to = from + Duration::minutes(60 * 24 * 7 + 61 * mi as i64);
                    check_tide_url(c, "8454658", from, to, (&DATUMS[2].0, "MTL"), (&INTERVALS[0].0, ""), (&SYSTEMS[1].0, "english"))?;
                    check_tide_url(c, "8454658", from - Duration::minutes(60 * 24 * 3 + 7 * mi as i64), from, (&DATUMS[5].0, "MLLW"), (&INTERVALS[2].0, "hilo"), (&SYSTEMS[0].0, "metric"))?;
                }
                Ok(())
            }),
            family("station_list_request", "the address of the station list", |c| {
                let url = c.run("tide_prediction_stations_url", TideStations::tide_prediction_stations_url)?;
                let (path, q) = taken_apart(&url);
                ensure!(path == "https://api.tidesandcurrents.noaa.gov/mdapi/prod/webapi/stations.json" && q.contains(&("type".into(), "tidepredictions".into())), "{url}");
                c.state(url);
                Ok(())
            }),
            family("weather_requests", "offices x cells 0..300 in steps of 7, and places in quarter degrees", |c| {
                if c.flag() {
                    let office = c.pick(&["BOX", "OKX", "AKQ"]);
                    let x = c.choose(43) * 7;
                    for y in (0..=300usize).step_by(7) {
                        let base = format!("https://api.weather.gov/gridpoints/{office}/{x},{y}");
                        let (a, b, d) = c.run("urls", || (create_gridpoints_url(office, &x, &y), create_forecast_url(office, &x, &y), create_hourly_forecast_url(office, &x, &y)))?;
                        ensure!(a == base, "{a} instead of {base}");
                        ensure!(b == format!("{base}/forecast"), "{b} instead of {base}/forecast");
                        ensure!(d == format!("{base}/forecast/hourly"), "{d} instead of {base}/forecast/hourly");
                        c.state((office, x, y));
                    }
                } else {
                    let lat = c.range(-90, 90) as f64 + c.pick(&[0.0, 0.25, 0.3267]);
                    for lon in (-180..=180).step_by(9).map(|l| l as f64 + 0.4) {
                        let url = c.run("create_points_url", || create_points_url(&Location::new(lat, lon, "x".into())))?;
                        let at = url.strip_prefix("https://api.weather.gov/points/").and_then(|r| r.split_once(','));
                        let at = at.map(|(a, b)| (a.parse::<f64>(), b.parse::<f64>()));
                        ensure!(at == Some((Ok(lat), Ok(lon))), "{url} for {lat} {lon}");
                        c.state((lat.to_bits(), lon.to_bits()));
                    }
                }
                Ok(())
            }),
            family("grid_cells", "offices x cells of a grid point answer", |c| {
                let (id, x, y) = (c.pick(&["BOX", "OKX", ""]), c.choose(200), c.pick(&[0usize, 1, 7, 64, 1000]));
                let text = json!({"id": "x", "properties": {"@id": "x", "cwa": "XXX", "gridId": id, "gridX": x, "gridY": y, "county": null}}).to_string();
                let g = c.run("from_json", || NwsGridPointData::from_json(&text))?.map_err(|e| format!("{text}: {e}"))?;
                ensure!(g.properties.grid_id == id && g.properties.grid_x == x && g.properties.grid_y == y, "{text} is read as {g:?}");
                c.state(&text);
                Ok(())
            }),
        ],
    }
}
fn check_station(s: &TideStation, id: &str, i: usize) -> Verdict {
    ensure!(
        s.station_id == id && s.name == format!("STATION {i}") && s.latitude == 41.5 + i as f64 && s.longitude == -71.25 - i as f64 && s.state == format!("S{i}") && s.reference_id == format!("R{i}"),
        "station {i} with id {id:?} is {s:?}"
    );
    Ok(())
}
