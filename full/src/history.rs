//! C36: what is answered depends on the arguments alone, not on what was asked before.
use crate::explore::*;
use crate::feeds::{document, read, Feed, FEEDS};
use crate::props::{an_entry, archive, message, met_line, obs_line, station_list, Column, FIRST, OTHER, STDMET};
use crate::util::*;
use chrono::{DateTime, Duration, TimeZone, Utc};
use gribberish::message::Message;
use gribberish::templates::product::tables::FixedSurfaceType;
use std::fmt::Debug;
use std::sync::OnceLock;
use surfrs::buoy_station::*;
use surfrs::data::directional_spectral_wave_data_record::*;
use surfrs::data::forecast_cbulletin_wave_data_record::*;
use surfrs::data::forecast_spectral_wave_data_record::*;
use surfrs::data::gfs_wave_grib_point_data_record::*;
use surfrs::data::latest_obs_data_record::*;
use surfrs::data::meteorological_data_record::*;
use surfrs::data::swden_wave_data_record::*;
use surfrs::data::wave_data_record::*;
use surfrs::dimensional_data::DimensionalData;
use surfrs::location::*;
use surfrs::model::*;
use surfrs::solar::calculate_solar_events;
use surfrs::spectra::*;
use surfrs::station::Station;
use surfrs::swell::*;
use surfrs::tide_station::*;
use surfrs::tools::analysis::*;
use surfrs::tools::contour::*;
use surfrs::tools::dap::*;
use surfrs::tools::date::*;
use surfrs::tools::interpolation::*;
use surfrs::tools::linspace::linspace;
use surfrs::tools::math::*;
use surfrs::tools::vector::*;
use surfrs::tools::waves::*;
use surfrs::units::*;
use surfrs::units::direction::DirectionConvention;
use surfrs::weather::*;

/// One question: its group, its arguments in words, and how it is asked.
pub struct Ask {
    pub group: &'static str,
    pub name: String,
    f: Box<dyn Fn() -> String + Send + Sync>,
}
/// Every float written so that it can be told from its neighbour, NaN and signed zero included.
fn show<T: Debug>(x: T) -> String {
    format!("{x:?}")
}
impl Ask {
    /// The answer, shortened to a digest where it is long.
    pub fn put(&self) -> String {
        let s = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (self.f)())) {
            Ok(s) => s,
            Err(_) => "panic".into(),
        };
        if s.len() <= 60 {
            return s.replace('\n', " ");
        }
        let mut h = 0xcbf29ce484222325u64;
        for b in s.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let head: String = s.chars().take(40).collect();
        format!("{}~{}:{h:016x}", head.replace('\n', " "), s.len())
    }
}

fn at(y: i32, m: u32, d: u32, h: u32, mi: u32) -> DateTime<Utc> {
    Utc.with_ymd_and_hms(y, m, d, h, mi, 0).unwrap()
}
/// A field with two hills whose place depends on `k`.
fn hills(w: usize, h: usize, k: usize) -> Vec<f64> {
    (0..w * h)
        .map(|i| {
            let (x, y) = ((i % w) as f64, (i / w) as f64);
            let hill = |cx: f64, cy: f64, a: f64| a * (-((x - cx).powi(2) + (y - cy).powi(2)) / 2.0).exp();
            hill(1.0 + k as f64, 1.0, 3.0) + hill(w as f64 - 2.0, h as f64 - 1.0 - 0.5 * k as f64, 2.0)
        })
        .collect()
}
fn sea(nk: usize, nth: usize, k: usize, conv: DirectionConvention) -> Spectra {
    let f = geometric(0.05, 1.1, nk);
    let d: Vec<f64> = (0..nth).map(|i| (i as f64 * 360.0 / nth as f64).to_radians()).collect();
    Spectra::new(f, d, hills(nk, nth, k), conv)
}
/// What is read ahead of the records.
fn header(feed: Feed, t: &str) -> String {
    match feed {
        Feed::Bulletin => show(ForecastCBulletinWaveRecordCollection::from_data(t).records().map(|(m, _)| m).map_err(|e| e.to_string())),
        Feed::Spectral => show(ForecastSpectralWaveDataRecordCollection::from_data(t).records().map(|(m, _)| m).map_err(|e| e.to_string())),
        _ => String::new(),
    }
}
fn a_swell(h: f64, p: f64, d: i32, e: f64) -> Swell {
    Swell::new(&UnitSystem::Metric, h, p, Direction::from_degrees(d), None, Some(e), None)
}

pub fn catalogue() -> Vec<Ask> {
    let mut v: Vec<Ask> = vec![];
    macro_rules! ask {
        ($group:literal, $name:expr, $body:expr) => {
            v.push(Ask { group: $group, name: $name.to_string(), f: Box::new($body) })
        };
    }
    use DirectionConvention as D;
    // ---- grids of the same number of cells, or the same shape with other content
    for (w, h) in [(4usize, 6usize), (6, 4), (3, 8), (8, 3), (5, 5)] {
        ask!("neighbours", format!("{w}x{h}"), move || show((0..w * h).map(|i| nearest_neighbors(w, h, i)).collect::<Vec<_>>()));
        ask!("neighbours", format!("{w}x{h} backwards"), move || show((0..w * h).rev().map(|i| nearest_neighbors(w, h, i)).collect::<Vec<_>>()));
        for i in [0, 1, 7, 12, w * h - 1] {
            ask!("neighbours", format!("{w}x{h} of {i}"), move || show(nearest_neighbors(w, h, i)));
        }
    }
    for (w, h, k, n, blur) in [(4usize, 6usize, 0usize, 50usize, None), (6, 4, 0, 50, None), (3, 8, 0, 50, None), (4, 6, 1, 50, None), (4, 6, 0, 5, None), (4, 6, 0, 50, Some(0.8f32)), (4, 6, 0, 50, Some(0.3)), (5, 5, 1, 50, None)] {
        let data = hills(w, h, k);
        ask!("watershed", format!("{w}x{h} field {k} levels {n} blur {blur:?}"), move || show(watershed(&data, w, h, n, blur).map_err(|_| "error")));
    }
    for (d, delta) in [([0.0, 1.0, 0.0, 2.0, 0.0], 0.5), ([0.0, 1.0, 0.0, 2.0, 0.0], 1.5), ([0.0, 2.0, 0.0, 1.0, 0.0], 0.5)] {
        ask!("peaks", format!("{d:?} by {delta}"), move || show(detect_peaks(&d.to_vec(), delta)));
    }
    for x in [0.25, 0.2500001, 0.75] {
        ask!("interpolated", format!("at {x}"), move || show((lerp(&1.0, &3.0, &x, &0.0, &1.0), bilerp(&1.0, &2.0, &3.0, &5.0, &x, &0.0, &1.0, &0.5, &0.0, &1.0))));
    }
    // ---- spectra
    for (nk, nth, k, conv, other) in [
        (6usize, 8usize, 0usize, D::From, 0),
        (8, 6, 0, D::From, 0),
        (6, 8, 1, D::From, 0),
        (6, 8, 0, D::Towards, 0),
        (6, 8, 0, D::Met, 0),
        (4, 12, 0, D::From, 0),
        (6, 8, 0, D::From, 1),
        (6, 8, 0, D::From, 2),
        (6, 8, 0, D::From, 3),
        (6, 8, 0, D::From, 4),
        (6, 8, 0, D::From, 5),
    ] {
        let name = format!("{nk}x{nth} sea {k} {conv:?} {}", ["", "of shorter waves", "of the same ends", "turned", "with one direction moved", "with one energy more"][other]);
        let mut s = sea(nk, nth, k, conv.clone());
        // the same number of everything, in one respect otherwise
        match other {
            1 => s = Spectra::new(geometric(0.055, 1.1, nk), s.direction_raw(), s.energy.clone(), conv),
            2 => {
                let mut f = s.frequency.clone();
                f[2] += 0.002;
                s = Spectra::new(f, s.direction_raw(), s.energy.clone(), conv)
            }
            3 => s = Spectra::new(s.frequency.clone(), s.direction_raw().iter().map(|d| d + 0.1).collect(), s.energy.clone(), conv),
            4 => {
                let mut d = s.direction_raw();
                d[3] += 0.05;
                s = Spectra::new(s.frequency.clone(), d, s.energy.clone(), conv)
            }
            5 => s.energy[20] += 0.01,
            _ => (),
        }
        let t = s.clone();
        ask!("axes", name, move || show((t.period(), t.direction_deg(), t.direction_rad(), t.dk(), t.dth(), t.energy_indices(), t.closest_k(0.06), t.closest_th(1.0), t.ik(1.5), t.ith(1.5))));
        let t = s.clone();
        ask!("moments", name, move || show((t.oned(SpectralAxis::Frequency), t.oned(SpectralAxis::Direction), t.mom_f(0), t.mom_f(1), t.mom_f(2), t.mom_d(1), t.mean_wave_direction_f(), t.energy_range())));
        let t = s.clone();
        ask!("energy", name, move || show((t.energy_at(1, 2), t.interp_energy(0.06, 1.0), t.interp_energy(0.061, 1.0), t.interp_energy(0.06, 1.1))));
        let t = s.clone();
        ask!("partition", name, move || show(t.partition(60, None).map_err(|_| "error")));
        let t = s.clone();
        ask!("components", name, move || {
            let p = t.partition(60, None).map_err(|_| "error").unwrap();
            show((Spectra::from_component(&t, &p, 1).energy, Spectra::from_component(&t, &p, 2).energy, Spectra::split_from_components(&t, &p, Some(2)).iter().map(|s| s.energy.clone()).collect::<Vec<_>>()))
        });
        for (depth, wind, from) in [(None, None, None), (Some(20.0), None, None), (Some(20.0), Some(9.0), Some(90.0)), (Some(20.0), Some(9.0), Some(270.0))] {
            let t = s.clone();
            ask!("swells", format!("{name} {depth:?} {wind:?} {from:?}"), move || {
                let p = t.partition(60, None).map_err(|_| "error").unwrap();
                show(t.swell_data(depth, wind, from, &p).map_err(|_| "error"))
            });
        }
        let t = s.clone();
        ask!("picture", name, move || show((t.project_cartesian(&t.energy, 8, None, None), t.project_cartesian(&t.energy, 8, Some(25.0), None), t.project_cartesian(&t.energy, 8, None, Some(2.0)))));
        let t = s.clone();
        ask!("contoured", name, move || show(t.contoured().map(|g| g.to_string()).map_err(|_| "error")));
        for (tf, td) in [([0.05, 0.06, 0.07], [0.5, 1.5, 2.5]), ([0.05, 0.06, 0.08], [0.5, 1.5, 2.5]), ([0.05, 0.06, 0.07], [0.5, 1.5, 3.5])] {
            let t = s.clone();
            ask!("regrid", format!("{name} to {tf:?} {td:?}"), move || show(t.interpolate_to_grid(&tf, &td).energy));
        }
        let t = s.clone();
        ask!("spectrum json", name, move || serde_json::to_string(&t).unwrap() + &show(serde_json::from_str::<Spectra>(&serde_json::to_string(&t).unwrap()).map_err(|e| e.to_string())));
    }
    // ---- curves
    for (x, y) in [([0.0, 1.0, 2.0, 4.0], [0.0, 1.0, 0.5, 2.0]), ([0.0, 1.0, 3.0, 4.0], [0.0, 1.0, 0.5, 2.0]), ([0.0, 1.0, 2.0, 4.0], [0.0, 1.0, 0.6, 2.0])] {
        ask!("pchip", format!("{x:?} {y:?}"), move || {
            let p = PchipInterpolator::new(&x, &y);
            show((0..50).map(|i| p.interpolate(i as f64 * 0.1 - 0.4)).collect::<Vec<_>>())
        });
        let d: Vec<f64> = x.iter().map(|x| x * 80.0).collect();
        ask!("circular", format!("{d:?} {y:?}"), move || show((0..73).map(|i| circular_pchip_interpolate(&d, &y, i as f64 * 5.0)).collect::<Vec<_>>()));
    }
    for (w, h, k, levels) in [(4usize, 6usize, 0usize, [0.5, 1.0]), (6, 4, 0, [0.5, 1.0]), (4, 6, 1, [0.5, 1.0]), (4, 6, 0, [0.5, 1.5])] {
        let data = hills(w, h, k);
        ask!("contours", format!("{w}x{h} field {k} at {levels:?}"), move || show(compute_contours(&data, w, h, &levels, None::<fn(&Vec<f64>) -> Vec<f64>>, None::<fn(&usize, &f64) -> String>).map(|f| f.iter().map(|f| f.to_string()).collect::<Vec<_>>()).map_err(|_| "error")));
    }
    for (w, h, west, count) in [(4usize, 6usize, -71.0, 4usize), (6, 4, -71.0, 4), (4, 6, -70.0, 4), (4, 6, -71.0, 5)] {
        let data = hills(w, h, 0);
        ask!("gridded contours", format!("{w}x{h} from {west} in {count}"), move || show(compute_latlng_gridded_contours(data.clone(), w, h, west, west + 1.0, 40.0, 41.0, Some(0.5), Some(2.0), Some(count), Some(|i: &usize, v: &f64| format!("{i}:{v}"))).map(|f| f.iter().map(|f| f.to_string()).collect::<Vec<_>>()).map_err(|_| "error")));
    }
    // ---- lists
    for (a, b, n) in [(0.0, 1.0, 5usize), (0.0, 1.0, 6), (0.0, 1.0001, 5), (0.1, 1.0, 5)] {
        ask!("linspace", format!("{a} {b} {n}"), move || show((linspace(a, b, n).collect::<Vec<f64>>(), linspace(a, b, n).rev().collect::<Vec<f64>>())));
    }
    for list in [[3.0, 1.0, 2.0, 2.0], [1.0, 3.0, 2.0, 2.0], [3.0, 1.0, 2.0, 2.5], [0.0, 0.0, 0.0, 0.0]] {
        ask!("lists", format!("{list:?}"), move || {
            let mut m = list.to_vec();
            let filled = min_max_fill(&mut m, -1.0);
            show((argsort_partial(&list), diff(&list), diff_abs(&list), min_max(&list), filled, m))
        });
        for (top, n) in [(4.0, 10u8), (4.0, 11), (5.0, 10)] {
            ask!("bins", format!("{list:?} to {top} in {n}"), move || {
                let b = bin(&list, &0.0, &top, &n);
                show((unbin(&b, &0.0, &top, &n), b))
            });
        }
    }
    for (u, w) in [(3.0, 4.0), (4.0, 3.0), (-3.0, 4.0), (3.0, 4.0001)] {
        ask!("uv", format!("{u} {w}"), move || show((scalar_from_uv(u, w), f_eq(u, w), is_some_missing(u, w), is_some_missing(u, u))));
    }
    // ---- waves
    for (p, d) in [(10.0, 20.0), (10.0, 20.0001), (10.0001, 20.0), (10.0, 40.0), (20.0, 10.0), (12.0, 20.0), (10.0, 500.0)] {
        ask!("dispersion", format!("{p} s over {d} m"), move || {
            let w = 2.0 * std::f64::consts::PI / p;
            show((ldis(p, d).map_err(|_| "error"), wavenu3(w, d), wavenuma(w, d), celerity(1.0 / p, Some(d)), wavelength(1.0 / p, Some(d)), wavelength(1.0 / p, None)))
        });
        ask!("coefficients", format!("{p} {d}"), move || show((refraction_coefficient(100.0, d, p), shoaling_coefficient(10.0 * p, d), wave_energy(d, p), zero_spectral_moment(p, d), second_spectral_moment(p, d, 0.1), second_spectral_moment(p, d, 0.2), steepness_coefficient(p, d), dfp_wind_sea(p, d, 3600.0, 1.0), dfp_wind_sea(p, d, 7200.0, 1.0), dfp_swell_sea(p, d))));
        for (angle, slope) in [(10.0, 0.02), (11.0, 0.02), (10.0, 0.03)] {
            ask!("breaking", format!("{p} s {d} m {angle} {slope}"), move || show((break_wave(p, angle, 2.0, slope, d).map_err(|_| "error"), estimate_breaking_wave_height(&a_swell(2.0, p, 100, 1.0), 90.0 + angle, slope, d).map_err(|_| "error"))));
        }
    }
    // ---- tracking: the same steps in other company
    for k in 0..6usize {
        let hour = |i: i64| at(2023, 1, 1, 0, 0) + Duration::hours(i);
        let a = a_swell(2.0, 10.0, 100, 3.0);
        let b = a_swell(1.0, 14.0, 250, 2.0);
        let near = a_swell(2.0, 10.0, if k == 1 { 110 } else { 101 }, 3.0);
        let gap = if k == 2 { 3 } else { 1 };
        let steps = match k {
            3 => vec![(hour(0), vec![b.clone(), a.clone()]), (hour(1), vec![near, b])],
            4 => vec![(hour(0), vec![a.clone()]), (hour(1), vec![near, b.clone()]), (hour(2), vec![b, a])],
            _ => vec![(hour(0), vec![a.clone(), b.clone()]), (hour(gap), vec![b, near])],
        };
        let distance = if k == 5 { 2e6 } else { 1e6 };
        ask!("tracking", format!("steps {k}"), move || show(track_partitions(&steps, 30.0, distance)));
    }
    for (k, mirrored) in [(0, 281), (1, 275), (2, 100), (3, 301)] {
        ask!("mirrored", format!("{mirrored}"), move || {
            let s = SwellSummary { summary: a_swell(2.0, 10.0, 101, 3.0), components: vec![a_swell(2.0, 10.0, 101, 3.0), a_swell(0.5, if k == 3 { 11.0 } else { 10.0 }, mirrored, 1.0), a_swell(0.4, 7.0, 30, 0.5)] };
            show((s.probable_false_components(), s.filtered_components()))
        });
    }
    // ---- units and directions
    let units = [Unit::Millimeters, Unit::Meters, Unit::MetersPerSecond, Unit::Celsius, Unit::Pascal, Unit::HectaPascal, Unit::Inches, Unit::Feet, Unit::MilesPerHour, Unit::Fahrenheit, Unit::InchesMercury, Unit::Knots, Unit::Kelvin, Unit::MetersSquaredPerHertz, Unit::NauticalMiles, Unit::Degrees, Unit::Seconds, Unit::Percent, Unit::KiloJoules, Unit::Unknown];
    let systems = [UnitSystem::Metric, UnitSystem::English, UnitSystem::Kelvin, UnitSystem::Knots];
    for u in units.clone() {
        let (others, systems) = (units.clone(), systems.clone());
        ask!("units", format!("{u:?}"), move || {
            let all: Vec<_> = others.iter().map(|o| (u.convert(7.5, o), u.convert(7.5001, o))).collect();
            let systems: Vec<_> = systems.iter().map(|s| (u.convert_system(s), s.earths_radius(), s.density_of_seawater(), s.to_string())).collect();
            show((all, systems, u.abbreviation(), u.name(), u.to_string(), Unit::from(u.abbreviation())))
        });
    }
    for d in [0i32, 11, 12, 90, 101, 281, 349, 360] {
        ask!("directions", format!("{d}"), move || {
            let mut x = Direction::from_degrees(d);
            let inv = x.invert();
            let opposite: Vec<_> = (0..8).map(|k| x.is_opposite(&Direction::from_degrees(45 * k + 3))).collect();
            let text = (x.to_string(), x.cardinal_direction().to_string(), x.radian(), CardinalDirection::from_degrees(&d).to_degrees());
            x.flip();
            show((text, inv, opposite, x, D::From.normalize(d as f64), D::Towards.normalize(d as f64), D::Met.normalize(d as f64), Direction::from_radians(d as f64 / 57.0)))
        });
    }
    for t in ["N", "n", "NNE", "ENE", "SW", "101", "359", "MM", "x"] {
        ask!("words", t, move || show((t.parse::<Direction>().map_err(|_| "error"), t.parse::<CardinalDirection>().map_err(|_| "error"), t.parse::<Steepness>().map_err(|_| "error"), Unit::from(t), ModelDataSource::try_from(t).map_err(|_| "error"))));
    }
    for (x, u) in [(Some(1.25), Unit::Meters), (Some(1.2500001), Unit::Meters), (Some(1.25), Unit::Feet), (None, Unit::Meters), (Some(0.0), Unit::Celsius), (Some(-0.0), Unit::Celsius)] {
        ask!("measurements", format!("{x:?} {u:?}"), move || {
            let d = dd(x, u.clone());
            let text = serde_json::to_string(&d).unwrap();
            let to: Vec<_> = [UnitSystem::Metric, UnitSystem::English, UnitSystem::Kelvin, UnitSystem::Knots].iter().map(|s| { let mut e = d.clone(); e.to_units(s); e }).collect();
            show((d.to_string(), d.try_string(), d.unit_label(), to, serde_json::from_str::<DimensionalData<f64>>(&text).map_err(|e| e.to_string()), text))
        });
    }
    // ---- places and times
    let places = [(41.6, -71.5), (41.6, 288.5), (41.6, -71.4999), (41.6001, -71.5), (-41.6, -71.5), (0.0, 179.999), (0.0, -179.999), (71.5, 41.6)];
    for (lat, lon) in places {
        ask!("places", format!("{lat} {lon}"), move || {
            let l = Location::new(lat, lon, "x".into());
            let far: Vec<_> = places.iter().map(|p| { let o = Location::new(p.0, p.1, "y".into()); (l.distance(&o, &UnitSystem::Metric), o.distance(&l, &UnitSystem::English)) }).collect();
            let boxes = [(-72.0, 41.0, -71.0, 42.0), (288.0, 41.0, 289.0, 42.0), (170.0, -1.0, -170.0, 1.0)].map(|b| l.within_bbox(&b));
            show((l.relative_latitude(), l.relative_longitude(), l.absolute_latitude(), l.absolute_longitude(), normalize_latitude(lat), normalize_longitude(lon), absolute_longitude(lon), far, boxes, create_points_url(&l), serde_json::to_string(&l).unwrap()))
        });
    }
    let near = [(41.601, -71.501), (41.604, -71.501), (41.608, -71.501), (41.601, -71.504), (41.601, -71.508), (41.6001, -71.501)];
    for (lat, lon) in places.into_iter().chain(near) {
        for day in [at(2022, 7, 15, 0, 0), at(2022, 7, 16, 0, 0), at(2023, 7, 15, 0, 0), at(2022, 7, 15, 23, 59)] {
            if near.contains(&(lat, lon)) && day != at(2022, 7, 15, 0, 0) {
                continue;
            }
            ask!("sun", format!("{lat} {lon} {day}"), move || show(calculate_solar_events(&Location::new(lat, lon, "x".into()), &day)));
        }
    }
    for (o, x, y) in [("BOX", 62usize, 31usize), ("BOX", 31, 62), ("OKX", 62, 31)] {
        ask!("forecast addresses", format!("{o} {x} {y}"), move || show((create_gridpoints_url(o, &x, &y), create_forecast_url(o, &x, &y), create_hourly_forecast_url(o, &x, &y))));
    }
    for t in [at(2023, 3, 1, 4, 59), at(2023, 3, 1, 5, 0), at(2023, 3, 1, 6, 0), at(2024, 3, 1, 4, 59), at(2023, 3, 2, 4, 59)] {
        ask!("runs", format!("{t}"), move || show((closest_gfs_model_stations_datetime(&t), closest_gfs_model_gridded_datetime(&t), closest_hourly_model_datetime(&t), (1..=24).map(|n| round_to_nearest_multiple_hour(&t, n)).collect::<Vec<_>>(), gfs_model_fmrc_datetimes((t, t + Duration::hours(13))), gfs_model_fmrc_datetimes((t, t + Duration::hours(31))))));
        for s in [ModelDataSource::NODDGCP, ModelDataSource::NODDAWS, ModelDataSource::NOMADS] {
            if t == at(2023, 3, 1, 5, 0) || t == at(2023, 3, 1, 6, 0) {
                continue;
            }
            for hour in [3usize, 30] {
                let s = s.clone();
                ask!("model addresses", format!("{t} {s:?} {hour}"), move || {
                    let mut out = vec![];
                    for m in [&GFSWaveModel::atlantic() as &dyn NOAAModel, &GFSWaveModel::west_coast(), &GFSWaveModel::east_pacific(), &GFSWaveModel::global_16(), &GFSWaveModel::global_25(), &GEFSWaveModel::global_25_mean(), &GEFSWaveModel::global_25_spread(), &NWPSModel::boston()] {
                        out.push(show((m.id(), m.name(), m.description(), m.hour_for_index(hour), m.index_for_hour(hour), m.closest_model_run_date(&t))));
                        let url = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (m.create_url(&s, hour, Some(t)), m.create_idx_url(&s, hour, Some(t)), m.url_root(&s).to_string())));
                        out.push(show(url.map_err(|_| "panic")));
                    }
                    out.join(";")
                });
            }
        }
    }
    for r in [ModelTimeOutputResolution::Hourly, ModelTimeOutputResolution::ThreeHourly, ModelTimeOutputResolution::HybridHourlyThreeHourly(120), ModelTimeOutputResolution::HybridHourlyThreeHourly(121), ModelTimeOutputResolution::HybridThreeHourlySixHourly(120), ModelTimeOutputResolution::HybridThreeHourlySixHourly(240)] {
        ask!("output hours", format!("{r:?}"), move || {
            show((0..130).map(|i| (r.hour_for_index(i), r.index_for_hour(i), r.hours_for_hour_range(i, i + 5), r.indexes_for_hour_range(i, i + 5), r.hours_for_index_range(i, i + 5))).collect::<Vec<_>>())
        });
    }
    // ---- stations
    for (k, id) in ["44097", "44098", "BZBM3", "bzbm3"].into_iter().enumerate() {
        let t = at(2023, 3, 1, 6, 0);
        ask!("station addresses", id, move || {
            let b = BuoyStation::new(id.to_string(), 40.0 + k as f64, -71.0);
            let c = [DapConstraint::new("time".into(), vec![(0, 1, 10 + k)])];
            let mut s = show((b.latest_obs_data_url(), b.meteorological_data_url(), b.wave_data_url(), b.spectral_wave_data_url(), b.mean_wave_direction_spectral_data_url(), b.principal_wave_direction_spectral_data_url(), b.r1_spectral_data_url(), b.r2_spectral_data_url()));
            s += &show((b.stdmet_dap_url_root(), b.stdmet_das_url(), b.stdmet_dds_url(), b.stdmet_dods_url(&c), b.swden_dap_url_root(), b.swden_das_url(), b.swden_dds_url(), b.swden_dods_url(&c)));
            for src in [ModelDataSource::NODDGCP, ModelDataSource::NODDAWS, ModelDataSource::NOMADS] {
                s += &show((b.gfswave_bulletin_data_url(&src, &t), b.gfswave_spectral_data_url(&src, &t), BuoyStations::gfswave_stations_root_url(&src, &t)));
            }
            s + &b.as_feature().to_string() + &show((b.is_active(), b.name(), b.id().to_string(), format_dods_url("x", &c)))
        });
        let list = station_list(&[an_entry("44097"), an_entry(["44098", "44O97", "BZBM3", "4409"][k])], k == 2);
        ask!("station lists", format!("{k}"), move || {
            let l = BuoyStations::from_raw_data(&list);
            let fc: geojson::FeatureCollection = l.clone().into();
            show((l.find_station("44097"), l.find_station("44098"), l.find_station("BZBM3"), l.find_station("bzbm3"), l.stations.len())) + &fc.to_string() + &serde_json::to_string(&l).unwrap()
        });
        let t2 = at(2023, 3, 1 + k as u32, 6, 0);
        ask!("tide addresses", id, move || {
            let s = TideStation::new(id, &Location::new(41.5, -71.0, "Pier".into()), "RI");
            show((s.tidal_data_url(&t, &t2, &TideDatum::MLLW, &DataInterval::HiLo, &UnitSystem::Metric), s.tidal_data_url(&t, &t2, &TideDatum::MSL, &DataInterval::Hourly, &UnitSystem::English), s.as_feature().to_string(), s.name(), TideStations::from_stations(vec![s.clone()]).find_station_by_id("44097")))
        });
    }
    for text in ["time[0:1:10]", "time[0:1:11]", "time[0:10:1]", "times[0:1:10]", "time"] {
        ask!("constraints", text, move || show(text.parse::<DapConstraint>().map(|c| c.to_string())));
    }
    // ---- feeds: texts of the same length that differ in a few places
    for feed in FEEDS {
        let (text, spans) = document(feed, 0);
        let mut texts = vec![text.clone(), document(feed, 1).0];
        if spans.len() > 1 {
            // without its last record, and with its first two exchanged
            texts.push([&text[..spans[spans.len() - 1].0], &text[spans[spans.len() - 1].1..]].concat());
            texts.push([&text[..spans[0].0], &text[spans[1].0..spans[1].1], &text[spans[0].0..spans[0].1], &text[spans[1].1..]].concat());
        }
        // another digit in the last record
        if let Some(p) = text[spans[spans.len() - 1].0..].find('4') {
            let mut t = text.clone();
            let p = p + spans[spans.len() - 1].0;
            t.replace_range(p..p + 1, "5");
            texts.push(t);
        }
        // another last digit of one number, header and records alike
        let b = text.as_bytes();
        let ends: Vec<usize> = (0..b.len()).filter(|i| b[*i].is_ascii_digit() && !b.get(i + 1).is_some_and(|c| c.is_ascii_digit())).collect();
        let (head, rest): (Vec<usize>, Vec<usize>) = ends.into_iter().partition(|p| *p < spans[0].0);
        for p in head.iter().chain(rest.iter().step_by(rest.len().div_ceil(25))) {
            let mut t = text.clone();
            t.replace_range(*p..p + 1, &(((b[*p] - b'0') ^ 1) % 10).to_string());
            texts.push(t);
        }
        for (k, t) in texts.into_iter().enumerate() {
            // a group of its own for every kind of feed
            v.push(Ask { group: Box::leak(format!("feed {feed:?}").into_boxed_str()), name: format!("{k}"), f: Box::new(move || show((header(feed, &t), read(feed, &t)))) });
        }
    }
    const MET_HEAD: &str = "#YY  MM DD hh mm WDIR WSPD GST  WVHT   DPD   APD MWD   PRES  ATMP  WTMP  DEWP  VIS PTDY  TIDE\n#yr  mo dy hr mn degT m/s  m/s     m   sec   sec degT   hPa  degC  degC  degC  nmi  hPa    ft\n";
    const OBS_HEAD: &str = "#STN     LAT      LON  YYYY MM DD hh mm WDIR WSPD   GST WVHT  DPD APD MWD   PRES  PTDY  ATMP  WTMP  DEWP  VIS   TIDE\n#text    deg      deg   yr mo day hr mn degT  m/s   m/s   m   sec sec degT   hPa   hPa  degC  degC  degC  nmi     ft\n";
    for (k, (a, b)) in [(FIRST, OTHER), (OTHER, FIRST), (FIRST, FIRST)].into_iter().enumerate() {
        let w = [(2023, 3, 1, 6, 0), (2023, 3, 1, 5, 0)];
        let met = format!("{MET_HEAD}{}\n{}\n", met_line(w[0], &a), met_line(w[1], &b));
        ask!("observations", format!("{k}"), move || show(MeteorologicalDataRecordCollection::from_data(&met).records().map(|r| { let s = show(r.swell_data().ok()); let mut e = r.clone(); e.to_units(&UnitSystem::English); show((r, s, e)) }).collect::<Vec<_>>()));
        let obs = format!("{OBS_HEAD}{}\n{}\n", obs_line("44097", "40.967", "-71.124", w[0], &a), obs_line("44098", "42.800", "-70.169", w[1], &b));
        ask!("latest", format!("{k}"), move || show(LatestObsDataRecordCollection::from_data(&obs).records().map(|r| show((r.station(), r.swell_data().ok(), r))).collect::<Vec<_>>()));
    }
    for k in 0..4usize {
        let times = [1672531200, 1672534800 + if k == 1 { 60 } else { 0 }];
        let cols: Vec<(&str, Column)> = STDMET
            .iter()
            .map(|(n, miss, whole, a, b)| {
                let (a, b) = if k == 2 { (*b, *a) } else if k == 3 { (*a, *miss) } else { (*a, *b) };
                (*n, if *whole { Column::Int(vec![a as i32, b as i32]) } else { Column::Float(vec![a, b]) })
            })
            .collect();
        let bytes = archive(&times, None, &cols);
        ask!("archives", format!("{k}"), move || show(StdmetDataRecordCollection::from_data(&bytes).records().collect::<Vec<_>>()));
        let f = [0.05f32, 0.1, 0.2];
        let cols: Vec<(&str, Column)> = ["spectral_wave_density", "mean_wave_dir", "principal_wave_dir", "wave_spectrum_r1", "wave_spectrum_r2"].iter().enumerate().map(|(n, name)| (*name, if n == 1 || n == 2 { Column::Int((0..6).map(|i| 100 + 10 * i + k as i32).collect()) } else { Column::Float((0..6).map(|i| 0.1 * (i + n + k) as f32).collect()) })).collect();
        let bytes = archive(&times, Some(&f), &cols);
        ask!("spectral archives", format!("{k}"), move || {
            show(SwdenWaveDataRecordCollection::from_data(&bytes).records().map(|r| show(r)).collect::<Vec<_>>())
        });
    }
    for (k, (a1, r1)) in [(100.0, 0.8), (101.0, 0.8), (100.0, 0.81), (280.0, 0.8)].into_iter().enumerate() {
        ask!("directional", format!("{k}"), move || {
            let dirs: Vec<f64> = (0..24).map(|i| (15.0 * i as f64).to_radians()).collect();
            let f = geometric(0.05, 1.2, 6);
            let r = DirectionalSpectralWaveDataRecord::new(&at(2023, 1, 1, 0, 0), &dirs, &f, &[0.1, 0.5, 2.0, 1.0, 0.5, 0.2], &[a1; 6], &[a1 + 10.0; 6], &[r1; 6], &[0.4; 6]);
            show((r.spectra.energy.clone(), r.swell_data().map_err(|_| "error")))
        });
    }
    // ---- grids of a model
    for k in 0..4usize {
        let ground = (FixedSurfaceType::GroundOrWater, Some(1.0));
        let date = at(2023, 1, 1, 0, 0);
        let m: Message = message(date, "HTSGW", ground.clone(), 2.0 + 0.5 * (k == 1) as u8 as f64);
        let place = Location::new(40.875 + if k == 2 { 0.05 } else { 0.0 }, -70.875 + if k == 3 { 360.0 } else { 0.0 }, "x".into());
        ask!("grid points", format!("{k}"), move || {
            let g = GFSWaveModel::atlantic();
            let list = vec![m.clone(), message(date, "PERPW", ground.clone(), 9.0), message(date, "DIRPW", ground.clone(), 100.25), message(date, "WIND", ground.clone(), 5.0), message(date, "WDIR", ground.clone(), 359.25)];
            show((g.query_location_tolerance(&place, &0.2, &m).map_err(|_| "error"), g.query_location_data(&place, &m).map_err(|_| "error"), g.interp_location_data(&place, &m).map_err(|_| "error"), GFSWaveGribPointDataRecord::from_messages(&g, &list, &place, 0.2).map_err(|_| "error")))
        });
        for system in [None, Some(UnitSystem::English), Some(UnitSystem::Metric)] {
            let (lat, lon) = if k % 2 == 0 { (4usize, 6usize) } else { (6, 4) };
            let m = Message { date: None, abbrev: None, surface: None, unit: Some(if k < 2 { "m" } else { "m/s" }.into()), latitudes: (0..lat).map(|i| 42.0 - i as f64).collect(), longitudes: (0..lon).map(|i| 288.0 + i as f64).collect(), values: hills(lon, lat, 0) };
            ask!("grid contours", format!("{k} {system:?}"), move || show(GFSWaveModel::atlantic().contour_data(&m, Some(0.5), Some(2.0), Some(4), system.clone()).map(|f| f.iter().map(|f| f.to_string()).collect::<Vec<_>>()).map_err(|_| "error")));
        }
    }
    v
}

// ---------------------------------------------------------------- what was answered where

/// In a process of its own: question i first, then all of them, then all of them backwards.
pub fn child(i: usize) {
    let all = catalogue();
    let mut out = String::new();
    if std::env::var("NAMES").is_ok() {
        all.iter().enumerate().for_each(|(j, a)| println!("{j} {} {} = {}", a.group, a.name, a.put()));
        return;
    }
    let mut tell = |j: usize| out += &format!("{j}\t{}\n", all[j].put());
    tell(i);
    (0..all.len()).for_each(&mut tell);
    (0..all.len()).rev().for_each(&mut tell);
    tell(i);
    print!("{out}");
}
struct Table {
    asks: Vec<Ask>,
    /// What process i said, in the order it was asked.
    said: Vec<Vec<(usize, String)>>,
}
fn table() -> &'static Table {
    static T: OnceLock<Table> = OnceLock::new();
    T.get_or_init(|| {
        let asks = catalogue();
        let n = asks.len();
        let me = std::env::current_exe().expect("own path");
        let next = std::sync::atomic::AtomicUsize::new(0);
        let said = std::sync::Mutex::new(vec![vec![]; n]);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    let o = std::process::Command::new(&me).args(["history", &i.to_string()]).output().expect("child");
                    let text = String::from_utf8_lossy(&o.stdout).into_owned();
                    said.lock().unwrap()[i] = text.lines().filter_map(|l| l.split_once('\t')).map(|(j, a)| (j.parse().unwrap(), a.to_string())).collect();
                });
            }
        });
        Table { asks, said: said.into_inner().unwrap() }
    })
}
fn first(i: usize) -> Result<&'static str, Fail> {
    match table().said[i].first() {
        Some((j, a)) if *j == i => Ok(a),
        _ => fail(format!("{} {}: the process ended without an answer", table().asks[i].group, table().asks[i].name)),
    }
}
/// The questions i, j, ... one after another on a new thread of this process.
fn in_turn(c: &mut Ctx, order: &[usize]) -> Verdict {
    let t = table();
    let got = c.run("asking", || std::thread::scope(|s| s.spawn(|| order.iter().map(|i| t.asks[*i].put()).collect::<Vec<_>>()).join()))?.map_err(|_| "the thread ended".to_string())?;
    for (k, (i, a)) in order.iter().zip(&got).enumerate() {
        let before: Vec<String> = order[..k].iter().map(|i| format!("{} {}", t.asks[*i].group, t.asks[*i].name)).collect();
        ensure!(a == first(*i)?, "{} {} after {before:?}: {a} instead of {}", t.asks[*i].group, t.asks[*i].name, first(*i)?);
    }
    c.steps(order.len() as u64 - 1);
    c.compared(order.len() as u64);
    c.state((order, got));
    Ok(())
}
fn groups() -> Vec<Vec<usize>> {
    let mut g: Vec<(&str, Vec<usize>)> = vec![];
    for (i, a) in table().asks.iter().enumerate() {
        match g.iter_mut().find(|g| g.0 == a.group) {
            Some(g) => g.1.push(i),
            None => g.push((a.group, vec![i])),
        }
    }
    g.into_iter().map(|g| g.1).collect()
}

// ---------------------------------------------------------------- one object asked in turn

type Question<T> = (&'static str, Box<dyn Fn(&T) -> String + Send + Sync>);
fn q<T>(name: &'static str, f: impl Fn(&T) -> String + Send + Sync + 'static) -> Question<T> {
    (name, Box::new(f))
}
trait Subject: Send + Sync {
    fn name(&self) -> String;
    fn questions(&self) -> usize;
    fn changes(&self) -> usize;
    /// Asks one object in turn, with a change after the first question where one is given; and,
    /// for every question, an object made as it then is and asked nothing else.
    fn ask(&self, order: &[usize], change: Option<usize>) -> Vec<(String, String, String)>;
}
struct Object<T> {
    name: &'static str,
    make: Box<dyn Fn() -> T + Send + Sync>,
    questions: Vec<Question<T>>,
    changes: Vec<Box<dyn Fn(&mut T) + Send + Sync>>,
}
impl<T> Subject for Object<T> {
    fn name(&self) -> String {
        self.name.into()
    }
    fn questions(&self) -> usize {
        self.questions.len()
    }
    fn changes(&self) -> usize {
        self.changes.len()
    }
    fn ask(&self, order: &[usize], change: Option<usize>) -> Vec<(String, String, String)> {
        let mut o = (self.make)();
        let mut out = vec![];
        for (k, i) in order.iter().enumerate() {
            let mut p = (self.make)();
            if k >= 1 {
                if let Some(ch) = change {
                    if k == 1 {
                        self.changes[ch](&mut o);
                    }
                    self.changes[ch](&mut p);
                }
            }
            let (name, f) = &self.questions[*i];
            out.push((name.to_string(), f(&o), f(&p)));
        }
        out
    }
}
fn subjects() -> Vec<Box<dyn Subject>> {
    let mut v: Vec<Box<dyn Subject>> = vec![];
    for (nk, nth, conv) in [(5usize, 8usize, DirectionConvention::From), (8, 6, DirectionConvention::Met)] {
        let make = move || sea(nk, nth, 0, conv.clone());
        let swells = |depth: Option<f64>, wind: Option<f64>, from: Option<f64>| {
            move |s: &Spectra| {
                let p = s.partition(60, None).map_err(|_| "error").unwrap();
                show(s.swell_data(depth, wind, from, &p).map_err(|_| "error"))
            }
        };
        v.push(Box::new(Object {
            name: "spectrum",
            make: Box::new(make),
            questions: vec![
                q("periods", |s: &Spectra| show((s.period(), s.nk(), s.dk()))),
                q("bearings", |s: &Spectra| show((s.direction_deg(), s.direction_rad(), s.direction_raw(), s.nth(), s.dth()))),
                q("closest", |s: &Spectra| show((s.closest_k(0.06), s.closest_th(1.0), s.ik(0.5), s.ith(0.5)))),
                q("closest farther", |s: &Spectra| show((s.closest_k(0.07), s.closest_th(4.0), s.ik(2.5), s.ith(3.5)))),
                q("energy", |s: &Spectra| show((s.energy_at(1, 2), s.interp_energy(0.06, 1.0)))),
                q("energy beside", |s: &Spectra| show((s.energy_at(2, 1), s.interp_energy(0.0601, 1.0)))),
                q("over frequencies", |s: &Spectra| show(s.oned(SpectralAxis::Frequency))),
                q("over directions", |s: &Spectra| show(s.oned(SpectralAxis::Direction))),
                q("moment 0", |s: &Spectra| show((s.mom_f(0), s.mom_d(0)))),
                q("moment 2", |s: &Spectra| show((s.mom_f(2), s.mom_d(2)))),
                q("mean directions", |s: &Spectra| show(s.mean_wave_direction_f())),
                q("range", |s: &Spectra| show((s.energy_range(), s.energy_indices()))),
                q("systems", |s: &Spectra| show(s.partition(60, None).map_err(|_| "error"))),
                q("systems of few levels", |s: &Spectra| show(s.partition(4, None).map_err(|_| "error"))),
                q("smooth systems", |s: &Spectra| show(s.partition(60, Some(0.8)).map_err(|_| "error"))),
                q("one system", |s: &Spectra| show(Spectra::from_component(s, &s.partition(60, None).map_err(|_| "error").unwrap(), 1).energy)),
                q("swells", swells(Some(20.0), Some(9.0), Some(90.0))),
                q("swells of less wind", swells(Some(20.0), Some(5.0), Some(90.0))),
                q("swells of other wind", swells(Some(20.0), Some(9.0), Some(270.0))),
                q("swells of shallow water", swells(Some(5.0), Some(9.0), Some(90.0))),
                q("picture", |s: &Spectra| show(s.project_cartesian(&s.energy, 8, None, None))),
                q("larger picture", |s: &Spectra| show(s.project_cartesian(&s.energy, 9, None, None))),
                q("picture of short waves", |s: &Spectra| show(s.project_cartesian(&s.energy, 8, Some(12.0), None))),
                q("contours", |s: &Spectra| show(s.contoured().map(|g| g.to_string()).map_err(|_| "error"))),
                q("on a grid", |s: &Spectra| show(s.interpolate_to_grid(&[0.05, 0.06], &[0.5, 1.5]).energy)),
                q("on another grid", |s: &Spectra| show(s.interpolate_to_grid(&[0.05, 0.065], &[0.5, 1.5]).energy)),
                q("written", |s: &Spectra| serde_json::to_string(s).unwrap()),
            ],
            changes: vec![
                Box::new(|s: &mut Spectra| s.energy.iter_mut().for_each(|e| *e *= 2.0)),
                Box::new(|s: &mut Spectra| s.energy.swap(3, 20)),
                Box::new(|s: &mut Spectra| s.energy[7] += 1e-3),
                Box::new(|s: &mut Spectra| s.frequency.iter_mut().for_each(|f| *f *= 1.2)),
                Box::new(|s: &mut Spectra| s.dir_convention = DirectionConvention::Towards),
            ],
        }));
    }
    for n in [6usize, 40, 300] {
        let f = n as f64 / 6.0;
        let mut asked: Vec<Question<PchipInterpolator>> = [-0.5, 0.0, 0.3, 1.0, 1.7, 2.0, 1.999999, 2.7, 3.7, 4.0, 4.4, 4.999, 6.0, 8.0].iter().map(|x| (*x, x * f)).map(|(at, x)| q(Box::leak(format!("at {at} of 6").into_boxed_str()), move |p: &PchipInterpolator| show(p.interpolate(x)))).collect();
        asked.push(q("many", move |p: &PchipInterpolator| show(p.interpolate_many(&[4.3 * f, 0.5, 3.6 * f, 2.0, 0.1 * f]))));
        v.push(Box::new(Object {
            name: ["curve", "longer curve", "long curve"][[6, 40, 300].iter().position(|m| *m == n).unwrap()],
            make: Box::new(move || {
                let x: Vec<f64> = (0..n).map(|i| i as f64 + 0.1 * (i % 3) as f64).collect();
                let y: Vec<f64> = (0..n).map(|i| (i * 7 % 11) as f64).collect();
                PchipInterpolator::new(&x, &y)
            }),
            questions: asked,
            changes: vec![],
        }));
    }
    let stations = |ids: &[&str]| station_list(&ids.iter().map(|i| an_entry(i)).collect::<Vec<_>>(), false);
    let list = stations(&["44097", "BZBM3", "44098"]);
    v.push(Box::new(Object {
        name: "station list",
        make: Box::new(move || BuoyStations::from_raw_data(&list)),
        questions: vec![
            q("44097", |b: &BuoyStations| show(b.find_station("44097"))),
            q("44098", |b: &BuoyStations| show(b.find_station("44098"))),
            q("BZBM3", |b: &BuoyStations| show(b.find_station("BZBM3"))),
            q("bzbm3", |b: &BuoyStations| show(b.find_station("bzbm3"))),
            q("41001", |b: &BuoyStations| show(b.find_station("41001"))),
            q("nothing", |b: &BuoyStations| show(b.find_station(""))),
            q("features", |b: &BuoyStations| geojson::FeatureCollection::from(Into::<geojson::FeatureCollection>::into(b.clone())).to_string()),
            q("written", |b: &BuoyStations| serde_json::to_string(b).unwrap()),
        ],
        changes: vec![
            Box::new(|b: &mut BuoyStations| b.stations.reverse()),
            Box::new(|b: &mut BuoyStations| drop(b.stations.remove(0))),
            Box::new(|b: &mut BuoyStations| b.stations[1].station_id = "41001".into()),
        ],
    }));
    v.push(Box::new(Object {
        name: "tide stations",
        make: Box::new(|| TideStations::from_stations(["8454658", "1610367", "8454659"].iter().map(|i| TideStation::new(i, &Location::new(41.5, -71.0, "Pier".into()), "RI")).collect())),
        questions: vec![
            q("8454658", |b: &TideStations| show(b.find_station_by_id("8454658"))),
            q("8454659", |b: &TideStations| show(b.find_station_by_id("8454659"))),
            q("1610367", |b: &TideStations| show(b.find_station_by_id("1610367"))),
            q("845", |b: &TideStations| show(b.find_station_by_id("845"))),
            q("written", |b: &TideStations| serde_json::to_string(b).unwrap()),
        ],
        changes: vec![Box::new(|b: &mut TideStations| b.stations.reverse()), Box::new(|b: &mut TideStations| drop(b.stations.remove(0)))],
    }));
    v.push(Box::new(Object {
        name: "station",
        make: Box::new(|| BuoyStation::new("44097".into(), 40.967, -71.124)),
        questions: vec![
            q("observations", |b: &BuoyStation| show((b.latest_obs_data_url(), b.meteorological_data_url()))),
            q("waves", |b: &BuoyStation| show((b.wave_data_url(), b.spectral_wave_data_url(), b.mean_wave_direction_spectral_data_url(), b.r1_spectral_data_url()))),
            q("archive", |b: &BuoyStation| show((b.stdmet_das_url(), b.stdmet_dods_url(&["time[0:1:10]".parse().unwrap()])))),
            q("archive of more", |b: &BuoyStation| show((b.swden_das_url(), b.stdmet_dods_url(&["time[0:1:11]".parse().unwrap()])))),
            q("forecast", |b: &BuoyStation| show((b.gfswave_bulletin_data_url(&ModelDataSource::NODDAWS, &at(2023, 1, 1, 0, 0)), b.gfswave_spectral_data_url(&ModelDataSource::NODDAWS, &at(2023, 1, 1, 0, 0))))),
            q("later forecast", |b: &BuoyStation| show((b.gfswave_bulletin_data_url(&ModelDataSource::NODDAWS, &at(2023, 1, 1, 6, 0)), b.gfswave_spectral_data_url(&ModelDataSource::NODDAWS, &at(2023, 1, 1, 6, 0))))),
            q("forecast elsewhere", |b: &BuoyStation| show((b.gfswave_bulletin_data_url(&ModelDataSource::NOMADS, &at(2023, 1, 1, 0, 0)), b.gfswave_spectral_data_url(&ModelDataSource::NOMADS, &at(2023, 1, 1, 0, 0))))),
            q("feature", |b: &BuoyStation| show((b.is_active(), b.name(), b.location())) + &b.as_feature().to_string()),
            q("written", |b: &BuoyStation| serde_json::to_string(b).unwrap()),
        ],
        changes: vec![
            Box::new(|b: &mut BuoyStation| b.station_id = "44098".into()),
            Box::new(|b: &mut BuoyStation| b.latitude = -12.5),
            Box::new(|b: &mut BuoyStation| b.raw_name = "Nowhere".into()),
            Box::new(|b: &mut BuoyStation| b.has_meteorological_data = true),
        ],
    }));
    v.push(Box::new(Object {
        name: "place",
        make: Box::new(|| Location::new(41.6, -71.5, "x".into())),
        questions: vec![
            q("notations", |l: &Location| show((l.relative_latitude(), l.relative_longitude(), l.absolute_latitude(), l.absolute_longitude()))),
            q("how far", |l: &Location| show(l.distance(&Location::new(41.7, -71.5, "y".into()), &UnitSystem::Metric))),
            q("how far south", |l: &Location| show(l.distance(&Location::new(-41.7, -71.5, "y".into()), &UnitSystem::Metric))),
            q("how far in miles", |l: &Location| show(l.distance(&Location::new(41.7, -71.5, "y".into()), &UnitSystem::English))),
            q("in a box", |l: &Location| show(l.within_bbox(&(-72.0, 41.0, -71.0, 42.0)))),
            q("in another box", |l: &Location| show(l.within_bbox(&(-72.0, 41.7, -71.0, 42.0)))),
            q("sun", |l: &Location| show(calculate_solar_events(l, &at(2022, 7, 15, 0, 0)))),
            q("sun next day", |l: &Location| show(calculate_solar_events(l, &at(2022, 7, 16, 0, 0)))),
            q("address", |l: &Location| create_points_url(l)),
            q("written", |l: &Location| serde_json::to_string(l).unwrap()),
        ],
        changes: vec![Box::new(|l: &mut Location| l.latitude = 41.7), Box::new(|l: &mut Location| l.longitude = 288.6), Box::new(|l: &mut Location| l.name = "y".into())],
    }));
    v.push(Box::new(Object {
        name: "swell summary",
        make: Box::new(|| SwellSummary { summary: a_swell(2.0, 10.0, 101, 3.0), components: vec![a_swell(2.0, 10.0, 101, 3.0), a_swell(0.5, 10.0, 281, 1.0), a_swell(0.4, 7.0, 30, 0.5)] }),
        questions: vec![
            q("false ones", |s: &SwellSummary| show(s.probable_false_components())),
            q("true ones", |s: &SwellSummary| show(s.filtered_components())),
            q("in feet", |s: &SwellSummary| { let mut t = s.clone(); t.to_units(&UnitSystem::English); show(t) }),
            q("printed", |s: &SwellSummary| s.summary.to_string() + &s.components.iter().map(|c| c.to_string()).collect::<String>()),
            q("breaking", |s: &SwellSummary| show(estimate_breaking_wave_height(&s.summary, 145.0, 0.02, 30.0).map_err(|_| "error"))),
            q("written", |s: &SwellSummary| serde_json::to_string(s).unwrap()),
        ],
        changes: vec![
            Box::new(|s: &mut SwellSummary| s.components.reverse()),
            Box::new(|s: &mut SwellSummary| drop(s.components.pop())),
            Box::new(|s: &mut SwellSummary| s.components[1].period.value = Some(12.0)),
            Box::new(|s: &mut SwellSummary| s.summary.wave_height.value = Some(1.0)),
            Box::new(|s: &mut SwellSummary| drop(s.to_units(&UnitSystem::English))),
        ],
    }));
    for model in 0..5 {
        v.push(Box::new(Object {
            name: ["atlantic", "west coast", "global", "ensemble", "nearshore"][model],
            make: Box::new(move || -> Box<dyn NOAAModel> {
                match model {
                    0 => Box::new(GFSWaveModel::atlantic()),
                    1 => Box::new(GFSWaveModel::west_coast()),
                    2 => Box::new(GFSWaveModel::global_25()),
                    3 => Box::new(GEFSWaveModel::global_25_mean()),
                    _ => Box::new(NWPSModel::boston()),
                }
            }),
            questions: {
                let mut v: Vec<Question<Box<dyn NOAAModel>>> = vec![q("names", |m: &Box<dyn NOAAModel>| show((m.id(), m.name(), m.description(), m.time_resolution())))];
                for (name, s, hour, t) in [
                    ("address", ModelDataSource::NODDGCP, 3usize, at(2023, 1, 1, 7, 0)),
                    ("address of a later hour", ModelDataSource::NODDGCP, 6, at(2023, 1, 1, 7, 0)),
                    ("address of a later run", ModelDataSource::NODDGCP, 3, at(2023, 1, 1, 13, 0)),
                    ("address of the next day", ModelDataSource::NODDGCP, 3, at(2023, 1, 2, 7, 0)),
                    ("address elsewhere", ModelDataSource::NOMADS, 3, at(2023, 1, 1, 7, 0)),
                ] {
                    v.push(q(name, move |m: &Box<dyn NOAAModel>| {
                        let u = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| show((m.create_url(&s, hour, Some(t)), m.create_idx_url(&s, hour, Some(t)), m.url_root(&s), m.closest_model_run_date(&t)))));
                        u.unwrap_or_else(|_| "panic".into())
                    }));
                }
                v.push(q("hours", |m: &Box<dyn NOAAModel>| show((0..140).map(|i| (m.hour_for_index(i), m.index_for_hour(i))).collect::<Vec<_>>())));
                let ground = (FixedSurfaceType::GroundOrWater, Some(1.0));
                for (name, value, north) in [("cell", 2.0, 0.0), ("other cell", 3.0, 0.0), ("cell beside", 2.0, 0.05)] {
                    let msg = message(at(2023, 1, 1, 0, 0), "HTSGW", ground.clone(), value);
                    v.push(q(name, move |m: &Box<dyn NOAAModel>| {
                        let l = Location::new(40.875 + north, -70.875, "x".into());
                        show((m.query_location_tolerance(&l, &0.2, &msg).map_err(|_| "error"), m.query_location_data(&l, &msg).map_err(|_| "error"), m.interp_location_data(&l, &msg).map_err(|_| "error")))
                    }));
                }
                v
            },
            changes: vec![],
        }));
    }
    v.push(Box::new(Object {
        name: "measurement",
        make: Box::new(|| dd(Some(1.25), Unit::Meters)),
        questions: vec![
            q("printed", |d: &DimensionalData<f64>| show((d.to_string(), d.try_string(), d.unit_label()))),
            q("in feet", |d: &DimensionalData<f64>| { let mut e = d.clone(); e.to_units(&UnitSystem::English); show(e) }),
            q("in metres", |d: &DimensionalData<f64>| { let mut e = d.clone(); e.to_units(&UnitSystem::Metric); show(e) }),
            q("written", |d: &DimensionalData<f64>| serde_json::to_string(d).unwrap()),
        ],
        changes: vec![
            Box::new(|d: &mut DimensionalData<f64>| d.value = Some(2.5)),
            Box::new(|d: &mut DimensionalData<f64>| d.value = None),
            Box::new(|d: &mut DimensionalData<f64>| d.unit = Unit::Celsius),
            Box::new(|d: &mut DimensionalData<f64>| drop(d.to_units(&UnitSystem::English))),
        ],
    }));
    v
}

pub fn c36() -> Prop {
    let list = catalogue();
    let n = list.len();
    let names: std::collections::BTreeSet<&str> = list.iter().map(|a| a.group).collect();
    Prop {
        id: "C36",
        level: "model_checking",
        rule: "one state per order of questions and the answers given to it",
        assumptions: vec!["questions about the current moment (an address without a date, a record without messages) are not asked"],
        families: vec![
            family("fresh", format!("{n} questions in {} groups, whose arguments differ in one place, in shape or in order; each first in a process of its own, then all of them, then all of them backwards: every answer as it was when it came first", names.len()), move |c| {
                let i = c.choose(n);
                let t = table();
                first(i)?;
                ensure!(t.said[i].len() == 2 * n + 2, "asked first {} {}: only {} of {} answers", t.asks[i].group, t.asks[i].name, t.said[i].len(), 2 * n + 2);
                for (k, (j, a)) in t.said[i].iter().enumerate() {
                    ensure!(a == first(*j)?, "{} {} as question {k} of a process that was first asked {} {}: {a} instead of {}", t.asks[*j].group, t.asks[*j].name, t.asks[i].group, t.asks[i].name, first(*j)?);
                }
                c.steps(2 * n as u64 + 2);
                c.compared(2 * n as u64 + 2);
                c.state(i);
                Ok(())
            }),
            family("pairs", "every ordered pair of those questions and the first again, on a new thread of a process that was asked everything", move |c| {
                let i = c.choose(n);
                let j = c.choose(n);
                in_turn(c, &[i, j, i])
            }),
            family("triples", "every three questions of a group (quick: the first 24 of it; thorough: and of the first two of every group) in every order, the first two again, on a new thread", |c| {
                let mut gs = groups();
                if c.thorough {
                    // and the first two questions of every group together
                    let firsts = gs.iter().flat_map(|g| g.iter().take(2).cloned()).collect();
                    gs.push(firsts);
                }
                let g = &gs[c.choose(gs.len())];
                let g = &g[..g.len().min(c.t(24, 1000))];
                let (i, j, k) = (c.choose(g.len()), c.choose(g.len()), c.choose(g.len()));
                in_turn(c, &[g[i], g[j], g[k], g[i], g[j]])
            }),
            family("objects", "every three questions (two of a spectrum, quick) put in turn to one spectrum, curve, station, list of stations, place, swell summary, model or measurement, and the first again: as an object asked nothing else", |c| {
                static S: OnceLock<Vec<Box<dyn Subject>>> = OnceLock::new();
                let all = S.get_or_init(subjects);
                let s = &all[c.choose(all.len())];
                let n = s.questions();
                let mut order = vec![c.choose(n), c.choose(n)];
                if n < 20 || c.thorough {
                    order.push(c.choose(n));
                }
                order.push(order[0]);
                let got = c.run("asking", || s.ask(&order, None))?;
                for (name, a, b) in &got {
                    ensure!(a == b, "{} asked {order:?}: {name} answered {a} instead of {b}", s.name());
                }
                c.compared(got.len() as u64);
                c.state((s.name(), order));
                Ok(())
            }),
            family("changes", "every two questions put to one of those objects, one of its fields changed in between: the second as of an object made that way", |c| {
                static S: OnceLock<Vec<Box<dyn Subject>>> = OnceLock::new();
                let all = S.get_or_init(|| subjects().into_iter().filter(|s| s.changes() > 0).collect());
                let s = &all[c.choose(all.len())];
                let change = c.choose(s.changes());
                let order = vec![c.choose(s.questions()), c.choose(s.questions())];
                let got = c.run("asking", || s.ask(&order, Some(change)))?;
                for (name, a, b) in &got {
                    ensure!(a == b, "{} asked {order:?} with change {change} in between: {name} answered {a} instead of {b}", s.name());
                }
                c.compared(got.len() as u64);
                c.state((s.name(), order, change));
                Ok(())
            }),
        ],
    }
}
