//! C19 interpolation, C24 contours, C25 buoy directional spectra, C28 numeric helpers, C30 sun.
use super::basics::CONV;
use crate::explore::*;
use crate::util::*;
use chrono::{Duration, TimeZone, Utc};
use std::collections::VecDeque;
use std::f64::consts::PI;
use surfrs::data::directional_spectral_wave_data_record::DirectionalSpectralWaveDataRecord;
use surfrs::data::spectral_wave_data_record::SpectralWaveDataRecord;
use surfrs::location::Location;
use surfrs::solar::calculate_solar_events;
use surfrs::spectra::Spectra;
use surfrs::tools::analysis::{bilerp, detect_peaks, lerp};
use surfrs::tools::contour::{compute_contours, compute_latlng_gridded_contours};
use surfrs::tools::interpolation::{circular_pchip_interpolate, PchipInterpolator};
use surfrs::tools::linspace::linspace;
use surfrs::tools::math::{f_eq, is_some_missing, scalar_from_uv};
use surfrs::tools::vector::*;
use surfrs::units::direction::DirectionConvention;

// ---------------------------------------------------------------------------------------------
// C19

/// All the claims about the curve through (x, y), at `probes` places in every interval.
fn curve_ok(c: &mut Ctx, x: &[f64], y: &[f64], probes: usize) -> Verdict {
    let what = || format!("points {x:?} -> {y:?}");
    let n = x.len();
    let range = y.iter().cloned().fold(f64::MIN, f64::max) - y.iter().cloned().fold(f64::MAX, f64::min);
    let tiny = 1e-9 * (1.0 + range.abs() + y.iter().fold(0.0f64, |a, b| a.max(b.abs())));
    let y2: Vec<f64> = y.iter().map(|v| 2.0 * v + 3.0).collect();
    let y3: Vec<f64> = y.iter().map(|v| -0.5 * v).collect();
    let (p, p2, p3) = c.run("PchipInterpolator::new", || (PchipInterpolator::new(x, y), PchipInterpolator::new(x, &y2), PchipInterpolator::new(x, &y3)))?;
    let width = x[n - 1] - x[0];
    let mut at: Vec<f64> = vec![x[0] - 2.0 * width, x[0] - 1e-9, x[n - 1] + 1e-9, x[n - 1] + 100.0 * width];
    for k in 0..n {
        at.push(x[k]);
    }
    for k in 0..n - 1 {
        let h = x[k + 1] - x[k];
        at.extend((1..probes).map(|i| x[k] + h * i as f64 / probes as f64));
        at.push(x[k] + 1e-7 * h);
        at.push(x[k + 1] - 1e-7 * h);
    }
    let many = c.run("interpolate_many", || p.interpolate_many(&at))?;
    ensure!(many.len() == at.len(), "{}: {} results for {} places", what(), many.len(), at.len());
    c.steps(3 * at.len() as u64);
    for (a, m) in at.iter().zip(&many) {
        let v = p.interpolate(*a);
        ensure!(v == *m, "{}: at {a}: {v} alone, {m} together with others", what());
        ensure!(v.is_finite(), "{}: at {a}: {v}", what());
        let (v2, v3) = (p2.interpolate(*a), p3.interpolate(*a));
        ensure!((v2 - (2.0 * v + 3.0)).abs() <= 4.0 * tiny, "{}: at {a}: {v}, but {v2} for doubled values plus 3", what());
        ensure!((v3 + 0.5 * v).abs() <= 2.0 * tiny, "{}: at {a}: {v}, but {v3} for values times -1/2", what());
        if *a <= x[0] {
            ensure!((v - y[0]).abs() <= tiny, "{}: at {a}, before the first point: {v}", what());
        } else if *a >= x[n - 1] {
            ensure!((v - y[n - 1]).abs() <= tiny, "{}: at {a}, after the last point: {v}", what());
        }
    }
    for k in 0..n {
        let v = p.interpolate(x[k]);
        ensure!((v - y[k]).abs() <= tiny, "{}: at its point {} the curve is {v} instead of {}", what(), x[k], y[k]);
    }
    for k in 0..n - 1 {
        let h = x[k + 1] - x[k];
        let dy = y[k + 1] - y[k];
        let mut last = y[k];
        for i in 0..=probes + 1 {
            // the two outermost probes sit right beside the points
            let f = match i {
                0 => 1e-7,
                i if i == probes + 1 => 1.0 - 1e-7,
                i => (i as f64 - 0.5) / probes as f64,
            };
            let v = p.interpolate(x[k] + h * f);
            ensure!(
                v >= y[k].min(y[k + 1]) - tiny && v <= y[k].max(y[k + 1]) + tiny,
                "{}: at {} the curve is {v}, outside {}..{}", what(), x[k] + h * f, y[k], y[k + 1]
            );
            ensure!((v - last) * dy.signum() >= -tiny, "{}: at {} the curve turns back from {last} to {v}", what(), x[k] + h * f);
            let d = if i == 0 || i > probes { 2e-7 + 0.5 / probes as f64 * (i > probes) as i32 as f64 } else { 1.0 / probes as f64 };
            ensure!((v - last).abs() <= 10.0 * dy.abs() * d + tiny, "{}: the curve jumps from {last} to {v} at {}", what(), x[k] + h * f);
            last = v;
        }
        ensure!((y[k + 1] - last).abs() <= 1e-5 * dy.abs() + tiny, "{}: the curve jumps from {last} to {} at {}", what(), y[k + 1], x[k + 1]);
        c.steps(probes as u64);
    }
    c.compared(at.len() as u64);
    c.state((bits(x), bits(y)));
    Ok(())
}

/// The circular curve through values at bearings.
fn circle_ok(c: &mut Ctx, d: &[f64], y: &[f64]) -> Verdict {
    let what = || format!("bearings {d:?} -> {y:?}");
    let n = d.len();
    let mut at: Vec<f64> = (0..=72).map(|i| i as f64 * 5.0).collect();
    at.extend(d.iter().flat_map(|b| [*b, b + 1e-6, b - 1e-6]).filter(|b| (0.0..=360.0).contains(b)));
    let of = |d: &[f64], y: &[f64], t: f64| circular_pchip_interpolate(d, y, t);
    let base: Vec<f64> = c.run("circular_pchip_interpolate", || at.iter().map(|t| of(d, y, *t)).collect())?;
    c.steps(at.len() as u64);
    let tiny = 1e-9;
    for (t, v) in at.iter().zip(&base) {
        ensure!(v.is_finite(), "{}: at {t}: {v}", what());
        // the neighbours round the circle
        let next = (0..n).min_by(|a, b| wrap360(d[*a] - t).total_cmp(&wrap360(d[*b] - t))).unwrap();
        let prev = (0..n).min_by(|a, b| wrap360(t - d[*a]).total_cmp(&wrap360(t - d[*b]))).unwrap();
        ensure!(
            *v >= y[next].min(y[prev]) - tiny && *v <= y[next].max(y[prev]) + tiny,
            "{}: at {t}: {v}, not between the neighbours {} and {}", what(), y[prev], y[next]
        );
        if circ(*t, d[next]) < 1e-12 {
            ensure!((v - y[next]).abs() < tiny, "{}: at its own bearing {t}: {v}", what());
        }
        if circ(*t, d[next]) < 2e-6 {
            ensure!((v - y[next]).abs() < 1e-4, "{}: right beside {}: {v}", what(), d[next]);
        }
    }
    ensure!((base[0] - base[72]).abs() < tiny, "{}: {} at 0 and {} at 360 degrees", what(), base[0], base[72]);
    // neighbouring probes differ by no more than a curve without jumps does
    for i in 0..72 {
        let narrowest = (0..n).map(|k| if k + 1 < n { d[k + 1] - d[k] } else { d[0] + 360.0 - d[k] }).fold(360.0, f64::min);
        let range = y.iter().cloned().fold(f64::MIN, f64::max) - y.iter().cloned().fold(f64::MAX, f64::min);
        ensure!((base[i] - base[i + 1]).abs() <= 10.0 * range * 5.0 / narrowest + tiny, "{}: jumps between {} and {} degrees", what(), at[i], at[i + 1]);
    }
    // north may be written as 0 at the front of the list or as 360 at its end
    if d[0] == 0.0 {
        let list: Vec<f64> = d[1..].iter().copied().chain([360.0]).collect();
        let values: Vec<f64> = y[1..].iter().copied().chain([y[0]]).collect();
        let got: Vec<f64> = c.run("circular_pchip_interpolate", || at.iter().map(|t| of(&list, &values, *t)).collect())?;
        for i in 0..at.len() {
            ensure!((got[i] - base[i]).abs() < tiny, "{}: at {}: {} but {} with north written as 360", what(), at[i], base[i], got[i]);
        }
    }
    // turning data and target together
    for turn in [5.0, 90.0, 185.0, 355.0] {
        let mut turned: Vec<(f64, f64)> = d.iter().zip(y).map(|(a, b)| (wrap360(a + turn), *b)).collect();
        turned.sort_by(|a, b| a.0.total_cmp(&b.0));
        let (td, ty): (Vec<f64>, Vec<f64>) = turned.into_iter().unzip();
        let got: Vec<f64> = c.run("circular_pchip_interpolate", || at.iter().map(|t| of(&td, &ty, wrap360(t + turn))).collect())?;
        for i in 0..at.len() {
            ensure!((got[i] - base[i]).abs() < 1e-7, "{}: at {}: {} but {} when everything is turned by {turn}", what(), at[i], base[i], got[i]);
        }
        c.steps(at.len() as u64);
    }
    c.compared(at.len() as u64);
    c.state((bits(d), bits(y)));
    Ok(())
}

pub fn c19() -> Prop {
    Prop {
        id: "C19",
        level: "model_checking",
        rule: "every sequence of values over every spacing pattern, probed on a grid in every interval; the claims are checked as stated, without a second interpolator",
        assumptions: vec!["strictly increasing places, at least 2 (the type's own precondition)", "finite values", "bearings and targets of the circular curve within 0..360, ascending (documented)"],
        families: vec![
            family("curves", "2..4 (thorough 5) points, values {0,1,3,-2}, spacings {1,0.1,5}, 8 probes per interval", |c| {
                let n = c.t(4, 5).min(2 + c.choose(c.t(3, 4)));
                let y: Vec<f64> = (0..n).map(|_| c.pick(&[0.0, 1.0, 3.0, -2.0])).collect();
                let mut x = vec![c.pick(&[0.0, -7.5])];
                for i in 1..n {
                    let s = c.pick(&[1.0, 0.1, 5.0]);
                    x.push(x[i - 1] + s);
                }
                curve_ok(c, &x, &y, 8)?;
                c.sample(|| format!("{x:?} -> {y:?}"));
                Ok(())
            }),
            family("even_longer", "5 (thorough 7) points one apart, values {0,1,3,-2}, 8 probes", |c| {
                let n = c.t(5, 7);
                let y: Vec<f64> = (0..n).map(|_| c.pick(&[0.0, 1.0, 3.0, -2.0])).collect();
                let x: Vec<f64> = (0..n).map(|i| i as f64).collect();
                curve_ok(c, &x, &y, 8)
            }),
            family("scales", "3 points, 64 probes, values and spacings over 12 orders of magnitude", |c| {
                let y: Vec<f64> = (0..3).map(|_| c.pick(&[0.0, 1e-6, 1.0, 1e6, -4.0])).collect();
                let (a, b) = (c.pick(&[1e-6, 1.0, 1e6]), c.pick(&[1e-6, 1.0, 1e6]));
                curve_ok(c, &[0.0, a, a + b], &y, 64)
            }),
            family("lengths", "every length 2..70 and around 128, 256, 1024: ramps, steps, zigzags and bumps", |c| {
                let lengths: Vec<usize> = (2..=70).chain([127, 128, 129, 255, 256, 257, 1023, 1024, 1025]).collect();
                let n = c.pick(&lengths);
                let shape = c.choose(5);
                let x: Vec<f64> = (0..n).map(|i| 0.03 * 1.1f64.powi((i % 50) as i32) + (i / 50) as f64 * 4.0).collect();
                let y: Vec<f64> = (0..n)
                    .map(|i| match shape {
                        0 => i as f64,
                        1 => (i >= n / 2) as i32 as f64,
                        2 => (i % 2) as f64,
                        3 => -((i * i) as f64),
                        _ => ((i * 7) % 11) as f64 * 0.3,
                    })
                    .collect();
                curve_ok(c, &x, &y, 4)
            }),
            family("circles", "every ascending choice of 1..4 (thorough 5) of {0,10,45,90,180,270,350}, values {0,1,3}; 72 targets and each bearing; north as 0 and as 360, 4 turns", |c| {
                let most = c.t(4, 5);
                let d: Vec<f64> = [0.0, 10.0, 45.0, 90.0, 180.0, 270.0, 350.0].into_iter().filter(|_| c.flag()).collect();
                if d.is_empty() || d.len() > most {
                    return Ok(());
                }
                let y: Vec<f64> = d.iter().map(|_| c.pick(&[0.0, 1.0, 3.0])).collect();
                circle_ok(c, &d, &y)?;
                c.sample(|| format!("{d:?} -> {y:?}"));
                Ok(())
            }),
            family("full_circles", "uniform lists of 1..72 bearings from 4 origins, 3 shapes", |c| {
                let n = c.pick(&[1usize, 2, 3, 4, 5, 7, 8, 12, 16, 24, 36, 72]);
                let origin = c.pick(&[0.0, 5.0, 2.5, 0.001]);
                let shape = c.choose(3);
                let d: Vec<f64> = (0..n).map(|i| origin + i as f64 * 360.0 / n as f64).filter(|b| *b < 360.0).collect();
                let y: Vec<f64> = (0..d.len())
                    .map(|i| match shape {
                        0 => (i == 0) as i32 as f64,
                        1 => 2.0 + (2.0 * PI * i as f64 / n as f64).cos(),
                        _ => ((i * 5) % 7) as f64,
                    })
                    .collect();
                circle_ok(c, &d, &y)
            }),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// C24

type Rings = Vec<Vec<Vec<Vec<f64>>>>;
struct Band {
    threshold: Option<f64>,
    normalized: Option<f64>,
    label: Option<String>,
    rings: Rings,
}

fn bands(features: &[geojson::Feature]) -> Result<Vec<Band>, Fail> {
    features
        .iter()
        .enumerate()
        .map(|(i, f)| {
            let g = f.geometry.as_ref().ok_or_else(|| format!("feature {i} has no geometry"))?;
            let geojson::Value::MultiPolygon(rings) = &g.value else { return fail(format!("feature {i} is not a multipolygon")) };
            Ok(Band {
                threshold: f.property("threshold").and_then(|v| v.as_f64()),
                normalized: f.property("normalized").and_then(|v| v.as_f64()),
                label: f.property("label").and_then(|v| v.as_str().map(String::from)),
                rings: rings.clone(),
            })
        })
        .collect()
}

fn inside(rings: &Rings, x: f64, y: f64) -> bool {
    let mut odd = false;
    for ring in rings.iter().flatten() {
        for w in ring.windows(2) {
            let (x0, y0, x1, y1) = (w[0][0], w[0][1], w[1][0], w[1][1]);
            if (y0 > y) != (y1 > y) && x < (x1 - x0) * (y - y0) / (y1 - y0) + x0 {
                odd = !odd;
            }
        }
    }
    odd
}

/// One feature per threshold, in order, with closed rings of finite points inside the extent.
fn bands_ok(what: &str, b: &[Band], thresholds: &[f64], extent: (f64, f64, f64, f64)) -> Verdict {
    ensure!(b.len() == thresholds.len(), "{what}: {} features for {} thresholds", b.len(), thresholds.len());
    let (first, last) = (thresholds[0], thresholds[thresholds.len() - 1]);
    let (x0, x1, y0, y1) = extent;
    let (ex, ey) = (1e-9 * (1.0 + x0.abs().max(x1.abs())), 1e-9 * (1.0 + y0.abs().max(y1.abs())));
    for (i, (f, t)) in b.iter().zip(thresholds).enumerate() {
        ensure!(f.threshold.is_some_and(|v| close(v, *t, 1e-9, 1e-9)), "{what}: feature {i} is of the threshold {:?} instead of {t}", f.threshold);
        if (last - first).abs() > 1e-9 {
            let want = (t - first) / (last - first);
            ensure!(f.normalized.is_some_and(|v| close(v, want, 1e-9, 1e-9)), "{what}: feature {i} has the level {:?} instead of {want}", f.normalized);
        }
        for ring in f.rings.iter().flatten() {
            ensure!(ring.len() >= 4 && ring[0] == ring[ring.len() - 1], "{what}: feature {i} has a ring that is not closed: {ring:?}");
            for p in ring {
                ensure!(p.len() == 2 && p[0].is_finite() && p[1].is_finite(), "{what}: feature {i} has the point {p:?}");
                ensure!(
                    p[0] >= x0.min(x1) - ex && p[0] <= x0.max(x1) + ex && p[1] >= y0.min(y1) - ey && p[1] <= y0.max(y1) + ey,
                    "{what}: feature {i} has the point {p:?} outside {extent:?}"
                );
            }
        }
    }
    Ok(())
}

fn plain_contours(c: &mut Ctx, data: &[f64], w: usize, h: usize, thresholds: &[f64]) -> Verdict {
    let what = format!("{w} x {h} field {data:?}, thresholds {thresholds:?}");
    let got = c.run("compute_contours", || {
        compute_contours(data, w, h, thresholds, Some(|p: &Vec<f64>| vec![10.0 + 2.0 * p[0], 50.0 - 3.0 * p[1]]), Some(|i: &usize, t: &f64| format!("{i}/{t}")))
    })?;
    let got = got.map_err(|e| format!("{what}: {e:?}"))?;
    let b = bands(&got)?;
    bands_ok(&what, &b, thresholds, (10.0, 10.0 + 2.0 * w as f64, 50.0, 50.0 - 3.0 * h as f64))?;
    for (i, f) in b.iter().enumerate() {
        ensure!(f.label.as_deref() == Some(&format!("{i}/{}", thresholds[i])), "{what}: feature {i} is labelled {:?}", f.label);
        for (k, v) in data.iter().enumerate() {
            if (v - thresholds[i]).abs() < 1e-6 {
                continue;
            }
            let (x, y) = (10.0 + 2.0 * ((k % w) as f64 + 0.5), 50.0 - 3.0 * ((k / w) as f64 + 0.5));
            ensure!(inside(&f.rings, x, y) == (*v >= thresholds[i]), "{what}: the cell {k} of value {v} is {} the contour {}", if *v >= thresholds[i] { "outside" } else { "inside" }, thresholds[i]);
        }
    }
    // without a mapping: the same rings in cell coordinates
    let raw = c.run("compute_contours", || compute_contours(data, w, h, thresholds, None::<fn(&Vec<f64>) -> Vec<f64>>, None::<fn(&usize, &f64) -> String>))?;
    let raw = bands(&raw.map_err(|e| format!("{what}: {e:?}"))?)?;
    ensure!(raw.len() == b.len(), "{what}: {} features without a mapping", raw.len());
    for (r, f) in raw.iter().zip(&b) {
        ensure!(r.threshold == f.threshold && r.rings.len() == f.rings.len(), "{what}: the mapping changes the polygons");
        for (p, q) in r.rings.iter().flatten().flatten().zip(f.rings.iter().flatten().flatten()) {
            ensure!(close(10.0 + 2.0 * p[0], q[0], 1e-9, 1e-12) && close(50.0 - 3.0 * p[1], q[1], 1e-9, 1e-12), "{what}: {p:?} is mapped to {q:?}");
        }
    }
    c.compared((b.len() * data.len()) as u64);
    c.state((bits(data), w, bits(thresholds)));
    Ok(())
}

/// Geographic contours; `global`: the grid leaves out just the column that would repeat the first.
#[derive(Clone, Copy, Debug)]
struct Geo {
    n: usize,
    start: f64,
    end: f64,
    global: bool,
    lat: (f64, f64),
}

fn geo_contours(c: &mut Ctx, g: Geo, data: &[f64], tmin: Option<f64>, tmax: Option<f64>, count: Option<usize>, labels: bool) -> Verdict {
    let rows = data.len() / g.n;
    let what = format!("{g:?}, rows of {data:?}, thresholds {tmin:?}..{tmax:?} x {count:?}");
    let valid: Vec<f64> = data.iter().copied().filter(|v| !v.is_nan()).collect();
    if valid.is_empty() && (tmin.is_none() || tmax.is_none()) {
        return Ok(()); // no level is defined
    }
    let lo = tmin.unwrap_or_else(|| valid.iter().cloned().fold(f64::INFINITY, f64::min));
    let hi = tmax.unwrap_or_else(|| valid.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
    let n = count.unwrap_or(20);
    let thresholds: Vec<f64> = (0..n).map(|i| if n > 1 { lo + (hi - lo) * i as f64 / (n - 1) as f64 } else { lo }).collect();
    let label = labels.then_some(|i: &usize, t: &f64| format!("{i}:{t:.3}"));
    let got = c.run("compute_latlng_gridded_contours", || compute_latlng_gridded_contours(data.to_vec(), g.n, rows, g.start, g.end, g.lat.0, g.lat.1, tmin, tmax, count, label))?;
    let b = bands(&got.map_err(|e| format!("{what}: {e:?}"))?)?;
    let end = if g.global { g.start + 360.0 * (g.end - g.start).signum() } else { g.end };
    bands_ok(&what, &b, &thresholds, (g.start, end, g.lat.0, g.lat.1))?;
    let cols = g.n + g.global as usize;
    for (i, f) in b.iter().enumerate() {
        let t = thresholds[i];
        ensure!(f.label.as_ref().map(|l| l.split(':').next() == Some(&i.to_string())) == labels.then_some(true), "{what}: feature {i} is labelled {:?}", f.label);
        for r in 0..rows {
            for k in 0..cols {
                let v = data[r * g.n + k % g.n];
                if (v - t).abs() < 1e-6 {
                    continue;
                }
                let x = g.start + (end - g.start) * (k as f64 + 0.5) / cols as f64;
                let y = g.lat.0 + (g.lat.1 - g.lat.0) * (r as f64 + 0.5) / rows as f64;
                let reaches = v >= t; // false when missing
                ensure!(inside(&f.rings, x, y) == reaches, "{what}: row {r} column {k} of value {v} is {} the contour {t}", if reaches { "outside" } else { "inside" });
            }
        }
        if g.global {
            // what the contour does at the western edge it does at the eastern
            let edge = |x: f64| -> Vec<i64> {
                let mut v: Vec<i64> = f.rings.iter().flatten().flat_map(|r| r[1..].iter()).filter(|p| (p[0] - x).abs() < 1e-7).map(|p| (p[1] * 1e6).round() as i64).collect();
                v.sort();
                v
            };
            let (a, z) = (edge(g.start), edge(end));
            ensure!(a == z, "{what}: the contour {t} meets the western edge at {a:?} and the eastern at {z:?} (1e-6 degrees)");
        }
    }
    c.compared((b.len() * data.len()) as u64);
    c.state((data.iter().map(|v| v.to_bits()).collect::<Vec<_>>(), format!("{g:?} {tmin:?} {tmax:?} {count:?}")));
    Ok(())
}

const GEO: [Geo; 9] = [
    Geo { n: 4, start: 0.0, end: 270.0, global: true, lat: (-90.0, 90.0) },
    Geo { n: 4, start: -180.0, end: 90.0, global: true, lat: (90.0, -90.0) },
    Geo { n: 4, start: 45.0, end: 315.0, global: true, lat: (60.0, -60.0) },
    Geo { n: 4, start: -135.0, end: 135.0, global: true, lat: (0.0, 10.0) },
    Geo { n: 4, start: 270.0, end: 0.0, global: true, lat: (0.0, 10.0) },
    Geo { n: 4, start: 0.0, end: 360.0, global: false, lat: (0.0, 10.0) },
    Geo { n: 4, start: 260.0, end: 310.0, global: false, lat: (55.0, 0.0) },
    Geo { n: 4, start: -5.0, end: 5.5, global: false, lat: (40.0, 41.0) },
    Geo { n: 4, start: 179.0, end: 182.0, global: false, lat: (-1.0, 1.0) },
];

fn spectral_contours(c: &mut Ctx, f: &[f64], d: &[f64], conv: DirectionConvention, e: &[f64]) -> Verdict {
    let what = format!("spectrum of {f:?} Hz x {d:?} degrees ({conv:?}), {e:?}");
    let s = Spectra::new(f.to_vec(), d.iter().map(|x| x.to_radians()).collect(), e.to_vec(), conv.clone());
    let got = c.run("contoured", || s.contoured())?.map_err(|e| format!("{what}: {e:?}"))?;
    let geojson::GeoJson::FeatureCollection(fc) = got else { return fail(format!("{what}: not a feature collection")) };
    let b = bands(&fc.features)?;
    let max = e.iter().cloned().fold(f64::MIN, f64::max);
    let thresholds: Vec<f64> = (0..10).map(|i| 0.1 + (max - 0.1) * i as f64 / 9.0).collect();
    bands_ok(&what, &b, &thresholds, (1.0 / f[f.len() - 1], 1.0 / f[0], 0.0, 360.0))?;
    // bins inside the contour when the bearings stay clear of north, where the map is continuous
    let bearings: Vec<f64> = d.iter().map(|x| conv.normalize(*x)).collect();
    if bearings.windows(2).all(|w| (w[1] - w[0] - (d[1] - d[0])).abs() < 1e-6) {
        for (i, b) in b.iter().enumerate() {
            for (k, v) in e.iter().enumerate() {
                let (ik, ith) = (k % f.len(), k / f.len());
                // the outermost bins lie on the edge of the picture itself
                if (v - thresholds[i]).abs() < 1e-6 || ik == 0 || ik == f.len() - 1 || ith == 0 || ith == d.len() - 1 {
                    continue;
                }
                let reaches = *v >= thresholds[i];
                ensure!(
                    inside(&b.rings, 1.0 / f[ik], bearings[ith]) == reaches,
                    "{what}: {} s, {} degrees of energy {v} is {} the contour {}", 1.0 / f[ik], bearings[ith], if reaches { "outside" } else { "inside" }, thresholds[i]
                );
            }
        }
    }
    c.compared(b.len() as u64);
    c.state((bits(f), bits(d), bits(e), format!("{conv:?}")));
    Ok(())
}

pub fn c24() -> Prop {
    Prop {
        id: "C24",
        level: "model_checking",
        rule: "every field over small grids; point-in-polygon by the even-odd rule, written here, decides which cell centres a contour holds",
        assumptions: vec![
            "a cell centre is the middle of the cell's share of the mapped extent (the code's mapping)",
            "values are finite or missing (NaN); equal first and last thresholds leave the normalised level undefined",
            "spectra: frequencies above 0",
        ],
        families: vec![
            family("fields", "every field of {0,1,2} on 3x3 and 2x4 and 4x2 (thorough also 3x4 and {0,1} on 4x4); 3 lists of thresholds", |c| {
                let shapes: Vec<(usize, usize, usize)> = c.t(vec![(3, 3, 3), (2, 4, 3), (4, 2, 3)], vec![(3, 3, 3), (2, 4, 3), (4, 2, 3), (3, 4, 3), (4, 4, 2), (5, 2, 3)]);
                let (w, h, values) = c.pick(&shapes);
                let data: Vec<f64> = (0..w * h).map(|_| c.choose(values) as f64).collect();
                for t in [vec![0.5, 1.5], vec![0.25, 1.25, 1.75, 3.0], vec![-1.0, 1.0]] {
                    plain_contours(c, &data, w, h, &t)?;
                }
                c.sample(|| format!("{w} x {h}: {data:?}"));
                Ok(())
            }),
            family("larger_fields", "grids 1..12 x 1..12: 6 shapes, 4 thresholds", |c| {
                let (w, h) = (c.range(1, 12) as usize, c.range(1, 12) as usize);
                let shape = c.choose(6);
                let data: Vec<f64> = (0..w * h)
                    .map(|k| {
                        let (i, j) = (k % w, k / w);
                        match shape {
                            0 => i as f64,
                            1 => j as f64,
                            2 => ((i + j) % 2) as f64 * 2.0,
                            3 => (i * j) as f64 * 0.1,
                            4 => ((i as f64 - 4.0).powi(2) + (j as f64 - 5.0).powi(2)).sqrt(),
                            _ => ((i * 7 + j * 13) % 5) as f64,
                        }
                    })
                    .collect();
                plain_contours(c, &data, w, h, &[0.3, 1.1, 2.7, 9.9])
            }),
            family("geographic", "every 4 x 2 field of {0,1,missing} on 9 grids (5 of them round the globe), 2 kinds of threshold", |c| {
                let g = c.pick(&GEO);
                let data: Vec<f64> = (0..8).map(|_| c.pick(&[0.0, 1.0, f64::NAN])).collect();
                geo_contours(c, g, &data, Some(0.25), Some(0.75), Some(3), true)?;
                geo_contours(c, g, &data, None, None, Some(4), false)
            }),
            family("geographic_scales", "the values at scales 1e-3..1e4 and shifted by -5..+5 of them, missing cells in every place, 3 x 2 and 4 x 3 fields on 9 grids", |c| {
                let g = c.pick(&GEO);
                let scale = c.pick(&[1e-3, 0.1, 10.0, 250.0, 1e4]);
                let shift = c.pick(&[-5.0, -2.0, 0.0, 5.0]);
                let rows = c.range(2, 3) as usize;
                let turn = c.choose(4);
                let hole = c.choose(4 * rows + 1);
                let second = c.pick(&[usize::MAX, 0, 5]);
                let data: Vec<f64> = (0..4 * rows)
                    .map(|k| if k == hole || k == second { f64::NAN } else { scale * ([0.0, 2.0, 1.0, 3.0][(k + k / 4 + turn) % 4] + shift) })
                    .collect();
                geo_contours(c, g, &data, Some(scale * (0.5 + shift)), Some(scale * (2.6 + shift)), Some(3), true)?;
                geo_contours(c, g, &data, None, None, Some(5), false)
            }),
            family("geographic_options", "thresholds given or not, count given or not, labels or not, 3-valued rows on 9 grids", |c| {
                let g = c.pick(&GEO);
                let tmin = c.pick(&[None, Some(0.5), Some(-3.0)]);
                let tmax = c.pick(&[None, Some(1.5), Some(40.0)]);
                let count = c.pick(&[None, Some(1), Some(2), Some(5), Some(7)]);
                let labels = c.flag();
                let rows = c.range(2, 3) as usize;
                let turn = c.choose(4);
                let data: Vec<f64> = (0..4 * rows).map(|k| [0.0, 2.0, 1.0, 3.0][(k + k / 4 + turn) % 4]).collect();
                geo_contours(c, g, &data, tmin, tmax, count, labels)
            }),
            family("many_levels", "1..=70 thresholds and 100, 256 and 300, with and without the range, on a field of 6 x 3 values", |c| {
                let n = match c.range(1, 73) {
                    71 => 100,
                    72 => 256,
                    73 => 300,
                    n => n as usize,
                };
                let data: Vec<f64> = (0..18).map(|k| ((k * 7) % 18) as f64 + 0.37).collect();
                let g = Geo { n: 6, start: 10.0, end: 15.0, global: false, lat: (30.0, 31.0) };
                if c.flag() {
                    geo_contours(c, g, &data, Some(0.1), Some(17.6), Some(n), true)
                } else {
                    geo_contours(c, g, &data, None, None, Some(n), false)
                }
            }),
            family("global_resolutions", "round the globe with 4..1440 columns from 5 origins, cell-centred or not, two bumps; and the same grids written with the first column repeated", |c| {
                let n = c.pick(&[3usize, 5, 8, 12, 16, 24, 36, 72, 90, 120, 144, 180, 240, 288, 360, 480, 720, 1440]);
                let step = 360.0 / n as f64;
                let start = c.pick(&[0.0, -180.0, 20.0, 0.5 * step, -180.0 + 0.5 * step]);
                let repeated = c.flag();
                let cols = n + repeated as usize;
                let mut data = vec![];
                for r in 0..3 {
                    for k in 0..cols {
                        let k = k % n;
                        let near = (k.min(n - k) as f64) / n as f64;
                        data.push(if r == 1 { 3.0 - 6.0 * near } else { 1.0 + near } + 0.01 * r as f64);
                    }
                }
                let g = Geo { n: cols, start, end: start + step * (cols - 1) as f64, global: !repeated, lat: (30.0, -30.0) };
                geo_contours(c, g, &data, Some(0.555), Some(2.222), Some(4), true)
            }),
            family("regional_widths", "2..40 columns of 0.25..20 degrees from 6 origins that do not go round", |c| {
                let n = c.range(2, 40) as usize;
                let step = c.pick(&[0.25, 0.5, 1.0, 2.5, 8.0]);
                let start = c.pick(&[0.0, -180.0, 20.0, 179.5, 359.0, -0.5]);
                let end = start + step * (n - 1) as f64;
                if end - start + step > 340.0 {
                    return Ok(());
                }
                let data: Vec<f64> = (0..2 * n).map(|k| ((k * 5) % 7) as f64).collect();
                geo_contours(c, Geo { n, start, end, global: false, lat: (30.0, 31.0) }, &data, Some(0.5), Some(5.5), Some(3), true)
            }),
            family("spectral", "every 4 x 4 spectrum whose 4 inner bins hold {0,1,3} and whose edge holds {0.2,2}; 3 conventions, bearings clear of north and across it", |c| {
                let conv = c.pick(&CONV);
                let edge = c.pick(&[0.2, 2.0]);
                let d = c.pick(&[vec![100.0, 110.0, 120.0, 130.0], vec![0.0, 90.0, 180.0, 270.0], vec![330.0, 345.0, 0.0, 15.0]]);
                let e: Vec<f64> = (0..16).map(|k| if [5, 6, 9, 10].contains(&k) { c.pick(&[0.0, 1.0, 3.0]) } else { edge }).collect();
                spectral_contours(c, &[0.05, 0.08, 0.1, 0.2], &d, conv, &e)
            }),
            family("spectral_peaks", "one peak at every bin of 5..8 frequencies x 5..36 directions, heights 0.05..100", |c| {
                let conv = c.pick(&CONV);
                let (w, h) = (c.range(5, 8) as usize, c.pick(&[5usize, 8, 12, 36]));
                let f = geometric(0.04, 1.2, w);
                let d: Vec<f64> = (0..h).map(|i| 100.0 + i as f64 * 2.0).collect();
                let peak = c.choose(w * h);
                let height = c.pick(&[0.05, 0.5, 100.0]);
                let mut e = vec![0.0; w * h];
                e[peak] = height;
                spectral_contours(c, &f, &d, conv, &e)
            }),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// C25

fn buoy_ok(c: &mut Ctx, d: &[f64], rows: &[[f64; 5]]) -> Verdict {
    let what = format!("{} directions from {:?}, (E, a1, a2, r1, r2) {rows:?}", d.len(), d.first());
    let n = rows.len();
    let f: Vec<f64> = (0..n).map(|i| 0.03 + 0.01 * i as f64).collect();
    let rad: Vec<f64> = d.iter().map(|x| x.to_radians()).collect();
    let col = |k: usize| -> Vec<f64> { rows.iter().map(|r| r[k]).collect() };
    let (e, a1, a2, r1, r2) = (col(0), col(1), col(2), col(3), col(4));
    let date = Utc.with_ymd_and_hms(2024, 2, 29, 23, 40, 0).unwrap();
    let got = c.run("DirectionalSpectralWaveDataRecord::new", || DirectionalSpectralWaveDataRecord::new(&date, &rad, &f, &e, &a1, &a2, &r1, &r2))?;
    // the five measurements as records of their own (their own dates differ)
    let rec = |k: i64, v: &[f64], f: &[f64]| SpectralWaveDataRecord { date: date + Duration::hours(k), value: v.to_vec(), frequency: f.to_vec(), separation_frequency: None };
    let other: Vec<f64> = f.iter().map(|x| x + 0.5).collect();
    let of_records = c.run("from_data_records", || {
        DirectionalSpectralWaveDataRecord::from_data_records(&rad, rec(0, &e, &f), rec(1, &a1, &other), rec(2, &a2, &other), rec(3, &r1, &other), rec(4, &r2, &other))
    })?;
    for (g, how) in [(&got, "new"), (&of_records, "from_data_records")] {
        let s = &g.spectra;
        ensure!(g.date == date, "{what}: {how}: dated {}", g.date);
        ensure!(bits(&s.frequency) == bits(&f) && bits(&s.direction_raw()) == bits(&rad), "{what}: {how}: axes {:?} {:?}", s.frequency, s.direction_raw());
        ensure!(matches!(s.dir_convention, DirectionConvention::From), "{what}: {how}: {:?}", s.dir_convention);
        ensure!(s.energy.len() == n * d.len(), "{what}: {how}: {} bins", s.energy.len());
        for (ik, r) in rows.iter().enumerate() {
            let missing = (r[0] - 999.9).abs() < 1e-6 || r[1..].iter().any(|v| (v - 999.0).abs() < 1e-6);
            let mut clipped = false;
            let (mut total, mut cx, mut cy) = (0.0, 0.0, 0.0);
            for (ith, a) in d.iter().enumerate() {
                let v = s.energy[ik + ith * n];
                let want = r[0] / PI * (0.5 + r[3] * (a - r[1]).to_radians().cos() + r[4] * (2.0 * (a - r[2])).to_radians().cos());
                clipped |= want < 0.0;
                let want = if missing { 0.0 } else { want.max(0.0) };
                ensure!(close(v, want, 1e-9 * (1.0 + r[0].abs()), 1e-9), "{what}: {how}: frequency {ik}, {a} degrees: {v} instead of {want}");
                ensure!(v >= 0.0, "{what}: {how}: frequency {ik}, {a} degrees: {v}");
                total += v * 2.0 * PI / d.len() as f64;
                cx += v * a.to_radians().cos();
                cy += v * a.to_radians().sin();
            }
            let uniform = d.windows(2).all(|w| (w[1] - w[0] - 360.0 / d.len() as f64).abs() < 1e-6);
            if !missing && !clipped && uniform && d.len() >= 3 {
                ensure!(close(total, r[0], 1e-8, 1e-8), "{what}: {how}: frequency {ik}: integrates to {total}");
                if d.len() >= 4 && r[0] > 0.0 && r[3] > 0.01 {
                    let mean = cy.atan2(cx).to_degrees();
                    ensure!(circ(mean, r[1]) < 1e-4, "{what}: {how}: frequency {ik}: mean direction {mean}");
                }
            }
        }
    }
    c.compared(2 * (n * d.len()) as u64);
    c.state((bits(d), rows.iter().flat_map(|r| bits(r)).collect::<Vec<_>>()));
    Ok(())
}

pub fn c25() -> Prop {
    Prop {
        id: "C25",
        level: "model_checking",
        rule: "every combination of measured values and missing codes; the formula, the integral and the mean are evaluated here in degrees",
        assumptions: vec!["the five measurements cover the same frequencies", "missing is 999.9 for energy and 999.0 for the others, as in the feeds", "uniform full circle of at least 3 (integral) or 4 (mean) directions"],
        families: vec![
            family("formula", "one frequency: 3 energies x 5 x 4 directions x 4 x 5 coefficients, 9 direction grids", |c| {
                let n = c.pick(&[1usize, 2, 3, 4, 5, 8, 24, 36, 72]);
                let origin = c.pick(&[0.0, 5.0]);
                let d: Vec<f64> = (0..n).map(|i| origin + 360.0 * i as f64 / n as f64).collect();
                let r = [c.pick(&[0.0, 1.0, 57.3]), c.pick(&[0.0, 90.0, 200.0, 359.0, 360.0]), c.pick(&[0.0, 45.0, 180.0, 301.0]), c.pick(&[0.0, 0.2, 0.9, 1.0]), c.pick(&[0.0, 0.1, 0.25, 0.8, -0.2])];
                buoy_ok(c, &d, &[r])?;
                c.sample(|| format!("{n} directions from {origin}: {r:?}"));
                Ok(())
            }),
            family("missing", "3 frequencies, any subset of the 5 measurements of each missing, 12 directions", |c| {
                let d: Vec<f64> = (0..12).map(|i| 30.0 * i as f64).collect();
                let mut rows = vec![];
                for k in 0..3 {
                    let mut r = [1.0 + k as f64, 40.0 + 100.0 * k as f64, 60.0 + 90.0 * k as f64, 0.3, 0.1];
                    let gone = c.choose(32);
                    for (i, code) in [999.9, 999.0, 999.0, 999.0, 999.0].into_iter().enumerate() {
                        if gone >> i & 1 == 1 {
                            r[i] = code;
                        }
                    }
                    rows.push(r);
                }
                buoy_ok(c, &d, &rows)
            }),
            family("near_codes", "one measurement at 999.0, 999.9, 998.9 or 99.9 in a place where that is or is not its missing code", |c| {
                let d: Vec<f64> = (0..8).map(|i| 45.0 * i as f64).collect();
                let mut r = [[2.0, 40.0, 60.0, 0.3, 0.1], [3.0, 140.0, 160.0, 0.2, 0.2]];
                let at = c.choose(5);
                let which = c.choose(2);
                r[which][at] = c.pick(&[999.0, 999.9, 998.9, 99.9, 0.0, 1000.0]);
                buoy_ok(c, &d, &r)
            }),
            family("sizes", "1..64 and 100, 200 frequencies, every tenth missing, 2..720 directions, ordered or not", |c| {
                let n = match c.range(1, 66) {
                    65 => 100,
                    66 => 200,
                    n => n as usize,
                };
                let m = c.pick(&[2usize, 3, 16, 36, 72, 90, 144, 360, 720]);
                let order = c.choose(3);
                let mut d: Vec<f64> = (0..m).map(|i| 360.0 * i as f64 / m as f64).collect();
                match order {
                    1 => d.reverse(),
                    2 => d.rotate_left(1),
                    _ => {}
                }
                let rows: Vec<[f64; 5]> = (0..n)
                    .map(|i| {
                        let e = if i % 10 == 9 { 999.9 } else { 0.1 + ((i * 7) % 13) as f64 };
                        [e, ((i * 37) % 360) as f64, ((i * 53) % 360) as f64, (i % 5) as f64 * 0.1, (i % 3) as f64 * 0.04]
                    })
                    .collect();
                buoy_ok(c, &d, &rows)
            }),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// C28

fn data_in(c: &mut Ctx, n: usize, values: &[f64]) -> Vec<f64> {
    (0..n).map(|_| c.pick(values)).collect()
}

/// The alternating extremes of a sequence by definition: an extreme is taken once the data has moved
/// away from it by more than delta.
fn peaks_by_definition(data: &[f64], delta: f64) -> (Vec<usize>, Vec<usize>) {
    let (mut lows, mut highs) = (vec![], vec![]);
    let mut from = 0; // where the current search began
    let mut up = true;
    loop {
        // the first place from which the data has moved away
        let turn = (from..data.len()).find(|i| {
            let seen = &data[from..=*i];
            let best = seen.iter().cloned().fold(if up { f64::MIN } else { f64::MAX }, if up { f64::max } else { f64::min });
            if up { data[*i] < best - delta } else { data[*i] > best + delta }
        });
        let Some(t) = turn else { return (lows, highs) };
        let seen = &data[from..t];
        let best = (0..seen.len()).fold(0, |b, i| if up && seen[i] > seen[b] || !up && seen[i] < seen[b] { i } else { b });
        if up { highs.push(from + best) } else { lows.push(from + best) }
        from = t;
        up = !up;
    }
}

pub fn c28() -> Prop {
    Prop {
        id: "C28",
        level: "model_checking",
        rule: "every operation sequence against a queue of the expected elements; every small vector against the definition",
        assumptions: vec!["differences need at least 2 values, ordering needs comparable values, packing a non-empty range"],
        families: vec![
            family("spaced_histories", "every sequence of 10 (thorough 13) takes from front or back over 0..9 (12) elements, 3 ranges", |c| {
                let n = c.choose(c.t(10, 13));
                let (a, b) = c.pick(&[(0.0, 1.0), (5.0, -3.0), (2.0, 2.0)]);
                let ops = c.t(10, 13);
                let mut it = linspace::<f64>(a, b, n);
                let mut model: VecDeque<f64> = (0..n).map(|i| if n > 1 { a + (b - a) * i as f64 / (n - 1) as f64 } else { a }).collect();
                let mut history = String::new();
                for _ in 0..ops.min(n + 2) {
                    let front = c.flag();
                    history.push(if front { 'f' } else { 'b' });
                    let (len, hint) = c.run("len", || (it.len(), it.size_hint()))?;
                    ensure!(len == model.len() && hint == (len, Some(len)), "{a}..{b} x {n} after {history}: length {len}, hint {hint:?}, expected {}", model.len());
                    let got = c.run("next", || if front { it.next() } else { it.next_back() })?;
                    let want = if front { model.pop_front() } else { model.pop_back() };
                    match (got, want) {
                        (None, None) => {}
                        (Some(g), Some(w)) => ensure!(close(g, w, 1e-12, 1e-12), "{a}..{b} x {n} after {history}: {g} instead of {w}"),
                        (g, w) => return fail(format!("{a}..{b} x {n} after {history}: {g:?} instead of {w:?}")),
                    }
                }
                let rest = c.run("collect", || it.clone().collect::<Vec<f64>>())?;
                ensure!(rest.len() == model.len() && rest.iter().zip(&model).all(|(x, y)| close(*x, *y, 1e-12, 1e-12)), "{a}..{b} x {n} after {history}: left {rest:?}");
                let back = c.run("rev", || it.rev().collect::<Vec<f64>>())?;
                ensure!(back.iter().rev().map(|x| x.to_bits()).eq(rest.iter().map(|x| x.to_bits())), "{a}..{b} x {n} after {history}: backwards {back:?}, forwards {rest:?}");
                c.compared(ops as u64);
                c.state((history, n, a.to_bits()));
                Ok(())
            }),
            family("skips", "every sequence of 4 (thorough 5) of: next, nth of 0..3 and 20, from the front or the back, over 0..7 elements; then the last, the count, every second of the rest", |c| {
                let n = c.choose(8);
                let mut it = linspace::<f64>(2.0, -1.0, n);
                let mut model: VecDeque<f64> = (0..n).map(|i| if n > 1 { 2.0 - 3.0 * i as f64 / (n - 1) as f64 } else { 2.0 }).collect();
                let mut history = vec![];
                for _ in 0..c.t(4, 5) {
                    let front = c.flag();
                    let skip = c.pick(&[0usize, 1, 2, 3, 20]);
                    history.push((front, skip));
                    let got = c.run("nth", || if front { it.nth(skip) } else { it.nth_back(skip) })?;
                    let mut want = None;
                    for _ in 0..=skip {
                        want = if front { model.pop_front() } else { model.pop_back() };
                    }
                    ensure!(got.is_some() == want.is_some() && got.zip(want).is_none_or(|(g, w)| close(g, w, 1e-12, 1e-12)), "2..-1 x {n} after (from the front, skipping) {history:?}: {got:?} instead of {want:?}");
                    let len = c.run("len", || (it.len(), it.size_hint()))?;
                    ensure!(len == (model.len(), (model.len(), Some(model.len()))), "2..-1 x {n} after {history:?}: {len:?} left instead of {}", model.len());
                }
                let (rest, last, count, second, behind) = c.run("the rest", || (it.clone().collect::<Vec<_>>(), it.clone().last(), it.clone().count(), it.clone().step_by(2).collect::<Vec<_>>(), it.clone().skip(1).rev().collect::<Vec<_>>()))?;
                let want: Vec<f64> = model.into_iter().collect();
                let same = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y, 1e-12, 1e-12));
                ensure!(same(&rest, &want) && count == want.len() && last.map(f64::to_bits) == rest.last().map(|x| x.to_bits()), "2..-1 x {n} after {history:?}: {count} left, {rest:?}, the last {last:?}");
                ensure!(same(&second, &want.iter().step_by(2).copied().collect::<Vec<_>>()), "2..-1 x {n} after {history:?}: every second of {want:?} is {second:?}");
                ensure!(same(&behind, &want.iter().skip(1).rev().copied().collect::<Vec<_>>()), "2..-1 x {n} after {history:?}: {want:?} without the first and backwards is {behind:?}");
                c.compared(history.len() as u64 + 4);
                c.state((n, history));
                Ok(())
            }),
            family("spaced_ends", "every length 0..300 (thorough 0..3000), 6 ranges, both float types", |c| {
                let n = c.choose(c.t(301, 3001));
                for (a, b) in [(0.0, 1.0), (-1.0, 1.0), (10.0, 0.1), (1e6, 1e6 + 1.0), (0.1, 100.0), (3.0, 3.0)] {
                    let v: Vec<f64> = c.run("linspace", || linspace(a, b, n).collect())?;
                    let w: Vec<f32> = c.run("linspace", || linspace(a as f32, b as f32, n).collect())?;
                    ensure!(v.len() == n && w.len() == n, "{a}..{b} x {n}: {} elements", v.len());
                    for (i, x) in v.iter().enumerate() {
                        let want = if n > 1 { a + (b - a) * (i as f64 / (n - 1) as f64) } else { a };
                        ensure!(close(*x, want, 1e-9, 1e-12), "{a}..{b} x {n}: element {i} is {x} instead of {want}");
                        ensure!(close(w[i] as f64, want, 1e-4, 1e-5), "{a}..{b} x {n} (f32): element {i} is {} instead of {want}", w[i]);
                    }
                }
                c.state(n);
                Ok(())
            }),
            family("order", "every vector of up to 6 (thorough 8) values out of {0,1,2,-1}, as integers and floats", |c| {
                let n = c.choose(c.t(7, 9));
                let data = data_in(c, n, &[0.0, 1.0, 2.0, -1.0]);
                let ints: Vec<i64> = data.iter().map(|x| *x as i64).collect();
                let a = c.run("argsort", || argsort(&ints))?;
                let b = c.run("argsort_partial", || argsort_partial(&data))?;
                let mut want: Vec<usize> = vec![];
                for v in [-1, 0, 1, 2] {
                    want.extend((0..n).filter(|i| ints[*i] == v));
                }
                ensure!(a == want, "argsort of {ints:?}: {a:?} instead of {want:?}");
                ensure!(b == want, "argsort_partial of {data:?}: {b:?} instead of {want:?}");
                if n >= 2 {
                    let di = c.run("diff", || diff(&ints))?;
                    let df = c.run("diff", || diff(&data))?;
                    let da = c.run("diff_abs", || diff_abs(&data))?;
                    ensure!(di.len() == n && df.len() == n && da.len() == n, "differences of {data:?}: {di:?} {df:?} {da:?}");
                    ensure!(di[0] == di[1] && df[0] == df[1], "differences of {data:?} begin {df:?}");
                    for i in 0..n {
                        let k = i.max(1);
                        ensure!(di[i] == ints[k] - ints[k - 1] && df[i] == data[k] - data[k - 1] && da[i] == df[i].abs(), "differences of {data:?}: {di:?} {df:?} {da:?}");
                    }
                }
                c.compared(2);
                c.state(ints);
                Ok(())
            }),
            family("long_order", "2..300 values: ascending, descending, equal and scrambled with ties", |c| {
                let n = c.range(2, 300) as usize;
                let shape = c.choose(4);
                let data: Vec<i64> = (0..n as i64).map(|i| match shape { 0 => i, 1 => -i, 2 => 7, _ => (i * 37) % 19 }).collect();
                let floats: Vec<f64> = data.iter().map(|x| *x as f64 * 0.5).collect();
                let mut want: Vec<usize> = (0..n).collect();
                // insertion by comparison with everything before it
                want.sort_by_key(|i| (data[*i], *i));
                let (a, b) = (c.run("argsort", || argsort(&data))?, c.run("argsort_partial", || argsort_partial(&floats))?);
                ensure!(a == want && b == want, "ordering {n} values of kind {shape}: {a:?} {b:?}");
                let d = c.run("diff", || diff(&data))?;
                let mut x = data[0];
                for i in 1..n {
                    x += d[i];
                    ensure!(x == data[i], "differences of {data:?} do not add up at {i}");
                }
                c.state((n, shape));
                Ok(())
            }),
            family("packing", "every count of steps 1..255, 5 ranges, values on a grid of 101 across the range and 600 beyond it", |c| {
                let count = c.range(1, 255) as u8;
                let (lo, hi) = c.pick(&[(0.0, 5.0), (-3.0, 3.0), (10.0, 1000.0), (0.0, 255.0), (-0.2, -0.1)]);
                let data: Vec<f64> = (0..=100).map(|i| if i == 100 { hi } else { lo + (hi - lo) * i as f64 / 100.0 }).collect();
                let packed = c.run("bin", || bin(&data, &lo, &hi, &count))?;
                let back = c.run("unbin", || unbin(&packed, &lo, &hi, &count))?;
                ensure!(packed.len() == 101 && back.len() == 101, "packing loses values");
                let step = (hi - lo) / count as f64;
                for i in 0..101 {
                    ensure!((back[i] - data[i]).abs() <= step * (1.0 + 1e-9), "{} packed in {count} steps of {lo}..{hi} comes back as {}", data[i], back[i]);
                    ensure!(packed[i] <= count, "{} packed in {count} steps of {lo}..{hi} is {}", data[i], packed[i]);
                    ensure!(i == 0 || (packed[i - 1] <= packed[i] && back[i - 1] <= back[i]), "packing in {count} steps of {lo}..{hi} reverses {} and {}", data[i - 1], data[i]);
                }
                ensure!(packed[0] == 0 && packed[100] == count, "the ends of {lo}..{hi} are packed as {} and {}", packed[0], packed[100]);
                let all: Vec<u8> = (0..=count).collect();
                let values = c.run("unbin", || unbin(&all, &lo, &hi, &count))?;
                for (k, v) in values.iter().enumerate() {
                    ensure!(close(*v, lo + step * k as f64, 1e-9, 1e-9), "step {k} of {count} in {lo}..{hi} is {v}");
                }
                let wide: Vec<f64> = (-300..=400).map(|i| lo + (hi - lo) * i as f64 / 100.0).collect();
                let packed = c.run("bin", || bin(&wide, &lo, &hi, &count))?;
                ensure!(packed.len() == wide.len() && packed.windows(2).all(|p| p[0] <= p[1]), "packing in {count} steps of {lo}..{hi} reverses values outside of it: {packed:?}");
                c.compared(101);
                c.state((count, lo.to_bits()));
                Ok(())
            }),
            family("extremes", "every vector of up to 6 (thorough 8) values out of {0,1,-5,missing}, alone or before an infinite one", |c| {
                let n = c.choose(c.t(7, 9));
                let endless = c.pick(&[None, Some(f64::INFINITY), Some(f64::NEG_INFINITY)]);
                let data: Vec<f64> = data_in(c, n, &[0.0, 1.0, -5.0, f64::NAN]).into_iter().chain(endless).collect();
                let n = data.len();
                let valid: Vec<f64> = data.iter().copied().filter(|v| !v.is_nan()).collect();
                let want = (valid.iter().cloned().fold(f64::INFINITY, f64::min), valid.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
                let got = c.run("min_max", || min_max(&data))?;
                ensure!(got == want, "extremes of {data:?}: {got:?} instead of {want:?}");
                for fill in [-99999.0, 0.5, 7.0] {
                    let mut filled = data.clone();
                    let got = c.run("min_max_fill", || min_max_fill(&mut filled, fill))?;
                    ensure!(got == want, "extremes of {data:?} while filling with {fill}: {got:?} instead of {want:?}");
                    for i in 0..n {
                        let w = if data[i].is_nan() { fill } else { data[i] };
                        ensure!(filled[i] == w, "{data:?} filled with {fill}: {filled:?}");
                    }
                }
                c.compared(4);
                c.state(bits(&data));
                Ok(())
            }),
            family("peaks", "every sequence of up to 7 (thorough 9) values out of {0,1,2,4}, 4 deltas", |c| {
                let n = c.choose(c.t(8, 10));
                let data = data_in(c, n, &[0.0, 1.0, 2.0, 4.0]);
                for delta in [0.0, 0.5, 1.0, 2.5] {
                    let (lows, highs) = c.run("detect_peaks", || detect_peaks(&data, delta))?;
                    let want = peaks_by_definition(&data, delta);
                    ensure!((&lows, &highs) == (&want.0, &want.1), "peaks of {data:?} by {delta}: lows {lows:?} highs {highs:?}, expected {want:?}");
                }
                c.compared(4);
                c.state(bits(&data));
                Ok(())
            }),
            family("wind", "every bearing 0..359.75 in quarters x 5 speeds, and the axes", |c| {
                let quarter = c.choose(1440);
                let bearing = quarter as f64 * 0.25;
                for speed in [0.1, 1.0, 7.3, 50.0, 1e4] {
                    // a wind coming from the bearing blows the other way
                    let (u, v) = (-speed * bearing.to_radians().sin(), -speed * bearing.to_radians().cos());
                    let (s, a) = c.run("scalar_from_uv", || scalar_from_uv(u, v))?;
                    ensure!(close(s, speed, 1e-9, 1e-9), "u {u} v {v}: speed {s}");
                    ensure!((0..360).contains(&a), "u {u} v {v}: from {a}");
                    ensure!(circ(a as f64, bearing) <= 1.0 + 1e-9, "u {u} v {v}: from {a} instead of {bearing}");
                    let (u2, v2) = (-s * (a as f64).to_radians().sin(), -s * (a as f64).to_radians().cos());
                    ensure!((u - u2).hypot(v - v2) <= speed * 1.01f64.to_radians(), "u {u} v {v} recombine to {u2} {v2}");
                }
                let (s, a) = c.run("scalar_from_uv", || scalar_from_uv(0.0, 0.0))?;
                ensure!(s == 0.0 && (0..360).contains(&a), "no wind: {s} from {a}");
                c.compared(5);
                c.state(quarter);
                Ok(())
            }),
            family("missing_codes", "values at 0, 1e-6, 1e-4, 0.1 and 10 either side of 6 codes", |c| {
                let code = c.pick(&[999.0, 99.0, 9999.0, 999.9, 0.0, -32768.0]);
                let off = c.pick(&[0.0, 1e-6, -1e-6, 1e-4, -1e-4, 0.1, -0.1, 10.0, -10.0]);
                let v: f64 = code + off;
                let same = off.abs() < 1e-5;
                ensure!(c.run("f_eq", || f_eq(v, code))? == same, "{v} and {code}");
                ensure!(c.run("f_eq", || f_eq(code, v))? == same, "{code} and {v}");
                let m = c.run("is_some_missing", || is_some_missing(v, code))?;
                ensure!(m == (!same).then_some(v), "{v} with the code {code}: {m:?}");
                c.state((v.to_bits(), code.to_bits()));
                Ok(())
            }),
            family("linear", "corner values {0,1,-2,5} x fractions of 0..1 in eighths, 3 boxes", |c| {
                let v: Vec<f64> = (0..4).map(|_| c.pick(&[0.0, 1.0, -2.0, 5.0])).collect();
                let (x0, x1, y0, y1) = c.pick(&[(0.0, 1.0, 0.0, 1.0), (-3.0, 5.0, 10.0, 12.0), (0.1, 0.2, 6.0, 3.0)]);
                for i in 0..=8 {
                    let fx = i as f64 / 8.0;
                    let x = x0 + (x1 - x0) * fx;
                    let l = c.run("lerp", || lerp(&v[0], &v[1], &x, &x0, &x1))?;
                    ensure!(close(l, v[0] + (v[1] - v[0]) * fx, 1e-9, 1e-9), "between {} and {} at {fx}: {l}", v[0], v[1]);
                    for j in 0..=8 {
                        let fy = j as f64 / 8.0;
                        let y = y0 + (y1 - y0) * fy;
                        let b = c.run("bilerp", || bilerp(&v[0], &v[1], &v[2], &v[3], &x, &x0, &x1, &y, &y0, &y1))?;
                        let lo = v[0] + (v[1] - v[0]) * fx;
                        let hi = v[2] + (v[3] - v[2]) * fx;
                        ensure!(close(b, lo + (hi - lo) * fy, 1e-9, 1e-9), "corners {v:?} at {fx} {fy}: {b}");
                    }
                }
                c.compared(90);
                c.state(bits(&v));
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// C30

/// Sunrise and sunset in minutes after 0 UTC of the date (NOAA's formulas), or the cosine that shows
/// that the sun stays up or down; `higher` moves the sun north by so many degrees.
fn sun(lat: f64, lon: f64, date: chrono::NaiveDate, higher: f64) -> Result<(f64, f64), f64> {
    let days = (date - chrono::NaiveDate::from_ymd_opt(2000, 1, 1).unwrap()).num_days() as f64 - lon / 360.0;
    let t = days / 36525.0;
    let r = PI / 180.0;
    let l0 = (280.46646 + 36000.76983 * t) * r;
    let m = (357.52911 + 35999.05029 * t) * r;
    let ecc = 0.016708634 - 0.000042037 * t;
    let centre = (1.914602 - 0.004817 * t) * m.sin() + 0.019993 * (2.0 * m).sin() + 0.000289 * (3.0 * m).sin();
    let omega = (125.04 - 1934.136 * t) * r;
    let lambda = l0 + (centre - 0.00569 - 0.00478 * omega.sin()) * r;
    let eps = (23.439291 - 0.0130042 * t + 0.00256 * omega.cos()) * r;
    let dec = (eps.sin() * lambda.sin()).asin() + higher * r;
    let y = (eps / 2.0).tan().powi(2);
    let eot = 4.0 / r * (y * (2.0 * l0).sin() - 2.0 * ecc * m.sin() + 4.0 * ecc * y * m.sin() * (2.0 * l0).cos() - 0.5 * y * y * (4.0 * l0).sin() - 1.25 * ecc * ecc * (2.0 * m).sin());
    let cos_h = ((90.833 * r).cos() - (lat * r).sin() * dec.sin()) / ((lat * r).cos() * dec.cos());
    if !(cos_h.abs() <= 1.0) {
        return Err(cos_h);
    }
    let h = cos_h.acos() / r;
    let noon = 720.0 - 4.0 * lon - eot;
    Ok((noon - 4.0 * h, noon + 4.0 * h))
}

fn sun_ok(c: &mut Ctx, lat: f64, lon: f64, date: chrono::DateTime<Utc>) -> Result<Option<f64>, Fail> {
    let what = || format!("{lat} {lon} on {date}");
    let got = c.run("calculate_solar_events", || calculate_solar_events(&Location::new(lat, lon, "x".into()), &date))?;
    let day0 = date.date_naive().and_hms_opt(0, 0, 0).unwrap().and_utc();
    // so close to the polar day or night, in degrees of the sun's height, either answer is right
    let near = if lat.abs() <= 70.0 { 0.15 } else { 0.3 };
    let (low, high) = (sun(lat, lon, date.date_naive(), -near * lat.signum()), sun(lat, lon, date.date_naive(), near * lat.signum()));
    let Some(e) = got else {
        return match (low, high) {
            (Ok((a, b)), Ok(_)) => fail(format!("{}: no sunrise, expected about {a:.0} to {b:.0} minutes", what())),
            _ => Ok(None),
        };
    };
    let (a, b) = ((e.sunrise - day0).num_seconds() as f64 / 60.0, (e.sunset - day0).num_seconds() as f64 / 60.0);
    ensure!(a < b && b - a < 1440.0, "{}: sunrise {} sunset {}", what(), e.sunrise, e.sunset);
    let noon = 720.0 - 4.0 * lon;
    ensure!((a - noon).abs() <= 760.0 && (b - noon).abs() <= 760.0, "{}: sunrise {} sunset {}, solar noon {noon} minutes after 0 UTC", what(), e.sunrise, e.sunset);
    if lat.abs() <= 62.0 {
        let (x, y) = sun(lat, lon, date.date_naive(), 0.0).map_err(|_| format!("{}: harness", what()))?;
        ensure!((a - x).abs() <= 10.0 && (b - y).abs() <= 10.0, "{}: sunrise {} sunset {}, expected {x:.1} and {y:.1} minutes after 0 UTC", what(), e.sunrise, e.sunset);
    } else if let (Ok((a0, b0)), Ok((a1, b1))) = (low, high) {
        // sunrise lies between those of a slightly higher and a slightly lower sun, and so does sunset
        ensure!(a >= a1 - 10.0 && a <= a0 + 10.0 && b >= b0 - 10.0 && b <= b1 + 10.0, "{}: sunrise {} sunset {}, expected {a1:.0} to {a0:.0} and {b0:.0} to {b1:.0} minutes after 0 UTC", what(), e.sunrise, e.sunset);
    } else if let (Err(_), Err(_)) = (low, high) {
        return fail(format!("{}: the sun does not rise or set, reported {} and {}", what(), e.sunrise, e.sunset));
    }
    c.compared(2);
    c.state((lat.to_bits(), lon.to_bits(), date.timestamp()));
    Ok(Some(b - a))
}

pub fn c30() -> Prop {
    Prop {
        id: "C30",
        level: "model_checking",
        rule: "every day at every place of a lattice against NOAA's published solar formulas, written here (10 minutes allowed; astronomical accuracy is not at issue)",
        assumptions: vec!["the given date is the UTC date of the time passed in, and its solar day is the one whose noon is 12 h UTC minus 4 minutes per degree east"],
        families: vec![
            family("days", "every day of 2023 and 2024 (thorough 1999..2030) at 13 latitudes x 9 longitudes, first and last second of the day", |c| {
                let years: Vec<i32> = c.t(vec![2023, 2024], (1999..=2030).collect());
                let year = c.pick(&years);
                let lat = c.pick(&[-60.0, -45.0, -23.44, -10.0, 0.0, 5.0, 23.44, 33.0, 41.6, 50.0, 55.0, 60.0, -1.0]);
                let lon = c.pick(&[-180.0, -179.9, -120.0, -71.5, 0.0, 0.1, 90.0, 151.0, 180.0]);
                let n = if year % 4 == 0 { 366 } else { 365 };
                let mut lengths = vec![];
                for d in 0..n {
                    let day = Utc.with_ymd_and_hms(year, 1, 1, 0, 0, 0).unwrap() + Duration::days(d);
                    let a = sun_ok(c, lat, lon, day)?;
                    let b = sun_ok(c, lat, lon, day + Duration::seconds(86399))?;
                    ensure!(a == b && a.is_some(), "{lat} {lon} on {day}: {a:?} minutes of day at its start, {b:?} at its end");
                    lengths.push(a.unwrap());
                }
                if lat.abs() >= 10.0 {
                    let longest = (0..lengths.len()).max_by(|a, b| lengths[*a].total_cmp(&lengths[*b])).unwrap() as i64;
                    let day = Utc.with_ymd_and_hms(year, 1, 1, 0, 0, 0).unwrap() + Duration::days(longest);
                    let solstice = Utc.with_ymd_and_hms(year, if lat > 0.0 { 6 } else { 12 }, 21, 0, 0, 0).unwrap();
                    ensure!((day - solstice).num_days().abs() <= 6, "{lat} {lon}: the longest day of {year} is {day}");
                }
                c.sample(|| format!("{year} at {lat} {lon}"));
                Ok(())
            }),
            family("hemispheres", "day length at 6 latitudes against the other hemisphere half a year later, every day", |c| {
                let lat = c.pick(&[0.0, 10.0, 23.44, 35.0, 45.0, 55.0]);
                let lon = c.pick(&[-71.5, 0.0, 151.0]);
                let d = c.choose(366) as i64;
                let day = Utc.with_ymd_and_hms(2024, 1, 1, 12, 0, 0).unwrap() + Duration::days(d);
                let (a, b) = (sun_ok(c, lat, lon, day)?, sun_ok(c, -lat, lon, day + Duration::days(183))?);
                let (Some(a), Some(b)) = (a, b) else { return fail(format!("{lat} {lon} on {day}: no day")) };
                ensure!((a - b).abs() < 40.0, "{lat} {lon} on {day}: {a} minutes, {b} in the other hemisphere half a year later");
                Ok(())
            }),
            family("polar", "every third (thorough: every) day at latitudes 61..90 north and south: absent when the sun stays up or down", |c| {
                let lats: Vec<f64> = c.t(vec![61.0, 64.0, 65.0, 66.0, 66.6, 67.0, 68.5, 70.0, 75.0, 80.0, 85.0, 89.0, 89.99, 90.0], (122..=180).map(|l| l as f64 / 2.0).collect());
                let lat = c.pick(&lats) * c.pick(&[1.0, -1.0]);
                let lon = c.pick(&[0.0, -71.5, 180.0]);
                let d = c.t(3, 1) * c.choose(c.t(122, 366)) as i64;
                let year = c.pick(&[1969, 2024]);
                sun_ok(c, lat, lon, Utc.with_ymd_and_hms(year, 1, 1, 6, 0, 0).unwrap() + Duration::days(d))?;
                Ok(())
            }),
            family("edges", "the last latitude with a sunrise, found by bisection for every fifth (thorough: every) day, both hemispheres and 3 longitudes: the day or the night there lasts no more than minutes", |c| {
                let sign = c.pick(&[1.0, -1.0]);
                let lon = c.pick(&[0.0, -71.5, 151.0]);
                let d = c.t(5, 1) * c.choose(c.t(73, 366)) as i64;
                let day = Utc.with_ymd_and_hms(2024, 1, 1, 12, 0, 0).unwrap() + Duration::days(d);
                let at = |c: &mut Ctx, lat: f64| c.run("calculate_solar_events", || calculate_solar_events(&Location::new(sign * lat, lon, "x".into()), &day).map(|e| (e.sunset - e.sunrise).num_seconds() as f64 / 60.0));
                let (mut with, mut without) = (60.0, 89.9);
                if at(c, with)?.is_none() || at(c, without)?.is_some() {
                    return Ok(()); // near the equinoxes the sun rises almost up to the pole
                }
                while without - with > 1e-6 {
                    let mid = 0.5 * (with + without);
                    *(if at(c, mid)?.is_some() { &mut with } else { &mut without }) = mid;
                }
                let minutes = at(c, with)?.unwrap();
                c.compared(1);
                ensure!(minutes < 5.0 || minutes > 1435.0, "{day} at {lon}: {minutes} minutes of day at {}, none at all at {}", sign * with, sign * without);
                c.state((sign.to_bits(), lon.to_bits(), d));
                Ok(())
            }),
            family("notation", "13 longitudes written east and west, 8 latitudes from either notation, every tenth day", |c| {
                let lon = c.pick(&[-179.5, -150.0, -71.5, -10.0, -0.25]);
                let lat = c.pick(&[-60.0, -41.0, -5.0, 35.0]);
                let d = 10 * c.choose(37) as i64;
                let day = Utc.with_ymd_and_hms(2023, 1, 1, 18, 30, 0).unwrap() + Duration::days(d);
                let at = |c: &mut Ctx, lat: f64, lon: f64| c.run("calculate_solar_events", || calculate_solar_events(&Location::new(lat, lon, "x".into()), &day).map(|e| (e.sunrise, e.sunset)));
                let a = at(c, lat, lon)?;
                let b = at(c, lat, lon + 360.0)?;
                ensure!(a.is_some() && a == b, "{lat} on {day}: {a:?} at {lon}, {b:?} at {}", lon + 360.0);
                if lat < 0.0 {
                    let b = at(c, lat + 180.0, lon)?;
                    ensure!(a == b, "{lon} on {day}: {a:?} at {lat}, {b:?} at {}", lat + 180.0);
                }
                c.state((lat.to_bits(), lon.to_bits(), d));
                Ok(())
            }),
            family("impossible", "latitudes and longitudes beyond every notation, and missing ones", |c| {
                let good_lat = c.pick(&[0.0, 41.0, -90.0]);
                let good_lon = c.pick(&[0.0, -71.0, 300.0]);
                let (lat, lon) = if c.flag() { (c.pick(&[-90.5, -100.0, 271.0, 400.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]), good_lon) } else { (good_lat, c.pick(&[-180.5, -400.0, 541.0, 1000.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY])) };
                for day in [Utc.with_ymd_and_hms(2024, 2, 29, 0, 0, 0).unwrap(), Utc.with_ymd_and_hms(1970, 1, 1, 0, 0, 0).unwrap()] {
                    let got = c.run("calculate_solar_events", || calculate_solar_events(&Location::new(lat, lon, "x".into()), &day))?;
                    ensure!(got.is_none(), "{lat} {lon} on {day}: {got:?}");
                }
                c.state((lat.to_bits(), lon.to_bits()));
                Ok(())
            }),
        ],
    }
}
