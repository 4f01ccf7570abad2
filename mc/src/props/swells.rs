//! C17 tracking, C18 mirror images, C26 linear wave theory, C27 breaking waves.
use crate::explore::*;
use crate::util::*;
use chrono::{DateTime, Duration, TimeZone, Utc};
use std::collections::BTreeSet;
use std::f64::consts::PI;
use surfrs::swell::{Swell, SwellSummary};
use surfrs::tools::waves::*;
use surfrs::units::{Direction, UnitSystem};

const G: f64 = 9.81;

fn swell(h: f64, period: f64, deg: i32, id: Option<usize>) -> Swell {
    Swell::new(&UnitSystem::Metric, h, period, Direction::from_degrees(deg), Some(h * 2.0), Some(h * h * period), id)
}

// ---------------------------------------------------------------------------------------------
// C17

type Step = Vec<(i32, f64, Option<usize>)>;

fn track_ok(c: &mut Ctx, steps: &[Step], dts: &[i64], max: f64, distance: f64) -> Verdict {
    let mut t: DateTime<Utc> = Utc.with_ymd_and_hms(2024, 2, 28, 18, 0, 0).unwrap();
    let mut inputs = vec![];
    for (i, s) in steps.iter().enumerate() {
        if i > 0 {
            t += Duration::seconds(dts[i - 1]);
        }
        inputs.push((t, s.iter().enumerate().map(|(k, (d, p, id))| swell(1.0 + k as f64, *p, *d, *id)).collect::<Vec<Swell>>()));
    }
    let what = || format!("(direction, period, id) {steps:?}, steps {dts:?} s, {max} degrees");
    let got = c.run("track_partitions", || track_partitions(&inputs, max, distance))?;
    ensure!(got.len() == steps.len(), "{}: {} steps returned", what(), got.len());
    let mut ids: Vec<Vec<usize>> = vec![];
    for (i, (g, (_, want))) in got.iter().zip(&inputs).enumerate() {
        ensure!(g.len() == want.len(), "{}: step {i} has {} swells", what(), g.len());
        for (a, b) in g.iter().zip(want) {
            let plain = |s: &Swell| format!("{:?}", Swell { partition: None, ..s.clone() });
            ensure!(plain(a) == plain(b), "{}: step {i}: {a:?} instead of {b:?}", what());
        }
        if steps.len() < 2 {
            return Ok(());
        }
        let mut row = vec![];
        for s in g {
            row.push(s.partition.ok_or_else(|| format!("{}: step {i}: a swell without identity", what()))?);
        }
        ids.push(row);
    }
    if steps.len() < 2 {
        return Ok(());
    }
    let all = || format!("{} -> identities {ids:?}", what());
    for (k, (_, _, id)) in steps[0].iter().enumerate() {
        ensure!(id.is_none() || *id == Some(ids[0][k]), "{}: the first step does not keep {id:?}", all());
    }
    let mut used: BTreeSet<usize> = BTreeSet::new();
    for (i, row) in ids.iter().enumerate() {
        let distinct: BTreeSet<usize> = row.iter().copied().collect();
        ensure!(distinct.len() == row.len(), "{}: an identity occurs twice in step {i}", all());
        if i > 0 {
            let close_to = |a: &(i32, f64, Option<usize>), b: &(i32, f64, Option<usize>)| circ(a.0 as f64, b.0 as f64) <= max;
            for (k, id) in row.iter().enumerate() {
                match ids[i - 1].iter().position(|p| p == id) {
                    Some(p) => ensure!(
                        close_to(&steps[i][k], &steps[i - 1][p]),
                        "{}: step {i}: identity {id} goes from {} to {} degrees", all(), steps[i - 1][p].0, steps[i][k].0
                    ),
                    None => ensure!(!used.contains(id), "{}: step {i}: identity {id} is used again", all()),
                }
            }
            let cands: Vec<Vec<usize>> = steps[i].iter().map(|a| (0..steps[i - 1].len()).filter(|p| close_to(a, &steps[i - 1][*p])).collect()).collect();
            let firsts: BTreeSet<usize> = cands.iter().filter_map(|x| x.first().copied()).collect();
            if cands.iter().all(|x| x.len() == 1) && firsts.len() == cands.len() {
                for (k, x) in cands.iter().enumerate() {
                    ensure!(row[k] == ids[i - 1][x[0]], "{}: step {i}: swell {k} has one candidate, {}, and gets {}", all(), ids[i - 1][x[0]], row[k]);
                }
            }
            // a swell that is nobody else's candidate and has one candidate carries it on as well
            for (k, x) in cands.iter().enumerate() {
                if x.len() == 1 && cands.iter().enumerate().all(|(o, y)| o == k || !y.contains(&x[0])) {
                    ensure!(row[k] == ids[i - 1][x[0]], "{}: step {i}: swell {k} alone follows {}, and gets {}", all(), ids[i - 1][x[0]], row[k]);
                }
            }
        }
        used.extend(row);
    }
    c.compared(ids.iter().map(|r| r.len() as u64).sum());
    c.state((format!("{steps:?}"), dts, max.to_bits()));
    Ok(())
}

fn pick_step(c: &mut Ctx, dirs: &[i32], periods: &[f64], most: usize) -> Step {
    let n = c.choose(most + 1);
    (0..n).map(|k| (c.pick(dirs), c.pick(periods), Some(k + 1))).collect()
}

pub fn c17() -> Prop {
    Prop {
        id: "C17",
        level: "model_checking",
        rule: "every history of up to 4 (thorough 5) steps over small sets of swells; the monitor checks every identity handed on or created",
        assumptions: vec!["the identities given in the first step are distinct", "steps are in time order (equal times allowed)", "whole degrees"],
        families: vec![
            family("histories", "3 steps of up to 2 swells (thorough 4 steps), directions {350,5,20,180}, period 10; 3 angles x 2 time steps", |c| {
                let n = c.t(3, 4);
                let steps: Vec<Step> = (0..n).map(|_| pick_step(c, &[350, 5, 20, 180], &[10.0], 2)).collect();
                for max in [15.0, 20.0, 30.0] {
                    for dt in [3600, 0] {
                        track_ok(c, &steps, &vec![dt; n], max, 1e6)?;
                    }
                }
                c.sample(|| format!("{steps:?}"));
                Ok(())
            }),
            family("empty_steps", "4 (thorough 5) steps of at most one or two swells, each step possibly empty", |c| {
                let n = c.t(4, 6);
                let steps: Vec<Step> = (0..n)
                    .map(|_| c.pick(&[vec![], vec![(0, 9.0, Some(1))], vec![(355, 12.0, None)], vec![(10, 9.0, Some(1)), (90, 12.0, Some(2))], vec![(90, 12.0, Some(7)), (359, 9.0, Some(0))]]))
                    .collect();
                for max in [10.0, 20.0] {
                    track_ok(c, &steps, &vec![3600; n], max, 1e6)?;
                }
                Ok(())
            }),
            family("long_histories", "10..700 steps of 1..3 lasting swells and one that is new, or turns out, every 1..3 steps, or a new one in every step", |c| {
                let n = c.pick(&[10usize, 100, 130, 260, 300, 520, 700]);
                let lasting = c.range(1, 3) as usize;
                let life = c.choose(4);
                let first = c.choose(3);
                let steps: Vec<Step> = (0..n)
                    .map(|i| {
                        let mut s: Step = (0..lasting).map(|k| (20 + 50 * k as i32, 9.0, Some(k + first))).collect();
                        // in a place of its own for as long as it lives
                        if life <= 2 || (i / life) % 2 == 0 {
                            s.insert(i % (lasting + 1), (200 + 40 * (i / life.max(1) % 3) as i32, 11.0, Some(9)));
                        }
                        s
                    })
                    .collect();
                track_ok(c, &steps, &vec![3600; n], 15.0, 1e6)
            }),
            family("crowded", "2 steps of up to 3 swells (thorough 4 and 3) over {0,8,16,352} degrees and {8,11} s", |c| {
                let most = c.t(2, 3);
                let a = pick_step(c, &[0, 8, 16, 352], &[8.0, 11.0], most);
                let b = pick_step(c, &[0, 8, 16, 352], &[8.0, 11.0], 3);
                for max in [8.0, 16.0, 360.0] {
                    track_ok(c, &[a.clone(), b.clone()], &[3600], max, 1e6)?;
                }
                Ok(())
            }),
            family("angles", "two steps of one swell: every pair of bearings in steps of 1 degree x 8 angles (also zero, fractional and 180)", |c| {
                let a = c.choose(361) as i32;
                let max = c.pick(&[0.0, 1.0, 15.5, 20.0, 30.0, 90.0, 179.0, 180.0]);
                for b in 0..=360 {
                    track_ok(c, &[vec![(a, 10.0, Some(4))], vec![(b, 11.0, Some(4))]], &[10800], max, 1e6)?;
                }
                Ok(())
            }),
            family("periods", "one or two far swells whose period changes between any two of 9 values, 8 time steps (0 s to 30 days) x 4 distances: the identity is carried on", |c| {
                let n = c.range(1, 2) as usize;
                let (p, q) = (c.pick(&[0.5, 2.0, 4.0, 8.0, 8.01, 11.0, 17.0, 25.0, 60.0]), c.pick(&[0.5, 2.0, 4.0, 8.0, 8.01, 11.0, 17.0, 25.0, 60.0]));
                let dt = c.pick(&[0, 1, 59, 600, 3600, 10800, 86400, 30 * 86400]);
                for distance in [1e3, 1e6, 1e7, 2e7] {
                    for turn in [0, 1, 19, 20, -20] {
                        let step = |p: f64, q: f64, turn: i32| -> Step { [(5 + turn, p, Some(3)), (185 - turn, q, Some(1))][..n].iter().map(|(d, p, i)| (d.rem_euclid(360), *p, *i)).collect() };
                        track_ok(c, &[step(p, q, 0), step(q, p, turn), step(p, q, 0)], &[dt, dt], 20.0, distance)?;
                    }
                }
                Ok(())
            }),
            family("given_identities", "every choice of given or absent identities in the first step of 3 steps, then new swells", |c| {
                let n = c.range(1, 3) as usize;
                let ids: Vec<Option<usize>> = (0..n).map(|_| c.pick(&[None, Some(0), Some(1), Some(5), Some(999), Some(1000), Some(70_000)])).collect();
                let given: Vec<usize> = ids.iter().flatten().copied().collect();
                if given.iter().collect::<BTreeSet<_>>().len() < given.len() {
                    return Ok(());
                }
                let first: Step = (0..n).map(|k| (k as i32 * 60, 10.0, ids[k])).collect();
                let then: Vec<Step> = (0..3)
                    .map(|_| c.pick(&[vec![], vec![(0, 10.0, None)], vec![(60, 9.0, Some(1)), (300, 9.0, Some(0))], vec![(125, 9.0, Some(999)), (200, 9.0, Some(998)), (5, 12.0, None)]]))
                    .collect();
                let mut steps = vec![first];
                steps.extend(then);
                track_ok(c, &steps, &[3600; 3], 20.0, 1e6)
            }),
            family("long", "chains of 2..60 steps of 1..3 systems turning by 1..19 degrees a step in either direction: every identity is carried to the end", |c| {
                let n = c.range(2, 60) as usize;
                let k = c.range(1, 3) as usize;
                let turn = c.pick(&[1, 7, 19, -1, -19]);
                let dt = c.pick(&[0, 3600, 86400]);
                let steps: Vec<Step> = (0..n).map(|i| (0..k).map(|s| ((350 + s as i32 * 100 + turn * i as i32).rem_euclid(360), 8.0 + s as f64, Some(s))).collect()).collect();
                track_ok(c, &steps, &vec![dt; n], 20.0, 1e6)?;
                c.state((n, k, turn, dt));
                Ok(())
            }),
            family("few", "no step or one step: returned as given", |c| {
                let n = c.choose(2);
                let steps: Vec<Step> = (0..n).map(|_| pick_step(c, &[0, 90], &[8.0, 12.0], 3)).collect();
                track_ok(c, &steps, &[], 20.0, 1e6)
            }),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// C18

fn mirror_ok(c: &mut Ctx, comps: &[Swell], printed: &[usize], degs: &[Option<i32>]) -> Verdict {
    let what = || format!("(period class, direction) {:?}", printed.iter().zip(degs).collect::<Vec<_>>());
    let s = SwellSummary { summary: swell(1.0, 9.0, 10, Some(0)), components: comps.to_vec() };
    let want: Vec<usize> = (0..comps.len())
        .filter(|i| {
            let first = printed.iter().position(|p| *p == printed[*i]).unwrap();
            let opposite = match (degs[first], degs[*i]) {
                (Some(a), Some(b)) => circ(a as f64, b as f64) >= 170.0,
                _ => false,
            };
            first < *i && opposite
        })
        .collect();
    for _ in 0..3 {
        let got = c.run("probable_false_components", || s.probable_false_components())?;
        ensure!(got == want, "{}: probably false {got:?}, expected {want:?}", what());
    }
    let got = c.run("filtered_components", || s.filtered_components())?;
    let keep: Vec<String> = (0..comps.len()).filter(|i| !want.contains(i)).map(|i| format!("{:?}", comps[i])).collect();
    let got: Vec<String> = got.iter().map(|x| format!("{x:?}")).collect();
    ensure!(got == keep, "{}: {} swells kept instead of {}", what(), got.len(), keep.len());
    c.compared(want.len() as u64 + 1);
    c.state((printed, degs));
    Ok(())
}

pub fn c18() -> Prop {
    let make = |k: usize, (p, class): (Option<f64>, usize), d: Option<i32>| -> (Swell, usize, Option<i32>) {
        let mut s = swell(5.0 - k as f64, 9.0, d.unwrap_or(0), Some(k + 1));
        s.period.value = p;
        if d.is_none() {
            s.direction.value = None;
        }
        (s, class, d)
    };
    Prop {
        id: "C18",
        level: "model_checking",
        rule: "every list of swells over small sets of periods and directions; the oracle looks for the first swell with the same printed period",
        assumptions: vec!["swells are listed from most to least energetic"],
        families: vec![
            family("lists", "every list of up to 4 (thorough 5) swells over 3 periods (two of which print alike) and 6 directions incl. none", move |c| {
                let hi = c.t(4, 5);
                let n = c.range(0, hi) as usize;
                let mut v = vec![];
                for k in 0..n {
                    let p = c.pick(&[(Some(8.0), 0), (Some(8.04), 0), (Some(12.5), 1)]);
                    let d = c.pick(&[Some(0), Some(90), Some(175), Some(185), Some(265), None]);
                    v.push(make(k, p, d));
                }
                let (a, b, d): (Vec<_>, Vec<_>, Vec<_>) = (v.iter().map(|x| x.0.clone()).collect(), v.iter().map(|x| x.1).collect(), v.iter().map(|x| x.2).collect());
                mirror_ok(c, &a, &b, &d)?;
                c.sample(|| format!("{b:?} {d:?}"));
                Ok(())
            }),
            family("without_energy", "the same lists of up to 4 swells of which none, all or every other one tells its energy or its height", move |c| {
                let which = c.choose(5);
                let n = c.range(1, 4) as usize;
                let mut v = vec![];
                for k in 0..n {
                    let p = c.pick(&[(Some(8.0), 0), (Some(12.5), 1)]);
                    let d = c.pick(&[Some(0), Some(175), Some(185), None]);
                    let mut m = make(k, p, d);
                    match which {
                        0 => m.0.energy = None,
                        1 if k % 2 == 0 => m.0.energy = None,
                        2 if k % 2 == 1 => m.0.energy = None,
                        3 => m.0.wave_height.value = None,
                        4 => m.0.partition = None,
                        _ => {}
                    }
                    v.push(m);
                }
                let (a, b, d): (Vec<_>, Vec<_>, Vec<_>) = (v.iter().map(|x| x.0.clone()).collect(), v.iter().map(|x| x.1).collect(), v.iter().map(|x| x.2).collect());
                mirror_ok(c, &a, &b, &d)
            }),
            family("pairs", "two swells of one period: every ordered pair of bearings 0..360", move |c| {
                let a = c.choose(361) as i32;
                let same = c.flag();
                for b in 0..=360 {
                    let x = make(0, (Some(11.0), 0), Some(a));
                    let y = make(1, if same { (Some(11.0), 0) } else { (Some(11.1), 1) }, Some(b));
                    mirror_ok(c, &[x.0, y.0], &[x.1, y.1], &[x.2, y.2])?;
                }
                Ok(())
            }),
            family("many_periods", "2..40 swells over 1..20 periods, alternating directions, missing periods and directions", move |c| {
                let n = c.range(2, 40) as usize;
                let m = c.range(1, 20) as usize;
                let hole = c.choose(4);
                let mut v = vec![];
                for k in 0..n {
                    let class = (k * 7) % m;
                    let p = if hole == 1 && class == 0 { None } else { Some(5.0 + class as f64 * 0.3) };
                    let d = if hole == 2 && k % 3 == 0 { None } else { Some(((k * 180 + k * k * 11 * (hole == 3) as usize) % 360) as i32) };
                    v.push(make(k, (p, class), d));
                }
                let (a, b, d): (Vec<_>, Vec<_>, Vec<_>) = (v.iter().map(|x| x.0.clone()).collect(), v.iter().map(|x| x.1).collect(), v.iter().map(|x| x.2).collect());
                mirror_ok(c, &a, &b, &d)
            }),
            family("unusual_periods", "every list of 2..4 swells of no period, period 0, 0.04, -0.04, 0.1 or 1000 s, pointing either way", move |c| {
                let n = c.range(2, 4) as usize;
                let mut v = vec![];
                for k in 0..n {
                    let p = c.pick(&[(None, 0), (Some(0.0), 1), (Some(0.04), 1), (Some(-0.04), 2), (Some(0.1), 3), (Some(1000.0), 4)]);
                    let d = c.pick(&[Some(10), Some(190)]);
                    v.push(make(k, p, d));
                }
                let (a, b, d): (Vec<_>, Vec<_>, Vec<_>) = (v.iter().map(|x| x.0.clone()).collect(), v.iter().map(|x| x.1).collect(), v.iter().map(|x| x.2).collect());
                mirror_ok(c, &a, &b, &d)
            }),
            family("printing", "two opposite swells with periods 8.00..8.30 s in steps of 0.01: false exactly when the periods print alike", move |c| {
                let (p, q) = (8.0 + c.choose(31) as f64 * 0.01, 8.0 + c.choose(31) as f64 * 0.01);
                let (tp, tq) = (format!("{p:.1}"), format!("{q:.1}"));
                let (x, y) = (make(0, (Some(p), 0), Some(20)), make(1, (Some(q), (tp != tq) as usize), Some(200)));
                mirror_ok(c, &[x.0, y.0], &[x.1, y.1], &[x.2, y.2])?;
                c.state((tp, tq));
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// C26

/// Wave number of the linear dispersion relation, by bisection.
fn exact_k(w: f64, h: f64) -> f64 {
    let (mut lo, mut hi) = (w * w / G, w / (G * h).sqrt() + w * w / G);
    for _ in 0..200 {
        let m = 0.5 * (lo + hi);
        if G * m * (m * h).tanh() < w * w {
            lo = m
        } else {
            hi = m
        }
    }
    0.5 * (lo + hi)
}

fn ok<T>(what: &str, r: Result<T, surfrs::tools::waves::Error>) -> Result<T, Fail> {
    r.map_err(|e| Fail {
        key: None,
        msg: format!("{what}: {}", match e {
            surfrs::tools::waves::Error::ConvergenceFailure => "does not converge",
            surfrs::tools::waves::Error::OutOfRange => "out of range",
        }),
    })
}

pub fn c26() -> Prop {
    fn depths(thorough: bool) -> Vec<f64> {
        let n = if thorough { 800 } else { 200 };
        (0..=n).map(|i| 0.1 * 1e5f64.powf(i as f64 / n as f64)).collect()
    }
    Prop {
        id: "C26",
        level: "model_checking",
        rule: "every period and depth of a dense lattice; the oracle solves the dispersion relation by bisection",
        assumptions: vec!["periods 0.5..60 s, depths 0.1..10000 m, gravity 9.81"],
        families: vec![
            family("dispersion", "periods 0.5..60 s in steps of 0.1 (thorough 0.02) x 201 (801) depths 0.1..10000 m", |c| {
                let n = c.t(595, 2975);
                let period = 0.5 + c.choose(n + 1) as f64 * 59.5 / n as f64;
                let w = 2.0 * PI / period;
                let mut last: Option<(f64, f64, f64)> = None;
                for h in depths(c.thorough) {
                    let k = exact_k(w, h);
                    let exact = 2.0 * PI / k;
                    let at = format!("period {period} s, depth {h} m");
                    let l = ok(&at, c.run("ldis", || ldis(period, h))?)?;
                    ensure!(close(l, exact, 0.0, 1e-3), "{at}: ldis gives {l}, the dispersion relation {exact}");
                    let (k3, cg) = c.run("wavenu3", || wavenu3(w, h))?;
                    ensure!(close(k3, k, 0.0, 1e-2), "{at}: wavenu3 gives a wave number of {k3} instead of {k}");
                    let phase = w / k3;
                    ensure!(cg >= 0.5 * phase * (1.0 - 1e-9) && cg <= phase * (1.0 + 1e-9), "{at}: group velocity {cg}, phase velocity {phase}");
                    let kh2 = 2.0 * k * h;
                    let want_cg = 0.5 * (1.0 + if kh2 > 700.0 { 0.0 } else { kh2 / kh2.sinh() }) * w / k;
                    ensure!(close(cg, want_cg, 0.0, 0.02), "{at}: group velocity {cg} instead of {want_cg}");
                    let km = c.run("wavenuma", || wavenuma(w, h))?;
                    ensure!(close(km, k, 0.0, 1e-2), "{at}: wavenuma gives a wave number of {km} instead of {k}");
                    let (len, cel) = c.run("wavelength/celerity", || (wavelength(1.0 / period, Some(h)), celerity(1.0 / period, Some(h))))?;
                    ensure!(close(len, exact, 0.0, 1e-2), "{at}: wavelength {len} instead of {exact}");
                    ensure!(close(cel, len / period, 0.0, 1e-9), "{at}: celerity {cel}, wavelength {len}");
                    if let Some((a, b, d)) = last {
                        ensure!(l >= a * (1.0 - 1e-5) && len >= b * (1.0 - 1e-5) && 1.0 / k3 >= d * (1.0 - 1e-3), "{at}: a deeper wave is shorter: {l} after {a}, {len} after {b}, 1/k {} after {d}", 1.0 / k3);
                    }
                    last = Some((l, len, 1.0 / k3));
                    c.compared(7);
                }
                c.state(period.to_bits());
                c.sample(|| format!("period {period} s over all depths"));
                Ok(())
            }),
            family("close_by", "every period and depth of a coarse lattice asked for in turn with neighbours 1e-9 to 1e-2 away, forwards and backwards: each answer is its own", |c| {
                let p0 = 0.5 * 120f64.powf(c.choose(40) as f64 / 39.0);
                let d = c.pick(&[1e-9, 1e-6, 1e-4, 5e-4, 1e-3, 2e-3, 1e-2]);
                let kind = c.choose(3);
                for i in 0..40 {
                    let h0 = 0.1 * 1e5f64.powf(i as f64 / 39.0);
                    let step = |k: f64| match kind {
                        0 => (p0 + k * d, h0),
                        1 => (p0, h0 + k * d),
                        _ => (p0 + k * d, h0 - 0.5 * k * d * h0.min(1.0)),
                    };
                    for k in [0.0, 1.0, 2.0, 0.0, 2.0, 1.0, 0.0] {
                        let (p, h) = step(k);
                        let exact = 2.0 * PI / exact_k(2.0 * PI / p, h);
                        let at = format!("period {p} s, depth {h} m after others {d} away");
                        let l = ok(&at, c.run("ldis", || ldis(p, h))?)?;
                        ensure!(close(l, exact, 0.0, 1e-3), "{at}: ldis gives {l}, the dispersion relation {exact}");
                        let others = c.run("the others", || [wavelength(1.0 / p, Some(h)), 2.0 * PI / wavenu3(2.0 * PI / p, h).0, 2.0 * PI / wavenuma(2.0 * PI / p, h)])?;
                        for x in others {
                            ensure!(close(x, exact, 0.0, 1e-2), "{at}: wavelengths {others:?} instead of {exact}");
                        }
                        c.compared(4);
                    }
                }
                c.state((p0.to_bits(), d.to_bits(), kind));
                Ok(())
            }),
            family("longer_periods", "at each depth, wavelength and celerity never fall with the period", |c| {
                let ds = depths(c.thorough);
                let h = c.pick(&ds);
                let n = c.t(595, 2975);
                let mut last: Option<[f64; 4]> = None;
                for i in 0..=n {
                    let period = 0.5 + i as f64 * 59.5 / n as f64;
                    let l = ok("ldis", c.run("ldis", || ldis(period, h))?)?;
                    let now = c.run("wavelength/celerity", || [l, wavelength(1.0 / period, Some(h)), celerity(1.0 / period, Some(h)), 1.0 / wavenu3(2.0 * PI / period, h).0])?;
                    if let Some(b) = last {
                        for j in 0..4 {
                            ensure!(now[j] >= b[j] * (1.0 - [1e-5, 1e-5, 1e-4, 1e-3][j]), "depth {h} m, period {period} s: value {j} falls from {} to {}", b[j], now[j]);
                        }
                    }
                    last = Some(now);
                }
                c.state(h.to_bits());
                Ok(())
            }),
            family("limits", "deep and shallow limits for periods 1..30 s in steps of 0.1", |c| {
                let period = 1.0 + c.choose(291) as f64 * 0.1;
                let f = 1.0 / period;
                let (l, s) = c.run("deep water", || (wavelength(f, None), celerity(f, None)))?;
                ensure!(close(l, 1.56 * period * period, 1e-9, 2e-3) && close(s, 1.56 * period, 1e-9, 2e-3), "deep water, {period} s: wavelength {l}, celerity {s}");
                let (l2, s2) = c.run("10 km of water", || (wavelength(f, Some(10000.0)), celerity(f, Some(10000.0))))?;
                ensure!(close(l2, l, 0.0, 5e-3) && close(s2, s, 0.0, 5e-3), "10 km deep, {period} s: wavelength {l2}, celerity {s2}");
                let shallow = 1e-3 * period;
                let s3 = c.run("shallow", || celerity(f, Some(shallow)))?;
                ensure!(close(s3, (G * shallow).sqrt(), 0.0, 1e-2), "{shallow} m deep, {period} s: celerity {s3}");
                let l3 = ok("ldis", c.run("ldis", || ldis(period, shallow))?)?;
                ensure!(close(l3 / period, (G * shallow).sqrt(), 0.0, 1e-2), "{shallow} m deep, {period} s: wavelength {l3}");
                c.state(period.to_bits());
                Ok(())
            }),
            family("coefficients", "shoaling and refraction for 60 lengths x 60 relative depths x angles -89..89", |c| {
                let len = 1.5f64 * 900f64.powf(c.choose(60) as f64 / 59.0);
                let kd = 0.01 * 3000f64.powf(c.choose(60) as f64 / 59.0);
                let d = kd * len / (2.0 * PI);
                let ks = c.run("shoaling_coefficient", || shoaling_coefficient(len, d))?;
                let two = 2.0 * kd;
                let want = (1.0 / (kd.tanh() * (1.0 + if two > 700.0 { 0.0 } else { two / two.sinh() }))).sqrt();
                ensure!(close(ks, want, 0.0, 1e-6), "length {len} depth {d}: shoaling {ks} instead of {want}");
                if kd > 10.0 {
                    ensure!(close(ks, 1.0, 0.0, 1e-3), "deep water shoaling {ks}");
                }
                for a in -89..=89 {
                    let a = a as f64;
                    let (kr, turned) = c.run("refraction_coefficient", || refraction_coefficient(len, d, a))?;
                    let s = (a.to_radians().sin() * kd.tanh()).asin().to_degrees();
                    ensure!(close(turned, s, 1e-9, 1e-6), "length {len} depth {d} angle {a}: turned to {turned} instead of {s}");
                    let want = (a.to_radians().cos() / s.to_radians().cos()).sqrt();
                    ensure!(close(kr, want, 1e-9, 1e-6) && kr <= 1.0 + 1e-9 && kr > 0.0, "length {len} depth {d} angle {a}: refraction {kr} instead of {want}");
                    ensure!(turned.abs() <= a.abs() + 1e-9, "refraction turns {a} to {turned}, away from shore-normal");
                    if kd > 20.0 {
                        ensure!(close(kr, 1.0, 0.0, 1e-3), "deep water refraction {kr}");
                    }
                }
                c.state((len.to_bits(), kd.to_bits()));
                Ok(())
            }),
            family("energy", "heights 0..20 m x periods 1..30 s", |c| {
                let h = c.choose(201) as f64 * 0.1;
                let t = c.range(1, 30) as f64;
                let e = c.run("wave_energy", || wave_energy(h, t))?;
                ensure!(close(e, 1029.0 * G * G / (16.0 * PI) * h * h * t * t / 1000.0, 1e-12, 1e-9), "energy of {h} m and {t} s is {e}");
                let (e2, e3) = c.run("wave_energy", || (wave_energy(2.0 * h, t), wave_energy(h, 3.0 * t)))?;
                ensure!(close(e2, 4.0 * e, 1e-12, 1e-9) && close(e3, 9.0 * e, 1e-12, 1e-9), "energy {e}, twice the height {e2}, three times the period {e3}");
                c.state((h.to_bits(), t.to_bits()));
                Ok(())
            }),
            family("moments", "energies x bandwidths x frequencies of a lattice: moments, steepness and growth of peaks", |c| {
                let (e, w, f) = (c.choose(21) as f64 * 0.35, c.choose(11) as f64 * 0.003, 0.02 + c.choose(25) as f64 * 0.02);
                let (m0, m2) = c.run("moments", || (zero_spectral_moment(e, w), second_spectral_moment(e, w, f)))?;
                ensure!(close(m0, e * w, 1e-15, 1e-12) && close(m2, e * w * f * f, 1e-15, 1e-12), "moments of {e} at {f} Hz, {w} wide: {m0}, {m2}");
                if m0 > 0.0 {
                    let s = c.run("steepness_coefficient", || steepness_coefficient(m0, m2))?;
                    ensure!(close(s, 8.0 * PI * m2 / (G * m0.sqrt()), 1e-15, 1e-9), "steepness of {m0} and {m2}: {s}");
                }
                let wind = 2.0 + e * 3.0;
                let none = c.run("dfp_wind_sea", || dfp_wind_sea(wind, f, 0.0, 1.0))?;
                ensure!(close(none, 0.0, 1e-9, 0.0), "the peak of a wind sea at {f} Hz in {wind} m/s moves by {none} in no time");
                let mut last = none;
                for hours in [1.0, 3.0, 6.0, 24.0] {
                    let d = c.run("dfp_wind_sea", || dfp_wind_sea(wind, f, hours * 3600.0, 1.0))?;
                    ensure!(d.is_finite() && d < last && d > -f, "the peak of a wind sea at {f} Hz in {wind} m/s moves by {d} in {hours} h, by {last} before");
                    last = d;
                    // the same after two shorter steps, and further in a stronger wind
                    let (half, stronger) = c.run("dfp_wind_sea", || (dfp_wind_sea(wind, f, hours * 1200.0, 1.0), dfp_wind_sea(wind * 1.1, f, hours * 3600.0, 1.0)))?;
                    let rest = c.run("dfp_wind_sea", || dfp_wind_sea(wind, f + half, hours * 2400.0, 1.0))?;
                    ensure!(close(half + rest, d, 1e-9, 1e-6), "the peak of a wind sea at {f} Hz in {wind} m/s moves by {d} in {hours} h, by {half} and {rest} in two parts");
                    ensure!(stronger < d, "the peak of a wind sea at {f} Hz moves by {d} in {hours} h of {wind} m/s, by {stronger} if the wind is a tenth stronger");
                    let (s, far) = c.run("dfp_swell_sea", || (dfp_swell_sea(hours * 3600.0, 1e6), dfp_swell_sea(hours * 3600.0, 2e6)))?;
                    ensure!(close(s, hours * 3600.0 * G / (4.0 * PI * 1e6), 0.0, 1e-9) && close(s, 2.0 * far, 0.0, 1e-9), "swell from 1000 km in {hours} h: {s}, from 2000 km: {far}");
                }
                c.state((e.to_bits(), w.to_bits(), f.to_bits()));
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// C27

pub fn c27() -> Prop {
    let height = |c: &mut Ctx, h: f64, t: f64, deg: i32, beach: f64, slope: f64, depth: f64| -> Result<Option<f64>, Fail> {
        let s = swell(h, t, deg, None);
        match c.run("estimate_breaking_wave_height", || estimate_breaking_wave_height(&s, beach, slope, depth))? {
            Ok(v) => Ok(Some(v)),
            Err(surfrs::tools::waves::Error::OutOfRange) => Ok(None),
            Err(_) => fail(format!("{h} m {t} s from {deg} at a beach facing {beach}, slope {slope}, depth {depth}: no convergence")),
        }
    };
    Prop {
        id: "C27",
        level: "model_checking",
        rule: "every swell bearing against every beach bearing; metamorphic relations between all of them",
        assumptions: vec!["heights up to a seventh of the deep-water wavelength (steeper waves do not exist)", "positive height, period, slope and depth"],
        families: vec![
            family("bearings", "swell bearings 0..360 x beach bearings -180..540 in steps of 5 degrees (thorough 1) and half degrees; compared with the same angle at a beach facing north", move |c| {
                let step = c.t(5.0, 1.0);
                let beach = -180.0 + c.choose((720.0 / step) as usize + 1) as f64 * step + c.pick(&[0.0, 0.5]);
                let (h, t) = c.pick(&[(1.3, 11.0), (0.4, 5.0)]);
                for deg in 0..=360 {
                    let off = circ(deg as f64, beach);
                    let got = height(c, h, t, deg, beach, 0.02, 30.0)?;
                    ensure!(got.is_some() == (off <= 90.0), "swell from {deg}, beach facing {beach} ({off} degrees off): {got:?}");
                    // along the beach the height is zero, or lost in the rounding of the cosine
                    if off == 90.0 {
                        ensure!(got.is_some_and(|v| !(v > 1e-2 * h || v < 0.0)), "swell from {deg}, beach facing {beach}: {got:?}");
                    } else if let Some(v) = got {
                        ensure!(v.is_finite() && v > 0.0, "swell from {deg}, beach facing {beach}: {v}");
                        // the same angle on a beach facing east, from either side
                        for (d2, b2) in [(90, 90.0 - off), (90, 90.0 + off)] {
                            let same = height(c, h, t, d2, b2, 0.02, 30.0)?;
                            ensure!(same.is_some_and(|s| close(s, v, 1e-9, 1e-6)), "{off} degrees off: {v} at a beach facing {beach}, {same:?} at one facing {b2}");
                        }
                        c.compared(3);
                    }
                    c.state((deg, beach.to_bits()));
                }
                c.sample(|| format!("beach facing {beach}, swells from all bearings"));
                Ok(())
            }),
            family("growth", "periods x slopes x depths x angles: heights 0.05..45 m ascending, breaking height and depth never fall", move |c| {
                let t = c.pick(&[3.0, 5.0, 8.0, 12.0, 17.0, 25.0]);
                let slope = c.pick(&[0.001, 0.01, 0.02, 0.05, 0.1, 0.3, 1.0]);
                let depth = c.pick(&[1.0, 5.0, 30.0, 200.0, 4000.0]);
                let angle = c.choose(90) as f64;
                let mut last = (0.0, 0.0);
                for i in 1..=300 {
                    let h = if i <= 200 { i as f64 * 0.05 } else { 10.0 + (i - 200) as f64 * 0.35 };
                    if h > G * t * t / (2.0 * PI) / 7.0 {
                        break;
                    }
                    let (b, d) = ok("break_wave", c.run("break_wave", || break_wave(t, angle, h, slope, depth))?)?;
                    let at = || format!("{h} m {t} s, {angle} degrees, slope {slope}, depth {depth}");
                    ensure!(b.is_finite() && b > 0.0 && d.is_finite() && d > 0.0, "{}: breaks at {b} m in {d} m", at());
                    ensure!(b >= last.0 * (1.0 - 1e-9), "{}: breaking height falls from {} to {b}", at(), last.0);
                    ensure!(d >= last.1 * (1.0 - 1e-9), "{}: breaking depth falls from {} to {d}", at(), last.1);
                    last = (b, d);
                }
                c.state((t.to_bits(), slope.to_bits(), depth.to_bits(), angle.to_bits()));
                Ok(())
            }),
            family("obliqueness", "heights x periods x slopes x depths: angles 0..90 ascending, breaking height never rises", move |c| {
                let t = c.pick(&[3.0, 5.0, 8.0, 12.0, 17.0, 25.0]);
                let slope = c.pick(&[0.001, 0.02, 0.1, 1.0]);
                let depth = c.pick(&[1.0, 5.0, 30.0, 200.0, 4000.0]);
                let h = c.pick(&[0.05, 0.3, 1.0, 1.9, 9.0, 30.0]) * if t < 5.0 { 0.5 } else { 1.0 };
                if h > G * t * t / (2.0 * PI) / 7.0 {
                    return Ok(());
                }
                let mut last = f64::INFINITY;
                for a in 0..=180 {
                    let angle = a as f64 * 0.5;
                    let (b, _) = ok("break_wave", c.run("break_wave", || break_wave(t, angle, h, slope, depth))?)?;
                    ensure!(b <= last * (1.0 + 1e-9) || a == 180 && b.is_nan(), "{h} m {t} s slope {slope} depth {depth}: breaking height rises from {last} to {b} at {angle} degrees");
                    last = b;
                    if a % 2 == 0 {
                        let e = height(c, h, t, (270 + a / 2) % 360, 270.0, slope, depth)?;
                        ensure!(e.is_some_and(|e| close(e, b, 1e-9, 1e-9) || a == 180), "estimate {e:?} and break_wave {b} differ at {angle} degrees");
                    }
                }
                // a straight swell against the published formula
                let (b, d) = ok("break_wave", break_wave(t, 0.0, h, slope, depth))?;
                let want = 0.56 * (h / (G * t * t / (2.0 * PI))).powf(-0.2) * h;
                ensure!(close(b, want, 1e-12, 1e-3), "{h} m {t} s: breaking height {b} instead of {want}");
                let wd = b / (1.56 / (1.0 + (-19.5 * slope).exp()) - 43.8 * (1.0 - (-19.0 * slope).exp()) * b / (G * t * t));
                ensure!(close(d, wd, 1e-12, 1e-3), "{h} m {t} s slope {slope}: breaking depth {d} instead of {wd}");
                c.state((t.to_bits(), slope.to_bits(), depth.to_bits(), h.to_bits()));
                Ok(())
            }),
        ],
    }
}
