//! C13 neighbours, C14 partitioning, C15 splitting, C16 swell extraction, C20 regridding, C21 lookups,
//! C22 integrals and moments, C23 polar picture.
use super::basics::{spectrum_in, stored, strong_mean, CONV};
use crate::explore::*;
use crate::util::*;
use std::collections::{BTreeSet, VecDeque};
use std::f64::consts::PI;
use surfrs::data::directional_spectral_wave_data_record::DirectionalSpectralWaveDataRecord;
use surfrs::data::forecast_spectral_wave_data_record::ForecastSpectralWaveDataRecord;
use surfrs::spectra::{SpectralAxis, Spectra};
use surfrs::swell::SwellProvider;
use surfrs::tools::analysis::{nearest_neighbors, watershed};
use surfrs::units::direction::DirectionConvention;

/// Cells one step away in frequency, direction or both; direction (j) is circular.
fn neighbours(w: usize, h: usize, cell: usize) -> BTreeSet<usize> {
    let (i, j) = ((cell % w) as i64, (cell / w) as i64);
    let mut s = BTreeSet::new();
    for dj in -1..=1i64 {
        for di in -1..=1i64 {
            let ni = i + di;
            if (di, dj) == (0, 0) || ni < 0 || ni >= w as i64 {
                continue;
            }
            s.insert((j + dj).rem_euclid(h as i64) as usize * w + ni as usize);
        }
    }
    s
}

pub fn c13() -> Prop {
    Prop {
        id: "C13",
        level: "model_checking",
        rule: "every cell of every grid; the oracle enumerates the eight offsets with direction modulo the height",
        assumptions: vec!["at least 3 directions (with fewer, one cell lies on both sides)"],
        families: vec![family("cells", "every cell of every grid with 1..40 (thorough 80) frequencies x 3..40 (80) directions", |c| {
            let hi = c.t(40, 80);
            let w = c.range(1, hi) as usize;
            let h = c.range(3, hi) as usize;
            let mut lists = Vec::with_capacity(w * h);
            for cell in 0..w * h {
                let got = c.run("nearest_neighbors", || nearest_neighbors(w, h, cell))?;
                let want = neighbours(w, h, cell);
                let set: BTreeSet<usize> = got.iter().copied().collect();
                ensure!(set.len() == got.len(), "cell {cell} of {w}x{h}: a neighbour is repeated in {got:?}");
                ensure!(!set.contains(&cell), "cell {cell} of {w}x{h} is its own neighbour");
                ensure!(set == want, "cell {cell} of {w}x{h}: neighbours {set:?}, expected {want:?}");
                lists.push(set);
            }
            for (a, l) in lists.iter().enumerate() {
                for b in l {
                    ensure!(lists[*b].contains(&a), "{a} has the neighbour {b} but not the other way round");
                }
            }
            c.compared((w * h) as u64);
            c.state((w, h));
            c.sample(|| format!("{w} x {h}: {} cells", w * h));
            Ok(())
        }),
        family("in turn", "every cell of every two grids of up to 12 (thorough 24) x 12 (24), asked alternately forwards, alternately backwards, or in any shape in between: as of a grid asked alone", |c| {
            let hi = c.t(12, 24);
            let (w, h) = (c.range(1, hi) as usize, c.range(3, hi) as usize);
            let (v, g) = (c.range(1, hi) as usize, c.range(3, hi) as usize);
            // grids of as many cells, and the neighbouring shapes
            if w * h != v * g && (w.abs_diff(v) > 1 || h.abs_diff(g) > 1) {
                return Ok(());
            }
            let back = c.flag();
            let n = (w * h).max(v * g);
            for k in 0..n {
                let cell = if back { n - 1 - k } else { k };
                for (w, h) in [(w, h), (v, g)] {
                    if cell < w * h {
                        let got: BTreeSet<usize> = c.run("nearest_neighbors", || nearest_neighbors(w, h, cell))?.into_iter().collect();
                        ensure!(got == neighbours(w, h, cell), "cell {cell} of {w}x{h}, asked in turn with {v}x{g}: neighbours {got:?}");
                    }
                }
            }
            c.compared(2 * n as u64);
            c.state((w, h, v, g, back));
            Ok(())
        })],
    }
}

// ---------------------------------------------------------------------------------------------
// C14

/// The level image: 1 (highest energy) to n; None when a value lies within `margin` of a rounding tie.
fn levels(data: &[f64], n: usize, margin: f64) -> Option<Vec<usize>> {
    let min = data.iter().copied().fold(f64::INFINITY, f64::min);
    let max = data.iter().copied().fold(f64::NEG_INFINITY, f64::max);
    data.iter()
        .map(|v| {
            if max == min {
                return Some(1);
            }
            let x = 1.0 + (max - v) * (n as f64 - 1.0) / (max - min);
            if ((x - x.floor()) - 0.5).abs() < margin {
                return None;
            }
            Some((x.round() as usize).clamp(1, n))
        })
        .collect()
}

/// Peaks (plateaus of the level image no neighbour of which is higher), and for every cell the set of
/// peaks that slope down to it.
fn peaks(lv: &[usize], w: usize, h: usize) -> (Vec<Vec<usize>>, Vec<BTreeSet<usize>>) {
    let n = w * h;
    let nb: Vec<BTreeSet<usize>> = (0..n).map(|i| neighbours(w, h, i)).collect();
    let mut seen = vec![false; n];
    let mut tops = vec![];
    for s in 0..n {
        if seen[s] {
            continue;
        }
        let mut plateau = vec![s];
        seen[s] = true;
        let mut k = 0;
        let mut top = true;
        while k < plateau.len() {
            for &b in &nb[plateau[k]] {
                if lv[b] < lv[s] {
                    top = false;
                }
                if lv[b] == lv[s] && !seen[b] {
                    seen[b] = true;
                    plateau.push(b);
                }
            }
            k += 1;
        }
        if top {
            tops.push(plateau);
        }
    }
    let mut from = vec![BTreeSet::new(); n];
    for (t, cells) in tops.iter().enumerate() {
        let mut q: VecDeque<usize> = cells.iter().copied().collect();
        for c in cells {
            from[*c].insert(t);
        }
        while let Some(a) = q.pop_front() {
            for &b in &nb[a] {
                if lv[b] >= lv[a] && from[b].insert(t) {
                    q.push_back(b);
                }
            }
        }
    }
    (tops, from)
}

fn labels_ok(labels: &[i32], count: usize, w: usize, h: usize, what: &dyn Fn() -> String) -> Verdict {
    ensure!(labels.len() == w * h, "{}: {} labels for {} bins", what(), labels.len(), w * h);
    ensure!(count >= 2, "{}: {count} as the size of the label set", what());
    let used: BTreeSet<i32> = labels.iter().copied().collect();
    let want: BTreeSet<i32> = (1..count as i32).collect();
    ensure!(used == want, "{}: labels {used:?} with a label set of size {count}: {labels:?}", what());
    // each system is one connected region
    for l in 1..count as i32 {
        let cells: Vec<usize> = (0..w * h).filter(|i| labels[*i] == l).collect();
        let mut seen: BTreeSet<usize> = [cells[0]].into();
        let mut q = vec![cells[0]];
        while let Some(a) = q.pop() {
            for b in neighbours(w, h, a) {
                if labels[b] == l && seen.insert(b) {
                    q.push(b);
                }
            }
        }
        ensure!(seen.len() == cells.len(), "{}: system {l} is not connected: {labels:?}", what());
    }
    Ok(())
}

fn partition_ok(c: &mut Ctx, data: &[f64], w: usize, h: usize, n: usize, tag: &str) -> Verdict {
    partition_blur_ok(c, data, w, h, n, None, tag)
}

/// With a blur, only one too narrow to reach the next bin (its 8-bit image leaves a margin of 2/255).
fn partition_blur_ok(c: &mut Ctx, data: &[f64], w: usize, h: usize, n: usize, blur: Option<f32>, tag: &str) -> Verdict {
    let what = || format!("{tag} {w}x{h} {n} levels blur {blur:?} {data:?}");
    let got = c.run("watershed", || watershed(data, w, h, n, blur))?;
    let (labels, count) = got.map_err(|e| format!("{}: refused: {e:?}", what()))?;
    labels_ok(&labels, count, w, h, &what)?;
    let margin = if blur.is_some() { 2.0 * n as f64 / 255.0 } else { 1e-6 };
    if let Some(lv) = levels(data, n, margin) {
        let (tops, from) = peaks(&lv, w, h);
        ensure!(count == tops.len() + 1, "{}: {} systems instead of {} ({labels:?})", what(), count - 1, tops.len());
        let mut own = BTreeSet::new();
        for t in &tops {
            let ls: BTreeSet<i32> = t.iter().map(|i| labels[*i]).collect();
            ensure!(ls.len() == 1, "{}: one peak in several systems {ls:?}", what());
            ensure!(own.insert(labels[t[0]]), "{}: two peaks in system {}", what(), labels[t[0]]);
        }
        for i in 0..w * h {
            if from[i].len() == 1 {
                let t = *from[i].iter().next().unwrap();
                ensure!(labels[i] == labels[tops[t][0]], "{}: bin {i} belongs to the peak at {:?} alone but carries label {} ({labels:?})", what(), tops[t], labels[i]);
            }
        }
        c.compared(tops.len() as u64 + 1);
    }
    c.state((w, h, n, &labels));
    Ok(())
}

/// cones: (cell, height, slope); chebyshev distance around the circle.
fn cones(w: usize, h: usize, list: &[(usize, f64, f64)]) -> Vec<f64> {
    (0..w * h)
        .map(|i| {
            list.iter()
                .map(|(cell, top, slope)| {
                    let df = (i % w).abs_diff(cell % w);
                    let dd = (i / w).abs_diff(cell / w);
                    let dd = dd.min(h - dd);
                    (top - slope * df.max(dd) as f64).max(0.0)
                })
                .fold(0.0, f64::max)
        })
        .collect()
}

pub fn c14() -> Prop {
    const STEPS: [usize; 21] = [2, 3, 4, 7, 10, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 129, 255, 256, 257, 300, 1000];
    Prop {
        id: "C14",
        level: "model_checking",
        rule: "every pattern of a small grid, and structured patterns on larger ones; the oracle digitises the spectrum and floods every plateau",
        assumptions: vec!["at least 3 directions", "spectra with a value exactly on a rounding tie are compared for labelling only"],
        families: vec![
            family("ternary", "all patterns over {0,1,3} on 1x3..1x8, 2x3, 2x4, 3x3 (thorough also 2x5, 4x3, 3x4) x 4 level counts", |c| {
                let mut grids = vec![(1, 3), (1, 4), (1, 5), (1, 6), (1, 7), (1, 8), (2, 3), (2, 4), (3, 3)];
                if c.thorough {
                    grids.extend([(2, 5), (4, 3), (3, 4), (1, 9), (1, 10)]);
                }
                let (w, h) = c.pick(&grids);
                let data: Vec<f64> = (0..w * h).map(|_| c.pick(&[0.0, 1.0, 3.0])).collect();
                for n in [2, 3, 5, 300] {
                    partition_ok(c, &data, w, h, n, "pattern")?;
                }
                c.sample(|| format!("{w}x{h} {data:?}"));
                Ok(())
            }),
            family("binary", "all patterns over {0,1} on 4x4, 3x5, 5x3 (thorough also 4x5, 2x9) with 100 levels", |c| {
                let mut grids = vec![(4, 4), (3, 5), (5, 3)];
                if c.thorough {
                    grids.extend([(4, 5), (2, 9), (6, 3)]);
                }
                let (w, h) = c.pick(&grids);
                let data: Vec<f64> = (0..w * h).map(|_| c.pick(&[0.0, 1.0])).collect();
                partition_ok(c, &data, w, h, 100, "mask")
            }),
            family("graded", "all patterns over {0,1,3,7} on 2x4 and 3x3 x every level count 2..9", |c| {
                let (w, h) = c.pick(&[(2, 4), (3, 3)]);
                if (w, h) == (3, 3) && !c.thorough {
                    // in quick the centre row varies over two values
                    let data: Vec<f64> = (0..9).map(|i| if i / 3 == 1 { c.pick(&[1.0, 7.0]) } else { c.pick(&[0.0, 1.0, 3.0]) }).collect();
                    return partition_ok(c, &data, w, h, 8, "graded");
                }
                let data: Vec<f64> = (0..w * h).map(|_| c.pick(&[0.0, 1.0, 3.0, 7.0])).collect();
                for n in [2, 4, 7, 8, 9] {
                    partition_ok(c, &data, w, h, n, "graded")?;
                }
                Ok(())
            }),
            family("cones", "two cones at every pair of positions on 7x9 (thorough also 12x24: every third position) x heights x slopes x 21 level counts from 2 to 1000", |c| {
                let (w, h): (usize, usize) = if c.thorough { c.pick(&[(7, 9), (12, 24), (16, 12)]) } else { (7, 9) };
                let stride = if w * h > 70 { 3 } else { 1 };
                let a = c.choose((w * h).div_ceil(stride)) * stride;
                let b = c.choose((w * h).div_ceil(stride)) * stride;
                let (top, sa, sb) = c.pick(&[(1.0, 0.07, 0.07), (0.83, 0.31, 0.05), (0.4, 0.02, 0.2)]);
                let data = cones(w, h, &[(a, 1.0, sa), (b, top, sb)]);
                for n in STEPS {
                    partition_ok(c, &data, w, h, n, "cones")?;
                }
                Ok(())
            }),
            family("level_counts", "three cones on grids of realistic size x every level count 2..300 (thorough 2..1200)", |c| {
                let hi = c.t(300, 1200);
                let (w, h) = c.pick(&[(10, 12), (25, 24), (29, 36), (17, 16)]);
                let n = c.range(2, hi) as usize;
                let t = w * h;
                let data = cones(w, h, &[(t / 5, 1.0, 0.043), (t / 2 + 3, 0.77, 0.0311), (t - 2, 0.51, 0.057)]);
                partition_ok(c, &data, w, h, n, "three cones")
            }),
            family("many_levels", "1..3 cones on small grids x 15 level counts from 0 to the largest: as many systems as peaks, beyond 65535 levels as with 65535", |c| {
                let (w, h) = c.pick(&[(3usize, 4usize), (5, 8), (10, 12)]);
                let n = c.pick(&[0usize, 1, 2, 5000, 32767, 32768, 40000, 65534, 65535, 65536, 65537, 100_000, 131_077, 1 << 32, usize::MAX]);
                let t = w * h;
                let a = c.choose(t.min(24)) * (t / t.min(24));
                let list = [(a, 1.0, 0.043), ((a + t / 2) % t, 0.77, 0.0311), (t - 1 - t / 3, 0.51, 0.057)];
                let data = cones(w, h, &list[..c.range(1, 3) as usize]);
                if (2..=65535).contains(&n) {
                    return partition_ok(c, &data, w, h, n, "cones");
                }
                let got = match (c.run("watershed", || watershed(&data, w, h, n, None))?, n) {
                    (Ok(r), _) => r,
                    (Err(_), 0) => return Ok(()),
                    (Err(e), _) => return Err(format!("{w}x{h} {n} levels: refused {e:?}").into()),
                };
                labels_ok(&got.0, got.1, w, h, &|| format!("{w}x{h} {n} levels {data:?}"))?;
                if n < 2 {
                    ensure!(got.1 == 2, "{w}x{h} {n} levels: {} systems", got.1 - 1);
                } else {
                    let most = c.run("watershed", || watershed(&data, w, h, 65535, None))?.map_err(|e| format!("refused {e:?}"))?;
                    ensure!(got == most, "{w}x{h} {n} levels: {:?}, with 65535 levels {:?} ({data:?})", got, most);
                    c.compared(1);
                }
                c.state((w, h, n, a));
                Ok(())
            }),
            family("close_levels", "two peaks parted by a dip of k / (levels - 1), k 1..6, at many level counts up to 65535: two systems exactly when the dip is a level", |c| {
                let (w, h) = c.pick(&[(5usize, 4usize), (4, 9), (7, 6)]);
                let fine = c.pick(&[101usize, 5000, 32767, 32769, 40000, 65535]);
                let n = c.pick(&[2usize, 3, 50, 100, 254, 255, 256, 257, 1000, 4999, 5000, 20000, 32767, 32768, 32769, 40000, 50000, 65534, 65535]);
                let k = c.range(1, 6) as f64;
                let at = c.pick(&[0.01, 0.3, 0.5, 0.77, 1.0]);
                let unit = 1.0 / (fine as f64 - 1.0);
                let second = (at * (fine as f64 - 1.0)).round().max(k) * unit;
                let dip = second - k * unit;
                for turn in 0..h {
                    // rows 0 and 2 are peaks, every way from one to the other leads over a row with the dip
                    let data: Vec<f64> = (0..w * h).map(|i| match (i / w + turn) % h {
                        0 => [0.0f64, 1.0][(i % w == w / 2) as usize].max(dip),
                        1 => dip,
                        2 => [0.0f64, second][(i % w == 1) as usize].max(dip),
                        _ => 0.0,
                    }).collect();
                    partition_ok(c, &data, w, h, n, "close levels")?;
                }
                c.state((w, h, fine, n, k.to_bits(), at.to_bits()));
                Ok(())
            }),
            family("one_level", "every pattern over {0,1} on 3x4 and 4x4 with no or one level: one system", |c| {
                let (w, h) = c.pick(&[(3usize, 4usize), (4, 4)]);
                let data: Vec<f64> = (0..w * h).map(|_| c.choose(2) as f64).collect();
                let n = c.pick(&[1usize, 0]);
                match c.run("watershed", || watershed(&data, w, h, n, None))? {
                    Err(_) if n == 0 => (),
                    Err(e) => return Err(format!("{w}x{h} {n} levels: refused {e:?}").into()),
                    Ok(got) => {
                        labels_ok(&got.0, got.1, w, h, &|| format!("{w}x{h} {n} levels {data:?}"))?;
                        ensure!(got.1 == 2, "{w}x{h} {n} levels: {} systems in {data:?}", got.1 - 1);
                    }
                }
                c.compared(1);
                c.state((w, h, n, bits(&data)));
                Ok(())
            }),
            family("many_peaks", "every size of 6..72 x 6..72 in steps of 3, and 514x130, with a peak at every second bin both ways (up to 16705 systems)", |c| {
                let (w, h) = if c.flag() { c.pick(&[(514usize, 130usize), (130, 514)]) } else { (c.range(2, 24) as usize * 3, c.range(1, 12) as usize * 6) };
                let falls = c.flag();
                let peak = |i: usize| (i % w) % 2 == 0 && (i / w) % 2 == 0;
                let data: Vec<f64> = (0..w * h).map(|i| if !peak(i) { 0.0 } else if falls { 1.0 + 0.5 * (i % 97) as f64 / 97.0 } else { 1.0 }).collect();
                let n = (0..w * h).filter(|i| peak(*i)).count();
                let (labels, count) = c.run("watershed", || watershed(&data, w, h, 40, None))?.map_err(|e| format!("{w}x{h}: refused {e:?}"))?;
                ensure!(count == n + 1, "{w}x{h}: {} systems instead of {n}", count - 1);
                let own: BTreeSet<i32> = (0..w * h).filter(|i| peak(*i)).map(|i| labels[i]).collect();
                ensure!(own.len() == n && own.first() == Some(&1) && own.last() == Some(&(n as i32)), "{w}x{h}: {} labels at {n} peaks, {:?} to {:?}", own.len(), own.first(), own.last());
                for i in 0..w * h {
                    let near = peak(i) || neighbours(w, h, i).iter().any(|b| peak(*b) && labels[*b] == labels[i]);
                    ensure!(near, "{w}x{h}: bin {i} carries label {}, which none of its peaks has", labels[i]);
                }
                c.compared(n as u64);
                c.state((w, h, falls));
                Ok(())
            }),
            family("corridors", "two equal peaks side by side with a ridge of length 1..24 between them running over every frequency, flanks of several depths, every rotation", |c| {
                let len = c.range(1, 24) as usize;
                let h = c.range(5, 9) as usize;
                let rot = c.choose(h);
                let (flank, fall) = c.pick(&[(0.0, 0.01), (0.2, 0.01), (0.2, 0.0), (0.5, 0.02), (0.05, 0.0)]);
                let back = c.flag();
                let w = len + 1;
                let mut data = vec![0.0; w * h];
                for f in 0..w {
                    let at = |d: usize| ((d + rot) % h) * w + if back { w - 1 - f } else { f };
                    data[at(1)] = 0.9 - fall * f as f64;
                    if f == 0 {
                        data[at(0)] = 1.0;
                        data[at(2)] = 1.0;
                    } else {
                        data[at(0)] = flank;
                        data[at(2)] = flank;
                    }
                }
                for n in [3, 10, 64, 100, 300] {
                    partition_ok(c, &data, w, h, n, "corridor")?;
                }
                Ok(())
            }),
            family("rotations", "cones and single-bin patterns on grids of 3..40 directions: every rotation gives the same number of systems", |c| {
                let h = c.range(3, 40) as usize;
                let w = c.pick(&[1usize, 3, 8]);
                let kind = c.choose(3);
                let base: Vec<f64> = match kind {
                    0 => cones(w, h, &[(0, 1.0, 0.13), (w * (h / 2), 0.7, 0.21)]),
                    1 => (0..w * h).map(|i| if i % w == 0 && (i / w) % 3 == 0 { 1.0 } else { 0.0 }).collect(),
                    _ => (0..w * h).map(|i| (((i * 7919) % 13) as f64) / 13.0 + if i % 5 == 0 { 1.0 } else { 0.0 }).collect(),
                };
                let first = watershed(&base, w, h, 100, None).map_err(|_| "refused".to_string())?.1;
                for r in 0..h {
                    let data: Vec<f64> = (0..w * h).map(|i| base[((i / w + r) % h) * w + i % w]).collect();
                    let (labels, count) = c.run("watershed", || watershed(&data, w, h, 100, None))?.map_err(|e| format!("refused {e:?}"))?;
                    labels_ok(&labels, count, w, h, &|| format!("{w}x{h} turned {r}"))?;
                    ensure!(count == first, "{w}x{h} pattern {kind}: {} systems, {} after turning by {r} bins", first - 1, count - 1);
                }
                c.state((h, w, kind));
                Ok(())
            }),
            family("constant", "grids 1..12 x 3..12 of one value: one system", |c| {
                let w = c.range(1, 12) as usize;
                let h = c.range(3, 12) as usize;
                let v = c.pick(&[0.0, 0.5, 17.0]);
                let n = c.pick(&[2usize, 100, 256]);
                partition_ok(c, &vec![v; w * h], w, h, n, "constant")?;
                let s = Spectra::new(geometric(0.05, 1.1, w), (0..h).map(|i| i as f64 * 2.0 * PI / h as f64).collect(), vec![v; w * h], DirectionConvention::From);
                let r = c.run("partition", || s.partition(n, None))?.map_err(|e| format!("refused {e:?}"))?;
                ensure!(r.1 == 2 && r.0.iter().all(|l| *l == 1), "constant spectrum {w}x{h}: {r:?}");
                let r = c.run("partition", || s.partition(n, Some(0.8)))?.map_err(|e| format!("refused {e:?}"))?;
                labels_ok(&r.0, r.1, w, h, &|| format!("blurred constant {w}x{h}"))
            }),
            family("blurred", "cones on several grids with blurs 0.3..3: labels are 1..n, all used, connected", |c| {
                let (w, h) = c.pick(&[(5usize, 6usize), (12, 12), (25, 24)]);
                let a = c.choose(12) * (w * h / 12);
                let b = c.choose(12) * (w * h / 12);
                let blur = c.pick(&[0.3f32, 0.8, 1.0, 3.0]);
                let n = c.pick(&[10usize, 100, 300]);
                let data = cones(w, h, &[(a, 1.0, 0.11), (b, 0.8, 0.07)]);
                let (labels, count) = c.run("watershed", || watershed(&data, w, h, n, Some(blur)))?.map_err(|e| format!("refused {e:?}"))?;
                labels_ok(&labels, count, w, h, &|| format!("blurred {blur} {w}x{h} {n} levels, cones at {a} and {b}"))?;
                c.state((w, h, n, &labels));
                Ok(())
            }),
            family("scales", "all patterns over {0,1,7} (thorough {0,1,3,7}) on 2x4 times 1e-12..1e9 and raised by up to 1e3 times that, 7 and 100 levels", |c| {
                let data: Vec<f64> = (0..8).map(|_| if c.thorough { c.pick(&[0.0, 1.0, 3.0, 7.0]) } else { c.pick(&[0.0, 1.0, 7.0]) }).collect();
                for unit in [1e-12, 1e-9, 1e-6, 1e-4, 1e-3, 0.02, 1e3, 1e6, 1e9] {
                    for base in [0.0, 0.5, 1e3] {
                        let data: Vec<f64> = data.iter().map(|v| (v + base) * unit).collect();
                        for n in [7, 100] {
                            partition_ok(c, &data, 2, 4, n, "scaled")?;
                        }
                    }
                }
                Ok(())
            }),
            family("narrow_blur", "all patterns over {0,51,170,255} (in units of 1, 0.01 and 400, and raised by 3 units) on 1x6, 2x3, 2x4 and 3x3 with a blur too narrow to reach the next bin x level counts 2..31: the same systems as without it", |c| {
                let (w, h) = c.pick(&[(1, 6), (2, 3), (2, 4), (3, 3)]);
                let data: Vec<f64> = (0..w * h).map(|i| if !c.thorough && w * h == 9 && i / 3 == 1 { c.pick(&[0.0, 170.0]) } else { c.pick(&[0.0, 51.0, 170.0, 255.0]) }).collect();
                let (unit, base) = c.pick(&[(1.0, 0.0), (0.01, 0.03), (400.0, 0.0)]);
                let data: Vec<f64> = data.iter().map(|v| v * unit + base).collect();
                if data.iter().all(|v| *v == data[0]) {
                    return Ok(());
                }
                for n in [2, 5, 8, 10, 31] {
                    partition_blur_ok(c, &data, w, h, n, Some(0.1), "pattern")?;
                }
                Ok(())
            }),
            family("wide_blur", "two far cones at every rotation on 20x24 with blurs 0.5..1.5 and 4..12 levels: two systems, one per cone", |c| {
                let (w, h) = (20usize, 24usize);
                let rot = c.choose(h);
                let (fa, fb) = c.pick(&[(4usize, 15usize), (15, 4), (9, 10), (10, 9)]);
                let blur = c.pick(&[0.5f32, 1.0, 1.5]);
                let n = c.pick(&[4usize, 6, 8, 12]);
                let unit = c.pick(&[1.0, 0.02, 300.0]);
                let (a, b) = (rot * w + fa, ((rot + 12) % h) * w + fb);
                let data: Vec<f64> = cones(w, h, &[(a, 1.0, 0.12), (b, 0.9, 0.1)]).iter().map(|v| v * unit).collect();
                let (labels, count) = c.run("watershed", || watershed(&data, w, h, n, Some(blur)))?.map_err(|e| format!("refused {e:?}"))?;
                let what = || format!("blur {blur}, {n} levels, cones at {a} and {b} of {w}x{h}");
                labels_ok(&labels, count, w, h, &what)?;
                ensure!(count == 3, "{}: {} systems", what(), count - 1);
                ensure!(labels[a] != labels[b], "{}: one system holds both", what());
                for (cell, other) in [(a, b), (b, a)] {
                    for k in neighbours(w, h, cell) {
                        ensure!(labels[k] == labels[cell] && labels[k] != labels[other], "{}: bin {k} beside the peak at {cell} carries {}", what(), labels[k]);
                    }
                }
                c.state((n, &labels));
                Ok(())
            }),
            family("wrong_size", "data of every length 0..30 for every grid 1..5 x 1..5", |c| {
                let (w, h, len) = (c.range(1, 5) as usize, c.range(3, 5) as usize, c.range(0, 30) as usize);
                let data: Vec<f64> = (0..len).map(|i| (i % 3) as f64).collect();
                let r = c.run("watershed", || watershed(&data, w, h, 10, None))?;
                ensure!(r.is_ok() == (len == w * h), "{len} values for a {w}x{h} grid: {}", if r.is_ok() { "accepted" } else { "refused" });
                c.state((w, h, len));
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// C15

fn split_ok(c: &mut Ctx, s: &Spectra, parts: &(Vec<i32>, usize)) -> Verdict {
    let (labels, count) = parts;
    let same = |a: &[f64], b: &[f64]| bits(a) == bits(b);
    let one = |x: &Spectra, id: i32, what: &str| -> Verdict {
        ensure!(same(&x.frequency, &s.frequency) && same(&x.direction_raw(), &s.direction_raw()), "{what}: axes changed");
        ensure!(format!("{:?}", x.dir_convention) == format!("{:?}", s.dir_convention), "{what}: convention changed");
        ensure!(x.energy.len() == s.energy.len(), "{what}: {} energies", x.energy.len());
        for i in 0..s.energy.len() {
            let want = if labels[i] == id { s.energy[i] } else { 0.0 };
            ensure!(x.energy[i] == want, "{what} labels {labels:?}: bin {i} holds {} instead of {want}", x.energy[i]);
        }
        Ok(())
    };
    for id in 0..*count as i32 {
        let x = c.run("from_component", || Spectra::from_component(s, parts, id))?;
        one(&x, id, &format!("component {id}"))?;
    }
    for limit in std::iter::once(None).chain((0..=count + 2).map(Some)) {
        let all = c.run("split_from_components", || Spectra::split_from_components(s, parts, limit))?;
        let n = limit.unwrap_or(*count).min(*count);
        ensure!(all.len() == n, "limit {limit:?} of {count}: {} spectra", all.len());
        for (id, x) in all.iter().enumerate() {
            one(x, id as i32, &format!("limit {limit:?}, spectrum {id}"))?;
        }
        if n == *count {
            for i in 0..s.energy.len() {
                let total: f64 = all.iter().map(|x| x.energy[i]).sum();
                let holders = all.iter().filter(|x| x.energy[i] != 0.0).count();
                ensure!(total == s.energy[i] && holders == (s.energy[i] != 0.0) as usize, "bin {i}: {total} of {} in {holders} systems", s.energy[i]);
            }
        }
    }
    Ok(())
}

pub fn c15() -> Prop {
    Prop {
        id: "C15",
        level: "model_checking",
        rule: "every label assignment over small grids; bin-by-bin comparison with the source",
        assumptions: vec!["labels run from 0 (no system) to the size of the label set minus one"],
        families: vec![
            family("assignments", "all assignments of labels 0..3 on 2x3 and 1x5 (thorough 2x4), distinct energies with zeros, every limit", |c| {
                let grids = if c.thorough { vec![(2, 3), (1, 5), (2, 4), (4, 2)] } else { vec![(2, 3), (1, 5), (3, 2)] };
                let (w, h): (usize, usize) = c.pick(&grids);
                let labels: Vec<i32> = (0..w * h).map(|_| c.choose(4) as i32).collect();
                let zero = c.choose(w * h + 1);
                let conv = CONV[labels.iter().sum::<i32>() as usize % 3].clone();
                let e: Vec<f64> = (0..w * h).map(|i| if i == zero { 0.0 } else { 0.25 + i as f64 }).collect();
                let s = Spectra::new(geometric(0.05, 1.2, w), (0..h).map(|i| 0.1 + i as f64).collect(), e, conv);
                split_ok(c, &s, &(labels.clone(), 4))?;
                c.state((w, h, zero, &labels));
                c.sample(|| format!("{w}x{h} labels {labels:?}, empty bin {zero}"));
                Ok(())
            }),
            family("from_partition", "every {0,1,3} pattern on 2x4 (thorough 3x4), labels from partition itself", |c| {
                let (w, h): (usize, usize) = c.t((2, 4), (3, 4));
                let e: Vec<f64> = (0..w * h).map(|_| c.pick(&[0.0, 1.0, 3.0])).collect();
                let s = Spectra::new(geometric(0.05, 1.2, w), (0..h).map(|i| i as f64 * 2.0 * PI / h as f64).collect(), e, DirectionConvention::Towards);
                let parts = c.run("partition", || s.partition(10, None))?.map_err(|e| format!("{e:?}"))?;
                split_ok(c, &s, &parts)?;
                c.state(&parts.0);
                Ok(())
            }),
            family("values", "every labelling 0..2 of 5 bins (thorough 7) whose energies run from 1e-300 to 1e300, some below zero as a regridding or a subtraction leaves them", |c| {
                let n = c.t(5, 7);
                let labels: Vec<i32> = (0..n).map(|_| c.choose(3) as i32).collect();
                let turn = c.choose(7);
                let e: Vec<f64> = (0..n).map(|i| [1e-300, -2.0, 1e300, -1e-9, 1e-12, 7e5, 0.3][(i + turn) % 7]).collect();
                let s = Spectra::new(vec![0.07], (0..n).map(|i| 0.1 + i as f64).collect(), e, DirectionConvention::From);
                split_ok(c, &s, &(labels.clone(), 3))?;
                c.state((&labels, turn));
                Ok(())
            }),
            family("sizes", "grids of 1..33 x 3..33, labels in stripes, every limit", |c| {
                let w = c.range(1, 33) as usize;
                let h = c.range(3, 33) as usize;
                let n = c.pick(&[1i32, 2, 7]);
                let labels: Vec<i32> = (0..w * h).map(|i| 1 + (i as i32 % n)).collect();
                let e: Vec<f64> = (0..w * h).map(|i| 1.0 + i as f64).collect();
                let s = Spectra::new((0..w).map(|i| 0.03 + 0.01 * i as f64).collect(), (0..h).map(|i| i as f64 * 2.0 * PI / h as f64).collect(), e, DirectionConvention::Met);
                split_ok(c, &s, &(labels, n as usize + 1))?;
                c.state((w, h, n));
                Ok(())
            }),
            family("many_systems", "grids of 17x16, 30x12, 12x30, 33x33, one system per bin or per two bins (up to 1090 labels), in order, reversed or strided: every system alone, the whole split, and limits 0, 1, 255..258 and beyond", |c| {
                let (w, h) = c.pick(&[(17usize, 16usize), (30, 12), (12, 30), (33, 33)]);
                let per = c.pick(&[1usize, 2]);
                let order = c.choose(3);
                let n = (w * h).div_ceil(per);
                let labels: Vec<i32> = (0..w * h)
                    .map(|i| match order {
                        0 => 1 + (i / per) as i32,
                        1 => (n - i / per) as i32,
                        _ => 1 + (i * 7 % n) as i32,
                    })
                    .collect();
                let e: Vec<f64> = (0..w * h).map(|i| 1.0 + i as f64).collect();
                let s = Spectra::new((0..w).map(|i| 0.03 + 0.01 * i as f64).collect(), (0..h).map(|i| i as f64 * 2.0 * PI / h as f64).collect(), e, DirectionConvention::Met);
                let parts = (labels, n + 1);
                let holds = |x: &Spectra, id: usize, what: &str| -> Verdict {
                    ensure!(bits(&x.frequency) == bits(&s.frequency) && bits(&x.direction_raw()) == bits(&s.direction_raw()) && x.energy.len() == s.energy.len(), "{what}: axes changed");
                    for i in 0..w * h {
                        let want = if parts.0[i] as usize == id { s.energy[i] } else { 0.0 };
                        ensure!(x.energy[i] == want, "{what}: bin {i} of label {} holds {} instead of {want}", parts.0[i], x.energy[i]);
                    }
                    Ok(())
                };
                for id in 0..=n {
                    let x = c.run("from_component", || Spectra::from_component(&s, &parts, id as i32))?;
                    holds(&x, id, &format!("component {id} of {n} on {w}x{h}"))?;
                }
                for limit in [None, Some(0), Some(1), Some(255), Some(256), Some(257), Some(258), Some(n), Some(n + 1), Some(n + 9)] {
                    let all = c.run("split_from_components", || Spectra::split_from_components(&s, &parts, limit))?;
                    ensure!(all.len() == limit.unwrap_or(n + 1).min(n + 1), "limit {limit:?} of {}: {} spectra", n + 1, all.len());
                    for (id, x) in all.iter().enumerate() {
                        holds(x, id, &format!("limit {limit:?}, spectrum {id} of {n} on {w}x{h}"))?;
                    }
                }
                c.state((w, h, per, order));
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// C16

struct Sys {
    hs: f64,
    one: Vec<f64>,
    mean: Option<f64>,
}

fn integrate(s: &Spectra, bearings: &[f64], dth: f64, pick: &dyn Fn(usize) -> bool) -> Sys {
    let nk = s.frequency.len();
    let wide = wave_weights(&s.frequency);
    let mut one = vec![0.0; nk];
    let mut w = vec![];
    let mut m0 = 0.0;
    for i in 0..s.energy.len() {
        if !pick(i) {
            continue;
        }
        let (ik, ith) = (i % nk, i / nk);
        one[ik] += s.energy[i] * dth;
        m0 += s.energy[i] * wide[ik] * dth;
        w.push((bearings[ith], s.energy[i] * wide[ik]));
    }
    Sys { hs: 4.0 * m0.sqrt(), one, mean: strong_mean(&w) }
}

fn swell_fits(what: &str, x: &surfrs::swell::Swell, want: &Sys, freq: &[f64]) -> Verdict {
    let (h, t) = (x.wave_height.get_value(), x.period.get_value());
    ensure!(close(h, want.hs, 1e-9 * want.hs.min(1.0), 1e-6), "{what}: wave height {h} instead of {}", want.hs);
    let top = want.one.iter().copied().fold(0.0, f64::max);
    if top > 0.0 {
        ensure!((0..freq.len()).any(|k| want.one[k] >= top * (1.0 - 1e-9) && close(t, 1.0 / freq[k], 0.0, 1e-9)), "{what}: period {t}, one-dimensional spectrum {:?}", want.one);
    }
    // the density at the peak: the top of the parabola through the three bins there
    let tops: Vec<f64> = (0..freq.len())
        .filter(|k| top > 0.0 && want.one[*k] >= top * (1.0 - 1e-9))
        .map(|k| {
            let e = want.one[k];
            if k == 0 || k + 1 == freq.len() {
                return e;
            }
            let (l, r) = (want.one[k - 1], want.one[k + 1]);
            let bend = l - 2.0 * e + r;
            if bend == 0.0 { e } else { e - (l - r).powi(2) / (8.0 * bend) }
        })
        .collect();
    if !tops.is_empty() {
        let got = x.spectral_density.as_ref().map_or(f64::NAN, |v| v.get_value());
        ensure!(tops.iter().any(|t| close(got, *t, 1e-9 * top.min(1.0), 1e-6)), "{what}: a density of {got} at the peak instead of {tops:?}");
    }
    let d = x.direction.value.as_ref().ok_or_else(|| format!("{what}: no direction"))?;
    ensure!((0..=360).contains(&d.degrees), "{what}: direction {}", d.degrees);
    if let Some(m) = want.mean {
        ensure!(circ(d.degrees as f64, m) <= 1.01, "{what}: direction {} instead of {m}", d.degrees);
    }
    Ok(())
}

fn swells_ok(c: &mut Ctx, s: &Spectra, bearings: &[f64], parts: &(Vec<i32>, usize), env: (Option<f64>, Option<f64>, Option<f64>)) -> Verdict {
    let dth = 2.0 * PI / bearings.len() as f64;
    let got = c.run("swell_data", || s.swell_data(env.0, env.1, env.2, parts))?.map_err(|e| format!("swell_data: {e}"))?;
    let what = || format!("{:?} energies {:?} labels {:?} {env:?}", s.dir_convention, s.energy, parts.0);
    let all = integrate(s, bearings, dth, &|_| true);
    swell_fits(&format!("summary of {}", what()), &got.summary, &all, &s.frequency)?;
    let mut left: Vec<i32> = vec![];
    let mut square = 0.0;
    let mut dropped = false;
    for l in 1..parts.1 as i32 {
        let sys = integrate(s, bearings, dth, &|i| parts.0[i] == l);
        let found: Vec<_> = got.components.iter().filter(|x| x.partition == Some(l as usize)).collect();
        if (sys.hs - 0.1).abs() < 1e-9 {
            dropped = true;
            continue;
        }
        if sys.hs < 0.1 {
            ensure!(found.is_empty(), "system {l} of {} has a height of {} and is reported", what(), sys.hs);
            dropped |= sys.hs > 0.0;
            continue;
        }
        ensure!(found.len() == 1, "system {l} of {} is reported {} times", what(), found.len());
        swell_fits(&format!("system {l} of {}", what()), found[0], &sys, &s.frequency)?;
        square += found[0].wave_height.get_value().powi(2);
        left.push(l);
    }
    dropped |= (0..parts.0.len()).any(|i| parts.0[i] < 1 && s.energy[i] > 0.0);
    ensure!(got.components.len() == left.len() || dropped, "{} swells for systems {left:?} of {}", got.components.len(), what());
    ensure!(got.components.iter().all(|x| x.partition.is_some_and(|p| p >= 1 && p < parts.1)), "a swell without a system in {}", what());
    if !dropped {
        let h = got.summary.wave_height.get_value();
        ensure!(close(square, h * h, 1e-9, 1e-6), "squared heights add up to {square}, summary {} for {}", h * h, what());
    }
    let e: Vec<f64> = got.components.iter().map(|x| x.energy.as_ref().map_or(f64::NAN, |e| e.get_value())).collect();
    for (x, e) in got.components.iter().zip(&e) {
        let (h, t) = (x.wave_height.get_value(), x.period.get_value());
        let want = 1029.0 * 9.81 * 9.81 / (16.0 * PI) * h * h * t * t / 1000.0;
        ensure!(close(*e, want, 1e-9, 1e-6), "energy {e} of a swell of {h} m and {t} s ({want})");
    }
    ensure!(e.windows(2).all(|p| p[0] >= p[1]), "swells are not ordered by energy: {e:?} for {}", what());
    let total = got.summary.energy.as_ref().map_or(f64::NAN, |e| e.get_value());
    ensure!(close(total, e.iter().sum(), 1e-9, 1e-9), "summary energy {total} of {e:?}");
    c.compared(3 * got.components.len() as u64 + 4);
    Ok(())
}

pub fn c16() -> Prop {
    const ENV: [(Option<f64>, Option<f64>, Option<f64>); 6] = [
        (None, None, None),
        (Some(30.0), None, None),
        (Some(30.0), Some(12.0), Some(200.0)),
        (None, Some(25.0), Some(0.0)),
        (Some(2.0), Some(0.0), Some(359.0)),
        (Some(4000.0), Some(60.0), Some(90.0)),
    ];
    let off = |conv: &DirectionConvention, nth: usize| match conv {
        DirectionConvention::From => 0.0,
        DirectionConvention::Towards => (180.0f64).rem_euclid(360.0 / nth as f64),
        DirectionConvention::Met => (270.0f64).rem_euclid(360.0 / nth as f64),
    };
    Prop {
        id: "C16",
        level: "model_checking",
        rule: "every labelling and energy pattern of a small grid; the oracle integrates the bins of each label with half-way bandwidths and an f^-5 tail",
        assumptions: vec![
            "frequencies in geometric progression (as the wave model writes them), directions evenly spaced around the circle",
            "directions are compared within one degree and only where the mean is well defined",
        ],
        families: vec![
            family("labellings", "energies {0,0.6,5} x labels {0,1,2} on 2x3 (thorough also 3x3 with {0.6,5}), all conventions", move |c| {
                let (w, h): (usize, usize) = if c.thorough { c.pick(&[(2, 3), (3, 3)]) } else { (2, 3) };
                let menu: &[f64] = if w * h > 6 { &[0.6, 5.0] } else { &[0.0, 0.6, 5.0] };
                let e: Vec<f64> = (0..w * h).map(|_| c.pick(menu)).collect();
                let labels: Vec<i32> = (0..w * h).map(|_| c.choose(3) as i32).collect();
                let k = e.iter().map(|v| *v as usize).sum::<usize>() + labels.iter().sum::<i32>() as usize;
                let conv = CONV[k % 3].clone();
                let (mut s, b) = spectrum_in(&conv, &geometric(0.055, 1.3, w), h, off(&conv, h), &|_, _| 0.0);
                s.energy = e;
                swells_ok(c, &s, &b, &(labels.clone(), 3), ENV[k / 3 % 6])?;
                c.state((bits(&s.energy), &labels));
                Ok(())
            }),
            family("isolation", "energies {0.3,4} on 3x4 x 24 (thorough: all 2-system) splits x conventions", move |c| {
                let e: Vec<f64> = (0..12).map(|_| c.pick(&[0.3, 4.0])).collect();
                let mask = if c.thorough { c.choose(4096) } else { c.pick(&[0usize, 0xFFF, 0x0F0, 0x00F, 0xF00, 0x333, 0x555, 0x249, 0x924, 0x492, 0x001, 0x800, 0x7FF, 0x3C3, 0xA5A, 0x0FF, 0xFF0, 0x6DB, 0x111, 0x888, 0xC3C, 0x03F, 0xFC0, 0x5A5]) };
                let labels: Vec<i32> = (0..12).map(|i| 1 + (mask >> i & 1) as i32).collect();
                let conv = CONV[(mask + e.iter().filter(|x| **x > 1.0).count()) % 3].clone();
                let (mut s, b) = spectrum_in(&conv, &geometric(0.04, 1.21, 3), 4, off(&conv, 4), &|_, _| 0.0);
                s.energy = e;
                swells_ok(c, &s, &b, &(labels, 3), ENV[mask % 6])?;
                c.state((bits(&s.energy), mask));
                Ok(())
            }),
            family("partitioned", "{0,1,6} patterns on 2x4 (thorough 3x4), labels from partition, every depth and wind, all conventions", move |c| {
                let (w, h): (usize, usize) = c.t((2, 4), (3, 4));
                let e: Vec<f64> = (0..w * h).map(|_| c.pick(&[0.0, 1.0, 6.0])).collect();
                let env = if c.thorough { c.pick(&ENV[..2]) } else { c.pick(&ENV) };
                for conv in &CONV {
                    let (mut s, b) = spectrum_in(conv, &geometric(0.07, 1.1, w), h, off(conv, h), &|_, _| 0.0);
                    s.energy = e.clone();
                    let parts = c.run("partition", || s.partition(50, None))?.map_err(|e| format!("{e:?}"))?;
                    swells_ok(c, &s, &b, &parts, env)?;
                    c.state((bits(&s.energy), &parts.0));
                }
                Ok(())
            }),
            family("realistic", "two swells on grids of 2..100 frequencies and 4..72 directions, all conventions, depths and winds, energies scaled by 1e-9..1e6", move |c| {
                let w = c.pick(&[2usize, 3, 10, 15, 16, 17, 25, 29, 31, 32, 33, 50, 64, 65, 100]);
                let h = c.pick(&[4usize, 12, 24, 32, 33, 36, 72]);
                let conv = c.pick(&CONV);
                let env = c.pick(&ENV);
                let scale = c.pick(&[1e-9, 1e-4, 0.01, 1.0, 100.0, 1e6]);
                let freq = geometric(0.035, if w > 50 { 1.03 } else if w > 30 { 1.07 } else { 1.1 }, w);
                let (a, b2) = (40.0, 250.0);
                let (s, b) = spectrum_in(&conv, &freq, h, off(&conv, h), &|ik, from| {
                    let one = (-(circ(from, a) / 30.0).powi(2) - (ik as f64 - w as f64 * 0.3).powi(2) / 8.0).exp();
                    let two = 0.4 * (-(circ(from, b2) / 25.0).powi(2) - (ik as f64 - w as f64 * 0.7).powi(2) / 6.0).exp();
                    scale * (one + two)
                });
                let parts = c.run("partition", || s.partition(100, None))?.map_err(|e| format!("{e:?}"))?;
                swells_ok(c, &s, &b, &parts, env)?;
                let half: (Vec<i32>, usize) = (s.energy.iter().enumerate().map(|(i, _)| 1 + (circ(b[i / w], a) > 90.0) as i32).collect(), 3);
                swells_ok(c, &s, &b, &half, env)?;
                c.state((w, h, format!("{conv:?}"), scale.to_bits()));
                c.sample(|| format!("{w} frequencies x {h} directions, {conv:?}, {env:?}"));
                Ok(())
            }),
            family("small_swells", "a swell of 0.0800..0.1200 m in steps of 0.0001 beside a bigger one or alone: reported exactly from 0.1 m on", move |c| {
                let (w, h) = c.pick(&[(3usize, 4usize), (10, 24), (25, 36)]);
                let conv = c.pick(&CONV);
                let height = 0.08 + c.choose(401) as f64 * 1e-4;
                let big = c.pick(&[0.0, 3.0]);
                let freq = geometric(0.05, 1.1, w);
                let (mut s, b) = spectrum_in(&conv, &freq, h, off(&conv, h), &|ik, from| {
                    if circ(from, 40.0) < 90.0 { (-(ik as f64 - w as f64 * 0.4).powi(2) / 4.0).exp() } else { 0.5 * (-(ik as f64 - w as f64 * 0.6).powi(2) / 3.0).exp() }
                });
                let labels: Vec<i32> = b.iter().flat_map(|d| vec![1 + (circ(*d, 40.0) >= 90.0) as i32; w]).collect();
                let now: Vec<f64> = [1, 2].iter().map(|l| integrate(&s, &b, 2.0 * PI / h as f64, &|i| labels[i] == *l).hs).collect();
                for (e, l) in s.energy.iter_mut().zip(&labels) {
                    *e *= if *l == 1 { (height / now[0]).powi(2) } else { (big / now[1]).powi(2) };
                }
                swells_ok(c, &s, &b, &(labels, 3), ENV[0])?;
                c.state((w, h, format!("{conv:?}"), height.to_bits(), big.to_bits()));
                Ok(())
            }),
            family("storage", "two swells stored either way round from any of 4..36 directions, all conventions: the same swells", move |c| {
                let h = c.pick(&[4usize, 8, 12, 24, 36]);
                let conv = c.pick(&CONV);
                let start = c.choose(h);
                let down = c.flag();
                let order: Vec<usize> = (0..h).map(|i| if down { (start + h - i) % h } else { (start + i) % h }).collect();
                let freq = geometric(0.05, 1.12, 8);
                let (s, b) = spectrum_in(&conv, &freq, h, off(&conv, h), &|ik, from| {
                    (-(circ(from, 40.0) / 30.0).powi(2) - (ik as f64 - 2.0).powi(2) / 3.0).exp() * 9.0 + (-(circ(from, 250.0) / 30.0).powi(2) - (ik as f64 - 5.0).powi(2) / 3.0).exp() * 4.0
                });
                let b: Vec<f64> = order.iter().map(|o| b[*o]).collect();
                let s = reordered(&s, &order);
                let half: (Vec<i32>, usize) = (s.energy.iter().enumerate().map(|(i, _)| 1 + (circ(b[i / 8], 40.0) > 90.0) as i32).collect(), 3);
                swells_ok(c, &s, &b, &half, (None, None, None))?;
                let parts = c.run("partition", || s.partition(100, None))?.map_err(|e| format!("{e:?}"))?;
                swells_ok(c, &s, &b, &parts, (None, None, None))?;
                c.state((h, order, format!("{conv:?}")));
                Ok(())
            }),
            family("records", "point forecasts and buoy spectra with two separate swells, depths and winds missing or present: the swells of a record are those of its spectrum", move |c| {
                let forecast = c.flag();
                let conv = if forecast { c.pick(&CONV) } else { DirectionConvention::From };
                let (w, h) = (c.pick(&[12usize, 25]), c.pick(&[24usize, 36]));
                let (p, q) = (c.choose(12) as f64 * 30.0, c.pick(&[120.0, 180.0, 240.0]));
                let (big, small) = c.pick(&[(4.0, 1.5), (9.0, 9.5), (0.6, 2.0)]);
                let env = if forecast { c.pick(&ENV) } else { ENV[0] };
                let freq = geometric(0.05, if w == 12 { 1.15 } else { 1.07 }, w);
                let (a, b2) = ((w as f64 * 0.25).round(), (w as f64 * 0.7).round());
                let (s, b) = spectrum_in(&conv, &freq, h, off(&conv, h), &|ik, from| {
                    let bump = |dir: f64, at: f64, top: f64| top * (1.0 - circ(from, dir) / 50.0).max(0.0) * (1.0 - (ik as f64 - at).abs() / (w as f64 * 0.2)).max(0.0);
                    bump(p, a, big).max(bump(p + q, b2, small))
                });
                let day = chrono::Utc::now();
                let got = if forecast {
                    let r = ForecastSpectralWaveDataRecord {
                        date: day, reference_date: day, location: surfrs::location::Location::new(41.0, -71.0, "x".into()),
                        depth: dd(env.0, surfrs::units::Unit::Meters), wind_speed: dd(env.1, surfrs::units::Unit::MetersPerSecond), wind_direction: dir(env.2.map(|d| d as i32)),
                        current_speed: dd(None, surfrs::units::Unit::MetersPerSecond), current_direction: dir(None), spectra: s.clone(),
                    };
                    c.run("swell_data", || r.swell_data())?
                } else {
                    let r = DirectionalSpectralWaveDataRecord { date: day, spectra: s.clone() };
                    c.run("swell_data", || r.swell_data())?
                }.map_err(|e| format!("swell_data: {e}"))?;
                let dth = 2.0 * PI / h as f64;
                swell_fits("summary", &got.summary, &integrate(&s, &b, dth, &|_| true), &s.frequency)?;
                ensure!(got.components.len() == 2, "{} swells of a spectrum with two: {:?}", got.components.len(), got.components);
                for (name, at) in [("first", p), ("second", p + q)] {
                    let want = integrate(&s, &b, dth, &|i| circ(b[i / w], at) < 55.0);
                    let best = got.components.iter().min_by(|x, y| circ(x.direction.get_value().degrees as f64, at).total_cmp(&circ(y.direction.get_value().degrees as f64, at))).unwrap();
                    let hs = best.wave_height.get_value();
                    ensure!(close(hs, want.hs, 1e-9, 0.03), "{name} swell from {at}: {hs} m instead of {}", want.hs);
                    ensure!(circ(best.direction.get_value().degrees as f64, want.mean.unwrap()) <= 3.0, "{name} swell from {at}: {:?}", best.direction);
                    let k = (0..w).max_by(|x, y| want.one[*x].total_cmp(&want.one[*y])).unwrap();
                    ensure!(close(best.period.get_value(), 1.0 / freq[k], 0.0, 1e-9), "{name} swell: period {:?} instead of {}", best.period, 1.0 / freq[k]);
                }
                let e: Vec<f64> = got.components.iter().map(|x| x.energy.as_ref().map_or(f64::NAN, |e| e.get_value())).collect();
                ensure!(e[0] >= e[1], "energies {e:?}");
                c.state((forecast, format!("{conv:?}"), w, h, p.to_bits(), q.to_bits(), big.to_bits()));
                Ok(())
            }),
            family("many_systems", "1..40 systems of one bin each on 5x8, energies rising, falling and equal", move |c| {
                let n = c.range(1, 40) as usize;
                let order = c.choose(3);
                let (mut s, b) = spectrum_in(&DirectionConvention::From, &geometric(0.05, 1.2, 5), 8, 0.0, &|_, _| 0.0);
                let mut labels = vec![0; 40];
                for i in 0..n {
                    labels[i] = i as i32 + 1;
                    s.energy[i] = match order {
                        0 => 1.0 + i as f64,
                        1 => 50.0 - i as f64,
                        _ => 2.0,
                    };
                }
                swells_ok(c, &s, &b, &(labels, n + 1), ENV[0])?;
                c.state((n, order));
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// C20

/// The same sea state stored with its bins in another order.
fn reordered(s: &Spectra, order: &[usize]) -> Spectra {
    let nk = s.frequency.len();
    let d = s.direction_raw();
    let mut e = vec![];
    for o in order {
        e.extend_from_slice(&s.energy[o * nk..(o + 1) * nk]);
    }
    Spectra::new(s.frequency.clone(), order.iter().map(|o| d[*o]).collect(), e, s.dir_convention.clone())
}

/// the targets asked, and targets of the shape of the source itself taken from them
fn regrid_ok(c: &mut Ctx, s: &Spectra, bearings: &[f64], tf: &[f64], td: &[f64]) -> Verdict {
    let (nk, nth) = (s.frequency.len(), bearings.len());
    regrid_one(c, s, bearings, tf, td)?;
    if nth > 12 || tf.len() < nk || td.len() < nth {
        return Ok(());
    }
    for start in 0..=td.len() - nth {
        regrid_one(c, s, bearings, &s.frequency, &td[start..start + nth])?;
    }
    for start in 0..=tf.len() - nk {
        regrid_one(c, s, bearings, &tf[start..start + nk], &td[..nth])?;
    }
    Ok(())
}

fn regrid_one(c: &mut Ctx, s: &Spectra, bearings: &[f64], tf: &[f64], td: &[f64]) -> Verdict {
    let g = c.run("interpolate_to_grid", || s.interpolate_to_grid(tf, td))?;
    let nk = s.frequency.len();
    ensure!(bits(&g.frequency) == bits(tf), "frequencies {:?} instead of {tf:?}", g.frequency);
    ensure!(matches!(g.dir_convention, DirectionConvention::From), "convention {:?}", g.dir_convention);
    let gd = g.direction_deg();
    ensure!(gd.len() == td.len() && gd.iter().zip(td).all(|(a, b)| circ(*a, *b) < 1e-9), "directions {gd:?} instead of {td:?}");
    ensure!(g.energy.len() == tf.len() * td.len(), "{} energies", g.energy.len());
    // neighbours of every target
    let around = |d: f64| -> Vec<usize> {
        if let Some(i) = bearings.iter().position(|b| circ(*b, d) < 1e-9) {
            return vec![i];
        }
        let lo = (0..bearings.len()).min_by(|a, b| (d - bearings[*a]).rem_euclid(360.0).total_cmp(&(d - bearings[*b]).rem_euclid(360.0))).unwrap();
        let hi = (0..bearings.len()).min_by(|a, b| (bearings[*a] - d).rem_euclid(360.0).total_cmp(&(bearings[*b] - d).rem_euclid(360.0))).unwrap();
        vec![lo, hi]
    };
    for (i, f) in tf.iter().enumerate() {
        let ks: Vec<usize> = if let Some(k) = s.frequency.iter().position(|x| x == f) {
            vec![k]
        } else if *f > s.frequency[nk - 1] {
            vec![nk - 1]
        } else {
            let hi = s.frequency.iter().position(|x| x > f).unwrap();
            if hi == 0 { vec![] } else { vec![hi - 1, hi] }
        };
        for (j, d) in td.iter().enumerate() {
            let got = g.energy[i + j * tf.len()];
            let cell = || format!("energies {:?} {:?} on {:?} x {bearings:?}: value at {f} Hz, {d} degrees", s.energy, s.dir_convention, s.frequency);
            ensure!(got.is_finite() && got >= 0.0, "{} is {got}", cell());
            if ks.is_empty() {
                ensure!(got == 0.0, "{}, below the lowest frequency, is {got}", cell());
                continue;
            }
            let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
            for k in &ks {
                for t in around(*d) {
                    let v = s.energy[k + t * nk];
                    lo = lo.min(v);
                    hi = hi.max(v);
                }
            }
            ensure!(got >= lo - 1e-9 * (1.0 + hi) && got <= hi + 1e-9 * (1.0 + hi), "{} is {got}, surrounding bins {lo}..{hi}", cell());
        }
    }
    c.compared(g.energy.len() as u64);
    Ok(())
}

fn permutation(c: &mut Ctx, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    while !left.is_empty() {
        let i = c.choose(left.len());
        out.push(left.remove(i));
    }
    out
}

pub fn c20() -> Prop {
    Prop {
        id: "C20",
        level: "model_checking",
        rule: "every energy pattern of a small grid in every storage order and convention; every target is compared with the bins around it",
        assumptions: vec!["at least 2 frequencies, frequencies ascending, no direction stored twice"],
        families: vec![
            family("patterns", "all patterns over {0,1,4} on 2x3, 3x3 (thorough also 2x5, 4x3), every convention; targets on, between and outside the bins", |c| {
                let grids = if c.thorough { vec![(2, 3), (3, 3), (2, 4), (2, 5), (4, 3)] } else { vec![(2, 3), (2, 4), (3, 3)] };
                let (w, h): (usize, usize) = c.pick(&grids);
                let e: Vec<f64> = (0..w * h).map(|_| c.pick(&[0.0, 1.0, 4.0])).collect();
                let freq = geometric(0.05, 1.4, w);
                let mut tf = vec![0.01, 0.0499, 0.04999, 0.049999];
                for k in 0..w {
                    tf.push(freq[k]);
                    if k + 1 < w {
                        tf.push(freq[k] * 1.1);
                        tf.push(freq[k] * 1.35);
                    }
                }
                tf.extend([freq[w - 1] * 1.01, 2.0]);
                for conv in &CONV {
                    let (mut s, b) = spectrum_in(conv, &freq, h, 10.0, &|_, _| 0.0);
                    s.energy = e.clone();
                    let mut td: Vec<f64> = b.clone();
                    td.extend(b.iter().map(|x| wrap360(x + 31.0)));
                    td.extend([0.0, 359.9, 180.0, 0.1]);
                    td.sort_by(f64::total_cmp);
                    regrid_ok(c, &s, &b, &tf, &td)?;
                    c.state((w, h, format!("{conv:?}"), bits(&e)));
                }
                c.sample(|| format!("{w}x{h} {e:?}"));
                Ok(())
            }),
            family("magnitudes", "all patterns over {0,1,4} on 2x3 (thorough 2x4) times 1e-12..1e9: the result is the same multiple", |c| {
                let (w, h): (usize, usize) = c.t((2, 3), (2, 4));
                let e: Vec<f64> = (0..w * h).map(|_| c.pick(&[0.0, 1.0, 4.0])).collect();
                let conv = c.pick(&CONV);
                let freq = geometric(0.05, 1.4, w);
                let (mut s, b) = spectrum_in(&conv, &freq, h, 10.0, &|_, _| 0.0);
                let tf = [0.01, freq[0], freq[0] * 1.1, freq[1], 2.0];
                let mut td: Vec<f64> = b.iter().copied().chain(b.iter().map(|x| wrap360(x + 31.0))).collect();
                td.sort_by(f64::total_cmp);
                s.energy = e.clone();
                let one = c.run("interpolate_to_grid", || s.interpolate_to_grid(&tf, &td))?;
                for unit in [1e-12, 1e-9, 1e-6, 1e-3, 30.0, 1e3, 1e6, 1e9] {
                    s.energy = e.iter().map(|v| v * unit).collect();
                    let g = c.run("interpolate_to_grid", || s.interpolate_to_grid(&tf, &td))?;
                    for i in 0..one.energy.len() {
                        ensure!(close(g.energy[i] / unit, one.energy[i], 1e-9, 1e-9), "energies {:?} {conv:?}: {} where the energies divided by {unit} give {}", s.energy, g.energy[i], one.energy[i]);
                    }
                }
                c.compared(8 * one.energy.len() as u64);
                c.state((format!("{conv:?}"), bits(&e)));
                Ok(())
            }),
            family("orders", "every order of 3..5 (thorough 6) stored directions, every convention, uneven offsets: the same result", |c| {
                let hi = c.t(5, 6);
                let h = c.range(3, hi) as usize;
                let conv = c.pick(&CONV);
                let offset = c.pick(&[0.0, 7.5, 59.0]);
                let order = permutation(c, h);
                let freq = vec![0.04, 0.07, 0.11];
                let (s, b) = spectrum_in(&conv, &freq, h, offset, &|ik, from| 1.0 + ik as f64 * 2.0 + ((from / 13.0) as i64 % 5) as f64);
                let p = reordered(&s, &order);
                let pb: Vec<f64> = order.iter().map(|o| b[*o]).collect();
                let mut td: Vec<f64> = (0..24).map(|i| i as f64 * 15.0).chain(b.iter().copied()).collect();
                td.sort_by(f64::total_cmp);
                let tf = [0.02, 0.04, 0.05, 0.07, 0.1, 0.11, 0.2];
                regrid_ok(c, &p, &pb, &tf, &td)?;
                let (x, y) = (s.interpolate_to_grid(&tf, &td), p.interpolate_to_grid(&tf, &td));
                for i in 0..x.energy.len() {
                    ensure!(close(x.energy[i], y.energy[i], 1e-9, 1e-9), "{conv:?} order {order:?}: {} instead of {}", y.energy[i], x.energy[i]);
                }
                c.state((h, format!("{conv:?}"), &order));
                Ok(())
            }),
            family("uneven", "every choice of 3..4 (thorough 5) of ten uneven directions, some 0.2 degrees apart or beside north, stored ascending, descending or turned", |c| {
                const ALL: [f64; 10] = [0.0, 0.2, 0.4, 47.0, 47.3, 90.0, 181.5, 270.0, 359.7, 359.9];
                let set = c.choose(1 << ALL.len());
                let most = c.t(4, 5);
                if !(3..=most).contains(&set.count_ones()) {
                    return Ok(());
                }
                let conv = c.pick(&CONV);
                let mut b: Vec<f64> = (0..ALL.len()).filter(|i| set >> i & 1 == 1).map(|i| ALL[i]).collect();
                match c.choose(3) {
                    0 => {}
                    1 => b.reverse(),
                    _ => b.rotate_left(2),
                }
                let freq = vec![0.04, 0.07, 0.11];
                let e: Vec<f64> = (0..b.len() * 3).map(|i| [0.0, 3.0, 1.0, 7.0, 0.5][i * 3 % 5]).collect();
                let s = Spectra::new(freq, b.iter().map(|x| stored(&conv, *x).to_radians()).collect(), e, conv.clone());
                let mut td: Vec<f64> = ALL.to_vec();
                td.extend([0.1, 0.3, 20.0, 47.1, 47.2, 60.0, 120.0, 181.0, 200.0, 300.0, 359.5, 359.8, 359.95]);
                td.sort_by(f64::total_cmp);
                regrid_ok(c, &s, &b, &[0.02, 0.04, 0.05, 0.07, 0.1, 0.11, 0.2], &td)?;
                c.state((set, format!("{conv:?}"), bits(&b)));
                Ok(())
            }),
            family("conventions", "one sea state on 4..24 directions in the three conventions, turned by every whole number of bins", |c| {
                let h = c.pick(&[4usize, 5, 8, 12, 24]);
                let rot = c.choose(h);
                let step = 360.0 / h as f64;
                let freq = geometric(0.04, 1.3, 4);
                let e = |ik: usize, b: f64| (1.0 + ik as f64) * (((b / step).round() as usize % h) * 7 % 5) as f64;
                let base = spectrum_in(&DirectionConvention::From, &freq, h, 0.0, &e).0;
                let tf = [0.03, 0.04, 0.045, 0.06, 0.09, 0.3];
                let td: Vec<f64> = (0..h * 4).map(|i| i as f64 * step / 4.0).collect();
                let want = c.run("interpolate_to_grid", || base.interpolate_to_grid(&tf, &td))?;
                for conv in &CONV {
                    let off = match conv {
                        DirectionConvention::From => 0.0,
                        DirectionConvention::Towards => (180.0f64).rem_euclid(step),
                        DirectionConvention::Met => (270.0f64).rem_euclid(step),
                    };
                    let s = spectrum_in(conv, &freq, h, off, &|ik, b| e(ik, wrap360(b - rot as f64 * step))).0;
                    let got = c.run("interpolate_to_grid", || s.interpolate_to_grid(&tf, &td))?;
                    for i in 0..tf.len() {
                        for j in 0..td.len() {
                            let turned = (j + 4 * rot) % td.len();
                            let (a, b) = (want.energy[i + j * tf.len()], got.energy[i + turned * tf.len()]);
                            ensure!(close(a, b, 1e-7, 1e-7), "{h} directions {conv:?} turned {rot} bins: {b} instead of {a} at {} Hz and {} degrees", tf[i], td[turned]);
                        }
                    }
                    c.compared(want.energy.len() as u64);
                }
                c.state((h, rot));
                Ok(())
            }),
            family("own_grid", "grids of 2..40 frequencies x 3..72 directions back onto themselves, every convention", |c| {
                let w = c.pick(&[2usize, 3, 7, 16, 17, 25, 31, 33, 40]);
                let h = c.pick(&[3usize, 4, 8, 16, 17, 24, 36, 64, 65, 72]);
                let conv = c.pick(&CONV);
                let offset = c.pick(&[0.0, 2.5]);
                let freq = geometric(0.0345, 1.1, w);
                let (s, b) = spectrum_in(&conv, &freq, h, offset, &|ik, from| ((ik * 31 + (from * 3.0) as usize * 17) % 23) as f64);
                let mut order: Vec<usize> = (0..h).collect();
                order.sort_by(|x, y| wrap360(b[*x] + 1e-9).total_cmp(&wrap360(b[*y] + 1e-9)));
                let td: Vec<f64> = order.iter().map(|o| wrap360(b[*o] + 1e-9)).map(|d| if d < 1e-6 { 0.0 } else { d - 1e-9 }).collect();
                let g = c.run("interpolate_to_grid", || s.interpolate_to_grid(&freq, &td))?;
                for (j, o) in order.iter().enumerate() {
                    for k in 0..w {
                        let (a, e) = (g.energy[k + j * w], s.energy[k + o * w]);
                        ensure!(close(a, e, 1e-7, 1e-7), "{w}x{h} {conv:?}: bin ({k},{}) became {a} instead of {e}", td[j]);
                    }
                }
                c.compared((w * h) as u64);
                c.state((w, h, format!("{conv:?}"), offset.to_bits()));
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// C21

pub fn c21() -> Prop {
    Prop {
        id: "C21",
        level: "model_checking",
        rule: "every probe at, between and beyond the bins of every pattern; the oracle brackets by exhaustive search",
        assumptions: vec!["frequencies ascending; directions are looked up in the stored angles (radians)"],
        families: vec![
            family("bracket_frequency", "axes of 1..40 frequencies, even and uneven; every bin, midpoints, one ulp either side, beyond both ends", |c| {
                let n = c.range(1, 40) as usize;
                let uneven = c.flag();
                let f: Vec<f64> = (0..n).map(|i| if uneven { 0.03 + 0.002 * (i * i) as f64 + 0.01 * i as f64 } else { 0.04 * 1.1f64.powi(i as i32) }).collect();
                let s = Spectra::new(f.clone(), vec![0.0, 2.0], vec![0.0; 2 * n], DirectionConvention::From);
                let mut probes = vec![0.0, f[0] / 2.0, f[n - 1] * 2.0, f64::MIN_POSITIVE];
                for (i, x) in f.iter().enumerate() {
                    probes.extend([*x, f64::from_bits(x.to_bits() + 1), f64::from_bits(x.to_bits() - 1)]);
                    if i + 1 < n {
                        probes.extend([(x + f[i + 1]) / 2.0, x * 0.9 + 0.1 * f[i + 1]]);
                    }
                }
                for p in probes {
                    let (a, b) = c.run("closest_k", || s.closest_k(p))?;
                    ensure!(a < n && b < n, "bins {a},{b} of {n}");
                    if p < f[0] {
                        ensure!((a, b) == (0, 0), "{p} Hz, below {f:?}, is between bins {a} and {b}");
                    } else if p > f[n - 1] {
                        ensure!((a, b) == (n - 1, n - 1), "{p} Hz, above {f:?}, is between bins {a} and {b}");
                    } else {
                        ensure!(f[a] <= p && p <= f[b] && (b == a + 1 || (a == b && p == f[n - 1])), "{p} Hz is between bins {a} and {b} of {f:?}");
                    }
                }
                c.state((n, uneven));
                Ok(())
            }),
            family("bracket_direction", "2..37 directions stored ascending from every start, descending, or shuffled; probes every 1/3 bin over three turns (of up to 12 directions: nine turns)", |c| {
                let n = c.pick(&[2usize, 3, 4, 5, 8, 12, 16, 17, 24, 36, 37]);
                let kind = c.choose(4);
                let start = c.choose(n);
                let step = 2.0 * PI / n as f64;
                let slot = |i: usize| match kind {
                    0 => (i + start) % n,
                    1 => (n - i + start) % n,
                    2 => (i * 7 + start) % n,
                    _ => i,
                };
                if kind == 3 && start > 0 || kind == 2 && n % 7 == 0 {
                    return Ok(());
                }
                let turn = if kind == 3 { -PI } else { 0.0 };
                let d: Vec<f64> = (0..n).map(|i| slot(i) as f64 * step + turn).collect();
                let s = Spectra::new(vec![0.05, 0.1], d.clone(), vec![0.0; 2 * n], DirectionConvention::Towards);
                let turns = if n <= 12 { 4 } else { 1 };
                for k in -3 * turns * n as i64..(3 + 3 * turns) * n as i64 {
                    // a bin reached after a full turn is only met within rounding
                    let beside = if k % 3 == 0 && !(0..3 * n as i64).contains(&k) { 1e-9 } else { 0.0 };
                    let p = k as f64 * step / 3.0 + turn + beside;
                    let (a, b) = c.run("closest_th", || s.closest_th(p))?;
                    ensure!(a < n && b < n, "bins {a},{b} of {n}");
                    let apart = circ(d[a].to_degrees(), d[b].to_degrees());
                    ensure!((apart - 360.0 / n as f64).abs() < 1e-6, "{n} directions (kind {kind}, start {start}): {p} rad is between bins {a} and {b}, {apart} degrees apart");
                    let (x, y) = (circ(p.to_degrees(), d[a].to_degrees()), circ(p.to_degrees(), d[b].to_degrees()));
                    ensure!((x + y - apart).abs() < 1e-6, "{n} directions (kind {kind}, start {start}): {p} rad does not lie between bins {a} ({}) and {b} ({})", d[a], d[b]);
                }
                c.state((n, kind, start));
                Ok(())
            }),
            family("uneven_directions", "every choice of 2..5 of nine uneven directions, some a degree apart or beside north, stored ascending, descending or turned: bracket and bilinear energy at and between them", |c| {
                const ALL: [f64; 9] = [0.0, 0.02, 0.05, 1.0, 1.6, 3.1, 4.0, 6.2, 6.27];
                let set = c.choose(1 << ALL.len());
                if !(2..=5).contains(&set.count_ones()) {
                    return Ok(());
                }
                let mut d: Vec<f64> = (0..ALL.len()).filter(|i| set >> i & 1 == 1).map(|i| ALL[i]).collect();
                let n = d.len();
                let up = d.clone();
                match c.choose(3) {
                    0 => {}
                    1 => d.reverse(),
                    _ => d.rotate_left(1),
                }
                let f = vec![0.05, 0.08];
                let e: Vec<f64> = (0..2 * n).map(|i| [3.0, 0.0, 1.0, 7.0, 0.5][i * 3 % 5]).collect();
                let s = Spectra::new(f.clone(), d.clone(), e.clone(), DirectionConvention::From);
                for i in 0..n {
                    let (a, width) = (up[i], (up[(i + 1) % n] - up[i]).rem_euclid(2.0 * PI));
                    let bin = |v: f64| d.iter().position(|x| *x == v).unwrap();
                    let (lo, hi) = (bin(a), bin(up[(i + 1) % n]));
                    for frac in [0.0, 0.1, 0.5, 0.9] {
                        for turn in [0.0, -2.0 * PI, 4.0 * PI] {
                            if frac == 0.0 && turn != 0.0 {
                                continue;
                            }
                            let q = a + frac * width + turn;
                            let got = c.run("closest_th", || s.closest_th(q))?;
                            if frac > 0.0 {
                                ensure!(got == (lo, hi) || got == (hi, lo), "directions {d:?}: {q} rad is between bins {got:?}, not {lo} and {hi}");
                            } else {
                                ensure!(got.0 == lo || got.1 == lo, "directions {d:?}: {q} rad is between bins {got:?}, not beside {lo}");
                            }
                            for (p, x) in [(0.05, 0.0), (0.06, 1.0 / 3.0), (0.01, 0.0), (0.2, 1.0)] {
                                let want = (e[2 * lo] * (1.0 - x) + e[2 * lo + 1] * x) * (1.0 - frac) + (e[2 * hi] * (1.0 - x) + e[2 * hi + 1] * x) * frac;
                                let got = c.run("interp_energy", || s.interp_energy(p, q))?;
                                ensure!(close(got, want, 1e-6, 1e-6), "energies {e:?} on directions {d:?}: {got} at {p} Hz and {q} rad instead of {want}");
                            }
                        }
                    }
                }
                c.state(bits(&d));
                Ok(())
            }),
            family("energy", "all patterns over {0,1,5} on 2x3, 3x3 (thorough 2x4, 3x4), probed on and between bins on both axes and beyond the frequencies", |c| {
                let grids = if c.thorough { vec![(2, 3), (3, 3), (1, 4), (2, 4), (3, 4)] } else { vec![(1, 4), (2, 3), (2, 4), (3, 3)] };
                let (w, h): (usize, usize) = c.pick(&grids);
                let e: Vec<f64> = (0..w * h).map(|_| c.pick(&[0.0, 1.0, 5.0])).collect();
                let start = if w * h <= 6 { c.choose(h) } else { e.iter().map(|v| *v as usize).sum::<usize>() % h };
                let step = 2.0 * PI / h as f64;
                let d: Vec<f64> = (0..h).map(|i| ((i + start) % h) as f64 * step + 0.2).collect();
                let f = geometric(0.05, 1.5, w);
                let s = Spectra::new(f.clone(), d.clone(), e.clone(), DirectionConvention::Met);
                let mut pf = vec![(0.01, 0, 0), (f[w - 1] * 3.0, w - 1, w - 1)];
                for k in 0..w {
                    pf.push((f[k], k, k));
                    if k + 1 < w {
                        pf.push((f[k] * 1.05, k, k + 1));
                        pf.push((f[k] * 1.49, k, k + 1));
                    }
                }
                for (p, k0, k1) in pf {
                    for i in 0..h {
                        for (frac, turn) in [(0.0, 0.0), (0.5, 0.0), (0.01, 2.0 * PI), (0.99, -2.0 * PI), (1e-9, 2.0 * PI)] {
                            let next = (0..h).find(|j| circ(d[*j].to_degrees(), (d[i] + step).to_degrees()) < 1e-6).unwrap();
                            let q = d[i] + frac * step + turn;
                            let got = c.run("interp_energy", || s.interp_energy(p, q))?;
                            let cells: Vec<f64> = if frac < 1e-6 { vec![e[k0 + i * w], e[k1 + i * w]] } else { vec![e[k0 + i * w], e[k1 + i * w], e[k0 + next * w], e[k1 + next * w]] };
                            let (lo, hi) = cells.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(l, h), v| (l.min(*v), h.max(*v)));
                            ensure!(got.is_finite() && got >= lo - 1e-7 && got <= hi + 1e-7, "energies {e:?} on {w}x{h} starting at {start}: {got} at {p} Hz and {q} rad, between {cells:?}");
                            // between two bins on each axis the value is the bilinear one
                            let x = if k0 == k1 { 0.0 } else { (p - f[k0]) / (f[k1] - f[k0]) };
                            let (a, b) = (e[k0 + i * w] * (1.0 - x) + e[k1 + i * w] * x, e[k0 + next * w] * (1.0 - x) + e[k1 + next * w] * x);
                            let want = a * (1.0 - frac) + b * frac;
                            ensure!(close(got, want, 1e-6, 1e-6), "energies {e:?} on {w}x{h} starting at {start}: {got} at {p} Hz and {q} rad instead of {want}");
                        }
                    }
                }
                for i in 0..w * h {
                    let at = c.run("energy_at", || s.energy_at(i % w, i / w))?;
                    ensure!(at == e[i], "energy_at({}, {}) is {at}", i % w, i / w);
                }
                let idx = s.energy_indices();
                ensure!(idx.len() == w * h && idx.iter().enumerate().all(|(i, p)| *p == (i % w, i / w)), "energy_indices {idx:?}");
                c.state((w, h, bits(&e)));
                Ok(())
            }),
            family("scales", "3..40 frequencies of every spacing (factor 1.0001..2, from 1e-4 to 1e3 Hz) x 4..360 uneven directions x energies times 1e-12..1e9: the bilinear value", |c| {
                let ratio = c.pick(&[1.0001, 1.01, 1.1, 2.0]);
                let base = c.pick(&[1e-4, 0.03, 1e3]);
                let w = c.pick(&[3usize, 10, 40]);
                let h = c.pick(&[4usize, 24, 90, 360]);
                let scale = c.pick(&[1e-12, 1.0, 1e9]);
                let f = geometric(base, ratio, w);
                let step = 2.0 * PI / h as f64;
                let d: Vec<f64> = (0..h).map(|i| (i as f64 + if i % 3 == 1 { 0.25 } else { 0.0 }) * step).collect();
                let e: Vec<f64> = (0..w * h).map(|i| scale * ((i * 7 + i / w) % 11) as f64).collect();
                let s = Spectra::new(f.clone(), d.clone(), e.clone(), DirectionConvention::From);
                for k in 0..w - 1 {
                    for i in (0..h).filter(|i| h <= 24 || i % 7 == 0 || i + 2 > h) {
                        let j = (i + 1) % h;
                        let wide = (d[j] - d[i]).rem_euclid(2.0 * PI);
                        for (x, y) in [(0.0, 0.0), (0.5, 0.5), (0.1, 0.8), (0.9, 0.05)] {
                            let (p, q) = (f[k] + x * (f[k + 1] - f[k]), d[i] + y * wide);
                            let got = c.run("interp_energy", || s.interp_energy(p, q))?;
                            let (a, b) = (e[k + i * w] * (1.0 - x) + e[k + 1 + i * w] * x, e[k + j * w] * (1.0 - x) + e[k + 1 + j * w] * x);
                            let want = a * (1.0 - y) + b * y;
                            ensure!(close(got, want, 1e-6 * scale, 1e-6), "{w} frequencies from {base} Hz times {ratio}, {h} directions: {got} at {p} Hz and {q} rad instead of {want}");
                        }
                    }
                }
                c.state((ratio.to_bits(), base.to_bits(), w, h, scale.to_bits()));
                Ok(())
            }),
            family("fractional_index", "axes of 1..40 bins; index from -3 to n+3 in steps of 1/8", |c| {
                let n = c.range(2, 40) as usize;
                let f: Vec<f64> = (0..n).map(|i| 0.03 + 0.001 * (i * i) as f64 + 0.01 * i as f64).collect();
                let d: Vec<f64> = (0..n).map(|i| i as f64 * 2.0 * PI / n as f64).collect();
                let s = Spectra::new(f.clone(), d.clone(), vec![0.0; n * n], DirectionConvention::From);
                for k in -24..(n as i64 + 3) * 8 {
                    let x = k as f64 / 8.0;
                    let clamped = x.clamp(0.0, n as f64 - 1.0);
                    let (lo, hi) = (clamped.floor() as usize, clamped.ceil() as usize);
                    for (what, axis, got) in [("frequency", &f, c.run("ik", || s.ik(x))?), ("direction", &d, c.run("ith", || s.ith(x))?)] {
                        ensure!(got >= axis[lo] - 1e-12 && got <= axis[hi] + 1e-12, "{what} at index {x} of {n} is {got}, bins {} and {}", axis[lo], axis[hi]);
                        let want = axis[lo] + (axis[hi] - axis[lo]) * (clamped - lo as f64);
                        ensure!(close(got, want, 1e-9, 1e-9), "{what} at index {x} of {n} is {got} instead of {want}");
                    }
                }
                c.state(n);
                Ok(())
            }),
            family("fractional_storage", "2..36 evenly spaced directions stored either way round from any bin; index in steps of 1/8", |c| {
                let h = c.pick(&[3usize, 4, 5, 8, 12, 24, 36]);
                let start = c.choose(h);
                let down = c.flag();
                let d: Vec<f64> = (0..h).map(|i| if down { (start + h - i) % h } else { (start + i) % h } as f64 * 2.0 * PI / h as f64).collect();
                let s = Spectra::new(vec![0.1, 0.2], d.clone(), vec![0.0; 2 * h], DirectionConvention::From);
                for k in -24..(h as i64 + 3) * 8 {
                    let x = k as f64 / 8.0;
                    let clamped = x.clamp(0.0, h as f64 - 1.0);
                    let want = (start as f64 + if down { -clamped } else { clamped }) * 360.0 / h as f64;
                    let got = c.run("ith", || s.ith(x))?.to_degrees();
                    ensure!(circ(got, want) < 1e-6, "direction at index {x} of {d:?} is {got} instead of {want} degrees");
                }
                c.state((h, start, down));
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// C22

fn widths(a: &[f64]) -> Vec<f64> {
    (0..a.len()).map(|i| if i == 0 { a[1] - a[0] } else { a[i] - a[i - 1] }).collect()
}

/// The same for directions: the distance from the stored predecessor, around the circle.
fn turn_widths(d: &[f64]) -> Vec<f64> {
    widths(d).into_iter().map(|w| w.abs()).map(|w| if w > PI { 2.0 * PI - w } else { w }).collect()
}

fn integrals_ok(c: &mut Ctx, s: &Spectra) -> Verdict {
    let (f, d) = (s.frequency.clone(), s.direction_raw());
    let (nk, nth) = (f.len(), d.len());
    let (wk, wt) = (widths(&f), turn_widths(&d));
    let e = |k: usize, t: usize| s.energy[k + t * nk];
    let what = || format!("energies {:?} on {f:?} x {d:?}", s.energy);
    ensure!(s.nk() == nk && s.nth() == nth, "nk {} nth {}", s.nk(), s.nth());
    let (dk, dth) = c.run("dk/dth", || (s.dk(), s.dth()))?;
    ensure!(dk.iter().zip(&wk).all(|(a, b)| close(*a, *b, 1e-12, 1e-9)) && dk.len() == nk, "frequency bandwidths {dk:?} of {f:?}");
    ensure!(dth.iter().zip(&wt).all(|(a, b)| close(*a, *b, 1e-12, 1e-9)) && dth.len() == nth, "direction bandwidths {dth:?} of {d:?}");
    let check = |name: &str, got: &[f64], want: &[f64]| -> Verdict {
        ensure!(got.len() == want.len(), "{name}: {} values for {} ({})", got.len(), want.len(), what());
        for i in 0..want.len() {
            ensure!(close(got[i], want[i], 1e-9, 1e-9), "{name}[{i}] is {} instead of {} for {}", got[i], want[i], what());
        }
        Ok(())
    };
    let of = c.run("oned", || s.oned(SpectralAxis::Frequency))?;
    let od = c.run("oned", || s.oned(SpectralAxis::Direction))?;
    check("frequency spectrum", &of, &(0..nk).map(|k| (0..nth).map(|t| e(k, t) * wt[t]).sum()).collect::<Vec<f64>>())?;
    check("direction spectrum", &od, &(0..nth).map(|t| (0..nk).map(|k| e(k, t) * wk[k]).sum()).collect::<Vec<f64>>())?;
    let (ta, tb): (f64, f64) = (of.iter().zip(&wk).map(|(a, b)| a * b).sum(), od.iter().zip(&wt).map(|(a, b)| a * b).sum());
    ensure!(close(ta, tb, 1e-9, 1e-9), "totals {ta} and {tb} of {}", what());
    for m in -4..=8 {
        let mf = c.run("mom_f", || s.mom_f(m))?;
        check(&format!("frequency moment {m}"), &mf, &(0..nth).map(|t| (0..nk).map(|k| f[k].powi(m) * e(k, t) * wk[k]).sum()).collect::<Vec<f64>>())?;
        if m >= 0 {
            let md = c.run("mom_d", || s.mom_d(m))?;
            check(&format!("sine moment {m}"), &md.iter().map(|p| p.0).collect::<Vec<_>>(), &(0..nk).map(|k| (0..nth).map(|t| d[t].sin().powi(m) * e(k, t) * wt[t]).sum()).collect::<Vec<f64>>())?;
            check(&format!("cosine moment {m}"), &md.iter().map(|p| p.1).collect::<Vec<_>>(), &(0..nk).map(|k| (0..nth).map(|t| d[t].cos().powi(m) * e(k, t) * wt[t]).sum()).collect::<Vec<f64>>())?;
        }
    }
    let p = s.period();
    ensure!(p.len() == nk && (0..nk).all(|k| close(p[k], 1.0 / f[k], 0.0, 1e-12)), "periods {p:?} of {f:?}");
    let (lo, hi) = c.run("energy_range", || s.energy_range())?;
    let (wl, wh) = s.energy.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(l, h), v| (l.min(*v), h.max(*v)));
    ensure!(lo == wl && hi == wh, "energy range {lo}..{hi} instead of {wl}..{wh}");
    c.compared((12 * (nk + nth)) as u64);
    Ok(())
}

pub fn c22() -> Prop {
    let axes = |w: usize, h: usize| -> (Vec<f64>, Vec<f64>) {
        (
            (0..w).map(|i| 0.03 + 0.01 * i as f64 + 0.003 * (i * i) as f64).collect(),
            (0..h).map(|i| 0.1 + i as f64 * 0.4 + 0.02 * (i * i % 7) as f64).collect(),
        )
    };
    Prop {
        id: "C22",
        level: "model_checking",
        rule: "every pattern over small grids and every single bin of larger ones, with unequal sides and uneven spacing; the oracle sums directly",
        assumptions: vec!["at least 2 frequencies and directions; a bin's bandwidth is its distance from the previous bin, around the circle for directions (the first bin uses the second)"],
        families: vec![
            family("patterns", "all patterns over {0,1,2.5} on 2x3, 3x2, 4x2 (thorough 2x5, 3x3), uneven axes", move |c| {
                let grids = if c.thorough { vec![(2, 3), (3, 2), (4, 2), (2, 4), (2, 5), (3, 3)] } else { vec![(2, 3), (3, 2), (4, 2), (2, 4)] };
                let (w, h): (usize, usize) = c.pick(&grids);
                let e: Vec<f64> = (0..w * h).map(|_| c.pick(&[0.0, 1.0, 2.5])).collect();
                let (f, d) = axes(w, h);
                let s = Spectra::new(f, d, e, DirectionConvention::From);
                integrals_ok(c, &s)?;
                c.state((w, h, bits(&s.energy)));
                Ok(())
            }),
            family("single_bins", "every single bin of every grid 2..12 x 2..12 (thorough 2..36)", move |c| {
                let hi = c.t(12, 24);
                let w = c.range(2, hi) as usize;
                let h = c.range(2, hi) as usize;
                let i = c.choose(w * h);
                let mut e = vec![0.0; w * h];
                e[i] = 3.0;
                let (f, d) = axes(w, h);
                let s = Spectra::new(f, d, e, DirectionConvention::Met);
                integrals_ok(c, &s)?;
                c.state((w, h, i));
                Ok(())
            }),
            family("large", "spectra of 20..200 frequencies x 24..360 directions, every bin its own energy", |c| {
                let w = c.pick(&[20usize, 40, 64, 65, 72, 100, 128, 129, 200]);
                let h = c.pick(&[24usize, 36, 64, 65, 72, 90, 128, 144, 180, 360]);
                let conv = c.pick(&[DirectionConvention::From, DirectionConvention::Towards, DirectionConvention::Met]);
                let e: Vec<f64> = (0..w * h).map(|i| ((i * 7919) % 1009) as f64 * 0.01).collect();
                let s = Spectra::new(geometric(0.03, 1.02, w), (0..h).map(|i| i as f64 * 2.0 * PI / h as f64).collect(), e, conv);
                integrals_ok(c, &s)?;
                c.state((w, h));
                Ok(())
            }),
            family("storage", "2..36 evenly spaced directions stored either way round from any bin: the integrals do not depend on it", |c| {
                let h = c.pick(&[3usize, 4, 5, 8, 12, 24, 36]);
                let start = c.choose(h);
                let down = c.flag();
                let origin = c.pick(&[0.0, 0.05]);
                let w = c.range(2, 4) as usize;
                let f: Vec<f64> = (0..w).map(|i| 0.05 + 0.02 * i as f64).collect();
                let plain: Vec<f64> = (0..h).map(|i| origin + i as f64 * 2.0 * PI / h as f64).collect();
                let order: Vec<usize> = (0..h).map(|i| if down { (start + h - i) % h } else { (start + i) % h }).collect();
                let e: Vec<f64> = (0..w * h).map(|i| ((i * 37) % 101) as f64 * 0.25).collect();
                let a = Spectra::new(f, plain, e, DirectionConvention::Met);
                let b = reordered(&a, &order);
                integrals_ok(c, &b)?;
                for (k, (x, y)) in c.run("oned", || a.oned(SpectralAxis::Frequency).into_iter().zip(b.oned(SpectralAxis::Frequency)).collect::<Vec<_>>())?.into_iter().enumerate() {
                    ensure!(close(x, y, 1e-9, 1e-9), "{h} directions stored {order:?}: frequency spectrum [{k}] is {y} instead of {x}");
                }
                for (x, y) in c.run("mean_wave_direction_f", || a.mean_wave_direction_f().into_iter().zip(b.mean_wave_direction_f()).collect::<Vec<_>>())? {
                    ensure!(circ(x, y) < 1e-6, "{h} directions stored {order:?}: mean direction {y} instead of {x}");
                }
                c.state((h, order, w));
                Ok(())
            }),
            family("magnitudes", "all patterns over {0,1,2.5} on 2x3, 3x2 and bins one power of ten apart, times 1e-15..1e9", move |c| {
                let unit = c.pick(&[1e-15, 1e-12, 1e-9, 1e-7, 1e-5, 1e-3, 0.1, 30.0, 1e3, 1e6, 1e9]);
                let (w, h) = c.pick(&[(2usize, 3usize), (3, 2), (4, 5)]);
                let e: Vec<f64> = if w == 4 {
                    let k = c.choose(20);
                    (0..w * h).map(|i| 10f64.powi(-((i * 7 + k) as i32 % 20)) * unit).collect()
                } else {
                    (0..w * h).map(|_| c.pick(&[0.0, 1.0, 2.5]) * unit).collect()
                };
                let (f, d) = axes(w, h);
                let s = Spectra::new(f.clone(), d.clone(), e.iter().map(|v| v / unit).collect(), DirectionConvention::Towards);
                let t = Spectra::new(f, d, e, DirectionConvention::Towards);
                let of = c.run("oned", || [s.oned(SpectralAxis::Frequency), s.oned(SpectralAxis::Direction), s.mom_f(-1), s.mom_f(2)].concat())?;
                let od = c.run("oned", || [t.oned(SpectralAxis::Frequency), t.oned(SpectralAxis::Direction), t.mom_f(-1), t.mom_f(2)].concat())?;
                for i in 0..of.len() {
                    ensure!(close(od[i] / unit, of[i], 1e-13, 1e-9), "energies {:?}: integral {i} is {}, that of the energies divided by {unit} is {}", t.energy, od[i], of[i]);
                }
                for (x, y) in c.run("mom_d", || s.mom_d(1).into_iter().zip(t.mom_d(1)).collect::<Vec<_>>())? {
                    ensure!(close(y.0 / unit, x.0, 1e-13, 1e-9) && close(y.1 / unit, x.1, 1e-13, 1e-9), "energies {:?}: sine and cosine moments {y:?}, those of the energies divided by {unit} are {x:?}", t.energy);
                }
                integrals_ok(c, &s)?;
                c.state((w, h, bits(&t.energy)));
                Ok(())
            }),
            family("full_grids", "every grid of 2..40 x 2..40 with all bins different", move |c| {
                let w = c.range(2, 40) as usize;
                let h = c.range(2, 40) as usize;
                let e: Vec<f64> = (0..w * h).map(|i| ((i * 37) % 101) as f64 * 0.25).collect();
                let (f, d) = axes(w, h);
                let s = Spectra::new(f, d, e, DirectionConvention::Towards);
                integrals_ok(c, &s)?;
                c.state((w, h));
                c.sample(|| format!("{w}x{h}"));
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// C23

fn picture_ok(c: &mut Ctx, s: &Spectra, bearings: &[f64], size: usize, threshold: Option<f64>, exp: Option<f64>) -> Verdict {
    let nk = s.frequency.len();
    let n = s.energy.len();
    let what = || format!("{:?} x {bearings:?} ({:?}) size {size} threshold {threshold:?} exponent {exp:?}", s.frequency, s.dir_convention);
    let data: Vec<f64> = (0..n).map(|i| i as f64).collect();
    let map = c.run("compute_cartesian_projection_map", || s.compute_cartesian_projection_map(size, threshold, exp))?;
    let a = c.run("project_cartesian", || s.project_cartesian(&data, size, threshold, exp))?;
    let b = c.run("project_cartesian_with_map", || s.project_cartesian_with_map(&data, &map))?;
    ensure!(a.len() == size * size && map.size == size && map.indices.len() == size * size, "{}: {} pixels", what(), a.len());
    ensure!(a.iter().zip(&b).all(|(x, y)| x == y || (x.is_nan() && y.is_nan())), "{}: the two ways of projecting differ", what());
    let twice: Vec<f64> = data.iter().map(|v| 100.0 - 2.0 * v).collect();
    let t = c.run("project_cartesian_with_map", || s.project_cartesian_with_map(&twice, &map))?;
    ensure!(t.iter().zip(&a).all(|(x, y)| *x == 100.0 - 2.0 * y || (x.is_nan() && y.is_nan())), "{}: other data, other picture", what());
    let odd: Vec<f64> = (0..n).map(|i| [f64::INFINITY, -0.5, f64::NEG_INFINITY, 1e300, f64::NAN, 0.0][i % 6]).collect();
    let o = c.run("project_cartesian_with_map", || s.project_cartesian_with_map(&odd, &map))?;
    for (i, (x, y)) in o.iter().zip(&a).enumerate() {
        let want = if y.is_nan() { f64::NAN } else { odd[*y as usize] };
        ensure!(*x == want || (x.is_nan() && want.is_nan()), "{}: pixel {i} shows {x}, its bin carries {want}", what());
    }
    let longest = s.frequency.iter().map(|f| 1.0 / f).fold(0.0, f64::max);
    let limit = threshold.unwrap_or(longest);
    let e = exp.unwrap_or(1.0);
    let half = (size / 2) as f64;
    let place: Vec<Option<(f64, f64)>> = (0..n)
        .map(|i| {
            let p = 1.0 / s.frequency[i % nk];
            if p > limit {
                return None;
            }
            let r = half * (p / limit).powf(e);
            let t = bearings[i / nk].to_radians();
            // north at the top (y = 0), clockwise
            Some((half + r * t.sin(), half - r * t.cos()))
        })
        .collect();
    for (i, v) in a.iter().enumerate() {
        let (x, y) = ((i % size) as f64, (i / size) as f64);
        let dist = |p: &(f64, f64)| ((p.0 - x).powi(2) + (p.1 - y).powi(2)).sqrt();
        let best = place.iter().flatten().map(dist).fold(f64::INFINITY, f64::min);
        if best.is_infinite() {
            ensure!(v.is_nan(), "{}: pixel {x},{y} shows {v} although no bin is within the threshold", what());
            continue;
        }
        ensure!(!v.is_nan(), "{}: pixel {x},{y} is empty", what());
        let bin = *v as usize;
        let p = place[bin];
        ensure!(p.is_some(), "{}: pixel {x},{y} shows bin {bin}, whose period is over the threshold", what());
        let d = dist(&p.unwrap());
        ensure!(d <= best + 1e-6, "{}: pixel {x},{y} shows bin {bin} at a distance of {d}, the nearest is at {best}", what());
    }
    c.compared(a.len() as u64);
    Ok(())
}

pub fn c23() -> Prop {
    // the picture does not depend on the spectrum's own energy: some bins carry none
    let own = |ik: usize, b: f64| ((ik * 3 + (b / 7.0) as usize) % 4) as f64;
    Prop {
        id: "C23",
        level: "model_checking",
        rule: "every pixel of every picture; the oracle searches all bins for the nearest one",
        assumptions: vec!["a pixel at the same distance from several bins may show any of them", "no bin lies within 1e-9 of the threshold unless it is the threshold"],
        families: vec![
            family("pictures", "sizes 2..24 (thorough 2..40) x grids 1..3 x 3..8 x thresholds x exponents x conventions", move |c| {
                let hi = c.t(24, 40);
                let size = c.range(2, hi) as usize;
                let (w, h) = c.pick(&[(1usize, 3usize), (2, 4), (3, 4), (3, 8), (2, 5)]);
                let conv = c.pick(&CONV);
                let offset = c.pick(&[0.0, 11.0]);
                let exp = c.pick(&[None, Some(0.1), Some(0.5), Some(1.0), Some(2.0), Some(3.5)]);
                let freq = geometric(0.05, 1.4, w);
                let (s, b) = spectrum_in(&conv, &freq, h, offset, &own);
                for threshold in [None, Some(25.0), Some(20.25), Some(19.5), Some(15.0), Some(14.0), Some(10.0), Some(5.0), Some(12.0)] {
                    picture_ok(c, &s, &b, size, threshold, exp)?;
                }
                c.state((size, w, h, format!("{conv:?}"), offset.to_bits(), exp.map(f64::to_bits)));
                c.sample(|| format!("{size}x{size} picture of {w}x{h}, {conv:?}, exponent {exp:?}"));
                Ok(())
            }),
            family("orders", "every order of 3..5 stored directions x conventions, sizes 9 and 16", move |c| {
                let h = c.range(3, 5) as usize;
                let conv = c.pick(&CONV);
                let order = permutation(c, h);
                let (s, b) = spectrum_in(&conv, &geometric(0.06, 1.5, 3), h, 4.0, &own);
                let p = reordered(&s, &order);
                let pb: Vec<f64> = order.iter().map(|o| b[*o]).collect();
                for size in [9, 16] {
                    picture_ok(c, &p, &pb, size, None, None)?;
                    picture_ok(c, &p, &pb, size, Some(14.0), Some(0.7))?;
                }
                c.state((h, format!("{conv:?}"), &order));
                Ok(())
            }),
            family("uneven", "every choice of 2..4 of seven uneven directions, some 0.2 degrees apart, in the three conventions; sizes 7, 16, 41", move |c| {
                const ALL: [f64; 7] = [0.0, 0.2, 47.0, 90.0, 181.5, 270.0, 359.9];
                let set = c.choose(1 << ALL.len());
                if !(2..=4).contains(&set.count_ones()) {
                    return Ok(());
                }
                let conv = c.pick(&CONV);
                let mut b: Vec<f64> = (0..ALL.len()).filter(|i| set >> i & 1 == 1).map(|i| ALL[i]).collect();
                if c.flag() {
                    b.reverse();
                }
                let f = vec![0.05, 0.055, 0.11];
                let e = (0..3 * b.len()).map(|i| (i % 3) as f64).collect();
                let s = Spectra::new(f, b.iter().map(|x| stored(&conv, *x).to_radians()).collect(), e, conv.clone());
                for size in [7, 16, 41] {
                    picture_ok(c, &s, &b, size, None, None)?;
                    picture_ok(c, &s, &b, size, Some(19.0), Some(0.7))?;
                }
                c.state((set, format!("{conv:?}"), bits(&b)));
                Ok(())
            }),
            family("realistic", "25x24, 29x36 and 50x36 bins, sizes 32, 33, 50, 100, 257, 300, thresholds and exponents", move |c| {
                let (w, h) = c.pick(&[(25usize, 24usize), (29, 36), (50, 36)]);
                let size = c.pick(&[32usize, 33, 50, 100, 257, 300]);
                let threshold = c.pick(&[None, Some(25.0), Some(18.0)]);
                let exp = c.pick(&[None, Some(0.75)]);
                let conv = c.pick(&CONV);
                let (s, b) = spectrum_in(&conv, &geometric(0.035, 1.07, w), h, 5.0, &own);
                picture_ok(c, &s, &b, size, threshold, exp)?;
                c.state((w, h, size));
                Ok(())
            }),
        ],
    }
}

