#![allow(dead_code)]
use surfrs::dimensional_data::DimensionalData;
use surfrs::units::{Direction, Unit};

/// |a-b| within abs + rel*|b|; NaN never close.
pub fn close(a: f64, b: f64, abs: f64, rel: f64) -> bool {
    a == b || (a - b).abs() <= abs + rel * b.abs().max(a.abs())
}
/// Smallest angle between two bearings in degrees, 0..180.
pub fn circ(a: f64, b: f64) -> f64 {
    let d = (a - b).rem_euclid(360.0);
    d.min(360.0 - d)
}
pub fn wrap360(a: f64) -> f64 {
    a.rem_euclid(360.0)
}
pub fn dd(value: Option<f64>, unit: Unit) -> DimensionalData<f64> {
    DimensionalData { value, variable_name: "x".into(), unit }
}
pub fn dir(value: Option<i32>) -> DimensionalData<Direction> {
    DimensionalData { value: value.map(Direction::from_degrees), variable_name: "d".into(), unit: Unit::Degrees }
}
pub fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}
/// Bandwidth of every frequency of a geometric axis (half-way to both neighbours, half bins at the
/// ends), plus the energy of an f^-5 tail above the last frequency, expressed as extra width there.
pub fn wave_weights(f: &[f64]) -> Vec<f64> {
    let n = f.len();
    (0..n)
        .map(|i| match i {
            0 => 0.5 * (f[1] - f[0]),
            i if i == n - 1 => 0.5 * (f[i] - f[i - 1]) + 0.25 * f[i],
            i => 0.5 * (f[i + 1] - f[i - 1]),
        })
        .collect()
}
pub fn geometric(f0: f64, r: f64, n: usize) -> Vec<f64> {
    (0..n).map(|i| f0 * r.powi(i as i32)).collect()
}

/// The same text, numbers taken to agree within one part in 10^15 (a decimal of 17 digits is read
/// to the last bit or the one beside it).
pub fn alike(a: &str, b: &str) -> bool {
    if a == b {
        return true;
    }
    let number = |ch: char| ch.is_ascii_digit() || matches!(ch, '.' | '-' | '+' | 'e' | 'E');
    let (a, b): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if number(a[i]) && number(b[j]) {
            let (m, n) = (i, j);
            while i < a.len() && number(a[i]) {
                i += 1;
            }
            while j < b.len() && number(b[j]) {
                j += 1;
            }
            let (x, y): (String, String) = (a[m..i].iter().collect(), b[n..j].iter().collect());
            let near = matches!((x.parse::<f64>(), y.parse::<f64>()), (Ok(p), Ok(q)) if (p - q).abs() <= 1e-15 * p.abs());
            if x != y && !near {
                return false;
            }
        } else if a[i] == b[j] {
            i += 1;
            j += 1;
        } else {
            return false;
        }
    }
    i == a.len() && j == b.len()
}
