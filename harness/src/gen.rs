//! Strategies shared by the checks.
use crate::dict;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// A float that survives JSON (replay files) unchanged.
#[derive(Clone, Copy)]
pub struct F(pub f64);
impl std::fmt::Debug for F {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl Serialize for F {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{:?}", self.0))
    }
}
impl<'de> Deserialize<'de> for F {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<F, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map(F).map_err(serde::de::Error::custom)
    }
}
pub fn raw(v: &[F]) -> Vec<f64> {
    v.iter().map(|f| f.0).collect()
}

pub const SPECIAL: &[f64] = &[
    0.0, -0.0, 1.0, -1.0, 0.5, 0.1, 0.3, -0.1, 5e-324, 2.2250738585072014e-308, 1e-9, 1e-5, 1e9, 1e15, 1e16, 1e17, 1e21, 123456789.125,
    4503599627370496.5, 9007199254740991.0, 9007199254740992.0, 9007199254740994.0, 9.223372036854776e18,
    1.8446744073709552e19, 1.8446744073709550e19, 3.6893488147419103e19, 4294967295.0, 4294967296.0, 2147483648.0, 1e100, 1e300, f64::MAX, f64::MIN, f64::EPSILON, f64::INFINITY,
    f64::NEG_INFINITY,
];
fn pool(v: Vec<f64>) -> BoxedStrategy<F> {
    prop::sample::select(v).prop_map(F).boxed()
}
/// Small numbers whose sums are exact in any order.
pub fn dyadic() -> BoxedStrategy<F> {
    prop_oneof![
        3 => (-64i32..64).prop_map(|i| F(i as f64)),
        3 => (-4096i32..4096).prop_map(|i| F(i as f64 / 16.0)),
        1 => (-1_000_000_000i64..1_000_000_000).prop_map(|i| F(i as f64)),
        1 => (pool(dict::sizes(1 << 30).into_iter().map(|n| n as f64).collect()), -2i32..3).prop_map(|(f, d)| F(f.0 + d as f64 / 2.0)),
        1 => pool(dict::floats().into_iter().filter(|f| f.abs() < 1e9 && (f * 1024.0).fract() == 0.0).collect()),
    ]
    .boxed()
}
pub fn dyadic_nonneg() -> BoxedStrategy<F> {
    dyadic().prop_map(|f| F(f.0.abs())).boxed()
}
pub fn finite() -> BoxedStrategy<F> {
    prop_oneof![
        4 => dyadic(),
        2 => (-1e6..1e6f64).prop_map(F),
        1 => (-1.0..1.0f64).prop_map(F),
        1 => (-300i32..300, 1.0..10.0f64, any::<bool>()).prop_map(|(e, m, n)| F(m * 10f64.powi(e) * if n { -1.0 } else { 1.0 })),
        2 => pool(SPECIAL.iter().cloned().filter(|x| x.is_finite()).collect()),
        1 => pool(dict::floats().into_iter().filter(|x| x.is_finite()).collect()),
        1 => any::<u64>().prop_map(|b| { let f = f64::from_bits(b); F(if f.is_finite() { f } else { 1.5 }) }),
    ]
    .boxed()
}
pub fn non_nan() -> BoxedStrategy<F> {
    prop_oneof![12 => finite(), 1 => pool(vec![f64::INFINITY, f64::NEG_INFINITY])].boxed()
}
pub fn any_f64() -> BoxedStrategy<F> {
    prop_oneof![14 => non_nan(), 1 => Just(F(f64::NAN))].boxed()
}

/// Millisecond timestamps; the smallest i64 is not a legal one.
pub fn millis() -> BoxedStrategy<i64> {
    prop_oneof![
        3 => -5i64..5,
        3 => 1_500_000_000_000i64..1_700_000_000_000,
        2 => -3_000_000_000_000i64..3_000_000_000_000,
        1 => prop::sample::select(vec![0, -1, 1, 999, 1000, -1000, i64::MAX, i64::MIN + 1, i64::MAX - 1, 1 << 53, (1 << 53) + 1, -(1 << 53) - 1, 1 << 31, 1 << 32]),
        1 => any::<i64>().prop_map(|x| x.max(i64::MIN + 1)),
        1 => (prop::sample::select(dict::ints()), prop::sample::select(vec![1i64, 1000, -1, -1000])).prop_map(|(n, m)| (n.min(i64::MAX as u64) as i64).saturating_mul(m).max(i64::MIN + 1)),
    ]
    .boxed()
}
pub fn opt_millis() -> BoxedStrategy<Option<i64>> {
    prop_oneof![1 => Just(None), 2 => millis().prop_map(Some)].boxed()
}

/// A word of the source, or nearly: in other case, cut or doubled.
fn twisted() -> BoxedStrategy<String> {
    (prop::sample::select(dict::names()), 0u8..8, any::<u16>())
        .prop_map(|(w, how, i)| {
            let i = i as usize % w.len();
            let flip = |c: char| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
            let s: String = match how {
                0 => w.to_ascii_uppercase(),
                1 => w.to_ascii_lowercase(),
                2 => w[..1].to_ascii_uppercase() + &w[1..],
                3 => w.chars().enumerate().map(|(k, c)| if k == i { flip(c) } else { c }).collect(),
                4 => w[..i].to_string() + &w[i + 1..],
                5 => w.chars().rev().collect(),
                6 => w[..i].to_string() + &w[i..i + 1] + &w[i..],
                _ => w.to_string() + &w,
            };
            if s.starts_with(|c: char| c.is_ascii_digit()) || s.is_empty() { format!("_{}", s) } else { s }
        })
        .boxed()
}
const NAMES: &[&str] = &[
    "a", "b", "c", "a_b", "b_c", "a_b_c", "_", "__", "a_", "_a", "A", "x:y", ":", "a0", "foo", "foo_bar", "http_requests_total",
    "total", "count", "sum", "bucket", "a_count", "a_sum", "a_bucket",
];
/// A valid part of a metric name.
pub fn name_part() -> BoxedStrategy<String> {
    prop_oneof![
        5 => prop::sample::select(NAMES).prop_map(|s| s.to_string()),
        3 => "[a-zA-Z_:][a-zA-Z0-9_:]{0,10}".prop_map(|s| s),
        1 => "[a-zA-Z_:][a-zA-Z0-9_:]{30,200}".prop_map(|s| s),
        1 => twisted(),
        1 => (prop::sample::select(dict::names()), "[a-zA-Z_:]?", "[a-z_0-9]?").prop_map(|(n, a, z)| { let s = format!("{}{}{}", a, n, z); if s.starts_with(|c: char| c.is_ascii_digit()) { format!("_{}", s) } else { s } }),
    ]
    .boxed()
}
pub fn opt_name_part() -> BoxedStrategy<Option<String>> {
    prop_oneof![1 => Just(None), 1 => name_part().prop_map(Some)].boxed()
}
/// A label name that is valid for every kind (neither reserved by the format nor by a kind).
pub fn label_name() -> BoxedStrategy<String> {
    prop_oneof![
        6 => prop::sample::select(&["a", "b", "c", "d", "ab", "A", "B", "_", "_a", "a_", "a__b", "x1", "Z9", "le_", "lE", "quantiles", "job", "instance", "handler", "method"][..]).prop_map(|s| s.to_string()),
        3 => "[a-zA-Z_][a-zA-Z0-9_]{0,8}".prop_map(|s| s),
        1 => "[a-zA-Z][a-zA-Z0-9_]{20,80}".prop_map(|s| s),
        1 => twisted(),
        1 => (prop::sample::select(dict::names()), "[a-zA-Z_]?", "[a-z_0-9]?").prop_map(|(n, a, z)| { let s = format!("{}{}{}", a, n, z); if s.starts_with(|c: char| c.is_ascii_digit()) { format!("_{}", s) } else { s } }),
    ]
    .prop_map(|s| if s.starts_with("__") { format!("x{}", s) } else if s == "le" || s == "quantile" { format!("{}x", s) } else { s })
    .boxed()
}
const NASTY: &[&str] = &[
    "\\", "\"", "\n", "\r", "\t", "\\n", "\\\\", "\\\"", "\"}", "{", "}", ",", "=", " ", "#", "\u{0}", "\u{7f}", "\u{85}", "\u{a0}", "é", "e\u{301}",
    "\u{300}", "日本", "\u{200b}", "\u{200d}", "\u{2028}", "\u{feff}", "😀", "\u{10ffff}", "n", "a", "b", "0", "1", "le", "+Inf", "NaN", "'", "`", "/", "ß", "\u{1b}[0m", "\r\n", "%", "$",
];
pub fn text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => prop::sample::select(&["", "a", "b", "0", "foo", "bar baz", "/index.html", "x", "y", "A", " ", "a b", "200"][..]).prop_map(|s| s.to_string()),
        4 => prop::collection::vec(prop::sample::select(NASTY), 0..8).prop_map(|v| v.concat()),
        1 => prop::collection::vec(any::<char>(), 0..12).prop_map(|v| v.into_iter().collect::<String>()),
        1 => twisted(),
        1 => prop::collection::vec(prop_oneof![3 => prop::sample::select(dict::strings()), 1 => prop::sample::select(NASTY).prop_map(|s| s.to_string())], 0..4).prop_map(|v| v.concat()),
        1 => prop::collection::vec(prop::sample::select(NASTY), 100..400).prop_map(|v| v.concat()),
    ]
    .boxed()
}
/// Labels in builder order; names may repeat (the last one wins).
pub fn labels(max: usize) -> BoxedStrategy<Vec<(String, String)>> {
    prop_oneof![
        8 => prop::collection::vec((label_name(), text()), 0..max),
        1 => prop::collection::vec((label_name(), text()), 0..40),
    ]
    .boxed()
}
pub fn help() -> BoxedStrategy<Option<String>> {
    prop_oneof![1 => Just(None), 3 => text().prop_map(Some)].boxed()
}
/// Bucket bounds: close together, far apart, the odd ones.
pub fn bound() -> BoxedStrategy<F> {
    prop_oneof![
        5 => (-8i32..8).prop_map(|i| F(i as f64)),
        2 => (-64i32..64).prop_map(|i| F(i as f64 / 16.0)),
        2 => (0i64..6).prop_map(|i| F(f64::from_bits((1.0f64.to_bits() as i64 + i - 3) as u64))),
        1 => (0u64..4).prop_map(|i| F(f64::from_bits(i))),
        1 => (0i32..8).prop_map(|i| F(1e-17 * i as f64)),
        2 => non_nan(),
        1 => pool(dict::floats()),
    ]
    .boxed()
}
pub fn quantile() -> BoxedStrategy<F> {
    prop_oneof![
        3 => prop::sample::select(vec![0.0, 1.0, 0.5, 0.25, 0.75, 0.9, 0.95, 0.99, 0.999, 0.1, 0.01, 1e-9, 0.3333333333333333, -0.0, f64::EPSILON, 1.0 - f64::EPSILON]).prop_map(F),
        3 => (0u32..=20).prop_map(|i| F(i as f64 / 20.0)),
        1 => (0.0..=1.0f64).prop_map(F),
        1 => pool(dict::floats().into_iter().filter(|f| (0.0..=1.0).contains(f)).collect()),
    ]
    .boxed()
}
/// A permutation source: sort keys.
pub fn shuffle<T: Clone>(v: &[T], keys: &[u32]) -> Vec<T> {
    let mut idx: Vec<usize> = (0..v.len()).collect();
    idx.sort_by_key(|&i| if keys.is_empty() { 0 } else { keys[i % keys.len()].wrapping_mul(2654435761).wrapping_add((i as u32).wrapping_mul(if i >= keys.len() { 40503 } else { 0 })) });
    idx.into_iter().map(|i| v[i].clone()).collect()
}
pub fn keys() -> BoxedStrategy<Vec<u32>> {
    prop::collection::vec(any::<u32>(), 0..24).boxed()
}
pub const HOURISH: &[u64] = &[1, 999_999_999, 1_000_000_000, 1_000_000_001, 60_000_000_000, 3_600_000_000_000, 86_400_000_000_000, 1 << 32, 1 << 53];
