//! Coordinate types under test.
use num_bigint::BigInt;
use num_rational::BigRational;
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::Point;
use rgeometry::PolygonScalar;

pub trait Sc: PolygonScalar + Send + Sync + 'static {
  const NAME: &'static str;
  fn mk(v: i128) -> Self;
  /// Integers exactly representable in this type.
  fn lim() -> (i128, i128);
  /// `v << s`, for types wide enough.
  fn mk_shifted(v: i128, s: u32) -> Self {
    assert!(s == 0, "harness: {} has no room for a shift", Self::NAME);
    Self::mk(v)
  }
}
macro_rules! prim {
  ($($t:ident),*) => {$(
    impl Sc for $t {
      const NAME: &'static str = stringify!($t);
      fn mk(v: i128) -> Self { <$t>::try_from(v).expect("harness: value out of range") }
      fn lim() -> (i128, i128) { (<$t>::MIN as i128, <$t>::MAX as i128) }
    })*};
}
prim!(i8, i16, i32, i64, isize);
impl Sc for BigInt {
  const NAME: &'static str = "BigInt";
  fn mk(v: i128) -> Self {
    BigInt::from(v)
  }
  fn mk_shifted(v: i128, s: u32) -> Self {
    BigInt::from(v) << s
  }
  fn lim() -> (i128, i128) {
    (-(1 << 100), 1 << 100)
  }
}
impl Sc for BigRational {
  const NAME: &'static str = "BigRational";
  fn mk(v: i128) -> Self {
    // A non-trivial denominator common to all coordinates keeps the geometry.
    BigRational::new(BigInt::from(v), BigInt::from(3))
  }
  fn lim() -> (i128, i128) {
    (-(1 << 100), 1 << 100)
  }
}
#[cfg(feature = "rug")]
impl Sc for rug::Integer {
  const NAME: &'static str = "rug::Integer";
  fn mk(v: i128) -> Self {
    rug::Integer::from(v)
  }
  fn mk_shifted(v: i128, s: u32) -> Self {
    rug::Integer::from(v) << s
  }
  fn lim() -> (i128, i128) {
    (-(1 << 100), 1 << 100)
  }
}
macro_rules! fl {
  ($($t:ty, $n:expr, $f:ty, $b:expr, $mk:expr);*) => {$(
    impl Sc for $t {
      const NAME: &'static str = $n;
      fn mk(v: i128) -> Self { debug_assert!(v.abs() <= 1 << $b); let f = v as $f; $mk(f) }
      fn lim() -> (i128, i128) { (-(1 << $b), 1 << $b) }
    })*};
}
fl!(f64, "f64", f64, 53, |f| f;
    f32, "f32", f32, 24, |f| f;
    OrderedFloat<f64>, "OrderedFloat<f64>", f64, 53, OrderedFloat;
    OrderedFloat<f32>, "OrderedFloat<f32>", f32, 24, OrderedFloat;
    NotNan<f64>, "NotNan<f64>", f64, 53, |f| NotNan::new(f).unwrap();
    NotNan<f32>, "NotNan<f32>", f32, 24, |f| NotNan::new(f).unwrap());

pub fn pt<T: Sc>(p: [i128; 2]) -> Point<T, 2> {
  Point::new([T::mk(p[0]), T::mk(p[1])])
}
pub fn pts<T: Sc>(v: &[[i128; 2]]) -> Vec<Point<T, 2>> {
  v.iter().map(|&p| pt::<T>(p)).collect()
}

/// Runs a block once per listed type, bound to the name `$T`.
#[macro_export]
macro_rules! each_type {
  ($T:ident in [$($ty:ty),* $(,)?] $body:block) => {
    $( { type $T = $ty; $body } )*
  };
}

/// Runs a block with `$T` bound to rug::Integer when the harness is built with it.
#[macro_export]
macro_rules! with_gmp {
  ($T:ident $body:block) => {
    #[cfg(feature = "rug")]
    {
      type $T = rug::Integer;
      $body
    }
  };
}

/// Strictly increasing coordinate tables of length k that reach the extremes of
/// the range lo..=hi in different ways.
pub fn tables(lo: i128, hi: i128, k: usize) -> Vec<Vec<i128>> {
  let kk = k as i128;
  let mut out: Vec<Vec<i128>> = vec![];
  // small values around zero
  out.push((0..kk).map(|i| i - kk / 2).collect());
  // evenly over the whole range
  out.push((0..kk).map(|i| lo + (hi - lo) / (kk - 1) * i + if i == kk - 1 { (hi - lo) % (kk - 1) } else { 0 }).collect());
  // all but one at the low end
  out.push((0..kk).map(|i| if i == kk - 1 { hi } else { lo + i }).collect());
  // all but one at the high end
  out.push((0..kk).map(|i| if i == 0 { lo } else { hi - (kk - 1 - i) }).collect());
  // geometric around zero, both extremes
  out.push(
    (0..kk)
      .map(|i| {
        if i == 0 {
          lo
        } else if i == kk - 1 {
          hi
        } else {
          i - kk / 2
        }
      })
      .collect(),
  );
  for t in &mut out {
    t.dedup();
  }
  out.retain(|t| t.len() == k && t.windows(2).all(|w| w[0] < w[1]) && t[0] >= lo && t[k - 1] <= hi);
  let mut uniq: Vec<Vec<i128>> = vec![];
  for t in out {
    if !uniq.contains(&t) {
      uniq.push(t);
    }
  }
  uniq
}

/// Float types: built from an f64 value that the type represents exactly.
pub trait FSc: Sc {
  fn mkf(v: f64) -> Self;
  const SINGLE: bool;
}
macro_rules! fsc {
  ($($t:ty, $single:expr, $mk:expr);*) => {$( impl FSc for $t {
    const SINGLE: bool = $single;
    fn mkf(v: f64) -> Self { $mk(v) }
  })*};
}
fsc!(f64, false, |v: f64| v;
     f32, true, |v: f64| v as f32;
     OrderedFloat<f64>, false, |v: f64| OrderedFloat(v);
     OrderedFloat<f32>, true, |v: f64| OrderedFloat(v as f32);
     NotNan<f64>, false, |v: f64| NotNan::new(v).unwrap();
     NotNan<f32>, true, |v: f64| NotNan::new(v as f32).unwrap());

/// Exact integers proportional to the given floats (common power of two).
pub fn exact_scaled(v: &[f64]) -> Vec<i128> {
  let dec = |f: f64| -> (i128, i32) {
    if f == 0.0 {
      return (0, 0);
    }
    let b = f.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let m = (b & ((1 << 52) - 1)) as i128;
    let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
    let tz = m.trailing_zeros() as i32;
    let (m, e) = (m >> tz, e + tz);
    (if f < 0.0 { -m } else { m }, e)
  };
  let d: Vec<_> = v.iter().map(|&f| dec(f)).collect();
  let emin = d.iter().filter(|x| x.0 != 0).map(|x| x.1).min().unwrap_or(0);
  d.iter()
    .map(|&(m, e)| {
      if m == 0 {
        0
      } else {
        let s = (e - emin) as u32;
        assert!(s + (128 - m.unsigned_abs().leading_zeros()) < 125, "harness: float table too wide");
        m << s
      }
    })
    .collect()
}

/// Extreme-value coordinate alphabet of an integer type: both ends, around zero,
/// and around the square root of the range (where products start to overflow).
/// Tables at the borders of narrower machine words, for types that hold far more: values where a
/// shortcut through a fixed-width integer would start to overflow. `(label, exact, shift)`; the
/// coordinate is `exact << shift`, which leaves every sign and order as it is.
pub fn word_borders(hi: i128, size: usize) -> Vec<(&'static str, Vec<i128>, u32)> {
  let word = |b: u32, s: usize| extreme_alphabet(-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1, s);
  let mut v = vec![];
  if hi > i16::MAX as i128 {
    v.push(("16-bit borders", word(16, size), 0));
  }
  if hi > i32::MAX as i128 {
    v.push(("32-bit borders", word(32, size), 0));
  }
  if hi > i64::MAX as i128 {
    v.push(("64-bit borders", word(64, size), 0));
    let past: Vec<i128> = vec![-(1 << 64), -(1 << 63) - 1, -(1 << 63), 0, 1, (1 << 63) - 1, 1 << 63, 1 << 64];
    v.push(("just past 64 bits", past[..size.min(past.len())].to_vec(), 0));
    v.push(("128-bit borders", word(64, size), 64));
  }
  v
}

pub fn extreme_alphabet(lo: i128, hi: i128, size: usize) -> Vec<i128> {
  let b = 128 - (hi as u128).leading_zeros() as i32; // 63 for i64
  let h = 1i128 << (b.min(100) / 2);
  let mut t = vec![lo, hi, 0, -1, 1, lo + 1, hi - 1, h, -h - 1];
  t.extend([lo / 2, hi / 2, h - 1, -h, h + 1, 3, -2, hi / 3]);
  let mut seen = vec![];
  for v in t {
    if !seen.contains(&v) {
      seen.push(v);
    }
  }
  seen.truncate(size);
  seen.sort();
  seen
}

/// Points that are colinear up to rounding (multiples of (0.1, 0.3) and one-ulp neighbours)
/// plus a few general ones, with proportional exact coordinates.
pub fn near_points<T: FSc>() -> (Vec<[i128; 2]>, Vec<Point<T, 2>>) {
  let up = |v: f64| if T::SINGLE { f32::from_bits((v as f32).to_bits() + 1) as f64 } else { f64::from_bits(v.to_bits() + 1) };
  let r = |v: f64| if T::SINGLE { v as f32 as f64 } else { v };
  let f: Vec<[f64; 2]> = vec![
    [r(0.1), r(0.3)],
    [r(0.2), r(0.6)],
    [r(0.3), r(0.9)],
    [up(r(0.2)), r(0.6)],
    [r(0.7), r(2.1)],
    [r(1.1), r(3.3)],
    [r(0.1), up(r(0.3))],
    [1.0, 3.0],
    [2.0, 0.5],
  ];
  let flat: Vec<f64> = f.iter().flatten().copied().collect();
  let ex = exact_scaled(&flat);
  (
    (0..f.len()).map(|i| [ex[2 * i], ex[2 * i + 1]]).collect(),
    f.iter().map(|p| Point::new([T::mkf(p[0]), T::mkf(p[1])])).collect(),
  )
}
