//! C03: distance comparison is exact for every number type.
use harness::oracle::*;
use harness::scalars::*;
use harness::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::Point;
use std::cmp::Ordering;

fn table<T: Sc>(k: &mut Check, label: &str, exact: &[i128], mk: &(dyn Fn(usize) -> T + Sync)) {
  let n = exact.len() as u64;
  k.space(
    &format!("{}/{}", T::NAME, label),
    &format!("all triples of points with coordinates in a table of {} values", n),
    n.pow(4),
    |i| {
      let d = digits::<4>(i, n);
      format!("{} p=({:?},{:?}) q=({:?},{:?}) r=any in the table", T::NAME, mk(d[0]), mk(d[1]), mk(d[2]), mk(d[3]))
    },
    |i, c| {
      let d = digits::<4>(i, n);
      let p = Point::new([mk(d[0]), mk(d[1])]);
      let q = Point::new([mk(d[2]), mk(d[3])]);
      for x in 0..n as usize {
        for y in 0..n as usize {
          let r = Point::new([mk(x), mk(y)]);
          let want = cmp_dist([exact[d[0]], exact[d[1]]], [exact[d[2]], exact[d[3]]], [exact[x], exact[y]]);
          let got = p.cmp_distance_to(&q, &r);
          c.state();
          c.trace();
          c.op(1);
          c.outcome(match want { Ordering::Less => "nearer", Ordering::Equal => "same", Ordering::Greater => "farther" });
          ensure!(want == got, "distance from {:?} to {:?} vs {:?}: expected {:?}, got {:?}", p, q, r, want, got);
        }
      }
      Ok(())
    },
  );
}

fn main() {
  let mut k = Check::new("C03");
  let bases: Vec<[i8; 2]> = k.pick(
    vec![[-128, 127]],
    vec![[-128, 127], [-128, -128], [127, 127], [127, -128], [0, 0], [-1, 1], [63, -64]],
  );
  k.space(
    "i8/all pairs",
    "base points x every i8 point x every i8 point (2^32 per base point)",
    bases.len() as u64 * 65536,
    |i| {
      let b = bases[(i / 65536) as usize];
      format!("p={:?} q=({},{}) r=any i8 point", b, (i % 256) as u8 as i8, (i / 256 % 256) as u8 as i8)
    },
    |i, c| {
      let b = bases[(i / 65536) as usize];
      let p = Point::new(b);
      let q = Point::new([(i % 256) as u8 as i8, (i / 256 % 256) as u8 as i8]);
      let sq = |r: [i8; 2]| (r[0] as i32 - b[0] as i32).pow(2) + (r[1] as i32 - b[1] as i32).pow(2);
      let dq = sq(q.array);
      for x in i8::MIN..=i8::MAX {
        for y in i8::MIN..=i8::MAX {
          let r = Point::new([x, y]);
          let want = dq.cmp(&sq([x, y]));
          let got = p.cmp_distance_to(&q, &r);
          ensure!(want == got, "distance from {:?} to {:?} vs {:?}: expected {:?}, got {:?}", p, q, r, want, got);
        }
      }
      c.states(65536);
      c.op(65536);
      c.trace();
      Ok(())
    },
  );
  each_type!(T in [i8, i16, i32, i64, isize, BigInt] {
    let (lo, hi) = T::lim();
    let size = if hi > i64::MAX as i128 { k.pick(9, 13) } else { k.pick(15, 17) };
    let t = extreme_alphabet(lo, hi, size);
    table::<T>(&mut k, "extremes", &t, &|i| T::mk(t[i]));
    for (label, t, shift) in word_borders(hi, k.pick(7, 10)) {
      table::<T>(&mut k, label, &t, &|i| T::mk_shifted(t[i], shift));
    }
  });
  with_gmp!(T {
    let (lo, hi) = T::lim();
    let size = if hi > i64::MAX as i128 { k.pick(9, 13) } else { k.pick(15, 17) };
    let t = extreme_alphabet(lo, hi, size);
    table::<T>(&mut k, "extremes", &t, &|i| T::mk(t[i]));
    for (label, t, shift) in word_borders(hi, k.pick(7, 10)) {
      table::<T>(&mut k, label, &t, &|i| T::mk_shifted(t[i], shift));
    }
  });
  {
    let v: Vec<(i128, i128)> = vec![(-7, 2), (-1, 3), (0, 1), (1, 1000003), (1, 2), (1 << 60, 7)];
    let l: i128 = 2 * 3 * 7 * 1000003;
    let ex: Vec<i128> = v.iter().map(|(a, b)| a * (l / b)).collect();
    table::<BigRational>(&mut k, "fractions", &ex, &|i| BigRational::new(BigInt::from(v[i].0), BigInt::from(v[i].1)));
    for (label, t, shift) in word_borders(i128::MAX, k.pick(6, 9)) {
      table::<BigRational>(&mut k, &format!("whole, {label}"), &t, &|i| BigRational::from(BigInt::from(t[i]) << shift));
    }
  }
  each_type!(T in [f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] {
    let eps = if T::SINGLE { f32::EPSILON as f64 } else { f64::EPSILON };
    let tenth = if T::SINGLE { 0.1f32 as f64 } else { 0.1f64 };
    let mut t: Vec<f64> = vec![-16777216.0, -1.0, 0.0, tenth, 1.0, 1.0 + eps];
    if k.thorough() { t.extend([-0.0, 1.0 - eps / 2.0, 2f64.powi(-20)]); }
    let ex = exact_scaled(&t);
    table::<T>(&mut k, "mixed magnitude", &ex, &|i| T::mkf(t[i]));
    let big = if T::SINGLE { f32::MAX as f64 } else { f64::MAX };
    let tiny = if T::SINGLE { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE };
    let vals = [-big, -1.0, -tiny, 0.0, tiny, 1.0, big];
    let rat: Vec<BigRational> = vals.iter().map(|&v| BigRational::from_float(v).unwrap()).collect();
    let n = vals.len() as u64;
    k.space(
      &format!("{}/range ends", T::NAME),
      "points over {0, +-1, +-max, +-min positive}",
      n.pow(4),
      |i| { let d = digits::<4>(i, n); format!("{} p=({},{}) q=({},{})", T::NAME, vals[d[0]], vals[d[1]], vals[d[2]], vals[d[3]]) },
      |i, c| {
        let d = digits::<4>(i, n);
        let dist = |x: usize, y: usize| { let a = &rat[x] - &rat[d[0]]; let b = &rat[y] - &rat[d[1]]; &a * &a + &b * &b };
        let dq = dist(d[2], d[3]);
        for (x, y) in [(0usize, 6usize), (2, 1), (4, 5), (6, 6), (3, 3), (6, 2)] {
          let p = Point::new([T::mkf(vals[d[0]]), T::mkf(vals[d[1]])]);
          let q = Point::new([T::mkf(vals[d[2]]), T::mkf(vals[d[3]])]);
          let r = Point::new([T::mkf(vals[x]), T::mkf(vals[y])]);
          c.state();
          same!(format!("distance from {:?} to {:?} vs {:?}", p, q, r), dq.cmp(&dist(x, y)), p.cmp_distance_to(&q, &r));
          c.op(1);
        }
        c.trace();
        Ok(())
      },
    );
  });
  k.assume("float inputs are finite");
  k.finish()
}
