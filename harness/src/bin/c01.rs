//! C01: turn direction of three points is exact for every number type.
use harness::oracle::*;
use harness::scalars::*;
use harness::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::{Direction, Point};
use rgeometry::Orientation;

fn oname(o: i8) -> &'static str {
  match o {
    1 => "left",
    -1 => "right",
    _ => "straight",
  }
}

fn judge<T: Sc>(c: &mut Ctx, e: [P; 3], p: [&Point<T>; 3]) -> R {
  let want = orient(e[0], e[1], e[2]);
  let a = sgn(Orientation::new(p[0], p[1], p[2]));
  ensure!(a == want, "turn of {:?} -> {:?} -> {:?}: expected {}, got {}", p[0], p[1], p[2], oname(want), oname(a));
  let b = sgn(Point::orient(p[0], p[1], p[2]));
  ensure!(b == want, "point turn of {:?}: expected {}, got {}", p, oname(want), oname(b));
  let d = sgn(Point::orient_along_direction(p[0], Direction::Through(p[1]), p[2]));
  ensure!(d == want, "turn through {:?}: expected {}, got {}", p, oname(want), oname(d));
  c.op(3);
  c.outcome(oname(want));
  Ok(())
}

/// All sextuples over one coordinate table. Index = first four coordinates, inner loop = last point.
fn table<T: Sc>(k: &mut Check, label: &str, exact: &[i128], mk: &(dyn Fn(usize) -> T + Sync)) {
  let n = exact.len() as u64;
  k.space(
    &format!("{}/{}", T::NAME, label),
    &format!("all triples of points with coordinates in a table of {} values", n),
    n.pow(4),
    |i| {
      let d = digits::<4>(i, n);
      format!("{} p=({:?},{:?}) q=({:?},{:?}) r=any in the table", T::NAME, mk(d[0]), mk(d[1]), mk(d[2]), mk(d[3]))
    },
    |i, c| {
      let d = digits::<4>(i, n);
      let p = Point::new([mk(d[0]), mk(d[1])]);
      let q = Point::new([mk(d[2]), mk(d[3])]);
      for x in 0..n as usize {
        for y in 0..n as usize {
          let r = Point::new([mk(x), mk(y)]);
          c.state();
          c.trace();
          judge(c, [[exact[d[0]], exact[d[1]]], [exact[d[2]], exact[d[3]]], [exact[x], exact[y]]], [&p, &q, &r])?;
        }
      }
      Ok(())
    },
  );
}

fn ints<T: Sc>(k: &mut Check) {
  let (lo, hi) = T::lim();
  let size = if hi > i64::MAX as i128 { k.pick(11, 15) } else { 17 };
  let t = extreme_alphabet(lo, hi, size);
  table::<T>(k, "extremes", &t, &|i| T::mk(t[i]));
  for (label, t, shift) in word_borders(hi, k.pick(8, 11)) {
    table::<T>(k, label, &t, &|i| T::mk_shifted(t[i], shift));
  }
}

fn rationals(k: &mut Check) {
  // value = num/den, exact integer = num * L/den with L = lcm
  let v: Vec<(i128, i128)> = vec![(-7, 2), (-1, 3), (0, 1), (1, 1000003), (1, 2), (2, 3), (5, 1), (1 << 60, 7)];
  let l: i128 = 2 * 3 * 7 * 1000003;
  let ex: Vec<i128> = v.iter().map(|(a, b)| a * (l / b)).collect();
  table::<BigRational>(k, "fractions", &ex, &|i| BigRational::new(BigInt::from(v[i].0), BigInt::from(v[i].1)));
  for (label, t, shift) in word_borders(i128::MAX, k.pick(6, 9)) {
    table::<BigRational>(k, &format!("whole, {label}"), &t, &|i| BigRational::from(BigInt::from(t[i]) << shift));
    if shift == 0 {
      table::<BigRational>(k, &format!("over 5, {label}"), &t, &|i| BigRational::new(BigInt::from(t[i]), BigInt::from(5)));
    }
  }
}

fn floats<T: FSc>(k: &mut Check) {
  let eps = if T::SINGLE { f32::EPSILON as f64 } else { f64::EPSILON };
  let tenth = if T::SINGLE { 0.1f32 as f64 } else { 0.1f64 };
  let t: Vec<f64> = vec![-16777216.0, -1.0 - eps, -0.0, 0.0, tenth, 1.0 - eps / 2.0, 1.0, 1.0 + eps, 1234567.0];
  let ex = exact_scaled(&t);
  table::<T>(k, "mixed magnitude", &ex, &|i| T::mkf(t[i]));
  let t: Vec<f64> = vec![-2f64.powi(40), -3.0, 2f64.powi(-40), 0.0, 2f64.powi(-20), 0.5, 7.0, 2f64.powi(20) + 1.0, 2f64.powi(41)];
  let ex = exact_scaled(&t);
  table::<T>(k, "powers", &ex, &|i| T::mkf(t[i]));
}

/// Points within a few hundred ulps of the line through two others, in all six argument orders.
fn near<T: FSc>(k: &mut Check) {
  let ulp = if T::SINGLE { (2f32).powi(-24) as f64 } else { 2f64.powi(-53) };
  let cfgs: Vec<(f64, f64, [f64; 2], [f64; 2])> = vec![
    (0.5, 0.5, [12.0, 12.0], [24.0, 24.0]),
    (0.5, 0.5, [17.300000000000001, 17.300000000000001], [24.00000000000005, 24.0000000000000517765]),
    (0.5, 0.5, [8.8, 8.8], [12.1, 12.1]),
    (0.75, 0.5, [3.0, 2.0], [-6.0, -4.0]),
    (0.5, 0.625, [1.0, 1.25], [1.0 / 3.0, 1.25 / 3.0]),
  ];
  let m: u64 = k.pick(64, 256);
  k.space(
    &format!("{}/near-colinear", T::NAME),
    &format!("{} base lines x {}x{} ulp grid x 6 argument orders", cfgs.len(), m, m),
    cfgs.len() as u64 * m * m,
    |i| {
      let c = &cfgs[(i / (m * m)) as usize];
      let (a, b) = (i % m, i / m % m);
      format!("{} p=({}+{}ulp,{}+{}ulp) q={:?} r={:?}", T::NAME, c.0, a, c.1, b, c.2, c.3)
    },
    |i, c| {
      let cf = &cfgs[(i / (m * m)) as usize];
      let (a, b) = ((i % m) as f64, (i / m % m) as f64);
      let r = |v: f64| if T::SINGLE { v as f32 as f64 } else { v };
      let f = [
        [cf.0 + a * ulp, cf.1 + b * ulp],
        [r(cf.2[0]), r(cf.2[1])],
        [r(cf.3[0]), r(cf.3[1])],
      ];
      let flat: Vec<f64> = f.iter().flatten().copied().collect();
      let ex = exact_scaled(&flat);
      let e: Vec<P> = (0..3).map(|j| [ex[2 * j], ex[2 * j + 1]]).collect();
      let p: Vec<Point<T>> = f.iter().map(|v| Point::new([T::mkf(v[0]), T::mkf(v[1])])).collect();
      c.state();
      for s in 0..6 {
        let o = permutation(s, 3);
        c.trace();
        judge(c, [e[o[0]], e[o[1]], e[o[2]]], [&p[o[0]], &p[o[1]], &p[o[2]]])?;
      }
      Ok(())
    },
  );
}

fn main() {
  let mut k = Check::new("C01");
  // Every pair of i8 points as seen from chosen base points.
  let bases: Vec<[i8; 2]> = k.pick(
    vec![[-128, 127]],
    vec![[-128, 127], [-128, -128], [127, 127], [127, -128], [0, 0], [-1, 0], [1, -1], [-128, 0], [63, -64], [126, -127]],
  );
  k.space(
    "i8/all pairs",
    "base points x every i8 point x every i8 point (2^32 per base point)",
    bases.len() as u64 * 65536,
    |i| {
      let b = bases[(i / 65536) as usize];
      format!("p={:?} q=({},{}) r=any i8 point", b, (i % 256) as u8 as i8, (i / 256 % 256) as u8 as i8)
    },
    |i, c| {
      let b = bases[(i / 65536) as usize];
      let q = [(i % 256) as u8 as i8, (i / 256 % 256) as u8 as i8];
      let (ux, uy) = (q[0] as i32 - b[0] as i32, q[1] as i32 - b[1] as i32);
      let mut cnt = [0u64; 3];
      for x in i8::MIN..=i8::MAX {
        let part = uy * (x as i32 - b[0] as i32);
        for y in i8::MIN..=i8::MAX {
          let want = (ux * (y as i32 - b[1] as i32) - part).signum();
          let got = sgn(Orientation::new(&b, &q, &[x, y])) as i32;
          ensure!(want == got, "turn of {:?} -> {:?} -> {:?}: expected {}, got {}", b, q, [x, y], want, got);
          cnt[(want + 1) as usize] += 1;
        }
      }
      c.states(65536);
      c.op(65536);
      c.trace();
      c.outcome_n("right", cnt[0]);
      c.outcome_n("straight", cnt[1]);
      c.outcome_n("left", cnt[2]);
      Ok(())
    },
  );
  each_type!(T in [i8, i16, i32, i64, isize, BigInt] { ints::<T>(&mut k); });
  with_gmp!(T { ints::<T>(&mut k); });
  rationals(&mut k);
  each_type!(T in [f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] {
    floats::<T>(&mut k);
    near::<T>(&mut k);
  });
  k.assume("float coordinates are finite and their coordinate products neither overflow nor underflow");
  k.finish()
}
