//! C02: turns relative to a direction vector / its perpendicular, and projections, are exact.
use harness::oracle::*;
use harness::scalars::*;
use harness::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::{Direction, Point, Vector};
use rgeometry::Orientation;

fn judge<T: Sc>(c: &mut Ctx, e: [P; 3], v: &Vector<T, 2>, p: &Point<T>, r: &Point<T>) -> R {
  let want = orient_vec(e[0], e[1], e[2]);
  same!(format!("side of {:?} of the line from {:?} along {:?}", r, p, v), want, sgn(Orientation::along_vector(p, v, r)));
  same!("side along vector (point form)", want, sgn(Point::orient_along_vector(p, v, r)));
  same!("side along direction", want, sgn(Point::orient_along_direction(p, Direction::Vector(v), r)));
  let wp = orient_perp(e[0], e[1], e[2]);
  same!(format!("side of {:?} of the line from {:?} perpendicular to {:?}", r, p, v), wp, sgn(Orientation::along_perp_vector(p, v, r)));
  same!("side of perpendicular (point form)", wp, sgn(Point::orient_along_perp_vector(p, v, r)));
  let wc = cmp_along(e[0], e[1], e[2]);
  same!(format!("projection order of {:?} and {:?} on {:?}", p, r, v), wc, v.cmp_along(p, r));
  c.op(6);
  c.outcome(match (want, wp) {
    (0, 0) => "both straight",
    (0, _) => "along",
    (_, 0) => "perpendicular",
    _ => "general",
  });
  Ok(())
}

fn table<T: Sc>(k: &mut Check, label: &str, exact: &[i128], mk: &(dyn Fn(usize) -> T + Sync)) {
  let n = exact.len() as u64;
  k.space(
    &format!("{}/{}", T::NAME, label),
    &format!("all (vector, point, point) with coordinates in a table of {} values", n),
    n.pow(4),
    |i| {
      let d = digits::<4>(i, n);
      format!("{} v=({:?},{:?}) p=({:?},{:?}) r=any in the table", T::NAME, mk(d[0]), mk(d[1]), mk(d[2]), mk(d[3]))
    },
    |i, c| {
      let d = digits::<4>(i, n);
      let v = Vector([mk(d[0]), mk(d[1])]);
      let p = Point::new([mk(d[2]), mk(d[3])]);
      for x in 0..n as usize {
        for y in 0..n as usize {
          let r = Point::new([mk(x), mk(y)]);
          c.state();
          c.trace();
          judge(c, [[exact[d[0]], exact[d[1]]], [exact[d[2]], exact[d[3]]], [exact[x], exact[y]]], &v, &p, &r)?;
        }
      }
      Ok(())
    },
  );
}

fn main() {
  let mut k = Check::new("C02");
  let bases: Vec<[i8; 2]> = k.pick(
    vec![[127, -128]],
    vec![[-128, 127], [-128, -128], [127, 127], [127, -128], [0, 0], [-1, 1], [63, -64]],
  );
  // Full i8 vectors x full i8 target points.
  k.space(
    "i8/all vectors",
    "base points x every i8 vector x every i8 point (2^32 per base point)",
    bases.len() as u64 * 65536,
    |i| {
      let b = bases[(i / 65536) as usize];
      format!("p={:?} v=({},{}) r=any i8 point", b, (i % 256) as u8 as i8, (i / 256 % 256) as u8 as i8)
    },
    |i, c| {
      let b = bases[(i / 65536) as usize];
      let v = Vector([(i % 256) as u8 as i8, (i / 256 % 256) as u8 as i8]);
      let (vx, vy) = (v.0[0] as i32, v.0[1] as i32);
      for x in i8::MIN..=i8::MAX {
        let dx = x as i32 - b[0] as i32;
        for y in i8::MIN..=i8::MAX {
          let dy = y as i32 - b[1] as i32;
          let r = [x, y];
          let want = (vx * dy - vy * dx).signum();
          let got = sgn(Orientation::along_vector(&b, &v, &r)) as i32;
          ensure!(want == got, "side of {:?} from {:?} along {:?}: expected {}, got {}", r, b, v, want, got);
          let want = (-vy * dy - vx * dx).signum();
          let got = sgn(Orientation::along_perp_vector(&b, &v, &r)) as i32;
          ensure!(want == got, "side of {:?} from {:?} across {:?}: expected {}, got {}", r, b, v, want, got);
        }
      }
      c.states(65536);
      c.op(2 * 65536);
      c.trace();
      Ok(())
    },
  );
  each_type!(T in [i8, i16, i32, i64, isize, BigInt] {
    let (lo, hi) = T::lim();
    let size = if hi > i64::MAX as i128 { k.pick(9, 13) } else { k.pick(14, 17) };
    let t = extreme_alphabet(lo, hi, size);
    table::<T>(&mut k, "extremes", &t, &|i| T::mk(t[i]));
    for (label, t, shift) in word_borders(hi, k.pick(7, 10)) {
      table::<T>(&mut k, label, &t, &|i| T::mk_shifted(t[i], shift));
    }
  });
  with_gmp!(T {
    let (lo, hi) = T::lim();
    let size = if hi > i64::MAX as i128 { k.pick(9, 13) } else { k.pick(14, 17) };
    let t = extreme_alphabet(lo, hi, size);
    table::<T>(&mut k, "extremes", &t, &|i| T::mk(t[i]));
    for (label, t, shift) in word_borders(hi, k.pick(7, 10)) {
      table::<T>(&mut k, label, &t, &|i| T::mk_shifted(t[i], shift));
    }
  });
  {
    let v: Vec<(i128, i128)> = vec![(-7, 2), (-1, 3), (0, 1), (1, 1000003), (1, 2), (1 << 60, 7)];
    let l: i128 = 2 * 3 * 7 * 1000003;
    let ex: Vec<i128> = v.iter().map(|(a, b)| a * (l / b)).collect();
    table::<BigRational>(&mut k, "fractions", &ex, &|i| BigRational::new(BigInt::from(v[i].0), BigInt::from(v[i].1)));
    for (label, t, shift) in word_borders(i128::MAX, k.pick(6, 9)) {
      table::<BigRational>(&mut k, &format!("whole, {label}"), &t, &|i| BigRational::from(BigInt::from(t[i]) << shift));
    }
  }
  each_type!(T in [f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] {
    let eps = if T::SINGLE { f32::EPSILON as f64 } else { f64::EPSILON };
    let tenth = if T::SINGLE { 0.1f32 as f64 } else { 0.1f64 };
    let mut t: Vec<f64> = vec![-16777216.0, -1.0, 0.0, tenth, 1.0, 1.0 + eps];
    if k.thorough() { t.extend([-0.0, 1.0 - eps / 2.0, 2f64.powi(-20)]); }
    let ex = exact_scaled(&t);
    table::<T>(&mut k, "mixed magnitude", &ex, &|i| T::mkf(t[i]));
    // Tiny and huge: exactness must not depend on products staying in range.
    let big = if T::SINGLE { f32::MAX as f64 } else { f64::MAX };
    let tiny = if T::SINGLE { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE };
    // Exact signs on {big, tiny, 0, 1} scaled by order-preserving surrogates:
    // big >> 1 >> tiny with ratios beyond any product, so big=B, tiny=1 with B = 2^60
    // would misrank mixed products; use explicit big integers instead.
    let vals = [-big, -1.0, -tiny, 0.0, tiny, 1.0, big];
    let rat: Vec<BigRational> = vals.iter().map(|&v| BigRational::from_float(v).unwrap()).collect();
    let n = k.pick(vals.len(), vals.len()) as u64;
    k.space(
      &format!("{}/range ends", T::NAME),
      "all (vector, point, point) over {0, +-1, +-max, +-min positive}; inner point restricted to the same table",
      n.pow(4),
      |i| { let d = digits::<4>(i, n); format!("{} v=({},{}) p=({},{})", T::NAME, vals[d[0]], vals[d[1]], vals[d[2]], vals[d[3]]) },
      |i, c| {
        let d = digits::<4>(i, n);
        // restrict the inner loop to keep huge rationals affordable
        for (x, y) in [(0usize, 6usize), (2, 1), (4, 5), (6, 6), (3, 3), (6, 2)] {
          let sub = |a: usize, b: usize| &rat[a] - &rat[b];
          let (dx, dy) = (sub(x, d[2]), sub(y, d[3]));
          let cross = (&rat[d[0]] * &dy).cmp(&(&rat[d[1]] * &dx)) as i8;
          let dot = (-(&rat[d[1]] * &dy)).cmp(&(&rat[d[0]] * &dx)) as i8;
          let v = Vector([T::mkf(vals[d[0]]), T::mkf(vals[d[1]])]);
          let p = Point::new([T::mkf(vals[d[2]]), T::mkf(vals[d[3]])]);
          let r = Point::new([T::mkf(vals[x]), T::mkf(vals[y])]);
          c.state();
          same!(format!("side of {:?} of the line from {:?} along {:?}", r, p, v), cross, sgn(Orientation::along_vector(&p, &v, &r)));
          same!(format!("side of {:?} of the line from {:?} across {:?}", r, p, v), dot, sgn(Orientation::along_perp_vector(&p, &v, &r)));
          c.op(2);
        }
        c.trace();
        Ok(())
      },
    );
  });
  k.assume("float inputs are finite");
  k.finish()
}
