//! C21: star polygon generation yields a valid star around the given point.
use harness::oracle::*;
use harness::polyenum::*;
use harness::polys::*;
use harness::scalars::*;
use harness::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::algorithms::polygonization::new_star_polygon;
use rgeometry::data::Point;
use std::cmp::Ordering;

/// Points in pairwise different directions from the centre, no angular gap of 180 degrees or more.
fn guaranteed(z: P, v: &[P]) -> bool {
  if v.len() < 3 || v.contains(&z) {
    return false;
  }
  let mut w = v.to_vec();
  w.sort_by(|a, b| cmp_angle([1, 0], z, *a, *b));
  let n = w.len();
  (0..n).all(|i| orient(z, w[i], w[(i + 1) % n]) > 0)
}
/// Ends of the shortest run through the circular order: does `b` go once around `z` by angle?
fn follows_angles(z: P, b: &[P]) -> bool {
  let n = b.len();
  let desc = |w: &[P]| (0..n).filter(|&i| cmp_angle([1, 0], z, w[i], w[(i + 1) % n]) == Ordering::Greater).count();
  let rev: Vec<P> = b.iter().rev().copied().collect();
  desc(b) <= 1 || desc(&rev) <= 1
}
fn judge<T: Sc>(c: &mut Ctx, z: P, tz: &Point<T>, v: &[P], tp: &[Point<T>]) -> R {
  c.op(1);
  let sure = guaranteed(z, v);
  match new_star_polygon(tp.to_vec(), tz) {
    Err(e) => {
      ensure!(!sure, "{} star of {:?} around {:?} fails with {:?}", T::NAME, v, z, e);
      c.outcome("error");
    }
    Ok(p) => {
      let b: Vec<P> = boundary(&p).iter().filter_map(|q| back(v, tp, q)).collect();
      let (mut s, mut w) = (b.clone(), v.to_vec());
      s.sort();
      w.sort();
      ensure!(s == w, "{} star of {:?} around {:?}: {:?} has other vertices", T::NAME, v, z, b);
      ensure!(is_simple(&b) && winding(&b) > 0, "{} star of {:?} around {:?}: {:?} is not a counter-clockwise simple polygon", T::NAME, v, z, b);
      ensure!(p.validate().is_ok(), "{} star of {:?} around {:?}: {:?} does not validate", T::NAME, v, z, b);
      if !v.contains(&z) {
        ensure!(follows_angles(z, &b), "{} star of {:?} around {:?}: {:?} is not in angular order", T::NAME, v, z, b);
      }
      if sure {
        let n = b.len();
        ensure!((0..n).all(|i| orient(z, b[i], b[(i + 1) % n]) > 0), "{} star of {:?}: {:?} does not see all of {:?}", T::NAME, v, z, b);
        c.outcome("star");
      } else {
        c.outcome("polygon");
      }
    }
  }
  Ok(())
}
fn lists<T: Sc>(k: &mut Check, label: &str, a: &[P], tp: &[Point<T>], len: usize) {
  let n = a.len() as u64;
  k.space(
    &format!("{}/{} lists of {}", T::NAME, label, len),
    &format!("every list of {} out of {} points with repetitions, every one of the points as centre", len, n),
    n.pow(len as u32),
    |i| format!("{} {:?}", T::NAME, digits_vec(i, n, len).iter().map(|&d| a[d]).collect::<Vec<_>>()),
    |i, c| {
      let d = digits_vec(i, n, len);
      let v: Vec<P> = d.iter().map(|&d| a[d]).collect();
      let t: Vec<Point<T>> = d.iter().map(|&d| tp[d].clone()).collect();
      for j in 0..a.len() {
        judge::<T>(c, a[j], &tp[j], &v, &t)?;
      }
      c.state();
      c.trace();
      Ok(())
    },
  );
}
fn subsets<T: Sc>(k: &mut Check, label: &str, a: &[P]) {
  let n = a.len();
  let tp = pts::<T>(a);
  k.space(
    &format!("{}/{} subsets", T::NAME, label),
    &format!("every subset of {} points in two orders, every one of the points as centre", n),
    2 << n,
    |i| format!("{} subset {:#b} order {}", T::NAME, i / 2, i % 2),
    |i, c| {
      let mut d: Vec<usize> = (0..n).filter(|j| i / 2 >> j & 1 == 1).collect();
      if i % 2 == 1 {
        d.sort_by_key(|&x| (x * 7919 + 3) % 31);
      }
      let v: Vec<P> = d.iter().map(|&d| a[d]).collect();
      let t: Vec<Point<T>> = d.iter().map(|&d| tp[d].clone()).collect();
      for j in 0..n {
        judge::<T>(c, a[j], &tp[j], &v, &t)?;
      }
      c.state();
      c.trace();
      Ok(())
    },
  );
}
fn square(t: &[i128]) -> Vec<P> {
  t.iter().flat_map(|&x| t.iter().map(move |&y| [x, y])).collect()
}
fn embed<T: Sc>(k: &mut Check, len: usize) {
  let (lo, hi) = T::lim();
  for t in tables(lo, hi, 3) {
    let a = square(&t);
    lists::<T>(k, &format!("coordinates {:?}", t), &a, &pts::<T>(&a), len);
    subsets::<T>(k, &format!("coordinates {:?}", t), &a);
  }
}

fn main() {
  let mut k = Check::new("C21");
  let g = grid(3, 3);
  for len in 0..=k.pick(6, 7) {
    lists::<i64>(&mut k, "3x3 grid", &g, &pts::<i64>(&g), len);
  }
  let g4 = grid(4, 4);
  let len = k.pick(4, 5);
  lists::<i32>(&mut k, "4x4 grid", &g4, &pts::<i32>(&g4), len);
  let g5 = grid(5, 5);
  let len = k.pick(3, 4);
  lists::<i16>(&mut k, "5x5 grid", &g5, &pts::<i16>(&g5), len);
  subsets::<i8>(&mut k, "4x4 grid", &g4);
  subsets::<i64>(&mut k, "5x3 grid", &grid(5, 3));
  // every order
  let m = k.pick(8, 9);
  let ring: Vec<P> = g.iter().copied().filter(|p| *p != [1, 1]).chain([[1, 1]]).take(m).collect();
  k.space("i64/every order", &format!("every order of {} points around every grid point", m), factorial(m), |i| format!("{:?}", permutation(i, m)), |i, c| {
    let v: Vec<P> = permutation(i, m).into_iter().map(|j| ring[j]).collect();
    let tp = pts::<i64>(&v);
    for &z in &g {
      judge::<i64>(c, z, &pt::<i64>(z), &v, &tp)?;
    }
    c.state();
    c.trace();
    Ok(())
  });
  let len = k.pick(4, 5);
  each_type!(T in [i8, i16, i32, i64, isize] { embed::<T>(&mut k, len); });
  let len = k.pick(3, 4);
  each_type!(T in [BigInt, f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] { embed::<T>(&mut k, len); });
  embed::<BigRational>(&mut k, 3);
  each_type!(T in [i8, i64] {
    let (lo, hi) = T::lim();
    let a = square(&extreme_alphabet(lo, hi, k.pick(4, 5)));
    lists::<T>(&mut k, "extreme values", &a, &pts::<T>(&a), 4);
  });
  fn floats<T: FSc>(k: &mut Check) {
    let (e, tp) = near_points::<T>();
    let n = k.pick(4, 5);
    lists::<T>(k, "nearly colinear", &e, &tp, n);
  }
  each_type!(T in [f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] { floats::<T>(&mut k); });
  // Large stars: spikes around the centre in scattered order, centre on and off the middle.
  let sizes: Vec<usize> = (3..=k.pick(60, 200)).collect();
  k.space("i64/large", "convex polygons and their scaled-down copies in alternation, scattered order, several centres", sizes.len() as u64, |i| format!("n = {}", sizes[i as usize]), |i, c| {
    let n = sizes[i as usize];
    let ring = convex_ngon(n);
    let m = area_middle(&ring);
    let mut v: Vec<P> = vec![];
    for j in 0..n {
      let p = ring[(j * 7 + 3) % n];
      let q = if j % 2 == 0 { p } else { [(p[0] + m[0]).div_euclid(2), (p[1] + m[1]).div_euclid(2)] };
      if !v.contains(&q) {
        v.push(q);
      }
    }
    for z in [m, [m[0] + 1, m[1]], [m[0], m[1] - 1], ring[0], [ring[0][0] - 1, ring[0][1]]] {
      judge::<i64>(c, z, &pt::<i64>(z), &v, &pts::<i64>(&v))?;
      judge::<f64>(c, z, &pt::<f64>(z), &v, &pts::<f64>(&v))?;
    }
    c.state();
    c.trace();
    Ok(())
  });
  let m = k.pick(700, 2500);
  k.space("i64/very large", &format!("{} points around several centres", m), 4, |i| format!("centre {}", i), |i, c| {
    let ring = spikes(m / 2);
    let n = ring.len();
    let st = (2..n).map(|s| s + 5).find(|s| n % s != 0 && (2..=*s).all(|d| s % d != 0 || n % d != 0)).unwrap();
    let v: Vec<P> = (0..n).map(|j| ring[j * st % n]).collect();
    let h = convex_ngon(n);
    // the point all spikes are arranged around
    let z = h.iter().fold([0i128, 0], |a, p| [a[0] + p[0], a[1] + p[1]]);
    let z = [z, [z[0] + 1, z[1]], [z[0], z[1] - 1], [z[0] + 3, z[1] + 2]][i as usize];
    judge::<i64>(c, z, &pt::<i64>(z), &v, &pts::<i64>(&v)).map_err(|e| e.chars().take(300).collect::<String>())?;
    c.state();
    c.trace();
    Ok(())
  });
  k.assume("float coordinates are finite, without negative zero, and coordinate products neither overflow nor underflow");
  k.finish()
}
fn area_middle(v: &[P]) -> P {
  let n = v.len() as i128;
  [v.iter().map(|p| p[0]).sum::<i128>() / n, v.iter().map(|p| p[1]).sum::<i128>() / n]
}
