//! C16: convex hulls of point sets are exact and minimal for both algorithms.
use harness::oracle::*;
use harness::polyenum::*;
use harness::polys::*;
use harness::scalars::*;
use harness::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::algorithms::convex_hull::{gift_wrapping, graham_scan};
use rgeometry::data::{Point, PolygonConvex};
use rgeometry::Error;

fn judge<T: Sc>(c: &mut Ctx, v: &[P], tp: &[Point<T>], what: &str, got: Result<PolygonConvex<T>, Error>, h: &[P]) -> R {
  c.op(1);
  match got {
    Err(e) => {
      ensure!(h.len() < 3, "{} {}: hull of {:?} fails with {:?}", T::NAME, what, v, e);
      c.outcome("error");
    }
    Ok(p) => {
      let b = boundary(p.polygon());
      ensure!(h.len() >= 3, "{} {}: points {:?} are on one line but the hull is {:?}", T::NAME, what, v, b);
      let want: Vec<Point<T>> = h.iter().map(|q| tp[v.iter().position(|x| x == q).unwrap()].clone()).collect();
      ensure!(is_rotation(&want, &b), "{} {}: hull of {:?} should be {:?} but is {:?}", T::NAME, what, v, want, b);
      ensure!(p.polygon().iter().count() == h.len(), "{} {}: hull of {:?} stores extra points", T::NAME, what, v);
      ensure!(p.validate().is_ok(), "{} {}: hull of {:?} does not validate: {:?}", T::NAME, what, v, p.validate());
      c.outcome("hull");
    }
  }
  Ok(())
}
fn both<T: Sc>(c: &mut Ctx, v: &[P], tp: Vec<Point<T>>) -> R {
  let h = if v.is_empty() { vec![] } else { hull(v) };
  judge(c, v, &tp, "graham scan", graham_scan::convex_hull(tp.clone()), &h)?;
  judge(c, v, &tp, "gift wrapping", gift_wrapping::convex_hull(tp.clone()), &h)?;
  c.state();
  c.trace();
  Ok(())
}
/// Every list (order and repetitions included).
fn lists<T: Sc>(k: &mut Check, label: &str, a: &[P], tp: &[Point<T>], len: usize) {
  let n = a.len() as u64;
  k.space(
    &format!("{}/{} length {}", T::NAME, label, len),
    &format!("every list of {} out of {} points, all orders and repetitions, both algorithms", len, n),
    n.pow(len as u32),
    |i| format!("{} {:?}", T::NAME, digits_vec(i, n, len).iter().map(|&d| a[d]).collect::<Vec<_>>()),
    |i, c| {
      let d = digits_vec(i, n, len);
      both::<T>(c, &d.iter().map(|&d| a[d]).collect::<Vec<_>>(), d.iter().map(|&d| tp[d].clone()).collect())
    },
  );
}
/// Every subset in several orders.
fn subsets<T: Sc>(k: &mut Check, label: &str, a: &[P]) {
  let n = a.len();
  let tp = pts::<T>(a);
  const ORDERS: u64 = 6;
  k.space(
    &format!("{}/{} subsets", T::NAME, label),
    &format!("every subset of {} points in {} orders, some with a repeated point", n, ORDERS),
    (1 << n) * ORDERS,
    |i| format!("{} subset {:#b} order {}", T::NAME, i / ORDERS, i % ORDERS),
    |i, c| {
      let mut d: Vec<usize> = (0..n).filter(|j| i / ORDERS >> j & 1 == 1).collect();
      let m = d.len().max(1);
      match i % ORDERS {
        0 => {}
        1 => d.reverse(),
        2 => { let h = d.len() / 2; d.rotate_left(h) }
        3 => {
          // inside out
          let e: Vec<usize> = (0..d.len()).map(|j| d[if j % 2 == 0 { j / 2 } else { d.len() - 1 - j / 2 }]).collect();
          d = e;
        }
        4 => {
          d.sort_by_key(|&x| (x * 7919) % 31);
          if let Some(&f) = d.first() {
            d.push(f);
          }
        }
        _ => {
          d.sort_by_key(|&x| (x * 104729) % 37);
          if let Some(&f) = d.get(m / 2) {
            d.insert(0, f);
            d.push(f);
          }
        }
      }
      both::<T>(c, &d.iter().map(|&d| a[d]).collect::<Vec<_>>(), d.iter().map(|&d| tp[d].clone()).collect())
    },
  );
}
fn square(t: &[i128]) -> Vec<P> {
  t.iter().flat_map(|&x| t.iter().map(move |&y| [x, y])).collect()
}
fn embed<T: Sc>(k: &mut Check, len: usize) {
  let (lo, hi) = T::lim();
  for t in tables(lo, hi, 3) {
    let a = square(&t);
    lists::<T>(k, &format!("coordinates {:?}", t), &a, &pts::<T>(&a), len);
    subsets::<T>(k, &format!("coordinates {:?}", t), &a);
  }
}

fn main() {
  let mut k = Check::new("C16");
  let g3 = grid(3, 3);
  for len in 0..=k.pick(7, 8) {
    lists::<i64>(&mut k, "3x3 grid", &g3, &pts::<i64>(&g3), len);
  }
  let g4 = grid(4, 4);
  let len = k.pick(5, 6);
  lists::<i8>(&mut k, "4x4 grid", &g4, &pts::<i8>(&g4), len);
  let g5 = grid(5, 5);
  let len = k.pick(4, 5);
  lists::<i32>(&mut k, "5x5 grid", &g5, &pts::<i32>(&g5), len);
  subsets::<i64>(&mut k, "4x4 grid", &g4);
  subsets::<i16>(&mut k, "6x3 grid", &grid(6, 3));
  if k.thorough() {
    subsets::<i32>(&mut k, "7x3 grid", &grid(7, 3));
    subsets::<i32>(&mut k, "5x4 grid", &grid(5, 4));
  }
  // Permutations: every order of the whole small grid, and of grids with a repeated point
  let m = k.pick(9usize, 10);
  let base: Vec<P> = grid(3, 3).into_iter().chain([[1, 1]]).take(m).collect();
  k.space("i64/every order", &format!("every order of {} grid points", m), factorial(m), |i| format!("{:?}", permutation(i, m)), |i, c| {
    let v: Vec<P> = permutation(i, m).into_iter().map(|j| base[j]).collect();
    both::<i64>(c, &v, pts::<i64>(&v))
  });
  let len = k.pick(5, 6);
  each_type!(T in [i8, i16, i32, i64, isize] { embed::<T>(&mut k, len); });
  let len = k.pick(4, 5);
  each_type!(T in [BigInt, f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] { embed::<T>(&mut k, len); });
  embed::<BigRational>(&mut k, 3);
  each_type!(T in [i8, i64] {
    let (lo, hi) = T::lim();
    let a = square(&extreme_alphabet(lo, hi, k.pick(5, 7)));
    let tp = pts::<T>(&a);
    lists::<T>(&mut k, "extreme values", &a, &tp, 4);
  });
  fn floats<T: FSc>(k: &mut Check) {
    let (e, tp) = near_points::<T>();
    for len in 3..=k.pick(4, 6) {
      lists::<T>(k, "nearly colinear", &e, &tp, len);
    }
  }
  each_type!(T in [f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] { floats::<T>(&mut k); });
  let fam = families(k.pick(200, 300));
  k.space("i64/large", "vertices of structured polygons in polygon order from several starts, reversed, sorted and doubled", fam.len() as u64 * 6, |i| format!("{} order {}", fam[(i / 6) as usize].0, i % 6), |i, c| {
    let v = &fam[(i / 6) as usize].1;
    let mut w = match i % 6 {
      0 => v.clone(),
      1 => rotated(v, v.len() / 3),
      2 | 3 => rotated(v, v.len() / 2),
      4 => v.iter().chain(v.iter()).copied().collect(),
      _ => v.iter().flat_map(|p| [*p, *p, *p]).collect(),
    };
    if i % 6 == 2 {
      w.sort();
    }
    if i % 6 == 3 {
      w.reverse();
    }
    both::<i64>(c, &w, pts::<i64>(&w))?;
    both::<f64>(c, &w, pts::<f64>(&w))
  });
  let big = huge();
  k.space("i64/more than 65536 points", "vertices of structured polygons in scattered order", big.len() as u64 * 4, |i| format!("{} stride {}", big[(i / 4) as usize].0, [1, 7, 101, 40_009][(i % 4) as usize]), |i, c| {
    let v0 = &big[(i / 4) as usize].1;
    let n = v0.len();
    let st = [1, 7, 101, 40_009][(i % 4) as usize];
    let mut v: Vec<P> = (0..n).map(|j| v0[j * st % n]).collect();
    v.extend_from_slice(&v0[..100]);
    let h = hull(&v);
    let want = pts::<i64>(&h);
    let mut got = vec![("graham scan", graham_scan::convex_hull(pts::<i64>(&v)))];
    if h.len() < 50 {
      got.push(("gift wrapping", gift_wrapping::convex_hull(pts::<i64>(&v))));
    }
    for (what, p) in got {
      let b = boundary(p.map_err(|e| format!("{}: {:?}", what, e))?.polygon());
      ensure!(is_rotation(&want, &b), "{}: the hull should have {} corners, has {} or others", what, want.len(), b.len());
      c.op(1);
    }
    c.outcome("hull");
    c.state();
    c.trace();
    Ok(())
  });
  k.assume("float coordinates are finite, without negative zero, and coordinate products neither overflow nor underflow");
  k.finish()
}
