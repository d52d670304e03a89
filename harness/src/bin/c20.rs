//! C20: monotone polygon generation and the monotonicity test are exact.
use harness::oracle::*;
use harness::polyenum::*;
use harness::polys::*;
use harness::rngs::mixed;
use harness::scalars::*;
use harness::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::algorithms::polygonization::{new_monotone_polygon};
use rgeometry::data::{Point, Polygon, Vector};
use std::collections::BTreeSet;

fn vector<T: Sc>(d: P) -> Vector<T, 2> {
  Vector([T::mk(d[0]), T::mk(d[1])])
}
fn directions(r: i128) -> Vec<P> {
  let mut d = vec![];
  for x in -r..=r {
    for y in -r..=r {
      if (x, y) != (0, 0) {
        d.push([x, y]);
      }
    }
  }
  d
}
fn test<T: Sc>(c: &mut Ctx, p: &Polygon<T>, v: &[P], ds: &[P]) -> R {
  for &d in ds {
    let want = is_monotone(v, d);
    let got = p.is_monotone(&vector::<T>(d));
    c.op(1);
    c.outcome(if want { "monotone" } else { "not monotone" });
    ensure!(got == want, "{} polygon {:?} monotone in direction {:?} should be {} but is {}", T::NAME, v, d, want, got);
  }
  c.trace();
  Ok(())
}
fn generate<T: Sc>(c: &mut Ctx, v: &[P], tp: &[Point<T>], ds: &[P]) -> R {
  let bad = all_colinear(v) || v.len() < 3;
  for &d in ds {
    c.op(1);
    match new_monotone_polygon(tp.to_vec(), &vector::<T>(d)) {
      Err(e) => {
        ensure!(bad, "{} points {:?}, direction {:?}: fails with {:?}", T::NAME, v, d, e);
        c.outcome("error");
      }
      Ok(p) => {
        let b: Vec<P> = boundary(&p).iter().filter_map(|q| back(v, tp, q)).collect();
        ensure!(!bad, "{} points {:?} on a line, direction {:?}: gives {:?}", T::NAME, v, d, b);
        let mut s = b.clone();
        s.sort();
        let want: Vec<P> = v.iter().copied().collect::<BTreeSet<_>>().into_iter().collect();
        ensure!(s == want, "{} points {:?}, direction {:?}: the polygon {:?} has other vertices", T::NAME, v, d, b);
        ensure!(is_simple(&b) && winding(&b) > 0, "{} points {:?}, direction {:?}: {:?} is not a counter-clockwise simple polygon", T::NAME, v, d, b);
        ensure!(p.validate().is_ok(), "{} points {:?}, direction {:?}: {:?} does not validate", T::NAME, v, d, b);
        ensure!(is_monotone(&b, d), "{} points {:?}: {:?} is not monotone in {:?}", T::NAME, v, b, d);
        ensure!(p.is_monotone(&vector::<T>(d)), "{} points {:?}: {:?} is not recognised as monotone in {:?}", T::NAME, v, b, d);
        c.outcome("polygon");
      }
    }
  }
  c.state();
  c.trace();
  Ok(())
}
fn tests<T: Sc>(k: &mut Check, label: &str, a: &[P], nmax: usize, ds: &[P], starts: usize) {
  let ps = simple_polygons(a, 3, nmax);
  k.space(
    &format!("test {}/{} up to {} vertices", T::NAME, label, nmax),
    &format!("every simple polygon, {} directions, up to {} starting vertices, built counter-clockwise and clockwise", ds.len(), starts),
    ps.len(),
    |i| format!("{} {:?}", T::NAME, ps.get(i)),
    |i, c| {
      let v = ps.get(i);
      for s in 0..v.len().min(starts) {
        test(c, &poly_var::<T>(&v, s, (s + i as usize) % 2 == 1)?, &v, ds)?;
      }
      c.state();
      Ok(())
    },
  );
}
fn lists<T: Sc>(k: &mut Check, label: &str, a: &[P], tp: &[Point<T>], len: usize, ds: &[P]) {
  let n = a.len() as u64;
  k.space(
    &format!("generate {}/{} lists of {}", T::NAME, label, len),
    &format!("every list of {} out of {} points with repetitions, {} directions", len, n, ds.len()),
    n.pow(len as u32),
    |i| format!("{} {:?}", T::NAME, digits_vec(i, n, len).iter().map(|&d| a[d]).collect::<Vec<_>>()),
    |i, c| {
      let d = digits_vec(i, n, len);
      generate::<T>(c, &d.iter().map(|&d| a[d]).collect::<Vec<_>>(), &d.iter().map(|&d| tp[d].clone()).collect::<Vec<_>>(), ds)
    },
  );
}
fn subsets<T: Sc>(k: &mut Check, label: &str, a: &[P], ds: &[P]) {
  let n = a.len();
  let tp = pts::<T>(a);
  k.space(
    &format!("generate {}/{} subsets", T::NAME, label),
    &format!("every subset of {} points, {} directions, ascending or scattered order", n, ds.len()),
    1 << n,
    |i| format!("{} subset {:#b}", T::NAME, i),
    |i, c| {
      let mut d: Vec<usize> = (0..n).filter(|j| i >> j & 1 == 1).collect();
      if i % 2 == 1 {
        d.sort_by_key(|&x| (x * 7919 + 3) % 31);
      }
      generate::<T>(c, &d.iter().map(|&d| a[d]).collect::<Vec<_>>(), &d.iter().map(|&d| tp[d].clone()).collect::<Vec<_>>(), ds)
    },
  );
}
fn square(t: &[i128]) -> Vec<P> {
  t.iter().flat_map(|&x| t.iter().map(move |&y| [x, y])).collect()
}
fn embed<T: Sc>(k: &mut Check, len: usize, nmax: usize) {
  let (lo, hi) = T::lim();
  for t in tables(lo, hi, 3) {
    let a = square(&t);
    let mut ds: Vec<P> = directions(2);
    // Extreme directions, among them the ones between the points.
    for x in [lo, lo + 1, -1, 0, 1, hi] {
      for y in [lo, 0, 1, hi - 1, hi] {
        if (x, y) != (0, 0) {
          ds.push([x, y]);
        }
      }
    }
    ds.sort();
    ds.dedup();
    lists::<T>(k, &format!("coordinates {:?}", t), &a, &pts::<T>(&a), len, &ds);
    tests::<T>(k, &format!("coordinates {:?}", t), &a, nmax, &ds, 1);
  }
}

fn main() {
  let mut k = Check::new("C20");
  let d2 = directions(2);
  let d3 = directions(3);
  let g3 = grid(3, 3);
  tests::<i64>(&mut k, "3x3 grid", &g3, 9, &d3, 9);
  let n = k.pick(8, 10);
  tests::<i8>(&mut k, "4x3 grid", &grid(4, 3), n, &d3, 2);
  let n = k.pick(6, 7);
  tests::<i32>(&mut k, "4x4 grid", &grid(4, 4), n, &d3, 2);
  let n = k.pick(4, 5);
  tests::<i16>(&mut k, "5x5 grid", &grid(5, 5), n, &directions(4), 2);
  if k.thorough() {
    tests::<i64>(&mut k, "5x4 grid", &grid(5, 4), 6, &directions(4), 2);
  }
  for len in 0..=k.pick(5, 6) {
    lists::<i64>(&mut k, "3x3 grid", &g3, &pts::<i64>(&g3), len, &d2);
  }
  let g4 = grid(4, 4);
  let len = k.pick(4, 5);
  lists::<i32>(&mut k, "4x4 grid", &g4, &pts::<i32>(&g4), len, &d3);
  let d = if k.thorough() { &d3 } else { &d2 };
  subsets::<i64>(&mut k, "4x4 grid", &g4, d);
  let d = directions(1);
  subsets::<i8>(&mut k, "6x3 grid", &grid(6, 3), &d[..]);
  let (m, n) = k.pick((4, 5), (5, 7));
  each_type!(T in [i8, i16, i32, i64, isize] { embed::<T>(&mut k, m, n); });
  let (m, n) = k.pick((3, 5), (4, 6));
  each_type!(T in [BigInt, f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] { embed::<T>(&mut k, m, n); });
  let n = k.pick(4, 5);
  embed::<BigRational>(&mut k, 3, n);
  each_type!(T in [i8, i64] {
    let (lo, hi) = T::lim();
    let a = square(&extreme_alphabet(lo, hi, k.pick(4, 5)));
    let ds: Vec<P> = a.iter().copied().filter(|d| *d != [0, 0]).collect();
    lists::<T>(&mut k, "extreme values", &a, &pts::<T>(&a), 4, &ds);
  });
  fn floats<T: FSc>(k: &mut Check) {
    let (e, tp) = near_points::<T>();
    let d: Vec<P> = vec![[1, 0], [0, 1], [-1, 0], [0, -1], [1, 1], [1, -1], [-1, 1], [2, 1], [-1, 2]];
    let n = k.pick(4, 5);
    lists::<T>(k, "nearly colinear", &e, &tp, n, &d);
  }
  each_type!(T in [f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] { floats::<T>(&mut k); });
  let mut fam = families(k.pick(120, 300));
  fam.extend(arcs(12, 1));
  k.space("large", "structured polygons tested from several starts, and their vertices used for generation", fam.len() as u64 * 8, |i| format!("{} symmetry {}", fam[(i / 8) as usize].0, i % 8), |i, c| {
    let v = dihedral_poly(&fam[(i / 8) as usize].1, (i % 8) as usize);
    let w = rotated(&v, i as usize % v.len());
    test(c, &poly_var::<i64>(&w, 0, i % 2 == 1)?, &w, &d3)?;
    test(c, &poly_var::<f64>(&w, 0, i % 2 == 0)?, &w, &d2)?;
    generate::<i64>(c, &w, &pts::<i64>(&w), &d2)
  });
  let big = huge();
  k.space("more than 65536 vertices", "structured polygons in eight orientations: the monotonicity test in several directions", big.len() as u64 * 8, |i| format!("{} symmetry {}", big[(i / 8) as usize].0, i % 8), |i, c| {
    let v = rotated(&dihedral_poly(&big[(i / 8) as usize].1, (i % 8) as usize), 40_000);
    let p = Polygon::new_unchecked(pts::<i64>(&v));
    for &d in &d2 {
      ensure!(p.is_monotone(&vector::<i64>(d)) == is_monotone(&v, d), "monotone in {:?} should be {}", d, is_monotone(&v, d));
      c.op(1);
    }
    c.state();
    c.trace();
    Ok(())
  });
  let ns: &[usize] = if k.thorough() { &[1, 2, 3, 5, 8, 13, 21, 34, 45, 55, 64, 89, 144, 233, 300, 520] } else { &[1, 2, 3, 5, 13, 34, 45, 89, 144] };
  k.space(
    "generate around the extreme chord",
    &format!("{:?} points on the chord between the extreme points, none, one or two points beside it (same or opposite sides) after every eighth of them, in several list orders and every direction", ns),
    ns.len() as u64 * 9 * 4 * 8,
    |i| format!("{} points, place {}, beside {}, symmetry {}", ns[(i / 288) as usize], i / 32 % 9, i / 8 % 4, i % 8),
    |i, c| {
      let n = ns[(i / 288) as usize] as i128;
      let x = (i / 32 % 9) as i128 * n / 8;
      let mut v: Vec<P> = (0..n + 2).map(|j| [2 * j, 2 * j]).collect();
      match i / 8 % 4 {
        0 => v.push([2 * x + 1, 2 * x + 2]),
        1 => v.push([2 * x + 2, 2 * x + 1]),
        2 => v.extend([[2 * x + 2, 2 * x + 1], [2 * n + 1, 2 * n]]),
        _ => v.extend([[2 * x + 1, 2 * x + 2], [2 * n - 1, 2 * n - 2]]),
      }
      let v = dihedral_poly(&v, (i % 8) as usize);
      let mut s: Vec<P> = v.clone();
      s.sort();
      s.dedup();
      for o in 0..3u64 {
        let mut w = s.clone();
        match o {
          0 => w.reverse(),
          1 => w.sort_by_key(|p| mixed(p[0] as u64 ^ (p[1] as u64) << 20)),
          _ => (),
        }
        generate::<i64>(c, &w, &pts::<i64>(&w), &d2)?;
      }
      Ok(())
    },
  );
  let m = k.pick(1100, 2000);
  let g: Vec<P> = (0..m as i128).map(|j| [j * 7919 % 2003 - 1000, j * 104_729 % 1999 - 1000]).collect();
  k.space("large generation", &format!("{} scattered points, every direction", m), d2.len() as u64, |i| format!("{:?}", d2[i as usize]), |i, c| generate::<i64>(c, &g, &pts::<i64>(&g), &[d2[i as usize]]));
  k.assume("directions are non-zero");
  k.assume("float coordinates are finite, without negative zero, and coordinate products neither overflow nor underflow");
  k.finish()
}
