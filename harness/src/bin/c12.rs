//! C12: convex polygons: validation and logarithmic point location are exact.
use harness::oracle::*;
use harness::polyenum::*;
use harness::polys::*;
use harness::scalars::*;
use harness::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::{Point, Polygon, PolygonConvex};

fn judge<T: Sc>(c: &mut Ctx, v: &[P], tp: Vec<Point<T>>) -> R {
  let want = is_strictly_convex(v);
  let got = PolygonConvex::new_unchecked(Polygon::new_unchecked(tp)).validate();
  ensure!(got.is_ok() == want, "{}: validating {:?} as convex: expected {}, got {:?}", T::NAME, v, want, got);
  c.op(1);
  c.state();
  c.trace();
  c.outcome(if want { "strictly convex" } else { "rejected" });
  Ok(())
}
fn sequences<T: Sc>(k: &mut Check, label: &str, a: &[P], tp: &[Point<T>], len: usize) {
  let n = a.len() as u64;
  k.space(
    &format!("{}/validate {} length {}", T::NAME, label, len),
    &format!("every sequence of {} of {} points", len, n),
    n.pow(len as u32),
    |i| format!("{} {:?}", T::NAME, digits_vec(i, n, len).iter().map(|&d| a[d]).collect::<Vec<_>>()),
    |i, c| {
      let d = digits_vec(i, n, len);
      let v: Vec<P> = d.iter().map(|&d| a[d]).collect();
      judge::<T>(c, &v, d.iter().map(|&d| tp[d].clone()).collect())
    },
  );
}
fn ask<T: Sc>(c: &mut Ctx, p: &PolygonConvex<T>, v: &[P], q: P, tq: &Point<T>) -> R {
  let w = locate(v, q);
  let got = loc_of(p.locate(tq));
  ensure!(got == w, "{}: {:?} in convex polygon {:?}: expected {:?}, got {:?}", T::NAME, q, v, w, got);
  c.op(1);
  c.outcome(match w {
    Loc::In => "inside",
    Loc::On => "boundary",
    Loc::Out => "outside",
  });
  Ok(())
}
/// Every start vertex in both storage orders, every query.
fn all_starts<T: Sc>(c: &mut Ctx, v: &[P], qs: &[P], tq: &[Point<T>], starts: usize) -> R {
  let n = v.len();
  for s in 0..starts.min(n) {
    let s = s * n / starts.min(n);
    for rev in [false, true] {
      let w = rotated(v, s);
      let base = poly_var::<T>(&w, 0, rev)?;
      let p = PolygonConvex::new_unchecked(base);
      if s == 0 {
        // the wrapper gives the polygon back as it was
        let b = boundary(&p);
        ensure!(b == boundary(p.polygon()) && b == boundary(&Polygon::from(p.clone())) && b == boundary(<&Polygon<T>>::from(&p)), "{}: unwrapping convex {:?} changes it", T::NAME, w);
      }
      ensure!(p.validate().is_ok(), "{}: strictly convex {:?} does not validate: {:?}", T::NAME, w, p.validate());
      for (q, t) in qs.iter().zip(tq) {
        ask(c, &p, &w, *q, t)?;
      }
      c.trace();
    }
  }
  c.state();
  Ok(())
}
fn grid_space<T: Sc>(k: &mut Check, w: i128, h: i128, nmax: usize, starts: usize) {
  let g = grid(w, h);
  let mut s = g.clone();
  s.sort();
  let cs = convex_polygons(&s, nmax);
  let mut qs: Vec<P> = vec![];
  for x in -1..=2 * w - 1 {
    for y in -1..=2 * h - 1 {
      qs.push([x, y]);
    }
  }
  let tq = pts::<T>(&qs);
  let get = |i: u64| -> Vec<P> { cs[i as usize].iter().map(|&j| [s[j as usize][0] * 2, s[j as usize][1] * 2]).collect() };
  k.space(
    &format!("{}/locate {}x{}", T::NAME, w, h),
    &format!("every strictly convex polygon (up to {} vertices) from up to {} starts in both storage orders against {} half-grid queries", nmax, starts, qs.len()),
    cs.len() as u64,
    |i| format!("{} {:?}", T::NAME, get(i)),
    |i, c| all_starts::<T>(c, &get(i), &qs, &tq, starts),
  );
}
fn table_space<T: Sc>(k: &mut Check, size: usize) {
  let (lo, hi) = T::lim();
  for t in tables(lo, hi, size) {
    let mut a: Vec<P> = t.iter().flat_map(|&x| t.iter().map(move |&y| [x, y])).collect();
    a.sort();
    let cs = convex_polygons(&a, 99);
    let qv = query_values(&t, lo, hi);
    let qs: Vec<P> = qv.iter().flat_map(|&x| qv.iter().map(move |&y| [x, y])).collect();
    let tq = pts::<T>(&qs);
    let get = |i: u64| -> Vec<P> { cs[i as usize].iter().map(|&j| a[j as usize]).collect() };
    k.space(
      &format!("{}/coordinates {:?}", T::NAME, t),
      &format!("every strictly convex polygon with coordinates from the table from every start, {} queries", qs.len()),
      cs.len() as u64,
      |i| format!("{} {:?}", T::NAME, get(i)),
      |i, c| all_starts::<T>(c, &get(i), &qs, &tq, 99),
    );
    if size == 3 {
      sequences::<T>(k, &format!("coordinates {:?}", t), &a, &pts::<T>(&a), 3);
      sequences::<T>(k, &format!("coordinates {:?}", t), &a, &pts::<T>(&a), 4);
    }
  }
}
fn ngons<T: Sc>(k: &mut Check, sizes: &[usize], starts: usize) {
  let n = sizes.len() as u64 * 8;
  let lim = T::lim();
  k.space(
    &format!("{}/convex n-gons", T::NAME),
    "n-gons in all 8 orientations, many starts; queries at and around vertices, edge midpoints, diagonals and levels",
    n,
    |i| format!("{} {}-gon symmetry {}", T::NAME, sizes[(i / 8) as usize], i % 8),
    |i, c| {
      let v: Vec<P> = dihedral_poly(&convex_ngon(sizes[(i / 8) as usize]), (i % 8) as usize).iter().map(|p| [p[0] * 2, p[1] * 2]).collect();
      if v.iter().flatten().any(|&x| x <= lim.0 || x >= lim.1) {
        return Ok(());
      }
      let mut qs = queries_for(&v, 4);
      // the middle of every diagonal
      for a in 0..v.len() {
        for b in 0..a {
          qs.push([(v[a][0] + v[b][0]) / 2, (v[a][1] + v[b][1]) / 2]);
        }
      }
      qs.sort();
      qs.dedup();
      all_starts::<T>(c, &v, &qs, &pts::<T>(&qs), starts)
    },
  );
}

/// More vertices than 16 bits can number.
fn beyond(k: &mut Check) {
  let v0 = convex_ngon(66_001);
  let spots = k.pick(60, 600);
  k.space("i64/66001-gon", &format!("eight orientations, several starts, queries on, between and next to {} vertices spread over the boundary", spots), 16, |i| format!("symmetry {} start {}", i / 2, i % 2), |i, c| {
    let v: Vec<P> = dihedral_poly(&v0, (i / 2) as usize).iter().map(|p| [p[0] * 2, p[1] * 2]).collect();
    let n = v.len();
    let p = PolygonConvex::new_unchecked(Polygon::new_unchecked(pts::<i64>(&rotated(&v, i as usize % 2 * 40_000))));
    for s in 0..spots {
      let j = match s {
        0 => n - 1,
        1 => 65_535,
        2 => 65_536,
        _ => s * n / spots,
      };
      let (a, b, o) = (v[j], v[(j + 1) % n], v[(j + n / 3) % n]);
      let m = [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2];
      for q in [a, m, [m[0] + 1, m[1]], [m[0] - 1, m[1]], [m[0], m[1] + 1], [m[0], m[1] - 1], [(a[0] + o[0]) / 2, (a[1] + o[1]) / 2], [a[0], o[1]]] {
        let w = locate(&v, q);
        let got = loc_of(p.locate(&pt::<i64>(q)));
        ensure!(got == w, "{:?}: expected {:?}, got {:?}", q, w, got);
        c.op(1);
        c.outcome(match w {
          Loc::In => "inside",
          Loc::On => "boundary",
          Loc::Out => "outside",
        });
      }
    }
    c.state();
    c.trace();
    Ok(())
  });
}

fn main() {
  let mut k = Check::new("C12");
  let g3 = grid(3, 3);
  for len in 3..=k.pick(6, 7) {
    sequences::<i64>(&mut k, "3x3 grid", &g3, &pts::<i64>(&g3), len);
  }
  let g4 = grid(4, 4);
  for len in 3..=k.pick(4, 5) {
    sequences::<i8>(&mut k, "4x4 grid", &g4, &pts::<i8>(&g4), len);
  }
  if k.thorough() {
    let g5 = grid(5, 5);
    sequences::<i32>(&mut k, "5x5 grid", &g5, &pts::<i32>(&g5), 5);
  }
  // winding several times around while turning left everywhere
  let stars: Vec<(usize, usize)> = (3..=40).flat_map(|n| (1..n).map(move |s| (n, s))).collect();
  k.space("i64/validate star polygons", "convex n-gon vertices visited with every step width (3..40 vertices)", stars.len() as u64, |i| format!("{:?}", stars[i as usize]), |i, c| {
    let (n, s) = stars[i as usize];
    let b = convex_ngon(n);
    let v: Vec<P> = (0..n).map(|j| b[j * s % n]).collect();
    judge::<i64>(c, &v, pts::<i64>(&v))
  });
  let fam = families(120);
  k.space("i64/validate structured", "large structured polygons, every start", fam.len() as u64, |i| fam[i as usize].0.clone(), |i, c| {
    let v = &fam[i as usize].1;
    for s in 0..v.len() {
      let w = rotated(v, s);
      judge::<i64>(c, &w, pts::<i64>(&w))?;
      let mut r = w;
      r.reverse();
      judge::<i64>(c, &r, pts::<i64>(&r))?;
    }
    Ok(())
  });
  beyond(&mut k);
  grid_space::<i64>(&mut k, 3, 3, 99, 99);
  grid_space::<i32>(&mut k, 4, 4, 99, 99);
  let st = k.pick(2, 99);
  grid_space::<i8>(&mut k, 5, 5, 99, st);
  if k.thorough() {
    grid_space::<i16>(&mut k, 6, 6, 99, 2);
    grid_space::<i16>(&mut k, 7, 5, 99, 2);
  } else {
    grid_space::<i16>(&mut k, 6, 5, 7, 1);
  }
  each_type!(T in [i8, i16, i32, i64, isize] { table_space::<T>(&mut k, 3); table_space::<T>(&mut k, 4); });
  each_type!(T in [BigInt, f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>, BigRational] { table_space::<T>(&mut k, 3); });
  let sizes: Vec<usize> = if k.thorough() { (3..=130).collect() } else { (3..=40).chain([63, 64, 65]).collect() };
  let st = k.pick(6, 130);
  ngons::<i64>(&mut k, &sizes, st);
  ngons::<i8>(&mut k, &[3, 4, 5, 6, 7, 8, 9], 9);
  ngons::<BigInt>(&mut k, &[3, 4, 5, 6, 7, 8, 9, 16, 17], 3);
  ngons::<f64>(&mut k, &[3, 4, 5, 6, 7, 8, 9, 16, 17], 2);
  fn floats<T: FSc>(k: &mut Check) {
    let (e, tp) = near_points::<T>();
    for len in 3..=k.pick(4, 5) {
      sequences::<T>(k, "nearly degenerate", &e, &tp, len);
    }
    let mut ix: Vec<usize> = (0..e.len()).collect();
    ix.sort_by_key(|&i| e[i]);
    let es: Vec<P> = ix.iter().map(|&i| e[i]).collect();
    let ts: Vec<Point<T>> = ix.iter().map(|&i| tp[i].clone()).collect();
    let cs = convex_polygons(&es, 9);
    k.space(&format!("{}/locate nearly degenerate", T::NAME), "every strictly convex polygon of points colinear up to rounding, every start, against all of them", cs.len() as u64, |i| format!("{} {:?}", T::NAME, cs[i as usize]), |i, c| {
      let ids = &cs[i as usize];
      for s in 0..ids.len() {
        let r = rotated(ids, s);
        let v: Vec<P> = r.iter().map(|&j| es[j as usize]).collect();
        let p = PolygonConvex::new_unchecked(Polygon::new_unchecked(r.iter().map(|&j| ts[j as usize].clone()).collect()));
        for j in 0..es.len() {
          ask(c, &p, &v, es[j], &ts[j])?;
        }
        c.trace();
      }
      c.state();
      Ok(())
    });
  }
  each_type!(T in [f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] { floats::<T>(&mut k); });
  k.assume("located polygons are strictly convex, as the constructor's contract demands");
  k.assume("float coordinates are finite, without negative zero, and coordinate products neither overflow nor underflow");
  k.finish()
}
