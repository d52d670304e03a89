//! C11: point location in a simple polygon is exact.
use harness::oracle::*;
use harness::polyenum::*;
use harness::polys::*;
use harness::scalars::*;
use harness::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::{Point, Polygon};

fn tally(c: &mut Ctx, w: Loc) {
  c.outcome(match w {
    Loc::In => "inside",
    Loc::On => "boundary",
    Loc::Out => "outside",
  })
}
fn ask<T: Sc>(c: &mut Ctx, p: &Polygon<T>, v: &[P], q: P, tq: &Point<T>, w: Loc) -> R {
  let got = loc_of(p.locate(tq));
  ensure!(got == w, "{}: {:?} in {:?} (first stored vertex {:?}): expected {:?}, got {:?}", T::NAME, q, v, p.iter_boundary().next().map(|x| x.point().clone()), w, got);
  c.op(1);
  tally(c, w);
  Ok(())
}

/// Doubled grid polygons against every point of the doubled grid and one step around it.
fn grid_space<T: Sc>(k: &mut Check, label: &str, ps: &Polys, (w, h): (i128, i128), variants: usize) {
  let mut qs: Vec<P> = vec![];
  for x in -1..=2 * w - 1 {
    for y in -1..=2 * h - 1 {
      qs.push([x, y]);
    }
  }
  let tq = pts::<T>(&qs);
  k.space(
    &format!("{}/{}", T::NAME, label),
    &format!("every simple polygon, {} start/direction variants, every one of {} half-grid query points", variants, qs.len()),
    ps.len(),
    |i| format!("{} {:?}", T::NAME, ps.get_scaled(i, 2)),
    |i, c| {
      let v = ps.get_scaled(i, 2);
      let want: Vec<Loc> = qs.iter().map(|&q| locate(&v, q)).collect();
      for s in 0..(2 * v.len()).min(variants) {
        let p = poly_var::<T>(&v, s / 2, s % 2 == 1)?;
        for (j, q) in tq.iter().enumerate() {
          ask(c, &p, &v, qs[j], q, want[j])?;
        }
        c.trace();
      }
      c.state();
      Ok(())
    },
  );
}
fn table_space<T: Sc>(k: &mut Check, size: usize, nmax: usize) {
  let (lo, hi) = T::lim();
  for t in tables(lo, hi, size) {
    let a: Vec<P> = t.iter().flat_map(|&x| t.iter().map(move |&y| [x, y])).collect();
    let ps = simple_polygons(&a, 3, nmax);
    let qv = query_values(&t, lo, hi);
    let qs: Vec<P> = qv.iter().flat_map(|&x| qv.iter().map(move |&y| [x, y])).collect();
    let tq = pts::<T>(&qs);
    k.space(
      &format!("{}/coordinates {:?}", T::NAME, t),
      &format!("every simple polygon with coordinates from the table, up to {} vertices, against {} query points including the type's extremes", nmax, qs.len()),
      ps.len(),
      |i| format!("{} {:?}", T::NAME, ps.get(i)),
      |i, c| {
        let v = ps.get(i);
        let p = poly_var::<T>(&v, (i % v.len() as u64) as usize, i % 2 == 1)?;
        for (j, q) in tq.iter().enumerate() {
          ask(c, &p, &v, qs[j], q, locate(&v, qs[j]))?;
        }
        c.state();
        c.trace();
        Ok(())
      },
    );
  }
}
fn floats<T: FSc>(k: &mut Check, nmax: usize) {
  let (e, tp) = near_points::<T>();
  let mut ix: Vec<usize> = (0..e.len()).collect();
  ix.sort_by_key(|&i| e[i]);
  let e: Vec<P> = ix.iter().map(|&i| e[i]).collect();
  let tp: Vec<Point<T>> = ix.iter().map(|&i| tp[i].clone()).collect();
  let ps = simple_polygons(&e, 3, nmax);
  k.space(
    &format!("{}/nearly degenerate", T::NAME),
    &format!("every simple polygon with up to {} vertices out of points colinear up to rounding, against all of those points", nmax),
    ps.len(),
    |i| format!("{} {:?}", T::NAME, ps.idx(i).iter().map(|&j| tp[j as usize].clone()).collect::<Vec<_>>()),
    |i, c| {
      let v = ps.get(i);
      let p = Polygon::new(ps.idx(i).iter().map(|&j| tp[j as usize].clone()).collect()).map_err(|x| format!("{:?} rejected: {:?}", v, x))?;
      for (j, q) in tp.iter().enumerate() {
        ask(c, &p, &v, e[j], q, locate(&v, e[j]))?;
      }
      c.state();
      c.trace();
      Ok(())
    },
  );
}
fn large<T: Sc>(k: &mut Check, max_n: usize, cross: usize, starts: usize) {
  let (lo, hi) = T::lim();
  let fam: Vec<(String, Vec<P>)> = families(max_n)
    .into_iter()
    .chain(arcs(12, 1))
    .collect::<Vec<_>>()
    .into_iter()
    .map(|(n, v)| (n, v.iter().map(|p| [p[0] * 2, p[1] * 2]).collect::<Vec<P>>()))
    .filter(|(_, v)| v.iter().flatten().all(|&x| x > lo && x < hi))
    .collect();
  let n = fam.len() as u64 * 8;
  k.space(
    &format!("{}/large polygons", T::NAME),
    &format!("structured polygons up to {} vertices in all 8 orientations, {} start vertices, queries at and around vertices, midpoints and levels", max_n, starts),
    n,
    |i| format!("{} {} symmetry {}", T::NAME, fam[(i / 8) as usize].0, i % 8),
    |i, c| {
      let v = dihedral_poly(&fam[(i / 8) as usize].1, (i % 8) as usize);
      if v.iter().flatten().any(|&x| x <= lo || x >= hi) {
        return Ok(());
      }
      let qs = queries_for(&v, cross);
      let want: Vec<Loc> = qs.iter().map(|&q| locate(&v, q)).collect();
      let tq = pts::<T>(&qs);
      for s in 0..starts {
        let p = poly_var::<T>(&v, s * v.len() / starts, s % 2 == 1)?;
        for j in 0..qs.len() {
          ask(c, &p, &v, qs[j], &tq[j], want[j])?;
        }
        c.trace();
      }
      c.state();
      Ok(())
    },
  );
}

/// More vertices than 16 bits can number: queries around vertices spread over the whole boundary.
fn beyond(k: &mut Check) {
  let fam = huge();
  let spots = k.pick(24, 200);
  let syms: u64 = k.pick(4, 8);
  k.space("i64/more than 65536 vertices", &format!("structured polygons in {} orientations, queries on, between and next to {} vertices spread over the boundary", syms, spots), fam.len() as u64 * syms, |i| format!("{} symmetry {}", fam[(i / syms) as usize].0, i % syms), |i, c| {
    let v: Vec<P> = dihedral_poly(&fam[(i / syms) as usize].1, (i % syms * (8 / syms)) as usize).iter().map(|p| [p[0] * 2, p[1] * 2]).collect();
    let n = v.len();
    let p = Polygon::new_unchecked(pts::<i64>(&v));
    for s in 0..spots {
      let j = match s {
        0 => n - 1,
        1 => 65_535,
        2 => 65_536,
        _ => s * n / spots,
      };
      let (a, b) = (v[j], v[(j + 1) % n]);
      let m = [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2];
      for q in [a, m, [m[0] + 1, m[1]], [m[0] - 1, m[1]], [m[0], m[1] + 1], [m[0], m[1] - 1], [a[0] + 2, b[1]]] {
        let w = locate(&v, q);
        let got = loc_of(p.locate(&pt::<i64>(q)));
        ensure!(got == w, "{:?}: expected {:?}, got {:?}", q, w, got);
        c.op(1);
        tally(c, w);
      }
    }
    c.state();
    c.trace();
    Ok(())
  });
}

fn main() {
  let mut k = Check::new("C11");
  grid_space::<i64>(&mut k, "3x3 grid", &simple_polygons(&grid(3, 3), 3, 9), (3, 3), 99);
  each_type!(T in [i8, i16, i32, isize, BigInt, f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] {
    let n = k.pick(5, 9);
    grid_space::<T>(&mut k, "3x3 grid", &simple_polygons(&grid(3, 3), 3, n), (3, 3), 2);
  });
  grid_space::<BigRational>(&mut k, "3x3 grid", &simple_polygons(&grid(3, 3), 3, 5), (3, 3), 2);
  let n = k.pick(7, 9);
  grid_space::<i8>(&mut k, "4x3 grid", &simple_polygons(&grid(4, 3), 3, n), (4, 3), 2);
  let n = k.pick(6, 8);
  let var = k.pick(1, 4);
  grid_space::<i32>(&mut k, "4x4 grid", &simple_polygons(&grid(4, 4), 3, n), (4, 4), var);
  let n = k.pick(4, 6);
  grid_space::<i64>(&mut k, "5x5 grid", &simple_polygons(&grid(5, 5), 3, n), (5, 5), 1);
  each_type!(T in [i8, i16, i32, i64, isize] {
    table_space::<T>(&mut k, 3, 9);
    let n = k.pick(4, 6);
    table_space::<T>(&mut k, 4, n);
  });
  let n = k.pick(5, 9);
  each_type!(T in [f64, f32, BigInt] { table_space::<T>(&mut k, 3, n); });
  let n = k.pick(4, 6);
  each_type!(T in [OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>, BigRational] { table_space::<T>(&mut k, 3, n); });
  each_type!(T in [f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] {
    let n = k.pick(5, 7);
    floats::<T>(&mut k, n);
  });
  let m = k.pick(80, 300);
  let st = k.pick(2, 8);
  large::<i64>(&mut k, m, 12, st);
  large::<i8>(&mut k, 40, 8, 2);
  large::<f64>(&mut k, 30, 4, 1);
  beyond(&mut k);
  k.assume("float coordinates are finite, without negative zero, and coordinate products neither overflow nor underflow");
  k.finish()
}
