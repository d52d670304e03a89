//! C10: area, centroid, bounding box and winding of polygons are exact.
use harness::oracle::*;
use harness::polyenum::*;
use harness::polys::*;
use harness::scalars::*;
use harness::*;
use num_bigint::BigInt;
use num_rational::{BigRational, Ratio};
use num_traits::{FromPrimitive, NumOps, Zero};
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::{Point, PointId, Polygon, PolygonConvex};
use rgeometry::Orientation;
use std::fmt::Debug;
use std::iter::Sum;

/// Twice the exact area (coordinates as given) as a sum over the fan from the last vertex.
fn area2_fan(v: &[P]) -> BigInt {
  let b = |x: i128| BigInt::from(x);
  let o = v[v.len() - 1];
  (0..v.len() - 1).fold(BigInt::zero(), |s, i| {
    let (p, q) = (v[i], v[i + 1]);
    s + (b(p[0]) - b(o[0])) * (b(q[1]) - b(o[1])) - (b(p[1]) - b(o[1])) * (b(q[0]) - b(o[0]))
  })
}
/// Exact centroid as the area-weighted mean of the fan triangles' centroids.
fn centroid_fan(v: &[P]) -> [BigRational; 2] {
  let b = |x: i128| BigRational::from_integer(BigInt::from(x));
  let o = v[v.len() - 1];
  let mut num = [BigRational::zero(), BigRational::zero()];
  let mut den = BigRational::zero();
  for i in 0..v.len() - 1 {
    let (p, q) = (v[i], v[i + 1]);
    let a = (b(p[0]) - b(o[0])) * (b(q[1]) - b(o[1])) - (b(p[1]) - b(o[1])) * (b(q[0]) - b(o[0]));
    for (k, n) in num.iter_mut().enumerate() {
      *n += &a * (b(o[k]) + b(p[k]) + b(q[k]));
    }
    den += a;
  }
  den *= BigRational::from_integer(3.into());
  num.map(|n| n / &den)
}

/// Area in result type F, of the accepted polygon and of its reversal, however it was built.
fn area<T, F>(c: &mut Ctx, v: &[P], mk: impl Fn(&BigInt) -> F) -> R
where
  T: Sc + Into<F>,
  F: NumOps<F, F> + Sum + FromPrimitive + PartialEq + Debug,
{
  let a = area2_fan(v);
  let want = || mk(&a);
  for rev in [false, true] {
    let p = poly_var::<T>(v, 0, rev)?;
    same!(format!("twice the area of {:?}", v), want(), p.signed_area_2x::<F>());
    same!(format!("area of {:?}", v), want() / F::from_usize(2).unwrap(), p.signed_area::<F>());
  }
  let mut w = v.to_vec();
  w.reverse();
  let q = Polygon::new_unchecked(pts::<T>(&w));
  same!(format!("twice the area of clockwise {:?}", w), mk(&-&a), q.signed_area_2x::<F>());
  same!(format!("area of clockwise {:?}", w), mk(&-&a) / F::from_usize(2).unwrap(), q.signed_area::<F>());
  same!(format!("winding of clockwise {:?}", w), Orientation::ClockWise, q.orientation());
  c.op(6);
  c.trace();
  Ok(())
}
fn extent<T: Sc>(v: &[P]) -> (Point<T>, Point<T>) {
  let m = |k: usize| v.iter().map(|p| p[k]).min().unwrap();
  let x = |k: usize| v.iter().map(|p| p[k]).max().unwrap();
  (pt::<T>([m(0), m(1)]), pt::<T>([x(0), x(1)]))
}
/// Bounding box and winding from every start vertex in both directions.
fn shape<T: Sc>(c: &mut Ctx, v: &[P]) -> R {
  let want = extent::<T>(v);
  for s in 0..v.len() {
    for rev in [false, true] {
      let mut w = rotated(v, s);
      if rev {
        w.reverse();
      }
      let p = Polygon::new_unchecked(pts::<T>(&w));
      same!(format!("bounding box of {:?}", w), want, p.bounding_box());
      same!(format!("winding of {:?}", w), if rev { -1 } else { 1 }, sgn(p.orientation()));
      c.op(2);
    }
  }
  c.state();
  c.trace();
  Ok(())
}
/// Vertex identifiers, their order, their look-ups and their points are those of `f` applied to `p`.
fn same_cycle<T: Sc, U: Clone + rgeometry::TotalOrd + Debug>(what: &str, p: &Polygon<T>, q: &Polygon<U>, f: impl Fn(&Point<T>) -> Point<U>) -> R {
  let ids: Vec<PointId> = p.boundary_slice().to_vec();
  ensure!(q.boundary_slice() == &ids[..], "{}: vertex order {:?} became {:?}", what, ids, q.boundary_slice());
  let want: Vec<Point<U>> = p.iter().map(&f).collect();
  let got: Vec<Point<U>> = q.iter().cloned().collect();
  same!(format!("{}: stored points", what), want, got);
  let want: Vec<Point<U>> = p.iter_boundary().map(|x| f(x.point())).collect();
  let got: Vec<Point<U>> = q.iter_boundary().map(|x| x.point().clone()).collect();
  same!(format!("{}: boundary points", what), want, got);
  for (k, &i) in ids.iter().enumerate() {
    same!(format!("{}: vertex after {:?}", what, i), ids[(k + 1) % ids.len()], q.cursor(i).next().point_id());
    same!(format!("{}: vertex {:?}", what, i), f(p.point(i)), q.point(i).clone());
  }
  Ok(())
}
fn conversions(c: &mut Ctx, v: &[P]) -> R {
  for s in 0..v.len() {
    for rev in [false, true] {
      let p = poly_var::<i32>(v, s, rev)?;
      same_cycle("map", &p, &p.clone().map(|x| i64::from(x) * 5 - 7), |q| Point::new([i64::from(q.array[0]) * 5 - 7, i64::from(q.array[1]) * 5 - 7]))?;
      same_cycle("cast", &p, &p.clone().cast::<i64>(), |q| Point::new([q.array[0].into(), q.array[1].into()]))?;
      same_cycle("cast", &p, &p.clone().cast::<BigInt>(), |q| Point::new([q.array[0].into(), q.array[1].into()]))?;
      same_cycle("cast", &p, &p.clone().cast::<f64>(), |q| Point::new([q.array[0].into(), q.array[1].into()]))?;
      same_cycle("float", &p, &p.clone().float(), |q| Point::new([OrderedFloat(q.array[0].into()), OrderedFloat(q.array[1].into())]))?;
      let f = |q: Point<i32>| Point::new([q.array[1] * 2 + 1, -q.array[0]]);
      same_cycle("map_points", &p, &p.clone().map_points(f), |q| f(*q))?;
      let mut m = p.clone();
      for (k, q) in m.iter_mut().enumerate() {
        *q = Point::new([q.array[0] + 10, q.array[1] * 3 + k as i32]);
      }
      let mut ids: Vec<(Point<i32>, usize)> = p.iter().enumerate().map(|(k, q)| (*q, k)).collect();
      ids.sort();
      let at = |q: &Point<i32>| ids[ids.binary_search_by(|e| e.0.cmp(q)).unwrap()].1 as i32;
      same_cycle("iter_mut", &p, &m, |q| Point::new([q.array[0] + 10, q.array[1] * 3 + at(q)]))?;
      c.op(7);
      c.state();
      c.trace();
    }
  }
  Ok(())
}
fn normal(c: &mut Ctx, v: &[P], mul: f64, off: [f64; 2]) -> R {
  let want_c = centroid_fan(v);
  let fl = |r: &BigRational| num_traits::ToPrimitive::to_f64(r).unwrap();
  let ctr = [fl(&want_c[0]), fl(&want_c[1])];
  let e = extent::<BigInt>(v);
  let size = std::cmp::max(&e.1.array[0] - &e.0.array[0], &e.1.array[1] - &e.0.array[1]);
  let size = num_traits::ToPrimitive::to_f64(&size).unwrap();
  let p = Polygon::new(v.iter().map(|q| Point::new([OrderedFloat(q[0] as f64 * mul + off[0]), OrderedFloat(q[1] as f64 * mul + off[1])])).collect()).map_err(|e| format!("{:?} rejected: {:?}", v, e))?;
  let check = |q: &Polygon<OrderedFloat<f64>>| -> R {
    ensure!(q.boundary_slice() == p.boundary_slice(), "normalizing changed the vertex order of {:?}", v);
    for (k, x) in q.iter().enumerate() {
      for d in 0..2 {
        let want = (v[k][d] as f64 - ctr[d]) / size;
        ensure!((x.array[d].0 - want).abs() < 1e-6, "normalizing {:?} (times {} plus {:?}): vertex {} should be at {} but is at {:?}", v, mul, off, k, want, x);
      }
    }
    Ok(())
  };
  check(&p.normalize())?;
  if is_strictly_convex(v) {
    check(PolygonConvex::new_unchecked(p.clone()).normalize().polygon())?;
  }
  c.op(1);
  c.state();
  c.trace();
  Ok(())
}
fn centroid(c: &mut Ctx, v: &[P]) -> R {
  let want = centroid_fan(v).map(|x| x / BigRational::from_integer(3.into()));
  for s in 0..v.len() {
    for rev in [false, true] {
      let p = poly_var::<BigRational>(v, s, rev)?;
      same!(format!("centroid of {:?}/3", v), Point::new(want.clone()), p.centroid());
      c.op(1);
    }
  }
  c.state();
  c.trace();
  Ok(())
}

fn i<T: From<i64>>(a: &BigInt) -> T {
  T::from(i64::try_from(a).unwrap())
}
fn small(k: &mut Check, name: &str, ps: &Polys) {
  k.space(name, "every simple polygon: area in every result type, both windings", ps.len(), |x| format!("{:?}", ps.get(x)), |x, c| {
    let v = ps.get(x);
    let fi = |a: &BigInt| i64::try_from(a).unwrap();
    area::<i8, i16>(c, &v, |a| fi(a) as i16)?;
    area::<i8, i64>(c, &v, fi)?;
    area::<i16, i32>(c, &v, |a| fi(a) as i32)?;
    area::<i32, i32>(c, &v, |a| fi(a) as i32)?;
    area::<i32, Ratio<i32>>(c, &v, |a| Ratio::from_integer(fi(a) as i32))?;
    area::<i64, i128>(c, &v, i::<i128>)?;
    area::<isize, isize>(c, &v, |a| fi(a) as isize)?;
    area::<i64, Ratio<i64>>(c, &v, |a| Ratio::from_integer(fi(a)))?;
    area::<f32, f64>(c, &v, |a| fi(a) as f64)?;
    area::<f64, f64>(c, &v, |a| fi(a) as f64)?;
    area::<OrderedFloat<f64>, OrderedFloat<f64>>(c, &v, |a| OrderedFloat(fi(a) as f64))?;
    area::<NotNan<f32>, NotNan<f32>>(c, &v, |a| NotNan::new(fi(a) as f32).unwrap())?;
    area::<NotNan<f64>, f64>(c, &v, |a| fi(a) as f64)?;
    area::<BigInt, BigInt>(c, &v, |a| a.clone())?;
    area::<BigRational, BigRational>(c, &v, |a| BigRational::new(a.clone(), 9.into()))?;
    c.state();
    c.outcome(if is_strictly_convex(&v) { "convex" } else { "not convex" });
    Ok(())
  });
  k.space(&format!("{}: centroid", name), "exact centroid over rationals, every start vertex, both windings", ps.len(), |x| format!("{:?}", ps.get(x)), |x, c| centroid(c, &ps.get(x)));
  k.space(&format!("{}: conversions", name), "map, cast, float, map_points, in-place edits; every start vertex, both windings", ps.len(), |x| format!("{:?}", ps.get(x)), |x, c| conversions(c, &ps.get(x)));
  let muls = [1.0, 0.125, 1048576.0, 3.0];
  let offs = [[0.0, 0.0], [1000.0, -3.0], [-40.0, 77.5], [5.0, 4096.0]];
  k.space(&format!("{}: normalize", name), "normalized copies at 4 sizes and 4 positions", ps.len() * 16, |x| format!("{:?} size {} offset {:?}", ps.get(x / 16), muls[(x % 4) as usize], offs[(x / 4 % 4) as usize]), |x, c| {
    let (m, o) = (muls[(x % 4) as usize], offs[(x / 4 % 4) as usize]);
    normal(c, &ps.get(x / 16), m, o.map(|o| o * m))
  });
}
/// 3x3 polygons with coordinates taken from a table reaching the extremes of the type.
fn stretch(v: &[P], t: &[i128]) -> Vec<P> {
  v.iter().map(|p| [t[p[0] as usize], t[p[1] as usize]]).collect()
}
fn extremes<T: Sc>(k: &mut Check, wide: &str, ps: &Polys, area: impl Fn(&mut Ctx, &[P]) -> R + Sync) {
  let (lo, hi) = T::lim();
  let ts = tables(lo, hi, 3);
  let n = ts.len() as u64;
  k.space(
    &format!("{}/extremes (area in {})", T::NAME, wide),
    "every 3x3 configuration polygon stretched to the extremes of the type: bounding box and winding (every start vertex), area in a wide type",
    ps.len() * n,
    |x| format!("{} {:?}", T::NAME, stretch(&ps.get(x / n), &ts[(x % n) as usize])),
    |x, c| {
      let v = stretch(&ps.get(x / n), &ts[(x % n) as usize]);
      // Stretching a grid is not affine: only those that stay simple.
      if !is_simple(&v) {
        c.outcome("not simple when stretched");
        return Ok(());
      }
      let mut v = v;
      if area2_fan(&v) < BigInt::zero() {
        v.reverse();
      }
      shape::<T>(c, &v)?;
      area(c, &v)
    },
  );
}

fn main() {
  let mut k = Check::new("C10");
  let p33 = simple_polygons(&grid(3, 3), 3, 9);
  small(&mut k, "3x3 grid", &p33);
  let ps = simple_polygons(&grid(4, 4), 3, k.pick(5, 6));
  small(&mut k, "4x4 grid", &ps);
  if k.thorough() {
    let ps = simple_polygons(&grid(5, 5), 3, 4);
    small(&mut k, "5x5 grid", &ps);
  }
  each_type!(T in [i8, i16, i32, i64, isize, BigInt] {
    extremes::<T>(&mut k, "BigInt", &p33, |c, v| area::<T, BigInt>(c, v, |a| a.clone()));
  });
  extremes::<BigRational>(&mut k, "BigRational", &p33, |c, v| area::<BigRational, BigRational>(c, v, |a| BigRational::new(a.clone(), 9.into())));
  extremes::<i32>(&mut k, "i128", &p33, |c, v| area::<i32, i128>(c, v, |a| i128::try_from(a).unwrap()));
  extremes::<i16>(&mut k, "i64", &p33, |c, v| area::<i16, i64>(c, v, |a| i64::try_from(a).unwrap()));
  extremes::<i8>(&mut k, "i32", &p33, |c, v| area::<i8, i32>(c, v, |a| i32::try_from(a).unwrap()));
  each_type!(T in [f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] {
    extremes::<T>(&mut k, "no type", &p33, |_, _| Ok(()));
  });
  let mut fam = families(k.pick(200, 300));
  fam.extend(arcs(24, 1));
  let limit = k.pick(36, 80);
  k.space("structured polygons", "large structured polygons: area, centroid, bounding box, winding, conversions", fam.len() as u64, |x| fam[x as usize].0.clone(), |x, c| {
    let v = &fam[x as usize].1;
    area::<i64, i128>(c, v, |a| i128::try_from(a).unwrap())?;
    area::<BigInt, BigInt>(c, v, |a| a.clone())?;
    let short = v.len() < limit;
    if short {
      centroid(c, v)?;
      shape::<i64>(c, v)?;
      normal(c, v, 1.0, [0.0, 0.0])?;
      conversions(c, v)?;
    }
    c.state();
    Ok(())
  });
  let huge = huge();
  k.space("more than 65536 vertices", "structured polygons in eight orientations, both directions: area, bounding box, winding", huge.len() as u64 * 8, |x| format!("{} symmetry {}", huge[(x / 8) as usize].0, x % 8), |x, c| {
    let mut v = dihedral_poly(&huge[(x / 8) as usize].1, (x % 8) as usize);
    let (lo, hi) = extent::<i64>(&v);
    for rev in [false, true] {
      if rev {
        v.reverse();
      }
      let p = Polygon::new_unchecked(pts::<i64>(&v));
      same!("twice the area", area2_big(&v), BigInt::from(p.signed_area_2x::<i128>()));
      same!("bounding box", (lo.clone(), hi.clone()), p.bounding_box());
      same!("winding", if rev { -1 } else { 1 }, sgn(p.orientation()));
      c.op(3);
    }
    c.state();
    c.trace();
    Ok(())
  });
  k.assume("area result types are wide enough for the products of coordinates and their sum");
  k.assume("normalization is compared within 1e-6, on coordinates where rounding is far below that");
  k.finish()
}
