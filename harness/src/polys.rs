//! Building rgeometry polygons from exact vertex cycles and reading them back.
use crate::oracle::*;
use crate::polyenum::*;
use crate::scalars::*;
use rgeometry::data::{Point, Polygon};
use rgeometry::PolygonScalar;

/// The polygon with boundary `v` (counter-clockwise), storage order = boundary order.
pub fn poly<T: Sc>(v: &[P]) -> Result<Polygon<T>, String> {
  Polygon::new(pts::<T>(v)).map_err(|e| format!("simple polygon {:?} rejected: {:?}", v, e))
}
/// Same cycle built from the clockwise list, so that storage order is the reverse of boundary order.
pub fn poly_rev<T: Sc>(v: &[P]) -> Result<Polygon<T>, String> {
  let mut w = v.to_vec();
  w.reverse();
  Polygon::new(pts::<T>(&w)).map_err(|e| format!("simple polygon {:?} rejected: {:?}", w, e))
}
/// The polygon starting at vertex `r`; odd `how` builds it from the clockwise list.
pub fn poly_var<T: Sc>(v: &[P], r: usize, rev: bool) -> Result<Polygon<T>, String> {
  let w = rotated(v, r % v.len());
  if rev {
    poly_rev::<T>(&w)
  } else {
    poly::<T>(&w)
  }
}
pub fn boundary<T: Clone>(p: &Polygon<T>) -> Vec<Point<T>> {
  p.iter_boundary().map(|c| c.point().clone()).collect()
}
/// Boundary of `p` is the cycle `v` up to rotation.
pub fn check_cycle<T: Sc>(p: &Polygon<T>, v: &[P]) -> Result<(), String> {
  let b = boundary(p);
  let w = pts::<T>(v);
  if is_rotation(&w, &b) {
    Ok(())
  } else {
    Err(format!("boundary should visit {:?}, got {:?}", w, b))
  }
}
/// Exact coordinates of a point whose coordinates all come from the given exact points.
pub fn back<T: Sc>(all: &[P], tp: &[Point<T>], q: &Point<T>) -> Option<P> {
  tp.iter().position(|x| x == q).map(|i| all[i])
}
/// Reads an integer-typed polygon boundary back exactly.
pub fn exact<T: PolygonScalar + Copy + Into<i64>>(p: &Polygon<T>) -> Vec<P> {
  p.iter_boundary()
    .map(|c| {
      let q = c.point();
      [q.array[0].into() as i128, q.array[1].into() as i128]
    })
    .collect()
}
/// All strictly convex polygons over the points (each once, ccw from the lexicographic minimum).
/// Indices into `pts`, which must be lexicographically sorted.
pub fn convex_polygons(pts: &[P], nmax: usize) -> Vec<Vec<u8>> {
  fn go(pts: &[P], path: &mut Vec<u8>, nmax: usize, out: &mut Vec<Vec<u8>>) {
    let m = path.len();
    let p = |i: u8| pts[i as usize];
    if m >= 3 && orient(p(path[m - 2]), p(path[m - 1]), p(path[0])) > 0 && orient(p(path[m - 1]), p(path[0]), p(path[1])) > 0 {
      out.push(path.clone());
    }
    if m == nmax {
      return;
    }
    for x in path[0] + 1..pts.len() as u8 {
      if path.contains(&x) {
        continue;
      }
      if m >= 2 && (orient(p(path[m - 2]), p(path[m - 1]), p(x)) <= 0 || orient(p(path[0]), p(path[m - 1]), p(x)) <= 0) {
        continue;
      }
      path.push(x);
      go(pts, path, nmax, out);
      path.pop();
    }
  }
  assert!(pts.windows(2).all(|w| w[0] < w[1]));
  let mut out = vec![];
  for i in 0..pts.len() as u8 {
    go(pts, &mut vec![i], nmax, &mut out);
  }
  out
}

/// Integer query alphabet of a scalar type around the values of a coordinate table: the values,
/// their neighbours, mid-way values and the ends of the type's exact range.
pub fn query_values(t: &[i128], lo: i128, hi: i128) -> Vec<i128> {
  let mut q: Vec<i128> = vec![lo, hi];
  for (i, &x) in t.iter().enumerate() {
    q.extend([x - 1, x, x + 1]);
    if i > 0 {
      q.push((x + t[i - 1]).div_euclid(2));
    }
  }
  q.retain(|x| *x >= lo && *x <= hi);
  q.sort();
  q.dedup();
  q
}
/// Points worth asking about for a large polygon with even coordinates: vertices, edge midpoints,
/// their eight neighbours, and vertices' x with other vertices' y.
pub fn queries_for(v: &[P], cross: usize) -> Vec<P> {
  let n = v.len();
  let mut q = vec![];
  for i in 0..n {
    let (a, b) = (v[i], v[(i + 1) % n]);
    for c in [a, [(a[0] + b[0]).div_euclid(2), (a[1] + b[1]).div_euclid(2)]] {
      for dx in -1..=1 {
        for dy in -1..=1 {
          q.push([c[0] + dx, c[1] + dy]);
        }
      }
    }
    let st = n.div_ceil(cross).max(1);
    for j in (0..n).step_by(st) {
      q.push([a[0], v[j][1]]);
      q.push([v[j][0], a[1]]);
    }
  }
  q.sort();
  q.dedup();
  q
}
