//! C22: the visibility polygon is exactly the region visible from an interior point.
use harness::oracle::*;
use harness::polyenum::*;
use harness::polys::*;
use harness::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::ToPrimitive;
use rgeometry::algorithms::visibility::naive::get_visibility_polygon;
use rgeometry::data::{Point, Polygon};

/// A rational point x/w, y/w in lowest terms, w > 0.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct H {
  x: i128,
  y: i128,
  w: i128,
}
fn gcd(a: i128, b: i128) -> i128 {
  let (mut a, mut b) = (a.abs(), b.abs());
  while b > 0 {
    (a, b) = (b, a % b);
  }
  a
}
fn h(x: i128, y: i128, w: i128) -> H {
  let g = gcd(gcd(x, y), w) * w.signum();
  H { x: x / g, y: y / g, w: w / g }
}
fn cross(a: H, b: H, c: H) -> i128 {
  // sign of (b-a) x (c-b)
  let (ux, uy) = (b.x * a.w - a.x * b.w, b.y * a.w - a.y * b.w);
  let (vx, vy) = (c.x * b.w - b.x * c.w, c.y * b.w - b.y * c.w);
  ux * vy - uy * vx
}
fn dot(a: H, b: H, c: H) -> i128 {
  let (ux, uy) = (b.x * a.w - a.x * b.w, b.y * a.w - a.y * b.w);
  let (vx, vy) = (c.x * b.w - b.x * c.w, c.y * b.w - b.y * c.w);
  ux * vx + uy * vy
}
/// Drops vertices in the middle of a straight run (repeated vertices and turn-backs stay).
fn corners(v: &[H]) -> Vec<H> {
  let n = v.len();
  (0..n)
    .filter(|&i| {
      let (a, b, c) = (v[(i + n - 1) % n], v[i], v[(i + 1) % n]);
      !(cross(a, b, c) == 0 && dot(a, b, c) > 0)
    })
    .map(|i| v[i])
    .collect()
}
/// Where the ray from q in direction d meets the line through a and b: parameter t = num/den > 0,
/// or nothing if it does not cross the segment's interior side.
fn hit(q: P, d: P, a: P, b: P) -> Option<(i128, i128)> {
  let e = [b[0] - a[0], b[1] - a[1]];
  let den = d[0] * e[1] - d[1] * e[0];
  if den == 0 {
    return None;
  }
  let r = [a[0] - q[0], a[1] - q[1]];
  let num = r[0] * e[1] - r[1] * e[0];
  let (num, den) = (num * den.signum(), den.abs());
  (num > 0).then_some((num, den))
}
/// The exact visibility region: the directions of the vertices cut the plane into wedges; within a
/// wedge the nearest edge does not change.
fn region(v: &[P], q: P) -> Vec<H> {
  let n = v.len();
  let mut dirs: Vec<P> = v
    .iter()
    .map(|p| {
      let d = [p[0] - q[0], p[1] - q[1]];
      let g = gcd(d[0], d[1]);
      [d[0] / g, d[1] / g]
    })
    .collect();
  dirs.sort_by(|a, b| cmp_angle([1, 0], [0, 0], *a, *b));
  dirs.dedup();
  let m = dirs.len();
  let mut out: Vec<H> = vec![];
  for i in 0..m {
    let (d0, d1) = (dirs[i], dirs[(i + 1) % m]);
    let mid = [d0[0] + d1[0], d0[1] + d1[1]];
    // No vertex lies strictly inside the wedge, so the middle ray crosses edges properly.
    let mut best: Option<((i128, i128), usize)> = None;
    for j in 0..n {
      let (a, b) = (v[j], v[(j + 1) % n]);
      let s = |p: P| det_sign(mid[0], p[1] - q[1], mid[1], p[0] - q[0]);
      if s(a) * s(b) >= 0 {
        continue;
      }
      if let Some(t) = hit(q, mid, a, b) {
        if best.map_or(true, |(u, _)| t.0 * u.1 < u.0 * t.1) {
          best = Some((t, j));
        }
      }
    }
    let j = best.expect("harness: the query is inside").1;
    for d in [d0, d1] {
      let (num, den) = hit(q, d, v[j], v[(j + 1) % n]).expect("harness: wedge ray");
      let p = h(q[0] * den + d[0] * num, q[1] * den + d[1] * num, den);
      if out.last() != Some(&p) {
        out.push(p);
      }
    }
  }
  if out.len() > 1 && out.first() == out.last() {
    out.pop();
  }
  corners(&out)
}
fn area(v: &[H]) -> BigRational {
  let n = v.len();
  let r = |a: i128, w: i128| BigRational::new(BigInt::from(a), BigInt::from(w));
  (0..n).map(|i| (v[i], v[(i + 1) % n])).map(|(a, b)| r(a.x * b.y - b.x * a.y, a.w * b.w)).fold(r(0, 1), |s, x| s + x)
}
/// Exact rational coordinates, as given (no scaling).
fn rp(p: P) -> Point<BigRational> {
  Point::new([BigRational::from(BigInt::from(p[0])), BigRational::from(BigInt::from(p[1]))])
}
fn judge(c: &mut Ctx, v: &[P], p: &Polygon<BigRational>, q: P) -> R {
  let want = region(v, q);
  let got = match guarded(|| get_visibility_polygon(&rp(q), p)) {
    Err(e) => return Err(format!("polygon {:?} seen from {:?}: {}", v, q, e)),
    Ok(None) => return Err(format!("polygon {:?} seen from {:?}: nothing", v, q)),
    Ok(Some(g)) => g,
  };
  c.op(1);
  let pts = boundary(&got);
  let mut b = vec![];
  for x in &pts {
    let (x, y) = (&x.array[0], &x.array[1]);
    let w = x.denom() * y.denom();
    let f = |a: &BigRational| (a.numer() * (&w / a.denom())).to_i128();
    match (f(x), f(y), w.to_i128()) {
      (Some(x), Some(y), Some(w)) => b.push(h(x, y, w)),
      _ => return Err(format!("polygon {:?} seen from {:?}: coordinates out of proportion {:?}", v, q, pts)),
    }
  }
  let show = |v: &[H]| v.iter().map(|p| format!("({}/{} {}/{})", p.x, p.w, p.y, p.w)).collect::<Vec<_>>().join(" ");
  ensure!(got.validate().is_ok(), "polygon {:?} seen from {:?}: {} is not a valid polygon", v, q, show(&b));
  let k = corners(&b);
  ensure!(is_rotation(&want, &k), "polygon {:?} seen from {:?}: region should be {} (twice the area {}) but is {}", v, q, show(&want), area(&want), show(&b));
  c.outcome(if area(&want) == BigRational::from(BigInt::from(area2(v))) { "sees everything" } else { "sees a part" });
  Ok(())
}
fn all(c: &mut Ctx, v: &[P], qs: &[P], starts: usize) -> R {
  for s in 0..v.len().min(starts) {
    let p = Polygon::new(rotated(v, s).into_iter().map(rp).collect()).map_err(|e| format!("{:?} rejected: {:?}", v, e))?;
    for &q in qs {
      if locate(v, q) == Loc::In {
        judge(c, v, &p, q)?;
      }
    }
  }
  c.state();
  c.trace();
  Ok(())
}
fn polygons(k: &mut Check, label: &str, w: i128, hgt: i128, nmax: usize, scale: i128, starts: usize) {
  let ps = simple_polygons(&grid(w, hgt), 3, nmax);
  let qs: Vec<P> = (1..(w - 1) * scale).flat_map(|x| (1..(hgt - 1) * scale).map(move |y| [x, y])).collect();
  k.space(
    &format!("{} up to {} vertices", label, nmax),
    &format!("every simple polygon with vertices on every {}th grid point, every grid point strictly inside as viewpoint, up to {} starting vertices", scale, starts),
    ps.len(),
    |i| format!("{:?}", ps.get_scaled(i, scale)),
    |i, c| all(c, &ps.get_scaled(i, scale), &qs, starts),
  );
}

fn main() {
  let mut k = Check::new("C22");
  let s = k.pick(3, 6);
  polygons(&mut k, "3x3 grid", 3, 3, 9, s, 9);
  let (n, s) = k.pick((7, 2), (9, 3));
  polygons(&mut k, "4x3 grid", 4, 3, n, s, 1);
  let (n, s) = k.pick((5, 2), (6, 3));
  polygons(&mut k, "4x4 grid", 4, 4, n, s, 1);
  if k.thorough() {
    polygons(&mut k, "5x5 grid", 5, 5, 5, 2, 1);
    polygons(&mut k, "4x4 grid unscaled", 4, 4, 8, 1, 1);
  } else {
    polygons(&mut k, "4x4 grid unscaled", 4, 4, 6, 1, 1);
  }
  let mut fam = families(k.pick(24, 60));
  fam.extend(arcs(k.pick(8, 16), 1));
  k.space("large", "structured polygons in 8 orientations, viewpoints around vertices and edge midpoints", fam.len() as u64 * 8, |i| format!("{} symmetry {}", fam[(i / 8) as usize].0, i % 8), |i, c| {
    let v = dihedral_poly(&fam[(i / 8) as usize].1, (i % 8) as usize);
    let mut q = queries_for(&v, 4);
    let step = (q.len() / 40).max(1);
    let off = i as usize % step;
    q = q.into_iter().skip(off).step_by(step).collect();
    all(c, &v, &q, 1)
  });
  let mut big = families(k.pick(110, 330));
  big.retain(|(_, v)| v.len() > 60);
  big.extend(arcs(k.pick(90, 260), 1).into_iter().filter(|(_, v)| v.len() > 60));
  // the reference stays inside i128
  big.retain(|(_, v)| v.iter().flatten().all(|x| x.abs() < 2000));
  k.space("very large", "structured polygons of hundreds of vertices in 2 orientations, a few viewpoints around vertices and edge midpoints", big.len() as u64 * 2, |i| format!("{} symmetry {}", big[(i / 2) as usize].0, i % 2 * 5), |i, c| {
    let v = dihedral_poly(&big[(i / 2) as usize].1, (i % 2 * 5) as usize);
    let q: Vec<P> = queries_for(&v, 4).into_iter().filter(|&q| locate(&v, q) == Loc::In).collect();
    let step = (q.len() / 5).max(1);
    let off = i as usize % step;
    let q: Vec<P> = q.into_iter().skip(off).step_by(step).collect();
    all(c, &v, &q, 1)
  });
  k.assume("coordinates are exact rationals and the viewpoint is strictly inside");
  k.finish()
}
