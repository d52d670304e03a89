//! Exact geometry on integer coordinates, written independently of rgeometry.
use num_bigint::BigInt;
use std::cmp::Ordering;

pub type P = [i128; 2];

/// sign(a*b - c*d)
#[inline]
pub fn det_sign(a: i128, b: i128, c: i128, d: i128) -> i8 {
  if let (Some(x), Some(y)) = (a.checked_mul(b), c.checked_mul(d)) {
    return match x.cmp(&y) {
      Ordering::Less => -1,
      Ordering::Equal => 0,
      Ordering::Greater => 1,
    };
  }
  match (BigInt::from(a) * BigInt::from(b)).cmp(&(BigInt::from(c) * BigInt::from(d))) {
    Ordering::Less => -1,
    Ordering::Equal => 0,
    Ordering::Greater => 1,
  }
}
/// +1: left turn p->q->r, -1: right turn, 0: straight.
#[inline]
pub fn orient(p: P, q: P, r: P) -> i8 {
  det_sign(q[0] - p[0], r[1] - p[1], q[1] - p[1], r[0] - p[0])
}
/// Side of r relative to the line through p with direction v.
#[inline]
pub fn orient_vec(v: P, p: P, r: P) -> i8 {
  det_sign(v[0], r[1] - p[1], v[1], r[0] - p[0])
}
/// Same for v turned by +90 degrees.
#[inline]
pub fn orient_perp(v: P, p: P, r: P) -> i8 {
  orient_vec([-v[1], v[0]], p, r)
}
/// Comparison of the projections of p and q on v.
#[inline]
pub fn cmp_along(v: P, p: P, q: P) -> Ordering {
  // v.(q-p) > 0  <=>  p before q
  0.cmp(&det_sign(v[0], q[0] - p[0], -v[1], q[1] - p[1]))
}
pub fn dist2(p: P, q: P) -> BigInt {
  let dx = BigInt::from(p[0] - q[0]);
  let dy = BigInt::from(p[1] - q[1]);
  &dx * &dx + &dy * &dy
}
pub fn cmp_dist(p: P, q: P, r: P) -> Ordering {
  let s = |q: P| -> Option<i128> {
    let (dx, dy) = (p[0] - q[0], p[1] - q[1]);
    dx.checked_mul(dx)?.checked_add(dy.checked_mul(dy)?)
  };
  match (s(q), s(r)) {
    (Some(a), Some(b)) => a.cmp(&b),
    _ => dist2(p, q).cmp(&dist2(p, r)),
  }
}
/// Half-plane index (0: angle in [0,180), 1: [180,360)) of d measured from z.
fn half(z: P, d: P) -> u8 {
  let c = det_sign(z[0], d[1], z[1], d[0]);
  if c > 0 {
    return 0;
  }
  if c < 0 {
    return 1;
  }
  // colinear with z: in front 0, behind 1
  if det_sign(z[0], d[0], -z[1], d[1]) > 0 {
    0
  } else {
    1
  }
}
/// Exact comparison of ccw angles in [0,360) of q and r around p, measured from z.
pub fn cmp_angle(z: P, p: P, q: P, r: P) -> Ordering {
  let a = [q[0] - p[0], q[1] - p[1]];
  let b = [r[0] - p[0], r[1] - p[1]];
  half(z, a)
    .cmp(&half(z, b))
    .then_with(|| 0.cmp(&det_sign(a[0], b[1], a[1], b[0])))
}
#[inline]
pub fn between(a: i128, x: i128, b: i128) -> bool {
  (a <= x && x <= b) || (b <= x && x <= a)
}
/// x on closed segment ab.
#[inline]
pub fn on_seg(a: P, b: P, x: P) -> bool {
  between(a[0], x[0], b[0]) && between(a[1], x[1], b[1]) && orient(a, b, x) == 0
}
/// Closed segments share a point.
#[inline]
pub fn seg_touch(a: P, b: P, c: P, d: P) -> bool {
  let o1 = orient(a, b, c);
  let o2 = orient(a, b, d);
  let o3 = orient(c, d, a);
  let o4 = orient(c, d, b);
  if o1 * o2 < 0 && o3 * o4 < 0 {
    return true;
  }
  on_seg(a, b, c) || on_seg(a, b, d) || on_seg(c, d, a) || on_seg(c, d, b)
}
/// Closed vertex cycle is a simple polygon.
pub fn is_simple(v: &[P]) -> bool {
  let n = v.len();
  if n < 3 {
    return false;
  }
  for i in 0..n {
    for j in 0..i {
      if v[i] == v[j] {
        return false;
      }
    }
  }
  for i in 0..n {
    let (a, b) = (v[i], v[(i + 1) % n]);
    for j in i + 1..n {
      let (c, d) = (v[j], v[(j + 1) % n]);
      if b == c && d == a {
        return false; // n == 2
      }
      if b == c {
        // consecutive: only the common vertex may be shared
        if on_seg(a, b, d) || on_seg(c, d, a) {
          return false;
        }
      } else if d == a {
        if on_seg(c, d, b) || on_seg(a, b, c) {
          return false;
        }
      } else if seg_touch(a, b, c, d) {
        return false;
      }
    }
  }
  true
}
/// Direction of a simple cycle of any magnitude: the turn at its lexicographic minimum.
pub fn winding(v: &[P]) -> i8 {
  let n = v.len();
  let i = (0..n).min_by_key(|&i| v[i]).unwrap();
  orient(v[(i + n - 1) % n], v[i], v[(i + 1) % n])
}
/// Twice the signed area (coordinates small enough for i128).
pub fn area2(v: &[P]) -> i128 {
  let n = v.len();
  (0..n)
    .map(|i| {
      let (a, b) = (v[i], v[(i + 1) % n]);
      a[0] * b[1] - a[1] * b[0]
    })
    .sum()
}
pub fn area2_big(v: &[P]) -> BigInt {
  let n = v.len();
  (0..n)
    .map(|i| {
      let (a, b) = (v[i], v[(i + 1) % n]);
      BigInt::from(a[0]) * BigInt::from(b[1]) - BigInt::from(a[1]) * BigInt::from(b[0])
    })
    .sum()
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Loc {
  In,
  On,
  Out,
}
/// Exact point location in a simple polygon (either winding): boundary test,
/// then half-open crossing parity.
pub fn locate(v: &[P], q: P) -> Loc {
  let n = v.len();
  let mut inside = false;
  for i in 0..n {
    let (a, b) = (v[i], v[(i + 1) % n]);
    if on_seg(a, b, q) {
      return Loc::On;
    }
    if (a[1] > q[1]) != (b[1] > q[1]) {
      let (lo, hi) = if a[1] < b[1] { (a, b) } else { (b, a) };
      if orient(lo, hi, q) > 0 {
        inside = !inside;
      }
    }
  }
  if inside {
    Loc::In
  } else {
    Loc::Out
  }
}
/// Strict convex hull, counter-clockwise from the lexicographic minimum.
/// Fewer than 3 points if all colinear.
pub fn hull(pts: &[P]) -> Vec<P> {
  let mut v = pts.to_vec();
  v.sort();
  v.dedup();
  if v.len() < 3 {
    return v;
  }
  let mut out: Vec<P> = vec![];
  for pass in 0..2 {
    let start = out.len();
    let it: Box<dyn Iterator<Item = &P>> = if pass == 0 {
      Box::new(v.iter())
    } else {
      Box::new(v.iter().rev())
    };
    for &p in it {
      while out.len() >= start + 2 && orient(out[out.len() - 2], out[out.len() - 1], p) <= 0 {
        out.pop();
      }
      out.push(p);
    }
    out.pop();
  }
  out
}
pub fn all_colinear(v: &[P]) -> bool {
  let a = match v.first() {
    None => return true,
    Some(a) => *a,
  };
  match v.iter().find(|&&b| b != a) {
    None => true,
    Some(&b) => v.iter().all(|&c| orient(a, b, c) == 0),
  }
}
/// Simple and every corner strictly left (ccw).
pub fn is_strictly_convex(v: &[P]) -> bool {
  let n = v.len();
  if n < 3 || (0..n).any(|i| orient(v[(i + n - 1) % n], v[i], v[(i + 1) % n]) <= 0) {
    return false;
  }
  // Every turn is to the left by less than half a circle, so the total turning is a whole number of
  // circles: the number of times the edge direction passes the positive x axis.
  let e = |i: usize| [v[(i + 1) % n][0] - v[i % n][0], v[(i + 1) % n][1] - v[i % n][1]];
  let once = (0..n).filter(|&i| cmp_angle([1, 0], [0, 0], e(i), e(i + 1)) == Ordering::Greater).count() == 1;
  assert!(n > 32 || once == is_simple(v), "harness: convexity oracle on {:?}", v);
  once
}
/// `b` is a rotation of `a`.
pub fn is_rotation<T: PartialEq>(a: &[T], b: &[T]) -> bool {
  let n = a.len();
  n == b.len() && (n == 0 || (0..n).any(|k| (0..n).all(|i| a[(i + k) % n] == b[i])))
}
/// Rotates so that the smallest element comes first.
pub fn canon_rot<T: Ord + Clone>(v: &[T]) -> Vec<T> {
  if v.is_empty() {
    return vec![];
  }
  let m = (0..v.len()).min_by(|&a, &b| v[a].cmp(&v[b])).unwrap();
  v[m..].iter().chain(v[..m].iter()).cloned().collect()
}
/// Exact ear test: corner at i turns left and no other vertex in the closed corner triangle.
pub fn is_ear(v: &[P], i: usize) -> bool {
  let n = v.len();
  let (p, j, k) = ((i + n - 1) % n, i, (i + 1) % n);
  let (a, b, c) = (v[p], v[j], v[k]);
  if orient(a, b, c) <= 0 {
    return false;
  }
  (0..n).all(|m| {
    m == p || m == j || m == k || {
      let q = v[m];
      orient(a, b, q) < 0 || orient(b, c, q) < 0 || orient(c, a, q) < 0
    }
  })
}
/// Boundary of the cycle is monotone in direction d.
pub fn is_monotone(v: &[P], d: P) -> bool {
  let n = v.len();
  // Circular sequence of rises(+1), flats(0), falls(-1) has at most one rise run and one fall run.
  let s: Vec<i8> = (0..n)
    .map(|i| match cmp_along(d, v[i], v[(i + 1) % n]) {
      Ordering::Less => 1,
      Ordering::Equal => 0,
      Ordering::Greater => -1,
    })
    .filter(|&x| x != 0)
    .collect();
  let m = s.len();
  (0..m).filter(|&i| s[i] != s[(i + 1) % m]).count() <= 2
}
/// Squared-length-free strict triangle tiling check lives in c14.
pub fn sgn(o: rgeometry::Orientation) -> i8 {
  if o.is_ccw() {
    1
  } else if o.is_cw() {
    -1
  } else {
    0
  }
}
pub fn loc_of(l: rgeometry::data::PointLocation) -> Loc {
  match l {
    rgeometry::data::PointLocation::Inside => Loc::In,
    rgeometry::data::PointLocation::OnBoundary => Loc::On,
    rgeometry::data::PointLocation::Outside => Loc::Out,
  }
}
