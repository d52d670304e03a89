//! Complete enumeration of simple polygons over point alphabets, and structured families.
use crate::oracle::*;

pub fn grid(w: i128, h: i128) -> Vec<P> {
  let mut v = vec![];
  for x in 0..w {
    for y in 0..h {
      v.push([x, y]);
    }
  }
  v
}

/// All simple polygons with vertices among `pts` and nmin..=nmax vertices, each once:
/// counter-clockwise and starting at its smallest point index. Flat storage.
pub struct Polys {
  pub pts: Vec<P>,
  flat: Vec<u8>,
  off: Vec<u32>,
}
impl Polys {
  pub fn len(&self) -> u64 {
    (self.off.len() - 1) as u64
  }
  pub fn is_empty(&self) -> bool {
    self.len() == 0
  }
  pub fn idx(&self, i: u64) -> &[u8] {
    &self.flat[self.off[i as usize] as usize..self.off[i as usize + 1] as usize]
  }
  pub fn get(&self, i: u64) -> Vec<P> {
    self.idx(i).iter().map(|&k| self.pts[k as usize]).collect()
  }
  /// Scaled copy of polygon i.
  pub fn get_scaled(&self, i: u64, s: i128) -> Vec<P> {
    self
      .idx(i)
      .iter()
      .map(|&k| self.pts[k as usize].map(|c| c * s))
      .collect()
  }
}

struct Dfs<'a> {
  pts: &'a [P],
  touch: Vec<bool>, // [(a,b),(c,d)] share a point (closed)
  k: usize,
  nmin: usize,
  nmax: usize,
  path: Vec<u8>,
  flat: Vec<u8>,
  off: Vec<u32>,
}
impl Dfs<'_> {
  fn t(&self, a: u8, b: u8, c: u8, d: u8) -> bool {
    let k = self.k;
    self.touch[((a as usize * k + b as usize) * k + c as usize) * k + d as usize]
  }
  fn overlap(&self, a: u8, b: u8, c: u8) -> bool {
    // consecutive edges a-b, b-c overlap in more than b
    let (a, b, c) = (self.pts[a as usize], self.pts[b as usize], self.pts[c as usize]);
    on_seg(a, b, c) || on_seg(b, c, a)
  }
  fn go(&mut self) {
    let m = self.path.len();
    let last = self.path[m - 1];
    if m >= self.nmin && m >= 3 {
      // try to close
      let p0 = self.path[0];
      let mut ok = !self.overlap(self.path[m - 2], last, p0) && !self.overlap(last, p0, self.path[1]);
      for i in 1..m.saturating_sub(2) {
        if !ok {
          break;
        }
        if self.t(last, p0, self.path[i], self.path[i + 1]) {
          ok = false;
        }
      }
      if ok {
        let v: Vec<P> = self.path.iter().map(|&i| self.pts[i as usize]).collect();
        if winding(&v) > 0 {
          self.flat.extend_from_slice(&self.path);
          self.off.push(self.flat.len() as u32);
        }
      }
    }
    if m == self.nmax {
      return;
    }
    for v in self.path[0] + 1..self.k as u8 {
      if self.path.contains(&v) {
        continue;
      }
      if m >= 2 && self.overlap(self.path[m - 2], last, v) {
        continue;
      }
      let mut ok = true;
      for i in 0..m.saturating_sub(2) {
        if self.t(last, v, self.path[i], self.path[i + 1]) {
          ok = false;
          break;
        }
      }
      if ok {
        self.path.push(v);
        self.go();
        self.path.pop();
      }
    }
  }
}

pub fn simple_polygons(pts: &[P], nmin: usize, nmax: usize) -> Polys {
  let k = pts.len();
  let mut touch = vec![false; k * k * k * k];
  for a in 0..k {
    for b in 0..k {
      for c in 0..k {
        for d in 0..k {
          touch[((a * k + b) * k + c) * k + d] = seg_touch(pts[a], pts[b], pts[c], pts[d]);
        }
      }
    }
  }
  let touch = &touch;
  // Parallel over the first two vertices.
  let mut jobs: Vec<(u8, u8)> = vec![];
  for a in 0..k as u8 {
    for b in a + 1..k as u8 {
      jobs.push((a, b));
    }
  }
  let results: Vec<std::sync::Mutex<Option<(Vec<u8>, Vec<u32>)>>> =
    jobs.iter().map(|_| std::sync::Mutex::new(None)).collect();
  let next = std::sync::atomic::AtomicUsize::new(0);
  std::thread::scope(|s| {
    for _ in 0..8 {
      s.spawn(|| loop {
        let j = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if j >= jobs.len() {
          break;
        }
        let mut d = Dfs {
          pts,
          touch: vec![],
          k,
          nmin,
          nmax,
          path: vec![jobs[j].0, jobs[j].1],
          flat: vec![],
          off: vec![],
        };
        // share the table by moving a clone only once per worker job (small)
        d.touch = touch.clone();
        d.go();
        *results[j].lock().unwrap() = Some((d.flat, d.off));
      });
    }
  });
  let mut flat = vec![];
  let mut off = vec![0u32];
  for r in results {
    let (f, o) = r.into_inner().unwrap().unwrap();
    let base = flat.len() as u32;
    flat.extend_from_slice(&f);
    off.extend(o.iter().map(|x| x + base));
  }
  Polys {
    pts: pts.to_vec(),
    flat,
    off,
  }
}

// ---------------------------------------------------------------------------
// Structured simple polygons of larger size (all counter-clockwise, exact integers).

/// Strictly convex n-gon: a lower parabola arc and an upper one between its ends.
pub fn convex_ngon(n: usize) -> Vec<P> {
  if n == 3 {
    return vec![[0, 0], [4, 1], [1, 3]];
  }
  let lower = n.div_ceil(2) as i128;
  let upper = n as i128 - lower;
  let m = lower - 1;
  let u = upper + 1;
  let mut w: Vec<P> = (0..lower).map(|i| [2 * i * u, (i * i - m * i) * u]).collect();
  w.extend((1..=upper).map(|j| [2 * m * (u - j), j * (u - j)]));
  w
}
/// Comb with t teeth (2-wide), reflex notches and horizontal runs.
pub fn comb(t: usize) -> Vec<P> {
  let t = t as i128;
  let mut v = vec![[0, 0], [4 * t - 2, 0]];
  for k in (0..t).rev() {
    v.push([4 * k + 2, 10]);
    v.push([4 * k, 10]);
    if k > 0 {
      v.push([4 * k, 2]);
      v.push([4 * k - 2, 2]);
    }
  }
  // first point (4t-2,0) then (4t-2,10): merge is a plain vertical edge
  v
}
/// Sawtooth / zigzag band with t teeth.
pub fn zigzag(t: usize) -> Vec<P> {
  let t = t as i128;
  let mut v: Vec<P> = vec![];
  for i in 0..=2 * t {
    v.push([3 * i, if i % 2 == 0 { 0 } else { 5 }]);
  }
  for i in (0..=2 * t).rev() {
    v.push([3 * i, if i % 2 == 0 { 2 } else { 7 }]);
  }
  v
}
/// A large corner region whose left side is a chain of m vertices curving inwards, so that almost
/// no corner is convex, and one thin spike from below whose tip alone blocks the top right corner.
/// m must be a power of two.
pub fn intruder(m: usize, tip: usize) -> Vec<P> {
  let m = m as i128;
  let big = 4 * m * m;
  let e = big / 16;
  let at = [[14 * e, 6 * e], [12 * e, 8 * e], [10 * e, 15 * e], [15 * e, 2 * e]][tip];
  let mut v: Vec<P> = vec![[0, 0], [10 * e, 0], at, [12 * e, 0], [big, 0], [big, big]];
  v.extend((1..=m).rev().map(|j| [j * (m - j), 4 * m * j]));
  v
}
/// Rectilinear spiral corridor with r windings (r >= 1).
pub fn spiral(r: usize) -> Vec<P> {
  // Outer arm then inner arm back.
  let r = r as i128;
  let mut outer: Vec<P> = vec![];
  let mut inner: Vec<P> = vec![];
  let big = 4 * r + 4;
  for k in 0..r {
    let o = 4 * k;
    // winding k: outer boundary corners, counter-clockwise inwards
    outer.push([if k == 0 { o } else { o - 4 }, o]);
    outer.push([2 * big - o, o]);
    outer.push([2 * big - o, 2 * big - o]);
    outer.push([o, 2 * big - o]);
    let i = o + 2;
    inner.push([if k == 0 { o } else { i - 4 }, i]);
    inner.push([2 * big - i, i]);
    inner.push([2 * big - i, 2 * big - i]);
    inner.push([i, 2 * big - i]);
  }
  let e = 4 * r;
  outer.push([e - 4, e]);
  inner.push([e - 2, e]);
  // outer arm runs counter-clockwise inward, walk it, then inner arm back
  let mut v = outer;
  inner.reverse();
  v.extend(inner);
  v
}
/// Star-shaped polygon with n spikes alternating radii (exact integer directions).
pub fn spikes(n: usize) -> Vec<P> {
  let hull = convex_ngon(2 * n);
  let c: P = {
    let s = hull.iter().fold([0i128, 0i128], |a, b| [a[0] + b[0], a[1] + b[1]]);
    s
  };
  let m = hull.len() as i128;
  // centroid of vertices is interior; scale by m so it is an integer point
  hull
    .iter()
    .enumerate()
    .map(|(i, p)| {
      let d = [p[0] * m - c[0], p[1] * m - c[1]];
      if i % 2 == 0 {
        [c[0] + d[0] * 3, c[1] + d[1] * 3]
      } else {
        [c[0] + d[0], c[1] + d[1]]
      }
    })
    .collect()
}
/// Subdivide every edge into k colinear pieces.
pub fn subdivide(v: &[P], k: i128) -> Vec<P> {
  let n = v.len();
  let mut o = vec![];
  for i in 0..n {
    let (a, b) = (v[i], v[(i + 1) % n]);
    for j in 0..k {
      o.push([a[0] * k + (b[0] - a[0]) * j, a[1] * k + (b[1] - a[1]) * j]);
    }
  }
  o
}
pub fn staircase(t: usize) -> Vec<P> {
  let t = t as i128;
  let mut v = vec![[0, 0], [2 * t, 0]];
  for k in (0..t).rev() {
    v.push([2 * (k + 1), 2 * (t - k)]);
    v.push([2 * k, 2 * (t - k)]);
  }
  // (2t,0)->(2t,2) is vertical, fine
  v
}

/// Named structured polygons; every one is verified simple and ccw at start-up.
pub fn families(max_n: usize) -> Vec<(String, Vec<P>)> {
  let mut out: Vec<(String, Vec<P>)> = vec![];
  let sizes = [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 17, 20, 24, 31, 32, 33, 48, 64, 65, 100, 128];
  for &s in &sizes {
    if s >= 3 {
      out.push((format!("convex{}", s), convex_ngon(s)));
      out.push((format!("convex{}x2", s), subdivide(&convex_ngon(s), 2)));
    }
    out.push((format!("comb{}", s), comb(s)));
    out.push((format!("zigzag{}", s), zigzag(s)));
    out.push((format!("staircase{}", s), staircase(s)));
    out.push((format!("staircase{}x3", s), subdivide(&staircase(s), 3)));
    if s <= 24 {
      out.push((format!("spiral{}", s), spiral(s)));
    }
    if s >= 3 {
      out.push((format!("spikes{}", s), spikes(s)));
    }
    if s <= 32 {
      out.push((format!("comb{}x2", s), subdivide(&comb(s), 2)));
    }
  }
  out.retain(|(_, v)| v.len() <= max_n);
  for (n, v) in &out {
    assert!(is_simple(v), "harness: family {} is not simple: {:?}", n, v);
    assert!(area2(v) > 0, "harness: family {} is not ccw", n);
    if n.starts_with("convex") && !n[6..].contains('x') {
      assert!(is_strictly_convex(v));
    }
  }
  out
}
/// Arcs of a convex n-gon closed by one or two vertices chosen from a coarse lattice around and
/// inside it, so that a single vertex covers, or uncovers, a long run of earlier ones. Counter-clockwise.
pub fn arcs(n: usize, extra: usize) -> Vec<(String, Vec<P>)> {
  let base = convex_ngon(n);
  let side = |k: usize| {
    let (lo, hi) = (base.iter().map(|p| p[k]).min().unwrap(), base.iter().map(|p| p[k]).max().unwrap());
    let w = hi - lo + 7;
    [lo - 3 * w, lo - w / 7 - 1, (lo + hi) / 2, hi + w / 7 + 1, hi + 3 * w]
  };
  let at: Vec<P> = side(0).iter().flat_map(|&x| side(1).iter().map(move |&y| [x, y]).collect::<Vec<_>>()).collect();
  let mut out = vec![];
  for s in 0..8 {
    for len in [n / 4, n / 2, 3 * n / 4, n] {
      let arc: Vec<P> = rotated(&base, s * n / 8).into_iter().take(len.max(2)).collect();
      for i in 0..(at.len() as u64).pow(extra as u32) {
        let mut v = arc.clone();
        v.extend(crate::digits_vec(i, at.len() as u64, extra).iter().map(|&d| at[d as usize]));
        if crate::oracle::area2(&v) < 0 {
          v.reverse();
        }
        if is_simple(&v) {
          out.push((format!("{} of {}-gon from {} closed by {:?}", arc.len(), n, s * n / 8, &v[arc.len()..]), v));
        }
      }
    }
  }
  out
}
/// The same shapes with more vertices than 16 bits can number. Their simplicity follows from the
/// construction, which `families` verifies at smaller sizes.
pub fn huge() -> Vec<(String, Vec<P>)> {
  let out: Vec<(String, Vec<P>)> = vec![
    ("convex66001".into(), convex_ngon(66_001)),
    ("comb16500".into(), comb(16_500)),
    ("zigzag16500".into(), zigzag(16_500)),
    ("staircase33000".into(), staircase(33_000)),
    ("spiral8300".into(), spiral(8_300)),
    ("convex7x9500".into(), subdivide(&convex_ngon(7), 9_500)),
  ];
  assert!(out.iter().all(|(_, v)| v.len() > 1 << 16));
  out
}
pub fn rotated<T: Clone>(v: &[T], k: usize) -> Vec<T> {
  v[k..].iter().chain(v[..k].iter()).cloned().collect()
}
/// The 8 symmetries of the square applied to a point.
pub fn dihedral(p: P, s: usize) -> P {
  let mut q = p;
  if s & 1 != 0 {
    q = [-q[0], q[1]];
  }
  if s & 2 != 0 {
    q = [q[0], -q[1]];
  }
  if s & 4 != 0 {
    q = [q[1], q[0]];
  }
  q
}
/// Applies a symmetry and restores counter-clockwise order.
pub fn dihedral_poly(v: &[P], s: usize) -> Vec<P> {
  let mut o: Vec<P> = v.iter().map(|&p| dihedral(p, s)).collect();
  if area2(&o) < 0 {
    o.reverse();
  }
  o
}

/// i-th ordered choice of m distinct points.
pub fn arrangement(mut i: u64, a: &[P], m: usize) -> Vec<P> {
  let mut rest = a.to_vec();
  let mut out = vec![];
  for _ in 0..m {
    let l = rest.len() as u64;
    out.push(rest.remove((i % l) as usize));
    i /= l;
  }
  out
}
/// Number of ordered choices of m out of n.
pub fn arrangements(n: usize, m: usize) -> u64 {
  (0..m as u64).map(|j| n as u64 - j).product()
}
