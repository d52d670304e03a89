//! C27: the documented costs: how many comparisons and arithmetic operations on coordinates each algorithm makes.
use harness::oracle::*;
use harness::polyenum::*;
use harness::polys::*;
use harness::rngs::*;
use harness::*;
use num_traits::FromPrimitive;
use rgeometry::algorithms::convex_hull::{gift_wrapping, graham_scan, melkman};
use rgeometry::algorithms::polygonization::{new_monotone_polygon, new_star_polygon, two_opt_moves};
use rgeometry::algorithms::segment_intersections;
use rgeometry::algorithms::triangulation::earclip;
use rgeometry::algorithms::zhash::ZHashable;
use rgeometry::data::{DirectedEdge, Point, Polygon, PolygonConvex, Vector};
use rgeometry::{PolygonScalar, TotalOrd};
use std::cell::Cell;
use std::cmp::Ordering;
use std::ops::*;

thread_local!(static WORK: Cell<u64> = const { Cell::new(0) });
fn tick() {
  WORK.with(|w| w.set(w.get() + 1));
}
/// Work done by `f`.
fn work<A>(f: impl FnOnce() -> A) -> (u64, A) {
  WORK.with(|w| w.set(0));
  let a = f();
  (WORK.with(|w| w.get()), a)
}

/// An integer which counts what is done with it.
#[derive(Clone, Copy, Debug)]
struct Cnt(i64);
impl PartialEq for Cnt {
  fn eq(&self, o: &Cnt) -> bool {
    tick();
    self.0 == o.0
  }
}
impl PartialOrd for Cnt {
  fn partial_cmp(&self, o: &Cnt) -> Option<Ordering> {
    tick();
    self.0.partial_cmp(&o.0)
  }
}
impl TotalOrd for Cnt {
  fn total_cmp(&self, o: &Cnt) -> Ordering {
    tick();
    self.0.cmp(&o.0)
  }
}
macro_rules! ops {
  ($($tr:ident $f:ident $tra:ident $fa:ident $op:ident;)*) => {$(
    impl $tr for Cnt {
      type Output = Cnt;
      fn $f(self, o: Cnt) -> Cnt {
        tick();
        Cnt(self.0.$op(o.0))
      }
    }
    impl $tra for Cnt {
      fn $fa(&mut self, o: Cnt) {
        *self = (*self).$f(o)
      }
    }
  )*};
}
// The values of areas and centroids are C10's business: here they may wrap.
ops! { Add add AddAssign add_assign wrapping_add; Sub sub SubAssign sub_assign wrapping_sub; Mul mul MulAssign mul_assign wrapping_mul; }
impl Div for Cnt {
  type Output = Cnt;
  fn div(self, o: Cnt) -> Cnt {
    tick();
    Cnt(self.0.checked_div(o.0).unwrap_or(0))
  }
}
impl Rem for Cnt {
  type Output = Cnt;
  fn rem(self, o: Cnt) -> Cnt {
    tick();
    Cnt(self.0.checked_rem(o.0).unwrap_or(0))
  }
}
impl DivAssign for Cnt {
  fn div_assign(&mut self, o: Cnt) {
    *self = *self / o
  }
}
impl RemAssign for Cnt {
  fn rem_assign(&mut self, o: Cnt) {
    *self = *self % o
  }
}
impl Neg for Cnt {
  type Output = Cnt;
  fn neg(self) -> Cnt {
    tick();
    Cnt(self.0.wrapping_neg())
  }
}
impl std::iter::Sum for Cnt {
  fn sum<I: Iterator<Item = Cnt>>(i: I) -> Cnt {
    i.fold(Cnt(0), |a, b| a + b)
  }
}
impl FromPrimitive for Cnt {
  fn from_i64(n: i64) -> Option<Cnt> {
    Some(Cnt(n))
  }
  fn from_u64(n: u64) -> Option<Cnt> {
    Some(Cnt(n as i64))
  }
}
impl PolygonScalar for Cnt {
  fn from_constant(v: i8) -> Cnt {
    Cnt(v as i64)
  }
  fn cmp_dist(p: &[Cnt; 2], q: &[Cnt; 2], r: &[Cnt; 2]) -> Ordering {
    tick();
    cmp_dist(x(p), x(q), x(r))
  }
  fn cmp_slope(p: &[Cnt; 2], q: &[Cnt; 2], r: &[Cnt; 2]) -> Ordering {
    tick();
    orient(x(p), x(q), x(r)).cmp(&0)
  }
  fn cmp_vector_slope(v: &[Cnt; 2], p: &[Cnt; 2], q: &[Cnt; 2]) -> Ordering {
    tick();
    orient_vec(x(v), x(p), x(q)).cmp(&0)
  }
  fn cmp_perp_vector_slope(v: &[Cnt; 2], p: &[Cnt; 2], q: &[Cnt; 2]) -> Ordering {
    tick();
    orient_perp(x(v), x(p), x(q)).cmp(&0)
  }
}
impl ZHashable for Cnt {
  type ZHashKey = <i64 as ZHashable>::ZHashKey;
  fn zhash_key(z: rgeometry::algorithms::zhash::ZHashBox<'_, Cnt>) -> Self::ZHashKey {
    i64::zhash_key(rgeometry::algorithms::zhash::ZHashBox { min_x: &z.min_x.0, max_x: &z.max_x.0, min_y: &z.min_y.0, max_y: &z.max_y.0 })
  }
  fn zhash_fn(key: Self::ZHashKey, p: &Point<Cnt, 2>) -> u64 {
    tick();
    i64::zhash_fn(key, &Point::new([p.array[0].0, p.array[1].0]))
  }
}
fn x(p: &[Cnt; 2]) -> P {
  [p[0].0 as i128, p[1].0 as i128]
}
fn cp(p: P) -> Point<Cnt> {
  Point::new([Cnt(p[0] as i64), Cnt(p[1] as i64)])
}
fn cps(v: &[P]) -> Vec<Point<Cnt>> {
  v.iter().map(|&p| cp(p)).collect()
}
fn lg(n: usize) -> u64 {
  (usize::BITS - n.max(1).leading_zeros()) as u64
}
fn within(c: &mut Ctx, what: &str, n: usize, got: u64, bound: u64) -> R {
  c.op(1);
  if n > 20 && n % 7 == 0 && std::env::var("COST").is_ok() {
    eprintln!("COST {} n={} got={} bound={} {:.3}", what, n, got, bound, got as f64 / bound as f64);
  }
  ensure!(got <= bound, "{} on {} vertices made {} coordinate operations, more than the documented growth allows ({})", what, n, got, bound);
  Ok(())
}

fn locate_cost(c: &mut Ctx, v: &[P], starts: usize, qs: &[P]) -> R {
  let n = v.len();
  for s in 0..starts.min(n) {
    let w = rotated(v, s * n / starts.min(n));
    let p = PolygonConvex::new_unchecked(Polygon::new_unchecked(cps(&w)));
    for &q in qs {
      let q = cp(q);
      let (k, _) = work(|| p.locate(&q));
      within(c, "convex location", n, k, 12 * lg(n) + 60)?;
    }
    c.trace();
  }
  c.state();
  Ok(())
}
fn around(v: &[P], every: usize) -> Vec<P> {
  let mut q = vec![];
  let n = v.len();
  for i in (0..n).step_by(every) {
    let (a, b) = (v[i], v[(i + 1) % n]);
    q.extend([a, [a[0] + 1, a[1]], [a[0], a[1] - 1], [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2], [(v[0][0] + a[0]) / 2, (v[0][1] + a[1]) / 2]]);
  }
  q.push([v.iter().map(|p| p[0]).sum::<i128>() / n as i128, v.iter().map(|p| p[1]).sum::<i128>() / n as i128]);
  q
}

/// Everything that is at most linear in the number of vertices.
fn linear(c: &mut Ctx, v: &[P]) -> R {
  let n = v.len();
  let u = n as u64 + 4;
  let p = Polygon::new_unchecked(cps(v));
  within(c, "polygon hull", n, work(|| melkman::convex_hull(&p)).0, 40 * u)?;
  within(c, "signed area", n, work(|| p.signed_area_2x::<Cnt>()).0, 16 * u)?;
  within(c, "signed area", n, work(|| p.signed_area::<Cnt>()).0, 16 * u)?;
  within(c, "centroid", n, work(|| p.centroid()).0, 80 * u)?;
  within(c, "bounding box", n, work(|| p.bounding_box()).0, 16 * u)?;
  within(c, "winding", n, work(|| p.orientation()).0, 16 * u)?;
  let mut q = p.clone();
  within(c, "making counter-clockwise", n, work(|| q.ensure_ccw()).0, 32 * u)?;
  for q in [v[0], v[n / 2], [(v[0][0] + v[n / 2][0]) / 2, (v[0][1] + v[n / 2][1]) / 2], [-1, -1]] {
    let q = cp(q);
    within(c, "point location", n, work(|| p.locate(&q)).0, 40 * u)?;
  }
  for d in [[1, 0], [0, 1], [-2, 3]] {
    let d = Vector(cp(d).array);
    within(c, "monotonicity test", n, work(|| p.is_monotone(&d)).0, 40 * u)?;
  }
  for i in [0, n / 2] {
    let cur = p.cursor(p.boundary_slice()[i]);
    within(c, "ear test", n, work(|| cur.is_ear()).0, 40 * u)?;
    within(c, "corner", n, work(|| cur.orientation()).0, 8)?;
    within(c, "navigation", n, work(|| (cur.next(), cur.prev(), p.point(cur.point_id()))).0, 8)?;
  }
  c.state();
  c.trace();
  Ok(())
}
/// Sorting dominates.
fn linearithmic(c: &mut Ctx, v: &[P], star: bool) -> R {
  let n = v.len();
  let u = (n as u64 + 4) * (lg(n) + 2);
  let ps = cps(v);
  let q = ps.clone();
  let (k, h) = work(|| graham_scan::convex_hull(q));
  within(c, "Graham scan", n, k, 24 * u)?;
  if let Ok(h) = h {
    // gift wrapping looks at every point once per hull corner
    let hl = h.boundary_slice().len();
    if n * hl < 4_000_000 {
      let q = ps.clone();
      let (k, _) = work(|| gift_wrapping::convex_hull(q));
      within(c, "gift wrapping", n, k, 16 * (n as u64 + 4) * (hl as u64 + 2))?;
    }
  }
  if star {
    // sorting, then validation of the result, which is quadratic
    let b = 24 * u + 40 * (n as u64 + 4).pow(2);
    let d = Vector(cp([1, 3]).array);
    let q = ps.clone();
    within(c, "monotone generation", n, work(|| new_monotone_polygon(q, &d)).0, b)?;
    let ctr = cp([v.iter().map(|p| p[0]).sum::<i128>() / n as i128, v.iter().map(|p| p[1]).sum::<i128>() / n as i128]);
    let q: Vec<Point<Cnt>> = ps.iter().filter(|p| x(&p.array) != x(&ctr.array)).cloned().collect();
    if q.len() > 2 {
      within(c, "star generation", n, work(|| new_star_polygon(q, &ctr)).0, b)?;
    }
  }
  c.state();
  c.trace();
  Ok(())
}
fn quadratic(c: &mut Ctx, v: &[P]) -> R {
  let n = v.len();
  let u = (n as u64 + 4).pow(2);
  let p = Polygon::new_unchecked(cps(v));
  within(c, "validation", n, work(|| p.validate()).0, 40 * u)?;
  let q = cps(v);
  within(c, "construction", n, work(|| Polygon::new(q)).0, 40 * u)?;
  within(c, "ear clipping", n, work(|| earclip::earclip(&p).count()).0, 40 * u)?;
  within(c, "hashed ear clipping", n, work(|| earclip::earclip_hashed(&p).count()).0, 80 * u)?;
  let segs: Vec<DirectedEdge<'_, Cnt>> = p.iter_boundary_edges().collect();
  within(c, "listing crossings", n, work(|| segment_intersections::<_, Cnt>(&segs).count()).0, 40 * u)?;
  c.state();
  c.trace();
  Ok(())
}

fn main() {
  let mut k = Check::new("C27");
  // convex location
  for (w, h) in [(4, 4), (5, 5)] {
    let mut g = grid(w, h);
    g.sort();
    let cs = convex_polygons(&g, 99);
    let get = |i: u64| -> Vec<P> { cs[i as usize].iter().map(|&j| [g[j as usize][0] * 2, g[j as usize][1] * 2]).collect() };
    let qs: Vec<P> = (-1..2 * w).flat_map(|x| (-1..2 * h).map(move |y| [x, y])).collect();
    k.space(&format!("convex location {}x{}", w, h), "every strictly convex polygon, every start, every half-grid query", cs.len() as u64, |i| format!("{:?}", get(i)), |i, c| locate_cost(c, &get(i), 99, &qs));
  }
  let sizes: Vec<usize> = if k.thorough() { (3..=1000).chain([1500, 4096, 10_000, 65_537]).collect() } else { (3..=260).chain([300, 511, 512, 513, 1000, 4096, 20_000]).collect() };
  k.space("convex location n-gons", "n-gons from 12 starts, queries at, near, and between vertices and at the centre", sizes.len() as u64, |i| format!("{}-gon", sizes[i as usize]), |i, c| {
    let v: Vec<P> = convex_ngon(sizes[i as usize]).iter().map(|p| [p[0] * 2, p[1] * 2]).collect();
    locate_cost(c, &v, 12, &around(&v, 1 + v.len() / 300))
  });
  // all simple polygons of the small grids, then the families
  for (w, h, nm) in [(3, 3, 9), (4, 3, k.pick(8, 12))] {
    let ps = simple_polygons(&grid(w, h), 3, nm);
    k.space(&format!("{}x{} polygons", w, h), "every simple polygon, every start, both windings", ps.len(), |i| format!("{:?}", ps.get(i)), |i, c| {
      let v = ps.get(i);
      for s in 0..v.len() {
        let w = rotated(&v, s);
        linear(c, &w)?;
        quadratic(c, &w)?;
      }
      linearithmic(c, &v, true)?;
      let mut r = v;
      r.reverse();
      let p = Polygon::new_unchecked(cps(&r));
      within(c, "winding", r.len(), work(|| p.orientation()).0, 16 * (r.len() as u64 + 4))
    });
  }
  let fs: Vec<(String, Vec<P>)> = families(k.pick(300, 1000));
  k.space("families", "structured polygons: combs, zigzags, spirals, spikes, staircases", fs.len() as u64 * 4, |i| format!("{} rotated {}", fs[i as usize / 4].0, i % 4), |i, c| {
    let v = &fs[i as usize / 4].1;
    let w = rotated(v, i as usize % 4 * v.len() / 4);
    linear(c, &w)?;
    linearithmic(c, &w, true)?;
    quadratic(c, &w)
  });
  let hs = huge();
  k.space("beyond 16-bit sizes", "structured polygons of more than 65536 vertices: the linear and sorting algorithms", hs.len() as u64, |i| hs[i as usize].0.clone(), |i, c| {
    linear(c, &hs[i as usize].1)?;
    linearithmic(c, &hs[i as usize].1, false)
  });
  // point lists in many orders
  let g = grid(3, 3);
  k.space("point lists", "every list of up to 5 points of the 3x3 grid, repetitions included", (0..=5).map(|l| 9u64.pow(l)).sum(), |i| format!("list {}", i), |i, c| {
    let (mut i, mut l) = (i, 0);
    while i >= 9u64.pow(l) {
      i -= 9u64.pow(l);
      l += 1;
    }
    let v: Vec<P> = digits_vec(i, 9, l as usize).iter().map(|&d| g[d]).collect();
    if v.len() < 3 {
      c.state();
      c.trace();
      return Ok(());
    }
    linearithmic(c, &v, true)
  });
  k.space("long lists", "1000 and 3000 points in sorted, reversed, strided and repeated orders", 2 * 8, |i| format!("list {}", i), |i, c| {
    let n = [1000usize, 3000][i as usize / 8];
    let v: Vec<P> = (0..n)
      .map(|j| {
        let j = j as i128;
        let m = n as i128;
        match i % 8 {
          0 => [j, j * j % 101],
          1 => [m - j, j * j % 101],
          2 => [j * 617 % m, j * 211 % 97],
          3 => [j % 10, j / 10 % 10],
          4 => [j, 0],
          5 => [j, i128::from(j == m / 2)],
          6 => [j, j * j],
          _ => [j * 617 % m, (j * 617 % m).pow(2)],
        }
      })
      .collect();
    linearithmic(c, &v, n == 1000)
  });
  // uncrossing: O(n^4), whatever the source prefers
  let n = k.pick(7, 8);
  let circle = convex_ngon(9);
  k.space("uncrossing", "every tour of an n-gon with three fixed sources", factorial(n - 1) * 3, |i| format!("tour {} source {}", i / 3, i % 3), |i, c| {
    let mut v = vec![circle[0]];
    v.extend(permutation(i / 3, n - 1).iter().map(|&j| circle[j + 1]));
    let script = match i % 3 {
      0 => vec![],
      1 => vec![u64::MAX; 400],
      _ => (0..400).map(mixed).collect(),
    };
    let ps = cps(&v);
    let mut rng = Words(script, 0);
    let (w, r) = work(|| two_opt_moves(ps, &mut rng));
    ensure!(r.is_ok(), "{:?}", r);
    c.state();
    c.trace();
    within(c, "uncrossing", n, w, 10 * (n as u64).pow(4))
  });
  k.assume("cost is counted in operations on coordinates (comparisons, arithmetic, predicates) by a number type that counts; the constants allow for several times the work of the present code, so only a change of growth is reported");
  k.assume("gift wrapping: n times the number of hull corners; validation: quadratic. Their doc comments promise n log h and n log n, which no version of these functions delivered");
  k.finish()
}
/// A source that replays words, then zeros.
struct Words(Vec<u64>, usize);
impl rand::RngCore for Words {
  fn next_u32(&mut self) -> u32 {
    (self.next_u64() >> 32) as u32
  }
  fn next_u64(&mut self) -> u64 {
    self.1 += 1;
    self.0.get(self.1 - 1).copied().unwrap_or(0)
  }
  fn fill_bytes(&mut self, b: &mut [u8]) {
    b.fill(0)
  }
  fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand::Error> {
    b.fill(0);
    Ok(())
  }
}
