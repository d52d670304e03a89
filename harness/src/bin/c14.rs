//! C14: triangulation exactly tiles every simple polygon, for every ear order.
use harness::oracle::*;
use harness::polyenum::*;
use harness::polys::*;
use harness::rngs::{mixed, word_for, TapeRng};
use harness::scalars::*;
use harness::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use ordered_float::{NotNan, OrderedFloat};
use rand::{Error, RngCore};
use rgeometry::algorithms::triangulation::earclip::{earclip, earclip_hashed, triangulate_list, triangulate_list_hashed};
use rgeometry::algorithms::zhash::ZHashable;
use rgeometry::data::{Point, PointId, Polygon};
use std::cell::RefCell;
use std::collections::HashSet;
use std::rc::Rc;

type Tri = (PointId, PointId, PointId);

/// Exactly n-2 left-turning triangles, every boundary edge once, every other edge twice in opposite
/// directions, areas adding up: together this is a tiling (every point is covered once).
/// No vertex lies in or on a triangle of a tiling.
fn clear(v: &[P], tris: &[Tri]) -> R {
  for &(a, b, d) in tris {
    let q = [a, b, d].map(|x| v[x.usize()]);
    ensure!(orient(q[0], q[1], q[2]) > 0, "triangle {:?} does not turn left", q);
    if let Some(x) = v.iter().find(|x| !q.contains(x) && (0..3).all(|j| orient(q[j], q[(j + 1) % 3], **x) >= 0)) {
      return Err(format!("triangle {:?} contains the vertex {:?}", q, x));
    }
  }
  Ok(())
}
fn judge(p_ids: &[PointId], exact: &[P], tris: &[Tri]) -> R {
  let n = p_ids.len();
  ensure!(tris.len() == n - 2, "{} triangles for {} vertices: {:?}", tris.len(), n, tris);
  let at = |i: PointId| exact[i.usize()];
  let mut edges: Vec<(usize, usize)> = vec![];
  let mut area = 0i128;
  let mut big = BigInt::from(0);
  let small = exact.iter().flatten().all(|x| x.abs() < 1 << 60);
  for &(a, b, c) in tris {
    for i in [a, b, c] {
      ensure!(i.usize() < exact.len(), "triangle {:?} uses an unknown vertex", (a, b, c));
    }
    let (p, q, r) = (at(a), at(b), at(c));
    ensure!(orient(p, q, r) > 0, "triangle {:?} {:?} does not turn left", (a, b, c), (p, q, r));
    if small {
      area += area2(&[p, q, r]);
    } else {
      big += area2_big(&[p, q, r]);
    }
    for (x, y) in [(a, b), (b, c), (c, a)] {
      edges.push((x.usize(), y.usize()));
    }
  }
  edges.sort();
  ensure!(edges.windows(2).all(|w| w[0] != w[1]), "an edge is used twice in the same direction: {:?}", tris);
  let has = |e: (usize, usize)| edges.binary_search(&e).is_ok();
  let v: Vec<P> = p_ids.iter().map(|&i| at(i)).collect();
  if small {
    ensure!(area == area2(&v), "areas add up to {} instead of {}: {:?}", area, area2(&v), tris);
  } else {
    ensure!(big == area2_big(&v), "areas do not add up: {:?}", tris);
  }
  for i in 0..n {
    let (a, b) = (p_ids[i].usize(), p_ids[(i + 1) % n].usize());
    ensure!(has((a, b)) && !has((b, a)), "boundary edge {:?} is not used exactly once: {:?}", (a, b), tris);
  }
  let boundary: HashSet<(usize, usize)> = (0..n).map(|i| (p_ids[i].usize(), p_ids[(i + 1) % n].usize())).collect();
  for &(a, b) in &edges {
    ensure!(boundary.contains(&(a, b)) || has((b, a)), "diagonal {:?} is used by one triangle only: {:?}", (a, b), tris);
  }
  Ok(())
}

/// A scripted random source that mirrors the collection of proposed ears, so that every
/// member can be proposed at every draw.
struct Mirror {
  cand: Vec<usize>,
  present: Vec<bool>,
  /// remaining vertices
  alive: u64,
  /// (choice, number of proposals to choose from, number of choices to explore here)
  script: Vec<(u64, u64, u64)>,
  /// With graph search: states (remaining vertices, candidates) whose choices are already covered.
  seen: Option<HashSet<(u64, u64)>>,
  draws: usize,
  limit: usize,
  last: usize,
}
#[derive(Clone)]
struct ScriptRng(Rc<RefCell<Mirror>>);
impl RngCore for ScriptRng {
  fn next_u32(&mut self) -> u32 {
    (self.next_u64() >> 32) as u32
  }
  fn next_u64(&mut self) -> u64 {
    let m = &mut *self.0.borrow_mut();
    let k = m.draws;
    m.draws += 1;
    if m.draws > m.limit {
      panic!("triangulation does not terminate: more than {} ears proposed", m.limit);
    }
    let len = m.cand.len().max(1) as u64;
    if k >= m.script.len() {
      let set = m.cand.iter().fold(0, |s, &x| s | 1u64 << (x & 63));
      let fresh = m.seen.as_mut().map_or(true, |v| v.insert((m.alive, set)));
      m.script.push((0, len, if fresh { len } else { 1 }));
    }
    let (c, l, _) = m.script[k];
    if !m.cand.is_empty() {
      let i = (c as usize).min(m.cand.len() - 1);
      m.last = m.cand.swap_remove(i);
      m.present[m.last] = false;
    }
    word_for(c.min(l - 1), l)
  }
  fn fill_bytes(&mut self, dest: &mut [u8]) {
    for c in dest.chunks_mut(8) {
      let b = self.next_u64().to_le_bytes();
      c.copy_from_slice(&b[..c.len()]);
    }
  }
  fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
    self.fill_bytes(dest);
    Ok(())
  }
}
fn mirror(n: usize, script: Vec<(u64, u64, u64)>, seen: Option<HashSet<(u64, u64)>>) -> ScriptRng {
  ScriptRng(Rc::new(RefCell::new(Mirror {
    cand: (0..n).collect(),
    present: vec![true; n],
    alive: if n >= 64 { 0 } else { (1 << n) - 1 },
    script,
    seen,
    draws: 0,
    limit: 8 * n * n + 64,
    last: 0,
  })))
}
/// Runs one triangulation, keeping the mirror in step with the emitted triangles.
/// Returns whether the mirror predicted every ear.
fn run(rng: &ScriptRng, ids: &[PointId], it: impl Iterator<Item = Tri>, out: &mut Vec<Tri>) -> bool {
  let mut bound = true;
  let pos = |i: PointId| ids.iter().position(|&j| j == i);
  for t in it {
    out.push(t);
    let m = &mut *rng.0.borrow_mut();
    bound &= pos(t.1) == Some(m.last);
    m.alive &= !(1u64 << (m.last & 63));
    for x in [t.0, t.2] {
      if let Some(x) = pos(x) {
        if !m.present[x] {
          m.present[x] = true;
          m.cand.push(x);
        }
      }
    }
    if out.len() > ids.len() {
      break;
    }
  }
  bound
}
/// Repeats a short pattern of relative positions.
struct Pat(Vec<u64>, usize, usize);
impl RngCore for Pat {
  fn next_u32(&mut self) -> u32 {
    (self.next_u64() >> 32) as u32
  }
  fn next_u64(&mut self) -> u64 {
    self.1 += 1;
    assert!(self.1 < self.2, "triangulation does not terminate: too many ears proposed");
    // some draws vary in all bits, so that rejection in range sampling never repeats forever
    let noise = (self.1 as u64).wrapping_mul(0x9E3779B97F4A7C15);
    if self.1 % 7 == 6 {
      noise
    } else {
      self.0[self.1 % self.0.len()] | noise >> 2
    }
  }
  fn fill_bytes(&mut self, dest: &mut [u8]) {
    dest.fill(0)
  }
  fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
    dest.fill(0);
    Ok(())
  }
}
const FAN: [u64; 4] = [0u64, 1 << 63, 3 << 62, 1 << 62];
/// How far the draws are explored.
#[derive(Clone, Copy)]
enum Depth {
  /// every sequence of proposals
  Tree,
  /// every proposal in every reachable state (remaining vertices, candidates), each followed
  /// by one complete run of the code
  Graph,
}
/// Depth-first exploration over the draws of the real code.
fn all_orders<'a, I: Iterator<Item = Tri>, J: Iterator<Item = Tri>>(c: &mut Ctx, what: &str, ids: &'a [PointId], exact: &[P], depth: Depth, cap: u64, go: impl Fn(ScriptRng) -> I, go2: impl Fn(Pat) -> J) -> R {
  let mut script: Vec<(u64, u64, u64)> = vec![];
  let mut n = 0;
  let mut blind = false;
  let mut seen = match depth {
    Depth::Tree => None,
    Depth::Graph => Some(HashSet::new()),
  };
  loop {
    let rng = mirror(ids.len(), script, seen.take());
    let mut out = vec![];
    let bound = guarded(|| run(&rng, ids, go(rng.clone()), &mut out));
    let tried = || rng.0.borrow().script.iter().map(|x| x.0).collect::<Vec<_>>();
    match bound {
      Err(e) => return Err(format!("{} of {:?}, proposals {:?}: {}", what, exact, tried(), e)),
      Ok(b) => {
        c.outcome(if b { "order as modelled" } else { "order differs from model" });
        blind |= !b;
      }
    }
    judge(ids, exact, &out).map_err(|e| format!("{} of {:?}, proposals {:?}: {}", what, exact, tried(), e))?;
    if blind {
      // The code keeps its candidates in another way than the mirror, which then cannot steer it:
      // explore patterns of relative positions instead.
      const LEN: usize = 4;
      let n = ids.len();
      for i in 0..(FAN.len() as u64).pow(LEN as u32) {
        let pat: Vec<u64> = digits_vec(i, FAN.len() as u64, LEN).iter().map(|&d| FAN[d]).collect();
        let out: Vec<Tri> = guarded(|| go2(Pat(pat.clone(), 0, 40 * n * n + 1000)).take(n + 1).collect()).map_err(|e| format!("{} of {:?}, pattern {:x?}: {}", what, exact, pat, e))?;
        judge(ids, exact, &out).map_err(|e| format!("{} of {:?}, pattern {:x?}: {}", what, exact, pat, e))?;
        c.trace();
        c.op(1);
      }
      c.state();
      c.outcome("orders by pattern");
      return Ok(());
    }
    c.trace();
    c.op(1);
    c.states(rng.0.borrow().draws as u64);
    n += 1;
    {
      let m = &mut *rng.0.borrow_mut();
      let d = m.draws.min(m.script.len());
      script = m.script[..d].to_vec();
      seen = m.seen.take();
    }
    while let Some((x, l, alt)) = script.pop() {
      if x + 1 < alt {
        script.push((x + 1, l, alt));
        break;
      }
    }
    if script.is_empty() {
      c.outcome("every order explored");
      return Ok(());
    }
    if n >= cap {
      c.outcome("order bound reached");
      return Ok(());
    }
  }
}
/// Exact coordinates by vertex identifier.
fn by_id(v: &[P], rev: bool) -> Vec<P> {
  let mut w = v.to_vec();
  if rev {
    w.reverse();
  }
  w
}
fn orders<T: Sc>(c: &mut Ctx, v: &[P], rev: bool, d: Depth, cap: u64) -> R {
  let p = poly_var::<T>(v, 0, rev)?;
  let store: Vec<Point<T>> = p.iter().cloned().collect();
  let ids = p.boundary_slice().to_vec();
  all_orders(c, &format!("{} plain triangulation", T::NAME), &ids, &by_id(v, rev), d, cap, |r| triangulate_list(&store, &ids, r), |r| triangulate_list(&store, &ids, r))
}
fn orders_hashed<T: Sc + ZHashable>(c: &mut Ctx, v: &[P], rev: bool, d: Depth, cap: u64) -> R {
  let p = poly_var::<T>(v, 0, rev)?;
  let store: Vec<Point<T>> = p.iter().cloned().collect();
  let ids = p.boundary_slice().to_vec();
  all_orders(c, &format!("{} hashed triangulation", T::NAME), &ids, &by_id(v, rev), d, cap, |r| triangulate_list_hashed(&store, &ids, r), |r| triangulate_list_hashed(&store, &ids, r))
}
fn ids<T: Sc>(p: &Polygon<T>) -> Vec<Tri> {
  p.triangulate().map(|(a, b, c)| (a.point_id(), b.point_id(), c.point_id())).collect()
}
/// The built-in entry points (fixed random source).
fn fixed<T: Sc>(c: &mut Ctx, v: &[P], rev: bool) -> R {
  let p = poly_var::<T>(v, 0, rev)?;
  for t in [ids(&p), earclip(&p).collect::<Vec<_>>()] {
    judge(p.boundary_slice(), &by_id(v, rev), &t).map_err(|e| format!("{} triangulating {:?}: {}", T::NAME, v, e))?;
  }
  c.op(2);
  c.state();
  c.trace();
  Ok(())
}
fn fixed_hashed<T: Sc + ZHashable>(c: &mut Ctx, v: &[P], rev: bool) -> R {
  let p = poly_var::<T>(v, 0, rev)?;
  judge(p.boundary_slice(), &by_id(v, rev), &earclip_hashed(&p).collect::<Vec<_>>()).map_err(|e| format!("{} hashed triangulating {:?}: {}", T::NAME, v, e))?;
  c.op(1);
  c.trace();
  Ok(())
}
fn variants(n: usize, all: bool) -> Vec<(usize, bool)> {
  if all {
    (0..n).flat_map(|s| [(s, false), (s, true)]).collect()
  } else {
    vec![(n / 2, false), (0, true)]
  }
}

fn grid_orders(k: &mut Check, label: &str, ps: &Polys, d: Depth) {
  let cap = u64::MAX;
  let note = match d {
    Depth::Tree => "every simple polygon, plain and hashed, every sequence of proposals",
    Depth::Graph => "every simple polygon, plain and hashed, every proposal in every reachable state (remaining vertices, candidates), each run to completion",
  };
  k.space(&format!("i64/{} {}", if matches!(d, Depth::Tree) { "all ear orders" } else { "all ear states" }, label), note, ps.len(), |i| format!("{:?}", ps.get(i)), |i, c| {
    let v = ps.get(i);
    orders::<i64>(c, &v, i % 2 == 1, d, cap)?;
    orders_hashed::<i64>(c, &v, i % 2 == 0, d, cap)
  });
}
fn grid_fixed(k: &mut Check, label: &str, ps: &Polys, all: bool) {
  k.space(&format!("fixed source {}", label), "every simple polygon from several starts, plain and hashed, built-in source, all small types", ps.len(), |i| format!("{:?}", ps.get(i)), |i, c| {
    let v = ps.get(i);
    for (s, rev) in variants(v.len(), all) {
      let w = rotated(&v, s);
      fixed::<i64>(c, &w, rev)?;
      fixed_hashed::<i64>(c, &w, rev)?;
      fixed_hashed::<i8>(c, &w, rev)?;
      fixed_hashed::<f64>(c, &w, rev)?;
    }
    Ok(())
  });
}
fn table<T: Sc>(k: &mut Check, size: usize, nmax: usize, hashed: impl Fn(&mut Ctx, &[P], bool) -> R + Sync) {
  let (lo, hi) = T::lim();
  for t in tables(lo, hi, size) {
    let a: Vec<P> = t.iter().flat_map(|&x| t.iter().map(move |&y| [x, y])).collect();
    let ps = simple_polygons(&a, 3, nmax);
    k.space(&format!("{}/coordinates {:?}", T::NAME, t), &format!("every simple polygon up to {} vertices over the table, two starts", nmax), ps.len(), |i| format!("{} {:?}", T::NAME, ps.get(i)), |i, c| {
      let v = ps.get(i);
      for (s, rev) in variants(v.len(), false) {
        let w = rotated(&v, s);
        fixed::<T>(c, &w, rev)?;
        hashed(c, &w, rev)?;
      }
      Ok(())
    });
  }
}
/// Scripts that repeat a short pattern of relative positions, for polygons too large for all orders.
fn patterns(k: &mut Check, max_n: usize, len: usize) {
  let fam = families(max_n);
  let fan = FAN;
  let np = (fan.len() as u64).pow(len as u32);
  k.space("i64/large, patterned orders", &format!("structured polygons up to {} vertices; proposals following every pattern of {} relative positions, plain and hashed", max_n, len), fam.len() as u64 * np, |i| format!("{} pattern {:?}", fam[(i / np) as usize].0, digits_vec(i % np, fan.len() as u64, len)), |i, c| {
    let v = &fam[(i / np) as usize].1;
    let n = v.len();
    let pat: Vec<u64> = digits_vec(i % np, fan.len() as u64, len).iter().map(|&d| fan[d]).collect();
    let s = (i % n as u64) as usize;
    let rev = i % 2 == 1;
    let w = rotated(v, s);
    let p = poly_var::<i64>(&w, 0, rev)?;
    let store: Vec<Point<i64>> = p.iter().cloned().collect();
    let ids = p.boundary_slice().to_vec();
    let e = by_id(&w, rev);
    let t: Vec<Tri> = triangulate_list(&store, &ids, Pat(pat.clone(), 0, 40 * n * n + 1000)).collect();
    judge(&ids, &e, &t).map_err(|m| format!("plain: {}", m))?;
    let t: Vec<Tri> = triangulate_list_hashed(&store, &ids, Pat(pat, 0, 40 * n * n + 1000)).collect();
    judge(&ids, &e, &t).map_err(|m| format!("hashed: {}", m))?;
    c.op(2);
    c.traces(2);
    c.state();
    Ok(())
  });
}
fn floats<T: FSc>(k: &mut Check, nmax: usize, hashed: impl Fn(&Polygon<T>) -> Vec<Tri> + Sync) {
  let (e, tp) = near_points::<T>();
  let mut ix: Vec<usize> = (0..e.len()).collect();
  ix.sort_by_key(|&i| e[i]);
  let e: Vec<P> = ix.iter().map(|&i| e[i]).collect();
  let tp: Vec<Point<T>> = ix.iter().map(|&i| tp[i].clone()).collect();
  let ps = simple_polygons(&e, 3, nmax);
  k.space(&format!("{}/nearly degenerate", T::NAME), "every simple polygon of points colinear up to rounding", ps.len(), |i| format!("{} {:?}", T::NAME, ps.idx(i).iter().map(|&j| tp[j as usize].clone()).collect::<Vec<_>>()), |i, c| {
    let v = ps.get(i);
    let p = Polygon::new(ps.idx(i).iter().map(|&j| tp[j as usize].clone()).collect()).map_err(|x| format!("{:?} rejected: {:?}", v, x))?;
    judge(p.boundary_slice(), &v, &ids(&p))?;
    judge(p.boundary_slice(), &v, &hashed(&p))?;
    c.op(2);
    c.state();
    c.trace();
    Ok(())
  });
}

fn main() {
  let mut k = Check::new("C14");
  let m = k.pick(6, 7);
  grid_orders(&mut k, "3x3 grid", &simple_polygons(&grid(3, 3), 3, m), Depth::Tree);
  let m = k.pick(5, 6);
  grid_orders(&mut k, "4x4 grid", &simple_polygons(&grid(4, 4), 4, m), Depth::Tree);
  grid_orders(&mut k, "3x3 grid", &simple_polygons(&grid(3, 3), 7, 9), Depth::Graph);
  let m = k.pick(6, 8);
  grid_orders(&mut k, "4x4 grid", &simple_polygons(&grid(4, 4), 5, m), Depth::Graph);
  let m = k.pick(12, 16);
  let fam: Vec<(String, Vec<P>)> = families(m).into_iter().filter(|(_, v)| v.len() > 6).collect();
  k.space("i64/all ear states, structured", "structured polygons, plain and hashed, every proposal in every reachable state", fam.len() as u64 * 2, |i| format!("{} storage {}", fam[(i / 2) as usize].0, i % 2), |i, c| {
    let v = &fam[(i / 2) as usize].1;
    orders::<i64>(c, v, i % 2 == 1, Depth::Graph, u64::MAX)?;
    orders_hashed::<f64>(c, v, i % 2 == 1, Depth::Graph, u64::MAX)
  });
  grid_fixed(&mut k, "3x3 grid", &simple_polygons(&grid(3, 3), 3, 9), true);
  let (m, all) = (k.pick(7, 8), k.thorough());
  grid_fixed(&mut k, "4x4 grid", &simple_polygons(&grid(4, 4), 4, m), all);
  let m = k.pick(4, 5);
  grid_fixed(&mut k, "5x5 grid", &simple_polygons(&grid(5, 5), 3, m), true);
  let m4 = k.pick(5, 6);
  each_type!(T in [i64, i8] {
    table::<T>(&mut k, 3, 9, |c, v, r| fixed_hashed::<T>(c, v, r));
    table::<T>(&mut k, 4, m4, |c, v, r| fixed_hashed::<T>(c, v, r));
  });
  table::<f64>(&mut k, 3, 9, |c, v, r| fixed_hashed::<f64>(c, v, r));
  table::<f64>(&mut k, 4, 4, |c, v, r| fixed_hashed::<f64>(c, v, r));
  each_type!(T in [i16, i32, isize, BigInt] { table::<T>(&mut k, 3, 9, |_, _, _| Ok(())); });
  each_type!(T in [f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>, BigRational] { table::<T>(&mut k, 3, 6, |_, _, _| Ok(())); });
  let m = k.pick(5, 8);
  floats::<f64>(&mut k, m, |p| earclip_hashed(p).collect());
  each_type!(T in [f32, OrderedFloat<f64>, NotNan<f32>] { floats::<T>(&mut k, m, ids::<T>); });
  let mut fam = families(300);
  fam.extend(arcs(24, 1));
  k.space("large, fixed source", "structured polygons up to 294 vertices in 8 orientations, plain and hashed", fam.len() as u64 * 8, |i| format!("{} symmetry {}", fam[(i / 8) as usize].0, i % 8), |i, c| {
    let v = dihedral_poly(&fam[(i / 8) as usize].1, (i % 8) as usize);
    let w = rotated(&v, (i as usize * 7) % v.len());
    fixed::<i64>(c, &w, i % 2 == 1)?;
    fixed_hashed::<i64>(c, &w, i % 2 == 0)?;
    fixed_hashed::<f64>(c, &w, i % 2 == 0)?;
    if w.iter().flatten().all(|x| x.abs() < 127) {
      fixed_hashed::<i8>(c, &w, i % 2 == 1)?;
    }
    Ok(())
  });
  let m = k.pick(500, 1300);
  let big: Vec<(&str, Vec<P>)> = vec![("comb", comb(m)), ("zigzag", zigzag(m)), ("staircase", staircase(2 * m)), ("spiral", spiral(m / 2)), ("convex", convex_ngon(4 * m)), ("spikes", spikes(2 * m)), ("convex x", subdivide(&convex_ngon(m), 4))];
  k.space("i64/large, plain and hashed", &format!("structured polygons of about {} vertices, fixed source", 4 * m), big.len() as u64 * 2, |i| format!("{} symmetry {}", big[(i / 2) as usize].0, i % 2 * 5), |i, c| {
    let v = dihedral_poly(&big[(i / 2) as usize].1, (i % 2 * 5) as usize);
    let p = Polygon::new_unchecked(pts::<i64>(&v));
    let a: Vec<Tri> = earclip(&p).collect();
    judge(p.boundary_slice(), &v, &a).map_err(|e| format!("plain: {}", e.chars().take(300).collect::<String>()))?;
    let a: Vec<Tri> = earclip_hashed(&p).collect();
    judge(p.boundary_slice(), &v, &a).map_err(|e| format!("hashed: {}", e.chars().take(300).collect::<String>()))?;
    c.op(2);
    c.state();
    c.trace();
    Ok(())
  });
  let far: Vec<(String, Vec<P>, bool)> = huge().into_iter().flat_map(|(n, v)| [(n.clone(), v.clone(), true), (n, v, false)]).filter(|(n, _, hashed)| if k.thorough() { *hashed || !n.starts_with("zigzag") } else { *hashed && (n.starts_with("convex") || n.starts_with("zigzag")) }).collect();
  k.space("i64/more than 65536 vertices", "structured polygons, hashed, fixed source; thorough: also the first triangles of the plain one, and of the spiral", far.len() as u64, |i| format!("{} {}", far[i as usize].0, if far[i as usize].2 { "hashed" } else { "plain" }), |i, c| {
    let v = rotated(&far[i as usize].1, 30_000);
    let p = Polygon::new_unchecked(pts::<i64>(&v));
    let short = |e: String| e.chars().take(300).collect::<String>();
    if !far[i as usize].2 {
      clear(&v, &earclip(&p).take(200).collect::<Vec<_>>()).map_err(short)?;
    } else if far[i as usize].0.starts_with("spiral") {
      clear(&v, &earclip_hashed(&p).take(1500).collect::<Vec<_>>()).map_err(short)?;
    } else {
      judge(p.boundary_slice(), &v, &earclip_hashed(&p).collect::<Vec<_>>()).map_err(short)?;
    }
    c.op(1);
    c.state();
    c.trace();
    Ok(())
  });
  let ms: &[usize] = if k.thorough() { &[16, 64, 256, 1024, 4096, 16_384, 32_768, 65_536] } else { &[16, 64, 512, 4096, 16_384, 32_768] };
  let rows = ms.len() as u64 * 32;
  k.space("i64/one obstacle among thousands of vertices", &format!("{:?} vertices curving inwards and a single spike into the corner opposite; four spikes, 8 orientations, each convex corner proposed first, then mixed or built-in proposals; hashed and plain, complete up to 512 vertices, else the first triangles only", ms), rows, |i| format!("{} vertices, spike {}, symmetry {}", ms[(i / 32) as usize], i / 8 % 4, i % 8), |i, c| {
    let m = ms[(i / 32) as usize];
    let v = dihedral_poly(&intruder(m, (i / 8 % 4) as usize), (i % 8) as usize);
    let v = rotated(&v, m / 3);
    let n = v.len();
    if m < 1025 {
      assert!(is_simple(&v), "harness: intruder");
    }
    let store = pts::<i64>(&v);
    let p = Polygon::new_unchecked(store.clone());
    let short = |e: String| e.chars().take(300).collect::<String>();
    let limit = if m <= 512 { usize::MAX } else { 12 };
    let convex: Vec<usize> = (0..n).filter(|&j| orient(v[(j + n - 1) % n], v[j], v[(j + 1) % n]) > 0).collect();
    assert!(convex.len() < 10, "harness: intruder");
    for first in convex.iter().copied().map(Some).chain([None]) {
      let rng = || {
        let mut x = i << 32;
        TapeRng {
          tape: first.map(|j| word_for(j as u64, n as u64)).into_iter().collect(),
          pos: 0,
          tail: move || {
            x += 1;
            mixed(x)
          },
        }
      };
      let (h, q): (Vec<Tri>, Vec<Tri>) = match first {
        None => (earclip_hashed(&p).take(limit).collect(), earclip(&p).take(limit).collect()),
        Some(_) => (
          triangulate_list_hashed(&store, p.boundary_slice(), rng()).take(limit).collect(),
          triangulate_list(&store, p.boundary_slice(), rng()).take(limit).collect(),
        ),
      };
      for (what, t) in [("hashed", h), ("plain", q)] {
        let r = if limit == usize::MAX { judge(p.boundary_slice(), &v, &t) } else { clear(&v, &t) };
        r.map_err(|e| format!("{}, corner {:?} first: {}", what, first.map(|j| v[j]), short(e)))?;
        c.op(1);
      }
    }
    c.state();
    c.trace();
    Ok(())
  });
  // The list entry points take the boundary as a list of identifiers into a larger list of points.
  let ps = simple_polygons(&grid(3, 3), 3, k.pick(7, 9));
  k.space("i64/boundary among other points", "every simple 3x3 polygon whose points are stored among others (before, between, after; inside and outside the polygon) and in scattered order, patterned proposals", ps.len(), |i| format!("{:?}", ps.get(i)), |i, c| {
    let v: Vec<P> = ps.get(i).iter().map(|p| [2 * p[0], 2 * p[1]]).collect();
    let n = v.len();
    let others: Vec<P> = vec![[-5, 7], [1, 1], [9, -3], [3, 1], [2, 2], [0, 0], [30, 31], [1, 3]];
    for way in 0..4usize {
      // where vertex j is stored
      let mut store: Vec<P> = vec![];
      let mut place = vec![0; n];
      for j in 0..n {
        if way != 1 {
          store.push(others[(j + i as usize) % others.len()]);
        }
        let at = if way == 3 { n - 1 - j } else { j };
        place[at] = store.len();
        store.push(v[at]);
      }
      if way < 2 {
        store.extend(&others);
      }
      let all = Polygon::new_unchecked(pts::<i64>(&store));
      let names = all.boundary_slice();
      let order: Vec<PointId> = place.iter().map(|&x| names[x]).collect();
      let tp = pts::<i64>(&store);
      for pat in [vec![FAN[0]], vec![FAN[2]], vec![FAN[1], FAN[3], FAN[2]]] {
        let lim = 40 * n * n + 1000;
        let t: Vec<Tri> = guarded(|| triangulate_list(&tp, &order, Pat(pat.clone(), 0, lim)).take(n + 1).collect()).map_err(|e| format!("plain, way {}: {}", way, e))?;
        judge(&order, &store, &t).map_err(|e| format!("plain, way {}: {}", way, e))?;
        let t: Vec<Tri> = guarded(|| triangulate_list_hashed(&tp, &order, Pat(pat.clone(), 0, lim)).take(n + 1).collect()).map_err(|e| format!("hashed, way {}: {}", way, e))?;
        judge(&order, &store, &t).map_err(|e| format!("hashed, way {}: {}", way, e))?;
        c.op(2);
        c.traces(2);
      }
      c.state();
    }
    Ok(())
  });
  let (m, l) = k.pick((70, 2), (140, 4));
  patterns(&mut k, m, l);
  k.assume("float coordinates are finite, without negative zero, and coordinate products neither overflow nor underflow");
  k.finish()
}
