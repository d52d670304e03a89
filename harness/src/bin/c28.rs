//! C28: what an operation returns depends on its arguments alone, not on what was asked before,
//! where the arguments lie in memory, or what else is under way.
use harness::oracle::*;
use harness::polyenum::*;
use harness::rngs::*;
use harness::scalars::*;
use harness::*;
use rand::distributions::uniform::SampleUniform;
use rgeometry::algorithms::convex_hull::{gift_wrapping, graham_scan, melkman};
use rgeometry::algorithms::polygonization::{new_monotone_polygon, new_star_polygon, resolve_self_intersections, two_opt_moves};
use rgeometry::algorithms::segment_intersections;
use rgeometry::algorithms::triangulation::earclip::*;
use rgeometry::algorithms::visibility::naive::get_visibility_polygon;
use rgeometry::algorithms::zhash::ZHashable;
use rgeometry::data::*;
use rgeometry::Intersects;
use std::collections::HashMap;
use std::fmt::{Debug, Write};
use std::process::{Command, Stdio};

trait Full: Sc + ZHashable + SampleUniform + Copy + num_traits::NumCast + num_traits::FromPrimitive {
  fn transforms(v: &[P]) -> String;
  fn random(_n: usize) -> String {
    String::new()
  }
}
macro_rules! transforms {
  ($t:ty) => {
    fn transforms(v: &[P]) -> String {
      let dir = |d: &P| Vector([<$t>::mk(d[0]), <$t>::mk(d[1])]);
      let t = Transform::translate(dir(&[3, -1])) * Transform::scale(dir(&v[v.len() - 1]));
      let mut s = String::new();
      for q in &pts::<$t>(v) {
        let _ = write!(s, "{:?}{:?}", (&t * q).array, (Transform::uniform_scale(q.array[0]) * t.clone() * *q).array);
      }
      s
    }
  };
}
impl Full for i64 {
  transforms!(i64);
  fn random(n: usize) -> String {
    show(&PolygonConvex::<i64>::random(n, &mut rng(n as u64)).polygon().iter_boundary().map(|c| *c.point()).collect::<Vec<_>>())
  }
}
impl Full for f64 {
  transforms!(f64);
}

fn rng(seed: u64) -> TapeRng<impl FnMut() -> u64> {
  let mut i = seed << 32;
  TapeRng { tape: vec![], pos: 0, tail: move || {
    i += 1;
    mixed(i)
  } }
}
fn show<A: Debug>(a: &A) -> String {
  format!("{:?}", a)
}
fn cycle<T: Full>(p: &Polygon<T>) -> String {
  show(&p.iter_boundary().map(|c| c.point().array).collect::<Vec<_>>())
}
fn sorted<A: Ord + Debug>(i: impl Iterator<Item = A>) -> String {
  let mut v: Vec<A> = i.collect();
  v.sort();
  show(&v)
}
const QUERIES: [P; 6] = [[1, 1], [3, 3], [5, 1], [4, 4], [0, 2], [7, 7]];
const DIRS: [P; 4] = [[1, 0], [0, 1], [1, 1], [-2, 1]];

/// Operations on a polygon.
const ON_POLYGON: [&str; 18] = [
  "winding and validity", "area", "centroid", "bounding box", "location", "monotonicity", "ears and turns", "earclip", "earclip_hashed",
  "triangulate_list", "triangulate_list_hashed", "melkman", "visibility", "iteration", "float and normalize", "clone, map and ensure_ccw",
  "as convex polygon", "uncrossing a copy",
];
/// Second arguments lie at one address all along; only their value changes.
struct Args<T> {
  query: Box<Point<T>>,
  dir: Box<Vector<T, 2>>,
  /// Ask one of the questions only.
  only: Option<usize>,
}
impl<T: Full> Args<T> {
  fn new(only: Option<usize>) -> Args<T> {
    Args { query: Box::new(pt::<T>([0, 0])), dir: Box::new(Vector([T::mk(0), T::mk(0)])), only }
  }
  fn queries(&mut self, n: usize, mut f: impl FnMut(&Point<T>) -> String) -> String {
    self.each(n, |a, j| {
      *a.query = pt::<T>(QUERIES[j]);
      f(&a.query)
    })
  }
  fn dirs(&mut self, mut f: impl FnMut(&Vector<T, 2>) -> String) -> String {
    self.each(DIRS.len(), |a, j| {
      *a.dir = Vector([T::mk(DIRS[j][0]), T::mk(DIRS[j][1])]);
      f(&a.dir)
    })
  }
  fn each(&mut self, n: usize, mut f: impl FnMut(&mut Args<T>, usize) -> String) -> String {
    let some: Vec<usize> = self.only.map_or((0..n).collect(), |j| vec![j]);
    some.into_iter().map(|j| f(self, j)).collect::<Vec<_>>().join("|")
  }
}
/// How many questions a step asks one after the other.
fn parts(kind: usize) -> usize {
  match kind_name(kind) {
    "star polygon" => 3,
    "monotone polygon" | "monotonicity" => DIRS.len(),
    "location" | "as convex polygon" => QUERIES.len(),
    "visibility" => 2,
    _ => 1,
  }
}
#[inline(never)]
fn on_polygon<T: Full>(kind: usize, p: &Polygon<T>, args: &mut Args<T>) -> String {
  let tri = |i: &mut dyn Iterator<Item = (PointId, PointId, PointId)>| sorted(i.map(|(a, b, c)| canon_rot(&[a.usize(), b.usize(), c.usize()])));
  match kind {
    0 => show(&(p.orientation(), p.validate().is_ok(), p.validate_weakly().is_ok())),
    1 => show(&(p.signed_area_2x::<T>(), p.signed_area::<T>())),
    2 => show(&p.centroid().array),
    3 => show(&p.bounding_box()),
    4 => args.queries(6, |q| show(&loc_of(p.locate(q)))),
    5 => args.dirs(|d| show(&p.is_monotone(d))),
    6 => p.iter_boundary().map(|c| show(&(c.is_ear(), c.orientation(), c.is_colinear()))).collect(),
    7 => tri(&mut earclip(p)),
    8 => tri(&mut earclip_hashed(p)),
    9 => {
      let pts: Vec<Point<T>> = p.iter().copied().collect();
      let r = tri(&mut triangulate_list(&pts, p.boundary_slice(), rng(1)));
      r
    }
    10 => {
      let pts: Vec<Point<T>> = p.iter().copied().collect();
      let r = tri(&mut triangulate_list_hashed(&pts, p.boundary_slice(), rng(2)));
      r
    }
    11 => cycle(melkman::convex_hull(p).polygon()),
    12 => args.queries(2, |q| get_visibility_polygon(q, p).map_or("none".into(), |g| cycle(&g))),
    13 => {
      let c = p.cursor(p.boundary_slice()[0]);
      let back: Vec<_> = p.iter_boundary().rev().map(|c| c.point().array).collect();
      let edges: Vec<_> = p.iter_boundary_edges().map(|e| (e.src.array, e.dst.array)).collect();
      let all: Vec<_> = p.iter().map(|q| q.array).collect();
      show(&(all, back, edges, c.next().next().point().array, c.prev().point().array, p.equals(p)))
    }
    14 => {
      let f = p.clone().map(|x| <f64 as num_traits::NumCast>::from(x).unwrap()).float();
      show(&(f.iter().map(|q| q.array).collect::<Vec<_>>(), f.normalize().iter().map(|q| q.array).collect::<Vec<_>>()))
    }
    15 => {
      let mut q = p.clone().map_points(|x| Point::new([-x.array[0], x.array[1]]));
      let r = q.ensure_ccw();
      show(&(r.is_ok(), cycle(&q), q.equals(p)))
    }
    16 => {
      let c = PolygonConvex::new_unchecked(p.clone());
      let ok = c.validate().is_ok();
      args.queries(6, |q| if ok { show(&loc_of(c.locate(q))) } else { "not convex".into() })
    }
    _ => {
      let mut q = p.clone();
      let r = resolve_self_intersections(&mut q, &mut rng(3));
      show(&(r.is_ok(), cycle(&q)))
    }
  }
}
/// Operations on a list of points; the ones on a polygon follow, on the polygon through them.
const ON_POINTS: [&str; 14] = [
  "Polygon::new", "graham scan", "gift wrapping", "two_opt_moves", "star polygon", "monotone polygon", "segment_intersections", "triangle",
  "turns, distances and angles", "sort_around", "segments", "lines and rays", "transforms", "random convex polygon",
];
fn kinds() -> usize {
  ON_POINTS.len() + ON_POLYGON.len()
}
fn kind_name(k: usize) -> &'static str {
  ON_POINTS.iter().chain(&ON_POLYGON).nth(k).unwrap()
}
fn answer<T: Full>(kind: usize, v: &[P], args: &mut Args<T>) -> String {
  let tp = pts::<T>(v);
  let n = tp.len();
  let dir = |d: &P| Vector([T::mk(d[0]), T::mk(d[1])]);
  let hull = |h: Result<PolygonConvex<T>, rgeometry::Error>| h.map_or("none".into(), |p| cycle(p.polygon()));
  let poly = |h: Result<Polygon<T>, rgeometry::Error>| h.map_or("none".into(), |p| cycle(&p));
  let edges = || (0..n).map(|i| LineSegment::new(EndPoint::Inclusive(tp[i]), EndPoint::Exclusive(tp[(i + 1) % n]))).collect::<Vec<_>>();
  match kind {
    0 => poly(Polygon::new(tp)),
    1 => hull(graham_scan::convex_hull(tp)),
    2 => hull(gift_wrapping::convex_hull(tp)),
    3 => poly(two_opt_moves(tp, &mut rng(4))),
    4 => args.queries(3, |q| poly(new_star_polygon(tp.clone(), q))),
    5 => args.dirs(|d| poly(new_monotone_polygon(tp.clone(), d))),
    6 => {
      let e = edges();
      let at = |x: &LineSegment<T>| e.iter().position(|f| std::ptr::eq(x, f));
      let r = sorted(segment_intersections::<_, T>(&e).map(|(a, b)| (at(a), at(b))));
      r
    }
    7 => {
      let t = [tp[0], tp[1], tp[n - 1]];
      match Triangle::new(t) {
        Err(_) => "none".into(),
        Ok(t) => {
          let w = t.view();
          let l: String = QUERIES.iter().map(|q| show(&loc_of(t.locate(&pt::<T>(*q))))).collect();
          show(&(l, w.signed_area_2x::<T>(), w.bounding_box(), w.orientation(), w.rejection_sampling(&mut rng(5)).array))
        }
      }
    }
    8 => {
      let mut s = String::new();
      for w in tp.windows(3) {
        let (a, b, c) = (&w[0], &w[1], &w[2]);
        let d = dir(&DIRS[3]);
        let _ = write!(s, "{:?}", (Point::orient(a, b, c), a.cmp_distance_to(b, c), a.ccw_cmp_around(b, c), a.ccw_cmp_around_with(&d, b, c), Point::orient_along_vector(a, &d, b), d.cmp_along(b, c), Point::all_colinear(w)));
      }
      s
    }
    9 => {
      let mut vs: Vec<Vector<T, 2>> = v.iter().map(|q| dir(&[2 * q[0] - 5, 2 * q[1] - 5])).collect();
      Vector::sort_around(&mut vs);
      show(&vs)
    }
    10 => {
      let e = edges();
      let mut s = String::new();
      for a in &e {
        for b in &e {
          let _ = write!(s, "{}", a.intersect(b).map_or("no".into(), |x| show(&x)));
        }
        for q in &QUERIES {
          let _ = write!(s, "{}", a.contains(&pt::<T>(*q)));
        }
      }
      s
    }
    11 => {
      let e = edges();
      let o = pt::<T>([2, -9]);
      let mut s = String::new();
      for q in &tp {
        let l = Line::new_through(&o, q);
        let h = HalfLineSoS::new_through(&o, q);
        let sos = LineSoS::from(l);
        for a in &e {
          let _ = write!(s, "{:?}{:?}", h.intersect(a.as_ref()).map(|x| show(&x)), sos.intersect(a.as_ref()).is_some());
        }
        let m = pt::<T>([40, 1]);
        let _ = write!(s, "{:?}", l.intersection_point(&Line::new_through(&m, &tp[0])).map(|x| x.array));
      }
      s
    }
    12 => T::transforms(v),
    13 => T::random(n),
    k => match Polygon::new(tp) {
      Ok(p) => on_polygon(k - ON_POINTS.len(), &p, args),
      Err(_) => args.each(parts(k), |_, _| "none".into()),
    },
  }
}
fn safe(f: impl FnOnce() -> String) -> String {
  guarded(f).unwrap_or_else(|_| "panic".into()).replace('\n', " ")
}
struct Asker {
  i: Args<i64>,
  f: Args<f64>,
}
impl Asker {
  fn new(only: Option<usize>) -> Asker {
    Asker { i: Args::new(only), f: Args::new(only) }
  }
  fn ask(&mut self, t: usize, kind: usize, v: &[P]) -> String {
    match t {
      0 => safe(|| answer(kind, v, &mut self.i)),
      _ => safe(|| answer(kind, v, &mut self.f)),
    }
  }
}
const TYPES: [&str; 2] = ["i64", "f64"];

/// Inputs which are easily mistaken for one another: the same corner counts, sums, boxes,
/// ends or point sets.
fn inputs(large: bool) -> Vec<Vec<P>> {
  let l: Vec<P> = vec![[0, 0], [6, 0], [6, 3], [3, 3], [3, 6], [0, 6]];
  if large {
    let c = comb(9);
    let mut d = c.clone();
    let mid = c.len() / 2;
    d.remove(mid);
    let mut e = c.clone();
    e.swap(1, 2);
    return vec![c, d, e, convex_ngon(66), staircase(9), subdivide(&l, 4), l];
  }
  let mut out = vec![l.clone()];
  let with = |i: usize, p: P| {
    let mut v = l.clone();
    v[i] = p;
    v
  };
  out.push(with(3, [2, 2])); // same box, same ends, another reflex corner
  out.push(with(3, [4, 4])); // convex corner there
  out.push(with(5, [0, 5]));
  out.push(rotated(&l, 2)); // same set, another start
  out.push(l.iter().rev().copied().collect()); // clockwise
  let mut w = l.clone();
  w.swap(2, 3);
  out.push(w); // same set, other order: crosses itself
  out.push(l.iter().map(|p| [p[0] + 1, p[1] + 1]).collect());
  out.push(vec![[0, 0], [6, 0], [6, 4], [4, 2], [2, 6], [0, 6]]); // same sum
  for (i, p) in [(0, [1, 1]), (1, [5, 0]), (2, [6, 2]), (4, [3, 5])] {
    out.push(with(i, p));
  }
  out.push(l.iter().map(|p| [p[0] * 2, p[1] * 2]).collect());
  out.push(l.iter().map(|p| [p[1], p[0]]).collect());
  out.push(l.iter().map(|p| [6 - p[0], 6 - p[1]]).collect());
  out.push(vec![[0, 0], [6, 0], [6, 3], [3, 3], [3, 6]]);
  out.push(vec![[0, 0], [6, 0], [6, 3], [3, 3], [3, 6], [1, 6], [0, 6]]);
  out.push(vec![[2, 0], [4, 0], [6, 3], [4, 6], [2, 6], [0, 3]]); // convex
  out.push(vec![[2, 0], [4, 1], [6, 3], [4, 6], [2, 6], [0, 3]]);
  out.push((0..6).map(|i| [i, i]).collect()); // one line
  out.push(vec![[0, 0], [6, 0], [6, 3], [6, 3], [3, 6], [0, 6]]); // one point twice
  out.push(vec![[0, 0], [6, 6], [6, 0], [0, 6], [3, 1], [3, 5]]);
  out.push(vec![[0, 0], [3, 0], [6, 0], [6, 6], [3, 6], [0, 6]]); // corners in a line
  out
}

/// Answers of a fresh process which runs the given history: one line per step.
fn fresh(mode: &str, t: usize, arg: &str) -> Result<Vec<String>, String> {
  let exe = std::env::current_exe().map_err(|e| e.to_string())?;
  let out = Command::new(exe).env("C28_RUN", format!("{} {} {}", mode, t, arg)).stdin(Stdio::null()).output().map_err(|e| format!("harness: {}", e))?;
  if !out.status.success() {
    return Err(format!("the process running history {} {} {} of {} ended with {:?}", mode, t, arg, TYPES[t], out.status));
  }
  Ok(String::from_utf8_lossy(&out.stdout).lines().map(String::from).collect())
}
/// Steps (kind, input) of a history.
fn history(mode: &str, arg: &str, ins: usize) -> Vec<(usize, usize)> {
  let a: Vec<usize> = arg.split(',').map(|x| x.parse().unwrap()).collect();
  match mode {
    "one" => vec![(a[0], a[1])],
    // the step in question before and after every other one
    "pairs" => {
      let this = (a[0], a[1]);
      (0..kinds()).flat_map(|k| (0..ins).flat_map(move |i| [(k, i), this])).collect()
    }
    // every three inputs one after the other, asked the same thing
    "triples" | "fours" => (if mode == "fours" { de_bruijn(ins.min(14), 4) } else { de_bruijn(ins, 3) }).into_iter().map(|i| (a[0], i)).collect(),
    // all operations on one input, then on the next
    _ => rotated(&(0..ins).collect::<Vec<_>>(), a[0]).into_iter().flat_map(|i| (0..kinds()).map(move |k| (k, i))).collect(),
  }
}
/// Cyclic sequence over 0..k with every word of length n exactly once, opened with the first n-1 repeated at its end.
fn de_bruijn(k: usize, n: usize) -> Vec<usize> {
  fn go(t: usize, p: usize, k: usize, n: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
    if t > n {
      if n % p == 0 {
        out.extend_from_slice(&a[1..=p]);
      }
      return;
    }
    a[t] = a[t - p];
    go(t + 1, p, k, n, a, out);
    for j in a[t - p] + 1..k {
      a[t] = j;
      go(t + 1, t, k, n, a, out);
    }
  }
  let mut out = vec![];
  go(1, 1, k, n, &mut vec![0; k * n], &mut out);
  out.extend_from_within(..n - 1);
  out
}
/// What the child process does.
fn child(spec: &str) {
  let f: Vec<&str> = spec.split(' ').collect();
  let t: usize = f[1].parse().unwrap();
  let limit = if f[0] == "one" { 20 } else { 85 };
  std::thread::spawn(move || {
    std::thread::sleep(std::time::Duration::from_secs(limit));
    std::process::exit(3)
  });
  let ins = inputs(f[3] == "large");
  let only = if f[0] == "one" { f[2].split(',').nth(2).map(|x| x.parse().unwrap()) } else { None };
  let mut asker = Asker::new(only);
  let mut o = String::new();
  let mut memo: HashMap<(usize, usize, String), usize> = HashMap::new();
  for (step, (k, i)) in history(f[0], f[2], ins.len()).into_iter().enumerate() {
    let a = asker.ask(t, k, &ins[i]);
    // repeated answers are abbreviated to keep the output short
    let key = (k, i, a);
    match memo.get(&key) {
      Some(s) => {
        let _ = writeln!(o, "={}", s);
      }
      None => {
        let _ = writeln!(o, "{}", key.2);
        memo.insert(key, step);
      }
    }
  }
  print!("{}", o);
}

/// A lazily evaluated listing.
const LAZY: [&str; 6] = ["earclip", "earclip_hashed", "triangulate_list", "segment_intersections", "iter_boundary", "iter_boundary_edges"];
struct Setup<T: Full> {
  poly: Polygon<T>,
  edges: Vec<LineSegment<T>>,
}
fn setup<T: Full>(v: &[P]) -> Setup<T> {
  let n = v.len();
  let tp = pts::<T>(v);
  let edges = (0..n).map(|i| LineSegment::new(EndPoint::Inclusive(tp[i]), EndPoint::Inclusive(tp[(i + 1) % n]))).collect();
  Setup { poly: Polygon::new(tp).expect("harness: simple"), edges }
}
fn lazy<'a, T: Full>(kind: usize, s: &'a Setup<T>) -> Box<dyn Iterator<Item = String> + 'a> {
  let p = &s.poly;
  match kind {
    0 => Box::new(earclip(p).map(|t| show(&t))),
    1 => Box::new(earclip_hashed(p).map(|t| show(&t))),
    2 => {
      let pts: &'a [Point<T>] = Box::leak(p.iter().copied().collect::<Vec<_>>().into_boxed_slice());
      Box::new(triangulate_list(pts, p.boundary_slice(), rng(7)).map(|t| show(&t)))
    }
    3 => Box::new(segment_intersections::<_, T>(&s.edges).map(|(a, b)| show(&(a, b)))),
    4 => Box::new(p.iter_boundary().map(|c| show(&c.point().array))),
    _ => Box::new(p.iter_boundary_edges().map(|e| show(&(e.src.array, e.dst.array)))),
  }
}
fn interleave<T: Full>(c: &mut Ctx, a: (usize, &[P]), b: (usize, &[P])) -> R {
  let (sa, sb) = (setup::<T>(a.1), setup::<T>(b.1));
  let wa: Vec<String> = lazy(a.0, &sa).collect();
  let wb: Vec<String> = lazy(b.0, &sb).collect();
  let (la, lb) = (wa.len() + 1, wb.len() + 1);
  // which of the two advances at each step
  for mask in 0u32..1 << (la + lb) {
    if mask.count_ones() as usize != la {
      continue;
    }
    let (mut ia, mut ib) = (lazy(a.0, &sa), lazy(b.0, &sb));
    let (mut ga, mut gb) = (vec![], vec![]);
    for s in 0..la + lb {
      if mask >> s & 1 == 1 {
        ga.extend(ia.next());
      } else {
        gb.extend(ib.next());
      }
      c.op(1);
    }
    let what = |w: usize| format!("{}: {} over {:?} advanced in turns (bits of {:#b}) with {} over {:?}: listing {}", T::NAME, LAZY[a.0], a.1, mask, LAZY[b.0], b.1, w);
    same!(what(1), wa, ga);
    same!(what(2), wb, gb);
    c.trace();
  }
  c.outcome(if a.0 == b.0 { "same listing twice" } else { "two listings" });
  c.state();
  Ok(())
}

/// One polygon object: asked, changed in place, asked, changed back, asked.
fn in_place<T: Full>(c: &mut Ctx, refs: &[String], ins: &[(usize, Vec<P>)], x: usize, y: usize) -> R {
  let m = ins.len();
  let r = |k: usize, i: usize| &refs[k * m + i];
  let nk = ON_POLYGON.len();
  let mut args = Args::new(None);
  let mut p = Box::new(Polygon::new(pts::<T>(&ins[x].1)).expect("harness: simple"));
  for k1 in 0..nk {
    for k2 in 0..nk {
      let what = |s: &str| format!("{}: {} of {:?}, then {} of {:?} in the same object: {}", T::NAME, ON_POLYGON[k1], ins[x].1, ON_POLYGON[k2], ins[y].1, s);
      same!(what("first answer"), *r(k1, x), safe(|| on_polygon(k1, &p, &mut args)));
      let set = |p: &mut Polygon<T>, to: &[P], whole: bool| {
        if whole {
          *p = Polygon::new(pts::<T>(to)).expect("harness: simple");
        } else {
          for (q, w) in p.iter_mut().zip(to) {
            *q = pt::<T>(*w);
          }
        }
      };
      let same_size = ins[x].1.len() == ins[y].1.len();
      for whole in [false, true] {
        if !whole && !same_size {
          continue;
        }
        set(&mut p, &ins[y].1, whole);
        let copy = p.clone();
        same!(what("second answer"), *r(k2, y), safe(|| on_polygon(k2, &p, &mut args)));
        same!(what("second answer from a copy"), *r(k2, y), safe(|| on_polygon(k2, &copy, &mut args)));
        let now: Vec<_> = p.iter().copied().collect();
        same!(what("the polygon itself"), pts::<T>(&ins[y].1), now);
        set(&mut p, &ins[x].1, whole);
        same!(what("first answer again"), *r(k1, x), safe(|| on_polygon(k1, &p, &mut args)));
        c.op(4);
        c.trace();
      }
    }
  }
  c.outcome(if x == y { "unchanged" } else { "changed" });
  c.state();
  Ok(())
}

/// The reference: every step alone, in a process of its own.
fn references(set: &str, m: usize) -> Vec<Vec<String>> {
  let steps = kinds() * m;
  (0..2)
    .map(|t| {
      let next = std::sync::atomic::AtomicUsize::new(0);
      let out = std::sync::Mutex::new(vec![String::new(); steps]);
      std::thread::scope(|s| {
        for _ in 0..8 {
          s.spawn(|| loop {
            let j = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            if j >= steps {
              break;
            }
            let (k, i) = (j / m, j % m);
            let r: Vec<String> = (0..parts(k)).map(|q| fresh("one", t, &format!("{},{},{} {}", k, i, q, set)).map(|l| l.concat()).unwrap_or_else(|e| {
              println!("error: no reference: {}", e);
              std::process::exit(2)
            })).collect();
            let r = r.join("|");
            out.lock().unwrap()[j] = r;
          });
        }
      });
      out.into_inner().unwrap()
    })
    .collect()
}
/// Runs a history in a process of its own; every step has to be answered as it is alone.
fn run(c: &mut Ctx, mode: &str, t: usize, arg: String, set: &str, ins: &[Vec<P>], refs: &[Vec<String>]) -> R {
  let m = ins.len();
  let h = history(mode, &arg, m);
  let got = fresh(mode, t, &format!("{} {}", arg, set))?;
  same!(format!("{}: steps answered in history {} {}", TYPES[t], mode, arg), h.len(), got.len());
  for (s, &(kind, i)) in h.iter().enumerate() {
    let g = match got[s].strip_prefix('=').and_then(|x| x.parse::<usize>().ok()) {
      Some(b) => &got[b],
      None => &got[s],
    };
    let want = &refs[t][kind * m + i];
    if g != want {
      let before: Vec<String> = h[s.saturating_sub(2)..s].iter().map(|&(k, i)| format!("{} of {:?}", kind_name(k), ins[i])).collect();
      return Err(format!("{}: {} of {:?} answers {} alone but {} as step {} of history {} {} (just before: {})", TYPES[t], kind_name(kind), ins[i], want, g, s, mode, arg, before.join(", ")));
    }
    c.op(1);
    c.outcome(match want.as_str() {
      w if w.is_empty() || w.starts_with("none") || w.starts_with("not convex") => "nothing to answer",
      w if w.starts_with("panic") => "refused by a panic",
      _ => "answered as alone",
    });
  }
  c.states(h.len() as u64);
  c.trace();
  Ok(())
}

fn main() {
  if let Ok(s) = std::env::var("C28_RUN") {
    std::panic::set_hook(Box::new(|_| ()));
    return child(&s);
  }
  let mut k = Check::new("C28");
  let ins = inputs(false);
  let m = ins.len();
  let steps = (kinds() * m) as u64;
  let large = inputs(true);
  let refs = references("all", m);
  let refs_large = references("large", large.len());
  k.space(
    "every two steps in a row",
    &format!("steps: {} operations on each of {} inputs easily mistaken for one another; one fresh process per step and type, which asks it before and after every other; references from processes which ask one thing only", kinds(), m),
    2 * steps,
    |i| format!("{} {} of {:?}", TYPES[(i / steps) as usize], kind_name((i % steps) as usize / m), ins[(i % steps) as usize % m]),
    |i, c| run(c, "pairs", (i / steps) as usize, format!("{},{}", (i % steps) as usize / m, (i % steps) as usize % m), "all", &ins, &refs),
  );
  let ml = large.len();
  let sl = (kinds() * ml) as u64;
  k.space(
    "every two steps in a row, large inputs",
    &format!("as above on {} inputs of up to {} points, and one small one", ml, large.iter().map(|v| v.len()).max().unwrap()),
    2 * sl,
    |i| format!("{} {} of {:?}", TYPES[(i / sl) as usize], kind_name((i % sl) as usize / ml), large[(i % sl) as usize % ml]),
    |i, c| run(c, "pairs", (i / sl) as usize, format!("{},{}", (i % sl) as usize / ml, (i % sl) as usize % ml), "large", &large, &refs_large),
  );
  if k.thorough() {
    k.space(
      "the same operation on every four inputs in a row",
      "one fresh process per operation and type, on a de Bruijn sequence of the first 14 inputs",
      2 * kinds() as u64,
      |i| format!("{} {}", TYPES[i as usize / kinds()], kind_name(i as usize % kinds())),
      |i, c| run(c, "fours", i as usize / kinds(), format!("{}", i as usize % kinds()), "all", &ins, &refs),
    );
  }
  k.space(
    "the same operation on every three inputs in a row",
    "one fresh process per operation and type, on a de Bruijn sequence of the inputs",
    2 * kinds() as u64,
    |i| format!("{} {}", TYPES[i as usize / kinds()], kind_name(i as usize % kinds())),
    |i, c| run(c, "triples", i as usize / kinds(), format!("{}", i as usize % kinds()), "all", &ins, &refs),
  );
  k.space(
    "all operations on one input after the other",
    "one fresh process per starting input and type",
    2 * m as u64,
    |i| format!("{} from {:?}", TYPES[i as usize / m], ins[i as usize % m]),
    |i, c| run(c, "sweep", i as usize / m, format!("{}", i as usize % m), "all", &ins, &refs),
  );
  // the ones Polygon::new keeps as they are
  let simple: Vec<(usize, Vec<P>)> = ins.iter().enumerate().filter(|(_, v)| is_simple(v) && winding(v) > 0).map(|(i, v)| (i, v.clone())).collect();
  let s = simple.len() as u64;
  let at = |t: usize| -> Vec<String> { (0..ON_POLYGON.len()).flat_map(|k| simple.iter().map(move |(i, _)| (k, *i))).map(|(k, i)| refs[t][(ON_POINTS.len() + k) * m + i].clone()).collect() };
  let per = [at(0), at(1)];
  k.space(
    "one polygon object, changed between questions",
    "every two simple inputs and every two operations: ask, move the corners in place (or assign a new polygon), ask, change back, ask; the questions leave the polygon as it is",
    2 * s * s,
    |i| format!("{} {:?} to {:?}", TYPES[(i / s / s) as usize], simple[(i / s % s) as usize].1, simple[(i % s) as usize].1),
    |i, c| {
      let (t, x, y) = ((i / s / s) as usize, (i / s % s) as usize, (i % s) as usize);
      match t {
        0 => in_place::<i64>(c, &per[0], &simple, x, y),
        _ => in_place::<f64>(c, &per[1], &simple, x, y),
      }
    },
  );
  let small: Vec<Vec<P>> = vec![vec![[0, 0], [4, 0], [4, 4], [1, 3]], vec![[0, 0], [4, 0], [3, 1], [1, 3]], vec![[0, 0], [4, 0], [4, 4], [2, 1], [0, 4]], vec![[0, 0], [4, 0], [1, 1]]];
  let (ls, lk) = (small.len() as u64, LAZY.len() as u64);
  let lz = ls * lk;
  let pick = |j: u64| ((j / ls) as usize, &small[(j % ls) as usize]);
  k.space(
    "two listings advanced in turns",
    "every two lazily evaluated listings over every two of the small polygons, advanced in every order of turns, with one turn past the end",
    2 * lz * lz,
    |i| {
      let (a, b) = (pick(i / lz % lz), pick(i % lz));
      format!("{} {} over {:?} with {} over {:?}", TYPES[(i / lz / lz) as usize], LAZY[a.0], a.1, LAZY[b.0], b.1)
    },
    |i, c| {
      let (a, b) = (pick(i / lz % lz), pick(i % lz));
      match i / lz / lz {
        0 => interleave::<i64>(c, (a.0, a.1), (b.0, b.1)),
        _ => interleave::<f64>(c, (a.0, a.1), (b.0, b.1)),
      }
    },
  );
  k.assume("One thread at a time asks within a process; what threads might share is what outlives a call, which the histories look for.");
  k.finish();
}
