//! C18: uncrossing moves always terminate in a simple polygon on the same vertices.
use harness::oracle::*;
use harness::polyenum::*;
use harness::polys::*;
use harness::rngs::*;
use harness::scalars::*;
use harness::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use ordered_float::{NotNan, OrderedFloat};
use rand::{Error as RError, RngCore};
use rgeometry::algorithms::polygonization::{resolve_self_intersections, two_opt_moves};
use rgeometry::data::{Point, Polygon};
use std::collections::{BTreeSet};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// Plays a script of words, then either stops the run or continues with a fixed tail.
struct Driver<'a> {
  script: &'a [u64],
  pos: usize,
  tail: Tail,
  limit: usize,
}
#[derive(Clone, Copy, Debug)]
enum Tail {
  /// Abandon the run at the first draw after the script.
  Stop,
  First,
  Last,
  Mixed(u64),
}
struct Stop;
struct TooMany;
impl RngCore for Driver<'_> {
  fn next_u32(&mut self) -> u32 {
    (self.next_u64() >> 32) as u32
  }
  fn next_u64(&mut self) -> u64 {
    let k = self.pos;
    self.pos += 1;
    if k < self.script.len() {
      return self.script[k];
    }
    if k > self.limit {
      resume_unwind(Box::new(TooMany));
    }
    let m = mixed(k as u64);
    match self.tail {
      Tail::Stop => resume_unwind(Box::new(Stop)),
      // Words close to the ends pick the first or last member; the odd mixed word keeps range
      // sampling from rejecting for ever.
      Tail::First if k % 8 != 7 => 0,
      Tail::Last if k % 8 != 7 => u64::MAX - (m >> 12),
      Tail::Mixed(s) => mixed(m ^ s),
      _ => m,
    }
  }
  fn fill_bytes(&mut self, dest: &mut [u8]) {
    for c in dest.chunks_mut(8) {
      let b = self.next_u64().to_le_bytes();
      c.copy_from_slice(&b[..c.len()]);
    }
  }
  fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), RError> {
    self.fill_bytes(dest);
    Ok(())
  }
}
type Tour = Vec<usize>;
enum End {
  Stopped(Tour),
  Done(Tour),
}
fn tour<T>(p: &Polygon<T>) -> Tour {
  p.boundary_slice().iter().map(|i| i.usize()).collect()
}
/// Runs the code on the points in the given order.
fn run<T: Sc>(tp: &[Point<T>], script: &[u64], tail: Tail) -> Result<End, String> {
  let mut p = Polygon::new_unchecked(tp.to_vec());
  let n = tp.len();
  let mut d = Driver { script, pos: 0, tail, limit: script.len() + 64 * n * n + 4000 };
  enum O {
    Ret(Result<(), rgeometry::Error>),
    Stop,
    TooMany,
  }
  let r = guarded(|| match catch_unwind(AssertUnwindSafe(|| resolve_self_intersections(&mut p, &mut d))) {
    Ok(r) => O::Ret(r),
    Err(e) if e.is::<Stop>() => O::Stop,
    Err(e) if e.is::<TooMany>() => O::TooMany,
    Err(e) => resume_unwind(e),
  })?;
  match r {
    O::Ret(Ok(())) => Ok(End::Done(tour(&p))),
    O::Ret(Err(e)) => Err(format!("uncrossing fails with {:?}", e)),
    O::Stop => Ok(End::Stopped(tour(&p))),
    O::TooMany => Err("uncrossing does not terminate".into()),
  }
}
fn length(v: &[P], t: &[usize], skip: &BTreeSet<(usize, usize)>) -> f64 {
  edges(t).difference(skip).map(|&(i, j)| (((v[i][0] - v[j][0]).pow(2) + (v[i][1] - v[j][1]).pow(2)) as f64).sqrt()).sum()
}
fn edges(t: &[usize]) -> BTreeSet<(usize, usize)> {
  (0..t.len()).map(|i| (t[i], t[(i + 1) % t.len()])).map(|(a, b)| (a.min(b), a.max(b))).collect()
}
fn is_tour(t: &[usize], n: usize) -> bool {
  t.len() == n && t.iter().collect::<BTreeSet<_>>().len() == n && t.iter().all(|&x| x < n)
}
/// `b` is strictly shorter than `a`.  Sums of at most a few square roots of small integers are
/// either equal or further apart than 1e-11.
fn shorter(v: &[P], a: &[usize], b: &[usize]) -> bool {
  length(v, b, &edges(a)) < length(v, a, &edges(b)) - 1e-11
}
/// Pairs of edges (by position) that share a point other than a common end.
fn crossings(v: &[P], t: &[usize]) -> Vec<(usize, usize)> {
  let n = t.len();
  let e = |i: usize| (t[i % n], t[(i + 1) % n]);
  let mut out = vec![];
  for i in 0..n {
    for j in i + 1..n {
      let ((a, b), (c, d)) = (e(i), e(j));
      let hit = if let Some(s) = [a, b].into_iter().find(|x| *x == c || *x == d) {
        let p = if s == a { b } else { a };
        let q = if s == c { d } else { c };
        p == q || on_seg(v[s], v[p], v[q]) || on_seg(v[s], v[q], v[p])
      } else {
        seg_touch(v[a], v[b], v[c], v[d])
      };
      if hit {
        out.push((i, j));
      }
    }
  }
  out
}
/// Tour up to starting point and direction.
fn shape(t: &[usize]) -> Tour {
  let mut r = t.to_vec();
  r.reverse();
  canon_rot(t).min(canon_rot(&r))
}
fn final_ok(v: &[P], t: &[usize]) -> R {
  ensure!(is_tour(t, v.len()), "the result does not visit every point once: {:?}", t);
  let w: Vec<P> = t.iter().map(|&i| v[i]).collect();
  ensure!(is_simple(&w), "the result {:?} is not simple", w);
  ensure!(winding(&w) > 0, "the result {:?} is not counter-clockwise", w);
  Ok(())
}
/// Words that can pick every member of a set of `m` up to `m + 2` elements.
fn words(m: usize) -> Vec<u64> {
  let mut w: Vec<u64> = (m..=m + 2).flat_map(|m| (0..m as u64).map(move |i| word_for(i, m as u64))).collect();
  w.sort();
  w.dedup();
  w
}
struct Node {
  script: Vec<u64>,
  tour: Tour,
}
/// All successors of a state of the real run, one per distinct resulting tour.
fn successors<T: Sc>(c: &mut Ctx, v: &[P], tp: &[Point<T>], at: &Node) -> Result<Vec<(Node, bool)>, String> {
  let x = crossings(v, &at.tour);
  let mut out: Vec<(Node, bool)> = vec![];
  for w in words(x.len().max(1)) {
    let mut script = at.script.clone();
    script.push(w);
    // Range sampling may reject a word: then the tour is unchanged and another word is needed.
    for extra in 0..6 {
      c.op(1);
      let end = run(tp, &script, Tail::Stop).map_err(|e| format!("from {:?}: {}", at.tour, e))?;
      let (t, done) = match end {
        End::Stopped(t) => (t, false),
        End::Done(t) => (t, true),
      };
      if done {
        final_ok(v, &t)?;
      }
      if !is_tour(&t, v.len()) {
        c.outcome("intermediate state not observable");
        break;
      }
      if t == at.tour && !done {
        script.push(mixed(extra));
        continue;
      }
      ensure!(shorter(v, &at.tour, &t), "step from tour {:?} to {:?} does not shorten it", at.tour, t);
      if !out.iter().any(|o| o.0.tour == t && o.1 == done) {
        out.push((Node { script, tour: t }, done));
      }
      break;
    }
  }
  // Conformance with the model: for two properly crossing edges the only shorter reconnection is
  // the 2-opt move, so it should be among the successors.
  let n = at.tour.len();
  let got: BTreeSet<Tour> = out.iter().map(|o| shape(&o.0.tour)).collect();
  for (i, j) in x {
    let (a, b, p, q) = (v[at.tour[i]], v[at.tour[i + 1]], v[at.tour[j]], v[at.tour[(j + 1) % n]]);
    if orient(a, b, p) != 0 || orient(a, b, q) != 0 {
      let mut t = at.tour.clone();
      t[i + 1..=j].reverse();
      c.outcome(if got.contains(&shape(&t)) { "modelled step taken" } else { "modelled step not taken" });
    }
  }
  Ok(out)
}
/// Every first choice from one tour, each then run to its end with three tails.
fn steps<T: Sc>(c: &mut Ctx, v: &[P]) -> R {
  let tp = pts::<T>(v);
  let id: Tour = (0..v.len()).collect();
  let fail = |e: String| format!("{} {:?}: {}", T::NAME, v, e);
  c.state();
  match run(&tp, &[], Tail::Stop).map_err(fail)? {
    End::Done(t) => {
      c.op(1);
      c.trace();
      final_ok(v, &t).map_err(fail)?;
      c.outcome("simple already");
    }
    End::Stopped(_) => {
      let s = successors(c, v, &tp, &Node { script: vec![], tour: id }).map_err(fail)?;
      for (k, (node, done)) in s.into_iter().enumerate() {
        if done {
          c.trace();
          continue;
        }
        match run(&tp, &node.script, [Tail::First, Tail::Last, Tail::Mixed(k as u64)][k % 3]).map_err(fail)? {
          End::Done(t) => final_ok(v, &t).map_err(fail)?,
          End::Stopped(_) => unreachable!(),
        }
        c.op(1);
        c.trace();
      }
    }
  }
  Ok(())
}
/// Every path of tours from one start (up to `cap` nodes).
fn paths<T: Sc>(c: &mut Ctx, v: &[P], cap: usize) -> R {
  let tp = pts::<T>(v);
  let fail = |e: String| format!("{} {:?}: {}", T::NAME, v, e);
  if let End::Done(t) = run(&tp, &[], Tail::Stop).map_err(fail)? {
    c.trace();
    c.op(1);
    c.state();
    return final_ok(v, &t).map_err(fail);
  }
  let mut todo = vec![Node { script: vec![], tour: (0..v.len()).collect() }];
  let mut n = 0;
  while let Some(at) = todo.pop() {
    n += 1;
    if n > cap {
      c.outcome("path bound reached");
      return Ok(());
    }
    c.state();
    for (node, done) in successors(c, v, &tp, &at).map_err(|e| format!("{} after words {:?}", fail(e), at.script))? {
      if done {
        c.trace();
      } else {
        todo.push(node);
      }
    }
  }
  c.outcome("every path explored");
  Ok(())
}
fn fixed<T: Sc>(c: &mut Ctx, v: &[P], tp: Vec<Point<T>>, tails: &[Tail]) -> R {
  for &tail in tails {
    let n = v.len();
    let mut d = Driver { script: &[], pos: 0, tail, limit: 64 * n * n + 4000 };
    let r = guarded(|| match catch_unwind(AssertUnwindSafe(|| two_opt_moves(tp.clone(), &mut d))) {
      Ok(r) => Some(r),
      Err(e) if e.is::<TooMany>() => None,
      Err(e) => resume_unwind(e),
    });
    c.op(1);
    c.trace();
    let dups = v.iter().collect::<BTreeSet<_>>().len() != n;
    let bad = n < 3 || dups || all_colinear(v);
    match r {
      Err(e) => return Err(format!("{} uncrossing {:?} ({:?}): {}", T::NAME, v, tail, e)),
      Ok(None) => return Err(format!("{} uncrossing {:?} ({:?}) does not terminate", T::NAME, v, tail)),
      Ok(Some(Err(e))) => {
        ensure!(bad, "{} uncrossing {:?} ({:?}) fails: {:?}", T::NAME, v, tail, e);
        c.outcome("error");
      }
      Ok(Some(Ok(p))) => {
        ensure!(!bad, "{} uncrossing {:?} succeeds with {:?}", T::NAME, v, boundary(&p));
        let t: Tour = boundary(&p).iter().map(|q| tp.iter().position(|x| x == q).unwrap_or(usize::MAX)).collect();
        final_ok(v, &t).map_err(|e| format!("{} {:?} ({:?}): {}", T::NAME, v, tail, e))?;
        ensure!(p.validate().is_ok(), "{} uncrossing {:?} gives an invalid polygon", T::NAME, v);
        c.outcome("polygon");
      }
    }
  }
  c.state();
  Ok(())
}
const TAILS: [Tail; 3] = [Tail::First, Tail::Last, Tail::Mixed(5)];
/// Every list with repetitions.
fn lists<T: Sc>(k: &mut Check, label: &str, a: &[P], tp: &[Point<T>], len: usize) {
  let n = a.len() as u64;
  k.space(
    &format!("{}/{} lists of {}", T::NAME, label, len),
    &format!("every list of {} out of {} points with repetitions, three fixed random sources", len, n),
    n.pow(len as u32),
    |i| format!("{} {:?}", T::NAME, digits_vec(i, n, len).iter().map(|&d| a[d]).collect::<Vec<_>>()),
    |i, c| {
      let d = digits_vec(i, n, len);
      fixed::<T>(c, &d.iter().map(|&d| a[d]).collect::<Vec<_>>(), d.iter().map(|&d| tp[d].clone()).collect(), &TAILS)
    },
  );
}
fn space_steps<T: Sc>(k: &mut Check, label: &str, a: &[P], m: usize) {
  k.space(
    &format!("{}/{} steps on {} points", T::NAME, label, m),
    &format!("every tour on every {} of {} points, every choice of the first crossing, then a complete run", m, a.len()),
    arrangements(a.len(), m),
    |i| format!("{} {:?}", T::NAME, arrangement(i, a, m)),
    |i, c| {
      let v = arrangement(i, a, m);
      if all_colinear(&v) {
        return Ok(());
      }
      steps::<T>(c, &v)
    },
  );
}
fn space_paths<T: Sc>(k: &mut Check, label: &str, a: &[P], m: usize, cap: usize) {
  k.space(
    &format!("{}/{} paths on {} points", T::NAME, label, m),
    &format!("every tour on every {} of {} points, every sequence of crossings to resolve (distinct tour sequences, at most {} nodes each)", m, a.len(), cap),
    arrangements(a.len(), m),
    |i| format!("{} {:?}", T::NAME, arrangement(i, a, m)),
    |i, c| {
      let v = arrangement(i, a, m);
      if all_colinear(&v) {
        return Ok(());
      }
      paths::<T>(c, &v, cap)
    },
  );
}
fn embed<T: Sc>(k: &mut Check, len: usize) {
  let (lo, hi) = T::lim();
  for t in tables(lo, hi, 3) {
    let a: Vec<P> = t.iter().flat_map(|&x| t.iter().map(move |&y| [x, y])).collect();
    lists::<T>(k, &format!("coordinates {:?}", t), &a, &pts::<T>(&a), len);
  }
}

fn main() {
  let mut k = Check::new("C18");
  let g = grid(3, 3);
  for len in 0..=k.pick(5, 6) {
    lists::<i64>(&mut k, "3x3 grid", &g, &pts::<i64>(&g), len);
  }
  for m in 3..=k.pick(6, 7) {
    space_steps::<i64>(&mut k, "3x3 grid", &g, m);
  }
  for m in 3..=k.pick(5, 6) {
    space_paths::<i64>(&mut k, "3x3 grid", &g, m, 100_000);
  }
  let m = k.pick(5, 6);
  space_steps::<i32>(&mut k, "4x3 grid", &grid(4, 3), m);
  let m = k.pick(4, 5);
  space_paths::<i32>(&mut k, "4x4 grid", &grid(4, 4), m, 100_000);
  // Points on a line plus one or two off it: every step is a parallel overlap.
  let line: Vec<P> = (0..k.pick(6, 7)).map(|x| [x, 0]).chain([[0, 1]]).collect();
  let m = line.len();
  space_steps::<i8>(&mut k, "line and a point", &line, m);
  space_paths::<i8>(&mut k, "line and a point", &line, m - 1, 20_000);
  let cross: Vec<P> = vec![[0, 2], [1, 2], [2, 2], [3, 2], [2, 0], [2, 1], [2, 3]];
  let m = k.pick(6, 7);
  space_steps::<i16>(&mut k, "cross", &cross, m);
  let n = k.pick(4, 5);
  each_type!(T in [i8, i16, i32, i64, isize] { embed::<T>(&mut k, n); });
  let n = k.pick(3, 4);
  each_type!(T in [BigInt, f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] { embed::<T>(&mut k, n); });
  embed::<BigRational>(&mut k, 3);
  fn floats<T: FSc>(k: &mut Check) {
    let (e, tp) = near_points::<T>();
    let n = k.pick(4, 5);
    lists::<T>(k, "nearly colinear", &e, &tp, n);
  }
  each_type!(T in [f64, f32, OrderedFloat<f64>, NotNan<f32>] { floats::<T>(&mut k); });
  let fam: Vec<_> = families(k.pick(30, 60)).into_iter().map(|(n, v)| (n, v)).collect();
  let strides: u64 = k.pick(3, 8);
  k.space(
    "i64/large",
    "vertices of structured polygons visited with several strides, three fixed random sources",
    fam.len() as u64 * strides,
    |i| format!("{} stride {}", fam[(i / strides) as usize].0, i % strides),
    |i, c| {
      let v = &fam[(i / strides) as usize].1;
      let n = v.len();
      let gcd = |mut a: usize, mut b: usize| {
        while b > 0 {
          (a, b) = (b, a % b);
        }
        a
      };
      let s = (2..n).filter(|s| gcd(*s, n) == 1).nth((i % strides) as usize * 2).unwrap_or(n - 1);
      let w: Vec<P> = (0..n).map(|j| v[j * s % n]).collect();
      let t = [Tail::First, Tail::Last, Tail::Mixed(i)];
      fixed::<i64>(c, &w, pts::<i64>(&w), &t)
    },
  );
  let sizes: Vec<usize> = k.pick(vec![150, 270], vec![150, 270, 400, 600]);
  k.space("i64/hundreds of points", "scattered points on a coarse or fine lattice, fixed random sources", sizes.len() as u64 * 6, |i| format!("{} points, variant {}", sizes[(i / 6) as usize], i % 6), |i, c| {
    let n = sizes[(i / 6) as usize];
    let side = [((n as f64).sqrt() as i128) + 2, 200, 100_000][(i % 3) as usize];
    let mut seen = BTreeSet::new();
    let mut v: Vec<P> = vec![];
    let mut j = i << 32;
    while v.len() < n {
      j += 1;
      let r = mixed(j);
      let p = [(r >> 32) as i128 % side, (r & 0xffff_ffff) as i128 % side];
      if seen.insert(p) {
        v.push(p);
      }
    }
    let t = [if i % 6 < 3 { Tail::First } else { Tail::Mixed(i) }];
    fixed::<i64>(c, &v, pts::<i64>(&v), &t).map_err(|e| e.chars().take(300).collect::<String>())
  });
  // Many points on a few lines: nearly every step merges overlapping edges.
  let sizes: Vec<usize> = k.pick(vec![30, 45, 90, 140], vec![30, 45, 90, 140, 270, 400]);
  k.space("i64/many points on few lines", "n points on one to three lines and a few off them, in scattered order, fixed random sources", sizes.len() as u64 * 16, |i| format!("{} points, variant {}", sizes[(i / 16) as usize], i % 16), |i, c| {
    let n = sizes[(i / 16) as usize];
    let lines: &[(i128, i128)] = [&[(1, 0)][..], &[(0, 1)], &[(2, 1), (1, 2)], &[(1, 0), (0, 1), (1, 1)]][(i % 4) as usize];
    let mut v: Vec<P> = (0..n - 1)
      .map(|j| {
        let (l, t) = (j % lines.len(), (j / lines.len() + 1) as i128);
        [lines[l].0 * t, lines[l].1 * t]
      })
      .collect();
    v.push([n as i128 / 3, -1 - (i % 3) as i128]);
    if i % 8 < 4 {
      v.push([n as i128 / 4, n as i128 / 2 + 5]);
    }
    let mut w = v;
    w.sort();
    w.dedup();
    let m = w.len();
    let mut key: Vec<(u64, P)> = w.iter().enumerate().map(|(j, p)| (mixed(i << 33 | j as u64) % if i % 16 < 8 { u64::MAX } else { m as u64 / 2 }, *p)).collect();
    key.sort();
    let w: Vec<P> = key.into_iter().map(|x| x.1).collect();
    if all_colinear(&w) {
      return Ok(());
    }
    let t = [Tail::First, Tail::Last, Tail::Mixed(i)];
    fixed::<i64>(c, &w, pts::<i64>(&w), &t).map_err(|e| e.chars().take(300).collect::<String>())
  });
  k.assume("float coordinates are finite, without negative zero, and coordinate products neither overflow nor underflow");
  k.finish()
}
