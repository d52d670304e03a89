//! C09: cursors and iterators agree with the vertex cycle under any navigation.
use harness::oracle::*;
use harness::polyenum::*;
use harness::polys::*;
use harness::scalars::*;
use harness::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use rgeometry::algorithms::polygonization::two_opt_moves;
use rgeometry::data::{Cursor, DirectedIndexEdge, IndexEdge, Point, PointId, Polygon};
use std::collections::HashMap;
use std::ops::Bound;

/// The reference: a cyclic list of (identifier, point).
struct Ring<T> {
  id: Vec<PointId>,
  pt: Vec<Point<T>>,
}
impl<T: Sc> Ring<T> {
  /// Built from the vertex cycle `v` and the polygon's own storage (not from its cursors).
  fn new(p: &Polygon<T>, v: &[P]) -> Result<Ring<T>, String> {
    let id: Vec<PointId> = p.boundary_slice().to_vec();
    ensure!(id.len() == v.len(), "boundary slice of {:?} has {} entries", v, id.len());
    let mut u: Vec<usize> = id.iter().map(|&i| usize::from(i)).collect();
    u.sort();
    ensure!(u == (0..v.len()).collect::<Vec<_>>(), "boundary slice of {:?} is not a permutation: {:?}", v, id);
    let store: Vec<Point<T>> = p.iter().cloned().collect();
    let pt: Vec<Point<T>> = id.iter().map(|i| store[i.usize()].clone()).collect();
    ensure!(is_rotation(&pts::<T>(v), &pt), "stored ring {:?} is not the cycle {:?}", pt, v);
    Ok(Ring { id, pt })
  }
  fn is<'a>(&self, c: Cursor<'a, T>, i: usize) -> R {
    ensure!(
      c.point_id() == self.id[i] && *c.point() == self.pt[i] && *c == self.pt[i],
      "cursor should be at ring position {} ({:?}), is at vertex {:?} {:?}", i, self.pt[i], c.point_id(), c.point()
    );
    Ok(())
  }
}

/// Cursor state graph: every vertex, every single move, and walks around the ring.
fn cursors<T: Sc>(c: &mut Ctx, p: &Polygon<T>, r: &Ring<T>, v: &[P]) -> R {
  let n = r.id.len();
  for i in 0..n {
    let cur = p.cursor(r.id[i]);
    r.is(cur, i)?;
    ensure!(*p.point(r.id[i]) == r.pt[i], "point look-up of {:?}", r.id[i]);
    let (nx, pv) = ((i + 1) % n, (i + n - 1) % n);
    r.is(cur.next(), nx)?;
    r.is(cur.prev(), pv)?;
    r.is(cur.next().prev(), i)?;
    r.is(cur.prev().next(), i)?;
    let mut m = cur;
    m.move_next();
    r.is(m, nx)?;
    ensure!(m == p.cursor(r.id[nx]), "cursors at the same vertex differ");
    ensure!(n < 2 || m != cur, "cursors at different vertices are equal");
    m.move_prev();
    m.move_prev();
    r.is(m, pv)?;
    c.op(10);
    // corner predicates
    let e: Vec<P> = v.to_vec();
    let off = (0..n).find(|&k| pt::<T>(e[k]) == r.pt[i]).unwrap();
    let o = orient(e[(off + n - 1) % n], e[off], e[(off + 1) % n]);
    same!(format!("turn at {:?} of {:?}", e[off], v), o, sgn(cur.orientation()));
    same!(format!("straight corner at {:?} of {:?}", e[off], v), o == 0, cur.is_colinear());
    let ear = is_ear(&e, off);
    same!(format!("ear at {:?} of {:?}", e[off], v), ear, cur.is_ear());
    c.outcome(if ear { "ear" } else { "no ear" });
    // directing edges
    let (a, b) = (r.id[i], r.id[nx]);
    for ie in [IndexEdge::new(a, b), IndexEdge::new(b, a), IndexEdge::from(DirectedIndexEdge { src: b, dst: a })] {
      same!(format!("edge {:?} of {:?}", ie, v), DirectedIndexEdge { src: a, dst: b }, p.direct(ie));
      ensure!(ie.min <= ie.max && (ie.min == a || ie.max == a) && (ie.min == b || ie.max == b), "edge {:?} should join {:?} and {:?}", ie, a, b);
      c.op(1);
    }
    c.op(3);
    c.state();
  }
  c.trace();
  Ok(())
}

/// Every consuming or skipping iterator operation, from one iterator state.
fn adapters<T: Sc>(c: &mut Ctx, it: &rgeometry::data::polygon::CursorIter<'_, T>, want: &[usize], r: &Ring<T>, all: bool) -> R {
  let n = want.len();
  let id = |k: usize| want.get(k).map(|&i| r.id[i]);
  let ids = |v: Vec<rgeometry::data::Cursor<'_, T>>| v.into_iter().map(|x| x.point_id()).collect::<Vec<_>>();
  let rest = |k: usize| want[k.min(n)..].iter().map(|&i| r.id[i]).collect::<Vec<_>>();
  let upto = |k: usize| want[..k].iter().map(|&i| r.id[i]).collect::<Vec<_>>();
  same!("count of remaining items", n, it.clone().count());
  same!("last remaining item", id(n.wrapping_sub(1)), it.clone().last().map(|x| x.point_id()));
  same!("folded items", rest(0), it.clone().fold(vec![], |mut v, x| { v.push(x.point_id()); v }));
  let mut v = it.clone().rfold(vec![], |mut v, x| { v.push(x.point_id()); v });
  v.reverse();
  same!("items folded from the back", rest(0), v);
  c.op(4);
  let ks: Vec<usize> = if all { (0..=n + 1).collect() } else { vec![0, 1, n / 2, n.max(1) - 1, n, n + 1] };
  for k in ks {
    let mut j = it.clone();
    same!(format!("item {} of {} remaining", k, n), id(k), j.nth(k).map(|x| x.point_id()));
    same!(format!("items announced after skipping {} of {}", k, n), n.saturating_sub(k + 1), j.len());
    same!(format!("items after skipping {} of {}", k, n), rest(k + 1), ids(j.collect()));
    let mut j = it.clone();
    same!(format!("item {} of {} from the back", k, n), if k < n { id(n - 1 - k) } else { None }, j.nth_back(k).map(|x| x.point_id()));
    same!(format!("items after skipping {} of {} from the back", k, n), upto(n.saturating_sub(k + 1)), ids(j.collect()));
    same!(format!("skip {}", k), rest(k), ids(it.clone().skip(k).collect()));
    same!(format!("take {}", k), upto(k.min(n)), ids(it.clone().take(k).collect()));
    same!(format!("every {}th", k + 1), want.iter().step_by(k + 1).map(|&i| r.id[i]).collect::<Vec<_>>(), ids(it.clone().step_by(k + 1).collect()));
    c.op(7);
  }
  Ok(())
}
/// The same for the iterators that only go forward.
fn forward<X: PartialEq + std::fmt::Debug, I: Iterator>(c: &mut Ctx, what: &str, want: &[X], mk: impl Fn() -> I, view: impl Fn(I::Item) -> X) -> R {
  let n = want.len();
  for f in [0, 1, n / 2, n - 1, n, n + 1] {
    let mk = || {
      let mut i = mk();
      for _ in 0..f {
        i.next();
      }
      i
    };
    let want = &want[f.min(n)..];
    let n = want.len();
    let (lo, hi) = mk().size_hint();
    ensure!(lo <= n && hi.map_or(true, |h| h >= n), "{}: announces {:?} items but {} remain", what, (lo, hi), n);
    same!(format!("count of {}", what), n, mk().count());
    ensure!(mk().last().map(&view).as_ref() == want.last(), "last of {}", what);
    let mut k = 0;
    ensure!(mk().all(|x| { k += 1; want.get(k - 1) == Some(&view(x)) }) && k == n, "{}: item {} of {}", what, k, n);
    for k in [0, 1, n / 2, n.max(1) - 1, n, n + 1] {
      let mut j = mk();
      ensure!(j.nth(k).map(&view).as_ref() == want.get(k), "item {} of {} {}", k, n, what);
      ensure!(j.next().map(&view).as_ref() == want.get(k + 1), "item {} of {} {}", k + 1, n, what);
      ensure!(j.count() == n.saturating_sub(k + 2), "count of {} after item {}", what, k);
      c.op(3);
    }
  }
  Ok(())
}

/// Any mix of taking from the front and from the back, from every reachable iterator state.
fn iterate<'a, T: Sc>(c: &mut Ctx, it: &rgeometry::data::polygon::CursorIter<'a, T>, want: &[usize], r: &Ring<T>, all_orders: bool) -> R {
  c.state();
  let (lo, hi) = it.size_hint();
  ensure!(it.len() == want.len() && lo == want.len() && hi == Some(want.len()), "iterator announces {} ({:?}) items but {} remain", it.len(), (lo, hi), want.len());
  c.op(1);
  let step = |c: &mut Ctx, back: bool| -> Result<rgeometry::data::polygon::CursorIter<'a, T>, String> {
    let mut j = it.clone();
    let got = if back { j.next_back() } else { j.next() };
    c.op(1);
    match (got, if back { want.last() } else { want.first() }) {
      (None, None) => {}
      (Some(x), Some(&w)) => r.is(x, w)?,
      (g, w) => return Err(format!("{} expected ring position {:?}, got vertex {:?}", if back { "from the back:" } else { "from the front:" }, w, g.map(|x| x.point_id()))),
    }
    Ok(j)
  };
  adapters(c, it, want, r, all_orders)?;
  if want.is_empty() {
    // stays exhausted
    let mut j = step(c, false)?;
    ensure!(j.next_back().is_none() && j.next().is_none(), "exhausted iterator delivers items");
    let mut j = step(c, true)?;
    ensure!(j.next().is_none() && j.next_back().is_none(), "exhausted iterator delivers items");
    c.trace();
    return Ok(());
  }
  let f = step(c, false)?;
  let b = step(c, true)?;
  iterate(c, &f, &want[1..], r, all_orders)?;
  if all_orders || want.len() <= 2 {
    iterate(c, &b, &want[..want.len() - 1], r, all_orders)?;
  } else {
    // two-sided: peel one from the back, then forward only below (linear number of states)
    let mut j = it.clone();
    let mut k = want.len();
    while let Some(x) = j.next_back() {
      ensure!(k > 0, "more items than announced from the back");
      k -= 1;
      r.is(x, want[k])?;
    }
    ensure!(k == 0, "{} items missing from the back", k);
    c.op(want.len() as u64);
  }
  Ok(())
}

fn iterators<T: Sc>(c: &mut Ctx, p: &Polygon<T>, r: &Ring<T>, all_orders: bool, starts: &[usize], ends: &[usize]) -> R {
  let n = r.id.len();
  for &s in starts {
    let cs = p.cursor(r.id[s]);
    let full: Vec<usize> = (0..n).map(|k| (s + k) % n).collect();
    iterate(c, &cs.to(Bound::Unbounded), &full, r, all_orders)?;
    for &e in ends {
      let ce = p.cursor(r.id[e]);
      let len = (e + n - s) % n;
      let ex: Vec<usize> = full[..len].to_vec();
      let inc: Vec<usize> = full[..=len].to_vec();
      iterate(c, &cs.to(Bound::Excluded(ce)), &ex, r, all_orders)?;
      iterate(c, &cs.to(Bound::Included(ce)), &inc, r, all_orders)?;
      // adaptors built on the same iterator
      let v: Vec<PointId> = cs.to(Bound::Included(ce)).map(|x| x.point_id()).collect();
      let mut w: Vec<PointId> = cs.to(Bound::Included(ce)).rev().map(|x| x.point_id()).collect();
      w.reverse();
      let want: Vec<PointId> = inc.iter().map(|&i| r.id[i]).collect();
      same!("collected range", want, v);
      same!("collected reversed range", want, w);
      c.op(2);
      // equality of ranges
      ensure!(cs.to(Bound::Included(ce)) == cs.to(Bound::Included(ce)), "range differs from itself");
    }
  }
  iterate(c, &p.iter_boundary(), &(0..n).collect::<Vec<_>>(), r, all_orders)?;
  // edges
  let mut i = 0;
  for e in p.iter_boundary_edges() {
    ensure!(i < n, "too many boundary edges");
    ensure!(*e.src == r.pt[i] && *e.dst == r.pt[(i + 1) % n], "edge {} should be {:?}->{:?}, is {:?}->{:?}", i, r.pt[i], r.pt[(i + 1) % n], e.src, e.dst);
    i += 1;
  }
  ensure!(i == n, "{} boundary edges instead of {}", i, n);
  c.op(n as u64);
  let want: Vec<_> = (0..n).map(|i| (r.pt[i].clone(), r.pt[(i + 1) % n].clone())).collect();
  forward(c, "boundary edges", &want, || p.iter_boundary_edges(), |e| (e.src.clone(), e.dst.clone()))?;
  let want: Vec<Point<T>> = p.iter().cloned().collect();
  ensure!(want.len() == n && r.pt.iter().all(|x| want.contains(x)), "points {:?} instead of {:?}", want, r.pt);
  forward(c, "points", &want, || p.iter(), |x| x.clone())?;
  // mutable access reaches the same points in the same order
  let mut q = p.clone();
  same!("points by mutable access", want, q.iter_mut().map(|x| x.clone()).collect::<Vec<_>>());
  for (i, x) in q.iter_mut().enumerate() {
    *x = want[n - 1 - i].clone();
  }
  for i in 0..n {
    let at = want.iter().position(|x| *x == r.pt[i]).unwrap();
    ensure!(*q.point(r.id[i]) == want[n - 1 - at], "point {:?} after assigning through the mutable iterator", r.id[i]);
  }
  same!("ring after assigning points", r.id, q.boundary_slice().to_vec());
  c.op(2);
  // ranges compare by their points
  for &s in starts {
    for &e in ends {
      let a = p.cursor(r.id[s]).to(Bound::Included(p.cursor(r.id[e])));
      for &s2 in starts {
        let b = p.cursor(r.id[s2]).to(Bound::Included(p.cursor(r.id[e])));
        ensure!((a == b) == (s == s2), "ranges {}..={} and {}..={} compare {}", s, e, s2, e, a == b);
        let b = p.cursor(r.id[s]).to(Bound::Excluded(p.cursor(r.id[s2])));
        ensure!((a == b) == ((e + 1) % n == s2 && s != s2), "ranges {}..={} and {}..{} compare {}", s, e, s, s2, a == b);
      }
      c.op(2);
    }
  }
  Ok(())
}

fn everything<T: Sc>(c: &mut Ctx, v: &[P], p: &Polygon<T>, all_orders: bool) -> R {
  let r = Ring::new(p, v)?;
  cursors(c, p, &r, v)?;
  let n = v.len();
  if n <= 24 {
    let all: Vec<usize> = (0..n).collect();
    iterators(c, p, &r, all_orders, &all, &all)
  } else {
    let some = [0, 1, n / 2, n - 2, n - 1];
    iterators(c, p, &r, false, &some, &some)
  }
}

fn main() {
  let mut k = Check::new("C09");
  let ps = simple_polygons(&grid(3, 3), 3, 9);
  fn small<T: Sc>(k: &mut Check, ps: &Polys) {
    k.space(
      &format!("{}/3x3 polygons", T::NAME),
      "every simple polygon over the 3x3 grid, every start, both storage orders: cursor graph, every range, every front/back order",
      ps.len(),
      |i| format!("{} {:?}", T::NAME, ps.get(i)),
      |i, c| {
        let v = ps.get(i);
        for s in 0..v.len() {
          for rev in [false, true] {
            everything(c, &v, &poly_var::<T>(&v, s, rev)?, v.len() <= 6)?;
          }
        }
        Ok(())
      },
    );
  }
  small::<i8>(&mut k, &ps);
  small::<i64>(&mut k, &ps);
  if k.thorough() {
    each_type!(T in [i16, i32, isize, BigInt, BigRational, f64, f32] { small::<T>(&mut k, &ps); });
  }
  let big = simple_polygons(&grid(4, 4), 3, k.pick(6, 8));
  fn ears<T: Sc>(k: &mut Check, big: &Polys, label: &str) {
    k.space(&format!("{}/{} cursor graph", T::NAME, label), "every simple polygon: cursor moves, corners, ears, edges", big.len(), |i| format!("{} {:?}", T::NAME, big.get(i)), |i, c| {
      let v = big.get(i);
      let p = poly_var::<T>(&v, (i % v.len() as u64) as usize, i % 2 == 1)?;
      let r = Ring::new(&p, &v)?;
      cursors(c, &p, &r, &v)
    });
  }
  ears::<i32>(&mut k, &big, "4x4 polygons");
  let five = simple_polygons(&grid(5, 5), 3, k.pick(4, 5));
  ears::<i8>(&mut k, &five, "5x5 polygons");
  let ps4 = simple_polygons(&grid(3, 3), 3, 9);
  each_type!(T in [f64, BigInt, BigRational, i16, isize] { ears::<T>(&mut k, &ps4, "3x3 polygons"); });

  // Corners at the extremes
  fn ext<T: Sc>(k: &mut Check) {
    let (lo, hi) = T::lim();
    for t in tables(lo, hi, 3) {
      let a: Vec<P> = t.iter().flat_map(|&x| t.iter().map(move |&y| [x, y]).collect::<Vec<_>>()).collect();
      let ps = simple_polygons(&a, 3, 9);
      ears_v::<T>(k, &ps, &format!("coordinates {:?}", t));
    }
  }
  fn ears_v<T: Sc>(k: &mut Check, ps: &Polys, label: &str) {
    k.space(&format!("{}/{}", T::NAME, label), "every simple polygon over the table (3..9 vertices): cursor moves, corners, ears, edges", ps.len(), |i| format!("{} {:?}", T::NAME, ps.get(i)), |i, c| {
      let v = &ps.get(i);
      let p = poly_var::<T>(v, (i % v.len() as u64) as usize, i % 2 == 1)?;
      let r = Ring::new(&p, v)?;
      cursors(c, &p, &r, v)
    });
  }
  each_type!(T in [i8, i16, i32, i64, isize, BigInt, f64, f32] { ext::<T>(&mut k); });

  let fam = families(300);
  k.space("i64/large polygons", "structured polygons up to 294 vertices, three starts, both storage orders", fam.len() as u64 * 6, |i| format!("{} variant {}", fam[(i / 6) as usize].0, i % 6), |i, c| {
    let v = &fam[(i / 6) as usize].1;
    let s = [0, v.len() / 2, v.len() - 1][(i % 3) as usize];
    everything(c, v, &poly_var::<i64>(v, s, i % 6 >= 3)?, false)
  });

  // Polygons whose storage order is an arbitrary permutation of the ring (built by uncrossing).
  let lists = k.pick(5u32, 6);
  let g = grid(3, 3);
  k.space("i32/uncrossed", &format!("polygons uncrossed from every list of {} distinct 3x3 points", lists), 9u64.pow(lists), |i| format!("{:?}", digits_vec(i, 9, lists as usize)), |i, c| {
    let d = digits_vec(i, 9, lists as usize);
    if (0..d.len()).any(|a| (0..a).any(|b| d[a] == d[b])) {
      return Ok(());
    }
    let v: Vec<P> = d.iter().map(|&x| g[x]).collect();
    if all_colinear(&v) {
      return Ok(());
    }
    let mut rng = harness::rngs::ChoiceRng::new(vec![], 2, 1000);
    let p = two_opt_moves(pts::<i32>(&v), &mut rng).map_err(|e| format!("uncrossing {:?} failed: {:?}", v, e))?;
    // identifiers index the input list
    let ring: Vec<P> = p.boundary_slice().iter().map(|i| v[i.usize()]).collect();
    everything(c, &ring, &p, false)
  });

  // Equality of polygons
  let eqn = simple_polygons(&grid(3, 3), 3, k.pick(6, 9));
  let polys: Vec<Polygon<i32>> = (0..eqn.len()).map(|i| poly_var::<i32>(&eqn.get(i), (i % 3) as usize, i % 2 == 0).unwrap()).collect();
  k.space("i32/equality", "all ordered pairs of 3x3 polygons, plus every rotation and storage order of each", eqn.len(), |i| format!("{:?} with all", eqn.get(i)), |i, c| {
    let v = eqn.get(i);
    for j in 0..eqn.len() {
      let want = i == j; // enumerated cycles are pairwise different
      ensure!(polys[i as usize].equals(&polys[j as usize]) == want, "{:?} equals {:?}: expected {}", v, eqn.get(j), want);
      c.op(1);
      c.state();
    }
    for s in 0..v.len() {
      for rev in [false, true] {
        let q = poly_var::<i32>(&v, s, rev)?;
        ensure!(polys[i as usize].equals(&q) && q.equals(&polys[i as usize]), "{:?} should equal its rotation by {}", v, s);
        c.op(2);
        c.outcome("rotation");
      }
    }
    c.trace();
    Ok(())
  });
  let fam2 = families(100);
  let big = huge();
  k.space("i64/more than 65536 vertices", "structured polygons: cursor moves, whole-boundary and partial ranges from both ends, edges", big.len() as u64 * 2, |i| format!("{} turned round: {}", big[(i / 2) as usize].0, i % 2 == 1), |i, c| {
    let v = &big[(i / 2) as usize].1;
    let n = v.len();
    let turned = i % 2 == 1;
    let mut given = pts::<i64>(v);
    if turned {
      given.reverse();
    }
    let mut p = Polygon::new_unchecked(given);
    ensure!(p.ensure_ccw().is_ok(), "cannot be oriented");
    let b = boundary(&p);
    ensure!(is_rotation(&pts::<i64>(v), &b), "orienting changed the vertex cycle");
    let r = Ring { id: p.boundary_slice().to_vec(), pt: b };
    if !turned {
      ensure!(r.id.iter().enumerate().all(|(j, x)| usize::from(*x) == j), "vertices are not numbered in order");
    }
    for j in 0..n {
      ensure!(*p.point(r.id[j]) == r.pt[j] && r.id[j].usize() < n, "vertex {} is stored as another point", j);
    }
    for j in 0..n {
      let cur = p.cursor(r.id[j]);
      r.is(cur, j)?;
      r.is(cur.next(), (j + 1) % n)?;
      r.is(cur.prev(), (j + n - 1) % n)?;
      let (a, b) = (r.id[j], r.id[(j + 1) % n]);
      same!("directed edge", DirectedIndexEdge { src: a, dst: b }, p.direct(IndexEdge::new(b, a)));
      c.op(4);
    }
    for (s, e) in [(0, n - 1), (1, 65_536), (65_535, 65_537), (65_537, 65_535), (40_000, 39_999), (n - 1, 0)] {
      let len = (e + n - s) % n + 1;
      let mut it = p.cursor(r.id[s]).to(Bound::Included(p.cursor(r.id[e])));
      let (mut f, mut b) = (0, 0);
      while f + b < len {
        ensure!(it.len() == len - f - b, "range {}..={} announces {} of {} items", s, e, it.len(), len - f - b);
        if (f + b) % 3 < 2 {
          r.is(it.next().ok_or("range ends early")?, (s + f) % n)?;
          f += 1;
        } else {
          r.is(it.next_back().ok_or("range ends early")?, (e + n - b) % n)?;
          b += 1;
        }
        c.op(1);
      }
      ensure!(it.next().is_none() && it.next_back().is_none(), "range {}..={} does not end", s, e);
    }
    let mut j = 0;
    for x in p.iter_boundary_edges() {
      ensure!(*x.src == r.pt[j] && *x.dst == r.pt[(j + 1) % n], "boundary edge {}", j);
      j += 1;
    }
    ensure!(j == n && p.iter_boundary().len() == n && p.iter_boundary().count() == n, "boundary has {} edges", j);
    c.states(n as u64);
    c.trace();
    Ok(())
  });
  // Cycles that visit a point more than once (weakly simple polygons are built unchecked).
  let (sym, len) = k.pick((3u64, 6usize), (3, 8));
  let corner: Vec<Point<i32>> = pts(&[[0, 0], [2, 1], [1, 3], [5, 5]]);
  for l in 3..=len {
    let n = sym.pow(l as u32);
    let at = |i: u64| digits_vec(i, sym, l);
    let mk = |d: &[usize]| Polygon::new_unchecked(d.iter().map(|&x| corner[x].clone()).collect::<Vec<_>>());
    k.space(&format!("i32/equality with repeated points, length {}", l), &format!("every cyclic list of {} out of {} points against every other{}", l, sym, if l > 6 { " (every 7th)" } else { "" }), n, |i| format!("{:?}", at(i)), |i, c| {
      let a = at(i);
      let p = mk(&a);
      for j in (0..n).step_by(if l > 6 { 7 } else { 1 }) {
        let b = at(j);
        let want = is_rotation(&a, &b);
        let got = p.equals(&mk(&b));
        ensure!(got == want, "{:?} equals {:?}: expected {}", a, b, want);
        c.op(1);
        c.outcome(if want { "rotation" } else { "different" });
      }
      c.state();
      c.trace();
      Ok(())
    });
  }
  k.space("i64/equality of large polygons", "every rotation equals the original; one moved vertex does not", fam2.len() as u64, |i| fam2[i as usize].0.clone(), |i, c| {
    let v = &fam2[i as usize].1;
    let p = poly::<i64>(v)?;
    let mut seen: HashMap<P, ()> = HashMap::new();
    for s in 0..v.len() {
      let mut w = rotated(v, s);
      let q = Polygon::new_unchecked(pts::<i64>(&w));
      ensure!(p.equals(&q) && q.equals(&p), "{} should equal its rotation by {}", fam2[i as usize].0, s);
      let at = (s * 7) % w.len();
      w[at] = [w[at][0], w[at][1] + 1000003];
      let q = Polygon::new_unchecked(pts::<i64>(&w));
      ensure!(!p.equals(&q) && !q.equals(&p), "{} should differ after moving vertex {}", fam2[i as usize].0, at);
      seen.insert(v[s], ());
      c.op(4);
      c.state();
    }
    c.trace();
    Ok(())
  });
  let mut long: Vec<(String, Vec<P>)> = [520, 1100, 2100, 4200, 10_100].iter().map(|&n| (format!("convex{}", n), convex_ngon(n))).collect();
  long.push(("comb260".into(), comb(260)));
  long.extend(huge());
  k.space("i64/equality of polygons with thousands of vertices", "rotations are equal; one vertex moved, at the ends, the middle, and around powers of two, makes a difference", long.len() as u64 * 4, |i| format!("{} rotation {}", long[(i / 4) as usize].0, i % 4), |i, c| {
    let v = &long[(i / 4) as usize].1;
    let n = v.len();
    let s = [0, 1, n / 2, n - 1][(i % 4) as usize];
    let p = Polygon::new_unchecked(pts::<i64>(v));
    let w = rotated(v, s);
    let q = Polygon::new_unchecked(pts::<i64>(&w));
    ensure!(p.equals(&q) && q.equals(&p), "should equal its rotation by {}", s);
    let mut at = vec![0, 1, 2, n / 3, n / 2, n - 3, n - 2, n - 1];
    at.extend((4..17).flat_map(|b| [(1 << b) - 1, 1 << b]));
    at.extend([99, 100, 499, 500, 999, 1000]);
    for a in at.into_iter().filter(|a| *a < n) {
      let mut w = w.clone();
      w[a] = [w[a][0], w[a][1] + 1000003];
      let q = Polygon::new_unchecked(pts::<i64>(&w));
      ensure!(!p.equals(&q) && !q.equals(&p), "should differ after moving vertex {}", a);
      c.op(2);
      c.state();
    }
    c.trace();
    Ok(())
  });
  k.assume("edges passed for directing are boundary edges; vertex identifiers come from the same polygon");
  k.finish()
}
