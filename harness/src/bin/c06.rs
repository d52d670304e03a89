//! C06: segment containment and intersection, open and closed ends.
use harness::oracle::*;
use harness::polyenum::grid;
use harness::scalars::*;
use harness::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::algorithms::segment_intersections;
use rgeometry::data::{DirectedEdge, DirectedEdge_, EndPoint, ILineSegment, LineSegment, LineSegmentView, Point};
use rgeometry::Intersects;

/// Exact segment: end points with "included" flags.
#[derive(Clone, Copy, Debug, PartialEq)]
struct S {
  a: P,
  ai: bool,
  b: P,
  bi: bool,
}
impl S {
  fn norm(self) -> S {
    if self.a <= self.b {
      self
    } else {
      S { a: self.b, ai: self.bi, b: self.a, bi: self.ai }
    }
  }
  fn has(self, p: P) -> bool {
    if self.a == self.b {
      return p == self.a && self.ai && self.bi;
    }
    on_seg(self.a, self.b, p) && (p != self.a || self.ai) && (p != self.b || self.bi)
  }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum I {
  None,
  Cross,
  Over(S),
}
fn isect(s: S, t: S) -> I {
  let (s, t) = (s.norm(), t.norm());
  let par = det_sign(s.b[0] - s.a[0], t.b[1] - t.a[1], s.b[1] - s.a[1], t.b[0] - t.a[0]) == 0;
  if !par {
    // unique common point of the closed segments, if any; an excluded end kills it
    let dead = |p: P, inc: bool, o: S| !inc && on_seg(o.a, o.b, p);
    if seg_touch(s.a, s.b, t.a, t.b) && !dead(s.a, s.ai, t) && !dead(s.b, s.bi, t) && !dead(t.a, t.ai, s) && !dead(t.b, t.bi, s) {
      return I::Cross;
    }
    return I::None;
  }
  // a point segment has no direction of its own
  let one_line = if s.a != s.b { orient(s.a, s.b, t.a) == 0 && orient(s.a, s.b, t.b) == 0 } else if t.a != t.b { orient(t.a, t.b, s.a) == 0 } else { s.a == t.a };
  if !one_line {
    return I::None;
  }
  let empty = |x: S| x.a > x.b || (x.a == x.b && !(x.ai && x.bi));
  let (lo, loi) = match s.a.cmp(&t.a) {
    std::cmp::Ordering::Less => (t.a, t.ai),
    std::cmp::Ordering::Greater => (s.a, s.ai),
    _ => (s.a, s.ai && t.ai),
  };
  let (hi, hii) = match s.b.cmp(&t.b) {
    std::cmp::Ordering::Less => (s.b, s.bi),
    std::cmp::Ordering::Greater => (t.b, t.bi),
    _ => (s.b, s.bi && t.bi),
  };
  let o = S { a: lo, ai: loi, b: hi, bi: hii };
  if empty(s) || empty(t) || empty(o) {
    I::None
  } else {
    I::Over(o)
  }
}

fn ep<T: rgeometry::TotalOrd>(p: T, inc: bool) -> EndPoint<T> {
  if inc {
    EndPoint::Inclusive(p)
  } else {
    EndPoint::Exclusive(p)
  }
}
fn same_end<T: Sc>(e: EndPoint<&Point<T>>, p: &Point<T>, inc: bool) -> bool {
  e.is_inclusive() == inc && e.is_exclusive() != inc && *e.inner() == p
}
fn check_res<T: Sc>(c: &mut Ctx, what: &str, want: I, got: Option<ILineSegment<'_, T>>, mk: &dyn Fn(P) -> Point<T>) -> R {
  c.op(1);
  let ok = match (&want, &got) {
    (I::None, None) => true,
    (I::Cross, Some(ILineSegment::Crossing)) => true,
    (I::Over(o), Some(ILineSegment::Overlap(v))) => same_end(v.min, &mk(o.a), o.ai) && same_end(v.max, &mk(o.b), o.bi),
    _ => false,
  };
  ensure!(ok, "{}: expected {:?}, got {:?}", what, want, got);
  c.outcome(match want {
    I::None => "apart",
    I::Cross => "crossing",
    I::Over(o) if o.a == o.b => "overlap in a point",
    I::Over(_) => "overlap",
  });
  Ok(())
}

fn seg(i: u64, pts: &[P]) -> S {
  let n = pts.len() as u64;
  S {
    a: pts[(i / 4 / n % n) as usize],
    b: pts[(i / 4 % n) as usize],
    ai: i & 1 == 0,
    bi: i & 2 == 0,
  }
}

/// All ordered pairs of segments over the alphabet. One index = first segment.
fn pairs<T: Sc>(k: &mut Check, label: &str, pts: &[P], mk: &(dyn Fn(P) -> Point<T> + Sync)) {
  let n = (pts.len() * pts.len() * 4) as u64;
  k.space(
    &format!("{}/{}", T::NAME, label),
    &format!("all ordered pairs of segments (points, either direction, each end open or closed) over {} points, plus containment of every point", pts.len()),
    n,
    |i| format!("{} {:?} against all", T::NAME, seg(i, pts)),
    |i, c| {
      let s = seg(i, pts);
      let tp: Vec<Point<T>> = pts.iter().map(|&p| mk(p)).collect();
      let (sa, sb) = (mk(s.a), mk(s.b));
      let sv = LineSegmentView::new(ep(&sa, s.ai), ep(&sb, s.bi));
      let so = LineSegment::new(ep(sa.clone(), s.ai), ep(sb.clone(), s.bi));
      for (p, q) in pts.iter().zip(&tp) {
        let w = s.has(*p);
        ensure!(sv.contains(q) == w, "{:?} contains {:?}: expected {}", s, p, w);
        ensure!(so.contains(q) == w, "owned {:?} contains {:?}: expected {}", s, p, w);
        c.op(2);
        if s.ai && !s.bi && s.a <= s.b {
          let e = DirectedEdge { src: &sa, dst: &sb };
          ensure!(e.contains(q) == w, "edge {:?} contains {:?}: expected {}", s, p, w);
          c.op(1);
        }
      }
      for j in 0..n {
        let t = seg(j, pts);
        let (ta, tb) = (mk(t.a), mk(t.b));
        let tv = LineSegmentView::new(ep(&ta, t.ai), ep(&tb, t.bi));
        let want = isect(s, t);
        check_res(c, &format!("{:?} with {:?}", s, t), want, sv.intersect(tv), mk)?;
        if j & 3 == i & 3 {
          let to = LineSegment::new(ep(ta.clone(), t.ai), ep(tb.clone(), t.bi));
          check_res(c, &format!("owned {:?} with {:?}", s, t), want, so.intersect(&to), mk)?;
          if s.ai && !s.bi {
            let (r1, r2) = (sa.clone()..sb.clone(), ta.clone()..tb.clone());
            check_res(c, &format!("ranges {:?} {:?}", s, t), want, (&r1).intersect(&r2), mk)?;
            let (d1, d2) = (DirectedEdge { src: &sa, dst: &sb }, DirectedEdge { src: &ta, dst: &tb });
            check_res(c, &format!("edges {:?} {:?}", s, t), want, d1.intersect(d2), mk)?;
            let (d1, d2) = (DirectedEdge_ { src: sa.clone(), dst: sb.clone() }, DirectedEdge_ { src: ta.clone(), dst: tb.clone() });
            check_res(c, &format!("owned edges {:?} {:?}", s, t), want, (&d1).intersect(&d2), mk)?;
            let (l1, l2) = (LineSegment::from(d1.clone()), LineSegment::from(r2));
            check_res(c, &format!("converted {:?} {:?}", s, t), want, (&l1).intersect(&l2), mk)?;
          } else if s.ai && s.bi {
            let (r1, r2) = (sa.clone()..=sb.clone(), ta.clone()..=tb.clone());
            check_res(c, &format!("closed ranges {:?} {:?}", s, t), want, (&r1).intersect(&r2), mk)?;
            let (l1, l2) = (LineSegment::from(r1), LineSegment::from(r2));
            check_res(c, &format!("converted {:?} {:?}", s, t), want, (&l1).intersect(&l2), mk)?;
          }
        }
        c.state();
        c.trace();
      }
      Ok(())
    },
  );
}

fn embed<T: Sc>(k: &mut Check) {
  let (lo, hi) = T::lim();
  for (x, t) in tables(lo, hi, 3).into_iter().enumerate() {
    if x > 0 && x == 3 && !k.thorough() {
      continue;
    }
    let t2 = t.clone();
    let pts: Vec<P> = t.iter().flat_map(|&x| t2.iter().map(move |&y| [x, y])).collect();
    pairs::<T>(k, &format!("coordinates {:?}", t), &pts, &|p| pt::<T>(p));
  }
}

/// Every list of `len` segments out of a small set: exactly the intersecting unordered pairs are listed.
fn lists(k: &mut Check, len: usize) {
  let mut set: Vec<S> = vec![];
  for (a, b) in [([0, 0], [2, 2]), ([0, 2], [2, 0]), ([0, 0], [1, 1]), ([1, 1], [2, 2]), ([1, 0], [1, 2]), ([2, 0], [2, 2]), ([0, 1], [2, 1]), ([2, 2], [0, 2]), ([1, 1], [1, 1]), ([3, 0], [3, 2])] {
    for (ai, bi) in [(true, true), (true, false)] {
      set.push(S { a, ai, b, bi });
    }
  }
  let n = set.len() as u64;
  let set = &set;
  k.space(
    "segment lists",
    &format!("every list of {} segments out of {}", len, n),
    n.pow(len as u32),
    |i| format!("{:?}", digits_vec(i, n, len).iter().map(|&d| set[d]).collect::<Vec<_>>()),
    |i, c| {
      let l: Vec<S> = digits_vec(i, n, len).iter().map(|&d| set[d]).collect();
      list_one(c, &l)
    },
  );
  let m = k.pick(60, 200);
  k.space(
    "long segment lists",
    "lists of 0..N segments from a 4x4 grid in several strides",
    m * 4,
    |i| format!("length {} stride {}", i / 4, [1, 7, 101, 331][(i % 4) as usize]),
    |i, c| {
      let g = grid(4, 4);
      let st = [1u64, 7, 101, 331][(i % 4) as usize];
      let l: Vec<S> = (0..i / 4).map(|j| seg(j * st * 5 % 1024, &g)).collect();
      list_one(c, &l)
    },
  );
}
fn very_long(k: &mut Check) {
  let sizes: &[u64] = k.pick(&[250, 256, 257, 400], &[250, 256, 257, 400, 1000, 2000]);
  k.space("very long segment lists", "segments from a 4x4 grid in several strides", sizes.len() as u64 * 4, |i| format!("length {} stride {}", sizes[(i / 4) as usize], [1, 7, 101, 331][(i % 4) as usize]), |i, c| {
    let g = grid(4, 4);
    let st = [1u64, 7, 101, 331][(i % 4) as usize];
    let l: Vec<S> = (0..sizes[(i / 4) as usize]).map(|j| seg(j * st * 5 % 1024, &g)).collect();
    list_one(c, &l)
  });
}
fn list_one(c: &mut Ctx, l: &[S]) -> R {
  let segs: Vec<LineSegment<i32>> = l
    .iter()
    .map(|s| LineSegment::new(ep(pt::<i32>(s.a), s.ai), ep(pt::<i32>(s.b), s.bi)))
    .collect();
  let base = segs.as_ptr() as usize;
  let sz = std::mem::size_of::<LineSegment<i32>>();
  let idx = |e: &LineSegment<i32>| (e as *const _ as usize - base) / sz;
  let mut got: Vec<(usize, usize)> = segment_intersections::<_, i32>(&segs)
    .map(|(a, b)| {
      let (x, y) = (idx(a), idx(b));
      (x.min(y), x.max(y))
    })
    .collect();
  got.sort();
  let mut want = vec![];
  for i in 0..l.len() {
    for j in i + 1..l.len() {
      if isect(l[i], l[j]) != I::None {
        want.push((i, j));
      }
    }
  }
  c.state();
  c.trace();
  c.op(1);
  if want.is_empty() {
    c.outcome("no pair");
  } else {
    c.outcome("pairs");
  }
  ensure!(want == got, "intersecting pairs of {:?}: expected {:?}, got {:?}", l, want, got);
  Ok(())
}

fn ends(k: &mut Check) {
  k.space("end point order", "leftmost/rightmost of all end point pairs", 9 * 4, |i| format!("{}", i), |i, c| {
    let (x, y) = ((i % 3) as i32, (i / 3 % 3) as i32);
    let (xi, yi) = (i / 9 % 2 == 0, i / 18 == 0);
    let mk = |v: i32, inc| ep(Point::new([v, 0]), inc);
    let l = mk(x, xi).leftmost(mk(y, yi));
    let r = mk(x, xi).rightmost(mk(y, yi));
    let wl = if x < y { (x, xi) } else if y < x { (y, yi) } else { (x, xi && yi) };
    let wr = if x > y { (x, xi) } else if y > x { (y, yi) } else { (x, xi && yi) };
    let f = |e: EndPoint<Point<i32>>| {
      let inc = e.is_inclusive();
      let r = e.as_ref().inner().array[0];
      assert_eq!(e.is_exclusive(), !inc);
      assert_eq!(e.inner().array[0], r);
      (e.take().array[0], inc)
    };
    same!(format!("leftmost of {:?} {:?}", (x, xi), (y, yi)), wl, f(l));
    same!(format!("rightmost of {:?} {:?}", (x, xi), (y, yi)), wr, f(r));
    c.state();
    c.trace();
    c.op(2);
    Ok(())
  });
}

/// Every way of writing a segment down: the same ends, in the same roles.
fn forms<T: Sc>(k: &mut Check) {
  let pts = [[-1, 2], [0, -2], [0, 3], [1, 1], [2, 2]];
  let n = pts.len() as u64;
  k.space(&format!("{}/forms", T::NAME), "every pair of points as a segment in each form and conversion", n * n, |i| format!("{} {:?} {:?}", T::NAME, pts[(i / n) as usize], pts[(i % n) as usize]), |i, c| {
    let (a, b) = (pts[(i / n) as usize], pts[(i % n) as usize]);
    let (pa, pb) = (pt::<T>(a), pt::<T>(b));
    let mut judge = |what: &str, inc: bool, v: LineSegmentView<'_, T>| -> R {
      let s = S { a, ai: true, b, bi: inc };
      let w = s.norm();
      let ok = if a == b { v.min.inner() == &&pa && v.max.inner() == &&pa && (v.min.is_inclusive() && v.max.is_inclusive()) == inc } else { same_end(v.min, &pt::<T>(w.a), w.ai) && same_end(v.max, &pt::<T>(w.b), w.bi) };
      ensure!(ok, "{} of {:?}: got {:?}", what, s, v);
      for &q in &pts {
        ensure!(v.contains(&pt::<T>(q)) == s.has(q), "{} of {:?} contains {:?}", what, s, q);
      }
      c.op(1 + n);
      Ok(())
    };
    let r = pa.clone()..pb.clone();
    let ri = pa.clone()..=pb.clone();
    judge("view of a range", false, (&r).into())?;
    judge("view of a range of references", false, (&pa..&pb).into())?;
    judge("view of a closed range", true, (&ri).into())?;
    let l = LineSegment::from(r.clone());
    judge("view of a segment", false, (&l).into())?;
    judge("segment as_ref", false, l.as_ref())?;
    judge("segment of a closed range", true, LineSegment::from(ri).as_ref())?;
    let [ax, ay] = pa.array.clone();
    let [bx, by] = pb.array.clone();
    judge("segment of a range of pairs", false, LineSegment::<T>::from((ax, ay)..(bx, by)).as_ref())?;
    let e = DirectedEdge { src: &pa, dst: &pb };
    judge("view of an edge", false, e.into())?;
    judge("view of an edge reference", false, (&e).into())?;
    let o = DirectedEdge_ { src: pa.clone(), dst: pb.clone() };
    judge("view of an owned edge", false, (&o).into())?;
    judge("segment of an owned edge", false, LineSegment::from(o).as_ref())?;
    judge("copy of a view", false, LineSegmentView::new(EndPoint::Exclusive(&pb), EndPoint::Inclusive(&pa)).clone())?;
    c.state();
    c.trace();
    c.outcome(if a == b { "point" } else { "segment" });
    Ok(())
  });
}

fn main() {
  let mut k = Check::new("C06");
  let g = if k.thorough() { grid(6, 5) } else { grid(4, 4) };
  pairs::<i8>(&mut k, "grid", &g, &|p| pt::<i8>(p));
  ends(&mut k);
  let len = k.pick(3, 4);
  lists(&mut k, len);
  very_long(&mut k);
  each_type!(T in [i8, i16, i32, i64, isize, BigInt, BigRational, f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] {
    embed::<T>(&mut k);
    forms::<T>(&mut k);
  });
  // Nearly touching: ends one unit away from huge segments.
  let m = i64::MAX as i128;
  let pts: Vec<P> = vec![[-m, -m], [m, m], [m, m - 1], [m - 1, m - 1], [0, 0], [1, 0], [-m, m], [0, 1], [-1, -1]];
  pairs::<i64>(&mut k, "near misses at the extremes", &pts, &|p| pt::<i64>(p));
  k.assume("float coordinates: integers exactly representable in the type");
  k.finish()
}
