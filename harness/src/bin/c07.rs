//! C07: line/segment and ray/segment crossings, and the meeting point of two lines.
use harness::oracle::*;
use harness::polyenum::grid;
use harness::scalars::*;
use harness::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::{DirectedEdge, Direction, Direction_, EndPoint, HalfLineSoS, IHalfLineLineSegmentSoS, Line, LineSegmentView, LineSoS, LineSoS_, Line_, Point, Vector};
use rgeometry::{Intersects, Orientation};

fn left(o: i8) -> bool {
  o >= 0
}
/// Ray against closed segment: None if apart, Some(0) interior hit, Some(s) end hit with the rest on side s.
fn ray(o: P, d: P, a: P, b: P) -> Option<i8> {
  let (sa, sb) = (orient_vec(d, o, a), orient_vec(d, o, b));
  let ahead = |p: P| det_sign(d[0], p[0] - o[0], -d[1], p[1] - o[1]) > 0; // dot(d, p-o) > 0
  match (sa, sb) {
    (0, 0) => None,
    (0, s) => ahead(a).then_some(s),
    (s, 0) => ahead(b).then_some(s),
    (x, y) if x == y => None,
    _ => {
      // o and the hit point: the ray hits iff turning from left end to right end, o is on its left... use the exact
      // sign of the ray parameter: cross(a-o, b-o) / cross(d, b-a) > 0
      let num = orient(o, a, b);
      let den = det_sign(d[0], b[1] - a[1], d[1], b[0] - a[0]);
      (num * den > 0).then_some(0)
    }
  }
}
fn hit(o: Option<IHalfLineLineSegmentSoS>) -> Option<i8> {
  o.map(|IHalfLineLineSegmentSoS::Crossing(s)| sgn(s))
}

/// origin x direction per index; all segments inside.
fn crossings<T: Sc>(k: &mut Check, label: &str, pts: &[P]) {
  let n = pts.len() as u64;
  let (lo, hi) = T::lim();
  k.space(
    &format!("{}/{}", T::NAME, label),
    &format!("origin and second point (or direction vector) over {} points, all segments over them with open/closed ends, all four ray/line forms", n),
    n * n,
    |i| format!("{} origin {:?} towards {:?}, all segments", T::NAME, pts[(i / n) as usize], pts[(i % n) as usize]),
    |i, c| {
      let (o, h) = (pts[(i / n) as usize], pts[(i % n) as usize]);
      // (a) direction through h; (b) h itself as a direction vector
      let (op, hp) = (pt::<T>(o), pt::<T>(h));
      let hv = Vector::from(hp.clone());
      let thr = [h[0] - o[0], h[1] - o[1]];
      let tv = if thr.iter().all(|&x| x >= lo && x <= hi) { Some(Vector([T::mk(thr[0]), T::mk(thr[1])])) } else { None };
      let all: Vec<Point<T>> = pts.iter().map(|&p| pt::<T>(p)).collect();
      for (mode, d) in [(0, thr), (1, h)] {
        if d == [0, 0] {
          continue;
        }
        for x in 0..pts.len() {
          for y in 0..pts.len() {
            let (a, b) = (pts[x], pts[y]);
            if a == b {
              continue;
            }
            let want_line = left(orient_vec(d, o, a)) != left(orient_vec(d, o, b));
            let off = orient(a, b, o) != 0;
            let want_ray = ray(o, d, a, b);
            let sl = (&all[x], &all[y]);
            let kinds = [
              LineSegmentView::new(EndPoint::Inclusive(sl.0), EndPoint::Exclusive(sl.1)),
              LineSegmentView::new(EndPoint::Inclusive(sl.0), EndPoint::Inclusive(sl.1)),
              LineSegmentView::new(EndPoint::Exclusive(sl.0), EndPoint::Inclusive(sl.1)),
              LineSegmentView::new(EndPoint::Exclusive(sl.0), EndPoint::Exclusive(sl.1)),
            ];
            let dirs: Vec<Direction<'_, T, 2>> = if mode == 0 {
              let mut v = vec![Direction::Through(&hp)];
              if let Some(t) = &tv {
                v.push(Direction::Vector(t));
              }
              v
            } else {
              vec![Direction::Vector(&hv)]
            };
            for dir in dirs {
              // the constructors take turns: by kind of direction, or generic
              let (line, half): (Line<'_, T>, HalfLineSoS<'_, T>) = match (dir, (x + y) % 3) {
                (Direction::Vector(v), 0) => (Line::new_directed(&op, v), HalfLineSoS::new_directed(&op, v)),
                (Direction::Through(p), 0) => (Line::new_through(&op, p), HalfLineSoS::new_through(&op, p)),
                (_, 1) => (Line::new(&op, dir), Line::new(&op, dir).into()),
                _ => (Line::new(&op, dir), HalfLineSoS::new(&op, dir)),
              };
              let sos: LineSoS<'_, T> = line.into();
              let e = DirectedEdge { src: sl.0, dst: sl.1 };
              let msg = || format!("{} origin {:?} direction {:?} ({:?}), segment {:?}-{:?}", T::NAME, o, d, dir, a, b);
              for s in kinds {
                let g = (&sos).intersect(s).is_some();
                ensure!(g == want_line, "line: {}: expected crossing={}, got {}", msg(), want_line, g);
                c.op(1);
                if off || want_ray.is_none() && orient_vec(d, o, a) == 0 && orient_vec(d, o, b) == 0 {
                  let g = hit((&half).intersect(s));
                  ensure!(g == want_ray, "ray: {}: expected {:?}, got {:?}", msg(), want_ray, g);
                  c.op(1);
                }
              }
              let back: Line<'_, T> = sos.clone().into();
              ensure!(sgn(Point::orient_along_direction(back.origin, back.direction, sl.0)) == orient_vec(d, o, a), "line back from its perturbed form: {}", msg());
              let back: Line<'_, T> = half.into();
              ensure!(sgn(Point::orient_along_direction(back.origin, back.direction, sl.0)) == orient_vec(d, o, a), "line of the ray: {}", msg());
              let g = (&sos).intersect(e).is_some();
              ensure!(g == want_line, "line/edge: {}: expected crossing={}, got {}", msg(), want_line, g);
              if off {
                let g = hit((&half).intersect(e));
                ensure!(g == want_ray, "ray/edge: {}: expected {:?}, got {:?}", msg(), want_ray, g);
                // ray -> line conversions keep the geometry
                let l2: LineSoS<'_, T> = half.into();
                let h2: HalfLineSoS<'_, T> = l2.clone().into();
                ensure!((&l2).intersect(e).is_some() == want_line, "line of ray: {}", msg());
                ensure!(hit((&h2).intersect(e)) == want_ray, "ray of line: {}", msg());
                c.op(3);
                c.outcome(match want_ray {
                  None => "ray misses",
                  Some(0) => "ray hits interior",
                  Some(1) => "ray hits end, rest left",
                  _ => "ray hits end, rest right",
                });
              }
              c.op(1);
              c.outcome(if want_line { "line crosses" } else { "line does not cross" });
            }
            c.state();
            c.trace();
          }
        }
      }
      // owned forms agree
      let owned = [(thr, Direction_::Through(hp.clone())), (h, Direction_::Vector(hv.clone()))];
      for (d, dir) in owned {
        if d == [0, 0] {
          continue;
        }
        let own = Line_ { origin: op.clone(), direction: dir };
        let line: Line<'_, T> = (&own).into();
        let half: HalfLineSoS<'_, T> = line.into();
        let sos_ = LineSoS_::from(own.clone());
        let sos = LineSoS::from(&sos_);
        for x in 0..pts.len() {
          for y in 0..pts.len() {
            if x != y {
              let (a, b) = (pts[x], pts[y]);
              let e = DirectedEdge { src: &all[x], dst: &all[y] };
              let want = left(orient_vec(d, o, a)) != left(orient_vec(d, o, b));
              ensure!((&sos).intersect(e).is_some() == want, "owned line {:?} {:?} segment {:?}-{:?}", o, own.direction, a, b);
              if orient(a, b, o) != 0 {
                ensure!(hit((&half).intersect(e)) == ray(o, d, a, b), "owned ray {:?} {:?} segment {:?}-{:?}", o, own.direction, a, b);
              }
              c.op(2);
            }
          }
        }
      }
      Ok(())
    },
  );
}

/// The meeting point, where every intermediate value is a small integer, in any type.
fn exact_meet<T: Sc>(a: P, b: P, x: P, y: P, w: P) -> R {
  let (pa, pb, px, py) = (pt::<T>(a), pt::<T>(b), pt::<T>(x), pt::<T>(y));
  let g = Line::new_through(&pa, &pb).intersection_point(&Line::new_through(&px, &py));
  // -0.0 (floats) is the right number too: compare the numbers
  let ok = g.as_ref().is_some_and(|g| (0..2).all(|i| g.array[i] == T::mk(w[i])));
  ensure!(ok, "{} lines {:?}{:?} and {:?}{:?}: expected {:?}, got {:?}", T::NAME, a, b, x, y, w, g);
  Ok(())
}

fn meet(k: &mut Check, g: Vec<P>, f64too: bool) {
  let n = g.len() as u64;
  k.space(
    "BigRational/line meet",
    &format!("all ordered pairs of lines through two of {} points", n),
    n * n,
    |i| format!("line {:?} {:?} with all", g[(i / n) as usize], g[(i % n) as usize]),
    |i, c| {
      let (a, b) = (g[(i / n) as usize], g[(i % n) as usize]);
      if a == b {
        return Ok(());
      }
      type Q = BigRational;
      let q = |v: i128| Q::from(BigInt::from(v));
      let qp = |p: P| Point::new([q(p[0]), q(p[1])]);
      let (pa, pb) = (qp(a), qp(b));
      let l1 = Line::new_through(&pa, &pb);
      for &x in &g {
        for &y in &g {
          if x == y {
            continue;
          }
          let (px, py) = (qp(x), qp(y));
          let l2 = Line::new_through(&px, &py);
          // Cramer on integers
          let d1 = [b[0] - a[0], b[1] - a[1]];
          let d2 = [y[0] - x[0], y[1] - x[1]];
          let den = d1[0] * d2[1] - d1[1] * d2[0];
          let got = l1.intersection_point(&l2);
          c.op(1);
          c.state();
          c.trace();
          if den == 0 {
            ensure!(got.is_none(), "parallel lines {:?}{:?} and {:?}{:?} meet at {:?}", a, b, x, y, got);
            c.outcome("parallel");
          } else {
            let t = (x[0] - a[0]) * d2[1] - (x[1] - a[1]) * d2[0];
            let want = Point::new([q(a[0]) + Q::new(BigInt::from(t * d1[0]), BigInt::from(den)), q(a[1]) + Q::new(BigInt::from(t * d1[1]), BigInt::from(den))]);
            ensure!(got.as_ref() == Some(&want), "lines {:?}{:?} and {:?}{:?}: expected {:?}, got {:?}", a, b, x, y, want, got);
            c.outcome("meet");
            if f64too && t % den == 0 {
              // integer arithmetic is exact when the meeting point is an integer
              let ip = |p: P| Point::new([p[0] as i64, p[1] as i64]);
              let (ia, ib, ix, iy) = (ip(a), ip(b), ip(x), ip(y));
              let w = ip([a[0] + t / den * d1[0], a[1] + t / den * d1[1]]);
              let g = Line::new_through(&ia, &ib).intersection_point(&Line::new_through(&ix, &iy));
              ensure!(g.as_ref() == Some(&w), "integer lines {:?}{:?} and {:?}{:?}: expected {:?}, got {:?}", a, b, x, y, w, g);
              let w = [a[0] + t / den * d1[0], a[1] + t / den * d1[1]];
              exact_meet::<i16>(a, b, x, y, w)?;
              exact_meet::<i32>(a, b, x, y, w)?;
              exact_meet::<isize>(a, b, x, y, w)?;
              exact_meet::<f64>(a, b, x, y, w)?;
              exact_meet::<f32>(a, b, x, y, w)?;
              exact_meet::<NotNan<f64>>(a, b, x, y, w)?;
              exact_meet::<OrderedFloat<f32>>(a, b, x, y, w)?;
              exact_meet::<BigInt>(a, b, x, y, w)?;
              c.op(9);
            }
          }
        }
      }
      Ok(())
    },
  );
}

fn embed<T: Sc>(k: &mut Check) {
  let (lo, hi) = T::lim();
  let slow = matches!(T::NAME, "BigRational" | "f64" | "f32") || T::NAME.contains('<');
  for (x, t) in tables(lo, hi, 3).into_iter().enumerate() {
    if slow && x > 1 && !k.thorough() {
      continue;
    }
    let t2 = t.clone();
    let pts: Vec<P> = t.iter().flat_map(|&x| t2.iter().map(move |&y| [x, y])).collect();
    crossings::<T>(k, &format!("coordinates {:?}", t), &pts);
  }
}

fn main() {
  let mut k = Check::new("C07");
  let _ = Orientation::CoLinear;
  let s = k.pick(2, 3);
  let g: Vec<P> = grid(2 * s + 1, 2 * s + 1).iter().map(|p| [p[0] - s, p[1] - s]).collect();
  crossings::<i8>(&mut k, "grid", &g);
  each_type!(T in [i8, i16, i32, i64, isize, BigInt, BigRational, f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] {
    embed::<T>(&mut k);
  });
  let g = if k.thorough() { grid(6, 5) } else { grid(4, 4) };
  meet(&mut k, g, true);
  meet_big(&mut k);
  k.assume("segments have two distinct ends; rays start off the segment's supporting line (or the segment lies along the ray)");
  k.assume("the meeting point of two lines is only defined by the code for lines given by two points");
  k.finish()
}
/// Large and fractional coordinates.
fn meet_big(k: &mut Check) {
  let v: Vec<(i128, i128)> = vec![(-7, 3), (0, 1), (1, 2), (1 << 60, 1), (5, 7)];
  let n = v.len() as u64;
  k.space(
    "BigRational/line meet, fractions",
    "lines through all quadruples of fractional points: the meeting point lies on both lines",
    n.pow(4),
    |i| format!("{:?}", digits::<4>(i, n)),
    |i, c| {
      type Q = BigRational;
      let q = |d: usize| Q::new(BigInt::from(v[d].0), BigInt::from(v[d].1));
      let d = digits::<4>(i, n);
      let (a, b) = (Point::new([q(d[0]), q(d[1])]), Point::new([q(d[2]), q(d[3])]));
      if a == b {
        return Ok(());
      }
      let cross = |p: &Point<Q>, r: &Point<Q>, s: &Point<Q>, t: &Point<Q>| (&r.array[0] - &p.array[0]) * (&t.array[1] - &s.array[1]) - (&r.array[1] - &p.array[1]) * (&t.array[0] - &s.array[0]);
      let zero = Q::from(BigInt::from(0));
      for j in 0..n * n {
        let x = Point::new([q((j % n) as usize), q((j / n) as usize)]);
        for m in 0..n * n {
          let y = Point::new([q((m % n) as usize), q((m / n) as usize)]);
          if x == y {
            continue;
          }
          let got = Line::new_through(&a, &b).intersection_point(&Line::new_through(&x, &y));
          c.op(1);
          c.state();
          c.trace();
          match got {
            None => ensure!(cross(&a, &b, &x, &y) == zero, "lines {:?} {:?} {:?} {:?} are not parallel", a, b, x, y),
            Some(p) => ensure!(
              cross(&a, &b, &x, &y) != zero && cross(&a, &b, &a, &p) == zero && cross(&x, &y, &x, &p) == zero,
              "lines {:?} {:?} {:?} {:?}: {:?} is not their meeting point", a, b, x, y, p
            ),
          }
        }
      }
      Ok(())
    },
  );
}
