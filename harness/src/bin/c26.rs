//! C26: combinatorial results are identical across number types and magnitudes.
use harness::oracle::*;
use harness::polyenum::*;
use harness::rngs::*;
use harness::scalars::*;
use harness::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::algorithms::convex_hull::{gift_wrapping, graham_scan, melkman};
use rgeometry::algorithms::polygonization::{new_monotone_polygon, new_star_polygon, two_opt_moves};
use rgeometry::algorithms::segment_intersections;
use rgeometry::algorithms::triangulation::earclip::earclip;
use rgeometry::data::{EndPoint, LineSegment, Point, Polygon, PolygonConvex, Triangle, Vector};

/// Everything one configuration is asked, as plain numbers: accepted or not, where points
/// lie, which vertices an algorithm returns and in which cyclic order.
#[derive(Default, PartialEq, Eq, Debug)]
struct Answers(Vec<(&'static str, Vec<i64>)>);
impl Answers {
  fn put(&mut self, what: &'static str, v: Vec<i64>) {
    self.0.push((what, v));
  }
}
fn index<T: Sc>(tp: &[Point<T>], q: &Point<T>) -> i64 {
  tp.iter().position(|x| x == q).map_or(-1, |i| i as i64)
}
/// The vertices of a returned polygon as a cycle starting at its smallest index.
fn cycle<T: Sc>(tp: &[Point<T>], p: &Polygon<T>) -> Vec<i64> {
  canon_rot(&p.iter_boundary().map(|x| index(tp, x.point())).collect::<Vec<_>>())
}
fn loc(l: rgeometry::data::PointLocation) -> i64 {
  match loc_of(l) {
    Loc::In => 1,
    Loc::On => 0,
    Loc::Out => -1,
  }
}

struct Setup<'a> {
  v: &'a [P],
  queries: &'a [P],
  centres: &'a [P],
  dirs: &'a [P],
}
fn ask<T: Sc>(s: &Setup, ops: &mut u64) -> Answers {
  let mut out = Answers::default();
  let tp = pts::<T>(s.v);
  let n = tp.len();
  let tq = pts::<T>(s.queries);
  let vec = |d: &P| Vector([T::mk(d[0]), T::mk(d[1])]);
  for (name, h) in [("graham scan", graham_scan::convex_hull(tp.clone())), ("gift wrapping", gift_wrapping::convex_hull(tp.clone()))] {
    out.put(name, match &h {
      Err(_) => vec![-2],
      Ok(p) => cycle(&tp, p.polygon()),
    });
    if let Ok(p) = &h {
      out.put("hull validates", vec![p.validate().is_ok() as i64]);
      out.put("location in the hull", tq.iter().map(|q| loc(p.locate(q))).collect());
      *ops += tq.len() as u64 + 1;
    }
  }
  for w in [0u64, u64::MAX / 2] {
    let mut i = w;
    let mut rng = TapeRng { tape: vec![], pos: 0, tail: || {
      i = i.wrapping_add(1);
      mixed(i)
    } };
    match two_opt_moves(tp.clone(), &mut rng) {
      Err(_) => out.put("uncrossing", vec![-2]),
      Ok(p) => {
        let c = cycle(&tp, &p);
        let b: Vec<P> = c.iter().map(|&i| s.v[i as usize]).collect();
        let mut m = c.clone();
        m.sort();
        out.put("uncrossed vertices", m);
        out.put("uncrossed polygon is simple", vec![is_simple(&b) as i64, winding(&b) as i64, p.validate().is_ok() as i64]);
      }
    }
  }
  for z in s.centres {
    out.put("star polygon", match new_star_polygon(tp.clone(), &pt::<T>(*z)) {
      Err(_) => vec![-2],
      Ok(p) => cycle(&tp, &p),
    });
  }
  for d in s.dirs {
    out.put("monotone polygon", match new_monotone_polygon(tp.clone(), &vec(d)) {
      Err(_) => vec![-2],
      Ok(p) => cycle(&tp, &p),
    });
  }
  let edges: Vec<LineSegment<T>> = (0..n).map(|i| LineSegment::new(EndPoint::Inclusive(tp[i].clone()), EndPoint::Exclusive(tp[(i + 1) % n].clone()))).collect();
  let mut x: Vec<i64> = segment_intersections::<_, T>(&edges)
    .map(|(a, b)| {
      let at = |e: &LineSegment<T>| edges.iter().position(|f| std::ptr::eq(e, f)).unwrap();
      let (a, b) = (at(a), at(b));
      (a.min(b) * n + a.max(b)) as i64
    })
    .collect();
  x.sort();
  out.put("crossing edges", x);
  if n == 3 {
    let t = Triangle::new([tp[0].clone(), tp[1].clone(), tp[2].clone()]);
    out.put("triangle", match &t {
      Err(_) => vec![-2],
      Ok(t) => tq.iter().map(|q| loc(t.locate(q))).collect(),
    });
  }
  *ops += 7 + (s.centres.len() + s.dirs.len()) as u64;
  let p = match Polygon::new(tp.clone()) {
    Err(_) => {
      out.put("accepted", vec![0]);
      return out;
    }
    Ok(p) => p,
  };
  out.put("accepted", vec![1, sgn(p.orientation()) as i64]);
  out.put("location", tq.iter().map(|q| loc(p.locate(q))).collect());
  out.put("ears", p.iter_boundary().map(|x| x.is_ear() as i64).collect());
  out.put("vertex turns", p.iter_boundary().map(|x| sgn(x.orientation()) as i64).collect());
  out.put("monotone", s.dirs.iter().map(|d| p.is_monotone(&vec(d)) as i64).collect());
  let (lo, hi) = p.bounding_box();
  let at = |q: &T, k: usize| tp.iter().position(|x| x.array[k] == *q).map_or(-1, |i| i as i64);
  out.put("bounding box", vec![at(&lo.array[0], 0), at(&lo.array[1], 1), at(&hi.array[0], 0), at(&hi.array[1], 1)]);
  out.put("hull of the polygon", cycle(&tp, melkman::convex_hull(&p).polygon()));
  let c = PolygonConvex::new_unchecked(p.clone());
  let convex = c.validate().is_ok();
  out.put("convex", vec![convex as i64]);
  if convex {
    out.put("location in the convex polygon", tq.iter().map(|q| loc(c.locate(q))).collect());
    *ops += tq.len() as u64;
  }
  // Triangles: count, and each turns left; their exact area adds up to the polygon's.
  let tris: Vec<[P; 3]> = earclip(&p).map(|(a, b, c)| [a, b, c].map(|i| s.v[i.usize()])).collect();
  let left = tris.iter().all(|t| orient(t[0], t[1], t[2]) > 0);
  let area: BigInt = tris.iter().map(|t| area2_big(t)).sum();
  out.put("triangulation tiles the polygon", vec![tris.len() as i64, left as i64, (area == area2_big(s.v) || area == -area2_big(s.v)) as i64]);
  *ops += 8 + (tq.len() + n + s.dirs.len()) as u64;
  out
}
fn compare<T: Sc>(c: &mut Ctx, s: &Setup, want: &Answers) -> R {
  let mut ops = 0;
  let got = ask::<T>(s, &mut ops);
  c.op(ops);
  c.state();
  c.trace();
  for (w, g) in want.0.iter().zip(&got.0) {
    ensure!(w == g, "{}: {:?}: {}: arbitrary precision answers {:?}, {} answers {} {:?}", T::NAME, s.v, w.0, w.1, T::NAME, g.0, g.1);
  }
  ensure!(want.0.len() == got.0.len(), "{}: {:?}: different number of answers", T::NAME, s.v);
  Ok(())
}
fn reference(c: &mut Ctx, s: &Setup) -> Result<Answers, String> {
  let mut ops = 0;
  let r = ask::<BigInt>(s, &mut ops);
  let accepted = r.0.iter().any(|a| a.0 == "accepted" && a.1[0] == 1);
  let want = is_simple(s.v);
  ensure!(accepted == want, "BigInt: {:?}: simple is {}, accepted is {}", s.v, want, accepted);
  c.outcome(if accepted { "accepted" } else { "rejected" });
  Ok(r)
}
const D: [P; 4] = [[1, 0], [0, -1], [-1, 1], [2, 1]];
/// Directions: a few small ones and some that reach the extremes.
fn directions(lo: i128, hi: i128) -> Vec<P> {
  let mut d = D.to_vec();
  d.extend([[lo, hi], [hi, hi], [lo, 1], [hi - 1, hi], [hi, lo]]);
  d
}
fn mids(t: &[i128]) -> Vec<i128> {
  let mut v: Vec<i128> = t.to_vec();
  for w in t.windows(2) {
    v.push(w[0] + (w[1] - w[0]) / 2);
  }
  v.sort();
  v.dedup();
  v
}
fn space<T: Sc>(k: &mut Check, len: usize, w: usize, h: usize, all: bool) {
  let (lo, hi) = T::lim();
  let (xs, ys) = (tables(lo, hi, w), tables(lo, hi, h));
  let mut combos: Vec<(usize, usize)> = (0..xs.len()).flat_map(|a| (0..ys.len()).map(move |b| (a, b))).collect();
  if !all {
    // same stretch on both axes, and each stretch against the next one
    combos.retain(|&(a, b)| a == b || b == (a + 1) % ys.len());
  }
  let nc = combos.len() as u64;
  let n = arrangements(w * h, len);
  let dirs = directions(lo, hi);
  let get = |i: u64| -> (Vec<i128>, Vec<i128>, Vec<P>) {
    let (a, b) = combos[(i % nc) as usize];
    let g = grid(w as i128, h as i128);
    let ix = arrangement(i / nc, &g, len);
    let v = ix.iter().map(|p| [xs[a][p[0] as usize], ys[b][p[1] as usize]]).collect();
    (xs[a].clone(), ys[b].clone(), v)
  };
  k.space(
    &format!("{}/{} points on {}x{}", T::NAME, len, w, h),
    &format!("every ordered choice of {} distinct points of a {}x{} index grid, {} stretches of the axes to the limits of the type", len, w, h, nc),
    n * nc,
    |i| format!("{} {:?}", T::NAME, get(i).2),
    |i, c| {
      let (tx, ty, v) = get(i);
      let qs: Vec<P> = mids(&tx).iter().flat_map(|&x| mids(&ty).into_iter().map(move |y| [x, y])).collect();
      let cs: Vec<P> = vec![[tx[w / 2], ty[h / 2]], [tx[0] + (tx[w - 1] - tx[0]) / 2, ty[0] + (ty[h - 1] - ty[0]) / 2], v[0]];
      let s = Setup { v: &v, queries: &qs, centres: &cs, dirs: &dirs };
      let want = reference(c, &s)?;
      compare::<T>(c, &s, &want)
    },
  );
}
/// Families of larger polygons, stretched affinely so that they fill the type's range.
fn large<T: Sc>(k: &mut Check, fam: &[(String, Vec<P>)]) {
  let (lo, hi) = T::lim();
  let dirs = directions(lo, hi);
  let get = |i: u64| -> Option<Vec<P>> {
    let v = dihedral_poly(&fam[(i / 8) as usize].1, (i % 8) as usize);
    let m = |k: usize| v.iter().map(|p| p[k]).min().unwrap();
    let x = |k: usize| v.iter().map(|p| p[k]).max().unwrap();
    let (m, x) = ([m(0), m(1)], [x(0), x(1)]);
    let f = [0, 1].map(|k| (hi - lo) / (x[k] - m[k]).max(1));
    if f.contains(&0) {
      return None;
    }
    // the low end of each axis becomes `lo`, the high end as close to `hi` as an integer factor allows
    Some(v.iter().map(|p| [lo + (p[0] - m[0]) * f[0], hi - (x[1] - p[1]) * f[1]]).collect())
  };
  k.space(
    &format!("{}/families", T::NAME),
    "named families of larger polygons in all eight symmetries, filling the range of the type",
    8 * fam.len() as u64,
    |i| format!("{} {} symmetry {}", T::NAME, fam[(i / 8) as usize].0, i % 8),
    |i, c| {
      let Some(v) = get(i) else {
        c.outcome("does not fit");
        return Ok(());
      };
      let n = v.len();
      let mut qs: Vec<P> = v.clone();
      for j in 0..n {
        let (a, b) = (v[j], v[(j + 1) % n]);
        let m = [a[0] + (b[0] - a[0]) / 2, a[1] + (b[1] - a[1]) / 2];
        qs.push(m);
        qs.push([(m[0] + 1).min(hi), m[1]]);
        qs.push([m[0], (m[1] - 1).max(lo)]);
      }
      let cs = [v[0], [lo + (hi - lo) / 2, lo + (hi - lo) / 2], v[n / 2]];
      let s = Setup { v: &v, queries: &qs, centres: &cs, dirs: &dirs };
      let want = reference(c, &s)?;
      compare::<T>(c, &s, &want)
    },
  );
}

fn main() {
  let mut k = Check::new("C26");
  k.assume("floating-point coordinates are integers up to 2^53 (2^24 in single precision); points of a list are distinct");
  let th = k.thorough();
  each_type!(T in [i8, i64] {
    space::<T>(&mut k, 3, 3, 3, true);
    space::<T>(&mut k, 4, 3, 3, true);
    space::<T>(&mut k, 5, 3, 3, th);
    if th { space::<T>(&mut k, 6, 3, 3, false); }
  });
  each_type!(T in [i16, i32, isize, BigRational, f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] {
    space::<T>(&mut k, 3, 3, 3, th);
    space::<T>(&mut k, 4, 3, 3, th);
    if th { space::<T>(&mut k, 5, 3, 3, false); }
  });
  with_gmp!(T {
    space::<T>(&mut k, 3, 3, 3, th);
    space::<T>(&mut k, 4, 3, 3, th);
  });
  each_type!(T in [i8, i32] { space::<T>(&mut k, 4, 4, 3, false); });
  if th {
    each_type!(T in [i8, i64, f64] { space::<T>(&mut k, 4, 4, 4, false); space::<T>(&mut k, 5, 4, 3, false); });
  }
  let fam = families(if th { 24 } else { 12 });
  each_type!(T in [i8, i16, i32, i64, isize, BigRational, f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] {
    large::<T>(&mut k, &fam);
  });
  with_gmp!(T { large::<T>(&mut k, &fam); });
  k.finish()
}
