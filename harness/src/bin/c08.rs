//! C08: a polygon is accepted exactly when its vertex cycle is simple.
use harness::oracle::*;
use harness::polyenum::*;
use harness::polys::*;
use harness::scalars::*;
use harness::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::{Point, Polygon};
use rgeometry::Orientation;

fn judge<T: Sc>(c: &mut Ctx, v: &[P], tp: Vec<Point<T>>) -> R {
  let simple = is_simple(v);
  let ccw = simple && area2_sign(v) > 0;
  let chk = Polygon::new_unchecked(tp.clone());
  if v.len() >= 3 {
    let got = chk.validate();
    ensure!(got.is_ok() == ccw, "validating {:?}: simple={} ccw={}, got {:?}", v, simple, ccw, got);
    c.op(1);
  }
  let got = Polygon::new(tp.clone());
  c.op(1);
  c.state();
  c.trace();
  match &got {
    Err(e) => {
      ensure!(!simple, "simple polygon {:?} rejected: {:?}", v, e);
      c.outcome("rejected");
    }
    Ok(p) => {
      ensure!(simple, "{:?} is not simple but was accepted", v);
      let mut want = tp.clone();
      if !ccw {
        want.reverse();
      }
      let b = boundary(p);
      ensure!(is_rotation(&want, &b), "accepted {:?}: boundary should visit {:?} but visits {:?}", v, want, b);
      ensure!(p.iter().cloned().collect::<Vec<_>>().len() == tp.len(), "vertex count changed");
      for q in p.iter() {
        ensure!(tp.contains(q), "vertex {:?} appeared from nowhere", q);
      }
      same!(format!("winding of accepted {:?}", v), Orientation::CounterClockWise, p.orientation());
      ensure!(p.validate().is_ok(), "accepted {:?} does not re-validate: {:?}", v, p.validate());
      ensure!(p.validate_weakly().is_ok(), "accepted {:?} does not re-validate weakly", v);
      c.op(4);
      c.outcome(if ccw { "accepted ccw" } else { "accepted cw" });
    }
  }
  // ensuring ccw on an unchecked simple polygon gives the same cycle
  if simple {
    let mut q = chk;
    ensure!(q.ensure_ccw().is_ok(), "simple {:?} cannot be oriented", v);
    let mut want = tp;
    if !ccw {
      want.reverse();
    }
    ensure!(is_rotation(&want, &boundary(&q)), "orienting {:?} changed the cycle to {:?}", v, boundary(&q));
    c.op(1);
  }
  Ok(())
}
fn area2_sign(v: &[P]) -> i8 {
  // turn at the lexicographic minimum (v simple): safe for any magnitude
  let n = v.len();
  let i = (0..n).min_by_key(|&i| v[i]).unwrap();
  orient(v[(i + n - 1) % n], v[i], v[(i + 1) % n])
}

/// Every sequence (repetitions allowed) of `len` points of the alphabet.
fn sequences<T: Sc>(k: &mut Check, label: &str, a: &[P], len: usize) {
  let n = a.len() as u64;
  let tp = pts::<T>(a);
  k.space(
    &format!("{}/{} length {}", T::NAME, label, len),
    &format!("every sequence of {} points over {} points, repetitions included", len, n),
    n.pow(len as u32),
    |i| format!("{} {:?}", T::NAME, digits_vec(i, n, len).iter().map(|&d| a[d]).collect::<Vec<_>>()),
    |i, c| {
      let d = digits_vec(i, n, len);
      let v: Vec<P> = d.iter().map(|&d| a[d]).collect();
      judge::<T>(c, &v, d.iter().map(|&d| tp[d].clone()).collect())
    },
  );
}
fn square(t: &[i128]) -> Vec<P> {
  t.iter().flat_map(|&x| t.iter().map(move |&y| [x, y])).collect()
}
fn embed<T: Sc>(k: &mut Check, len: usize) {
  let (lo, hi) = T::lim();
  let slow = T::NAME == "BigRational";
  for (x, t) in tables(lo, hi, 3).into_iter().enumerate() {
    let l = if x == 0 || slow && x > 1 { len.min(4) } else { len };
    sequences::<T>(k, &format!("coordinates {:?}", t), &square(&t), l);
  }
}

/// Large polygons, every rotation, both windings.
fn large<T: Sc>(k: &mut Check, max_n: usize, max_rot: usize) {
  let (lo, hi) = T::lim();
  let fam: Vec<(String, Vec<P>)> = families(max_n)
    .into_iter()
    .chain(arcs(24, 1))
    .collect::<Vec<_>>()
    .into_iter()
    .filter(|(_, v)| v.iter().flatten().all(|&x| x >= lo && x <= hi))
    .collect();
  let jobs: Vec<(usize, usize, bool)> = fam
    .iter()
    .enumerate()
    .flat_map(|(f, (_, v))| {
      let st = v.len().div_ceil(max_rot).max(1);
      (0..v.len()).step_by(st).flat_map(move |r| [(f, r, false), (f, r, true)])
    })
    .collect();
  k.space(
    &format!("{}/large polygons", T::NAME),
    &format!("{} structured simple polygons up to {} vertices, up to {} start vertices each, both windings", fam.len(), max_n, max_rot),
    jobs.len() as u64,
    |i| format!("{} {} start {} clockwise={}", T::NAME, fam[jobs[i as usize].0].0, jobs[i as usize].1, jobs[i as usize].2),
    |i, c| {
      let (f, r, rev) = jobs[i as usize];
      let mut v = rotated(&fam[f].1, r);
      if rev {
        v.reverse();
      }
      judge::<T>(c, &v, pts::<T>(&v))
    },
  );
}
/// One local defect in a large polygon: swap two vertices, or move one vertex onto another
/// vertex or onto the middle of an edge.
fn spoiled(k: &mut Check, max_n: usize) {
  let fam: Vec<(String, Vec<P>)> = families(max_n).into_iter().filter(|(_, v)| v.len() > 6).collect();
  let jobs: Vec<(usize, usize)> = fam.iter().enumerate().flat_map(|(f, (_, v))| (0..v.len()).map(move |i| (f, i))).collect();
  k.space(
    "i64/one defect",
    &format!("{} polygons with 7..{} vertices: every swap of two vertices, every vertex moved onto every vertex or edge midpoint", fam.len(), max_n),
    jobs.len() as u64,
    |i| format!("{} vertex {} against all others", fam[jobs[i as usize].0].0, jobs[i as usize].1),
    |i, c| {
      let (f, a) = jobs[i as usize];
      let v: Vec<P> = fam[f].1.iter().map(|p| [p[0] * 2, p[1] * 2]).collect();
      let n = v.len();
      for b in 0..n {
        if b > a {
          let mut w = v.clone();
          w.swap(a, b);
          judge::<i64>(c, &w, pts::<i64>(&w))?;
        }
        if b != a {
          let mut w = v.clone();
          w[a] = w[b];
          judge::<i64>(c, &w, pts::<i64>(&w))?;
        }
        let q = v[(b + 1) % n];
        let mut w = v.clone();
        w[a] = [(v[b][0] + q[0]) / 2, (v[b][1] + q[1]) / 2];
        judge::<i64>(c, &w, pts::<i64>(&w))?;
      }
      Ok(())
    },
  );
}

/// Polygons of about a thousand vertices, whole and with one vertex spoiled.
fn thousand(k: &mut Check) {
  let fam: Vec<(&str, Vec<P>)> = vec![("comb260", comb(260)), ("zigzag260", zigzag(260)), ("staircase520", staircase(520)), ("spikes520", spikes(520)), ("spiral130", spiral(130)), ("convex1040", convex_ngon(1040))];
  let fam = &fam;
  const SPOTS: u64 = 6;
  k.space("i64/about 1040 vertices", "structured polygons, whole, and with one of several vertices moved onto another vertex, onto an edge, or across the polygon", fam.len() as u64 * (1 + 3 * SPOTS), |i| format!("{} variant {}", fam[(i / (1 + 3 * SPOTS)) as usize].0, i % (1 + 3 * SPOTS)), |i, c| {
    let v: Vec<P> = fam[(i / (1 + 3 * SPOTS)) as usize].1.iter().map(|p| [p[0] * 2, p[1] * 2]).collect();
    let n = v.len();
    let mut w = v.clone();
    let j = i % (1 + 3 * SPOTS);
    if j > 0 {
      let a = [0, 3, 255, 256, n / 2, n - 1][((j - 1) / 3) as usize];
      let b = (a + n / 2 + 7) % n;
      match (j - 1) % 3 {
        0 => w[a] = v[b],
        1 => w[a] = [(v[b][0] + v[(b + 1) % n][0]) / 2, (v[b][1] + v[(b + 1) % n][1]) / 2],
        _ => w.swap(a, b),
      }
    }
    judge::<i64>(c, &w, pts::<i64>(&w))
  });
}

/// A convex polygon with one vertex pulled across it onto or through a far edge: the only edges that
/// meet are about `d` apart along the boundary.
fn far_pairs(k: &mut Check) {
  let sizes: Vec<usize> = k.pick(vec![300, 1300], vec![300, 700, 1300, 2500, 4200]);
  let dist: Vec<usize> = vec![2, 3, 7, 15, 16, 17, 31, 33, 63, 64, 65, 127, 129, 140, 255, 256, 257, 300, 400, 511, 513, 600, 640];
  let mut jobs: Vec<(usize, usize, usize, bool)> = vec![];
  for &n in &sizes {
    for &d in dist.iter().chain(&[n / 2 - 1, n / 2]).filter(|&&d| d <= n / 2) {
      for a in [0, n / 3, n - 1] {
        for through in [false, true] {
          jobs.push((n, d, a, through));
        }
      }
    }
  }
  let shapes: Vec<(usize, Vec<P>)> = sizes.iter().map(|&n| (n, convex_ngon(n))).collect();
  k.space("i64/one meeting pair of edges at every distance", &format!("convex polygons of {:?} vertices, one vertex pulled onto or through the edge d places further on", sizes), jobs.len() as u64, |i| format!("{:?} (size, distance, vertex, through)", jobs[i as usize]), |i, c| {
    let (n, d, a, through) = jobs[i as usize];
    let v = &shapes.iter().find(|s| s.0 == n).unwrap().1;
    let mut w: Vec<P> = v.iter().map(|p| [p[0] * 2, p[1] * 2]).collect();
    let b = (a + d) % n;
    let mid = [v[b][0] + v[(b + 1) % n][0], v[b][1] + v[(b + 1) % n][1]];
    w[a] = if through { [2 * mid[0] - w[a][0], 2 * mid[1] - w[a][1]] } else { mid };
    let p = Polygon::new(pts::<i64>(&w));
    ensure!(p.is_err(), "a vertex pulled {} an edge {} places on was accepted", if through { "through" } else { "onto" }, d);
    ensure!(Polygon::new_unchecked(pts::<i64>(&w)).validate().is_err(), "a vertex pulled {} an edge {} places on was found valid", if through { "through" } else { "onto" }, d);
    if n < 600 {
      ensure!(!is_simple(&w), "harness: polygon is simple");
    }
    c.op(2);
    c.state();
    c.trace();
    c.outcome(if through { "through" } else { "onto" });
    Ok(())
  });
}

/// Nearly degenerate float coordinates.
fn floats<T: FSc>(k: &mut Check, len: usize) {
  let (e, tp) = near_points::<T>();
  let n = e.len() as u64;
  k.space(
    &format!("{}/nearly degenerate length {}", T::NAME, len),
    &format!("every sequence of {} out of {} points that are colinear up to rounding", len, n),
    n.pow(len as u32),
    |i| format!("{} {:?}", T::NAME, digits_vec(i, n, len).iter().map(|&d| tp[d].clone()).collect::<Vec<_>>()),
    |i, c| {
      let d = digits_vec(i, n, len);
      let v: Vec<P> = d.iter().map(|&d| e[d]).collect();
      judge::<T>(c, &v, d.iter().map(|&d| tp[d].clone()).collect())
    },
  );
}

fn main() {
  let mut k = Check::new("C08");
  for len in 0..=k.pick(7, 8) {
    sequences::<i64>(&mut k, "3x3 grid", &grid(3, 3), len);
  }
  let len = k.pick(5, 6);
  sequences::<i8>(&mut k, "4x4 grid", &grid(4, 4), len);
  let l5 = k.pick(4, 5);
  sequences::<i32>(&mut k, "5x5 grid", &grid(5, 5), l5);
  let len = k.pick(5, 6);
  each_type!(T in [i8, i16, i32, i64, isize, BigInt, BigRational, f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] {
    embed::<T>(&mut k, len);
  });
  let len = k.pick(4, 5);
  each_type!(T in [f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] { floats::<T>(&mut k, len); });
  // All simple polygons of a larger grid (both windings, from every start for the small ones)
  let ps = simple_polygons(&grid(4, 4), 5, k.pick(7, 8));
  k.space("i8/all simple 4x4", "every simple polygon over the 4x4 grid with 5.. vertices, both windings, rotated start", ps.len(), |i| format!("{:?}", ps.get(i)), |i, c| {
    let v = rotated(&ps.get(i), (i % 5) as usize);
    judge::<i8>(c, &v, pts::<i8>(&v))?;
    let mut w = v;
    w.reverse();
    judge::<i8>(c, &w, pts::<i8>(&w))
  });
  let (n, r) = k.pick((300, 8), (300, 60));
  large::<i64>(&mut k, n, r);
  let m = k.pick(100, 300);
  large::<BigInt>(&mut k, m, 3);
  large::<f64>(&mut k, m, 3);
  large::<i16>(&mut k, m, 3);
  large::<i8>(&mut k, 70, 4);
  let m = k.pick(40, 70);
  spoiled(&mut k, m);
  thousand(&mut k);
  far_pairs(&mut k);
  k.assume("float coordinates are finite, without negative zero, and coordinate products neither overflow nor underflow");
  k.finish()
}
