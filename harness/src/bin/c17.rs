//! C17: the hull of a simple polygon is exact from every starting vertex.
use harness::oracle::*;
use harness::polyenum::*;
use harness::polys::*;
use harness::rngs::*;
use harness::scalars::*;
use harness::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::algorithms::convex_hull::melkman;
use rgeometry::algorithms::polygonization::two_opt_moves;
use rgeometry::data::{Point, Polygon};

fn judge<T: Sc>(c: &mut Ctx, p: &Polygon<T>, h: &[Point<T>], what: &dyn std::fmt::Debug) -> R {
  let before = boundary(p);
  let got = match guarded(|| melkman::convex_hull(p)) {
    Ok(g) => g,
    Err(e) => return Err(format!("{} hull of {:?}: {}", T::NAME, what, e)),
  };
  c.op(1);
  c.trace();
  let b = boundary(got.polygon());
  ensure!(is_rotation(h, &b), "{} hull of {:?} should be {:?} but is {:?}", T::NAME, what, h, b);
  ensure!(got.polygon().iter().count() == h.len(), "{} hull of {:?} stores extra points", T::NAME, what);
  ensure!(got.validate().is_ok(), "{} hull of {:?} does not validate: {:?}", T::NAME, what, got.validate());
  ensure!(boundary(p) == before, "{} hull of {:?} changes its input", T::NAME, what);
  c.outcome(if h.len() == before.len() { "convex" } else { "reduced" });
  Ok(())
}
/// Every starting vertex, built counter-clockwise and clockwise.
fn all_starts<T: Sc>(c: &mut Ctx, v: &[P]) -> R {
  let h = pts::<T>(&hull(v));
  for s in 0..v.len() {
    for rev in [false, true] {
      judge(c, &poly_var::<T>(v, s, rev)?, &h, &(v, s, rev))?;
    }
  }
  c.state();
  Ok(())
}
fn polygons<T: Sc>(k: &mut Check, label: &str, a: &[P], nmax: usize) {
  let ps = simple_polygons(a, 3, nmax);
  k.space(
    &format!("{}/{} up to {} vertices", T::NAME, label, nmax),
    "every simple polygon, every starting vertex, built counter-clockwise and clockwise",
    ps.len() as u64,
    |i| format!("{} {:?}", T::NAME, ps.get(i)),
    |i, c| all_starts::<T>(c, &ps.get(i)),
  );
}
fn embed<T: Sc>(k: &mut Check, size: usize, n: usize) {
  let (lo, hi) = T::lim();
  for t in tables(lo, hi, size) {
    let a: Vec<P> = t.iter().flat_map(|&x| t.iter().map(move |&y| [x, y])).collect();
    polygons::<T>(k, &format!("coordinates {:?}", t), &a, n);
  }
}
/// Polygons whose vertices are stored in an order unrelated to the boundary: uncrossed from every
/// order of every subset.
fn untangled(k: &mut Check, label: &str, a: &[P], m: usize, draws: u64) {
  let n = a.len() as u64;
  let f = (0..m as u64).map(|j| n - j).product::<u64>();
  k.space(
    &format!("i32/{} uncrossed from {} points", label, m),
    &format!("every ordered choice of {} of {} points, uncrossed with {} fixed random sources, then hulled", m, n, draws),
    f * draws,
    |i| format!("{:?} source {}", arrangement(i / draws, a, m), i % draws),
    |i, c| {
      let v = arrangement(i / draws, a, m);
      if all_colinear(&v) {
        return Ok(());
      }
      let src = i % draws;
      let mut left = 100_000u64;
      let mut rng = TapeRng {
        tape: vec![],
        pos: 0,
        tail: || {
          left -= 1;
          if src == 0 {
            0
          } else {
            mixed(left ^ src << 32)
          }
        },
      };
      let p = match two_opt_moves(pts::<i32>(&v), &mut rng) {
        Ok(p) => p,
        Err(e) => return Err(format!("uncrossing {:?} fails: {:?}", v, e)),
      };
      let stored: Vec<Point<i32>> = p.iter().cloned().collect();
      c.outcome(if is_rotation(&stored, &boundary(&p)) { "stored in boundary order" } else { "stored in another order" });
      c.state();
      judge(c, &p, &pts::<i32>(&hull(&v)), &(&v, src))
    },
  );
}

fn main() {
  let mut k = Check::new("C17");
  polygons::<i64>(&mut k, "3x3 grid", &grid(3, 3), 9);
  let n = k.pick(9, 12);
  polygons::<i32>(&mut k, "4x3 grid", &grid(4, 3), n);
  let n = k.pick(7, 8);
  polygons::<i32>(&mut k, "4x4 grid", &grid(4, 4), n);
  let n = k.pick(5, 6);
  polygons::<i8>(&mut k, "5x5 grid", &grid(5, 5), n);
  if k.thorough() {
    polygons::<i16>(&mut k, "5x4 grid", &grid(5, 4), 7);
    polygons::<i16>(&mut k, "5x3 grid", &grid(5, 3), 9);
  }
  each_type!(T in [i8, i16, i32, i64, isize] { embed::<T>(&mut k, 3, 9); });
  each_type!(T in [i8, i64] { let n = k.pick(5, 6); embed::<T>(&mut k, 4, n); });
  each_type!(T in [BigInt, f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] { embed::<T>(&mut k, 3, 9); });
  let n = k.pick(5, 9);
  embed::<BigRational>(&mut k, 3, n);
  fn floats<T: FSc>(k: &mut Check) {
    let (e, tp) = near_points::<T>();
    let mut ix: Vec<usize> = (0..e.len()).collect();
    ix.sort_by_key(|&i| e[i]);
    let a: Vec<P> = ix.iter().map(|&i| e[i]).collect();
    let tp: Vec<Point<T>> = ix.iter().map(|&i| tp[i].clone()).collect();
    let ps = simple_polygons(&a, 3, k.pick(6, 9));
    k.space(
      &format!("{}/nearly colinear", T::NAME),
      "every simple polygon over nine nearly colinear points, every start, both directions",
      ps.len() as u64,
      |i| format!("{} {:?}", T::NAME, ps.get(i)),
      |i, c| {
        let idx: Vec<usize> = ps.idx(i).iter().map(|&x| x as usize).collect();
        let v: Vec<P> = idx.iter().map(|&x| a[x]).collect();
        let at = |q: &P| tp[a.iter().position(|x| x == q).unwrap()].clone();
        let h: Vec<Point<T>> = hull(&v).iter().map(at).collect();
        for s in 0..v.len() {
          for rev in [false, true] {
            let mut w = rotated(&v, s);
            if rev {
              w.reverse();
            }
            let p = Polygon::new(w.iter().map(at).collect()).map_err(|e| format!("{:?} rejected: {:?}", w, e))?;
            judge(c, &p, &h, &w)?;
          }
        }
        c.state();
        Ok(())
      },
    );
  }
  each_type!(T in [f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] { floats::<T>(&mut k); });
  let m = k.pick(6, 7);
  untangled(&mut k, "3x3 grid", &grid(3, 3), m, 3);
  untangled(&mut k, "4x3 grid", &grid(4, 3), m - 1, 3);
  if k.thorough() {
    untangled(&mut k, "3x3 grid", &grid(3, 3), 9, 2);
  }
  let fam = families(k.pick(120, 300));
  k.space("i64/large", "structured polygons, every starting vertex, both directions", fam.len() as u64, |i| fam[i as usize].0.clone(), |i, c| all_starts::<i64>(c, &fam[i as usize].1));
  let arc: Vec<_> = k.pick(vec![(8, 1), (24, 1), (12, 2)], vec![(8, 1), (24, 1), (60, 1), (100, 1), (8, 2), (16, 2)]).into_iter().flat_map(|(n, e)| arcs(n, e)).collect();
  k.space("i64/arcs closed by far vertices", "arcs of convex polygons closed by one or two vertices in all directions, every starting vertex, both directions", arc.len() as u64, |i| arc[i as usize].0.clone(), |i, c| all_starts::<i64>(c, &arc[i as usize].1));
  let big = huge();
  k.space("i64/more than 65536 vertices", "structured polygons in eight orientations, two starts", big.len() as u64 * 16, |i| format!("{} symmetry {} start {}", big[(i / 16) as usize].0, i / 2 % 8, i % 2), |i, c| {
    let v = dihedral_poly(&big[(i / 16) as usize].1, (i / 2 % 8) as usize);
    let want = pts::<i64>(&hull(&v));
    let p = Polygon::new_unchecked(pts::<i64>(&rotated(&v, i as usize % 2 * 40_000)));
    let b = boundary(melkman::convex_hull(&p).polygon());
    ensure!(is_rotation(&want, &b), "the hull should have {} corners, has {} or others", want.len(), b.len());
    c.op(1);
    c.state();
    c.trace();
    Ok(())
  });
  k.assume("float coordinates are finite, without negative zero, and coordinate products neither overflow nor underflow");
  k.finish()
}
