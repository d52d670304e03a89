//! C04: angular ordering around a point is the exact counter-clockwise order.
use harness::oracle::*;
use harness::rngs::mixed;
use harness::scalars::*;
use harness::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::{Point, Vector};
use rgeometry::Orientation;
use std::cmp::Ordering;

fn name(o: Ordering) -> &'static str {
  match o {
    Ordering::Less => "before",
    Ordering::Equal => "same angle",
    Ordering::Greater => "after",
  }
}
type E = (P, P, P, P);

fn judge<T: Sc>(c: &mut Ctx, e: E, unit: bool, z: &Vector<T, 2>, o: &Point<T>, q: &Point<T>, r: &Point<T>) -> R {
  let want = cmp_angle(e.0, e.1, e.2, e.3);
  let got = o.ccw_cmp_around_with(z, q, r);
  ensure!(got == want, "around {:?} from {:?}: {:?} vs {:?}: expected {}, got {}", o, z, q, r, name(want), name(got));
  let got = Orientation::ccw_cmp_around_with(z, o, q, r);
  ensure!(got == want, "orientation form, around {:?} from {:?}: {:?} vs {:?}: expected {}, got {}", o, z, q, r, name(want), name(got));
  let got = o.as_vec().ccw_cmp_around_with(z, q.as_vec(), r.as_vec());
  ensure!(got == want, "vector form, around {:?} from {:?}: {:?} vs {:?}: expected {}, got {}", o, z, q, r, name(want), name(got));
  c.op(3);
  if unit {
    let a = o.ccw_cmp_around(q, r);
    let b = o.as_vec().ccw_cmp_around(q.as_vec(), r.as_vec());
    ensure!(a == want && b == want, "default start, around {:?}: {:?} vs {:?}: expected {}, got {} and {}", o, q, r, name(want), name(a), name(b));
    c.op(2);
  }
  c.outcome(name(want));
  Ok(())
}

/// Everything over one coordinate table: direction x centre per index; all ordered pairs inside.
fn table<T: Sc>(k: &mut Check, label: &str, vt: &[i128], pt_: &[i128], mkv: &(dyn Fn(i128) -> T + Sync), mkp: &(dyn Fn(i128) -> T + Sync), one: i128) {
  let (nv, np) = (vt.len() as u64, pt_.len() as u64);
  k.space(
    &format!("{}/{}", T::NAME, label),
    &format!("directions over {} values^2 (non-zero) x centre and two points over {} values^2", nv, np),
    nv * nv * np * np,
    |i| {
      let z = [vt[(i % nv) as usize], vt[(i / nv % nv) as usize]];
      let o = [pt_[(i / nv / nv % np) as usize], pt_[(i / nv / nv / np) as usize]];
      format!("{} direction {:?} centre {:?} all pairs", T::NAME, z, o)
    },
    |i, c| {
      let z = [vt[(i % nv) as usize], vt[(i / nv % nv) as usize]];
      let o = [pt_[(i / nv / nv % np) as usize], pt_[(i / nv / nv / np) as usize]];
      if z == [0, 0] {
        return Ok(());
      }
      let zv = Vector([mkv(z[0]), mkv(z[1])]);
      let ov = Point::new([mkp(o[0]), mkp(o[1])]);
      let unit = z == [one, 0];
      let all: Vec<(P, Point<T>)> = pt_
        .iter()
        .flat_map(|&x| pt_.iter().map(move |&y| [x, y]))
        .filter(|p| *p != o)
        .map(|p| (p, Point::new([mkp(p[0]), mkp(p[1])])))
        .collect();
      for (qe, q) in &all {
        for (re, r) in &all {
          c.state();
          c.trace();
          judge(c, (z, o, *qe, *re), unit, &zv, &ov, q, r)?;
        }
      }
      Ok(())
    },
  );
}

fn ints<T: Sc>(k: &mut Check) {
  let (lo, hi) = T::lim();
  let rat = T::NAME == "BigRational";
  let s = k.pick(if rat { 3 } else if hi > i64::MAX as i128 { 4 } else { 5 }, if rat { 4 } else { 6 });
  let v = extreme_alphabet(lo, hi, s);
  let mut p = extreme_alphabet(lo, hi, s);
  // points near both ends so that differences wrap
  p.extend([lo + 1, hi - 1]);
  p.sort();
  p.dedup();
  p.truncate(k.pick(if rat { 4 } else { 6 }, if rat { 5 } else { 7 }));
  let v = if T::NAME == "BigRational" { v.iter().map(|x| x * 3).collect() } else { v };
  let p: Vec<i128> = if T::NAME == "BigRational" { p.iter().map(|x| x * 3).collect() } else { p };
  let one = if T::NAME == "BigRational" { 3 } else { 1 };
  table::<T>(k, "extremes", &v, &p, &|x| T::mk(x), &|x| T::mk(x), one);
  let small: Vec<i128> = (-2i128..=2).map(|x| x * one).collect();
  table::<T>(k, "small", &small, &small, &|x| T::mk(x), &|x| T::mk(x), one);
}

fn floats<T: FSc>(k: &mut Check) {
  let eps = if T::SINGLE { f32::EPSILON as f64 } else { f64::EPSILON };
  let t: Vec<f64> = vec![-65536.0, 0.0, 1.0, 1.0 + eps, 1.0 - eps / 2.0, 2f64.powi(-20)];
  let mut t: Vec<f64> = t.into_iter().take(k.pick(4, 6)).collect();
  t.sort_by(f64::total_cmp);
  let ex = exact_scaled(&t);
  let (ex2, t2) = (ex.clone(), t.clone());
  let one = ex[t.iter().position(|&x| x == 1.0).unwrap()];
  let mk = move |x: i128| T::mkf(t2[ex2.iter().position(|&y| y == x).unwrap()]);
  table::<T>(k, "mixed magnitude", &ex, &ex, &mk, &mk, one);
}

fn sorts<T: Sc>(k: &mut Check, len: u64) {
  // every sequence of `len` vectors out of 16 directions/lengths
  let vs: Vec<P> = vec![
    [1, 0], [2, 0], [2, 1], [1, 1], [3, 3], [0, 1], [-1, 2], [-1, 0], [-3, 0], [-2, -1], [-1, -1], [0, -1], [0, -2], [1, -1], [3, -1], [3, 1],
  ];
  let n = vs.len() as u64;
  k.space(
    &format!("{}/sort around", T::NAME),
    &format!("every sequence of {} vectors out of {}: sorting yields a rotational order and a permutation", len, n),
    n.pow(len as u32),
    |i| format!("{} sort {:?}", T::NAME, digits_vec(i, n, len as usize).iter().map(|&d| vs[d]).collect::<Vec<_>>()),
    |i, c| {
      let e: Vec<P> = digits_vec(i, n, len as usize).iter().map(|&d| vs[d]).collect();
      sort_one::<T>(c, &e)
    },
  );
  // long inputs (the standard sort changes algorithm with size): every rotation and stride order of the 5x5 ring
  let mut ring: Vec<P> = vec![];
  for x in -3..=3i128 {
    for y in -3..=3i128 {
      if [x, y] != [0, 0] {
        ring.push([x, y]);
      }
    }
  }
  let m = ring.len() as u64;
  k.space(
    &format!("{}/sort around, long", T::NAME),
    "48 vectors in every start x stride order",
    m * m,
    |i| format!("{} 48 grid vectors, start {} stride {}", T::NAME, i % m, i / m),
    |i, c| {
      let (s, t) = (i % m, i / m + 1);
      // stride permutation of Z_49 without 0 (multiplication by t), then rotate
      let mut e: Vec<P> = (0..m).map(|j| ring[((((j + 1) * t) % 49 + s) % m) as usize]).collect();
      if t % 7 == 0 {
        e.push([1, 0]);
      }
      sort_one::<T>(c, &e)
    },
  );
}
fn sort_one<T: Sc>(c: &mut Ctx, e: &[P]) -> R {
  let mut v: Vec<Vector<T, 2>> = e.iter().map(|p| Vector([T::mk(p[0]), T::mk(p[1])])).collect();
  Vector::sort_around(&mut v);
  c.state();
  c.trace();
  c.op(1);
  ensure!(v.len() == e.len(), "sort changed the number of vectors");
  let mut left: Vec<(P, Vector<T, 2>)> = e.iter().map(|p| (*p, Vector([T::mk(p[0]), T::mk(p[1])]))).collect();
  let mut out: Vec<P> = vec![];
  for x in &v {
    match left.iter().position(|(_, y)| y == x) {
      None => return Err(format!("sort result {:?} is not a permutation of the input {:?}", v, e)),
      Some(j) => out.push(left.swap_remove(j).0),
    }
  }
  for w in out.windows(2) {
    ensure!(
      cmp_angle([1, 0], [0, 0], w[0], w[1]) != Ordering::Greater,
      "sorted order of {:?} is {:?}: {:?} comes before {:?}", e, out, w[0], w[1]
    );
  }
  Ok(())
}

/// Large sets of vectors: the judge compares sorted copies, so it is not quadratic.
fn sort_many<T: Sc + num_traits::ToPrimitive>(k: &mut Check, sizes: &[usize], box_: i128) {
  let n = sizes.len() as u64;
  k.space(
    &format!("{}/sort around, very long", T::NAME),
    "up to 70000 vectors in eight arrangements",
    n * 8,
    |i| format!("{} vectors, arrangement {}", sizes[(i / 8) as usize], i % 8),
    |i, c| {
      let (m, way) = (sizes[(i / 8) as usize] as i128, i % 8);
      let w = 2 * box_ + 1;
      let mut e: Vec<P> = (0..m)
        .map(|j| {
          let h = mixed((i / 8) << 32 | (way << 40) | j as u64) as i128;
          match way {
            0 => [h % w - box_, h / w % w - box_],
            1 => [j * 7 % w - box_, j / w * 3 % w - box_],
            2 => [h % w - box_, 0],
            3 => [0, h % w - box_],
            4 => [h % box_ + 1, -(h / w % box_) - 1],
            5 => [-(h % box_) - 1, h / w % w - box_],
            6 => [(h % 7 - 3) * (h / 8 % 5), (h / 64 % 7 - 3) * (h / 8 % 5)],
            _ => [box_ - j % w, box_],
          }
        })
        .filter(|p| *p != [0, 0])
        .collect();
      let mut v: Vec<Vector<T, 2>> = e.iter().map(|p| Vector([T::mk(p[0]), T::mk(p[1])])).collect();
      Vector::sort_around(&mut v);
      let mut out: Vec<P> = v.iter().map(|x| [x.0[0].to_i128().unwrap(), x.0[1].to_i128().unwrap()]).collect();
      for (j, x) in out.windows(2).enumerate() {
        ensure!(
          cmp_angle([1, 0], [0, 0], x[0], x[1]) != Ordering::Greater,
          "{} vectors: {:?} comes before {:?} at position {}", m, x[0], x[1], j
        );
      }
      out.sort();
      e.sort();
      ensure!(out == e, "{} vectors: the result is not a permutation of the input", m);
      c.op(1);
      c.state();
      c.trace();
      Ok(())
    },
  );
}

fn main() {
  let mut k = Check::new("C04");
  // Dense: every direction/pair of a 9x9 grid around the origin, i8 and BigInt.
  let g = k.pick(4, 6);
  fn dense<T: Sc>(k: &mut Check, g: i128) {
    let w = (2 * g + 1) as u64;
    k.space(
      &format!("{}/dense grid", T::NAME),
      &format!("centre at the origin; direction and both points over a {}x{} grid", w, w),
      w * w,
      |i| format!("{} direction ({},{}) all pairs", T::NAME, (i % w) as i128 - g, (i / w) as i128 - g),
      |i, c| {
        let z = [(i % w) as i128 - g, (i / w) as i128 - g];
        if z == [0, 0] {
          return Ok(());
        }
        let zv = Vector([T::mk(z[0]), T::mk(z[1])]);
        let o = pt::<T>([0, 0]);
        let all: Vec<(P, Point<T>)> = (-g..=g)
          .flat_map(|x| (-g..=g).map(move |y| [x, y]))
          .filter(|p| *p != [0, 0])
          .map(|p| (p, pt::<T>(p)))
          .collect();
        for (qe, q) in &all {
          for (re, r) in &all {
            c.state();
            c.trace();
            judge(c, (z, [0, 0], *qe, *re), z == [1, 0] && T::NAME != "BigRational", &zv, &o, q, r)?;
          }
        }
        Ok(())
      },
    );
  }
  dense::<i8>(&mut k, g);
  dense::<i64>(&mut k, g);
  let (g1, g2, g3) = (k.pick(3, 5), k.pick(2, 3), k.pick(2, 4));
  dense::<BigInt>(&mut k, g1);
  dense::<BigRational>(&mut k, g2);
  dense::<f64>(&mut k, g3);
  each_type!(T in [i8, i16, i32, i64, isize, BigInt, BigRational] { ints::<T>(&mut k); });
  with_gmp!(T { ints::<T>(&mut k); });
  each_type!(T in [f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] { floats::<T>(&mut k); });
  let l = k.pick(4, 5);
  sorts::<i32>(&mut k, l);
  sorts::<i8>(&mut k, 4);
  sorts::<BigInt>(&mut k, 3);
  sorts::<f64>(&mut k, 3);
  sorts::<OrderedFloat<f64>>(&mut k, 2);
  let sizes = [49usize, 64, 65, 100, 256, 257, 1000, 1025, 5000, 65_537, 70_000];
  sort_many::<i8>(&mut k, &sizes, 120);
  sort_many::<i64>(&mut k, &sizes, 1 << 60);
  sort_many::<isize>(&mut k, &sizes[..9], 50);
  sort_many::<f64>(&mut k, &sizes[..9], 3000);
  k.assume("both points differ from the centre and the start direction is non-zero");
  k.assume("float coordinates are finite and their coordinate products neither overflow nor underflow");
  k.finish()
}
