//! C13: triangles: construction, location, area, bounds and sampling are exact.
use harness::oracle::*;
use harness::polyenum::*;
use harness::polys::*;
use harness::rngs::*;
use harness::scalars::*;
use harness::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{FromPrimitive, NumOps};
use ordered_float::{NotNan, OrderedFloat};
use rand::distributions::uniform::SampleUniform;
use rgeometry::data::{Point, Triangle, TriangleView};
use rgeometry::Orientation;
use std::fmt::Debug;

fn tri_loc(v: &[P; 3], q: P) -> Loc {
  locate(v, q)
}
/// Construction, orientation, bounds and location of one ordered triple.
fn one<T: Sc>(c: &mut Ctx, v: &[P; 3], tp: &[Point<T>; 3], qs: &[P], tq: &[Point<T>]) -> R {
  let o = orient(v[0], v[1], v[2]);
  let refs = [&tp[0], &tp[1], &tp[2]];
  let own = Triangle::new(tp.clone());
  let view = TriangleView::new(refs);
  ensure!(own.is_ok() == (o > 0), "{}: Triangle::new({:?}) turn {}: accepted={}", T::NAME, v, o, own.is_ok());
  ensure!(view.is_ok() == (o > 0), "{}: TriangleView::new({:?}) turn {}: accepted={}", T::NAME, v, o, view.is_ok());
  let raw = TriangleView::new_unchecked(refs);
  same!(format!("{}: orientation of {:?}", T::NAME, v), o, sgn(raw.orientation()));
  ensure!(raw.validate().is_ok() == (o > 0), "{}: validate({:?})", T::NAME, v);
  let m = |k: usize| v.iter().map(|p| p[k]).min().unwrap();
  let x = |k: usize| v.iter().map(|p| p[k]).max().unwrap();
  let bb = (pt::<T>([m(0), m(1)]), pt::<T>([x(0), x(1)]));
  same!(format!("{}: bounding box of {:?}", T::NAME, v), bb, raw.bounding_box());
  c.op(5);
  c.state();
  c.trace();
  c.outcome(match o {
    1 => "left",
    -1 => "right",
    _ => "straight",
  });
  if o == 0 {
    return Ok(());
  }
  let a = Triangle::new_ccw(tp.clone());
  let b = TriangleView::new_ccw(refs);
  ensure!(a.validate().is_ok() && b.validate().is_ok(), "{}: new_ccw({:?}) does not turn left", T::NAME, v);
  same!(format!("{}: orientation of new_ccw({:?})", T::NAME, v), Orientation::CounterClockWise, b.orientation());
  same!(format!("{}: bounding box of new_ccw({:?})", T::NAME, v), bb, b.bounding_box());
  same!(format!("{}: bounding box of new_ccw({:?})", T::NAME, v), bb, a.view().bounding_box());
  c.op(3);
  for (q, t) in qs.iter().zip(tq) {
    let w = tri_loc(v, *q);
    same!(format!("{}: locating {:?} in oriented triangle {:?}", T::NAME, q, v), w, loc_of(a.locate(t)));
    same!(format!("{}: locating {:?} in oriented triangle view {:?}", T::NAME, q, v), w, loc_of(b.locate(t)));
    c.op(2);
    if o > 0 {
      same!(format!("{}: locating {:?} in triangle {:?}", T::NAME, q, v), w, loc_of(raw.locate(t)));
      c.op(1);
    }
  }
  Ok(())
}
fn triples<T: Sc>(k: &mut Check, label: &str, a: Vec<P>, qs: Vec<P>) {
  let n = a.len() as u64;
  let ta = pts::<T>(&a);
  let tq = pts::<T>(&qs);
  k.space(
    &format!("{}/{}", T::NAME, label),
    &format!("every ordered triple of {} points, located against {} points", n, qs.len()),
    n * n * n,
    |i| format!("{} {:?}", T::NAME, digits::<3>(i, n).map(|d| a[d])),
    |i, c| {
      let d = digits::<3>(i, n);
      one::<T>(c, &d.map(|d| a[d]), &d.map(|d| ta[d].clone()), &qs, &tq)
    },
  );
}
fn square(t: &[i128]) -> Vec<P> {
  t.iter().flat_map(|&x| t.iter().map(move |&y| [x, y])).collect()
}
fn area<T, F>(c: &mut Ctx, v: &[P; 3], mk: impl Fn(&BigInt) -> F) -> R
where
  T: Sc + Into<F>,
  F: NumOps<F, F> + FromPrimitive + Clone + PartialEq + Debug,
{
  let b = |x: i128| BigInt::from(x);
  let a = (b(v[1][0]) - b(v[0][0])) * (b(v[2][1]) - b(v[0][1])) - (b(v[1][1]) - b(v[0][1])) * (b(v[2][0]) - b(v[0][0]));
  let tp = v.map(pt::<T>);
  let raw = TriangleView::new_unchecked([&tp[0], &tp[1], &tp[2]]);
  same!(format!("{}: twice the area of {:?}", T::NAME, v), mk(&a), raw.signed_area_2x::<F>());
  same!(format!("{}: area of {:?}", T::NAME, v), mk(&a) / F::from_usize(2).unwrap(), raw.signed_area::<F>());
  c.op(2);
  if a != b(0) {
    let abs = if a < b(0) { -&a } else { a.clone() };
    let t = Triangle::new_ccw(tp.clone());
    same!(format!("{}: twice the area of oriented {:?}", T::NAME, v), mk(&abs), t.view().signed_area_2x::<F>());
    c.op(1);
  }
  c.state();
  c.trace();
  Ok(())
}
fn areas<T: Sc>(k: &mut Check, label: &str, a: &[P], f: impl Fn(&mut Ctx, &[P; 3]) -> R + Sync) {
  let n = a.len() as u64;
  k.space(&format!("{}/area {}", T::NAME, label), &format!("signed area of every ordered triple of {} points", n), n * n * n, |i| format!("{} {:?}", T::NAME, digits::<3>(i, n).map(|d| a[d])), |i, c| f(c, &digits::<3>(i, n).map(|d| a[d])));
}

/// Rejection sampling under every script of draws; after the script the source keeps proposing
/// low and high words in every combination, so a corner of the bounding box comes up.
fn sampling<T: Sc + SampleUniform>(k: &mut Check, label: &str, a: &[P], len: u32, exact: impl Fn(&[Point<T>]) -> Vec<P> + Sync) {
  let words: [u64; 6] = [0, 1 << 62, 1 << 63, 3 << 62, u64::MAX, u64::MAX - (1 << 61) + 12345];
  let tri: Vec<[P; 3]> = (0..(a.len() as u64).pow(3)).map(|i| digits::<3>(i, a.len() as u64).map(|d| a[d])).filter(|v| orient(v[0], v[1], v[2]) > 0).collect();
  let s = (words.len() as u64).pow(len);
  k.space(
    &format!("{}/sampling {}", T::NAME, label),
    &format!("{} triangles, every script of {} draws out of {} words", tri.len(), len, words.len()),
    tri.len() as u64 * s,
    |i| format!("{} {:?} draws {:?}", T::NAME, tri[(i / s) as usize], digits_vec(i % s, words.len() as u64, len as usize)),
    |i, c| {
      let v = tri[(i / s) as usize];
      let tape: Vec<u64> = digits_vec(i % s, words.len() as u64, len as usize).iter().map(|&d| words[d]).collect();
      let mut n = 0u64;
      let mut rng = TapeRng {
        tape,
        pos: 0,
        tail: move || {
          // pairs (x, y) from {0, 2^64 - 2^j}; every pair comes up within 2 * 65 * 65 draws
          let (p, second) = (n / 2, n % 2 == 1);
          assert!(p < 65 * 65 * 2, "a bounding box corner keeps being proposed but sampling does not finish");
          n += 1;
          let d = if second { p % 65 } else { p / 65 % 65 };
          if d == 0 {
            0
          } else {
            0u64.wrapping_sub(1 << (64 - d))
          }
        },
      };
      let tp = v.map(pt::<T>);
      let got = TriangleView::new_unchecked([&tp[0], &tp[1], &tp[2]]).rejection_sampling(&mut rng);
      let [p, q, r] = tp;
      let e = exact(&[p, q, r, got.clone()]);
      let w = locate(&e[..3], e[3]);
      ensure!(w != Loc::Out, "{}: sampled {:?} outside triangle {:?}", T::NAME, got, v);
      c.outcome(if w == Loc::In { "inside" } else { "boundary" });
      c.op(1);
      c.state();
      c.trace();
      Ok(())
    },
  );
}
fn ints<T: Copy + Into<i64>>(p: &[Point<T>]) -> Vec<P> {
  p.iter().map(|p| p.array.map(|x| x.into() as i128)).collect()
}
fn flts<T: Copy + Into<f64>>(p: &[Point<T>]) -> Vec<P> {
  let f: Vec<f64> = p.iter().flat_map(|p| p.array.map(|x| x.into())).collect();
  exact_scaled(&f).chunks(2).map(|c| [c[0], c[1]]).collect()
}

fn main() {
  let mut k = Check::new("C13");
  let dbl = |g: Vec<P>| -> Vec<P> { g.iter().map(|p| [2 * p[0], 2 * p[1]]).collect() };
  let half = |w: i128| -> Vec<P> { (-1..=2 * w - 1).flat_map(|x| (-1..=2 * w - 1).map(move |y| [x, y])).collect() };
  each_type!(T in [i8, i16, i32, i64, isize, BigInt, BigRational, f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] {
    triples::<T>(&mut k, "3x3 grid", dbl(grid(3, 3)), half(3));
  });
  triples::<i64>(&mut k, "4x4 grid", dbl(grid(4, 4)), half(4));
  triples::<i8>(&mut k, "5x5 grid", dbl(grid(5, 5)), half(5));
  if k.thorough() {
    triples::<i32>(&mut k, "7x7 grid", dbl(grid(7, 7)), half(7));
  }
  each_type!(T in [i8, i16, i32, i64, isize] {
    let (lo, hi) = T::lim();
    let size = k.pick(5, 8);
    let a = square(&extreme_alphabet(lo, hi, size));
    triples::<T>(&mut k, "extremes", a.clone(), a.clone());
    areas::<T>(&mut k, "extremes", &a, |c, v| area::<T, BigInt>(c, v, |a| a.clone()));
  });
  each_type!(T in [f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>, BigInt, BigRational] {
    let (lo, hi) = T::lim();
    let size = k.pick(3, 4);
    let a = square(&extreme_alphabet(lo, hi, size));
    triples::<T>(&mut k, "extremes", a.clone(), a.clone());
  });
  fn floats<T: FSc>(k: &mut Check) {
    let (e, tp) = near_points::<T>();
    let n = e.len() as u64;
    k.space(&format!("{}/nearly degenerate", T::NAME), "every ordered triple of points colinear up to rounding, located against all of them", n * n * n, |i| format!("{} {:?}", T::NAME, digits::<3>(i, n).map(|d| tp[d].clone())), |i, c| {
      // bounds use exact integers, so compare them only through location here
      let d = digits::<3>(i, n);
      let v = d.map(|d| e[d]);
      let t = d.map(|d| tp[d].clone());
      let o = orient(v[0], v[1], v[2]);
      let own = Triangle::new(t.clone());
      ensure!(own.is_ok() == (o > 0), "{}: {:?} turn {} accepted={}", T::NAME, t, o, own.is_ok());
      let m = |k: usize| t.iter().map(|p| p.array[k].clone()).fold(t[0].array[k].clone(), |a, b| if b < a { b } else { a });
      let x = |k: usize| t.iter().map(|p| p.array[k].clone()).fold(t[0].array[k].clone(), |a, b| if b > a { b } else { a });
      let bb = (Point::new([m(0), m(1)]), Point::new([x(0), x(1)]));
      same!("bounding box", bb, TriangleView::new_unchecked([&t[0], &t[1], &t[2]]).bounding_box());
      if o != 0 {
        let tri = Triangle::new_ccw(t.clone());
        for j in 0..e.len() {
          same!(format!("{}: {:?} in {:?}", T::NAME, tp[j], t), locate(&v, e[j]), loc_of(tri.locate(&tp[j])));
          c.op(1);
        }
      }
      c.op(2);
      c.state();
      c.trace();
      Ok(())
    });
  }
  each_type!(T in [f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] { floats::<T>(&mut k); });
  let fi = |a: &BigInt| i64::try_from(a).unwrap();
  let g = grid(5, 5);
  areas::<i8>(&mut k, "5x5 grid", &g, |c, v| area::<i8, i8>(c, v, |a| fi(a) as i8));
  areas::<i16>(&mut k, "5x5 grid", &g, |c, v| area::<i16, i64>(c, v, fi));
  areas::<f64>(&mut k, "5x5 grid", &g, |c, v| area::<f64, f64>(c, v, |a| fi(a) as f64));
  areas::<f32>(&mut k, "5x5 grid", &g, |c, v| area::<f32, f64>(c, v, |a| fi(a) as f64));
  areas::<OrderedFloat<f64>>(&mut k, "5x5 grid", &g, |c, v| area::<OrderedFloat<f64>, OrderedFloat<f64>>(c, v, |a| OrderedFloat(fi(a) as f64)));
  areas::<BigRational>(&mut k, "3x3 grid", &grid(3, 3), |c, v| area::<BigRational, BigRational>(c, v, |a| BigRational::new(a.clone(), 9.into())));
  areas::<BigInt>(&mut k, "5x5 grid", &g, |c, v| area::<BigInt, BigInt>(c, v, |a| a.clone()));

  let len = k.pick(4, 6);
  let a = square(&[0, 1, 5]);
  each_type!(T in [i8, i16, i32, i64] {
    sampling::<T>(&mut k, "small", &a, len, ints::<T>);
    let (lo, hi) = T::lim();
    sampling::<T>(&mut k, "extremes", &square(&[lo, 1, hi]), len, ints::<T>);
  });
  sampling::<isize>(&mut k, "extremes", &square(&[isize::MIN as i128, 1, isize::MAX as i128]), len, |p| p.iter().map(|p| p.array.map(|x| x as i128)).collect());
  let l2 = k.pick(2, 4);
  sampling::<f64>(&mut k, "small", &a, l2, flts::<f64>);
  sampling::<f32>(&mut k, "small", &a, l2, flts::<f32>);
  sampling::<f64>(&mut k, "wide", &square(&[-1000, 7, 1 << 20]), l2, flts::<f64>);
  k.assume("the orienting constructor is given corners that are not colinear (it documents a panic otherwise); location is asked of left-turning triangles");
  k.assume("area result types are wide enough; float coordinates are finite, without negative zero, and products neither overflow nor underflow");
  k.finish()
}
