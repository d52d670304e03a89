//! C25: point order, equality and conversions are exact and lossless.
use harness::oracle::*;
use harness::polyenum::*;
use harness::polys::*;
use harness::scalars::*;
use harness::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, Zero};
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::{Point, Vector};
use rgeometry::TotalOrd;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

fn tuple<const N: usize>(mut i: u64, m: u64) -> [usize; N] {
  std::array::from_fn(|_| {
    let d = (i % m) as usize;
    i /= m;
    d
  })
}
/// Order and equality of every pair of tuples, by rank.
fn order_n<T: TotalOrd + Clone + Debug + Sync, const N: usize>(k: &mut Check, name: &str, vals: &[T], rank: &[i32]) {
  let m = vals.len() as u64;
  let np = m.pow(N as u32);
  k.space(
    &format!("order of {} in {}D", name, N),
    &format!("every ordered pair of {}-tuples over {} values including both extremes", N, m),
    np,
    |i| format!("{:?}", tuple::<N>(i, m).map(|d| vals[d].clone())),
    |i, c| {
      let a = tuple::<N>(i, m);
      let (ra, pa) = (a.map(|d| rank[d]), Point::new(a.map(|d| vals[d].clone())));
      for j in 0..np {
        let b = tuple::<N>(j, m);
        let (rb, pb) = (b.map(|d| rank[d]), Point::new(b.map(|d| vals[d].clone())));
        let want = ra.cmp(&rb);
        let e = |what: &str| format!("{} {} of {:?} and {:?}", name, what, pa, pb);
        same!(e("cmp"), want, pa.cmp(&pb));
        same!(e("total_cmp"), want, TotalOrd::total_cmp(&pa, &pb));
        same!(e("partial_cmp"), Some(want), pa.partial_cmp(&pb));
        same!(e("=="), want == Ordering::Equal, pa == pb);
        same!(e("<"), want == Ordering::Less, pa < pb);
        same!(e(">="), want != Ordering::Less, pa >= pb);
        same!(e("total_cmp of references"), want, TotalOrd::total_cmp(&&pa, &&pb));
        let (x, y) = ((pa.clone(), 1u32), (pb.clone(), 0u32));
        same!(e("total_cmp of pairs"), want.then(Ordering::Greater), TotalOrd::total_cmp(&x, &y));
        let (x, y) = ((3u32, &pa), (3u32, &pb));
        same!(e("total_cmp of pairs with equal head"), want, TotalOrd::total_cmp(&x, &y));
        let mn = TotalOrd::total_min(pa.clone(), pb.clone());
        let mx = TotalOrd::total_max(pa.clone(), pb.clone());
        let (lo, hi) = if want == Ordering::Greater { (&pb, &pa) } else { (&pa, &pb) };
        ensure!(mn == *lo && mx == *hi, "{}: {:?} {:?}", e("total_min/total_max"), mn, mx);
        c.op(12);
        c.state();
        c.outcome(match want {
          Ordering::Less => "less",
          Ordering::Equal => "equal",
          Ordering::Greater => "greater",
        });
      }
      c.trace();
      Ok(())
    },
  );
}
fn order<T: TotalOrd + Clone + Debug + Sync>(k: &mut Check, name: &str, vals: &[T], rank: &[i32]) {
  // 1D: everything; higher dimensions: an evenly chosen subset with both ends.
  let sub = |n: usize| -> (Vec<T>, Vec<i32>) {
    let l = vals.len();
    let n = n.min(l);
    let ix: Vec<usize> = (0..n).map(|i| i * (l - 1) / (n - 1).max(1)).collect();
    (ix.iter().map(|&i| vals[i].clone()).collect(), ix.iter().map(|&i| rank[i]).collect())
  };
  order_n::<T, 1>(k, name, vals, rank);
  let n2 = k.pick(7, 13);
  let n3 = k.pick(4, 6);
  let (v, r) = sub(n2);
  order_n::<T, 2>(k, name, &v, &r);
  let (v, r) = sub(n3);
  order_n::<T, 3>(k, name, &v, &r);
  let n4 = k.pick(2, 3);
  let (v, r) = sub(n4);
  order_n::<T, 4>(k, name, &v, &r);
  order_n::<T, 5>(k, name, &v, &r);
}
fn hash_of(x: &impl Hash) -> u64 {
  let mut h = DefaultHasher::new();
  x.hash(&mut h);
  h.finish()
}
fn hashes<T: TotalOrd + Clone + Debug + Sync + Hash>(k: &mut Check, name: &str, vals: &[T]) {
  let m = vals.len() as u64;
  k.space(
    &format!("hash of {}", name),
    "every pair of 2D points over the alphabet: equal points have equal hashes",
    m * m,
    |i| format!("{:?}", tuple::<2>(i, m).map(|d| vals[d].clone())),
    |i, c| {
      let pa = Point::new(tuple::<2>(i, m).map(|d| vals[d].clone()));
      for j in 0..m * m {
        let pb = Point::new(tuple::<2>(j, m).map(|d| vals[d].clone()));
        let (eq, he) = (pa == pb, hash_of(&pa) == hash_of(&pb));
        ensure!(!eq || he, "{}: {:?} == {:?} but their hashes differ", name, pa, pb);
        c.op(1);
        c.state();
        c.outcome(if eq { "equal" } else { "different" });
      }
      c.trace();
      Ok(())
    },
  );
}

const F: [f64; 21] = [
  f64::MIN,
  -1e300,
  -9007199254740993.5,
  -3.0,
  -1.0000000000000002,
  -1.0,
  -0.1,
  -f64::MIN_POSITIVE,
  -5e-324,
  0.0,
  5e-324,
  1.5e-323,
  2.2250738585072014e-308,
  0.1,
  0.30000000000000004,
  1.0,
  1.0000000000000002,
  123456789.0625,
  9007199254740992.0,
  1.7976931348623155e308,
  f64::MAX,
];
const G: [f32; 14] =
  [f32::MIN, -1e30, -16777217.0, -1.0, -0.1, -1e-45, 0.0, 1e-45, f32::MIN_POSITIVE, 0.1, 1.0, 1.0000001, 16777216.0, f32::MAX];

/// Exact value of a finite float, from its bits.
fn exact_f64(v: f64) -> BigRational {
  let b = v.to_bits();
  let e = ((b >> 52) & 0x7ff) as i64;
  let m = b & ((1 << 52) - 1);
  let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
  let m = BigInt::from(if b >> 63 == 1 { -(m as i64) } else { m as i64 });
  if e >= 0 {
    BigRational::from(m << e as usize)
  } else {
    BigRational::new(m, BigInt::one() << (-e) as usize)
  }
}
fn f_rational<const N: usize>(k: &mut Check, al: &[f64]) {
  let m = al.len() as u64;
  k.space(
    &format!("f64 to BigRational and back in {}D", N),
    "every tuple over the float alphabet (extremes, subnormals, neighbours of 1), by value and by reference",
    m.pow(N as u32),
    |i| format!("{:?}", tuple::<N>(i, m).map(|d| al[d])),
    |i, c| {
      let a = tuple::<N>(i, m).map(|d| al[d]);
      let p = Point::new(a);
      let want = a.map(exact_f64);
      let by_ref: Point<BigRational, N> = (&p).into();
      let by_val: Point<BigRational, N> = p.into();
      same!(format!("&Point<f64> {:?} to BigRational", a), want, by_ref.array);
      same!(format!("Point<f64> {:?} to BigRational", a), want, by_val.array);
      let v: Vector<BigRational, N> = Vector(a).try_into().map_err(|_| format!("Vector {:?} rejected", a))?;
      same!(format!("Vector<f64> {:?} to BigRational", a), want, v.0);
      let back_ref: Point<f64, N> = (&by_ref).into();
      let back_val: Point<f64, N> = by_val.into();
      ensure!(back_ref.array == a && back_val.array == a, "round trip of {:?} through BigRational: {:?} and {:?}", a, back_ref, back_val);
      c.op(5);
      c.state();
      c.trace();
      c.outcome(if a.iter().any(|x| x.is_subnormal()) { "subnormal" } else { "normal" });
      Ok(())
    },
  );
}
fn nan_f64<const N: usize>(k: &mut Check) {
  let al = [0.5, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::from_bits(0x7ff0000000000001)];
  let m = al.len() as u64;
  k.space(
    &format!("NaN and infinity in {}D", N),
    "every tuple over finite values, infinities and three NaN encodings",
    m.pow(N as u32),
    |i| format!("{:?}", tuple::<N>(i, m).map(|d| al[d])),
    |i, c| {
      let a = tuple::<N>(i, m).map(|d| al[d]);
      let nan = a.iter().any(|x| x.is_nan());
      let fin = a.iter().all(|x| x.is_finite());
      let bits = a.map(f64::to_bits);
      let t: Result<Point<NotNan<f64>, N>, _> = Point::new(a).try_into();
      ensure!(t.is_ok() == !nan, "TryFrom {:?} to NotNan: accepted={}", a, t.is_ok());
      if let Ok(p) = t {
        same!(format!("TryFrom {:?} to NotNan", a), bits, p.array.map(|x| x.into_inner().to_bits()));
      }
      let t = guarded(|| Point::new_nn(a));
      ensure!(t.is_ok() == !nan, "new_nn({:?}): accepted={}", a, t.is_ok());
      if let Ok(p) = t {
        same!(format!("new_nn({:?})", a), bits, p.array.map(|x: NotNan<f64>| x.into_inner().to_bits()));
      }
      let s = a.map(|x| x as f32);
      let t = guarded(|| Point::<f32, N>::new_nn(s));
      ensure!(t.is_ok() == !nan, "new_nn({:?}) single: accepted={}", s, t.is_ok());
      let t: Result<Vector<BigRational, N>, ()> = Vector(a).try_into();
      ensure!(t.is_ok() == fin, "Vector {:?} to BigRational: accepted={}", a, t.is_ok());
      let t = guarded(|| Point::<BigRational, N>::from(Point::new(a)));
      ensure!(t.is_ok() == fin, "Point {:?} to BigRational: accepted={}", a, t.is_ok());
      let t = guarded(|| Point::<BigRational, N>::from(&Point::new(a)));
      ensure!(t.is_ok() == fin, "&Point {:?} to BigRational: accepted={}", a, t.is_ok());
      c.op(6);
      c.state();
      c.trace();
      c.outcome(if nan {
        "NaN"
      } else if fin {
        "finite"
      } else {
        "infinite"
      });
      Ok(())
    },
  );
}

/// Widening casts keep every coordinate.
fn widen<A, B, const N: usize>(k: &mut Check, an: &str, bn: &str, al: &[i128])
where
  A: Clone + Into<B> + TryFrom<i128> + Debug + 'static,
  <A as TryFrom<i128>>::Error: Debug,
  B: Exact,
{
  let m = al.len() as u64;
  k.space(
    &format!("cast {} to {} in {}D", an, bn, N),
    &format!("every tuple over {} values reaching both extremes", m),
    m.pow(N as u32),
    |i| format!("{:?}", tuple::<N>(i, m).map(|d| al[d])),
    |i, c| {
      let a = tuple::<N>(i, m).map(|d| al[d]);
      let t = a.map(|x| A::try_from(x).expect("harness alphabet"));
      let want = a.map(|x| BigRational::from(BigInt::from(x)));
      let p = Point::new(t.clone());
      same!(format!("Point {:?} {}→{}", a, an, bn), want, p.cast::<B>().array.map(|x| x.exact()));
      same!(format!("Point::map {:?} {}→{}", a, an, bn), want, p.map(|x| -> B { x.into() }).array.map(|x| x.exact()));
      let v = Vector(t);
      same!(format!("Vector {:?} {}→{}", a, an, bn), want, v.cast::<B>().0.map(|x| x.exact()));
      same!(format!("Vector::map {:?} {}→{}", a, an, bn), want, v.map(|x| -> B { x.into() }).0.map(|x| x.exact()));
      c.op(4);
      c.state();
      c.trace();
      c.outcome("same value");
      Ok(())
    },
  );
}
trait Exact {
  fn exact(&self) -> BigRational;
}
macro_rules! exact_int { ($($t:ty),*) => {$( impl Exact for $t { fn exact(&self) -> BigRational { BigRational::from(BigInt::from(self.clone())) } } )*} }
exact_int!(i8, i16, i32, i64, i128, BigInt);
impl Exact for isize {
  fn exact(&self) -> BigRational {
    BigRational::from(BigInt::from(*self))
  }
}
impl Exact for f64 {
  fn exact(&self) -> BigRational {
    exact_f64(*self)
  }
}
impl Exact for f32 {
  fn exact(&self) -> BigRational {
    exact_f64(*self as f64)
  }
}
impl Exact for OrderedFloat<f64> {
  fn exact(&self) -> BigRational {
    exact_f64(self.0)
  }
}
impl Exact for BigRational {
  fn exact(&self) -> BigRational {
    self.clone()
  }
}
fn to_float<A, const N: usize>(k: &mut Check, an: &str, al: &[A])
where
  A: Clone + Into<f64> + Exact + Debug + Sync + 'static,
{
  let m = al.len() as u64;
  k.space(
    &format!("to_float of {} in {}D", an, N),
    "every tuple over an alphabet reaching both extremes",
    m.pow(N as u32),
    |i| format!("{:?}", tuple::<N>(i, m).map(|d| al[d].clone())),
    |i, c| {
      let a = tuple::<N>(i, m).map(|d| al[d].clone());
      let want: Vec<BigRational> = a.iter().map(|x| x.exact()).collect();
      let got: Vec<BigRational> = Point::new(a.clone()).to_float().array.iter().map(|x| x.exact()).collect();
      same!(format!("to_float of {:?}", a), want, got);
      c.op(1);
      c.state();
      c.trace();
      c.outcome("same value");
      Ok(())
    },
  );
}

/// Polygon conversions keep the cycle and every coordinate.
fn polygon_casts(c: &mut Ctx, v: &[P]) -> R {
  for s in 0..v.len() {
    for rev in [false, true] {
      let p = poly_var::<i8>(v, s, rev)?;
      let ids: Vec<usize> = p.boundary_slice().iter().map(|x| x.usize()).collect();
      let store: Vec<[BigRational; 2]> = p.iter().map(|x| x.array.map(|y| y.exact())).collect();
      macro_rules! same_polygon {
        ($what:expr, $g:expr, $f:expr) => {{
          let g = $g;
          let gi: Vec<usize> = g.boundary_slice().iter().map(|x| x.usize()).collect();
          ensure!(gi == ids, "{} of {:?}: cycle {:?}, was {:?}", $what, v, gi, ids);
          let gs: Vec<[BigRational; 2]> = g.iter().map(|x| x.array.clone().map(|y| y.exact())).collect();
          let want: Vec<[BigRational; 2]> = store.iter().cloned().map($f).collect();
          ensure!(gs == want, "{} of {:?}: points {:?}, expected {:?}", $what, v, gs, want);
          let cy: Vec<_> = g.iter_boundary().map(|x| x.point().array.clone().map(|y| y.exact())).collect();
          let wc: Vec<_> = ids.iter().map(|&i| want[i].clone()).collect();
          ensure!(cy == wc, "{} of {:?}: boundary {:?}, expected {:?}", $what, v, cy, wc);
          for (n, id) in g.boundary_slice().iter().enumerate() {
            let cur = g.cursor(*id);
            ensure!(cur.next().point_id().usize() == ids[(n + 1) % ids.len()], "{} of {:?}: successor of {:?}", $what, v, id);
            ensure!(cur.prev().point_id().usize() == ids[(n + ids.len() - 1) % ids.len()], "{} of {:?}: predecessor of {:?}", $what, v, id);
          }
          c.op(4);
        }};
      }
      let id = |x: [BigRational; 2]| x;
      let ng = |x: [BigRational; 2]| x.map(|y| -y);
      let sw = |[x, y]: [BigRational; 2]| [y, x];
      same_polygon!("cast to i64", p.clone().cast::<i64>(), id);
      same_polygon!("cast to BigInt", p.clone().cast::<BigInt>(), id);
      same_polygon!("cast to f64", p.clone().cast::<f64>(), id);
      same_polygon!("float", p.clone().float(), id);
      same_polygon!("map to i16", p.clone().map(|x| -(x as i16)), ng);
      same_polygon!("map_points", p.clone().map_points(|q| Point::new([q.array[1], q.array[0]])), sw);
      let mut q = p.clone();
      for x in q.iter_mut() {
        x.array = [-x.array[0], -x.array[1]];
      }
      same_polygon!("iter_mut", q, ng);
      ensure!(p.equals(&p.clone()), "{:?} does not equal its clone", v);
    }
  }
  c.state();
  c.trace();
  c.outcome("kept");
  Ok(())
}

/// Colinearity of a list.
fn colinear<T: Sc>(k: &mut Check, label: &str, a: Vec<P>, len: usize) {
  let m = a.len() as u64;
  let ta = pts::<T>(&a);
  k.space(
    &format!("{}/all colinear {} length {}", T::NAME, label, len),
    &format!("every list of {} points over {} points, repeats included", len, m),
    m.pow(len as u32),
    |i| format!("{:?}", digits_vec(i, m, len).iter().map(|&d| a[d]).collect::<Vec<_>>()),
    |i, c| {
      let ix = digits_vec(i, m, len);
      let v: Vec<P> = ix.iter().map(|&d| a[d]).collect();
      let t: Vec<Point<T>> = ix.iter().map(|&d| ta[d].clone()).collect();
      let want = all_colinear(&v);
      same!(format!("{}: all_colinear({:?})", T::NAME, v), want, Point::all_colinear(&t));
      c.op(1);
      c.state();
      c.trace();
      c.outcome(if want { "colinear" } else { "not colinear" });
      Ok(())
    },
  );
}
fn ranks<T>(v: &[T], cmp: impl Fn(&T, &T) -> Ordering) -> Vec<i32> {
  v.iter().map(|x| v.iter().filter(|y| cmp(y, x) == Ordering::Less).count() as i32).collect()
}

fn main() {
  let mut k = Check::new("C25");
  k.assume("f64 and f32 coordinates are not NaN when compared, and zero is written one way (their TotalOrd separates -0.0 from 0.0); infinities are ordered but not geometric");
  each_type!(T in [i8, i16, i32, i64, isize, BigInt, BigRational] {
    let (lo, hi) = T::lim();
    let a = extreme_alphabet(lo, hi, 17);
    let v: Vec<T> = a.iter().map(|&x| T::mk(x)).collect();
    let r: Vec<i32> = (0..a.len() as i32).collect();
    order(&mut k, T::NAME, &v, &r);
    hashes(&mut k, T::NAME, &v);
  });
  {
    // fractions whose order differs from that of numerators and denominators
    let fr = [(-7, 2), (-10, 3), (-1, 1), (-2, 3), (-5, 8), (0, 1), (1, 1000), (333, 1000), (1, 3), (1, 2), (2, 3), (5, 3), (100, 7), (15, 1)];
    let v: Vec<BigRational> = fr.iter().map(|&(n, d)| BigRational::new(BigInt::from(n), BigInt::from(d))).collect();
    let r: Vec<i32> = (0..v.len() as i32).collect();
    order(&mut k, "mixed fractions", &v, &r);
    hashes(&mut k, "mixed fractions", &v);
  }
  with_gmp!(T {
    let (lo, hi) = T::lim();
    let a = extreme_alphabet(lo, hi, 17);
    let v: Vec<T> = a.iter().map(|&x| T::mk(x)).collect();
    let r: Vec<i32> = (0..a.len() as i32).collect();
    order(&mut k, T::NAME, &v, &r);
    hashes(&mut k, T::NAME, &v);
    colinear::<T>(&mut k, "3x3", grid(3, 3), 4);
  });
  let all8: Vec<i8> = (-128..=127).collect();
  order_n::<i8, 1>(&mut k, "every i8", &all8, &(0..256).collect::<Vec<_>>());
  {
    let mut f = F.to_vec();
    f.push(f64::INFINITY);
    f.insert(0, f64::NEG_INFINITY);
    let r = ranks(&f, |a, b| a.partial_cmp(b).unwrap());
    order(&mut k, "f64", &f, &r);
    let mut f2 = f.clone();
    f2.push(-0.0);
    let r2 = ranks(&f2, |a, b| a.partial_cmp(b).unwrap());
    let of: Vec<OrderedFloat<f64>> = f2.iter().map(|&x| OrderedFloat(x)).collect();
    let nn: Vec<NotNan<f64>> = f2.iter().map(|&x| NotNan::new(x).unwrap()).collect();
    order(&mut k, "OrderedFloat<f64>", &of, &r2);
    order(&mut k, "NotNan<f64>", &nn, &r2);
    hashes(&mut k, "OrderedFloat<f64>", &of);
    hashes(&mut k, "NotNan<f64>", &nn);
    let mut f = G.to_vec();
    f.push(f32::INFINITY);
    f.insert(0, f32::NEG_INFINITY);
    let r = ranks(&f, |a, b| a.partial_cmp(b).unwrap());
    order(&mut k, "f32", &f, &r);
    let mut f2 = f.clone();
    f2.push(-0.0);
    let r2 = ranks(&f2, |a, b| a.partial_cmp(b).unwrap());
    let of: Vec<OrderedFloat<f32>> = f2.iter().map(|&x| OrderedFloat(x)).collect();
    let nn: Vec<NotNan<f32>> = f2.iter().map(|&x| NotNan::new(x).unwrap()).collect();
    order(&mut k, "OrderedFloat<f32>", &of, &r2);
    order(&mut k, "NotNan<f32>", &nn, &r2);
    hashes(&mut k, "OrderedFloat<f32>", &of);
    hashes(&mut k, "NotNan<f32>", &nn);
  }
  f_rational::<1>(&mut k, &F);
  f_rational::<2>(&mut k, &F);
  f_rational::<3>(&mut k, &F[..].iter().copied().step_by(2).collect::<Vec<_>>());
  {
    // every power of two a double holds, and its neighbours
    let mut al: Vec<f64> = vec![];
    for e in 0..2047u64 {
      for m in [0u64, 1, (1 << 52) - 1] {
        al.push(f64::from_bits(e << 52 | m));
        al.push(-f64::from_bits(e << 52 | m) + 0.0);
      }
    }
    for s in 0..52 {
      al.push(f64::from_bits(1 << s));
    }
    let m = al.len() as u64;
    k.space("f64 exponent sweep", "every exponent with smallest, next and largest mantissa, both signs", m, |i| format!("{:e}", al[i as usize]), |i, c| {
      let v = al[i as usize];
      let q: Point<BigRational, 1> = Point::new([v]).into();
      same!(format!("{:e} to BigRational", v), exact_f64(v), q.array[0]);
      let b: Point<f64, 1> = (&q).into();
      ensure!(b.array[0] == v, "{:e} came back as {:e}", v, b.array[0]);
      c.op(2);
      c.state();
      c.trace();
      c.outcome("round trip");
      Ok(())
    });
  }
  nan_f64::<1>(&mut k);
  nan_f64::<2>(&mut k);
  nan_f64::<3>(&mut k);
  nan_f64::<4>(&mut k);
  nan_f64::<5>(&mut k);
  macro_rules! widths { ($($a:ident => $($b:ident)*);*) => {$($(
    {
      let (lo, hi) = ($a::MIN as i128, $a::MAX as i128);
      let big = extreme_alphabet(lo, hi, 17);
      let small = extreme_alphabet(lo, hi, 7);
      widen::<$a, $b, 1>(&mut k, stringify!($a), stringify!($b), &big);
      widen::<$a, $b, 2>(&mut k, stringify!($a), stringify!($b), &big);
      widen::<$a, $b, 3>(&mut k, stringify!($a), stringify!($b), &small);
    }
  )*)*} }
  widths!(i8 => i8 i16 i32 i64 isize i128 BigInt f32 f64; i16 => i32 i64 isize i128 BigInt f32 f64; i32 => i64 i128 BigInt f64; i64 => i128 BigInt; isize => BigInt);
  macro_rules! floats { ($($a:ident)*) => {$( {
    let al: Vec<$a> = extreme_alphabet($a::MIN as i128, $a::MAX as i128, 9).iter().map(|&x| x as $a).collect();
    to_float::<$a, 1>(&mut k, stringify!($a), &al);
    to_float::<$a, 2>(&mut k, stringify!($a), &al);
    to_float::<$a, 3>(&mut k, stringify!($a), &al);
  } )*} }
  floats!(i8 i16 i32);
  to_float::<f32, 2>(&mut k, "f32", &G);
  to_float::<f64, 2>(&mut k, "f64", &F);
  {
    let al = extreme_alphabet(i64::MIN as i128, i64::MAX as i128, 17);
    let m = al.len() as u64;
    k.space("i64 points to BigInt, pairs to points", "every pair over the i64 extremes", m * m, |i| format!("{:?}", tuple::<2>(i, m).map(|d| al[d])), |i, c| {
      let a = tuple::<2>(i, m).map(|d| al[d]);
      let p = Point::new(a.map(|x| x as i64));
      let b: Point<BigInt, 2> = p.into();
      same!(format!("Point<i64> {:?} to BigInt", a), a.map(BigInt::from), b.array);
      let t: Point<i64, 2> = (a[0] as i64, a[1] as i64).into();
      same!(format!("tuple {:?} to Point", a), p.array, t.array);
      same!(format!("coordinates of {:?}", a), (&p.array[0], &p.array[1]), (p.x_coord(), p.y_coord()));
      let p3 = Point::new([p.array[0], p.array[1], 7]);
      same!(format!("3D coordinates of {:?}", a), (&p.array[0], &p.array[1], &7), (p3.x_coord(), p3.y_coord(), p3.z_coord()));
      same!("1D coordinate".to_string(), &p.array[0], Point::new([p.array[0]]).x_coord());
      c.op(7);
      c.state();
      c.trace();
      c.outcome("same value");
      Ok(())
    });
  }
  k.space("i64/all colinear, long lists", "n points on a line of several slopes, whole or with one point moved off it, at every position or spread positions", 12 * 400, |i| format!("variant {} moved {}", i / 400, i % 400), |i, c| {
    let n = [3, 17, 256, 399, 70_000, 257][(i / 400 % 6) as usize] as i128;
    let (dx, dy) = [(1, 0), (0, 1), (2, -3), (-5, 1)][(i % 4) as usize];
    let off = |j: i128| if j % 7 == 3 && i / 2400 == 1 { j - 1 } else { j };
    let mut v: Vec<P> = (0..n).map(|j| [7 + dx * off(j), dy * off(j) - 2]).collect();
    let at = (i % 400) as i128;
    if at > 0 {
      let at = if n > 400 { n - at } else { (at - 1) % n } as usize;
      v[at][0] += dy.signum();
      v[at][1] -= dx.signum();
    }
    let want = all_colinear(&v);
    ensure!(Point::all_colinear(&pts::<i64>(&v)) == want, "{} points: should be {}", n, want);
    c.outcome(if want { "colinear" } else { "not colinear" });
    c.op(1);
    c.state();
    c.trace();
    Ok(())
  });
  k.space("unit vectors", "unit_right and zero in every type", 1, |_| "unit_right".into(), |_, c| {
    each_type!(T in [i8, i16, i32, i64, isize, BigInt, BigRational, f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] {
      let u = Vector::<T, 2>::unit_right();
      ensure!(u.0[0].is_one() && u.0[1].is_zero(), "{}: unit_right is {:?}", T::NAME, u);
      let z = Point::<T, 2>::zero();
      ensure!(z.array[0].is_zero() && z.array[1].is_zero(), "{}: zero is {:?}", T::NAME, z);
      c.op(2);
    });
    c.state();
    c.trace();
    Ok(())
  });
  let g = simple_polygons(&grid(3, 3), 3, k.pick(7, 9));
  k.space("polygon conversions", "every simple polygon on 3x3, every start and storage order", g.len(), |i| format!("{:?}", g.get(i)), |i, c| polygon_casts(c, &g.get(i)));
  let n = k.pick(5, 6);
  for len in 0..=n {
    colinear::<i64>(&mut k, "3x3", grid(3, 3), len);
  }
  each_type!(T in [i8, i16, i32, isize, BigInt, BigRational, f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] {
    for len in 3..=4 { colinear::<T>(&mut k, "3x3", grid(3, 3), len); }
  });
  each_type!(T in [i8, i16, i32, i64, isize, BigInt] {
    let (lo, hi) = T::lim();
    for (ti, t) in tables(lo, hi, 3).into_iter().enumerate() {
      let a: Vec<P> = grid(3, 3).iter().map(|p| [t[p[0] as usize], t[p[1] as usize]]).collect();
      colinear::<T>(&mut k, &format!("table {}", ti), a, 4);
    }
  });
  k.finish()
}
