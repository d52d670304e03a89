//! C24: transforms compose and act on points, vectors and polygons as matrices do.
use harness::oracle::*;
use harness::polyenum::*;
use harness::polys::*;
use harness::scalars::*;
use harness::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, ToPrimitive, Zero};
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::{Point, Polygon, Transform, Vector, VectorView};
use std::ops::{AddAssign, Div, Mul};

/// Exact fraction of the reference model.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Q(i128, i128);
fn q(n: i128, d: i128) -> Q {
  fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
      a
    } else {
      gcd(b, a % b)
    }
  }
  let g = gcd(n.abs(), d.abs()) * d.signum();
  Q(n / g, d / g)
}
impl Q {
  fn add(self, o: Q) -> Q {
    q(self.0 * o.1 + o.0 * self.1, self.1 * o.1)
  }
  fn sub(self, o: Q) -> Q {
    q(self.0 * o.1 - o.0 * self.1, self.1 * o.1)
  }
  fn mul(self, o: Q) -> Q {
    q(self.0 * o.0, self.1 * o.1)
  }
  fn neg(self) -> Q {
    Q(-self.0, self.1)
  }
}
/// Coordinate types that can be read back exactly.
trait Val: Sc + One + Zero + Div<Output = Self> + AddAssign + Mul<Output = Self> {
  fn q(&self) -> Q;
  fn divides(a: Q, b: Q) -> Option<Q>;
}
macro_rules! vint {
  ($($t:ty),*) => {$( impl Val for $t {
    fn q(&self) -> Q { q(self.to_i128().unwrap(), 1) }
    fn divides(a: Q, b: Q) -> Option<Q> { Some(q(a.0 / b.0, 1)) }
  } )*};
}
vint!(i8, i16, i32, i64, isize, BigInt);
impl Val for BigRational {
  fn q(&self) -> Q {
    q(self.numer().to_i128().unwrap(), self.denom().to_i128().unwrap())
  }
  fn divides(a: Q, b: Q) -> Option<Q> {
    Some(q(a.0 * b.1, a.1 * b.0))
  }
}
macro_rules! vfl {
  ($($t:ty),*) => {$( impl Val for $t {
    fn q(&self) -> Q {
      let v = self.to_f64().unwrap() * 65536.0;
      assert!(v.fract() == 0.0 && v.abs() < 1e30, "result {:?} is not the exact value", self);
      q(v as i128, 65536)
    }
    // only quotients that are exact in binary
    fn divides(a: Q, b: Q) -> Option<Q> {
      let r = q(a.0 * b.1, a.1 * b.0);
      (65536 % r.1 == 0).then_some(r)
    }
  } )*};
}
vfl!(f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>);

type V<const N: usize> = [i128; N];
fn arr<T: Sc, const N: usize>(v: &V<N>) -> [T; N] {
  v.map(|x| T::mk(x))
}
fn qs<T: Val, const N: usize>(a: &[T; N]) -> [Q; N] {
  std::array::from_fn(|i| a[i].q())
}
fn zq<const N: usize>(a: &[Q; N], b: &[Q; N], f: impl Fn(Q, Q) -> Q) -> [Q; N] {
  std::array::from_fn(|i| f(a[i], b[i]))
}

#[derive(Clone, Copy, Debug)]
enum Step<const N: usize> {
  Move(V<N>),
  Scale(V<N>),
  All(i128),
}
use Step::*;
fn steps<const N: usize>(many: bool) -> Vec<Step<N>> {
  let mk = |f: fn(usize) -> i128| -> V<N> { std::array::from_fn(f) };
  let mut v = vec![
    Move(mk(|i| i as i128 + 1)),
    Move(mk(|i| if i == 0 { -3 } else { 0 })),
    Move(mk(|i| if i == N - 1 { 2 } else { 0 })),
    Scale(mk(|i| [2, -1, 1][i % 3])),
    Scale(mk(|i| [1, 2, -1][i % 3])),
    All(2),
    All(-1),
  ];
  if many {
    v.push(Move([0; N]));
    v.push(Scale(mk(|i| [0, 1, 2][i % 3])));
    v.push(All(1));
    v.push(Move(mk(|i| [1, -2, 3][i % 3])));
    v.push(All(0));
  }
  v
}
fn build<T: Val, const N: usize>(s: &Step<N>) -> Transform<T, N> {
  match s {
    Move(v) => Transform::translate(Vector(arr(v))),
    Scale(v) => Transform::scale(Vector(arr(v))),
    All(v) => Transform::uniform_scale(T::mk(*v)),
  }
}
/// The model: what one transform does to a coordinate tuple.
fn act<T: Val, const N: usize>(s: &Step<N>, p: [Q; N]) -> [Q; N] {
  std::array::from_fn(|i| match s {
    Move(v) => p[i].add(T::mk(v[i]).q()),
    Scale(v) => p[i].mul(T::mk(v[i]).q()),
    All(v) => p[i].mul(T::mk(*v).q()),
  })
}

/// All operator forms of transform times point or vector.
fn apply_all<T: Val, const N: usize>(c: &mut Ctx, t: &Transform<T, N>, p: &V<N>, want: &[Q; N], what: &str) -> R {
  let a: [T; N] = arr(p);
  let (pp, vv) = (Point::new(a.clone()), Vector(a));
  let got: [(&str, [T; N]); 7] = [
    ("&T * &Point", (t * &pp).array),
    ("&T * Point", (t * pp.clone()).array),
    ("T * Point", (t.clone() * pp).array),
    ("&T * &Vector", (t * &vv).0),
    ("&T * Vector", (t * vv.clone()).0),
    ("T * &Vector", (t.clone() * &vv).0),
    ("&T * &Point from Vector", (t * &Point::from(vv)).array),
  ];
  c.op(7);
  for (n, g) in &got {
    let g = qs(g);
    ensure!(&g == want, "{} {}: {} of {:?}: expected {:?}, got {:?}", T::NAME, what, n, p, want, g);
  }
  Ok(())
}
fn describe<const N: usize>(al: &[Step<N>], ix: &[usize]) -> String {
  ix.iter().map(|&i| format!("{:?}", al[i])).collect::<Vec<_>>().join(" * ")
}
fn chain<T: Val, const N: usize>(c: &mut Ctx, al: &[Step<N>], ix: &[usize], ps: &[V<N>]) -> R {
  let ts: Vec<Transform<T, N>> = ix.iter().map(|&i| build(&al[i])).collect();
  // Every grouping that folds from one side, in owned and borrowed form.
  let left = ts.iter().skip(1).fold(ts[0].clone(), |a, b| a * b.clone());
  let left_ref = ts.iter().skip(1).fold(ts[0].clone(), |a, b| &a * b);
  let right = ts.iter().rev().skip(1).fold(ts[ts.len() - 1].clone(), |a, b| b.clone() * a);
  let right_ref = ts.iter().rev().skip(1).fold(ts[ts.len() - 1].clone(), |a, b| b * &a);
  c.op(4 * (ts.len() as u64 - 1));
  let what = describe(al, ix);
  for p in ps {
    let start = qs(&arr::<T, N>(p));
    let want = ix.iter().rev().fold(start, |a, &i| act::<T, N>(&al[i], a));
    for (n, t) in [("left", &left), ("left by reference", &left_ref), ("right", &right), ("right by reference", &right_ref)] {
      apply_all(c, t, p, &want, &format!("{} [{}]", what, n))?;
    }
    // The same chain applied one factor at a time.
    let mut x = Point::new(arr::<T, N>(p));
    for t in ts.iter().rev() {
      x = t * &x;
    }
    let g = qs(&x.array);
    ensure!(g == want, "{} {} one at a time on {:?}: expected {:?}, got {:?}", T::NAME, what, p, want, g);
    c.op(ts.len() as u64);
    c.state();
    c.outcome(if want == start { "fixed point" } else { "moved" });
  }
  c.trace();
  Ok(())
}
fn corner_points<const N: usize>() -> Vec<V<N>> {
  let vals = [-2i128, 0, 3];
  (0..3u64.pow(N as u32)).map(|i| std::array::from_fn(|k| vals[(i / 3u64.pow(k as u32)) as usize % 3])).collect()
}
fn chains<T: Val, const N: usize>(k: &mut Check, len: usize, many: bool) {
  let al = steps::<N>(many);
  let ps = corner_points::<N>();
  let n = al.len() as u64;
  k.space(
    &format!("{}/chains of {} in {}D", T::NAME, len, N),
    &format!("every product of {} transforms out of {}, both groupings and ownership forms, on {} points", len, al.len(), ps.len()),
    n.pow(len as u32),
    |i| describe(&al, &digits_vec(i, n, len)),
    |i, c| chain::<T, N>(c, &al, &digits_vec(i, n, len), &ps),
  );
}

/// Coordinate-wise arithmetic of one pair.
fn arith<T: Val, const N: usize>(c: &mut Ctx, a: &V<N>, b: &V<N>, s: i128) -> R {
  let (lo, hi) = T::lim();
  let fits = |v: &[Q]| hi > 1 << 90 || v.iter().all(|x| x.0 >= lo * x.1 && x.0 <= hi * x.1);
  let (ta, tb, ts): ([T; N], [T; N], T) = (arr(a), arr(b), T::mk(s));
  let (va, vb) = (Vector(ta.clone()), Vector(tb.clone()));
  let (pa, pb) = (Point::new(ta.clone()), Point::new(tb.clone()));
  let (qa, qb, qt) = (qs(&ta), qs(&tb), ts.q());
  let chk = |what: &str, got: [T; N], want: [Q; N]| -> R {
    let g = qs(&got);
    ensure!(g == want, "{} {}: a={:?} b={:?} s={}: expected {:?}, got {:?}", T::NAME, what, a, b, s, want, g);
    Ok(())
  };
  c.state();
  c.trace();
  let sum = zq(&qa, &qb, Q::add);
  if fits(&sum) {
    chk("Vector + Vector", (va.clone() + vb.clone()).0, sum)?;
    chk("&Vector + &Vector", (&va + &vb).0, sum)?;
    chk("VectorView + VectorView", (VectorView::from(&pa) + VectorView::from(&pb)).0, sum)?;
    let mut x = va.clone();
    x += vb.clone();
    chk("Vector += Vector", x.0, sum)?;
    chk("&Point + &Vector", (&pa + &vb).array, sum)?;
    chk("Point + &Vector", (pa.clone() + &vb).array, sum)?;
    chk("Point + Vector", (pa.clone() + vb.clone()).array, sum)?;
    let mut x = pa.clone();
    x += &vb;
    chk("Point += &Vector", x.array, sum)?;
    let mut x = pa.clone();
    x += vb.clone();
    chk("Point += Vector", x.array, sum)?;
    chk("sum of two", [va.clone(), vb.clone()].into_iter().sum::<Vector<T, N>>().0, sum)?;
    c.op(10);
    c.outcome("sum fits");
    let back = zq(&sum, &qb, Q::sub);
    if fits(&back) {
      chk("sum of three", vec![va.clone(), vb.clone(), va.clone() * T::mk(0)].into_iter().sum::<Vector<T, N>>().0, sum)?;
      chk("(a + b) - b", (&(&pa + &vb) - &pb).0, back)?;
      c.op(2);
    }
  } else {
    c.outcome("sum too large");
  }
  chk("sum of one", [va.clone()].into_iter().sum::<Vector<T, N>>().0, qa)?;
  chk("sum of none", std::iter::empty::<Vector<T, N>>().sum::<Vector<T, N>>().0, [Q(0, 1); N])?;
  chk("Point::zero", Point::<T, N>::zero().array, [Q(0, 1); N])?;
  let diff = zq(&qa, &qb, Q::sub);
  if fits(&diff) {
    chk("&Vector - &Vector", (&va - &vb).0, diff)?;
    chk("&Point - &Point", (&pa - &pb).0, diff)?;
    chk("Point - Point", (pa.clone() - pb.clone()).0, diff)?;
    c.op(3);
  }
  let prod = qa.map(|x| x.mul(qt));
  if fits(&prod) {
    chk("Vector * s", (va.clone() * ts.clone()).0, prod)?;
    chk("VectorView * s", (VectorView::from(&pa) * ts.clone()).0, prod)?;
    c.op(2);
  }
  if s != 0 {
    let d: Vec<Option<Q>> = qa.iter().map(|x| T::divides(*x, qt)).collect();
    if d.iter().all(|x| x.is_some()) {
      let quot: [Q; N] = std::array::from_fn(|i| d[i].unwrap());
      if fits(&quot) {
        chk("Vector / s", (va.clone() / ts.clone()).0, quot)?;
        chk("VectorView / s", (VectorView::from(&pa) / ts.clone()).0, quot)?;
        c.op(2);
      }
    }
  }
  let neg = qa.map(Q::neg);
  if fits(&neg) {
    chk("-Vector", (-va.clone()).0, neg)?;
    c.op(1);
  }
  // accessors and views
  chk("Vector index", std::array::from_fn(|i| va[i].clone()), qa)?;
  chk("Point index", std::array::from_fn(|i| pa[i].clone()), qa)?;
  chk("as_vec", pa.as_vec().0.clone(), qa)?;
  let r: &Vector<T, N> = (&pa).into();
  chk("&Vector from &Point", r.0.clone(), qa)?;
  chk("Vector from Point", Vector::from(pa.clone()).0, qa)?;
  chk("Point from Vector", Point::from(va.clone()).array, qa)?;
  chk("VectorView from &Point", VectorView::from(&pa).0.clone(), qa)?;
  chk("Point::map", pb.map(|x| x).array, qb)?;
  chk("Vector::map", vb.map(|x| x).0, qb)?;
  chk("Vector::cast", vb.cast::<T>().0, qb)?;
  chk("Point::cast", pb.cast::<T>().array, qb)?;
  chk("deref", (*pb).clone(), qb)?;
  c.op(15);
  Ok(())
}
/// Squared length, when no partial sum leaves the type.
fn lengths<T: Val, const N: usize>(c: &mut Ctx, a: &V<N>) -> R {
  if a.iter().any(|x| x.abs() > 1 << 61) {
    return Ok(());
  }
  let ta: [T; N] = arr(a);
  let want = qs(&ta).iter().fold(Q(0, 1), |s, x| s.add(x.mul(*x)));
  if T::lim().1 > 1 << 90 || want.0 <= T::lim().1 {
    let got = Vector(ta).squared_magnitude().q();
    ensure!(got == want, "{}: squared magnitude of {:?}: expected {:?}, got {:?}", T::NAME, a, want, got);
    c.op(1);
  }
  Ok(())
}
fn tuples<T: Val, const N: usize>(k: &mut Check, label: &str, al: &[i128], scal: &[i128]) {
  let m = al.len() as u64;
  let np = m.pow(N as u32);
  let tup = |i: u64| -> V<N> { std::array::from_fn(|j| al[(i / m.pow(j as u32) % m) as usize]) };
  let ns = scal.len() as u64;
  k.space(
    &format!("{}/arithmetic {} in {}D", T::NAME, label, N),
    &format!("every ordered pair of tuples over {:?} with factors {:?}", al, scal),
    np * np,
    |i| format!("{:?} {:?}", tup(i / np), tup(i % np)),
    |i, c| {
      let (a, b) = (tup(i / np), tup(i % np));
      for s in 0..ns {
        arith::<T, N>(c, &a, &b, scal[s as usize])?;
      }
      lengths::<T, N>(c, &a)
    },
  );
}

macro_rules! distances {
  ($k:expr, $from:ty => $to:ty, $n:expr, $al:expr) => {{
    let al: Vec<i128> = $al;
    let m = al.len() as u64;
    let np = m.pow($n);
    let tup = |i: u64| -> V<$n> { std::array::from_fn(|j| al[(i / m.pow(j as u32) % m) as usize]) };
    $k.space(
      &format!("squared distance {} to {} in {}D", stringify!($from), stringify!($to), $n),
      &format!("every ordered pair of tuples over {:?}", al),
      np * np,
      |i| format!("{:?} {:?}", tup(i / np), tup(i % np)),
      |i, c| {
        let (a, b) = (tup(i / np), tup(i % np));
        let want: BigInt = (0..$n).map(|j| BigInt::from(a[j] - b[j])).map(|d| &d * &d).sum();
        let (pa, pb) = (Point::new(a.map(|x| x as $from)), Point::new(b.map(|x| x as $from)));
        let got: $to = pa.squared_euclidean_distance(&pb);
        let got = BigInt::try_from(num_traits::ToPrimitive::to_i128(&got).unwrap()).unwrap();
        c.state();
        c.op(1);
        c.trace();
        c.outcome(if want.is_zero() { "zero" } else { "positive" });
        same!(format!("squared distance of {:?} {:?}", a, b), want, got);
        Ok(())
      },
    );
  }};
}

fn polygon<T: Val>(c: &mut Ctx, v: &[P], start: usize, rev: bool, st: &[Step<2>]) -> R {
  let p = poly_var::<T>(v, start, rev)?;
  let ids: Vec<usize> = p.boundary_slice().iter().map(|x| x.usize()).collect();
  let store: Vec<[Q; 2]> = p.iter().map(|x| qs(&x.array)).collect();
  let cyc: Vec<[Q; 2]> = p.iter_boundary().map(|x| qs(&x.point().array)).collect();
  let t = st.iter().skip(1).fold(build::<T, 2>(&st[0]), |a, s| &a * &build(s));
  let f = |x: &[Q; 2]| st.iter().rev().fold(*x, |a, s| act::<T, 2>(s, a));
  let forms: [(&str, Polygon<T>); 4] = [
    ("&T * &Polygon", &t * &p),
    ("&T * Polygon", &t * p.clone()),
    ("T * &Polygon", t.clone() * &p),
    ("T * Polygon", t.clone() * p.clone()),
  ];
  for (n, g) in &forms {
    let gids: Vec<usize> = g.boundary_slice().iter().map(|x| x.usize()).collect();
    ensure!(gids == ids, "{} {:?} on {:?}: {}: vertex cycle {:?}, was {:?}", T::NAME, st, v, n, gids, ids);
    let gs: Vec<[Q; 2]> = g.iter().map(|x| qs(&x.array)).collect();
    let want: Vec<[Q; 2]> = store.iter().map(f).collect();
    ensure!(gs == want, "{} {:?} on {:?}: {}: stored points {:?}, expected {:?}", T::NAME, st, v, n, gs, want);
    let gc: Vec<[Q; 2]> = g.iter_boundary().map(|x| qs(&x.point().array)).collect();
    let want: Vec<[Q; 2]> = cyc.iter().map(f).collect();
    ensure!(gc == want, "{} {:?} on {:?}: {}: boundary {:?}, expected {:?}", T::NAME, st, v, n, gc, want);
    for id in g.boundary_slice() {
      let (x, y) = (qs(&g.point(*id).array), f(&qs(&p.point(*id).array)));
      ensure!(x == y && g.cursor(*id).point_id() == *id, "{} {:?} on {:?}: {}: vertex {:?} is {:?}, expected {:?}", T::NAME, st, v, n, id, x, y);
    }
    c.op(4);
  }
  // The caller's polygon is left as it was.
  let after: Vec<[Q; 2]> = p.iter().map(|x| qs(&x.array)).collect();
  ensure!(after == store, "{} {:?} changed its borrowed polygon {:?}", T::NAME, st, v);
  // A simple polygon under an orientation-preserving invertible map stays one.
  let det = st.iter().fold(1, |d, s| match s {
    Move(_) => d,
    Scale(v) => d * v[0] * v[1],
    All(k) => d * k * k,
  });
  let ok = forms[0].1.validate().is_ok();
  ensure!(ok == (det > 0), "{} {:?} on {:?}: determinant {} but validate says {}", T::NAME, st, v, det, ok);
  c.op(1);
  c.state();
  c.trace();
  c.outcome(match det.signum() {
    1 => "orientation kept",
    -1 => "orientation flipped",
    _ => "collapsed",
  });
  Ok(())
}
fn polygons<T: Val>(k: &mut Check, ps: &Polys, label: &str, two: bool) {
  let al = steps::<2>(true);
  let n = al.len() as u64;
  let combos = if two { n * n } else { n };
  let pick = |i: u64| -> Vec<Step<2>> { digits_vec(i, n, if two { 2 } else { 1 }).iter().map(|&d| al[d]).collect() };
  k.space(
    &format!("{}/polygons {}", T::NAME, label),
    "every polygon, rotated start and both storage orders, under every transform, in all four operator forms",
    ps.len() * combos,
    |i| format!("{:?} under {:?}", ps.get(i / combos), pick(i % combos)),
    |i, c| {
      let v = ps.get(i / combos);
      let st = pick(i % combos);
      for s in 0..v.len() {
        polygon::<T>(c, &v, s, false, &st)?;
        polygon::<T>(c, &v, s, true, &st)?;
      }
      Ok(())
    },
  );
}

/// Products of up to 260 factors that keep coordinates small: unit moves there and back, reflections.
fn long_chains<T: Val, const N: usize>(k: &mut Check) {
  let al = al_of::<N>();
  let lens: Vec<usize> = (6..40).chain([63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 260]).collect();
  let pats = 12u64;
  let n = al.len();
  let pick = |i: u64| -> Vec<usize> {
    let (len, p) = (lens[(i / pats) as usize], (i % pats) as usize);
    // Steps run through the alphabet with a stride; a move that would leave [-60, 60] is replaced by its opposite.
    let mut at = [0i128; N];
    let mut out: Vec<usize> = vec![];
    for j in 0..len {
      let mut d = (j * (1 + p % 5) + j / n * (p / 5 + 1) + p) % n;
      let go = |d: usize, at: &[i128; N]| -> [i128; N] {
        std::array::from_fn(|i| match &al[d] {
          Move(v) => at[i] + v[i],
          Scale(v) => at[i] * v[i],
          All(x) => at[i] * x,
        })
      };
      if go(d, &at).iter().any(|x| x.abs() > 60) {
        d = if (d - 1) % 3 == 0 { d + 1 } else { d - 1 };
      }
      at = go(d, &at);
      out.push(d);
    }
    out.reverse();
    out
  };
  let total = (34 + 12) * pats;
  k.space(
    &format!("{}/long chains in {}D", T::NAME, N),
    "products of 6 to 260 unit moves and reflections in 12 patterns, folded from either side, on 3 points",
    total,
    |i| format!("{} factors, pattern {}", pick(i).len(), i % pats),
    |i, c| chain::<T, N>(c, &al, &pick(i), &[[0; N], [1; N], std::array::from_fn(|j| [3, -2, 5][j % 3])]),
  );
}
fn al_of<const N: usize>() -> Vec<Step<N>> {
  let unit = |j: usize, d: i128| -> V<N> { std::array::from_fn(|i| if i == j { d } else { 0 }) };
  let mut al: Vec<Step<N>> = vec![All(-1)];
  for j in 0..N {
    al.extend([Move(unit(j, 5)), Move(unit(j, -5)), Scale(std::array::from_fn(|i| if i == j { -1 } else { 1 }))]);
  }
  al
}
/// Sums over long iterators, and a vector or point that accumulates step by step.
fn long_sums<T: Val>(k: &mut Check) {
  let lens: Vec<usize> = (0..70).chain([127, 128, 129, 255, 256, 257, 999, 1000, 1001, 4096, 65_535, 65_536, 70_000]).collect();
  k.space(
    &format!("{}/long sums", T::NAME),
    "sums of 0 to 70000 vectors",
    lens.len() as u64,
    |i| format!("{} vectors", lens[i as usize]),
    |i, c| {
      let n = lens[i as usize] as i128;
      let vs: Vec<V<2>> = (0..n).map(|j| [j % 7 - 3, 5 - j * 3 % 11]).collect();
      let want = vs.iter().fold([Q(0, 1); 2], |a, v| [a[0].add(q(v[0], 1)), a[1].add(q(v[1], 1))]);
      let got = vs.iter().map(|v| Vector(arr::<T, 2>(v))).sum::<Vector<T, 2>>();
      same!(format!("sum of {} vectors", n), want, qs(&got.0));
      let mut x = Vector(arr::<T, 2>(&[0, 0]));
      let mut y = Point::new(arr::<T, 2>(&[0, 0]));
      for v in &vs {
        x += Vector(arr::<T, 2>(v));
        y += &Vector(arr::<T, 2>(v));
      }
      same!(format!("{} vectors added one at a time", n), want, qs(&x.0));
      same!(format!("a point moved {} times", n), want, qs(&y.array));
      c.op(3);
      c.state();
      c.trace();
      Ok(())
    },
  );
}
/// Large polygons: every stored point is mapped, the vertex cycle stays.
fn large<T: Val>(k: &mut Check, fam: &[(String, Vec<P>)], label: &str) {
  let sts: Vec<Vec<Step<2>>> = vec![vec![Move([3, -7])], vec![Scale([2, 1])], vec![All(-1)], vec![Move([-1, 4]), Scale([1, 3]), Move([2, 0])]];
  let n = sts.len() as u64;
  k.space(
    &format!("{}/{}", T::NAME, label),
    "structured polygons under four transforms, in the borrowed and the owned form",
    fam.len() as u64 * n,
    |i| format!("{} under {:?}", fam[(i / n) as usize].0, sts[(i % n) as usize]),
    |i, c| {
      let (v, st) = (&fam[(i / n) as usize].1, &sts[(i % n) as usize]);
      let v = rotated(v, i as usize * 5 % v.len());
      let p = Polygon::new_unchecked(pts::<T>(&v));
      let t = st.iter().skip(1).fold(build::<T, 2>(&st[0]), |a, s| &a * &build(s));
      let want: Vec<[Q; 2]> = v.iter().map(|x| st.iter().rev().fold(qs(&arr::<T, 2>(x)), |a, s| act::<T, 2>(s, a))).collect();
      let forms = if i % 2 == 0 { vec![&t * &p, t.clone() * p.clone()] } else { vec![&t * p.clone(), t.clone() * &p] };
      for (f, g) in forms.iter().enumerate() {
        same!(format!("form {}: number of points", f), v.len(), g.iter().count());
        for (j, x) in g.iter().enumerate() {
          let y = qs(&x.array);
          ensure!(y == want[j], "form {}: point {} of {} is {:?}, expected {:?}", f, j, v.len(), y, want[j]);
        }
        for (j, x) in g.iter_boundary().enumerate() {
          let y = qs(&x.point().array);
          ensure!(y == want[j], "form {}: boundary point {} of {} is {:?}, expected {:?}", f, j, v.len(), y, want[j]);
        }
        ensure!(g.boundary_slice() == p.boundary_slice(), "form {}: the vertex cycle changed", f);
        c.op(2);
      }
      c.state();
      c.trace();
      Ok(())
    },
  );
}

fn main() {
  let mut k = Check::new("C24");
  k.assume("coordinates are chosen so that the exact result, and every partial product of a chain, fits the coordinate type; overflow of plain vector arithmetic is outside the property");
  let (l1, l2, l3) = k.pick((4, 4, 3), (6, 5, 5));
  let th = k.thorough();
  each_type!(T in [i8, i16, i32, i64, isize, BigInt, BigRational, f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] {
    // i8 leaves room for three doublings of coordinates up to 3 after translations.
    let small = T::lim().1 < 200;
    for l in 1..=(if small { 3 } else { l1 }) { chains::<T, 1>(&mut k, l, l <= 3); }
    for l in 1..=(if small { 3 } else { l2 }) { chains::<T, 2>(&mut k, l, l <= 3); }
    for l in 1..=(if small { 3 } else { l3 }) { chains::<T, 3>(&mut k, l, l <= if th { 3 } else { 2 }); }
  });
  each_type!(T in [i16, i64, BigRational, f64] {
    for l in 1..=2 { chains::<T, 4>(&mut k, l, l == 1); }
    chains::<T, 5>(&mut k, 1, true);
    tuples::<T, 4>(&mut k, "small", &[-2, 3], &[1, -3]);
    tuples::<T, 5>(&mut k, "small", &[-2, 3], &[1, -3]);
  });
  let fs = [0i128, 1, -1, 2, -3];
  each_type!(T in [i8, i16, i32, i64, isize, BigInt, BigRational, f64, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] {
    let (lo, hi) = T::lim();
    let wide = hi > 1 << 90;
    let (n1, n2, n3) = if th { (15, 7, 5) } else { (11, 5, 3) };
    // huge values make the model itself overflow: keep the reference inside i128
    let (lo, hi) = if wide { (-(1 << 40), 1 << 40) } else { (lo, hi) };
    let float = T::NAME.contains('f') || T::NAME.contains("Float");
    let (lo, hi) = if float { (lo / 8, hi / 8) } else { (lo, hi) };
    tuples::<T, 1>(&mut k, "extremes", &extreme_alphabet(lo, hi, n1), &fs);
    tuples::<T, 2>(&mut k, "extremes", &extreme_alphabet(lo, hi, n2), &fs);
    tuples::<T, 3>(&mut k, "extremes", &extreme_alphabet(lo, hi, n3), &fs);
    tuples::<T, 2>(&mut k, "small", &[-3, -1, 0, 2, 6], &[1, 2, -3, 4]);
    tuples::<T, 3>(&mut k, "small", &[-2, 0, 3], &[1, 2, -3, 4]);
  });
  let all8: Vec<i128> = (-128..128).collect();
  distances!(k, i8 => i64, 1, all8.clone());
  distances!(k, i8 => i32, 2, extreme_alphabet(-128, 127, 13));
  distances!(k, i8 => i128, 3, extreme_alphabet(-128, 127, 5));
  distances!(k, i16 => i64, 2, extreme_alphabet(i16::MIN as i128, i16::MAX as i128, 9));
  distances!(k, i32 => i128, 2, extreme_alphabet(i32::MIN as i128, i32::MAX as i128, 9));
  distances!(k, i64 => i128, 1, extreme_alphabet(i64::MIN as i128 / 2, i64::MAX as i128 / 2, 13));
  distances!(k, i64 => i128, 3, extreme_alphabet(i64::MIN as i128 / 4, i64::MAX as i128 / 4, 5));
  distances!(k, i16 => f64, 2, extreme_alphabet(i16::MIN as i128, i16::MAX as i128, 9));
  distances!(k, i32 => f64, 1, extreme_alphabet(-(1 << 25), 1 << 25, 11));
  distances!(k, f64 => f64, 2, extreme_alphabet(-(1 << 25), 1 << 25, 9));
  let g = simple_polygons(&grid(3, 3), 3, if th { 9 } else { 7 });
  let g2 = simple_polygons(&grid(3, 2), 3, 6);
  each_type!(T in [i64, BigRational, f64, i32] { polygons::<T>(&mut k, &g, "on 3x3, one transform", false); });
  each_type!(T in [i8, i16, isize, BigInt, f32, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>] { polygons::<T>(&mut k, &g2, "on 3x2, one transform", false); });
  each_type!(T in [i64, BigInt] { polygons::<T>(&mut k, &g2, "on 3x2, product of two", true); });
  each_type!(T in [i8, i64, BigInt, f64] {
    long_chains::<T, 1>(&mut k);
    long_chains::<T, 2>(&mut k);
    long_chains::<T, 3>(&mut k);
  });
  each_type!(T in [i64, f64, BigInt] { long_sums::<T>(&mut k); });
  let mut big = families(k.pick(120, 400));
  big.extend(arcs(60, 2));
  let hg = huge();
  each_type!(T in [i64, BigInt, OrderedFloat<f64>] { large::<T>(&mut k, &big, "large polygons"); });
  each_type!(T in [i64, f64] { large::<T>(&mut k, &hg, "more than 65536 vertices"); });
  k.finish()
}
