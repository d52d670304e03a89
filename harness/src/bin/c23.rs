//! C23: random convex polygons are valid and fill the coordinate range.
use harness::oracle::*;
use harness::polys::*;
use harness::rngs::*;
use harness::scalars::*;
use harness::*;
use num_traits::Bounded;
use rand::distributions::uniform::SampleUniform;
use rand::distributions::{Distribution, Standard};
use rand::{Error, RngCore};
use rgeometry::data::PolygonConvex;
use rgeometry::PolygonScalar;

/// Every scripted draw is a fraction i/m of the word range, so that range sampling of any width
/// accepts it and returns the i-th of m values; afterwards a fixed well-mixed tail.
struct FracRng {
  script: Vec<(u64, u64)>,
  pos: usize,
  tail: u64,
}
impl FracRng {
  fn next(&mut self) -> Option<(u64, u64)> {
    self.pos += 1;
    self.script.get(self.pos - 1).copied()
  }
  fn more(&self) -> u64 {
    if self.pos > 2_000_000 {
      panic!("generation does not terminate");
    }
    mixed(self.tail.wrapping_mul(1 << 32).wrapping_add(self.pos as u64))
  }
}
impl RngCore for FracRng {
  fn next_u32(&mut self) -> u32 {
    match self.next() {
      Some((i, m)) if i < m => (((i as u128) << 32).div_ceil(m as u128)).min(u32::MAX as u128) as u32,
      Some(_) => u32::MAX,
      None => (self.more() >> 32) as u32,
    }
  }
  fn next_u64(&mut self) -> u64 {
    match self.next() {
      Some((i, m)) if i < m => word_for(i, m),
      Some(_) => u64::MAX,
      None => self.more(),
    }
  }
  fn fill_bytes(&mut self, dest: &mut [u8]) {
    for c in dest.chunks_mut(8) {
      let b = self.next_u64().to_le_bytes();
      c.copy_from_slice(&b[..c.len()]);
    }
  }
  fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
    self.fill_bytes(dest);
    Ok(())
  }
}
trait Int: Sc + Bounded + PolygonScalar + SampleUniform + Copy {
  fn wide(self) -> i128;
}
macro_rules! int { ($($t:ty),*) => { $(impl Int for $t { fn wide(self) -> i128 { self as i128 } })* } }
int!(i8, i16, i32, i64, isize);

fn judge<T: Int>(c: &mut Ctx, n: usize, p: &PolygonConvex<T>) -> R {
  let b: Vec<P> = boundary(p.polygon()).iter().map(|q| [q.array[0].wide(), q.array[1].wide()]).collect();
  let max = T::max_value().wide();
  ensure!(b.len() >= 3 && b.len() <= n.max(3), "{} size {}: {} vertices: {:?}", T::NAME, n, b.len(), b);
  ensure!(is_strictly_convex(&b), "{} size {}: {:?} is not strictly convex", T::NAME, n, b);
  // validate needs memory quadratic in the number of vertices
  ensure!(b.len() > 2000 || p.validate().is_ok(), "{} size {}: {:?} does not validate", T::NAME, n, b);
  let span = |i: usize| {
    let (lo, hi) = (b.iter().map(|p| p[i]).min().unwrap(), b.iter().map(|p| p[i]).max().unwrap());
    (lo, hi - lo)
  };
  ensure!(span(1).0 == 0, "{} size {}: {:?} does not rest on the x axis", T::NAME, n, b);
  ensure!(span(0).1 == max && span(1).1 == max, "{} size {}: {:?} is {} wide and {} high instead of {}", T::NAME, n, b, span(0).1, span(1).1, max);
  c.op(1);
  c.trace();
  c.outcome(match b.len() {
    3 => "triangle",
    4 => "quadrilateral",
    5 => "pentagon",
    _ => "larger",
  });
  Ok(())
}
fn run<T: Int>(c: &mut Ctx, n: usize, script: Vec<(u64, u64)>, tail: u64) -> R {
  let mut rng = FracRng { script, pos: 0, tail };
  let p = PolygonConvex::<T>::random(n, &mut rng);
  c.outcome(if rng.pos <= rng.script.len() { "decided by the script" } else { "script used up" });
  judge::<T>(c, n, &p)
}
/// Every draw sequence over an alphabet of fractions.
fn scripts<T: Int>(k: &mut Check, n: usize, alphabet: &[(u64, u64)], len: usize) {
  let a = alphabet.len() as u64;
  k.space(
    &format!("{}/size {}, draws over {} fractions", T::NAME, n, a),
    &format!("every sequence of {} draws from {:?}, then a fixed mixed tail", len, alphabet),
    a.pow(len as u32),
    |i| format!("{} size {} draws {:?}", T::NAME, n, digits_vec(i, a, len).iter().map(|&d| alphabet[d]).collect::<Vec<_>>()),
    |i, c| {
      c.state();
      run::<T>(c, n, digits_vec(i, a, len).iter().map(|&d| alphabet[d]).collect(), 1)
    },
  );
}
/// Size 3 with every pair of inner values, every split and every shuffle.
fn values<T: Int>(k: &mut Check, vals: &[u64], of: u64) {
  let v = vals.len() as u64;
  let half = 2 * v * 3 * 2;
  let draws = move |i: u64, vals: &[u64]| vec![(i % 2, 2), (vals[(i / 2 % v) as usize], of), (i / 2 / v % 3, 3), (i / 2 / v / 3 % 2, 2)];
  k.space(
    &format!("{}/size 3, {} values", T::NAME, v),
    "every split, inner value and shuffle for both coordinates",
    half * half,
    |i| format!("{} {:?} {:?}", T::NAME, draws(i % half, vals), draws(i / half, vals)),
    |i, c| {
      c.state();
      let mut s = draws(i % half, vals);
      s.extend(draws(i / half, vals));
      run::<T>(c, 3, s, i)
    },
  );
}
fn all_types<T: Int>(k: &mut Check) {
  const THIRDS: [(u64, u64); 4] = [(0, 1), (1, 3), (1, 2), (2, 3)];
  scripts::<T>(k, 3, &THIRDS, 8);
  let (lo, of) = (T::max_value().wide() as u64, T::max_value().wide() as u64);
  let mut vals: Vec<u64> = vec![0, 1, 2, of / 3, of / 2, of / 2 + 1, lo - 3, lo - 2, lo - 1];
  vals.sort();
  vals.dedup();
  values::<T>(k, &vals, of);
  let sizes: Vec<usize> = (0..k.pick(60, 130)).collect();
  let tails: u64 = k.pick(40, 400);
  k.space(
    &format!("{}/fixed sources", T::NAME),
    "every size request up to the bound with fixed well-mixed sources",
    sizes.len() as u64 * tails,
    |i| format!("{} size {} source {}", T::NAME, sizes[(i / tails) as usize], i % tails),
    |i, c| {
      c.state();
      run::<T>(c, sizes[(i / tails) as usize], vec![], i % tails)
    },
  );
}

fn main() {
  let mut k = Check::new("C23");
  each_type!(T in [i8, i16, i32, i64, isize] { all_types::<T>(&mut k); });
  // Every inner value of i8.
  let vals: Vec<u64> = (0..127).step_by(1).collect();
  values::<i8>(&mut k, &vals, 127);
  const F: [(u64, u64); 5] = [(0, 1), (1, 3), (1, 2), (3, 4), (1, 1)];
  let a = k.pick(4, 5);
  scripts::<i8>(&mut k, 4, &F[..a], 12);
  scripts::<i64>(&mut k, 4, &F[1..4], 12);
  let l = k.pick(16, 20);
  scripts::<i8>(&mut k, 5, &[(0, 1), (1, 2)], l);
  scripts::<i16>(&mut k, 5, &[(1, 4), (2, 3)], l);
  let l = k.pick(20, 22);
  scripts::<i8>(&mut k, 6, &[(0, 1), (3, 5)], l);
  for n in [0, 1, 2] {
    scripts::<i8>(&mut k, n, &F[..3], 8);
  }
  // Coarse values produce many equal draws, hence zero and parallel vectors.
  let reps: u64 = k.pick(4000, 100_000);
  k.space("i8/coarse", "sizes 3 to 40 with draws from four fractions in fixed patterns: many zero and parallel vectors", 38 * reps, |i| format!("size {} pattern {}", 3 + i % 38, i / 38), |i, c| {
    let n = 3 + (i % 38) as usize;
    let len = 2 * (1 + n - 2 + n - 1);
    let s = (0..len as u64).map(|j| F[(mixed(i.wrapping_mul(1000).wrapping_add(j)) % 4) as usize]).collect();
    c.state();
    run::<i8>(c, n, s, i)
  });
  let big: Vec<usize> = k.pick(vec![200, 500, 1000], vec![200, 500, 1000, 2000, 3000]);
  k.space("large", "large size requests in several types, fixed sources", big.len() as u64 * 8, |i| format!("size {} source {}", big[(i / 8) as usize], i % 8), |i, c| {
    let n = big[(i / 8) as usize];
    c.state();
    run::<i8>(c, n, vec![], i)?;
    run::<i32>(c, n, vec![], i)?;
    run::<i64>(c, n, vec![], i)
  });
  let far: Vec<usize> = k.pick(vec![4_100, 20_000, 66_000], vec![4_100, 20_000, 33_000, 66_000, 140_000]);
  k.space("very large", "size requests beyond 65536 in several types, fixed sources", far.len() as u64 * 5, |i| format!("size {} type {}", far[(i / 5) as usize], i % 5), |i, c| {
    let n = far[(i / 5) as usize];
    c.state();
    match i % 5 {
      0 => run::<i8>(c, n, vec![], i),
      1 => run::<i16>(c, n, vec![], i),
      2 => run::<i32>(c, n, vec![], i),
      3 => run::<i64>(c, n, vec![], i),
      _ => run::<isize>(c, n, vec![], i),
    }
  });
  k.space("standard distribution", "the standard distribution of convex polygons, fixed sources", 200, |i| format!("source {}", i), |i, c| {
    let p: PolygonConvex<isize> = Standard.sample(&mut FracRng { script: vec![], pos: 0, tail: i + 77 });
    c.state();
    judge::<isize>(c, 100, &p)
  });
  k.assume("integer coordinate types (the other bounded types round)");
  k.assume("the random source does not deliver only colinear points for ever");
  k.finish()
}
