//! C15: z-order hashing interleaves bits and preserves boxes.
use harness::scalars::*;
use harness::*;
use rgeometry::algorithms::zhash::{zhash_pair, zunhash_pair, ZHashBox, ZHashable};
use rgeometry::data::Point;
use std::fmt::Debug;

/// Bit-by-bit definition.
fn interleave(a: u32, b: u32) -> u64 {
  let mut w = 0u64;
  for i in 0..32 {
    w |= ((a >> i & 1) as u64) << (2 * i);
    w |= ((b >> i & 1) as u64) << (2 * i + 1);
  }
  w
}
fn spread_table() -> Vec<u32> {
  (0..1u32 << 16).map(|x| interleave(x, 0) as u32).collect()
}
#[inline]
fn inter(t: &[u32], a: u32, b: u32) -> u64 {
  let s = |x: u32| t[(x & 0xffff) as usize] as u64 | (t[(x >> 16) as usize] as u64) << 32;
  s(a) | s(b) << 1
}
#[inline]
fn pair(t: &[u32], a: u32, b: u32) -> R {
  let w = zhash_pair(a, b);
  ensure!(w == inter(t, a, b), "interleaving {:#x} and {:#x}: expected {:#018x}, got {:#018x}", a, b, inter(t, a, b), w);
  let back = zunhash_pair(w);
  ensure!(back == (a, b), "splitting {:#018x}: expected {:?}, got {:?}", w, (a, b), back);
  Ok(())
}

/// All sorted quadruples (low end of box, p, q, high end of box) of a sorted alphabet.
fn quads(n: usize) -> Vec<[usize; 4]> {
  let mut v = vec![];
  for a in 0..n {
    for b in a..n {
      for c in b..n {
        for d in c..n {
          v.push([a, b, c, d]);
        }
      }
    }
  }
  v
}
fn monotone<T: ZHashable + Copy + PartialOrd + Debug + Send + Sync>(k: &mut Check, name: &str, label: &str, xs: &[T], ys: &[T]) {
  assert!(xs.windows(2).all(|w| w[0] < w[1]) && ys.windows(2).all(|w| w[0] < w[1]));
  let (qx, qy) = (quads(xs.len()), quads(ys.len()));
  let n = qx.len() as u64 * qy.len() as u64;
  let get = |i: u64| (qx[(i / qy.len() as u64) as usize].map(|j| xs[j]), qy[(i % qy.len() as u64) as usize].map(|j| ys[j]));
  k.space(
    &format!("{}/{}", name, label),
    &format!("every box and every pair p <= q of points in it, over {} x and {} y values", xs.len(), ys.len()),
    n,
    |i| format!("{} (low, p, q, high): {:?}", name, get(i)),
    |i, c| {
      let (x, y) = get(i);
      let key = T::zhash_key(ZHashBox {
        min_x: &x[0],
        max_x: &x[3],
        min_y: &y[0],
        max_y: &y[3],
      });
      let h: Vec<u64> = (0..4).map(|j| T::zhash_fn(key, &Point::new([x[j], y[j]]))).collect();
      ensure!(h[0] <= h[1] && h[1] <= h[2] && h[2] <= h[3], "{}: hashes of {:?} <= {:?} <= {:?} <= {:?} are not in order: {:x?}", name, (x[0], y[0]), (x[1], y[1]), (x[2], y[2]), (x[3], y[3]), h);
      c.op(4);
      c.state();
      c.trace();
      c.outcome(if h[1] < h[2] { "strictly increasing" } else { "equal" });
      Ok(())
    },
  );
}

fn main() {
  let mut k = Check::new("C15");
  let t = spread_table();
  k.space("single and double bits", "every pair of at most two set bits in each number", (1 + 32 + 496) * (1 + 32 + 496), |i| format!("{}", i), |i, c| {
    let bits = |mut i: u64| -> u32 {
      if i == 0 {
        return 0;
      }
      i -= 1;
      if i < 32 {
        return 1 << i;
      }
      i -= 32;
      let mut a = 1u64;
      while i >= a {
        i -= a;
        a += 1;
      }
      1 << a | 1 << i
    };
    let (a, b) = (bits(i / 529), bits(i % 529));
    for (a, b) in [(a, b), (!a, b), (a, !b), (!a, !b)] {
      ensure!(inter(&t, a, b) == interleave(a, b), "harness: table disagrees with definition");
      pair(&t, a, b)?;
    }
    c.op(8);
    c.states(4);
    c.trace();
    Ok(())
  });
  // Whole range of one number against several others
  let chunk = 1u64 << 16;
  let others = k.pick(1usize, 4);
  k.space("whole range", "every 32-bit number, as first and as second of the pair, against a mixed partner", (1u64 << 32) / chunk, |i| format!("numbers from {:#x}", i * chunk), |i, c| {
    for a in 0..chunk {
      let a = (i * chunk + a) as u32;
      let mix = a.wrapping_mul(0x9E3779B1).rotate_left(16);
      for b in &[mix, !a, 0, u32::MAX][..others] {
        pair(&t, a, *b)?;
        pair(&t, *b, a)?;
      }
    }
    c.op(chunk * 4 * others as u64);
    c.states(chunk * 2 * others as u64);
    c.trace();
    Ok(())
  });
  let sh = k.pick(9u32, 11);
  let m = 1u64 << (2 * sh);
  k.space("small windows", &format!("every pair of {}-bit windows at every position of both numbers", sh), (33 - sh as u64) * (33 - sh as u64), |i| format!("windows at {:?}", digits::<2>(i, 33 - sh as u64)), |i, c| {
    let [s, r] = digits::<2>(i, 33 - sh as u64);
    for w in 0..m {
      let (a, b) = ((w & ((1 << sh) - 1)) as u32, (w >> sh) as u32);
      pair(&t, a << s, b << r)?;
    }
    c.op(m * 2);
    c.states(m);
    c.trace();
    Ok(())
  });

  let size = k.pick(9, 13);
  let small = k.pick(6, 9);
  let ext = |lo: i128, hi: i128, n: usize| extreme_alphabet(lo, hi, n);
  let i8s: Vec<i8> = ext(-128, 127, size).iter().map(|&x| x as i8).collect();
  monotone::<i8>(&mut k, "i8", "extremes", &i8s, &i8s);
  let all8: Vec<i8> = (-128..=127).step_by(k.pick(8, 4)).map(|x| x as i8).collect();
  monotone::<i8>(&mut k, "i8", "wide x", &all8, &[-128, -1, 127]);
  monotone::<i8>(&mut k, "i8", "wide y", &[-128, 0, 127], &all8);
  let i64s: Vec<i64> = ext(i64::MIN as i128, i64::MAX as i128, size).iter().map(|&x| x as i64).collect();
  monotone::<i64>(&mut k, "i64", "extremes", &i64s, &i64s);
  // widths around every power of two where the shift changes
  let mut pw: Vec<i64> = (0..63).step_by(k.pick(9, 4)).flat_map(|s| [(1i64 << s) - 1, 1i64 << s]).chain([1i64 << 31, 1 << 32, 1 << 33, (1 << 32) - 1, (1 << 32) + 1, i64::MAX]).collect();
  pw.sort();
  pw.dedup();
  monotone::<i64>(&mut k, "i64", "powers of two", &pw, &[-(1 << 33), 0, 1 << 20]);
  monotone::<i64>(&mut k, "i64", "powers of two (y)", &[i64::MIN, 0, 1 << 20], &pw);
  let u64s: Vec<u64> = ext(0, u64::MAX as i128, 99).iter().filter(|x| **x >= 0 && **x <= u64::MAX as i128).map(|&x| x as u64).take(size).collect();
  monotone::<u64>(&mut k, "u64", "extremes", &u64s, &u64s);
  let pu: Vec<u64> = pw.iter().filter(|x| **x >= 0).map(|&x| x as u64).chain([1u64 << 63, u64::MAX]).collect();
  monotone::<u64>(&mut k, "u64", "powers of two", &pu, &[0, 1 << 20, u64::MAX]);
  monotone::<u64>(&mut k, "u64", "powers of two (y)", &[0, 1 << 20, u64::MAX], &pu);
  let u32s: Vec<u32> = [0u32, 1, 2, 3, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0x5555_5555, 0xaaaa_aaaa, 12345].into_iter().take(size).collect();
  let mut u32s = u32s;
  u32s.sort();
  monotone::<u32>(&mut k, "u32", "extremes", &u32s, &u32s);
  let mut f: Vec<f64> = vec![0.0, 1.0, 1.0 + f64::EPSILON, -1.0, 0.1, 0.3, 1e-300, -1e15, 4294967295.0, 4294967296.5, 1e300, -1e-5, 9007199254740993.0];
  f.truncate(size);
  f.sort_by(f64::total_cmp);
  monotone::<f64>(&mut k, "f64", "mixed magnitudes", &f, &f);
  let dense: Vec<f64> = (0..small * 3).map(|i| f64::from_bits(1.0f64.to_bits() + i as u64)).collect();
  monotone::<f64>(&mut k, "f64", "neighbouring values", &dense, &[-2.0, 0.5, 7.0]);
  let wide: Vec<f64> = (0..small * 2).map(|i| (i as f64 - 4.0) * 0.1).collect();
  monotone::<f64>(&mut k, "f64", "tenths", &wide, &[0.0, 0.1, 0.2, 0.30000000000000004]);
  k.assume("hashed points lie in the enclosing box the key was made from; floats are finite");
  k.finish()
}
