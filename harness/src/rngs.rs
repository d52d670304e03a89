//! Random sources fully decided by the harness.
use rand::{Error, RngCore};
use std::cell::RefCell;
use std::rc::Rc;

/// Replays a tape of 64-bit words; after its end continues with `tail`.
pub struct TapeRng<F: FnMut() -> u64> {
  pub tape: Vec<u64>,
  pub pos: usize,
  pub tail: F,
}
impl<F: FnMut() -> u64> RngCore for TapeRng<F> {
  fn next_u32(&mut self) -> u32 {
    (self.next_u64() >> 32) as u32
  }
  fn next_u64(&mut self) -> u64 {
    let v = if self.pos < self.tape.len() {
      self.tape[self.pos]
    } else {
      (self.tail)()
    };
    self.pos += 1;
    v
  }
  fn fill_bytes(&mut self, dest: &mut [u8]) {
    for c in dest.chunks_mut(8) {
      let b = self.next_u64().to_le_bytes();
      c.copy_from_slice(&b[..c.len()]);
    }
  }
  fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
    self.fill_bytes(dest);
    Ok(())
  }
}

/// Word that makes `gen_range(0..m)` (widening-multiply sampling) return i.
pub fn word_for(i: u64, m: u64) -> u64 {
  // floor(w*m / 2^64) == i  for  w = ceil(i * 2^64 / m)
  (((i as u128) << 64).div_ceil(m as u128)) as u64
}

/// Choice-driven source: the k-th draw returns the word for choice script[k] out of
/// `fan` evenly spaced words (0 beyond the script), and records how many draws happened.
#[derive(Clone)]
pub struct ChoiceRng(pub Rc<RefCell<ChoiceState>>);
pub struct ChoiceState {
  pub script: Vec<u64>,
  pub fan: u64,
  pub draws: usize,
  pub limit: usize,
}
impl ChoiceRng {
  pub fn new(script: Vec<u64>, fan: u64, limit: usize) -> ChoiceRng {
    ChoiceRng(Rc::new(RefCell::new(ChoiceState {
      script,
      fan,
      draws: 0,
      limit,
    })))
  }
}
impl RngCore for ChoiceRng {
  fn next_u32(&mut self) -> u32 {
    (self.next_u64() >> 32) as u32
  }
  fn next_u64(&mut self) -> u64 {
    let mut s = self.0.borrow_mut();
    let k = s.draws;
    s.draws += 1;
    if s.draws > s.limit {
      drop(s);
      panic!("random source exhausted: more draws than the termination bound allows");
    }
    let c = s.script.get(k).copied().unwrap_or(0);
    word_for(c, s.fan)
  }
  fn fill_bytes(&mut self, dest: &mut [u8]) {
    for c in dest.chunks_mut(8) {
      let b = self.next_u64().to_le_bytes();
      c.copy_from_slice(&b[..c.len()]);
    }
  }
  fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
    self.fill_bytes(dest);
    Ok(())
  }
}

/// A fixed well-mixed word (constant words can be rejected forever by range sampling).
pub fn mixed(x: u64) -> u64 {
  let mut z = x.wrapping_add(1).wrapping_mul(0x9E3779B97F4A7C15);
  z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
  z ^ (z >> 31)
}
