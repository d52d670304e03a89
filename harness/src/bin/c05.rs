//! C05: tie-breaking of straight turns, and the algebra of orientations.
use harness::oracle::*;
use harness::*;
use rgeometry::Orientation::{self, *};
use rgeometry::SoS;

/// Exact turn of (a,2^a),(b,2^b),(c,2^c): sign of (b-a)(2^c-2^a) - (2^b-2^a)(c-a) on a strictly
/// convex curve, i.e. the sign of the permutation sorting a,b,c.
fn want(a: u32, b: u32, c: u32) -> SoS {
  // For small indices evaluate the determinant itself; otherwise rank-compress first: the
  // curve is strictly convex, so only the relative order of the indices matters.
  let r = if a < 20 && b < 20 && c < 20 {
    let p = |i: u32| [i as i128, 1i128 << i];
    orient(p(a), p(b), p(c))
  } else {
    let mut s = [a, b, c];
    s.sort();
    let p = |i: u32| {
      let k = s.iter().position(|&x| x == i).unwrap() as i128;
      [k, 1i128 << k]
    };
    orient(p(a), p(b), p(c))
  };
  if r > 0 {
    SoS::CounterClockWise
  } else {
    SoS::ClockWise
  }
}
const OS: [Orientation; 3] = [CounterClockWise, ClockWise, CoLinear];
const SS: [SoS; 2] = [SoS::CounterClockWise, SoS::ClockWise];

fn main() {
  let mut k = Check::new("C05");
  let mut idx: Vec<u32> = (0..k.pick(40, 120)).collect();
  for b in [8u32, 15, 16, 24, 31] {
    idx.extend([(1u32 << b) - 1, 1 << b, (1 << b) + 1]);
  }
  idx.extend([u32::MAX, u32::MAX - 1, u32::MAX - 2]);
  idx.sort();
  idx.dedup();
  let n = idx.len() as u64;
  k.space(
    "index triples",
    "all ordered triples of distinct indices: value, swaps, rotations, tie breaking of each orientation",
    n * n,
    |i| format!("a={} b={} c=any", idx[(i % n) as usize], idx[(i / n) as usize]),
    |i, c| {
      let (a, b) = (idx[(i % n) as usize], idx[(i / n) as usize]);
      for &d in &idx {
        if a == b || b == d || a == d {
          continue;
        }
        let w = want(a, b, d);
        let msg = format!("indices {} {} {}", a, b, d);
        same!(msg, w, SoS::new(a, b, d));
        same!(msg, w.reverse(), SoS::new(b, a, d));
        same!(msg, w.reverse(), SoS::new(a, d, b));
        same!(msg, w.reverse(), SoS::new(d, b, a));
        same!(msg, w, SoS::new(b, d, a));
        same!(msg, w, SoS::new(d, a, b));
        c.op(6);
        for o in OS {
          let e = match o {
            CounterClockWise => SoS::CounterClockWise,
            ClockWise => SoS::ClockWise,
            CoLinear => w,
          };
          same!(format!("{:?} broken by {}", o, msg), e, o.break_ties(a, b, d));
          c.op(1);
        }
        c.outcome(if w == SoS::ClockWise { "clockwise" } else { "counter-clockwise" });
        c.state();
        c.trace();
      }
      Ok(())
    },
  );
  k.space(
    "orientation algebra",
    "all orientations x orientations x orientations x tie-breakers",
    3 * 3 * 3 * 2,
    |i| format!("{:?}", digits::<4>(i, 3)),
    |i, c| {
      let (x, y, z, s) = (OS[(i % 3) as usize], OS[(i / 3 % 3) as usize], OS[(i / 9 % 3) as usize], SS[(i / 27) as usize]);
      let m = format!("x={:?} y={:?} z={:?} s={:?}", x, y, z, s);
      same!(m, if x == CoLinear { y } else { x }, x.then(y));
      same!(m, x.then(y).then(z), x.then(y.then(z)));
      let rev = |o| match o {
        CounterClockWise => ClockWise,
        ClockWise => CounterClockWise,
        CoLinear => CoLinear,
      };
      same!(m, rev(x), x.reverse());
      same!(m, x, x.reverse().reverse());
      same!(m, rev(x.then(y)), x.reverse().then(y.reverse()));
      let so = |s| if s == SoS::CounterClockWise { CounterClockWise } else { ClockWise };
      same!(m, so(s), s.orient());
      same!(m, rev(so(s)), s.reverse().orient());
      same!(m, s, s.reverse().reverse());
      same!(m, x.then(so(s)), x.sos(s).orient());
      same!(m, x.sos(s).reverse(), x.reverse().sos(s.reverse()));
      same!(m, x == CoLinear, x.is_colinear());
      same!(m, x == CounterClockWise, x.is_ccw());
      same!(m, x == ClockWise, x.is_cw());
      c.op(13);
      c.state();
      c.trace();
      c.outcome("checked");
      Ok(())
    },
  );
  k.assume("the three indices are distinct (the constructor asserts it)");
  k.finish()
}
