//! C19: the intersection set behaves like a set of edge pairs under any history.
use harness::oracle::*;
use harness::rngs::*;
use harness::scalars::*;
use harness::*;
use rgeometry::data::{IndexEdge, IndexIntersection, IndexIntersectionSet, PointId, Polygon};
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
  /// insert the pair unless present
  Push(usize),
  /// remove every pair with the edge
  Remove(usize),
}
struct World {
  v: usize,
  edges: Vec<IndexEdge>,
  pairs: Vec<(usize, usize)>,
}
impl World {
  fn new(v: usize) -> World {
    let ring: Vec<P> = (0..v as i128).map(|i| [i, i * i]).collect();
    let p = Polygon::new_unchecked(pts::<i64>(&ring));
    let ids: Vec<PointId> = p.boundary_slice().to_vec();
    let mut edges = vec![];
    for i in 0..v {
      for j in i + 1..v {
        // Either order of the end points names the same edge.
        edges.push(if (i + j) % 2 == 0 { IndexEdge::new(ids[i], ids[j]) } else { IndexEdge::new(ids[j], ids[i]) });
      }
    }
    let mut pairs = vec![];
    for i in 0..edges.len() {
      for j in i + 1..edges.len() {
        pairs.push((i, j));
      }
    }
    World { v, edges, pairs }
  }
  fn pair(&self, i: usize, flip: bool) -> IndexIntersection {
    let (a, b) = self.pairs[i];
    if flip {
      IndexIntersection::new(self.edges[b], self.edges[a])
    } else {
      IndexIntersection::new(self.edges[a], self.edges[b])
    }
  }
  fn apply(&self, op: Op, s: &mut IndexIntersectionSet, m: &mut BTreeSet<usize>) {
    match op {
      Op::Push(i) => {
        if m.insert(i) {
          s.push(self.pair(i, m.len() % 2 == 0));
        }
      }
      Op::Remove(e) => {
        m.retain(|&i| self.pairs[i].0 != e && self.pairs[i].1 != e);
        s.remove_all(self.edges[e]);
      }
    }
  }
  fn contents(&self, c: &mut Ctx, s: &IndexIntersectionSet, m: &BTreeSet<usize>) -> R {
    let mut got: Vec<IndexIntersection> = s.iter().collect();
    got.sort();
    let mut want: Vec<IndexIntersection> = m.iter().map(|&i| self.pair(i, false)).collect();
    want.sort();
    ensure!(got == want, "contents should be {:?} but are {:?}", want, got);
    c.op(1);
    Ok(())
  }
  fn picks(&self, c: &mut Ctx, s: &mut IndexIntersectionSet, m: &BTreeSet<usize>) -> R {
    let want: BTreeSet<IndexIntersection> = m.iter().map(|&i| self.pair(i, false)).collect();
    let n = m.len() as u64;
    let mut seen = BTreeSet::new();
    let mut words: Vec<u64> = (0..n).map(|i| word_for(i, n)).collect();
    words.extend([0, u64::MAX, 1 << 63]);
    for w in words {
      let mut x = 0;
      let mut rng = TapeRng {
        tape: vec![w],
        pos: 0,
        tail: || {
          x += 1;
          mixed(x)
        },
      };
      let got = s.random(&mut rng);
      c.op(1);
      match got {
        None => ensure!(want.is_empty(), "draw {:#x} picks nothing from {:?}", w, want),
        Some(p) => {
          ensure!(want.contains(&p), "draw {:#x} picks {:?}, not a member of {:?}", w, p, want);
          seen.insert(p);
        }
      }
    }
    // Every member must be reachable: if the evenly spaced draws missed one, go through a long
    // fixed stretch of well-mixed draws before complaining.
    if seen != want {
      for i in 0..4000u64 {
        let mut x = i * 64;
        let mut rng = TapeRng {
          tape: vec![],
          pos: 0,
          tail: || {
            x += 1;
            mixed(x)
          },
        };
        seen.extend(s.random(&mut rng));
      }
      c.outcome("picks needed mixed draws");
    }
    ensure!(seen == want, "members never picked: {:?}", want.difference(&seen).collect::<Vec<_>>());
    self.contents(c, s, m)
  }
}

/// Every history of exactly `len` operations (the prefixes are checked on the way).
fn histories(k: &mut Check, v: usize, len: usize) {
  let w = World::new(v);
  let ops: Vec<Op> = (0..w.pairs.len()).map(Op::Push).chain((0..w.edges.len()).map(Op::Remove)).collect();
  let n = ops.len() as u64;
  // The first operation of a history on an empty set that is a removal adds nothing new, but is kept.
  k.space(
    &format!("{} vertices, histories of {}", v, len),
    &format!("every sequence of {} operations out of {} (insertions of not-present pairs, removals), contents compared after the last operations, picks after the last", len, n),
    n.pow(len as u32),
    |i| format!("{:?}", digits_vec(i, n, len).iter().map(|&d| ops[d]).collect::<Vec<_>>()),
    |i, c| {
      let d = digits_vec(i, n, len);
      let mut s = IndexIntersectionSet::new(w.v);
      let mut m = BTreeSet::new();
      for &x in &d {
        if let Op::Push(p) = ops[x] {
          if m.contains(&p) {
            // not an admissible history: covered by a shorter one
            c.outcome("repeated insertion skipped");
            return Ok(());
          }
        }
        w.apply(ops[x], &mut s, &mut m);
        c.op(1);
      }
      w.contents(c, &s, &m)?;
      w.picks(c, &mut s, &m)?;
      c.outcome(match m.len() {
        0 => "empty",
        1..=2 => "small",
        _ => "larger",
      });
      c.state();
      c.trace();
      Ok(())
    },
  );
}
/// Every set content, reached by several insertion histories, then every operation, then drained.
fn contents(k: &mut Check, v: usize) {
  let w = World::new(v);
  let np = w.pairs.len();
  let ne = w.edges.len();
  const WAYS: u64 = 5;
  let tail = np + ne;
  k.space(
    &format!("{} vertices, every content", v),
    &format!("every one of the 2^{} contents, reached in {} ways, each followed by each of {} operations and by draining edge by edge in two orders", np, WAYS, tail),
    (1u64 << np) * WAYS,
    |i| format!("content {:#b} way {}", i / WAYS, i % WAYS),
    |i, c| {
      let set: Vec<usize> = (0..np).filter(|&j| (i / WAYS) >> j & 1 == 1).collect();
      let build = || {
        let mut s = IndexIntersectionSet::new(w.v);
        let mut m = BTreeSet::new();
        let mut go = |op: Op, s: &mut IndexIntersectionSet| w.apply(op, s, &mut m);
        match i % WAYS {
          0 => set.iter().for_each(|&j| go(Op::Push(j), &mut s)),
          1 => set.iter().rev().for_each(|&j| go(Op::Push(j), &mut s)),
          2 => {
            // everything in, everything out, then the content inside out
            (0..np).for_each(|j| go(Op::Push(j), &mut s));
            (0..ne).for_each(|e| go(Op::Remove(e), &mut s));
            for j in 0..set.len() {
              go(Op::Push(set[if j % 2 == 0 { j / 2 } else { set.len() - 1 - j / 2 }]), &mut s);
            }
          }
          3 => {
            // after each insertion an edge is emptied and refilled
            for (j, &x) in set.iter().enumerate() {
              go(Op::Push(x), &mut s);
              let e = j % ne;
              go(Op::Remove(e), &mut s);
              for &y in &set[..=j] {
                go(Op::Push(y), &mut s);
              }
            }
          }
          _ => {
            // the content mixed with every pair on an edge it does not use, which is then removed
            let free: Vec<usize> = (0..ne).filter(|&e| set.iter().all(|&j| w.pairs[j].0 != e && w.pairs[j].1 != e)).collect();
            for j in (0..np).rev() {
              if set.contains(&j) || free.iter().any(|&e| w.pairs[j].0 == e || w.pairs[j].1 == e) {
                go(Op::Push(j), &mut s);
              }
            }
            free.iter().for_each(|&e| go(Op::Remove(e), &mut s));
          }
        }
        (s, m)
      };
      let (mut s, m) = build();
      ensure!(m.iter().copied().eq(set.iter().copied()), "harness: content");
      w.picks(c, &mut s, &m)?;
      c.state();
      for op in (0..ne).map(Op::Remove).chain((0..np).map(Op::Push)) {
        if matches!(op, Op::Push(p) if m.contains(&p)) {
          continue;
        }
        let (mut s, mut m) = build();
        w.apply(op, &mut s, &mut m);
        w.contents(c, &s, &m).map_err(|e| format!("after {:?}: {}", op, e))?;
        for e in 0..ne {
          let e = if i & 1 == 0 { e } else { ne - 1 - e };
          w.apply(Op::Remove(e), &mut s, &mut m);
          w.contents(c, &s, &m).map_err(|x| format!("after {:?} and draining up to edge {}: {}", op, e, x))?;
        }
        w.picks(c, &mut s, &m)?;
        c.trace();
      }
      Ok(())
    },
  );
}
/// Full sets on more vertices: every order of removing a few edges, with refills in between.
fn removals(k: &mut Check, v: usize, len: usize) {
  let w = World::new(v);
  let ne = w.edges.len() as u64;
  k.space(
    &format!("{} vertices, full set, {} removals", v, len),
    &format!("all {} pairs inserted, then every sequence of {} removals, with and without putting the pairs back", w.pairs.len(), len),
    ne.pow(len as u32) * 2,
    |i| format!("edges {:?}, refill {}", digits_vec(i / 2, ne, len), i % 2),
    |i, c| {
      let mut s = IndexIntersectionSet::new(w.v);
      let mut m = BTreeSet::new();
      for j in 0..w.pairs.len() {
        // a stride visits the pairs in a scattered order
        w.apply(Op::Push(j * 7 % w.pairs.len()), &mut s, &mut m);
      }
      for j in 0..w.pairs.len() {
        if !m.contains(&j) {
          w.apply(Op::Push(j), &mut s, &mut m);
        }
      }
      for e in digits_vec(i / 2, ne, len) {
        w.apply(Op::Remove(e), &mut s, &mut m);
        w.contents(c, &s, &m)?;
        if i % 2 == 1 {
          for j in (0..w.pairs.len()).rev() {
            w.apply(Op::Push(j), &mut s, &mut m);
          }
          w.contents(c, &s, &m)?;
        }
      }
      w.picks(c, &mut s, &m)?;
      c.state();
      c.trace();
      Ok(())
    },
  );
}

/// Long histories over many edges, including vertex numbers of more than 8 bits and edge numbers of more than 16.
fn long(k: &mut Check) {
  let sizes: &[(usize, usize)] = &[(12, 12), (30, 30), (400, 60), (1200, 60), (1200, 300)];
  let len: usize = k.pick(3000, 20_000);
  k.space("long histories", &format!("{} operations in fixed patterns over the edges of {:?} (vertices, vertices in use): insertions with occasional removals; contents after every removal, picks at intervals, then drained", len, sizes), sizes.len() as u64 * 6, |i| format!("{:?} pattern {}", sizes[(i / 6) as usize], i % 6), |i, c| {
    let (v, used) = sizes[(i / 6) as usize];
    let ring: Vec<P> = (0..v as i128).map(|i| [i, i * i]).collect();
    let p = Polygon::new_unchecked(pts::<i64>(&ring));
    let ids = p.boundary_slice();
    // the vertices in use are spread over all of them, the last included
    let at = |j: usize| ids[v - 1 - j * (v / used)];
    let edge = |x: u64| {
      let a = (x % used as u64) as usize;
      let b = (a + 1 + (x / used as u64 % 3) as usize) % used;
      IndexEdge::new(at(a), at(b))
    };
    let every = [3, 10, 40, 150, 600, 1_000_000][(i % 6) as usize];
    let mut s = IndexIntersectionSet::new(v);
    let mut m: BTreeSet<IndexIntersection> = BTreeSet::new();
    let same = |s: &IndexIntersectionSet, m: &BTreeSet<IndexIntersection>, when: usize| -> R {
      let mut got: Vec<IndexIntersection> = s.iter().collect();
      got.sort();
      ensure!(got.iter().eq(m.iter()), "after {} operations the contents differ: {} pairs instead of {}", when, got.len(), m.len());
      Ok(())
    };
    for j in 0..len {
      let r = mixed(i << 40 | j as u64);
      if j % every == every - 1 {
        let e = edge(r >> 8);
        s.remove_all(e);
        m.retain(|x| x.min != e && x.max != e);
        same(&s, &m, j)?;
      } else {
        let (a, b) = (edge(r >> 8), edge(r >> 36));
        if a != b && m.insert(IndexIntersection::new(a, b)) {
          s.push(IndexIntersection::new(a, b));
        }
      }
      if j % 97 == 0 {
        let mut x = j as u64;
        let mut rng = TapeRng {
          tape: vec![],
          pos: 0,
          tail: || {
            x += 1;
            mixed(x)
          },
        };
        match s.random(&mut rng) {
          None => ensure!(m.is_empty(), "picks nothing from {} pairs", m.len()),
          Some(q) => ensure!(m.contains(&q), "picks {:?}, which is not a member", q),
        }
      }
      c.op(1);
    }
    same(&s, &m, len)?;
    if i % 6 == 4 {
      // Every member of a large set can be picked.
      let n = m.len() as u64;
      let mut seen: BTreeSet<IndexIntersection> = BTreeSet::new();
      for q in 0..3 * n {
        let mut x = q;
        let mut rng = TapeRng {
          tape: vec![word_for(q % n, n)],
          pos: 0,
          tail: || {
            x += 1;
            mixed(x)
          },
        };
        seen.extend(s.random(&mut rng));
      }
      let mut q = 0u64;
      // ... through well-mixed draws where the evenly spaced ones miss some.
      while seen.len() < m.len() && q < 60 * n {
        q += 1;
        let mut x = q * 64;
        let mut rng = TapeRng {
          tape: vec![],
          pos: 0,
          tail: || {
            x += 1;
            mixed(x)
          },
        };
        seen.extend(s.random(&mut rng));
      }
      ensure!(seen == m, "of {} pairs, {} can never be picked", m.len(), m.difference(&seen).count());
      c.op(3 * n + q);
    }
    c.states(m.len() as u64);
    while let Some(q) = m.iter().next().copied() {
      s.remove_all(q.min);
      m.retain(|x| x.min != q.min && x.max != q.min);
      if m.len() % 8 == 0 {
        same(&s, &m, len)?;
      }
      c.op(1);
    }
    same(&s, &m, len)?;
    c.trace();
    Ok(())
  });
}

/// Many edges at once, chosen so that table positions differ by every power of two.
fn crowded(k: &mut Check) {
  let sizes: &[usize] = if k.thorough() { &[40, 257, 300, 1025, 1200, 2000] } else { &[40, 257, 300, 1200] };
  k.space("crowded sets", &format!("sets over {:?} vertices in which every edge from some twenty to sixty vertices to all later ones occurs once; pairs formed in four ways; every edge removed in scattered order, contents compared on the way", sizes), sizes.len() as u64 * 4, |i| format!("{} vertices, pairs {}", sizes[(i / 4) as usize], i % 4), |i, c| {
    let v = sizes[(i / 4) as usize];
    let ring: Vec<P> = (0..v as i128).map(|i| [i, i * i]).collect();
    let p = Polygon::new_unchecked(pts::<i64>(&ring));
    let ids = p.boundary_slice();
    let mut from: BTreeSet<usize> = [0, 1, 2, v / 2, v - 3, v - 2].into();
    for b in 3..=22 {
      let r = (1usize << b) / v;
      from.extend([r.saturating_sub(1), r, r + 1, v.saturating_sub(r + 1), v.saturating_sub(r + 2)].into_iter().filter(|&x| x + 1 < v));
    }
    let mut edges: Vec<IndexEdge> = vec![];
    for &a in &from {
      edges.extend((a + 1..v).map(|b| IndexEdge::new(ids[a], ids[b])));
    }
    if edges.len() % 2 == 1 {
      edges.pop();
    }
    let n = edges.len();
    let pairs: Vec<(usize, usize)> = match i % 4 {
      0 => (0..n / 2).map(|j| (2 * j, 2 * j + 1)).collect(),
      1 => (0..n / 2).map(|j| (j, j + n / 2)).collect(),
      2 => (0..n / 2).map(|j| (j, n - 1 - j)).collect(),
      // one chain through all edges
      _ => (0..n - 1).map(|j| (j, j + 1)).collect(),
    };
    let mut s = IndexIntersectionSet::new(v);
    let mut m: BTreeSet<IndexIntersection> = BTreeSet::new();
    for &(a, b) in &pairs {
      s.push(IndexIntersection::new(edges[a], edges[b]));
      m.insert(IndexIntersection::new(edges[a], edges[b]));
      c.op(1);
    }
    let same = |s: &IndexIntersectionSet, m: &BTreeSet<IndexIntersection>, when: usize| -> R {
      let mut got: Vec<IndexIntersection> = s.iter().collect();
      got.sort();
      ensure!(got.iter().eq(m.iter()), "after {} removals the contents differ: {} pairs instead of {}", when, got.len(), m.len());
      Ok(())
    };
    same(&s, &m, 0)?;
    c.states(m.len() as u64);
    let mut with: Vec<Vec<usize>> = vec![vec![]; n];
    for (j, &(a, b)) in pairs.iter().enumerate() {
      with[a].push(j);
      with[b].push(j);
    }
    let step = (n / 12).max(1);
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|&j| mixed(j as u64));
    for (t, &e) in order.iter().enumerate() {
      s.remove_all(edges[e]);
      for &j in &with[e] {
        m.remove(&IndexIntersection::new(edges[pairs[j].0], edges[pairs[j].1]));
      }
      c.op(1);
      if t % step == step - 1 || t < 20 {
        same(&s, &m, t + 1)?;
      }
    }
    same(&s, &m, n)?;
    c.trace();
    Ok(())
  });
}

fn main() {
  let mut k = Check::new("C19");
  histories(&mut k, 2, 4);
  for len in 0..=k.pick(8, 10) {
    histories(&mut k, 3, len);
  }
  for len in 1..=5 {
    histories(&mut k, 4, len);
  }
  let l = k.pick(3, 4);
  histories(&mut k, 5, l);
  contents(&mut k, 3);
  contents(&mut k, 4);
  let n = k.pick(2, 4);
  removals(&mut k, 5, n);
  removals(&mut k, 6, n.min(3));
  if k.thorough() {
    removals(&mut k, 9, 2);
  }
  long(&mut k);
  crowded(&mut k);
  k.assume("only pairs that are not present are inserted, as the uncrossing algorithm's documentation of the set requires");
  k.finish()
}
