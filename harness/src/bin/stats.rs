use harness::polyenum::*;
fn main() {
  for (w, h, n) in [(3, 3, 9), (4, 3, 8), (4, 4, 5), (4, 4, 6), (4, 4, 7), (5,5,4),(5,5,5), (5,4,6)] {
    let t = std::time::Instant::now();
    let p = simple_polygons(&grid(w, h), 3, n);
    println!("{}x{} n<={}: {} in {:?}", w, h, n, p.len(), t.elapsed());
  }
  let f = families(300);
  println!("{} families, max {}", f.len(), f.iter().map(|x| x.1.len()).max().unwrap());
}
