//! Self-test of the engine: what the language and its library do under it is compared with
//! the native run (tools/selftest.py). No property rests on these entries.
use crate::vs;
use std::borrow::Cow;
use std::cell::{Cell, OnceCell, RefCell};
use std::collections::*;
use std::fmt::Write as _;
use std::hint::black_box;
use std::rc::Rc;

fn o(v: f64) {
    vs::observe(v)
}
fn n(v: usize) {
    vs::observe(v as f64)
}
fn text(s: &str) {
    n(s.len());
    for b in s.bytes() {
        n(b as usize)
    }
}
fn pairs() -> Vec<(usize, usize)> {
    let n = vs::choice("n", 24);
    let mul = 1 + vs::choice("mul", 4) * 2;
    (0..n).map(|i| (black_box((i * mul + 3) % 29), i)).collect()
}
fn btree() {
    let h = pairs();
    let m: BTreeMap<usize, usize> = h.iter().map(|(a, b)| (*a, *b)).collect();
    n(m.len());
    for (a, b) in &m {
        n(*a);
        n(*b);
    }
    for (a, b) in m.range(3..11).rev() {
        n(*a + *b);
    }
    n(m.first_key_value().map_or(99, |x| *x.1));
    n(m.last_key_value().map_or(99, |x| *x.1));
    let mut s: BTreeSet<usize> = h.iter().map(|x| x.0).collect();
    for (a, _) in h.iter().step_by(2) {
        n(s.remove(a) as usize);
    }
    for k in &s {
        n(*k);
    }
    let mut e: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for (a, b) in &h {
        e.entry(a % 5).or_default().push(*b);
    }
    e.retain(|k, v| k % 2 == 0 || v.len() > 2);
    for (k, v) in e {
        n(k);
        v.into_iter().for_each(n);
    }
}
fn hash() {
    let h = pairs();
    let m: HashMap<usize, usize> = h.iter().map(|(a, b)| (*a, *b)).collect();
    n(m.len());
    for (a, b) in &h {
        vs::check(m.get(a).is_some() && m.contains_key(b) == m.get(b).is_some(), "get");
        n(*m.get(a).unwrap());
    }
    let m2: BTreeMap<usize, usize> = m.iter().map(|(a, b)| (*a, *b)).collect();
    vs::check(m2.len() == m.len(), "all");
    for (a, b) in &m2 {
        n(*a);
        n(*b);
    }
    let mut v: Vec<usize> = m.values().copied().collect();
    v.sort_unstable_by(|a, b| b.cmp(a));
    v.into_iter().for_each(n);
    let mut m = m;
    m.retain(|k, _| k % 3 != 0);
    let mut w: Vec<_> = m.drain().collect();
    w.sort();
    for (a, b) in w {
        n(a + b)
    }
    let s: HashSet<String> = h.iter().map(|(a, _)| format!("k{}", a % 7)).collect();
    n(s.len());
    n(s.contains("k3") as usize);
    let mut g: HashMap<&str, Vec<usize>> = HashMap::new();
    for (a, b) in &h {
        g.entry(if a % 2 == 0 { "even" } else { "odd" }).or_default().push(*b);
    }
    for k in ["even", "odd", "none"] {
        n(g.remove(k).map_or(77, |v| v.len()));
    }
}
fn deque() {
    let c = vs::choice("n", 12);
    let mut d = VecDeque::new();
    for i in 0..c {
        if black_box(i) % 3 == 0 { d.push_back(i) } else { d.push_front(i) }
    }
    d.iter().copied().for_each(n);
    d.iter().rev().copied().for_each(n);
    if !d.is_empty() {
        d.rotate_left(c / 2);
    }
    d.make_contiguous().sort();
    d.retain(|x| x % 4 != 1);
    while let Some(x) = d.pop_back() {
        n(x)
    }
    let mut b = BinaryHeap::new();
    for (a, _) in pairs() {
        b.push(a)
    }
    while let Some(x) = b.pop() {
        n(x)
    }
    let mut l = LinkedList::new();
    for (a, _) in pairs() {
        l.push_front(a)
    }
    l.into_iter().for_each(n);
}
fn slices() {
    let h = pairs();
    let mut v: Vec<usize> = h.iter().map(|x| x.0).collect();
    v.sort();
    v.dedup();
    n(v.binary_search(&7).unwrap_or_else(|x| x + 100));
    n(v.partition_point(|x| *x < 9));
    for w in v.windows(2) {
        n(w[1] - w[0])
    }
    for c in v.chunks(3) {
        n(c.iter().sum())
    }
    for c in v.rchunks_exact(2) {
        n(c[0])
    }
    let t = v.split_off(v.len() / 2);
    n(t.len());
    v.extend(t.iter().rev());
    v.extend_from_within(..v.len() / 3);
    v.retain(|x| x % 3 != 1);
    let d: Vec<usize> = v.drain(v.len() / 4..v.len() / 2).collect();
    v.splice(..0, d.iter().map(|x| x + 50));
    v.insert(v.len() / 2, 1000);
    v.truncate(20);
    v.reverse();
    if v.len() > 3 {
        n(v.swap_remove(1));
        v.rotate_right(2);
        v.swap(0, 1);
        v.copy_within(0..2, 1);
    }
    v.iter().copied().for_each(n);
    let (a, b): (Vec<usize>, Vec<usize>) = v.iter().partition(|x| **x > 10);
    n(a.len());
    n(b.concat_len());
    let (p, q): (Vec<usize>, Vec<usize>) = h.iter().copied().unzip();
    n(p.iter().zip(q.iter().skip(1)).map(|(a, b)| a * b).sum());
    n(p.iter().rposition(|x| *x > 5).unwrap_or(88));
    n(p.iter().copied().max_by_key(|x| x % 6).unwrap_or(88));
    n(p.iter().copied().min_by(|a, b| (a % 7).cmp(&(b % 7))).unwrap_or(88));
    p.iter().scan(0, |s, x| { *s += x; Some(*s) }).take_while(|x| *x < 60).for_each(n);
    let mut it = p.iter().peekable();
    while let Some(x) = it.next() {
        if it.peek().is_some_and(|y| *y < x) { n(*x) }
    }
    n(p.iter().chain(&q).skip_while(|x| **x < 10).step_by(2).filter_map(|x| x.checked_sub(3)).fold(1, |a, b| (a * 31 + b) % 10007));
    n(p.iter().flat_map(|x| (0..x % 4).map(move |y| x * y)).last().unwrap_or(66));
    n(q.iter().rev().cycle().take(7).copied().reduce(|a, b| a * 3 + b).unwrap_or(44));
    let arr: [usize; 5] = std::array::from_fn(|i| p.get(i).copied().unwrap_or(i * i));
    arr.map(|x| x ^ 5).iter().copied().for_each(n);
    let mut s = h.clone();
    s.sort_by_key(|x| std::cmp::Reverse(x.0 % 4));
    s.iter().for_each(|x| n(x.1));
    s.sort_unstable_by(|a, b| a.1.cmp(&b.1).reverse());
    s.iter().for_each(|x| n(x.1));
    if let [first, .., last] = s.as_slice() {
        n(first.0 + last.0)
    }
    n(s.iter().map(|x| x.0).eq(h.iter().rev().map(|x| x.0)) as usize);
    n(p.concat_len() + p.iter().is_sorted() as usize);
    if let Some((k, r)) = p.split_first() { n(*k + r.len()) }
    n(p.split(|x| x % 5 == 0).map(|x| x.len() + 1).product());
}
trait Len {
    fn concat_len(&self) -> usize;
}
impl Len for Vec<usize> {
    fn concat_len(&self) -> usize {
        [self.as_slice(), self.as_slice()].concat().len()
    }
}
fn strings() {
    let k = vs::choice("k", 5);
    let s = ["", "Group 1", "ärger,mit,Ümlaut", "a  b c\tdé", "12.50;-7;1e3;x"][k].to_string();
    text(&s.to_uppercase());
    text(&s.trim_start_matches('a').replace(',', "--"));
    for p in s.split([',', ';', ' ']) {
        n(p.len());
        o(p.parse::<f64>().unwrap_or(-1.0));
        n(p.parse::<i32>().map_or(5, |x| (x + 100) as usize));
    }
    for (i, c) in s.char_indices() {
        n(i + c as usize)
    }
    text(&s.chars().rev().collect::<String>());
    n(s.find("it").unwrap_or(55));
    n(s.rfind(|c: char| c.is_alphabetic()).unwrap_or(55));
    let (mut x, y) = (String::new(), vs::choice("y", 3) as i64 - 1);
    write!(x, "{:>8}|{:<5}|{:^7}|{:+}|{:#x}|{:08.3}|{:e}|{:?}|{:?}", s, y, "m", y, 255 + y, y as f64 * 1.5, 1234.5, Some(&s), [0.1, 1e21, y as f64]).unwrap();
    text(&x);
    let c: Cow<str> = if k % 2 == 0 { Cow::Borrowed(&s) } else { Cow::Owned(s.repeat(2)) };
    text(&c);
    n(s.split_once(',').map_or(3, |x| x.1.len()));
    n((s.as_str() < "b") as usize + s.starts_with("Gr") as usize + s.eq_ignore_ascii_case("GROUP 1") as usize);
    let l: Vec<&str> = s.split_whitespace().collect();
    text(&l.join("+"));
    text(&String::from_utf8_lossy(&s.as_bytes()[..s.len() / 2]));
    text(&format!("{:?}", s.bytes().map(|b| b as char).filter(char::is_ascii_punctuation).collect::<Vec<_>>()));
}
fn ints() {
    let a = [0u64, 1, 7, 0x8000_0000, u64::MAX, 12345678901][vs::choice("a", 6)];
    let b = [1u64, 3, 64, u64::MAX / 2][vs::choice("b", 4)];
    let (a, b) = (black_box(a), black_box(b));
    let u = |x: u64| { n((x >> 32) as usize); n((x & 0xffff_ffff) as usize) };
    u(a.wrapping_add(b));
    u(a.wrapping_mul(b));
    u(a.saturating_sub(b));
    u(a.saturating_mul(b));
    u(a.checked_add(b).unwrap_or(3));
    u(a.overflowing_mul(b).1 as u64);
    u(a.rotate_left(13) ^ b.swap_bytes());
    u(a.leading_zeros() as u64 * 1000 + b.trailing_zeros() as u64 + a.count_ones() as u64);
    u(a.reverse_bits());
    u(a.abs_diff(b));
    u((a / b).wrapping_add(a % b));
    u((a as u128 * b as u128 >> 64) as u64);
    u(((a as u128) << 40).checked_div(b as u128 + 1).unwrap() as u64);
    u((a as i64).wrapping_neg().rem_euclid(b as i64 / 2 + 1) as u64);
    u((a as i32 as i64) as u64 ^ (b as i8 as i64) as u64 ^ (a as u16) as u64);
    u((a as i64).div_euclid(7) as u64);
    u(a.isqrt() + a.checked_ilog2().unwrap_or(5) as u64 + b.pow(1) + (b as u32).next_power_of_two() as u64 % 77);
    u((a as i64).signum() as u64 + (b as i64).clamp(-5, 5) as u64 + a.min(b).max(2));
    u(u64::from_le_bytes(a.to_be_bytes()));
    o(a as f64);
    o(a as i64 as f32 as f64);
    u((a as f64 * 1.7) as u64);
    n((a as f64 - 9.0) as u8 as usize);
    n((f64::NAN) as usize + (-(a as f64)) as i16 as u16 as usize);
}
fn floats() {
    let x = vs::num("x", -16.0, 16.0, 3);
    let y = vs::num("y", -16.0, 16.0, 3);
    o(x.min(y) * 2.0 + x.max(y));
    o(x.abs() - y.abs());
    o(x.clamp(-3.0, 5.0));
    o(x.mul_add(y, 1.5));
    o((x - y).signum());
    o(x.copysign(y));
    o(x.powi(3));
    o((x * x + y * y).sqrt());
    o(x.floor() + y.ceil() * 3.0 + x.trunc() * 5.0 + y.round() * 7.0);
    o(x.fract());
    o(x.rem_euclid(4.5));
    o(x.to_radians().to_degrees());
    o(x as f32 as f64 * 0.1);
    o((x as f32 * y as f32 + 0.3) as f64);
    n((x.total_cmp(&y) as i8 + 1) as usize);
    n(x.partial_cmp(&y).map_or(9, |c| (c as i8 + 1) as usize));
    n((x > y) as usize + (x == y) as usize * 2 + x.is_sign_negative() as usize * 4 + x.is_finite() as usize * 8);
    o([x, y, 2.0].into_iter().fold(f64::NEG_INFINITY, f64::max));
    let mut v = [x, y, 0.0, 3.25];
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.iter().for_each(|a| o(*a));
    n(v.iter().position(|a| *a == x).unwrap());
    o(v.iter().sum::<f64>() + v.iter().map(|a| a * 0.5).product::<f64>());
    n((x as i64 + 40) as usize + (y as u8) as usize + (x * 10.0) as i32 as u8 as usize);
    o((x as i64 as f64) / 3.0);
    o(match x { v if v < -4.0 => -1.0, v if (0.0..2.0).contains(&v) => v, _ => y });
    o(if x != 0.0 { y / x } else { x });
    o(x % 3.0);
    o((x - 1.0).hypot(y));
}
fn objects() {
    struct D(Rc<Cell<usize>>, usize);
    impl Drop for D {
        fn drop(&mut self) {
            self.0.set(self.0.get() * 3 + self.1)
        }
    }
    trait Sh {
        fn area(&self) -> f64;
        fn name(&self) -> String { "shape".into() }
    }
    struct Sq(f64);
    struct Ci(f64, Option<Box<dyn Sh>>);
    impl Sh for Sq {
        fn area(&self) -> f64 { self.0 * self.0 }
    }
    impl Sh for Ci {
        fn area(&self) -> f64 { 3.0 * self.0 * self.0 - self.1.as_ref().map_or(0.0, |x| x.area()) }
        fn name(&self) -> String { format!("circle of {}", self.1.as_ref().map_or("nothing".to_string(), |x| x.name())) }
    }
    let x = vs::num("x", -4.0, 4.0, 2);
    let mut v: Vec<Box<dyn Sh>> = vec![];
    for i in 0..1 + vs::choice("n", 4) {
        if i % 2 == 0 { v.push(Box::new(Sq(x + i as f64))) } else { let c = v.pop(); v.push(Box::new(Ci(x, c))) }
    }
    for s in &v {
        o(s.area());
        text(&s.name());
    }
    let c = Rc::new(Cell::new(1));
    let d: Vec<D> = (0..5).map(|i| D(c.clone(), i)).collect();
    let mut it = d.into_iter();
    drop(it.next_back());
    n(c.get());
    let keep = it.nth(1);
    n(c.get());
    drop(it);
    n(c.get());
    drop(keep);
    n(c.get() + Rc::strong_count(&c));
    let r = Rc::new(RefCell::new(vec![1usize]));
    let w = Rc::downgrade(&r);
    let add = { let r = r.clone(); move |k: usize| r.borrow_mut().push(k) };
    let fs: [&dyn Fn(usize); 2] = [&add, &|k| add(k * 2)];
    for (i, f) in fs.iter().cycle().take(5).enumerate() { f(i) }
    r.borrow().iter().copied().for_each(n);
    n(w.upgrade().is_some() as usize);
    let once: OnceCell<usize> = OnceCell::new();
    n(*once.get_or_init(|| 5) + *once.get_or_init(|| 6));
    static L: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    n(L.get_or_init(|| vec![4, 5]).len());
    static Z: std::sync::LazyLock<usize> = std::sync::LazyLock::new(|| 17);
    n(*Z);
    let m = std::sync::Arc::new(std::sync::Mutex::new(3usize));
    *m.lock().unwrap() += 4;
    n(*m.lock().unwrap());
    thread_local!(static T: Cell<usize> = const { Cell::new(2) });
    T.with(|t| t.set(t.get() + 1));
    let opt = Some(x).filter(|x| *x > 0.0).map(|x| x * 2.0).or(Some(-1.0)).zip(Some(2.0)).xor(None);
    o(opt.map_or(0.0, |(a, b)| a - b));
    let res: Result<Vec<f64>, String> = ["1", "2.5", if x > 0.0 { "q" } else { "3" }].iter().map(|s| s.parse::<f64>().map_err(|e| e.to_string())).collect();
    match res { Ok(v) => v.iter().for_each(|x| o(*x)), Err(e) => text(&e) }
    let mut a = Some(3);
    n(a.take().unwrap() + a.replace(4).unwrap_or(9) + *a.get_or_insert(8) + std::mem::replace(&mut a, None).unwrap() + *a.insert(2));
    fn rec(d: usize, f: &mut impl FnMut(usize)) { if d > 0 { f(d); rec(d - 1, f); if d % 2 == 0 { rec(d / 2, f) } } }
    let mut acc = 0;
    rec(6, &mut |x| acc = acc * 2 + x);
    n(acc);
    let b: Box<[f64]> = vec![x; 3].into_boxed_slice();
    o(b.iter().sum());
    let it: Box<dyn Iterator<Item = usize>> = if x > 1.0 { Box::new(0..3) } else { Box::new([5, 6].into_iter().rev()) };
    it.for_each(n);
    n(std::iter::successors(Some(1usize), |x| (*x < 100).then(|| x * 3)).count() + std::iter::repeat_n(2, 3).sum::<usize>());
    let t: (usize, f64, &str) = Default::default();
    n(t.0 + t.2.len() + (t.1 == 0.0) as usize);
    n(std::any::type_name::<Sq>().len().min(1) + std::mem::size_of::<(u8, f64)>());
}
crate::entries! {
    t_btree => btree;
    t_hash => hash;
    t_deque => deque;
    t_slices => slices;
    t_strings => strings;
    t_ints => ints;
    t_floats => floats;
    t_objects => objects;
}
