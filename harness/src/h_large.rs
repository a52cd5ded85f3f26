//! Long lists and deep nests of everything, to no size the other harnesses reach: what they are
//! made of follows a pattern, where in them something happens is symbolic.
use crate::doc::*;
use crate::h_basic::compare;
use crate::h_shape::compare_with_repeaters;
use crate::h_time::place;
use crate::vs;

fn line_shape(y: f64) -> Sh {
    Sh::Path(PathProp::S(Bez::poly(&[[0.0, y], [64.0, y]], false)))
}
/// some number in 0..n that differs from item to item
fn mix(i: usize, n: usize) -> usize {
    (i * 7 + i * i * 3 + i / 5) % n
}
/// many keyframes, holds among them
fn keys() {
    let slot = [0, 1, 2, 5, 8, 10, 13, 15, 18, 19][vs::choice("slot", 10)];
    let n = [5, 8, 13, 40][vs::choice("keyframes", 4)];
    let (_, c, lo, hi) = crate::h_time::SLOTS[slot];
    let x = vs::num("x", 0.0, 1.0, 3);
    let mut t = -8.0;
    let k: Vec<Kf> = (0..n)
        .map(|i| {
            t += 1.0 + mix(i, 6) as f64;
            let v: Vec<f64> = (0..c).map(|j| lo + (hi - lo) * (0.5 * x + mix(i + j, 16) as f64 / 32.0)).collect();
            if i % 5 == 3 { hold(t, &v) } else { kf(t, &v) }
        })
        .collect();
    let i = vs::choice("keyframe", n);
    let f = match vs::choice("place", 3) {
        0 => k[i].t,
        // halfway to the next, or after the last
        p => {
            let to = k.get(i + 1).map_or(k[i].t + 9.0, |k| k.t);
            let u = [0.25, 0.5][p - 1];
            vs::root_hint(u);
            k[i].t + (to - k[i].t) * (3.0 * u * u - 2.0 * u * u * u)
        }
    };
    compare(&place(slot, Prop::A(k)), f, ID, 1.0);
}
fn big(n: usize, x: f64, closed: bool, turn: usize) -> Bez {
    let p = |i: usize, m: usize| (mix(i + turn, m) as f64, mix(i + turn + 3, m) as f64);
    let mut b = Bez { closed, v: vec![], i: vec![], o: vec![] };
    for i in 0..n {
        let (vx, vy) = p(i, 61);
        b.v.push([vx + x, vy]);
        let (ix, iy) = p(i + 1, 4);
        b.i.push(if i % 3 == 1 { [0.0, 0.0] } else { [ix, -iy] });
        let (ox, oy) = p(i + 2, 4);
        b.o.push(if i % 3 == 0 { [0.0, 0.0] } else { [-ox, oy] });
    }
    b
}
/// many vertices, and many keyframes of paths
fn paths() {
    let n = [5, 9, 17, 40][vs::choice("vertices", 4)];
    let x = vs::num("x", -50.0, 50.0, 2);
    let closed = vs::flag("closed");
    let m = [0, 3, 6, 13][vs::choice("keyframes", 4)];
    let (p, f) = if m == 0 {
        (PathProp::S(big(n, x, closed, 0)), 5.0)
    } else {
        let k: Vec<BezKf> = (0..m).map(|i| BezKf { t: 4.0 * i as f64, hold: i % 4 == 2, s: Some(big(n, x, closed, i)), e: None }).collect();
        let u = 0.5;
        vs::root_hint(u);
        (PathProp::A(k), 4.0 * vs::choice("keyframe", m) as f64 + [0.0, 2.0][vs::choice("half", 2)])
    };
    let mut l = Ly { ip: -100.0, ..layer(vec![tri(1.0, 2.0, 3.0), fill(0.5, 0.0, 0.0)]) };
    if vs::flag("mask") {
        l.masks = vec![p];
    } else {
        l.shapes[0] = Sh::Path(p);
    }
    compare(&doc(vec![l]), f, ID, 1.0);
}
/// long chains of parents, in any order, in assets too
fn chains() {
    let n = [5, 9, 17, 33][vs::choice("layers", 4)];
    let x = vs::num("x", -50.0, 50.0, 2);
    let step = [1, 2, 7][vs::choice("order", 3)];
    let mut ls: Vec<Ly> = (0..n)
        .map(|i| {
            let ks = Tf { s: Some(s2(if i % 4 == 1 { 200.0 } else { 100.0 }, if i % 4 == 2 { 50.0 } else { 100.0 })), o: Some(s1(50.0)), ..tfp(if i == n - 1 { x } else { i as f64 }, mix(i, 5) as f64) };
            let l = Ly { ind: Some(10 + 3 * i), parent: if i + 1 < n { Some(13 + 3 * i) } else { None }, ks, ..layer(vec![tri(1.0, 2.0, 3.0), fill(mix(i, 16) as f64 / 16.0, 0.0, 0.0)]) };
            match i % 5 {
                3 => Ly { ty: 3, ..l },
                4 => Ly { hd: Some(true), ..l },
                _ => l,
            }
        })
        .collect();
    if step > 1 {
        let mut order: Vec<usize> = (0..n).collect();
        order.sort_by_key(|i| (i * step % n, *i));
        ls = order.iter().map(|i| ls[*i].clone()).collect();
    }
    let mut d = doc(ls);
    if vs::flag("asset") {
        let l = std::mem::replace(&mut d.layers, vec![Ly { ind: Some(10), ..inst("a") }]);
        d.assets = vec![("a".into(), l)];
    }
    compare(&d, 5.0, ID, 1.0);
}
/// many layers of every sort
pub fn many_layers() -> (Doc, f64) {
    let n = [6, 11, 24, 70][vs::choice("layers", 4)];
    let turn = vs::choice("turn", 8);
    let f = vs::num("f", 0.0, 40.0, 1);
    let ls: Vec<Ly> = (0..n)
        .map(|i| {
            let k = mix(i + turn, 11);
            let mut l = Ly { nm: Some(format!("l{i}")), ind: Some(100 + i), ip: (4 * mix(i, 6)) as f64, op: (20 + 4 * mix(i + 1, 6)) as f64, ks: tfp(i as f64, 1.0), ..layer(vec![tri(i as f64, 2.0, 3.0), fill(mix(i, 16) as f64 / 16.0, 0.0, 0.0)]) };
            match k {
                0 => l.td = Some(1),
                1 | 2 => l.tt = Some([1, 2, 3, 4][mix(i, 4)]),
                3 if i > 2 => {
                    l.tt = Some(1);
                    l.tp = Some(100 + i - 2);
                }
                4 => l.hd = Some(true),
                5 => l.masks = vec![PathProp::S(Bez::poly(&[[0.0, 0.0], [9.0, i as f64], [0.0, 9.0]], true))],
                6 => l.ty = 3,
                7 => {
                    l.td = Some(1);
                    l.tt = Some(2);
                }
                _ => {}
            }
            l
        })
        .collect();
    let mut d = doc(ls);
    if vs::flag("asset") {
        let l = std::mem::replace(&mut d.layers, vec![Ly { ip: -100.0, op: 100.0, ..inst("a") }]);
        d.assets = vec![("a".into(), l)];
    }
    (d, f)
}
fn layers() {
    let (d, f) = many_layers();
    compare(&d, f, ID, 0.5);
}
/// many masks
fn masks() {
    let n = [4, 7, 20][vs::choice("masks", 3)];
    let x = vs::num("x", -50.0, 50.0, 2);
    let still = vs::flag("still");
    let mk = |i: usize| {
        let b = |d: f64| Bez::poly(&[[x, d], [9.0, i as f64], [0.0, 9.0]], true);
        if still || i % 2 == 0 { PathProp::S(b(0.0)) } else { PathProp::A(vec![BezKf { t: 0.0, hold: true, s: Some(b(1.0)), e: None }, BezKf { t: 10.0, hold: false, s: Some(b(2.0)), e: None }]) }
    };
    let l = Ly { ks: tfp(1.0, x), masks: (0..n).map(mk).collect(), ..layer(vec![tri(1.0, 2.0, 3.0), fill(0.5, 0.0, 0.0)]) };
    compare(&doc(vec![layer(vec![tri(1.0, 2.0, 3.0), fill(1.0, 0.0, 0.0)]), l.clone(), l]), [5.0, 10.0][vs::choice("f", 2)], ID, 1.0);
}
/// instances within instances
fn instances() {
    let n = [4, 6, 9, 24][vs::choice("depth", 4)];
    let f = vs::num("f", -20.0, 40.0, 2);
    let x = vs::num("x", -50.0, 50.0, 2);
    let mut d = doc(vec![]);
    let make = |i: usize| Ly { ip: -1000.0, op: 1000.0, st: mix(i, 5) as f64 - 2.0, sr: Some([1.0, 2.0, 0.5, 1.0][i % 4]), ks: Tf { o: Some(s1([100.0, 50.0, 75.0][i % 3])), ..tfp(x, i as f64) }, ..inst(&format!("a{i}")) };
    d.layers = vec![make(0)];
    for i in 0..n {
        let mut l = vec![Ly { ip: -1000.0, op: 1000.0, ..layer(vec![tri(1.0, i as f64, 3.0), fill(0.5, 0.0, 0.0)]) }];
        if i + 1 < n {
            l.insert(i % 2, make(i + 1));
        } else {
            l[0].ip = 0.0;
            l[0].op = 10.0;
        }
        d.assets.push((format!("a{i}"), l));
    }
    compare(&d, f, ID, 1.0);
}
/// groups within groups, with opacities and transforms; paints and trims at some of the levels
fn nests() {
    let n = [5, 8, 20][vs::choice("depth", 3)];
    let x = vs::num("x", -50.0, 50.0, 2);
    let paint = vs::choice("paint at", n);
    let cut = vs::choice("trim at", n + 1);
    let mut v = vec![line_shape(x)];
    for i in 0..n {
        if i == cut {
            v.push(Sh::Trim { s: s1(25.0), e: s1(75.0), o: s1(0.0) });
        }
        if i == paint || i + 1 == n {
            v.push(fill(i as f64 / 32.0, 0.0, 0.0));
        }
        if i % 3 == 1 {
            v.insert(0, tri(i as f64, 2.0, 3.0));
            v.push(fill(0.75, 0.0, 0.0));
        }
        v = vec![Sh::Group { it: v, tf: Some(Tf { o: Some(s1([100.0, 50.0][i % 2])), ..tfp(if i == 0 { x } else { 1.0 }, i as f64) }) }];
    }
    v.push(fill(1.0, 1.0, 0.0));
    compare(&doc(vec![layer(v)]), 5.0, ID, 1.0);
}
/// long lists of geometry, paints and groups
fn lists() {
    let n = [8, 15, 40][vs::choice("items", 3)];
    let x = vs::num("x", -50.0, 50.0, 2);
    let turn = vs::choice("turn", 12);
    let trims = vs::flag("trims");
    let v: Vec<Sh> = (0..n)
        .map(|i| {
            let z = i as f64;
            let own = |it: Vec<Sh>| Sh::Group { it, tf: Some(tfp(z + 1.0, x)) };
            match mix(i + turn, 7) {
                0 => own(vec![line_shape(z)]),
                1 => fill(mix(i, 32) as f64 / 32.0, 0.0, 0.0),
                2 => Sh::Stroke { c: s3(z / 64.0, 0.0, 0.0), o: s1(100.0), l: line(2.0) },
                3 => own(vec![line_shape(z), fill(0.5, z / 64.0, 0.0)]),
                4 if trims => Sh::Trim { s: s1(0.0), e: s1(75.0), o: s1(0.0) },
                5 if trims => own(vec![line_shape(z), Sh::Trim { s: s1(50.0), e: s1(100.0), o: s1(0.0) }]),
                4 => tri(z, 1.0, 2.0),
                5 => own(vec![tri(z, 2.0, 3.0), own(vec![tri(z, 4.0, 5.0)])]),
                _ => own(vec![tri(z, 2.0, 3.0), fill(0.25, 0.0, 1.0), tri(1.0, z, 3.0)]),
            }
        })
        .collect();
    if trims {
        // geometry of its own each: neighbours under one transform are one path to a trim
        let v = v.into_iter().map(|s| if matches!(s, Sh::Path(_)) { Sh::Group { it: vec![s], tf: Some(tfp(x, 0.5)) } } else { s }).filter(|s| !matches!(s, Sh::Group { it, .. } if it.len() == 3)).collect();
        compare(&doc(vec![layer(v)]), 5.0, ID, 1.0);
    } else {
        compare(&doc(vec![layer(v)]), 5.0, ID, 1.0);
    }
}
/// trims of paths of many segments, open and closed
fn trims() {
    let n = [4, 8, 16][vs::choice("segments", 3)];
    // steps in the directions of the axes: the length up to each vertex is a whole number
    let mut p = [0.0, 0.0];
    let mut v = vec![p];
    for i in 0..n {
        p[i % 2] += (1 + mix(i, 3)) as f64 * if i % 4 < 2 { 4.0 } else { -2.0 };
        v.push(p);
    }
    let b = Bez::poly(&v, false);
    let s = [0.0, 12.5, 50.0, 80.0][vs::choice("start", 4)];
    let e = [5.0, 37.5, 75.0, 100.0][vs::choice("end", 4)];
    let o = [0.0, 90.0, -45.0, 300.0][vs::choice("offset", 4)];
    let x = vs::num("x", -50.0, 50.0, 2);
    let mut l = layer(vec![Sh::Path(PathProp::S(b)), Sh::Trim { s: s1(s), e: s1(e), o: s1(o) }, Sh::Stroke { c: s3(0.5, 0.0, 0.0), o: s1(100.0), l: line(2.0) }]);
    l.ks = tfp(x, 0.0);
    compare(&doc(vec![l]), 5.0, ID, 1.0);
}
/// many copies, of much
fn copies() {
    let n = [5, 9, 20][vs::choice("copies", 3)];
    let x = vs::num("x", -50.0, 50.0, 2);
    let off = [0.0, 1.0, -3.0][vs::choice("offset", 3)];
    let m = [1, 4][vs::choice("geometries", 2)];
    let mut v = vec![];
    for i in 0..m {
        v.push(Sh::Group { it: vec![line_shape(i as f64)], tf: Some(tfp(i as f64, 1.0)) });
        v.push(fill(i as f64 / 8.0, 0.0, 0.0));
    }
    v.push(Sh::Rep(Rep { n: s1(n as f64), off: s1(off), a: s2(1.0, 2.0), p: s2(x, 3.0), r: s1(0.0), s: s2(100.0, 100.0), so: s1(100.0), eo: s1(20.0) }));
    v.push(tri(1.0, 2.0, 3.0));
    v.push(fill(1.0, 0.0, 0.0));
    compare_with_repeaters(&doc(vec![layer(v)]), 5.0, ID, 1.0);
}
fn stops(v: &[f64], c: usize) -> Vec<[f64; 5]> {
    (0..c).map(|i| [v[4 * i], v[4 * i + 1], v[4 * i + 2], v[4 * i + 3], if v.len() > 4 * c { v[4 * c + 2 * i + 1] } else { 1.0 }]).collect()
}
/// many stops, with the alpha of each
fn gradients() {
    let n = [5, 9, 17, 33][vs::choice("stops", 4)];
    let x = vs::num("x", 0.0, 1.0, 3);
    let alpha = vs::flag("alpha");
    let make = |turn: usize| {
        let mut v = vec![];
        for i in 0..n {
            v.push(i as f64 / (n - 1) as f64);
            v.extend((0..3).map(|j| if i == 1 { x } else { mix(i + j + turn, 16) as f64 / 16.0 }));
        }
        if alpha {
            for i in 0..n {
                v.extend([i as f64 / (n - 1) as f64, mix(i + turn, 8) as f64 / 8.0]);
            }
        }
        v
    };
    let k = if vs::flag("moving") { Prop::A(vec![hold(0.0, &make(0)), hold(4.0, &make(1)), kf(8.0, &make(2)), kf(12.0, &make(3))]) } else { Prop::S(make(0)) };
    vs::root_hint(0.5);
    let f = [-1.0, 0.0, 4.0, 7.0, 8.0, 10.0, 12.0][vs::choice("f", 7)];
    let g = Grad { t: Some([1, 2][vs::choice("t", 2)]), s: s2(1.0, 2.0), e: s2(31.0, 42.0), count: n, k, stops };
    compare(&doc(vec![Ly { ip: -100.0, ..layer(vec![tri(1.0, 2.0, 3.0), Sh::GFill { g, o: s1(50.0) }]) }]), f, ID, 1.0);
}
/// stars and polygons of many points
fn stars() {
    let n = [7, 10, 25, 60][vs::choice("points", 4)];
    let x = vs::num("x", -50.0, 50.0, 2);
    let (r, round) = ([0.0, 30.0][vs::choice("turn", 2)], [0.0, 40.0][vs::choice("roundness", 2)]);
    let polygon = vs::flag("polygon");
    let z = |v: f64| if polygon { None } else { Some(s1(v)) };
    let s = Sh::Star { sy: if polygon { 2 } else { 1 }, p: s2(x, 4.0), or: s1(40.0), os: s1(round), r: s1(r), pt: s1(n as f64), ir: z(20.0), is: z(-round) };
    compare(&doc(vec![layer(vec![s, fill(0.5, 0.0, 0.0)])]), 5.0, ID, 1.0);
}
/// many paints of one geometry
fn paints() {
    let n = [4, 9, 30][vs::choice("paints", 3)];
    let x = vs::num("x", 0.0, 1.0, 3);
    let turn = vs::choice("turn", 6);
    let mut v = vec![tri(1.0, 2.0, 3.0)];
    for i in 0..n {
        let c = s3(x, mix(i, 16) as f64 / 16.0, 0.5);
        let l = Line { w: s1(i as f64), lc: [None, Some(1), Some(2), Some(3)][mix(i + turn, 4)], lj: [Some(1), Some(2), Some(3), None][mix(i + turn + 1, 4)], ml: [None, Some(3.0)][i % 2] };
        let raw = Prop::S(vec![0.0, x, 0.5, 0.25, 1.0, 0.0, 1.0, 0.5]);
        let g = Grad { t: Some(1), s: s2(0.0, 0.0), e: s2(9.0, i as f64), count: 2, k: raw, stops: opaque_stops };
        v.push(match mix(i + turn, 5) {
            0 => Sh::Fill { c, o: s1(50.0) },
            1 | 2 => Sh::Stroke { c, o: s1(75.0), l },
            3 => Sh::GFill { g, o: s1(25.0) },
            _ => Sh::GStroke { g, o: s1(60.0), l },
        });
        if i % 6 == 5 {
            v.push(tri(i as f64, 2.0, 3.0));
        }
    }
    compare(&doc(vec![layer(v)]), 5.0, ID, 1.0);
}
/// large numbers and frames, everywhere
fn far() {
    let slot = vs::choice("slot", 20);
    let (_, c, lo, hi) = crate::h_time::SLOTS[slot];
    let s = [1.0, 0.0009765625, 2048.0][if lo < 0.0 || slot == 15 { vs::choice("size", 3) } else { 0 }];
    let v = |n: &str| -> Vec<f64> { (0..c).map(|_| s * vs::num(n, lo, hi, 3)).collect() };
    let (d, scale) = ([0.0, -5.0e4, 1.0e5][vs::choice("when", 3)], [0.0625, 4096.0][vs::choice("span", 2)]);
    let k = vec![kf(d, &v("a")), kf(d + 10.0 * scale, &v("b"))];
    let p = if vs::flag("static") { Prop::S(k[0].v.clone()) } else { Prop::A(k) };
    vs::root_hint(0.5);
    let f = d + scale * [-1.0, 0.0, 5.0, 10.0, 12.0][vs::choice("f", 5)];
    let mut doc = place(slot, p);
    for l in doc.layers.iter_mut().chain(doc.assets.iter_mut().flat_map(|a| &mut a.1)) {
        l.ip = -1.0e6;
        l.op = 1.0e6;
    }
    compare(&doc, f, ID, 1.0);
}
/// many keyframes of one value
fn equal() {
    let slot = vs::choice("slot", 20);
    let (_, c, lo, hi) = crate::h_time::SLOTS[slot];
    let v: Vec<f64> = (0..c).map(|_| vs::num("v", lo, hi, 3)).collect();
    let n = [4, 9, 30][vs::choice("keyframes", 3)];
    let h = [0, 1, 2, 5][vs::choice("holds", 4)];
    let k: Vec<Kf> = (0..n).map(|i| Kf { hold: h > 0 && i % h == 0, ..kf(4.0 * i as f64, &v) }).collect();
    vs::root_hint(0.5);
    let at = [0, 1, n / 2, n - 2, n - 1][vs::choice("at", 5)];
    let f = 4.0 * at as f64 + [0.0, 2.0][vs::choice("half", 2)];
    compare_to(place(slot, Prop::A(k)), &place(slot, Prop::S(v)), f);
}
fn compare_to(a: Doc, b: &Doc, f: f64) {
    let ev = crate::h_basic::render(a.json(), f, ID, 1.0);
    crate::rec::same(&ev, &reference(b, f, ID, 1.0), &crate::rec::TOL);
}
crate::entries! {
    c21_large => equal;
    c03_large => keys;
    c03_far => far;
    c05_large => paths;
    c07_large => chains;
    c08_large => layers;
    c11_large => masks;
    c12_large => instances;
    c14_large => nests;
    c14_long => lists;
    c15_large => trims;
    c16_large => copies;
    c18_large => gradients;
    c19_large => stars;
    c20_large => paints;
}
