//! Layers: visibility and order, balance, mattes, masks, precompositions, opacity.
use crate::doc::*;
use crate::h_basic::{compare, render};
use crate::rec::*;
use crate::vs;

fn body(c: f64) -> Vec<Sh> {
    vec![tri(1.0, 2.0, 3.0), fill(c, 0.0, 0.0)]
}
fn many(n: usize) -> Vec<Ly> {
    (0..n).map(|k| Ly { ind: Some(k + 1), ..layer(body(k as f64 / 8.0)).named(["first", "second", "third", "fourth", "fifth"][k]) }).collect()
}
// -------------------------------------------------------------------- C08
/// symbolic in and out points and frame
fn ranges() {
    let n = 1 + vs::choice("n", 3);
    let mut v = many(n);
    for l in v.iter_mut() {
        l.ip = vs::num("ip", -100.0, 100.0, 3);
        l.op = vs::num("op", -100.0, 100.0, 3);
    }
    let f = vs::num("f", -120.0, 120.0, 4);
    compare(&doc(v), f, ID, 1.0);
}
/// a frame exactly at an end of the range
fn edges() {
    let mut v = many(2);
    v[0].ip = vs::num("ip", -100.0, 100.0, 3);
    v[0].op = v[0].ip + vs::num("len", 0.0, 100.0, 3);
    let f = if vs::flag("out") { v[0].op } else { v[0].ip };
    compare(&doc(v), f, ID, 1.0);
}
/// layer types, hidden flags, matte-source marks, names
fn kinds() {
    let n = 1 + vs::choice("n", 3);
    let mut v = many(n);
    for l in v.iter_mut() {
        l.ty = if n < 3 { [4, 3, 1, 2, 0][vs::choice("ty", 5)] } else { [4, 0][vs::choice("ty", 2)] };
        l.refid = "a".into();
        l.hd = [None, Some(true), Some(false)][if n < 2 { vs::choice("hd", 3) } else { vs::choice("hd", 2) }];
        l.td = [None, Some(1), Some(0)][if n < 2 { vs::choice("td", 3) } else { vs::choice("td", 2) }];
        if n < 2 && vs::flag("unnamed") {
            l.nm = None;
        }
    }
    let mut d = doc(v);
    d.assets = vec![("a".into(), vec![layer(body(0.9)).named("inner")])];
    compare(&d, 5.0, ID, 1.0);
}
/// ranges of layers inside an asset, of their instance, and symbolic time mapping
fn nested_ranges() {
    let mut a = many(2);
    for l in a.iter_mut() {
        l.ip = vs::num("ip", -50.0, 50.0, 2);
        l.op = vs::num("op", -50.0, 50.0, 2);
    }
    let i = Ly { ip: vs::num("iip", -50.0, 50.0, 2), op: vs::num("iop", -50.0, 50.0, 2), st: vs::num("st", -20.0, 20.0, 2), ..inst("a") };
    let mut d = doc(vec![i]);
    d.assets = vec![("a".into(), a)];
    compare(&d, vs::num("f", -60.0, 60.0, 3), ID, 1.0);
}
// -------------------------------------------------------------------- C09
/// every operation is closed in order, and all lies within the viewport clip
pub fn balanced(ev: &[Ev], w: usize, h: usize, tf: M) {
    vs::check(!ev.is_empty(), "nothing emitted");
    match &ev[0] {
        Ev::PushClip { tf: t, shape } => {
            cmp_nums(t, &tf, 1e-9, "viewport transform", 0);
            // the path must be the rectangle's corners, in some order
            let mut c: Vec<[f64; 2]> = vec![];
            for e in shape {
                if e.p.len() == 2 {
                    c.push([e.p[0], e.p[1]]);
                }
            }
            for q in [[0.0, 0.0], [w as f64, 0.0], [w as f64, h as f64], [0.0, h as f64]] {
                vs::check(c.contains(&q), "viewport rectangle");
            }
        }
        _ => vs::check(false, "the viewport clip comes first"),
    }
    let mut st: Vec<bool> = vec![];
    for (i, e) in ev.iter().enumerate() {
        match e {
            Ev::PushLayer { .. } | Ev::PushClip { .. } => st.push(true),
            Ev::Begin { .. } => st.push(false),
            Ev::Pop => vs::check(st.pop() == Some(true), "pop without push"),
            Ev::End => vs::check(st.pop() == Some(false), "group ended out of order"),
            Ev::Draw { .. } => {}
        }
        vs::check(!st.is_empty() || i + 1 == ev.len(), "operation outside the viewport clip");
    }
    vs::check(st.is_empty(), "layer or group left open");
}
fn mask() -> PathProp {
    PathProp::S(Bez::poly(&[[0.0, 0.0], [9.0, 0.0], [0.0, 9.0]], true))
}
/// one layer with any mix of features
fn featured(name: &str, k: usize, deep: bool) -> Ly {
    let mut l = Ly { ind: Some(k + 1), ..layer(body(0.5)) }.named(name);
    match vs::choice("feature", if deep { 9 } else { 8 }) {
        0 => {}
        1 => l.tt = Some(1),
        2 => {
            l.tt = Some(2);
            l.masks = vec![mask()];
        }
        3 => l.td = Some(1),
        4 => l.masks = vec![mask(), mask()],
        5 => l.hd = Some(true),
        6 => {
            l.ty = 3;
            l.tt = Some(1);
            l.tp = Some(9);
        }
        7 => {
            l.op = 4.0;
            l.tt = Some(2);
            l.masks = vec![mask()];
        }
        _ => {
            l.ty = 0;
            l.refid = ["a", "missing"][vs::choice("ref", 2)].into();
        }
    }
    l
}
/// sizes and caller transforms
fn viewport() {
    let mut d = doc(vec![layer(body(0.1))]);
    if vs::flag("empty") {
        d.layers.clear();
    }
    d.w = [64, 0, 1920, 7][vs::choice("w", 4)];
    d.h = [48, 1080, 0, 7][vs::choice("h", 4)];
    let f = vs::num("f", -10.0, 200.0, 3);
    let g: Vec<f64> = (0..6).map(|_| vs::num("g", -99.0, 99.0, 3)).collect();
    let tf = [g[0], g[1], g[2], g[3], g[4], g[5]];
    let ev = render(d.json(), f, tf, vs::num("alpha", 0.0, 1.0, 3));
    balanced(&ev, d.w, d.h, tf);
}
fn balance() {
    let v: Vec<Ly> = (0..3).map(|k| featured(["a", "b", "c"][k], k, k < 2)).collect();
    let mut d = doc(v);
    d.assets = vec![("a".into(), vec![Ly { tt: Some(1), ..layer(body(0.1)) }, Ly { td: Some(1), masks: vec![mask()], ..layer(body(0.2)) }])];
    let f = [2.0, 5.0][vs::choice("f", 2)];
    let tf = [vs::num("g", -4.0, 4.0, 3), 0.5, -0.25, 2.0, vs::num("gx", -99.0, 99.0, 3), 7.0];
    let ev = render(d.json(), f, tf, 1.0);
    balanced(&ev, d.w, d.h, tf);
}
/// a layer of any feature whose values may make it vanish
fn vanishing() {
    let mut l = featured("a", 0, true);
    l.ty = if l.ty == 4 { [4, 0, 3, 1][vs::choice("kind", 4)] } else { l.ty };
    if l.ty == 0 {
        l.refid = "a".into();
    }
    let o = vs::num("o", 0.0, 100.0, 3);
    match vs::choice("value", 6) {
        0 => l.ks.o = Some(s1(o)),
        1 => l.ks.o = Some(Prop::A(vec![kf(0.0, &[o]), kf(5.0, &[0.0]), kf(9.0, &[o])])),
        2 => l.ks.s = Some(s2(o, [0.0, 100.0][vs::choice("y", 2)])),
        3 => l.shapes = vec![],
        4 => l.masks = vec![PathProp::S(Bez::poly(&[], vs::flag("closed"))), mask()],
        _ => l.shapes = vec![Sh::Group { it: body(0.5), tf: Some(Tf { o: Some(s1(o)), s: Some(s2(o, o)), ..tf0() }) }],
    }
    let mut d = doc(vec![Ly { td: Some(1), ..layer(body(0.3)) }, l, layer(body(0.7))]);
    // the source of its matte is before it, or wherever it says
    if vs::flag("swap") {
        d.layers.swap(0, 2);
    }
    d.assets = vec![("a".into(), vec![Ly { tt: Some(1), ..layer(body(0.1)) }, Ly { td: Some(1), masks: vec![mask()], ..layer(body(0.2)) }])];
    let f = [2.0, 5.0][vs::choice("f", 2)];
    let alpha = [1.0, 0.0][vs::choice("alpha", 2)];
    let want = reference(&d, f, ID, alpha);
    let got = render(d.json(), f, ID, alpha);
    balanced(&got, d.w, d.h, ID);
    same(&got, &want, &TOL);
}
/// mattes inside assets, instances as mattes, matted instances with masks
fn balance_nested() {
    let a: Vec<Ly> = (0..2).map(|k| featured(["p", "q"][k], k, false)).collect();
    let mut top = vec![featured("a", 0, false), Ly { tt: Some(2), masks: vec![mask()], ..layer(body(0.7)) }];
    top[0].ty = 0;
    top[0].refid = "a".into();
    if vs::flag("both") {
        top[1].ty = 0;
        top[1].refid = "a".into();
        top[1].sr = Some(2.0);
    }
    let mut d = doc(top);
    d.assets = vec![("a".into(), a)];
    let ev = render(d.json(), 5.0, ID, 0.5);
    balanced(&ev, d.w, d.h, ID);
}
/// lists drawn as they should be, and in properly nested order, at the top or within an asset
fn drawn_well(v: Vec<Ly>, f: f64, asset: bool) {
    let d = if asset {
        let mut d = doc(vec![Ly { ks: tfp(3.0, 4.0), ..inst("l") }, layer(body(0.9))]);
        d.assets = vec![("a".into(), vec![layer(body(0.8)), Ly { td: Some(1), masks: vec![mask()], ..layer(body(0.85)) }]), ("l".into(), v)];
        d
    } else {
        let mut d = doc(v);
        d.assets = vec![("a".into(), vec![layer(body(0.8)), Ly { td: Some(1), masks: vec![mask()], ..layer(body(0.85)) }])];
        d
    };
    let want = reference(&d, f, ID, 1.0);
    let got = render(d.json(), f, ID, 1.0);
    balanced(&got, d.w, d.h, ID);
    same(&got, &want, &TOL);
}
/// two layers of every combination of features
fn mix() {
    let mut v = vec![];
    for k in 0..2 {
        let mut l = Ly { ind: Some(k + 1), ks: Tf { o: Some(s1(vs::num("o", 50.0, 100.0, 2))), ..tfp(vs::num("x", -9.0, 9.0, 2), 2.0) }, ..layer(body(0.25 * (k + 1) as f64)) }.named(["a", "b"][k]);
        l.td = [None, Some(1)][vs::choice("td", 2)];
        l.tt = [None, Some(1), Some(2)][vs::choice("tt", 3)];
        l.hd = [None, Some(true)][vs::choice("hd", 2)];
        l.masks = vec![mask(); vs::choice("masks", 2)];
        (l.ip, l.op) = [(0.0, 100.0), (3.0, 6.0)][vs::choice("range", 2)];
        (l.ty, l.refid) = [(4, "".into()), (0, "a".into()), (3, "".into())][vs::choice("kind", 3)].clone();
        v.push(l);
    }
    v[0].parent = Some(2);
    drawn_well(v, 2.0, false);
}
/// three layers of several combinations of features
fn mix_three() {
    let mut v = vec![];
    for k in 0..3 {
        let mut l = Ly { ind: Some(k + 1), ks: tfp(vs::num("x", -9.0, 9.0, 2), 2.0), ..layer(body(0.25 * (k + 1) as f64)) }.named(["a", "b", "c"][k]);
        let (td, tt, masks, short, hd) = [
            (0, 0, 0, 0, 0),
            (1, 0, 0, 0, 0),
            (0, 1, 0, 0, 0),
            (1, 0, 1, 0, 0),
            (0, 1, 1, 0, 0),
            (0, 1, 0, 1, 0),
            (1, 0, 0, 1, 0),
            (1, 0, 0, 0, 1),
            (0, 1, 1, 0, 1),
            (1, 1, 0, 0, 0),
            (0, 0, 2, 1, 0),
            (1, 1, 1, 1, 0),
        ][vs::choice("features", 12)];
        l.td = [None, Some(1)][td];
        l.tt = [None, Some(2)][tt];
        l.masks = vec![mask(); masks];
        (l.ip, l.op) = [(0.0, 100.0), (3.0, 6.0)][short];
        l.hd = [None, Some(true)][hd];
        v.push(l);
    }
    v[0].parent = Some(2);
    drawn_well(v, [2.0, 4.0][vs::choice("f", 2)], vs::flag("asset"));
}
// -------------------------------------------------------------------- C10
fn no_matte_cycle(v: &[Ly]) -> bool {
    // following explicit references terminates
    v.iter().all(|l| {
        let (mut q, mut n) = (l, 0);
        while q.tt.is_some() {
            let Some(tp) = q.tp else { return true };
            match v.iter().rev().find(|y| y.ind == Some(tp)) {
                Some(x) => q = x,
                None => return true,
            }
            n += 1;
            if n > v.len() {
                return false;
            }
        }
        true
    })
}
fn implicit() {
    let n = 2 + vs::choice("n", 3);
    let mut v = many(n);
    for l in v.iter_mut() {
        match vs::choice("role", 5) {
            0 => {}
            1 => l.td = Some(1),
            2 => l.tt = Some(1),
            3 => l.tt = Some(2),
            _ => {
                l.td = Some(1);
                l.hd = Some(true);
            }
        }
    }
    compare(&doc(v), 5.0, ID, 1.0);
}
/// sources that are also matted
fn implicit_chain() {
    let n = 2 + vs::choice("n", 2);
    let mut v = many(n);
    for l in v.iter_mut() {
        l.td = [None, Some(1)][vs::choice("td", 2)];
        l.tt = [None, Some(1), Some(4), Some(0)][vs::choice("tt", 4)];
    }
    compare(&doc(v), 5.0, ID, 1.0);
}
fn explicit() {
    let n = 2 + vs::choice("n", 2);
    let mut v = many(n);
    let rot = vs::choice("ids", n);
    for (k, l) in v.iter_mut().enumerate() {
        l.ind = Some((k + rot) % n + 1);
    }
    for l in v.iter_mut() {
        match vs::choice("role", 4) {
            0 => {}
            1 => l.td = Some(1),
            2 => {
                l.tt = Some(1);
                l.tp = Some(1 + vs::choice("tp", n + 1));
            }
            _ => l.tt = Some(2),
        }
    }
    vs::assume(no_matte_cycle(&v));
    compare(&doc(v), 5.0, ID, 1.0);
}
/// layers without an id and references to 0
fn without_ids() {
    let mut v = many(3);
    for l in v.iter_mut() {
        l.ind = [None, Some(0), Some(1)][vs::choice("ind", 3)];
    }
    vs::assume((0..3).all(|i| (0..i).all(|j| v[i].ind.is_none() || v[i].ind != v[j].ind)));
    for l in v.iter_mut() {
        match vs::choice("role", 5) {
            0 => {}
            1 => l.td = Some(1),
            r => {
                l.tt = Some(1);
                l.tp = [Some(0), Some(1), None][r - 2];
            }
        }
    }
    vs::assume(no_matte_cycle(&v));
    compare(&doc(v), 5.0, ID, 1.0);
}
/// all modes, transforms, opacities and ranges of both layers
fn modes() {
    let mut v = many(2);
    v[0].td = Some(1);
    v[1].tt = Some([1, 2, 3, 4, 0][vs::choice("tt", 5)]);
    if vs::flag("explicit") {
        v[1].tp = Some(1);
        if vs::flag("unmarked") {
            v[0].td = None;
        }
    }
    for l in v.iter_mut() {
        l.ks.p = Pos::One(s2(vs::num("x", -100.0, 100.0, 2), 3.0));
        l.ks.o = Some(s1(vs::num("o", 0.0, 100.0, 1)));
        l.op = vs::num("op", 0.0, 100.0, 1);
    }
    let a = vs::num("alpha", 0.0, 1.0, 4);
    let g = [1.0, 0.0, 0.0, 1.0, vs::num("gx", -99.0, 99.0, 3), 7.0];
    compare(&doc(v), 5.0, g, a);
}
/// mattes within an asset
fn matte_in_asset() {
    let mut a = many(3);
    for l in a.iter_mut() {
        match vs::choice("role", 4) {
            0 => {}
            1 => l.td = Some(1),
            2 => l.tt = Some(1),
            _ => {
                l.tt = Some(2);
                l.tp = Some(1);
            }
        }
    }
    vs::assume(no_matte_cycle(&a));
    let mut top = vec![Ly { ks: tfp(vs::num("x", -9.0, 9.0, 2), 2.0), ind: Some(2), ..inst("a") }];
    if vs::flag("matted") {
        top[0].tt = Some(2);
        top.insert(0, Ly { td: Some(1), ind: Some(1), ..layer(body(0.3)) });
    }
    let mut d = doc(top);
    d.assets = vec![("a".into(), a)];
    compare(&d, 5.0, ID, 1.0);
}
// -------------------------------------------------------------------- C11
fn tri_mask(name: &str) -> PathProp {
    let b = |x: f64| Bez::poly(&[[x, 0.0], [9.0, 0.0], [0.0, 9.0]], vs::flag("closed"));
    match vs::choice("mask kind", 3) {
        0 => PathProp::S(b(vs::num(name, -50.0, 50.0, 2))),
        1 => PathProp::A(vec![
            BezKf { t: 0.0, hold: false, s: Some(b(vs::num(name, -50.0, 50.0, 2))), e: None },
            BezKf { t: 10.0, hold: false, s: Some(b(vs::num(name, -50.0, 50.0, 2))), e: None },
        ]),
        _ => PathProp::A(vec![
            BezKf { t: 0.0, hold: true, s: Some(b(vs::num(name, -50.0, 50.0, 2))), e: None },
            BezKf { t: 10.0, hold: false, s: Some(b(vs::num(name, -50.0, 50.0, 2))), e: None },
        ]),
    }
}
fn masks() {
    let mut v = many(2);
    let n = vs::choice("masks", 3);
    v[0].masks = (0..n).map(|_| tri_mask("m")).collect();
    if n < 2 {
        v[1].masks = (0..vs::choice("masks1", 2)).map(|_| tri_mask("n")).collect();
    }
    v[0].ks = Tf { s: Some(s2(50.0, 200.0)), ..tfp(vs::num("x", -50.0, 50.0, 2), 1.0) };
    v[1].ind = Some(2);
    if vs::flag("child") {
        v[0].parent = Some(2);
    }
    let f = [-5.0, 0.0, 5.0, 10.0, 15.0][vs::choice("f", 5)];
    for l in v.iter_mut() {
        l.ip = -10.0;
    }
    compare(&doc(v), f, ID, 1.0);
}
/// moving masks at any frame of layers that start and end anywhere, at the top and in assets with
/// a time of their own
fn masks_frames() {
    let b = |n: &str| Bez::poly(&[[vs::num(n, -50.0, 50.0, 2), 0.0], [9.0, 0.0], [0.0, 9.0]], true);
    let times = [[0.0, 2.0, 8.0], [-3.0, 1.5, 2.5], [3.0, 11.0, 30.0]][vs::choice("times", 3)];
    let holds = vs::choice("holds", 3);
    let m = PathProp::A(times.iter().enumerate().map(|(i, t)| BezKf { t: *t, hold: holds == i + 1, s: Some(b("m")), e: None }).collect());
    let mut l = Ly { masks: vec![m], ..layer(body(0.5)) };
    (l.ip, l.op) = [(0.0, 100.0), (2.0, 10.0), (-20.0, 7.5)][vs::choice("range", 3)];
    let mut d = if vs::flag("asset") {
        let mut d = doc(vec![Ly { st: [0.0, 3.0][vs::choice("st", 2)], sr: [None, Some(2.0)][vs::choice("sr", 2)], ..inst("a") }]);
        d.assets = vec![("a".into(), vec![l])];
        d
    } else {
        doc(vec![l])
    };
    d.layers[0].ip = d.layers[0].ip.min(0.0);
    compare(&d, vs::num("f", 0.0, 20.0, 3), ID, 1.0);
}
/// masks on every kind of layer, matted or not
fn masks_kinds() {
    let mut v = many(2);
    v[0].td = [None, Some(1)][vs::choice("td", 2)];
    v[1].tt = [None, Some(1)][vs::choice("tt", 2)];
    for l in v.iter_mut() {
        l.ty = [4, 3, 0][vs::choice("ty", 3)];
        l.refid = "a".into();
        l.masks = (0..vs::choice("masks", 3)).map(|k| PathProp::S(Bez::poly(&[[k as f64, 0.0], [vs::num("m", -9.0, 9.0, 2), 2.0]], k == 0))).collect();
        if vs::flag("hidden") {
            l.hd = Some(true);
        }
        l.ks = tfp(vs::num("x", -50.0, 50.0, 2), 1.0);
    }
    let mut d = doc(v);
    d.assets = vec![("a".into(), vec![Ly { masks: vec![mask()], ..layer(body(0.9)) }, layer(body(0.8))])];
    compare(&d, 5.0, ID, 1.0);
}
// -------------------------------------------------------------------- C12
/// time mapping: start, stretch, frame, in one or two levels
fn mapping() {
    let sr = [None, Some(1.0), Some(2.0), Some(0.5), Some(-1.0), Some(4.0)];
    let mut l = layer(body(0.25)).named("inner");
    l.ip = -1000.0;
    l.op = 1000.0;
    l.ks.o = Some(Prop::A(vec![hold(0.0, &[10.0]), hold(8.0, &[50.0]), hold(20.0, &[90.0])]));
    l.ks.p = Pos::One(s2(vs::num("x", -9.0, 9.0, 2), 2.0));
    let mk = |id: &str, n: &str| Ly {
        ip: -1000.0,
        op: 1000.0,
        st: vs::num("st", -30.0, 30.0, 2),
        sr: sr[vs::choice(n, sr.len())],
        ks: Tf { o: Some(s1(50.0)), s: Some(s2(50.0, 200.0)), ..tfp(vs::num("ix", -9.0, 9.0, 2), 1.0) },
        ..inst(id)
    };
    let mut d = doc(vec![mk("a", "sr")]);
    d.assets = vec![("b".into(), vec![l.clone()]), ("a".into(), if vs::flag("two") { vec![mk("b", "sr1")] } else { vec![l] })];
    compare(&d, vs::num("f", -100.0, 100.0, 3), ID, 1.0);
}
/// instances of several assets, unknown names, several instances, nesting to depth 4, order
fn instances() {
    let ids = ["a", "b", "c", "none"];
    let pick = |lo: usize| ids[lo + vs::choice("ref", 4 - lo)];
    let mk = |id: &str, k: f64| Ly { ks: Tf { o: Some(s1(50.0)), ..tfp(vs::num("ix", -9.0, 9.0, 2), k) }, ..inst(id) };
    let a = vec![mk(pick(1), 1.0), layer(body(0.1))];
    let b = vec![layer(body(0.2)), mk(pick(2), 2.0)];
    let c = vec![layer(body(0.3)), layer(body(0.4))];
    let mut d = doc(vec![mk(pick(0), 3.0), layer(body(0.5)), mk(pick(0), 4.0)]);
    d.assets = vec![("a".into(), a), ("b".into(), b), ("c".into(), c)];
    if vs::flag("reversed") {
        d.assets.reverse();
    }
    compare(&d, 5.0, ID, vs::num("alpha", 0.0, 1.0, 3));
}
// -------------------------------------------------------------------- C13
fn op(name: &str) -> Prop {
    match vs::choice("opacity", 3) {
        0 => s1(vs::num(name, 0.0, 100.0, 2)),
        1 => Prop::A(vec![hold(0.0, &[vs::num(name, 0.0, 100.0, 2)]), kf(10.0, &[7.0])]),
        _ => s1(100.0),
    }
}
/// caller, layer, two groups and paint
fn opacity() {
    let c = |o: Prop| match vs::choice("paint", 2) {
        0 => Sh::Fill { c: s3(0.5, 0.25, 1.0), o },
        _ => Sh::Stroke { c: s3(0.5, 0.25, 1.0), o, l: line(2.0) },
    };
    let tf = |n: &str| Some(Tf { o: if vs::flag("has o") { Some(op(n)) } else { None }, ..tfp(1.0, 2.0) });
    let inner = Sh::Group { it: vec![tri(0.0, 0.0, 1.0), c(op("paint"))], tf: tf("inner") };
    let outer = Sh::Group { it: vec![inner, c(s1(100.0))], tf: tf("outer") };
    let l = Ly { ks: Tf { o: Some(op("layer")), ..tf0() }, ..layer(vec![outer]) };
    compare(&doc(vec![l]), 5.0, ID, vs::num("alpha", 0.0, 1.0, 4));
}
/// through instances; a matte, a mask and a parent do not take part
fn opacity_nested() {
    let mut a = vec![layer(vec![tri(0.0, 0.0, 1.0), Sh::Fill { c: s3(0.5, 0.25, 1.0), o: op("paint") }])];
    a[0].ks.o = Some(op("layer"));
    a[0].masks = vec![mask()];
    let mut i = Ly { ks: Tf { o: Some(op("instance")), ..tf0() }, parent: Some(9), ..inst("a") };
    i.tt = if vs::flag("matted") { Some(1) } else { None };
    let p = Ly { ind: Some(9), ks: Tf { o: Some(op("parent")), ..tf0() }, ..null() };
    let m = Ly { td: Some(1), ind: Some(1), ks: Tf { o: Some(op("matte")), ..tf0() }, ..layer(body(0.2)) };
    let mut j = Ly { ks: Tf { o: Some(op("outer instance")), ..tf0() }, ..inst("b") };
    j.ind = Some(3);
    let mut d = doc(vec![m.clone(), i, j, p]);
    d.assets = vec![("a".into(), a.clone()), ("b".into(), vec![Ly { ks: Tf { o: Some(op("middle")), ..tf0() }, ..inst("a") }])];
    compare(&d, 5.0, ID, 0.5);
}
/// gradient stops are scaled each by their own alpha
fn opacity_gradient() {
    let k = Prop::S(vec![0.0, 1.0, 0.0, 0.0, 1.0, 0.0, 0.0, 1.0]);
    let g = Grad { t: [Some(1), Some(2)][vs::choice("t", 2)], s: s2(0.0, 0.0), e: s2(10.0, 0.0), count: 2, k, stops: opaque_stops };
    let p = if vs::flag("stroke") { Sh::GStroke { g, o: op("paint"), l: line(1.0) } } else { Sh::GFill { g, o: op("paint") } };
    let l = Ly { ks: Tf { o: Some(op("layer")), ..tf0() }, ..layer(vec![Sh::Group { it: vec![tri(0.0, 0.0, 1.0), p], tf: Some(Tf { o: Some(op("group")), ..tf0() }) }]) };
    compare(&doc(vec![l]), 5.0, ID, vs::num("alpha", 0.0, 1.0, 4));
}
crate::entries! {
    c08_ranges => ranges;
    c08_edges => edges;
    c08_kinds => kinds;
    c08_nested => nested_ranges;
    c08_mix => mix;
    c08_mix3 => mix_three;
    c09_viewport => viewport;
    c09_balance => balance;
    c09_nested => balance_nested;
    c09_vanishing => vanishing;
    c10_implicit => implicit;
    c10_chain => implicit_chain;
    c10_explicit => explicit;
    c10_noids => without_ids;
    c10_modes => modes;
    c10_asset => matte_in_asset;
    c11_masks => masks;
    c11_kinds => masks_kinds;
    c11_frames => masks_frames;
    c12_mapping => mapping;
    c12_instances => instances;
    c13_opacity => opacity;
    c13_nested => opacity_nested;
    c13_gradient => opacity_gradient;
}
