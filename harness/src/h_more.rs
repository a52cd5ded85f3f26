//! What holds for layers of every kind alike, long parent chains, masks without a path, and
//! renderers that are used more than once.
use crate::doc::*;
use crate::h_basic::{compare, render};
use crate::h_layer::balanced;
use crate::rec::*;
use crate::vs;
use serde_json::json;

fn body(c: f64) -> Vec<Sh> {
    vec![tri(1.0, 2.0, 3.0), fill(c, 0.0, 0.0)]
}
/// a layer of any kind that velato knows: shapes, an instance, nothing, a solid, an image
fn any_kind(name: &str) -> Ly {
    let l = layer(body(0.25));
    Ly { ty: [4, 0, 3, 1, 2][vs::choice(name, 5)], refid: "a".into(), ..l }
}
fn with_asset(layers: Vec<Ly>) -> Doc {
    let mut d = doc(layers);
    d.assets = vec![("a".into(), vec![Ly { ks: tfp(5.0, 6.0), ip: -1000.0, op: 1000.0, ..layer(body(0.9)) }])];
    d
}
/// in and out points of every kind of layer
fn kind_ranges() {
    let mut l = any_kind("kind");
    l.ip = vs::num("ip", -100.0, 100.0, 3);
    l.op = vs::num("op", -100.0, 100.0, 3);
    l.nm = Some("it".into());
    let other = Ly { ind: Some(2), ..layer(body(0.5)) };
    let f = match vs::choice("frame", 3) {
        0 => vs::num("f", -120.0, 120.0, 4),
        1 => l.ip,
        _ => l.op,
    };
    compare(&with_asset(vec![l, other]), f, ID, 1.0);
}
/// matte modes of every kind of matted layer and source
fn kind_mattes() {
    let mut s = any_kind("source");
    let mut l = any_kind("matted");
    s.td = Some(1);
    s.ind = Some(1);
    l.ind = Some(2);
    l.tt = Some([1, 2, 3, 4, 0][vs::choice("tt", 5)]);
    if vs::flag("explicit") {
        l.tp = Some(1);
        if vs::flag("unmarked") {
            s.td = None;
        }
    }
    l.hd = [None, Some(true)][vs::choice("hidden", 2)];
    l.ks.p = Pos::One(s2(vs::num("x", -99.0, 99.0, 2), 1.0));
    s.ks.p = Pos::One(s2(vs::num("x", -99.0, 99.0, 2), 1.0));
    compare(&with_asset(vec![s, l]), 5.0, ID, 0.5);
}
/// children of every kind: content is moved, scaled and faded alike
fn kind_children() {
    let mut c = any_kind("kind");
    c.ind = Some(1);
    c.parent = Some(2);
    c.ks = Tf { s: Some(s2(50.0, 200.0)), o: Some(s1(vs::num("o", 0.0, 100.0, 2))), ..tfp(vs::num("x", -99.0, 99.0, 2), 1.0) };
    c.masks = if vs::flag("mask") { vec![PathProp::S(Bez::poly(&[[0.0, 0.0], [9.0, 0.0], [0.0, 9.0]], true))] } else { vec![] };
    let mut p = any_kind("parent");
    p.ind = Some(2);
    p.ks = Tf { r: Some(s1(30.0)), o: Some(s1(40.0)), ..tfp(vs::num("px", -99.0, 99.0, 2), 1.0) };
    p.hd = [None, Some(true)][vs::choice("hidden", 2)];
    let v = if vs::flag("parent first") { vec![p, c] } else { vec![c, p] };
    compare(&with_asset(v), 5.0, ID, vs::num("alpha", 0.0, 1.0, 3));
}
/// ids and parents in one list of layers mean nothing in another
fn id_spaces() {
    let list = |name: &str, c: f64, x: f64| {
        let one = |k: usize| Ly { ind: Some(k), ip: -1000.0, op: 1000.0, ks: tfp(x + k as f64, 1.0), ..layer(body(c + 0.03125 * k as f64)) };
        let mut v = [vec![one(1), one(2)], vec![one(2), one(3)], vec![one(4), one(1)]][vs::choice(name, 3)].clone();
        v[0].parent = [None, Some(2), Some(3), Some(4), Some(7)][vs::choice("parent", 5)];
        let id = v[0].ind;
        vs::assume(v[0].parent != id);
        v
    };
    let x = vs::num("x", -99.0, 99.0, 2);
    let mut top = list("top", 0.25, x);
    top.insert(2 * vs::choice("at", 2), Ly { ip: -1000.0, op: 1000.0, ..inst("a") });
    top.push(Ly { ip: -1000.0, op: 1000.0, ..inst("b") });
    let mut d = doc(top);
    d.assets = vec![("a".into(), list("first", 0.5, -x)), ("b".into(), list("second", 0.75, 2.0 * x))];
    compare(&d, 5.0, ID, 1.0);
}
/// chains of up to 16 parents, listed forwards or backwards
fn chain() {
    let n = 2 + vs::choice("n", 15);
    let order = vs::choice("order", 3);
    let mut v: Vec<Ly> = (0..n)
        .map(|k| {
            let x = if k == 0 || k + 1 == n || k == n / 2 { vs::num("x", -99.0, 99.0, 2) } else { k as f64 };
            Ly { ind: Some(k + 1), parent: if k + 1 < n { Some(k + 2) } else { None }, ks: tfp(x, 2.0 * k as f64), ..null() }
        })
        .collect();
    v[0].ty = 4;
    v[0].shapes = body(0.5);
    // halfway up as well
    v[n / 2].ty = 4;
    v[n / 2].shapes = body(0.25);
    v[n - 1].ks.s = Some(s2(50.0, -100.0));
    match order {
        0 => {}
        1 => v.reverse(),
        _ => v.rotate_left(n / 3 + 1),
    }
    compare(&doc(v), 5.0, ID, 1.0);
}
/// masks without a path, with an empty path, or with one vertex
fn partial_masks() {
    let ok = |x: f64| json!({"mode": "a", "pt": PathProp::S(Bez::poly(&[[x, 0.0], [9.0, 0.0], [0.0, 9.0]], true)).json(), "o": {"a": 0, "k": 100}});
    let n = 1 + vs::choice("masks", 3);
    let x = vs::num("x", -9.0, 9.0, 2);
    let mut js = vec![];
    let mut kept = vec![];
    for k in 0..n {
        let good = PathProp::S(Bez::poly(&[[x, k as f64], [9.0, 0.0], [0.0, 9.0]], true));
        let empty = |closed| PathProp::S(Bez { closed, v: vec![], i: vec![], o: vec![] });
        let p = match vs::choice("mask", 6) {
            0 => Some(good),
            1 => None,
            2 => Some(empty(false)),
            3 => Some(empty(true)),
            4 => Some(PathProp::S(Bez::poly(&[[x, 1.0]], false))),
            _ => Some(PathProp::A(vec![BezKf { t: 0.0, hold: false, s: Some(Bez { closed: false, v: vec![], i: vec![], o: vec![] }), e: None }])),
        };
        let mut m = ok(0.0);
        match &p {
            Some(p) => {
                m.as_object_mut().unwrap().insert("pt".into(), p.json());
            }
            None => {
                m.as_object_mut().unwrap().remove("pt");
            }
        }
        // modes and opacities are not implemented: they must not stop the mask from clipping
        if n == 1 {
            m.as_object_mut().unwrap().insert("mode".into(), json!(["a", "s", "i", "n"][vs::choice("mode", 4)]));
        }
        js.push(m);
        kept.extend(p);
    }
    let mut l = Ly { ty: [4, 3, 0][vs::choice("kind", 3)], refid: "a".into(), ks: tfp(vs::num("lx", -9.0, 9.0, 2), 1.0), ..layer(body(0.5)) };
    if vs::flag("matted") {
        l.tt = Some(1);
    }
    let src = Ly { td: Some(1), ..layer(body(0.1)) };
    let after = layer(body(0.7));
    let mut want = with_asset(vec![src, l, after]);
    want.layers[1].masks = kept;
    let mut got = want.clone();
    got.layers[1].masks.clear();
    got.layers[1].extra = vec![("hasMask".into(), json!(true)), ("masksProperties".into(), serde_json::Value::Array(js))];
    let ev = render(got.json(), 5.0, ID, 1.0);
    balanced(&ev, 64, 48, ID);
    same(&ev, &reference(&want, 5.0, ID, 1.0), &TOL);
}

// -------------------------------------------------------------------- C17
fn hline(y: f64) -> Sh {
    Sh::Path(PathProp::S(Bez::poly(&[[0.0, y], [40.0, y]], false)))
}
fn rep(n: f64, x: f64) -> Sh {
    Sh::Rep(Rep { n: s1(n), off: s1(0.0), a: s2(0.0, 0.0), p: s2(x, 0.0), r: s1(0.0), s: s2(100.0, 100.0), so: s1(100.0), eo: s1(50.0) })
}
/// documents that leave as much as possible behind in a renderer
fn some_doc(k: usize, x: f64) -> Doc {
    let stroke = |c: f64| Sh::Stroke { c: s3(c, 0.0, 0.0), o: s1(100.0), l: line(2.0) };
    let trim = |s: f64, e: f64| Sh::Trim { s: s1(s), e: s1(e), o: s1(0.0) };
    let moved = |it: Vec<Sh>| Sh::Group { it, tf: Some(tfp(x, 1.0)) };
    let mask = |y: f64| PathProp::S(Bez::poly(&[[x, y], [9.0, 0.0], [0.0, 9.0]], true));
    match k {
        // geometry nothing paints, paints nothing precedes
        0 => doc(vec![layer(vec![hline(x), moved(vec![hline(2.0)])]), layer(vec![fill(0.5, 0.0, 0.0), hline(3.0)])]),
        // trims and groups
        1 => doc(vec![layer(vec![moved(vec![hline(x), trim(25.0, 75.0)]), hline(1.0), stroke(0.5), trim(0.0, 50.0)])]),
        // mattes, masks
        2 => doc(vec![
            Ly { td: Some(1), masks: vec![mask(1.0)], ..layer(body(0.1)) },
            Ly { tt: Some(2), masks: vec![mask(2.0), PathProp::A(vec![BezKf { t: 0.0, hold: false, s: Some(Bez::poly(&[[x, 0.0], [1.0, 1.0]], false)), e: None }])], ..layer(body(0.2)) },
        ]),
        // repeaters with copies
        3 => doc(vec![layer(vec![hline(x), stroke(0.5), moved(vec![hline(2.0), stroke(0.25), rep(2.0, 3.0)]), rep(2.0, x), trim(0.0, 50.0)])]),
        // a repeater without any, content after it
        4 => doc(vec![layer(vec![hline(1.0), stroke(0.5), rep(0.0, x), hline(2.0)])]),
        // instances, animated content, out of range
        5 => {
            let a = Prop::A(vec![hold(0.0, &[10.0]), hold(4.0, &[50.0]), hold(8.0, &[90.0])]);
            let mut l = layer(vec![hline(x), stroke(0.75)]);
            l.ks.o = Some(a);
            let mut d = doc(vec![Ly { st: 2.0, ..inst("a") }, Ly { op: 6.0, ..layer(body(0.3)) }]);
            d.assets = vec![("a".into(), vec![l])];
            d
        }
        // nothing at all
        6 => doc(vec![null(), Ly { hd: Some(true), ..layer(body(0.5)) }]),
        // gradients
        _ => {
            let k = Prop::A(vec![kf(0.0, &[0.0, 1.0, 0.5, 0.25]), kf(10.0, &[1.0, 0.0, 0.5, 0.25])]);
            let g = Grad { t: Some(2), s: s2(x, 0.0), e: s2(10.0, 0.0), count: 1, k, stops: opaque_stops };
            doc(vec![layer(vec![Sh::Rect { p: s2(x, 2.0), s: s2(9.0, 4.0), r: s1(0.0) }, Sh::GFill { g, o: s1(50.0) }])])
        }
    }
}
pub const DOCS: usize = 8;
pub fn build(k: usize, x: f64) -> velato::Composition {
    let d = some_doc(k, x);
    let mut c = velato::Composition::from_json(d.json()).unwrap();
    if k == 3 || k == 4 {
        with_repeaters(&mut c, &d);
    }
    c
}
fn one(r: &mut velato::Renderer, c: &velato::Composition, f: f64) -> Vec<Ev> {
    let mut s = Rec::default();
    r.append(c, f, kurbo::Affine::new([1.0, 0.0, 0.0, 1.0, 3.0, 4.0]), 0.5, &mut s);
    s.ev
}
fn frame(name: &str) -> f64 {
    [0.0, 5.0, 9.0, 1000.0][vs::choice(name, 4)]
}
/// one renderer for two documents after one another, then the first again
fn history() {
    vs::root_hint(0.5);
    let (x, y) = (vs::num("x", -9.0, 9.0, 2), vs::num("y", -9.0, 9.0, 2));
    let a = build(vs::choice("first", DOCS), x);
    let b = build(vs::choice("second", DOCS), y);
    let (f, g) = (frame("f"), frame("g"));
    let mut r = velato::Renderer::new();
    let got = [one(&mut r, &a, f), one(&mut r, &b, g), one(&mut r, &a, f)];
    let want = [one(&mut velato::Renderer::new(), &a, f), one(&mut velato::Renderer::new(), &b, g)];
    same(&got[0], &want[0], &TOL);
    same(&got[1], &want[1], &TOL);
    same(&got[2], &want[0], &TOL);
}
/// one document rendered twice by one renderer, with other arguments
fn arguments() {
    let x = vs::num("x", -9.0, 9.0, 2);
    let c = build(vs::choice("doc", DOCS), x);
    vs::root_hint(0.5);
    let mut r = velato::Renderer::new();
    let mut last = None;
    for _ in 0..2 {
        let f = [5.0, 9.0][vs::choice("frame", 2)];
        let m = [[1.0, 0.0, 0.0, 1.0, 3.0, 4.0], [0.5, 0.0, 0.0, -2.0, x, 0.0]][vs::choice("transform", 2)];
        let alpha = if vs::flag("alpha") { vs::num("a", 0.125, 1.0, 3) } else { 1.0 };
        let draw = |r: &mut velato::Renderer| {
            let mut s = Rec::default();
            r.append(&c, f, kurbo::Affine::new(m), alpha, &mut s);
            s.ev
        };
        let got = draw(&mut r);
        same(&got, &draw(&mut velato::Renderer::new()), &TOL);
        last = Some(got);
    }
    vs::check(last.is_some(), "nothing drawn");
}
/// a composition changed in place between two renders of the same frame
fn edited() {
    let (x, y) = (vs::num("x", -9.0, 9.0, 2), vs::num("y", -9.0, 9.0, 2));
    let k = vs::choice("doc", DOCS);
    let mut c = build(k, x);
    let other = if vs::flag("another") { build(vs::choice("other", DOCS), y) } else { build(k, y) };
    vs::root_hint(0.5);
    let mut r = velato::Renderer::new();
    one(&mut r, &c, 5.0);
    // keeps the memory the layers are in
    for (a, b) in c.layers.iter_mut().zip(other.layers.clone()) {
        *a = b;
    }
    c.layers.truncate(other.layers.len());
    c.layers.extend(other.layers.iter().skip(c.layers.len()).cloned());
    c.assets = other.assets;
    let got = one(&mut r, &c, 5.0);
    same(&got, &one(&mut velato::Renderer::new(), &c, 5.0), &TOL);
    let fresh = c.clone();
    same(&got, &one(&mut velato::Renderer::new(), &fresh, 5.0), &TOL);
}
/// puts `b` where `a` is without moving the lists `a` consists of, where it can
fn put_shapes(a: &mut Vec<velato::model::Shape>, b: &[velato::model::Shape]) {
    use velato::model::{Geometry, Shape};
    a.truncate(b.len());
    let k = a.len();
    a.extend(b[k..].iter().cloned());
    for (a, b) in a[..k].iter_mut().zip(b) {
        match (&mut *a, b) {
            (Shape::Group(i, t), Shape::Group(j, u)) => {
                put_shapes(i, j);
                t.clone_from(u);
            }
            (Shape::Geometry(Geometry::Fixed(i)), Shape::Geometry(Geometry::Fixed(j))) => {
                i.clear();
                i.extend_from_slice(j);
            }
            _ => *a = b.clone(),
        }
    }
}
fn put_layers(a: &mut Vec<velato::model::Layer>, b: &[velato::model::Layer]) {
    use velato::model::Content;
    a.truncate(b.len());
    let k = a.len();
    a.extend(b[k..].iter().cloned());
    for (a, b) in a[..k].iter_mut().zip(b) {
        let mut c = std::mem::take(&mut a.content);
        match (&mut c, &b.content) {
            (Content::Shape(i), Content::Shape(j)) => put_shapes(i, j),
            _ => c = b.content.clone(),
        }
        *a = velato::model::Layer { content: c, ..b.clone() };
    }
}
/// one value of a composition changed in place, all others staying where and what they are
fn touched() {
    let what = vs::choice("what", 20);
    let (x, y) = (vs::num("x", 1.0, 9.0, 2), vs::num("y", 1.0, 9.0, 2));
    let two = vs::flag("two layers");
    vs::root_hint(0.5);
    let stroke = |c: f64| Sh::Stroke { c: s3(c, 0.0, 0.0), o: s1(100.0), l: line(2.0) };
    let trim = |s: f64, e: f64| Sh::Trim { s: s1(s), e: s1(e), o: s1(0.0) };
    let mask = |y: f64| PathProp::S(Bez::poly(&[[1.0, y], [9.0, 0.0], [0.0, 9.0]], true));
    let make = |x: f64, other: bool| {
        let k = |i: usize| if what == i { x } else { 5.0 };
        let path = Sh::Path(PathProp::S(Bez::poly(&[[0.0, k(3)], [40.0, 0.0], [20.0, 30.0]], true)));
        let moving = Sh::Path(PathProp::A(vec![
            BezKf { t: 0.0, hold: true, s: Some(Bez::poly(&[[k(10), 0.0], [1.0, 1.0]], false)), e: None },
            BezKf { t: 20.0, hold: false, s: Some(Bez::poly(&[[0.0, 0.0], [1.0, 1.0]], false)), e: None },
        ]));
        let rect = Sh::Rect { p: s2(1.0, 2.0), s: s2(k(18), 4.0), r: s1(0.0) };
        let g = Sh::Group { it: vec![path, moving, rect, fill(k(4) / 16.0, 0.0, 0.0)], tf: Some(Tf { o: Some(s1(k(7) * 8.0)), ..tfp(k(6), 0.0) }) };
        let mut list = vec![hline(2.0), stroke(0.5)];
        if what == 9 {
            list.push(trim(k(9) * 8.0, 75.0));
        }
        if what == 17 {
            list.push(rep(2.0, k(17)));
        }
        if what == 5 {
            list.push(Sh::Stroke { c: s3(0.0, 0.0, 0.0), o: s1(100.0), l: line(k(5)) });
        }
        if what == 11 {
            let v = vec![0.0, k(11) / 16.0, 0.5, 0.25, 1.0, 0.0, 0.0, 0.0];
            list.push(Sh::GFill { g: Grad { t: Some(1), s: s2(0.0, 0.0), e: s2(9.0, 0.0), count: 2, k: Prop::S(v), stops: opaque_stops }, o: s1(50.0) });
        }
        list.insert(0, g);
        let mut l = Ly { ind: Some(1), ks: Tf { o: Some(s1(k(1) * 8.0)), ..tfp(k(0), 0.0) }, ..layer(list) };
        if what == 2 {
            l.ip = if other { 7.0 } else { 0.0 };
        }
        if what == 8 {
            l.masks = vec![mask(k(8))];
        }
        let mut ls = vec![];
        let mut assets = vec![];
        match what {
            12 | 13 => {
                l.ks = tfp(k(13), 0.0);
                assets = vec![("a".to_string(), vec![Ly { ip: -1000.0, op: 1000.0, ..l }])];
                l = Ly { ind: Some(1), st: if what == 12 && other { 17.0 } else { 0.0 }, ..inst("a") };
            }
            14 => {
                l.parent = Some(2);
                ls.push(Ly { ind: Some(2), ks: tfp(k(14), 0.0), ..null() });
            }
            15 => {
                l.tt = Some(if other { 2 } else { 1 });
                ls.push(Ly { td: Some(1), ..layer(body(0.5)) });
            }
            19 => {
                l.ks.r = Some(s1(if other { 90.0 } else { 0.0 }));
            }
            _ => {}
        }
        ls.push(l);
        if two {
            ls.push(Ly { ind: Some(7), ..layer(body(0.75)) });
        }
        let mut d = doc(ls);
        d.assets = assets;
        if what == 16 {
            d.w = if other { 32 } else { 64 };
        }
        let mut c = velato::Composition::from_json(d.json()).unwrap();
        with_repeaters(&mut c, &d);
        c
    };
    let mut c = make(x, false);
    let other = make(y, true);
    let mut r = velato::Renderer::new();
    one(&mut r, &c, 5.0);
    if vs::flag("moved on") {
        one(&mut r, &c, 6.0);
    }
    put_layers(&mut c.layers, &other.layers);
    for (k, v) in &mut c.assets {
        put_layers(v, &other.assets[k]);
    }
    c.width = other.width;
    let got = one(&mut r, &c, 5.0);
    same(&got, &one(&mut velato::Renderer::new(), &other, 5.0), &TOL);
}
/// three documents after one another
fn history3() {
    let x = vs::num("x", -9.0, 9.0, 2);
    let v: Vec<_> = (0..3).map(|_| build(vs::choice("doc", DOCS), x)).collect();
    let mut r = velato::Renderer::new();
    vs::root_hint(0.5);
    for c in &v {
        let got = one(&mut r, c, 5.0);
        same(&got, &one(&mut velato::Renderer::new(), c, 5.0), &TOL);
    }
}
/// frames of one document in any order, symbolic ones too
fn scrubbing() {
    let mut l = layer(vec![Sh::Ell { p: Prop::A(vec![kf(0.0, &[vs::num("x", -9.0, 9.0, 2), 2.0]), kf(10.0, &[5.0, 6.0]), kf(20.0, &[7.0, 1.0])]), s: s2(10.0, 20.0) }, fill(0.5, 0.0, 0.0)]);
    l.ip = -100.0;
    l.ks.o = Some(Prop::A(vec![hold(0.0, &[10.0]), hold(10.0, &[20.0])]));
    let c = velato::Composition::from_json(doc(vec![l, Ly { ip: 3.0, op: vs::num("op", 4.0, 30.0, 2), ..layer(body(0.75)) }]).json()).unwrap();
    let mut r = velato::Renderer::new();
    for _ in 0..3 {
        let f = match vs::choice("where", 3) {
            0 => -vs::num("d", 0.0, 50.0, 2),
            1 => 20.0 + vs::num("d", 0.0, 50.0, 2),
            k => {
                vs::root_hint(0.5);
                if k == 2 { 5.0 } else { 15.0 }
            }
        };
        let got = one(&mut r, &c, f);
        same(&got, &one(&mut velato::Renderer::new(), &c, f), &TOL);
    }
}
crate::entries! {
    c08_kindranges => kind_ranges;
    c10_kinds => kind_mattes;
    c07_children => kind_children;
    c07_spaces => id_spaces;
    c07_chain => chain;
    c11_partial => partial_masks;
    c17_history => history;
    c17_three => history3;
    c17_arguments => arguments;
    c17_edited => edited;
    c17_touched => touched;
    c17_scrubbing => scrubbing;
}
