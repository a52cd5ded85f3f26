//! Shape lists: what paints and modifiers apply to.
use crate::doc::*;
use crate::h_basic::{compare, compare_elsewhere, render};
use crate::rec::*;
use crate::vs;

pub fn compare_with_repeaters(d: &Doc, f: f64, tf: M, alpha: f64) {
    let want = reference(d, f, tf, alpha);
    let mut c = velato::Composition::from_json(d.json()).unwrap();
    with_repeaters(&mut c, d);
    let mut r = Rec::default();
    velato::Renderer::new().append(&c, f, kurbo::Affine::new(tf), alpha, &mut r);
    same(&r.ev, &want, &TOL);
}
fn hline(x: f64, y: f64, len: f64) -> Sh {
    Sh::Path(PathProp::S(Bez::poly(&[[x, y], [x + len, y]], false)))
}
fn stroke(r: f64) -> Sh {
    Sh::Stroke { c: s3(r, 0.0, 0.0), o: s1(100.0), l: line(2.0) }
}
fn group(it: Vec<Sh>) -> Sh {
    Sh::Group { it, tf: Some(tf0()) }
}
fn moved(it: Vec<Sh>, x: f64, y: f64) -> Sh {
    Sh::Group { it, tf: Some(tfp(x, y)) }
}

// -------------------------------------------------------------------- C14
/// any list of n items: geometry, paints, groups of geometry with and without paints and
/// transforms
fn item(k: usize, deep: bool) -> Sh {
    let z = k as f64;
    let geo = |j: f64| tri(10.0 * z + j, j, 3.0);
    let col = |j: f64| fill((z + 1.0) / 16.0, j, 0.0);
    match vs::choice("item", if deep { 8 } else { 4 }) {
        0 => geo(0.0),
        1 => col(0.0),
        2 => Sh::Stroke { c: s3(0.0, (z + 1.0) / 16.0, 0.0), o: s1(50.0), l: line(1.0) },
        3 => hline(z, 2.0, 5.0),
        4 => group(vec![geo(1.0)]),
        5 => moved(vec![geo(2.0), col(0.5), geo(2.5)], vs::num("gx", -8.0, 8.0, 2), 0.0),
        6 => Sh::Group { it: vec![col(0.25), geo(3.0)], tf: None },
        _ => moved(vec![geo(4.0), moved(vec![geo(5.0), geo(5.5), col(0.75)], 0.0, 0.0), col(1.0)], vs::num("gy", -8.0, 8.0, 2), 1.0),
    }
}
fn lists(n: usize, deep: bool) {
    let v: Vec<Sh> = (0..n).map(|k| item(k, deep)).collect();
    compare(&doc(vec![layer(v)]), 5.0, ID, 1.0);
}
fn lists4() {
    lists(4, true)
}
fn lists5() {
    lists(5, true)
}
fn flat6() {
    lists(6, false)
}
/// n items inside one group, with items around it
fn nested() {
    let pre = match vs::choice("before", 3) {
        0 => vec![],
        1 => vec![tri(50.0, 1.0, 2.0)],
        _ => vec![tri(50.0, 1.0, 2.0), fill(0.9, 0.0, 0.0)],
    };
    let it: Vec<Sh> = (0..3).map(|k| item(k, k == 1)).collect();
    let tf = match vs::choice("tf", 3) {
        0 => None,
        1 => Some(tf0()),
        _ => Some(tfp(vs::num("x", -8.0, 8.0, 2), vs::num("y", -8.0, 8.0, 2))),
    };
    let post = match vs::choice("after", 4) {
        0 => vec![],
        1 => vec![fill(0.8, 0.0, 0.0)],
        2 => vec![tri(60.0, 1.0, 2.0), fill(0.8, 0.0, 0.0)],
        _ => vec![tri(60.0, 1.0, 2.0)],
    };
    let v = [pre, vec![Sh::Group { it, tf }], post].concat();
    compare(&doc(vec![layer(v)]), 5.0, ID, 1.0);
}
/// geometry under transforms that differ in any one of their parts, drawn by one paint
fn turned() {
    let z = |k: &str| -> Tf {
        match vs::choice(k, 10) {
            0 => tf0(),
            1 => Tf { r: Some(s1(90.0)), ..tf0() },
            2 => Tf { r: Some(s1(180.0)), ..tf0() },
            3 => Tf { s: Some(s2(200.0, 100.0)), ..tf0() },
            4 => Tf { s: Some(s2(100.0, 200.0)), ..tf0() },
            5 => Tf { s: Some(s2(-100.0, 100.0)), ..tf0() },
            6 => Tf { sk: Some(s1(45.0)), sa: Some(s1(0.0)), ..tf0() },
            7 => Tf { sk: Some(s1(45.0)), sa: Some(s1(90.0)), ..tf0() },
            8 => tfp(0.5, 0.0),
            _ => tfp(0.0, 0.5),
        }
    };
    let x = vs::num("x", -50.0, 50.0, 2);
    let (a, b) = (|v| Sh::Group { it: v, tf: Some(z("first")) }, |v| Sh::Group { it: v, tf: Some(z("second")) });
    let v = match vs::choice("as", 5) {
        0 => vec![a(vec![tri(x, 1.0, 2.0)]), b(vec![tri(3.0, x, 4.0)]), fill(0.5, 0.0, 0.0)],
        1 => vec![tri(x, 1.0, 2.0), a(vec![tri(1.0, x, 4.0)]), hline(x, 2.0, 5.0), stroke(0.5)],
        2 => vec![a(vec![b(vec![tri(x, 1.0, 2.0)]), tri(3.0, x, 4.0)]), fill(0.5, 0.0, 0.0)],
        3 => vec![a(vec![tri(3.0, x, 4.0), b(vec![tri(x, 1.0, 2.0)]), fill(0.25, 0.0, 0.0)]), stroke(0.5)],
        _ => vec![a(vec![tri(x, 1.0, 2.0)]), b(vec![tri(3.0, x, 4.0), fill(0.25, 0.0, 0.0)]), hline(x, 2.0, 5.0), fill(0.5, 0.0, 0.0)],
    };
    compare(&doc(vec![layer(v)]), 5.0, ID, 1.0);
}
/// groups within groups within groups, each level with items before and after the inner group
fn nest(levels: usize, before: &[&dyn Fn(f64) -> Vec<Sh>], after: &[&dyn Fn(f64) -> Vec<Sh>]) -> Vec<Sh> {
    let mut v = vec![];
    for k in 0..levels {
        let z = (k + 1) as f64;
        let pre = before[vs::choice("before", before.len())](z);
        let post = after[vs::choice("after", after.len())](z);
        let inner = if k == 0 {
            vec![tri(0.0, 1.0, 2.0)]
        } else {
            let tf = match vs::choice("tf", 2) {
                0 => None,
                _ => Some(tfp(vs::num("x", -8.0, 8.0, 2), z)),
            };
            vec![Sh::Group { it: v, tf }]
        };
        v = [pre, inner, post].concat();
    }
    v
}
fn deep(levels: usize) {
    let v = nest(
        levels,
        &[&|_| vec![], &|z| vec![tri(10.0 * z, 1.0, 2.0)], &|z| vec![tri(10.0 * z, 1.0, 2.0), fill(z / 8.0, 0.0, 0.0)]],
        &[&|_| vec![], &|z| vec![fill(0.0, z / 8.0, 0.0)], &|z| vec![tri(10.0 * z, 5.0, 2.0), stroke(z / 8.0)]],
    );
    compare(&doc(vec![layer(v)]), 5.0, ID, 1.0);
}
fn deep3() {
    deep(3)
}
fn deep4() {
    deep(4)
}
/// two layers: nothing leaks from one to the other
fn layers() {
    let a = |k: usize| (0..2).map(|i| item(2 * k + i, true)).collect::<Vec<_>>();
    compare(&doc(vec![layer(a(0)), Ly { ks: tfp(vs::num("lx", -4.0, 4.0, 1), 0.0), ..layer(a(1)) }]), 5.0, ID, 1.0);
}
/// shapes velato does not draw have no effect on those around them
fn ignored() {
    use serde_json::json;
    let raw = [
        json!({"ty": "mm", "mm": 1}),
        json!({"ty": "rd", "r": {"a": 0, "k": 5}}),
        json!({"ty": "pb", "a": {"a": 0, "k": 5}}),
        json!({"ty": "tw", "a": {"a": 0, "k": 5}, "p": {"a": 0, "k": [1, 2]}}),
        json!({"ty": "op", "a": {"a": 0, "k": 5}, "lj": 1, "ml": {"a": 0, "k": 5}}),
        json!({"ty": "zz", "a": {"a": 0, "k": 5}, "c": {"a": 0, "k": 5}}),
        json!({"ty": "gr", "it": []}),
        json!({"ty": "zz"}),
        json!({"ty": "no", "o": {"a": 0, "k": 5}}),
    ];
    let at = vs::choice("at", 4);
    let mut v = vec![tri(vs::num("x", -9.0, 9.0, 2), 1.0, 2.0), fill(0.5, 0.0, 0.0), group(vec![tri(5.0, 1.0, 2.0)]), fill(0.25, 0.0, 0.0)];
    let mut d = doc(vec![layer(v.clone())]);
    let want = reference(&d, 5.0, ID, 1.0);
    v.insert(at, Sh::Raw(raw[vs::choice("raw", raw.len())].clone()));
    d = doc(vec![layer(v)]);
    // a document that cannot be read is no matter here
    if let Ok(c) = velato::Composition::from_json(d.json()) {
        let mut r = Rec::default();
        velato::Renderer::new().append(&c, 5.0, kurbo::Affine::IDENTITY, 1.0, &mut r);
        same(&r.ev, &want, &TOL);
        vs::cover("read");
    }
}
/// a group whose transform comes first, twice or in the middle of its items
fn transform_place() {
    use serde_json::json;
    let x = vs::num("x", -50.0, 50.0, 2);
    let g = Sh::Group { it: vec![tri(1.0, 2.0, 3.0), fill(0.5, 0.0, 0.0)], tf: Some(tfp(x, 4.0)) };
    let want = reference(&doc(vec![layer(vec![g.clone()])]), 5.0, ID, 1.0);
    let mut j = g.json();
    let it = j["it"].as_array_mut().unwrap();
    let t = it.pop().unwrap();
    it.insert(vs::choice("at", 3), t);
    let got = render(json!(doc(vec![layer(vec![Sh::Raw(j)])]).json()), 5.0, ID, 1.0);
    same(&got, &want, &TOL);
}

// -------------------------------------------------------------------- C15
fn trim(s: f64, e: f64, o: f64) -> Sh {
    Sh::Trim { s: s1(s), e: s1(e), o: s1(o) }
}
/// one line, any trim; its place or its length symbolic
fn trim_line() {
    let (x, y) = (vs::num("x", -50.0, 50.0, 2), vs::num("y", -50.0, 50.0, 2));
    let v = match vs::choice("what", 4) {
        0 => {
            let (s, e) = (vs::num("start", 0.0, 100.0, 3), vs::num("end", 0.0, 100.0, 3));
            vec![hline(x, y, 64.0), trim(s, e, [0.0, 45.0, -90.0, 700.0, -720.0][vs::choice("offset", 5)])]
        }
        1 => {
            let t = [[0.0, 25.0], [75.0, 25.0], [100.0, 10.0], [0.0, 99.0]][vs::choice("trim", 4)];
            vec![hline(x, y, -25.0), trim(t[0], t[1], vs::num("offset", -720.0, 720.0, 2))]
        }
        w => {
            let t = [[25.0, 75.0, 0.0], [75.0, 0.0, 90.0], [50.0, 100.0, -540.0], [10.0, 20.0, 360.0], [0.0, 60.0, 216.0]][vs::choice("trim", 5)];
            let d = vs::num("d", 0.25, 200.0, 2);
            let b = if w == 2 { Bez::poly(&[[x, y], [x, y + d]], false) } else { Bez::poly(&[[x, y], [x + d, y], [x + d, y - d]], true) };
            vec![Sh::Path(PathProp::S(if w == 2 { b } else { Bez { closed: false, ..b } })), trim(t[0], t[1], t[2])]
        }
    };
    compare(&doc(vec![layer([v, vec![stroke(0.5)]].concat())]), 5.0, ID, 1.0);
}
/// paths of several segments, open and closed, at any place
fn trim_path() {
    let (x, y) = (vs::num("x", -50.0, 50.0, 2), vs::num("y", -50.0, 50.0, 2));
    let at = |v: &[[f64; 2]], c| Bez::poly(&v.iter().map(|p| [p[0] + x, p[1] + y]).collect::<Vec<_>>(), c);
    let b = match vs::choice("path", 6) {
        0 => at(&[[0.0, 0.0], [20.0, 0.0], [20.0, 30.0]], false),
        1 => at(&[[0.0, 0.0], [30.0, 0.0], [30.0, 20.0], [0.0, 20.0]], true),
        2 => at(&[[0.0, 0.0], [12.0, 0.0], [12.0, 0.0], [12.0, 20.0]], false),
        3 => at(&[[0.0, 0.0], [30.0, 0.0], [30.0, 40.0], [0.0, 0.0]], true),
        4 => at(&[[0.0, 0.0], [30.0, 40.0]], true),
        _ => at(&[[0.0, 0.0], [10.0, 0.0], [10.0, 5.0], [40.0, 45.0], [40.0, 50.0]], false),
    };
    let s = vs::num("start", 0.0, 100.0, 3);
    let e = vs::num("end", 0.0, 100.0, 3);
    let o = [0.0, 90.0, -45.0, 500.0][vs::choice("offset", 4)];
    compare(&doc(vec![layer(vec![Sh::Path(PathProp::S(b)), trim(s, e, o), stroke(0.5)])]), 5.0, ID, 1.0);
}
/// trims at every level of groups within groups
fn trim_deep() {
    let v = nest(
        3,
        // neighbours under one transform would count as one path
        &[&|_| vec![], &|z| vec![moved(vec![hline(10.0 * z, 1.0, 32.0)], 0.0, z / 8.0)]],
        &[
            &|_| vec![],
            &|z| vec![trim(0.0, 50.0 + 12.5 * z, 0.0)],
            &|z| vec![stroke(z / 8.0)],
            &|z| vec![trim(25.0, 75.0, 0.0), hline(10.0 * z, 5.0, 64.0), stroke(z / 8.0)],
        ],
    );
    compare(&doc(vec![layer([v, vec![fill(0.0, 0.0, 1.0)]].concat())]), 5.0, ID, 1.0);
}
/// evenly parameterised curves, cut where velato's accuracy of lengths leads
fn trim_curves() {
    let (x, y) = (3.0, -4.0);
    let z = [0.0, 0.0];
    let b = match vs::choice("path", 3) {
        0 => Bez { closed: false, v: vec![[x, y], [x + 24.0, y], [x + 24.0, y + 16.0]], i: vec![z, [-8.0, 0.0], z], o: vec![[8.0, 0.0], z, z] },
        1 => Bez { closed: false, v: vec![[x, y], [x + 24.0, y], [x + 24.0, y + 48.0]], i: vec![z, [-8.0, 0.0], [0.0, -16.0]], o: vec![[8.0, 0.0], [0.0, 16.0], z] },
        _ => Bez { closed: true, v: vec![[x, y], [x + 36.0, y], [x + 36.0, y + 48.0]], i: vec![[12.0, 16.0], z, z], o: vec![z, z, [-12.0, -16.0]] },
    };
    let s = [0.0, 10.0, 25.0, 60.0, 80.0][vs::choice("start", 5)];
    let e = [100.0, 75.0, 40.0, 15.0, 5.0][vs::choice("end", 5)];
    let o = [0.0, 90.0, -30.0, 500.0][vs::choice("offset", 4)];
    let d = doc(vec![layer(vec![moved(vec![Sh::Path(PathProp::S(b)), trim(s, e, o), stroke(0.5)], vs::num("x", -50.0, 50.0, 2), 1.0)])]);
    let want = reference(&d, 5.0, ID, 1.0);
    same(&render(d.json(), 5.0, ID, 1.0), &want, &Tol { pos: 0.2, ..TOL });
}
/// where trims apply: geometry before and after, in and out of groups, drawn before or after
fn trim_scope() {
    let (s, e) = (vs::num("start", 0.0, 100.0, 2), vs::num("end", 0.0, 100.0, 2));
    let t = || trim(s, e, 0.0);
    let t2 = || trim(25.0, 75.0, 0.0);
    let g = |v| moved(v, 5.0, 0.0);
    let g2 = |v| moved(v, 0.0, 7.0);
    let h = |k: f64| hline(0.0, 10.0 * k, 20.0 + 10.0 * k);
    let v = match vs::choice("place", 14) {
        0 => vec![h(1.0), t(), g(vec![h(2.0)]), stroke(0.5)],
        1 => vec![g(vec![h(1.0), t()]), h(2.0), stroke(0.5)],
        2 => vec![h(1.0), g(vec![h(2.0), t()]), stroke(0.5)],
        3 => vec![h(1.0), g(vec![h(2.0)]), t(), stroke(0.5)],
        4 => vec![h(1.0), stroke(0.25), t(), stroke(0.5)],
        5 => vec![h(1.0), stroke(0.25), g(vec![h(2.0), t(), stroke(0.75)]), stroke(0.5)],
        6 => vec![g(vec![h(1.0), stroke(0.25)]), t(), g2(vec![h(2.0), stroke(0.75)]), stroke(0.5)],
        7 => vec![h(1.0), t(), h(2.0), stroke(0.5)],
        8 => vec![h(1.0), t2(), t(), stroke(0.5)],
        9 => vec![h(1.0), t2(), g(vec![h(2.0)]), t(), stroke(0.5)],
        10 => vec![g(vec![h(1.0), t2(), g2(vec![h(2.0)]), t()]), h(3.0), stroke(0.5)],
        11 => vec![g(vec![h(1.0), t()]), g2(vec![h(2.0), t2()]), h(3.0), stroke(0.5)],
        12 => vec![t(), h(1.0), stroke(0.5)],
        _ => vec![g(vec![t(), stroke(0.25)]), h(1.0), g2(vec![t(), h(2.0), stroke(0.75)]), stroke(0.5)],
    };
    compare(&doc(vec![layer(v)]), 5.0, ID, 1.0);
}
/// any list of items with trims, each geometry in a group of its own
fn trim_lists(n: usize) {
    let at = vs::num("at", 0.0, 100.0, 2);
    let v = (0..n)
        .map(|k| {
            let z = k as f64;
            let h = |y: f64| hline(at, y, 20.0 + 10.0 * z);
            match vs::choice("item", 6) {
                0 => moved(vec![h(1.0)], z + 1.0, 0.0),
                1 => stroke((z + 1.0) / 16.0),
                2 => trim(25.0, 75.0, 0.0),
                3 => moved(vec![h(2.0), trim(50.0, 100.0, 0.0)], z + 1.0, 0.0),
                4 => moved(vec![h(3.0), stroke(0.75 + z / 64.0), trim(0.0, 80.0, 0.0)], z + 1.0, 1.0),
                _ => moved(vec![trim(0.0, 25.0, 0.0), h(4.0), stroke(0.5 + z / 64.0)], z + 1.0, 2.0),
            }
        })
        .collect();
    compare(&doc(vec![layer(v)]), 5.0, ID, 1.0);
}
fn trim_lists4() {
    trim_lists(4)
}
fn trim_lists5() {
    trim_lists(5)
}
/// start, end and offset given as keyframes
fn trim_animated() {
    let k = |a: f64, b: f64| Prop::A(vec![kf(0.0, &[a]), kf(10.0, &[b])]);
    let (a, b) = (vs::num("a", 0.0, 100.0, 2), vs::num("b", 0.0, 100.0, 2));
    let t = match vs::choice("which", 4) {
        0 => Sh::Trim { s: k(a, b), e: s1(100.0), o: s1(0.0) },
        1 => Sh::Trim { s: s1(0.0), e: k(a, b), o: s1(0.0) },
        2 => Sh::Trim { s: s1(25.0), e: s1(75.0), o: k(a * 3.6, -b) },
        _ => Sh::Trim { s: k(a, b), e: k(100.0, b), o: k(0.0, 90.0) },
    };
    vs::root_hint(0.5);
    let f = [-5.0, 0.0, 5.0, 10.0, 20.0][vs::choice("f", 5)];
    compare_elsewhere(doc(vec![Ly { ip: -100.0, ..layer(vec![hline(0.0, 3.0, 64.0), t, stroke(0.5)]) }]), f, 3);
}
/// geometry under one transform may be trimmed as one path or each on its own: either way what
/// remains lies on the original in its direction and has the right length in total
fn trim_merged() {
    let (s, e) = (vs::num("start", 0.0, 100.0, 3), vs::num("end", 0.0, 100.0, 3));
    let t = trim(s, e, [0.0, 90.0, -200.0, 720.0][vs::choice("offset", 4)]);
    let f = 5.0;
    let (frac, full) = match &t {
        Sh::Trim { s, e, .. } => ((s.one(f) - e.one(f)).abs(), 100.0),
        _ => unreachable!(),
    };
    let apart = vs::flag("one path each");
    let v = if apart { vec![hline(0.0, 0.0, 40.0), hline(0.0, 50.0, 60.0), t, stroke(0.5)] } else { vec![hline(0.0, 0.0, 40.0), group(vec![hline(0.0, 50.0, 60.0)]), t, stroke(0.5)] };
    let ev = render(doc(vec![layer(v)]).json(), f, ID, 1.0);
    let mut total = 0.0;
    for e in draws(&ev) {
        if let Ev::Draw { path, .. } = e {
            let mut at = [0.0, 0.0];
            for x in &path {
                match x.k {
                    'M' => at = [x.p[0], x.p[1]],
                    'L' => {
                        let to = [x.p[0], x.p[1]];
                        vs::check(at[1] == to[1] && (at[1] == 0.0 || at[1] == 50.0), "part off the path");
                        let len = if at[1] == 0.0 { 40.0 } else { 60.0 };
                        vs::check(at[0] <= to[0] + 1e-6, "part runs backwards");
                        vs::check(at[0] >= -1e-6 && to[0] <= len + 1e-6, "part beyond the path");
                        total += to[0] - at[0];
                        at = to;
                    }
                    _ => vs::check(false, "segment kind"),
                }
            }
        }
    }
    vs::close(total, frac / full * 100.0, 1e-6, "length of what remains", 0);
}
/// other geometry kinds: a full range changes nothing, an empty one leaves nothing
fn trim_kinds() {
    let p = || s2(vs::num("x", -9.0, 9.0, 2), 2.0);
    let g = match vs::choice("kind", 5) {
        0 => Sh::Rect { p: p(), s: s2(10.0, 20.0), r: s1(0.0) },
        1 => Sh::Rect { p: p(), s: s2(10.0, 20.0), r: s1(2.0) },
        2 => Sh::Ell { p: p(), s: s2(10.0, 20.0) },
        3 => Sh::Star { sy: 1, p: p(), or: s1(9.0), os: s1(0.0), r: s1(0.0), pt: s1(5.0), ir: Some(s1(4.0)), is: Some(s1(0.0)) },
        _ => Sh::Path(PathProp::A(vec![
            BezKf { t: 0.0, hold: false, s: Some(Bez::poly(&[[0.0, 0.0], [9.0, 1.0]], true)), e: None },
            BezKf { t: 10.0, hold: false, s: Some(Bez::poly(&[[0.0, 5.0], [9.0, 1.0]], true)), e: None },
        ])),
    };
    let o = vs::num("offset", -720.0, 720.0, 2);
    let empty = vs::num("at", 0.0, 100.0, 2);
    let t = match vs::choice("range", 3) {
        0 => trim(0.0, 100.0, o),
        1 => trim(100.0, 0.0, o),
        _ => trim(empty, empty, o),
    };
    compare(&doc(vec![layer(vec![g, t, fill(0.5, 0.0, 0.0)])]), 5.0, ID, 1.0);
}

// -------------------------------------------------------------------- C16
fn rep(n: usize) -> Rep {
    Rep { n: s1(n as f64), off: s1(0.0), a: s2(0.0, 0.0), p: s2(10.0, 0.0), r: s1(0.0), s: s2(100.0, 100.0), so: s1(100.0), eo: s1(100.0) }
}
/// components of the repeater's transform
fn rep_transform() {
    let n = vs::choice("n", 4);
    let v = |s: &str| s2(vs::num(s, -50.0, 50.0, 2), vs::num(s, -50.0, 50.0, 2));
    let r = Rep {
        off: s1([0.0, 1.0, 0.5, -2.0][vs::choice("off", 4)]),
        a: v("a"),
        p: v("p"),
        r: s1([0.0, 30.0, -90.0][vs::choice("r", 3)]),
        s: if vs::flag("scale") { s2(50.0, 200.0) } else { s2(100.0, 100.0) },
        ..rep(n)
    };
    compare_with_repeaters(&doc(vec![layer(vec![tri(1.0, 2.0, 3.0), fill(0.5, 0.0, 0.0), Sh::Rep(r)])]), 5.0, ID, 1.0);
}
/// opacities of the copies
fn rep_opacity() {
    let n = 1 + vs::choice("n", 4);
    let r = Rep { so: s1(vs::num("so", 0.0, 100.0, 3)), eo: s1(vs::num("eo", 0.0, 100.0, 3)), ..rep(n) };
    let p = Sh::Fill { c: s3(0.5, 0.25, 1.0), o: s1(vs::num("o", 0.0, 100.0, 2)) };
    compare_with_repeaters(&doc(vec![layer(vec![tri(1.0, 2.0, 3.0), p, Sh::Rep(r)])]), 5.0, ID, 1.0);
}
/// copies animated or fractional: the count is rounded
fn rep_count() {
    let c = vs::num("copies", 0.0, 4.0, 3);
    vs::root_hint(0.5);
    let r = if vs::flag("animated") { Rep { n: Prop::A(vec![kf(0.0, &[c]), kf(10.0, &[2.0])]), p: Prop::A(vec![kf(0.0, &[c, 1.0]), kf(10.0, &[2.0, 3.0])]), ..rep(0) } } else { Rep { n: s1(c), ..rep(0) } };
    let f = [-1.0, 0.0, 5.0, 12.0][vs::choice("f", 4)];
    compare_with_repeaters(&doc(vec![Ly { ip: -10.0, ..layer(vec![tri(1.0, 2.0, 3.0), fill(0.5, 0.0, 0.0), Sh::Rep(r)]) }]), f, ID, 1.0);
}
/// what is repeated: several paints and geometries, nested groups, content before the group and
/// after the repeater, repeaters of repeaters
fn rep_scope() {
    let x = vs::num("x", -9.0, 9.0, 2);
    let n = vs::choice("n", 4);
    let r = || Sh::Rep(Rep { p: s2(x, 3.0), so: s1(100.0), eo: s1(50.0), ..rep(n) });
    let r2 = || Sh::Rep(Rep { r: s1(90.0), ..rep(2) });
    let t = |k: f64| tri(k, 2.0, 3.0);
    let g = |v| Sh::Group { it: v, tf: Some(Tf { s: Some(s2(50.0, 200.0)), r: Some(s1(30.0)), ..tfp(5.0, x) }) };
    let v = match vs::choice("place", 12) {
        0 => vec![t(1.0), fill(0.5, 0.0, 0.0), t(2.0), stroke(0.25), r()],
        1 => vec![t(1.0), r(), fill(0.5, 0.0, 0.0)],
        2 => vec![t(1.0), fill(0.5, 0.0, 0.0), r(), t(2.0), stroke(0.25)],
        3 => vec![t(1.0), fill(0.5, 0.0, 0.0), g(vec![t(2.0), stroke(0.25), r()]), t(3.0), stroke(0.75)],
        4 => vec![g(vec![t(2.0), stroke(0.25)]), r()],
        5 => vec![g(vec![t(2.0), stroke(0.25), r()]), r2()],
        6 => vec![t(1.0), fill(0.5, 0.0, 0.0), r(), r2()],
        7 => vec![t(1.0), g(vec![t(2.0), g(vec![t(3.0), stroke(0.25)]), r()]), fill(0.5, 0.0, 0.0)],
        8 => vec![r(), t(1.0), fill(0.5, 0.0, 0.0)],
        9 => vec![t(1.0), fill(0.5, 0.0, 0.0), g(vec![r(), t(2.0), stroke(0.25)])],
        10 => vec![g(vec![hline(0.0, 1.0, 40.0), trim(25.0, 75.0, 0.0), stroke(0.25), r()]), t(3.0), stroke(0.75)],
        _ => vec![g(vec![hline(0.0, 1.0, 40.0), stroke(0.25), r(), trim(25.0, 75.0, 0.0)]), t(3.0), stroke(0.75)],
    };
    compare_with_repeaters(&doc(vec![layer(v)]), 5.0, ID, 1.0);
}
/// any list of items with repeaters
fn rep_lists() {
    let x = vs::num("x", -9.0, 9.0, 2);
    let v = (0..4)
        .map(|k| {
            let z = k as f64;
            let t = |y: f64| tri(10.0 * z, y, 3.0);
            match vs::choice("item", 6) {
                0 => t(1.0),
                1 => stroke((z + 1.0) / 16.0),
                2 => Sh::Rep(Rep { p: s2(x, z), ..rep(2) }),
                3 => moved(vec![t(2.0), stroke(0.5 + z / 64.0)], 0.0, x),
                4 => moved(vec![t(3.0), stroke(0.75 + z / 64.0), Sh::Rep(Rep { p: s2(1.0, x), ..rep(2) })], 4.0, z),
                _ => group(vec![t(4.0)]),
            }
        })
        .collect();
    compare_with_repeaters(&doc(vec![layer(v)]), 5.0, ID, 1.0);
}

// -------------------------------------------------------------------- C18
fn stops(n: usize) -> Vec<f64> {
    (0..n).flat_map(|i| [vs::num(["o0", "o1", "o2", "o3"][i], 0.0, 1.0, 5), vs::num("r", 0.0, 1.0, 3), i as f64 / 8.0, vs::num("b", 0.0, 1.0, 3)]).collect()
}
fn gradient(t: Option<u8>, s: Prop, e: Prop, k: Prop, count: usize, f: fn(&[f64], usize) -> Vec<[f64; 5]>) -> Sh {
    let g = Grad { t, s, e, count, k, stops: f };
    if vs::flag("stroke") { Sh::GStroke { g, o: s1(100.0), l: line(2.0) } } else { Sh::GFill { g, o: s1(100.0) } }
}
/// kinds, points, stops
fn grad_static() {
    let n = 1 + vs::choice("n", 4);
    let t = [None, Some(1), Some(2)][vs::choice("t", 3)];
    let v = |s: &str| s2(vs::num(s, -99.0, 99.0, 2), vs::num(s, -99.0, 99.0, 2));
    let g = gradient(t, v("s"), v("e"), Prop::S(stops(n)), n, opaque_stops);
    compare(&doc(vec![layer(vec![tri(1.0, 2.0, 3.0), g])]), 5.0, ID, 1.0);
}
/// alpha pairs whose offsets are the colours'
fn alpha_stops(v: &[f64], count: usize) -> Vec<[f64; 5]> {
    (0..count).map(|i| [v[4 * i], v[4 * i + 1], v[4 * i + 2], v[4 * i + 3], v[4 * count + 2 * i + 1]]).collect()
}
fn fixed_offsets(n: usize) -> Vec<f64> {
    let o = [[0.0, 1.0, 0.0, 0.0], [0.0, 0.5, 1.0, 0.0], [0.0, 0.25, 0.75, 1.0]][n - 2];
    let mut v: Vec<f64> = (0..n).flat_map(|i| [o[i], i as f64 / 8.0, vs::num("g", 0.0, 1.0, 3), 1.0]).collect();
    for i in 0..n {
        v.extend([o[i], vs::num("alpha", 0.0, 1.0, 3)]);
    }
    v
}
fn grad_alpha() {
    let n = 2 + vs::choice("n", 3);
    let t = [Some(1), Some(2)][vs::choice("t", 2)];
    let g = gradient(t, s2(0.0, 0.0), s2(9.0, 0.0), Prop::S(fixed_offsets(n)), n, alpha_stops);
    compare(&doc(vec![layer(vec![tri(1.0, 2.0, 3.0), g])]), 5.0, ID, 1.0);
}
/// alpha pairs at symbolic offsets, the colours' own
fn grad_alpha_free() {
    let n = 2 + vs::choice("n", 2);
    let mut o = vec![vs::num("o0", 0.0, 0.25, 4)];
    for i in 1..n {
        o.push(o[i - 1] + vs::num("step", 0.125, 0.25, 4));
    }
    let mut v: Vec<f64> = (0..n).flat_map(|i| [o[i], i as f64 / 8.0, 0.5, 1.0]).collect();
    for i in 0..n {
        v.extend([o[i], vs::num("alpha", 0.0, 1.0, 3)]);
    }
    let g = gradient(Some(1), s2(0.0, 0.0), s2(9.0, 0.0), Prop::S(v), n, alpha_stops);
    compare(&doc(vec![layer(vec![tri(1.0, 2.0, 3.0), g])]), 5.0, ID, 1.0);
}
/// alpha pairs away from the colours: alphas run linearly between pairs and stay constant beyond
fn apart_stops(v: &[f64], count: usize) -> Vec<[f64; 5]> {
    let a = &v[4 * count..];
    let n = a.len() / 2;
    let at = |x: f64| {
        if x <= a[0] {
            return a[1];
        }
        for k in 1..n {
            let (p, q) = (a[2 * k - 2], a[2 * k]);
            if x <= q {
                let t = (x - p) / (q - p);
                // within a tenth of the gradient's ends the outer quarter is level
                if x <= 0.1 && t <= 0.25 {
                    return a[2 * k - 1];
                }
                if x >= 0.9 && t >= 0.75 {
                    return a[2 * k + 1];
                }
                return a[2 * k - 1] + (a[2 * k + 1] - a[2 * k - 1]) * t;
            }
        }
        a[2 * n - 1]
    };
    (0..count).map(|i| [v[4 * i], v[4 * i + 1], v[4 * i + 2], v[4 * i + 3], at(v[4 * i])]).collect()
}
fn grad_alpha_apart() {
    let colours: &[f64] = [&[0.0, 1.0][..], &[0.125, 0.875], &[0.0, 0.375, 1.0], &[0.25, 0.5, 0.75], &[0.5], &[0.0, 0.3125, 0.6875, 1.0]][vs::choice("colours", 6)];
    let pairs: &[f64] = [&[0.0, 1.0][..], &[0.25, 0.625], &[0.4375, 0.46875], &[0.0, 0.5, 1.0], &[0.25, 0.5, 0.75], &[0.6875, 0.75, 0.8125], &[0.1875, 0.25, 0.28125, 0.875]][vs::choice("pairs", 7)];
    let mut v: Vec<f64> = colours.iter().enumerate().flat_map(|(i, o)| [*o, i as f64 / 8.0, 0.5, 1.0]).collect();
    for o in pairs {
        v.extend([*o, vs::num("alpha", 0.0, 1.0, 4)]);
    }
    let g = gradient(Some(1), s2(0.0, 0.0), s2(9.0, 0.0), Prop::S(v), colours.len(), apart_stops);
    compare(&doc(vec![layer(vec![tri(1.0, 2.0, 3.0), g])]), 5.0, ID, 1.0);
}
/// colours anywhere, one or more pairs anywhere
fn grad_alpha_any() {
    let pairs: &[f64] = [&[0.25][..], &[0.0, 1.0], &[0.0, 0.25], &[0.75, 1.0], &[0.0, 0.5, 1.0], &[0.03125, 0.0625, 0.5, 0.96875]][vs::choice("pairs", 6)];
    // between two pairs, or beyond them
    let k = vs::choice("interval", pairs.len() + 1);
    let (p, q) = (if k == 0 { 0.0 } else { pairs[k - 1] }, pairs.get(k).copied().unwrap_or(1.0));
    let u = vs::num("u", 0.0, 1.0, 5);
    vs::root_hint(u);
    let x = p + (q - p) * (3.0 * u * u - 2.0 * u * u * u);
    let colours: &[f64] = &[x, 1.0][..1 + vs::choice("colours", 2)];
    let mut v: Vec<f64> = colours.iter().enumerate().flat_map(|(i, o)| [*o, i as f64 / 8.0, 0.5, 1.0]).collect();
    for o in pairs {
        v.extend([*o, vs::num("alpha", 0.0, 1.0, 4)]);
    }
    let g = gradient(Some(1), s2(0.0, 0.0), s2(9.0, 0.0), Prop::S(v), colours.len(), apart_stops);
    compare(&doc(vec![layer(vec![tri(1.0, 2.0, 3.0), g])]), 5.0, ID, 1.0);
}
/// animated stops and points, everywhere on the timeline
fn grad_animated() {
    let n = 1 + vs::choice("n", 2);
    let alpha = n > 1 && vs::flag("alpha");
    let one = || if alpha { fixed_offsets(n) } else { stops(n) };
    let mut k0 = kf(0.0, &one());
    k0.hold = vs::flag("hold");
    let k = Prop::A(vec![k0, kf(10.0, &one()), kf(20.0, &one())]);
    let p = |a: f64| Prop::A(vec![kf(0.0, &[a, vs::num("p", -9.0, 9.0, 2)]), kf(10.0, &[2.0 * a, 3.0])]);
    let t = [Some(1), Some(2)][vs::choice("t", 2)];
    let (s, e) = if vs::flag("points") { (p(1.0), p(9.0)) } else { (s2(0.0, 0.0), s2(9.0, 0.0)) };
    let g = gradient(t, s, e, k, n, if alpha { alpha_stops } else { opaque_stops });
    let f = match vs::choice("where", 5) {
        0 => -vs::num("d", 0.0, 50.0, 2),
        1 => 20.0 + vs::num("d", 0.0, 50.0, 2),
        2 => 10.0,
        w => {
            let u = vs::num("u", 0.03125, 0.96875, 6);
            vs::root_hint(u);
            10.0 * (w - 3) as f64 + 10.0 * (3.0 * u * u - 2.0 * u * u * u)
        }
    };
    compare_elsewhere(doc(vec![Ly { ip: -100.0, ..layer(vec![tri(1.0, 2.0, 3.0), g]) }]), f, if alpha { 1 } else { 3 });
}

// -------------------------------------------------------------------- C20
/// caps, joins, miter limits, widths and colours of one stroke
fn style_stroke() {
    let l = Line {
        w: s1(vs::num("w", 0.0, 50.0, 3)),
        lc: [None, Some(1), Some(2), Some(3)][vs::choice("lc", 4)],
        lj: [None, Some(1), Some(2), Some(3)][vs::choice("lj", 4)],
        ml: if vs::flag("ml") { Some(vs::num("ml", 0.0, 20.0, 2)) } else { None },
    };
    let p = if vs::flag("gradient") {
        Sh::GStroke { g: Grad { t: Some(1), s: s2(0.0, 0.0), e: s2(9.0, 0.0), count: 2, k: Prop::S(vec![0.0, 1.0, 0.0, 0.0, 1.0, 0.0, 0.0, 1.0]), stops: opaque_stops }, o: s1(100.0), l }
    } else {
        Sh::Stroke { c: s3(vs::num("r", 0.0, 1.0, 4), vs::num("g", 0.0, 1.0, 4), vs::num("b", 0.0, 1.0, 4)), o: s1(100.0), l }
    };
    compare(&doc(vec![layer(vec![tri(1.0, 2.0, 3.0), p])]), 5.0, ID, 1.0);
}
/// several paints one after another: none takes anything from another
fn style_many() {
    let c = || s3(vs::num("r", 0.0, 1.0, 4), vs::num("g", 0.0, 1.0, 4), 0.5);
    let v: Vec<Sh> = (0..3)
        .map(|k| match vs::choice("paint", 4) {
            0 => Sh::Fill { c: c(), o: s1(100.0) },
            1 => Sh::Stroke { c: c(), o: s1(100.0), l: Line { w: s1(k as f64 + 1.0), lc: None, lj: None, ml: None } },
            2 => Sh::Stroke { c: c(), o: s1(100.0), l: Line { w: s1(k as f64 + 1.0), lc: Some(2), lj: Some(1), ml: Some(7.0) } },
            _ => Sh::Stroke { c: c(), o: s1(100.0), l: Line { w: s1(vs::num("w", 0.0, 9.0, 2)), lc: Some(3), lj: Some(2), ml: None } },
        })
        .collect();
    compare(&doc(vec![layer([vec![tri(1.0, 2.0, 3.0)], v].concat())]), 5.0, ID, 1.0);
}
/// animated widths, colours
fn style_animated() {
    let a = |v: &str, n: usize, hi: f64| {
        let x = |_: usize| (0..n).map(|_| vs::num(v, 0.0, hi, 3)).collect::<Vec<_>>();
        let mut k = kf(0.0, &x(0));
        k.hold = vs::flag("hold");
        Prop::A(vec![k, kf(10.0, &x(1))])
    };
    let l = Line { w: a("w", 1, 20.0), lc: [None, Some(2)][vs::choice("lc", 2)], lj: [None, Some(1)][vs::choice("lj", 2)], ml: [None, Some(3.0)][vs::choice("ml", 2)] };
    let p = match vs::choice("paint", 3) {
        0 => Sh::Fill { c: a("c", 3, 1.0), o: s1(100.0) },
        1 => Sh::Stroke { c: a("c", 3, 1.0), o: s1(100.0), l },
        _ => Sh::GStroke { g: Grad { t: Some(2), s: s2(0.0, 0.0), e: s2(9.0, 0.0), count: 1, k: Prop::S(vec![0.0, 1.0, 0.0, 0.5]), stops: opaque_stops }, o: s1(100.0), l },
    };
    let f = match vs::choice("where", 3) {
        0 => -vs::num("d", 0.0, 50.0, 2),
        1 => 10.0 + vs::num("d", 0.0, 50.0, 2),
        _ => {
            let u = vs::num("u", 0.03125, 0.96875, 6);
            vs::root_hint(u);
            10.0 * (3.0 * u * u - 2.0 * u * u * u)
        }
    };
    compare_elsewhere(doc(vec![Ly { ip: -100.0, ..layer(vec![tri(1.0, 2.0, 3.0), p]) }]), f, 3);
}
crate::entries! {
    c14_lists => lists4;
    c14_lists5 => lists5;
    c14_flat => flat6;
    c14_nested => nested;
    c14_deep => deep3;
    c14_deep4 => deep4;
    c15_deep => trim_deep;
    c14_turned => turned;
    c14_layers => layers;
    c14_ignored => ignored;
    c14_place => transform_place;
    c15_line => trim_line;
    c15_path => trim_path;
    c15_curves => trim_curves;
    c15_scope => trim_scope;
    c15_lists => trim_lists4;
    c15_lists5 => trim_lists5;
    c15_animated => trim_animated;
    c15_merged => trim_merged;
    c15_kinds => trim_kinds;
    c16_transform => rep_transform;
    c16_opacity => rep_opacity;
    c16_count => rep_count;
    c16_scope => rep_scope;
    c16_lists => rep_lists;
    c18_static => grad_static;
    c18_alpha => grad_alpha;
    c18_alpha_free => grad_alpha_free;
    c18_alpha_apart => grad_alpha_apart;
    c18_alpha_any => grad_alpha_any;
    c18_animated => grad_animated;
    c20_stroke => style_stroke;
    c20_many => style_many;
    c20_animated => style_animated;
}
