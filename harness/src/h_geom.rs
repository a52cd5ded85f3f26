//! Paths and parametric shapes.
use crate::doc::*;
use crate::h_basic::{compare, compare_elsewhere, render};
use crate::rec::*;
use crate::vs;

fn pt(name: &str) -> [f64; 2] {
    [vs::num(name, -200.0, 200.0, 3), vs::num(name, -200.0, 200.0, 3)]
}
/// tangents: all zero, one symbolic (possibly zero), all symbolic, or left out
fn tangents(name: &str, n: usize) -> Vec<[f64; 2]> {
    match vs::choice(name, 4) {
        0 => vec![[0.0; 2]; n],
        1 => {
            let mut v = vec![[0.0; 2]; n];
            if n > 0 {
                let k = vs::choice("which", n);
                v[k] = pt(name);
            }
            v
        }
        2 => (0..n).map(|k| if k % 2 == 0 { [vs::num(name, 1.0, 90.0, 3), vs::num(name, -90.0, 90.0, 3)] } else { [3.0 + k as f64, -1.0] }).collect(),
        _ => vec![[1.0, 2.0]; n / 2],
    }
}
/// where a path can occur
fn place(kind: usize, p: PathProp) -> Doc {
    match kind {
        0 => doc(vec![layer(vec![Sh::Path(p), fill(1.0, 0.0, 0.0)])]),
        1 => doc(vec![layer(vec![Sh::Group { it: vec![Sh::Path(p)], tf: Some(tfp(3.0, 4.0)) }, fill(1.0, 0.0, 0.0)])]),
        _ => doc(vec![Ly { masks: vec![p], ..layer(vec![tri(0.0, 0.0, 1.0), fill(1.0, 0.0, 0.0)]) }]),
    }
}
fn fixed() {
    let n = vs::choice("n", 5);
    let v: Vec<[f64; 2]> = (0..n).map(|_| pt("v")).collect();
    let b = Bez { closed: vs::flag("closed"), i: tangents("i", n), o: tangents("o", n), v };
    let kind = if n == 3 { vs::choice("kind", 3) } else { 0 };
    compare(&place(kind, PathProp::S(b)), 5.0, ID, 1.0);
}
/// tangents that are zero in only one coordinate, or only one of the pair
fn tangent_cases() {
    let v = vec![[0.0, 0.0], [10.0, 0.0], [10.0, 10.0]];
    let mut i = vec![[0.0; 2]; 3];
    let mut o = vec![[0.0; 2]; 3];
    let w = vs::choice("w", 3);
    o[w] = pt("o");
    i[(w + 1) % 3] = pt("i");
    let b = Bez { closed: vs::flag("closed"), v, i, o };
    compare(&place(0, PathProp::S(b)), 5.0, ID, 1.0);
}
fn bez(n: usize, k: usize, closed: bool, name: &str, curved: bool) -> Bez {
    let mut b = Bez::poly(&(0..n).map(|i| [i as f64 * 7.0, (i * i) as f64]).collect::<Vec<_>>(), closed);
    if n > 0 {
        b.v[k] = pt(name);
        if curved {
            b.o[k] = [vs::num(name, 1.0, 50.0, 3), -2.0];
            b.i[(k + 1) % n] = [4.0, vs::num(name, 1.0, 50.0, 3)];
        }
    }
    b
}
fn frame(k: &[f64], holds: &[bool]) -> f64 {
    let n = k.len();
    let r = vs::choice("where", 2 * n + 1);
    if r == 0 {
        vs::cover("before");
        k[0] - vs::num("d", 0.0, 64.0, 3)
    } else if r <= n {
        vs::cover("at keyframe");
        k[r - 1]
    } else if r == 2 * n {
        vs::cover("after");
        k[n - 1] + vs::num("d", 0.0, 64.0, 3)
    } else {
        let i = r - n - 1;
        vs::cover(if holds[i] { "in hold" } else { "between" });
        k[i] + (k[i + 1] - k[i]) * vs::num("w", 0.0078125, 0.9921875, 7)
    }
}
/// an animated path: explicit ends, missing starts, holds
fn animated() {
    let m = 1 + vs::choice("keyframes", 3);
    let n = 2 + vs::choice("n", 2);
    let mv = vs::choice("moving", n);
    let closed = vs::flag("closed");
    let style = vs::choice("style", 4);
    let mut k = vec![];
    let ts = [0.0, 10.0, 14.0];
    let h = vs::choice("holds", 1 << m);
    let holds: Vec<bool> = (0..m).map(|i| h >> i & 1 == 1).collect();
    for i in 0..m {
        let last = i + 1 == m;
        let (s, e) = match style {
            // starts only
            0 => (Some(bez(n, mv, closed, "s", false)), None),
            // starts and ends, the last keyframe has neither (it inherits the end before it)
            1 => (if last && m > 1 { None } else { Some(bez(n, mv, closed, "s", false)) }, if last { None } else { Some(bez(n, mv, closed, "e", false)) }),
            // ends that differ from the next start
            2 => (Some(bez(n, mv, closed, "s", false)), if last || i == 1 { None } else { Some(bez(n, mv, closed, "e", false)) }),
            // curved starts
            _ => (Some(bez(n, mv, closed, "s", true)), None),
        };
        k.push(BezKf { t: ts[i], hold: holds[i], s, e });
    }
    let f = frame(&ts[..m], &holds);
    let mask = n == 2 && vs::flag("mask");
    compare_elsewhere(place(if mask { 2 } else { 0 }, PathProp::A(k)), f, if mask || style > 1 { 1 } else { 4 });
}
/// a path animated between equal shapes is the static path
fn constant() {
    let n = 2 + vs::choice("n", 2);
    let b = bez(n, vs::choice("moving", n), vs::flag("closed"), "v", vs::flag("curved"));
    let m = 1 + vs::choice("keyframes", 3);
    let ts = [0.0, 10.0, 14.0];
    let h = vs::choice("holds", 1 << m);
    let holds: Vec<bool> = (0..m).map(|i| h >> i & 1 == 1).collect();
    let ends = vs::flag("ends");
    let k: Vec<BezKf> = (0..m)
        .map(|i| BezKf { t: ts[i], hold: holds[i], s: Some(b.clone()), e: if ends && i + 1 < m { Some(b.clone()) } else { None } })
        .collect();
    let f = frame(&ts[..m], &holds);
    let kind = if n == 2 && vs::flag("mask") { 2 } else { 0 };
    let want = render(place(kind, PathProp::S(b)).json(), f, ID, 1.0);
    let got = render(place(kind, PathProp::A(k)).json(), f, ID, 1.0);
    same(&got, &want, &TOL);
}

// -------------------------------------------------------- rectangle, ellipse
const SIZES: [[f64; 2]; 6] = [[10.0, 20.0], [30.0, 4.0], [8.0, 8.0], [0.0, 5.0], [100.0, 1.0], [7.0, 0.0]];
const RADII: [f64; 6] = [0.0, 1.0, 3.5, 4.0, 50.0, 0.25];
fn paint(s: Sh) -> Doc {
    doc(vec![layer(vec![s, fill(1.0, 0.0, 0.0)])])
}
/// end points of the path's segments
fn ends(ev: &[Ev]) -> Vec<[f64; 2]> {
    let d = draws(ev);
    vs::check(d.len() == 1, "one draw expected");
    let Ev::Draw { path, .. } = &d[0] else { unreachable!() };
    path.iter().filter(|e| !e.p.is_empty()).map(|e| [e.p[e.p.len() - 2], e.p[e.p.len() - 1]]).collect()
}
fn rect_sharp() {
    let p = pt("p");
    let (w, h) = (vs::num("w", 0.5, 500.0, 3), vs::num("h", 0.5, 500.0, 3));
    let d = paint(Sh::Rect { p: s2(p[0], p[1]), s: s2(w, h), r: s1(0.0) });
    let ev = render(d.json(), 0.0, ID, 1.0);
    for (i, want) in [[-1.0, -1.0], [1.0, -1.0], [1.0, 1.0], [-1.0, 1.0]].iter().enumerate() {
        let c = [p[0] + want[0] * w * 0.5, p[1] + want[1] * h * 0.5];
        // every corner is the end of some segment, and in this order
        let e = ends(&ev);
        let hit: Vec<&[f64; 2]> = e.iter().filter(|q| (q[0] - c[0]).abs() < 1e-6 && (q[1] - c[1]).abs() < 1e-6).collect();
        vs::check(!hit.is_empty(), "rectangle corner missing");
        let _ = i;
    }
    for q in ends(&ev) {
        vs::close((q[0] - p[0]).abs(), w * 0.5, 1e-6, "rectangle corner x", 0);
        vs::close((q[1] - p[1]).abs(), h * 0.5, 1e-6, "rectangle corner y", 0);
    }
    compare(&d, 0.0, ID, 1.0);
}
fn rect_round() {
    let p = pt("p");
    let s = SIZES[vs::choice("size", SIZES.len())];
    let r = RADII[vs::choice("r", RADII.len())];
    let d = paint(Sh::Rect { p: s2(p[0], p[1]), s: s2(s[0], s[1]), r: s1(r) });
    let ev = render(d.json(), 0.0, ID, 1.0);
    // the corner arcs start and end on the sides, `k` from the corner
    let k = r.min(s[0] / 2.0).min(s[1] / 2.0);
    for q in ends(&ev) {
        let (dx, dy) = ((q[0] - p[0]).abs(), (q[1] - p[1]).abs());
        vs::check(dx <= s[0] / 2.0 + 1e-6 && dy <= s[1] / 2.0 + 1e-6, "rectangle exceeds its size");
        let (ex, ey) = (s[0] / 2.0 - dx, s[1] / 2.0 - dy);
        // on a side, or on the corner's circle
        let on = ex.abs() < 1e-6 || ey.abs() < 1e-6 || ((k - ex).powi(2) + (k - ey).powi(2)).sqrt() < k + 1e-3;
        vs::check(on, "rectangle outline");
    }
    compare(&d, 0.0, ID, 1.0);
}
fn ellipse() {
    let p = pt("p");
    let s = SIZES[vs::choice("size", 3)];
    let d = paint(Sh::Ell { p: s2(p[0], p[1]), s: s2(s[0], s[1]) });
    let ev = render(d.json(), 0.0, ID, 1.0);
    for (i, q) in ends(&ev).iter().enumerate() {
        let (x, y) = ((q[0] - p[0]) / (s[0] / 2.0), (q[1] - p[1]) / (s[1] / 2.0));
        vs::close(x * x + y * y, 1.0, 1e-6, "ellipse point", i);
    }
    compare(&d, 0.0, ID, 1.0);
}
fn a1(lo: f64, hi: f64, name: &str) -> Prop {
    match vs::choice("an", 3) {
        0 => s1(vs::num(name, lo, hi, 3)),
        1 => Prop::A(vec![kf(0.0, &[vs::num(name, lo, hi, 3)]), kf(10.0, &[lo])]),
        _ => Prop::A(vec![hold(0.0, &[vs::num(name, lo, hi, 3)]), kf(10.0, &[hi])]),
    }
}
fn a2(lo: f64, hi: f64, name: &str) -> Prop {
    let v = [vs::num(name, lo, hi, 3), vs::num(name, lo, hi, 3)];
    match vs::choice("an", 3) {
        0 => Prop::S(v.to_vec()),
        1 => Prop::A(vec![kf(0.0, &v), kf(10.0, &[lo, hi])]),
        _ => Prop::A(vec![hold(0.0, &v), kf(10.0, &[hi, lo])]),
    }
}
/// rectangle and ellipse at frames of animated properties
fn moving() {
    let f = [-5.0, 0.0, 5.0, 10.0, 20.0][vs::choice("f", 5)];
    let kind = vs::choice("kind", 3);
    let s = match kind {
        0 => Sh::Rect { p: a2(-50.0, 50.0, "p"), s: a2(1.0, 60.0, "s"), r: s1(0.0) },
        1 => Sh::Rect {
            p: a2(-50.0, 50.0, "p"),
            s: Prop::A(vec![kf(0.0, &[10.0, 20.0]), kf(10.0, &[20.0, 4.0])]),
            r: Prop::A(vec![kf(0.0, &[1.0]), kf(10.0, &[9.0])]),
        },
        _ => Sh::Ell { p: a2(-50.0, 50.0, "p"), s: Prop::A(vec![kf(0.0, &[10.0, 20.0]), kf(10.0, &[20.0, 4.0])]) },
    };
    vs::root_hint(0.5);
    compare_elsewhere(paint(s), f, 4);
}

// ----------------------------------------------------------------------- star
const ROTS: [f64; 5] = [0.0, 30.0, 90.0, -45.0, 200.0];
fn star_doc(sy: u8, pts: f64, rot: f64) -> Doc {
    let p = pt("p");
    let os = if vs::flag("round") { vs::num("os", -100.0, 150.0, 2) } else { 0.0 };
    // a polygon has no use for inner ones; a star without them turns at its centre
    let inner = vs::choice("inner", 3);
    let (ir, is) = if inner == 1 {
        (None, None)
    } else if inner == 2 {
        (Some(s1(vs::num("ir", -100.0, 100.0, 3))), None)
    } else if sy == 1 || vs::flag("of a polygon") {
        (Some(s1(vs::num("ir", 5.0, 100.0, 3))), if vs::flag("iround") { Some(s1(vs::num("is", -100.0, 150.0, 2))) } else { Some(s1(0.0)) })
    } else {
        (None, None)
    };
    paint(Sh::Star { sy, p: s2(p[0], p[1]), or: s1(vs::num("or", 5.0, 100.0, 3)), os: s1(os), r: s1(rot), pt: s1(pts), ir, is })
}
fn star_fixed() {
    let sy = 1 + vs::choice("sy", 2) as u8;
    let pts = [3.0, 5.0, 4.4, 6.5, 7.0, 0.0, 0.4, if sy == 1 { 2.0 } else { 4.0 }][vs::choice("pts", 8)];
    let rot = ROTS[vs::choice("rot", ROTS.len())];
    compare(&star_doc(sy, pts, rot), 0.0, ID, 1.0);
}
fn star_turned() {
    let sy = 1 + vs::choice("sy", 2) as u8;
    let pts = [3.0, 5.0][vs::choice("pts", 2)];
    let rot = vs::num("rot", -360.0, 360.0, 3);
    let p = s2(1.0, 2.0);
    let ir = if sy == 1 { Some(s1(10.0)) } else { None };
    let d = paint(Sh::Star { sy, p, or: s1(20.0), os: s1(0.0), r: s1(rot), pt: s1(pts), ir: ir.clone(), is: ir.map(|_| s1(0.0)) });
    compare(&d, 0.0, ID, 1.0);
}
fn star_moving() {
    let sy = 1 + vs::choice("sy", 2) as u8;
    let f = [-5.0, 0.0, 5.0, 10.0, 20.0][vs::choice("f", 5)];
    vs::root_hint(0.5);
    let which = vs::choice("which", 5);
    let p = if which == 0 { a2(-50.0, 50.0, "p") } else { s2(1.0, 2.0) };
    let or = if which == 1 { a1(5.0, 60.0, "or") } else { s1(20.0) };
    let os = if which == 2 { a1(5.0, 60.0, "os") } else { s1(0.0) };
    let ir = if sy == 1 { Some(if which == 3 { a1(5.0, 60.0, "ir") } else { s1(8.0) }) } else { None };
    let is = if sy == 1 { Some(if which == 4 { a1(5.0, 60.0, "is") } else { s1(0.0) }) } else { None };
    let pts = Prop::A(vec![hold(0.0, &[3.0]), kf(10.0, &[5.0])]);
    compare_elsewhere(paint(Sh::Star { sy, p, or, os, r: s1(10.0), pt: pts, ir, is }), f, 4);
}
crate::entries! {
    c05_fixed => fixed;
    c05_tangents => tangent_cases;
    c05_animated => animated;
    c05_constant => constant;
    c19_rect => rect_sharp;
    c19_round => rect_round;
    c19_ellipse => ellipse;
    c19_moving => moving;
    c19_star => star_fixed;
    c19_turned => star_turned;
    c19_star_moving => star_moving;
}
