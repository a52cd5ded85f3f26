//! Keyframed values: timeline, easing, constant animations.
use crate::doc::*;
use crate::h_basic::{compare, compare_elsewhere};
use crate::vs;
use serde_json::Value as J;

/// Every place a keyframed property can occur, with its number of components and the range of
/// its values.
pub const SLOTS: [(&str, usize, f64, f64); 20] = [
    ("layer opacity", 1, 0.0, 100.0),
    ("layer position", 2, -500.0, 500.0),
    ("layer split x", 1, -500.0, 500.0),
    ("layer split y", 1, -500.0, 500.0),
    ("layer anchor", 2, -500.0, 500.0),
    ("layer scale", 2, -300.0, 300.0),
    ("group position", 2, -500.0, 500.0),
    ("group scale", 2, -300.0, 300.0),
    ("group opacity", 1, 0.0, 100.0),
    ("group anchor", 2, -500.0, 500.0),
    ("rect position", 2, -500.0, 500.0),
    ("rect size", 2, 300.0, 500.0),
    ("ellipse position", 2, -500.0, 500.0),
    ("fill colour", 3, 0.0, 1.0),
    ("fill opacity", 1, 0.0, 100.0),
    ("stroke width", 1, 0.0, 50.0),
    ("stroke colour", 3, 0.0, 1.0),
    ("gradient start", 2, -500.0, 500.0),
    ("gradient end", 2, -500.0, 500.0),
    ("instance position", 2, -500.0, 500.0),
];
/// A document with the property in that place.
pub fn place(slot: usize, p: Prop) -> Doc {
    let z = || s2(0.0, 0.0);
    let mut tf = tf0();
    let mut gt = tf0();
    let (mut rp, mut rs, mut ep) = (s2(3.0, 4.0), s2(10.0, 20.0), s2(1.0, 2.0));
    let (mut fc, mut fo, mut sw, mut so) = (s3(0.5, 0.25, 1.0), s1(100.0), s1(2.0), s3(1.0, 0.5, 0.0));
    let (mut gs, mut ge) = (z(), s2(10.0, 0.0));
    let mut it = tf0();
    match slot {
        0 => tf.o = Some(p),
        1 => tf.p = Pos::One(p),
        2 => tf.p = Pos::Split(p, s1(7.0)),
        3 => tf.p = Pos::Split(s1(-7.0), p),
        4 => tf.a = Some(p),
        5 => tf.s = Some(p),
        6 => gt.p = Pos::One(p),
        7 => gt.s = Some(p),
        8 => gt.o = Some(p),
        9 => gt.a = Some(p),
        10 => rp = p,
        11 => rs = p,
        12 => ep = p,
        13 => fc = p,
        14 => fo = p,
        15 => sw = p,
        16 => so = p,
        17 => gs = p,
        18 => ge = p,
        _ => it.p = Pos::One(p),
    }
    let mut shapes = vec![
        match slot {
            12 => Sh::Ell { p: ep, s: s2(8.0, 8.0) },
            10 | 11 => Sh::Rect { p: rp, s: rs, r: s1(0.0) },
            _ => tri(1.0, 2.0, 3.0),
        },
    ];
    shapes.push(match slot {
        15 | 16 => Sh::Stroke { c: so, o: s1(100.0), l: Line { w: sw, ..line(1.0) } },
        17 | 18 => Sh::GFill {
            g: Grad { t: Some(1), s: gs, e: ge, count: 2, k: Prop::S(vec![0.0, 1.0, 0.0, 0.0, 1.0, 0.0, 0.0, 1.0]), stops: opaque_stops },
            o: s1(100.0),
        },
        _ => Sh::Fill { c: fc, o: fo },
    });
    let shapes = match slot {
        6..=9 => vec![Sh::Group { it: shapes, tf: Some(gt) }],
        _ => shapes,
    };
    let l = Ly { ks: tf, ip: -1000.0, op: 1000.0, ..layer(shapes) };
    if slot == 19 {
        let mut d = doc(vec![Ly { ks: it, ip: -1000.0, op: 1000.0, ..inst("a") }]);
        d.assets = vec![("a".into(), vec![l])];
        d
    } else {
        doc(vec![l])
    }
}
fn bez(p: [f64; 2], u: f64) -> f64 {
    let v = 1.0 - u;
    3.0 * v * v * u * p[0] + 3.0 * v * u * u * p[1] + u * u * u
}
/// Keyframes with symbolic values.
fn keys(slot: usize, times: &[f64], holds: usize) -> Vec<Kf> {
    let (_, c, lo, hi) = SLOTS[slot];
    times
        .iter()
        .enumerate()
        .map(|(k, t)| {
            let v: Vec<f64> = (0..c).map(|i| vs::num(["v0", "v1", "v2"][i], lo, hi, 3)).collect();
            if holds >> k & 1 == 1 { hold(*t, &v) } else { kf(*t, &v) }
        })
        .collect()
}
/// A frame anywhere on the timeline of those keyframes. Between two keyframes it is
/// the image of a curve parameter, which is what the easing solver must find.
fn frame(k: &[Kf]) -> f64 {
    let n = k.len();
    // 0 before the first, 1.. at keyframe, n+1.. between, last after
    let r = vs::choice("where", 2 * n + 1);
    if r == 0 {
        vs::cover("before");
        return k[0].t - vs::num("d", 0.0, 64.0, 3);
    }
    if r <= n {
        vs::cover("at keyframe");
        return k[r - 1].t;
    }
    if r == 2 * n {
        vs::cover("after");
        return k[n - 1].t + vs::num("d", 0.0, 64.0, 3);
    }
    let i = r - n - 1;
    vs::cover("between");
    let dt = k[i + 1].t - k[i].t;
    if k[i].hold {
        return k[i].t + dt * vs::num("w", 0.0078125, 0.9921875, 7);
    }
    let e = k[i].ease.unwrap_or([0.0, 0.0, 1.0, 1.0]);
    let u = vs::num("u", 0.03125, 0.96875, 7);
    vs::root_hint(u);
    set_eased(Some((k[i].ease, u, bez([e[1], e[3]], u))));
    k[i].t + dt * bez([e[0], e[2]], u)
}
fn run(slot: usize, k: Vec<Kf>) {
    set_eased(None);
    let f = frame(&k);
    let places = if slot != 19 && k.len() == 2 && k[1].t - k[0].t == 10.0 && k.iter().all(|k| !k.hold && k.ease.is_none()) { 4 } else { 1 };
    compare_elsewhere(place(slot, Prop::A(k)), f, places);
}
const TIMES: [&[f64]; 4] = [&[10.0], &[0.0, 10.0], &[-3.0, 5.0, 6.0], &[2.0, 10.0, 13.0, 33.0]];
/// any property, two or three keyframes, any holds
fn timeline() {
    let slot = vs::choice("slot", SLOTS.len());
    let n = vs::choice("n", 3);
    let t = TIMES[n];
    let h = vs::choice("holds", 1 << t.len());
    let mut k = keys(slot, t, h);
    // handles do not matter while a value is held
    if h != 0 && vs::flag("held handles") {
        for k in k.iter_mut().filter(|k| k.hold) {
            k.ease = Some(EASES[3]);
        }
    }
    run(slot, k);
}
/// one scalar property, four keyframes at symbolic times
fn times() {
    let n = 2 + vs::choice("n", 3);
    let h = vs::choice("holds", 1 << n);
    let mut t = vs::num("t0", -50.0, 50.0, 2);
    let mut ts = vec![t];
    for _ in 1..n {
        t += [1.0, 8.0, 0.25][vs::choice("dt", 3)];
        ts.push(t);
    }
    run(0, keys(0, &ts, h));
}
const EASES: [[f64; 4]; 8] = [
    [0.0, 0.0, 1.0, 1.0],
    [0.333, 0.0, 0.667, 1.0],
    [0.5, 0.0, 0.5, 1.0],
    [0.25, 0.1, 0.25, 1.0],
    [0.0, 0.5, 0.75, 0.25],
    [0.9, 0.2, 0.6, 1.4],
    [0.1, -0.5, 0.2, 1.5],
    [1.0, 0.0, 0.0, 1.0],
];
/// easing handles from a table, every property
fn ease_table() {
    let slot = vs::choice("slot", SLOTS.len());
    let n = vs::choice("n", 2) + 1;
    let t = TIMES[n];
    let mut k = keys(slot, t, 0);
    let e = vs::choice("ease", EASES.len());
    for (i, k) in k.iter_mut().enumerate() {
        k.ease = Some(EASES[(e + 3 * i) % EASES.len()]);
    }
    run(slot, k);
}
/// handles written as numbers, as lists of one, or as lists of one per component; of scalars also
/// with one side left out
fn ease_forms() {
    set_eased(None);
    let slot = vs::choice("slot", SLOTS.len());
    let c = SLOTS[slot].1;
    let mut k = keys(slot, TIMES[2], vs::choice("holds", 3));
    let e = [1, 4, 6][vs::choice("ease", 3)];
    for (i, k) in k.iter_mut().enumerate() {
        k.ease = Some(EASES[(e + 3 * i) % EASES.len()]);
    }
    let form = vs::choice("form", 3);
    // which sides the first two keyframes lack
    let lack = if c == 1 { [0, 1, 2, 3, 4, 8, 6, 9][vs::choice("lack", 8)] } else { 0 };
    for (i, k) in k.iter_mut().enumerate().take(2) {
        let Some(e) = &mut k.ease else { unreachable!() };
        if lack >> (2 * i) & 1 == 1 {
            [e[0], e[1]] = [0.0, 0.0];
        }
        if lack >> (2 * i) & 2 == 2 {
            [e[2], e[3]] = [1.0, 1.0];
        }
    }
    let f = frame(&k);
    let times: Vec<f64> = k.iter().map(|k| k.t).collect();
    let d = place(slot, Prop::A(k));
    let want = reference(&d, f, ID, 1.0);
    let mut j = d.json();
    fn each(j: &mut J, f: &mut impl FnMut(&mut serde_json::Map<String, J>)) {
        match j {
            J::Object(m) => {
                if m.contains_key("t") && m.contains_key("s") {
                    f(m);
                }
                m.values_mut().for_each(|v| each(v, f));
            }
            J::Array(a) => a.iter_mut().for_each(|v| each(v, f)),
            _ => {}
        }
    }
    each(&mut j, &mut |m| {
        let Some(i) = times.iter().position(|t| m["t"].as_f64() == Some(*t)) else { return };
        if i < 2 && lack >> (2 * i) & 1 == 1 {
            m.remove("o");
        }
        if i < 2 && lack >> (2 * i) & 2 == 2 {
            m.remove("i");
        }
        for side in ["o", "i"] {
            if let Some(J::Object(h)) = m.get_mut(side) {
                for v in h.values_mut() {
                    *v = match form {
                        0 => v.clone(),
                        1 => J::Array(vec![v.clone()]),
                        _ => J::Array(vec![v.clone(); c]),
                    };
                }
            }
        }
    });
    vs::cover(["numbers", "lists of one", "lists of each"][form]);
    crate::rec::same(&crate::h_basic::render(j, f, ID, 1.0), &want, &crate::rec::TOL);
}
/// symbolic vertical handle positions
fn ease_free() {
    let slot = vs::choice("slot", 3);
    let mut k = keys(slot, &[0.0, 10.0, 30.0], 0);
    let hx = [[0.0, 1.0], [0.25, 0.75], [0.5, 0.5], [0.1, 0.9], [0.75, 0.25]];
    for k in k.iter_mut() {
        let x = hx[vs::choice("hx", hx.len())];
        k.ease = Some([x[0], vs::num("oy", -1.0, 2.0, 4), x[1], vs::num("iy", -1.0, 2.0, 4)]);
    }
    run(slot, k);
}
/// a property animated between equal keyframes renders like the static value
fn constant() {
    set_eased(None);
    let slot = vs::choice("slot", SLOTS.len());
    let (_, c, lo, hi) = SLOTS[slot];
    let v: Vec<f64> = (0..c).map(|i| vs::num(["v0", "v1", "v2"][i], lo, hi, 3)).collect();
    let n = 1 + vs::choice("n", 3);
    let h = vs::choice("holds", 1 << n);
    let ease = [None, Some(EASES[3]), Some(EASES[6])][vs::choice("ease", 3)];
    let k: Vec<Kf> = (0..n).map(|i| Kf { t: i as f64 * 10.0, v: v.clone(), hold: h >> i & 1 == 1, ease }).collect();
    let f = frame(&k);
    let want = crate::h_basic::render(place(slot, Prop::S(v)).json(), f, ID, 1.0);
    let got = crate::h_basic::render(place(slot, Prop::A(k)).json(), f, ID, 1.0);
    crate::rec::same(&got, &want, &crate::rec::TOL);
}
/// further places: rotations, radii, trims, stars, gradient stops, paths and masks
const PLACES: [(&str, usize, f64, f64); 24] = [
    ("layer rotation", 1, -400.0, 400.0),
    ("layer skew", 1, -60.0, 60.0),
    ("layer skew axis", 1, -180.0, 180.0),
    ("group rotation", 1, -400.0, 400.0),
    ("group skew", 1, -60.0, 60.0),
    ("group skew axis", 1, -180.0, 180.0),
    ("rect radius", 1, 0.5, 3.5),
    ("ellipse size", 2, 1.0, 50.0),
    ("star position", 2, -50.0, 50.0),
    ("star outer radius", 1, 1.0, 50.0),
    ("star outer roundness", 1, -100.0, 100.0),
    ("star inner radius", 1, 1.0, 50.0),
    ("star inner roundness", 1, -100.0, 100.0),
    ("star points", 1, 0.0, 5.0),
    ("star rotation", 1, -400.0, 400.0),
    ("trim start", 1, 0.0, 100.0),
    ("trim end", 1, 0.0, 100.0),
    ("trim offset", 1, -300.0, 300.0),
    ("gradient opacity", 1, 0.0, 100.0),
    ("gradient stroke width", 1, 0.0, 50.0),
    ("gradient stroke opacity", 1, 0.0, 100.0),
    ("stroke opacity", 1, 0.0, 100.0),
    ("instance opacity", 1, 0.0, 100.0),
    ("instance anchor", 2, -50.0, 50.0),
];
fn place_more(slot: usize, p: Prop) -> Doc {
    let z = || s2(0.0, 0.0);
    let (mut tf, mut gt) = (Tf { sk: Some(s1(15.0)), ..tf0() }, Tf { sk: Some(s1(10.0)), ..tf0() });
    let mut star = [s2(1.0, 2.0), s1(10.0), s1(0.0), s1(4.0), s1(0.0), s1(3.0), s1(0.0)];
    let mut trim = [s1(10.0), s1(60.0), s1(30.0)];
    let (mut rr, mut es, mut go, mut gw, mut so, mut sto) = (s1(1.0), s2(4.0, 6.0), s1(50.0), s1(2.0), s1(50.0), s1(75.0));
    let mut it = tf0();
    match slot {
        0 => tf.r = Some(p),
        1 => tf.sk = Some(p),
        2 => tf.sa = Some(p),
        3 => gt.r = Some(p),
        4 => gt.sk = Some(p),
        5 => gt.sa = Some(p),
        6 => rr = p,
        7 => es = p,
        8..=14 => star[slot - 8] = p,
        15..=17 => trim[slot - 15] = p,
        18 => go = p,
        19 => gw = p,
        20 => so = p,
        21 => sto = p,
        22 => it.o = Some(p),
        _ => it.a = Some(p),
    }
    let g = || Grad { t: Some(2), s: z(), e: s2(9.0, 0.0), count: 2, k: Prop::S(vec![0.0, 1.0, 0.0, 0.0, 1.0, 0.0, 0.0, 1.0]), stops: opaque_stops };
    let geo = |r: std::ops::RangeInclusive<usize>, s: Sh| if r.contains(&slot) { vec![s] } else { vec![] };
    let [a, b, c, d, e, n, r] = star;
    let [ts, te, to] = trim;
    let line = |w| Line { w, lc: None, lj: None, ml: None };
    let shapes = [
        vec![Sh::Path(PathProp::S(Bez::poly(&[[0.0, 0.0], [45.0, 0.0]], false)))],
        geo(6..=6, Sh::Rect { p: z(), s: s2(10.0, 12.0), r: rr }),
        geo(7..=7, Sh::Ell { p: z(), s: es }),
        geo(8..=14, Sh::Star { sy: 1, p: a, or: b, os: c, ir: Some(d), is: Some(e), pt: n, r }),
        geo(15..=17, Sh::Trim { s: ts, e: te, o: to }),
        vec![
            Sh::GFill { g: g(), o: go },
            Sh::GStroke { g: g(), o: so, l: line(gw) },
            Sh::Stroke { c: s3(0.5, 0.25, 0.125), o: sto, l: line(s1(3.0)) },
        ],
    ]
    .concat();
    let l = Ly { ks: tf, ..layer(vec![Sh::Group { it: shapes, tf: Some(gt) }]) };
    if slot > 21 {
        let mut d = doc(vec![Ly { ks: it, ..inst("a") }]);
        d.assets = vec![("a".into(), vec![l])];
        return d;
    }
    doc(vec![l])
}
fn same_at(still: &Doc, moving: &Doc, f: f64) {
    let want = crate::h_basic::render(still.json(), f, ID, 1.0);
    let got = crate::h_basic::render(moving.json(), f, ID, 1.0);
    crate::rec::same(&got, &want, &crate::rec::TOL);
}
fn constant_more() {
    let slot = vs::choice("slot", PLACES.len());
    let (_, c, lo, hi) = PLACES[slot];
    let v: Vec<f64> = (0..c).map(|i| vs::num(["v0", "v1"][i], lo, hi, 3)).collect();
    let n = 1 + vs::choice("n", 3);
    let h = vs::choice("holds", 1 << n);
    let k: Vec<Kf> = (0..n).map(|i| Kf { hold: h >> i & 1 == 1, ..kf(i as f64 * 10.0, &v) }).collect();
    let f = if vs::flag("between") { [2.5, 5.0, 17.5][vs::choice("f", 3)] } else { [-5.0, 0.0, 10.0, 20.0, 33.0][vs::choice("f", 5)] };
    same_at(&place_more(slot, Prop::S(v.clone())), &place_more(slot, Prop::A(k)), f);
}
/// lists of stops of any length, whatever the declared number of stops
fn constant_stops() {
    let n = vs::choice("numbers", 15);
    let count = vs::choice("count", 5);
    let offset = |i: usize| if i < 4 * count { i % 4 == 0 } else { i % 2 == 0 };
    let k: Vec<f64> = (0..n).map(|i| if offset(i) { i as f64 / 16.0 } else { vs::num("v", 0.0, 1.0, 3) }).collect();
    let m = 1 + vs::choice("n", 2);
    let h = vs::choice("holds", 1 << m);
    let at = |k| {
        let g = Grad { t: Some(1), s: s2(0.0, 0.0), e: s2(9.0, 0.0), count, k, stops: opaque_stops };
        doc(vec![layer(vec![tri(1.0, 2.0, 3.0), Sh::GFill { g, o: s1(100.0) }])])
    };
    let a: Vec<Kf> = (0..m).map(|i| Kf { hold: h >> i & 1 == 1, ..kf(i as f64 * 10.0, &k) }).collect();
    same_at(&at(Prop::S(k)), &at(Prop::A(a)), [-5.0, 0.0, 2.5, 5.0, 10.0, 33.0][vs::choice("f", 6)]);
}
/// paths and masks, with and without explicit ends and a last keyframe without a shape
fn constant_paths() {
    let c = |s: &str| vs::num(s, -50.0, 50.0, 3);
    let n = vs::choice("vertices", 3);
    let p = |k: &str| (0..n).map(|_| [c(k), c(k)]).collect::<Vec<_>>();
    let b = Bez { closed: vs::flag("closed"), v: p("v"), i: p("i"), o: p("o") };
    let m = 1 + vs::choice("n", 3);
    let (h, e) = ([0, 1, 6][vs::choice("holds", 3)], [0, 2, 7][vs::choice("ends", 3)]);
    let drop = m > 1 && vs::flag("drop");
    let a: Vec<BezKf> = (0..m)
        .map(|i| BezKf { t: i as f64 * 10.0, hold: h >> i & 1 == 1, s: if drop && i + 1 == m { None } else { Some(b.clone()) }, e: if e >> i & 1 == 1 { Some(b.clone()) } else { None } })
        .collect();
    let mask = vs::flag("mask");
    let at = |p| {
        if mask {
            doc(vec![Ly { masks: vec![p], ..layer(vec![tri(1.0, 2.0, 3.0), fill(0.5, 0.0, 0.0)]) }])
        } else {
            doc(vec![layer(vec![Sh::Path(p), fill(0.5, 0.0, 0.0)])])
        }
    };
    same_at(&at(PathProp::S(b)), &at(PathProp::A(a)), [-5.0, 2.5, 10.0, 33.0][vs::choice("f", 4)]);
}
/// a static property renders the same at any two frames
fn still() {
    set_eased(None);
    let slot = vs::choice("slot", SLOTS.len());
    let (_, c, lo, hi) = SLOTS[slot];
    let v: Vec<f64> = (0..c).map(|i| vs::num(["v0", "v1", "v2"][i], lo, hi, 3)).collect();
    let (f, g) = (vs::num("f", -900.0, 900.0, 4), vs::num("g", -900.0, 900.0, 4));
    let d = place(slot, Prop::S(v));
    let got = crate::h_basic::render(d.json(), f, ID, 1.0);
    let want = crate::h_basic::render(d.json(), g, ID, 1.0);
    crate::rec::same(&got, &want, &crate::rec::TOL);
}
crate::entries! {
    c03_timeline => timeline;
    c03_times => times;
    c04_table => ease_table;
    c04_free => ease_free;
    c04_forms => ease_forms;
    c21_constant => constant;
    c21_still => still;
    c21_places => constant_more;
    c21_stops => constant_stops;
    c21_paths => constant_paths;
}
