//! The public model: what a composition that was built says about its document, and values that
//! mean the same however they are represented.
use crate::doc::*;
use crate::h_basic::render;
use crate::rec::*;
use crate::vs;
use kurbo::{Point, Size, Vec2};
use peniko::{BlendMode, Color, Compose, Mix};
use serde_json::{Value as J, json};
use velato::Composition;
use velato::model::{self, Content, Geometry, Layer, Shape, Value, animated};

fn import(j: J) -> Option<Composition> {
    let c = Composition::from_json(j).ok();
    vs::check(c.is_some(), "import failed");
    c
}
/// one layer of any kind among others, at the top or in one of two assets
fn placed(l: Ly) -> Option<Layer> {
    let before = vs::choice("before", 2);
    put(l, before, vs::choice("place", 3))
}
fn put(l: Ly, before: usize, place: usize) -> Option<Layer> {
    let other = |k: usize| Ly { nm: Some("other".into()), ip: 7.0, op: 9.0, st: 2.0, sr: Some(4.0), ..layer(vec![tri(1.0, 2.0, 3.0 + k as f64)]) };
    let mut v: Vec<Ly> = (0..before).map(other).collect();
    v.push(l);
    v.push(other(9));
    let n = v.len();
    let mut d = doc(vec![]);
    d.assets = vec![("a".into(), vec![other(3)]), ("b".into(), vec![other(4), other(5)])];
    match place {
        0 => d.layers = v,
        k => d.assets[k - 1].1 = v,
    }
    let mut c = import(d.json())?;
    let list = match place {
        0 => &mut c.layers,
        k => c.assets.get_mut(["a", "b"][k - 1])?,
    };
    vs::check(list.len() == n, "number of layers");
    for (i, x) in list.iter().enumerate() {
        if i != before {
            vs::check(x.name == "other" && x.frames == (7.0..9.0) && x.start_frame == 2.0 && x.stretch == 4.0 && x.blend_mode.is_none() && x.masks.is_empty(), "another layer");
        }
    }
    vs::check(list.len() == n && c.assets.len() == 2, "lists of layers");
    let list = if place == 0 { c.layers } else { c.assets.remove(["a", "b"][place - 1])? };
    list.into_iter().nth(before)
}
fn any_kind() -> Ly {
    Ly { ty: [4, 0, 3, 1, 2][vs::choice("kind", 5)], refid: "b".into(), ..layer(vec![tri(1.0, 2.0, 3.0)]) }
}
/// name, range, stretch, start and size
fn fields() {
    let mut l = any_kind();
    l.nm = [None, Some("".into()), Some("it".into())][vs::choice("nm", 3)].clone();
    l.ip = vs::num("ip", -100.0, 100.0, 3);
    l.op = vs::num("op", -100.0, 100.0, 3);
    l.st = vs::num("st", -100.0, 100.0, 3);
    l.sr = if vs::flag("sr") { Some(vs::num("stretch", 0.125, 8.0, 3)) } else { None };
    l.hd = [None, Some(true), Some(false)][vs::choice("hd", 3)];
    let Some(m) = placed(l.clone()) else { return vs::check(false, "no layer") };
    vs::check(m.name == l.nm.unwrap_or_default(), "name");
    vs::close(m.frames.start, l.ip, 0.0, "in point", 0);
    vs::close(m.frames.end, l.op, 0.0, "out point", 0);
    vs::close(m.start_frame, l.st, 0.0, "start", 0);
    vs::close(m.stretch, l.sr.unwrap_or(1.0), 0.0, "stretch", 0);
    if l.ty == 0 {
        vs::check(m.width == 64.0 && m.height == 48.0, "size of an instance");
    }
    vs::check(m.parent.is_none() && m.mask_layer.is_none() && !m.is_mask, "links");
    let hidden = l.hd == Some(true);
    match &m.content {
        Content::None => vs::check(hidden || !matches!(l.ty, 0 | 4), "content lost"),
        Content::Instance { name, time_remap } => vs::check(!hidden && l.ty == 0 && name == "b" && time_remap.is_none(), "instance"),
        Content::Shape(v) => vs::check(!hidden && l.ty == 4 && v.len() == 1, "shapes"),
    }
}
/// layers that leave their start out, which all but instances may
fn no_start() {
    let mut l = any_kind();
    vs::assume(l.ty != 0);
    l.st = vs::num("st", 1.0, 9.0, 1);
    l.nm = Some("it".into());
    let mut j = doc(vec![l]).json();
    let m = j["layers"][0].as_object_mut().unwrap();
    m.remove("st");
    if vs::flag("time") {
        m.insert("bm".into(), json!(0));
    }
    let Some(c) = import(j) else { return };
    vs::check(c.layers[0].start_frame == 0.0 && c.layers[0].stretch == 1.0 && c.layers[0].name == "it", "start left out");
}
fn modes() {
    let mut l = any_kind();
    let bm = vs::choice("bm", 19);
    if bm < 18 {
        l.extra = vec![("bm".into(), json!(bm))];
    }
    l.hd = [None, Some(true)][vs::choice("hd", 2)];
    let Some(m) = placed(l) else { return vs::check(false, "no layer") };
    let mix = |m: Mix| Some(BlendMode::from(m));
    let want = match bm {
        1 => mix(Mix::Multiply),
        2 => mix(Mix::Screen),
        3 => mix(Mix::Overlay),
        4 => mix(Mix::Darken),
        5 => mix(Mix::Lighten),
        6 => mix(Mix::ColorDodge),
        7 => mix(Mix::ColorBurn),
        8 => mix(Mix::HardLight),
        9 => mix(Mix::SoftLight),
        10 => mix(Mix::Difference),
        11 => mix(Mix::Exclusion),
        12 => mix(Mix::Hue),
        13 => mix(Mix::Saturation),
        14 => mix(Mix::Color),
        15 => mix(Mix::Luminosity),
        16 => Some(BlendMode::from(Compose::Plus)),
        _ => None,
    };
    vs::check(m.blend_mode == want, "blend mode");
}
/// a scalar left out, given, or in keyframes; its value at a frame
fn scalar(name: &str, default: f64, f: f64) -> (Option<Prop>, f64) {
    match vs::choice(name, 4) {
        0 => (None, default),
        1 => {
            let x = vs::num("value", 0.0, 100.0, 2);
            (Some(s1(x)), x)
        }
        k => {
            let p = Prop::A(vec![Kf { hold: k == 3, ..kf(0.0, &[vs::num("value", 0.0, 100.0, 2)]) }, kf(8.0, &[vs::num("other", 0.0, 100.0, 2)])]);
            let x = p.one(f);
            (Some(p), x)
        }
    }
}
/// opacity of layers and masks, paths of masks, time remapping
fn curves() {
    let f = [-1.0, 0.0, 2.0, 4.0, 8.0, 9.0][vs::choice("f", 6)];
    let mut l = any_kind();
    match vs::choice("what", 3) {
        0 => {
            let (p, x) = scalar("o", 100.0, f);
            l.ks.o = p;
            let Some(m) = placed(l) else { return vs::check(false, "no layer") };
            vs::close(m.opacity.evaluate(f), x, 1e-6, "layer opacity", 0);
        }
        1 => {
            let (p, x) = scalar("mask", 100.0, f);
            let n = 1 + vs::choice("masks", 3);
            let at = vs::choice("at", n);
            let mode = (vs::choice("f", 6) + n + at) % 7;
            let shape = |i: usize| Bez::poly(&[[i as f64, 0.0], [9.0, 0.0], [0.0, 9.0]], true);
            let masks: Vec<J> = (0..n)
                .map(|i| {
                    let mut v = vec![("mode", json!(["a", "s", "n", "i", "f", "l", "d"][mode])), ("pt", PathProp::S(shape(i)).json())];
                    if i != at {
                        v.push(("o", s1(10.0 * i as f64).j1()));
                    } else if let Some(p) = &p {
                        v.push(("o", p.j1()));
                    }
                    obj(v)
                })
                .collect();
            l.extra = vec![("masksProperties".into(), J::Array(masks))];
            let Some(m) = put(l, 1, vs::choice("asset", 2)) else { return vs::check(false, "no layer") };
            vs::check(m.masks.len() == n, "number of masks");
            for (i, k) in m.masks.iter().enumerate() {
                vs::close(k.opacity.evaluate(f), if i == at { x } else { 10.0 * i as f64 }, 1e-6, "mask opacity", i);
                let mut path = vec![];
                k.geometry.evaluate(f, &mut path);
                cmp_path(&path.into_iter().map(el).collect(), &shape(i).path(), &TOL, "mask path", i);
            }
        }
        _ => {
            l.ty = 0;
            let (p, x) = scalar("tm", 0.0, f);
            if let Some(p) = &p {
                l.extra = vec![("tm".into(), p.j1())];
            }
            let Some(m) = placed(l) else { return vs::check(false, "no layer") };
            let Content::Instance { name, time_remap } = &m.content else { return vs::check(false, "instance lost") };
            vs::check(name == "b", "instance of another asset");
            vs::check(time_remap.is_some() == p.is_some(), "time remapping lost or made up");
            if let Some(t) = time_remap {
                vs::close(t.evaluate(f), x, 1e-6, "time remapping", 0);
            }
        }
    }
}
/// what refers to what: positions in the list of parents, matte sources and their marks
fn links() {
    let n = 3;
    let order: [usize; 3] = [[1, 2, 3], [3, 1, 2], [10, 4, 7]][vs::choice("ids", 3)];
    let pick = |name: &str| match vs::choice(name, 5) {
        0 => None,
        4 => Some(99),
        k => Some(order[k - 1]),
    };
    let mut v: Vec<Ly> = (0..n).map(|i| Ly { ind: Some(order[i]), ty: [4, 3, 0][i], refid: "a".into(), ..layer(vec![tri(1.0, 2.0, 3.0)]) }).collect();
    let at = vs::choice("at", n);
    v[at].parent = pick("parent");
    let other = (at + 1) % n;
    v[other].parent = pick("other parent");
    if let Some(k) = v.iter().position(|x| x.ty == 3) {
        v[k].hd = Some(false);
    }
    v[0].td = [None, Some(1)][vs::choice("td", 2)];
    v[0].hd = [None, Some(true)][vs::choice("hidden", 2)];
    v[2].tt = [None, Some(1), Some(2)][vs::choice("tt", 3)];
    v[2].tp = if v[2].tt.is_some() { pick("tp") } else { None };
    let mut d = doc(v.clone());
    let asset = vs::flag("asset");
    if asset {
        d.layers = vec![inst("a")];
        d.assets = vec![("a".into(), v.clone())];
    }
    let Some(c) = import(d.json()) else { return };
    let list = if asset { &c.assets["a"] } else { &c.layers };
    let index = |id: Option<usize>| id.and_then(|x| order.iter().position(|o| *o == x));
    for i in 0..n {
        vs::check(list[i].parent == index(v[i].parent), "parent");
        vs::check(list[i].is_mask == (i == 0 && v[0].td == Some(1) && v[0].hd != Some(true)), "matte mark");
        let want = if i == 2 && v[2].tt.is_some() {
            let mode = BlendMode::from(if v[2].tt == Some(1) { Compose::SrcIn } else { Compose::SrcOut });
            let source = if v[2].tp.is_some() { index(v[2].tp) } else if list[0].is_mask { Some(0) } else { None };
            source.map(|s| (mode, s))
        } else {
            None
        };
        vs::check(list[i].mask_layer == want, "matte");
    }
}
/// which assets there are, and which layers each has
fn assets() {
    let n = vs::choice("n", 4);
    let names = ["a", "b", "img"];
    let mut list = vec![];
    let mut want: Vec<(&str, usize)> = vec![];
    for i in 0..n {
        let id = names[vs::choice("id", 3)];
        let len = vs::choice("layers", 3);
        if vs::flag("image") {
            list.push(json!({"id": format!("picture {i}"), "w": 4, "h": 4, "p": "x.png"}));
            continue;
        }
        let l: Vec<J> = (0..len).map(|k| layer(vec![tri(1.0, 2.0, 3.0)]).named(&format!("{i} {k}")).json()).collect();
        list.push(json!({"id": id, "layers": l}));
        want.retain(|w| w.0 != id);
        want.push((id, i * 8 + len));
    }
    let mut j = doc(vec![layer(vec![]).named("top")]).json();
    if n > 0 || vs::flag("empty list") {
        j["assets"] = J::Array(list);
    }
    let Some(c) = import(j) else { return };
    vs::check(c.layers.len() == 1 && c.layers[0].name == "top", "top layers");
    vs::check(c.assets.len() == want.len(), "number of assets");
    for (id, x) in want {
        let (i, len) = (x / 8, x % 8);
        let Some(a) = c.assets.get(id) else { return vs::check(false, "asset lost") };
        vs::check(a.len() == len, "number of layers of an asset");
        for (k, l) in a.iter().enumerate() {
            vs::check(l.name == format!("{i} {k}"), "layer of an asset");
        }
    }
}
/// the kinds of shapes of a layer, in order
fn contents() {
    let kinds = 9;
    let one = |name: &str, deep: usize| {
        let k = vs::choice(name, kinds);
        let o = s1(25.0);
        let c = s3(0.25, 0.5, 1.0);
        let g = || Grad { t: Some(1), s: s2(0.0, 0.0), e: s2(9.0, 0.0), count: 1, k: Prop::S(vec![0.0, 1.0, 0.5, 0.25]), stops: opaque_stops };
        let s = match k {
            0 => tri(1.0, 2.0, 3.0),
            1 => Sh::Rect { p: s2(1.0, 1.0), s: s2(4.0, 4.0), r: s1(0.0) },
            2 => Sh::Fill { c, o },
            3 => Sh::Stroke { c, o, l: line(2.0) },
            4 => Sh::GFill { g: g(), o },
            5 => Sh::GStroke { g: g(), o, l: line(2.0) },
            6 => Sh::Trim { s: s1(10.0), e: s1(60.0), o: s1(0.0) },
            7 => Sh::Group { it: vec![tri(1.0, 2.0, deep as f64)], tf: if vs::flag("moved") { Some(Tf { o: Some(s1(75.0)), ..tfp(3.0, 4.0) }) } else { None } },
            _ => Sh::Raw(json!({"ty": "rd", "r": {"a": 0, "k": 3}})),
        };
        (k, s)
    };
    let v: Vec<(usize, Sh)> = vec![one("first", 3), one("second", 4)];
    let nested = vs::flag("nested");
    // groups of nothing that velato draws may be left out
    vs::assume(!nested || v.iter().any(|x| x.0 != 8));
    let list: Vec<Sh> = v.iter().map(|x| x.1.clone()).collect();
    let l = layer(if nested { vec![Sh::Group { it: list, tf: None }] } else { list });
    let Some(m) = placed(l) else { return vs::check(false, "no layer") };
    let Content::Shape(got) = m.content else { return vs::check(false, "shapes lost") };
    let got = if nested {
        match got.into_iter().next() {
            Some(Shape::Group(it, _)) => it,
            _ => return vs::check(false, "group lost"),
        }
    } else {
        got
    };
    let want: Vec<usize> = v.iter().map(|x| x.0).filter(|k| *k != 8).collect();
    vs::check(got.len() == want.len(), "number of shapes");
    for (s, k) in got.iter().zip(want) {
        match (s, k) {
            (Shape::Geometry(g), 0 | 1) => {
                let mut p = vec![];
                g.evaluate(5.0, &mut p);
                vs::check(p.len() == if k == 0 { 5 } else { p.len() } && !p.is_empty(), "geometry");
            }
            (Shape::Draw(d), 2..=5) => {
                vs::check(d.stroke.is_some() == (k == 3 || k == 5), "stroke or fill");
                vs::close(d.opacity.evaluate(5.0), 25.0, 0.0, "paint opacity", 0);
                let solid = matches!(d.brush.evaluate(1.0, 5.0).into_owned(), peniko::Brush::Solid(_));
                vs::check(solid == (k < 4), "brush");
            }
            (Shape::Trim(t), 6) => {
                let t = t.evaluate(5.0).into_owned();
                vs::check(t.start == 10.0 && t.end == 60.0 && t.offset == 0.0, "trim");
            }
            (Shape::Group(it, _), 7) => vs::check(it.len() == 1, "group"),
            _ => vs::check(false, "kind of shape"),
        }
    }
}

// ---------------------------------------------------------------- representations

const FRAMES: [f64; 6] = [-1.0, 0.0, 2.0, 4.0, 8.0, 9.0];
/// a value that is fixed, constant in keyframes, or moving
fn part(which: usize, at: usize, kind: usize, v: &[f64], w: &[f64]) -> Prop {
    let s = Prop::S(v.to_vec());
    // the chosen part, or all but the chosen part
    if (kind < 3) != (which == at) {
        return s;
    }
    match kind % 3 {
        0 => Prop::A(vec![kf(0.0, v)]),
        1 => Prop::A(vec![kf(0.0, v), kf(8.0, w)]),
        _ => Prop::A(vec![hold(0.0, v), kf(8.0, w)]),
    }
}
struct Parts {
    at: usize,
    kind: usize,
    next: usize,
    moving: bool,
}
impl Parts {
    fn new(n: usize) -> Parts {
        // which part differs from the rest (n: none)
        Parts { at: vs::choice("part", n + 1), kind: vs::choice("how", 6), next: 0, moving: false }
    }
    fn p(&mut self, v: &[f64], w: &[f64]) -> Prop {
        let i = self.next;
        self.next += 1;
        let p = part(i, self.at, self.kind, v, w);
        self.moving |= matches!(p, Prop::A(_));
        p
    }
}
fn v1(p: &Prop) -> Value<f64> {
    model_value(p, |v| v[0])
}
fn vp(p: &Prop) -> Value<Point> {
    model_value(p, |v| Point::new(v[0], v[1]))
}
fn vv(p: &Prop) -> Value<Vec2> {
    model_value(p, |v| Vec2::new(v[0], v[1]))
}
fn vs2(p: &Prop) -> Value<Size> {
    model_value(p, |v| Size::new(v[0], v[1]))
}
fn frame() -> f64 {
    FRAMES[vs::choice("f", 6)]
}
fn transform() {
    let f = frame();
    let mut m = Parts::new(7);
    let (x, y) = (vs::num("x", -50.0, 50.0, 2), vs::num("y", -50.0, 50.0, 2));
    let a = m.p(&[x, 1.0], &[2.0, y]);
    let pos = m.p(&[3.0, y], &[x, 5.0]);
    let py = m.p(&[y], &[x]);
    let px = Prop::S(vec![x]);
    let split = vs::flag("split");
    vs::assume(split || m.at != 2);
    let s = m.p(&[50.0, x], &[y, 200.0]);
    let r = m.p(&[30.0], &[90.0]);
    let sk = m.p(&[15.0], &[-30.0]);
    let sa = m.p(&[45.0], &[10.0]);
    let parts = [&a, if split { &py } else { &pos }, &s, &r, &sk, &sa];
    let moving = parts.iter().any(|p| matches!(p, Prop::A(_)));
    let t = animated::Transform {
        anchor: vp(&a),
        position: if split { animated::Position::SplitValues((v1(&px), v1(&py))) } else { animated::Position::Value(vp(&pos)) },
        rotation: v1(&r),
        scale: vv(&s),
        skew: v1(&sk),
        skew_angle: v1(&sa),
    };
    let want = Tf { a: Some(a), p: if split { Pos::Split(px, py) } else { Pos::One(pos) }, s: Some(s), r: Some(r), sk: Some(sk), sa: Some(sa), o: None }.m(f);
    vs::check(t.is_fixed() != moving, "fixed transform");
    cmp_nums(&t.evaluate(f).as_coeffs(), &want, TOL.pos, "animated transform", 0);
    let t = t.into_model();
    vs::check(t.is_fixed() != moving, "fixed model transform");
    cmp_nums(&t.evaluate(f).as_ref().as_coeffs(), &want, TOL.pos, "model transform", 0);
    cmp_nums(&t.evaluate(f).into_owned().as_coeffs(), &want, TOL.pos, "owned model transform", 0);
}
fn stroke() {
    let f = frame();
    let mut m = Parts::new(1);
    let w = m.p(&[vs::num("x", 0.0, 50.0, 2)], &[vs::num("y", 0.0, 50.0, 2)]);
    let (lc, lj) = (vs::choice("cap", 3), vs::choice("join", 3));
    let ml = if vs::flag("limit") { Some(vs::num("ml", 1.0, 9.0, 1)) } else { None };
    let s = animated::Stroke {
        width: v1(&w),
        join: [kurbo::Join::Miter, kurbo::Join::Round, kurbo::Join::Bevel][lj],
        miter_limit: ml,
        cap: [kurbo::Cap::Butt, kurbo::Cap::Round, kurbo::Cap::Square][lc],
    };
    let cap = lc as u8 + 1;
    let want = Some(St { width: w.one(f), miter: ml, join: lj as u8 + 1, caps: (cap, cap), dashes: 0 });
    vs::check(s.is_fixed() != m.moving, "fixed stroke");
    cmp_stroke(&Some(stroke_of(&s.evaluate(f))), &want, &TOL, 0);
    let s = s.into_model();
    vs::check(s.is_fixed() != m.moving, "fixed model stroke");
    cmp_stroke(&Some(stroke_of(s.evaluate(f).as_ref())), &want, &TOL, 1);
}
fn trim() {
    let f = frame();
    let mut m = Parts::new(3);
    let (x, y) = (vs::num("x", 0.0, 100.0, 2), vs::num("y", -360.0, 360.0, 2));
    let (s, e, o) = (m.p(&[x], &[5.0]), m.p(&[90.0], &[x]), m.p(&[y], &[10.0]));
    let t = animated::Trim { start: v1(&s), end: v1(&e), offset: v1(&o) };
    vs::check(t.is_fixed() != m.moving, "fixed trim");
    let t0 = t.evaluate(f);
    let t = t.into_model();
    vs::check(t.is_fixed() != m.moving, "fixed model trim");
    let t1 = t.evaluate(f).into_owned();
    let want = [s.one(f), e.one(f), o.one(f)];
    cmp_nums(&[t0.start, t0.end, t0.offset], &want, TOL.pos, "animated trim", 0);
    cmp_nums(&[t1.start, t1.end, t1.offset], &want, TOL.pos, "model trim", 0);
}
fn repeater() {
    let f = frame();
    let mut m = Parts::new(8);
    let (x, y) = (vs::num("x", -50.0, 50.0, 2), vs::num("y", 0.0, 50.0, 2));
    let n = m.p(&[3.0], &[7.0]);
    let off = m.p(&[x], &[1.0]);
    let a = m.p(&[x, 1.0], &[2.0, y]);
    let p = m.p(&[3.0, y], &[x, 5.0]);
    let r = m.p(&[y], &[x]);
    let s = m.p(&[50.0, y], &[y, 200.0]);
    let so = m.p(&[y], &[70.0]);
    let eo = m.p(&[20.0], &[y]);
    let t = animated::Repeater {
        copies: v1(&n),
        offset: v1(&off),
        anchor_point: vp(&a),
        position: vp(&p),
        rotation: v1(&r),
        scale: vv(&s),
        start_opacity: v1(&so),
        end_opacity: v1(&eo),
    };
    vs::check(t.is_fixed() != m.moving, "fixed repeater");
    let t0 = t.evaluate(f);
    let t = t.into_model();
    vs::check(t.is_fixed() != m.moving, "fixed model repeater");
    let t1 = t.evaluate(f).into_owned();
    let want = [vec![off.one(f)], a.at(f), p.at(f), vec![r.one(f)], s.at(f), vec![so.one(f), eo.one(f)]].concat();
    for t in [t0, t1] {
        vs::check(t.copies == n.one(f).round() as usize, "copies");
        let got = [t.offset, t.anchor_point.x, t.anchor_point.y, t.position.x, t.position.y, t.rotation, t.scale.x, t.scale.y, t.start_opacity, t.end_opacity];
        cmp_nums(&got, &want, TOL.pos, "repeater", 0);
    }
}
/// brushes, at any alpha
fn brush() {
    let f = frame();
    let alpha = if vs::flag("opaque") { 1.0 } else { vs::num("alpha", 0.0, 1.0, 4) };
    let (x, y) = (vs::num("x", 0.0, 1.0, 4), vs::num("y", 0.0, 1.0, 4));
    // colour values are in single precision; these are exact
    let colour = |p: &Prop, k: usize| p.at(f)[k] as f32 as f64;
    let (b, want, moving) = match vs::choice("brush", 3) {
        0 => {
            let mut m = Parts::new(1);
            let c = m.p(&[x, 0.25, y, 0.5], &[0.5, x, 0.75, y]);
            let b = animated::Brush::Solid(model_value(&c, |v| Color::new([v[0] as f32, v[1] as f32, v[2] as f32, v[3] as f32])));
            let want = Br::Solid([colour(&c, 0), colour(&c, 1), colour(&c, 2), c.at(f)[3] * alpha]);
            (b, want, m.moving)
        }
        k => {
            let mut m = Parts::new(3);
            let (u, v) = (vs::num("u", -50.0, 50.0, 2), vs::num("v", -50.0, 50.0, 2));
            let s = m.p(&[u, 1.0], &[3.0, 4.0]);
            let e = m.p(&[u, v], &[u, 40.0]);
            let c = m.p(&[0.0, x, 0.25, y, 0.5, 1.0, 0.5, x, 0.75, y], &[0.25, 0.5, x, 0.75, 1.0, 0.5, x, y, 0.25, 0.5]);
            let stops = match &c {
                Prop::S(v) => {
                    let mut o = peniko::ColorStops::new();
                    for c in v.chunks(5) {
                        o.push((c[0] as f32, Color::new([c[1] as f32, c[2] as f32, c[3] as f32, c[4] as f32])).into());
                    }
                    model::ColorStops::Fixed(o)
                }
                Prop::A(k) => model::ColorStops::Animated(animated::ColorStops {
                    frames: k.iter().map(|k| model::Time { frame: k.t, in_tangent: None, out_tangent: None, hold: k.hold }).collect(),
                    values: k.iter().map(|k| k.v.clone()).collect(),
                    count: 2,
                }),
            };
            vs::check(stops.is_fixed() == matches!(c, Prop::S(_)), "fixed stops");
            let b = animated::Brush::Gradient(animated::Gradient { is_radial: k == 2, start_point: vp(&s), end_point: vp(&e), stops });
            let stops: Vec<[f64; 5]> = c.at(f).chunks(5).map(|c| [c[0], c[1], c[2], c[3], c[4] * alpha]).collect();
            let (s, e) = (s.at(f), e.at(f));
            let want = if k == 2 {
                let c = [s[0], s[1]];
                Br::Radial { c, r: (e[0] - s[0]).hypot(e[1] - s[1]), c0: c, r0: 0.0, stops }
            } else {
                Br::Linear { pts: [s[0], s[1], e[0], e[1]], stops }
            };
            (b, want, m.moving)
        }
    };
    vs::check(b.is_fixed() != moving, "fixed brush");
    cmp_brush(&brush_of(&b.evaluate(alpha, f)), &want, &TOL, 0);
    let b = b.into_model();
    vs::check(b.is_fixed() != moving, "fixed model brush");
    cmp_brush(&brush_of(b.evaluate(alpha, f).as_ref()), &want, &TOL, 1);
    cmp_brush(&brush_of(&b.evaluate(alpha, f).into_owned()), &want, &TOL, 2);
}
/// geometry of every kind, added after what is there already
fn shape() {
    let f = frame();
    let (x, y) = (vs::num("x", -50.0, 50.0, 2), vs::num("y", 1.0, 50.0, 2));
    let (g, want, fixed) = match vs::choice("shape", 4) {
        0 => {
            let mut m = Parts::new(2);
            let (p, s) = (m.p(&[x, 1.0], &[3.0, x]), m.p(&[y, 4.0], &[8.0, y]));
            let r = s1(0.0);
            let g = animated::Rect { is_ccw: false, position: vp(&p), size: vs2(&s), corner_radius: v1(&r) };
            let fixed = g.is_fixed() != m.moving;
            (Geometry::Rect(g), Sh::Rect { p, s, r }, fixed)
        }
        1 => {
            let mut m = Parts::new(2);
            // never nearly a circle
            let (p, s) = (m.p(&[x, y], &[3.0, x]), m.p(&[2.0, 4.0], &[8.0, 60.0]));
            let g = animated::Ellipse { is_ccw: false, position: vp(&p), size: vs2(&s) };
            let fixed = g.is_fixed() != m.moving;
            (Geometry::Ellipse(g), Sh::Ell { p, s }, fixed)
        }
        2 => {
            let mut m = Parts::new(7);
            let sy = 1 + vs::choice("polygon", 2) as u8;
            let p = m.p(&[x, 1.0], &[3.0, x]);
            let ir = m.p(&[10.0], &[20.0]);
            let is = m.p(&[0.0], &[50.0]);
            let or = m.p(&[y], &[40.0]);
            let os = m.p(&[50.0], &[25.0]);
            let r = m.p(&[30.0], &[90.0]);
            let pt = m.p(&[3.0], &[7.0]);
            let g = animated::Star {
                is_polygon: sy == 2,
                direction: 1.0,
                position: vp(&p),
                inner_radius: v1(&ir),
                inner_roundness: v1(&is),
                outer_radius: v1(&or),
                outer_roundness: v1(&os),
                rotation: v1(&r),
                points: v1(&pt),
            };
            let fixed = g.is_fixed() != m.moving;
            let g = g.into_model();
            vs::check(matches!(g, Geometry::Fixed(_)) != m.moving, "fixed star");
            (g, Sh::Star { sy, p, or, os, r, pt, ir: Some(ir), is: Some(is) }, fixed)
        }
        _ => {
            let b = Bez::poly(&[[x, 1.0], [9.0, y], [0.0, 9.0]], true);
            let g = Geometry::Fixed(b.path().into_iter().map(pathel).collect());
            (g, Sh::Path(PathProp::S(b)), true)
        }
    };
    vs::check(fixed, "fixed geometry");
    let mut path = vec![kurbo::PathEl::MoveTo(Point::new(7.0, 8.0))];
    g.evaluate(f, &mut path);
    vs::check(matches!(path[0], kurbo::PathEl::MoveTo(p) if p == Point::new(7.0, 8.0)), "what was there before");
    path.remove(0);
    cmp_path(&path.into_iter().map(el).collect(), &geometry(&want, f).unwrap(), &TOL, "geometry", 0);
}
fn pathel(e: El) -> kurbo::PathEl {
    let p = |i: usize| Point::new(e.p[2 * i], e.p[2 * i + 1]);
    match e.k {
        'M' => kurbo::PathEl::MoveTo(p(0)),
        'L' => kurbo::PathEl::LineTo(p(0)),
        'C' => kurbo::PathEl::CurveTo(p(0), p(1), p(2)),
        _ => kurbo::PathEl::ClosePath,
    }
}
/// a built composition whose values are put differently is drawn as before
fn drawn() {
    let f = frame();
    let alpha = vs::num("alpha", 0.0, 1.0, 3);
    let (x, y) = (vs::num("x", -50.0, 50.0, 2), vs::num("y", 1.0, 50.0, 2));
    let o = s1(vs::num("o", 0.0, 100.0, 2));
    let paint = |s: Sh| vec![Sh::Group { it: vec![tri(x, 2.0, 3.0), s], tf: Some(Tf { o: Some(s1(50.0)), ..tfp(y, 1.0) }) }];
    let g = Grad { t: Some(1), s: s2(0.0, 0.0), e: s2(9.0, x), count: 1, k: Prop::S(vec![0.0, 1.0, 0.5, 0.25]), stops: opaque_stops };
    let d = doc(vec![Ly {
        ip: -100.0,
        ks: Tf { r: Some(s1(30.0)), o: Some(s1(50.0)), ..tfp(x, y) },
        ..layer(paint(match vs::choice("paint", 4) {
            0 => Sh::Fill { c: s3(0.25, 0.5, 1.0), o },
            1 => Sh::Stroke { c: s3(0.25, 0.5, 1.0), o, l: line(y) },
            2 => Sh::GFill { g, o },
            _ => Sh::GStroke { g, o, l: line(y) },
        }))
    }]);
    let Some(mut c) = import(d.json()) else { return };
    let at = vs::choice("part", 6);
    let n = vs::choice("keyframes", 3);
    // the same value in one or two keyframes, or in place of them
    fn constant<T: model::Tween>(v: T, n: usize) -> Value<T> {
        let time = |frame: f64| model::Time { frame, in_tangent: None, out_tangent: None, hold: false };
        match n {
            0 => Value::Fixed(v),
            1 => Value::Animated(model::Animated { times: vec![time(3.0)], values: vec![v] }),
            _ => Value::Animated(model::Animated { times: vec![time(0.0), time(8.0)], values: vec![v.clone(), v] }),
        }
    }
    let l = &mut c.layers[0];
    if at == 0 {
        l.opacity = constant(50.0, n);
        l.transform = model::Transform::Animated(animated::Transform {
            anchor: constant(Point::ORIGIN, n),
            position: animated::Position::SplitValues((constant(x, n), constant(y, n))),
            rotation: constant(30.0, n),
            scale: constant(Vec2::new(100.0, 100.0), n),
            skew: constant(0.0, n),
            skew_angle: constant(0.0, n),
        });
    }
    let Content::Shape(v) = &mut l.content else { return vs::check(false, "shapes lost") };
    let Some(Shape::Group(it, t)) = v.first_mut() else { return vs::check(false, "group lost") };
    if at == 1 {
        let Some(t) = t else { return vs::check(false, "transform lost") };
        t.opacity = constant(50.0, n);
    }
    if at == 2 {
        it[0] = Shape::Geometry(Geometry::Spline(animated::Spline {
            is_closed: true,
            times: vec![model::Time { frame: 3.0, in_tangent: None, out_tangent: None, hold: n == 1 }],
            values: vec![animated::SplineKeyframeValues {
                start: [[x, 2.0], [x + 3.0, 2.0], [x, 5.0]].iter().flat_map(|p| [Point::new(p[0], p[1]), Point::ORIGIN, Point::ORIGIN]).collect(),
                end: None,
            }],
        }));
    }
    let Some(Shape::Draw(p)) = it.get_mut(1) else { return vs::check(false, "paint lost") };
    match at {
        3 => {
            let b = p.brush.evaluate(1.0, 0.0).into_owned();
            p.brush = model::Brush::Animated(match b {
                peniko::Brush::Solid(c) => animated::Brush::Solid(constant(c, n)),
                peniko::Brush::Gradient(g) => animated::Brush::Gradient(animated::Gradient {
                    is_radial: false,
                    start_point: constant(Point::ORIGIN, n),
                    end_point: constant(Point::new(9.0, x), n),
                    stops: model::ColorStops::Fixed(g.stops),
                }),
                _ => return vs::check(false, "brush"),
            });
        }
        4 => {
            if let Some(s) = &mut p.stroke {
                let k = s.evaluate(0.0).into_owned();
                *s = model::Stroke::Animated(animated::Stroke { width: constant(y, n), join: k.join, miter_limit: Some(k.miter_limit), cap: k.start_cap });
            }
        }
        _ => {}
    }
    let want = render(d.json(), f, ID, alpha);
    let mut r = Rec::default();
    velato::Renderer::new().append(&c, f, kurbo::Affine::IDENTITY, alpha, &mut r);
    same(&r.ev, &want, &TOL);
}
crate::entries! {
    c25_fields => fields;
    c25_start => no_start;
    c25_modes => modes;
    c25_curves => curves;
    c25_links => links;
    c25_assets => assets;
    c25_contents => contents;
    c26_transform => transform;
    c26_stroke => stroke;
    c26_trim => trim;
    c26_repeater => repeater;
    c26_brush => brush;
    c26_shape => shape;
    c26_drawn => drawn;
}
