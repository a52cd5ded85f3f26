//! Documents nobody would write: import and rendering must still return (C01, C02).
use crate::doc::*;
use crate::rec::*;
use crate::vs;
use serde_json::{Value as J, json};

fn kfs() -> J {
    json!({"a": 1, "k": [
        {"t": 0, "s": [10, 20], "o": {"x": 0.25, "y": 0.5}, "i": {"x": [0.75, 0.5], "y": [0.5, 1]}},
        {"t": 10, "s": [30, 40], "h": 1},
        {"t": 20, "s": [50, 60]}]})
}
fn kf1() -> J {
    json!({"a": 1, "k": [{"t": 0, "s": [10], "o": {"x": [0.25], "y": [0.5]}, "i": {"x": 0.75, "y": 0.5}}, {"t": 10, "s": [30]}]})
}
fn bez() -> J {
    json!({"c": true, "v": [[0, 0], [10, 0], [10, 10]], "i": [[0, 0], [1, 1], [0, 0]], "o": [[0, 0], [1, -1], [0, 0]]})
}
pub fn lay(ty: u8, more: J) -> J {
    let mut l = json!({"ty": ty, "ip": 0, "op": 100, "st": 0, "ks": {"p": {"a": 0, "k": [1, 2]}}});
    for (k, v) in more.as_object().unwrap() {
        l.as_object_mut().unwrap().insert(k.clone(), v.clone());
    }
    l
}
pub fn file(layers: J, assets: J) -> J {
    json!({"v": "5.7.0", "fr": 30, "ip": 0, "op": 100, "w": 64, "h": 48, "layers": layers, "assets": assets})
}
/// the documents that get damaged, one per area
pub fn sample(k: usize) -> J {
    SAMPLE.store(k, std::sync::atomic::Ordering::Relaxed);
    match k {
        0 => file(
            json!([lay(4, json!({"nm": "a", "ind": 1, "parent": 2, "tt": 1, "tp": 3, "hd": false, "sr": 1, "bm": 1, "ddd": 0, "ao": 0,
                    "masksProperties": [{"mode": "a", "inv": false, "pt": {"a": 0, "k": bez()}, "o": {"a": 0, "k": 100}, "x": {"a": 0, "k": 0}}],
                    "shapes": [{"ty": "sh", "ks": {"a": 0, "k": bez()}}, {"ty": "fl", "c": {"a": 0, "k": [1, 0, 0]}, "o": {"a": 0, "k": 100}}]})),
                lay(3, json!({"ind": 2})),
                lay(1, json!({"ind": 3, "td": 1, "sw": 64, "sh": 48, "sc": "#ff0000"})),
                lay(2, json!({"ind": 4, "refId": "img"}))]),
            json!([{"id": "img", "w": 3, "h": 3, "p": "a.png", "u": "", "e": 0}]),
        ),
        1 => file(
            json!([lay(0, json!({"refId": "a", "w": 64, "h": 48, "sr": 2, "tm": {"a": 0, "k": 1}}))]),
            json!([{"id": "a", "nm": "first", "fr": 30, "layers": [lay(0, json!({"refId": "b", "w": 64, "h": 48, "ind": 1})), lay(3, json!({"ind": 2, "parent": 1}))]},
                {"id": "b", "layers": [lay(4, json!({"shapes": [{"ty": "el", "p": kfs(), "s": {"a": 0, "k": [5, 5]}}, {"ty": "fl", "c": {"a": 0, "k": [1, 0, 0]}, "o": {"a": 0, "k": 100}}]}))]}]),
        ),
        2 => file(
            json!([lay(4, json!({"ks": {"a": kfs(), "p": {"s": true, "x": kf1(), "y": {"a": 0, "k": 3}}, "s": kfs(), "r": kf1(), "o": kf1(), "sk": {"a": 0, "k": 5}, "sa": {"a": 0, "k": 7}},
                "shapes": [{"ty": "gr", "it": [{"ty": "rc", "p": {"a": 0, "k": [1, 1]}, "s": {"a": 0, "k": [4, 4]}, "r": {"a": 0, "k": 1}},
                    {"ty": "st", "c": {"a": 0, "k": [1, 0, 0]}, "o": {"a": 0, "k": 100}, "w": {"a": 0, "k": 2}, "lc": 2, "lj": 1, "ml": 4},
                    {"ty": "tr", "p": {"a": 0, "k": [1, 1]}, "r": {"x": {"a": 0, "k": 1}, "y": {"a": 0, "k": 1}, "z": {"a": 0, "k": 1}, "or": {"a": 0, "k": [0, 0, 0]}}}]}]}))]),
            json!([]),
        ),
        3 => file(
            json!([lay(4, json!({"shapes": [
                {"ty": "sh", "ks": {"a": 1, "k": [{"t": 0, "s": [bez()], "e": [bez()], "o": {"x": 0, "y": 0}, "i": {"x": [1], "y": [1]}}, {"t": 10, "s": [bez()]}, {"t": 20, "h": 1}]}},
                {"ty": "sr", "sy": 1, "d": 1, "p": {"a": 0, "k": [1, 1]}, "or": kf1(), "os": {"a": 0, "k": 10}, "r": {"a": 0, "k": 0}, "pt": {"a": 0, "k": 3}, "ir": {"a": 0, "k": 4}, "is": {"a": 0, "k": 10}},
                {"ty": "sr", "sy": 2, "p": {"a": 0, "k": [1, 1]}, "or": {"a": 0, "k": 3}, "os": {"a": 0, "k": 0}, "r": {"a": 0, "k": 0}, "pt": kf1()},
                {"ty": "tm", "s": {"a": 0, "k": 10}, "e": kf1(), "o": {"a": 0, "k": 30}, "m": 1},
                {"ty": "fl", "c": {"a": 0, "k": [1, 0, 0]}, "o": {"a": 0, "k": 100}}]}))]),
            json!([]),
        ),
        4 => file(
            json!([lay(4, json!({"shapes": [
                {"ty": "rc", "p": {"a": 0, "k": [1, 1]}, "s": {"a": 0, "k": [4, 4]}, "r": {"a": 0, "k": 1}},
                {"ty": "gf", "o": {"a": 0, "k": 100}, "r": 1, "g": {"p": 2, "k": {"a": 0, "k": [0, 1, 0, 0, 1, 0, 1, 0, 0, 1, 1, 0.5]}}, "s": {"a": 0, "k": [0, 0]}, "e": kfs(), "t": 2, "h": {"a": 0, "k": 0}, "a": {"a": 0, "k": 0}},
                {"ty": "gs", "o": kf1(), "w": kf1(), "lc": 1, "lj": 3, "ml": 4, "ml2": {"a": 0, "k": 4}, "d": [{"n": "d", "nm": "dash", "v": {"a": 0, "k": 3}}],
                    "g": {"p": 2, "k": {"a": 1, "k": [{"t": 0, "s": [0, 1, 0, 0, 1, 0, 1, 0], "o": {"x": 0, "y": 0}, "i": {"x": 1, "y": 1}}, {"t": 10, "s": [0, 1, 1, 0, 1, 1, 1, 0]}]}},
                    "s": {"a": 0, "k": [0, 0]}, "e": {"a": 0, "k": [9, 0]}, "t": 1}]}))]),
            json!([]),
        ),
        _ => {
            let z = json!({"a": 0, "k": 1});
            file(
                json!([lay(4, json!({"shapes": [
                    {"ty": "el", "p": {"a": 0, "k": [1, 1]}, "s": {"a": 0, "k": [4, 4]}},
                    {"ty": "rp", "c": z, "o": z, "m": 1, "tr": {"a": {"a": 0, "k": [0, 0]}, "p": {"a": 0, "k": [0, 0]}, "s": {"a": 0, "k": [100, 100]}, "r": z, "so": z, "eo": z}},
                    {"ty": "mm", "mm": 1}, {"ty": "rd", "r": z}, {"ty": "pb", "a": z}, {"ty": "op", "a": z, "lj": 1, "ml": z},
                    {"ty": "tw", "a": z, "p": {"a": 0, "k": [0, 0]}},
                    {"ty": "fl", "c": kfs(), "o": {"a": 0, "k": 100}, "bm": 0, "r": 1, "hd": false, "cl": "c", "ln": "l", "ix": 1}]}))]),
                json!([]),
            )
        }
    }
}
pub const SAMPLES: usize = 6;
/// the k-th value below `j`, of the first four items of lists
pub fn count(j: &J) -> usize {
    match j {
        J::Object(m) => m.values().map(|v| 1 + count(v)).sum(),
        J::Array(a) => a.iter().take(4).map(|v| 1 + count(v)).sum(),
        _ => 0,
    }
}
/// applies `f` to the parent of the k-th value, with the value's place in it
pub fn at_node(j: &mut J, mut k: usize, f: &mut dyn FnMut(&mut J, usize)) {
    let len = match j {
        J::Object(m) => m.len(),
        J::Array(a) => a.len().min(4),
        _ => 0,
    };
    for i in 0..len {
        if k == 0 {
            return f(j, i);
        }
        k -= 1;
        let c = match j {
            J::Object(m) => m.values_mut().nth(i).unwrap(),
            J::Array(a) => &mut a[i],
            _ => unreachable!(),
        };
        let below = count(c);
        if k < below {
            return at_node(c, k, f);
        }
        k -= below;
    }
}
/// any number within bounds; some where lengths of curves depend on it
fn value() -> f64 {
    if curves() {
        return [-7.0, 0.25, 1000.0][vs::choice("value of", 3)];
    }
    vs::num("value", -1024.0, 1024.0, 3)
}
static SAMPLE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn curves() -> bool {
    SAMPLE.load(std::sync::atomic::Ordering::Relaxed) == 3
}
/// any number within bounds, or a number at the edge of some type
pub fn number() -> J {
    match vs::choice("number", 7) {
        0 => n(value()),
        1 => huge(),
        2 => json!(5.0e-324),
        6 => n(if curves() { 1.0e30 } else { 1.0e308 }),
        3 => json!(u64::MAX),
        4 => json!(0),
        _ => json!(-1),
    }
}
/// the lengths of curves beyond this are not finite
fn huge() -> J {
    n(if curves() { -1.0e30 } else { -1.0e308 })
}
fn few() -> J {
    match vs::choice("number", 2) {
        0 => n(value()),
        _ => huge(),
    }
}
pub fn damage(j: &mut J) {
    let k = vs::choice("node", count(j));
    at_node(j, k, &mut |parent, i| {
        let how = vs::choice("how", 16);
        if how < 3 {
            match parent {
                J::Object(m) => {
                    let k = m.keys().nth(i).unwrap().clone();
                    let v = m.remove(&k).unwrap();
                    match how {
                        0 => {}
                        1 => {
                            m.insert("unknown".into(), v);
                        }
                        _ => {
                            m.insert(k, J::Array(vec![v]));
                        }
                    }
                }
                J::Array(a) => match how {
                    0 => {
                        a.remove(i);
                    }
                    1 => {
                        let v = a[i].clone();
                        a.insert(i, v);
                    }
                    _ => a.truncate(i),
                },
                _ => {}
            }
            return;
        }
        let x = match parent {
            J::Object(m) => m.values_mut().nth(i).unwrap(),
            J::Array(a) => &mut a[i],
            _ => unreachable!(),
        };
        let v = || n(value());
        *x = match how {
            3 => J::Null,
            4 => json!(true),
            5 => number(),
            6 => json!("a"),
            7 => json!([]),
            8 => json!([v()]),
            9 => json!([few(), 1, 1]),
            10 => json!({}),
            11 => json!([[v(), 1]]),
            12 => json!({"a": 0, "k": few()}),
            13 => json!({"a": 0, "k": [few(), 1]}),
            14 => {
                let (t0, t1) = [(-3.0, 7.0), (7.0, -3.0), (5.0, 5.0), (0.0, 5.0)][vs::choice("times", 4)];
                json!({"a": 1, "k": [{"t": t0, "s": [v()]}, {"t": t1, "s": [1, 2, 3], "h": 1}, {"t": 5, "s": []}]})
            }
            _ => json!({"a": 1, "k": []}),
        };
    });
}
fn imports() {
    let mut j = sample(vs::choice("sample", SAMPLES));
    damage(&mut j);
    if velato::Composition::from_json(j).is_ok() {
        vs::cover("damaged document imported");
    } else {
        vs::cover("damaged document refused");
    }
}
#[derive(Default)]
struct Depth {
    open: usize,
    most: usize,
    groups: usize,
    calls: usize,
}
/// counts only; numbers may be anything
impl velato::RenderSink for Depth {
    fn push_layer(&mut self, _: impl Into<peniko::BlendMode>, _: f32, _: kurbo::Affine, _: &impl kurbo::Shape) {
        self.open += 1;
        self.most = self.most.max(self.open);
    }
    fn push_clip_layer(&mut self, _: kurbo::Affine, _: &impl kurbo::Shape) {
        self.open += 1;
        self.most = self.most.max(self.open);
    }
    fn pop_layer(&mut self) {
        vs::check(self.open > 0, "pop without push");
        self.open -= 1;
    }
    fn draw(&mut self, _: Option<&velato::model::fixed::Stroke>, _: kurbo::Affine, _: &velato::model::fixed::Brush, s: &impl kurbo::Shape) {
        self.calls += s.path_elements(0.1).count();
    }
    fn begin_layer_group(&mut self, _: &str, _: usize) {
        self.groups += 1;
    }
    fn end_layer_group(&mut self) {
        vs::check(self.groups > 0, "end without begin");
        self.groups -= 1;
    }
}
fn drawn(j: J, f: f64) {
    if let Ok(c) = velato::Composition::from_json(j) {
        let mut d = Depth::default();
        velato::Renderer::new().append(&c, f, kurbo::Affine::IDENTITY, 1.0, &mut d);
        vs::check(d.open == 0 && d.groups == 0, "operations not closed");
        vs::cover("damaged document rendered");
    }
}
fn renders() {
    let mut j = sample(vs::choice("sample", SAMPLES));
    damage(&mut j);
    drawn(j, 5.0);
}
/// sound documents at any frame
fn frames() {
    let j = sample(vs::choice("sample", SAMPLES));
    let f = match vs::choice("frame", 6) {
        0 if !curves() => vs::num("f", -4096.0, 4096.0, 3),
        0 => [-3.0, 0.0, 4.0, 10.0, 11.0, 20.0, 30.0][vs::choice("f", 7)],
        1 => f64::MAX,
        2 => f64::MIN,
        3 => f64::MIN_POSITIVE,
        4 => -0.0,
        _ => 1.0e18,
    };
    drawn(j, f);
}
fn small(k: usize) -> Ly {
    Ly { ind: Some(k + 1), ..layer(vec![tri(1.0, 2.0, 3.0), fill(k as f64 / 8.0, 0.0, 0.0)]) }
}
fn at(name: &str, n: usize) -> Option<usize> {
    match vs::choice(name, n + 2) {
        0 => None,
        k => Some(if k > n { 99 } else { k }),
    }
}
/// any parent links, among three layers
fn parents() {
    let mut v: Vec<Ly> = (0..3).map(small).collect();
    for l in v.iter_mut() {
        l.parent = at("parent", 3);
        l.ks = tfp(vs::num("x", -10.0, 10.0, 2), 0.0);
    }
    drawn(doc(v).json(), 5.0);
}
/// any matte links
fn mattes() {
    let m = 2 + vs::choice("layers", 2);
    let mut v: Vec<Ly> = (0..m).map(small).collect();
    for l in v.iter_mut() {
        l.tp = at("source", m);
        l.td = [None, Some(1)][vs::choice("marked", 2)];
        if l.tp.is_some() || vs::flag("matted") {
            l.tt = Some(1);
        }
        if m == 2 {
            l.parent = at("parent", m);
        }
    }
    drawn(doc(v).json(), 5.0);
}
/// any references among two assets of two layers, mattes included
fn instances() {
    let id = |n: &str| ["a", "b", "none"][vs::choice(n, 3)];
    let mut a: Vec<Vec<Ly>> = vec![];
    for _ in 0..2 {
        let mut l = vec![inst(id("ref")), inst(id("ref"))];
        for (k, l) in l.iter_mut().enumerate() {
            l.ind = Some(k + 1);
            match vs::choice("kind", 3) {
                0 => {}
                1 => {
                    l.ty = 4;
                    l.shapes = vec![tri(1.0, 2.0, 3.0), fill(0.5, 0.0, 0.0)];
                }
                _ => {
                    l.tt = Some(1);
                    l.tp = Some(2 - k);
                }
            }
        }
        a.push(l);
    }
    let b = a.pop().unwrap();
    let mut d = doc(vec![Ly { st: vs::num("st", -2.0, 2.0, 1), ..inst(id("ref")) }]);
    d.assets = vec![("a".into(), a.pop().unwrap()), ("b".into(), b)];
    drawn(d.json(), 5.0);
}
/// a property whose keyframes are in any order, at any times, with any handles
fn keyframes() {
    let mut k = vec![];
    let vary = vs::flag("values or handles");
    // handles matter alike at all places
    let place = if vary { vs::choice("place", 6) } else { [0, 3][vs::choice("place", 2)] };
    // how many arcs a corner takes depends on its radius in a way the engine does not decide
    let value = || n(if place == 1 || place == 2 { [-3.0, 4.0][vs::choice("s", 2)] } else { vs::num("s", -50.0, 50.0, 2) });
    let len = vs::choice("count", 4);
    for i in 0..len {
        let mut o = vec![("t", n(vs::num("t", -20.0, 20.0, 1)))];
        match if vary { vs::choice("value", 3) } else { 0 } {
            0 => o.push(("s", json!([value(), 7]))),
            1 => o.push(("s", json!([]))),
            _ => o.push(("s", json!([value()]))),
        }
        if i < 2 && !vary {
            let h = |c: &str| match vs::choice(c, 4) {
                0 => json!(0.5),
                1 => json!([]),
                2 => json!([0.5, 0.25]),
                _ => json!([2, -3, 0.5, 7]),
            };
            let full = |c: &str| obj(vec![("x", json!(0.5)), ("y", [json!([0.5, 1, 2]), json!(1)][vs::choice(c, 2)].clone())]);
            match vs::choice("handles", 3) {
                0 => {}
                1 => o.push(("o", full("y"))),
                _ if i == 0 => {
                    o.push(("o", obj(vec![("x", h("ox")), ("y", h("oy"))])));
                    o.push(("i", full("y")));
                }
                _ => {
                    o.push(("o", full("y")));
                    o.push(("i", full("y")));
                }
            }
        }
        k.push(obj(o));
    }
    let p = json!({"a": 1, "k": k});
    let s = match place {
        0 => json!([{"ty": "el", "p": p, "s": {"a": 0, "k": [5, 5]}}]),
        1 => json!([{"ty": "rc", "p": {"a": 0, "k": [5, 5]}, "s": p, "r": {"a": 0, "k": 2}}]),
        2 => json!([{"ty": "rc", "p": {"a": 0, "k": [5, 5]}, "s": {"a": 0, "k": [5, 5]}, "r": p}]),
        3 => json!([{"ty": "gf", "o": {"a": 0, "k": 100}, "g": {"p": 1, "k": p}, "s": {"a": 0, "k": [0, 0]}, "e": {"a": 0, "k": [1, 0]}, "t": 1}]),
        4 => json!([{"ty": "fl", "c": p, "o": {"a": 0, "k": 100}}]),
        _ => json!([{"ty": "sr", "sy": 1, "p": {"a": 0, "k": [1, 1]}, "or": {"a": 0, "k": 3}, "os": {"a": 0, "k": 0}, "r": {"a": 0, "k": 0}, "pt": {"a": 0, "k": 3}, "ir": p}]),
    };
    drawn(file(json!([lay(4, json!({"shapes": s}))]), json!([])), 5.0);
}
/// one construct each, as small as they get
fn construct(k: usize) -> (J, usize) {
    let z = || json!({"a": 0, "k": 1});
    let two = || json!({"a": 0, "k": [1, 2]});
    // 0: a shape, 1: fields of a layer, 2: assets, 3: fields of the file
    match k {
        0 => (json!({"ty": "sh", "ks": {"a": 0, "k": {"c": true, "v": [[0, 0], [10, 0]], "i": [[0, 0], [1, 1]], "o": [[0, 0], [1, 1]]}}}), 0),
        1 => {
            let b = json!({"c": true, "v": [[0, 0]], "i": [[0, 0]], "o": [[0, 0]]});
            (json!({"ty": "sh", "ks": {"a": 1, "k": [{"t": 0, "s": [b]}, {"t": 10, "s": [b], "h": 1}]}}), 0)
        }
        2 => (json!({"ty": "rc", "s": two(), "r": z(), "p": {"a": 1, "k": [{"t": 0, "s": [1, 2], "o": {"x": 0.5, "y": 0.5}, "i": {"x": [0.5], "y": [1]}}, {"t": 10, "s": [3, 4], "h": 1}]}}), 0),
        3 => (json!({"ty": "fl", "c": {"a": 0, "k": [1, 0, 0]}, "o": {"a": 1, "k": [{"t": 0, "s": [10], "o": {"x": [0.5], "y": 0.5}, "i": {"x": 0.5, "y": [1]}}, {"t": 10, "s": [30], "h": 1}]}}), 0),
        4 => (json!({"ty": "gf", "o": z(), "t": 1, "s": two(), "e": two(), "g": {"p": 2, "k": {"a": 0, "k": [0, 1, 0, 0, 1, 0, 1, 0, 0, 1, 1, 0.5]}}}), 0),
        5 => (json!({"ty": "gs", "o": z(), "w": z(), "t": 2, "s": two(), "e": two(), "g": {"p": 1, "k": {"a": 1, "k": [{"t": 0, "s": [0, 1, 0, 0], "o": {"x": 0, "y": 0}, "i": {"x": 1, "y": 1}}, {"t": 10, "s": [0, 1, 1, 0]}]}}}), 0),
        6 => (json!({"ty": "tm", "s": z(), "o": z(), "m": 1, "e": {"a": 1, "k": [{"t": 0, "s": [10]}, {"t": 10, "s": [90]}]}}), 0),
        7 => (json!({"ty": "sr", "sy": 1, "p": two(), "or": z(), "os": z(), "r": z(), "pt": {"a": 0, "k": 3}, "ir": z(), "is": z()}), 0),
        8 => (json!({"ty": "gr", "it": [{"ty": "el", "p": two(), "s": two()}, {"ty": "st", "c": {"a": 0, "k": [1, 0, 0]}, "o": z(), "w": z(), "lc": 2, "lj": 1, "ml": 4}, {"ty": "tr", "p": two(), "r": z()}]}), 0),
        9 => (json!({"ind": 1, "parent": 2, "tt": 1, "tp": 2, "td": 1, "hd": false, "sr": 1, "bm": 1, "ip": 0, "op": 9, "st": 1, "refId": "a", "w": 3, "h": 4}), 1),
        10 => (json!({"ks": {"a": two(), "p": {"s": true, "x": z(), "y": z()}, "s": two(), "rx": z(), "ry": z(), "rz": z(), "o": z(), "sk": z(), "sa": z()}}), 1),
        11 => (json!({"masksProperties": [{"mode": "a", "inv": false, "pt": {"a": 0, "k": {"c": true, "v": [[0, 0]], "i": [[0, 0]], "o": [[0, 0]]}}, "o": z()}], "ks": {"p": {"a": 1, "k": [{"t": 0, "s": [1, 2], "to": [0, 0], "ti": [0, 0]}, {"t": 9}]}}}), 1),
        12 => {
            let b = json!({"c": true, "v": [[0, 0]], "i": [[0, 0]], "o": [[0, 0]]});
            (json!({"ty": "sh", "ks": {"a": 1, "k": [{"t": 0, "s": [b]}, {"t": 10, "s": [b], "e": [b]}, {"t": 20}]}}), 0)
        }
        13 => (json!([{"id": "a", "nm": "n", "fr": 30, "xt": 1, "layers": [lay(3, json!({"ind": 1, "parent": 1}))]}, {"id": "b", "w": 3, "h": 4, "p": "b.png", "u": "", "e": 0}]), 2),
        14 => (json!({"v": "5.7.0", "fr": 30, "ip": 0, "op": 100, "w": 64, "h": 48, "nm": "n", "ddd": 0, "layers": [{"ty": 3, "ip": 0, "op": 9, "ks": {"p": two()}}], "assets": [{"id": "a", "layers": []}]}), 3),
        15 => (json!({"ty": "gr", "it": [{"ty": "rp", "c": z(), "o": z(), "m": 1, "tr": {"ty": "tr", "p": two(), "so": z(), "eo": z()}}, {"ty": "mm", "mm": 1}, {"ty": "rd", "r": z()}]}), 0),
        16 => (json!({"ty": "gr", "it": [{"ty": "pb", "a": z()}, {"ty": "op", "a": z(), "lj": 1, "ml": z()}, {"ty": "tw", "a": z(), "c": two()}]}), 0),
        _ => (json!({"masksProperties": [{"mode": "a", "pt": {"a": 1, "k": [{"t": 0, "s": [{"c": true, "v": [[0, 0]], "i": [[0, 0]], "o": [[0, 0]]}]}, {"t": 9, "s": [{"c": false, "v": [[1, 0]], "i": [[0, 0]], "o": [[0, 0]]}]}]}}]}), 1),
    }
}
/// two things wrong with one construct
pub fn pair() -> J {
    let k = vs::choice("construct", 18);
    let (mut c, place) = construct(k);
    let n = count(&c);
    let a = vs::choice("first", n - 1);
    let b = a + 1 + vs::choice("second", n - 1 - a);
    for k in [b, a] {
        at_node(&mut c, k, &mut |parent, i| {
            let how = vs::choice("how", 5);
            let x = match parent {
                J::Object(m) if how == 0 => {
                    let k = m.keys().nth(i).unwrap().clone();
                    m.remove(&k);
                    return;
                }
                J::Array(a) if how == 0 => {
                    a.remove(i);
                    return;
                }
                J::Object(m) => m.values_mut().nth(i).unwrap(),
                J::Array(a) => &mut a[i],
                _ => unreachable!(),
            };
            *x = [json!([]), json!(0), json!([1]), json!(-1.0e30)][how - 1].clone();
        });
    }
    let end = || lay(4, json!({"ind": 2, "td": 1, "shapes": [{"ty": "el", "p": {"a": 0, "k": [1, 1]}, "s": {"a": 0, "k": [4, 4]}}]}));
    match place {
        0 => {
            let t = [json!({"ty": "el", "p": {"a": 0, "k": [1, 1]}, "s": {"a": 0, "k": [4, 4]}}), c, json!({"ty": "fl", "c": {"a": 0, "k": [1, 0, 0]}, "o": {"a": 0, "k": 100}})];
            file(json!([lay(4, json!({"shapes": t}))]), json!([]))
        }
        1 => {
            let ty = if k == 9 { 0 } else { 3 };
            file(json!([lay(ty, c), end()]), json!([{"id": "a", "layers": [end()]}]))
        }
        2 => file(json!([lay(0, json!({"refId": "a", "w": 3, "h": 4})), lay(2, json!({"refId": "b"}))]), c),
        _ => c,
    }
}
fn imports_pairs() {
    let ok = velato::Composition::from_json(pair()).is_ok();
    vs::cover(if ok { "document imported" } else { "document refused" });
}
fn renders_pairs() {
    if let Ok(c) = velato::Composition::from_json(pair()) {
        for f in [5.0, 0.0] {
            let mut d = Depth::default();
            velato::Renderer::new().append(&c, f, kurbo::Affine::IDENTITY, 1.0, &mut d);
            vs::check(d.open == 0 && d.groups == 0, "operations not closed");
        }
        vs::cover("document rendered");
    }
}
crate::entries! {
    c01_damage => imports;
    c01_pairs => imports_pairs;
    c02_pairs => renders_pairs;
    c02_damage => renders;
    c02_frames => frames;
    c02_parents => parents;
    c02_mattes => mattes;
    c02_instances => instances;
    c02_keyframes => keyframes;
}
