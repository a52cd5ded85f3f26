//! Typed Lottie documents: their JSON, and a reference renderer for what each
//! document means (written from the format's semantics, not from velato).
use crate::rec::{Br, El, Ev, Path, St};
use serde_json::{Map, Value as J, json};

pub fn n(x: f64) -> J {
    J::Number(serde_json::Number::from_f64(x).unwrap())
}
pub fn arr(v: &[f64]) -> J {
    J::Array(v.iter().map(|x| n(*x)).collect())
}
pub fn obj(v: Vec<(&str, J)>) -> J {
    let mut m = Map::new();
    for (k, x) in v {
        m.insert(k.to_string(), x);
    }
    J::Object(m)
}

#[derive(Clone)]
pub struct Kf {
    pub t: f64,
    pub v: Vec<f64>,
    pub hold: bool,
    /// out handle x, y, in handle x, y
    pub ease: Option<[f64; 4]>,
}
pub fn kf(t: f64, v: &[f64]) -> Kf {
    Kf { t, v: v.to_vec(), hold: false, ease: None }
}
pub fn hold(t: f64, v: &[f64]) -> Kf {
    Kf { t, v: v.to_vec(), hold: true, ease: None }
}
#[derive(Clone)]
pub enum Prop {
    S(Vec<f64>),
    A(Vec<Kf>),
}
pub fn s1(x: f64) -> Prop {
    Prop::S(vec![x])
}
pub fn s2(x: f64, y: f64) -> Prop {
    Prop::S(vec![x, y])
}
pub fn s3(x: f64, y: f64, z: f64) -> Prop {
    Prop::S(vec![x, y, z])
}
type Eased = (Option<[f64; 4]>, f64, f64);
struct Slot(std::cell::Cell<Option<Eased>>);
unsafe impl Sync for Slot {}
static EASED: Slot = Slot(std::cell::Cell::new(None));
/// The frame rendered next is, within its interval of keyframes with these handles, the curve
/// point with parameter u, whose progress is y.
pub fn set_eased(e: Option<Eased>) {
    EASED.0.set(e);
}
/// eased progress of fraction `w` for given handles; the default handles are linear
pub fn progress(ease: Option<[f64; 4]>, w: f64) -> f64 {
    if ease.is_none() {
        return w;
    }
    match EASED.0.get() {
        Some((e, _, y)) if e == ease => y,
        _ => f64::NAN,
    }
}
impl Prop {
    pub fn at(&self, f: f64) -> Vec<f64> {
        self.at_with(f, &progress)
    }
    pub fn at_with(&self, f: f64, pr: &dyn Fn(Option<[f64; 4]>, f64) -> f64) -> Vec<f64> {
        match self {
            Prop::S(v) => v.clone(),
            Prop::A(k) => {
                let mut i = 0;
                while i + 1 < k.len() && k[i + 1].t <= f {
                    i += 1;
                }
                if i + 1 >= k.len() || f <= k[i].t || k[i].hold {
                    return k[i].v.clone();
                }
                let w = (f - k[i].t) / (k[i + 1].t - k[i].t);
                let y = pr(k[i].ease, w);
                k[i].v.iter().zip(&k[i + 1].v).map(|(a, b)| a + (b - a) * y).collect()
            }
        }
    }
    pub fn one(&self, f: f64) -> f64 {
        self.at(f)[0]
    }
    fn kfs(k: &[Kf]) -> J {
        J::Array(
            k.iter()
                .map(|k| {
                    let mut o = vec![("t", n(k.t)), ("s", arr(&k.v))];
                    if k.hold {
                        o.push(("h", json!(1)));
                    }
                    if let Some(e) = k.ease {
                        o.push(("o", obj(vec![("x", n(e[0])), ("y", n(e[1]))])));
                        o.push(("i", obj(vec![("x", n(e[2])), ("y", n(e[3]))])));
                    }
                    obj(o)
                })
                .collect(),
        )
    }
    /// scalar property
    pub fn j1(&self) -> J {
        match self {
            Prop::S(v) => obj(vec![("a", json!(0)), ("k", n(v[0]))]),
            Prop::A(k) => obj(vec![("a", json!(1)), ("k", Self::kfs(k))]),
        }
    }
    /// vector property
    pub fn jv(&self) -> J {
        match self {
            Prop::S(v) => obj(vec![("a", json!(0)), ("k", arr(v))]),
            Prop::A(k) => obj(vec![("a", json!(1)), ("k", Self::kfs(k))]),
        }
    }
}

// ------------------------------------------------------------------ matrices
pub type M = [f64; 6];
pub const ID: M = [1.0, 0.0, 0.0, 1.0, 0.0, 0.0];
pub fn mul(a: M, b: M) -> M {
    [
        a[0] * b[0] + a[2] * b[1],
        a[1] * b[0] + a[3] * b[1],
        a[0] * b[2] + a[2] * b[3],
        a[1] * b[2] + a[3] * b[3],
        a[0] * b[4] + a[2] * b[5] + a[4],
        a[1] * b[4] + a[3] * b[5] + a[5],
    ]
}
#[inline(never)]
pub fn inverse(a: M) -> M {
    let d = a[0] * a[3] - a[1] * a[2];
    let (p, q, r, s) = (a[3] / d, -a[1] / d, -a[2] / d, a[0] / d);
    [p, q, r, s, -(p * a[4] + r * a[5]), -(q * a[4] + s * a[5])]
}
pub fn tr(x: f64, y: f64) -> M {
    [1.0, 0.0, 0.0, 1.0, x, y]
}
pub fn rot(deg: f64) -> M {
    let (s, c) = deg.to_radians().sin_cos();
    [c, s, -s, c, 0.0, 0.0]
}
pub fn sc(x: f64, y: f64) -> M {
    [x, 0.0, 0.0, y, 0.0, 0.0]
}
pub fn skx(deg: f64) -> M {
    [1.0, 0.0, deg.to_radians().tan(), 1.0, 0.0, 0.0]
}

#[derive(Clone)]
pub enum Pos {
    One(Prop),
    Split(Prop, Prop),
}
#[derive(Clone)]
pub struct Tf {
    pub a: Option<Prop>,
    pub p: Pos,
    pub s: Option<Prop>,
    pub r: Option<Prop>,
    pub sk: Option<Prop>,
    pub sa: Option<Prop>,
    pub o: Option<Prop>,
}
/// A plain transform: identity with a written-out scale and rotation.
pub fn tf0() -> Tf {
    Tf { a: None, p: Pos::One(s2(0.0, 0.0)), s: Some(s2(100.0, 100.0)), r: Some(s1(0.0)), sk: None, sa: None, o: None }
}
pub fn tfp(x: f64, y: f64) -> Tf {
    Tf { p: Pos::One(s2(x, y)), ..tf0() }
}
impl Tf {
    pub fn m(&self, f: f64) -> M {
        let two = |p: &Option<Prop>, d: [f64; 2]| match p {
            Some(p) => {
                let v = p.at(f);
                [v[0], v[1]]
            }
            None => d,
        };
        let one = |p: &Option<Prop>, d: f64| p.as_ref().map(|p| p.one(f)).unwrap_or(d);
        let p = match &self.p {
            Pos::One(p) => {
                let v = p.at(f);
                [v[0], v[1]]
            }
            Pos::Split(x, y) => [x.one(f), y.one(f)],
        };
        let a = two(&self.a, [0.0, 0.0]);
        let s = two(&self.s, [100.0, 100.0]);
        let mut m = tr(p[0], p[1]);
        if self.r.is_some() {
            m = mul(m, rot(one(&self.r, 0.0)));
        }
        if self.sk.is_some() {
            let (k, ax) = (one(&self.sk, 0.0), one(&self.sa, 0.0));
            if k != 0.0 {
                m = mul(m, mul(rot(-ax), mul(skx(k), rot(ax))));
            }
        }
        m = mul(m, sc(s[0] / 100.0, s[1] / 100.0));
        mul(m, tr(-a[0], -a[1]))
    }
    pub fn opacity(&self, f: f64) -> f64 {
        self.o.as_ref().map(|o| o.one(f)).unwrap_or(100.0) / 100.0
    }
    pub fn fields(&self) -> Vec<(&'static str, J)> {
        let mut v = vec![];
        if let Some(p) = &self.a {
            v.push(("a", p.jv()));
        }
        v.push((
            "p",
            match &self.p {
                Pos::One(p) => p.jv(),
                Pos::Split(x, y) => obj(vec![("s", json!(true)), ("x", x.j1()), ("y", y.j1())]),
            },
        ));
        if let Some(p) = &self.s {
            v.push(("s", p.jv()));
        }
        for (k, p) in [("r", &self.r), ("sk", &self.sk), ("sa", &self.sa), ("o", &self.o)] {
            if let Some(p) = p {
                v.push((k, p.j1()));
            }
        }
        v
    }
}

// -------------------------------------------------------------------- shapes
#[derive(Clone)]
pub struct Bez {
    pub closed: bool,
    pub v: Vec<[f64; 2]>,
    pub i: Vec<[f64; 2]>,
    pub o: Vec<[f64; 2]>,
}
impl Bez {
    /// straight-sided
    pub fn poly(v: &[[f64; 2]], closed: bool) -> Bez {
        Bez { closed, v: v.to_vec(), i: vec![[0.0; 2]; v.len()], o: vec![[0.0; 2]; v.len()] }
    }
    pub fn json(&self) -> J {
        let l = |v: &[[f64; 2]]| J::Array(v.iter().map(|p| arr(p)).collect());
        obj(vec![("c", json!(self.closed)), ("v", l(&self.v)), ("i", l(&self.i)), ("o", l(&self.o))])
    }
    pub fn path(&self) -> Path {
        let mut o = vec![];
        let m = self.v.len();
        if m == 0 {
            return o;
        }
        let z = [0.0, 0.0];
        o.push(El { k: 'M', p: self.v[0].to_vec() });
        let mut seg = |a: usize, b: usize| {
            let (p, q) = (self.v[a], self.v[b]);
            let c0 = self.o.get(a).copied().unwrap_or(z);
            let c1 = self.i.get(b).copied().unwrap_or(z);
            if c0 == z && c1 == z {
                o.push(El { k: 'L', p: q.to_vec() });
            } else {
                o.push(El { k: 'C', p: vec![p[0] + c0[0], p[1] + c0[1], q[0] + c1[0], q[1] + c1[1], q[0], q[1]] });
            }
        };
        for k in 1..m {
            seg(k - 1, k);
        }
        if self.closed {
            seg(m - 1, 0);
            o.push(El { k: 'Z', p: vec![] });
        }
        o
    }
}
#[derive(Clone)]
pub struct BezKf {
    pub t: f64,
    pub hold: bool,
    pub s: Option<Bez>,
    pub e: Option<Bez>,
}
#[derive(Clone)]
pub enum PathProp {
    S(Bez),
    A(Vec<BezKf>),
}
impl PathProp {
    pub fn json(&self) -> J {
        match self {
            PathProp::S(b) => obj(vec![("a", json!(0)), ("k", b.json())]),
            PathProp::A(k) => obj(vec![
                ("a", json!(1)),
                (
                    "k",
                    J::Array(
                        k.iter()
                            .map(|k| {
                                let mut o = vec![("t", n(k.t))];
                                if k.hold {
                                    o.push(("h", json!(1)));
                                }
                                if let Some(b) = &k.s {
                                    o.push(("s", J::Array(vec![b.json()])));
                                }
                                if let Some(b) = &k.e {
                                    o.push(("e", J::Array(vec![b.json()])));
                                }
                                obj(o)
                            })
                            .collect(),
                    ),
                ),
            ]),
        }
    }
    fn start(k: &[BezKf], i: usize) -> &Bez {
        match (&k[i].s, i) {
            (Some(b), _) => b,
            (None, 0) => unreachable!(),
            (None, i) => k[i - 1].e.as_ref().or(k[i - 1].s.as_ref()).unwrap(),
        }
    }
    pub fn at(&self, f: f64) -> Bez {
        match self {
            PathProp::S(b) => b.clone(),
            PathProp::A(k) => {
                let mut i = 0;
                while i + 1 < k.len() && k[i + 1].t <= f {
                    i += 1;
                }
                let a = Self::start(k, i);
                let b = if i + 1 >= k.len() || f <= k[i].t || k[i].hold {
                    a.clone()
                } else {
                    let b = k[i].e.as_ref().unwrap_or_else(|| Self::start(k, i + 1));
                    let w = (f - k[i].t) / (k[i + 1].t - k[i].t);
                    let l = |x: &[[f64; 2]], y: &[[f64; 2]]| {
                        x.iter().zip(y).map(|(p, q)| [p[0] + (q[0] - p[0]) * w, p[1] + (q[1] - p[1]) * w]).collect()
                    };
                    Bez { closed: false, v: l(&a.v, &b.v), i: l(&a.i, &b.i), o: l(&a.o, &b.o) }
                };
                let closed = k.iter().any(|k| k.s.as_ref().is_some_and(|b| b.closed) || k.e.as_ref().is_some_and(|b| b.closed));
                Bez { closed, ..b }
            }
        }
    }
}
#[derive(Clone)]
pub struct Line {
    pub w: Prop,
    pub lc: Option<u8>,
    pub lj: Option<u8>,
    pub ml: Option<f64>,
}
#[derive(Clone)]
pub struct Grad {
    /// 1 linear, 2 radial
    pub t: Option<u8>,
    pub s: Prop,
    pub e: Prop,
    pub count: usize,
    pub k: Prop,
    /// what the stops are expected to be, given the raw numbers
    pub stops: fn(&[f64], usize) -> Vec<[f64; 5]>,
}
/// stops without alpha data
pub fn opaque_stops(v: &[f64], count: usize) -> Vec<[f64; 5]> {
    (0..count).map(|i| [v[4 * i], v[4 * i + 1], v[4 * i + 2], v[4 * i + 3], 1.0]).collect()
}
#[derive(Clone)]
pub enum Sh {
    Rect { p: Prop, s: Prop, r: Prop },
    Ell { p: Prop, s: Prop },
    Star { sy: u8, p: Prop, or: Prop, os: Prop, r: Prop, pt: Prop, ir: Option<Prop>, is: Option<Prop> },
    Path(PathProp),
    Fill { c: Prop, o: Prop },
    Stroke { c: Prop, o: Prop, l: Line },
    GFill { g: Grad, o: Prop },
    GStroke { g: Grad, o: Prop, l: Line },
    Trim { s: Prop, e: Prop, o: Prop },
    Group { it: Vec<Sh>, tf: Option<Tf> },
    /// a repeater; documents carry a marked trim in its place, see `with_repeaters`
    Rep(Rep),
    /// a shape velato does not draw, given as JSON
    Raw(J),
}
/// copies, offset, anchor, position, rotation, scale, start and end opacity
#[derive(Clone)]
pub struct Rep {
    pub n: Prop,
    pub off: Prop,
    pub a: Prop,
    pub p: Prop,
    pub r: Prop,
    pub s: Prop,
    pub so: Prop,
    pub eo: Prop,
}
impl Rep {
    fn m(&self, k: f64, f: f64) -> M {
        let (a, p, s) = (self.a.at(f), self.p.at(f), self.s.at(f));
        let m = mul(tr(k * p[0], k * p[1]), tr(a[0], a[1]));
        let m = mul(m, rot(k * self.r.one(f)));
        let m = mul(m, sc((s[0] / 100.0).powf(k), (s[1] / 100.0).powf(k)));
        mul(m, tr(-a[0], -a[1]))
    }
}
pub fn tri(x: f64, y: f64, d: f64) -> Sh {
    Sh::Path(PathProp::S(Bez::poly(&[[x, y], [x + d, y], [x, y + d]], true)))
}
pub fn fill(r: f64, g: f64, b: f64) -> Sh {
    Sh::Fill { c: Prop::S(vec![r, g, b]), o: s1(100.0) }
}
pub fn line(w: f64) -> Line {
    Line { w: s1(w), lc: Some(1), lj: Some(3), ml: None }
}
impl Line {
    fn put(&self, v: &mut Vec<(&'static str, J)>) {
        v.push(("w", self.w.j1()));
        if let Some(x) = self.lc {
            v.push(("lc", json!(x)));
        }
        if let Some(x) = self.lj {
            v.push(("lj", json!(x)));
        }
        if let Some(x) = self.ml {
            v.push(("ml", n(x)));
        }
    }
    fn at(&self, f: f64, dcap: u8, djoin: u8) -> St {
        let c = self.lc.unwrap_or(dcap);
        St { width: self.w.one(f), miter: self.ml, join: self.lj.unwrap_or(djoin), caps: (c, c), dashes: 0 }
    }
}
impl Grad {
    fn put(&self, v: &mut Vec<(&'static str, J)>) {
        v.push(("g", obj(vec![("p", json!(self.count)), ("k", self.k.jv())])));
        v.push(("s", self.s.jv()));
        v.push(("e", self.e.jv()));
        if let Some(t) = self.t {
            v.push(("t", json!(t)));
        }
    }
    fn at(&self, f: f64) -> Br {
        let (s, e) = (self.s.at(f), self.e.at(f));
        let stops = match &self.k {
            Prop::S(v) => (self.stops)(v, self.count),
            Prop::A(k) => {
                let kk: Vec<Kf> = k.iter().map(|k| Kf { v: (self.stops)(&k.v, self.count).concat(), ..k.clone() }).collect();
                Prop::A(kk).at(f).chunks(5).map(|c| [c[0], c[1], c[2], c[3], c[4]]).collect()
            }
        };
        if self.t == Some(2) {
            let (dx, dy) = (e[0] - s[0], e[1] - s[1]);
            let c = [s[0], s[1]];
            Br::Radial { c, r: dx.hypot(dy), c0: c, r0: 0.0, stops }
        } else {
            Br::Linear { pts: [s[0], s[1], e[0], e[1]], stops }
        }
    }
}
impl Sh {
    pub fn json(&self) -> J {
        let ty = |t: &str| ("ty", json!(t));
        match self {
            Sh::Rect { p, s, r } => obj(vec![ty("rc"), ("p", p.jv()), ("s", s.jv()), ("r", r.j1())]),
            Sh::Ell { p, s } => obj(vec![ty("el"), ("p", p.jv()), ("s", s.jv())]),
            Sh::Star { sy, p, or, os, r, pt, ir, is } => {
                let mut v = vec![ty("sr"), ("sy", json!(sy)), ("p", p.jv()), ("or", or.j1()), ("os", os.j1()), ("r", r.j1()), ("pt", pt.j1())];
                if let Some(x) = ir {
                    v.push(("ir", x.j1()));
                }
                if let Some(x) = is {
                    v.push(("is", x.j1()));
                }
                obj(v)
            }
            Sh::Path(p) => obj(vec![ty("sh"), ("ks", p.json())]),
            Sh::Fill { c, o } => obj(vec![ty("fl"), ("c", c.jv()), ("o", o.j1())]),
            Sh::Stroke { c, o, l } => {
                let mut v = vec![ty("st"), ("c", c.jv()), ("o", o.j1())];
                l.put(&mut v);
                obj(v)
            }
            Sh::GFill { g, o } => {
                let mut v = vec![ty("gf"), ("o", o.j1())];
                g.put(&mut v);
                obj(v)
            }
            Sh::GStroke { g, o, l } => {
                let mut v = vec![ty("gs"), ("o", o.j1())];
                g.put(&mut v);
                l.put(&mut v);
                obj(v)
            }
            Sh::Trim { s, e, o } => obj(vec![ty("tm"), ("s", s.j1()), ("e", e.j1()), ("o", o.j1())]),
            Sh::Group { it, tf } => {
                let mut v: Vec<J> = it.iter().map(|s| s.json()).collect();
                if let Some(t) = tf {
                    let mut f = vec![ty("tr")];
                    f.extend(t.fields());
                    v.push(obj(f));
                }
                obj(vec![ty("gr"), ("it", J::Array(v))])
            }
            Sh::Rep(_) => obj(vec![ty("tm"), ("s", s1(REPEATER).j1()), ("e", s1(REPEATER).j1()), ("o", s1(0.0).j1())]),
            Sh::Raw(j) => j.clone(),
        }
    }
}
const REPEATER: f64 = 7777.0;
pub fn model_value<T: velato::model::Tween>(p: &Prop, g: impl Fn(&[f64]) -> T) -> velato::model::Value<T> {
    use velato::model::{Animated, EasingHandle, Time, Value};
    match p {
        Prop::S(v) => Value::Fixed(g(v)),
        Prop::A(k) => Value::Animated(Animated {
            times: k
                .iter()
                .map(|k| Time {
                    frame: k.t,
                    in_tangent: k.ease.map(|e| EasingHandle { x: e[2], y: e[3] }),
                    out_tangent: k.ease.map(|e| EasingHandle { x: e[0], y: e[1] }),
                    hold: k.hold,
                })
                .collect(),
            values: k.iter().map(|k| g(&k.v)).collect(),
        }),
    }
}
/// Repeaters are not read from documents, so they are put into the composition that was built.
pub fn with_repeaters(c: &mut velato::Composition, d: &Doc) {
    fn list(out: &mut [velato::model::Shape], left: &mut Vec<Rep>) {
        use velato::model::{Repeater, Shape, animated};
        for s in out {
            match s {
                Shape::Group(l, _) => list(l, left),
                Shape::Trim(t) if t.evaluate(0.0).into_owned().start == REPEATER => {
                    let r = left.remove(0);
                    *s = Shape::Repeater(Repeater::Animated(animated::Repeater {
                        copies: model_value(&r.n, |v| v[0]),
                        offset: model_value(&r.off, |v| v[0]),
                        anchor_point: model_value(&r.a, |v| kurbo::Point::new(v[0], v[1])),
                        position: model_value(&r.p, |v| kurbo::Point::new(v[0], v[1])),
                        rotation: model_value(&r.r, |v| v[0]),
                        scale: model_value(&r.s, |v| kurbo::Vec2::new(v[0], v[1])),
                        start_opacity: model_value(&r.so, |v| v[0]),
                        end_opacity: model_value(&r.eo, |v| v[0]),
                    }));
                    if let Shape::Repeater(Repeater::Animated(a)) = s {
                        *s = Shape::Repeater(a.clone().into_model());
                    }
                }
                _ => {}
            }
        }
    }
    fn find(l: &[Sh], out: &mut Vec<Rep>) {
        for s in l {
            match s {
                Sh::Rep(r) => out.push(r.clone()),
                Sh::Group { it, .. } => find(it, out),
                _ => {}
            }
        }
    }
    let mut left = vec![];
    for l in &d.layers {
        find(&l.shapes, &mut left);
    }
    for l in &mut c.layers {
        if let velato::model::Content::Shape(v) = &mut l.content {
            list(v, &mut left);
        }
    }
    assert!(left.is_empty(), "repeaters not placed");
}

// -------------------------------------------------------------------- layers
#[derive(Clone)]
pub struct Ly {
    pub ty: u8,
    pub nm: Option<String>,
    pub ind: Option<usize>,
    pub parent: Option<usize>,
    pub hd: Option<bool>,
    pub ip: f64,
    pub op: f64,
    pub st: f64,
    pub sr: Option<f64>,
    pub ks: Tf,
    pub tt: Option<u8>,
    pub td: Option<u8>,
    pub tp: Option<usize>,
    pub masks: Vec<PathProp>,
    pub shapes: Vec<Sh>,
    pub refid: String,
    pub extra: Vec<(String, J)>,
}
pub fn layer(shapes: Vec<Sh>) -> Ly {
    Ly {
        ty: 4,
        nm: None,
        ind: None,
        parent: None,
        hd: None,
        ip: 0.0,
        op: 100.0,
        st: 0.0,
        sr: None,
        ks: tf0(),
        tt: None,
        td: None,
        tp: None,
        masks: vec![],
        shapes,
        refid: String::new(),
        extra: vec![],
    }
}
pub fn null() -> Ly {
    Ly { ty: 3, ..layer(vec![]) }
}
pub fn inst(id: &str) -> Ly {
    Ly { ty: 0, refid: id.to_string(), ..layer(vec![]) }
}
impl Ly {
    pub fn named(mut self, s: &str) -> Ly {
        self.nm = Some(s.to_string());
        self
    }
    pub fn json(&self) -> J {
        let mut v = vec![
            ("ty", json!(self.ty)),
            ("ip", n(self.ip)),
            ("op", n(self.op)),
            ("st", n(self.st)),
            ("ks", obj(self.ks.fields())),
        ];
        if let Some(s) = &self.nm {
            v.push(("nm", json!(s)));
        }
        for (k, x) in [("ind", self.ind), ("parent", self.parent), ("tp", self.tp)] {
            if let Some(x) = x {
                v.push((k, json!(x)));
            }
        }
        for (k, x) in [("tt", self.tt), ("td", self.td)] {
            if let Some(x) = x {
                v.push((k, json!(x)));
            }
        }
        if let Some(h) = self.hd {
            v.push(("hd", json!(h)));
        }
        if let Some(x) = self.sr {
            v.push(("sr", n(x)));
        }
        if !self.masks.is_empty() {
            v.push(("hasMask", json!(true)));
            v.push((
                "masksProperties",
                J::Array(
                    self.masks
                        .iter()
                        .map(|m| obj(vec![("mode", json!("a")), ("pt", m.json()), ("o", s1(100.0).j1())]))
                        .collect(),
                ),
            ));
        }
        match self.ty {
            0 => {
                v.push(("refId", json!(self.refid)));
                v.push(("w", json!(64)));
                v.push(("h", json!(48)));
            }
            1 => {
                v.push(("sw", json!(64)));
                v.push(("sh", json!(48)));
                v.push(("sc", json!("#ff0000")));
            }
            2 => v.push(("refId", json!("img"))),
            4 => v.push(("shapes", J::Array(self.shapes.iter().map(|s| s.json()).collect()))),
            _ => {}
        }
        let mut o = obj(v);
        for (k, x) in &self.extra {
            o.as_object_mut().unwrap().insert(k.clone(), x.clone());
        }
        o
    }
}
#[derive(Clone)]
pub struct Doc {
    pub w: usize,
    pub h: usize,
    pub layers: Vec<Ly>,
    pub assets: Vec<(String, Vec<Ly>)>,
}
pub fn doc(layers: Vec<Ly>) -> Doc {
    Doc { w: 64, h: 48, layers, assets: vec![] }
}
impl Doc {
    pub fn json(&self) -> J {
        let mut v = vec![
            ("v", json!("5.7.0")),
            ("fr", n(30.0)),
            ("ip", n(0.0)),
            ("op", n(100.0)),
            ("w", json!(self.w)),
            ("h", json!(self.h)),
            ("layers", J::Array(self.layers.iter().map(|l| l.json()).collect())),
        ];
        if !self.assets.is_empty() {
            v.push((
                "assets",
                J::Array(
                    self.assets
                        .iter()
                        .map(|(id, l)| obj(vec![("id", json!(id)), ("layers", J::Array(l.iter().map(|l| l.json()).collect()))]))
                        .collect(),
                ),
            ));
        }
        obj(v)
    }
}

// --------------------------------------------------------- reference renderer
pub fn rect_path(x0: f64, y0: f64, x1: f64, y1: f64) -> Path {
    vec![
        El { k: 'M', p: vec![x0, y0] },
        El { k: 'L', p: vec![x1, y0] },
        El { k: 'L', p: vec![x1, y1] },
        El { k: 'L', p: vec![x0, y1] },
        El { k: 'Z', p: vec![] },
    ]
}
struct Paint {
    stroke: Option<St>,
    brush: Br,
    alpha: f64,
    items: Vec<(M, Path)>,
}
/// The part of a path of lines and evenly parameterised curves between `start` and `end` percent
/// of its length, moved on by `offset` degrees of a full turn.
pub fn trimmed(path: &Path, start: f64, end: f64, offset: f64) -> Path {
    let (s, e) = if start <= end { (start, end) } else { (end, start) };
    if e - s >= 100.0 {
        return path.clone();
    }
    if e - s <= 0.0 {
        return vec![];
    }
    // segments: start, control points, end, whether one follows the one before it
    let mut segs: Vec<(Vec<[f64; 2]>, bool)> = vec![];
    let (mut first, mut cur, mut follows) = ([0.0; 2], [0.0; 2], false);
    for e in path {
        let p: Vec<[f64; 2]> = e.p.chunks(2).map(|c| [c[0], c[1]]).collect();
        match e.k {
            'M' => {
                first = p[0];
                cur = p[0];
                follows = false;
            }
            'Z' => {
                if cur != first {
                    segs.push((vec![cur, first], follows));
                    cur = first;
                    follows = true;
                }
            }
            _ => {
                let to = p[p.len() - 1];
                segs.push(([vec![cur], p].concat(), follows));
                cur = to;
                follows = true;
            }
        }
    }
    let len: Vec<f64> = segs.iter().map(|s| (s.0[s.0.len() - 1][0] - s.0[0][0]).hypot(s.0[s.0.len() - 1][1] - s.0[0][1])).collect();
    let total: f64 = len.iter().sum();
    if total <= 0.0 {
        return vec![];
    }
    let from = (s + offset * (100.0 / 360.0)).rem_euclid(100.0);
    let to = from + (e - s);
    let mut out: Path = vec![];
    let mut piece = |from: f64, to: f64| {
        let (from, to) = (from / 100.0 * total, to / 100.0 * total);
        let mut at = 0.0;
        let mut pen = false;
        for (i, (s, follows)) in segs.iter().enumerate() {
            let t0 = if from > at { (from - at) / len[i] } else { 0.0 };
            let t1 = if to < at + len[i] { (to - at) / len[i] } else { 1.0 };
            at += len[i];
            if !follows {
                pen = false;
            }
            if t1 <= t0 + 1e-9 || t0 >= 1.0 || t1 <= 0.0 {
                pen = false;
                continue;
            }
            let (a, b) = (s[0], s[s.len() - 1]);
            let on = |t: f64| [a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t];
            if !pen {
                out.push(El { k: 'M', p: on(t0).to_vec() });
                pen = true;
            }
            if s.len() == 2 {
                out.push(El { k: 'L', p: on(t1).to_vec() });
            } else {
                let d = (t1 - t0) / 3.0;
                out.push(El { k: 'C', p: [on(t0 + d), on(t1 - d), on(t1)].concat() });
            }
        }
    };
    if to <= 100.0 {
        piece(from, to);
    } else {
        piece(from, 100.0);
        piece(0.0, to - 100.0);
    }
    out
}
struct Ref<'a> {
    d: &'a Doc,
    out: Vec<Ev>,
}
fn scaled(b: &Br, a: f64) -> Br {
    // alpha is applied in single precision
    let f = |x: f64| (x as f32 * (a as f32)) as f64;
    match b {
        Br::Solid(c) => Br::Solid([c[0] as f32 as f64, c[1] as f32 as f64, c[2] as f32 as f64, f(c[3])]),
        Br::Linear { pts, stops } => Br::Linear {
            pts: *pts,
            stops: stops.iter().map(|s| [s[0] as f32 as f64, s[1] as f32 as f64, s[2] as f32 as f64, s[3] as f32 as f64, f(s[4])]).collect(),
        },
        Br::Radial { c, r, c0, r0, stops } => Br::Radial {
            c: *c,
            r: *r,
            c0: *c0,
            r0: *r0,
            stops: stops.iter().map(|s| [s[0] as f32 as f64, s[1] as f32 as f64, s[2] as f32 as f64, s[3] as f32 as f64, f(s[4])]).collect(),
        },
        Br::Other => Br::Other,
    }
}
/// A star or polygon: vertices on alternating radii (polygon: one radius), starting straight up
/// (turned by `rot` degrees); rounded vertices have handles perpendicular to their ray.
fn star(star: bool, c: (f64, f64), or: f64, os: f64, ir: f64, is: f64, rot: f64, pt: f64) -> Path {
    let pt = pt.round();
    if pt < 1.0 {
        return vec![];
    }
    let n = if star { 2 * pt as usize } else { pt as usize };
    let step = std::f64::consts::TAU / n as f64;
    let mut v = vec![];
    for i in 0..n {
        let (r, s) = if star && i % 2 == 1 { (ir, is) } else { (or, os) };
        let a = (rot - 90.0).to_radians() + step * i as f64;
        let (sn, cs) = a.sin_cos();
        let h = if s == 0.0 { 0.0 } else { r * (s / 100.0) * (step / 2.0).tan() * 4.0 / 3.0 };
        let p = [c.0 + r * cs, c.1 + r * sn];
        v.push((p, [p[0] + h * sn, p[1] - h * cs], [p[0] - h * sn, p[1] + h * cs], s != 0.0));
    }
    let mut o = vec![El { k: 'M', p: v[0].0.to_vec() }];
    for i in 0..n {
        let (a, b) = (&v[i], &v[(i + 1) % n]);
        if a.3 || b.3 {
            o.push(El { k: 'C', p: [a.2, b.1, b.0].concat() });
        } else if i + 1 < n {
            o.push(El { k: 'L', p: b.0.to_vec() });
        }
    }
    o.push(El { k: 'Z', p: vec![] });
    o
}
pub fn geometry(s: &Sh, f: f64) -> Option<Path> {
    use kurbo::Shape;
    let p2 = |p: &Prop| {
        let v = p.at(f);
        (v[0], v[1])
    };
    match s {
        Sh::Rect { p, s, r } => {
            let ((x, y), (w, h), r) = (p2(p), p2(s), r.one(f));
            let q = kurbo::RoundedRect::new(x - w * 0.5, y - h * 0.5, x - w * 0.5 + w, y - h * 0.5 + h, r);
            Some(q.path_elements(0.1).map(crate::rec::el).collect())
        }
        Sh::Ell { p, s } => {
            let (c, (w, h)) = (p2(p), p2(s));
            let q = kurbo::Ellipse::new(c, (w * 0.5, h * 0.5), 0.0);
            Some(q.path_elements(0.1).map(crate::rec::el).collect())
        }
        Sh::Star { sy, p, or, os, r, pt, ir, is } => {
            let opt = |p: &Option<Prop>| p.as_ref().map(|p| p.one(f)).unwrap_or(0.0);
            Some(star(*sy == 1, p2(p), or.one(f), os.one(f), opt(ir), opt(is), r.one(f), pt.one(f)))
        }
        Sh::Path(p) => Some(p.at(f).path()),
        _ => None,
    }
}
impl Ref<'_> {
    fn shapes(&self, list: &[Sh], tf: M, alpha: f64, f: f64, geo: &mut Vec<(M, Path)>, paints: &mut Vec<Paint>) {
        let g0 = geo.len();
        let p0 = paints.len();
        for s in list {
            let solid = |c: &Prop| {
                let v = c.at(f);
                Br::Solid([v[0], v[1], v[2], 1.0])
            };
            let mut paint = |stroke, brush, o: f64| {
                paints.push(Paint { stroke, brush, alpha: alpha * o / 100.0, items: geo[g0..].to_vec() });
            };
            match s {
                Sh::Group { it, tf: t } => {
                    let (m, o) = match t {
                        Some(t) => (mul(tf, t.m(f)), alpha * t.opacity(f)),
                        None => (tf, alpha),
                    };
                    self.shapes(it, m, o, f, geo, paints);
                }
                Sh::Fill { c, o } => paint(None, solid(c), o.one(f)),
                Sh::Stroke { c, o, l } => paint(Some(l.at(f, 1, 3)), solid(c), o.one(f)),
                Sh::GFill { g, o } => paint(None, g.at(f), o.one(f)),
                Sh::GStroke { g, o, l } => paint(Some(l.at(f, 2, 2)), g.at(f), o.one(f)),
                Sh::Trim { s, e, o } => {
                    let (s, e, o) = (s.one(f), e.one(f), o.one(f));
                    for x in geo[g0..].iter_mut().chain(paints[p0..].iter_mut().flat_map(|p| p.items.iter_mut())) {
                        x.1 = trimmed(&x.1, s, e, o);
                    }
                }
                Sh::Rep(r) => {
                    let n = r.n.one(f).round() as usize;
                    let inv = inverse(tf);
                    let (old_geo, old_paints) = (geo.split_off(g0), paints.split_off(p0));
                    let (so, eo) = (r.so.one(f) / 100.0, r.eo.one(f) / 100.0);
                    for i in 0..n {
                        let m = mul(mul(tf, r.m(r.off.one(f) + i as f64, f)), inv);
                        let copy = |x: &(M, Path)| (mul(m, x.0), x.1.clone());
                        geo.extend(old_geo.iter().map(copy));
                        let a = if n > 1 { so + (eo - so) / n as f64 * i as f64 } else { so };
                        if a > 0.0 {
                            for p in &old_paints {
                                paints.push(Paint { stroke: p.stroke.clone(), brush: p.brush.clone(), alpha: p.alpha * a, items: p.items.iter().map(copy).collect() });
                            }
                        }
                    }
                }
                Sh::Raw(_) => {}
                g => {
                    if let Some(p) = geometry(g, f) {
                        geo.push((tf, p));
                    }
                }
            }
        }
    }
    fn chain(set: &[Ly], l: &Ly, f: f64) -> M {
        let mut m = l.ks.m(f);
        let mut p = l.parent;
        while let Some(i) = p {
            // the last layer with that index
            let Some(q) = set.iter().rev().find(|x| x.ind == Some(i)) else { break };
            m = mul(q.ks.m(f), m);
            p = q.parent;
        }
        m
    }
    fn is_mask(l: &Ly) -> bool {
        l.td == Some(1) && l.hd != Some(true)
    }
    fn matte(set: &[Ly], i: usize) -> Option<((u8, u8), usize)> {
        let l = &set[i];
        let mode = match l.tt? {
            0 => (peniko::Mix::Normal as u8, peniko::Compose::SrcOver as u8),
            1 | 3 => (peniko::Mix::Normal as u8, peniko::Compose::SrcIn as u8),
            _ => (peniko::Mix::Normal as u8, peniko::Compose::SrcOut as u8),
        };
        if let Some(tp) = l.tp {
            return set.iter().rposition(|x| x.ind == Some(tp)).map(|k| (mode, k));
        }
        // nearest preceding matte target no other layer has consumed
        let mut k = i;
        while k > 0 {
            k -= 1;
            if Self::is_mask(&set[k]) {
                return Some((mode, k));
            }
            if set[k].tt.is_some() {
                return None;
            }
        }
        None
    }
    fn layer(&mut self, set: &[Ly], i: usize, index: usize, g: M, alpha: f64, f: f64, depth: usize) {
        let l = &set[i];
        if depth > 40 || !(l.ip <= f && f < l.op) {
            return;
        }
        self.out.push(Ev::Begin { name: l.nm.clone().unwrap_or_default(), index });
        let m = mul(g, Self::chain(set, l, f));
        let full = rect_path(0.0, 0.0, self.d.w as f64, self.d.h as f64);
        let matte = Self::matte(set, i);
        if let Some(((mix, compose), k)) = matte {
            let over = (peniko::Mix::Normal as u8, peniko::Compose::SrcOver as u8);
            self.out.push(Ev::PushLayer { mix: over.0, compose: over.1, alpha: 1.0, tf: g, shape: full.clone() });
            self.layer(set, k, 0, g, alpha, f, depth + 1);
            self.out.push(Ev::PushLayer { mix, compose, alpha: 1.0, tf: g, shape: full });
        }
        let a = alpha * l.ks.opacity(f);
        for p in &l.masks {
            self.out.push(Ev::PushClip { tf: m, shape: p.at(f).path() });
        }
        if l.hd != Some(true) {
            if l.ty == 0 {
                let local = (f - l.st) / l.sr.unwrap_or(1.0);
                // a later asset of the same id replaces an earlier one
                if let Some((_, layers)) = self.d.assets.iter().rev().find(|x| x.0 == l.refid) {
                    let layers = layers.clone();
                    for k in (0..layers.len()).rev() {
                        if !Self::is_mask(&layers[k]) {
                            self.layer(&layers, k, 0, m, a, local, depth + 1);
                        }
                    }
                }
            } else if l.ty == 4 {
                let (mut geo, mut paints) = (vec![], vec![]);
                self.shapes(&l.shapes, m, a, f, &mut geo, &mut paints);
                for p in paints.iter().rev() {
                    for (t, path) in &p.items {
                        self.out.push(Ev::Draw { stroke: p.stroke.clone(), tf: *t, brush: scaled(&p.brush, p.alpha), path: path.clone() });
                    }
                }
            }
        }
        for _ in &l.masks {
            self.out.push(Ev::Pop);
        }
        if matte.is_some() {
            self.out.push(Ev::Pop);
            self.out.push(Ev::Pop);
        }
        self.out.push(Ev::End);
    }
}
/// What rendering `d` at frame `f` must emit.
pub fn reference(d: &Doc, f: f64, tf: M, alpha: f64) -> Vec<Ev> {
    let mut r = Ref { d, out: vec![] };
    r.out.push(Ev::PushClip { tf, shape: rect_path(0.0, 0.0, d.w as f64, d.h as f64) });
    for i in (0..d.layers.len()).rev() {
        if !Ref::is_mask(&d.layers[i]) {
            r.layer(&d.layers, i, i, tf, alpha, f, 0);
        }
    }
    r.out.push(Ev::Pop);
    r.out
}
