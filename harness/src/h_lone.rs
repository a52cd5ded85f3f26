//! Every component of every animatable thing, animated on its own while all others stand still,
//! or standing still while all others are animated.
use crate::doc::*;
use crate::h_basic::compare;
use crate::h_shape::compare_with_repeaters;
use crate::vs;

/// where on the timeline of keyframes at 0 and 10 the frame lies
struct When {
    f: f64,
    /// strictly between them, where values come from arithmetic
    mid: bool,
    hold: bool,
}
fn when() -> When {
    let w = |f, mid, hold| When { f, mid, hold };
    match vs::choice("when", 5) {
        0 => w(-vs::num("d", 0.0, 50.0, 2), false, false),
        1 => w(10.0 + vs::num("d", 0.0, 50.0, 2), false, false),
        2 => w(10.0 * vs::num("w", 0.0078125, 0.9921875, 7), false, true),
        k => {
            // default handles are linear: the curve with handles (0,0) and (1,1)
            let u = [0.25, 0.5][k - 3];
            vs::root_hint(u);
            w(10.0 * (3.0 * u * u - 2.0 * u * u * u), true, false)
        }
    }
}
/// One component; `lin`: the output is linear in it. `None` while it stands still.
struct Maker<'a> {
    w: &'a When,
    only: usize,
    inverse: bool,
    next: std::cell::Cell<usize>,
}
impl Maker<'_> {
    fn p(&self, still: &[f64], lo: f64, hi: f64, lin: bool) -> Prop {
        let i = self.next.get();
        self.next.set(i + 1);
        if (i == self.only) == self.inverse {
            return Prop::S(still.to_vec());
        }
        let c = still.len();
        let (a, b): (Vec<f64>, Vec<f64>) = if lin && !self.inverse {
            ((0..c).map(|_| vs::num("a", lo, hi, 2)).collect(), (0..c).map(|_| vs::num("b", lo, hi, 2)).collect())
        } else {
            let at = |x: f64, k: usize| lo + (hi - lo) * (x + 0.125 * (k % 3) as f64);
            ((0..c).map(|k| at(0.25, k)).collect(), (0..c).map(|k| at(0.625, k)).collect())
        };
        Prop::A(vec![if self.w.hold { hold(0.0, &a) } else { kf(0.0, &a) }, kf(10.0, &b)])
    }
}
/// Runs `build` with component `only` of `n` moving, or all but that one.
fn each(n: usize, build: impl Fn(&Maker) -> (Vec<Sh>, Tf)) {
    let w = when();
    let m = Maker { only: vs::choice("component", n), inverse: vs::flag("all others"), w: &w, next: Default::default() };
    let (s, ks) = build(&m);
    assert!(m.next.get() == n, "components");
    let mut d = doc(vec![Ly { ip: -100.0, ks, ..layer(s) }]);
    d.w = 64;
    if d.layers[0].shapes.iter().any(|s| matches!(s, Sh::Rep(_))) { compare_with_repeaters(&d, w.f, ID, 1.0) } else { compare(&d, w.f, ID, 1.0) }
}
fn tf(m: &Maker) -> Tf {
    // the skew is tested with and without one that stands still
    Tf {
        a: Some(m.p(&[4.0, 5.0], -50.0, 50.0, true)),
        p: Pos::One(m.p(&[3.0, -2.0], -50.0, 50.0, true)),
        s: Some(m.p(&[50.0, 200.0], -100.0, 100.0, true)),
        r: Some(m.p(&[30.0], 0.0, 128.0, !m.w.mid)),
        sk: Some(m.p(&[20.0], 8.0, 72.0, !m.w.mid)),
        sa: Some(m.p(&[40.0], 0.0, 128.0, !m.w.mid)),
        o: Some(m.p(&[75.0], 0.0, 100.0, true)),
    }
}
fn body() -> Vec<Sh> {
    vec![tri(1.0, 2.0, 3.0), fill(1.0, 0.5, 0.0)]
}
fn of_layer() {
    each(7, |m| (body(), tf(m)))
}
fn of_group() {
    each(7, |m| (vec![Sh::Group { it: body(), tf: Some(tf(m)) }], tfp(1.0, 2.0)))
}
fn split() {
    each(2, |m| {
        let p = Pos::Split(m.p(&[3.0], -50.0, 50.0, true), m.p(&[5.0], -50.0, 50.0, true));
        let t = Tf { p, ..tf0() };
        if vs::flag("group") { (vec![Sh::Group { it: body(), tf: Some(t) }], tfp(1.0, 2.0)) } else { (body(), t) }
    })
}
fn rect() {
    each(3, |m| {
        let r = Sh::Rect { p: m.p(&[3.0, 4.0], -50.0, 50.0, true), s: m.p(&[30.0, 20.0], 12.0, 60.0, false), r: m.p(&[4.0], 0.0, 12.0, false) };
        (vec![r, fill(1.0, 0.5, 0.0)], tf0())
    })
}
fn ellipse() {
    each(2, |m| (vec![Sh::Ell { p: m.p(&[3.0, 4.0], -50.0, 50.0, true), s: m.p(&[30.0, 20.0], 12.0, 60.0, false) }, fill(1.0, 0.5, 0.0)], tf0()))
}
fn star() {
    each(7, |m| {
        let s = Sh::Star {
            sy: 1,
            p: m.p(&[3.0, 4.0], -50.0, 50.0, true),
            or: m.p(&[20.0], 8.0, 60.0, true),
            os: m.p(&[30.0], -100.0, 100.0, !m.w.mid),
            r: m.p(&[15.0], -90.0, 90.0, false),
            pt: m.p(&[5.0], 2.0, 10.0, false),
            ir: Some(m.p(&[8.0], 8.0, 60.0, true)),
            is: Some(m.p(&[-20.0], -100.0, 100.0, !m.w.mid)),
        };
        (vec![s, fill(1.0, 0.5, 0.0)], tf0())
    })
}
fn polygon() {
    each(5, |m| {
        let s = Sh::Star {
            sy: 2,
            p: m.p(&[3.0, 4.0], -50.0, 50.0, true),
            or: m.p(&[20.0], 8.0, 60.0, true),
            os: m.p(&[30.0], -100.0, 100.0, !m.w.mid),
            r: m.p(&[15.0], -90.0, 90.0, false),
            pt: m.p(&[5.0], 3.0, 11.0, false),
            ir: None,
            is: None,
        };
        (vec![s, fill(1.0, 0.5, 0.0)], tf0())
    })
}
fn paints() {
    let stroke = vs::flag("stroke");
    each(if stroke { 3 } else { 2 }, |m| {
        let (c, o) = (m.p(&[0.5, 0.25, 1.0], 0.0, 1.0, true), m.p(&[60.0], 0.0, 100.0, true));
        let p = if stroke { Sh::Stroke { c, o, l: Line { w: m.p(&[3.0], 0.0, 20.0, true), lc: Some(3), lj: Some(2), ml: Some(5.0) } } } else { Sh::Fill { c, o } };
        (vec![tri(1.0, 2.0, 3.0), p], tf0())
    })
}
fn gradients() {
    let stroke = vs::flag("stroke");
    let t = [Some(1), Some(2)][vs::choice("t", 2)];
    each(if stroke { 5 } else { 4 }, |m| {
        // stops with alpha: offset, colour, then offset, alpha
        let stops = |v: &[f64], c: usize| -> Vec<[f64; 5]> { (0..c).map(|i| [v[4 * i], v[4 * i + 1], v[4 * i + 2], v[4 * i + 3], 1.0]).collect() };
        let g = Grad {
            t,
            s: m.p(&[3.0, 4.0], -50.0, 50.0, t == Some(1)),
            e: m.p(&[30.0, 4.0], -50.0, 50.0, t == Some(1)),
            count: 1,
            k: m.p(&[0.0, 1.0, 0.5, 0.25], 0.0, 1.0, true),
            stops,
        };
        let o = m.p(&[60.0], 0.0, 100.0, true);
        let p = if stroke { Sh::GStroke { g, o, l: Line { w: m.p(&[3.0], 0.0, 20.0, true), lc: Some(3), lj: Some(2), ml: Some(5.0) } } } else { Sh::GFill { g, o } };
        (vec![tri(1.0, 2.0, 3.0), p], tf0())
    })
}
fn trims() {
    each(3, |m| {
        let t = Sh::Trim { s: m.p(&[25.0], 0.0, 48.0, false), e: m.p(&[75.0], 56.0, 96.0, false), o: m.p(&[45.0], -360.0, 360.0, false) };
        let l = Sh::Path(PathProp::S(Bez::poly(&[[0.0, 3.0], [64.0, 3.0]], false)));
        (vec![l, t, Sh::Stroke { c: s3(0.5, 0.0, 0.0), o: s1(100.0), l: line(2.0) }], tf0())
    })
}
fn repeaters() {
    each(8, |m| {
        let r = Rep {
            n: m.p(&[3.0], 0.0, 4.0, false),
            off: m.p(&[1.0], -2.0, 2.0, false),
            a: m.p(&[4.0, 5.0], -50.0, 50.0, true),
            p: m.p(&[10.0, 3.0], -50.0, 50.0, true),
            r: m.p(&[30.0], 0.0, 128.0, false),
            s: m.p(&[50.0, 200.0], 25.0, 100.0, false),
            so: m.p(&[90.0], 8.0, 100.0, true),
            eo: m.p(&[40.0], 8.0, 100.0, true),
        };
        (vec![tri(1.0, 2.0, 3.0), fill(0.5, 0.0, 0.0), Sh::Rep(r)], tf0())
    })
}
crate::entries! {
    lone_layer => of_layer;
    lone_group => of_group;
    lone_split => split;
    lone_rect => rect;
    lone_ellipse => ellipse;
    lone_star => star;
    lone_polygon => polygon;
    lone_paints => paints;
    lone_gradients => gradients;
    lone_trims => trims;
    lone_repeaters => repeaters;
}
