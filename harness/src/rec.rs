//! A render sink that records every operation, and comparison of recordings.
use crate::vs;
use kurbo::{Affine, PathEl, Point};
use velato::model::fixed;

#[derive(Clone, Debug, PartialEq)]
pub enum Br {
    Solid([f64; 4]),
    Linear { pts: [f64; 4], stops: Vec<[f64; 5]> },
    Radial { c: [f64; 2], r: f64, c0: [f64; 2], r0: f64, stops: Vec<[f64; 5]> },
    Other,
}
#[derive(Clone, Debug, PartialEq)]
pub struct St {
    pub width: f64,
    pub miter: Option<f64>,
    pub join: u8,
    pub caps: (u8, u8),
    pub dashes: usize,
}
/// path element: kind and coordinates
#[derive(Clone, Debug, PartialEq)]
pub struct El {
    pub k: char,
    pub p: Vec<f64>,
}
pub type Path = Vec<El>;
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    PushLayer { mix: u8, compose: u8, alpha: f64, tf: [f64; 6], shape: Path },
    PushClip { tf: [f64; 6], shape: Path },
    Pop,
    Draw { stroke: Option<St>, tf: [f64; 6], brush: Br, path: Path },
    Begin { name: String, index: usize },
    End,
}

pub fn el(e: PathEl) -> El {
    let f = |k, p: &[Point]| El { k, p: p.iter().flat_map(|p| [p.x, p.y]).collect() };
    match e {
        PathEl::MoveTo(a) => f('M', &[a]),
        PathEl::LineTo(a) => f('L', &[a]),
        PathEl::QuadTo(a, b) => f('Q', &[a, b]),
        PathEl::CurveTo(a, b, c) => f('C', &[a, b, c]),
        PathEl::ClosePath => f('Z', &[]),
    }
}
pub fn path_of(s: &impl kurbo::Shape) -> Path {
    s.path_elements(0.1).map(el).collect()
}
pub fn stroke_of(s: &kurbo::Stroke) -> St {
    let cap = |c| match c {
        kurbo::Cap::Butt => 1,
        kurbo::Cap::Round => 2,
        kurbo::Cap::Square => 3,
    };
    St {
        width: s.width,
        miter: Some(s.miter_limit),
        join: match s.join {
            kurbo::Join::Miter => 1,
            kurbo::Join::Round => 2,
            kurbo::Join::Bevel => 3,
        },
        caps: (cap(s.start_cap), cap(s.end_cap)),
        dashes: s.dash_pattern.len(),
    }
}
pub fn brush_of(b: &fixed::Brush) -> Br {
    use peniko::{Brush, GradientKind};
    match b {
        Brush::Solid(c) => Br::Solid(c.components.map(|x| x as f64)),
        Brush::Gradient(g) => {
            let stops = g
                .stops
                .iter()
                .map(|s| {
                    let c = s.color.components;
                    [s.offset as f64, c[0] as f64, c[1] as f64, c[2] as f64, c[3] as f64]
                })
                .collect();
            match &g.kind {
                GradientKind::Linear(p) => Br::Linear { pts: [p.start.x, p.start.y, p.end.x, p.end.y], stops },
                GradientKind::Radial(p) => Br::Radial {
                    c: [p.end_center.x, p.end_center.y],
                    r: p.end_radius as f64,
                    c0: [p.start_center.x, p.start_center.y],
                    r0: p.start_radius as f64,
                    stops,
                },
                _ => Br::Other,
            }
        }
        _ => Br::Other,
    }
}

#[derive(Default)]
pub struct Rec {
    pub ev: Vec<Ev>,
}
impl velato::RenderSink for Rec {
    fn push_layer(&mut self, blend: impl Into<peniko::BlendMode>, alpha: f32, transform: Affine, shape: &impl kurbo::Shape) {
        let b = blend.into();
        self.ev.push(Ev::PushLayer {
            mix: b.mix as u8,
            compose: b.compose as u8,
            alpha: alpha as f64,
            tf: transform.as_coeffs(),
            shape: path_of(shape),
        });
    }
    fn push_clip_layer(&mut self, transform: Affine, shape: &impl kurbo::Shape) {
        self.ev.push(Ev::PushClip { tf: transform.as_coeffs(), shape: path_of(shape) });
    }
    fn pop_layer(&mut self) {
        self.ev.push(Ev::Pop);
    }
    fn draw(&mut self, stroke: Option<&fixed::Stroke>, transform: Affine, brush: &fixed::Brush, shape: &impl kurbo::Shape) {
        self.ev.push(Ev::Draw {
            stroke: stroke.map(stroke_of),
            tf: transform.as_coeffs(),
            brush: brush_of(brush),
            path: path_of(shape),
        });
    }
    fn begin_layer_group(&mut self, name: &str, index: usize) {
        self.ev.push(Ev::Begin { name: name.to_string(), index });
    }
    fn end_layer_group(&mut self) {
        self.ev.push(Ev::End);
    }
}

/// Splits draws into one event per subpath, so that it does not matter whether
/// geometry under one paint and transform is emitted together or apart.
pub fn normal(v: &[Ev]) -> Vec<Ev> {
    let mut o = vec![];
    for e in v {
        match e {
            Ev::Draw { stroke, tf, brush, path } => {
                let mut cur: Path = vec![];
                for x in path {
                    if x.k == 'M' && !cur.is_empty() {
                        o.push(Ev::Draw { stroke: stroke.clone(), tf: *tf, brush: brush.clone(), path: std::mem::take(&mut cur) });
                    }
                    cur.push(x.clone());
                }
                if !cur.is_empty() {
                    o.push(Ev::Draw { stroke: stroke.clone(), tf: *tf, brush: brush.clone(), path: cur });
                }
            }
            e => o.push(e.clone()),
        }
    }
    o
}

pub struct Tol {
    pub pos: f64,
    pub col: f64,
}
pub const TOL: Tol = Tol { pos: 1e-6, col: 1e-5 };

pub fn cmp_nums(a: &[f64], b: &[f64], tol: f64, msg: &str, i: usize) {
    vs::check(a.len() == b.len(), msg);
    for (x, y) in a.iter().zip(b) {
        vs::close(*x, *y, tol, msg, i);
    }
}
pub fn cmp_path(a: &Path, b: &Path, t: &Tol, msg: &str, i: usize) {
    vs::check(a.len() == b.len(), msg);
    for (x, y) in a.iter().zip(b) {
        vs::check(x.k == y.k, msg);
        cmp_nums(&x.p, &y.p, t.pos, msg, i);
    }
}
pub fn cmp_stroke(a: &Option<St>, b: &Option<St>, t: &Tol, i: usize) {
    match (a, b) {
        (None, None) => {}
        (Some(x), Some(y)) => {
            vs::close(x.width, y.width, t.pos, "stroke width", i);
            vs::check(x.join == y.join, "stroke join");
            vs::check(x.caps == y.caps, "stroke caps");
            vs::check(x.dashes == y.dashes, "stroke dashes");
            if let (Some(p), Some(q)) = (x.miter, y.miter) {
                vs::close(p, q, t.pos, "stroke miter limit", i);
            }
        }
        _ => vs::check(false, "fill drawn as stroke or stroke drawn as fill"),
    }
}
fn cmp_stops(a: &[[f64; 5]], b: &[[f64; 5]], t: &Tol, i: usize) {
    vs::check(a.len() == b.len(), "gradient stop count");
    for (x, y) in a.iter().zip(b) {
        cmp_nums(x, y, t.col, "gradient stop", i);
    }
}
pub fn cmp_brush(a: &Br, b: &Br, t: &Tol, i: usize) {
    match (a, b) {
        (Br::Solid(x), Br::Solid(y)) => cmp_nums(x, y, t.col, "brush colour", i),
        (Br::Linear { pts: p, stops: s }, Br::Linear { pts: q, stops: r }) => {
            cmp_nums(p, q, t.pos, "linear gradient points", i);
            cmp_stops(s, r, t, i);
        }
        (Br::Radial { c, r, c0, r0, stops }, Br::Radial { c: c_, r: r_, c0: c0_, r0: r0_, stops: stops_ }) => {
            cmp_nums(c, c_, t.pos, "radial gradient centre", i);
            cmp_nums(c0, c0_, t.pos, "radial gradient start centre", i);
            vs::close(*r, *r_, 1e-3, "radial gradient radius", i);
            vs::close(*r0, *r0_, t.pos, "radial gradient start radius", i);
            cmp_stops(stops, stops_, t, i);
        }
        _ => vs::check(false, "brush kind"),
    }
}
/// `got` must be the same operations as `want`.
pub fn same(got: &[Ev], want: &[Ev], t: &Tol) {
    let (g, w) = (normal(got), normal(want));
    for (i, (a, b)) in g.iter().zip(&w).enumerate() {
        match (a, b) {
            (Ev::Pop, Ev::Pop) | (Ev::End, Ev::End) => {}
            (Ev::Begin { name, index }, Ev::Begin { name: n, index: k }) => {
                vs::check(name == n, "layer group name");
                vs::check(index == k, "layer group index");
            }
            (Ev::PushClip { tf, shape }, Ev::PushClip { tf: u, shape: s }) => {
                cmp_nums(tf, u, t.pos, "clip transform", i);
                cmp_path(shape, s, t, "clip path", i);
            }
            (Ev::PushLayer { mix, compose, alpha, tf, shape }, Ev::PushLayer { mix: m, compose: c, alpha: a, tf: u, shape: s }) => {
                vs::check(mix == m && compose == c, "layer blend mode");
                vs::close(*alpha, *a, t.col, "layer alpha", i);
                cmp_nums(tf, u, t.pos, "layer transform", i);
                cmp_path(shape, s, t, "layer shape", i);
            }
            (Ev::Draw { stroke, tf, brush, path }, Ev::Draw { stroke: s, tf: u, brush: b, path: p }) => {
                cmp_stroke(stroke, s, t, i);
                cmp_nums(tf, u, t.pos, "draw transform", i);
                cmp_brush(brush, b, t, i);
                cmp_path(path, p, t, "draw path", i);
            }
            _ => vs::check(false, "unexpected operation"),
        }
    }
    vs::check(g.len() >= w.len(), "operations missing");
    vs::check(g.len() <= w.len(), "extra operations");
}
/// Draw events only
pub fn draws(v: &[Ev]) -> Vec<Ev> {
    v.iter().filter(|e| matches!(e, Ev::Draw { .. })).cloned().collect()
}
