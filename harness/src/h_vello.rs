//! The adapter to vello scenes: the encoding of a scene filled through velato against one filled by
//! calling vello alone.
use crate::doc::*;
use crate::h_more::{DOCS, build};
use crate::vs;
use kurbo::{Affine, BezPath, Cap, Circle, Join, Line, Point, Rect, Shape, Stroke};
use peniko::{BlendMode, Brush, Color, Compose, Fill, Gradient, Mix};
use velato::{RenderSink, model::fixed, vello::Scene};

/// the documented meaning of a sink's operations for a scene
#[derive(Default)]
struct Own(Scene);
impl RenderSink for Own {
    fn push_layer(&mut self, blend: impl Into<BlendMode>, alpha: f32, transform: Affine, shape: &impl Shape) {
        Scene::push_layer(&mut self.0, Fill::NonZero, blend, alpha, transform, shape);
    }
    fn push_clip_layer(&mut self, transform: Affine, shape: &impl Shape) {
        Scene::push_clip_layer(&mut self.0, Fill::NonZero, transform, shape);
    }
    fn pop_layer(&mut self) {
        Scene::pop_layer(&mut self.0);
    }
    fn draw(&mut self, stroke: Option<&fixed::Stroke>, transform: Affine, brush: &fixed::Brush, shape: &impl Shape) {
        match stroke {
            Some(s) => Scene::stroke(&mut self.0, s, transform, brush, None, shape),
            None => Scene::fill(&mut self.0, Fill::NonZero, transform, brush, None, shape),
        }
    }
}
fn f(a: f32, b: f32, msg: &str, i: usize) {
    vs::close(a as f64, b as f64, 1e-4, msg, i);
}
/// words that are numbers, or not
fn words(a: &[u32], b: &[u32], msg: &str) {
    vs::check(a.len() == b.len(), msg);
    for (i, (a, b)) in a.iter().zip(b).enumerate() {
        if a != b {
            let (x, y) = (f32::from_bits(*a), f32::from_bits(*b));
            vs::check(x.is_finite() && y.is_finite() && x.abs() > 1e-30 && y.abs() > 1e-30, msg);
            f(x, y, msg, i);
        }
    }
}
fn same_scene(a: &Scene, b: &Scene) {
    let (a, b) = (a.encoding(), b.encoding());
    vs::check(a.path_tags.len() == b.path_tags.len() && a.path_tags.iter().zip(&b.path_tags).all(|(a, b)| a.0 == b.0), "path tags");
    vs::check(a.draw_tags.len() == b.draw_tags.len() && a.draw_tags.iter().zip(&b.draw_tags).all(|(a, b)| a.0 == b.0), "draw tags");
    vs::check((a.n_paths, a.n_path_segments, a.n_clips, a.n_open_clips, a.flags) == (b.n_paths, b.n_path_segments, b.n_clips, b.n_open_clips, b.flags), "counts");
    vs::check(a.path_data.len() == b.path_data.len(), "path data");
    for (i, (a, b)) in a.path_data.iter().zip(&b.path_data).enumerate() {
        f(f32::from_bits(*a), f32::from_bits(*b), "path data", i);
    }
    words(&a.draw_data, &b.draw_data, "draw data");
    vs::check(a.transforms.len() == b.transforms.len(), "transforms");
    for (a, b) in a.transforms.iter().zip(&b.transforms) {
        for i in 0..4 {
            f(a.matrix[i], b.matrix[i], "transform", i);
        }
        for i in 0..2 {
            f(a.translation[i], b.translation[i], "transform", 4 + i);
        }
    }
    vs::check(a.styles.len() == b.styles.len(), "styles");
    for (a, b) in a.styles.iter().zip(&b.styles) {
        vs::check(a.flags_and_miter_limit == b.flags_and_miter_limit, "style");
        f(a.line_width, b.line_width, "line width", 0);
    }
    let (a, b) = (&a.resources, &b.resources);
    vs::check(a.patches.len() == b.patches.len(), "resources");
    vs::check(a.glyphs.len() + a.glyph_runs.len() == 0, "resources");
    vs::check(a.color_stops.len() == b.color_stops.len(), "colour stops");
    for (a, b) in a.color_stops.iter().zip(&b.color_stops) {
        f(a.offset, b.offset, "stop offset", 0);
        for i in 0..4 {
            f(a.color.components[i], b.color.components[i], "stop colour", i);
        }
    }
}
/// one operation of any kind, the same for both sinks
#[derive(Clone)]
enum Op {
    Layer(BlendMode, f32, Affine, S),
    Clip(Affine, S),
    Pop,
    Draw(Option<Stroke>, Affine, Brush, S),
}
#[derive(Clone)]
enum S {
    Rect(Rect),
    Circle(Circle),
    Line(Line),
    Path(BezPath),
}
fn issue(s: &mut impl RenderSink, o: &Op) {
    fn draw(s: &mut impl RenderSink, o: &Op, p: &impl Shape) {
        match o {
            Op::Layer(b, a, t, _) => s.push_layer(*b, *a, *t, p),
            Op::Clip(t, _) => s.push_clip_layer(*t, p),
            Op::Pop => s.pop_layer(),
            Op::Draw(st, t, b, _) => s.draw(st.as_ref(), *t, b, p),
        }
    }
    match o {
        Op::Pop => s.pop_layer(),
        Op::Layer(.., p) | Op::Clip(_, p) | Op::Draw(.., p) => match p {
            S::Rect(p) => draw(s, o, p),
            S::Circle(p) => draw(s, o, p),
            S::Line(p) => draw(s, o, p),
            S::Path(p) => draw(s, o, p),
        },
    }
}
fn both(ops: &[Op]) {
    let (mut a, mut b) = (Scene::new(), Own::default());
    for o in ops {
        issue(&mut a, o);
        issue(&mut b, o);
    }
    same_scene(&a, &b.0);
}
fn x() -> f64 {
    vs::num("x", -99.0, 99.0, 2)
}
fn tf() -> Affine {
    let t = [[1.0, 0.0, 0.0, 1.0], [2.0, 0.0, 0.0, 0.5], [0.0, 1.0, -1.0, 0.0], [1.0, 0.25, 0.5, 1.0]][vs::choice("transform", 4)];
    Affine::new([t[0], t[1], t[2], t[3], x(), x()])
}
fn shape() -> S {
    let d = vs::num("d", 1.0, 50.0, 2);
    match vs::choice("shape", 6) {
        0 => S::Rect(Rect::new(0.0, 1.0, d, 2.0 + d)),
        1 => S::Circle(Circle::new((1.0, 2.0), 3.0)),
        2 => S::Line(Line::new((0.0, 1.0), (d, 2.0))),
        3 => S::Path(BezPath::new()),
        4 => {
            let mut p = BezPath::new();
            p.move_to((0.0, 0.0));
            p.line_to((d, 0.0));
            p.curve_to((d, 1.0), (d, 2.0), (3.0, 3.0 + d));
            p.close_path();
            p.move_to((10.0, 10.0));
            p.quad_to((10.0 + d, 12.0), (20.0, 20.0));
            S::Path(p)
        }
        _ => {
            let mut p = BezPath::new();
            p.move_to((0.0, 0.0));
            p.line_to((d, 0.0));
            p.line_to((d, d));
            S::Path(p)
        }
    }
}
fn brush() -> Brush {
    let stops = [(0.0_f32, Color::new([1.0, 0.0, 0.0, 1.0])), (0.5, Color::new([0.0, 1.0, 0.0, 0.5])), (1.0, Color::new([0.0, 0.0, 1.0, 1.0]))];
    let n = vs::num("gx", 1.0, 50.0, 2);
    match vs::choice("brush", 6) {
        0 => Brush::Solid(Color::new([vs::num("r", 0.0, 1.0, 3) as f32, 0.5, 0.0, vs::num("alpha", 0.0, 1.0, 3) as f32])),
        1 => Brush::Solid(Color::new([0.0, 0.5, 0.25, 0.25])),
        2 => Brush::Solid(Color::new([0.0, 0.5, 0.25, 0.0])),
        3 => Brush::Gradient(Gradient::new_linear((0.0, 1.0), (n, 3.0)).with_stops(stops)),
        4 => Brush::Gradient(Gradient::new_two_point_radial(Point::new(n, 1.0), 0.0, Point::new(0.0, 1.0), n as f32).with_stops(&stops[..2])),
        _ => Brush::Gradient(Gradient::new_linear((0.0, 1.0), (n, 3.0)).with_stops(&stops[..1])),
    }
}
fn stroke() -> Stroke {
    let cap = |k| [Cap::Butt, Cap::Round, Cap::Square][k];
    let mut s = Stroke::new([0.0, 1.0][vs::choice("width", 2)] * vs::num("w", 0.25, 20.0, 2));
    s.join = [Join::Bevel, Join::Miter, Join::Round][vs::choice("join", 3)];
    s.start_cap = cap(vs::choice("start", 3));
    s.end_cap = cap(vs::choice("end", 3));
    s.miter_limit = [4.0, 1.0, 10.0][vs::choice("miter", 3)];
    s
}
/// fills of every shape and brush
fn fills() {
    both(&[Op::Draw(None, tf(), brush(), shape())]);
}
fn strokes() {
    both(&[Op::Draw(Some(stroke()), tf(), [Brush::Solid(Color::new([1.0, 0.5, 0.0, 1.0])), brush()][vs::choice("plain", 2)].clone(), S::Rect(Rect::new(0.0, 0.0, x(), 5.0)))]);
}
fn stroked_shapes() {
    both(&[Op::Draw(Some(Stroke::new(vs::num("w", 0.25, 20.0, 2))), tf(), brush(), shape())]);
}
fn layers() {
    let mix = [
        Mix::Normal, Mix::Multiply, Mix::Screen, Mix::Overlay, Mix::Darken, Mix::Lighten, Mix::ColorDodge, Mix::ColorBurn, Mix::HardLight, Mix::SoftLight, Mix::Difference, Mix::Exclusion,
        Mix::Hue, Mix::Saturation, Mix::Color, Mix::Luminosity,
    ];
    let compose = [
        Compose::SrcOver, Compose::SrcIn, Compose::SrcOut, Compose::Clear, Compose::Copy, Compose::Dest, Compose::DestOver, Compose::DestIn, Compose::DestOut, Compose::SrcAtop, Compose::DestAtop,
        Compose::Xor, Compose::Plus, Compose::PlusLighter,
    ];
    let b = BlendMode::new(mix[vs::choice("mix", 16)], compose[vs::choice("compose", 14)]);
    let a = [0.0, 0.25, 1.0][vs::choice("alpha", 3)];
    let t = Affine::new([1.0, 0.0, 0.0, 2.0, x(), 1.0]);
    both(&[Op::Layer(b, a, t, S::Rect(Rect::new(0.0, 0.0, 5.0, x()))), Op::Draw(None, t, Brush::Solid(Color::new([1.0, 0.5, 0.0, 1.0])), S::Circle(Circle::new((1.0, 2.0), 3.0))), Op::Pop]);
}
fn layer_alpha() {
    let a = vs::num("a", 0.0, 1.0, 4) as f32;
    both(&[Op::Layer(BlendMode::new(Mix::Normal, Compose::SrcOver), a, tf(), shape()), Op::Pop]);
}
/// sequences of operations, balanced or not
fn sequences() {
    let n = 1 + vs::choice("n", 5);
    let t = Affine::new([1.0, 0.0, 0.0, 2.0, x(), 1.0]);
    let r = S::Rect(Rect::new(0.0, 0.0, x(), 7.0));
    let ops: Vec<Op> = (0..n)
        .map(|k| match vs::choice("op", 6) {
            0 => Op::Layer(BlendMode::new(Mix::Normal, Compose::SrcIn), 0.5, t, r.clone()),
            1 => Op::Clip(t, r.clone()),
            2 => Op::Pop,
            3 => Op::Draw(None, Affine::translate((k as f64, 0.0)), Brush::Solid(Color::new([1.0, 0.5, 0.0, 1.0])), r.clone()),
            4 => Op::Draw(Some(Stroke::new(2.0)), t, Brush::Solid(Color::new([1.0, 0.5, 0.0, 1.0])), r.clone()),
            _ => Op::Draw(None, t, Brush::Gradient(Gradient::new_linear((0.0, 1.0), (2.0, 3.0)).with_stops([(0.0_f32, Color::new([1.0, 0.0, 0.0, 1.0])), (1.0, Color::new([0.0, 0.0, 1.0, 1.0]))])), r.clone()),
        })
        .collect();
    both(&ops);
}
/// whole documents
fn scenes() {
    vs::root_hint(0.5);
    let c = build(vs::choice("document", DOCS), vs::num("x", -9.0, 9.0, 2));
    let fr = [0.0, 5.0, 9.0, 1000.0, -1.0][vs::choice("frame", 5)];
    let t = tf();
    let alpha = [1.0, 0.5, 0.0][vs::choice("alpha", 3)];
    let a = velato::Renderer::new().render_to_vello_scene(&c, fr, t, alpha);
    let mut b = Own::default();
    velato::Renderer::new().append(&c, fr, t, alpha, &mut b);
    same_scene(&a, &b.0);
    let mut d = Scene::new();
    velato::Renderer::new().append(&c, fr, t, alpha, &mut d);
    same_scene(&d, &b.0);
}
fn same_from_both(c: &velato::Composition, fr: f64, t: Affine, alpha: f64) {
    let a = velato::Renderer::new().render_to_vello_scene(c, fr, t, alpha);
    let mut b = Own::default();
    velato::Renderer::new().append(c, fr, t, alpha, &mut b);
    same_scene(&a, &b.0);
}
/// a document of many layers of every sort
fn large() {
    let (d, f) = crate::h_large::many_layers();
    same_from_both(&velato::Composition::from_json(d.json()).unwrap(), f, Affine::new([1.0, 0.5, 0.0, 2.0, 3.0, 4.0]), 0.5);
}
/// the frame is passed on
fn frames() {
    let c = velato::Composition::from_json(doc(vec![Ly { ip: vs::num("ip", -9.0, 9.0, 2), ..layer(vec![tri(1.0, 2.0, 3.0), fill(0.5, 0.25, 1.0)]) }]).json()).unwrap();
    let fr = vs::num("f", -20.0, 20.0, 3);
    let alpha = vs::num("alpha", 0.0, 1.0, 3);
    let a = velato::Renderer::new().render_to_vello_scene(&c, fr, Affine::IDENTITY, alpha);
    let mut b = Own::default();
    velato::Renderer::new().append(&c, fr, Affine::IDENTITY, alpha, &mut b);
    same_scene(&a, &b.0);
}
crate::entries! {
    c24_fills => fills;
    c24_strokes => strokes;
    c24_stroked => stroked_shapes;
    c24_layers => layers;
    c24_alpha => layer_alpha;
    c24_sequences => sequences;
    c24_scenes => scenes;
    c24_frames => frames;
    c24_large => large;
}
