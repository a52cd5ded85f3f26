//! Evaluates and renders models put together by hand, with keyframes and indices that do not fit,
//! and compares what comes of it with what should.
use kurbo::{Affine, PathEl, Point, Shape as _};
use peniko::{BlendMode, Color, Compose, Mix};
use serde_json::Value as J;
use velato::model::{self, Animated, Content, Draw, Geometry, Layer, Shape, Time, Value, animated, fixed};
use velato::{Composition, RenderSink, Renderer};

#[derive(Default)]
struct Log(String);
impl RenderSink for Log {
    fn push_layer(&mut self, blend: impl Into<BlendMode>, alpha: f32, _: Affine, _: &impl kurbo::Shape) {
        self.0 += &format!("layer {:?} {alpha:.3}, ", blend.into().compose);
    }
    fn push_clip_layer(&mut self, _: Affine, _: &impl kurbo::Shape) {
        self.0 += "clip, ";
    }
    fn pop_layer(&mut self) {
        self.0 += "pop, ";
    }
    fn draw(&mut self, _: Option<&fixed::Stroke>, t: Affine, _: &fixed::Brush, shape: &impl kurbo::Shape) {
        let c = t.as_coeffs();
        self.0 += &format!("draw {:.3} {:.3} of {}, ", c[4], c[5], shape.path_elements(0.1).count());
    }
}
fn shown(layers: Vec<Layer>) -> String {
    let c = Composition { frames: 0.0..9.0, frame_rate: 30.0, width: 9, height: 9, assets: Default::default(), layers };
    let mut log = Log::default();
    Renderer::new().append(&c, 2.0, Affine::IDENTITY, 1.0, &mut log);
    log.0
}
fn time(frame: f64) -> Time {
    Time { frame, in_tangent: None, out_tangent: None, hold: false }
}
fn layer(shapes: Vec<Shape>) -> Layer {
    Layer { frames: 0.0..9.0, stretch: 1.0, opacity: Value::Fixed(100.0), content: Content::Shape(shapes), ..Layer::default() }
}
fn fill() -> Shape {
    Shape::Draw(Draw { stroke: None, brush: model::Brush::Fixed(Color::WHITE.into()), opacity: Value::Fixed(100.0) })
}
fn path() -> Shape {
    Shape::Geometry(Geometry::Fixed(kurbo::Rect::new(0.0, 0.0, 2.0, 2.0).path_elements(0.1).collect()))
}
fn cases() -> Vec<(&'static str, Box<dyn Fn() -> String>)> {
    vec![
        ("numbers", Box::new(|| {
            let mut s = String::new();
            for (times, values) in [(2, 2), (2, 1), (3, 2), (1, 0), (0, 1), (1, 3)] {
                let a = Animated { times: (0..times).map(|t| time(4.0 * t as f64)).collect(), values: (0..values).map(|v| v as f64).collect() };
                s += &format!("{:?} ", [-1.0, 0.0, 2.0, 4.0, 6.0, 9.0].map(|f| a.evaluate_or(f, 7.0)));
            }
            s
        })),
        ("stops", Box::new(|| {
            let mut s = String::new();
            for lens in [[10, 10], [10, 5], [9, 10], [0, 10], [4, 4]] {
                for count in [0, 1, 2, 3] {
                    let c = animated::ColorStops { frames: vec![time(0.0), time(4.0)], values: lens.iter().map(|l| vec![0.5; *l]).collect(), count };
                    s += &format!("{} ", c.evaluate(2.0).len());
                }
            }
            s
        })),
        ("splines", Box::new(|| {
            let mut s = String::new();
            for lens in [[6, 6], [6, 3], [3, 6], [0, 6], [2, 2]] {
                let start = |l: usize| animated::SplineKeyframeValues { start: vec![Point::new(1.0, 2.0); l], end: None };
                let g = animated::Spline { is_closed: true, times: vec![time(0.0), time(4.0), time(6.0)], values: lens.iter().map(|l| start(*l)).collect() };
                let mut p: Vec<PathEl> = vec![];
                for f in [0.0, 2.0, 5.0, 9.0] {
                    g.evaluate(f, &mut p);
                }
                s += &format!("{} ", p.len());
            }
            s
        })),
        ("mattes", Box::new(|| {
            let m = |k| Layer { mask_layer: Some((BlendMode::new(Mix::Normal, Compose::SrcIn), k)), ..layer(vec![path(), fill()]) };
            shown(vec![m(0), m(1), m(7), layer(vec![path(), fill()])])
        })),
        ("parents", Box::new(|| {
            let at = |k| Layer { parent: Some(k), transform: model::Transform::Fixed(Affine::translate((1.0, 2.0))), ..layer(vec![path(), fill()]) };
            shown(vec![at(1), at(2), at(9), at(3)])
        })),
        ("counts", Box::new(|| {
            let mut s = String::new();
            for n in [-2.0, 0.4, 3.0] {
                let star = animated::Star {
                    is_polygon: true,
                    direction: 1.0,
                    position: Value::default(),
                    inner_radius: Value::default(),
                    inner_roundness: Value::default(),
                    outer_radius: Value::Fixed(4.0),
                    outer_roundness: Value::default(),
                    rotation: Value::default(),
                    points: Value::Fixed(n),
                };
                s += &shown(vec![layer(vec![Shape::Geometry(star.into_model()), fill()])]);
            }
            for copies in [0, 1, 3] {
                let r = fixed::Repeater { copies, offset: 0.0, anchor_point: Point::ZERO, position: Point::new(3.0, 0.0), rotation: 0.0, scale: kurbo::Vec2::new(100.0, 100.0), start_opacity: 100.0, end_opacity: 100.0 };
                s += &shown(vec![layer(vec![path(), fill(), Shape::Repeater(model::Repeater::Fixed(r))])]);
            }
            s
        })),
    ]
}
fn main() {
    let case: J = serde_json::from_str(include_str!("case.json")).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let got: Vec<String> = cases().into_iter().map(|(name, f)| format!("{name}: {}", std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or("panicked".into()))).collect();
    if std::env::var_os("PRINT").is_some() {
        println!("{}", serde_json::to_string(&got).unwrap());
        return;
    }
    let want: Vec<&str> = case["expected"][0].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    for (a, b) in want.iter().zip(&got) {
        if a != b {
            println!("expected {a}\n     got {b}");
        }
    }
    std::process::exit((want != got) as i32);
}
