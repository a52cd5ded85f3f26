//! Renders the documents of case.json and compares what is drawn with what should be.
use kurbo::{Affine, PathEl, Point, Shape};
use peniko::{BlendMode, Brush, GradientKind};
use serde_json::Value as J;
use velato::model::{self, fixed};
use velato::{Composition, RenderSink, Renderer};

#[derive(Default)]
struct Log(Vec<String>);
fn path(shape: &impl Shape, t: Affine) -> String {
    let mut s = String::new();
    let p = |q: Point| {
        let q = t * q;
        format!(" {:.5} {:.5}", q.x, q.y)
    };
    for e in shape.path_elements(0.1) {
        s += &match e {
            PathEl::MoveTo(a) => format!(" M{}", p(a)),
            PathEl::LineTo(a) => format!(" L{}", p(a)),
            PathEl::QuadTo(a, b) => format!(" Q{}{}", p(a), p(b)),
            PathEl::CurveTo(a, b, c) => format!(" C{}{}{}", p(a), p(b), p(c)),
            PathEl::ClosePath => " Z".into(),
        };
    }
    s
}
fn brush(b: &fixed::Brush, t: Affine) -> String {
    let c = |c: [f32; 4]| format!(" {:.5} {:.5} {:.5} {:.5}", c[0], c[1], c[2], c[3]);
    let p = |q: Point| {
        let q = t * q;
        format!(" {:.5} {:.5}", q.x, q.y)
    };
    match b {
        Brush::Solid(x) => format!(" solid{}", c(x.components)),
        Brush::Gradient(g) => {
            let kind = match &g.kind {
                GradientKind::Linear(l) => format!(" linear{}{}", p(l.start), p(l.end)),
                GradientKind::Radial(r) => format!(" radial{} {:.5}{} {:.5}", p(r.start_center), r.start_radius, p(r.end_center), r.end_radius),
                _ => " other".into(),
            };
            kind + &g.stops.iter().map(|s| format!(" at {:.5}{}", s.offset, c(s.color.components))).collect::<String>()
        }
        _ => " other".into(),
    }
}
impl RenderSink for Log {
    fn push_layer(&mut self, blend: impl Into<BlendMode>, alpha: f32, transform: Affine, shape: &impl Shape) {
        let b = blend.into();
        self.0.push(format!("layer {:?} {:?} {alpha:.5}{}", b.mix, b.compose, path(shape, transform)));
    }
    fn push_clip_layer(&mut self, transform: Affine, shape: &impl Shape) {
        self.0.push(format!("clip{}", path(shape, transform)));
    }
    fn pop_layer(&mut self) {
        self.0.push("pop".into());
    }
    fn draw(&mut self, stroke: Option<&fixed::Stroke>, transform: Affine, b: &fixed::Brush, shape: &impl Shape) {
        let how = match stroke {
            None => "fill".to_string(),
            Some(s) => format!("stroke {:.5} {:.5} {:?} {:?} {:?}", s.width, s.miter_limit, s.join, s.start_cap, s.end_cap),
        };
        self.0.push(format!("{how}{}{}", brush(b, transform), path(shape, transform)));
    }
}

fn num(v: &J, k: &str, or: f64) -> f64 {
    v[k].as_f64().unwrap_or(or)
}
/// puts a repeater at a place in a list of shapes
fn insert(shapes: &mut Vec<model::Shape>, at: &[usize], r: &J) {
    if at.len() > 1 {
        let model::Shape::Group(inner, _) = &mut shapes[at[0]] else { panic!("no group there") };
        return insert(inner, &at[1..], r);
    }
    let repeater = fixed::Repeater {
        copies: num(r, "copies", 2.0) as usize,
        offset: num(r, "offset", 0.0),
        anchor_point: Point::new(num(r, "ax", 0.0), num(r, "ay", 0.0)),
        position: Point::new(num(r, "x", 0.0), num(r, "y", 0.0)),
        rotation: num(r, "rotation", 0.0),
        scale: kurbo::Vec2::new(num(r, "sx", 100.0), num(r, "sy", 100.0)),
        start_opacity: num(r, "so", 100.0),
        end_opacity: num(r, "eo", 100.0),
    };
    shapes.insert(at[0], model::Shape::Repeater(model::Repeater::Fixed(repeater)));
}
fn import(step: &J, doc: &J) -> Result<Composition, String> {
    let mut c = if step["via"] == "schema" {
        // through the document types and back
        let a = velato::schema::Animation::from_json(doc.clone()).map_err(|e| e.to_string())?;
        let v = serde_json::to_value(&a).map_err(|e| e.to_string())?;
        Composition::from_json(v).map_err(|e| e.to_string())?
    } else if step["via"] == "text" {
        let a = velato::schema::Animation::from_slice(doc.to_string().as_bytes()).map_err(|e| e.to_string())?;
        a.to_string().parse::<Composition>().map_err(|e| e.to_string())?
    } else if step["bom"] == true {
        ["\u{feff}", &doc.to_string()].concat().parse::<Composition>().map_err(|e| e.to_string())?
    } else {
        Composition::from_slice(doc.to_string().as_bytes()).map_err(|e| e.to_string())?
    };
    if let Some(r) = step.get("repeater") {
        let at: Vec<usize> = r["at"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
        let model::Content::Shape(shapes) = &mut c.layers[0].content else { panic!("no shapes") };
        insert(shapes, &at, r);
    }
    Ok(c)
}
/// lines that say the same, numbers within a tolerance
fn alike(a: &str, b: &str) -> bool {
    let (a, b): (Vec<_>, Vec<_>) = (a.split(' ').collect(), b.split(' ').collect());
    a.len() == b.len()
        && a.iter().zip(&b).all(|(x, y)| match (x.parse::<f64>(), y.parse::<f64>()) {
            (Ok(x), Ok(y)) => (x - y).abs() <= 2e-3 || (x.is_nan() && y.is_nan()),
            _ => x == y,
        })
}
fn main() {
    let case: J = serde_json::from_str(include_str!("case.json")).unwrap();
    let mut shared = Renderer::new();
    let mut bad = false;
    let mut kept: Option<Composition> = None;
    for (i, step) in case["steps"].as_array().unwrap().iter().enumerate() {
        let doc = &case["docs"][step["doc"].as_u64().unwrap_or(0) as usize];
        let mut log = Log::default();
        match import(step, doc) {
            Err(_) => log.0.push("refused".into()),
            Ok(mut c) => {
                if let (true, Some(mut k)) = (step["edit"] == true, kept.take()) {
                    // the composition of the step before, changed in place
                    for (a, b) in k.layers.iter_mut().zip(&c.layers) {
                        *a = b.clone();
                    }
                    c = k;
                }
                let mut own = Renderer::new();
                let r = if case["reuse"] == true { &mut shared } else { &mut own };
                let alpha = num(step, "alpha", 1.0);
                r.append(&c, num(step, "frame", 0.0), Affine::new([2.0, 0.0, 0.0, 1.0, num(step, "tx", 3.0), 4.0]), alpha, &mut log);
                kept = Some(c);
            }
        }
        if std::env::var_os("PRINT").is_some() {
            println!("{}", serde_json::to_string(&log.0).unwrap());
            continue;
        }
        let want: Vec<&str> = case["expected"][i].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
        if want.len() != log.0.len() || !want.iter().zip(&log.0).all(|(a, b)| alike(a, b)) {
            bad = true;
            println!("step {i}:\n  expected {want:#?}\n  got {:#?}", log.0);
        }
    }
    std::process::exit(bad as i32);
}
