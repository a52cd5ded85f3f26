//! Describes the compositions built from the documents of case.json, and what values of the model
//! are at some frames, and compares that with what it should be.
use kurbo::{Point, Vec2};
use peniko::{Brush, Color, GradientKind};
use serde_json::Value as J;
use velato::Composition;
use velato::model::{self, Content, Layer, Shape, Value, animated};

fn shapes(list: &[Shape]) -> String {
    list.iter()
        .map(|s| match s {
            Shape::Group(l, t) => format!("group{} ({} )", if t.is_some() { " moved" } else { "" }, shapes(l)),
            Shape::Geometry(_) => "geometry ".into(),
            Shape::Draw(d) => if d.stroke.is_some() { "stroke ".into() } else { "fill ".to_string() },
            Shape::Repeater(_) => "repeater ".into(),
            Shape::Trim(_) => "trim ".into(),
        })
        .collect()
}
fn layer(l: &Layer, f: f64) -> String {
    let mode = |b: &peniko::BlendMode| format!("{:?} {:?}", b.mix, b.compose);
    let mut s = format!(
        "{:?} frames {:.5} {:.5} stretch {:.5} start {:.5} size {:.5} {:.5} opacity {:.5} parent {:?} matte {} source {} mode {}",
        l.name,
        l.frames.start,
        l.frames.end,
        l.stretch,
        l.start_frame,
        l.width,
        l.height,
        l.opacity.evaluate(f),
        l.parent,
        l.is_mask,
        l.mask_layer.as_ref().map(|m| format!("{} {}", mode(&m.0), m.1)).unwrap_or_default(),
        l.blend_mode.as_ref().map(mode).unwrap_or_default(),
    );
    for m in &l.masks {
        let mut p = vec![];
        m.geometry.evaluate(f, &mut p);
        s += &format!(" mask {:.5} of {}", m.opacity.evaluate(f), p.len());
    }
    s + &match &l.content {
        Content::None => " nothing".into(),
        Content::Instance { name, time_remap } => format!(" instance {name:?} {}", time_remap.as_ref().map(|t| format!("at {:.5}", t.evaluate(f))).unwrap_or_default()),
        Content::Shape(v) => format!(" shapes {}", shapes(v)),
    }
}
fn describe(doc: &J, f: f64) -> Vec<String> {
    let Ok(c) = Composition::from_json(doc.clone()) else { return vec!["refused".into()] };
    let mut out: Vec<String> = c.layers.iter().map(|l| layer(l, f)).collect();
    let mut names: Vec<&String> = c.assets.keys().collect();
    names.sort();
    for n in names {
        out.push(format!("asset {n:?}"));
        out.extend(c.assets[n].iter().map(|l| layer(l, f)));
    }
    out
}
/// values of the model of which one part moves
fn values(f: f64, alpha: f64) -> Vec<String> {
    let mut out = vec![];
    let time = |frame: f64| model::Time { frame, in_tangent: None, out_tangent: None, hold: false };
    let times = || vec![time(0.0), time(8.0)];
    for part in 0..9 {
        let v1 = |k: usize, a: f64, b: f64| if k == part { Value::Animated(model::Animated { times: times(), values: vec![a, b] }) } else { Value::Fixed(a) };
        let vp = |k: usize, a: [f64; 2], b: [f64; 2]| {
            let (a, b) = (Point::new(a[0], a[1]), Point::new(b[0], b[1]));
            if k == part { Value::Animated(model::Animated { times: times(), values: vec![a, b] }) } else { Value::Fixed(a) }
        };
        let vv = |k: usize, a: [f64; 2], b: [f64; 2]| {
            let (a, b) = (Vec2::new(a[0], a[1]), Vec2::new(b[0], b[1]));
            if k == part { Value::Animated(model::Animated { times: times(), values: vec![a, b] }) } else { Value::Fixed(a) }
        };
        let nums = |v: &[f64]| v.iter().map(|x| format!(" {x:.5}")).collect::<String>();
        let r = animated::Repeater {
            copies: v1(0, 3.0, 7.0),
            offset: v1(1, 1.0, 2.0),
            anchor_point: vp(2, [1.0, 2.0], [3.0, 5.0]),
            position: vp(3, [10.0, 0.0], [0.0, 10.0]),
            rotation: v1(4, 0.0, 90.0),
            scale: vv(5, [100.0, 50.0], [50.0, 100.0]),
            start_opacity: v1(6, 100.0, 20.0),
            end_opacity: v1(7, 50.0, 10.0),
        };
        let r = r.into_model().evaluate(f).into_owned();
        let s = nums(&[r.copies as f64, r.offset, r.anchor_point.x, r.anchor_point.y, r.position.x, r.position.y, r.rotation, r.scale.x, r.scale.y, r.start_opacity, r.end_opacity]);
        out.push(format!("repeater{s}"));
        let t = animated::Trim { start: v1(0, 10.0, 20.0), end: v1(1, 50.0, 80.0), offset: v1(2, 0.0, 90.0) };
        let t = t.into_model().evaluate(f).into_owned();
        out.push(format!("trim{}", nums(&[t.start, t.end, t.offset])));
        let t = animated::Transform {
            anchor: vp(0, [1.0, 2.0], [3.0, 5.0]),
            position: if part == 7 || part == 8 {
                animated::Position::SplitValues((v1(7, 1.0, 2.0), v1(8, 3.0, 5.0)))
            } else {
                animated::Position::Value(vp(1, [10.0, 0.0], [0.0, 10.0]))
            },
            rotation: v1(2, 0.0, 90.0),
            scale: vv(3, [100.0, 50.0], [50.0, 100.0]),
            skew: v1(4, 10.0, 20.0),
            skew_angle: v1(5, 0.0, 45.0),
        };
        out.push(format!("transform{}", nums(&t.into_model().evaluate(f).into_owned().as_coeffs())));
        let stop = |o: f32, a: f32| peniko::ColorStop::from((o, Color::new([1.0, 0.5, 0.25, a])));
        let mut stops = peniko::ColorStops::new();
        stops.push(stop(0.0, 1.0));
        stops.push(stop(1.0, 0.5));
        let stops = if part == 2 {
            model::ColorStops::Animated(animated::ColorStops {
                frames: times(),
                values: vec![vec![0.0, 1.0, 0.5, 0.25, 1.0, 1.0, 1.0, 0.5, 0.25, 0.5], vec![0.25, 0.0, 0.5, 0.25, 0.5, 0.75, 1.0, 0.5, 0.25, 1.0]],
                count: 2,
            })
        } else {
            model::ColorStops::Fixed(stops)
        };
        let g = animated::Gradient { is_radial: part % 2 == 1, start_point: vp(0, [0.0, 0.0], [5.0, 5.0]), end_point: vp(1, [10.0, 0.0], [0.0, 20.0]), stops };
        let Brush::Gradient(g) = animated::Brush::Gradient(g).into_model().evaluate(alpha, f).into_owned() else { panic!("not a gradient") };
        let mut s = match &g.kind {
            GradientKind::Linear(l) => nums(&[l.start.x, l.start.y, l.end.x, l.end.y]),
            GradientKind::Radial(r) => nums(&[r.start_center.x, r.start_center.y, r.start_radius as f64, r.end_center.x, r.end_center.y, r.end_radius as f64]),
            _ => " other".into(),
        };
        for x in g.stops.iter() {
            let c = x.color.components;
            s += &format!(" at{}", nums(&[x.offset as f64, c[0] as f64, c[1] as f64, c[2] as f64, c[3] as f64]));
        }
        out.push(format!("gradient{s}"));
        let c = |x: [f32; 4]| Color::new(x);
        let solid = if part == 0 {
            Value::Animated(model::Animated { times: times(), values: vec![c([1.0, 0.5, 0.25, 1.0]), c([0.0, 0.5, 0.75, 0.5])] })
        } else {
            Value::Fixed(c([1.0, 0.5, 0.25, 0.5]))
        };
        let Brush::Solid(c) = animated::Brush::Solid(solid).into_model().evaluate(alpha, f).into_owned() else { panic!("not a colour") };
        out.push(format!("solid{}", nums(&c.components.map(|x| x as f64))));
        let star = animated::Star {
            is_polygon: false,
            direction: 1.0,
            position: vp(0, [1.0, 2.0], [3.0, 5.0]),
            inner_radius: v1(1, 5.0, 8.0),
            inner_roundness: v1(2, 0.0, 50.0),
            outer_radius: v1(3, 10.0, 20.0),
            outer_roundness: v1(4, 50.0, 0.0),
            rotation: v1(5, 0.0, 90.0),
            points: v1(6, 3.0, 7.0),
        };
        let mut p = vec![];
        star.into_model().evaluate(f, &mut p);
        let s: String = p.iter().filter_map(|e| e.end_point()).map(|p| nums(&[p.x, p.y])).collect();
        out.push(format!("star{s}"));
    }
    out
}
/// lines that say the same, numbers within a tolerance
fn alike(a: &str, b: &str) -> bool {
    let (a, b): (Vec<_>, Vec<_>) = (a.split(' ').collect(), b.split(' ').collect());
    a.len() == b.len()
        && a.iter().zip(&b).all(|(x, y)| match (x.parse::<f64>(), y.parse::<f64>()) {
            (Ok(x), Ok(y)) => (x - y).abs() <= 2e-3 || (x.is_nan() && y.is_nan()),
            _ => x == y,
        })
}
fn main() {
    let case: J = serde_json::from_str(include_str!("case.json")).unwrap();
    let mut bad = false;
    for (i, step) in case["steps"].as_array().unwrap().iter().enumerate() {
        let f = step["frame"].as_f64().unwrap_or(0.0);
        let got = match step["doc"].as_u64() {
            Some(k) => describe(&case["docs"][k as usize], f),
            None => values(f, step["alpha"].as_f64().unwrap_or(1.0)),
        };
        if std::env::var_os("PRINT").is_some() {
            println!("{}", serde_json::to_string(&got).unwrap());
            continue;
        }
        let want: Vec<&str> = case["expected"][i].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
        if want.len() != got.len() || !want.iter().zip(&got).all(|(a, b)| alike(a, b)) {
            bad = true;
            println!("step {i}:\n  expected {want:#?}\n  got {got:#?}");
        }
    }
    std::process::exit(bad as i32);
}
