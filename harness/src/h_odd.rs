//! Models nobody imports but anybody may build: evaluating and rendering them must still return,
//! and what is emitted be well nested (C28).
use crate::h_any::{SAMPLES, sample};
use crate::h_layer::balanced;
use crate::rec::*;
use crate::vs;
use kurbo::{Affine, PathEl, Point, Size, Vec2};
use peniko::{BlendMode, Color, Compose, Mix};
use velato::Composition;
use velato::model::{self, Animated, Content, Draw, EasingHandle, Geometry, GroupTransform, Layer, Mask, Shape, Time, Tween, Value, animated, fixed};

fn frame() -> f64 {
    match vs::choice("frame", 5) {
        0 => vs::num("f", -20.0, 20.0, 2),
        k => [f64::NAN, f64::INFINITY, -f64::INFINITY, 1.0e300][k - 1],
    }
}
/// keyframe times in any order
fn times() -> Vec<Time> {
    let n = vs::choice("times", 4);
    let t = [[0.0, 4.0, 9.0], [9.0, 4.0, 0.0], [3.0, 3.0, 3.0], [0.0, f64::NAN, 5.0], [f64::NEG_INFINITY, 0.0, f64::INFINITY]][if n == 0 { 0 } else { vs::choice("order", 5) }];
    let hold = n > 0 && vs::flag("hold");
    let handles = if n > 0 { vs::choice("handles", 3) } else { 0 };
    t[..n]
        .iter()
        .map(|t| Time {
            frame: *t,
            in_tangent: (handles == 1).then_some(EasingHandle { x: 0.5, y: 2.0 }),
            out_tangent: (handles > 0).then_some(EasingHandle { x: 0.25, y: -1.0 }),
            hold,
        })
        .collect()
}
fn values<T: Tween>(f: impl Fn(f64) -> T) -> Animated<T> {
    let times = times();
    let n = vs::choice("values", 4);
    let x = vs::num("x", -100.0, 100.0, 2);
    Animated { times, values: [x, 2.0, -3.0][..n].iter().map(|v| f(*v)).collect() }
}
/// the value the frame asks for, or the default where there is none
fn got(a: &Animated<f64>, f: f64) {
    let v = a.evaluate_or(f, 77.0);
    if a.times.is_empty() || a.values.is_empty() {
        return vs::check(v == 77.0, "value where there is none");
    }
    vs::check(Value::Animated(a.clone()).evaluate(f) == v || v == 77.0 || v.is_nan(), "value or default");
    // sorted times and one value each: bounded by them without handles
    if a.times.len() == a.values.len() && a.times[0].out_tangent.is_none() && a.times.windows(2).all(|w| w[0].frame < w[1].frame) && a.times[0].frame.is_finite() && f.is_finite() {
        let low = a.values.iter().copied().fold(f64::INFINITY, f64::min);
        let high = a.values.iter().copied().fold(f64::NEG_INFINITY, f64::max);
        vs::cover("between the keyframes");
        vs::check(v >= low - 1e-9 && v <= high + 1e-9, "value outside its keyframes");
    }
}
fn shape_layer(shapes: Vec<Shape>) -> Layer {
    Layer { frames: f64::NEG_INFINITY..f64::INFINITY, stretch: 1.0, opacity: Value::Fixed(100.0), content: Content::Shape(shapes), ..Layer::default() }
}
fn fill() -> Shape {
    Shape::Draw(Draw { stroke: None, brush: model::Brush::Fixed(Color::new([1.0, 0.5, 0.25, 1.0]).into()), opacity: Value::Fixed(100.0) })
}
fn tri(x: f64) -> Geometry {
    Geometry::Fixed(vec![PathEl::MoveTo(Point::new(x, 0.0)), PathEl::LineTo(Point::new(x + 3.0, 4.0)), PathEl::LineTo(Point::new(x, 4.0)), PathEl::ClosePath])
}
fn comp(layers: Vec<Layer>) -> Composition {
    Composition { frames: 0.0..100.0, frame_rate: 30.0, width: 64, height: 48, assets: Default::default(), layers }
}
fn shown(c: &Composition, f: f64) -> Vec<Ev> {
    let mut r = Rec::default();
    velato::Renderer::new().append(c, f, Affine::IDENTITY, 1.0, &mut r);
    balanced(&r.ev, c.width, c.height, crate::doc::ID);
    vs::check(r.ev.len() < 2000, "no end of operations");
    r.ev
}
/// numbers, points and colours of too few, too many or disordered keyframes
fn lists() {
    let f = frame();
    match vs::choice("type", 6) {
        0 => got(&values(|x| x), f),
        1 => drop(values(|x| Point::new(x, x)).evaluate_or(f, Point::ZERO)),
        2 => drop(values(|x| Color::new([x as f32, 0.5, 1.0, 1.0])).evaluate_or(f, Color::TRANSPARENT)),
        3 => drop(Value::Animated(values(|x| Size::new(x, -x))).evaluate(f)),
        4 => drop(Value::Animated(values(|x| Vec2::new(-x, x))).evaluate(f)),
        _ => {
            // a layer of that opacity and place
            let mut l = shape_layer(vec![Shape::Geometry(tri(0.0)), fill()]);
            l.opacity = Value::Animated(values(|x| x));
            let ev = shown(&comp(vec![l]), f);
            // frames are never within a range of infinite ends unless they are finite
            vs::check(draws(&ev).len() == (f.is_finite() || f == f64::NEG_INFINITY) as usize, "one shape");
        }
    }
}
/// stops: too few numbers, too few lists, too many declared
fn stops() {
    let f = frame();
    let frames = times();
    let len = [0, 4, 5, 9, 10, 12][vs::choice("length", 6)];
    let last = [0, 10][vs::choice("last", 2)];
    let x = vs::num("x", 0.0, 1.0, 3);
    let n = vs::choice("lists", 4);
    let values = (0..n).map(|i| vec![x; if i + 1 == n { last } else { len }]).collect();
    let count = [0, 1, usize::MAX][vs::choice("count", 3)];
    let s = animated::ColorStops { frames, values, count };
    let o = s.evaluate(f);
    vs::check(o.len() <= count && o.len() <= 2, "stops from nowhere");
    vs::check(!s.frames.is_empty() || o.is_empty(), "stops of no keyframes");
    let g = animated::Gradient { is_radial: vs::flag("radial"), start_point: Value::Fixed(Point::ZERO), end_point: Value::Fixed(Point::new(x, x)), stops: model::ColorStops::Animated(s) };
    let brush = animated::Brush::Gradient(g).into_model();
    let ev = shown(&comp(vec![shape_layer(vec![Shape::Geometry(tri(0.0)), Shape::Draw(Draw { stroke: None, brush, opacity: Value::Fixed(50.0) })])]), 5.0);
    vs::check(draws(&ev).len() == 1, "one shape");
}
/// splines: lists of points that differ in length or are not of whole vertices
fn splines() {
    // lengths of moving curves are not decided
    let trimmed = vs::flag("trimmed");
    let (f, x) = if trimmed { (3.0, 1.0) } else { (frame(), vs::num("x", -100.0, 100.0, 2)) };
    let points = |n: usize| (0..n).map(|i| Point::new(x + i as f64, 2.0 * i as f64)).collect::<Vec<_>>();
    let lens = [0, 1, 3, 5, 6];
    let (a, b) = (lens[vs::choice("first", 5)], lens[vs::choice("second", 5)]);
    let end = match vs::choice("end", 4) {
        0 => None,
        k => Some(points([0, 4, 6][k - 1])),
    };
    let n = vs::choice("lists", 4);
    let values = (0..n).map(|i| animated::SplineKeyframeValues { start: points(if i % 2 == 0 { a } else { b }), end: end.clone() }).collect();
    let g = Geometry::Spline(animated::Spline { is_closed: vs::flag("closed"), times: if vs::flag("ordered") { [0.0, 5.0, 9.0].map(|t| Time { frame: t, in_tangent: None, out_tangent: None, hold: false }).to_vec() } else { times() }, values });
    let mut path = vec![PathEl::MoveTo(Point::ZERO)];
    g.evaluate(f, &mut path);
    vs::check(path.len() <= 6 && path[0] == PathEl::MoveTo(Point::ZERO), "path grows by its vertices");
    vs::check(path.get(1).is_none_or(|e| matches!(e, PathEl::MoveTo(_))), "path begins with a move");
    let mut l = shape_layer(vec![Shape::Geometry(g.clone()), fill()]);
    if let (true, Content::Shape(s)) = (trimmed, &mut l.content) {
        s.insert(1, Shape::Trim(model::Trim::Fixed(fixed::Trim { start: 10.0, end: 60.0, offset: 30.0 })));
    }
    l.masks = vec![Mask { mode: Mix::Normal.into(), geometry: g, opacity: Value::default() }];
    shown(&comp(vec![l]), f);
}
/// parents and mattes that are not there, or are the layer itself
fn links() {
    let name = |k: usize| ["a", "b", "c"][k].to_string();
    let mut layers: Vec<Layer> = (0..3).map(|k| Layer { name: name(k), ..shape_layer(vec![Shape::Geometry(tri(k as f64)), fill()]) }).collect();
    let at = |name: &str| match vs::choice(name, 5) {
        0 => None,
        4 => Some([7, usize::MAX][vs::choice("far", 2)]),
        k => Some(k - 1),
    };
    let which = vs::choice("what", 3);
    for k in 0..3 {
        if which != 1 || k == 1 {
            layers[k].parent = at("parent");
        }
        if which == 1 || which == 2 && k == 1 {
            layers[k].mask_layer = at("matte").map(|m| (BlendMode::new(Mix::Normal, [Compose::SrcIn, Compose::SrcOut][k % 2]), m));
        }
    }
    if which > 0 {
        layers[vs::choice("mark", 3)].is_mask = true;
    }
    let ev = shown(&comp(layers), frame());
    vs::cover("rendered");
    // every layer that is not a source is drawn once
    if ev.len() > 2 && which == 0 {
        vs::check(draws(&ev).len() == 3, "three layers");
    }
}
/// instances of each other, of nothing, of themselves, of odd stretch
fn instances() {
    let names = ["a", "b", "gone", ""];
    let inst = |name: &str| Layer {
        content: Content::Instance { name: names[vs::choice(name, 4)].into(), time_remap: None },
        stretch: [1.0, 0.0, -2.0, f64::NAN][vs::choice("stretch", 4)],
        start_frame: 3.0,
        ..shape_layer(vec![])
    };
    let body = |x: f64| shape_layer(vec![Shape::Geometry(tri(x)), fill()]);
    let mut c = comp(vec![inst("top"), body(1.0)]);
    c.assets.insert("a".into(), vec![inst("in a"), body(2.0)]);
    c.assets.insert("b".into(), if vs::flag("empty") { vec![] } else { vec![body(3.0), inst("in b")] });
    shown(&c, frame());
}
/// imported compositions that are changed afterwards
fn edited() {
    let Ok(mut c) = Composition::from_json(sample(vs::choice("sample", SAMPLES))) else { return vs::check(false, "import failed") };
    let edit = vs::choice("edit", 6);
    let how = if edit == 0 || edit == 2 { vs::choice("layers", 4) } else { 0 };
    let keep = |v: &mut Vec<Layer>| match how {
        0 => v.clear(),
        1 => v.truncate(1),
        2 => v.reverse(),
        _ => drop(v.drain(..v.len().min(2))),
    };
    match edit {
        0 => keep(&mut c.layers),
        1 => c.assets.clear(),
        2 => c.assets.values_mut().for_each(keep),
        3 => {
            c.width = [0, usize::MAX][vs::choice("w", 2)];
            c.height = 0;
        }
        4 => {
            let (range, parent) = (vs::choice("range", 3), vs::choice("parent", 4));
            for l in &mut c.layers {
                l.frames = [f64::NAN..5.0, 5.0..0.0, f64::NEG_INFINITY..f64::INFINITY][range].clone();
                l.stretch = 0.0;
                l.parent = Some(parent);
            }
        }
        _ => {
            let (x, how) = (vs::num("x", -100.0, 100.0, 2), vs::choice("shapes", 3));
            for l in &mut c.layers {
                if let Content::Shape(s) = &mut l.content {
                    let old = std::mem::take(s);
                    match how {
                        0 => s.push(Shape::Group(old, Some(GroupTransform { transform: model::Transform::Fixed(Affine::scale(x)), opacity: Value::Fixed(x) }))),
                        1 => s.extend(old.into_iter().rev()),
                        _ => {
                            s.push(fill());
                            s.extend(old.into_iter().skip(1));
                        }
                    }
                }
            }
        }
    }
    shown(&c, [5.0, -1.0, 12.0][vs::choice("f", 3)]);
}
/// shapes of every kind in any order
fn orders() {
    let x = vs::num("x", -100.0, 100.0, 2);
    let item = |name: &str, depth: usize| -> Shape {
        match vs::choice(name, 10) {
            0 => fill(),
            1 => Shape::Geometry(tri(x)),
            2 => Shape::Geometry(Geometry::Fixed(vec![])),
            3 => Shape::Geometry(Geometry::Fixed(vec![PathEl::MoveTo(Point::new(x, x))])),
            4 => Shape::Group(vec![], None),
            5 => Shape::Group(
                if depth == 0 { vec![Shape::Geometry(tri(1.0)), fill()] } else { vec![fill()] },
                Some(GroupTransform { transform: model::Transform::Fixed(Affine::scale(0.0)), opacity: Value::Fixed(x) }),
            ),
            6 => Shape::Trim(model::Trim::Fixed(fixed::Trim { start: x, end: [50.0, f64::NAN][vs::choice("end", 2)], offset: -x })),
            7 => Shape::Trim(model::Trim::Fixed(fixed::Trim { start: 20.0, end: 60.0, offset: 350.0 })),
            8 => repeater([0, 1, 3][vs::choice("copies", 3)], 100.0, 0.0),
            _ => repeater(2, 50.0, f64::NAN),
        }
    };
    let n = vs::choice("items", 4);
    let mut list: Vec<Shape> = (0..n).map(|k| item(["first", "second", "third"][k], k)).collect();
    list.push(fill());
    let ev = shown(&comp(vec![shape_layer(list), shape_layer(vec![Shape::Geometry(tri(9.0)), fill()])]), 0.0);
    vs::check(!draws(&ev).is_empty(), "the other layer is drawn");
}
fn repeater(copies: usize, scale: f64, offset: f64) -> Shape {
    Shape::Repeater(model::Repeater::Fixed(fixed::Repeater {
        copies,
        offset,
        anchor_point: Point::ZERO,
        position: Point::new(5.0, 1.0),
        rotation: 10.0,
        scale: Vec2::new(scale, -scale),
        start_opacity: 100.0,
        end_opacity: -50.0,
    }))
}
/// counts that are not numbers, negative or fractions
fn counts() {
    let x = match vs::choice("count", 5) {
        0 => vs::num("n", -20.0, 20.0, 3),
        k => [f64::NAN, f64::NEG_INFINITY, -1.0e300, 2.25][k - 1],
    };
    let f = frame();
    let v = |a: f64| Value::Fixed(a);
    let shapes = match vs::choice("shape", 3) {
        0 => {
            let r = animated::Repeater {
                copies: v(x),
                offset: v(0.0),
                anchor_point: Value::default(),
                position: Value::Fixed(Point::new(3.0, 0.0)),
                rotation: v(0.0),
                scale: Value::Fixed(Vec2::new(100.0, 100.0)),
                start_opacity: v(100.0),
                end_opacity: v(100.0),
            };
            let r = if vs::flag("fixed") { r.into_model() } else { model::Repeater::Animated(r) };
            vec![Shape::Geometry(tri(0.0)), fill(), Shape::Repeater(r)]
        }
        k => {
            let s = animated::Star {
                is_polygon: k == 1,
                direction: 1.0,
                position: Value::default(),
                inner_radius: v(3.0),
                inner_roundness: v(0.0),
                outer_radius: v(5.0),
                outer_roundness: v(0.0),
                rotation: v(0.0),
                points: v(x),
            };
            let s = if vs::flag("fixed") { s.into_model() } else { Geometry::Star(s) };
            vec![Shape::Geometry(s), fill()]
        }
    };
    let ev = shown(&comp(vec![shape_layer(shapes)]), f);
    vs::check(draws(&ev).len() <= 20, "more copies than asked for");
    if !(x > 0.0) {
        vs::check(draws(&ev).iter().all(|e| matches!(e, Ev::Draw { path, .. } if path.is_empty())), "something drawn of nothing");
    }
}
crate::entries! {
    c28_lists => lists;
    c28_stops => stops;
    c28_splines => splines;
    c28_links => links;
    c28_instances => instances;
    c28_edited => edited;
    c28_orders => orders;
    c28_counts => counts;
}
