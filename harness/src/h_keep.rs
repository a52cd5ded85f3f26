//! What the document types read is what the document says, and they write all of it (C27).
use crate::doc::*;
use crate::vs;
use serde_json::{Value as J, json};
use velato::schema::Animation;
use velato::schema::animated_properties::{animated_property::AnimatedPropertyK, position::PositionValueK, shape_property::ShapePropertyK, value::FloatValue};
use velato::schema::assets::AnyAsset;
use velato::schema::constants::{
    composite::Composite, fill_rule::FillRule, mask_mode::MaskMode, merge_mode::MergeMode, shape_direction::ShapeDirection, star_type::StarType, trim_multiple_shapes::TrimMultipleShapes,
};
use velato::schema::helpers::int_boolean::BoolInt;
use velato::schema::helpers::transform::{AnyTransformP, AnyTransformR};
use velato::schema::layers::{AnyLayer, visual::VisualLayer};
use velato::schema::shapes::AnyShape;

/// hands out symbolic numbers, and 0s and 1s
struct Given {
    x: [f64; 5],
    n: usize,
    b: usize,
}
impl Given {
    fn new() -> Given {
        let x = ["v0", "v1", "v2", "v3", "v4"].map(|k| vs::num(k, -512.0, 512.0, 3));
        Given { x, n: 0, b: vs::choice("bits", 2) }
    }
    /// no two of the numbers of a document are the same
    fn q(&mut self) -> J {
        self.n += 1;
        n(self.x[self.n % 5] + self.n as f64 * 2048.0)
    }
    fn bit(&mut self) -> J {
        self.b += 1;
        json!(self.b % 2)
    }
    fn yes(&mut self) -> J {
        self.b += 1;
        json!(self.b % 2 == 1)
    }
    /// a number that does not change, with all that may be said of it
    fn s(&mut self) -> J {
        json!({"ix": self.q(), "a": 0, "x": "ex", "sid": "slot", "k": self.q()})
    }
    fn v(&mut self) -> J {
        json!({"ix": self.q(), "a": 0, "x": "ex", "sid": "slot", "l": self.q(), "k": [self.q(), self.q(), self.q()]})
    }
    fn p(&mut self) -> J {
        json!({"ix": self.q(), "a": 0, "x": "ex", "l": self.q(), "k": [self.q(), self.q()]})
    }
    fn bez(&mut self) -> J {
        let mut pts = || json!([[self.q(), self.q()], [self.q(), self.q()]]);
        let (v, i, o) = (pts(), pts(), pts());
        json!({"c": self.yes(), "v": v, "i": i, "o": o})
    }
    fn handles(&mut self) -> (J, J) {
        (json!({"x": self.q(), "y": self.q()}), json!({"x": [self.q(), self.q()], "y": [self.q()]}))
    }
    fn frames(&mut self, len: usize, path: bool) -> J {
        let mut list = vec![];
        for k in 0..3 {
            let mut val = |g: &mut Given| J::Array((0..len).map(|_| g.q()).collect());
            let (i, o) = self.handles();
            let mut f = json!({"t": self.q(), "s": val(self), "h": self.bit(), "e": val(self)});
            if k != 1 {
                f["i"] = i;
                f["o"] = o;
            }
            if path && k != 2 {
                f["ti"] = val(self);
                f["to"] = val(self);
            }
            list.push(f);
        }
        json!(list)
    }
    fn anim(&mut self, len: usize, path: bool) -> J {
        let mut j = json!({"ix": self.q(), "a": 1, "x": "ex", "k": self.frames(len, path)});
        if !path {
            j["sid"] = json!("slot");
        }
        if len > 1 {
            j["l"] = self.q();
        }
        j
    }
    fn shape_prop(&mut self, animated: bool) -> J {
        if !animated {
            return json!({"ix": self.q(), "a": 0, "x": "ex", "k": self.bez()});
        }
        let mut list = vec![];
        for k in 0..3 {
            let (i, o) = self.handles();
            let mut f = json!({"t": self.q(), "h": self.bit(), "i": i, "o": o});
            if k < 2 {
                f["s"] = json!([self.bez()]);
                f["e"] = json!([self.bez()]);
            }
            list.push(f);
        }
        json!({"ix": self.q(), "a": 1, "x": "ex", "k": list})
    }
    fn transform(&mut self) -> J {
        json!({"a": self.p(), "p": self.p(), "s": self.v(), "r": self.s(), "sk": self.s(), "sa": self.s(), "o": self.s()})
    }
    fn layer(&mut self, ty: u8, more: J) -> J {
        let l = json!({"ty": ty, "nm": "name", "mn": "match", "ddd": self.bit(), "hd": self.yes(), "ind": 3 + ty, "parent": 9, "sr": self.q(), "ip": self.q(), "op": self.q(), "st": self.q(),
            "tt": ty % 5, "td": self.bit(), "ks": self.transform(), "ao": self.bit(), "tp": self.q(), "hasMask": self.yes(), "mb": self.yes(), "bm": ty,
            "cl": "class", "ln": "id", "tg": "tag", "cp": "before", "ct": self.bit()});
        join(l, more)
    }
    fn element(&mut self, ty: &str, more: J) -> J {
        let e = json!({"ty": ty, "nm": "name", "mn": "match", "hd": self.yes(), "bm": 3, "ix": self.q(), "cl": "class", "ln": "id", "ind": self.q()});
        join(e, more)
    }
    fn line(&mut self) -> J {
        json!({"lc": 2, "lj": 3, "ml": self.q(), "ml2": self.s(), "w": self.s(),
            "d": [{"nm": "name", "mn": "match", "n": "d", "v": self.s()}, {"n": "g", "v": self.s()}, {"n": "o", "v": self.anim(1, false)}]})
    }
    fn gradient(&mut self) -> J {
        let mut stops = self.v();
        stops["k"] = json!([self.q(), self.q(), self.q(), self.q()]);
        json!({"g": {"p": 1, "k": stops}, "s": self.v(), "e": self.v(), "t": 2, "h": self.s(), "a": self.s()})
    }
    fn file(&mut self, layers: J) -> J {
        json!({"fr": self.q(), "ip": self.q(), "op": self.q(), "w": 64, "h": 48, "layers": layers})
    }
}
fn join(a: J, b: J) -> J {
    let mut a = a;
    for (k, v) in b.as_object().unwrap() {
        a.as_object_mut().unwrap().insert(k.clone(), v.clone());
    }
    a
}
const FULL: usize = 7;
/// a document that says all that may be said of some of the constructs
fn full(k: usize) -> J {
    let g = &mut Given::new();
    let content = |g: &mut Given, list: J| {
        let l = json!({"ty": 4, "ip": g.q(), "op": g.q(), "ks": {"p": g.p()}, "shapes": list});
        g.file(json!([l]))
    };
    match k {
        0 => {
            let f = g.file(json!([]));
            join(f, json!({"nm": "name", "mn": "match", "v": "5.7.0", "ver": 3, "ddd": g.bit(),
                "markers": [{"cm": "here", "tm": g.q(), "dr": g.q()}, {"tm": g.q()}],
                "meta": {"a": "author", "d": "description", "tc": "colour", "g": "generator", "k": ["some", "words"]},
                "metadata": {"any": [g.q(), {"thing": true}]},
                "assets": [{"id": "one", "nm": "name", "mn": "match", "layers": [], "fr": g.q(), "xt": g.bit()},
                    {"id": "two", "nm": "name", "mn": "match", "u": "dir", "p": "file", "e": g.bit(), "sid": "slot", "w": g.q(), "h": g.q(), "t": "seq"}]}))
        }
        1 => {
            let more = json!({"refId": "one", "w": g.q(), "h": g.q(), "tm": g.s()});
            let l = [
                g.layer(0, more),
                g.layer(2, json!({"refId": "two"})),
                g.layer(3, json!({})),
            ];
            g.file(json!(l))
        }
        2 => {
            let more = json!({"sw": g.q(), "sh": g.q(), "sc": "#102030"});
            let a = g.layer(1, more);
            let masks = json!({"shapes": [], "masksProperties": [
                {"nm": "name", "mn": "match", "inv": g.yes(), "pt": g.shape_prop(false), "o": g.s(), "mode": "s", "x": g.s()},
                {"inv": g.yes(), "pt": g.shape_prop(true), "o": g.anim(1, false), "mode": "f", "x": g.anim(1, false)}]});
            let b = g.layer(4, masks);
            g.file(json!([a, b]))
        }
        3 => {
            // transforms in all their forms
            let tr = g.element("tr", json!({}));
            let split = json!({"a": g.anim(2, true), "p": {"s": true, "x": g.anim(1, false), "y": g.s(), "z": g.s()}, "s": g.anim(3, false), "r": g.anim(1, false), "o": g.anim(1, false), "sk": g.anim(1, false), "sa": g.anim(1, false)});
            let turned = json!({"p": g.anim(3, true), "r": {"x": g.s(), "y": g.s(), "z": g.anim(1, false), "or": g.v()}});
            let t = [join(tr.clone(), split.clone()), join(tr, turned.clone())];
            let mut f = content(g, json!([{"ty": "gr", "it": [t[0]]}, {"ty": "gr", "it": [t[1]]}]));
            f["layers"][0]["ks"] = split;
            let mut other = json!({"ty": 3, "ip": g.q(), "op": g.q()});
            other["ks"] = turned;
            f["layers"].as_array_mut().unwrap().push(other);
            f
        }
        4 => {
            let more = [
                ("rc", json!({"d": 3, "p": g.p(), "s": g.v(), "r": g.s()})),
                ("el", json!({"d": 1, "p": g.anim(2, true), "s": g.anim(2, false)})),
                ("sh", json!({"d": 3, "ks": g.shape_prop(false)})),
                ("sh", json!({"d": 1, "ks": g.shape_prop(true)})),
                ("sr", json!({"d": 3, "p": g.p(), "or": g.s(), "os": g.s(), "r": g.s(), "pt": g.s(), "sy": 1, "ir": g.s(), "is": g.s()})),
                ("gr", json!({"np": g.q(), "cix": 7, "it": [{"ty": "sr", "p": g.p(), "or": g.s(), "os": g.s(), "r": g.s(), "pt": g.s(), "sy": 2}]})),
            ];
            let list: Vec<J> = more.into_iter().map(|(ty, m)| g.element(ty, m)).collect();
            content(g, json!(list))
        }
        5 => {
            let tr = g.transform();
            let more = json!({"so": g.s(), "eo": g.s()});
            let mut tr = g.element("tr", join(tr, more));
            tr.as_object_mut().unwrap().remove("ty");
            let more = [
                ("mm", json!({"mm": 5})),
                ("op", json!({"a": g.s(), "lj": 1, "ml": g.s()})),
                ("pb", json!({"a": g.s()})),
                ("rd", json!({"r": g.s()})),
                ("rp", json!({"c": g.s(), "o": g.s(), "m": 2, "tr": tr})),
                ("tm", json!({"s": g.s(), "e": g.s(), "o": g.s(), "m": 2})),
                ("tw", json!({"a": g.s(), "p": g.p()})),
            ];
            let list: Vec<J> = more.into_iter().map(|(ty, m)| g.element(ty, m)).collect();
            content(g, json!(list))
        }
        _ => {
            let (line, grad) = (g.line(), g.gradient());
            let more = [
                ("fl", json!({"o": g.s(), "c": g.v(), "r": 2})),
                ("st", join(line.clone(), json!({"o": g.s(), "c": g.anim(4, false)}))),
                ("gf", join(grad.clone(), json!({"o": g.s(), "r": 2}))),
                ("gs", join(join(line, grad), json!({"o": g.anim(1, false)}))),
            ];
            let list: Vec<J> = more
                .into_iter()
                .map(|(ty, m)| {
                    let mut e = g.element(ty, m);
                    // colours have no length
                    if ty == "fl" || ty == "st" {
                        e["c"].as_object_mut().unwrap().remove("l");
                    }
                    e
                })
                .collect();
            content(g, json!(list))
        }
    }
}
/// what is in `a` is in `b`, and the other way round
fn same(a: &J, b: &J) {
    match (a, b) {
        (J::Object(x), J::Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    Some(w) => same(v, w),
                    None => vs::check(v.is_null(), "a field of the document is not kept"),
                }
            }
            for (k, v) in y {
                vs::check(v.is_null() || x.contains_key(k), "a field the document does not have");
            }
        }
        (J::Array(x), J::Array(y)) => {
            vs::check(x.len() == y.len(), "a list is not kept whole");
            for (v, w) in x.iter().zip(y) {
                same(v, w);
            }
        }
        (J::Number(_), J::Number(_)) => vs::close(a.as_f64().unwrap(), b.as_f64().unwrap(), 0.0, "a number is not kept", 0),
        _ => vs::check(a == b, "a value is not kept"),
    }
}
fn members(j: &J) -> usize {
    match j {
        J::Object(m) => m.values().map(|v| 1 + members(v)).sum(),
        J::Array(a) => a.iter().map(members).sum(),
        _ => 0,
    }
}
/// takes the k-th member of an object away, or makes it null
fn change(j: &mut J, k: &mut usize, null: bool) -> bool {
    match j {
        J::Object(m) => {
            let names: Vec<String> = m.keys().cloned().collect();
            for name in names {
                if *k == 0 {
                    if null {
                        m.insert(name, J::Null);
                    } else {
                        m.remove(&name);
                    }
                    return true;
                }
                *k -= 1;
                if change(m.get_mut(&name).unwrap(), k, null) {
                    return true;
                }
            }
            false
        }
        J::Array(a) => a.iter_mut().any(|v| change(v, k, null)),
        _ => false,
    }
}
fn written(j: J, sound: bool) {
    let Ok(a) = Animation::from_json(j.clone()) else {
        return vs::check(!sound, "sound document refused");
    };
    vs::cover("kept");
    match serde_json::to_value(&a) {
        Ok(v) => same(&j, &v),
        Err(_) => vs::check(false, "animation cannot be serialized"),
    }
}
/// everything
fn whole() {
    written(full(vs::choice("document", FULL)), true);
}
/// everything but one field, that is missing or null
fn less() {
    let mut j = full(vs::choice("document", FULL));
    let mut k = vs::choice("field", members(&j));
    let null = vs::flag("null");
    change(&mut j, &mut k, null);
    written(j, false);
}
/// every value of every enumeration
fn values() {
    let s = || json!({"a": 0, "k": 1});
    let v = || json!({"a": 0, "k": [1, 2]});
    let shape = |m: J| json!({"fr": 30, "ip": 0, "op": 9, "w": 6, "h": 4, "layers": [{"ty": 4, "ip": 0, "op": 9, "ks": {"p": v()}, "shapes": [m]}]});
    let which = vs::choice("enumeration", 13);
    let (mut j, at, low, high): (J, &str, u8, u8) = match which {
        0 => (shape(json!({"ty": "mm"})), "mm", 1, 5),
        1 => (shape(json!({"ty": "fl", "c": v(), "o": s()})), "r", 1, 2),
        2 => (shape(json!({"ty": "gf", "o": s(), "g": {"p": 0, "k": v()}, "s": v(), "e": v()})), "t", 1, 2),
        3 => (shape(json!({"ty": "gf", "o": s(), "g": {"p": 0, "k": v()}, "s": v(), "e": v()})), "r", 1, 2),
        4 => (shape(json!({"ty": "st", "c": v(), "o": s(), "w": s()})), "lc", 1, 3),
        5 => (shape(json!({"ty": "st", "c": v(), "o": s(), "w": s()})), "lj", 1, 3),
        6 => (shape(json!({"ty": "sr", "p": v(), "or": s(), "os": s(), "r": s(), "pt": s()})), "sy", 1, 2),
        7 => (shape(json!({"ty": "tm", "s": s(), "e": s(), "o": s()})), "m", 1, 2),
        8 => (shape(json!({"ty": "rp", "c": s(), "tr": {"p": v()}})), "m", 1, 2),
        9 => (shape(json!({"ty": "el", "p": v(), "s": v()})), "bm", 0, 17),
        10 => (shape(json!({"ty": "op", "a": s()})), "lj", 1, 3),
        11 => (shape(json!({"ty": "el", "p": v(), "s": v()})), "d", 1, 3),
        _ => (shape(json!({"ty": "gs", "o": s(), "w": s(), "g": {"p": 0, "k": v()}, "s": v(), "e": v()})), "lc", 1, 3),
    };
    let k = vs::choice("value", 19) as u8;
    j["layers"][0]["shapes"][0][at] = json!(k);
    let known = k >= low && k <= high && !(which == 11 && k == 2);
    let r = Animation::from_json(j.clone());
    vs::check(r.is_ok() == known, "value of an enumeration refused, or one there is not accepted");
    let Ok(a) = r else { return };
    let AnyLayer::Shape(l) = &a.composition.layers[0] else { return vs::check(false, "layer misread") };
    let ok = match &l.shapes[0] {
        AnyShape::Merge(m) => {
            m.merge_mode
                == [None, Some(MergeMode::Normal), Some(MergeMode::Add), Some(MergeMode::Subtract), Some(MergeMode::Intersect), Some(MergeMode::ExcludeIntersections)][k as usize]
        }
        AnyShape::Fill(f) => f.fill_rule == [None, Some(FillRule::NonZero), Some(FillRule::EvenOdd)][k as usize],
        AnyShape::GradientFill(f) if which == 3 => f.fill_rule == [None, Some(FillRule::NonZero), Some(FillRule::EvenOdd)][k as usize],
        AnyShape::PolyStar(p) => p.star_type == [StarType::Star, StarType::Polygon][k as usize - 1],
        AnyShape::Trim(t) => t.multiple == [None, Some(TrimMultipleShapes::Individually), Some(TrimMultipleShapes::Simultaneously)][k as usize],
        AnyShape::Repeater(t) => t.composite == [None, Some(Composite::Above), Some(Composite::Below)][k as usize],
        AnyShape::Ellipse(e) if which == 11 => e.shape.direction == [None, Some(ShapeDirection::Normal), None, Some(ShapeDirection::Reversed)][k as usize],
        _ => true,
    };
    vs::check(ok, "value of an enumeration misread");
    same(&j, &serde_json::to_value(&a).unwrap());
}
fn text(a: &Option<String>, b: &J, msg: &str) {
    vs::check(a.as_deref() == b.as_str(), msg);
}
fn number(a: Option<f64>, b: &J, msg: &str) {
    match (a, b.as_f64()) {
        (Some(a), Some(b)) => vs::close(a, b, 0.0, msg, 0),
        (a, b) => vs::check(a.is_none() && b.is_none(), msg),
    }
}
fn bit(a: &Option<BoolInt>, b: &J, msg: &str) {
    vs::check(a.as_ref().map(|a| (*a == BoolInt::True) as u64) == b.as_u64(), msg);
}
fn scalar(a: &Option<FloatValue>, b: &J, msg: &str) {
    let Some(a) = a else { return vs::check(b.is_null(), msg) };
    let p = &a.animated_property;
    number(p.property_index, &b["ix"], msg);
    bit(&p.animated, &b["a"], msg);
    text(&p.expression, &b["x"], msg);
    text(&p.slot_id, &b["sid"], msg);
    match &p.value {
        AnimatedPropertyK::Static(x) => number(Some(*x), &b["k"], msg),
        AnimatedPropertyK::AnimatedValue(k) => {
            vs::check(b["k"].as_array().map(|a| a.len()) == Some(k.len()), msg);
            for (k, b) in k.iter().zip(b["k"].as_array().unwrap()) {
                number(Some(k.base.time), &b["t"], msg);
                bit(&k.base.hold, &b["h"], msg);
                list(&k.value, &b["s"], msg);
                vs::check(k.base.in_tangent.is_some() != b["i"].is_null() && k.base.out_tangent.is_some() != b["o"].is_null(), msg);
            }
        }
    }
}
fn list(a: &[f64], b: &J, msg: &str) {
    let Some(b) = b.as_array() else { return vs::check(false, msg) };
    vs::check(a.len() == b.len(), msg);
    for (a, b) in a.iter().zip(b) {
        number(Some(*a), b, msg);
    }
}
#[allow(deprecated)]
fn visual(l: &VisualLayer, j: &J) {
    let m = "a field of a layer is not what the document says";
    let b = &l.layer;
    text(&b.visual_object.name, &j["nm"], m);
    text(&b.visual_object.match_name, &j["mn"], m);
    bit(&b.three_dimensional, &j["ddd"], m);
    vs::check(b.hidden == j["hd"].as_bool(), m);
    vs::check(b.layer_type as u64 == j["ty"].as_u64().unwrap(), m);
    vs::check(b.index.map(|i| i as u64) == j["ind"].as_u64(), m);
    vs::check(b.parent_index.map(|i| i as u64) == j["parent"].as_u64(), m);
    number(b.time_stretch, &j["sr"], m);
    number(Some(b.in_point), &j["ip"], m);
    number(Some(b.out_point), &j["op"], m);
    vs::check(l.matte_mode.clone().map(|x| x as u64) == j["tt"].as_u64(), m);
    bit(&l.matte_target, &j["td"], m);
    bit(&l.rotate_to_match_anim_pos_path, &j["ao"], m);
    number(l.matte_layer_index, &j["tp"], m);
    vs::check(l.has_mask == j["hasMask"].as_bool(), m);
    vs::check(l.motion_blur == j["mb"].as_bool(), m);
    vs::check(l.blend_mode.clone().map(|x| x as u64) == j["bm"].as_u64(), m);
    text(&l.css_class, &j["cl"], m);
    text(&l.id, &j["ln"], m);
    text(&l.tag_name, &j["tg"], m);
    text(&l.tranform_before_mask_deprecated, &j["cp"], m);
    bit(&l.transform_before_mask, &j["ct"], m);
    let (t, k) = (&l.transform, &j["ks"]);
    let m = "a field of a transform is not what the document says";
    scalar(&t.skew, &k["sk"], m);
    scalar(&t.skew_axis, &k["sa"], m);
    scalar(&t.opacity, &k["o"], m);
    match &t.rotation {
        Some(AnyTransformR::Rotation(r)) => scalar(&Some(r.clone()), &k["r"], m),
        Some(AnyTransformR::SplitRotation { x_rotation, y_rotation, z_rotation, .. }) => {
            scalar(&Some(x_rotation.clone()), &k["r"]["x"], m);
            scalar(&Some(y_rotation.clone()), &k["r"]["y"], m);
            scalar(&Some(z_rotation.clone()), &k["r"]["z"], m);
        }
        None => vs::check(k["r"].is_null(), m),
    }
    match &t.position {
        AnyTransformP::Position(p) => {
            number(p.property_index, &k["p"]["ix"], m);
            bit(&p.animated, &k["p"]["a"], m);
            text(&p.expression, &k["p"]["x"], m);
            number(p.length, &k["p"]["l"], m);
            match &p.value {
                PositionValueK::Static(v) => list(v, &k["p"]["k"], m),
                PositionValueK::Animated(f) => {
                    for (f, b) in f.iter().zip(k["p"]["k"].as_array().unwrap()) {
                        number(Some(f.keyframe.base.time), &b["t"], m);
                        list(&f.keyframe.value, &b["s"], m);
                        vs::check(f.value_in_tangent.is_some() != b["ti"].is_null() && f.value_out_tangent.is_some() != b["to"].is_null(), m);
                        for (a, b) in [(&f.value_in_tangent, &b["ti"]), (&f.value_out_tangent, &b["to"])] {
                            if let Some(a) = a {
                                list(a, b, m);
                            }
                        }
                    }
                }
            }
        }
        AnyTransformP::SplitPosition(s) => {
            vs::check(s.split == k["p"]["s"].as_bool().unwrap(), m);
            scalar(&Some(s.x.clone()), &k["p"]["x"], m);
            scalar(&Some(s.y.clone()), &k["p"]["y"], m);
            scalar(&s.z, &k["p"]["z"], m);
        }
    }
    let m = "a field of a mask is not what the document says";
    let masks = l.masks_properties.as_deref().unwrap_or(&[]);
    vs::check(masks.len() == j["masksProperties"].as_array().map_or(0, |a| a.len()), m);
    for (i, k) in masks.iter().enumerate() {
        let b = &j["masksProperties"][i];
        text(&k.name, &b["nm"], m);
        text(&k.match_name, &b["mn"], m);
        vs::check(k.inverted == b["inv"].as_bool(), m);
        scalar(&k.opacity, &b["o"], m);
        scalar(&k.expand, &b["x"], m);
        let mode = [("n", MaskMode::None), ("a", MaskMode::Add), ("s", MaskMode::Subtract), ("i", MaskMode::Intersect), ("l", MaskMode::Lighten), ("d", MaskMode::Darken), ("f", MaskMode::Difference)];
        vs::check(k.mode == mode.into_iter().find(|x| b["mode"].as_str() == Some(x.0)).map(|x| x.1), m);
        let Some(s) = &k.shape else { return vs::check(b["pt"].is_null(), m) };
        number(s.property_index, &b["pt"]["ix"], m);
        bit(&s.animated, &b["pt"]["a"], m);
        text(&s.expression, &b["pt"]["x"], m);
        if let ShapePropertyK::Static(z) = &s.value {
            let k = &b["pt"]["k"];
            vs::check(z.closed == k["c"].as_bool(), m);
            for (a, b) in [(&z.vertices, &k["v"]), (&z.in_tangents, &k["i"]), (&z.out_tangents, &k["o"])] {
                for (i, p) in a.iter().enumerate() {
                    list(p, &b[i], m);
                }
            }
        }
    }
}
/// what the fields of the types say
fn fields() {
    let which = vs::choice("document", 4);
    let mut j = full(which);
    if which == 2 {
        let mode = ["n", "a", "s", "i", "l", "d", "f"][vs::choice("mode", 7)];
        j["layers"][1]["masksProperties"][0]["mode"] = json!(mode);
    }
    if vs::flag("less") && which < 3 {
        let mut k = vs::choice("field", members(&j));
        change(&mut j, &mut k, false);
    }
    let Ok(a) = Animation::from_json(j.clone()) else { return };
    let m = "a field of the animation is not what the document says";
    text(&a.visual_object.name, &j["nm"], m);
    text(&a.visual_object.match_name, &j["mn"], m);
    text(&a.version, &j["v"], m);
    vs::check(a.ver.map(|v| v as u64) == j["ver"].as_u64(), m);
    bit(&a.three_dimensional, &j["ddd"], m);
    number(Some(a.frame_rate), &j["fr"], m);
    number(Some(a.in_point), &j["ip"], m);
    number(Some(a.out_point), &j["op"], m);
    vs::check(a.width as u64 == 64 && a.height as u64 == 48, m);
    let marks = a.markers.as_deref().unwrap_or(&[]);
    vs::check(marks.len() == j["markers"].as_array().map_or(0, |a| a.len()), m);
    for (k, b) in marks.iter().zip(0..) {
        let b = &j["markers"][b];
        text(&k.comment, &b["cm"], m);
        number(k.time, &b["tm"], m);
        number(k.duration, &b["dr"], m);
    }
    match &a.meta {
        Some(x) => {
            let b = &j["meta"];
            text(&x.author, &b["a"], m);
            text(&x.description, &b["d"], m);
            text(&x.theme_color, &b["tc"], m);
            text(&x.generator, &b["g"], m);
            vs::check(x.keywords.as_ref().unwrap_or(&J::Null) == &b["k"], m);
        }
        None => vs::check(j["meta"].is_null(), m),
    }
    vs::check(a.metadata.is_some() != j["metadata"].is_null(), m);
    let assets = a.assets.as_deref().unwrap_or(&[]);
    vs::check(assets.len() == j["assets"].as_array().map_or(0, |a| a.len()), m);
    let m = "a field of an asset is not what the document says";
    for (k, b) in assets.iter().zip(0..) {
        let b = &j["assets"][b];
        let base = match k {
            AnyAsset::Precomposition(p) => {
                number(p.frame_rate, &b["fr"], m);
                bit(&p.extra, &b["xt"], m);
                &p.asset
            }
            AnyAsset::Image(i) => {
                text(&i.file_asset.dir, &b["u"], m);
                vs::check(b["p"] == i.file_asset.file_name, m);
                bit(&i.file_asset.embedded, &b["e"], m);
                text(&i.slottable_object.id, &b["sid"], m);
                number(i.width, &b["w"], m);
                number(i.height, &b["h"], m);
                vs::check(i.sequence == b["t"].as_str().map(|_| true), m);
                &i.file_asset.asset
            }
        };
        vs::check(b["id"] == base.id, m);
        text(&base.visual_object.name, &b["nm"], m);
        text(&base.visual_object.match_name, &b["mn"], m);
    }
    let m = "a field of a layer is not what the document says";
    for (l, i) in a.composition.layers.iter().zip(0..) {
        let b = &j["layers"][i];
        match l {
            AnyLayer::Precomposition(p) => {
                vs::check(b["refId"] == p.ref_id, m);
                number(Some(p.width), &b["w"], m);
                number(Some(p.height), &b["h"], m);
                number(Some(p.start_time), &b["st"], m);
                scalar(&p.time_remap, &b["tm"], m);
                visual(&p.visual_layer, b);
            }
            AnyLayer::Solid(s) => {
                number(Some(s.width), &b["sw"], m);
                number(Some(s.height), &b["sh"], m);
                vs::check(b["sc"] == s.color, m);
                number(s.visual_layer.layer.start_time, &b["st"], m);
                visual(&s.visual_layer, b);
            }
            AnyLayer::Image(s) => {
                vs::check(b["refId"] == s.ref_id, m);
                number(s.visual_layer.layer.start_time, &b["st"], m);
                visual(&s.visual_layer, b);
            }
            AnyLayer::Null(s) => visual(&s.visual_layer, b),
            AnyLayer::Shape(s) => {
                vs::check(s.shapes.len() == b["shapes"].as_array().unwrap().len(), m);
                number(s.visual_layer.layer.start_time, &b["st"], m);
                visual(&s.visual_layer, b);
            }
        }
    }
}
crate::entries! {
    c27_whole => whole;
    c27_less => less;
    c27_values => values;
    c27_fields => fields;
}
