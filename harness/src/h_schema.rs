//! Decoding: declared types, mandatory and unknown fields, entry points, round trips.
use crate::doc::*;
use crate::h_any::{SAMPLES, at_node, count, curves, damage, file, lay, sample};
use crate::rec::*;
use crate::vs;
use serde_json::{Value as J, json};
use velato::{Composition, schema::Animation};

fn drawn(c: &Composition, f: f64) -> Vec<Ev> {
    let mut r = Rec::default();
    velato::Renderer::new().append(c, f, kurbo::Affine::IDENTITY, 1.0, &mut r);
    r.ev
}
/// numbers that may be infinite or not numbers
fn eq(a: f64, b: f64, msg: &str, i: usize) {
    if a.is_finite() && b.is_finite() {
        let m = if a.abs() > 1024.0 { a.abs() } else { 1.0 };
        vs::close(a, b, 1e-9 * m, msg, i);
    } else {
        vs::check(a == b || a.is_nan() && b.is_nan(), msg);
    }
}
fn numbers(v: &[Ev], out: &mut Vec<f64>, shape: &mut String) {
    let path = |p: &Path, out: &mut Vec<f64>, shape: &mut String| {
        for e in p {
            shape.push(e.k);
            out.extend(&e.p);
        }
    };
    for e in v {
        match e {
            Ev::PushLayer { mix, compose, alpha, tf, shape: p } => {
                shape.push('L');
                shape.push((b'0' + mix) as char);
                shape.push((b'0' + compose) as char);
                out.push(*alpha);
                out.extend(tf);
                path(p, out, shape);
            }
            Ev::PushClip { tf, shape: p } => {
                shape.push('C');
                out.extend(tf);
                path(p, out, shape);
            }
            Ev::Pop => shape.push('P'),
            Ev::Begin { name, index } => {
                shape.push('B');
                shape.push_str(name);
                shape.push((b'0' + *index as u8) as char);
            }
            Ev::End => shape.push('E'),
            Ev::Draw { stroke, tf, brush, path: p } => {
                shape.push('D');
                if let Some(s) = stroke {
                    shape.push((b'0' + s.join) as char);
                    shape.push((b'0' + s.caps.0) as char);
                    shape.push((b'0' + s.caps.1) as char);
                    out.push(s.width);
                    out.push(s.miter.unwrap_or(-1.0));
                }
                out.extend(tf);
                match brush {
                    Br::Solid(c) => out.extend(c),
                    Br::Linear { pts, stops } => {
                        shape.push('l');
                        out.extend(pts);
                        out.extend(stops.iter().flatten());
                    }
                    Br::Radial { c, r, c0, r0, stops } => {
                        shape.push('r');
                        out.extend(c);
                        out.push(*r);
                        out.extend(c0);
                        out.push(*r0);
                        out.extend(stops.iter().flatten());
                    }
                    Br::Other => {}
                }
                path(p, out, shape);
            }
        }
    }
}
/// the same operations, of whatever numbers
fn alike(a: &[Ev], b: &[Ev], msg: &str) {
    let (mut x, mut y, mut s, mut t) = (vec![], vec![], String::new(), String::new());
    numbers(a, &mut x, &mut s);
    numbers(b, &mut y, &mut t);
    vs::check(s == t, msg);
    vs::check(x.len() == y.len(), msg);
    for (i, (a, b)) in x.iter().zip(&y).enumerate() {
        eq(*a, *b, msg, i);
    }
}
fn body() -> J {
    json!([{"ty": "sh", "ks": {"a": 0, "k": {"c": true, "v": [[0, 0], [4, 0], [4, 4]], "i": [[0, 0], [0, 0], [0, 0]], "o": [[0, 0], [0, 0], [0, 0]]}}}, {"ty": "fl", "c": {"a": 0, "k": [1, 0, 0]}, "o": {"a": 0, "k": 100}}])
}
fn n_draws(j: J) -> Option<usize> {
    Composition::from_json(j).ok().map(|c| draws(&drawn(&c, 5.0)).len())
}
// -------------------------------------------------------------------- C22
/// a layer with the fields of all kinds is what its tag says
fn layer_types() {
    let x = vs::num("x", -9.0, 9.0, 2);
    let mut l = lay(0, json!({"nm": "it", "ind": 1, "refId": "a", "w": 64, "h": 48, "sw": 64, "sh": 48, "sc": "#ff0000", "shapes": body()}));
    l["ks"] = json!({"p": {"a": 0, "k": [n(x), 2]}});
    let tags = [
        json!(0), json!(1), json!(2), json!(3), json!(4), json!(5), json!(6), json!(7), json!(8), json!(9), json!(10), json!(11), json!(12), json!(13), json!(14), json!(15), json!(16), json!(99),
        json!(255), json!(256), json!(257), json!(260), json!(65540), json!(4294967296_u64), json!(4294967300_u64), json!(u64::MAX), json!(-1), json!("4"), json!("sh"), J::Null, json!([4]), json!({}), json!(true),
    ];
    let k = vs::choice("tag", tags.len() + 1);
    if k < tags.len() {
        l["ty"] = tags[k].clone();
    } else {
        l.as_object_mut().unwrap().remove("ty");
    }
    // anywhere in the document
    let other = lay(3, json!({"ind": 2}));
    let inner = lay(4, json!({"shapes": [{"ty": "el", "p": {"a": 0, "k": [1, 1]}, "s": {"a": 0, "k": [4, 4]}}, {"ty": "fl", "c": {"a": 0, "k": [0, 1, 0]}, "o": {"a": 0, "k": 100}}]}));
    let place = vs::choice("place", 3);
    let j = match place {
        0 => file(json!([l, other]), json!([{"id": "a", "layers": [inner]}])),
        1 => file(json!([other, l]), json!([{"id": "a", "layers": [inner]}])),
        _ => file(json!([lay(0, json!({"refId": "b", "w": 64, "h": 48, "ks": {"p": {"a": 0, "k": [0, 0]}}}))]), json!([{"id": "b", "layers": [l]}, {"id": "a", "layers": [inner]}])),
    };
    let c = Composition::from_json(j);
    vs::check(c.is_ok() == (k < 5), "layer of unknown type not refused, or one of known type refused");
    if let Ok(c) = c {
        let d = draws(&drawn(&c, 5.0));
        vs::check(d.len() == if k == 0 || k == 4 { 1 } else { 0 }, "layer misread");
        if let Some(Ev::Draw { path, tf, brush, .. }) = d.first() {
            // the path is the layer's own, the ellipse its asset's
            let curved = path.iter().any(|e| e.k == 'C');
            vs::check(curved == (k == 0), "layer misread");
            vs::close(tf[4], x + curved as u8 as f64, 1e-9, "layer misplaced", 0);
            cmp_brush(brush, &Br::Solid(if curved { [0.0, 1.0, 0.0, 1.0] } else { [1.0, 0.0, 0.0, 1.0] }), &TOL, 0);
        }
    }
}
/// shapes of every tag, and of tags there are not
fn shape_types() {
    let z = |k: J| json!({"a": 0, "k": k});
    let v = |x: f64, y: f64| json!({"a": 0, "k": [x, y]});
    let x = vs::num("x", -9.0, 9.0, 2);
    let p = json!({"a": 0, "k": [n(x), 3]});
    let bez = json!({"c": true, "v": [[n(x), 0], [10, 0], [10, 10]], "i": [[0, 0], [0, 0], [0, 0]], "o": [[0, 0], [0, 0], [0, 0]]});
    let g = json!({"p": 1, "k": {"a": 0, "k": [0, 1, 0.5, 0]}});
    // (shape, elements drawn, drawn as stroke, gradient)
    let geo: Vec<(J, usize)> = vec![
        (json!({"ty": "rc", "p": p, "s": v(4.0, 4.0), "r": z(json!(0))}), 0),
        (json!({"ty": "el", "p": p, "s": v(4.0, 4.0)}), 0),
        (json!({"ty": "sh", "ks": z(bez)}), 5),
        (json!({"ty": "sr", "sy": 1, "p": p, "or": z(json!(9)), "os": z(json!(0)), "r": z(json!(0)), "pt": z(json!(5)), "ir": z(json!(3)), "is": z(json!(0))}), 11),
        (json!({"ty": "sr", "sy": 2, "p": p, "or": z(json!(9)), "os": z(json!(0)), "r": z(json!(0)), "pt": z(json!(5))}), 6),
    ];
    let c3 = json!({"a": 0, "k": [1, 0.5, 0]});
    let paints = [
        json!({"ty": "fl", "c": c3, "o": z(json!(100))}),
        json!({"ty": "st", "c": c3, "o": z(json!(100)), "w": z(json!(3))}),
        json!({"ty": "gf", "o": z(json!(100)), "g": g, "s": v(0.0, 0.0), "e": v(1.0, 0.0), "t": 1}),
        json!({"ty": "gs", "o": z(json!(100)), "g": g, "s": v(0.0, 0.0), "e": v(1.0, 0.0), "t": 1, "w": z(json!(3))}),
    ];
    let neither = [
        json!({"ty": "mm", "mm": 1}),
        json!({"ty": "pb", "a": z(json!(1))}),
        json!({"ty": "rd", "r": z(json!(1))}),
        json!({"ty": "op", "a": z(json!(1)), "lj": 1, "ml": z(json!(1))}),
        json!({"ty": "tw", "a": z(json!(1)), "p": v(0.0, 0.0)}),
    ];
    let (gi, pi) = (vs::choice("geometry", geo.len()), vs::choice("paint", paints.len()));
    let (gj, els) = geo[gi].clone();
    let mut list = vec![gj.clone(), paints[pi].clone()];
    let mut bad = false;
    match vs::choice("between", 3) {
        0 => {}
        1 => list.insert(1, neither[vs::choice("modifier", neither.len())].clone()),
        _ => {
            bad = true;
            let mut o = gj.clone();
            match vs::choice("tag", 7) {
                0 => {
                    o.as_object_mut().unwrap().remove("ty");
                }
                k => o["ty"] = [json!("xx"), json!(""), json!("RC"), json!(4), J::Null, json!(["rc"])][k - 1].clone(),
            }
            list.insert(1, o);
        }
    }
    if vs::flag("grouped") {
        list = vec![json!({"ty": "gr", "it": list})];
    }
    let c = Composition::from_json(file(json!([lay(4, json!({"shapes": list}))]), json!([])));
    let Ok(c) = c else {
        vs::check(bad, "shape of known type refused");
        return;
    };
    let d = draws(&drawn(&c, 5.0));
    vs::check(d.len() == 1, "shape misread");
    let Ev::Draw { stroke, brush, path, .. } = &d[0] else { return };
    vs::check(els == 0 || path.len() == els, "shape misread");
    vs::check(stroke.is_some() == (pi % 2 == 1), "paint misread");
    vs::check(matches!(brush, Br::Linear { .. }) == (pi > 1), "paint misread");
}
/// assets: layers make a precomposition, sizes an image, anything else is refused
fn asset_types() {
    let mut a = json!({"id": "a"});
    let (layers, w, h) = (vs::choice("layers", 4), vs::flag("w"), vs::flag("h"));
    let t = vs::choice("t", 4);
    let inner = lay(4, json!({"shapes": body()}));
    match layers {
        0 => {}
        1 => a["layers"] = json!([inner]),
        3 => a["layers"] = json!([]),
        _ => a["layers"] = json!([lay(13, json!({}))]),
    }
    if w {
        a["w"] = json!(3);
    }
    if h {
        a["h"] = json!(3);
    }
    let file_name = vs::flag("file");
    if file_name {
        a["p"] = json!("a.png");
        a["u"] = json!("");
        a["e"] = json!(0);
    }
    match t {
        0 => {}
        1 => a["t"] = json!("seq"),
        2 => a["t"] = json!(3),
        _ => a["t"] = json!("other"),
    }
    if vs::flag("no id") {
        a.as_object_mut().unwrap().remove("id");
        vs::check(Composition::from_json(file(json!([]), json!([a]))).is_err(), "asset without id not refused");
        return;
    }
    let r = n_draws(file(json!([lay(0, json!({"refId": "a", "w": 64, "h": 48}))]), json!([a])));
    let want = if layers == 1 {
        Some(1)
    } else if layers == 3 {
        Some(0)
    } else if layers == 2 || t == 2 || !(w || h) || !file_name {
        None
    } else {
        Some(0)
    };
    vs::check(r == want, "asset misread");
}
/// a document in which the names of mandatory fields start with "!"
fn marked(k: usize, x: f64) -> J {
    let s = |k: J| json!({"a": 0, "!k": k});
    let xy = || json!({"a": 0, "!k": [n(x), 2]});
    let bez = || json!({"c": true, "!v": [[n(x), 0], [10, 0]], "!i": [[0, 0], [1, 1]], "!o": [[0, 0], [1, -1]]});
    let ks = || json!({"a": xy(), "!p": xy(), "s": xy(), "r": s(json!(0)), "o": s(json!(100)), "sk": s(json!(0)), "sa": s(json!(0))});
    let lay = |ty: u8, more: J| {
        let mut l = json!({"!ty": ty, "!ip": 0, "!op": 100, "nm": "n", "ind": 1, "hd": false, "sr": 1, "bm": 0, "!ks": ks()});
        if ty != 0 {
            l["st"] = json!(0);
        }
        for (k, v) in more.as_object().unwrap() {
            l.as_object_mut().unwrap().insert(k.clone(), v.clone());
        }
        l
    };
    let file = |layers: J| json!({"v": "5.7.0", "!fr": 30, "!ip": 0, "!op": 100, "!w": 64, "!h": 48, "ddd": 0, "nm": "file", "!layers": layers, "markers": [], "meta": {"a": "b"}});
    let shape = |v: J| file(json!([lay(4, json!({"!shapes": [v]}))]));
    let line = || json!({"lc": 1, "lj": 1, "ml": 4, "!w": s(json!(2))});
    let grad = || json!({"!o": s(json!(100)), "!g": {"!p": 1, "!k": {"a": 0, "!k": [0, 1, 0, 0]}}, "!s": xy(), "!e": xy(), "t": 1});
    let both = |a: J, b: J, c: J| {
        let mut o = a;
        for x in [b, c] {
            for (k, v) in x.as_object().unwrap() {
                o.as_object_mut().unwrap().insert(k.clone(), v.clone());
            }
        }
        o
    };
    match k {
        0 => {
            let mut f = file(json!([lay(0, json!({"!refId": "a", "!w": 64, "!h": 48, "!st": 0})), lay(1, json!({"!sw": 1, "!sh": 1, "!sc": "#000000"})), lay(3, json!({})), lay(2, json!({"!refId": "i"}))]));
            f["assets"] = json!([{"!id": "a", "nm": "n", "!layers": [lay(4, json!({"!shapes": []}))]}, {"!id": "i", "w": 3, "h": 3, "!p": "f", "u": "", "e": 0}]);
            f
        }
        1 => file(json!([lay(4, json!({"tt": 1, "td": 0, "tp": 1, "parent": 1, "masksProperties": [{"mode": "a", "pt": s(bez()), "o": s(json!(100)), "nm": "m"}], "!shapes": []}))])),
        2 => shape(json!({"!ty": "gr", "nm": "g", "!it": [{"!ty": "tr", "!p": xy(), "s": xy(), "a": xy(), "r": s(json!(0)), "o": s(json!(100))}]})),
        3 => shape(json!({"!ty": "rc", "nm": "r", "!p": xy(), "!s": xy(), "!r": s(json!(1)), "d": 1, "hd": false})),
        4 => shape(json!({"!ty": "el", "nm": "e", "!p": xy(), "!s": xy(), "d": 1})),
        5 => shape(json!({"!ty": "sh", "nm": "p", "!ks": s(bez()), "d": 1})),
        6 => shape(json!({"!ty": "fl", "nm": "f", "!c": {"a": 0, "!k": [1, 0, 0]}, "!o": s(json!(100)), "r": 1})),
        7 => shape(both(json!({"!ty": "st", "!c": {"a": 0, "!k": [1, 0, 0]}, "!o": s(json!(100))}), line(), json!({}))),
        8 => shape(both(json!({"!ty": "gf", "r": 1}), grad(), json!({}))),
        9 => shape(both(json!({"!ty": "gs"}), grad(), line())),
        10 => shape(json!({"!ty": "tm", "nm": "t", "!s": s(json!(0)), "!e": s(json!(50)), "!o": s(json!(0)), "m": 1})),
        11 => shape(json!({"!ty": "sr", "!sy": 1, "!p": xy(), "!or": s(json!(5)), "!os": s(json!(0)), "!r": s(json!(0)), "!pt": s(json!(5)), "ir": s(json!(2)), "is": s(json!(0)), "d": 1})),
        12 => shape(json!({"!ty": "rp", "!c": s(json!(2)), "o": s(json!(0)), "m": 1, "!tr": {"a": xy(), "!p": xy(), "s": xy(), "r": s(json!(0)), "so": s(json!(100)), "eo": s(json!(100))}})),
        // keyframes
        13 => shape(json!({"!ty": "el", "!p": {"a": 1, "!k": [{"!t": 0, "!s": [n(x), 2], "h": 0, "i": {"!x": 1, "!y": 1}, "o": {"!x": 0, "!y": 0}}, {"!t": 9, "!s": [1, 2]}]}, "!s": xy()})),
        14 => shape(json!({"!ty": "sh", "!ks": {"a": 1, "!k": [{"!t": 0, "!s": [bez()], "e": [bez()]}, {"!t": 9, "s": [bez()]}]}})),
        _ => {
            let mut f = file(json!([lay(3, json!({}))]));
            f["!layers"][0]["!ks"]["!p"] = json!({"!s": true, "!x": s(n(x)), "!y": s(json!(2))});
            f
        }
    }
}
const MARKED: usize = 16;
/// removes the marks, and the k-th object member; says whether that one is mandatory
fn unmark(j: &mut J, k: &mut Option<usize>, hit: &mut Option<bool>) {
    match j {
        J::Object(m) => {
            let names: Vec<String> = m.keys().cloned().collect();
            for name in names {
                let mut v = m.remove(&name).unwrap();
                if let Some(i) = k {
                    if *i == 0 {
                        *k = None;
                        *hit = Some(name.starts_with('!'));
                        continue;
                    }
                    *k = Some(*i - 1);
                }
                unmark(&mut v, k, hit);
                m.insert(name.trim_start_matches('!').to_string(), v);
            }
        }
        J::Array(a) => {
            for v in a {
                unmark(v, k, hit);
            }
        }
        _ => {}
    }
}
fn members(j: &J) -> usize {
    match j {
        J::Object(m) => m.values().map(|v| 1 + members(v)).sum(),
        J::Array(a) => a.iter().map(members).sum(),
        _ => 0,
    }
}
/// without any one field: refused if it is mandatory, accepted if it is not
fn missing() {
    let d = vs::choice("document", MARKED);
    let mut j = marked(d, vs::num("x", -9.0, 9.0, 2));
    let (mut k, mut hit) = (Some(vs::choice("field", members(&j) + 1)), None);
    unmark(&mut j, &mut k, &mut hit);
    let r = Composition::from_json(j);
    match hit {
        // nothing removed
        None => vs::check(r.is_ok(), "sound document refused"),
        Some(true) => {
            vs::cover("mandatory field left out");
            vs::check(r.is_err(), "document without a mandatory field not refused")
        }
        Some(false) => {
            vs::cover("optional field left out");
            vs::check(r.is_ok(), "document without an optional field refused")
        }
    }
}
/// unknown fields anywhere change nothing
fn unknown() {
    let mut j = sample(vs::choice("sample", SAMPLES));
    let plain = Composition::from_json(j.clone());
    let k = vs::choice("node", count(&j));
    let x = if curves() { 3.0 } else { vs::num("value", -1024.0, 1024.0, 3) };
    let v = match vs::choice("kind", 4) {
        0 => n(x),
        1 => J::Null,
        2 => json!("text"),
        _ => json!({"a": 1, "k": [{"t": n(x)}], "ty": "zz"}),
    };
    let name = ["unknown", "zz"][vs::choice("name", 2)];
    at_node(&mut j, k, &mut |parent, i| {
        let at = match parent {
            J::Object(m) => m.values_mut().nth(i).unwrap(),
            J::Array(a) => &mut a[i],
            _ => unreachable!(),
        };
        if let J::Object(m) = at {
            m.insert(name.into(), v.clone());
            vs::cover("unknown field added");
        }
    });
    let with = Composition::from_json(j);
    vs::check(plain.is_ok() && with.is_ok(), "document with an unknown field refused");
    if let (Ok(a), Ok(b)) = (plain, with) {
        alike(&drawn(&b, 5.0), &drawn(&a, 5.0), "an unknown field changes the drawing");
    }
}
/// what the document says about itself
fn metadata() {
    let (ip, op, fr) = (vs::num("ip", -500.0, 500.0, 3), vs::num("op", -500.0, 500.0, 3), vs::num("fr", 0.0, 240.0, 3));
    let (w, h) = ([0_u64, 1, 64, 1920, 100_000][vs::choice("w", 5)], [0_u64, 48, 1080, 4_000_000_000][vs::choice("h", 4)]);
    let mut j = file(json!([lay(3, json!({}))]), json!([{"id": "b", "layers": []}, {"id": "a", "fr": 7, "w": 1, "h": 2, "ip": 3, "op": 4, "layers": [lay(3, json!({}))]}]));
    j["ip"] = n(ip);
    j["op"] = n(op);
    j["fr"] = n(fr);
    j["w"] = json!(w);
    j["h"] = json!(h);
    let Ok(c) = Composition::from_json(j) else {
        return vs::check(false, "sound document refused");
    };
    vs::check(c.width as u64 == w, "width");
    vs::check(c.height as u64 == h, "height");
    vs::close(c.frame_rate, fr, 0.0, "frame rate", 0);
    vs::close(c.frames.start, ip, 0.0, "in point", 0);
    vs::close(c.frames.end, op, 0.0, "out point", 0);
    vs::check(c.layers.len() == 1 && c.assets.len() == 2, "layers and assets");
    vs::check(c.assets.get("a").map(|l| l.len()) == Some(1) && c.assets.get("b").map(|l| l.len()) == Some(0), "assets");
}
/// text, bytes and values give the same; cut or followed by rubbish they are refused
fn entry_points() {
    let j = loop {
        let k = vs::choice("sample", SAMPLES);
        break sample(k);
    };
    let text = match vs::choice("layout", 3) {
        0 => serde_json::to_string(&j).unwrap(),
        1 => serde_json::to_string_pretty(&j).unwrap(),
        _ => format!(" \n\t{} \r\n", serde_json::to_string(&j).unwrap()),
    };
    let whole = text.trim_end().len();
    match vs::choice("how", 4) {
        0 => {
            let c = [Composition::from_json(j), Composition::from_slice(text.as_bytes()), text.parse::<Composition>()];
            let Ok(a) = &c[0] else { return vs::check(false, "sound document refused") };
            let want = drawn(a, 5.0);
            for c in &c[1..] {
                let Ok(c) = c else { return vs::check(false, "entry points disagree") };
                vs::check(c.width == a.width && c.height == a.height && c.frames == a.frames && c.frame_rate == a.frame_rate, "entry points disagree");
                alike(&drawn(c, 5.0), &want, "entry points disagree");
            }
        }
        1 => {
            let cut = [0, 1, whole / 4, whole / 2, whole - 9, whole - 2, whole - 1][vs::choice("cut", 7)];
            vs::check(Composition::from_slice(&text.as_bytes()[..cut]).is_err(), "cut document not refused");
            vs::check(text[..cut].parse::<Composition>().is_err(), "cut document not refused");
        }
        2 => {
            let t = text + ["x", "{}", ",", "]", "\0"][vs::choice("after", 5)];
            vs::check(Composition::from_slice(t.as_bytes()).is_err(), "document with rubbish after it not refused");
            vs::check(t.parse::<Composition>().is_err(), "document with rubbish after it not refused");
        }
        _ => {
            let mut b = text.into_bytes();
            let i = b.len() / 2;
            b[i] = 0xff;
            vs::check(Composition::from_slice(&b).is_err(), "document that is not text not refused");
        }
    }
}
/// numbers in text
fn text_numbers() {
    let t = ["0", "-0", "1.5", "-2.25", "1e2", "1E-2", "12.5e+1", "123456789", "0.1", "4294967296", "-7", "1e300"];
    let k = vs::choice("number", t.len());
    let text = format!(r#"{{"fr":30,"ip":{},"op":100,"w":64,"h":48,"layers":[]}}"#, t[k]);
    let want: f64 = t[k].parse().unwrap();
    for c in [Composition::from_slice(text.as_bytes()), text.parse::<Composition>()] {
        match c {
            Ok(c) => eq(c.frames.start, want, "number misread", k),
            Err(_) => vs::check(false, "number refused"),
        }
    }
}
/// text with any one byte of it changed, taken away, doubled or preceded by another: as text and
/// as bytes the same, or refused as both
fn text_bytes() {
    let texts = [
        r#"{"fr":30,"ip":0.5,"op":1e2,"w":64,"h":48,"nm":"\u00e9 \n","layers":[{"ty":3,"ip":0,"op":1,"ks":{"p":{"a":0,"k":[1,2]}}}]}"#,
        r#" {"layers": [ ], "w": 6, "h": 48, "op": -7, "ip": 0, "fr": 30, "zz": [null, true, {"a": "b"}]} "#,
    ];
    let mut b = texts[vs::choice("text", texts.len())].as_bytes().to_vec();
    let k = vs::choice("place", b.len());
    let odd: [&[u8]; 7] = [b"\xef\xbb\xbf", b"\xc2\xa0", b"\xe2\x80\x8b", b"\xc3\xa9", b"\xf0\x9f\x98\x80", b"\xff", b"\xc3"];
    let o = vs::choice("odd", odd.len() + 1);
    let c = [if o == 0 { vs::choice("byte", 128) as u8 } else { 0 }];
    let new = if o == 0 { &c[..] } else { odd[o - 1] };
    match vs::choice("change", 2) {
        0 => drop(b.splice(k..k, new.iter().copied())),
        _ => drop(b.splice(k..k + 1, new.iter().copied())),
    }
    let bytes = Composition::from_slice(&b);
    let Ok(text) = std::str::from_utf8(&b) else {
        vs::check(bytes.is_err(), "bytes that are not text not refused");
        return;
    };
    let text = text.parse::<Composition>();
    match (bytes, text) {
        (Ok(x), Ok(y)) => {
            vs::cover("sound text");
            vs::check(x.width == y.width && x.height == y.height && x.layers.len() == y.layers.len(), "entry points disagree");
            eq(x.frame_rate, y.frame_rate, "entry points disagree", 0);
            eq(x.frames.start, y.frames.start, "entry points disagree", 1);
            eq(x.frames.end, y.frames.end, "entry points disagree", 2);
        }
        (x, y) => vs::check(x.is_err() && y.is_err(), "entry points disagree"),
    }
}
// -------------------------------------------------------------------- C23
fn round_trip(j: J, frames: &[f64]) {
    let Ok(a) = Animation::from_json(j.clone()) else {
        vs::cover("not an animation");
        return;
    };
    let Ok(v) = serde_json::to_value(&a) else { return vs::check(false, "animation cannot be serialized") };
    let Ok(c) = Composition::from_json(v) else { return vs::check(false, "serialized animation cannot be parsed") };
    let Ok(d) = Composition::from_json(j) else { return vs::check(false, "entry points disagree") };
    vs::check(c.width == d.width && c.height == d.height, "size changed by a round trip");
    eq(c.frame_rate, d.frame_rate, "frame rate changed by a round trip", 0);
    eq(c.frames.start, d.frames.start, "in point changed by a round trip", 0);
    eq(c.frames.end, d.frames.end, "out point changed by a round trip", 0);
    for f in frames {
        alike(&drawn(&c, *f), &drawn(&d, *f), "drawing changed by a round trip");
    }
    vs::cover("round trip");
}
/// the sound documents, with any value replaced by a symbolic one of its kind
fn trips() {
    let mut j = sample(vs::choice("sample", SAMPLES));
    let k = vs::choice("node", count(&j));
    let x = if curves() { 3.0 } else { vs::num("value", -1024.0, 1024.0, 3) };
    at_node(&mut j, k, &mut |parent, i| {
        let at = match parent {
            J::Object(m) => m.values_mut().nth(i).unwrap(),
            J::Array(a) => &mut a[i],
            _ => unreachable!(),
        };
        match at {
            J::Number(_) => *at = if vs::flag("symbolic") { n(x) } else { at.clone() },
            J::Bool(b) => *b = !*b,
            _ => {}
        }
    });
    let frames = [[-1.0, 5.0], [12.0, 25.0]];
    round_trip(j, &frames[vs::choice("frames", 2)]);
}
fn damaged_trips() {
    let mut j = sample(vs::choice("sample", SAMPLES));
    damage(&mut j);
    round_trip(j, &[5.0]);
}
/// small documents with two things wrong
fn paired_trips() {
    round_trip(crate::h_any::pair(), &[5.0]);
}
/// through text
fn text_trips() {
    let mut j = sample(vs::choice("sample", SAMPLES));
    let k = vs::choice("node", count(&j));
    if vs::flag("removed") {
        at_node(&mut j, k, &mut |parent, i| match parent {
            J::Object(m) => {
                let k = m.keys().nth(i).unwrap().clone();
                m.remove(&k);
            }
            J::Array(a) => {
                a.remove(i);
            }
            _ => {}
        });
    }
    let Ok(a) = Animation::from_json(j.clone()) else { return };
    let text = a.to_string();
    let (Ok(b), Ok(c)) = (text.parse::<Animation>(), Animation::from_slice(text.as_bytes())) else {
        return vs::check(false, "written animation cannot be parsed");
    };
    vs::check(a == b && b == c, "animation changed by a round trip");
    let (Ok(x), Ok(y)) = (Composition::from_json(j), Composition::from_slice(text.as_bytes())) else {
        return vs::check(false, "written animation cannot be imported");
    };
    alike(&drawn(&y, 5.0), &drawn(&x, 5.0), "drawing changed by a round trip");
}
crate::entries! {
    c22_layers => layer_types;
    c22_shapes => shape_types;
    c22_assets => asset_types;
    c22_missing => missing;
    c22_unknown => unknown;
    c22_metadata => metadata;
    c22_entry => entry_points;
    c22_numbers => text_numbers;
    c22_bytes => text_bytes;
    c23_trips => trips;
    c23_damage => damaged_trips;
    c23_pairs => paired_trips;
    c23_text => text_trips;
}
