//! What a document means does not depend on when it plays, how fast, what its parts are called or
//! what is beside them (C29). The document is its own oracle: rendered as it is and as it is changed.
use crate::doc::*;
use crate::h_any::{SAMPLES, lay, sample, file};
use crate::h_basic::render;
use crate::rec::*;
use crate::vs;
use serde_json::{Value as J, json};

type Change<'a> = &'a dyn Fn(f64) -> f64;

/// `ch` applied to the times of the keyframes in `j`
fn keyframes(j: &mut J, ch: Change<'_>) {
    match j {
        J::Object(m) => {
            if let Some(J::Array(k)) = m.get_mut("k") {
                for k in k {
                    change(k, "t", ch);
                }
            }
            m.values_mut().for_each(|v| keyframes(v, ch));
        }
        J::Array(a) => a.iter_mut().for_each(|v| keyframes(v, ch)),
        _ => {}
    }
}
fn change(j: &mut J, key: &str, ch: Change<'_>) {
    if let Some(v) = j.as_object_mut().and_then(|m| m.get_mut(key)) {
        if let Some(x) = v.as_f64() {
            *v = n(ch(x));
        }
    }
}
/// `ch` applied to every time of the layers
fn layers(j: &mut J, ch: Change<'_>) {
    for l in j.as_array_mut().unwrap() {
        ["ip", "op", "st"].iter().for_each(|k| change(l, k, ch));
        keyframes(l, ch);
    }
}
fn assets(j: &mut J) -> Vec<&mut J> {
    j["assets"].as_array_mut().map_or(vec![], |a| a.iter_mut().filter_map(|a| a.get_mut("layers")).collect())
}
/// instances start `ch` later
fn starts(j: &mut J, d: f64) {
    for l in j.as_array_mut().unwrap() {
        if l["ty"] == json!(0) {
            let sr = l.get("sr").and_then(|v| v.as_f64()).unwrap_or(1.0);
            change(l, "st", &|t| t + d * sr);
        }
    }
}
fn path(x: f64) -> J {
    json!({"c": true, "v": [[x, 0], [10, 0], [10, 10]], "i": [[0, 0], [1, 1], [0, 0]], "o": [[0, 0], [1, -1], [0, 0]]})
}
fn box_of(x: f64) -> J {
    json!([{"ty": "rc", "p": {"a": 0, "k": [x, 1]}, "s": {"a": 0, "k": [4, 4]}, "r": {"a": 0, "k": 0}}, {"ty": "fl", "c": {"a": 0, "k": [1, 0.5, 0]}, "o": {"a": 0, "k": 100}}])
}
fn moving(a: f64, b: f64) -> J {
    json!({"a": 1, "k": [{"t": 2, "s": [a, 1], "o": {"x": [0], "y": [0]}, "i": {"x": [1], "y": [1]}}, {"t": 6, "s": [b, 2], "h": 1}, {"t": 10, "s": [a, 5]}]})
}
/// a document of parents, mattes, masks and instances in instances, all of which move
fn rich() -> J {
    made(&moving, &masking)
}
fn masking() -> J {
    json!([{"t": 1, "s": [path(0.0)], "o": {"x": 0, "y": 0}, "i": {"x": 1, "y": 1}}, {"t": 9, "s": [path(4.0)]}])
}
fn made(moving: &dyn Fn(f64, f64) -> J, masking: &dyn Fn() -> J) -> J {
    let mask = json!([{"mode": "a", "inv": false, "o": {"a": 0, "k": 100}, "pt": {"a": 1, "k": masking()}}]);
    file(
        json!([
            lay(4, json!({"nm": "low", "ind": 3, "parent": 7, "ip": 1, "op": 8, "shapes": box_of(1.0), "masksProperties": mask})),
            lay(4, json!({"nm": "mark", "ind": 4, "td": 1, "ip": 2, "op": 30, "shapes": box_of(2.0)})),
            lay(4, json!({"nm": "matted", "ind": 5, "tt": 1, "tp": 4, "op": 9, "shapes": box_of(3.0)})),
            lay(0, json!({"nm": "in", "ind": 6, "parent": 7, "refId": "a", "ip": 3, "op": 12, "st": 2, "sr": 2, "w": 64, "h": 48})),
            lay(3, json!({"ind": 7, "parent": 9, "ks": {"p": moving(1.0, 5.0), "o": {"a": 0, "k": 50}}})),
            lay(3, json!({"ind": 9, "ks": {"p": {"a": 0, "k": [0, 0]}, "s": moving(100.0, 50.0)}}))]),
        json!([
            {"id": "a", "layers": [
                lay(0, json!({"nm": "in in", "ind": 1, "parent": 2, "refId": "b", "ip": -2, "op": 4, "st": 1, "w": 64, "h": 48})),
                lay(3, json!({"ind": 2, "ks": {"p": moving(-3.0, 3.0)}}))]},
            {"id": "b", "layers": [lay(4, json!({"nm": "deep", "ip": -4, "op": 3, "ks": {"p": {"a": 0, "k": [2, 0]}, "o": moving(30.0, 80.0)}, "shapes": box_of(5.0)}))]}]),
    )
}
/// some document that draws, and whether it is all of constants
fn some(of: usize) -> J {
    match vs::choice("document", of) {
        0 => rich(),
        k if k <= SAMPLES => sample(k - 1),
        _ => {
            let slot = vs::choice("slot", crate::h_time::SLOTS.len());
            let (_, c, lo, hi) = crate::h_time::SLOTS[slot];
            let x = vs::num("x", 0.0, 1.0, 3);
            let v = |w: f64| (0..c).map(|j| lo + (hi - lo) * (0.5 * x + w + j as f64 / 16.0)).collect::<Vec<_>>();
            crate::h_time::place(slot, Prop::A(vec![kf(0.0, &v(0.125)), hold(8.0, &v(0.5)), kf(12.0, &v(0.25))])).json()
        }
    }
}
/// any frame for the document whose values lie on straight lines, frames on either side of all its
/// keyframes for others
fn frame(d: &J) -> f64 {
    if d["layers"][0]["nm"] == json!("low") {
        return vs::num("f", -16.0, 32.0, 2);
    }
    [-1.0, 0.0, 3.0, 8.0, 10.5, 12.0, 21.0, 99.0, 100.0][vs::choice("frame", 9)]
}
fn alike(got: &J, f: f64, want: &J, g: f64) {
    let got = render(got.clone(), f, ID, 1.0);
    let want = render(want.clone(), g, ID, 1.0);
    if !draws(&want).is_empty() {
        vs::cover("something drawn");
    }
    same(&got, &want, &TOL);
}
/// later
fn later() {
    let d = some(SAMPLES + 2);
    let by = [-13.0, 5.0, 1000.0][vs::choice("by", 3)];
    let mut e = d.clone();
    ["ip", "op"].iter().for_each(|k| change(&mut e, k, &|t| t + by));
    layers(&mut e["layers"], &|t| t + by);
    let f = frame(&d);
    alike(&e, f + by, &d, f);
}
/// by any time
fn any_later() {
    let d = rich();
    let by = vs::num("by", -100.0, 100.0, 1);
    let mut e = d.clone();
    ["ip", "op"].iter().for_each(|k| change(&mut e, k, &|t| t + by));
    layers(&mut e["layers"], &|t| t + by);
    let f = [0.0, 3.0, 4.5, 9.0, 12.0][vs::choice("f", 5)];
    alike(&e, f + by, &d, f);
}
/// slower: all times by a factor, at that many times the frame
fn slower() {
    let d = some(SAMPLES + 2);
    let by = [0.5, 2.0, 16.0][vs::choice("by", 3)];
    let mut e = d.clone();
    ["ip", "op"].iter().for_each(|k| change(&mut e, k, &|t| t * by));
    layers(&mut e["layers"], &|t| t * by);
    for a in assets(&mut e) {
        layers(a, &|t| t * by);
    }
    let f = frame(&d);
    alike(&e, f * by, &d, f);
}
/// the content of the assets later, its instances started as much earlier
fn assets_later() {
    let d = if vs::flag("sample") { sample(1) } else { rich() };
    let by = [-13.0, 5.0, 0.5][vs::choice("by", 3)];
    let mut e = d.clone();
    // what the main layers instance, then what those instances instance
    starts(&mut e["layers"], -by);
    let mut inner = assets(&mut e);
    let all = inner.len() > 1 && vs::flag("all");
    layers(inner[0], &|t| t + by);
    if all {
        starts(inner[0], -by);
        layers(inner[1], &|t| t + by);
    }
    let f = frame(&d);
    alike(&e, f, &d, f);
}
/// other numbers for the layers, other names for the assets
fn renamed() {
    let d = some(SAMPLES + 1);
    let mut e = d.clone();
    let numbers = vs::choice("numbers", 4);
    let number = |t: f64| [t + 100.0, 1000.0 - t, 3.0 * t, t + 1.0][numbers];
    let names = vs::choice("names", 5);
    let name = |v: &mut J| {
        if let J::String(s) = v {
            *s = [format!("x{s}"), s.to_uppercase(), if s == "a" { "b".into() } else if s == "b" { "a".into() } else { s.clone() }, if s == "b" { "A".into() } else { s.clone() }, if s == "b" { String::new() } else { format!("{s} ") }][names].clone();
        }
    };
    let one = |ls: &mut J| {
        for l in ls.as_array_mut().unwrap() {
            ["ind", "parent", "tp"].iter().for_each(|k| {
                if let Some(v) = l.get_mut(*k) {
                    *v = json!(number(v.as_f64().unwrap()) as i64);
                }
            });
            l.get_mut("refId").map(&name);
        }
    };
    one(&mut e["layers"]);
    for a in e["assets"].as_array_mut().unwrap() {
        a.get_mut("id").map(&name);
        if let Some(l) = a.get_mut("layers") {
            one(l);
        }
    }
    if vs::flag("assets reversed") {
        e["assets"].as_array_mut().unwrap().reverse();
    }
    let f = [0.0, 4.0, 7.5, 11.0][vs::choice("f", 4)];
    alike(&e, f, &d, f);
}
/// layers and assets that draw nothing beside the others
fn beside() {
    let d = some(SAMPLES + 1);
    let mut e = d.clone();
    let f = [0.0, 4.0, 7.5][vs::choice("f", 3)];
    let more = match vs::choice("more", 6) {
        0 => lay(4, json!({"nm": "hidden", "ind": 90, "hd": true, "shapes": box_of(1.0)})),
        1 => lay(4, json!({"nm": "later", "ind": 90, "ip": 60, "shapes": box_of(1.0)})),
        2 => lay(4, json!({"nm": "over", "ind": 90, "ip": -9, "op": -1, "shapes": box_of(1.0)})),
        3 => lay(4, json!({"nm": "source", "ind": 90, "td": 1, "shapes": box_of(1.0)})),
        4 => lay(3, json!({"ind": 90, "hd": true})),
        _ => {
            e["assets"].as_array_mut().unwrap().insert(0, json!({"id": "unused", "layers": [lay(4, json!({"ind": 3, "shapes": box_of(1.0)}))]}));
            return alike(&e, f, &d, f);
        }
    };
    let ls = if vs::flag("in an asset") {
        match assets(&mut e).into_iter().next() {
            Some(a) => a,
            None => return,
        }
    } else {
        &mut e["layers"]
    };
    let ls = ls.as_array_mut().unwrap();
    let n = ls.len();
    // between a matte and its layer only where the layer names its matte
    let at = [0, n, n / 2][vs::choice("at", 3)];
    ls.insert(at, more);
    // hidden layers are groups of nothing
    let drawn = |j: J| render(j, f, ID, 1.0).into_iter().filter(|e| !matches!(e, Ev::Begin { .. } | Ev::End)).collect::<Vec<_>>();
    same(&drawn(e), &drawn(d), &TOL);
}
/// what says nothing about the drawing
fn irrelevant() {
    let d = some(SAMPLES + 1);
    let mut e = d.clone();
    let x = vs::num("x", 1.0, 120.0, 1);
    match vs::choice("what", 5) {
        0 => e["fr"] = n(x),
        1 => e["v"] = json!("4.0.0"),
        2 => e["nm"] = json!("some name"),
        3 => {
            e["ip"] = n(x);
            e["op"] = n(x + 50.0);
        }
        _ => {
            for a in e["assets"].as_array_mut().unwrap() {
                if a.get("layers").is_some() {
                    a["nm"] = json!("asset");
                    a["fr"] = n(x);
                }
            }
        }
    }
    let f = [0.0, 4.0, 7.5][vs::choice("f", 3)];
    alike(&e, f, &d, f);
}
/// more keyframes on the same way
fn refined() {
    let how = vs::choice("how", 7);
    let lin = |t: f64, v: [f64; 2]| json!({"t": t, "s": v, "o": {"x": [0], "y": [0]}, "i": {"x": [1], "y": [1]}});
    let more = move |a: f64, b: f64| {
        let mut k = vec![lin(2.0, [a, 1.0]), json!({"t": 6, "s": [b, 2], "h": 1}), json!({"t": 10, "s": [a, 5]})];
        match how {
            0 => k.insert(1, lin(4.0, [(a + b) / 2.0, 1.5])),
            1 => k.insert(1, lin(3.0, [a + (b - a) / 4.0, 1.25])),
            2 => k.insert(2, json!({"t": 8, "s": [b, 2], "h": 1})),
            3 => k.push(json!({"t": 15, "s": [a, 5]})),
            4 => k.insert(0, json!({"t": -5, "s": [a, 1], "h": 1})),
            5 => k.insert(0, lin(-5.0, [a, 1.0])),
            _ => {
                for t in [5.0, 4.0, 3.0] {
                    let w = (t - 2.0) / 4.0;
                    k.insert(1, lin(t, [a + (b - a) * w, 1.0 + w]));
                }
            }
        }
        json!({"a": 1, "k": k})
    };
    let masks = vs::flag("masks");
    let mask = move || {
        let mut k = masking();
        if masks {
            k.as_array_mut().unwrap().insert(1, json!({"t": 5, "s": [path(2.0)], "o": {"x": 0, "y": 0}, "i": {"x": 1, "y": 1}}));
            k.as_array_mut().unwrap().push(json!({"t": 12, "s": [path(4.0)]}));
        }
        k
    };
    let d = rich();
    let f = frame(&d);
    alike(&made(&more, &mask), f, &d, f);
}
/// the shapes of every layer in groups, or the whole of it in an asset
fn wrapped() {
    let d = some(SAMPLES + 1);
    let mut e = d.clone();
    let f = frame(&d);
    if vs::flag("asset") {
        let inner = std::mem::replace(&mut e["layers"], json!([lay(0, json!({"refId": "all of it", "ip": -999, "op": 999, "ks": {"p": {"a": 0, "k": [0, 0]}}, "w": 64, "h": 48}))]));
        e["assets"].as_array_mut().unwrap().push(json!({"id": "all of it", "layers": inner}));
        let draws = |j: J| render(j, f, ID, 1.0).into_iter().filter(|e| !matches!(e, Ev::Begin { .. } | Ev::End)).collect::<Vec<_>>();
        // the instance may clip what it shows
        let mut got = draws(e);
        let want = draws(d);
        if got.len() == want.len() + 2 && matches!(got[1], Ev::PushLayer { .. } | Ev::PushClip { .. }) {
            got.remove(1);
            got.remove(got.len() - 2);
        }
        return same(&got, &want, &TOL);
    }
    let deep = vs::choice("deep", 2) + 1;
    let wrap = |ls: &mut J| {
        for l in ls.as_array_mut().unwrap() {
            if let Some(s) = l.get_mut("shapes") {
                for _ in 0..deep {
                    let mut it = std::mem::take(s);
                    it.as_array_mut().unwrap().push(json!({"ty": "tr", "a": {"a": 0, "k": [0, 0]}, "p": {"a": 0, "k": [0, 0]}, "s": {"a": 0, "k": [100, 100]}, "r": {"a": 0, "k": 0}, "o": {"a": 0, "k": 100}}));
                    *s = json!([{"ty": "gr", "it": it}]);
                }
            }
        }
    };
    wrap(&mut e["layers"]);
    assets(&mut e).into_iter().for_each(wrap);
    alike(&e, f, &d, f);
}
crate::entries! {
    c29_refined => refined;
    c29_wrapped => wrapped;
    c29_later => later;
    c29_any => any_later;
    c29_slower => slower;
    c29_assets => assets_later;
    c29_renamed => renamed;
    c29_beside => beside;
    c29_irrelevant => irrelevant;
}
