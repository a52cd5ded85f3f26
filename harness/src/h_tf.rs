//! Transforms: composition of components, parent chains.
use crate::doc::*;
use crate::h_basic::{compare, compare_elsewhere};
use crate::vs;

fn v2(name: &str, lo: f64, hi: f64) -> Prop {
    s2(vs::num(name, lo, hi, 3), vs::num(name, lo, hi, 3))
}
/// every static transform: each component left out, plain or symbolic
fn any_tf(split: bool, skew: bool) -> Tf {
    let rots = [0.0, 30.0, -90.0, 45.0, 200.0];
    Tf {
        a: if vs::flag("has a") { Some(v2("a", -300.0, 300.0)) } else { None },
        p: if split && vs::flag("split") { Pos::Split(s1(vs::num("px", -300.0, 300.0, 3)), s1(vs::num("py", -300.0, 300.0, 3))) } else { Pos::One(v2("p", -300.0, 300.0)) },
        s: if vs::flag("has s") { Some(v2("s", -300.0, 300.0)) } else { None },
        r: Some(match vs::choice("r", 3) {
            0 => s1(vs::num("rot", -720.0, 720.0, 2)),
            1 => s1(rots[vs::choice("deg", rots.len())]),
            _ => s1(0.0),
        }),
        sk: if skew && vs::flag("has sk") { Some(s1(vs::num("sk", 1.0, 80.0, 2) * if vs::flag("neg") { -1.0 } else { 1.0 })) } else { None },
        sa: if skew && vs::flag("has sa") { Some(s1([0.0, 30.0, 90.0, -45.0][vs::choice("sa", 4)])) } else { None },
        o: None,
    }
}
fn body() -> Vec<Sh> {
    vec![tri(1.0, 2.0, 3.0), fill(1.0, 0.0, 0.0)]
}
/// a layer's transform under the caller's
fn of_layer() {
    let t = any_tf(true, true);
    let g = if vs::flag("view") { [vs::num("g", -4.0, 4.0, 3), 0.5, -0.25, vs::num("g", -4.0, 4.0, 3), vs::num("gx", -99.0, 99.0, 3), 7.0] } else { ID };
    compare(&doc(vec![Ly { ks: t, ..layer(body()) }]), 5.0, g, 1.0);
}
/// a group's transform, alone and nested; a group without one
fn of_group() {
    let t = any_tf(false, true);
    let g = Sh::Group { it: body(), tf: Some(t) };
    let g = match vs::choice("nest", 4) {
        0 => g,
        1 => Sh::Group { it: vec![g], tf: None },
        2 => Sh::Group { it: vec![g], tf: Some(Tf { s: Some(s2(50.0, 200.0)), r: Some(s1(30.0)), ..tfp(3.0, 4.0) }) },
        _ => Sh::Group { it: vec![Sh::Group { it: vec![g], tf: Some(Tf { s: Some(s2(-100.0, 75.0)), ..tfp(1.0, 0.0) }) }], tf: Some(tfp(9.0, -4.0)) },
    };
    compare(&doc(vec![Ly { ks: tfp(20.0, 30.0), ..layer(vec![g]) }]), 5.0, ID, 1.0);
}
fn anim(name: &str, c: usize, lo: f64, hi: f64) -> Prop {
    let v = |_: usize| -> Vec<f64> { (0..c).map(|_| vs::num(name, lo, hi, 2)).collect() };
    Prop::A(vec![kf(0.0, &v(0)), kf(10.0, &v(1))])
}
/// several components animated at once, frames all over
fn animated() {
    let which = vs::choice("which", 1 << 6);
    let has = |i: usize| which >> i & 1 == 1;
    let t = Tf {
        a: Some(if has(0) { anim("a", 2, -100.0, 100.0) } else { s2(4.0, 5.0) }),
        p: if has(1) { Pos::One(anim("p", 2, -100.0, 100.0)) } else { Pos::Split(anim("px", 1, -100.0, 100.0), s1(3.0)) },
        s: Some(if has(2) { anim("s", 2, -100.0, 100.0) } else { s2(50.0, 200.0) }),
        r: Some(if has(3) { Prop::A(vec![kf(0.0, &[10.0]), kf(10.0, &[100.0])]) } else { s1(30.0) }),
        sk: if has(4) { Some(Prop::A(vec![kf(0.0, &[10.0]), kf(10.0, &[40.0])])) } else { None },
        sa: if has(5) { Some(Prop::A(vec![hold(0.0, &[10.0]), kf(10.0, &[30.0])])) } else { None },
        o: None,
    };
    let f = match vs::choice("where", 4) {
        0 => -vs::num("d", 0.5, 50.0, 2),
        1 => 10.0 + vs::num("d", 0.0, 50.0, 2),
        2 => {
            vs::root_hint(0.5);
            5.0
        }
        _ => {
            // linear easing is the curve with handles (0,0) and (1,1)
            // angles go through sine and cosine: concrete frames for those
            let u = if which >> 3 != 0 { [0.25, 0.625, 0.90625][vs::choice("at", 3)] } else { vs::num("u", 0.03125, 0.96875, 6) };
            vs::root_hint(u);
            10.0 * (3.0 * u * u - 2.0 * u * u * u)
        }
    };
    let group = vs::flag("group");
    let l = if group {
        let t = match &t.p {
            Pos::One(_) => t,
            Pos::Split(..) => Tf { p: Pos::One(s2(1.0, 2.0)), ..t },
        };
        layer(vec![Sh::Group { it: body(), tf: Some(t) }])
    } else {
        Ly { ks: t, ..layer(body()) }
    };
    compare_elsewhere(doc(vec![Ly { ip: -100.0, ..l }]), f, if which >> 3 == 0 { 3 } else { 1 });
}
/// transforms given with only a position and a rotation
fn omitted() {
    let layer_level = vs::flag("layer");
    let t = Tf { a: None, p: Pos::One(v2("p", -300.0, 300.0)), s: None, r: if vs::flag("r") { Some(s1(vs::num("rot", -720.0, 720.0, 2))) } else { None }, sk: None, sa: None, o: None };
    let d = if layer_level { doc(vec![Ly { ks: t, ..layer(body()) }]) } else { doc(vec![layer(vec![Sh::Group { it: body(), tf: Some(t) }])]) };
    compare(&d, 5.0, ID, 1.0);
}
/// 3-component points and scales, and zero scales
fn odd_shapes() {
    let z = vs::num("z", -100.0, 100.0, 2);
    let t = Tf {
        a: Some(s3(vs::num("a", -100.0, 100.0, 2), 2.0, z)),
        p: Pos::One(s3(3.0, vs::num("p", -100.0, 100.0, 2), z)),
        s: Some(s3(if vs::flag("flat") { 0.0 } else { vs::num("s", -100.0, 100.0, 2) }, -100.0, z)),
        ..tf0()
    };
    let d = if vs::flag("layer") { doc(vec![Ly { ks: t, ..layer(body()) }]) } else { doc(vec![layer(vec![Sh::Group { it: body(), tf: Some(t) }])]) };
    compare(&d, 5.0, ID, 1.0);
}

// ------------------------------------------------------------------- parents
fn ltf(k: usize) -> Tf {
    let name = ["x0", "x1", "x2", "x3"][k];
    let t = tfp(vs::num(name, -100.0, 100.0, 2), vs::num(name, -100.0, 100.0, 2));
    match k {
        0 => Tf { s: Some(s2(50.0, 200.0)), ..t },
        1 => Tf { r: Some(s1(30.0)), ..t },
        2 => Tf { a: Some(s2(5.0, 6.0)), s: Some(s2(100.0, -100.0)), ..t },
        _ => Tf { r: Some(s1(-90.0)), s: Some(s2(25.0, 75.0)), ..t },
    }
}
fn acyclic(l: &[Ly]) -> bool {
    l.iter().all(|x| {
        let (mut p, mut n) = (x.parent, 0);
        while let Some(i) = p {
            match l.iter().rev().find(|y| y.ind == Some(i)) {
                Some(q) => p = q.parent,
                None => return true,
            }
            n += 1;
            if n > l.len() {
                return false;
            }
        }
        true
    })
}
/// n layers in any order of ids, any acyclic parent links (also to ids that do not exist)
fn links(n: usize) -> Vec<Ly> {
    let perms: &[[usize; 4]] = &[[1, 2, 3, 4], [3, 1, 2, 9], [2, 7, 1, 3]];
    let ids = perms[vs::choice("ids", perms.len())];
    let v: Vec<Ly> = (0..n)
        .map(|k| {
            let p = vs::choice("parent", n + 2);
            Ly {
                ks: ltf(k),
                ind: Some(ids[k]),
                parent: if p == 0 { None } else if p == n + 1 { Some(77) } else { Some(ids[p - 1]) },
                nm: Some(format!("L{k}")),
                ..layer(body())
            }
        })
        .collect();
    vs::assume(acyclic(&v));
    v
}
fn parents() {
    let n = 2 + vs::choice("n", 2);
    compare(&doc(links(n)), 5.0, ID, 1.0);
}
fn parents4() {
    compare(&doc(links(4)), 5.0, ID, 1.0);
}
/// what a parent is does not matter: hidden, null, transparent, out of its range, a matte source
fn parent_kinds() {
    let mut v: Vec<Ly> = (0..3).map(|k| Ly { ks: ltf(k), ind: Some(k + 1), ..layer(body()) }).collect();
    v[0].parent = Some([2, 3][vs::choice("p0", 2)]);
    v[1].parent = [None, Some(3)][vs::choice("p1", 2)];
    for k in 1..3 {
        match vs::choice("kind", 7) {
            0 => v[k].hd = Some(true),
            1 => v[k].ty = 3,
            2 => v[k].ks.o = Some(s1(vs::num("o", 0.0, 100.0, 1))),
            3 => v[k].op = vs::num("op", 0.0, 100.0, 1),
            4 => v[k].td = Some(1),
            5 => v[k].ty = 1,
            _ => {
                v[k].ks.p = Pos::One(anim("p", 2, -100.0, 100.0));
            }
        }
    }
    vs::root_hint(0.5);
    compare(&doc(v), 5.0, ID, 1.0);
}
/// the same ids used in the composition and in an asset
fn parents_in_assets() {
    let mk = |k: usize, d: usize| -> Vec<Ly> {
        (0..2).map(|i| Ly { ks: ltf(2 * k + i), ind: Some(1 + (i + d) % 2), ..layer(body()) }).collect()
    };
    let mut top = mk(0, vs::choice("top order", 2));
    let mut a = mk(1, vs::choice("asset order", 2));
    let opt = |n: &str| [None, Some(1), Some(2), Some(5)][vs::choice(n, 4)];
    top[0].parent = opt("top 0");
    top[1].parent = opt("top 1");
    a[0].parent = opt("asset 0");
    a[1].parent = opt("asset 1");
    vs::assume(acyclic(&top) && acyclic(&a));
    top.push(Ly { ks: tfp(vs::num("ix", -50.0, 50.0, 2), 3.0), ind: Some(5), parent: [None, Some(1)][vs::choice("inst", 2)], ..inst("a") });
    vs::assume(acyclic(&top));
    let mut d = doc(top);
    d.assets = vec![("a".into(), a)];
    compare(&d, 5.0, ID, 1.0);
}
/// layers without an id
fn parents_without_ids() {
    let mut v: Vec<Ly> = (0..3).map(|k| Ly { ks: ltf(k), ind: [None, Some(0), Some(1)][vs::choice("ind", 3)], ..layer(body()) }).collect();
    for l in v.iter_mut() {
        l.parent = [None, Some(0), Some(1)][vs::choice("parent", 3)];
    }
    // two layers of one id: which is meant is not specified
    vs::assume((0..3).all(|i| (0..i).all(|j| v[i].ind.is_none() || v[i].ind != v[j].ind)));
    vs::assume(acyclic(&v));
    compare(&doc(v), 5.0, ID, 1.0);
}
crate::entries! {
    c06_layer => of_layer;
    c06_group => of_group;
    c06_animated => animated;
    c06_omitted => omitted;
    c06_odd => odd_shapes;
    c07_parents => parents;
    c07_parents4 => parents4;
    c07_kinds => parent_kinds;
    c07_assets => parents_in_assets;
    c07_noids => parents_without_ids;
}
