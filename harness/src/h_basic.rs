use crate::doc::*;
use crate::rec::*;
use crate::vs;

pub fn render(j: serde_json::Value, f: f64, tf: M, alpha: f64) -> Vec<Ev> {
    let c = match velato::Composition::from_json(j) {
        Ok(c) => c,
        Err(_) => {
            vs::check(false, "import failed");
            return vec![];
        }
    };
    let mut r = Rec::default();
    velato::Renderer::new().append(&c, f, kurbo::Affine::new(tf), alpha, &mut r);
    r.ev
}
pub fn compare(d: &Doc, f: f64, tf: M, alpha: f64) {
    let want = reference(d, f, tf, alpha);
    let got = render(d.json(), f, tf, alpha);
    same(&got, &want, &TOL);
}
/// the same drawing as it is, in groups, in an asset at twice the frame, and (of four) after other geometry
pub fn elsewhere(mut d: Doc, f: f64, places: usize) -> (Doc, f64) {
    match vs::choice("elsewhere", places) {
        0 => {}
        1 => {
            for l in &mut d.layers {
                let it = std::mem::take(&mut l.shapes);
                l.shapes = vec![Sh::Group { it: vec![Sh::Group { it, tf: Some(tfp(1.0, 2.0)) }], tf: None }];
            }
        }
        2 => {
            let i = Ly { ip: -1000.0, op: 1000.0, sr: Some(2.0), ..inst("inner") };
            d.assets.push(("inner".into(), std::mem::replace(&mut d.layers, vec![i])));
            return (d, 2.0 * f);
        }
        _ => {
            for l in &mut d.layers {
                l.shapes.insert(0, tri(40.0, 50.0, 60.0));
            }
        }
    }
    (d, f)
}
pub fn compare_elsewhere(d: Doc, f: f64, places: usize) {
    let (d, f) = elsewhere(d, f, places);
    compare(&d, f, ID, 1.0);
}
fn smoke() {
    let x = vs::num("x", -100.0, 100.0, 3);
    let y = vs::num("y", -100.0, 100.0, 3);
    let o = vs::num("o", 0.0, 100.0, 1);
    let ip = vs::num("ip", 0.0, 50.0, 1);
    let f = vs::num("f", -10.0, 110.0, 2);
    let two = vs::flag("two");
    let mut ls = vec![layer(vec![tri(1.0, 2.0, 3.0), fill(0.5, 0.25, 1.0)])];
    if two {
        ls.push(layer(vec![tri(2.0, 2.0, 3.0), fill(0.5, 0.25, 1.0)]));
    }
    ls[0].ks = Tf { o: Some(s1(o)), ..tfp(x, y) };
    ls[0].ip = ip;
    compare(&doc(ls), f, ID, 1.0);
}
crate::entries! {
    h_smoke => smoke;
}
