//! Renders the documents of case.json into vello scenes and compares what these hold with what they should.
use serde_json::Value as J;
use velato::vello::kurbo::Affine;
use velato::{Composition, Renderer};

fn words(w: &[u32]) -> String {
    w.iter()
        .map(|w| {
            let f = f32::from_bits(*w);
            if f.is_finite() && f.abs() > 1e-20 && f.abs() < 1e6 { format!(" {f:.4}") } else { format!(" w{w}") }
        })
        .collect()
}
fn scene(doc: &J, frame: f64) -> Vec<String> {
    let c = Composition::from_slice(doc.to_string().as_bytes()).unwrap();
    let s = Renderer::new().render_to_vello_scene(&c, frame, Affine::new([2.0, 0.0, 0.0, 1.0, 3.0, 4.0]), 0.5);
    let e = s.encoding();
    let mut v = vec![
        format!("path tags {:?}", e.path_tags.iter().map(|t| t.0).collect::<Vec<_>>()),
        format!("draw tags {:?}", e.draw_tags.iter().map(|t| t.0).collect::<Vec<_>>()),
        format!("path data{}", words(&e.path_data)),
        format!("draw data{}", words(&e.draw_data)),
        format!("counts {} {} {} {}", e.n_paths, e.n_path_segments, e.n_clips, e.n_open_clips),
    ];
    v.extend(e.transforms.iter().map(|t| format!("transform {:.4?} {:.4?}", t.matrix, t.translation)));
    v.extend(e.styles.iter().map(|s| format!("style {} {:.4}", s.flags_and_miter_limit, s.line_width)));
    v.extend(e.resources.color_stops.iter().map(|s| format!("stop {:.4} {:.4?}", s.offset, s.color.components)));
    v
}
fn main() {
    let case: J = serde_json::from_str(include_str!("case.json")).unwrap();
    let mut bad = false;
    for (i, step) in case["steps"].as_array().unwrap().iter().enumerate() {
        let got = scene(&case["docs"][step["doc"].as_u64().unwrap_or(0) as usize], step["frame"].as_f64().unwrap_or(0.0));
        if std::env::var_os("PRINT").is_some() {
            println!("{}", serde_json::to_string(&got).unwrap());
            continue;
        }
        let want: Vec<&str> = case["expected"][i].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
        if want != got {
            bad = true;
            println!("step {i}:\n  expected {want:#?}\n  got {got:#?}");
        }
    }
    std::process::exit(bad as i32);
}
