//! Reads the documents of case.json into velato's document types and compares what those say,
//! written as JSON and field by field, with what it should be.
use serde_json::{Value as J, json};
use velato::schema::{Animation, layers::AnyLayer, shapes::AnyShape};

fn says(doc: &J) -> Vec<String> {
    let Ok(a) = Animation::from_json(doc.clone()) else { return vec!["refused".into()] };
    let mut out = vec![serde_json::to_value(&a).unwrap().to_string()];
    for l in &a.composition.layers {
        let (v, shapes) = match l {
            AnyLayer::Precomposition(l) => (&l.visual_layer, &[][..]),
            AnyLayer::Solid(l) => (&l.visual_layer, &[][..]),
            AnyLayer::Shape(l) => (&l.visual_layer, &l.shapes[..]),
            AnyLayer::Null(l) => (&l.visual_layer, &[][..]),
            AnyLayer::Image(l) => (&l.visual_layer, &[][..]),
        };
        let b = &v.layer;
        out.push(json!([b.layer_type, b.visual_object.name, b.visual_object.match_name, b.index, b.parent_index, b.in_point, b.out_point, b.time_stretch, b.hidden]).to_string());
        out.push(json!([v.css_class, v.id, v.tag_name, v.has_mask, v.motion_blur, v.matte_layer_index]).to_string());
        out.push(json!([v.matte_target, v.rotate_to_match_anim_pos_path, v.transform_before_mask, b.three_dimensional]).to_string());
        out.push(json!([v.transform.skew, v.transform.skew_axis, v.transform.opacity]).to_string());
        for s in shapes {
            out.push(format!("{:?}", match s {
                AnyShape::Fill(f) => f.fill_rule.as_ref().map(|r| format!("{r:?}")),
                AnyShape::Merge(m) => m.merge_mode.as_ref().map(|r| format!("{r:?}")),
                AnyShape::Trim(t) => t.multiple.as_ref().map(|r| format!("{r:?}")),
                AnyShape::Repeater(t) => t.composite.as_ref().map(|r| format!("{r:?}")),
                _ => None,
            }));
        }
    }
    out
}
fn main() {
    let case: J = serde_json::from_str(include_str!("case.json")).unwrap();
    let mut bad = false;
    for (i, step) in case["steps"].as_array().unwrap().iter().enumerate() {
        let got = says(&case["docs"][step["doc"].as_u64().unwrap_or(0) as usize]);
        if std::env::var_os("PRINT").is_some() {
            println!("{}", serde_json::to_string(&got).unwrap());
            continue;
        }
        let want: Vec<String> = case["expected"][i].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
        if want != got {
            bad = true;
            println!("step {i}:\n  expected {want:#?}\n  got {got:#?}");
        }
    }
    std::process::exit(bad as i32);
}
