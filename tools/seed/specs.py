"""The planted bugs: what is changed, and documents that show it."""
C = "src/import/converters.rs"
B = "src/import/builders.rs"
R = "src/runtime/render.rs"
A = "src/runtime/model/animated.rs"
V = "src/runtime/model/value.rs"
F = "src/runtime/model/fixed.rs"
S = "src/runtime/model/spline.rs"
M = "src/runtime/model/mod.rs"

def st(v): return {"a": 0, "k": v}
def an(*kfs): return {"a": 1, "k": [dict(t=t, s=v if isinstance(v, list) else [v], **(e[0] if e else {})) for t, v, *e in kfs]}
def ks(**kw):
    d = dict(p=st([0, 0]), s=st([100, 100]), r=st(0), o=st(100))
    d.update(kw)
    return {k: v for k, v in d.items() if v is not None}
def rect(w=10, x=0, y=0): return dict(ty="rc", p=st([x, y]), s=st([w, w]), r=st(0))
def line(x0=0, y0=0, x1=100, y1=0): return dict(ty="sh", ks=st(dict(c=False, v=[[x0, y0], [x1, y1]], i=[[0, 0], [0, 0]], o=[[0, 0], [0, 0]])))
def fill(o=100, c=(1, 0, 0)): return dict(ty="fl", c=st(list(c)), o=st(o))
def stroke(w=2, **kw): return dict(ty="st", c=st([0, 1, 0]), w=st(w), o=st(100), **kw)
def tr(**kw): return dict(ty="tr", **ks(**kw))
def grp(*items): return dict(ty="gr", it=list(items))
def trim(s=0, e=100, o=0): return dict(ty="tm", s=s if isinstance(s, dict) else st(s), e=e if isinstance(e, dict) else st(e), o=o if isinstance(o, dict) else st(o))
def gf(k, p, s=(0, 0), e=(10, 0), **kw): return dict(ty="gf", o=st(100), g=dict(p=p, k=st(k) if isinstance(k, list) else k), s=s if isinstance(s, dict) else st(list(s)), e=e if isinstance(e, dict) else st(list(e)), t=kw.pop("t", 1), **kw)
def lay(*shapes, **kw): return dict(dict(ty=4, ip=0, op=60, st=0, ks=ks(), shapes=list(shapes)), **kw)
def inst(ref, **kw): return dict(dict(ty=0, ip=0, op=60, st=0, ks=ks(), refId=ref, w=100, h=100), **kw)
def doc(*layers, **kw): return dict(dict(fr=30, ip=0, op=60, w=100, h=100, layers=list(layers)), **kw)
def at(*frames, **kw): return [dict(doc=0, frame=f, **kw) for f in frames]

SEEDS = [
 dict(id="gradient-odd-alpha-data", property="C01",
  edits=[(C, "for chunk in value.chunks_exact(2).skip(count * 2) {", "for chunk in value[count * 4..].chunks(2) {")],
  docs=[doc(lay(rect(), gf([0, 1, 0, 0, 1, 0, 0, 1, 0, 1, 0.5], 2)))], steps=at(0),
  needs="a gradient whose list of numbers ends in half an alpha pair", breaks="importing such a document panics"),
 dict(id="parent-cycle-guard", property="C02",
  edits=[(R, "            if count >= layer_set.len() {\n                break;\n            }\n            if let Some(parent) = layer_set.get(index) {", "            if let Some(parent) = layer_set.get(index) {\n                if std::ptr::eq(parent, layer) {\n                    break;\n                }"), (R, "        let mut count = 0_usize;\n", ""), (R, "                count += 1;\n", "")],
  docs=[doc(lay(rect(), fill(), ind=1, parent=2), lay(rect(), fill(), ind=2, parent=3), lay(rect(), fill(), ind=3, parent=2))], steps=[dict(doc=0, frame=0)],
  needs="a layer whose chain of parents runs into a cycle that the layer itself is not on", breaks="rendering never ends"),
 dict(id="hold-lost-with-handles", property="C03",
  edits=[(C, "                    out_tangent: Some(out_tangent),\n                    hold,", "                    out_tangent: Some(out_tangent),\n                    hold: false,")],
  docs=[doc(lay(rect(), fill(), ks=ks(p=an((0, [0, 0], dict(h=1, i=dict(x=[0.8], y=[1]), o=dict(x=[0.2], y=[0]))), (10, [50, 0])))))], steps=at(0, 5, 10),
  needs="a hold keyframe of a position, scale, size or colour that also carries easing handles", breaks="the value moves although it should be held"),
 dict(id="easing-first-root", property="C04",
  edits=[(V, ".find(|&r| (-eps..=1.0 + eps).contains(&r))", ".find(|&r| r >= -eps)")],
  docs=[doc(lay(rect(), fill(), ks=ks(r=an((0, 0, dict(i=dict(x=0.9, y=1), o=dict(x=0.3, y=0))), (10, 90)))))], steps=at(1, 3, 5, 7, 9),
  needs="handles for which the cubic has a root beyond 1 that the solver lists before the one within the interval", breaks="the eased value overshoots its keyframes"),
 dict(id="one-straight-tangent", property="C05",
  edits=[(S, "if c0 == p0 && c1 == p1 {", "if c0 == p0 || c1 == p1 {")],
  docs=[doc(lay(dict(ty="sh", ks=st(dict(c=False, v=[[0, 0], [10, 0]], i=[[0, 0], [0, 0]], o=[[3, 4], [0, 0]]))), stroke()))], steps=at(0),
  needs="a segment only one end of which has a tangent", breaks="the segment is drawn straight"),
 dict(id="missing-tangents", property="C05",
  edits=[(C, ".zip(value.out_tangents.iter().chain(repeat(&[0.0, 0.0])))", ".zip(value.out_tangents.iter())")],
  docs=[doc(lay(dict(ty="sh", ks=st(dict(c=True, v=[[0, 0], [10, 0], [5, 5]], i=[[0, 0], [1, 1], [0, 0]], o=[[3, 4]]))), stroke()))], steps=at(0),
  needs="a path with fewer out tangents than vertices", breaks="vertices without an out tangent are lost"),
 dict(id="animated-skew-axis", property="C06",
  edits=[(A, "            && self.skew.is_fixed()\n            && self.skew_angle.is_fixed()", "            && self.skew.is_fixed()")],
  docs=[doc(lay(rect(), fill(), ks=ks(sk=st(20), sa=an((0, 0), (10, 90)))))], steps=at(0, 5, 10),
  needs="a transform of which nothing but the skew axis is animated", breaks="the skew axis stays at its first value"),
 dict(id="ids-of-other-assets", property="C07",
  edits=[(C, "    idmap.clear();\n\n    let mut converted", "    let mut converted")],
  docs=[doc(lay(rect(), fill(), ind=1, parent=7), lay(rect(5), fill(), ind=2, ks=ks(p=st([9, 9]))), assets=[dict(id="a", layers=[lay(rect(), fill(), ind=3), lay(rect(), fill(), ind=7)])])], steps=at(0),
  needs="a parent that does not exist in its own list of layers but does in that of an asset", breaks="the layer is moved by a layer that is not its parent"),
 dict(id="parent-depth-limit", property="C07",
  edits=[(R, "if count >= layer_set.len() {", "if count >= 8 {")],
  docs=[doc(*[lay(rect(), fill(), ind=i, ks=ks(p=st([1, i])), **(dict(parent=i + 1) if i < 12 else {})) for i in range(1, 13)])], steps=at(0),
  needs="a chain of more than eight parents", breaks="the outermost parents do not move the layer"),
 dict(id="visible-at-out-point", property="C08",
  edits=[(R, "if !layer.frames.contains(&frame) {", "if frame < layer.frames.start || frame > layer.frames.end {")],
  docs=[doc(lay(rect(), fill(), ip=3, op=10))], steps=at(2, 3, 9, 10, 11),
  needs="a frame that is exactly the out point of a layer", breaks="the layer is still drawn"),
 dict(id="empty-mask-push", property="C11",
  edits=[(R, "            scene.push_clip_layer(transform, &self.mask_elements.as_slice());\n", "            if !self.mask_elements.is_empty() {\n                scene.push_clip_layer(transform, &self.mask_elements.as_slice());\n            }\n")],
  docs=[doc(lay(rect(), fill(), masksProperties=[dict(mode="a", pt=st(dict(c=True, v=[], i=[], o=[])), o=st(100))]))], steps=at(0),
  needs="a mask whose path is empty", breaks="more layers are popped than pushed, and what the mask hides is shown"),
 dict(id="matte-used-twice", property="C10",
  edits=[(C, "        } else if matte_mode.is_some() {", "        } else if matte_mode.is_some() && explicit_matte_index.is_none() {")],
  docs=[doc(lay(rect(), fill(), ind=1, td=1), lay(rect(), fill(), ind=2, tt=1, tp=1), lay(rect(), fill(), ind=3, tt=1))], steps=at(0),
  needs="a layer that names its matte, followed by one that does not", breaks="the second layer is matted by a source that has been used"),
 dict(id="matte-inverted-luma", property="C10",
  edits=[(B, """        | schema::constants::matte_mode::MatteMode::Luma => Compose::SrcIn.into(),
        schema::constants::matte_mode::MatteMode::InvertedAlpha
        | schema::constants::matte_mode::MatteMode::InvertedLuma => Compose::SrcOut.into(),
    });""", """        | schema::constants::matte_mode::MatteMode::InvertedLuma
        | schema::constants::matte_mode::MatteMode::Luma => Compose::SrcIn.into(),
        schema::constants::matte_mode::MatteMode::InvertedAlpha => Compose::SrcOut.into(),
    });""")],
  docs=[doc(lay(rect(), fill(), ind=1, td=1), dict(ty=3, ip=0, op=60, st=0, ks=ks(), ind=2, tt=4))], steps=at(0),
  needs="a null, solid or image layer with an inverted luma matte", breaks="the matte is not inverted"),
 dict(id="stretched-start", property="C12",
  edits=[(R, "let frame_delta = -layer.start_frame / layer.stretch;", "let frame_delta = -layer.start_frame;")],
  docs=[doc(inst("a", st=8, sr=2, op=90), assets=[dict(id="a", layers=[lay(rect(), fill(), ks=ks(p=an((0, [0, 0]), (20, [20, 0]))))])])], steps=at(0, 8, 10, 20),
  needs="an instance that both starts later and is stretched", breaks="its content is shown at the wrong time"),
 dict(id="matte-takes-opacity", property="C13",
  edits=[(R, "        let alpha = alpha * layer.opacity.evaluate(frame) / 100.0;\n        for mask", "        for mask"), (R, "        if let Some((mode, mask_index)) = layer.mask_layer {", "        let alpha = alpha * layer.opacity.evaluate(frame) / 100.0;\n        if let Some((mode, mask_index)) = layer.mask_layer {")],
  docs=[doc(lay(rect(), fill(), ind=1, td=1), lay(rect(), fill(), ind=2, tt=1, ks=ks(o=st(50))))], steps=at(0),
  needs="a translucent layer with a matte", breaks="the matte is drawn translucent as well, so the opacity counts twice"),
 dict(id="merge-ignores-rotation", property="C14",
  edits=[(R, "self.geometries.last().map(|last| last.transform) == Some(transform)", "self.geometries.last().map(|last| last.transform.translation())\n                == Some(transform.translation())")],
  docs=[doc(lay(grp(rect(), tr(r=st(30))), rect(5), fill()))], steps=at(0), reuse=False,
  needs="a geometry after a group with a transform that does not move the origin", breaks="both are drawn with the transform of the group"),
 dict(id="stroke-animated-width", property="C20",
  edits=[(C, """                    .unwrap_or(&LineCap::Round)
                {
                    LineCap::Butt => Cap::Butt,
                    LineCap::Round => Cap::Round,
                    LineCap::Square => Cap::Square,""", """                    .unwrap_or(&LineCap::Round)
                {
                    LineCap::Butt => Cap::Butt,
                    LineCap::Round | LineCap::Square => Cap::Round,""")],
  docs=[doc(lay(rect(), dict(ty="gs", o=st(100), w=st(3), lc=3, g=dict(p=2, k=st([0, 1, 0, 0, 1, 0, 0, 1])), s=st([0, 0]), e=st([10, 0]))))], steps=at(0),
  needs="a gradient stroke with square caps", breaks="the caps are round"),
 dict(id="trim-fixed-offset", property="C15",
  edits=[(A, "self.start.is_fixed() && self.end.is_fixed() && self.offset.is_fixed()", "self.start.is_fixed() && self.end.is_fixed()")],
  docs=[doc(lay(line(), trim(10, 40, an((0, 0), (10, 180))), stroke()))], steps=at(0, 5, 10),
  needs="a trim of which only the offset is animated", breaks="the offset stays at its first value"),
 dict(id="trim-negative-offset", property="C15",
  edits=[(F, "(start_pct + offset_pct).rem_euclid(100.0)", "(start_pct + offset_pct) % 100.0")],
  docs=[doc(lay(line(), trim(10, 40, -72), stroke()))], steps=at(0),
  needs="a trim whose offset is negative and larger than its start", breaks="the wrong part of the path is shown"),
 dict(id="repeater-transparent-first", property="C16",
  edits=[(R, "            if alpha <= 0.0 {\n                continue;\n            }", "            if alpha <= 0.0 {\n                break;\n            }")],
  docs=[doc(lay(rect(), fill()))], steps=[dict(doc=0, frame=0, repeater=dict(at=[2], copies=3, x=10, so=0, eo=90))],
  needs="a repeater whose first copy is fully transparent", breaks="none of the copies is drawn"),
 dict(id="repeater-leftovers", property="C17",
  edits=[(R, "        self.draws.clear();\n        self.repeat_geometries.clear();\n        self.repeat_draws.clear();\n        self.drawn_geometry = 0;", "        self.draws.clear();\n        self.drawn_geometry = 0;"),
         (R, "        // Next, repeat the geometries and apply", "        if repeater.copies == 0 {\n            self.drawn_geometry = self.geometries.len();\n            return;\n        }\n        // Next, repeat the geometries and apply")],
  docs=[doc(lay(rect(), fill()))], steps=[dict(doc=0, frame=0, repeater=dict(at=[2], copies=0)), dict(doc=0, frame=0, repeater=dict(at=[2], copies=2, x=5))], reuse=True,
  needs="one renderer that draws a repeater without copies and another repeater later", breaks="what the first repeater removed shows up in a later frame"),
 dict(id="gradient-moving-start", property="C18",
  edits=[(A, "self.start_point.is_fixed() && self.end_point.is_fixed() && self.stops.is_fixed()", "self.end_point.is_fixed() && self.stops.is_fixed()")],
  docs=[doc(lay(rect(), gf([0, 1, 0, 0, 1, 0, 0, 1], 2, s=an((0, [0, 0]), (10, [5, 5])))))], steps=at(0, 5, 10),
  needs="a gradient of which only the start point is animated", breaks="the start point does not move"),
 dict(id="star-concave", property="C19",
  edits=[(A, "if roundness.abs() > 1e-6 {", "if roundness > 1e-6 {")],
  docs=[doc(lay(dict(ty="sr", sy=1, p=st([0, 0]), ir=st(5), **{"is": st(-50)}, os=st(0), pt=st(5), r=st(0), **{"or": st(10)}), fill()))], steps=at(0),
  needs="a star with negative roundness", breaks="its points are straight"),

 dict(id="next-in-handle", property="C04",
  edits=[(V, "t0.in_tangent.map(|i| (i.x, i.y))", "t0.in_tangent.or(t1.in_tangent).map(|i| (i.x, i.y))")],
  docs=[doc(lay(rect(), fill(), ks=ks(r=an((0, 0, dict(o=dict(x=0.6, y=0))), (10, 90, dict(i=dict(x=0.5, y=0.2), o=dict(x=0.1, y=0))), (20, 0)))))], steps=at(3, 5, 7),
  needs="a keyframe of a scalar without an in handle before one with an in handle", breaks="the interval is eased with the handle of the next keyframe"),
 dict(id="fewer-vertices-later", property="C02",
  edits=[(S, "self.0.len().min(self.1.len())", "self.0.len()")],
  docs=[doc(lay(dict(ty="sh", ks=dict(a=1, k=[dict(t=0, s=[dict(c=True, v=[[0, 0], [1, 0], [1, 1]], i=[[0, 0]] * 3, o=[[0, 0]] * 3)]), dict(t=10, s=[dict(c=True, v=[[0, 0], [2, 0]], i=[[0, 0]] * 2, o=[[0, 0]] * 2)])])), fill()))], steps=at(0, 5, 10),
  needs="an animated path that has fewer vertices at a later keyframe", breaks="rendering panics"),
 dict(id="unmatted-when-source-hidden", property="C09",
  edits=[(R, "            scene.push_layer(mode, 1.0, parent_transform, &full_rect);\n", "            if layer_set.get(mask_index).is_some_and(|mask| mask.frames.contains(&frame)) {\n                scene.push_layer(mode, 1.0, parent_transform, &full_rect);\n            }\n")],
  docs=[doc(lay(rect(), fill(), ind=1, td=1, ip=0, op=5), lay(rect(5), fill(), ind=2, tt=1), lay(rect(7), fill(), ind=3))], steps=at(0, 4, 5, 20),
  needs="a frame at which a layer is visible and its matte is not", breaks="more layers are popped than were pushed"),
 dict(id="asset-matte-painted", property="C08",
  edits=[(R, "                        if asset_layer.is_mask {\n                            continue;\n                        }\n", "                        if asset_layer.is_mask && asset_layer.masks.is_empty() {\n                            continue;\n                        }\n")],
  docs=[doc(inst("a"), assets=[dict(id="a", layers=[lay(rect(), fill(), ind=1, td=1, masksProperties=[dict(mode="a", pt=st(dict(c=True, v=[[0, 0], [9, 0], [9, 9]], i=[[0, 0]] * 3, o=[[0, 0]] * 3)), o=st(100))]), lay(rect(5), fill(), ind=2, tt=1)])])], steps=at(0),
  needs="a matte source with masks inside a precomposition", breaks="the matte source is painted on its own as well"),
 dict(id="group-opacity-min", property="C13",
  edits=[(R, "alpha * group_alpha,", "alpha.min(group_alpha),")],
  docs=[doc(lay(grp(grp(rect(), fill(), tr(o=st(50))), tr(o=st(40)))))], steps=at(0),
  needs="translucent groups within translucent groups or layers", breaks="only the lowest of the opacities counts"),
 dict(id="repeater-alpha-from-three", property="C16",
  edits=[(R, "let delta_alpha = if repeater.copies > 1 {", "let delta_alpha = if repeater.copies > 2 {")],
  docs=[doc(lay(rect(), fill()))], steps=[dict(doc=0, frame=0, repeater=dict(at=[2], copies=2, x=10, so=80, eo=20))],
  needs="a repeater of exactly two copies whose opacities differ", breaks="the second copy is as opaque as the first"),
 dict(id="radial-radius-x", property="C18",
  edits=[(A, "let radius = (end.to_vec2() - start.to_vec2()).hypot();", "let radius = (end.x - start.x).abs().max((end.y - start.y).abs());")],
  docs=[doc(lay(rect(), gf([0, 1, 0, 0, 1, 0, 0, 1], 2, s=(1, 1), e=(4, 5), t=2)))], steps=at(0),
  needs="a radial gradient whose end point is neither beside nor above its start", breaks="its radius is too small"),
 dict(id="inner-roundness", property="C19",
  edits=[(A, "self.inner_roundness.evaluate(frame) / 100.0,", "self.inner_roundness.evaluate(frame).abs() / 100.0,")],
  docs=[doc(lay(dict(ty="sr", sy=1, p=st([0, 0]), ir=st(5), **{"is": st(-50)}, os=st(0), pt=st(5), r=st(0), **{"or": st(10)}), fill()))], steps=at(0),
  needs="a star whose inner vertices have a negative roundness", breaks="they are bent the other way"),
 dict(id="gradient-stroke-miter", property="C20",
  edits=[(C, """                    .unwrap_or(&LineJoin::Round)
                {
                    LineJoin::Bevel => Join::Bevel,
                    LineJoin::Round => Join::Round,
                    LineJoin::Miter => Join::Miter,
                },
                miter_limit: value.base_stroke.miter_limit,""", """                    .unwrap_or(&LineJoin::Round)
                {
                    LineJoin::Bevel => Join::Bevel,
                    LineJoin::Round => Join::Round,
                    LineJoin::Miter => Join::Miter,
                },
                miter_limit: None,""")],
  docs=[doc(lay(rect(), dict(ty="gs", o=st(100), w=st(3), lj=1, ml=8, g=dict(p=2, k=st([0, 1, 0, 0, 1, 0, 0, 1])), s=st([0, 0]), e=st([10, 0]))))], steps=at(0),
  needs="a gradient stroke with a miter limit", breaks="the default limit is used"),
 dict(id="empty-asset-refused", property="C22",
  edits=[("src/schema/assets/mod.rs", "if value.get(\"layers\").is_some() {", "if value.get(\"layers\").and_then(|v| v.as_array()).is_some_and(|l| !l.is_empty()) {")],
  docs=[doc(inst("a"), lay(rect(), fill()), assets=[dict(id="a", layers=[])])], steps=at(0),
  needs="a precomposition without any layer in it", breaks="the document is refused"),
 dict(id="text-mark-skipped", property="C22",
  edits=[("src/schema/animation/animation.rs", "serde_json::from_str(s)", "serde_json::from_str(s.trim_start_matches('\\u{feff}'))")],
  docs=[doc(lay(rect(), fill()))], steps=at(0, bom=True),
  needs="text that begins with a byte order mark", breaks="the text is accepted that the same bytes are refused as"),
 dict(id="scene-winding", property="C24", demo="vello",
  edits=[("src/runtime/vello.rs", "self.push_clip_layer(Fill::NonZero, transform, shape);", "self.push_clip_layer(Fill::EvenOdd, transform, shape);")],
  docs=[doc(lay(rect(), fill(), masksProperties=[dict(mode="a", pt=st(dict(c=True, v=[[0, 0], [9, 0], [9, 9]], i=[[0, 0]] * 3, o=[[0, 0]] * 3)), o=st(100))]))], steps=at(0, 5),
  needs="a clip whose path crosses itself", breaks="what it encloses twice is cut away"),
 dict(id="scene-hairline", property="C24", demo="vello",
  edits=[("src/runtime/vello.rs", "if let Some(stroke) = stroke {", "if let Some(stroke) = stroke.filter(|s| s.width > 0.0) {")],
  docs=[doc(lay(rect(), stroke(w=0)), lay(rect(), stroke(w=2)))], steps=at(0, 5),
  needs="a stroke whose width reaches zero", breaks="the shape is filled instead"),
 dict(id="shape-ends-not-written", property="C23",
  edits=[("src/schema/animated_properties/shape_keyframe.rs", "    #[serde(rename = \"e\")]\n    #[serde(skip_serializing_if = \"Option::is_none\")]", "    #[serde(rename = \"e\")]\n    #[serde(skip_serializing)]")],
  docs=[doc(lay(dict(ty="sh", ks=dict(a=1, k=[dict(t=0, s=[dict(c=True, v=[[0, 0], [1, 0]], i=[[0, 0]] * 2, o=[[0, 0]] * 2)], e=[dict(c=True, v=[[0, 0], [5, 5]], i=[[0, 0]] * 2, o=[[0, 0]] * 2)]), dict(t=10, s=[dict(c=True, v=[[0, 0], [2, 0]], i=[[0, 0]] * 2, o=[[0, 0]] * 2)])])), fill()))], steps=at(0, 5, 10, via="schema"),
  needs="an animated path whose keyframe ends elsewhere than the next one starts", breaks="the end is lost when the document is written and read again"),
 dict(id="mask-shape-not-written", property="C23",
  edits=[("src/schema/helpers/mask.rs", "    #[serde(rename = \"pt\")]\n    #[serde(skip_serializing_if = \"Option::is_none\")]\n    pub shape", "    #[serde(rename(serialize = \"shape\", deserialize = \"pt\"))]\n    #[serde(skip_serializing_if = \"Option::is_none\")]\n    pub shape")],
  docs=[doc(lay(rect(), fill(), masksProperties=[dict(mode="a", pt=st(dict(c=True, v=[[0, 0], [9, 0], [9, 9]], i=[[0, 0]] * 3, o=[[0, 0]] * 3)), o=st(100))]))], steps=at(0, via="text"),
  needs="a document with masks that is written and read again", breaks="its masks are lost"),
 dict(id="hidden-parent-still", property="C07",
  edits=[(C, "    if hidden {\n        layer.is_mask = false;\n    }", "    if hidden {\n        layer.is_mask = false;\n        layer.parent = None;\n    }")],
  docs=[doc(lay(rect(), fill(), ind=1, parent=2), lay(ind=2, parent=3, hd=True, ks=ks(p=st([5, 0]))), lay(ind=3, ks=ks(p=st([0, 7]))))], steps=at(0),
  needs="a hidden layer that is a parent and has a parent itself", breaks="children of the hidden layer do not move with its parent"),
 dict(id="mask-frames-lost", property="C11",
  edits=[(R, "mask.geometry.evaluate(frame, &mut self.mask_elements);", "mask.geometry.evaluate(frame.max(layer.frames.start + 1.0), &mut self.mask_elements);")],
  docs=[doc(lay(rect(), fill(), masksProperties=[dict(mode="a", pt=dict(a=1, k=[dict(t=0, s=[dict(c=True, v=[[0, 0], [9, 0], [9, 9]], i=[[0, 0]] * 3, o=[[0, 0]] * 3)]), dict(t=2, s=[dict(c=True, v=[[0, 0], [3, 0], [9, 9]], i=[[0, 0]] * 3, o=[[0, 0]] * 3)])]), o=st(100))]))], steps=at(0, 0.5, 1, 2),
  needs="a mask that moves within the first frame of its layer", breaks="the mask is that of a later frame"),
 dict(id="empty-clip-of-trim", property="C15",
  edits=[(R, "                    if seg_end < start_len - 1e-9 {", "                    if seg_end <= start_len + seg_len * 0.01 {")],
  docs=[doc(lay(line(), trim(99.5, 100), stroke()), lay(line(), trim(10, 50), stroke()))], steps=at(0),
  needs="a trim that keeps only a hundredth of the last piece", breaks="nothing is shown"),
 dict(id="instance-mask-time", property="C12",
  edits=[(R, "let frame = frame / layer.stretch;", "let frame = if layer.stretch > 0.0 { frame / layer.stretch } else { frame };")],
  docs=[doc(inst("a", st=60, sr=-1, ip=-100, op=90), assets=[dict(id="a", layers=[lay(rect(), fill(), ip=-200, op=300, ks=ks(p=an((0, [0, 0]), (60, [60, 0]))))])])], steps=at(0, 10, 60),
  needs="an instance that plays backwards", breaks="its content is shown at the wrong time"),
 dict(id="constant-colour-clamped", property="C21",
  edits=[(C, "        AnimatedValue(keyframes) => conv_keyframes(keyframes.iter(), |k| f(&k.value)),\n    }\n}\n\npub fn conv_pos<", "        AnimatedValue(keyframes) => conv_keyframes(keyframes.iter(), |k| {\n            f(&k.value.iter().map(|c| c.min(1.0).max(1.0 / 255.0)).collect())\n        }),\n    }\n}\n\npub fn conv_pos<")],
  docs=[doc(lay(rect(), dict(ty="fl", c=an((0, [1, 0, 0]), (10, [1, 0, 0])), o=st(100))))], steps=at(0, 5),
  needs="an animated colour with a component that is zero", breaks="it is not quite the colour the same values give when they are not animated"),
 dict(id="nested-frames-whole", property="C03",
  edits=[(R, "                        alpha * group_alpha,\n                        frame,\n", "                        alpha * group_alpha,\n                        frame.round(),\n")],
  docs=[doc(lay(grp(dict(ty="el", p=an((0, [0, 0]), (10, [50, 20])), s=st([4, 4])), fill(), tr()), ks=ks()))], steps=at(0, 2.5, 5, 7.25, 10),
  needs="animated geometry or paint in a group, at a frame that is not a whole number", breaks="what is in groups moves in steps of whole frames"),
 dict(id="matted-matte", property="C10",
  edits=[(C, "        if layer.is_mask {\n            prev_matte_layer = Some(idx);", "        if layer.is_mask && matte_mode.is_none() {\n            prev_matte_layer = Some(idx);")],
  docs=[doc(lay(rect(8), fill(), td=1), lay(rect(9), fill(), td=1, tt=1), lay(rect(10), fill(), tt=1))], steps=at(0),
  needs="a matte source that is itself matted", breaks="the layer below it is drawn without a matte"),
 dict(id="paint-without-geometry", property="C14",
  edits=[(R, "            geometry_start..self.geometries.len(),\n", "            geometry_start.min(self.geometries.len().saturating_sub(1))..self.geometries.len(),\n")],
  docs=[doc(lay(rect(), grp(fill(), tr()), rect(20), stroke()))], steps=at(0),
  needs="a group with a paint but no geometry before it, after other geometry", breaks="the paint is applied to geometry outside its group"),
 dict(id="transform-of-last-layer", property="C17",
  edits=[(R, "    batch: Batch,\n    mask_elements: Vec<PathEl>,\n}", "    batch: Batch,\n    mask_elements: Vec<PathEl>,\n    last: Option<(usize, f64, Affine, Affine)>,\n}"),
         (R, "        let transform = self.compute_transform(layer_set, layer, parent_transform, frame);\n", "        let key = (std::ptr::from_ref(layer) as usize, frame, parent_transform);\n        let transform = match self.last {\n            Some((l, f, p, t)) if (l, f, p) == key => t,\n            _ => self.compute_transform(layer_set, layer, parent_transform, frame),\n        };\n        self.last = Some((key.0, key.1, key.2, transform));\n")],
  docs=[doc(lay(rect(), fill(), ks=ks(p=st([1, 2])))), doc(lay(rect(), fill(), ks=ks(p=st([5, 6]))))], steps=[dict(doc=0, frame=3), dict(doc=1, frame=3, edit=True)], reuse=True,
  needs="a composition of one layer, changed in place between two renders of the same frame by one renderer", breaks="the layer is drawn where it was before"),
 dict(id="mask-of-null-layer-stays", property="C11",
  edits=[(R, "            self.mask_elements.clear();\n        }\n        match &layer.content {\n            Content::None => {}\n", "            if !matches!(layer.content, Content::None) {\n                self.mask_elements.clear();\n            }\n        }\n        match &layer.content {\n            Content::None => {}\n")],
  docs=[doc(lay(rect(), fill(), hasMask=True, masksProperties=[dict(mode="a", inv=False, pt=st(dict(c=True, v=[[0, 0], [9, 0], [0, 9]], i=[[0, 0]] * 3, o=[[0, 0]] * 3)), o=st(100))]), dict(ty=3, ip=0, op=60, st=0, ks=ks(), masksProperties=[dict(mode="a", inv=False, pt=st(dict(c=True, v=[[5, 5], [7, 5], [5, 7]], i=[[0, 0]] * 3, o=[[0, 0]] * 3)), o=st(100))]))], steps=at(0),
  needs="a masked null (or solid) layer under another masked layer", breaks="the other layer is clipped to both masks"),
 dict(id="empty-previous-end", property="C01",
  edits=[(C, "                            if let Some(prev_end_bezier) = prev_end.first() {\n                                prev_end_bezier.clone()\n                            } else {\n                                prev.start.as_ref()?.first()?.clone()\n                            }\n", "                            prev_end[0].clone()\n")],
  docs=[doc(lay(dict(ty="sh", ks=dict(a=1, k=[dict(t=0, s=[dict(c=True, v=[[0, 0]], i=[[0, 0]], o=[[0, 0]])], e=[]), dict(t=10)])), fill()))], steps=at(0),
  needs="an animated path one keyframe of which has an empty list of end shapes and the next no shape at all", breaks="importing it panics"),
 dict(id="remap-lost-with-mark", property="C25", demo="model",
  edits=[(C, "let time_remap = precomp_layer.time_remap.as_ref().map(conv_scalar);", "let time_remap = precomp_layer\n                    .time_remap\n                    .as_ref()\n                    .map(conv_scalar)\n                    .filter(|remap| !remap.is_fixed());")],
  docs=[doc(inst("a", tm=st(4)), inst("a", tm=an((0, 0), (8, 16))), inst("a"), assets=[dict(id="a", layers=[lay(rect(), fill())])])], steps=at(0, 4),
  needs="an instance whose time remapping is a static value", breaks="the model's instance has no time remapping"),
 dict(id="mask-opacity-zero", property="C25", demo="model",
  edits=[(B, "            let opacity = conv_scalar(\n                mask_source\n                    .opacity\n                    .as_ref()\n                    .unwrap_or(&FLOAT_VALUE_ONE_HUNDRED),\n            );\n            target.masks.push(runtime::model::Mask {\n                mode,\n                geometry,\n                opacity,\n            });\n        }\n    }\n\n    LayerSetupParams {\n        layer_index: source.layer.index,",
             "            let opacity = mask_source\n                .opacity\n                .as_ref()\n                .map(conv_scalar)\n                .unwrap_or_default();\n            target.masks.push(runtime::model::Mask {\n                mode,\n                geometry,\n                opacity,\n            });\n        }\n    }\n\n    LayerSetupParams {\n        layer_index: source.layer.index,")],
  docs=[doc(dict(ty=3, ip=0, op=60, st=0, ks=ks(), masksProperties=[dict(mode="a", pt=st(dict(c=True, v=[[0, 0], [9, 0], [0, 9]], i=[[0, 0]] * 3, o=[[0, 0]] * 3)))]), lay(rect(), fill()))], steps=at(0),
  needs="a mask without an opacity, of a null, solid or image layer", breaks="the model's mask has an opacity of zero instead of 100"),
 dict(id="blend-of-hidden", property="C25", demo="model",
  edits=[(C, "    if hidden {\n        layer.is_mask = false;", "    if hidden {\n        layer.blend_mode = None;\n        layer.is_mask = false;")],
  docs=[doc(lay(rect(), fill(), bm=3, hd=True), lay(rect(), fill(), bm=3), lay(rect(), fill()))], steps=at(0),
  needs="a hidden layer with a blend mode", breaks="the model's layer has no blend mode"),
 dict(id="repeater-end-fixed", property="C26", demo="model",
  edits=[(A, "            && self.start_opacity.is_fixed()\n            && self.end_opacity.is_fixed()", "            && self.start_opacity.is_fixed()")],
  docs=[], steps=[dict(frame=f) for f in (0, 4, 8)],
  needs="a repeater of which nothing but the end opacity is animated", breaks="the end opacity stays at its first value"),
 dict(id="split-y-fixed", property="C26", demo="model",
  edits=[(A, "                    x_value.is_fixed() && y_value.is_fixed()", "                    x_value.is_fixed()")],
  docs=[], steps=[dict(frame=f) for f in (0, 4, 8)],
  needs="a transform of which nothing but the y of a split position is animated", breaks="the position stays where it is at frame 0"),
 dict(id="fixed-brush-opaque", property="C26", demo="model",
  edits=[(M, "                if alpha == 1.0 {", "                if alpha == 1.0 || matches!(value, fixed::Brush::Gradient(_)) {")],
  docs=[], steps=[dict(frame=f, alpha=a) for f in (0, 4, 8) for a in (1.0, 0.5)],
  needs="a fixed gradient evaluated at an alpha other than one", breaks="the alpha is not applied"),
 dict(id="keyframe-end-not-kept", property="C27", demo="keep",
  edits=[("src/schema/animated_properties/keyframe.rs", "    #[serde(rename = \"e\")]\n    #[serde(skip_serializing_if = \"Option::is_none\")]", "    #[serde(rename = \"e\")]\n    #[serde(skip_serializing)]")],
  docs=[doc(lay(rect(), fill(), ks=ks(s=dict(a=1, k=[dict(t=0, s=[100, 100], e=[50, 50]), dict(t=10, s=[50, 50])]))))], steps=[dict(doc=0)],
  needs="a document in the old form, whose keyframes say where they end", breaks="the ends are lost when the document is written"),
 dict(id="class-is-tag", property="C27", demo="keep",
  edits=[("src/schema/layers/visual.rs", "#[serde(rename = \"cl\")]", "#[serde(rename = \"tg\")]"), ("src/schema/layers/visual.rs", "#[serde(rename = \"tg\")]\n    #[serde(skip_serializing_if = \"Option::is_none\")]\n    pub tag_name", "#[serde(rename = \"cl\")]\n    #[serde(skip_serializing_if = \"Option::is_none\")]\n    pub tag_name")],
  docs=[doc(lay(rect(), fill(), cl="one", tg="path"))], steps=[dict(doc=0)],
  needs="a layer with a CSS class or a tag name", breaks="each is taken for the other"),
 dict(id="sequence-unmarked", property="C27", demo="keep",
  edits=[("src/schema/assets/image.rs", "        Some(true) => Serializer::serialize_str(serializer, \"seq\"),\n        Some(false) => Serializer::serialize_str(serializer, \"\"),", "        Some(false) => Serializer::serialize_str(serializer, \"seq\"),\n        Some(true) => Serializer::serialize_str(serializer, \"\"),")],
  docs=[doc(lay(rect(), fill()), assets=[dict(id="a", w=3, h=4, p="f", t="seq")])], steps=[dict(doc=0)],
  needs="an image asset that is a sequence, written and read again", breaks="it is a single image"),
 dict(id="negative-skew", property="C06",
  edits=[(A, "let skew_matrix = if skew != 0.0 {", "let skew_matrix = if skew > 0.0 {")],
  docs=[doc(lay(rect(), fill(), ks=ks(sk=st(-20), sa=st(30))), lay(rect(), fill(), ks=ks(sk=st(20), sa=st(30))))], steps=at(0),
  needs="a negative skew", breaks="what should be skewed is not"),
 dict(id="transparent-unpopped", property="C09",
  edits=[(R, "        for mask in &layer.masks {\n", "        if alpha == 0.0 && layer.masks.is_empty() {\n            scene.end_layer_group();\n            return;\n        }\n        for mask in &layer.masks {\n")],
  docs=[doc(lay(rect(8), fill(), td=1), lay(rect(), fill(), tt=1, ks=ks(o=an((0, 100), (10, 0)))), lay(rect(20), fill()))], steps=at(0, 5, 10),
  needs="a matted layer that fades out entirely", breaks="the layers pushed for the matte are not popped"),
 dict(id="repeater-fraction-scale", property="C16",
  edits=[("src/runtime/model/fixed.rs", "(self.scale.x / 100.0).powf(t),\n                (self.scale.y / 100.0).powf(t),", "(self.scale.x / 100.0).powi(t as i32),\n                (self.scale.y / 100.0).powi(t as i32),")],
  docs=[doc(lay(rect(), fill()))], steps=[dict(doc=0, frame=0, repeater=dict(at=[2], copies=3, x=5, sx=50, sy=80, offset=0.5))],
  needs="a repeater of a fractional offset that scales", breaks="the copies have the sizes of the offset rounded towards zero"),
 dict(id="animated-width-floor", property="C20",
  edits=[(A, "        let width = self.width.evaluate(frame);", "        let width = self.width.evaluate(frame).max(0.05);")],
  docs=[doc(lay(rect(), dict(ty="st", c=st([0, 1, 0]), w=an((0, 0), (10, 0)), o=st(100))))], steps=at(0, 5),
  needs="a stroke whose width is, or reaches, zero", breaks="it is not as thin as the document says"),
 dict(id="values-indexed", property="C28", demo="odd",
  edits=[(V, "        let v1 = self.values.get(ix0)?;\n        let v2 = self.values.get(ix1)?;\n", "        let v1 = self.values.get(ix0)?;\n        let v2 = &self.values[ix1];\n")],
  docs=[], steps=[dict()],
  needs="an animated value built by hand with fewer values than keyframes", breaks="evaluating it panics"),
 dict(id="matte-index-trusted", property="C28", demo="odd",
  edits=[(R, "            if let Some(mask) = layer_set.get(mask_index) {", "            if let Some(mask) = layer_set.get(mask_index..).and_then(|rest| rest.first()).or(layer_set.last()) {")],
  docs=[], steps=[dict()],
  needs="a layer whose matte source, set by hand, is beyond the end of the list", breaks="the last layer is drawn as the matte"),
 dict(id="spline-lists-indexed", property="C28", demo="odd",
  edits=[(A, "(self.values.get(ix0), self.values.get(ix1))", "(self.values.get(ix0), Some(&self.values[ix1]))")],
  docs=[], steps=[dict()],
  needs="an animated path built by hand with fewer shapes than keyframes", breaks="evaluating it panics"),
 dict(id="negative-frames-blank", property="C29",
  edits=[(R, "        if !layer.frames.contains(&frame) {\n", "        if !layer.frames.contains(&frame) || frame < 0.0 {\n")],
  docs=[doc(inst("a", st=8), assets=[dict(id="a", layers=[lay(rect(), fill(), ip=-20)])]), doc(lay(rect(), fill(), ip=-9), ip=-9)], steps=at(0, 8) + [dict(doc=1, frame=-3)],
  needs="a frame before 0, in the document or in an instance that starts late", breaks="what is visible then is not drawn"),
 dict(id="asset-names-case", property="C29",
  edits=[(C, "target.assets.insert(precomp.asset.id.clone(), layers);", "target\n                        .assets\n                        .insert(precomp.asset.id.to_lowercase(), layers);"), (R, "animation.assets.get(name) {", "animation.assets.get(&name.to_lowercase()) {")],
  docs=[doc(inst("a"), inst("A", st=1), assets=[dict(id="a", layers=[lay(rect(), fill())]), dict(id="A", layers=[lay(rect(5), fill())])])], steps=at(0),
  needs="two assets whose names differ only in case", breaks="one is shown for both"),
 dict(id="keyframes-near", property="C29",
  edits=[(V, "            if x.frame < frame {\n", "            if x.frame + 0.2 < frame {\n"), (V, "            } else if x.frame > frame {\n", "            } else if x.frame > frame + 0.2 {\n")],
  docs=[doc(lay(rect(), fill(), ks=ks(r=an((0, 0), (0.25, 90), (0.5, 45)))))], steps=at(0, 0.125, 0.3125, 0.5),
  needs="keyframes fractions of a frame apart", breaks="the next keyframe's value shows before its time"),
]
