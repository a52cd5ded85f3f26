#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
R="src/runtime/render.rs"; A="src/runtime/model/animated.rs"; V="src/runtime/model/value.rs"; F="src/runtime/model/fixed.rs"
S="src/runtime/model/spline.rs"; M="src/runtime/model/mod.rs"; C="src/import/converters.rs"; B="src/import/builders.rs"; D="src/import/defaults.rs"

prop("C01","Importing a JSON document never crashes",
 "Building a composition from any JSON document (text, bytes or parsed value) returns a composition or an error. It never panics, aborts, overflows an integer or the stack, or loops, even when features it does not support or malformed keyframes, handles, references or assets appear in the document.",
 ["inputs"],"every JSON document",
 "The tests import a handful of well-formed fragments; the property ranges over every placement of every JSON value in a document.",
 [C,B,"src/schema/"],[("conv_animation / conv_*",C),("hand-written Deserialize dispatchers","src/schema/layers/mod.rs, src/schema/shapes/mod.rs, src/schema/assets/mod.rs")],
 ["Composition::from_json","Composition::from_slice","Composition::from_str"])
prop("C02","Rendering terminates and never crashes",
 "Rendering any imported composition at any finite frame returns normally: no panic, no integer overflow, no unbounded recursion, loop or allocation, however large its numbers are. This includes documents whose parent links, track-matte links or precomposition references are missing, self-referential or cyclic.",
 ["inputs"],"every importable document and every finite frame number",
 "Tests render no cyclic or dangling documents; cycles of every shape through three kinds of reference cannot be sampled meaningfully.",
 [R,A,V],[("parent chain walk bounded by layer count","src/runtime/render.rs compute_transform"),("render_layer recursion over mattes and instances","src/runtime/render.rs render_layer")],
 ["Renderer::append"])
prop("C03","Keyframed values follow their timeline",
 "A keyframed property equals the first keyframe's value up to and including the first keyframe's frame, the last keyframe's value from the last frame on, and exactly keyframe k's value at keyframe k's frame. Strictly between keyframes k and k+1 it is keyframe k's value if that keyframe is a hold keyframe, and otherwise depends on those two keyframes only and, for linear easing, is their linear interpolation at the elapsed fraction of the interval.",
 ["inputs"],"every frame, every strictly increasing list of keyframe times, every value",
 "No test evaluates a timeline at symbolic frames; boundary frames (first, last, exact keyframe hits) and holds are where it breaks.",
 [V,C],[("binary search and clamping","src/runtime/model/value.rs Time::frames_and_weight"),("tween","src/runtime/model/value.rs Tween for f64"),("conv_scalar, conv_keyframes",C)],
 ["Renderer::append (transforms, alphas, geometry handed to the sink)","Value::evaluate"])
prop("C04","Easing handles shape interpolation",
 "Between two non-hold keyframes whose keyframe carries an out handle (ox,oy) and an in handle (ix,iy), the value at elapsed fraction x(u) of the interval is v0 + (v1-v0)*y(u), where (x(u),y(u)) is the cubic Bezier through (0,0),(ox,oy),(ix,iy),(1,1). The handles used are those stored on the earlier of the two keyframes (handles that differ from component to component aside); of a scalar, a handle that is left out counts as (0,0) or (1,1). The handles may be written as numbers or as lists, and the same rule governs scalar, point, vector, size and colour properties.",
 ["inputs"],"every u in [0,1], every handle with x in [0,1], every pair of values",
 "Existing tests do not evaluate eased values at all; swapped or misattributed handles agree with correct ones at the end points and on symmetric curves.",
 [V,C],[("cubic easing","src/runtime/model/value.rs Tween for f64"),("conv_keyframe_handle, collect_tangents",C)],
 ["Renderer::append"])
prop("C05","Bezier paths are emitted faithfully",
 "A path shape with vertices v and relative tangents i,o is drawn as a move to v0 followed, for each consecutive pair, by a cubic with control points v[k]+o[k] and v[k+1]+i[k+1] ending at v[k+1], degenerating to a line exactly when both tangents are zero; a closed path adds the segment back to v0 and a close. An animated path interpolates vertices and tangents linearly between its keyframes (using a keyframe's explicit end shape when it has one, else the next keyframe's start) with the same clamping and hold rules as any keyframed property, and never yields non-finite coordinates.",
 ["inputs"],"every vertex, tangent, frame; every path of bounded length, open or closed",
 "Tests cover no animated path; the frame exactly on the last keyframe, missing start/end shapes and the closing segment are specific inputs.",
 [S,A,C],[("SplineToPath","src/runtime/model/spline.rs"),("Spline::evaluate",A),("conv_shape_geometry, conv_spline",C)],
 ["Renderer::append (draw geometry)"])
prop("C06","Transforms compose as T*R*Skew*S*T(-anchor)",
 "A layer or group transform equals translate(position) * rotate(rotation degrees) * skew(skew along skew-axis) * scale(scale percent) * translate(-anchor), each component evaluated at the current frame; omitted components mean anchor 0, scale 100 percent, rotation 0, skew 0, opacity 100. A position given as split x and y scalars behaves as the corresponding point.",
 ["inputs"],"every value of every component, every frame",
 "Composition order and omitted-component defaults are invisible on the identity-like transforms used in tests.",
 [A,C,D],[("Transform::evaluate",A),("conv_transform, conv_shape_transform",C),("default properties",D)],
 ["Renderer::append (draw transform)"])
prop("C07","Parent links compose transforms root-first",
 "A layer's draw transform is the viewport transform times the transforms of its chain of parents from the root down times its own, where a parent is named by the 'ind' of another layer of the same layer list, wherever that layer is in the list. Parents contribute their transform only (not their opacity, visibility or frame range), a parent name that matches no layer is ignored, and a hidden parent still contributes its transform.",
 ["inputs","configurations"],"every parent assignment over a bounded list of layers, every transform",
 "Id-to-index mapping errors only show when ids differ from positions, and composition order only with non-commuting transforms.",
 [C,R],[("idmap","src/import/converters.rs process_layers"),("compute_transform",R)],
 ["Renderer::append (draw transform)"])
prop("C08","Layer visibility, order and grouping",
 "At frame f exactly the layers whose in-point <= f < out-point are rendered, last layer of the list first (so earlier layers paint on top), each wrapped in one begin/end group carrying its name and, for top-level layers, its position in the list. Layers marked hidden, null, solid and image layers paint nothing, and layers used only as track-matte sources are not painted on their own.",
 ["inputs","configurations"],"every frame, every in/out range, every combination of layer kinds and flags in a bounded list",
 "Existing tests look at hidden layers on import only; no test renders at a frame equal to an in- or out-point.",
 [R,C,B],[("frames.contains, reverse iteration",R),("conv_layer, is_layer_hidden",C)],
 ["RenderSink::begin_layer_group","RenderSink::end_layer_group","RenderSink::draw"])
prop("C09","Sink operations are balanced and clipped to the viewport",
 "Every rendering starts by pushing a clip of the composition's width x height rectangle under the caller's transform and ends by popping it, and between them every pushed layer or clip and every begun group is closed in properly nested order. Nothing is emitted outside the viewport clip.",
 ["inputs","configurations"],"every composition and frame within bounds",
 "Imbalance appears only for particular combinations of masks, mattes, dangling matte references and invisible matte layers.",
 [R],[("push/pop counting","src/runtime/render.rs render_layer"),("viewport clip","src/runtime/render.rs append")],
 ["RenderSink calls"])
prop("C10","Track mattes pick the right source and mode",
 "A layer with a track matte is rendered inside an isolation layer in which its matte source is drawn first and the layer itself is then drawn in a layer blended source-in (alpha, luma) or source-out (inverted). The source is the layer whose 'ind' equals the explicit matte reference if one is given (none if no layer has it), otherwise the nearest preceding matte-source layer, unless another matted layer that is not itself a source lies between the two; without any source the layer is drawn unmatted.",
 ["inputs","configurations"],"every arrangement of matte sources and users in a bounded layer list, every matte mode",
 "The index bookkeeping depends on the arrangement of several layers; tests have no matte rendering.",
 [C,B,R],[("prev_matte_layer / matte reference resolution","src/import/converters.rs process_layers"),("matte mode mapping",B),("mask_layer rendering","src/runtime/render.rs render_layer")],
 ["RenderSink::push_layer","RenderSink::begin_layer_group","RenderSink::draw"])
prop("C11","Layer masks clip the layer's content",
 "Each mask of a layer that has a shape pushes one clip with the mask's path (animated masks evaluated at the current frame) under the layer's own transform, in order, before the layer's content, and pops it after the content. Masks of one layer never affect other layers.",
 ["inputs","configurations"],"every mask path, number of masks, frame",
 "No existing test renders a masked layer.",
 [R,B],[("mask clip loop","src/runtime/render.rs render_layer"),("masks_properties import",B)],
 ["RenderSink::push_clip_layer"])
prop("C12","Precomposition instances map time, space and opacity",
 "A precomposition layer draws the layers of the referenced asset, last first, under the instance's transform and multiplied by the instance's opacity, at local frame (frame - start time) / stretch, nested to any depth. Parent ids inside an asset refer to that asset's layers only, and a reference to an unknown asset draws nothing.",
 ["inputs","configurations"],"every start time, stretch, frame; every nesting within bounds",
 "Time mapping with a non-zero start and non-unit stretch at once, and nested instances, are not tested.",
 [R,C,B],[("frame / stretch - start / stretch","src/runtime/render.rs render_layer"),("assets map","src/import/converters.rs conv_animation"),("start_time, time_stretch",B)],
 ["Renderer::append"])
prop("C13","Opacity multiplies down the tree",
 "The alpha a paint is drawn with is the product of the caller's alpha, the opacities of the enclosing layer, of its enclosing precomposition instances, of all enclosing groups and of the paint itself (fill, stroke, gradient fill or gradient stroke), each divided by 100 and evaluated at the frame. It scales the alpha component of the brush and nothing else.",
 ["inputs"],"every opacity value and frame, nested groups and instances within bounds",
 "Missing or doubled factors are invisible when opacities are 100.",
 [R,M],[("alpha propagation",R),("brush alpha","src/runtime/render.rs Batch::render; src/runtime/model/mod.rs Brush::evaluate")],
 ["RenderSink::draw (brush)"])
prop("C14","Paints apply to the geometry above them in their group",
 "Within a shape list each fill or stroke paints exactly the geometry that precedes it in the same group, including geometry inside preceding nested groups under those groups' transforms, and never geometry that follows it or lies outside the group. Paints are drawn in reverse order of appearance, so an earlier paint covers a later one.",
 ["inputs","configurations"],"every arrangement of bounded shape trees",
 "The scoping rule depends on the arrangement of groups, paths and paints; geometry merging makes adjacent cases interact.",
 [R],[("geometry_start / draw ranges","src/runtime/render.rs render_shapes, push_geometry, push_draw")],
 ["RenderSink::draw"])
prop("C15","Trim paths cut the right piece of the right geometry",
 "A trim modifier replaces each preceding geometry of its group (nested groups and already painted geometry included; neighbouring geometries under one transform count as one path) by the part between start and end percent of its arc length, shifted by offset/360 with wrap-around, regardless of whether start exceeds end. An empty range removes that geometry, a full range leaves it unchanged, separate subpaths stay separate, and geometry after the trim or outside its group is never altered, whatever trims surround it.",
 ["inputs","configurations"],"every start, end, offset; bounded arrangements of geometries, groups and trims",
 "The existing tests fix a few trims of a single line; wrap-around, empty ranges followed by more geometry and sibling groups interact.",
 [R,F],[("Trim::normalized",F),("Batch::apply_trim",R)],
 ["RenderSink::draw (geometry)"])
prop("C16","Repeater copies geometry with progressive transform and opacity",
 "A repeater replaces the preceding content of its group by its number of copies, copy i being drawn with the repeater transform raised to offset+i about its anchor. Copy i's paint alpha is scaled by an opacity running from the start opacity towards the end opacity, and content outside the group is unaffected. (Repeaters come from the public model; documents cannot bring them yet.)",
 ["inputs","configurations"],"every repeater parameter, bounded copies",
 "Only reachable through the public model; no test covers it.",
 [R,F,A],[("Batch::repeat",R),("Repeater::transform",F)],
 ["RenderSink::draw"])
prop("C17","Rendering is a pure function of its arguments",
 "The operations emitted for a composition, frame, transform and alpha do not depend on what the renderer rendered before. Rendering does not change the composition, and scrubbing frames in any order gives the same output as rendering each with a new renderer.",
 ["histories","inputs"],"every sequence of renderings with one renderer within bounds",
 "Stale buffers only show after a particular preceding frame or composition.",
 [R],[("Batch::clear, buffer reuse",R)],
 ["Renderer::append called repeatedly on one Renderer"])
prop("C18","Gradients keep their stops, geometry and kind",
 "A gradient paint has exactly the declared colour stops in order with their offsets and colours, the alpha of each stop read off the trailing (offset, alpha) pairs at the stop's offset (linear between pairs, except that colours within the first or last tenth of the gradient take the outer pair's own alpha in the outer quarter of their interval; constant beyond the pairs, 1 without pairs), a linear gradient running from start to end point and a radial one centred at the start with radius equal to their distance. Animated stops interpolate offset, colour and alpha like any keyframed property, including clamping and hold.",
 ["inputs"],"every stop list of bounded size, every frame",
 "No test renders a gradient; animated stops and holds are specific inputs.",
 [A,C],[("ColorStops::evaluate, Gradient::evaluate",A),("conv_stops, conv_gradient_colors",C)],
 ["RenderSink::draw (brush)"])
prop("C19","Rectangles, ellipses and stars have their declared geometry",
 "A rectangle or ellipse is centred on its position with its full size (a rectangle's corner radius limited to half the shorter side), evaluated at the current frame. A star with n points has 2n vertices alternating outer and inner radius, a polygon n vertices on the outer radius, starting at rotation - 90 degrees and equally spaced, closed, with straight edges when roundness is zero; zero points draw nothing.",
 ["inputs"],"every position, size, radius, rotation; bounded point counts",
 "Existing tests fix a few concrete stars; rect and ellipse geometry is untested.",
 [A,C],[("Rect/Ellipse/Star::evaluate",A),("conv_geometry, conv_polystar_geometry",C)],
 ["RenderSink::draw (geometry)"])
prop("C20","Fills and strokes carry their declared style",
 "A fill is drawn without a stroke style and a stroke with its width at the current frame and its declared cap, join and miter limit; the brush colour is the declared RGB colour at the current frame. Omitted caps and joins get fixed defaults that do not depend on other paints.",
 ["inputs","configurations"],"every colour, width, cap, join, miter limit, frame",
 "No test looks at stroke styles.",
 [C,A],[("conv_draw",C),("Stroke::evaluate",A)],
 ["RenderSink::draw (stroke, brush)"])
prop("C21","A constant animation equals the static value",
 "A property given as a static value renders identically at every frame, and identically to the same property given as keyframes that all hold that value.",
 ["inputs"],"every property kind, every value, every frame",
 "Static properties are collapsed at import by separate code paths; equality with the animated path cannot be sampled for all frames.",
 [A,M,C],[("into_model / is_fixed",A)],
 ["Renderer::append"])
prop("C22","Documents are decoded by their declared types",
 "Each layer, shape and asset is decoded according to its declared type tag, unknown fields are ignored, and a document missing mandatory fields or with an unknown layer type is reported as an error rather than misread; a shape of an unknown type is refused or not drawn, never drawn as another kind. The composition carries the document's width, height, frame rate and in/out points, and text, byte and value entry points agree.",
 ["inputs"],"every type tag and field presence combination within bounds",
 "Tests decode a few tags; dispatch is hand-written per type tag.",
 ["src/schema/layers/mod.rs","src/schema/shapes/mod.rs","src/schema/assets/mod.rs",C],[("tagged Deserialize dispatch","src/schema/layers/mod.rs, src/schema/shapes/mod.rs"),("conv_animation",C)],
 ["Composition::from_json","Composition::from_str","Composition::from_slice"])
prop("C23","Schema values survive a serialize/parse round trip",
 "Serializing a parsed animation and parsing the result again, as a value or as text, succeeds and yields an animation that renders identically.",
 ["inputs"],"every document of the template family within bounds",
 "Hand-written and attribute-driven (de)serializers are asymmetric in ways only particular fields reveal.",
 ["src/schema/"],[("serde derives and hand-written impls","src/schema")],
 ["schema::Animation serialize / from_json"])
prop("C24","Vello scenes receive the same operations",
 "Rendering into a vello scene issues the same clips, layers, fills and strokes with the same transforms, brushes and shapes as the sink trait describes, filling with the non-zero rule.",
 ["inputs"],"every operation sequence",
 "The adapter is only type-checked by the tests.",
 ["src/runtime/vello.rs"],[("RenderSink for vello::Scene","src/runtime/vello.rs")],
 ["vello::Scene encoding"])
prop("C25","The built model says what the document declares",
 "A composition built from a document has one model layer for every layer of the document, in order, and one list of layers for every precomposition asset under its id (the last of several with the same id). Each model layer carries the declared name (empty if none), in and out points, time stretch (1 if none), start frame (0 if none), an instance's size, opacity and blend mode (none for normal and for hard mix, which has no equivalent), the masks that have a path with their path and opacity (100 if none), the positions in its list of its parent and its matte source and the mark of a matte source, and content of its kind: its recognised shapes in order, an instance of the declared asset with its time remapping, or nothing, as for a hidden layer.",
 ["inputs","configurations"],"every layer of a bounded list, of every kind, with every combination of those fields, at every frame",
 "Tests look at single fields of single layers; the three layer builders repeat the same conversions by hand and can differ in any field.",
 [B,C,M],[("setup_precomp_layer, setup_shape_layer, setup_layer_base",B),("conv_layer, process_layers, conv_animation, conv_blend_mode",C)],
 ["Composition::layers","Composition::assets","model::Layer"])
prop("C26","Model values mean the same however represented",
 "Converting an animated transform, stroke, brush, trim, repeater or star of the public model to its model representation does not change what it evaluates to at any frame and (for brushes) alpha, which is the composition of its parts evaluated at that frame; it is reported as fixed exactly when none of its parts is animated. Evaluating geometry adds to a path and leaves what was there. A composition whose values are replaced by equal values in another representation (fixed, or animated with one or more equal keyframes) renders identically.",
 ["inputs"],"every choice of one animated part, of all but one, of none and of all, every value, frame and alpha",
 "Tests evaluate hardly any of these values, and never the same value in two representations.",
 [A,M,F],[("is_fixed, into_model, evaluate",A),("Transform, Stroke, Brush, Trim, Repeater, Geometry ::evaluate",M)],
 ["model::Transform::evaluate","model::Brush::evaluate","model::Stroke::evaluate","model::Trim::evaluate","model::Repeater::evaluate","model::Geometry::evaluate"])
prop("C27","The document types read and write everything a document says",
 "Reading a document into schema::Animation and writing that gives the document back: every field the types know, of the animation, its metadata, markers and assets, of layers, masks, transforms, animated properties and their keyframes, and of every shape, is there again with the same value, nothing is added (a missing or null optional field stays missing or null), and lists keep their length and order. The typed fields of the animation, its markers, metadata and assets, of layers, masks and transforms hold what the document says under their Lottie names. Every value of an enumeration is read as its named variant and written as the same value; a value the format does not have is refused.",
 ["inputs"],"documents that use every known field, whole or without any one field or with it null, every number symbolic, both values of every flag, every value of every enumeration",
 "The tests compare three short documents with what they are read as, and only check that writing does not fail.",
 ["src/schema/animation/animation.rs","src/schema/layers/visual.rs","src/schema/layers/layer.rs","src/schema/shapes/mod.rs","src/schema/animated_properties/animated_property.rs","src/schema/helpers/transform.rs","src/schema/helpers/mask.rs","src/schema/assets/mod.rs"],
 [("Deserialize and Serialize of the schema","src/schema/mod.rs"),("Deserialize for AnyLayer","src/schema/layers/mod.rs"),("Deserialize for AnyAsset","src/schema/assets/mod.rs"),("AnyShape","src/schema/shapes/mod.rs")],
 ["schema::Animation::from_json","serde_json::to_value(&Animation)"])
prop("C28","Rendering any model is total",
 "Evaluating and rendering a composition put together or changed by hand through the public model always returns without a crash and emits a well-nested sequence of operations: with any number of keyframes and values, in any order, at any times and frames (infinite ones and NaN included); gradient stops and paths of ragged or missing lists; parents and matte sources that are out of range or the layer itself; instances of missing assets and of each other, with zero, negative or NaN stretch; shapes of any kind in any order; counts that are negative, fractional or NaN. A value without keyframes or values is its default, one of a single value per sorted keyframe is within its values; a matte source or asset that is not there draws nothing; a count that is not positive draws nothing.",
 ["inputs","configurations"],"every combination of those within bounds, symbolic values and frames",
 "The tests render only imported documents, whose lists always fit.",
 [R,A,V,"src/runtime/model/spline.rs"],[("Time::frames_and_weight, Animated::evaluate_or",V),("Renderer::append, render_layer, compute_transform, render_shapes",R),("Spline, ColorStops, Star, Repeater ::evaluate",A),("SplineToPath::to_path","src/runtime/model/spline.rs")],
 ["Renderer::append with a recording RenderSink","model values' evaluate"])
prop("C29","A document means the same wherever and however it is put",
 "A document every time of which is later by d renders at frame f + d what the original renders at f, and one every time of which is k times as large at k f; the content of an asset may be later by d if its instances start as much earlier. Renumbering layers and renaming assets consistently, listing assets in another order, the frame rate, the version, names of documents and assets and the composition's own range do not change what is drawn; nor do layers and assets added beside it that are hidden, out of range, sources of mattes nobody uses, or unused; nor keyframes added on the way between two linear ones, in a hold, after the last or before the first; nor putting the shapes of a layer into a group without a transform, or all layers into an asset with one instance.",
 ["inputs","configurations"],"every frame, shift and value within bounds, for every such change of several documents",
 "The tests render single frames of single documents and compare no two of them.",
 [C,R,V,"src/import/builders.rs"],[("conv_animation",C),("setup_precomp_layer, setup_layer_base","src/import/builders.rs"),("Renderer::append, render_layer",R),("Time::frames_and_weight",V)],
 ["Composition::from_json","Renderer::append with a recording RenderSink"])
os.makedirs("/verif", exist_ok=True)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
