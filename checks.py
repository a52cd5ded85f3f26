"""Which harness entries decide which property, and what they cover."""
LEVEL = "model_checking"
TECH = "concolic symbolic execution of the compiled real code (LLVM IR) with an SMT solver; counterexamples replayed natively"
CHECKS = {
    "C01": dict(quick=["c01_damage", "c01_pairs"], time=dict(c01_damage=400, c01_pairs=250),
        bounds="six documents that together use every construct velato reads, with any one value removed, doubled, renamed, wrapped, or replaced by 13 other kinds of value: null, boolean, string, empty and short lists, objects, static and animated properties, paths, symbolic numbers within +-1024, numbers at the ends of their types; eighteen small documents of one construct each with any two values removed or replaced by an empty list, a list of one number, zero or a huge number",
        outside="other pairs of damages, three or more at once; bytes that are not JSON (serde_json's part)"),
    "C02": dict(quick=["c02_damage", "c02_pairs", "c02_frames", "c02_parents", "c02_mattes", "c02_instances", "c02_keyframes"], time=dict(c02_damage=300, c02_pairs=260),
        bounds="the documents of C01 rendered; symbolic frames and frames that are huge, infinite or not numbers; every assignment of parents over 3 layers, cycles included; every assignment of matte sources over 2-3 layers; every pair of assets of 2 layers referring to each other, cycles included; properties of 0-3 keyframes at any times in any order with odd values and handles; sinks are called less than a bounded number of times",
        outside="as for C01; chains of instances whose length or fan-out makes the drawing itself exponentially large"),
    "C03": dict(quick=["c03_timeline", "c03_times", "lone_layer", "lone_group", "lone_split", "lone_rect", "lone_ellipse", "lone_star", "lone_polygon", "lone_paints", "lone_gradients", "lone_trims", "lone_repeaters", "c03_large", "c03_far"],
        bounds="20 places a keyframed property can occur, each with 1-4 keyframes, every hold pattern, symbolic values; frames before, at, between (linear interpolation at a symbolic point) and after keyframes; keyframe times symbolic in c03_times; places also within groups in groups, in an asset of another time stretch and after other geometry; 5-40 keyframes following a pattern at 10 places; values 1/1000 to 2000 times as large, timelines at -50000 and 100000 and of 1/16 to 4000 times the length",
        outside="other arrangements of more than 4 keyframes; unsorted or coinciding keyframe times; places not listed in harness/src/h_time.rs SLOTS are covered by C05 (paths), C15 (trims), C18 (gradient stops), C19 (stars)"),
    "C04": dict(quick=["c04_table", "c04_free", "c04_forms"],
        bounds="20 places x 2-3 keyframes with handles from a table and with symbolic handles, written as numbers or lists, of scalars with either side left out; the point on the curve is symbolic (u in [1/32, 31/32] or so, grain 1/64)",
        outside="handles whose x leaves [0,1]; handles that differ per component"),
    "C05": dict(quick=["c05_fixed", "c05_tangents", "c05_animated", "c05_constant", "c05_large"],
        bounds="paths of 0-4 vertices, open and closed, zero and non-zero tangents, symbolic coordinates; animated paths of 1-3 keyframes with start/end shapes present or not, holds, symbolic frames; each also within groups in groups, in an asset of another time stretch and after other geometry; 5-40 vertices and up to 13 keyframes following a pattern",
        outside="other arrangements of more vertices or keyframes; keyframes whose vertex counts differ"),
    "C06": dict(quick=["c06_layer", "c06_group", "c06_animated", "c06_omitted", "c06_odd", "lone_layer", "lone_group", "lone_split"],
        bounds="layer and group transforms with every component present or left out and symbolic values; each component animated; angles symbolic where static, at concrete frames where animated; each also within groups in groups and in an asset of another time stretch",
        outside="skews within one degree of 90 degrees"),
    "C07": dict(quick=["c07_parents", "c07_parents4", "c07_kinds", "c07_assets", "c07_noids", "c07_spaces", "c07_children", "c07_chain", "c07_large"],
        bounds="every acyclic parent assignment (also to ids that do not exist) over lists of 3 and 4 layers, three orders of ids, symbolic transforms; parents of every kind; layer lists of assets; chains of up to 33 layers in three orders",
        outside="other longer lists; ids given twice"),
    "C08": dict(quick=["c08_ranges", "c08_edges", "c08_kinds", "c08_nested", "c08_kindranges", "c08_mix", "c08_mix3", "c08_large"], time=dict(c08_mix=100, c08_mix3=100),
        bounds="1-3 layers with symbolic in and out points and symbolic frame, every combination of layer type, hidden flag and matte-source mark; ranges within assets; two layers of every combination of matte marks, hidden flag, mask, range and kind; three layers of 12 such combinations each, at the top and in assets; up to 70 layers of every sort following 8 patterns", outside="other longer lists"),
    "C09": dict(quick=["c09_viewport", "c09_balance", "c09_nested", "c09_vanishing", "c11_partial", "c10_kinds", "c08_mix3", "c08_large"], time=dict(c08_mix3=100),
        bounds="symbolic caller transform and alpha; a layer of any kind and feature of any opacity and scale, zero included; three layers of every mix of features (mattes, masks, hidden, instances, ranges that end before), within assets too; up to 70 layers of every sort following 8 patterns", outside="other longer lists"),
    "C10": dict(quick=["c10_implicit", "c10_chain", "c10_explicit", "c10_noids", "c10_modes", "c10_asset", "c10_kinds", "c08_mix3", "c08_large"], time=dict(c08_mix3=100),
        bounds="lists of 3-4 layers with every placement of matte sources, matted layers and explicit references; up to 70 layers following 8 patterns", outside="other longer lists"),
    "C11": dict(quick=["c11_masks", "c11_kinds", "c11_frames", "c11_partial", "c08_mix3", "c11_large", "c08_large"], time=dict(c08_mix3=100),
        bounds="0-3 masks on each of two layers, static and animated with symbolic coordinates and frames, on every layer kind; up to 20 masks of a layer", outside="mask modes and mask opacity, which velato does not implement"),
    "C12": dict(quick=["c12_mapping", "c12_instances", "c12_large"],
        bounds="symbolic start time and frame, stretches from a set of powers of two, nesting to depth 3, unknown and repeated references; 24 instances within each other", outside="stretches that are not powers of two; time remapping, which velato does not implement"),
    "C13": dict(quick=["c13_opacity", "c13_nested", "c13_gradient", "lone_paints", "lone_gradients", "c14_large", "c12_large"],
        bounds="symbolic opacities of layer, instances, groups and paints and symbolic caller alpha, static and animated; 20 groups within each other; 24 instances within each other", outside="other nests deeper than 3 groups and 2 instances"),
    "C14": dict(quick=["c14_lists", "c14_flat", "c14_nested", "c14_deep", "c14_turned", "c14_layers", "c14_ignored", "c14_place", "c14_large", "c14_long"], thorough=["c14_lists5", "c14_deep4"],
        bounds="every list of 4 items (thorough: 5) out of 8 kinds (geometry, fill, stroke, groups with and without paints and transforms), of 6 items out of 4 kinds, groups of 3 items with items around them, three (thorough: four) groups within each other with items before and after each, two layers; symbolic group transforms; 20 groups within each other with paints, geometry and a trim at any of them; lists of up to 40 items following 12 patterns", outside="other longer lists, deeper groups"),
    "C15": dict(quick=["c15_line", "c15_path", "c15_curves", "c15_scope", "c15_lists", "c15_deep", "c15_animated", "c15_merged", "c15_kinds", "lone_trims", "c15_large", "c14_large", "c14_long"], thorough=["c15_lists5"],
        bounds="symbolic start, end (grain 1/8) and offset on open and closed paths of 1-4 segments; every list of 4 items (thorough: 5) of geometry, paints, trims and groups with trims; trims at every level of groups within groups within groups; evenly parameterised curves at concrete cuts; animated trims also within groups in groups and in an asset; paths of 16 segments; lists of up to 40 items with trims, groups 20 deep", outside="start and end outside 0-100; curves that are not evenly parameterised; the multiple-shapes mode"),
    "C16": dict(quick=["c16_transform", "c16_opacity", "c16_count", "c16_scope", "c16_lists", "lone_repeaters", "c16_large"],
        bounds="0-4 copies, symbolic anchor, position, opacities and copy count, rotations, scales and offsets from a set; every list of 4 items of geometry, paints, repeaters and groups; up to 20 copies of up to four geometries and paints",
        outside="repeaters under a singular group transform; documents cannot carry repeaters yet (velato does not import them), so they are put into the built composition through the public model"),
    "C17": dict(quick=["c17_history", "c17_three", "c17_scrubbing", "c17_arguments", "c17_edited", "c17_touched"],
        bounds="two or three renders by one renderer, out of ten compositions of every feature, at symbolic frames and in any order, compared with a fresh renderer each; one composition with other frames, transforms and alphas; compositions changed in place between renders", outside="longer histories; renderers whose earlier render ended in a panic"),
    "C18": dict(quick=["c18_static", "c18_alpha", "c18_alpha_free", "c18_alpha_apart", "c18_alpha_any", "c18_animated", "lone_gradients", "c18_large"],
        bounds="1-4 stops with symbolic offsets, colours and points, linear and radial, fills and strokes; alpha pairs at the colours' (symbolic) offsets and at 7 sets of other offsets, of 6 sets of colours, and 1-4 pairs of 6 sets around colours of any offset; 3 keyframes with holds, symbolic frames; each also within groups in groups and in an asset of another time stretch; up to 33 stops following patterns, static and animated",
        outside="other arrangements of more than 4 stops; highlights"),
    "C19": dict(quick=["c19_rect", "c19_round", "c19_ellipse", "c19_moving", "c19_star", "c19_turned", "c19_star_moving", "lone_rect", "lone_ellipse", "lone_star", "lone_polygon", "c19_large"],
        bounds="symbolic positions, sizes and radii, static and animated; stars and polygons of 0-6 points at several turns and roundnesses; moving ones also within groups in groups, in an asset and after other geometry; stars and polygons of up to 60 points", outside="other numbers of points"),
    "C20": dict(quick=["c20_stroke", "c20_many", "c20_animated", "lone_paints", "lone_gradients", "c20_large"],
        bounds="every cap, join and miter limit given or left out, symbolic widths and colours, static and animated; three paints after one another; animated ones also within groups in groups and in an asset; up to 30 paints following 6 patterns", outside="dashes, which velato does not implement"),
    "C21": dict(quick=["c21_constant", "c21_places", "c21_stops", "c21_paths", "c21_still", "c21_large"],
        bounds="20 places x 1-3 equal keyframes, with and without holds and handles, symbolic values and frames; 24 further places (rotations, skews, radii, stars, trims, gradient paints, instances), gradients of 0-14 numbers and 0-4 declared stops, paths and masks of 0-2 vertices with and without explicit ends, symbolic values at frames before, between and after the keyframes; up to 30 equal keyframes", outside="as for C03"),
    "C22": dict(quick=["c22_layers", "c22_shapes", "c22_assets", "c22_missing", "c22_unknown", "c22_metadata", "c22_entry", "c22_numbers", "c22_bytes"], time=dict(c22_unknown=150),
        bounds="layers, shapes and assets of every tag and of 20-odd tags there are not, in three places; 16 documents without any one of their fields; six documents that use every construct with an unknown field of four kinds in any one place; symbolic size, frame rate and range; texts cut in seven places, followed by rubbish, not UTF-8; two documents as text and as bytes with every ASCII character or seven odd byte sequences put before or in place of any one byte",
        outside="two or more omissions at once; other cuts"),
    "C23": dict(quick=["c23_trips", "c23_text", "c23_damage", "c23_pairs"], time=dict(c23_pairs=250, c23_trips=120, c23_damage=180),
        bounds="six documents that use every construct, with any one value symbolic, flipped, removed or damaged as in C01, the small documents of C01 with two damages, through serde_json values and text; what is drawn compared at several frames", outside="other changes of two or more values at once; numbers whose decimal form is not exact are serde_json's part"),
    "C24": dict(features="vello", quick=["c24_fills", "c24_strokes", "c24_stroked", "c24_layers", "c24_alpha", "c24_sequences", "c24_scenes", "c24_frames", "c24_large"],
        bounds="every operation with symbolic transforms, sizes, widths, colours and alphas, every blend and compose mode, cap and join, six shapes and brushes; every sequence of up to 5 operations out of 6; eight documents of every feature at several frames, transforms and alphas; the encodings of scenes filled through velato and by vello's own methods compared word by word; documents of up to 70 layers", outside="longer sequences; vello's own encoding and rendering"),
    "C25": dict(quick=["c25_fields", "c25_start", "c25_modes", "c25_curves", "c25_links", "c25_assets", "c25_contents"],
        bounds="one layer of every kind with symbolic numbers, before and after others, at the top and in two assets, every blend mode, 1-3 masks; every assignment of parents to two of three layers and of matte sources to one, three orders of ids; 0-3 assets with ids given twice; every list of two shapes out of nine kinds, within a group too",
        outside="longer lists; ids given twice; mask modes, which velato does not implement"),
    "C26": dict(quick=["c26_transform", "c26_stroke", "c26_trim", "c26_repeater", "c26_brush", "c26_shape", "c26_drawn"],
        bounds="any one part, or all parts but one, in one keyframe, two keyframes or two of which the first holds, symbolic values and alphas at six frames; stars and polygons of concrete shape; one drawing with any one of its values put differently",
        outside="other subsets of animated parts; empty lists of keyframes; alphas above 1"),
    "C27": dict(quick=["c27_whole", "c27_less", "c27_values", "c27_fields"], time=dict(c27_less=200, c27_fields=120),
        bounds="seven documents that together use every field of the types, whole or without any one field or with it null, all numbers symbolic in +-512 (offset so that no two are alike), two patterns of the flags; thirteen enumerations, 0-18 of each",
        outside="several fields missing at once; fields the types do not know, which are not kept; typed fields of shapes, dashes and gradients, which are only written and compared"),
    "C28": dict(quick=["c28_lists", "c28_stops", "c28_splines", "c28_links", "c28_instances", "c28_edited", "c28_orders", "c28_counts"], time=dict(c28_stops=90, c28_splines=120),
        bounds="0-3 keyframe times in five orders (equal, reversed, NaN and infinite ones among them) and 0-3 values; frames symbolic or not finite; stops and paths of 0-3 lists of odd lengths; three layers with any parents, one or all with any matte source, any mark; instances in and of two assets; six imported documents edited in six ways; lists of three shapes out of ten kinds; counts within +-20 or not finite",
        outside="paths that do not begin with a move (kurbo's contract); larger counts; other kinds of edits"),
    "C29": dict(quick=["c29_later", "c29_any", "c29_slower", "c29_assets", "c29_renamed", "c29_beside", "c29_irrelevant", "c29_refined", "c29_wrapped"],
        bounds="one document of moving parents, mattes, masks and nested instances at any frame in quarters within -16..32 and, for one entry, any shift within +-100 by halves; six more documents and one animated property in each of 20 places (any values) at nine frames; shifts by -13, 5 and 1000 and scalings by 1/2, 2 and 16; four renumberings and five renamings; six additions in three places; seven refinements of keyframes",
        outside="shifts and scalings whose sums and products round; other documents"),
}
NOT_APPLICABLE = {
}
