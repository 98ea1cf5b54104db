TV = "TLA+ specification; traces of the real library checked with TLC"
A1 = "Every call of every explored history is a step of the specification; inputs are enumerated by TLC and drawn at random from a seed, so this is not a proof over all inputs. "

p("S01", "Stored pixels equal all dabs of the batch applied one by one in order",
  "After a batch ends, every pixel of the surface has exactly the value obtained by applying all dabs drawn so far to it one after the other in the order they were drawn, "
  "whatever tiles they fall on, however many batches they were spread over, how often colours were picked in between, and whatever other surfaces did. "
  "Each dab takes effect exactly once, and pixels no dab covers keep their value.",
  "histories inputs", "all sequences of dabs, batches and picks on any number of surfaces, all positions relative to tile borders",
  "The tests paint a handful of fixed strokes and mostly look at the time they take; no test compares pixels with an independent computation, and none interleaves picks, batches and surfaces.",
  "mypaint-tiled-surface.c operationqueue.c tilemap.c fifo.c brushmodes.c",
  [("deferred operations per tile, carried out at the end of a batch or when a tile is read", "mypaint-tiled-surface.c: draw_dab_internal, process_tile, tiled_surface_end_atomic"),
   ("per-tile FIFO and list of dirty tiles", "operationqueue.c, fifo.c, tilemap.c")], TV,
  note=A1 + "Pixel values are predicted in fixed point for hard-edged dabs; pixels within a rounding error of the rim may have either value.",
  state=[("operation queue", "dabs drawn but not yet in the tiles", "operationqueue.c")], observe=["stored tile data after a batch ends"])
p("S02", "Picked colours show everything drawn so far and nothing else",
  "A colour or alpha picked anywhere, at any moment, is that of the surface with all dabs drawn so far applied, including those of the batch still open. "
  "Over an area of one colour the result is that colour and alpha, within rounding, for every sampling mode and radius, and where everything is transparent the alpha is zero. "
  "Picking never changes what the surface finally shows.",
  "histories inputs", "all picks (position, radius, mode) at any moment of any drawing history",
  "No test reads a colour back in the middle of a batch; the existing surface tests never check picked values.",
  "mypaint-tiled-surface.c brushmodes.c mypaint-surface.c",
  [("pending dabs of the tiles looked at are carried out first", "mypaint-tiled-surface.c: get_color_internal"), ("weighted sum over tiles", "brushmodes.c: get_color_pixels_accumulate"), ("alpha pick", "mypaint-surface.c: mypaint_surface_get_alpha")], TV,
  note=A1 + "Uniform areas only; tolerance of a few 1/32768 steps plus the quantisation of the stored colour.")
p("S03", "Reported changed rectangles cover every changed pixel and fit the dabs",
  "When a batch ends, every pixel it changed (also through picks during the batch) lies inside one of the reported rectangles. "
  "With enough room there is one rectangle per symmetric copy, the bounding box of that copy's dabs; with less room they are merged, still covering everything, and never more are reported than there is room for nor is anything written beyond them. "
  "Rectangles describe this batch only.",
  "histories inputs configurations", "all batches, all symmetry kinds and counts, all capacities of the rectangle list",
  "One test checks two bounding boxes for one symmetry; capacities, several dabs per batch and copies crossing each other are not covered.",
  "mypaint-tiled-surface.c mypaint-rectangle.c",
  [("bounding boxes gathered per symmetric copy", "mypaint-tiled-surface.c: update_dirty_bbox, prepare_bounding_boxes, draw_dab"), ("merging at the end", "mypaint-tiled-surface.c: tiled_surface_end_atomic")], TV,
  note=A1 + "Box edges may differ by one pixel where a copy's position is not exactly representable.")
p("S04", "Tile requests are balanced, matched and made only for tiles that need it",
  "Every tile the library asks the tile store for is given back exactly once, unchanged if it was asked for reading, and before the call returns; a tile is never out twice at a time. "
  "Ending a batch asks for exactly the tiles with dabs not yet carried out, once each; a pick asks for exactly the tiles its area touches; no other call touches tiles.",
  "histories inputs", "all histories of dabs, picks, batches and failing requests",
  "The test surfaces hand out memory without checking how it is returned.",
  "mypaint-tiled-surface.c operationqueue.c",
  [("request start/end pairs", "mypaint-tiled-surface.c: process_tile_internal, get_color_internal"), ("dirty tile list", "operationqueue.c")], TV, note=A1)
p("S05", "Painting works the same in every part of the plane",
  "Dabs take effect exactly once in the right place wherever they are: at negative and distant coordinates, on the borders of tiles, on any number of tiles at once, and on tiles that became dirty, were read early and became dirty again.",
  "histories inputs", "all tile coordinates and all growth and re-dirtying histories of the pending work",
  "The tests paint near the origin and never interleave reading with painting on many tiles.",
  "operationqueue.c tilemap.c fifo.c mypaint-tiled-surface.c",
  [("tile map grown by doubling, copying its entries", "tilemap.c, operationqueue.c: operation_queue_resize"), ("dirty list", "operationqueue.c: operation_queue_add")],
  "TLA+ refinement (queue implementation to per-tile sequences) model-checked, plus trace checking", note=A1)
p("S06", "Rendering on several threads gives the same result",
  "When the library is built with threads and the surface allows it, ending a batch gives exactly the pixels, rectangles and tile requests of the single-threaded run: each dirty tile is carried out once, by one thread, with its dabs in order.",
  "schedules histories", "all schedules of the rendering threads over all batches",
  "The tests do not build with threads, and would only measure speed.",
  "mypaint-tiled-surface.c operationqueue.c",
  [("parallel loop over dirty tiles; queue access in a critical section", "mypaint-tiled-surface.c: tiled_surface_end_atomic; operationqueue.c: operation_queue_pop")],
  "TLA+ model of the parallel flush model-checked; traces of an OpenMP build checked with TLC", note=A1 + "Schedules of the real threads are sampled, with delays injected in the tile store.")
p("S07", "A fixed-size surface keeps paint inside its own tiles",
  "On a surface with fixed size, dabs and picks anywhere - inside, across or far outside the edges, at negative positions - never touch memory outside its tiles; paint outside is discarded and reads there are as from a surface that swallowed it, "
  "while everything inside behaves as on an unbounded surface and the reported size is the one asked for.",
  "inputs histories", "all sizes (also no multiple of the tile size), positions and histories",
  "Tests use one size and stay inside, and would not notice stray memory accesses.",
  "mypaint-fixed-tiled-surface.c mypaint-tiled-surface.c",
  [("tiles outside map to a throw-away tile", "mypaint-fixed-tiled-surface.c: tile_request_start, reset_null_tile")], TV + "; driver built with AddressSanitizer", note=A1)
p("S08", "A refused tile loses only its own dabs",
  "If the tile store cannot hand out a tile, the library does not crash, still closes that request, and continues: every other tile of the batch is painted as usual, the dabs queued for the refused tile are dropped for good, and later batches work normally. "
  "A pick that cannot read some tile reports full transparency rather than garbage.",
  "fault_sequences histories", "all subsets and moments of refused tile requests",
  "No test ever makes a request fail.",
  "mypaint-tiled-surface.c operationqueue.c",
  [("null buffers are skipped", "mypaint-tiled-surface.c: process_tile, get_color_internal")], TV + "; requests refused by a fault-injecting tile store", level="fault_enumeration", note=A1)
p("P01", "Pixels stay valid: premultiplied colour never exceeds alpha, alpha never 1",
  "Starting from valid pixels, any dab whatsoever leaves valid pixels: alpha between zero and one and no colour channel above alpha.",
  "inputs histories", "all pixel values, dab parameters (also out of range) and sequences of dabs",
  "No test looks at the pixel invariant.",
  "brushmodes.c mypaint-tiled-surface.c", [("blend modes in fixed point", "brushmodes.c")], TV, note=A1)
p("P02", "Blend modes compute their defined result exactly",
  "Normal painting, erasing, alpha-locked painting, colorizing and posterizing (and their mixtures in one dab) change each covered pixel to exactly the value defined by fixed-point source-over compositing, luminosity-preserving recolouring and quantisation, for all pixel values, colours, opacities and mixture weights, truncating at the same places.",
  "inputs", "all stored pixel values, colours, opacities, and mode weights",
  "No test checks blend results.",
  "brushmodes.c mypaint-tiled-surface.c", [("one function per blend mode", "brushmodes.c"), ("splitting a dab's opacity between modes", "mypaint-tiled-surface.c: process_op")], TV, note=A1)
p("Y01", "Symmetry paints exactly the mirrored or rotated copies of each dab",
  "With symmetry on, each dab appears once at each image of its position under the chosen symmetry - mirror across the vertical, horizontal or both axes through the centre, rotations by equal angles, or rotations with reflections - with the axes turned by the given angle and its shape turned or mirrored accordingly. With symmetry off exactly one copy appears.",
  "inputs configurations", "all centres, angles, kinds, numbers of lines and dab shapes",
  "One test checks that rotational symmetry of some kind gives plausible matrices for few configurations; pixels are never compared.",
  "mypaint-symmetry.c mypaint-matrix.c mypaint-tiled-surface.c",
  [("transformation matrices", "mypaint-symmetry.c"), ("drawing the copies", "mypaint-tiled-surface.c: draw_dab")], TV, note=A1)
p("Y02", "Symmetry changes take effect at the next batch, never within one",
  "A change of symmetry centre, angle, kind or number of lines made while a batch is open affects only the following batches (switching symmetry on or off is immediate), and a batch always uses the values set last before it began. The number of lines is at least two.",
  "histories", "all interleavings of settings changes, dabs, picks and batches",
  "No test changes symmetry within a batch.",
  "mypaint-tiled-surface.c mypaint-symmetry.c",
  [("pending symmetry state copied when a batch begins", "mypaint-symmetry.c; mypaint-tiled-surface.c: begin_atomic")], TV, note=A1)
A2 = A1 + "Numbers of the engine are compared with a tolerance that follows the single-precision rounding of the quantities involved; where rounding may decide between two courses, both are accepted. "
BR = "mypaint-brush.c"
p("B01", "A mapping's value is its base value plus one piecewise linear curve per input",
  "The value computed for a set of inputs is the base value plus, for every input with points, the curve through its points at that input, extended beyond its first and last point in a straight line; level and vertical pieces give their left value. "
  "Inputs without points contribute nothing, a curve can be replaced, shortened or removed at any time, and what is read back is what was set.",
  "inputs histories", "all curves of 0 to 64 points, also with vertical pieces, all inputs and edit histories",
  "One test evaluates two fixed curves.", "mypaint-mapping.c", [("piecewise linear evaluation", "mypaint-mapping.c: mypaint_mapping_calculate, mypaint_mapping_set_n, mypaint_mapping_set_point")], TV, note=A2)
p("B02", "Settings of a brush read back as last set, and settings do not affect each other",
  "Base values, curves and internal states read back exactly as last set, for every setting, input and state, and setting one leaves all others of the same and of every other brush alone. "
  "A setting is constant exactly when it has no curve, and the number of inputs with a curve is the number reported. Restoring the defaults sets every setting to its documented default and removes all curves but the documented one (opacity multiplied by pressure).",
  "histories inputs", "all sequences of setting, mapping, resetting and reading on several brushes",
  "Tests set one value or load one brush.", "mypaint-brush.c mypaint-mapping.c", [("one mapping per setting", "mypaint-brush.c: mypaint_brush_set_base_value, set_mapping_n, from_defaults")], TV, note=A1)
p("B03", "Loading a brush file sets exactly what it says and survives malformed files",
  "Loading a well-formed brush definition gives exactly its base values and curves for the settings and inputs it mentions and leaves the others alone. "
  "Text that is no brush definition, or of another version, is refused without any effect; a malformed or unknown setting is skipped without affecting any other setting, and loading succeeds exactly if at least one setting was well-formed. "
  "No text makes the library crash or read or write outside its memory.",
  "inputs histories", "all texts; generated: well-formed definitions, definitions with one of fifteen kinds of damage, truncated and foreign JSON",
  "The tests load a few well-formed files (and one is never loaded at all).", "mypaint-brush.c mypaint-mapping.c",
  [("JSON loader", "mypaint-brush.c: mypaint_brush_from_string, update_brush_setting_from_json_object")], TV + "; also with AddressSanitizer", note=A1)
p("B04", "Setting and input descriptions agree with the published table",
  "Every setting and input is found under its name and only there, its description lies at its identifier, and its default, smallest and largest values (and for inputs the typical range) are those of the published table, with smallest not above default and default not above largest; unknown names are reported as such.",
  "inputs", "all settings, inputs, states and arbitrary names", "Tests look up nothing but a few names.",
  "mypaint-brush-settings.c generate.py brushsettings.json", [("generated tables", "generate.py, brushsettings.json"), ("lookups", "mypaint-brush-settings.c")], "TLA+ module with the table; lookups of the real library checked with TLC", note=A1)
p("B05", "Strokes are cut into undo steps at pauses and lengths, only when the pen allows",
  "Each motion event tells whether the stroke so far should become an undo step of its own: after about 4 seconds of painting (longer under pressure), and only while pressure is not rising; after a pause of about 1 second (longer under pressure) that follows painting; and after one second of not having painted at all. "
  "Painting time counts only events that painted and starts at zero with every new stroke; an event that resets the brush cuts the stroke.",
  "histories inputs", "all sequences of events (time steps, pressures, painted or not) and stroke starts", "A test checks only total time of a recording.",
  BR, [("painting and idle time", "mypaint-brush.c: mypaint_brush_stroke_to_internal (end)")], TV, note=A2)
p("B06", "Dabs are placed by distance and time, independent of how motion is reported",
  "The number of dabs of an event is the whole part of the dabs due - by the distance travelled (in the metric of the elliptical dab), relative to the actual and the base radius, and by the time passed - plus what was left over by the events before; the first dab comes when the remainder is used up, the others follow one by one, and the new remainder is carried over.",
  "histories inputs", "all motions and densities, also densities that change from dab to dab", "Tests draw fixed strokes and measure time.",
  BR, [("dabs due", "mypaint-brush.c: count_dabs_to, mypaint_brush_stroke_to_internal")], TV, note=A2)
p("B07", "A reset brush behaves exactly like a new one",
  "After a reset (asked for, or because more than five seconds passed) a brush paints exactly the same dabs, asks for the same colours and reports the same states as a newly made brush with the same settings would, whatever it painted before; the event after the reset only puts the brush where the pointer is and paints nothing. "
  "Random inputs, which go on from where they were, and the grid position of the first dab are excepted.",
  "histories", "all pasts of a brush, all settings and all motions after the reset", "No test resets a brush in the middle of its life.",
  BR, [("reset", "mypaint-brush.c: mypaint_brush_reset, brush_reset, mypaint_brush_stroke_to_internal")], "TLA+ specification of two brushes that must not differ (self-composition); traces checked with TLC", note=A1)
p("B08", "Brushes are deterministic and independent of each other",
  "Two brushes with the same settings and the same events on the same canvas do exactly the same, bit by bit, including randomness, however their settings were reached, whatever other brushes of the program do in between and in whatever order they are called.",
  "histories schedules", "all settings, all event sequences, all interleavings with other brushes", "No test runs two brushes side by side.",
  "mypaint-brush.c rng-double.c helpers.c", [("per-brush state and random numbers", "mypaint-brush.c, rng-double.c")], "TLA+ specification of two brushes that must not differ (self-composition); traces checked with TLC", note=A1)
p("B09", "Nonsensical pointer data does no lasting harm",
  "Pointer events with infinite, undefined or absurdly large position, pressure, tilt, or with no or negative time step, are taken as if those values were harmless ones (no pressure, no tilt, the origin, a short time step), never crash, and leave a brush that continues to work normally; every value passed on to the surface is finite.",
  "inputs histories", "all event values, in all positions of a history", "No test sends such events.",
  BR, [("input sanitation", "mypaint-brush.c: mypaint_brush_stroke_to_internal (beginning)")], TV + "; also with AddressSanitizer", note=A2)
p("B10", "Smudge buckets keep their colours apart",
  "Each smudge bucket keeps the nine values last put there, by the program or by painting, and painting uses and changes only the bucket its setting chooses (rounded, confined to the buckets there are). "
  "Reading or writing a bucket that does not exist is refused without effect; the range of used buckets reported contains all buckets used since the last reset, and a reset clears them.",
  "histories inputs", "all numbers of buckets, indices, interleavings of access, painting and resets", "No test uses buckets.",
  BR, [("buckets", "mypaint-brush.c: mypaint_brush_set_smudge_bucket_state, fetch_smudge_bucket, brush_reset")], TV, note=A2)
p("B11", "Smudging mixes brush and canvas colour as defined",
  "A smudging brush samples the canvas under the dab with the radius, at the moments and with the weights its settings define, mixes the sample into its smudge colour, and paints the defined mixture of its own colour and the smudge colour, in additive or spectral mixing; dabs over canvas more transparent or opaque than the limit set are left out.",
  "histories inputs", "all settings, canvases and sequences of dabs", "No test looks at smudge colours.",
  "mypaint-brush.c helpers.c", [("smudge update and application", "mypaint-brush.c: update_smudge_color, apply_smudge"), ("mixing", "helpers.c: mix_colors")], TV, note=A2)
p("B12", "Random numbers form Knuth's lagged Fibonacci sequence of their seed",
  "The numbers drawn are those of Knuth's subtractive/lagged Fibonacci generator in doubles for the given seed, in order, each used once; generators do not influence each other, and the Gaussian variate is the scaled sum of four numbers.",
  "histories inputs", "all seeds and draw sequences", "A test checks only the average and a known value.",
  "rng-double.c", [("generator", "rng-double.c")], TV, note=A1)
p("B13", "Dab colours follow the colour settings",
  "The colour of a dab is the brush colour changed by the hue, saturation, value, lightness and HSL-saturation changes set, in that order and in the colour model named, in display or linear space as asked, and made an eraser to the degree set; without changes it is the brush colour itself.",
  "inputs histories", "all base colours, changes and modes", "No test looks at dab colours.",
  "mypaint-brush.c helpers.c", [("colour changes", "mypaint-brush.c: prepare_and_draw_dab"), ("colour models", "helpers.c")], TV, note=A2)
p("B14", "Every dynamics input has its documented value at every dab",
  "At every dab each input - pressure, fine and gross speed, random, stroke, direction and full direction, tilt, ascension and attack angle, custom, grid position, barrel rotation, zoom and radius - has the value its definition gives for the motion so far, and settings with curves take the value of their curves at these inputs.",
  "histories inputs", "all motions, tilts, view rotations and zooms, filters and curves", "Tests check no input values.",
  BR, [("inputs and filtered states", "mypaint-brush.c: update_states_and_setting_values")], TV, note=A2)
p("B15", "Dab size, hardness and shape follow the settings",
  "Radius, hardness, softness, aspect ratio and angle of each dab are those the settings and inputs define: logarithmic radius within its limits, random variation with opacity compensated, smoothing of edges by at least the width asked for, and snapping of the radius to half pixels.",
  "histories inputs", "all settings and motions", "No test looks at dab shapes.", BR,
  [("radius, ellipse, anti-aliasing, snapping", "mypaint-brush.c: prepare_and_draw_dab, update_states_and_setting_values")], TV, note=A2)
p("B16", "Dabs are offset from the pointer exactly as set",
  "Each dab lies at the tracked pointer position plus the offsets set: along fixed axes, at an angle to the stroke, the pen's tilt or the view, on one or alternating sides, against the speed, and at random, scaled with the base radius; without offsets it lies on the pointer, and snapping puts it at pixel centres to the degree set.",
  "histories inputs", "all offset settings and motions", "No test looks at dab positions relative to the pointer.", BR,
  [("offsets", "mypaint-brush.c: directional_offsets, prepare_and_draw_dab")], TV, note=A2)
p("B17", "The brush follows the pointer and the pen's values evenly through each event",
  "Over an event, position, pressure, tilt and barrel rotation move evenly from where they were to the event's values, along the shorter way for angles, and are there at its end; slow tracking, per event and per dab, delays the position by the exponential law defined and tracking noise displaces it as defined. "
  "A pen that comes down after a pause is first moved there without pressure.",
  "histories inputs", "all event sequences, tracking settings and time steps", "No test looks at the path followed.", BR,
  [("interpolation and slow tracking", "mypaint-brush.c: mypaint_brush_stroke_to_internal, update_states_and_setting_values")], TV, note=A2)
p("B18", "Dab opacity follows the settings, also where dabs overlap",
  "Opacity of each dab is the product of both opacity settings confined to [0, 1], and with linearisation is lowered so that the dabs overlapping at one place add up to it. A dab made larger at random is made fainter in proportion to its area.",
  "histories inputs", "all opacities, densities and linearisation weights", "No test looks at dab opacities.", BR,
  [("opacity and linearisation", "mypaint-brush.c: prepare_and_draw_dab")], TV, note=A2)
p("R01", "Rectangles grow to exactly the bounding box of what they were given",
  "A rectangle extended by points and by other rectangles is the smallest one containing everything it was extended by; an empty one becomes the first thing given, and copies are independent.",
  "inputs histories", "all integer points and rectangles of any sign and size, all sequences", "No test uses rectangles but through the surface.",
  "mypaint-rectangle.c", [("growing", "mypaint-rectangle.c")], TV, note=A1)
p("T01", "Transforms compose in the order applied",
  "A transform built by rotations (either way), reflections and translations maps every point to the result of applying them in that order; the unit transform maps every point to itself and building one transform leaves others alone.",
  "inputs histories", "all angles, points and sequences", "A test checks a few fixed matrices.",
  "mypaint-matrix.c", [("matrix products", "mypaint-matrix.c")], TV, note=A2)
p("C01", "Colour conversions are defined for every input, in range, and invert each other",
  "Conversions between RGB and HSV or HSL give the standard values, clip what is out of range, give hue zero for greys, and undo each other within rounding; spectral upsampling and downsampling and pigment mixing give their defined values, with mixtures at the ends equal to the unmixed colours. "
  "Angle differences are the signed shortest turn and the modulus is never negative.",
  "inputs", "all colours, also out of range, grey and nearly grey, all mixture factors", "No test converts colours.",
  "helpers.c", [("conversions and mixing", "helpers.c")], TV, note=A2)
