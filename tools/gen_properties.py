#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the property texts live)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("P01", "Safe functions never access memory out of bounds",
  "No call of the library's safe public functions reads or writes outside the images, kernels, lookup tables and buffers involved, whatever the image sizes (including zero), parameter values and pixel contents, and also when arithmetic overflow checks are compiled out. Every unchecked access is justified by bounds established on every path that reaches it.",
  ["inputs", "configurations"],
  "every unchecked access reachable from a safe public function; all image dimensions, all parameter values (including extreme integers, NaN and infinities), all pixel values; release arithmetic (wrapping)",
  "Tests run a handful of sizes in a debug profile with overflow checks and debug assertions on; an out-of-bounds unchecked read on an odd size or extreme parameter usually returns garbage silently.",
  ["src/filter/mod.rs", "src/filter/box_filter.rs", "src/filter/median.rs", "src/filter/bilateral.rs", "src/kernel.rs", "src/integral_image.rs", "src/geometric_transformations.rs", "src/template_matching.rs", "src/corners.rs", "src/suppress.rs", "src/edges.rs", "src/hough.rs", "src/distance_transform.rs", "src/union_find.rs", "src/region_labelling.rs", "src/haar.rs", "src/local_binary_patterns.rs", "src/binary_descriptors/brief.rs", "src/contrast.rs", "src/gradients.rs", "src/drawing/line.rs"],
  [("unchecked pixel access guarded by clamping / range guards", "filter, integral image, corners, geometric transformations, template matching"),
   ("constructor validation of kernel data length", "src/kernel.rs"),
   ("private fields whose invariant the unchecked accesses rely on", "src/union_find.rs, src/haar.rs, src/filter/median.rs")])

p("P02", "Results depend only on the arguments",
  "Two calls of a library function with equal arguments produce equal results: nothing read from clocks, the environment, global mutable state, thread identity, unordered-container iteration order or unseeded randomness influences an output. The only exceptions are functions that document fresh randomness when no seed is given, and functions that load fonts/images from files or open windows.",
  ["inputs", "histories", "schedules"],
  "every public function, every history of earlier calls, every thread schedule of the parallel variants",
  "A test that runs a function once or twice cannot see dependence on hash seeds, time, or previous calls; it needs all histories and schedules.",
  ["src/"],
  [("seeded random generators", "src/noise.rs, src/binary_descriptors, src/corners.rs"),
   ("no interior mutability or mutable statics; parallel iterators only over disjoint outputs", "whole crate")])

p("P03", "Multi-threaded variants agree with their sequential counterparts",
  "Each function offered in a multi-threaded variant computes, for every input, exactly what its sequential counterpart computes: the same output size, and at each output position the same operation applied to the same input samples in the same order. The same holds for functions whose threading is chosen by a build feature.",
  ["inputs", "schedules", "configurations"],
  "every pair (sequential, multi-threaded) of public functions; all images and parameters; all thread schedules",
  "The suite compares a few pairs on a few small images; agreement at every position, size and schedule is not sampled, and several pairs are never compared.",
  ["src/filter/mod.rs", "src/filter/sharpen.rs", "src/map.rs", "src/compose.rs", "src/template_matching.rs", "src/geometric_transformations.rs", "src/contrast.rs"],
  [("parallel iterators with the same per-element computation", "src/map.rs, src/filter/mod.rs, src/template_matching.rs, src/compose.rs"),
   ("build-feature switch around the same chunk computation", "src/geometric_transformations.rs, src/contrast.rs")])

p("P04", "Copying and in-place variants agree",
  "For every operation offered both as a copying and as an in-place function, the copying variant returns exactly what the in-place variant leaves behind when applied with the same arguments to an identical copy of the input image. The copying variant never skips, repeats or re-parameterises the operation.",
  ["inputs"],
  "every (copying, in-place) pair of public functions, all images and arguments",
  "The suite exercises most operations through only one variant of the pair, on a few images; swapped or dropped arguments on the other variant go unseen.",
  ["src/drawing/", "src/contrast.rs", "src/map.rs", "src/morphology.rs", "src/noise.rs", "src/compose.rs", "src/distance_transform.rs", "src/hough.rs", "src/haar.rs", "src/geometric_transformations.rs", "src/seam_carving.rs"],
  [("copying variant = exact copy followed by the in-place variant", "all modules listed")])

p("P05", "Drawing is clipped to the canvas",
  "Drawing any primitive with any position and size, including partly or wholly outside the canvas and on empty canvases, only reads and writes pixels that lie inside the canvas. It never touches an out-of-range pixel.",
  ["inputs"],
  "every public drawing function on images and canvases; all canvas sizes, coordinates and primitive sizes",
  "Tests draw a few shapes with a few offsets on small canvases; clipping must hold for every placement, and an unchecked coordinate shows only for the right off-canvas placement.",
  ["src/drawing/", "src/hough.rs", "src/haar.rs"],
  [("canvas bounds tests before each pixel write, clamping of loop ranges, rectangle intersection", "src/drawing/")])

p("P06", "Documented rejections always happen",
  "A function documented to panic, or to return an error or nothing, for certain inputs never completes normally on those inputs. In particular size mismatches, zero-sized kernels or blocks, out-of-range radii and empty inputs that the documentation rejects are always rejected.",
  ["inputs"],
  "every documented rejection condition of a public function; all inputs satisfying it",
  "A should-panic test samples one rejected input; a condition that is too weak or evaluated on the wrong dimension passes it.",
  ["src/kernel.rs", "src/map.rs", "src/contrast.rs", "src/template_matching.rs", "src/rect.rs", "src/compose.rs", "src/stats.rs", "src/seam_carving.rs", "src/filter/", "src/noise.rs", "src/haar.rs", "src/integral_image.rs", "src/binary_descriptors/"],
  [("assertions on entry", "modules listed")])

p("P07", "Output images have the documented size",
  "Every function that returns an image returns it with the documented dimensions as a function of its inputs: same size as the input for filters, gradients, point operations, morphology, distance transforms, thresholds, warps and drawing; one larger in each direction for integral images; template-minus-image offsets for template matching; the requested size for crops and resizing warps.",
  ["inputs"],
  "every public function returning an image; all input sizes and parameters, including empty images and non-square sizes",
  "Tests use a few, often square, sizes; a swapped or off-by-one dimension can hide for those.",
  ["src/"],
  [("output allocation from the input's dimensions", "all modules returning images")])

p("P08", "Fallible functions report bad options as errors instead of panicking",
  "Functions that return an error value for unusable options never panic on any option values: no division by zero, no arithmetic underflow and no indexing failure happens before the error is reported.",
  ["inputs"],
  "every public function returning a result; all option values and image sizes",
  "Tests try one or two bad option sets each.",
  ["src/hog.rs", "src/binary_descriptors/brief.rs", "src/utils.rs"],
  [("validation of options before use", "src/hog.rs, src/binary_descriptors/brief.rs")])

p("P09", "Pixel and table accesses stay in range on every accepted input",
  "No function of the library performs an out-of-range pixel access, slice index or table lookup on inputs its documentation does not reject: images of any size (including zero and one pixel), any radius, any coordinates.",
  ["inputs"],
  "every range-checked pixel access and index expression in the covered functions; all sizes and parameters",
  "Off-by-one accesses at borders or on degenerate sizes need those exact sizes; tests use comfortable ones.",
  ["src/"],
  [("loop ranges derived from image dimensions; clamped coordinates", "all modules")])

p("P10", "Channel conversions saturate to the nearest representable value",
  "Converting a numeric value to a channel type yields the value itself when representable, and otherwise the nearest end of the channel's range, for every source value and every supported pair of types. Each pixel type's black and white are the minimum and maximum of its channels (with full opacity where there is an alpha channel).",
  ["inputs"],
  "every supported (source type, channel type) pair and every source value, including infinities; every pixel type with black/white",
  "Tests cover a few pairs and values; each pair has its own implementation and boundary values.",
  ["src/definitions.rs"],
  [("per-type-pair conversion implementations", "src/definitions.rs")])

p("P11", "Built-in tables and kernels satisfy their defining relations",
  "Each built-in lookup table and kernel satisfies its definition at every entry: the uniform-pattern tables agree with the rotation and transition definitions for all 256 bytes, derivative kernels are mutual transposes and sum to zero, and declared sizes match their data.",
  ["inputs"],
  "every entry of every public or internal constant table",
  "Tests look at a few entries or results that do not depend on all of them.",
  ["src/local_binary_patterns.rs", "src/kernel.rs", "src/gradients.rs", "src/corners.rs", "src/binary_descriptors/constants.rs"],
  [("constant data", "files listed")])

p("P12", "Projections and their inverses stay in step",
  "Every way of obtaining a projective transformation (identity-free constructors, matrix, control points, inversion, composition) keeps the stored forward and backward mappings mutual inverses up to scale, composes in the documented order, and never classifies a transformation as simpler than it is, so the specialised fast paths agree with the general mapping.",
  ["inputs"],
  "every constructor and combinator, all parameters; every mapping class",
  "Round-trip tests sample some points and angles; a wrong class or a stale inverse shows only for some combinations.",
  ["src/geometric_transformations.rs"],
  [("paired construction of forward and backward matrices, class bookkeeping", "src/geometric_transformations.rs")],
  state=[("forward matrix / backward matrix / class", "a transformation value", "src/geometric_transformations.rs")])

p("P13", "Every function terminates",
  "No call of a library function runs forever: every loop is over a finite collection or range, or makes progress towards an exit on every iteration, for every input in every build configuration.",
  ["inputs", "configurations"],
  "every loop and recursion in the library; all inputs; wrapping arithmetic included",
  "A hanging input is an unusual one (e.g. filling with the colour already present, extreme coordinates); sampled tests end.",
  ["src/"],
  [("iterators over finite ranges; worklists with visited marks; strictly advancing counters", "all modules; src/drawing/fill.rs, src/drawing/line.rs, src/region_labelling.rs, src/contours.rs, src/union_find.rs")])

p("P14", "Behaviour does not depend on build configuration",
  "Turning debug assertions, overflow checks or optional features on or off does not change what a successful call computes: debug-only checks have no side effects, and a function present in several feature configurations performs the same computation in each.",
  ["configurations", "inputs"],
  "all combinations of threading feature and debug assertions; every function present in both",
  "The suite runs in exactly one configuration.",
  ["src/", "Cargo.toml"],
  [("feature switches limited to iterator choice; debug assertions over pure expressions", "src/geometric_transformations.rs, src/contrast.rs, src/template_matching.rs and others")])

p("P15", "Convenience operations are the documented compositions",
  "Each convenience operation equals its documented definition in terms of the general one with all arguments passed through unchanged: opening is dilation of the erosion, closing is erosion of the dilation, named directional gradients use the kernel of that name and orientation, named statistics, warps, thresholds and drawing wrappers forward to the general form.",
  ["inputs"],
  "every derived public operation, all inputs",
  "Symmetric test inputs cannot tell a swapped kernel, order or argument; many wrappers have no test of their own.",
  ["src/morphology.rs", "src/gradients.rs", "src/filter/", "src/geometric_transformations.rs", "src/hough.rs", "src/corners.rs", "src/drawing/"],
  [("delegation with fixed extra arguments", "files listed")])

p("P16", "Rearranging and mapping operations take each pixel from the right place",
  "Flips, replacing and overlaying at an offset, translation with border replication and the per-pixel, per-channel, per-position and two-image maps compute each output pixel from exactly the documented input pixels, for every size including zero and odd sizes and every offset, and leave all other pixels as they were.",
  ["inputs"],
  "flip_horizontal / flip_vertical / replace / overlay / translate and the map functions (map_pixels, map_enumerated_pixels, map_subpixels, map_pixels2, their in-place forms); all images, offsets and closures",
  "A test fixes one small image and offset; off-by-one errors at the middle column, at clipped borders, at large coordinates or for several channels need particular sizes.",
  ["src/compose.rs", "src/map.rs", "src/geometric_transformations.rs"],
  [("index arithmetic of the copy loops and row copies", "src/compose.rs, src/geometric_transformations.rs"),
   ("traversal and collection", "src/map.rs")])

p("P17", "Sums, scores and statistics are computed by their defining formulas",
  "Integral images, running sums and block sums, histograms and percentiles, error measures, template-matching scores and extremes, arc length and contour area, thresholds (adaptive, Otsu, the five fixed kinds), contrast stretching, weighted sums, rectangle intersection and Haar-like features are computed, operation by operation, as their defining formulas say, for every input: the same elements enter with the same signs and weights, the same comparisons (strict or not) decide, and ties and borders are resolved as documented.",
  ["inputs"],
  "the public functions named; all images, sizes, parameters",
  "Tests compare a few small examples with hand-computed values; a wrong sign, weight, bound or strictness that matters only for some channel, size, tie or extreme value is not sampled.",
  ["src/integral_image.rs", "src/stats.rs", "src/template_matching.rs", "src/geometry.rs", "src/contrast.rs", "src/pixelops.rs", "src/rect.rs", "src/haar.rs"],
  [("accumulation loops and closed formulas", "files listed")])

NA = []
p("P20", "Filters compute the documented weighted sums",
  "Linear, box, Gaussian, bilateral, median and sharpening filters return, at every pixel, the value given by their mathematical definition with border replication.",
  ["inputs"], "all images, kernels and parameters", "Sampled images only.",
  ["src/filter/"], [("accumulation loops", "src/filter/")])
p("P21", "Distance transforms are exact",
  "Distance transforms return at every pixel the exact distance to the nearest foreground pixel under the chosen metric.",
  ["inputs"], "all images", "Sampled images and sizes only.", ["src/distance_transform.rs"], [("two-pass propagation / lower envelope", "src/distance_transform.rs")])
p("P22", "Connected component labels partition the foreground",
  "Two foreground pixels receive the same label exactly when they are connected through equal pixels under the chosen connectivity.",
  ["inputs"], "all images", "Sampled images only.", ["src/region_labelling.rs", "src/union_find.rs"], [("union-find over neighbours", "src/region_labelling.rs")])
p("P23", "Geometry results are optimal and contain their inputs",
  "Convex hulls contain all input points, minimum-area rectangles are minimal, polygon approximations respect the tolerance, and contours trace region borders with the right nesting.",
  ["inputs"], "all point sets", "Sampled point sets only.", ["src/geometry.rs", "src/contours.rs"], [("Graham scan, rotating edges, border following", "src/geometry.rs, src/contours.rs")])
p("P24", "Scores, descriptors and detections equal their definitions",
  "Template matching scores, corner scores, gradient histograms, hashes, Hough peaks, structural statistics and thresholds equal the values given by their published definitions.",
  ["inputs"], "all images", "Sampled images only.", ["src/template_matching.rs", "src/corners.rs", "src/hog.rs", "src/image_hash/", "src/hough.rs", "src/stats.rs", "src/contrast.rs"], [("numeric accumulation", "files listed")])
p("P25", "Generated noise has the documented distribution",
  "Noise functions perturb pixels with the documented distribution, rate and parameters.",
  ["inputs"], "all seeds and parameters", "Statistical, sampled.", ["src/noise.rs"], [("sampling from distributions", "src/noise.rs")])
p("P26", "Seam removal removes a minimum-energy connected seam",
  "Each removed seam is connected and has minimal total energy among connected seams.",
  ["inputs"], "all images", "Sampled images only.", ["src/seam_carving.rs"], [("dynamic programming", "src/seam_carving.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
