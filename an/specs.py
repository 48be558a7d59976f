"""Specifications attached to entry points (see verdict.py).

* REJECT: an input condition the documentation (or an assertion with a message) rejects; the precondition is assumed and
  no feasible state may return normally (want "none"), or every returned value must be the error / nothing variant ("err").
* SIZES: the documented size of a returned image as a function of the arguments; proved at every return.
"""
from lin import L, V
from vals import I, Fl, En, St, Im, Ob, Rf, Sq, It
import entries


class E:
    """access to the arguments of an entry, by position"""

    def __init__(s, ip, st, avs):
        s.ip, s.st, s.avs = ip, st, avs

    def val(s, i):
        return s.ip.deref_all(s.st, s.avs[i])

    def w(s, i):
        return s.ip.dims(s.st, s.val(i))[0]

    def h(s, i):
        return s.ip.dims(s.st, s.val(i))[1]

    def i(s, i):
        return s.avs[i].l

    def fl(s, i):
        """float argument, assumed not to be NaN"""
        s.avs[i] = Fl(s.avs[i].l, frozenset(), s.avs[i].fin)
        return s.avs[i].l

    def len(s, i):
        return s.ip.len_of(s.st, s.val(i))

    def f(s, i, *names):
        """integer field of a struct argument, by name"""
        return s.fv(i, *names).l

    def fv(s, i, *names):
        from invariants import field_index
        v = s.val(i)
        for n in names:
            path = v.ty[1] if isinstance(v, Ob) else v.k[1]
            ix, t = field_index(s.ip, path, n)
            if isinstance(v, Ob):
                x = v.ov.get((0, ix))
                v = x if x is not None else s.ip.mk(s.st, t, s.ip.ovname(v.id, (0, ix)))
            else:
                v = v.v[ix]
            v = s.ip.deref_all(s.st, v)
        return v

    def flen(s, i, *names):
        return s.ip.len_of(s.st, s.fv(i, *names))

    def ch(s, fn, name):
        return s.ip.chan_px(("param", name))

    def variant(s, i, vi):
        """restrict an enum argument to one variant"""
        s.ip.assume_variant(s.st, s.avs[i], vi)


def bad(f):
    """precondition: every Lin of f(e) is >= 0"""
    def setup(ip, st, avs):
        e = E(ip, st, avs)
        for l in f(e):
            st.add(l)
    return setup


ERRV = {"core::option::Option": {0}, "core::result::Result": {1}}


def no_return(want):
    def post(ip, st, avs, rs):
        out = []
        for s, v in rs:
            if s.dead or s.infeasible():
                continue
            if want == "err" and isinstance(v, En) and set(v.alts) <= ERRV.get(v.p, set()):
                continue
            if want == "err" and isinstance(v, En) and all(a in ERRV.get(v.p, set()) or not ip.assume(s, v.g[a]) if a in v.g else a in ERRV.get(v.p, set()) for a in v.alts):
                continue
            out.append(["returns normally on an input that must be rejected", False, f"returned value {str(v)[:120]}"])
        return out or [["never returns normally", True, ""]]
    return post


def rejections():
    """(entry path suffix, label, precondition, want)"""
    R = []

    def r(entry, label, f, want="none"):
        R.append((entry, label, f, want))
    for c in ("crop", "crop_parallel"):
        r(f"compose::{c}", "rectangle wider than the image", lambda e: [e.f(1, "x") + e.f(1, "width") - e.w(0) - 1])
        r(f"compose::{c}", "rectangle higher than the image", lambda e: [e.f(1, "y") + e.f(1, "height") - e.h(0) - 1])
    for c in ("replace", "replace_mut", "overlay", "overlay_mut"):
        r(f"compose::{c}", "x outside of the bottom image", lambda e: [e.i(2) - e.w(0)])
        r(f"compose::{c}", "y outside of the bottom image", lambda e: [e.i(3) - e.h(0)])
    r("region_labelling::connected_components", "2^32 pixels or more", lambda e: [e.w(0) * e.h(0) - (1 << 32)])
    r("stats::percentile", "p > 100", lambda e: [e.i(1) - 101])
    r("stats::min_max", "image of width 0", lambda e: [-e.w(0)])
    r("stats::min_max", "image of height 0", lambda e: [-e.h(0)])
    K = "kernel::Kernel::<'a, K>::new"
    r(K, "width 0", lambda e: [-e.i(1)])
    r(K, "height 0", lambda e: [-e.i(2)])
    r(K, "too little data", lambda e: [e.i(1) * e.i(2) - e.len(0) - 1])
    r(K, "too much data", lambda e: [e.len(0) - e.i(1) * e.i(2) - 1])
    r("morphology::Mask::from_image", "width 512 or more", lambda e: [e.w(0) - 512])
    r("morphology::Mask::from_image", "height 512 or more", lambda e: [e.h(0) - 512])
    for c in ("match_template", "match_template_parallel", "match_template_with_mask", "match_template_with_mask_parallel"):
        r(f"template_matching::{c}", "template wider than the image", lambda e: [e.w(1) - e.w(0) - 1])
        r(f"template_matching::{c}", "template higher than the image", lambda e: [e.h(1) - e.h(0) - 1])
        if "mask" in c:
            r(f"template_matching::{c}", "mask wider than the template", lambda e: [e.w(3) - e.w(1) - 1])
            r(f"template_matching::{c}", "mask narrower than the template", lambda e: [e.w(1) - e.w(3) - 1])
            r(f"template_matching::{c}", "mask higher than the template", lambda e: [e.h(3) - e.h(1) - 1])
            r(f"template_matching::{c}", "mask lower than the template", lambda e: [e.h(1) - e.h(3) - 1])
    for c in ("stretch_contrast", "stretch_contrast_mut"):
        r(f"contrast::{c}", "input_lower >= input_upper", lambda e: [e.i(1) - e.i(2)])
        r(f"contrast::{c}", "output_lower > output_upper", lambda e: [e.i(3) - e.i(4) - 1])
    r("contrast::adaptive_threshold", "block radius 0", lambda e: [-e.i(1)])
    for a, b in ((0, 1), (1, 0)):
        r("map::map_pixels2", f"image{b + 1} wider", lambda e, a=a, b=b: [e.w(b) - e.w(a) - 1])
        r("map::map_pixels2", f"image{b + 1} higher", lambda e, a=a, b=b: [e.h(b) - e.h(a) - 1])
    r("integral_image::row_running_sum", "buffer too short", lambda e: [e.w(0) + e.i(3) * 2 - e.len(2) - 1])
    r("integral_image::row_running_sum", "row outside of the image", lambda e: [e.i(1) - e.h(0)])
    r("integral_image::row_running_sum", "image of width 0", lambda e: [-e.w(0)])
    r("integral_image::column_running_sum", "buffer too short", lambda e: [e.h(0) + e.i(3) * 2 - e.len(2) - 1])
    r("integral_image::column_running_sum", "column outside of the image", lambda e: [e.i(1) - e.w(0)])
    r("integral_image::column_running_sum", "image of height 0", lambda e: [-e.h(0)])
    r("filter::bilateral::bilateral_filter", "image of width 0", lambda e: [-e.w(0)])
    r("filter::bilateral::bilateral_filter", "image of height 0", lambda e: [-e.h(0)])
    for c in ("filter", "filter_parallel"):
        r(f"filter::{c}", "input has more channels than output", lambda e: [e.ch(0, "P") - e.ch(0, "Q") - 1])
        r(f"filter::{c}", "input has fewer channels than output", lambda e: [e.ch(0, "Q") - e.ch(0, "P") - 1])
    r("filter::gaussian_blur_f32", "negative sigma", lambda e: [e.fl(1).scale(-TINY) - 1])
    r("filter::separable_filter", "horizontal kernel longer", lambda e: [e.len(1) - e.len(2) - 1])
    r("filter::separable_filter", "vertical kernel longer", lambda e: [e.len(2) - e.len(1) - 1])
    r("filter::median::median_filter", "width + x_radius exceeds i32::MAX", lambda e: [e.w(0) + e.i(1) - (1 << 31), e.w(0) - 1, e.h(0) - 1])
    r("filter::median::median_filter", "height + y_radius exceeds i32::MAX", lambda e: [e.h(0) + e.i(2) - (1 << 31), e.w(0) - 1, e.h(0) - 1])
    r("edges::canny", "high threshold below the low one", lambda e: [e.fl(1) - e.fl(2) - 1])
    for c in ("BresenhamLinePixelIter::<'_, P>", "BresenhamLinePixelIterMut::<'_, P>"):
        r(f"drawing::line::{c}::new", "image of width 0", lambda e: [-e.w(0)])
        r(f"drawing::line::{c}::new", "image of height 0", lambda e: [-e.h(0)])
    H = "<binary_descriptors::brief::BriefDescriptor as binary_descriptors::BinaryDescriptor>::"
    r(H + "hamming_distance", "first descriptor longer", lambda e: [e.flen(0, "bits") - e.flen(1, "bits") - 1, L(1 << 24) - e.flen(0, "bits")])
    r(H + "hamming_distance", "second descriptor longer", lambda e: [e.flen(1, "bits") - e.flen(0, "bits") - 1, L(1 << 24) - e.flen(1, "bits")])
    r(H + "get_bit_subset", "more than 128 bits", lambda e: [e.len(1) - 129])
    r("binary_descriptors::brief::brief_impl", "length does not match the test pairs", lambda e: [e.i(3) - e.len(2) - 1], "err")
    r("binary_descriptors::brief::brief_impl", "more test pairs than the length", lambda e: [e.len(2) - e.i(3) - 1], "err")
    r("binary_descriptors::brief::brief_impl", "length 1 above a multiple of 128", lambda e: eqs(e.i(3), 128 * 3 + 1), "err")
    r("binary_descriptors::brief::brief_impl", "length 1 below a multiple of 128", lambda e: eqs(e.i(3), 128 * 2 - 1), "err")
    r("binary_descriptors::brief::brief_impl", "length half of 128", lambda e: eqs(e.i(3), 64), "err")
    O = "hog::HogSpec::from_options"
    r(O, "zero orientations", lambda e: [-e.f(2, "orientations")], "err")
    r(O, "cell side 0", lambda e: [-e.f(2, "cell_side")], "err")
    r(O, "block stride 0", lambda e: [-e.f(2, "block_stride")], "err")
    r(O, "cell side does not divide the width", lambda e: eqs(e.f(2, "cell_side"), 8) + eqs(e.i(0), 41), "err")
    r(O, "cell side does not divide the height", lambda e: eqs(e.f(2, "cell_side"), 8) + eqs(e.i(1), 47), "err")
    r(O, "cell side larger than the width", lambda e: [e.i(0) - 1, e.f(2, "cell_side") - e.i(0) - 1], "err")
    r(O, "cell side larger than the height", lambda e: [e.i(1) - 1, e.f(2, "cell_side") - e.i(1) - 1], "err")
    r(O, "block side larger than the grid is wide", lambda e: eqs(e.f(2, "cell_side"), 5) + eqs(e.i(0), 40) + [e.f(2, "block_side") - 9], "err")
    r(O, "block side larger than the grid is high", lambda e: eqs(e.f(2, "cell_side"), 5) + eqs(e.i(1), 40) + [e.f(2, "block_side") - 9], "err")
    r(O, "stride does not cover the grid horizontally", lambda e: eqs(e.f(2, "cell_side"), 5) + eqs(e.i(0), 50) + eqs(e.f(2, "block_side"), 3) + eqs(e.f(2, "block_stride"), 2), "err")
    r(O, "stride does not cover the grid vertically", lambda e: eqs(e.f(2, "cell_side"), 5) + eqs(e.i(1), 50) + eqs(e.f(2, "block_side"), 3) + eqs(e.f(2, "block_stride"), 2), "err")
    r("seam_carving::shrink_width", "target wider than the image", lambda e: [e.i(1) - e.w(0) - 1])
    r("seam_carving::find_vertical_seam", "width below 2", lambda e: [L(1) - e.w(0)])
    r("seam_carving::remove_vertical_seam", "seam shorter than the image is high", lambda e: [e.h(0) - e.flen(1, "0") - 1])
    r("seam_carving::remove_vertical_seam", "seam longer than the image is high", lambda e: [e.flen(1, "0") - e.h(0) - 1, L((1 << 32) - 1) - e.flen(1, "0")])
    r("geometry::approximate_polygon_dp", "negative epsilon", lambda e: [e.fl(1).scale(-TINY) - 1])
    r("geometry::min_area_rect", "no points", lambda e: [-e.len(0)])
    r("template_matching::find_extremes", "image of width 0", lambda e: [-e.w(0)])
    r("template_matching::find_extremes", "image of height 0", lambda e: [-e.h(0)])
    for c in ("draw_hollow_polygon_mut", "draw_hollow_polygon"):
        r(f"drawing::polygon::{c}", "a single point", lambda e: eqs(e.len(1), 1))
    U = "union_find::DisjointSetForest::"
    for c in ("root", "find", "union"):
        r(U + c, "first element outside of the forest", lambda e: [e.i(1) - e.f(0, "count")])
        if c != "root":
            r(U + c, "second element outside of the forest", lambda e: [e.i(2) - e.f(0, "count")])
    r("rect::RectPosition::of_size", "width 0", lambda e: [-e.i(1)])
    r("rect::RectPosition::of_size", "height 0", lambda e: [-e.i(2)])
    X = "rect::Rect::intersect"
    for c, d in (("left", "width"), ("top", "height")):
        for a, b in ((0, 1), (1, 0)):
            r(X, f"rectangle {b + 1} beyond the far {d} of rectangle {a + 1}", lambda e, a=a, b=b, c=c, d=d:
              [e.f(b, c) - e.f(a, c) - e.f(a, d)] + small(e, (a, b)), "err")
    B = "local_binary_patterns::local_binary_pattern"
    r(B, "x = 0", lambda e: [-e.i(1)], "err")
    r(B, "y = 0", lambda e: [-e.i(2)], "err")
    r(B, "x in the last column", lambda e: [e.i(1) - e.w(0) + 1], "err")
    r(B, "y in the last row", lambda e: [e.i(2) - e.h(0) + 1], "err")
    A = "haar::HaarFeature::evaluate"
    r(A, "feature reaches beyond the integral image on the right", lambda e: [e.f(0, "left") + e.f(0, "block_size", "width") - e.w(1)])
    r(A, "feature reaches beyond the integral image at the bottom", lambda e: [e.f(0, "top") + e.f(0, "block_size", "height") - e.h(1)])
    return R


TINY = 1 << 30      # floats are compared non-strictly: negative means at most -1 / TINY


def eqs(l, n):
    return [l - n, L(n) - l]


def small(e, ixs):
    """rectangles whose far sides are representable"""
    r = []
    for i in ixs:
        for c, d in (("left", "width"), ("top", "height")):
            r += [L((1 << 31) - 1) - e.f(i, c) - e.f(i, d)]
    return r


# ---------------------------------------------------------------- output sizes
def sized(w, h):
    return w, h


SAME = lambda e: (e.w(0), e.h(0))
SIZES = {
    "utils::gray_bench_image": lambda e: (e.i(0), e.i(1)),
    "utils::luma32f_bench_image": lambda e: (e.i(0), e.i(1)),
    "utils::rgb_bench_image": lambda e: (e.i(0), e.i(1)),
    "compose::crop": lambda e: (e.f(1, "width"), e.f(1, "height")),
    "compose::crop_parallel": lambda e: (e.f(1, "width"), e.f(1, "height")),
    "geometric_transformations::rotate90": lambda e: (e.h(0), e.w(0)),
    "geometric_transformations::rotate270": lambda e: (e.h(0), e.w(0)),
    "integral_image::integral_image": lambda e: (e.w(0) + 1, e.h(0) + 1),
    "integral_image::integral_squared_image": lambda e: (e.w(0) + 1, e.h(0) + 1),
    "seam_carving::shrink_width": lambda e: (e.i(1), e.h(0)),
    "seam_carving::remove_vertical_seam": lambda e: (e.w(0) - 1, e.h(0), [e.w(0) - 1]),     # for an image of width 1 or more
    "hog::render_hist_grid": None,      # star_side times the grid, stored in a slice: not expressible here
}
for _c in ("match_template", "match_template_parallel", "match_template_with_mask", "match_template_with_mask_parallel"):
    SIZES["template_matching::" + _c] = lambda e: (e.w(0) - e.w(1) + 1, e.h(0) - e.h(1) + 1)


def is_img(rt):
    return rt[0] == "adt" and rt[1].endswith("ImageBuffer")


def default_post(ip, st, avs, rs, p):
    """documented output sizes, and unchanged sizes of images passed by &mut"""
    prog = ip.prog
    fn = prog.fns[p]
    out = []
    short = p.replace("imageproc::", "", 1)
    e = E(ip, st, avs)
    rt = prog.rt(fn.locals[0][0], None)
    want = None
    if is_img(rt) and SIZES.get(short, SAME) is not None:
        want = SIZES.get(short, SAME)(e)
    muts = []
    for i, a in enumerate(avs):
        t = prog.rt(fn.locals[i + 1][0], None)
        if t[0] == "ref" and t[1] and is_img(t[2]):
            d = ip.dims(st, ip.deref_all(st, a))
            if d is not None:
                muts.append((i, a, d))
    for s, v in rs:
        if s.dead:
            continue
        checks = []
        if want is not None:
            x = ip.deref_all(s, v)
            checks.append(("returned image has the documented size", want, ip.dims(s, x) if isinstance(x, (Im, Ob)) else None))
        for i, a, d in muts:
            x = ip.deref_all(s, a)
            checks.append((f"image argument {i} keeps its size", d, ip.dims(s, x) if isinstance(x, (Im, Ob)) else None))
        for label, w, g in checks:
            t = s
            if len(w) > 2:
                t = s.copy()
                for l in w[2]:
                    t.add(l)
            ok = g is not None and all(t.prove(x - y) and t.prove(y - x) for x, y in zip(w, g))
            if not ok and t.infeasible():
                continue
            out.append([label, ok, f"expected {w[0]} x {w[1]}, got " + (f"{g[0]} x {g[1]}" if g else "an image of unknown size")])
    return out


# Functions too large to analyse with everything inlined: the listed callees (analysed on their own, for every argument) are
# replaced by "returns anything, stores anything through &mut, calls closures with anything".
INTERP = ["geometric_transformations::interpolate_" + x for x in ("nearest", "bilinear", "bicubic")]
LINE = ["drawing::line::draw_line_segment_mut"]
MODULAR = {
    "binary_descriptors::brief::brief": ["binary_descriptors::brief::brief_impl", "integral_image::integral_image"],
    "binary_descriptors::brief::brief_impl": ["binary_descriptors::brief::local_pixel_average"],
    "contours::find_contours": ["contours::find_contours_with_threshold"],
    "corners::oriented_fast": ["corners::corners_fast9", "corners::corners_fast12", "corners::intensity_centroid", "corners::fast_corner_score"],
    "distance_transform::distance_transform": ["distance_transform::distance_transform_mut"],
    "drawing::bezier::draw_cubic_bezier_curve": LINE,
    "drawing::bezier::draw_cubic_bezier_curve_mut": LINE,
    "drawing::conics::draw_hollow_ellipse": ["drawing::conics::draw_hollow_ellipse_mut"],
    "drawing::conics::draw_hollow_circle": ["drawing::conics::draw_hollow_circle_mut"],
    "drawing::conics::draw_filled_ellipse": ["drawing::conics::draw_filled_ellipse_mut"],
    "drawing::conics::draw_filled_circle": ["drawing::conics::draw_filled_circle_mut"],
    "drawing::conics::draw_filled_ellipse_mut": ["drawing::conics::draw_filled_circle_mut"] + LINE,
    "drawing::conics::draw_filled_circle_mut": LINE,
    "drawing::polygon::draw_hollow_polygon": LINE,
    "drawing::polygon::draw_hollow_polygon_mut": LINE,
    "drawing::polygon::draw_polygon": LINE,
    "drawing::polygon::draw_polygon_mut": LINE,
    "drawing::polygon::draw_antialiased_polygon": ["drawing::line::draw_antialiased_line_segment_mut"],
    "drawing::polygon::draw_antialiased_polygon_mut": ["drawing::line::draw_antialiased_line_segment_mut"],
    "drawing::rect::draw_hollow_rect": LINE,
    "drawing::rect::draw_hollow_rect_mut": LINE,
    "edges::canny": ["filter::gaussian_blur_f32", "gradients::horizontal_sobel", "gradients::vertical_sobel"],
    "filter::gaussian_blur_f32": [],
    "filter::sharpen::sharpen_gaussian": ["filter::gaussian_blur_f32"],
    "geometric_transformations::rotate": ["geometric_transformations::warp_into"],
    "geometric_transformations::rotate_about_center": ["geometric_transformations::rotate"],
    "geometric_transformations::warp": ["geometric_transformations::warp_into"],
    "geometric_transformations::warp_into": INTERP,
    "geometric_transformations::warp_with": ["geometric_transformations::warp_into_with"],
    "geometric_transformations::warp_into_with": INTERP,
    "geometry::min_area_rect": ["geometry::convex_hull"],
    "hog::hog": ["hog::cell_histograms", "hog::HogSpec::from_options", "hog::hog_descriptor_from_hist_grid"],
    "hog::cell_histograms": ["gradients::horizontal_sobel", "gradients::vertical_sobel"],
    "hough::detect_lines": ["suppress::suppress_non_maximum"],
    "hough::draw_polar_lines": LINE,
    "hough::draw_polar_lines_mut": LINE,
    "morphology::open": ["morphology::dilate_mut", "morphology::erode_mut"],
    "morphology::open_mut": ["morphology::dilate_mut", "morphology::erode_mut"],
    "morphology::close": ["morphology::dilate_mut", "morphology::erode_mut"],
    "morphology::close_mut": ["morphology::dilate_mut", "morphology::erode_mut"],
    "morphology::dilate": ["morphology::dilate_mut"],
    "morphology::erode": ["morphology::erode_mut"],
    "morphology::dilate_mut": ["distance_transform::distance_transform_mut"],
    "morphology::erode_mut": ["distance_transform::distance_transform_mut"],
    "morphology::grayscale_open": ["morphology::grayscale_dilate", "morphology::grayscale_erode"],
    "morphology::grayscale_close": ["morphology::grayscale_dilate", "morphology::grayscale_erode"],
    "haar::draw_haar_feature": LINE,
}


# Preconditions of private functions that are analysed on their own: assumed there, obligations at their calls.
REQUIRES = {
    "binary_descriptors::brief::local_pixel_average": lambda e: [e.w(0) - 1, e.h(0) - 1, e.w(0) - 1 + e.i(3) - e.i(1), e.h(0) - 1 + e.i(3) - e.i(2), L(1 << 31) - e.i(1) - e.i(3), L(1 << 31) - e.i(2) - e.i(3)],
}


def opaque(names):
    def setup(ip, st, avs):
        ip.opaque = frozenset("imageproc::" + n for n in names)
    return setup


def build(prog):
    r = {}
    for entry, names in MODULAR.items():
        p = "imageproc::" + entry
        r[(p, "modular")] = dict(setup=opaque(names), post=lambda ip, st, avs, rs, p=p: default_post(ip, st, avs, rs, p), mode="release", tier="full")
    for entry, f in REQUIRES.items():
        p = "imageproc::" + entry
        r[(p, "modular")] = dict(setup=bad(f), post=lambda ip, st, avs, rs: [], mode="release", tier="full")
    for entry, label, f, want in rejections():
        p = "imageproc::" + entry
        if entry.startswith("<"):
            p = "imageproc::" + entry
        r[(p, "rejects: " + label)] = dict(setup=bad(f), post=no_return(want), mode="release", tier="full")
    return r
