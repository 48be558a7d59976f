//! Reference definitions for P15: each function restates what the documentation of its target (named in the line above it) says in
//! terms of the crate's general operations. This file is compiled as one more module of a copy of the current tree; nothing here
//! is ever run: an/checks/p15.py compares the type-checked bodies.
#![allow(missing_docs, clippy::all, unused)]

use crate::compose::*;
use crate::contours::*;
use crate::contrast::*;
use crate::definitions::*;
use crate::distance_transform::*;
use crate::drawing::*;
use crate::filter::*;
use crate::geometric_transformations as gt;
use crate::geometric_transformations::{Interpolation, Projection};
use crate::geometry::*;
use crate::gradients::*;
use crate::hog::*;
use crate::hough::*;
use crate::integral_image::*;
use crate::kernel::{self, Kernel};
use crate::map::*;
use crate::morphology::*;
use crate::pixelops::*;
use crate::point::*;
use crate::rect::Rect;
use crate::stats::*;
use crate::template_matching::*;
use crate::union_find::DisjointSetForest;
use image::math::Rect as ImRect;
use image::*;
use num::{Bounded, Num, NumCast, Signed, Zero};
use std::ops::AddAssign;

// ---------------------------------------------------------------- morphology
//@ morphology::open_mut | opening is an erosion followed by a dilation
pub fn open_mut(image: &mut GrayImage, norm: Norm, k: u8) {
    erode_mut(image, norm, k);
    dilate_mut(image, norm, k);
}
//@ morphology::close_mut | closing is a dilation followed by an erosion
pub fn close_mut(image: &mut GrayImage, norm: Norm, k: u8) {
    dilate_mut(image, norm, k);
    erode_mut(image, norm, k);
}
//@ morphology::open | opening is the dilation of the erosion
pub fn open(image: &GrayImage, norm: Norm, k: u8) -> GrayImage {
    let mut out = image.clone();
    erode_mut(&mut out, norm, k);
    dilate_mut(&mut out, norm, k);
    out
}
//@ morphology::close | closing is the erosion of the dilation
pub fn close(image: &GrayImage, norm: Norm, k: u8) -> GrayImage {
    let mut out = image.clone();
    dilate_mut(&mut out, norm, k);
    erode_mut(&mut out, norm, k);
    out
}
//@ morphology::dilate_mut | pixels within distance k of the foreground become white, the others black
pub fn dilate_mut_(image: &mut GrayImage, norm: Norm, k: u8) {
    distance_transform_mut(image, norm);
    for p in image.iter_mut() {
        *p = if *p <= k { 255 } else { 0 };
    }
}
//@ morphology::erode_mut | pixels within distance k of the background become black, the others white
pub fn erode_mut_(image: &mut GrayImage, norm: Norm, k: u8) {
    crate::distance_transform::distance_transform_impl(image, norm, crate::distance_transform::DistanceFrom::Background);
    for p in image.iter_mut() {
        *p = if *p <= k { 0 } else { 255 };
    }
}
//@ morphology::grayscale_open | opening is the dilation of the erosion, with the same mask
pub fn grayscale_open(image: &GrayImage, mask: &Mask) -> GrayImage {
    grayscale_dilate(&grayscale_erode(image, mask), mask)
}
//@ morphology::grayscale_close | closing is the erosion of the dilation, with the same mask
pub fn grayscale_close(image: &GrayImage, mask: &Mask) -> GrayImage {
    grayscale_erode(&grayscale_dilate(image, mask), mask)
}
//@ distance_transform::distance_transform_mut | distances to the foreground
pub fn distance_transform_mut_(image: &mut GrayImage, norm: Norm) {
    crate::distance_transform::distance_transform_impl(image, norm, crate::distance_transform::DistanceFrom::Foreground);
}

// ---------------------------------------------------------------- gradients
//@ gradients::horizontal_sobel | correlation with the horizontal Sobel kernel
pub fn horizontal_sobel(image: &GrayImage) -> Image<Luma<i16>> {
    const K: Kernel<'static, i32> = Kernel::new(&[-1, 0, 1, -2, 0, 2, -1, 0, 1], 3, 3);
    filter_clamped(image, K)
}
//@ gradients::vertical_sobel | correlation with the vertical Sobel kernel
pub fn vertical_sobel(image: &GrayImage) -> Image<Luma<i16>> {
    const K: Kernel<'static, i32> = Kernel::new(&[-1, -2, -1, 0, 0, 0, 1, 2, 1], 3, 3);
    filter_clamped(image, K)
}
//@ gradients::horizontal_scharr | correlation with the horizontal Scharr kernel
pub fn horizontal_scharr(image: &GrayImage) -> Image<Luma<i16>> {
    const K: Kernel<'static, i32> = Kernel::new(&[-3, 0, 3, -10, 0, 10, -3, 0, 3], 3, 3);
    filter_clamped(image, K)
}
//@ gradients::vertical_scharr | correlation with the vertical Scharr kernel
pub fn vertical_scharr(image: &GrayImage) -> Image<Luma<i16>> {
    const K: Kernel<'static, i32> = Kernel::new(&[-3, -10, -3, 0, 0, 0, 3, 10, 3], 3, 3);
    filter_clamped(image, K)
}
//@ gradients::horizontal_prewitt | correlation with the horizontal Prewitt kernel
pub fn horizontal_prewitt(image: &GrayImage) -> Image<Luma<i16>> {
    const K: Kernel<'static, i32> = Kernel::new(&[-1, 0, 1, -1, 0, 1, -1, 0, 1], 3, 3);
    filter_clamped(image, K)
}
//@ gradients::vertical_prewitt | correlation with the vertical Prewitt kernel
pub fn vertical_prewitt(image: &GrayImage) -> Image<Luma<i16>> {
    const K: Kernel<'static, i32> = Kernel::new(&[-1, -1, -1, 0, 0, 0, 1, 1, 1], 3, 3);
    filter_clamped(image, K)
}
//@ gradients::gradients_grayscale | gradients without a pixel map
pub fn gradients_grayscale_(image: &GrayImage, horizontal_kernel: Kernel<i32>, vertical_kernel: Kernel<i32>) -> Image<Luma<u16>> {
    gradients(image, horizontal_kernel, vertical_kernel, |p| p)
}
//@ gradients::sobel_gradients | gradients with the two Sobel kernels
pub fn sobel_gradients(image: &GrayImage) -> Image<Luma<u16>> {
    const H: Kernel<'static, i32> = Kernel::new(&[-1, 0, 1, -2, 0, 2, -1, 0, 1], 3, 3);
    const V: Kernel<'static, i32> = Kernel::new(&[-1, -2, -1, 0, 0, 0, 1, 2, 1], 3, 3);
    gradients(image, H, V, |p| p)
}
//@ gradients::prewitt_gradients | gradients with the two Prewitt kernels
pub fn prewitt_gradients(image: &GrayImage) -> Image<Luma<u16>> {
    const H: Kernel<'static, i32> = Kernel::new(&[-1, 0, 1, -1, 0, 1, -1, 0, 1], 3, 3);
    const V: Kernel<'static, i32> = Kernel::new(&[-1, -1, -1, 0, 0, 0, 1, 1, 1], 3, 3);
    gradients(image, H, V, |p| p)
}
//@ gradients::sobel_gradient_map | gradients with the two Sobel kernels, mapped by f
pub fn sobel_gradient_map<P, F, Q>(image: &Image<P>, f: F) -> Image<Q>
where
    P: Pixel<Subpixel = u8> + WithChannel<u16> + WithChannel<i16>,
    Q: Pixel,
    ChannelMap<P, u16>: HasBlack,
    F: Fn(ChannelMap<P, u16>) -> Q,
{
    const H: Kernel<'static, i32> = Kernel::new(&[-1, 0, 1, -2, 0, 2, -1, 0, 1], 3, 3);
    const V: Kernel<'static, i32> = Kernel::new(&[-1, -2, -1, 0, 0, 0, 1, 2, 1], 3, 3);
    gradients(image, H, V, f)
}

// ---------------------------------------------------------------- filters
//@ filter::separable_filter | horizontal correlation followed by vertical correlation
pub fn separable_filter_<P, K>(image: &Image<P>, h_kernel: &[K], v_kernel: &[K]) -> Image<P>
where
    P: Pixel,
    <P as Pixel>::Subpixel: Into<K> + Clamp<K>,
    K: Num + Copy,
{
    assert_eq!(h_kernel.len(), v_kernel.len(), "");
    let h = horizontal_filter(image, h_kernel);
    vertical_filter(&h, v_kernel)
}
//@ filter::separable_filter_equal | the separable filter with the kernel in both directions
pub fn separable_filter_equal_<P, K>(image: &Image<P>, kernel: &[K]) -> Image<P>
where
    P: Pixel,
    <P as Pixel>::Subpixel: Into<K> + Clamp<K>,
    K: Num + Copy,
{
    let h = horizontal_filter(image, kernel);
    vertical_filter(&h, kernel)
}
//@ filter::filter_clamped | the general filter, with results clamped to the channel type
pub fn filter_clamped_<P, K, S>(image: &Image<P>, kernel: Kernel<K>) -> Image<ChannelMap<P, S>>
where
    P: WithChannel<S>,
    P::Subpixel: Into<K>,
    K: Num + Copy + From<<P as image::Pixel>::Subpixel>,
    S: Clamp<K> + Primitive,
{
    filter(image, kernel, S::clamp)
}
//@ filter::filter_clamped_parallel | the general multi-threaded filter, with results clamped to the channel type
pub fn filter_clamped_parallel_<P, K, S>(image: &Image<P>, kernel: Kernel<K>) -> Image<ChannelMap<P, S>>
where
    P: Sync + WithChannel<S>,
    P::Subpixel: Into<K> + Sync,
    <P as WithChannel<S>>::Pixel: Send,
    K: Num + Copy + From<<P as image::Pixel>::Subpixel> + Sync,
    S: Clamp<K> + Primitive + Send,
{
    filter_parallel(image, kernel, S::clamp)
}
//@ filter::laplacian_filter | correlation with the 4-connectivity Laplacian kernel
pub fn laplacian_filter_(image: &GrayImage) -> Image<Luma<i16>> {
    const K: Kernel<'static, i16> = Kernel::new(&[0, 1, 0, 1, -4, 1, 0, 1, 0], 3, 3);
    filter_clamped(image, K)
}
//@ filter::laplacian_filter_parallel | multi-threaded correlation with the 4-connectivity Laplacian kernel
pub fn laplacian_filter_parallel_(image: &GrayImage) -> Image<Luma<i16>> {
    const K: Kernel<'static, i16> = Kernel::new(&[0, 1, 0, 1, -4, 1, 0, 1, 0], 3, 3);
    filter_clamped_parallel(image, K)
}
//@ filter::sharpen::sharpen3x3 | correlation with the kernel identity minus Laplacian
pub fn sharpen3x3_(image: &GrayImage) -> GrayImage {
    let k = Kernel::new(&[0, -1, 0, -1, 5, -1, 0, -1, 0], 3, 3);
    filter_clamped(image, k)
}
//@ filter::sharpen::sharpen3x3_parallel | multi-threaded correlation with the kernel identity minus Laplacian
pub fn sharpen3x3_parallel_(image: &GrayImage) -> GrayImage {
    let k = Kernel::new(&[0, -1, 0, -1, 5, -1, 0, -1, 0], 3, 3);
    filter_clamped_parallel(image, k)
}
//@ filter::sharpen::sharpen_gaussian | (1 + amount) * image - amount * blurred, clamped
pub fn sharpen_gaussian_(image: &GrayImage, sigma: f32, amount: f32) -> GrayImage {
    let image = map_subpixels(image, |x| x as f32);
    let smooth: Image<Luma<f32>> = gaussian_blur_f32(&image, sigma);
    map_pixels2(&image, &smooth, |p: Luma<f32>, q: Luma<f32>| {
        let v = (1.0 + amount) * p[0] - amount * q[0];
        Luma([<u8 as Clamp<f32>>::clamp(v)])
    })
}

// ---------------------------------------------------------------- geometric transformations
//@ geometric_transformations::rotate_about_center | rotation about the middle of the image
pub fn rotate_about_center<P>(image: &Image<P>, theta: f32, interpolation: Interpolation, default: P) -> Image<P>
where
    P: Pixel + Send + Sync,
    <P as Pixel>::Subpixel: Send + Sync,
    <P as Pixel>::Subpixel: Into<f32> + Clamp<f32>,
{
    let (w, h) = image.dimensions();
    gt::rotate(image, (w as f32 / 2.0, h as f32 / 2.0), theta, interpolation, default)
}
//@ geometric_transformations::rotate | the warp by translate(c) * rotate(theta) * translate(-c)
pub fn rotate<P>(image: &Image<P>, center: (f32, f32), theta: f32, interpolation: Interpolation, default: P) -> Image<P>
where
    P: Pixel + Send + Sync,
    <P as Pixel>::Subpixel: Send + Sync,
    <P as Pixel>::Subpixel: Into<f32> + Clamp<f32>,
{
    let (cx, cy) = center;
    let projection = Projection::translate(cx, cy) * Projection::rotate(theta) * Projection::translate(-cx, -cy);
    gt::warp(image, &projection, interpolation, default)
}
//@ geometric_transformations::warp | warp_into a new image of the same size
pub fn warp<P>(image: &Image<P>, projection: &Projection, interpolation: Interpolation, default: P) -> Image<P>
where
    P: Pixel + Send + Sync,
    <P as Pixel>::Subpixel: Send + Sync,
    <P as Pixel>::Subpixel: Into<f32> + Clamp<f32>,
{
    let (width, height) = image.dimensions();
    let mut out = Image::new(width, height);
    gt::warp_into(image, projection, interpolation, default, &mut out);
    out
}
//@ geometric_transformations::warp_with | warp_into_with a new image of the same size
pub fn warp_with<P, F>(image: &Image<P>, mapping: F, interpolation: Interpolation, default: P) -> Image<P>
where
    F: Fn(f32, f32) -> (f32, f32) + Sync + Send,
    P: Pixel + Send + Sync,
    <P as Pixel>::Subpixel: Send + Sync,
    <P as Pixel>::Subpixel: Into<f32> + Clamp<f32>,
{
    let (width, height) = image.dimensions();
    let mut out = Image::new(width, height);
    gt::warp_into_with(image, mapping, interpolation, default, &mut out);
    out
}
//@ geometric_transformations::Projection::and_then | apply self first, then other
pub fn and_then(this: Projection, other: Projection) -> Projection {
    other * this
}

// ---------------------------------------------------------------- contours, geometry, contrast, corners, hough
//@ contours::find_contours | contours of the pixels above 0
pub fn find_contours_<T>(image: &GrayImage) -> Vec<Contour<T>>
where
    T: Num + NumCast + Copy + PartialEq + Eq,
{
    find_contours_with_threshold(image, 0)
}
//@ geometry::contour_area | the absolute value of the oriented area
pub fn contour_area_<T>(points: &[Point<T>]) -> f64
where
    T: NumCast + Copy,
{
    oriented_contour_area(points).abs()
}
//@ contrast::threshold | threshold_mut on a copy
pub fn threshold_(image: &GrayImage, threshold: u8, threshold_type: ThresholdType) -> GrayImage {
    let mut out = image.clone();
    threshold_mut(&mut out, threshold, threshold_type);
    out
}

// ---------------------------------------------------------------- drawing
//@ drawing::rect::draw_hollow_rect_mut | the four sides of the rectangle
pub fn draw_hollow_rect_mut_<C>(canvas: &mut C, rect: Rect, color: C::Pixel)
where
    C: Canvas,
{
    let left = rect.left() as f32;
    let right = rect.right() as f32;
    let top = rect.top() as f32;
    let bottom = rect.bottom() as f32;
    draw_line_segment_mut(canvas, (left, top), (right, top), color);
    draw_line_segment_mut(canvas, (left, bottom), (right, bottom), color);
    draw_line_segment_mut(canvas, (left, top), (left, bottom), color);
    draw_line_segment_mut(canvas, (right, top), (right, bottom), color);
}
// ---------------------------------------------------------------- channels, pixels, points, rectangles
//@ map::into_red_channel | the red channel
pub fn into_red_channel_<C>(image: &Image<Rgb<C>>) -> Image<Luma<C>>
where
    Rgb<C>: Pixel<Subpixel = C>,
    C: Primitive,
{
    map_pixels(image, |p| Luma([p[0]]))
}
//@ map::into_green_channel | the green channel
pub fn into_green_channel_<C>(image: &Image<Rgb<C>>) -> Image<Luma<C>>
where
    Rgb<C>: Pixel<Subpixel = C>,
    C: Primitive,
{
    map_pixels(image, |p| Luma([p[1]]))
}
//@ map::into_blue_channel | the blue channel
pub fn into_blue_channel_<C>(image: &Image<Rgb<C>>) -> Image<Luma<C>>
where
    Rgb<C>: Pixel<Subpixel = C>,
    C: Primitive,
{
    map_pixels(image, |p| Luma([p[2]]))
}
//@ map::from_red_channel | the channel as red, the others zero
pub fn from_red_channel_<C>(image: &Image<Luma<C>>) -> Image<Rgb<C>>
where
    Rgb<C>: Pixel<Subpixel = C>,
    C: Primitive,
{
    map_pixels(image, |p| Rgb([p.0[0], C::zero(), C::zero()]))
}
//@ map::from_green_channel | the channel as green, the others zero
pub fn from_green_channel_<C>(image: &Image<Luma<C>>) -> Image<Rgb<C>>
where
    Rgb<C>: Pixel<Subpixel = C>,
    C: Primitive,
{
    map_pixels(image, |p| Rgb([C::zero(), p.0[0], C::zero()]))
}
//@ map::from_blue_channel | the channel as blue, the others zero
pub fn from_blue_channel_<C>(image: &Image<Luma<C>>) -> Image<Rgb<C>>
where
    Rgb<C>: Pixel<Subpixel = C>,
    C: Primitive,
{
    map_pixels(image, |p| Rgb([C::zero(), C::zero(), p.0[0]]))
}
//@ pixelops::interpolate | the weighted sum with weights w and 1 - w
pub fn interpolate_<P: Pixel>(left: P, right: P, left_weight: f32) -> P
where
    P::Subpixel: Into<f32> + Clamp<f32>,
{
    weighted_sum(left, right, left_weight, 1.0 - left_weight)
}
//@ rect::Rect::bottom | the last row
pub fn bottom(this: &Rect) -> i32 {
    this.top() + (this.height() as i32) - 1
}
//@ rect::Rect::right | the last column
pub fn right(this: &Rect) -> i32 {
    this.left() + (this.width() as i32) - 1
}
//@ integral_image::variance | mean of squares minus square of mean, over the inclusive rectangle
pub fn variance_(
    integral_image: &Image<Luma<u32>>,
    integral_squared_image: &Image<Luma<u32>>,
    left: u32,
    top: u32,
    right: u32,
    bottom: u32,
) -> f64 {
    let n = (right - left + 1) as f64 * (bottom - top + 1) as f64;
    let sum_sq = sum_image_pixels(integral_squared_image, left, top, right, bottom)[0];
    let sum = sum_image_pixels(integral_image, left, top, right, bottom)[0];
    (sum_sq as f64 - (sum as f64).powi(2) / n) / n
}
//@ local_binary_patterns::count_transitions | number of positions that differ from their right neighbour, cyclically
pub fn count_transitions_(byte: u8) -> u32 {
    (byte ^ byte.rotate_right(1)).count_ones()
}
//@ utils::pixel_diff_summary | the summary of all different pixels
pub fn pixel_diff_summary_<I, J, P>(actual: &I, expected: &J) -> Option<String>
where
    P: Pixel + PartialEq,
    P::Subpixel: std::fmt::Debug,
    I: GenericImage<Pixel = P>,
    J: GenericImage<Pixel = P>,
{
    crate::utils::significant_pixel_diff_summary(actual, expected, |p, q| p != q)
}
//@ compose::crop | the pixels of the rectangle
pub fn crop_<P>(image: &Image<P>, rect: ImRect) -> Image<P>
where
    P: Pixel,
{
    assert!(rect.x <= image.width() && rect.width <= image.width() - rect.x);
    assert!(rect.y <= image.height() && rect.height <= image.height() - rect.y);
    Image::from_fn(rect.width, rect.height, |x, y| *image.get_pixel(rect.x + x, rect.y + y))
}
//@ hough::draw_polar_lines_mut | each line where it meets the image
pub fn draw_polar_lines_mut_<P>(image: &mut Image<P>, lines: &[PolarLine], color: P)
where
    P: Pixel,
{
    for line in lines {
        if let Some((s, e)) = intersection_points(*line, image.width(), image.height()) {
            draw_line_segment_mut(image, s, e, color);
        }
    }
}
// ================================================================ P16: rearranging operations
//@P16 compose::flip_horizontal_mut | column x and column width - 1 - x swap
pub fn flip_horizontal_mut_<P: Pixel>(image: &mut Image<P>) {
    for y in 0..image.height() {
        for x in 0..image.width() / 2 {
            let there = image.width() - x - 1;
            let p = *image.get_pixel(x, y);
            let q = *image.get_pixel(there, y);
            image.put_pixel(x, y, q);
            image.put_pixel(there, y, p);
        }
    }
}
//@P16 compose::flip_vertical_mut | row y and row height - 1 - y swap
pub fn flip_vertical_mut_<P: Pixel>(image: &mut Image<P>) {
    for y in 0..image.height() / 2 {
        for x in 0..image.width() {
            let there = image.height() - y - 1;
            let p = *image.get_pixel(x, y);
            let q = *image.get_pixel(x, there);
            image.put_pixel(x, y, q);
            image.put_pixel(x, there, p);
        }
    }
}
//@P16 compose::replace_mut | the pixel of the top image at the offset position, cut at the border of the bottom image
pub fn replace_mut_<P: Pixel>(bottom: &mut Image<P>, top: &Image<P>, x: u32, y: u32) {
    assert!(x < bottom.width());
    assert!(y < bottom.height());
    let x_end = std::cmp::min(bottom.width(), x.saturating_add(top.width()));
    let y_end = std::cmp::min(bottom.height(), y.saturating_add(top.height()));
    for by in y..y_end {
        for bx in x..x_end {
            let p = *top.get_pixel(bx - x, by - y);
            bottom.put_pixel(bx, by, p);
        }
    }
}
//@P16 compose::overlay_mut | the bottom pixel blended with the pixel of the top image at the offset position
pub fn overlay_mut_<P: Pixel>(bottom: &mut Image<P>, top: &Image<P>, x: u32, y: u32) {
    assert!(x < bottom.width());
    assert!(y < bottom.height());
    let x_end = std::cmp::min(bottom.width(), x.saturating_add(top.width()));
    let y_end = std::cmp::min(bottom.height(), y.saturating_add(top.height()));
    for by in y..y_end {
        for bx in x..x_end {
            let mut p = *bottom.get_pixel(bx, by);
            p.blend(top.get_pixel(bx - x, by - y));
            bottom.put_pixel(bx, by, p);
        }
    }
}
//@P16 geometric_transformations::translate | the pixel at (x - tx, y - ty), moved to the nearest border pixel
pub fn translate_<P: Pixel>(image: &Image<P>, t: (i32, i32)) -> Image<P> {
    let (width, height) = image.dimensions();
    let (tx, ty) = t;
    let (w, h) = (width as i32, height as i32);
    let n = P::CHANNEL_COUNT as usize;
    let mut out = Image::new(width, height);
    if width == 0 {
        return out;
    }
    for y in 0..height {
        let source_y = std::cmp::max(0, std::cmp::min((y as i32).saturating_sub(ty), h - 1));
        if tx > 0 {
            let border = *image.get_pixel(0, source_y as u32);
            for x in 0..tx.min(w) {
                out.put_pixel(x as u32, y, border);
            }
            if tx < w {
                let from = source_y as usize * width as usize * n;
                let to = (y as usize * width as usize + tx as usize) * n;
                let len = (w - tx) as usize * n;
                (*out)[to..][..len].copy_from_slice(&(**image)[from..][..len]);
            }
        } else {
            let border = *image.get_pixel(width - 1, source_y as u32);
            for x in (w + tx).max(0)..w {
                out.put_pixel(x as u32, y, border);
            }
            if w + tx > 0 {
                let from = (source_y as usize * width as usize + tx.unsigned_abs() as usize) * n;
                let to = y as usize * width as usize * n;
                let len = (w + tx) as usize * n;
                (*out)[to..][..len].copy_from_slice(&(**image)[from..][..len]);
            }
        }
    }
    out
}
//@P16 map::map_pixels | f of the pixel at the same position
pub fn map_pixels_<P: Pixel, Q: Pixel, F: Fn(P) -> Q>(image: &Image<P>, f: F) -> Image<Q> {
    let data = image.pixels().flat_map(|p| f(*p).channels().to_vec()).collect();
    Image::from_vec(image.width(), image.height(), data).expect("length")
}
//@P16 map::map_enumerated_pixels | f of the position and of the pixel there
pub fn map_enumerated_pixels_<P: Pixel, Q: Pixel, F: Fn(u32, u32, P) -> Q>(image: &Image<P>, f: F) -> Image<Q> {
    let data = image.enumerate_pixels().flat_map(|(x, y, p)| f(x, y, *p).channels().to_vec()).collect();
    Image::from_vec(image.width(), image.height(), data).expect("length")
}
//@P16 map::map_pixels_mut | every pixel is replaced by f of it
pub fn map_pixels_mut_<P: Pixel, F: Fn(P) -> P>(image: &mut Image<P>, f: F) {
    image.pixels_mut().for_each(|p| *p = f(*p))
}
//@P16 map::map_enumerated_pixels_mut | every pixel is replaced by f of its position and of it
pub fn map_enumerated_pixels_mut_<P: Pixel, F: Fn(u32, u32, P) -> P>(image: &mut Image<P>, f: F) {
    image.enumerate_pixels_mut().for_each(|(x, y, p)| *p = f(x, y, *p))
}
//@P16 map::map_subpixels | f of the channel at the same position
pub fn map_subpixels_<P: WithChannel<S>, F: Fn(P::Subpixel) -> S, S: Primitive>(image: &Image<P>, f: F) -> Image<ChannelMap<P, S>> {
    let data = image.iter().map(|c| f(*c)).collect();
    Image::from_vec(image.width(), image.height(), data).expect("length")
}
//@P16 map::map_subpixels_mut | every channel is replaced by f of it
pub fn map_subpixels_mut_<P: Pixel, F: Fn(P::Subpixel) -> P::Subpixel>(image: &mut Image<P>, f: F) {
    image.iter_mut().for_each(|c| *c = f(*c))
}
//@P16 map::map_pixels2 | f of the pixels of both images at the same position
pub fn map_pixels2_<P: Pixel, Q: Pixel, R: Pixel, F: Fn(P, Q) -> R>(image1: &Image<P>, image2: &Image<Q>, f: F) -> Image<R> {
    if image1.dimensions() != image2.dimensions() {
        panic!();
    }
    let data = image1.pixels().zip(image2.pixels()).flat_map(|(p, q)| f(*p, *q).channels().to_vec()).collect();
    Image::from_vec(image1.width(), image1.height(), data).expect("length")
}
// ================================================================ P17: sums, scores and statistics
//@P17 integral_image::sum_image_pixels | I(r+1, b+1) + I(l, t) - I(r+1, t) - I(l, b+1)
pub fn sum_image_pixels_<P>(integral_image: &Image<P>, left: u32, top: u32, right: u32, bottom: u32) -> P::DataType
where
    P: Pixel + ArrayData + Copy,
{
    let at = |x: u32, y: u32| integral_image.get_pixel(x, y).data();
    P::sub(P::sub(P::add(at(right + 1, bottom + 1), at(left, top)), at(right + 1, top)), at(left, bottom + 1))
}
//@P17 integral_image::row_running_sum | cumulative sums of the row with both ends repeated
pub fn row_running_sum_(image: &GrayImage, row: u32, buffer: &mut [u32], padding: u32) {
    let (width, height) = image.dimensions();
    let (w, pad) = (width as usize, padding as usize);
    assert!(buffer.len() >= w + 2 * pad);
    assert!(row < height);
    assert!(w > 0);
    let values = &(**image)[w * row as usize..][..w];
    let first = values[0] as u32;
    let last = values[w - 1] as u32;
    let mut sum = 0;
    for b in &mut buffer[..pad] {
        sum += first;
        *b = sum;
    }
    for (b, p) in buffer[pad..].iter_mut().zip(values) {
        sum += *p as u32;
        *b = sum;
    }
    for b in &mut buffer[pad + w..] {
        sum += last;
        *b = sum;
    }
}
//@P17 integral_image::column_running_sum | cumulative sums of the column with both ends repeated
pub fn column_running_sum_(image: &GrayImage, column: u32, buffer: &mut [u32], padding: u32) {
    let (width, height) = image.dimensions();
    assert!(buffer.len() >= height as usize + 2 * padding as usize);
    assert!(column < width);
    assert!(height > 0);
    let first = image.get_pixel(column, 0)[0] as u32;
    let last = image.get_pixel(column, height - 1)[0] as u32;
    let mut sum = 0;
    for b in &mut buffer[..padding as usize] {
        sum += first;
        *b = sum;
    }
    for y in 0..height {
        sum += image.get_pixel(column, y)[0] as u32;
        buffer[y as usize + padding as usize] = sum;
    }
    for b in &mut buffer[padding as usize + height as usize..] {
        sum += last;
        *b = sum;
    }
}
fn integral_<P, T>(image: &Image<P>, square: bool) -> Image<ChannelMap<P, T>>
where
    P: Pixel<Subpixel = u8> + WithChannel<T>,
    T: From<u8> + Primitive + AddAssign,
{
    let (w, h) = image.dimensions();
    let mut out = Image::new(w + 1, h + 1);
    if w == 0 || h == 0 {
        return out;
    }
    let zero = T::zero();
    let mut sum = vec![zero; P::CHANNEL_COUNT as usize];
    for y in 0..h {
        sum.iter_mut().for_each(|s| {
            *s = zero;
        });
        for x in 0..w {
            let p = *image.get_pixel(x, y);
            for (s, &c) in sum.iter_mut().zip(p.channels()) {
                let v: T = c.into();
                *s += if square { v * v } else { v };
            }
            let above = *out.get_pixel(x + 1, y);
            let q = out.get_pixel_mut(x + 1, y + 1);
            for c in 0..P::CHANNEL_COUNT as usize {
                q.channels_mut()[c] = above.channels()[c] + sum[c];
            }
        }
    }
    out
}
//@P17 integral_image::integral_image | entry (x, y) is the sum of all pixels above and to the left of (x, y)
pub fn integral_image_<P, T>(image: &Image<P>) -> Image<ChannelMap<P, T>>
where
    P: Pixel<Subpixel = u8> + WithChannel<T>,
    T: From<u8> + Primitive + AddAssign,
{
    integral_(image, false)
}
//@P17 integral_image::integral_squared_image | entry (x, y) is the sum of the squares of all pixels above and to the left of (x, y)
pub fn integral_squared_image_<P, T>(image: &Image<P>) -> Image<ChannelMap<P, T>>
where
    P: Pixel<Subpixel = u8> + WithChannel<T>,
    T: From<u8> + Primitive + AddAssign,
{
    integral_(image, true)
}
//@P17 stats::histogram | one count per pixel and channel
pub fn histogram_<P: Pixel<Subpixel = u8>>(image: &Image<P>) -> ChannelHistogram {
    let mut hist = vec![[0u32; 256]; P::CHANNEL_COUNT as usize];
    for p in image.pixels() {
        for (i, c) in p.channels().iter().enumerate() {
            hist[i][*c as usize] += 1;
        }
    }
    ChannelHistogram { channels: hist }
}
//@P17 stats::cumulative_histogram | entry i counts the pixels with value at most i
pub fn cumulative_histogram_<P: Pixel<Subpixel = u8>>(image: &Image<P>) -> CumulativeChannelHistogram {
    let mut hist = histogram(image);
    for c in 0..hist.channels.len() {
        for i in 1..hist.channels[c].len() {
            hist.channels[c][i] += hist.channels[c][i - 1];
        }
    }
    CumulativeChannelHistogram { channels: hist.channels }
}
//@P17 stats::percentile | the least value v with at least p percent of the pixels at most v
pub fn percentile_(image: &GrayImage, p: u8) -> u8 {
    assert!(p <= 100);
    let counts = cumulative_histogram(image).channels[0];
    let total = counts[255] as u64;
    for i in 0..256 {
        if 100 * counts[i] as u64 / total >= p as u64 {
            return i as u8;
        }
    }
    unreachable!()
}
//@P17 stats::root_mean_squared_error | root of the mean over pixels and channels of the squared difference
pub fn root_mean_squared_error_<I, J, P>(left: &I, right: &J) -> f64
where
    I: GenericImageView<Pixel = P>,
    J: GenericImageView<Pixel = P>,
    P: Pixel,
    P::Subpixel: Into<f64>,
{
    mean_squared(left, right).sqrt()
}
fn mean_squared<I, J, P>(left: &I, right: &J) -> f64
where
    I: GenericImageView<Pixel = P>,
    J: GenericImageView<Pixel = P>,
    P: Pixel,
    P::Subpixel: Into<f64>,
{
    assert!(left.dimensions() == right.dimensions());
    let mut sum = 0f64;
    for (p, q) in left.pixels().zip(right.pixels()) {
        for (c, d) in p.2.channels().iter().zip(q.2.channels().iter()) {
            let c: f64 = (*c).into();
            let d: f64 = (*d).into();
            sum += (c - d) * (c - d);
        }
    }
    sum / (left.width() * left.height() * P::CHANNEL_COUNT as u32) as f64
}
//@P17 stats::peak_signal_to_noise_ratio | 20 log10(max) - 10 log10(mean squared error)
pub fn peak_signal_to_noise_ratio_<I, J, P>(original: &I, noisy: &J) -> f64
where
    I: GenericImageView<Pixel = P>,
    J: GenericImageView<Pixel = P>,
    P: Pixel,
    P::Subpixel: Into<f64> + Primitive,
{
    let max: f64 = <P::Subpixel as Bounded>::max_value().into();
    let mse = mean_squared(original, noisy);
    20f64 * max.log(10f64) - 10f64 * mse.log(10f64)
}
//@P17 template_matching::match_template | the four documented sums over the template at every offset
pub fn match_template_(image: &GrayImage, template: &GrayImage, method: MatchTemplateMethod) -> Image<Luma<f32>> {
    assert!(image.width() >= template.width());
    assert!(image.height() >= template.height());
    use MatchTemplateMethod as M;
    let (w, h) = (image.width() - template.width() + 1, image.height() - template.height() + 1);
    match method {
        M::SumOfSquaredErrors => Image::from_fn(w, h, |x, y| {
            let mut score = 0f32;
            for dy in 0..template.height() {
                for dx in 0..template.width() {
                    let i = image.get_pixel(x + dx, y + dy)[0] as f32;
                    let t = template.get_pixel(dx, dy)[0] as f32;
                    score += (t - i).powi(2);
                }
            }
            Luma([score])
        }),
        M::SumOfSquaredErrorsNormalized => {
            let tt: f32 = template.iter().map(|&v| v as f32 * v as f32).sum();
            Image::from_fn(w, h, |x, y| {
                let mut score = 0f32;
                let mut ii = 0f32;
                for dy in 0..template.height() {
                    for dx in 0..template.width() {
                        let i = image.get_pixel(x + dx, y + dy)[0] as f32;
                        let t = template.get_pixel(dx, dy)[0] as f32;
                        score += (t - i).powi(2);
                        ii += i * i;
                    }
                }
                let norm = (ii * tt).sqrt();
                Luma([if norm > 0.0 { score / norm } else { score }])
            })
        }
        M::CrossCorrelation => Image::from_fn(w, h, |x, y| {
            let mut score = 0f32;
            for dy in 0..template.height() {
                for dx in 0..template.width() {
                    let i = image.get_pixel(x + dx, y + dy)[0] as f32;
                    let t = template.get_pixel(dx, dy)[0] as f32;
                    score += i * t;
                }
            }
            Luma([score])
        }),
        M::CrossCorrelationNormalized => {
            let tt: f32 = template.iter().map(|&v| v as f32 * v as f32).sum();
            Image::from_fn(w, h, |x, y| {
                let mut score = 0f32;
                let mut ii = 0f32;
                for dy in 0..template.height() {
                    for dx in 0..template.width() {
                        let i = image.get_pixel(x + dx, y + dy)[0] as f32;
                        let t = template.get_pixel(dx, dy)[0] as f32;
                        score += i * t;
                        ii += i * i;
                    }
                }
                let norm = (ii * tt).sqrt();
                Luma([if norm > 0.0 { score / norm } else { score }])
            })
        }
    }
}
//@P17 template_matching::match_template_with_mask | the four documented sums weighted by the mask
pub fn match_template_with_mask_(image: &GrayImage, template: &GrayImage, method: MatchTemplateMethod, mask: &GrayImage) -> Image<Luma<f32>> {
    assert!(template.dimensions() == mask.dimensions());
    assert!(image.width() >= template.width());
    assert!(image.height() >= template.height());
    use MatchTemplateMethod as M;
    let (w, h) = (image.width() - template.width() + 1, image.height() - template.height() + 1);
    match method {
        M::SumOfSquaredErrors => Image::from_fn(w, h, |x, y| {
            let mut score = 0f32;
            for dy in 0..template.height() {
                for dx in 0..template.width() {
                    let i = image.get_pixel(x + dx, y + dy)[0] as f32;
                    let t = template.get_pixel(dx, dy)[0] as f32;
                    let m = mask.get_pixel(dx, dy)[0] as f32;
                    score += ((t - i) * m).powi(2);
                }
            }
            Luma([score])
        }),
        M::SumOfSquaredErrorsNormalized => {
            let tt: f32 = template.iter().zip(mask.iter()).map(|(&t, &m)| (t as f32 * m as f32).powi(2)).sum();
            Image::from_fn(w, h, |x, y| {
                let mut score = 0f32;
                let mut ii = 0f32;
                for dy in 0..template.height() {
                    for dx in 0..template.width() {
                        let i = image.get_pixel(x + dx, y + dy)[0] as f32;
                        let t = template.get_pixel(dx, dy)[0] as f32;
                        let m = mask.get_pixel(dx, dy)[0] as f32;
                        score += ((t - i) * m).powi(2);
                        ii += (i * m).powi(2);
                    }
                }
                let norm = (tt * ii).sqrt();
                Luma([if norm > 0.0 { score / norm } else { score }])
            })
        }
        M::CrossCorrelation => Image::from_fn(w, h, |x, y| {
            let mut score = 0f32;
            for dy in 0..template.height() {
                for dx in 0..template.width() {
                    let i = image.get_pixel(x + dx, y + dy)[0] as f32;
                    let t = template.get_pixel(dx, dy)[0] as f32;
                    let m = mask.get_pixel(dx, dy)[0] as f32;
                    score += t * i * m * m;
                }
            }
            Luma([score])
        }),
        M::CrossCorrelationNormalized => {
            let tt: f32 = template.iter().zip(mask.iter()).map(|(&t, &m)| (t as f32 * m as f32).powi(2)).sum();
            Image::from_fn(w, h, |x, y| {
                let mut score = 0f32;
                let mut ii = 0f32;
                for dy in 0..template.height() {
                    for dx in 0..template.width() {
                        let i = image.get_pixel(x + dx, y + dy)[0] as f32;
                        let t = template.get_pixel(dx, dy)[0] as f32;
                        let m = mask.get_pixel(dx, dy)[0] as f32;
                        score += t * i * m * m;
                        ii += (i * m).powi(2);
                    }
                }
                let norm = (tt * ii).sqrt();
                Luma([if norm > 0.0 { score / norm } else { score }])
            })
        }
    }
}
//@P17 template_matching::find_extremes | the first position of the largest and of the smallest value
pub fn find_extremes_<T: Primitive>(image: &Image<Luma<T>>) -> Extremes<T> {
    assert!(image.width() > 0 && image.height() > 0);
    let mut min_value = image.get_pixel(0, 0)[0];
    let mut max_value = image.get_pixel(0, 0)[0];
    let mut min_value_location = (0, 0);
    let mut max_value_location = (0, 0);
    for (x, y, p) in image.enumerate_pixels() {
        if p[0] < min_value {
            min_value = p[0];
            min_value_location = (x, y);
        }
        if p[0] > max_value {
            max_value = p[0];
            max_value_location = (x, y);
        }
    }
    Extremes { max_value, min_value, max_value_location, min_value_location }
}
//@P17 geometry::arc_length | the sum of the distances between consecutive points
pub fn arc_length_<T: NumCast + Copy>(arc: &[Point<T>], closed: bool) -> f64 {
    let mut length = arc.windows(2).map(|w| distance(w[0], w[1])).sum();
    if arc.len() > 2 && closed {
        length += distance(arc[0], arc[arc.len() - 1]);
    }
    length
}
//@P17 geometry::oriented_contour_area | half the sum of the cross products of consecutive points
pub fn oriented_contour_area_<T: NumCast + Copy>(points: &[Point<T>]) -> f64 {
    if points.len() < 3 {
        return 0.0;
    }
    let mut prev = points.last().unwrap().to_f64();
    0.5 * points.iter().map(|p| p.to_f64()).fold(0.0, |mut sum, p| {
        sum += prev.x * p.y - prev.y * p.x;
        prev = p;
        sum
    })
}
//@P17 contrast::adaptive_threshold | white where the pixel is at least the mean of its neighbourhood minus delta
pub fn adaptive_threshold_(image: &GrayImage, block_radius: u32, delta: i32) -> GrayImage {
    assert!(block_radius > 0);
    let integral = integral_image::<_, u32>(image);
    let mut out = GrayImage::from_pixel(image.width(), image.height(), Luma::black());
    for y in 0..image.height() {
        for x in 0..image.width() {
            let p = image.get_pixel(x, y);
            let y0 = y.saturating_sub(block_radius);
            let y1 = std::cmp::min(image.height() - 1, y.saturating_add(block_radius));
            let x0 = x.saturating_sub(block_radius);
            let x1 = std::cmp::min(image.width() - 1, x.saturating_add(block_radius));
            let n = (y1 - y0 + 1) * (x1 - x0 + 1);
            let mean = sum_image_pixels(&integral, x0, y0, x1, y1)[0] / n;
            if p[0] as i32 >= mean as i32 - delta {
                out.put_pixel(x, y, Luma::white());
            }
        }
    }
    out
}
//@P17 contrast::otsu_level | the threshold with the largest between-class variance
pub fn otsu_level_(image: &GrayImage) -> u8 {
    let hist = histogram(image);
    let (width, height) = image.dimensions();
    let total_weight = width * height;
    let total_sum = hist.channels[0].iter().enumerate().fold(0f64, |sum, (t, h)| sum + (t as u32 * h) as f64);
    let mut back_sum = 0f64;
    let mut back_weight = 0u32;
    let mut best = 0f64;
    let mut level = 0u8;
    for (t, n) in hist.channels[0].iter().enumerate() {
        back_weight += n;
        if back_weight == 0 {
            continue;
        }
        let fore_weight = total_weight - back_weight;
        if fore_weight == 0 {
            break;
        }
        back_sum += (t as u32 * n) as f64;
        let fore_sum = total_sum - back_sum;
        let back_mean = back_sum / (back_weight as f64);
        let fore_mean = fore_sum / (fore_weight as f64);
        let variance = (back_weight as f64) * (fore_weight as f64) * (back_mean - fore_mean).powi(2);
        if variance > best {
            best = variance;
            level = t as u8;
        }
    }
    level
}
//@P17 contrast::threshold_mut | the five documented comparisons with the threshold
pub fn threshold_mut_(image: &mut GrayImage, threshold: u8, threshold_type: ThresholdType) {
    match threshold_type {
        ThresholdType::Binary => {
            for p in image.iter_mut() {
                *p = if *p > threshold { 255 } else { 0 };
            }
        }
        ThresholdType::BinaryInverted => {
            for p in image.iter_mut() {
                *p = if *p > threshold { 0 } else { 255 };
            }
        }
        ThresholdType::Truncate => {
            for p in image.iter_mut() {
                *p = if *p > threshold { threshold } else { *p };
            }
        }
        ThresholdType::ToZero => {
            for p in image.iter_mut() {
                *p = if *p > threshold { 0 } else { *p };
            }
        }
        ThresholdType::ToZeroInverted => {
            for p in image.iter_mut() {
                *p = if *p > threshold { *p } else { 0 };
            }
        }
    }
}
//@P17 contrast::stretch_contrast_mut | linear between the input bounds, constant outside
pub fn stretch_contrast_mut_<P>(image: &mut Image<P>, input_min: u8, input_max: u8, output_min: u8, output_max: u8)
where
    P: Pixel<Subpixel = u8>,
{
    assert!(input_min < input_max);
    assert!(output_min <= output_max);
    let input_min: u16 = input_min.into();
    let input_max: u16 = input_max.into();
    let output_min: u16 = output_min.into();
    let output_max: u16 = output_max.into();
    let input_width = input_max - input_min;
    let output_width = output_max - output_min;
    let f = |p: P| {
        p.map_without_alpha(|c| {
            let c = c as u16;
            if c <= input_min {
                output_min as u8
            } else if c >= input_max {
                output_max as u8
            } else {
                ((c - input_min) * output_width / input_width + output_min) as u8
            }
        })
    };
    map_pixels_mut(image, f);
}
//@P17 pixelops::weighted_sum | left * left_weight + right * right_weight in every channel, saturated
pub fn weighted_sum_<P: Pixel>(left: P, right: P, left_weight: f32, right_weight: f32) -> P
where
    P::Subpixel: Into<f32> + Clamp<f32>,
{
    left.map2(&right, |p, q| Clamp::clamp(p.into() * left_weight + q.into() * right_weight))
}
//@P17 haar::number_of_haar_features | both signs of all positions of all block sizes of the five shapes
pub fn number_of_haar_features_(width: u32, height: u32) -> u32 {
    fn n(side: u32, blocks: u32) -> u32 {
        let m = side / blocks;
        m * (side + 1) - blocks * ((m * (m + 1)) / 2)
    }
    2 * (n(width, 2) * n(height, 1) + n(width, 3) * n(height, 1) + n(width, 1) * n(height, 2) + n(width, 1) * n(height, 3) + n(width, 2) * n(height, 2))
}
