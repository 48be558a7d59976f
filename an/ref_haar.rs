//! Reference definition for P17 that needs the private fields of HaarFeature; compiled as a child module of haar in a copy of the
//! current tree (see ref.rs).
#![allow(missing_docs, clippy::all, unused)]

use super::*;

//@P17 haar::HaarFeature::evaluate | signed sum of the pixels of the blocks, neighbouring blocks with opposite signs
pub fn evaluate_(this: &HaarFeature, integral: &Image<Luma<u32>>) -> i32 {
    let shape = this.feature_type.shape();
    let (bw, bh) = (this.block_size.width, this.block_size.height);
    assert!(integral.width() > (shape.width * bw) as u32 + this.left as u32);
    assert!(integral.height() > (shape.height * bh) as u32 + this.top as u32);
    let at = |i: u8, j: u8| integral.get_pixel((this.left + i * bw) as u32, (this.top + j * bh) as u32)[0] as i32;
    let block = |i: u8, j: u8| at(i + 1, j + 1) - at(i, j + 1) - at(i + 1, j) + at(i, j);
    let sum = match this.feature_type {
        HaarFeatureType::TwoRegionHorizontal => block(0, 0) - block(1, 0),
        HaarFeatureType::ThreeRegionHorizontal => block(0, 0) - block(1, 0) + block(2, 0),
        HaarFeatureType::TwoRegionVertical => block(0, 0) - block(0, 1),
        HaarFeatureType::ThreeRegionVertical => block(0, 0) - block(0, 1) + block(0, 2),
        HaarFeatureType::FourRegion => block(0, 0) - block(1, 0) - block(0, 1) + block(1, 1),
    };
    if this.sign == Sign::Positive {
        sum
    } else {
        -sum
    }
}
