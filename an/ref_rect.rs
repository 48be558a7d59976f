//! Reference definition for P17 that needs the private fields of Rect; compiled as a child module of rect in a copy of the current
//! tree (see ref.rs).
#![allow(missing_docs, clippy::all, unused)]

use super::*;

//@P17 rect::Rect::intersect | the largest rectangle contained in both, if any
pub fn intersect_(this: &Rect, other: Rect) -> Option<Rect> {
    let left = std::cmp::max(this.left, other.left);
    let top = std::cmp::max(this.top, other.top);
    let right = std::cmp::min(this.left + this.width as i32 - 1, other.left + other.width as i32 - 1);
    let bottom = std::cmp::min(this.top + this.height as i32 - 1, other.top + other.height as i32 - 1);
    if right < left || bottom < top {
        return None;
    }
    Some(Rect { left, top, width: (right - left) as u32 + 1, height: (bottom - top) as u32 + 1 })
}
