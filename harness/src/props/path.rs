//! The generic path iterator over the library's positions.
use super::vp;
use fuel_merkle::common::{AsPathIterator, Position};

/// P03: height of the root, steps looked at, then the leaf index: its unconstrained bits (lowest, number of them)
/// and the value of the others.
#[no_mangle]
pub extern "C" fn h_p03() {
    let h = vp::param(0);
    let steps = vp::param(1).min(h);
    let (lo, w) = (vp::param(2), vp::param(3));
    let mask = if w >= 64 { !0 } else { ((1u64 << w) - 1) << lo };
    let i = ((vp::param(4) & !mask) | (vp::sym_u64(1) & mask)) << 1 >> 1;
    let at = |d: u64, x: u64| (((x >> (h - d)) << (h - d)) << 1) + ((1u64 << (h - d)) - 1);
    let root = Position::from_in_order_index(at(0, i));
    let leaf = Position::from_leaf_index(i);
    let mut it = root.as_path_iter(&leaf);
    for d in 0..=steps {
        match it.next() {
            Some((Ok(p), Ok(s))) => {
                vp::check_u64(p.in_order_index(), at(d, i), "P03.path");
                let other = if d == 0 { i } else { i ^ (1 << (h - d)) };
                vp::check_u64(s.in_order_index(), at(d, other), "P03.side");
            }
            _ => vp::check(false, "P03.missing"),
        }
    }
    if steps == h {
        vp::check(it.next().is_none(), "P03.end");
    }
    vp::check(steps < h || it.next().is_none(), "P03.end");
    vp::observe("leaf", &i.to_le_bytes());
    vp::cover("end");
}
