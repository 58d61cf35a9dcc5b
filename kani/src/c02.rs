//! C02 (bounded stand-in beside the Verus proof): cell access on dynamic indices of small concrete depths
use crate::idx::*;
use crate::nd;

/// every level of an index of depth `d`: after a write exactly that level reads the new cell
fn access<T: Idx>(d: usize) {
    let p = nd::u128();
    let m: T = build(d, p);
    ensure_is(&m, d, p);
    for l in 0..d {
        let c = nd::below(1 << T::D);
        let mut n = m.clone();
        n.set(l, c);
        ensure_is(&n, d, pset(p, T::D, l, c));
    }
}
pub mod dynamic {
    use super::*;
    obligations! {
        y2_1 [12] { access::<Y2>(1) } y2_2 [12] { access::<Y2>(2) } y2_3 [12] { access::<Y2>(3) } y2_4 [12] { access::<Y2>(4) } y2_5 [12] { access::<Y2>(5) }
        y2_6 [12] { access::<Y2>(6) } y2_7 [12] { access::<Y2>(7) } y2_8 [12] { access::<Y2>(8) } y2_9 [12] { access::<Y2>(9) }
        y3_1 [12] { access::<Y3>(1) } y3_2 [12] { access::<Y3>(2) } y3_3 [12] { access::<Y3>(3) } y3_4 [12] { access::<Y3>(4) } y3_5 [12] { access::<Y3>(5) }
        y3_6 [12] { access::<Y3>(6) } y3_7 [12] { access::<Y3>(7) } y3_8 [12] { access::<Y3>(8) } y3_9 [12] { access::<Y3>(9) }
    }
}
