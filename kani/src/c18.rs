//! C18: cells and orderings, full domain
use crate::idx::*;
use crate::nd;
use morton_index::dimensions::*;
use morton_index::Error;
pub mod cells { use super::*; obligations! {
    quadrant [2] { let n = nd::usize(); match Quadrant::try_from(n) { Ok(q) => { assert!(n < 4 && q == quad(n) && q.index() == n); let m: usize = q.into(); let k: usize = (&q).into(); assert!(m == n && k == n) } Err(e) => assert!(n >= 4 && matches!(e, Error::CellIndexOutOfRange)) } }
    octant [2] { let n = nd::usize(); match Octant::try_from(n) { Ok(q) => { assert!(n < 8 && q == oct(n) && q.index() == n); let m: usize = q.into(); let k: usize = (&q).into(); assert!(m == n && k == n) } Err(e) => assert!(n >= 8 && matches!(e, Error::CellIndexOutOfRange)) } }
    order [2] { let (a, b) = (nd::below(8), nd::below(8)); assert!(oct(a).cmp(&oct(b)) == a.cmp(&b) && (oct(a) == oct(b)) == (a == b)); let (a, b) = (a & 3, b & 3); assert!(quad(a).cmp(&quad(b)) == a.cmp(&b) && (quad(a) == quad(b)) == (a == b)) }
} }
pub mod orderings { use super::*; obligations! {
    two [2] { let (o, b) = ord2(nd::below(2)); let c = nd::below(4); let v = o.to_index(quad(c)); assert!(v.x == (c >> b[0]) & 1 && v.y == (c >> b[1]) & 1) }
    three [2] { let (o, b) = ord3(nd::below(6)); let c = nd::below(8); let v = o.to_index(oct(c)); assert!(v.x == (c >> b[0]) & 1 && v.y == (c >> b[1]) & 1 && v.z == (c >> b[2]) & 1); assert!(o.get_bit_shifts_for_xyz() == (b[0], b[1], b[2])) }
    defaults [2] { assert!(matches!(QuadrantOrdering::default(), QuadrantOrdering::XY)); assert!(matches!(OctantOrdering::default(), OctantOrdering::XYZ)) }
    dims [2] { assert!(Dim2D::DIMENSIONALITY == 2 && Dim3D::DIMENSIONALITY == 3) }
} }
