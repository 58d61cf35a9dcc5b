// ---- orderings and grid indices ----------------------------------------------------------------------------------------
//@struct dimensions/dim_3d.rs OctantOrdering #[derive(Clone, Copy)]
/// `nalgebra::Vector3<usize>`
pub struct Vector3 { pub x: usize, pub y: usize, pub z: usize }
impl Vector3 { pub fn new(x: usize, y: usize, z: usize) -> (r: Self) ensures r.x == x, r.y == y, r.z == z { Vector3 { x, y, z } } }
pub open spec fn comp(g: Vector3, a: int) -> usize { if a == 0 { g.x } else if a == 1 { g.y } else { g.z } }
pub open spec fn pick(a: int, x: int, y: int, z: int) -> int { if a == 0 { x } else if a == 1 { y } else { z } }
/// the bit of a cell number that belongs to axis a
pub open spec fn axis(o: OctantOrdering, a: int) -> int { match o {
    OctantOrdering::XYZ => pick(a, 0, 1, 2), OctantOrdering::XZY => pick(a, 0, 2, 1), OctantOrdering::YXZ => pick(a, 1, 0, 2),
    OctantOrdering::YZX => pick(a, 2, 0, 1), OctantOrdering::ZXY => pick(a, 1, 2, 0), OctantOrdering::ZYX => pick(a, 2, 1, 0) } }
/// the axis that bit j of a cell number belongs to
pub open spec fn axis_of(o: OctantOrdering, j: int) -> int { match o {
    OctantOrdering::XYZ => pick(j, 0, 1, 2), OctantOrdering::XZY => pick(j, 0, 2, 1), OctantOrdering::YXZ => pick(j, 1, 0, 2),
    OctantOrdering::YZX => pick(j, 1, 2, 0), OctantOrdering::ZXY => pick(j, 2, 0, 1), OctantOrdering::ZYX => pick(j, 2, 1, 0) } }
//@gsub Vector3 < usize >~>Vector3
//@gsub < Dim3D as Dimension > :: GridIndex~>Vector3
impl Default for OctantOrdering {
    open spec fn is_default(&self) -> bool { *self == OctantOrdering::XYZ }
    //@extract dimensions/dim_3d.rs OctantOrdering|Default|default
    //@ret r
    //@props C18
    //@end
}
impl OctantOrdering {
    //@extract dimensions/dim_3d.rs OctantOrdering|-|get_bit_shifts_for_xyz
    //@ret r
    //@props C18
    //@at spec
        ensures r.0 == axis(*self, 0), r.1 == axis(*self, 1), r.2 == axis(*self, 2),
    //@end
}
