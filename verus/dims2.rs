// ---- orderings and grid indices ----------------------------------------------------------------------------------------
//@struct dimensions/dim_2d.rs QuadrantOrdering
/// `nalgebra::Vector2<usize>`
pub struct Vector2 { pub x: usize, pub y: usize }
impl Vector2 { pub fn new(x: usize, y: usize) -> (r: Self) ensures r.x == x, r.y == y { Vector2 { x, y } } }
pub open spec fn comp(g: Vector2, a: int) -> usize { if a == 0 { g.x } else { g.y } }
/// the bit of a cell number that belongs to axis a
pub open spec fn axis(o: QuadrantOrdering, a: int) -> int { match o { QuadrantOrdering::XY => a, QuadrantOrdering::YX => 1 - a } }
/// the axis that bit j of a cell number belongs to
pub open spec fn axis_of(o: QuadrantOrdering, j: int) -> int { match o { QuadrantOrdering::XY => j, QuadrantOrdering::YX => 1 - j } }
//@gsub Vector2 < usize >~>Vector2
//@gsub < Dim2D as Dimension > :: GridIndex~>Vector2
impl Default for QuadrantOrdering {
    open spec fn is_default(&self) -> bool { *self == QuadrantOrdering::XY }
    //@extract dimensions/dim_2d.rs QuadrantOrdering|Default|default
    //@ret r
    //@props C18
    //@end
}
