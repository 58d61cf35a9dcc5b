pub mod cast_«S»_«T» {
use super::*;
proof fn cast_bv(x: «S», i: «T») by(bit_vector) requires i < «NT» ensures ((x as «T») >> i) & 1 == 1 <==> i < «NS» && (x >> (i as «S»)) & 1 == 1
{}
/// conversion with `as` keeps the low bits
pub broadcast proof fn cast(x: «S», i: int) ensures #[trigger] int_«T»::tb(x as «T», i) == (0 <= i < «NT» && int_«S»::tb(x, i)) { if 0 <= i < «NT» { cast_bv(x, i as «T») } }
}
