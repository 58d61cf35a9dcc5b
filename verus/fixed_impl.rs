impl FixedStorageType for «T» {
    proof fn lemma_fixed(&self) { int_«T»::bits_const(); }
    proof fn lemma_sized(n: int) { int_«T»::bits_const(); }
    proof fn lemma_source_fixed(&self, n: int) {}
    proof fn lemma_ext(&self, other: Self) { int_«T»::bits_const(); int_«T»::ext(*self, other); }
    open spec fn val(&self) -> int { *self as int }
    proof fn lemma_order() {}
    proof fn lemma_highest(&self, other: Self, h: int) { int_«T»::bits_const(); assert forall|i: int| h < i implies #[trigger] int_«T»::tb(*self, i) == int_«T»::tb(other, i) by { assert(self.bit(i) == other.bit(i)); } int_«T»::order(*self, other, h); }
    proof fn lemma_zero() { int_«T»::zero_bits(); }
}
impl Default for «T» { open spec fn is_default(&self) -> bool { *self == 0 } fn default() -> (r: Self) { 0 } }
