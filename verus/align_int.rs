impl Alignable for «T» {
    open spec fn val(&self) -> int { *self as int }
    open spec fn max() -> int { «MAX» as int }
    //@extract align.rs «T»|Alignable|align_to
    //@deref self
    //@ret r
    //@props C17
    //@at start
        proof { if alignment != 0 { next(*self as int, alignment as int); let r = choose|r: int| least_multiple(self.val(), alignment.val(), r) && r <= «MAX»; c17_unique(self.val(), alignment.val(), r, if *self % alignment == 0 { *self as int } else { *self + (alignment - *self % alignment) }); } }
    //@end
}
