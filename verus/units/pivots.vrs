/*@prelude*/
/*@include ../inc/pivots.vrs*/
} fn main() {}
