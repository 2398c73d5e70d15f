/*@prelude*/
/*@include ../inc/ext.vrs*/
/*@include ../inc/sums.vrs*/
} fn main() {}
