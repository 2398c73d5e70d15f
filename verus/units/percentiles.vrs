/*@prelude*/
/*@include ../inc/ext.vrs*/
/*@include ../inc/sums.vrs*/
/*@include ../inc/percentiles.vrs*/
} fn main() {}
