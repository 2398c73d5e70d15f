/*@prelude*/
/*@include ../inc/ext.vrs*/
/*@include ../inc/matrix.vrs*/
/*@include ../inc/rowmajor.vrs*/
/*@include ../inc/tree.vrs*/
/*@include ../inc/booster_types.vrs*/
/*@include ../inc/importance.vrs*/
/*@include ../inc/impbooster.vrs*/
} fn main() {}
