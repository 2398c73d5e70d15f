/*@prelude*/
/*@include ../inc/ext.vrs*/
/*@include ../inc/text.vrs*/
/*@enum errors.rs :: ForustError */
/*@assume ../inc/matrix.vrs*/
/*@assume ../inc/rowmajor.vrs*/
/*@assume ../inc/jagged.vrs*/
/*@assume ../inc/tree.vrs*/
/*@include ../inc/booster_types.vrs*/
/*@include ../inc/rng.vrs*/
/*@assume ../inc/used.vrs*/
/*@include ../inc/booster.vrs*/
/*@include ../inc/booster_thm.vrs*/
} fn main() {}
