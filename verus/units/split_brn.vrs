/*@prelude*/
/*@assume ../inc/weights.vrs*/
/*@assume ../inc/jagged.vrs*/
/*@include ../inc/splittypes.vrs*/
/*@include ../inc/brn.vrs*/
/*@include ../inc/splitcore.vrs*/
/*@include ../inc/brn_thm.vrs*/
} fn main() {}
