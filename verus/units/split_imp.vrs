/*@prelude*/
/*@assume ../inc/weights.vrs*/
/*@assume ../inc/jagged.vrs*/
/*@include ../inc/splittypes.vrs*/
/*@include ../inc/imp.vrs*/
/*@include ../inc/splitcore.vrs*/
/*@include ../inc/imp_thm.vrs*/
} fn main() {}
