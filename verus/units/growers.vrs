/*@prelude*/
/*@include ../inc/ext.vrs*/
/*@assume ../inc/weights.vrs*/
/*@assume ../inc/jagged.vrs*/
/*@assume ../inc/splittypes.vrs*/
/*@include ../inc/growers.vrs*/
} fn main() {}
