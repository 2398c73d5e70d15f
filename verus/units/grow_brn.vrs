/*@prelude*/
/*@include ../inc/ext.vrs*/
/*@assume ../inc/weights.vrs*/
/*@assume ../inc/matrix.vrs*/
/*@assume ../inc/jagged.vrs*/
/*@assume ../inc/splittypes.vrs*/
/*@assume ../inc/brn.vrs*/
/*@assume ../inc/brn_thm.vrs*/
/*@assume ../inc/splitcore.vrs*/
/*@assume ../inc/histtypes.vrs*/
/*@assume ../inc/histogram.vrs*/
/*@assume ../inc/pivots.vrs*/
/*@struct node.rs :: Node */
/*@include ../inc/growbase.vrs*/
/*@include ../inc/grow_brn.vrs*/
} fn main() {}
