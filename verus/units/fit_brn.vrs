/*@prelude*/
/*@include ../inc/ext.vrs*/
/*@assume ../inc/weights.vrs*/
/*@assume ../inc/matrix.vrs*/
/*@assume ../inc/jagged.vrs*/
/*@assume ../inc/splittypes.vrs*/
/*@assume ../inc/brn.vrs*/
/*@assume ../inc/brn_thm.vrs*/
/*@assume ../inc/splitcore.vrs*/
/*@assume ../inc/histtypes.vrs*/
/*@assume ../inc/histogram.vrs*/
/*@assume ../inc/pivots.vrs*/
/*@struct node.rs :: Node */
/*@assume ../inc/growbase.vrs*/
/*@assume ../inc/grow_brn.vrs*/
/*@assume ../inc/sums.vrs*/
/*@assume ../inc/growers.vrs*/
/*@include ../inc/fit_brn.vrs*/
/*@include ../inc/fit.vrs*/
/*@include ../inc/missing.vrs*/
/*@assume ../inc/mapbin.vrs*/
/*@include ../inc/thm_brn.vrs*/
/*@include ../inc/grown_thm.vrs*/
} fn main() {}
