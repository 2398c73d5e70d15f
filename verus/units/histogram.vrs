/*@prelude*/
/*@include ../inc/ext.vrs*/
/*@assume ../inc/matrix.vrs*/
/*@assume ../inc/jagged.vrs*/
/*@struct histogram.rs :: Bin */
/*@struct histogram.rs :: HistogramMatrix */
/*@include ../inc/histtypes.vrs*/
/*@include ../inc/histogram.vrs*/
} fn main() {}
