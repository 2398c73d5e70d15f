/*@prelude*/
/*@include ../inc/ext.vrs*/
/*@include ../inc/rsum.vrs*/
/*@include ../inc/objectives.vrs*/
/*@include ../inc/metrics.vrs*/
/*@include ../inc/fsum.vrs*/
/*@include ../inc/auc.vrs*/
} fn main() {}
