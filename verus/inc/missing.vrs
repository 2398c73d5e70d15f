// ================================================================ missing values
/// a value is missing when it equals the configured missing value (NaN: when it is NaN)
pub open spec fn is_miss(v: F64, missing: F64) -> bool {
    if missing.nan() { v.nan() } else { ext_eq(v.e(), missing.e()) }
}
/// NaN in the data is only allowed when NaN is the missing value
pub open spec fn val_ok(v: F64, missing: F64) -> bool { missing.nan() || !v.nan() }
pub open spec fn row_ok(row: Seq<F64>, missing: F64) -> bool { forall|j: int| 0 <= j < row.len() ==> val_ok(#[trigger] row[j], missing) }
/*@fn utils.rs :: is_missing
ret r
spec:
    requires val_ok(*value, *missing),
    ensures r == is_miss(*value, *missing),
*/
