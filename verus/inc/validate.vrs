// ================================================================ utils.rs : validation
/*@enum errors.rs :: ForustError */
pub open spec fn nonneg64(x: F64) -> bool { !x.nan() && ext_le(Ext::Fin(0real), x.e()) }
pub open spec fn nonneg32(x: F32) -> bool { !x.nan() && ext_le(Ext::Fin(0real), x.e()) }
pub trait VxAny: vstd::std_specs::iter::IteratorSpec + Sized {
    fn vx_any<F: Fn(Self::Item) -> bool>(self, f: F) -> (r: bool)
        requires forall|k: int| 0 <= k < self.remaining().len() ==> call_requires(f, (#[trigger] self.remaining()[k],)),
        ensures
            r ==> exists|k: int| 0 <= k < self.remaining().len() && call_ensures(f, (#[trigger] self.remaining()[k],), true),
            !r ==> forall|k: int| #![trigger self.remaining()[k]] #![trigger at(k)] 0 <= k < self.remaining().len() && at(k) ==> call_ensures(f, (self.remaining()[k],), false);
}
impl<I: vstd::std_specs::iter::IteratorSpec> VxAny for I {
    #[verifier::external_body]
    fn vx_any<F: Fn(Self::Item) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
}
pub open spec fn below0(x: F64) -> bool { !x.nan() && ext_lt(x.e(), Ext::Fin(0real)) }
pub open spec fn all_there(v: Seq<F64>) -> bool { forall|k: int| #![trigger at(k)] #![trigger v[k]] 0 <= k < v.len() && at(k) ==> !v[k].nan() }
pub open spec fn none_below(v: Seq<F64>) -> bool { forall|k: int| #![trigger at(k)] #![trigger v[k]] 0 <= k < v.len() && at(k) ==> !below0(v[k]) }
/*@fn utils.rs :: validate_not_nan_vec
std any
ret r
spec:
    ensures r is Ok <==> all_there(v@),
closure 1:
    |i: &F64| -> (o: bool) ensures o == i.nan()
*/
/*@fn utils.rs :: validate_positive_vec
std any
lit f64
ret r
spec:
    ensures r is Ok <==> none_below(v@),
closure 1:
    |i: &F64| -> (o: bool) ensures o == below0(*i)
*/
/*@fn utils.rs :: validate_positive_not_nan_vec
std filter copied collect
lit f64
ret r
spec:
    ensures r is Ok <==> all_there(v@) && none_below(v@),
closure 1:
    |i: &&F64| -> (o: bool) ensures o == (i.nan() || below0(**i))
start:
    broadcast use lemma_kept;
before "validate_positive_vec":
    proof {
        assert forall|k: int| #![trigger v@[k]] 0 <= k < v@.len() && at(k) && (v@[k].nan() || below0(v@[k])) implies remainder@.contains(v@[k]) by { }
    }
*/
/*@fn utils.rs :: validate_float_parameter
subst T=F32
rename validate_float_parameter_32
std to_string push_str
ret r
spec:
    requires !min.nan() && !max.nan(),
    ensures r is Ok <==> !(value.nan() || ext_lt(value.e(), min.e()) || ext_lt(max.e(), value.e())),
*/
/*@fn utils.rs :: validate_positive_float_parameter
subst T=F32
rename validate_positive_float_parameter_32
ret r
spec:
    ensures r is Ok <==> nonneg32(value),
replace "validate_float_parameter": validate_float_parameter_32
*/
/*@fn utils.rs :: validate_float_parameter
subst T=F64
rename validate_float_parameter_64
std to_string push_str
ret r
spec:
    requires !min.nan() && !max.nan(),
    ensures r is Ok <==> !(value.nan() || ext_lt(value.e(), min.e()) || ext_lt(max.e(), value.e())),
*/
/*@fn utils.rs :: validate_positive_float_parameter
subst T=F64
rename validate_positive_float_parameter_64
ret r
spec:
    ensures r is Ok <==> nonneg64(value),
replace "validate_float_parameter": validate_float_parameter_64
*/
// the generic function, resolved by type
pub trait VxChecked: Sized {
    spec fn vx_nonneg(self) -> bool;
    fn vx_checked(self, parameter: &str) -> (r: Result<(), ForustError>) ensures r is Ok <==> self.vx_nonneg();
}
impl VxChecked for F32 {
    open spec fn vx_nonneg(self) -> bool { nonneg32(self) }
    fn vx_checked(self, parameter: &str) -> (r: Result<(), ForustError>) { validate_positive_float_parameter_32(self, parameter) }
}
impl VxChecked for F64 {
    open spec fn vx_nonneg(self) -> bool { nonneg64(self) }
    fn vx_checked(self, parameter: &str) -> (r: Result<(), ForustError>) { validate_positive_float_parameter_64(self, parameter) }
}
pub fn validate_positive_float_parameter<T: VxChecked>(value: T, parameter: &str) -> (r: Result<(), ForustError>)
    ensures r is Ok <==> value.vx_nonneg()
{ value.vx_checked(parameter) }
