// ---- text: any string
#[verifier::external_body]
pub fn vx_text() -> String { String::new() }
#[verifier::external_body]
pub fn vx_str() -> &'static str { "" }
pub trait VxText { fn vx_to_string(&self) -> String; }
impl VxText for F64 { #[verifier::external_body] fn vx_to_string(&self) -> String { String::new() } }
impl VxText for F32 { #[verifier::external_body] fn vx_to_string(&self) -> String { String::new() } }
impl VxText for str { #[verifier::external_body] fn vx_to_string(&self) -> String { String::new() } }
impl VxText for String { #[verifier::external_body] fn vx_to_string(&self) -> String { String::new() } }
pub trait VxPushStr { fn vx_push_str(&mut self, s: &String); }
impl VxPushStr for String { #[verifier::external_body] fn vx_push_str(&mut self, s: &String) { } }
pub trait VxSame: Sized { fn vx_same(&self) -> (r: Self) ensures r == *self;  }
impl<K, V> VxSame for HashMap<K, V> {
    #[verifier::external_body] fn vx_same(&self) -> (r: Self) { unimplemented!() }
}
impl<K> VxSame for HashSet<K> {
    #[verifier::external_body] fn vx_same(&self) -> (r: Self) { unimplemented!() }
}
