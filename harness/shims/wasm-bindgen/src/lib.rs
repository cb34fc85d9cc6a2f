//! Offline native stand-in: `#[wasm_bindgen]` leaves the item as it is.
#[derive(Clone, Debug)]
pub struct JsValue(pub String);
impl JsValue {
    pub const NULL: JsValue = JsValue(String::new());
    pub fn from_str(s: &str) -> Self { JsValue(s.to_string()) }
}
impl From<&str> for JsValue { fn from(s: &str) -> Self { JsValue(s.to_string()) } }
impl From<String> for JsValue { fn from(s: String) -> Self { JsValue(s) } }
#[derive(Clone, Debug)]
pub struct JsError(pub String);
impl JsError { pub fn new(s: &str) -> Self { JsError(s.to_string()) } }
impl From<JsError> for JsValue { fn from(e: JsError) -> Self { JsValue(e.0) } }
pub use vt_wasm_bindgen_macro::wasm_bindgen;
pub mod prelude {
    pub use crate::{wasm_bindgen, JsError, JsValue};
}
