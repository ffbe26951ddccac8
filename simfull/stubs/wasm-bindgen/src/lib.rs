//! Stand-in for wasm-bindgen outside a browser: `#[wasm_bindgen]` leaves items alone and JsValue
//! holds the few kinds of value the zkenc bindings make.
pub use wasm_bindgen_macro::wasm_bindgen;
pub mod prelude {
    pub use super::{wasm_bindgen, JsError, JsValue, UnwrapThrowExt};
}
#[derive(Clone, Debug, PartialEq)]
pub enum JsValue {
    Undefined,
    Null,
    Bool(bool),
    Number(f64),
    String(String),
    Error(String),
}
impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const NULL: JsValue = JsValue::Null;
    pub const TRUE: JsValue = JsValue::Bool(true);
    pub const FALSE: JsValue = JsValue::Bool(false);
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue {
        JsValue::String(s.to_string())
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue::Number(n)
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue::Bool(b)
    }
    pub fn undefined() -> JsValue {
        JsValue::Undefined
    }
    pub fn null() -> JsValue {
        JsValue::Null
    }
    pub fn as_string(&self) -> Option<String> {
        match self {
            JsValue::String(s) => Some(s.clone()),
            _ => None,
        }
    }
    /// The text a JavaScript caller would see.
    pub fn text(&self) -> String {
        match self {
            JsValue::String(s) | JsValue::Error(s) => s.clone(),
            o => format!("{o:?}"),
        }
    }
}
macro_rules! from { ($($t:ty => |$v:ident| $e:expr;)*) => { $(impl From<$t> for JsValue { fn from($v: $t) -> JsValue { $e } })* } }
from! {
    &str => |v| JsValue::String(v.to_string());
    &String => |v| JsValue::String(v.clone());
    String => |v| JsValue::String(v);
    bool => |v| JsValue::Bool(v);
    f64 => |v| JsValue::Number(v);
    u32 => |v| JsValue::Number(v as f64);
    i32 => |v| JsValue::Number(v as f64);
    JsError => |v| JsValue::Error(v.0);
}
#[derive(Clone, Debug)]
pub struct JsError(String);
impl JsError {
    pub fn new(s: &str) -> JsError {
        JsError(s.to_string())
    }
}
impl<E: std::error::Error> From<E> for JsError {
    fn from(e: E) -> JsError {
        JsError(e.to_string())
    }
}
pub fn throw_str(s: &str) -> ! {
    panic!("{}", s)
}
pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, m: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
