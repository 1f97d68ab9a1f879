pub mod utils {
    pub fn window() -> wasm_bindgen::web::Window {
        wasm_bindgen::web::window().unwrap()
    }
    pub mod format {
        use wasm_bindgen::{sim::V, JsValue};
        pub trait JsValueSerdeExt {
            fn from_serde<T: serde::ser::Serialize + ?Sized>(t: &T) -> serde_json::Result<JsValue>;
            fn into_serde<T: for<'a> serde::de::Deserialize<'a>>(&self) -> serde_json::Result<T>;
        }
        impl JsValueSerdeExt for JsValue {
            fn from_serde<T: serde::ser::Serialize + ?Sized>(t: &T) -> serde_json::Result<JsValue> {
                Ok(JsValue::of(V::Json(serde_json::to_value(t)?)))
            }
            fn into_serde<T: for<'a> serde::de::Deserialize<'a>>(&self) -> serde_json::Result<T> {
                match self.v() {
                    V::Json(j) => serde_json::from_value(j.clone()),
                    _ => serde_json::from_value(serde_json::Value::Null),
                }
            }
        }
    }
}
