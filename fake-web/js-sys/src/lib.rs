pub use wasm_bindgen::js::{Array, ArrayBuffer, DataView, Object, Promise, Uint8Array};
