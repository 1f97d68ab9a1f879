pub use wasm_bindgen::js::{spawn_local, JsFuture};
