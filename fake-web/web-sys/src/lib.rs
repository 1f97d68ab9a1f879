pub use wasm_bindgen::web::{
    window, Navigator, Usb, UsbDevice, UsbDeviceRequestOptions, UsbDirection, UsbInTransferResult, UsbOutTransferResult, UsbTransferStatus, Window,
};
