//! A native stand-in for the parts of wasm-bindgen, js-sys, web-sys, wasm-bindgen-futures and gloo that
//! a WebUSB transport can use. The harness plays the browser and the device through [`sim`].
use std::fmt;
use std::sync::Arc;

/// A JavaScript value
#[derive(Clone)]
pub struct JsValue(Arc<sim::V>);
impl JsValue {
    pub const UNDEFINED: fn() -> JsValue = || JsValue::of(sim::V::Undefined);
    pub fn of(v: sim::V) -> Self {
        JsValue(Arc::new(v))
    }
    pub fn v(&self) -> &sim::V {
        &self.0
    }
    pub fn undefined() -> Self {
        Self::of(sim::V::Undefined)
    }
    pub fn null() -> Self {
        Self::of(sim::V::Null)
    }
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> Self {
        Self::of(sim::V::Str(s.to_string()))
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self.v(), sim::V::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self.v(), sim::V::Null)
    }
    pub fn as_string(&self) -> Option<String> {
        match self.v() {
            sim::V::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
}
impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "JsValue({:?})", self.v())
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        JsValue::from_str(s)
    }
}

/// Conversions between the typed wrappers
pub trait JsCast: AsRef<JsValue> + Into<JsValue> {
    fn instanceof(v: &JsValue) -> bool;
    fn unchecked_from_js(v: JsValue) -> Self;
    fn has_type<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if T::instanceof(self.as_ref()) {
            Ok(T::unchecked_from_js(self.into()))
        } else {
            Err(self)
        }
    }
    fn unchecked_from_js_ref(v: &JsValue) -> &Self;
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        T::instanceof(self.as_ref()).then(|| T::unchecked_from_js_ref(self.as_ref()))
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_from_js_ref(self.as_ref())
    }
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn unchecked_into<T: JsCast>(self) -> T {
        T::unchecked_from_js(self.into())
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}
impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }
    fn unchecked_from_js(v: JsValue) -> Self {
        v
    }
    fn unchecked_from_js_ref(v: &JsValue) -> &Self {
        v
    }
}

pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, m: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
pub type JsError = JsValue;

pub mod prelude {
    pub use crate::{JsCast, JsError, JsValue, UnwrapThrowExt};
}

macro_rules! wrapper {
    ($n:ident, $p:pat) => {
        #[derive(Clone, Debug)]
        #[repr(transparent)]
        pub struct $n(pub(crate) crate::JsValue);
        impl AsRef<crate::JsValue> for $n {
            fn as_ref(&self) -> &crate::JsValue {
                &self.0
            }
        }
        impl From<$n> for crate::JsValue {
            fn from(x: $n) -> crate::JsValue {
                x.0
            }
        }
        impl From<crate::JsValue> for $n {
            fn from(v: crate::JsValue) -> $n {
                $n(v)
            }
        }
        impl std::ops::Deref for $n {
            type Target = crate::JsValue;
            fn deref(&self) -> &crate::JsValue {
                &self.0
            }
        }
        impl crate::JsCast for $n {
            fn instanceof(v: &crate::JsValue) -> bool {
                #[allow(unreachable_patterns)]
                match v.v() {
                    $p => true,
                    _ => false,
                }
            }
            fn unchecked_from_js(v: crate::JsValue) -> Self {
                $n(v)
            }
            fn unchecked_from_js_ref(v: &crate::JsValue) -> &Self {
                // the wrapper is transparent
                unsafe { &*(v as *const crate::JsValue as *const Self) }
            }
        }
    };
}

pub mod js {
    use crate::sim::{self, V};
    use crate::JsValue;
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    wrapper!(Object, _);
    wrapper!(Promise, V::Promise(_));
    wrapper!(Array, V::Array(_));
    wrapper!(Uint8Array, V::Bytes(_));
    wrapper!(ArrayBuffer, V::Bytes(_));
    wrapper!(DataView, V::Bytes(_));

    fn bytes(v: &JsValue) -> &[u8] {
        match v.v() {
            V::Bytes(b) => b,
            o => panic!("simulated browser: {o:?} used as bytes"),
        }
    }
    impl Array {
        pub fn length(&self) -> u32 {
            self.vals().len() as u32
        }
        pub fn get(&self, i: u32) -> JsValue {
            self.vals().get(i as usize).cloned().unwrap_or_else(JsValue::undefined)
        }
        pub fn at(&self, i: i32) -> JsValue {
            self.get(if i < 0 { (self.length() as i32 + i) as u32 } else { i as u32 })
        }
        pub fn to_vec(&self) -> Vec<JsValue> {
            self.vals().to_vec()
        }
        pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
            self.vals().to_vec().into_iter()
        }
        fn vals(&self) -> &[JsValue] {
            match self.0.v() {
                V::Array(a) => a,
                o => panic!("simulated browser: {o:?} used as an array"),
            }
        }
    }
    impl IntoIterator for Array {
        type Item = JsValue;
        type IntoIter = std::vec::IntoIter<JsValue>;
        fn into_iter(self) -> Self::IntoIter {
            self.iter()
        }
    }
    impl From<&[u8]> for Uint8Array {
        fn from(b: &[u8]) -> Self {
            Uint8Array(JsValue::of(V::Bytes(b.to_vec())))
        }
    }
    impl Uint8Array {
        pub fn new(buf: &JsValue) -> Self {
            Uint8Array(buf.clone())
        }
        pub fn new_with_length(n: u32) -> Self {
            Uint8Array(JsValue::of(V::Bytes(vec![0; n as usize])))
        }
        pub fn new_with_byte_offset_and_length(buf: &JsValue, off: u32, len: u32) -> Self {
            Uint8Array(JsValue::of(V::Bytes(bytes(buf)[off as usize..(off + len) as usize].to_vec())))
        }
        pub fn to_vec(&self) -> Vec<u8> {
            bytes(&self.0).to_vec()
        }
        pub fn length(&self) -> u32 {
            bytes(&self.0).len() as u32
        }
        pub fn copy_to(&self, d: &mut [u8]) {
            d.copy_from_slice(bytes(&self.0))
        }
        pub fn copy_from(&self, s: &[u8]) {
            let b = bytes(&self.0);
            assert_eq!(b.len(), s.len());
            // arrays are shared and mutable over there; one thread only
            unsafe { std::ptr::copy(s.as_ptr(), b.as_ptr() as *mut u8, s.len()) }
        }
        pub fn byte_length(&self) -> u32 {
            self.length()
        }
        pub fn byte_offset(&self) -> u32 {
            0
        }
        pub fn slice(&self, a: u32, b: u32) -> Self {
            self.subarray(a, b)
        }
        pub fn get_index(&self, i: u32) -> u8 {
            bytes(&self.0)[i as usize]
        }
        pub fn subarray(&self, a: u32, b: u32) -> Self {
            Self::from(&bytes(&self.0)[a as usize..b as usize])
        }
        pub fn buffer(&self) -> ArrayBuffer {
            ArrayBuffer(self.0.clone())
        }
    }
    impl ArrayBuffer {
        pub fn byte_length(&self) -> u32 {
            bytes(&self.0).len() as u32
        }
    }
    impl DataView {
        pub fn buffer(&self) -> ArrayBuffer {
            ArrayBuffer(self.0.clone())
        }
        pub fn byte_length(&self) -> usize {
            bytes(&self.0).len()
        }
        pub fn byte_offset(&self) -> usize {
            0
        }
        pub fn get_uint8(&self, i: usize) -> u8 {
            bytes(&self.0)[i]
        }
    }
    impl Promise {
        pub fn resolve(v: &JsValue) -> Promise {
            sim::Settle::new(Some(Ok(v.clone()))).promise()
        }
        pub fn reject(v: &JsValue) -> Promise {
            sim::Settle::new(Some(Err(v.clone()))).promise()
        }
    }

    /// Waits for a promise
    #[derive(Debug)]
    pub struct JsFuture(sim::Settle);
    impl From<Promise> for JsFuture {
        fn from(p: Promise) -> Self {
            match p.0.v() {
                V::Promise(s) => JsFuture(s.clone()),
                o => panic!("simulated browser: {o:?} used as a promise"),
            }
        }
    }
    impl Future for JsFuture {
        type Output = Result<JsValue, JsValue>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            self.0.poll(cx)
        }
    }
    pub fn spawn_local(f: impl Future<Output = ()> + 'static) {
        sim::with(|s| s.spawned.push(Box::pin(f)));
    }
}

pub mod web {
    use crate::js::{Array, DataView, Object, Promise, Uint8Array};
    use crate::sim::{self, Ev, Kind, Settle, Transfer, V};
    use crate::JsValue;

    wrapper!(UsbDevice, V::Device(_));
    wrapper!(UsbInTransferResult, V::InRes(..));
    wrapper!(UsbOutTransferResult, V::OutRes(..));
    wrapper!(UsbDeviceRequestOptions, V::Json(_));

    #[non_exhaustive]
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum UsbTransferStatus {
        Ok,
        Stall,
        Babble,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum UsbDirection {
        In,
        Out,
    }
    #[derive(Clone, Debug)]
    pub struct Window;
    #[derive(Clone, Debug)]
    pub struct Navigator;
    #[derive(Clone, Debug)]
    pub struct Usb;
    pub fn window() -> Option<Window> {
        Some(Window)
    }
    impl Window {
        pub fn navigator(&self) -> Navigator {
            Navigator
        }
    }
    impl Navigator {
        pub fn usb(&self) -> Usb {
            Usb
        }
    }
    fn dev(i: usize) -> JsValue {
        JsValue::of(V::Device(i))
    }
    impl Usb {
        pub fn get_devices(&self) -> Promise {
            let r = sim::with(|s| {
                s.log.push(Ev::GetDevices);
                if s.get_devices_fails {
                    Err(JsValue::from_str("getDevices failed"))
                } else {
                    Ok(JsValue::of(V::Array((0..s.devices.len()).filter(|i| s.devices[*i].paired).map(dev).collect())))
                }
            });
            sim::later(r)
        }
        pub fn request_device(&self, o: &UsbDeviceRequestOptions) -> Promise {
            let r = sim::with(|s| {
                let j = match o.0.v() {
                    V::Json(j) => j.clone(),
                    _ => Default::default(),
                };
                s.log.push(Ev::Request(j));
                s.chosen.map(dev).ok_or_else(|| JsValue::from_str("NotFoundError"))
            });
            sim::later(r)
        }
    }
    impl UsbDevice {
        fn id(&self) -> usize {
            match self.0.v() {
                V::Device(i) => *i,
                o => panic!("simulated browser: {o:?} used as a device"),
            }
        }
        pub fn vendor_id(&self) -> u16 {
            sim::with(|s| s.devices[self.id()].vid)
        }
        pub fn product_id(&self) -> u16 {
            sim::with(|s| s.devices[self.id()].pid)
        }
        pub fn serial_number(&self) -> Option<String> {
            None
        }
        pub fn product_name(&self) -> Option<String> {
            None
        }
        pub fn opened(&self) -> bool {
            sim::with(|s| s.log.contains(&Ev::Open(self.id())))
        }
        fn step(&self, ev: Ev, fails: bool) -> Promise {
            sim::with(|s| s.log.push(ev));
            sim::later(if fails { Err(JsValue::from_str("NetworkError")) } else { Ok(JsValue::undefined()) })
        }
        pub fn open(&self) -> Promise {
            let f = sim::with(|s| s.devices[self.id()].open_fails);
            self.step(Ev::Open(self.id()), f)
        }
        pub fn claim_interface(&self, n: u8) -> Promise {
            let f = sim::with(|s| s.devices[self.id()].claim_fails || !s.log.contains(&Ev::Open(self.id())));
            self.step(Ev::Claim(self.id(), n), f)
        }
        pub fn release_interface(&self, _n: u8) -> Promise {
            self.step(Ev::Other("release"), false)
        }
        pub fn select_configuration(&self, _n: u8) -> Promise {
            self.step(Ev::Other("configure"), false)
        }
        pub fn select_alternate_interface(&self, _n: u8, _a: u8) -> Promise {
            self.step(Ev::Other("alternate"), false)
        }
        pub fn clear_halt(&self, _d: UsbDirection, _n: u8) -> Promise {
            self.step(Ev::Other("clear halt"), false)
        }
        pub fn reset(&self) -> Promise {
            self.step(Ev::Other("reset"), false)
        }
        pub fn close(&self) -> Promise {
            self.step(Ev::Other("close"), false)
        }
        fn transfer(&self, kind: Kind, ep: u8, data: Vec<u8>, len: usize) -> Promise {
            let st = Settle::new(None);
            let t = Transfer { kind, device: self.id(), ep, data, len, settle: st.clone() };
            let w = sim::with(|s| {
                s.log.push(match kind {
                    Kind::Out => Ev::Out(t.data.clone(), ep),
                    Kind::In => Ev::In(len, ep),
                });
                match kind {
                    Kind::Out => s.out.push_back(t),
                    Kind::In => s.inn.push_back(t),
                }
                s.on_submit.drain(..).collect::<Vec<_>>()
            });
            for w in w {
                w.wake();
            }
            st.promise()
        }
        pub fn transfer_in(&self, ep: u8, len: u32) -> Promise {
            self.transfer(Kind::In, ep, vec![], len as usize)
        }
        fn out(&self, ep: u8, data: Vec<u8>) -> Result<Promise, JsValue> {
            let throw = sim::with(|s| {
                let n = s.log.iter().filter(|e| matches!(e, Ev::Out(..))).count();
                if s.throw_at == Some(n) {
                    s.log.push(Ev::Threw);
                    true
                } else {
                    false
                }
            });
            if throw {
                return Err(JsValue::from_str("InvalidStateError"));
            }
            let n = data.len();
            Ok(self.transfer(Kind::Out, ep, data, n))
        }
        pub fn transfer_out_with_u8_array(&self, ep: u8, d: &Uint8Array) -> Result<Promise, JsValue> {
            self.out(ep, d.to_vec())
        }
        pub fn transfer_out_with_u8_slice(&self, ep: u8, d: &mut [u8]) -> Result<Promise, JsValue> {
            self.out(ep, d.to_vec())
        }
        pub fn transfer_out_with_buffer_source(&self, ep: u8, d: &Object) -> Result<Promise, JsValue> {
            match d.as_ref().v() {
                V::Bytes(b) => self.out(ep, b.clone()),
                _ => Err(JsValue::from_str("TypeError")),
            }
        }
    }
    impl UsbInTransferResult {
        pub fn status(&self) -> UsbTransferStatus {
            match self.0.v() {
                V::InRes(s, _) => *s,
                o => panic!("simulated browser: {o:?} used as an IN result"),
            }
        }
        pub fn data(&self) -> Option<DataView> {
            match self.0.v() {
                V::InRes(_, d) => d.as_ref().map(|d| DataView::from(JsValue::of(V::Bytes(d.clone())))),
                o => panic!("simulated browser: {o:?} used as an IN result"),
            }
        }
    }
    impl UsbOutTransferResult {
        pub fn status(&self) -> UsbTransferStatus {
            match self.0.v() {
                V::OutRes(s, _) => *s,
                o => panic!("simulated browser: {o:?} used as an OUT result"),
            }
        }
        pub fn bytes_written(&self) -> u32 {
            match self.0.v() {
                V::OutRes(_, n) => *n,
                o => panic!("simulated browser: {o:?} used as an OUT result"),
            }
        }
    }
    #[allow(dead_code)]
    fn _u(_: Array) {}
}

/// The harness' side
pub mod sim {
    use crate::js::Promise;
    use crate::web::UsbTransferStatus;
    use crate::JsValue;
    use std::cell::RefCell;
    use std::collections::VecDeque;
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::{Arc, Mutex};
    use std::task::{Context, Poll, Waker};

    #[derive(Debug)]
    pub enum V {
        Undefined,
        Null,
        Str(String),
        Json(serde_json::Value),
        Array(Vec<JsValue>),
        Bytes(Vec<u8>),
        Promise(Settle),
        Device(usize),
        InRes(UsbTransferStatus, Option<Vec<u8>>),
        OutRes(UsbTransferStatus, u32),
    }

    #[derive(Debug, Default)]
    struct St {
        result: Option<Result<JsValue, JsValue>>,
        wakers: Vec<Waker>,
    }
    /// The settling side of a promise
    #[derive(Clone, Debug)]
    pub struct Settle(Arc<Mutex<St>>);
    impl Settle {
        pub fn new(result: Option<Result<JsValue, JsValue>>) -> Self {
            Settle(Arc::new(Mutex::new(St { result, wakers: vec![] })))
        }
        pub fn promise(&self) -> Promise {
            Promise::from(JsValue::of(V::Promise(self.clone())))
        }
        pub fn settle(&self, r: Result<JsValue, JsValue>) {
            let w = {
                let mut s = self.0.lock().unwrap();
                s.result = Some(r);
                std::mem::take(&mut s.wakers)
            };
            for w in w {
                w.wake();
            }
        }
        pub(crate) fn poll(&self, cx: &mut Context<'_>) -> Poll<Result<JsValue, JsValue>> {
            let mut s = self.0.lock().unwrap();
            match &s.result {
                Some(r) => Poll::Ready(r.clone()),
                None => {
                    s.wakers.push(cx.waker().clone());
                    Poll::Pending
                }
            }
        }
    }

    #[derive(Clone, Debug)]
    pub struct DevCfg {
        pub vid: u16,
        pub pid: u16,
        pub paired: bool,
        pub open_fails: bool,
        pub claim_fails: bool,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Kind {
        In,
        Out,
    }
    #[derive(Debug)]
    pub struct Transfer {
        pub kind: Kind,
        pub device: usize,
        pub ep: u8,
        pub data: Vec<u8>,
        pub len: usize,
        pub settle: Settle,
    }
    #[derive(Clone, Debug, PartialEq)]
    pub enum Ev {
        GetDevices,
        Request(serde_json::Value),
        Open(usize),
        Claim(usize, u8),
        Out(Vec<u8>, u8),
        /// an OUT transfer was settled: true if it was successful
        OutDone(bool),
        Threw,
        In(usize, u8),
        Other(&'static str),
    }
    #[derive(Default)]
    pub struct Sim {
        pub devices: Vec<DevCfg>,
        pub get_devices_fails: bool,
        /// the device the user picks
        pub chosen: Option<usize>,
        /// the n-th transferOut throws instead of returning a promise
        pub throw_at: Option<usize>,
        pub log: Vec<Ev>,
        pub out: VecDeque<Transfer>,
        pub inn: VecDeque<Transfer>,
        pub on_submit: Vec<Waker>,
        /// promises of the connection phase that are settled by the harness
        pub later: VecDeque<(Settle, Result<JsValue, JsValue>)>,
        pub spawned: Vec<Pin<Box<dyn Future<Output = ()>>>>,
    }
    thread_local! {
        static SIM: RefCell<Sim> = RefCell::new(Sim::default());
    }
    pub fn with<R>(f: impl FnOnce(&mut Sim) -> R) -> R {
        SIM.with(|s| f(&mut s.borrow_mut()))
    }
    pub fn reset() {
        let old = SIM.with(|s| s.replace(Sim::default()));
        drop(old);
    }
    pub(crate) fn later(r: Result<JsValue, JsValue>) -> Promise {
        let st = Settle::new(None);
        let w = with(|s| {
            s.later.push_back((st.clone(), r));
            s.on_submit.drain(..).collect::<Vec<_>>()
        });
        for w in w {
            w.wake();
        }
        st.promise()
    }
}
