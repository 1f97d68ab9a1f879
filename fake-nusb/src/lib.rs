//! A simulated stand-in for the parts of `nusb` 0.1 that a bulk host transport can use. The verification
//! harness configures devices and plays the USB controller through [`sim`].
#![allow(clippy::new_without_default)]

pub type Error = std::io::Error;

pub mod transfer {
    use crate::sim;
    use std::fmt;
    use std::future::{poll_fn, Future};
    use std::marker::PhantomData;
    use std::pin::Pin;
    use std::sync::{Arc, Mutex};
    use std::task::{Context, Poll};

    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    #[allow(dead_code)]
    pub enum EndpointType {
        Control = 0,
        Isochronous = 1,
        Bulk = 2,
        Interrupt = 3,
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub enum Direction {
        Out = 0,
        In = 1,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum TransferError {
        Cancelled,
        Stall,
        Disconnected,
        Fault,
        Unknown,
    }
    impl fmt::Display for TransferError {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for TransferError {}
    impl From<TransferError> for std::io::Error {
        fn from(value: TransferError) -> Self {
            std::io::Error::new(std::io::ErrorKind::Other, value)
        }
    }

    pub trait TransferRequest {
        type Response;
        #[doc(hidden)]
        fn into_req(self) -> sim::Req;
        #[doc(hidden)]
        fn from_done(d: sim::Done) -> Self::Response;
    }

    #[derive(Debug)]
    pub struct RequestBuffer {
        requested: usize,
    }
    impl RequestBuffer {
        pub fn new(len: usize) -> RequestBuffer {
            RequestBuffer { requested: len }
        }
        pub fn reuse(_v: Vec<u8>, len: usize) -> RequestBuffer {
            RequestBuffer { requested: len }
        }
    }
    impl TransferRequest for RequestBuffer {
        type Response = Vec<u8>;
        fn into_req(self) -> sim::Req {
            sim::Req { data: vec![], len: self.requested }
        }
        fn from_done(d: sim::Done) -> Vec<u8> {
            d.data
        }
    }
    #[derive(Debug)]
    pub struct ResponseBuffer {
        transferred: usize,
    }
    impl ResponseBuffer {
        pub fn actual_length(&self) -> usize {
            self.transferred
        }
        pub fn reuse(self) -> Vec<u8> {
            Vec::new()
        }
    }
    impl TransferRequest for Vec<u8> {
        type Response = ResponseBuffer;
        fn into_req(self) -> sim::Req {
            let len = self.len();
            sim::Req { data: self, len }
        }
        fn from_done(d: sim::Done) -> ResponseBuffer {
            ResponseBuffer { transferred: d.len }
        }
    }

    #[derive(Debug, Clone)]
    #[must_use]
    pub struct Completion<T> {
        pub data: T,
        pub status: Result<(), TransferError>,
    }
    impl<T> Completion<T> {
        pub fn into_result(self) -> Result<T, TransferError> {
            self.status.map(|()| self.data)
        }
    }
    impl TryFrom<Completion<Vec<u8>>> for Vec<u8> {
        type Error = TransferError;
        fn try_from(c: Completion<Vec<u8>>) -> Result<Self, Self::Error> {
            c.into_result()
        }
    }
    impl TryFrom<Completion<ResponseBuffer>> for ResponseBuffer {
        type Error = TransferError;
        fn try_from(c: Completion<ResponseBuffer>) -> Result<Self, Self::Error> {
            c.into_result()
        }
    }

    pub struct Queue<R: TransferRequest> {
        pub(crate) q: Arc<Mutex<sim::Q>>,
        pub(crate) bufs: PhantomData<R>,
    }
    impl<R: TransferRequest + Send + Sync> Queue<R> {
        pub fn submit(&mut self, data: R) {
            self.q.lock().unwrap().submit(data.into_req());
        }
        pub fn next_complete<'a>(&'a mut self) -> impl Future<Output = Completion<R::Response>> + Unpin + Send + Sync + 'a {
            poll_fn(|cx| self.poll_next(cx))
        }
        pub fn poll_next(&mut self, cx: &mut Context) -> Poll<Completion<R::Response>> {
            let mut q = self.q.lock().unwrap();
            assert!(q.outstanding() > 0, "queue should have pending transfers when calling next_complete");
            match q.take_done() {
                Some(d) => {
                    let status = d.status;
                    Poll::Ready(Completion { data: R::from_done(d), status })
                }
                None => {
                    q.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        }
        pub fn pending(&self) -> usize {
            self.q.lock().unwrap().outstanding()
        }
        pub fn cancel_all(&mut self) {
            self.q.lock().unwrap().cancel_all();
        }
        pub fn clear_halt(&mut self) -> Result<(), crate::Error> {
            self.q.lock().unwrap().clear_halt()
        }
    }
    impl<R: TransferRequest> Drop for Queue<R> {
        fn drop(&mut self) {
            let mut q = self.q.lock().unwrap();
            q.dropped = true;
            q.log.push(sim::Ev::Dropped);
        }
    }

    /// a single transfer outside a queue
    pub struct TransferFuture<R: TransferRequest> {
        pub(crate) q: Queue<R>,
    }
    impl<R: TransferRequest + Send + Sync> Future for TransferFuture<R> {
        type Output = Completion<R::Response>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            self.q.poll_next(cx)
        }
    }
    impl<R: TransferRequest> Unpin for TransferFuture<R> {}
}

pub mod descriptors {
    use crate::sim::EpCfg;
    use crate::transfer::{Direction, EndpointType};

    #[derive(Clone, Debug)]
    pub struct InterfaceAltSetting<'a> {
        pub(crate) number: u8,
        pub(crate) alt: u8,
        pub(crate) class: u8,
        pub(crate) eps: &'a [EpCfg],
    }
    impl<'a> InterfaceAltSetting<'a> {
        pub fn interface_number(&self) -> u8 {
            self.number
        }
        pub fn alternate_setting(&self) -> u8 {
            self.alt
        }
        pub fn class(&self) -> u8 {
            self.class
        }
        pub fn num_endpoints(&self) -> u8 {
            self.eps.len() as u8
        }
        pub fn endpoints(&self) -> impl Iterator<Item = Endpoint<'a>> {
            let e: &'a [EpCfg] = self.eps;
            e.iter().map(Endpoint)
        }
    }
    #[derive(Clone, Debug)]
    pub struct Endpoint<'a>(pub(crate) &'a EpCfg);
    impl<'a> Endpoint<'a> {
        pub fn address(&self) -> u8 {
            self.0.addr
        }
        pub fn direction(&self) -> Direction {
            if self.0.addr & 0x80 != 0 {
                Direction::In
            } else {
                Direction::Out
            }
        }
        pub fn transfer_type(&self) -> EndpointType {
            self.0.kind
        }
        pub fn max_packet_size(&self) -> usize {
            self.0.mps
        }
        pub fn interval(&self) -> u8 {
            0
        }
    }
}

#[derive(Clone, Debug)]
pub struct InterfaceInfo {
    number: u8,
    class: u8,
    name: Option<String>,
}
impl InterfaceInfo {
    pub fn interface_number(&self) -> u8 {
        self.number
    }
    pub fn class(&self) -> u8 {
        self.class
    }
    pub fn subclass(&self) -> u8 {
        0
    }
    pub fn protocol(&self) -> u8 {
        0
    }
    pub fn interface_string(&self) -> Option<&str> {
        self.name.as_deref()
    }
}

#[derive(Clone, Debug)]
pub struct DeviceInfo {
    idx: usize,
    cfg: sim::DevCfg,
    ifs: Vec<InterfaceInfo>,
}
impl DeviceInfo {
    pub fn vendor_id(&self) -> u16 {
        self.cfg.vid
    }
    pub fn product_id(&self) -> u16 {
        self.cfg.pid
    }
    pub fn bus_number(&self) -> u8 {
        1
    }
    pub fn device_address(&self) -> u8 {
        self.idx as u8
    }
    pub fn class(&self) -> u8 {
        0
    }
    pub fn manufacturer_string(&self) -> Option<&str> {
        None
    }
    pub fn product_string(&self) -> Option<&str> {
        None
    }
    pub fn serial_number(&self) -> Option<&str> {
        self.cfg.serial.as_deref()
    }
    pub fn interfaces(&self) -> impl Iterator<Item = &InterfaceInfo> {
        self.ifs.iter()
    }
    pub fn open(&self) -> Result<Device, Error> {
        sim::with(|b| b.log.push(sim::BusEv::Open(self.idx)));
        if self.cfg.open_fails {
            return Err(std::io::Error::other("open failed"));
        }
        Ok(Device { idx: self.idx, cfg: self.cfg.clone() })
    }
}

#[derive(Clone)]
pub struct Device {
    idx: usize,
    cfg: sim::DevCfg,
}
impl Device {
    pub fn claim_interface(&self, interface: u8) -> Result<Interface, Error> {
        sim::with(|b| b.log.push(sim::BusEv::Claim(self.idx, interface)));
        let Some(i) = self.cfg.interfaces.iter().find(|i| i.number == interface) else {
            return Err(std::io::Error::other("no such interface"));
        };
        if i.claim_fails {
            return Err(std::io::Error::other("claim failed"));
        }
        Ok(Interface { dev: self.idx, cfg: i.clone() })
    }
    pub fn detach_and_claim_interface(&self, interface: u8) -> Result<Interface, Error> {
        self.claim_interface(interface)
    }
}

#[derive(Clone)]
pub struct Interface {
    dev: usize,
    cfg: sim::IfCfg,
}
impl Interface {
    pub fn interface_number(&self) -> u8 {
        self.cfg.number
    }
    pub fn set_alt_setting(&self, _alt: u8) -> Result<(), Error> {
        Ok(())
    }
    pub fn descriptors(&self) -> impl Iterator<Item = descriptors::InterfaceAltSetting<'_>> {
        self.cfg.alts.iter().enumerate().map(|(i, e)| descriptors::InterfaceAltSetting {
            number: self.cfg.number,
            alt: i as u8,
            class: self.cfg.class,
            eps: e,
        })
    }
    pub fn bulk_in_queue(&self, endpoint: u8) -> transfer::Queue<transfer::RequestBuffer> {
        transfer::Queue { q: sim::open_queue(self.dev, self.cfg.number, endpoint), bufs: std::marker::PhantomData }
    }
    pub fn bulk_out_queue(&self, endpoint: u8) -> transfer::Queue<Vec<u8>> {
        transfer::Queue { q: sim::open_queue(self.dev, self.cfg.number, endpoint), bufs: std::marker::PhantomData }
    }
    pub fn bulk_in(&self, endpoint: u8, buf: transfer::RequestBuffer) -> transfer::TransferFuture<transfer::RequestBuffer> {
        let mut q = self.bulk_in_queue(endpoint);
        q.submit(buf);
        transfer::TransferFuture { q }
    }
    pub fn bulk_out(&self, endpoint: u8, buf: Vec<u8>) -> transfer::TransferFuture<Vec<u8>> {
        let mut q = self.bulk_out_queue(endpoint);
        q.submit(buf);
        transfer::TransferFuture { q }
    }
    pub fn clear_halt(&self, endpoint: u8) -> Result<(), Error> {
        sim::open_queue(self.dev, self.cfg.number, endpoint).lock().unwrap().clear_halt()
    }
}

pub fn list_devices() -> Result<impl Iterator<Item = DeviceInfo>, Error> {
    let v = sim::with(|b| {
        if b.list_fails {
            return Err(std::io::Error::other("list failed"));
        }
        Ok(b.devices.clone())
    })?;
    Ok(v.into_iter().enumerate().map(|(idx, cfg)| {
        let ifs = cfg
            .interfaces
            .iter()
            .map(|i| InterfaceInfo { number: i.number, class: i.class, name: i.name.clone() })
            .collect();
        DeviceInfo { idx, cfg, ifs }
    }))
}

/// The controller side, for the harness
pub mod sim {
    use crate::transfer::{EndpointType, TransferError};
    use std::cell::RefCell;
    use std::collections::VecDeque;
    use std::sync::{Arc, Mutex};
    use std::task::Waker;

    #[derive(Clone, Debug)]
    pub struct EpCfg {
        pub addr: u8,
        pub kind: EndpointType,
        pub mps: usize,
    }
    #[derive(Clone, Debug)]
    pub struct IfCfg {
        pub number: u8,
        pub class: u8,
        pub name: Option<String>,
        pub alts: Vec<Vec<EpCfg>>,
        pub claim_fails: bool,
    }
    #[derive(Clone, Debug)]
    pub struct DevCfg {
        pub serial: Option<String>,
        pub vid: u16,
        pub pid: u16,
        pub interfaces: Vec<IfCfg>,
        pub open_fails: bool,
    }
    #[derive(Debug)]
    pub struct Req {
        pub data: Vec<u8>,
        pub len: usize,
    }
    #[derive(Debug, Clone)]
    pub struct Done {
        pub data: Vec<u8>,
        pub len: usize,
        pub status: Result<(), TransferError>,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum Ev {
        /// bytes of an OUT request, or requested length of an IN request
        Submit(Vec<u8>, usize),
        /// the controller finished the oldest transfer
        Finished(Result<(), TransferError>, usize),
        /// the driver took a completion
        Taken(Result<(), TransferError>),
        CancelAll(usize),
        /// with this many transfers still outstanding
        ClearHalt(usize),
        Dropped,
    }
    pub struct Q {
        pub dev: usize,
        pub interface: u8,
        pub endpoint: u8,
        /// still with the controller
        pub active: VecDeque<Req>,
        pub done: VecDeque<Done>,
        pub waker: Option<Waker>,
        pub log: Vec<Ev>,
        pub dropped: bool,
        pub clear_halt_fails: bool,
        pub on_submit: Option<Waker>,
    }
    impl Q {
        pub(crate) fn submit(&mut self, r: Req) {
            self.log.push(Ev::Submit(r.data.clone(), r.len));
            self.active.push_back(r);
            if let Some(w) = self.on_submit.take() {
                w.wake();
            }
        }
        pub fn outstanding(&self) -> usize {
            self.active.len() + self.done.len()
        }
        pub(crate) fn take_done(&mut self) -> Option<Done> {
            let d = self.done.pop_front()?;
            self.log.push(Ev::Taken(d.status));
            Some(d)
        }
        pub(crate) fn cancel_all(&mut self) {
            self.log.push(Ev::CancelAll(self.active.len()));
            while self.active.pop_front().is_some() {
                self.done.push_back(Done { data: vec![], len: 0, status: Err(TransferError::Cancelled) });
            }
        }
        pub(crate) fn clear_halt(&mut self) -> Result<(), crate::Error> {
            let n = self.outstanding();
            self.log.push(Ev::ClearHalt(n));
            if self.clear_halt_fails {
                Err(std::io::Error::other("clear halt failed"))
            } else {
                Ok(())
            }
        }
        /// finish the oldest active transfer; for IN transfers with this data
        pub fn finish(&mut self, data: Vec<u8>, status: Result<(), TransferError>) -> bool {
            let Some(r) = self.active.pop_front() else { return false };
            let len = if r.data.is_empty() { data.len() } else { r.data.len() };
            self.log.push(Ev::Finished(status, len));
            self.done.push_back(Done { data, len, status });
            if let Some(w) = self.waker.take() {
                w.wake();
            }
            true
        }
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum BusEv {
        Open(usize),
        Claim(usize, u8),
        Queue(usize, u8, u8),
    }
    #[derive(Default)]
    pub struct SimBus {
        pub devices: Vec<DevCfg>,
        pub list_fails: bool,
        pub log: Vec<BusEv>,
        pub queues: Vec<Arc<Mutex<Q>>>,
    }
    thread_local! {
        static BUS: RefCell<SimBus> = RefCell::new(SimBus::default());
    }
    pub fn with<T>(f: impl FnOnce(&mut SimBus) -> T) -> T {
        BUS.with(|b| f(&mut b.borrow_mut()))
    }
    pub fn reset() {
        let old = with(std::mem::take);
        drop(old);
    }
    pub(crate) fn open_queue(dev: usize, interface: u8, endpoint: u8) -> Arc<Mutex<Q>> {
        with(|b| {
            b.log.push(BusEv::Queue(dev, interface, endpoint));
            let q = Arc::new(Mutex::new(Q {
                dev,
                interface,
                endpoint,
                active: VecDeque::new(),
                done: VecDeque::new(),
                waker: None,
                log: vec![],
                dropped: false,
                clear_halt_fails: false,
                on_submit: None,
            }));
            b.queues.push(q.clone());
            q
        })
    }
}
