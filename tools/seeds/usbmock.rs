// a simulated USB peripheral: IN packets are recorded (the host may stop taking them), OUT packets come from a queue
#![allow(dead_code)]
use embassy_sync::blocking_mutex::raw::NoopRawMutex;
use embassy_usb_driver as drv;
pub use postcard_rpc::header::*;
pub use postcard_rpc::server::{WireRx, WireRxErrorKind, WireTx, WireTxErrorKind};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;
struct Clock;
fn start() -> std::time::Instant {
    static S: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    *S.get_or_init(std::time::Instant::now)
}
impl embassy_time_driver::Driver for Clock {
    fn now(&self) -> u64 {
        start().elapsed().as_micros() as u64
    }
    fn schedule_wake(&self, at: u64, waker: &std::task::Waker) {
        let (w, d) = (waker.clone(), at.saturating_sub(self.now()) + 1);
        std::thread::spawn(move || {
            std::thread::sleep(std::time::Duration::from_micros(d));
            w.wake();
        });
    }
}
embassy_time_driver::time_driver_impl!(static CLK: Clock = Clock);
#[no_mangle]
extern "Rust" fn __pender(_ctx: *mut ()) {}
#[derive(Default)]
pub struct Bus {
    /// packets the host has taken
    pub taken: Vec<Vec<u8>>,
    /// how many more the host takes
    pub room: Option<usize>,
    pub out: VecDeque<Vec<u8>>,
}
impl Bus {
    /// the transfers as a host sees them: packets joined up to the first one shorter than 64 bytes
    pub fn transfers(&self) -> (Vec<Vec<u8>>, Vec<u8>) {
        let (mut done, mut cur) = (vec![], vec![]);
        for p in &self.taken {
            cur.extend_from_slice(p);
            if p.len() < 64 {
                done.push(std::mem::take(&mut cur));
            }
        }
        (done, cur)
    }
    pub fn push(&mut self, data: &[u8]) {
        self.out.extend(data.chunks(64).map(|c| c.to_vec()));
        if data.len() % 64 == 0 {
            self.out.push_back(vec![]);
        }
    }
}
pub type B = Rc<RefCell<Bus>>;
pub struct Dr(B);
pub struct In(B, drv::EndpointInfo);
pub struct Out(B, drv::EndpointInfo);
pub struct Ctl;
pub struct Bs;
impl drv::Endpoint for In {
    fn info(&self) -> &drv::EndpointInfo {
        &self.1
    }
    async fn wait_enabled(&mut self) {}
}
impl drv::Endpoint for Out {
    fn info(&self) -> &drv::EndpointInfo {
        &self.1
    }
    async fn wait_enabled(&mut self) {}
}
impl drv::EndpointIn for In {
    async fn write(&mut self, buf: &[u8]) -> Result<(), drv::EndpointError> {
        let room = self.0.borrow().room;
        match room {
            Some(0) => std::future::pending::<()>().await,
            Some(n) => self.0.borrow_mut().room = Some(n - 1),
            None => {}
        }
        self.0.borrow_mut().taken.push(buf.to_vec());
        Ok(())
    }
}
impl drv::EndpointOut for Out {
    async fn read(&mut self, buf: &mut [u8]) -> Result<usize, drv::EndpointError> {
        let Some(p) = self.0.borrow_mut().out.pop_front() else {
            return std::future::pending().await;
        };
        if p.len() > buf.len() {
            return Err(drv::EndpointError::BufferOverflow);
        }
        buf[..p.len()].copy_from_slice(&p);
        Ok(p.len())
    }
}
impl drv::ControlPipe for Ctl {
    fn max_packet_size(&self) -> usize {
        64
    }
    async fn setup(&mut self) -> [u8; 8] {
        std::future::pending().await
    }
    async fn data_out(&mut self, _b: &mut [u8], _f: bool, _l: bool) -> Result<usize, drv::EndpointError> {
        std::future::pending().await
    }
    async fn data_in(&mut self, _d: &[u8], _f: bool, _l: bool) -> Result<(), drv::EndpointError> {
        std::future::pending().await
    }
    async fn accept(&mut self) {}
    async fn reject(&mut self) {}
    async fn accept_set_address(&mut self, _a: u8) {}
}
impl drv::Bus for Bs {
    async fn enable(&mut self) {}
    async fn disable(&mut self) {}
    async fn poll(&mut self) -> drv::Event {
        std::future::pending().await
    }
    fn endpoint_set_enabled(&mut self, _a: drv::EndpointAddress, _e: bool) {}
    fn endpoint_set_stalled(&mut self, _a: drv::EndpointAddress, _s: bool) {}
    fn endpoint_is_stalled(&mut self, _a: drv::EndpointAddress) -> bool {
        false
    }
    async fn remote_wakeup(&mut self) -> Result<(), drv::Unsupported> {
        Err(drv::Unsupported)
    }
}
fn info(t: drv::EndpointType, mps: u16, iv: u8, d: drv::Direction) -> drv::EndpointInfo {
    drv::EndpointInfo { addr: drv::EndpointAddress::from_parts(1, d), ep_type: t, max_packet_size: mps, interval_ms: iv }
}
impl drv::Driver<'static> for Dr {
    type EndpointOut = Out;
    type EndpointIn = In;
    type ControlPipe = Ctl;
    type Bus = Bs;
    fn alloc_endpoint_out(&mut self, t: drv::EndpointType, mps: u16, iv: u8) -> Result<Out, drv::EndpointAllocError> {
        Ok(Out(self.0.clone(), info(t, mps, iv, drv::Direction::Out)))
    }
    fn alloc_endpoint_in(&mut self, t: drv::EndpointType, mps: u16, iv: u8) -> Result<In, drv::EndpointAllocError> {
        Ok(In(self.0.clone(), info(t, mps, iv, drv::Direction::In)))
    }
    fn start(self, _m: u16) -> (Bs, Ctl) {
        (Bs, Ctl)
    }
}
macro_rules! ver {
    ($m:ident, $imp:ident, $usb:ident) => {
        pub mod $m {
            use super::*;
            use postcard_rpc::server::impls::$imp::dispatch_impl as d;
            pub type Tx = d::WireTxImpl<NoopRawMutex, Dr>;
            pub type Rx = d::WireRxImpl<Dr>;
            pub fn make(tx_len: usize) -> (B, Tx, Rx) {
                let bus = B::default();
                let st: &'static d::WireStorage<NoopRawMutex, Dr, 256, 256, 64, 256> = Box::leak(Box::new(d::WireStorage::new()));
                let buf: &'static mut [u8] = vec![0u8; tx_len].leak();
                let (u, tx, rx) = st.init(Dr(bus.clone()), $usb::Config::new(0x16c0, 0x27dd), buf);
                std::mem::forget(u);
                (bus, tx, rx)
            }
        }
    };
}
ver!(v3, embassy_usb_v0_3, embassy_usb_0_3);
ver!(v4, embassy_usb_v0_4, embassy_usb_0_4);
pub fn hdr(seq: u32) -> VarHeader {
    VarHeader { key: VarKey::Key8(unsafe { postcard_rpc::Key::from_bytes(*b"demokey1") }), seq_no: VarSeq::Seq4(seq) }
}
pub async fn within<F: std::future::Future>(what: &str, f: F) -> F::Output {
    match tokio::time::timeout(std::time::Duration::from_secs(10), f).await {
        Ok(v) => v,
        Err(_) => fail(&format!("{what} never finished")),
    }
}
pub fn fail(m: &str) -> ! {
    println!("BROKEN: {m}");
    std::process::exit(1)
}
