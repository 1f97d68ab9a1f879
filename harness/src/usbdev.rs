//! C16, C17, C18: the embassy-usb device transports (both stack versions) over a simulated USB
//! peripheral in virtual time.
use crate::exec::*;
use crate::refc::*;
use crate::report::*;
use crate::rng::Rng;
use embassy_sync::blocking_mutex::raw::NoopRawMutex;
use embassy_usb_driver as drv;
use postcard_rpc::header::{VarKeyKind, VarSeq};
use postcard_rpc::server::impls::embassy_usb_v0_3::dispatch_impl as v3;
use postcard_rpc::server::impls::embassy_usb_v0_4::dispatch_impl as v4;
use postcard_rpc::server::{Sender, WireRx, WireRxErrorKind, WireTx, WireTxErrorKind};
use postcard_rpc::standard_icd::LoggingTopic;
use postcard_rpc::Topic;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::future::Future;
use std::rc::Rc;
use std::task::{Poll, Waker};

// ------------------------------------------------------------------ virtual time for embassy

struct VtDriver;
impl embassy_time_driver::Driver for VtDriver {
    fn now(&self) -> u64 {
        // TICK_HZ is 1 MHz
        vt_now()
    }
    fn schedule_wake(&self, at: u64, waker: &std::task::Waker) {
        vt_schedule(at, waker)
    }
}
embassy_time_driver::time_driver_impl!(static VTD: VtDriver = VtDriver);

#[no_mangle]
extern "Rust" fn __pender(_ctx: *mut ()) {}

// ------------------------------------------------------------------ simulated peripheral

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum WPlan {
    /// the host takes the packet after this many microseconds
    Take(u64),
    /// never taken
    Hang,
    /// endpoint reports disabled after this many microseconds
    Disable(u64),
}

#[derive(Clone, Debug)]
pub enum RItem {
    Pkt(Vec<u8>),
    Wait(u64),
    Disable,
}

#[derive(Default)]
pub struct Dev {
    /// joined to a host by a cable (C29) instead of following a plan
    pub cable: Option<Cable>,
    plan: VecDeque<WPlan>,
    default_take: u64,
    /// a packet is on the bus as soon as the write starts (otherwise when it completes)
    commit_early: bool,
    /// the host forgets an unfinished transfer when the endpoint is disabled
    reset_on_disable: bool,
    writes: Vec<Wr>,
    cur: Vec<u8>,
    cur_dirty: bool,
    transfers: Vec<Vec<u8>>,
    rx: VecDeque<RItem>,
    reads: u64,
    pub too_long: Option<usize>,
    ep_alloc: Vec<(bool, u16)>,
}
/// the two bulk pipes of a device that is joined to a simulated host controller
#[derive(Default)]
pub struct Cable {
    /// the host asked for a packet of the IN endpoint and this is it
    pub in_pkt: Option<Vec<u8>>,
    pub in_writer: Option<Waker>,
    pub in_host: Option<Waker>,
    pub out_pkts: VecDeque<Vec<u8>>,
    pub out_reader: Option<Waker>,
    pub out_host: Option<Waker>,
    pub unplugged: bool,
}
impl Cable {
    pub fn unplug(&mut self) -> Vec<Waker> {
        self.unplugged = true;
        self.in_pkt = None;
        self.out_pkts.clear();
        [&mut self.in_writer, &mut self.in_host, &mut self.out_reader, &mut self.out_host].into_iter().filter_map(|w| w.take()).collect()
    }
}
/// removes the packet from the endpoint if the write is given up
struct CableWrite<'a>(&'a DevRef, bool);
impl Drop for CableWrite<'_> {
    fn drop(&mut self) {
        if self.1 {
            if let Some(c) = self.0.borrow_mut().cable.as_mut() {
                c.in_pkt = None;
            }
        }
    }
}
async fn cable_write(d: &DevRef, buf: &[u8]) -> Result<(), drv::EndpointError> {
    let mut g = CableWrite(d, false);
    std::future::poll_fn(|cx| {
        let mut dv = d.borrow_mut();
        if buf.len() > 64 {
            dv.too_long = Some(buf.len());
        }
        let c = dv.cable.as_mut().unwrap();
        if c.unplugged {
            g.1 = false;
            return Poll::Ready(Err(drv::EndpointError::Disabled));
        }
        if !g.1 {
            c.in_pkt = Some(buf.to_vec());
            g.1 = true;
        } else if c.in_pkt.is_none() {
            g.1 = false;
            return Poll::Ready(Ok(()));
        }
        c.in_writer = Some(cx.waker().clone());
        let w = c.in_host.take();
        drop(dv);
        if let Some(w) = w {
            w.wake();
        }
        Poll::Pending
    })
    .await
}
async fn cable_read(d: &DevRef, buf: &mut [u8]) -> Result<usize, drv::EndpointError> {
    std::future::poll_fn(|cx| {
        let mut dv = d.borrow_mut();
        let c = dv.cable.as_mut().unwrap();
        if c.unplugged {
            return Poll::Ready(Err(drv::EndpointError::Disabled));
        }
        let Some(p) = c.out_pkts.pop_front() else {
            c.out_reader = Some(cx.waker().clone());
            return Poll::Pending;
        };
        let w = c.out_host.take();
        drop(dv);
        if let Some(w) = w {
            w.wake();
        }
        if p.len() > buf.len() {
            return Poll::Ready(Err(drv::EndpointError::BufferOverflow));
        }
        buf[..p.len()].copy_from_slice(&p);
        Poll::Ready(Ok(p.len()))
    })
    .await
}
pub struct Wr {
    by: u32,
    begin: u64,
    end: Option<u64>,
    err: bool,
    len: usize,
}
impl Dev {
    fn on_bus(&mut self, b: &[u8]) {
        if b.len() > 64 {
            self.too_long = Some(b.len());
        }
        self.cur.extend_from_slice(b);
        self.cur_dirty = true;
        if b.len() < 64 {
            self.transfers.push(std::mem::take(&mut self.cur));
            self.cur_dirty = false;
        }
    }
}

thread_local! {
    /// which operation is being polled right now
    static WHO: Cell<u32> = const { Cell::new(0) };
}
/// poll `f` with WHO set; `limit`: drop it after that many polls
async fn attributed<T>(id: u32, mut limit: Option<usize>, f: impl Future<Output = T>) -> Option<T> {
    let mut f = Box::pin(f);
    std::future::poll_fn(move |cx| {
        WHO.with(|w| w.set(id));
        let r = f.as_mut().poll(cx);
        WHO.with(|w| w.set(0));
        if let Poll::Ready(v) = r {
            return Poll::Ready(Some(v));
        }
        if let Some(n) = limit.as_mut() {
            if *n == 0 {
                return Poll::Ready(None);
            }
            *n -= 1;
        }
        Poll::Pending
    })
    .await
}

pub type DevRef = Rc<RefCell<Dev>>;
pub struct SimDriver(DevRef);
pub struct SimIn(DevRef, drv::EndpointInfo);
pub struct SimOut(DevRef, drv::EndpointInfo);
pub struct SimCtl;
pub struct SimBus;

impl drv::Endpoint for SimIn {
    fn info(&self) -> &drv::EndpointInfo {
        &self.1
    }
    async fn wait_enabled(&mut self) {}
}
impl drv::Endpoint for SimOut {
    fn info(&self) -> &drv::EndpointInfo {
        &self.1
    }
    async fn wait_enabled(&mut self) {}
}
impl drv::EndpointIn for SimIn {
    async fn write(&mut self, buf: &[u8]) -> Result<(), drv::EndpointError> {
        if self.0.borrow().cable.is_some() {
            return cable_write(&self.0, buf).await;
        }
        let (plan, early, i) = {
            let mut d = self.0.borrow_mut();
            let p = d.plan.pop_front().unwrap_or(WPlan::Take(d.default_take));
            d.writes.push(Wr { by: WHO.with(|w| w.get()), begin: vt_now(), end: None, err: false, len: buf.len() });
            (p, d.commit_early, d.writes.len() - 1)
        };
        match plan {
            WPlan::Take(us) => {
                if early {
                    self.0.borrow_mut().on_bus(buf);
                }
                if us > 0 {
                    vt_sleep(us).await;
                }
                let mut d = self.0.borrow_mut();
                if !early {
                    d.on_bus(buf);
                }
                d.writes[i].end = Some(vt_now());
                Ok(())
            }
            WPlan::Hang => {
                if early {
                    self.0.borrow_mut().on_bus(buf);
                }
                std::future::pending::<()>().await;
                unreachable!()
            }
            WPlan::Disable(us) => {
                if us > 0 {
                    vt_sleep(us).await;
                }
                let mut d = self.0.borrow_mut();
                if d.reset_on_disable {
                    d.cur.clear();
                    d.cur_dirty = false;
                }
                d.writes[i].end = Some(vt_now());
                d.writes[i].err = true;
                Err(drv::EndpointError::Disabled)
            }
        }
    }
}
impl drv::EndpointOut for SimOut {
    async fn read(&mut self, buf: &mut [u8]) -> Result<usize, drv::EndpointError> {
        if self.0.borrow().cable.is_some() {
            return cable_read(&self.0, buf).await;
        }
        self.0.borrow_mut().reads += 1;
        loop {
            let it = self.0.borrow_mut().rx.pop_front();
            match it {
                None => std::future::pending::<()>().await,
                Some(RItem::Wait(us)) => vt_sleep(us).await,
                Some(RItem::Disable) => return Err(drv::EndpointError::Disabled),
                Some(RItem::Pkt(p)) => {
                    if p.len() > buf.len() {
                        return Err(drv::EndpointError::BufferOverflow);
                    }
                    buf[..p.len()].copy_from_slice(&p);
                    return Ok(p.len());
                }
            }
        }
    }
}
impl drv::ControlPipe for SimCtl {
    fn max_packet_size(&self) -> usize {
        64
    }
    async fn setup(&mut self) -> [u8; 8] {
        std::future::pending().await
    }
    async fn data_out(&mut self, _b: &mut [u8], _f: bool, _l: bool) -> Result<usize, drv::EndpointError> {
        std::future::pending().await
    }
    async fn data_in(&mut self, _d: &[u8], _f: bool, _l: bool) -> Result<(), drv::EndpointError> {
        std::future::pending().await
    }
    async fn accept(&mut self) {}
    async fn reject(&mut self) {}
    async fn accept_set_address(&mut self, _a: u8) {}
}
impl drv::Bus for SimBus {
    async fn enable(&mut self) {}
    async fn disable(&mut self) {}
    async fn poll(&mut self) -> drv::Event {
        std::future::pending().await
    }
    fn endpoint_set_enabled(&mut self, _a: drv::EndpointAddress, _e: bool) {}
    fn endpoint_set_stalled(&mut self, _a: drv::EndpointAddress, _s: bool) {}
    fn endpoint_is_stalled(&mut self, _a: drv::EndpointAddress) -> bool {
        false
    }
    async fn remote_wakeup(&mut self) -> Result<(), drv::Unsupported> {
        Err(drv::Unsupported)
    }
}
impl drv::Driver<'static> for SimDriver {
    type EndpointOut = SimOut;
    type EndpointIn = SimIn;
    type ControlPipe = SimCtl;
    type Bus = SimBus;
    fn alloc_endpoint_out(&mut self, t: drv::EndpointType, mps: u16, iv: u8) -> Result<SimOut, drv::EndpointAllocError> {
        self.0.borrow_mut().ep_alloc.push((false, mps));
        let info = drv::EndpointInfo {
            addr: drv::EndpointAddress::from_parts(1, drv::Direction::Out),
            ep_type: t,
            max_packet_size: mps,
            interval_ms: iv,
        };
        Ok(SimOut(self.0.clone(), info))
    }
    fn alloc_endpoint_in(&mut self, t: drv::EndpointType, mps: u16, iv: u8) -> Result<SimIn, drv::EndpointAllocError> {
        self.0.borrow_mut().ep_alloc.push((true, mps));
        let info = drv::EndpointInfo {
            addr: drv::EndpointAddress::from_parts(1, drv::Direction::In),
            ep_type: t,
            max_packet_size: mps,
            interval_ms: iv,
        };
        Ok(SimIn(self.0.clone(), info))
    }
    fn start(self, _m: u16) -> (SimBus, SimCtl) {
        (SimBus, SimCtl)
    }
}

// ------------------------------------------------------------------ construction of both versions

/// What the scenarios need of either version
pub trait Ver: 'static {
    type Tx: WireTx<Error = WireTxErrorKind> + Clone + 'static;
    type Rx: WireRx<Error = WireRxErrorKind> + 'static;
    const NAME: &'static str;
    const CONFIGURABLE: bool;
    fn make(dev: &DevRef, tx_len: usize, plain: bool) -> (Self::Tx, Self::Rx, Leak);
    fn set_timeout(tx: &Self::Tx, ms: usize) -> impl Future<Output = ()>;
}

/// frees the storage once everything borrowing it is gone (declared first, dropped last)
pub struct Leak(Option<Box<dyn FnOnce()>>);
impl Drop for Leak {
    fn drop(&mut self) {
        if let Some(f) = self.0.take() {
            f()
        }
    }
}

macro_rules! version {
    ($name:ident, $m:ident, $usb:ident, $conf:expr, $set:expr) => {
        pub struct $name;
        impl Ver for $name {
            type Tx = $m::WireTxImpl<NoopRawMutex, SimDriver>;
            type Rx = $m::WireRxImpl<SimDriver>;
            const NAME: &'static str = stringify!($m);
            const CONFIGURABLE: bool = $conf;
            fn make(dev: &DevRef, tx_len: usize, plain: bool) -> (Self::Tx, Self::Rx, Leak) {
                type St = $m::WireStorage<NoopRawMutex, SimDriver, 256, 256, 64, 256>;
                let st: *mut St = Box::into_raw(Box::new(St::new()));
                let buf: *mut [u8] = Box::into_raw(vec![0u8; tx_len].into_boxed_slice());
                let cfg = $usb::Config::new(0x16c0, 0x27dd);
                let (sref, bref): (&'static St, &'static mut [u8]) = unsafe { (&*st, &mut *buf) };
                let (tx, rx) = if plain {
                    let (b, tx, rx) = sref.init_without_build(SimDriver(dev.clone()), cfg, bref);
                    drop(b);
                    (tx, rx)
                } else {
                    let (u, tx, rx) = sref.init(SimDriver(dev.clone()), cfg, bref);
                    drop(u);
                    (tx, rx)
                };
                let leak = Leak(Some(Box::new(move || unsafe {
                    drop(Box::from_raw(st));
                    drop(Box::from_raw(buf));
                })));
                (tx, rx, leak)
            }
            fn set_timeout(tx: &Self::Tx, ms: usize) -> impl Future<Output = ()> {
                let f: fn(Self::Tx, usize) -> _ = $set;
                f(tx.clone(), ms)
            }
        }
    };
}
version!(V3, v3, embassy_usb_0_3, false, |_tx, _ms| async {});
version!(V4, v4, embassy_usb_0_4, true, |tx, ms| async move { tx.set_timeout_ms_per_frame(ms).await });

pub(crate) fn dev() -> DevRef {
    Rc::new(RefCell::new(Dev::default()))
}

/// run a generic scenario for a version drawn from the seed
macro_rules! either {
    ($c:expr, $f:ident) => {
        if $c.rng.chance(1, 2) {
            $f::<V3>($c)
        } else {
            $f::<V4>($c)
        }
    };
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C16",
            rule: "a distinct case is a distinct (messages, bus behaviour, schedule) run against the real device transport; every packet handed to the simulated IN endpoint and every send result is judged in virtual time",
            scenarios: vec![
                Scenario { name: "healthy", f: |c| either!(c, c16_healthy), quick: 1500, weight: 2, serial: false },
                Scenario { name: "faults", f: |c| either!(c, c16_faults), quick: 3000, weight: 4, serial: false },
                Scenario { name: "deadline", f: |c| either!(c, c16_deadline), quick: 1500, weight: 2, serial: false },
                Scenario { name: "lengths", f: |c| either!(c, c16_lengths), quick: 40, weight: 1, serial: false },
            ],
            assumptions: &["the USB peripheral driver reports a packet as written when the host took it or it is committed to the FIFO; both kinds are simulated"],
            must_see: &["sent_ok", "timeout", "closed", "refused", "zero_packet", "leftover", "after_failure_ok", "abandoned", "timeout_changed", "concurrent", "edge_ok"],
        },
        Check {
            id: "C17",
            rule: "a distinct case is a distinct (sequence of host transfers, packet timing, disable points, buffer size) read by the real device receiver",
            scenarios: vec![
                Scenario { name: "transfers", f: |c| either!(c, c17_transfers), quick: 4000, weight: 3, serial: false },
                Scenario { name: "lengths", f: |c| either!(c, c17_lengths), quick: 30, weight: 1, serial: false },
            ],
            assumptions: &["packets are 64 bytes, as on a full-speed bulk endpoint; the receive buffer is a multiple of 64"],
            must_see: &["frames_ok", "empty_frame", "multiple_of_64", "too_large", "ok_after_too_large", "closed", "ok_after_closed", "exact_buffer_minus_one"],
        },
        Check {
            id: "C18",
            rule: "a distinct case is a distinct (text or formatting pattern, key length, transmit buffer size, transport) logged through the real Sender; the transmitted frame is decoded independently",
            scenarios: vec![
                Scenario { name: "usb", f: |c| either!(c, c18_usb), quick: 6000, weight: 4, serial: false },
                Scenario { name: "boundary", f: |c| either!(c, c18_boundary), quick: 300, weight: 3, serial: false },
                Scenario { name: "large", f: |c| either!(c, c18_large), quick: 100, weight: 1, serial: false },
                Scenario { name: "faults", f: |c| either!(c, c18_faults), quick: 500, weight: 1, serial: false },
                Scenario { name: "channel", f: c18_channel, quick: 1000, weight: 1, serial: false },
            ],
            assumptions: &["Display implementations propagate or ignore write errors but do not invent any"],
            must_see: &["str_exact", "str_refused", "fmt_exact", "fmt_truncated", "multibyte_cut", "seq_wrapped", "len_128_255", "len_16384", "channel_logs", "swallowed_error"],
        },
    ]
}

// ------------------------------------------------------------------ C16

#[derive(serde::Serialize)]
struct Msg<'a> {
    id: u32,
    fill: &'a [u8],
}
struct Unser;
impl serde::Serialize for Unser {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeTuple;
        let mut t = s.serialize_tuple(2)?;
        t.serialize_element(&0x55aau16)?;
        Err(serde::ser::Error::custom("no"))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ek {
    Closed,
    Timeout,
    Other,
}
impl From<WireTxErrorKind> for Ek {
    fn from(e: WireTxErrorKind) -> Self {
        match e {
            WireTxErrorKind::ConnectionClosed => Ek::Closed,
            WireTxErrorKind::Timeout => Ek::Timeout,
            _ => Ek::Other,
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
enum Res {
    Ok,
    Err(Ek),
    Abandoned,
}
fn to_res(r: Result<(), WireTxErrorKind>) -> Res {
    match r {
        Ok(()) => Res::Ok,
        Err(e) => Res::Err(e.into()),
    }
}
#[derive(Clone, Debug)]
struct Sent {
    id: u32,
    /// exact bytes expected on the wire
    frame: Vec<u8>,
    fits: bool,
    raw: bool,
    ms: u64,
    done: Option<(u64, Res)>,
    after_fail: bool,
}

/// a frame of the wanted total length if possible
fn c16_msg(rng: &mut Rng, id: u32, want: usize) -> (RHdr, Vec<u8>, Vec<u8>) {
    let klen = *rng.pick(&KLENS);
    let slen = *rng.pick(&SLENS);
    let h = RHdr { key: rng.bytes(klen), seq: if slen == 1 { id & 0xff } else if slen == 2 { id & 0xffff } else { id }, slen };
    let hb = enc(&h);
    let idlen = varint(id as usize).len();
    let mut fill = want.saturating_sub(hb.len() + idlen + 1);
    if varint(fill).len() > 1 {
        fill = want.saturating_sub(hb.len() + idlen + varint(fill).len());
    }
    let body = rng.bytes(fill);
    let mut f = hb;
    f.extend(varint(id as usize));
    f.extend(varint(body.len()));
    f.extend_from_slice(&body);
    (h, body, f)
}
fn varint(mut n: usize) -> Vec<u8> {
    let mut v = vec![];
    loop {
        if n < 128 {
            v.push(n as u8);
            return v;
        }
        v.push((n as u8) | 0x80);
        n >>= 7;
    }
}

fn pick_len(rng: &mut Rng, tx_len: usize) -> usize {
    let near = |rng: &mut Rng, x: usize| (x + rng.below(5)).saturating_sub(2).max(1);
    match rng.below(6) {
        0 => rng.range(1, 80),
        1 | 2 => {
            let k = rng.range(1, 6);
            near(rng, 64 * k)
        }
        3 => near(rng, tx_len),
        4 => rng.range(1, tx_len.max(2)),
        _ => 64 * rng.range(1, 5),
    }
}

struct C16Cfg {
    tx_len: usize,
    tasks: usize,
    per_task: usize,
    abandon: bool,
    set_timeouts: bool,
    think: bool,
}

struct World {
    sent: Vec<Sent>,
    ms: u64,
}

fn c16_run<V: Ver>(c: &mut Case, d: DevRef, cfg: C16Cfg) -> Result<(), String> {
    vt_reset();
    let (tx, rx, leak) = V::make(&d, cfg.tx_len, c.rng.chance(1, 2));
    drop(rx);
    let w = Rc::new(RefCell::new(World { sent: vec![], ms: 2 }));
    let mut sched = Sched::new(c.rng.fork());
    // embassy's mutex makes several waiters wake each other until it is free
    sched.spin = Some(1500);
    let next_id = Rc::new(Cell::new(1u32));
    let changed = Rc::new(Cell::new(0u64));
    for _ in 0..cfg.tasks {
        let tx = tx.clone();
        let w = w.clone();
        let mut rng = c.rng.fork();
        let next_id = next_id.clone();
        let changed = changed.clone();
        let (n, tx_len, abandon, set_t, think) = (cfg.per_task, cfg.tx_len, cfg.abandon, cfg.set_timeouts, cfg.think);
        sched.spawn("sender", async move {
            for _ in 0..n {
                if think && rng.chance(1, 3) {
                    vt_sleep(rng.below(6000) as u64).await;
                }
                if set_t && V::CONFIGURABLE && rng.chance(1, 4) {
                    let v = *rng.pick(&[0usize, 1, 2, 3, 7, 20, 60_000, 60_001, usize::MAX]);
                    V::set_timeout(&tx, v).await;
                    // same poll in which the setting took effect
                    w.borrow_mut().ms = v.clamp(1, 60_000) as u64;
                    changed.set(changed.get() + 1);
                }
                let id = next_id.get();
                next_id.set(id + 1);
                let limit = if abandon && rng.chance(1, 4) { Some(rng.below(5)) } else { None };
                let kind = rng.below(10);
                let want = pick_len(&mut rng, tx_len);
                let idx = w.borrow().sent.len();
                let rec = |frame: Vec<u8>, fits: bool, raw: bool| {
                    w.borrow_mut().sent.push(Sent { id, frame, fits, raw, ms: 0, done: None, after_fail: false })
                };
                let res = match kind {
                    0 => {
                        // raw frames do not go through the transmit buffer
                        let (_, _, f) = c16_msg(&mut rng, id, want);
                        rec(f.clone(), true, true);
                        attributed(id, limit, tx.send_raw(&f)).await
                    }
                    1 if rng.chance(1, 3) => {
                        let (h, _, _) = c16_msg(&mut rng, id, want);
                        rec(vec![], false, false);
                        attributed(id, limit, tx.send(vhdr(&h), &Unser)).await
                    }
                    _ => {
                        let (h, body, f) = c16_msg(&mut rng, id, want);
                        let fits = f.len() <= tx_len;
                        rec(f, fits, false);
                        attributed(id, limit, tx.send(vhdr(&h), &Msg { id, fill: &body })).await
                    }
                };
                let r = match res {
                    None => Res::Abandoned,
                    Some(Ok(())) => Res::Ok,
                    Some(Err(e)) => Res::Err(e.into()),
                };
                w.borrow_mut().sent[idx].done = Some((vt_now(), r));
            }
        });
    }
    drop(tx);
    // note the per-packet allowance in force when each send gains the bus
    let w2 = w.clone();
    let d2 = d.clone();
    let seen = Cell::new(0usize);
    let stop = sched.run_until(5_000_000, || {
        let d = d2.borrow();
        if d.writes.len() > seen.get() {
            let mut w = w2.borrow_mut();
            let ms = w.ms;
            for x in &d.writes[seen.get()..] {
                if let Some(s) = w.sent.iter_mut().find(|s| s.id == x.by) {
                    if s.ms == 0 {
                        s.ms = ms;
                    }
                }
            }
            seen.set(d.writes.len());
        }
        false
    });
    c.sig(sched.switch_sig);
    sched.drop_all();
    drop(sched);
    let world = w.borrow();
    let dv = d.borrow();
    let out = c16_judge::<V>(c, &world, &dv, stop, changed.get());
    drop(dv);
    drop(leak);
    out
}

fn c16_judge<V: Ver>(c: &mut Case, w: &World, d: &Dev, stop: Stop, changed: u64) -> Result<(), String> {
    c.nontrivial = !d.writes.is_empty();
    c.count("timeout_changed", changed);
    c.count("packets", d.writes.len() as u64);
    if c.trace_on {
        for s in &w.sent {
            let l = format!("send {} len {} fits {} ms {} -> {:?}", s.id, s.frame.len(), s.fits, s.ms, s.done);
            c.log(|| l);
        }
        for x in &d.writes {
            let l = format!("write by {} len {} at {} end {:?} err {}", x.by, x.len, x.begin, x.end, x.err);
            c.log(|| l);
        }
        for t in &d.transfers {
            let l = format!("host transfer len {} {}", t.len(), hex(t));
            c.log(|| l);
        }
    }
    if d.ep_alloc.len() != 2 || d.ep_alloc.iter().any(|e| e.1 != 64) {
        return Err(format!("endpoints allocated: {:?}", d.ep_alloc));
    }
    if stop == Stop::Livelock {
        return Err("sending never finishes (spinning)".into());
    }
    if let Some(n) = d.too_long {
        return Err(format!("a {n}-byte packet was written to a 64-byte endpoint"));
    }
    // per-send results
    for s in &w.sent {
        c.sig(s.frame.len() as u64);
        let writes: Vec<&Wr> = d.writes.iter().filter(|x| x.by == s.id).collect();
        let Some((at, res)) = &s.done else {
            return Err(format!("send {} of {} bytes never finished", s.id, s.frame.len()));
        };
        if !s.fits {
            if !matches!(res, Res::Err(Ek::Other) | Res::Abandoned) {
                return Err(format!("send {} does not fit or serialise but returned {res:?}", s.id));
            }
            if !writes.is_empty() {
                return Err(format!("refused send {} put {} packets on the bus", s.id, writes.len()));
            }
            if *res != Res::Abandoned {
                c.count("refused", 1);
            }
            continue;
        }
        let Some(first) = writes.first() else {
            if *res == Res::Abandoned {
                continue;
            }
            return Err(format!("send {} ({} bytes, fits) returned {res:?} without writing anything", s.id, s.frame.len()));
        };
        let frames = s.frame.len().div_ceil(64) as u64;
        let ms = if V::CONFIGURABLE { s.ms } else { 2 };
        let deadline = first.begin + frames * ms * 1000;
        let failed_write = writes.iter().any(|x| x.err);
        match res {
            Res::Ok => {
                c.count("sent_ok", 1);
                if *at > deadline {
                    return Err(format!("send {} succeeded at {at} us, after its deadline {deadline} us", s.id));
                }
                if failed_write {
                    return Err(format!("send {} reported success although the endpoint was disabled", s.id));
                }
                if *at == deadline {
                    c.count("edge_ok", 1);
                }
            }
            Res::Err(Ek::Timeout) => {
                c.count("timeout", 1);
                if *at < deadline {
                    return Err(format!("send {} ({frames} packets) timed out at {at} us, before its deadline {deadline} us", s.id));
                }
                if *at > deadline + 1000 {
                    return Err(format!("send {} timed out at {at} us, long after its deadline {deadline} us", s.id));
                }
                if failed_write {
                    return Err(format!("send {} reported a timeout although the endpoint was disabled", s.id));
                }
                if let Some(x) = writes.last() {
                    if x.end.is_some_and(|e| e == deadline) {
                        c.count("edge_timeout", 1);
                    }
                }
            }
            Res::Err(Ek::Closed) => {
                c.count("closed", 1);
                if !failed_write {
                    return Err(format!("send {} reported a closed connection although no write failed", s.id));
                }
            }
            Res::Err(Ek::Other) => {
                return Err(format!("send {} of {} bytes fits but was refused", s.id, s.frame.len()));
            }
            Res::Abandoned => c.count("abandoned", 1),
        }
    }
    // sends never interleave on the bus
    let mut seen: Vec<u32> = vec![];
    for x in &d.writes {
        if seen.last() != Some(&x.by) {
            if seen.contains(&x.by) {
                return Err(format!("packets of send {} are interleaved with those of another sender", x.by));
            }
            seen.push(x.by);
        }
    }
    if seen.len() > 1 {
        c.count("concurrent", 1);
    }
    // the host's view
    let by_id = |id: u32| w.sent.iter().find(|s| s.id == id);
    let failed: Vec<&Sent> =
        w.sent.iter().filter(|s| s.fits && !matches!(s.done, Some((_, Res::Ok)))).filter(|s| seen.contains(&s.id)).collect();
    let mut delivered: Vec<u32> = vec![];
    let mut leftovers = 0;
    for t in &d.transfers {
        if let Some(s) = w.sent.iter().find(|s| s.fits && s.frame == *t && !delivered.contains(&s.id)) {
            delivered.push(s.id);
            if t.len() % 64 == 0 {
                c.count("zero_packet", 1);
            }
            continue;
        }
        if let Some(s) = w.sent.iter().find(|s| s.fits && s.frame == *t) {
            return Err(format!("send {} was delivered twice", s.id));
        }
        if t.len() % 64 == 0 && failed.iter().any(|s| s.frame.starts_with(t)) {
            leftovers += 1;
            c.count("leftover", 1);
            if leftovers > failed.len() {
                return Err(format!("{leftovers} partial transfers for {} failed sends", failed.len()));
            }
            continue;
        }
        return Err(format!("the host received a transfer of {} bytes that is no message: {}", t.len(), hex(t)));
    }
    let mut pos = 0;
    let mut prev_failed = false;
    for id in &seen {
        let Some(s) = by_id(*id) else {
            return Err("a write outside any send".into());
        };
        let got = delivered.iter().position(|x| x == id);
        let ok = matches!(s.done, Some((_, Res::Ok)));
        if let Some(p) = got {
            if p < pos {
                return Err(format!("send {id} arrived out of order"));
            }
            pos = p;
        } else if ok {
            return Err(format!("send {id} ({} bytes) reported success but never arrived as its own transfer", s.frame.len()));
        }
        if ok && prev_failed {
            c.count("after_failure_ok", 1);
        }
        prev_failed = !ok;
    }
    if d.cur_dirty && matches!(seen.last().and_then(|id| by_id(*id)).and_then(|s| s.done.clone()), Some((_, Res::Ok))) {
        return Err(format!("the last successful transfer was not terminated ({} bytes pending at the host)", d.cur.len()));
    }
    c.note = Some(format!("{}: {} sends, {} packets, {} transfers at the host", V::NAME, w.sent.len(), d.writes.len(), d.transfers.len()));
    Ok(())
}

const TX_LENS: [usize; 9] = [16, 63, 64, 65, 127, 128, 200, 256, 1024];

fn c16_healthy<V: Ver>(c: &mut Case) -> Result<(), String> {
    let d = dev();
    {
        let mut v = d.borrow_mut();
        v.commit_early = c.rng.chance(1, 2);
        v.default_take = *c.rng.pick(&[0u64, 0, 10, 500, 900]);
    }
    let big = c.rng.chance(1, 40);
    let cfg = C16Cfg {
        tx_len: if big { c.rng.edge_len(70_000).max(2000) } else { *c.rng.pick(&TX_LENS) },
        tasks: c.rng.range(1, 4),
        per_task: if big { 3 } else { c.rng.range(2, 10) },
        abandon: false,
        set_timeouts: false,
        think: c.rng.chance(1, 2),
    };
    c16_run::<V>(c, d, cfg)
}

fn c16_faults<V: Ver>(c: &mut Case) -> Result<(), String> {
    let d = dev();
    {
        let mut v = d.borrow_mut();
        v.commit_early = c.rng.chance(1, 2);
        v.reset_on_disable = c.rng.chance(1, 2);
        v.default_take = *c.rng.pick(&[0u64, 0, 300, 1000]);
        let n = c.rng.range(5, 120);
        let rate = c.rng.range(2, 12);
        for _ in 0..n {
            let p = if c.rng.below(rate) == 0 {
                match c.rng.below(4) {
                    0 => WPlan::Hang,
                    1 => WPlan::Disable(0),
                    2 => WPlan::Disable(c.rng.below(1500) as u64),
                    _ => WPlan::Take(c.rng.below(9000) as u64),
                }
            } else {
                WPlan::Take(v.default_take)
            };
            v.plan.push_back(p);
        }
    }
    let cfg = C16Cfg {
        tx_len: *c.rng.pick(&TX_LENS[2..]),
        tasks: c.rng.range(1, 4),
        per_task: c.rng.range(3, 12),
        abandon: c.rng.chance(1, 2),
        set_timeouts: c.rng.chance(1, 2),
        think: c.rng.chance(1, 2),
    };
    c16_run::<V>(c, d, cfg)
}

/// total service time within a microsecond of the allowance, and a second sender queued behind
fn c16_deadline<V: Ver>(c: &mut Case) -> Result<(), String> {
    let d = dev();
    {
        let mut v = d.borrow_mut();
        v.commit_early = c.rng.chance(1, 2);
        v.default_take = match c.rng.below(3) {
            0 => 2000,
            1 => 1999 + c.rng.below(3) as u64,
            _ => *c.rng.pick(&[1000, 3000, 7000, 1333, 2001]),
        };
        for _ in 0..c.rng.below(30) {
            let t = *c.rng.pick(&[0, 1, 1999, 2000, 2001, 3999, 4000, 4001, 1000, 6000]);
            v.plan.push_back(WPlan::Take(t));
        }
    }
    let cfg = C16Cfg {
        tx_len: *c.rng.pick(&TX_LENS[2..]),
        tasks: c.rng.range(1, 3),
        per_task: c.rng.range(2, 8),
        abandon: false,
        set_timeouts: c.rng.chance(1, 2),
        think: c.rng.chance(1, 3),
    };
    c16_run::<V>(c, d, cfg)
}

/// every frame length in a window, one after the other
fn c16_lengths<V: Ver>(c: &mut Case) -> Result<(), String> {
    vt_reset();
    let d = dev();
    let tx_len = *c.rng.pick(&TX_LENS);
    let (tx, rx, leak) = V::make(&d, tx_len, false);
    drop(rx);
    let w = Rc::new(RefCell::new(World { sent: vec![], ms: 2 }));
    let mut sched = Sched::new(c.rng.fork());
    let mut rng = c.rng.fork();
    let w2 = w.clone();
    sched.spawn("sender", async move {
        let mut id = 0;
        for want in 8..(tx_len + 8).min(420) {
            id += 1;
            let (h, body, f) = c16_msg(&mut rng, id, want);
            let fits = f.len() <= tx_len;
            let idx = w2.borrow().sent.len();
            w2.borrow_mut().sent.push(Sent { id, frame: f, fits, raw: false, ms: 2, done: None, after_fail: false });
            let r = attributed(id, None, tx.send(vhdr(&h), &Msg { id, fill: &body })).await.unwrap();
            w2.borrow_mut().sent[idx].done = Some((vt_now(), to_res(r)));
        }
    });
    let stop = sched.run(400_000);
    sched.drop_all();
    drop(sched);
    let n = w.borrow().sent.len() as u64;
    let out = c16_judge::<V>(c, &w.borrow(), &d.borrow(), stop, 0);
    c.evals = n;
    drop(leak);
    out
}

// ------------------------------------------------------------------ C17

#[derive(Clone, Debug, PartialEq)]
enum Got {
    Frame(Vec<u8>),
    TooLarge,
    Closed,
    Other,
}

fn packets(t: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = t.chunks(64).map(|x| x.to_vec()).collect();
    if t.len() % 64 == 0 {
        v.push(vec![]);
    }
    v
}

fn c17_run<V: Ver>(c: &mut Case, items: Vec<RItem>, expect: Vec<Got>, buflen: usize) -> Result<(), String> {
    vt_reset();
    let d = dev();
    d.borrow_mut().rx = items.into();
    let (tx, mut rx, leak) = V::make(&d, 64, c.rng.chance(1, 2));
    drop(tx);
    let got = Rc::new(RefCell::new(Vec::<Got>::new()));
    let g = got.clone();
    let mut sched = Sched::new(c.rng.fork());
    let poison = c.rng.u8();
    let limit = expect.len() + 4;
    sched.spawn("receiver", async move {
        let mut buf = vec![poison; buflen];
        for _ in 0..limit {
            let r = match rx.receive(&mut buf).await {
                Ok(f) => Got::Frame(f.to_vec()),
                Err(WireRxErrorKind::ReceivedMessageTooLarge) => Got::TooLarge,
                Err(WireRxErrorKind::ConnectionClosed) => Got::Closed,
                Err(_) => Got::Other,
            };
            g.borrow_mut().push(r);
        }
    });
    let stop = sched.run(200_000);
    sched.drop_all();
    drop(sched);
    drop(leak);
    if stop == Stop::Livelock {
        return Err("the receiver spins".into());
    }
    let got = got.borrow();
    c.nontrivial = !expect.is_empty();
    let mut prev: Option<&Got> = None;
    for (i, e) in expect.iter().enumerate() {
        match got.get(i) {
            Some(g) if g == e => {}
            Some(g) => {
                let show = |g: &Got| match g {
                    Got::Frame(f) => format!("frame of {} bytes {}", f.len(), hex(f)),
                    o => format!("{o:?}"),
                };
                return Err(format!("receive #{i} ({} byte buffer): expected {}, got {}", buflen, show(e), show(g)));
            }
            None => return Err(format!("receive #{i} is still pending although its transfer is complete")),
        }
        match e {
            Got::Frame(f) => {
                c.count("frames_ok", 1);
                if f.is_empty() {
                    c.count("empty_frame", 1);
                } else if f.len() % 64 == 0 {
                    c.count("multiple_of_64", 1);
                }
                if f.len() == buflen - 1 {
                    c.count("exact_buffer_minus_one", 1);
                }
                match prev {
                    Some(Got::TooLarge) => c.count("ok_after_too_large", 1),
                    Some(Got::Closed) => c.count("ok_after_closed", 1),
                    _ => {}
                }
            }
            Got::TooLarge => c.count("too_large", 1),
            Got::Closed => c.count("closed", 1),
            Got::Other => {}
        }
        prev = Some(e);
    }
    if got.len() > expect.len() {
        return Err(format!("{} receives returned for {} transfers", got.len(), expect.len()));
    }
    c.note = Some(format!("{}: {} transfers into a {buflen}-byte buffer", V::NAME, expect.len()));
    Ok(())
}

fn c17_transfers<V: Ver>(c: &mut Case) -> Result<(), String> {
    let buflen = 64 * *c.rng.pick(&[1usize, 1, 2, 2, 3, 4, 8, 16]);
    let mut items = vec![];
    let mut expect = vec![];
    let timing = c.rng.chance(1, 2);
    let faults = c.rng.chance(1, 2);
    for _ in 0..c.rng.range(1, 14) {
        let len = match c.rng.below(8) {
            0 => 0,
            1 => c.rng.below(64),
            2 => 64 * c.rng.range(1, buflen / 64 + 2),
            3 => (buflen + c.rng.below(5)).saturating_sub(2),
            4 => buflen - 1,
            5 => buflen + c.rng.below(3 * buflen),
            _ => c.rng.below(buflen),
        };
        let t = c.rng.bytes(len);
        let pk = packets(&t);
        let cut = if faults && c.rng.chance(1, 5) { Some(c.rng.below(pk.len() + 1)) } else { None };
        let total = pk.len();
        for (i, p) in pk.into_iter().enumerate() {
            if cut == Some(i) {
                break;
            }
            if timing && c.rng.chance(1, 3) {
                items.push(RItem::Wait(c.rng.below(5000) as u64));
            }
            items.push(RItem::Pkt(p));
        }
        if let Some(k) = cut {
            if k == total {
                expect.push(if len < buflen { Got::Frame(t.clone()) } else { Got::TooLarge });
            }
            items.push(RItem::Disable);
            expect.push(Got::Closed);
        } else {
            expect.push(if len < buflen { Got::Frame(t.clone()) } else { Got::TooLarge });
        }
        c.sig_bytes(&t);
        c.sig(cut.map_or(0, |x| x as u64 + 1));
    }
    c17_run::<V>(c, items, expect, buflen)
}

fn c17_lengths<V: Ver>(c: &mut Case) -> Result<(), String> {
    let big = c.rng.chance(1, 3);
    let buflen = 64 * if big { c.rng.edge_len(70_000).div_ceil(64) } else { *c.rng.pick(&[1usize, 2, 3, 4]) };
    let mut items = vec![];
    let mut expect = vec![];
    let step = c.rng.range(1, 3);
    let marker = c.rng.bytes(7);
    let lens: Vec<usize> = if big {
        // whole packets, powers of two and the end of the buffer
        (0..12).map(|i| if i % 3 == 0 { buflen + 2 - c.rng.below(130).min(buflen) } else { c.rng.edge_len(70_000) }).collect()
    } else {
        (0..buflen + 130).step_by(step).collect()
    };
    for len in lens {
        let t = c.rng.bytes(len);
        for t in [&t, &marker] {
            items.extend(packets(t).into_iter().map(RItem::Pkt));
            expect.push(if t.len() < buflen { Got::Frame(t.clone()) } else { Got::TooLarge });
        }
    }
    c.evals = expect.len() as u64;
    c.sig(buflen as u64 * 8 + step as u64);
    c.sig_bytes(&marker);
    c17_run::<V>(c, items, expect, buflen)
}

// ------------------------------------------------------------------ C18

struct Pieces {
    parts: Vec<String>,
    /// ignore what the sink answers
    swallow: bool,
}
impl std::fmt::Display for Pieces {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for p in &self.parts {
            if self.swallow {
                let _ = f.write_str(p);
            } else {
                f.write_str(p)?;
            }
        }
        Ok(())
    }
}

fn rand_text(rng: &mut Rng, len: usize) -> String {
    const CH: [char; 12] = ['a', 'Z', '0', ' ', '\n', '.', '\u{e9}', '\u{df}', '\u{20ac}', '\u{4e2d}', '\u{1f600}', '\u{10ffff}'];
    let style = rng.below(4);
    let mut s = String::new();
    loop {
        let ch = match style {
            0 => CH[rng.below(6)],
            1 => *rng.pick(&CH),
            2 => CH[8 + rng.below(4)],
            _ => {
                if rng.chance(1, 8) {
                    CH[6 + rng.below(6)]
                } else {
                    'x'
                }
            }
        };
        if s.len() + ch.len_utf8() > len {
            // finish to the exact byte length with ascii
            while s.len() < len {
                s.push('q');
            }
            return s;
        }
        s.push(ch);
    }
}

/// independent decoder of a log frame: (sequence number, its width, text)
fn dec_log(f: &[u8], kl: usize) -> Result<(u32, usize, String), String> {
    let (h, body) = dec(f).ok_or("log frame has no decodable header")?;
    let want = fold(&LoggingTopic::TOPIC_KEY.to_bytes(), kl);
    if h.key != want {
        return Err(format!("log frame has key {} instead of {}", hex(&h.key), hex(&want)));
    }
    let (s, rest) = postcard::take_from_bytes::<String>(body).map_err(|e| format!("log body does not decode ({e:?}): {}", hex(f)))?;
    if !rest.is_empty() {
        return Err(format!("log frame has {} bytes after its text", rest.len()));
    }
    Ok((h.seq, h.slen, s))
}

struct LogOp {
    text: String,
    fmt: bool,
    swallow: bool,
    res: Res,
}

/// judge the log calls against the frames that left
fn c18_judge(c: &mut Case, kl: usize, tx_len: Option<usize>, ops: &[LogOp], frames: &[Vec<u8>], lossy: bool) -> Result<(), String> {
    let mut it = frames.iter().peekable();
    let mut last_seq: Option<(u32, usize)> = None;
    let mut skipped = 0u32;
    let mut first_ok = true;
    for op in ops {
        let n = op.text.len();
        // length of header with the sequence width actually used is known from the frame; both
        // transports use a fixed width per device
        match &op.res {
            Res::Ok => {
                if lossy {
                    // skip what failed calls may have left behind
                    while let Some(f) = it.peek() {
                        let (_, _, t) = dec_log(f, kl)?;
                        if t == op.text || (op.fmt && t.strip_suffix("...").is_some_and(|p| p.len() > 8 && op.text.starts_with(p))) {
                            break;
                        }
                        it.next();
                    }
                }
                let Some(f) = it.next() else {
                    return Err(format!("logging {n} bytes reported success but no frame left"));
                };
                let (seq, slen, text) = dec_log(f, kl)?;
                let modulus: u64 = 1 << (8 * slen);
                if let Some((p, pl)) = last_seq {
                    if pl != slen {
                        return Err("log frames change their sequence width".into());
                    }
                    let step = (seq as u64 + modulus - p as u64) % modulus;
                    let slack = if lossy { ops.len() as u64 } else { skipped as u64 };
                    if step == 0 || step > 1 + slack {
                        return Err(format!("log sequence numbers jump from {p} to {seq} ({skipped} refused in between)"));
                    }
                    if seq < p {
                        c.count("seq_wrapped", 1);
                    }
                } else if !lossy && first_ok && seq as u64 > skipped as u64 {
                    return Err(format!("the first log frame has sequence number {seq}"));
                }
                first_ok = false;
                last_seq = Some((seq, slen));
                skipped = 0;
                if let Some(tl) = tx_len {
                    if f.len() > tl {
                        return Err(format!("a {}-byte log frame left a {tl}-byte transmit buffer", f.len()));
                    }
                }
                if text == op.text {
                    c.count(if op.fmt { "fmt_exact" } else { "str_exact" }, 1);
                    if op.fmt && tx_len.is_some() {
                        if (128..256).contains(&n) {
                            c.count("len_128_255", 1);
                        }
                        if n >= 16384 {
                            c.count("len_16384", 1);
                        }
                    }
                    continue;
                }
                if !op.fmt {
                    return Err(format!("log_str of {n} bytes arrived changed: {:?}", crop(&text)));
                }
                let Some(tl) = tx_len else {
                    return Err(format!("formatted log of {n} bytes arrived changed: {:?}", crop(&text)));
                };
                // visibly truncated
                let room = tl - (1 + kl + slen);
                let reserve = varint(room).len();
                if n + reserve <= room {
                    return Err(format!("formatted log of {n} bytes fits a {tl}-byte buffer but arrived as {} bytes", text.len()));
                }
                let Some(pre) = text.strip_suffix("...") else {
                    return Err(format!("truncated log does not end in dots: {:?}", crop(&text)));
                };
                if !op.text.starts_with(pre) {
                    return Err(format!("truncated log is no prefix of the text: {:?}", crop(&text)));
                }
                if pre.len() + 3 + reserve + 3 < room {
                    return Err(format!("log truncated to {} bytes although {room} were available", text.len()));
                }
                c.count("fmt_truncated", 1);
                if op.swallow {
                    c.count("swallowed_error", 1);
                }
                let cut = room.saturating_sub(reserve + 3);
                if !op.text.is_char_boundary(cut.min(n)) || !op.text.is_char_boundary((cut + 3).min(n)) {
                    c.count("multibyte_cut", 1);
                }
            }
            Res::Err(Ek::Other) => {
                skipped += 1;
                let Some(tl) = tx_len else {
                    return Err("channel log refused".into());
                };
                // every transport needs at most a 4 byte sequence number
                let hdr = 1 + kl + 2;
                let room = tl.saturating_sub(hdr);
                if !op.fmt && n + varint(n).len() <= room && tl >= hdr {
                    return Err(format!("log_str of {n} bytes fits a {tl}-byte buffer but was refused"));
                }
                if op.fmt && tl > hdr + varint(room).len() && (n + varint(room).len() <= room || room >= varint(room).len() + 6) {
                    return Err(format!("formatted log of {n} bytes was refused with a {tl}-byte buffer"));
                }
                c.count(if op.fmt { "fmt_refused" } else { "str_refused" }, 1);
            }
            _ => {
                skipped += 1;
                if !lossy {
                    return Err(format!("logging failed with {:?}", op.res));
                }
                // its frame may or may not have left
            }
        }
    }
    if !lossy && it.next().is_some() {
        return Err("more log frames left than log calls were accepted".into());
    }
    Ok(())
}
fn crop(s: &str) -> String {
    if s.chars().count() > 60 {
        let head: String = s.chars().take(20).collect();
        let tail: String = s.chars().rev().take(20).collect::<Vec<_>>().into_iter().rev().collect();
        format!("{head}[..]{tail}")
    } else {
        s.to_string()
    }
}

struct Plan {
    text: String,
    fmt: bool,
    style: usize,
}

async fn do_log<T: WireTx>(tx: &Sender<T>, p: &Plan, rng: &mut Rng) -> (String, bool, Result<(), T::Error>) {
    if !p.fmt {
        return (p.text.clone(), false, tx.log_str(&p.text).await);
    }
    match p.style {
        0 => (p.text.clone(), false, tx.log_fmt(format_args!("{}", p.text)).await),
        1 => {
            let n = rng.u32();
            let t = format!("{n}:{}", p.text);
            (t, false, tx.log_fmt(format_args!("{n}:{}", p.text)).await)
        }
        2 => {
            let w = rng.below(300);
            let t = format!("[{:>w$}]", p.text);
            (t, false, tx.log_fmt(format_args!("[{:>w$}]", p.text)).await)
        }
        3 => {
            let t = format!("{:?}", p.text);
            (t, false, tx.log_fmt(format_args!("{:?}", p.text)).await)
        }
        s => {
            // pieces written one at a time
            let mut parts = vec![];
            let mut cur = String::new();
            for ch in p.text.chars() {
                cur.push(ch);
                if rng.chance(1, 6) {
                    parts.push(std::mem::take(&mut cur));
                }
            }
            parts.push(cur);
            let sw = s == 5;
            let d = Pieces { parts, swallow: sw };
            (p.text.clone(), sw, tx.log_fmt(format_args!("{d}")).await)
        }
    }
}

fn c18_run<V: Ver>(c: &mut Case, tx_len: usize, kl: usize, plans: Vec<Plan>, d: DevRef, lossy: bool, warm: u32) -> Result<(), String> {
    vt_reset();
    let (tx, rx, leak) = V::make(&d, tx_len, false);
    drop(rx);
    let kk: VarKeyKind = kkind(kl);
    let mut sched = Sched::new(c.rng.fork());
    let ops = Rc::new(RefCell::new(Vec::<LogOp>::new()));
    let o = ops.clone();
    let mut rng = c.rng.fork();
    let d2 = d.clone();
    sched.spawn("logger", async move {
        let s = Sender::new(tx, kk);
        for _ in 0..warm {
            let r = s.log_str("").await;
            if r.is_ok() {
                o.borrow_mut().push(LogOp { text: String::new(), fmt: false, swallow: false, res: Res::Ok });
            }
        }
        for p in plans {
            if !lossy && rng.chance(1, 10) {
                // other traffic in between
                let k = if rng.chance(1, 2) { VarSeq::Seq1(3) } else { VarSeq::Seq4(9) };
                let before = d2.borrow().transfers.len();
                let r = s.publish::<crate::icd::ToC>(k, &7u32).await;
                let mut dd = d2.borrow_mut();
                if r.is_ok() && before < dd.transfers.len() {
                    dd.transfers.remove(before);
                }
            }
            let (text, swallow, r) = do_log(&s, &p, &mut rng).await;
            let res = to_res(r);
            o.borrow_mut().push(LogOp { text, fmt: p.fmt, swallow, res });
        }
    });
    let stop = sched.run(1_000_000);
    sched.drop_all();
    drop(sched);
    drop(leak);
    if stop != Stop::AllDone {
        return Err(format!("logging does not finish: {stop:?}"));
    }
    let dv = d.borrow();
    let ops = ops.borrow();
    c.nontrivial = true;
    for op in ops.iter().skip(warm as usize) {
        c.sig_bytes(op.text.as_bytes());
        c.log(|| format!("{} {} bytes -> {:?}", if op.fmt { "log_fmt" } else { "log_str" }, op.text.len(), op.res));
    }
    c.sig((tx_len * 16 + kl) as u64);
    c.note = Some(format!("{}: {} log calls, {tx_len}-byte buffer, {kl}-byte keys", V::NAME, ops.len()));
    if lossy {
        // drop unterminated or partial leftovers of failed sends
        let frames: Vec<Vec<u8>> = dv.transfers.iter().filter(|t| dec_log(t, kl).is_ok()).cloned().collect();
        let bad: Vec<&Vec<u8>> = dv.transfers.iter().filter(|t| dec_log(t, kl).is_err()).collect();
        if let Some(b) = bad.iter().find(|b| b.len() % 64 != 0) {
            return Err(format!("undecodable log frame: {}", hex(b)));
        }
        if bad.len() > ops.iter().filter(|o| o.res != Res::Ok).count() {
            return Err("more broken transfers than failed log calls".into());
        }
        c18_judge(c, kl, Some(tx_len), &ops, &frames, true)
    } else {
        c18_judge(c, kl, Some(tx_len), &ops, &dv.transfers, false)
    }
}

fn c18_plan(c: &mut Case, tx_len: usize, kl: usize) -> Plan {
    let room = tx_len.saturating_sub(3 + kl);
    let len = match c.rng.below(6) {
        0 => c.rng.below(20),
        1 => c.rng.below(room + 20),
        2 | 3 => (room + c.rng.below(12)).saturating_sub(8),
        4 => 120 + c.rng.below(16),
        _ => room + c.rng.below(600),
    };
    Plan { text: rand_text(&mut c.rng, len), fmt: c.rng.chance(3, 4), style: c.rng.below(6) }
}

fn c18_usb<V: Ver>(c: &mut Case) -> Result<(), String> {
    let kl = *c.rng.pick(&KLENS);
    let tx_len = match c.rng.below(5) {
        0 => c.rng.range(0, 40),
        1 => c.rng.range(100, 320),
        2 => *c.rng.pick(&TX_LENS),
        3 => 128 + kl + c.rng.below(12),
        _ => c.rng.range(16, 1100),
    };
    let n = c.rng.range(1, 8);
    let plans = (0..n).map(|_| c18_plan(c, tx_len, kl)).collect();
    c18_run::<V>(c, tx_len, kl, plans, dev(), false, 0)
}

/// every text length around what fits, with a multi-byte character at the cut
fn c18_boundary<V: Ver>(c: &mut Case) -> Result<(), String> {
    let kl = *c.rng.pick(&KLENS);
    let tx_len = *c.rng.pick(&[12usize, 14, 16, 20, 64, 100, 128, 131, 133, 135, 140, 200, 255, 256, 257, 260, 300]);
    let room = tx_len.saturating_sub(3 + kl);
    let mut plans = vec![];
    for len in room.saturating_sub(8)..room + 6 {
        let ch = *c.rng.pick(&['\u{e9}', '\u{20ac}', '\u{1f600}', 'a']);
        let k = len.saturating_sub(c.rng.below(8) + ch.len_utf8()).min(len);
        let mut s = "x".repeat(k);
        while s.len() + ch.len_utf8() <= len {
            s.push(ch);
        }
        while s.len() < len {
            s.push('z');
        }
        plans.push(Plan { text: s, fmt: c.rng.chance(4, 5), style: *c.rng.pick(&[0usize, 4, 5]) });
    }
    c.evals = plans.len() as u64;
    c18_run::<V>(c, tx_len, kl, plans, dev(), false, 0)
}

fn c18_large<V: Ver>(c: &mut Case) -> Result<(), String> {
    let kl = *c.rng.pick(&KLENS);
    let tx_len = match c.rng.below(3) {
        // the room for the text and its length field is just around a change of the field's size
        0 => 16384 + 3 + kl + c.rng.below(5) - 2,
        _ => *c.rng.pick(&[4096usize, 16384, 16390, 16400, 20000, 32768, 32790, 40000, 70000]),
    };
    let d = dev();
    let mut plans = vec![];
    for _ in 0..c.rng.range(1, 4) {
        let room = tx_len - 3 - kl;
        let len = *c.rng.pick(&[room + 100, room - 3, room - 2, room - 4, 16383, 16384, 16500, 20000, 128, 127, 5]);
        plans.push(Plan { text: rand_text(&mut c.rng, len), fmt: c.rng.chance(4, 5), style: *c.rng.pick(&[0usize, 4, 5]) });
    }
    // wrap the 16-bit counter now and then
    let warm = if c.rng.chance(1, 20) { 65534 + c.rng.below(3) as u32 } else { 0 };
    c18_run::<V>(c, tx_len, kl, plans, d, false, warm)
}

fn c18_faults<V: Ver>(c: &mut Case) -> Result<(), String> {
    let kl = *c.rng.pick(&KLENS);
    let tx_len = c.rng.range(70, 400);
    let d = dev();
    {
        let mut v = d.borrow_mut();
        v.commit_early = c.rng.chance(1, 2);
        v.reset_on_disable = c.rng.chance(1, 2);
        for _ in 0..40 {
            v.plan.push_back(match c.rng.below(12) {
                0 => WPlan::Hang,
                1 => WPlan::Disable(0),
                _ => WPlan::Take(0),
            });
        }
    }
    let n = c.rng.range(2, 8);
    let plans = (0..n).map(|_| c18_plan(c, tx_len, kl)).collect();
    c18_run::<V>(c, tx_len, kl, plans, d, true, 0)
}

fn c18_channel(c: &mut Case) -> Result<(), String> {
    vt_reset();
    let kl = *c.rng.pick(&KLENS);
    let (txc, mut rxc) = tokio::sync::mpsc::channel::<Vec<u8>>(c.rng.range(1, 20));
    let tx = postcard_rpc::server::impls::test_channels::ChannelWireTx::new(txc);
    let mut sched = Sched::new(c.rng.fork());
    let n = c.rng.range(1, 10);
    let mut plans: Vec<Plan> = (0..n).map(|_| c18_plan(c, 300, kl)).collect();
    // a second clone shares the counter; one at a time keeps the order known
    let tx2 = tx.clone();
    let ops = Rc::new(RefCell::new(Vec::<LogOp>::new()));
    let o = ops.clone();
    let mut rng = c.rng.fork();
    sched.spawn("logger", async move {
        let a = Sender::new(tx, kkind(kl));
        let b = Sender::new(tx2, kkind(kl));
        for p in plans.drain(..) {
            let s = if rng.chance(1, 2) { &a } else { &b };
            let (text, swallow, r) = do_log(s, &p, &mut rng).await;
            let res = if r.is_ok() { Res::Ok } else { Res::Err(Ek::Closed) };
            o.borrow_mut().push(LogOp { text, fmt: p.fmt, swallow, res });
        }
    });
    let frames = Rc::new(RefCell::new(vec![]));
    let f2 = frames.clone();
    sched.spawn("host", async move {
        while let Some(f) = rxc.recv().await {
            f2.borrow_mut().push(f);
        }
    });
    let stop = sched.run(100_000);
    if stop != Stop::AllDone {
        return Err(format!("channel logging does not finish: {stop:?} {:?}", sched.unfinished()));
    }
    c.sig(sched.switch_sig);
    c.nontrivial = true;
    let ops = ops.borrow();
    for op in ops.iter() {
        c.sig_bytes(op.text.as_bytes());
    }
    c.count("channel_logs", ops.len() as u64);
    let frames = frames.borrow().clone();
    c18_judge(c, kl, None, &ops, &frames, false)
}
