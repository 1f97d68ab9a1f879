//! C26: a USB device built by either device integration, run by the real embassy-usb stack over a
//! simulated peripheral, as an enumerating host sees it.
use crate::exec::*;
use crate::refc::*;
use crate::report::*;
use crate::rng::Rng;
use embassy_sync::blocking_mutex::raw::NoopRawMutex;
use embassy_usb_driver as drv;
use postcard_rpc::header::VarHeader;
use postcard_rpc::server::impls::embassy_usb_v0_3::dispatch_impl as v3;
use postcard_rpc::server::impls::embassy_usb_v0_4::dispatch_impl as v4;
use postcard_rpc::server::{Dispatch, Sender, Server, ServerError, WireRx, WireRxErrorKind, WireTx, WireTxErrorKind};
use postcard_rpc::standard_icd::PingEndpoint;
use postcard_rpc::Endpoint;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::task::{Poll, Waker};

#[derive(Default)]
struct Hw {
    events: VecDeque<drv::Event>,
    setups: VecDeque<[u8; 8]>,
    /// answer to the current control request
    reply: Vec<u8>,
    done: Option<bool>,
    address: u8,
    mps0: usize,
    enabled: BTreeMap<u8, bool>,
    out_q: BTreeMap<u8, VecDeque<Vec<u8>>>,
    in_pk: BTreeMap<u8, Vec<Vec<u8>>>,
    wakers: Vec<Waker>,
    next_ep: [u8; 2],
    alloc: Vec<(u8, u8, u16)>,
    /// how the server loop ended each time
    ends: Vec<&'static str>,
    powered: bool,
}
type HwRef = Rc<RefCell<Hw>>;
impl Hw {
    fn wake(&mut self) {
        for w in self.wakers.drain(..) {
            w.wake();
        }
    }
    fn all_off(&mut self) {
        self.enabled.values_mut().for_each(|e| *e = false);
        self.out_q.values_mut().for_each(|q| q.clear());
        self.wake();
    }
}
pub struct EnDriver(HwRef);
pub struct EnIn(HwRef, drv::EndpointInfo);
pub struct EnOut(HwRef, drv::EndpointInfo);
pub struct EnCtl(HwRef);
pub struct EnBus(HwRef);
fn ad(i: &drv::EndpointInfo) -> u8 {
    i.addr.into()
}
impl drv::Endpoint for EnIn {
    fn info(&self) -> &drv::EndpointInfo {
        &self.1
    }
    async fn wait_enabled(&mut self) {
        wait(&self.0, |h| h.enabled.get(&ad(&self.1)) == Some(&true)).await
    }
}
impl drv::Endpoint for EnOut {
    fn info(&self) -> &drv::EndpointInfo {
        &self.1
    }
    async fn wait_enabled(&mut self) {
        wait(&self.0, |h| h.enabled.get(&ad(&self.1)) == Some(&true)).await
    }
}
async fn wait(h: &HwRef, f: impl Fn(&Hw) -> bool) {
    std::future::poll_fn(|cx| {
        let mut g = h.borrow_mut();
        if f(&g) {
            Poll::Ready(())
        } else {
            g.wakers.push(cx.waker().clone());
            Poll::Pending
        }
    })
    .await
}
impl drv::EndpointIn for EnIn {
    async fn write(&mut self, buf: &[u8]) -> Result<(), drv::EndpointError> {
        yield_now().await;
        let mut h = self.0.borrow_mut();
        let a = ad(&self.1);
        if h.enabled.get(&a) != Some(&true) {
            return Err(drv::EndpointError::Disabled);
        }
        h.in_pk.entry(a).or_default().push(buf.to_vec());
        h.wake();
        Ok(())
    }
}
impl drv::EndpointOut for EnOut {
    async fn read(&mut self, buf: &mut [u8]) -> Result<usize, drv::EndpointError> {
        let a = ad(&self.1);
        std::future::poll_fn(|cx| {
            let mut h = self.0.borrow_mut();
            if h.enabled.get(&a) != Some(&true) {
                return Poll::Ready(Err(drv::EndpointError::Disabled));
            }
            match h.out_q.entry(a).or_default().pop_front() {
                Some(p) if p.len() > buf.len() => Poll::Ready(Err(drv::EndpointError::BufferOverflow)),
                Some(p) => {
                    buf[..p.len()].copy_from_slice(&p);
                    Poll::Ready(Ok(p.len()))
                }
                None => {
                    h.wakers.push(cx.waker().clone());
                    Poll::Pending
                }
            }
        })
        .await
    }
}
impl drv::ControlPipe for EnCtl {
    fn max_packet_size(&self) -> usize {
        self.0.borrow().mps0
    }
    async fn setup(&mut self) -> [u8; 8] {
        wait(&self.0, |h| !h.setups.is_empty()).await;
        let mut h = self.0.borrow_mut();
        h.reply.clear();
        h.setups.pop_front().unwrap()
    }
    async fn data_out(&mut self, _b: &mut [u8], _f: bool, _l: bool) -> Result<usize, drv::EndpointError> {
        Ok(0)
    }
    async fn data_in(&mut self, d: &[u8], _f: bool, last: bool) -> Result<(), drv::EndpointError> {
        yield_now().await;
        let mut h = self.0.borrow_mut();
        h.reply.extend_from_slice(d);
        if last {
            h.done = Some(true);
        }
        Ok(())
    }
    async fn accept(&mut self) {
        self.0.borrow_mut().done = Some(true);
    }
    async fn reject(&mut self) {
        self.0.borrow_mut().done = Some(false);
    }
    async fn accept_set_address(&mut self, a: u8) {
        let mut h = self.0.borrow_mut();
        h.address = a;
        h.done = Some(true);
    }
}
impl drv::Bus for EnBus {
    async fn enable(&mut self) {
        self.0.borrow_mut().powered = true;
    }
    async fn disable(&mut self) {
        let mut h = self.0.borrow_mut();
        h.powered = false;
        h.all_off();
    }
    async fn poll(&mut self) -> drv::Event {
        wait(&self.0, |h| !h.events.is_empty()).await;
        let mut h = self.0.borrow_mut();
        let e = h.events.pop_front().unwrap();
        if matches!(e, drv::Event::Reset | drv::Event::PowerRemoved) {
            h.address = 0;
            h.all_off();
        }
        e
    }
    fn endpoint_set_enabled(&mut self, a: drv::EndpointAddress, e: bool) {
        let mut h = self.0.borrow_mut();
        h.enabled.insert(a.into(), e);
        if !e {
            h.out_q.remove(&a.into());
        }
        h.wake();
    }
    fn endpoint_set_stalled(&mut self, _a: drv::EndpointAddress, _s: bool) {}
    fn endpoint_is_stalled(&mut self, _a: drv::EndpointAddress) -> bool {
        false
    }
    async fn remote_wakeup(&mut self) -> Result<(), drv::Unsupported> {
        Err(drv::Unsupported)
    }
}
impl EnDriver {
    fn alloc(&mut self, dir: drv::Direction, t: drv::EndpointType, mps: u16, iv: u8) -> drv::EndpointInfo {
        let mut h = self.0.borrow_mut();
        let d = (dir == drv::Direction::In) as usize;
        let n = h.next_ep[d];
        h.next_ep[d] += 1;
        let addr = drv::EndpointAddress::from_parts(n as usize, dir);
        h.alloc.push((addr.into(), t as u8, mps));
        h.enabled.insert(addr.into(), false);
        drv::EndpointInfo { addr, ep_type: t, max_packet_size: mps, interval_ms: iv }
    }
}
impl drv::Driver<'static> for EnDriver {
    type EndpointOut = EnOut;
    type EndpointIn = EnIn;
    type ControlPipe = EnCtl;
    type Bus = EnBus;
    fn alloc_endpoint_out(&mut self, t: drv::EndpointType, mps: u16, iv: u8) -> Result<EnOut, drv::EndpointAllocError> {
        let i = self.alloc(drv::Direction::Out, t, mps, iv);
        Ok(EnOut(self.0.clone(), i))
    }
    fn alloc_endpoint_in(&mut self, t: drv::EndpointType, mps: u16, iv: u8) -> Result<EnIn, drv::EndpointAllocError> {
        let i = self.alloc(drv::Direction::In, t, mps, iv);
        Ok(EnIn(self.0.clone(), i))
    }
    fn start(self, m: u16) -> (EnBus, EnCtl) {
        self.0.borrow_mut().mps0 = m as usize;
        (EnBus(self.0.clone()), EnCtl(self.0))
    }
}

/// answers pings, whatever the transport
struct Echo<T>(std::marker::PhantomData<T>);
impl<T: WireTx> Dispatch for Echo<T> {
    type Tx = T;
    fn min_key_len(&self) -> postcard_rpc::header::VarKeyKind {
        kkind(8)
    }
    async fn handle(&mut self, tx: &Sender<T>, hdr: &VarHeader, body: &[u8]) -> Result<(), T::Error> {
        match postcard::from_bytes::<u32>(body) {
            Ok(n) => tx.reply::<PingEndpoint>(hdr.seq_no, &n).await,
            Err(_) => Ok(()),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Form {
    Plain,
    /// with this many further functions of the application
    Apps(usize),
    Poststation,
}
#[derive(Clone, Debug)]
struct Conf {
    vid: u16,
    pid: u16,
    rel: u16,
    mfr: Option<&'static str>,
    prod: Option<&'static str>,
    serial: Option<&'static str>,
    mps0: u8,
    iads: bool,
    power: u16,
    self_powered: bool,
    form: Form,
}
const NAMES: &[Option<&str>] = &[None, Some(""), Some("ACME"), Some("Ünïcode ✓ dev"), Some("12345678"), Some("Poststation"), Some("30 characters fill the buffer!")];
const APP_TEXT: &str = "app function";

type Run = std::pin::Pin<Box<dyn Future<Output = ()>>>;
trait Ver: 'static {
    type Tx: WireTx<Error = WireTxErrorKind> + Clone + 'static;
    type Rx: WireRx<Error = WireRxErrorKind> + 'static;
    const NAME: &'static str;
    fn poststation_used() -> &'static AtomicBool;
    fn make(hw: &HwRef, f: &Conf) -> (Run, Self::Tx, Self::Rx, Vec<u8>, Box<dyn FnOnce()>);
}
macro_rules! version {
    ($name:ident, $m:ident, $usb:ident) => {
        struct $name;
        impl Ver for $name {
            type Tx = $m::WireTxImpl<NoopRawMutex, EnDriver>;
            type Rx = $m::WireRxImpl<EnDriver>;
            const NAME: &'static str = stringify!($m);
            fn poststation_used() -> &'static AtomicBool {
                static U: AtomicBool = AtomicBool::new(false);
                &U
            }
            fn make(hw: &HwRef, f: &Conf) -> (Run, Self::Tx, Self::Rx, Vec<u8>, Box<dyn FnOnce()>) {
                struct App(u8);
                impl $usb::Handler for App {
                    fn get_string(&mut self, index: $usb::types::StringIndex, _l: u16) -> Option<&str> {
                        if index.0 == self.0 {
                            Some(APP_TEXT)
                        } else {
                            None
                        }
                    }
                }
                type St = $m::WireStorage<NoopRawMutex, EnDriver>;
                let st: *mut St = Box::into_raw(Box::new(St::new()));
                let buf: *mut [u8] = Box::into_raw(vec![0u8; 512].into_boxed_slice());
                let mut cfg = $usb::Config::new(f.vid, f.pid);
                cfg.device_release = f.rel;
                cfg.manufacturer = f.mfr;
                cfg.product = f.prod;
                cfg.serial_number = f.serial;
                cfg.max_packet_size_0 = f.mps0;
                cfg.max_power = f.power;
                cfg.self_powered = f.self_powered;
                (cfg.device_class, cfg.device_sub_class, cfg.device_protocol) = if f.iads { (0xEF, 2, 1) } else { (0, 0, 0) };
                cfg.composite_with_iads = f.iads;
                let (sref, bref): (&'static St, &'static mut [u8]) = unsafe { (&*st, &mut *buf) };
                let d = EnDriver(hw.clone());
                let mut app_strings = vec![];
                let mut apps: Vec<*mut App> = vec![];
                let (mut usb, tx, rx) = match f.form {
                    Form::Plain => sref.init(d, cfg, bref),
                    Form::Poststation => sref.init_poststation(d, cfg, bref),
                    Form::Apps(n) => {
                        let (mut b, tx, rx) = sref.init_without_build(d, cfg, bref);
                        for i in 0..n {
                            let mut func = b.function(0x0A, i as u8, 0);
                            let mut ifc = func.interface();
                            let s = ifc.string();
                            app_strings.push(s.0);
                            let mut alt = ifc.alt_setting(0x0A, i as u8, 0, Some(s));
                            if i % 2 == 0 {
                                let _ = alt.endpoint_bulk_in(32);
                            }
                            let _ = alt.endpoint_interrupt_out(16, 5);
                            drop(func);
                            let h: *mut App = Box::into_raw(Box::new(App(s.0)));
                            apps.push(h);
                            b.handler(unsafe { &mut *h });
                        }
                        (b.build(), tx, rx)
                    }
                };
                let run: Run = Box::pin(async move { usb.run().await });
                let free = Box::new(move || unsafe {
                    drop(Box::from_raw(st));
                    drop(Box::from_raw(buf));
                    for a in apps {
                        drop(Box::from_raw(a));
                    }
                });
                (run, tx, rx, app_strings, free)
            }
        }
    };
}
version!(V3, v3, embassy_usb_0_3);
version!(V4, v4, embassy_usb_0_4);

struct Host<'a> {
    hw: HwRef,
    sched: &'a mut Sched,
    rng: Rng,
    /// control requests answered so far
    asked: u64,
}
impl Host<'_> {
    fn event(&mut self, e: drv::Event) {
        let mut h = self.hw.borrow_mut();
        h.events.push_back(e);
        h.wake();
        drop(h);
        self.sched.run(20_000);
    }
    /// a control request; None if it was stalled
    fn ctl(&mut self, kind: u8, req: u8, value: u16, index: u16, len: u16) -> Result<Option<Vec<u8>>, String> {
        let (v, i, l) = (value.to_le_bytes(), index.to_le_bytes(), len.to_le_bytes());
        {
            let mut h = self.hw.borrow_mut();
            h.done = None;
            h.setups.push_back([kind, req, v[0], v[1], i[0], i[1], l[0], l[1]]);
            h.wake();
        }
        self.sched.run(20_000);
        self.asked += 1;
        let h = self.hw.borrow();
        match h.done {
            None => Err(format!("the device never answers the control request {kind:#x} {req:#x} {value:#x}")),
            Some(false) => Ok(None),
            Some(true) if kind & 0x80 != 0 && h.reply.len() > len as usize => Err(format!("{} bytes answered where {len} were asked for", h.reply.len())),
            Some(true) => Ok(Some(h.reply.clone())),
        }
    }
    fn desc(&mut self, ty: u8, idx: u8, lang: u16, len: u16) -> Result<Option<Vec<u8>>, String> {
        self.ctl(0x80, 6, (ty as u16) << 8 | idx as u16, lang, len)
    }
    fn string(&mut self, idx: u8, lang: u16) -> Result<Option<String>, String> {
        // some hosts ask for the length first
        if self.rng.chance(1, 3) {
            self.desc(3, idx, lang, 2)?;
        }
        let Some(d) = self.desc(3, idx, lang, 255)? else { return Ok(None) };
        if d.len() < 2 || d[0] as usize != d.len() || d[1] != 3 || d.len() % 2 != 0 {
            return Err(format!("string descriptor {idx} is malformed: {}", hex(&d)));
        }
        let u: Vec<u16> = d[2..].chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
        Ok(Some(String::from_utf16(&u).map_err(|_| format!("string {idx} is not UTF-16"))?))
    }
}
#[derive(Clone, Debug, Default)]
struct Ifc {
    num: u8,
    alt: u8,
    class: [u8; 3],
    string: u8,
    eps: Vec<(u8, u8, u16)>,
}
fn le(b: &[u8], i: usize) -> u16 {
    u16::from_le_bytes([b[i], b[i + 1]])
}
fn parse_config(d: &[u8]) -> Result<Vec<Ifc>, String> {
    if d.len() < 9 || d[1] != 2 || le(d, 2) as usize != d.len() {
        return Err(format!("configuration descriptor malformed: {}", hex(d)));
    }
    let mut v: Vec<Ifc> = vec![];
    let mut i = d[0] as usize;
    while i < d.len() {
        let l = d[i] as usize;
        if l < 2 || i + l > d.len() {
            return Err(format!("configuration descriptor malformed at {i}: {}", hex(d)));
        }
        let x = &d[i..i + l];
        match x[1] {
            4 => v.push(Ifc { num: x[2], alt: x[3], class: [x[5], x[6], x[7]], string: x[8], eps: vec![] }),
            5 => match v.last_mut() {
                Some(f) => f.eps.push((x[2], x[3] & 3, le(x, 4))),
                None => return Err("endpoint outside an interface".into()),
            },
            _ => {}
        }
        i += l;
    }
    let mut nums: Vec<u8> = v.iter().map(|f| f.num).collect();
    nums.dedup();
    if nums.len() != d[4] as usize {
        return Err(format!("{} interfaces announced, {} described", d[4], nums.len()));
    }
    Ok(v)
}
fn utf16(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect()
}
/// what Windows reads: compatible id and registry property
fn check_windows(h: &mut Host) -> Result<(), String> {
    let Some(b) = h.desc(0x0f, 0, 0, 5)? else { return Err("no BOS descriptor".into()) };
    let Some(b) = h.desc(0x0f, 0, 0, le(&b, 2))? else { return Err("no BOS descriptor".into()) };
    if b.len() < 5 || le(&b, 2) as usize != b.len() {
        return Err(format!("BOS descriptor malformed: {}", hex(&b)));
    }
    const UUID: [u8; 16] = [0xDF, 0x60, 0xDD, 0xD8, 0x89, 0x45, 0xC7, 0x4C, 0x9C, 0xD2, 0x65, 0x9D, 0x9E, 0x64, 0x8A, 0x9F];
    let mut i = b[0] as usize;
    let mut found = None;
    while i + 3 <= b.len() {
        let l = b[i] as usize;
        if l < 3 || i + l > b.len() {
            return Err(format!("BOS descriptor malformed: {}", hex(&b)));
        }
        let x = &b[i..i + l];
        if x[2] == 5 && l >= 28 && x[4..20] == UUID {
            found = Some((u32::from_le_bytes(x[20..24].try_into().unwrap()), le(x, 24), x[26]));
        }
        i += l;
    }
    let Some((ver, len, code)) = found else { return Err("the BOS descriptor announces no Microsoft OS 2.0 descriptors".into()) };
    let Some(m) = h.ctl(0xC0, code, 0, 7, len)? else { return Err("the Microsoft OS 2.0 descriptor request is stalled".into()) };
    if m.len() != len as usize || m.len() < 10 || le(&m, 0) != 10 || le(&m, 2) != 0 || le(&m, 8) != len || u32::from_le_bytes(m[4..8].try_into().unwrap()) != ver {
        return Err(format!("Microsoft OS 2.0 descriptor set malformed ({len} announced): {}", hex(&m)));
    }
    let (mut win, mut guid) = (false, false);
    let mut i = 10;
    while i + 4 <= m.len() {
        let l = le(&m, i) as usize;
        if l < 4 || i + l > m.len() {
            return Err(format!("Microsoft OS 2.0 descriptor set malformed: {}", hex(&m)));
        }
        let x = &m[i..i + l];
        match le(x, 2) {
            3 => win |= x[4..] == *b"WINUSB\0\0\0\0\0\0\0\0\0\0",
            4 => {
                let nl = le(x, 6) as usize;
                let name = &x[8..8 + nl];
                let dl = le(x, 8 + nl) as usize;
                let data = &x[10 + nl..10 + nl + dl];
                if name == utf16("DeviceInterfaceGUIDs\0") && le(x, 4) == 7 {
                    guid |= data == utf16("{AFB9A6FB-30BA-44BC-9232-806CFC875321}\0\0");
                }
            }
            // headers of subsets are walked into
            1 | 2 => {
                i += 8;
                continue;
            }
            _ => {}
        }
        i += l;
    }
    if !win {
        return Err("Windows is not told that the device works with WinUSB".into());
    }
    if !guid {
        return Err(format!("Windows is not told the interface GUID: {}", hex(&m)));
    }
    Ok(())
}

/// everything an enumerating host may ask, in some order; returns (OUT, IN) endpoint addresses
fn enumerate(h: &mut Host, f: &Conf, apps: &[u8]) -> Result<(u8, u8), String> {
    h.event(drv::Event::Reset);
    if h.rng.chance(1, 2) {
        h.desc(1, 0, 0, 64)?;
        h.event(drv::Event::Reset);
    }
    let addr = h.rng.range(1, 127) as u16;
    if h.ctl(0, 5, addr, 0, 0)?.is_none() {
        return Err("SET_ADDRESS refused".into());
    }
    let Some(d) = h.desc(1, 0, 0, 18)? else { return Err("no device descriptor".into()) };
    if d.len() != 18 || le(&d, 8) != f.vid || le(&d, 10) != f.pid || le(&d, 12) != f.rel || d[7] != f.mps0 {
        return Err(format!("device descriptor {} does not show {:04x}:{:04x} release {:04x}", hex(&d), f.vid, f.pid, f.rel));
    }
    let mut out = (0, 0);
    let mut steps = [0, 1, 2, 3];
    h.rng.shuffle(&mut steps);
    let mut rpc: Option<Ifc> = None;
    for s in steps {
        match s {
            0 => {
                h.desc(2, 0, 0, 9)?;
                let Some(c) = h.desc(2, 0, 0, 1024)? else { return Err("no configuration descriptor".into()) };
                let ifs = parse_config(&c)?;
                if c[8] as u16 != f.power / 2 {
                    return Err(format!("the application's power limit {} became {}", f.power, c[8] as u16 * 2));
                }
                let ours: Vec<&Ifc> = ifs.iter().filter(|i| i.class[0] == 0xff).collect();
                let [o] = ours.as_slice() else {
                    return Err(format!("{} vendor-class interface settings announced, expected one: {ifs:?}", ours.len()));
                };
                let want = if f.form == Form::Poststation { [0xff, 0xca, 0x7d] } else { [0xff, 0, 0] };
                if o.class != want {
                    return Err(format!("the interface is of class {:x?}, expected {want:x?}", o.class));
                }
                let ins: Vec<_> = o.eps.iter().filter(|e| e.0 & 0x80 != 0).collect();
                let outs: Vec<_> = o.eps.iter().filter(|e| e.0 & 0x80 == 0).collect();
                if ins.len() != 1 || outs.len() != 1 || o.eps.iter().any(|e| e.1 != 2 || e.2 != 64) {
                    return Err(format!("the interface's endpoints are {:x?}, expected one bulk pair of 64 bytes", o.eps));
                }
                out = (outs[0].0, ins[0].0);
                let others: Vec<&Ifc> = ifs.iter().filter(|i| i.class[0] != 0xff).collect();
                let n = if let Form::Apps(n) = f.form { n } else { 0 };
                if others.len() != n || others.iter().enumerate().any(|(i, o)| o.class != [0x0a, i as u8, 0] || o.string != apps[i] || o.eps.len() != 2 - i % 2) {
                    return Err(format!("the application's {n} functions appear as {others:x?}"));
                }
                rpc = Some((*o).clone());
            }
            1 => {
                for (i, want) in [(d[14], f.mfr), (d[15], f.prod), (d[16], f.serial)] {
                    if let Some(w) = want {
                        let got = h.string(i, 0x0409)?;
                        if i == 0 || got.as_deref() != Some(w) {
                            return Err(format!("identity string {i} is {got:?}, the application set {w:?}"));
                        }
                    }
                }
                for i in apps {
                    let got = h.string(*i, 0x0409)?;
                    if got.as_deref() != Some(APP_TEXT) {
                        return Err(format!("the application's string {i} is {got:?}"));
                    }
                }
            }
            2 => check_windows(h)?,
            _ => {
                // requests for things that are not there
                for _ in 0..h.rng.below(3) {
                    let i = h.rng.range(30, 255) as u8;
                    if let Some(s) = h.string(i, 0x0409)? {
                        return Err(format!("string {i} nobody announced is {s:?}"));
                    }
                }
            }
        }
    }
    let o = rpc.unwrap();
    if f.form == Form::Poststation {
        if o.string == 0 || h.string(o.string, 0x0409)?.as_deref() != Some("Poststation") {
            return Err(format!("the interface's name (string {}) is not Poststation", o.string));
        }
        if let Some(s) = h.string(o.string, 0x0407)? {
            return Err(format!("the interface has the name {s:?} in German"));
        }
        for i in 1..o.string {
            if ![d[14], d[15], d[16]].contains(&i) && h.string(i, 0x0409)?.is_some() {
                return Err(format!("string {i} nobody announced exists"));
            }
        }
    } else if o.string != 0 {
        return Err(format!("the interface announces the name {}, none was given", o.string));
    }
    // not configured yet: the endpoints are off
    if h.hw.borrow().enabled.values().any(|e| *e) {
        return Err("an endpoint is on before the device is configured".into());
    }
    if h.ctl(0, 9, 1, 0, 0)?.is_none() {
        return Err("SET_CONFIGURATION refused".into());
    }
    Ok(out)
}

fn ping(h: &mut Host, eps: (u8, u8), seq: u32) -> Result<(), String> {
    let v = h.rng.u32();
    let mut body = postcard::to_stdvec(&v).unwrap();
    let extra = h.rng.below(150);
    // ignored by the ping
    body.extend(h.rng.filler(extra));
    let f = frame(PingEndpoint::REQ_KEY, 8, seq, 4, &body);
    {
        let mut g = h.hw.borrow_mut();
        g.in_pk.clear();
        let q = g.out_q.entry(eps.0).or_default();
        for p in f.chunks(64) {
            q.push_back(p.to_vec());
        }
        if f.len() % 64 == 0 {
            q.push_back(vec![]);
        }
        g.wake();
    }
    h.sched.run(50_000);
    let g = h.hw.borrow();
    let want = frame(PingEndpoint::RESP_KEY, 8, seq, 4, &postcard::to_stdvec(&v).unwrap());
    let got: Vec<(u8, Vec<u8>)> = g.in_pk.iter().flat_map(|(a, p)| p.iter().filter(|p| !p.is_empty()).map(|p| (*a, p.clone()))).collect();
    if got != [(eps.1, want.clone())] {
        return Err(format!(
            "a ping sent to endpoint {:#x} of a configured device was answered by {:?}, expected {} on endpoint {:#x}",
            eps.0,
            got.iter().map(|(a, p)| format!("{a:#x}: {}", hex(p))).collect::<Vec<_>>(),
            hex(&want),
            eps.1
        ));
    }
    Ok(())
}

fn life<V: Ver>(c: &mut Case, ps: bool) -> Result<(), String> {
    vt_reset();
    let mut r = c.rng.fork();
    let form = match r.below(8) {
        _ if ps => Form::Poststation,
        0 => Form::Poststation,
        1..=3 => Form::Apps(r.range(1, 3)),
        _ => Form::Plain,
    };
    // the library allows one Poststation device per program
    if form == Form::Poststation && V::poststation_used().swap(true, Ordering::SeqCst) {
        c.count("skipped_second_poststation", 1);
        return Ok(());
    }
    let f = Conf {
        vid: r.u32() as u16,
        pid: r.u32() as u16,
        rel: r.u32() as u16,
        mfr: *r.pick(NAMES),
        prod: *r.pick(NAMES),
        serial: *r.pick(NAMES),
        mps0: *r.pick(&[8u8, 16, 32, 64]),
        iads: r.chance(1, 2),
        power: *r.pick(&[0u16, 50, 100, 250, 500]),
        self_powered: r.chance(1, 2),
        form,
    };
    c.log(|| format!("{} {f:?}", V::NAME));
    let hw: HwRef = Default::default();
    hw.borrow_mut().next_ep = [r.range(1, 4) as u8, r.range(1, 4) as u8];
    let mut sched = Sched::new(r.fork());
    let (run, tx, rx, apps, free) = V::make(&hw, &f);
    struct Free(Option<Box<dyn FnOnce()>>);
    impl Drop for Free {
        fn drop(&mut self) {
            if let Some(f) = self.0.take() {
                f()
            }
        }
    }
    let free = Free(Some(free));
    sched.spawn("usb", run);
    let mut server = Server::new(tx.clone(), rx, vec![0u8; 256].into_boxed_slice(), Echo::<V::Tx>(std::marker::PhantomData), kkind(8));
    let h2 = hw.clone();
    sched.spawn("server", async move {
        loop {
            let e = server.run().await;
            h2.borrow_mut().ends.push(match e {
                ServerError::RxFatal(WireRxErrorKind::ConnectionClosed) => "rx closed",
                ServerError::TxFatal(WireTxErrorKind::ConnectionClosed) => "tx closed",
                ServerError::RxFatal(_) => "rx other",
                ServerError::TxFatal(_) => "tx other",
            });
            wait(&h2, |h| h.enabled.values().any(|e| *e)).await;
        }
    });
    let res = (|| {
        let mut h = Host { hw: hw.clone(), sched: &mut sched, rng: r.fork(), asked: 0 };
        h.event(drv::Event::PowerDetected);
        let mut seq = 0;
        let mut first = None;
        let rounds = match form {
            _ if cfg!(miri) => 1,
            Form::Poststation => 40,
            _ => r.range(1, 4),
        };
        for round in 0..rounds {
            let eps = enumerate(&mut h, &f, &apps).map_err(|e| format!("{} {:?}: {e}", V::NAME, f.form))?;
            if *first.get_or_insert(eps) != eps {
                return Err(format!("the endpoints changed from {first:?} to {eps:?}"));
            }
            h.sched.run(10_000);
            for _ in 0..r.range(1, 4) {
                seq += 1;
                ping(&mut h, eps, seq).map_err(|e| format!("{} {:?} round {round}: {e}", V::NAME, f.form))?;
                c.count("pings", 1);
            }
            // the device speaks unasked
            let s: Sender<V::Tx> = Sender::new(tx.clone(), kkind(8));
            let ok = Rc::new(RefCell::new(None));
            let o2 = ok.clone();
            hw.borrow_mut().in_pk.clear();
            h.sched.spawn("log", async move { *o2.borrow_mut() = Some(s.log_str("hello").await) });
            h.sched.run(20_000);
            let n: Vec<u8> = hw.borrow().in_pk.iter().filter(|p| p.1.iter().any(|p| !p.is_empty())).map(|p| *p.0).collect();
            if n != [eps.1] || !matches!(*ok.borrow(), Some(Ok(()))) {
                return Err(format!("a log line of a configured device ended with {:?} on endpoints {n:x?} (announced {:#x})", ok.borrow(), eps.1));
            }
            let before = hw.borrow().ends.len();
            match r.below(4) {
                0 => {
                    h.event(drv::Event::Reset);
                    c.count("bus_resets", 1);
                }
                1 => {
                    h.ctl(0, 9, 0, 0, 0)?;
                    c.count("deconfigured", 1);
                }
                2 => {
                    h.event(drv::Event::PowerRemoved);
                    c.count("unplugged", 1);
                    h.event(drv::Event::PowerDetected);
                }
                _ => {
                    h.event(drv::Event::Suspend);
                    h.event(drv::Event::Resume);
                    c.count("suspended", 1);
                    seq += 1;
                    ping(&mut h, eps, seq).map_err(|e| format!("{} after suspend and resume: {e}", V::NAME))?;
                    continue;
                }
            }
            let ends = hw.borrow().ends[before..].to_vec();
            if ends != ["rx closed"] {
                return Err(format!("the server loop ended with {ends:?} when the host went away, expected a closed connection on receive"));
            }
            let s: Sender<V::Tx> = Sender::new(tx.clone(), kkind(8));
            let ok = Rc::new(RefCell::new(None));
            let o2 = ok.clone();
            h.sched.spawn("log", async move { *o2.borrow_mut() = Some(s.log_str("gone").await) });
            h.sched.run(20_000);
            if !matches!(*ok.borrow(), Some(Err(WireTxErrorKind::ConnectionClosed))) {
                return Err(format!("a log line while not configured ended with {:?}", ok.borrow()));
            }
            c.count("closed_reported", 1);
        }
        c.evals = h.asked;
        Ok(())
    })();
    c.count(V::NAME, 1);
    c.count(
        match form {
            Form::Plain => "plain_devices",
            Form::Apps(_) => "composite_devices",
            Form::Poststation => "poststation_devices",
        },
        1,
    );
    c.sig(sched.switch_sig ^ (f.vid as u64) << 32 ^ (f.pid as u64) << 48);
    c.nontrivial = true;
    sched.drop_all();
    drop(sched);
    if form == Form::Poststation {
        // its handler stays registered for ever
        std::mem::forget(free);
    }
    res
}

fn c26_life(c: &mut Case) -> Result<(), String> {
    if c.rng.chance(1, 2) {
        life::<V3>(c, false)
    } else {
        life::<V4>(c, false)
    }
}

/// one Poststation device per process: each case is a process of its own
fn c26_poststation(c: &mut Case) -> Result<(), String> {
    const ENV: &str = "PMON_POSTSTATION_CHILD";
    if std::env::var_os(ENV).is_some() || c.trace_on || cfg!(miri) {
        return if c.rng.chance(1, 2) { life::<V3>(c, true) } else { life::<V4>(c, true) };
    }
    let exe = std::env::current_exe().expect("own path");
    let out = std::process::Command::new(exe)
        .args(["replay", "C26", "poststation", &format!("{:#x}", c.seed)])
        .env(ENV, "1")
        .output()
        .expect("child process");
    let text = String::from_utf8_lossy(&out.stdout);
    c.count("poststation_processes", 1);
    c.sig(c.seed);
    c.nontrivial = true;
    match out.status.code() {
        Some(0) => Ok(()),
        Some(1) if text.contains("VIOLATION: ") => Err(text.rsplit("VIOLATION: ").next().unwrap().trim().to_string()),
        _ => panic!("the child ended with {:?}: {text} {}", out.status, String::from_utf8_lossy(&out.stderr)),
    }
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C26",
        rule: "a distinct case is a distinct (device configuration, order of host requests, bus events, schedule) run of the real USB device stack over a simulated peripheral, judged on the descriptors the host reads and the traffic on the announced endpoints",
        scenarios: vec![
            Scenario { name: "life", f: c26_life, quick: 1500, weight: 8, serial: false },
            Scenario { name: "poststation", f: c26_poststation, quick: 120, weight: 1, serial: false },
        ],
        assumptions: &["the peripheral driver turns its endpoints off on a bus reset and reports a disabled endpoint to reads and writes, as embassy drivers do", "one Poststation device per program (documented: init is called once)", "strings fit the control buffer (30 characters with the default of 64 bytes)"],
        must_see: &["v3", "v4", "plain_devices", "composite_devices", "poststation_devices", "poststation_processes", "pings", "bus_resets", "deconfigured", "unplugged", "suspended", "closed_reported"],
    }]
}
