//! C24: the browser USB transport, built natively against a simulated browser (../fake-web).
use crate::exec::*;
use crate::icd::{ToA, ToB};
use crate::refc::*;
use crate::report::*;
use crate::rng::Rng;
use postcard_rpc::header::{VarSeq, VarSeqKind};
use postcard_rpc::host_client::webusb::WebUsbWire;
use postcard_rpc::host_client::{HostClient, WireRx, WireTx};
use postcard_rpc::standard_icd::{WireError, ERROR_PATH};
use postcard_rpc::Topic;
use std::cell::{Cell, RefCell};
use std::future::poll_fn;
use std::rc::Rc;
use std::task::Poll;
use std::time::Duration;
use wasm_bindgen::sim::{self, DevCfg, Ev, Transfer, V};
use wasm_bindgen::web::UsbTransferStatus;
use wasm_bindgen::JsValue;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C24",
        rule: "a distinct case is a distinct (device population / frame lengths / transfer results / schedule) of the real transport and client over a simulated browser whose calls are all recorded",
        scenarios: vec![
            Scenario { name: "connect", f: connect, quick: 3000, weight: 1, serial: false },
            Scenario { name: "traffic", f: traffic, quick: 1500, weight: 2, serial: false },
            Scenario { name: "faults", f: faults, quick: 2500, weight: 3, serial: false },
        ],
        assumptions: &["the browser settles the transfers of one endpoint in submission order; it is replaced by a recording simulation with the interface of web-sys"],
        must_see: &[
            "connected", "paired_used", "requested", "request_refused", "open_failed", "claim_failed", "list_failed", "wrong_vendor_skipped",
            "out_frames", "out_zlp", "out_rejected", "out_status", "out_threw", "out_zlp_failed", "in_frames", "in_max", "in_empty", "in_no_data",
            "in_rejected", "in_status",
        ],
    }]
}

type Client = HostClient<WireError>;

/// waits until the simulation has something for the harness to do
async fn wait_for(mut f: impl FnMut(&mut sim::Sim) -> bool) {
    poll_fn(|cx| {
        sim::with(|s| {
            if f(s) {
                Poll::Ready(())
            } else {
                s.on_submit.push(cx.waker().clone());
                Poll::Pending
            }
        })
    })
    .await
}

/// the browser settles whatever the connection phase asked for
async fn settler(mut rng: Rng) {
    loop {
        wait_for(|s| !s.later.is_empty()).await;
        if rng.chance(1, 2) {
            tokio::time::sleep(Duration::from_micros(rng.below(2000) as u64)).await;
        }
        if let Some((st, r)) = sim::with(|s| s.later.pop_front()) {
            st.settle(r);
        }
    }
}

fn connect(c: &mut Case) -> Result<(), String> {
    sim::reset();
    let n = c.rng.below(5);
    let vid = c.rng.range(1, 3) as u16;
    let ifn = c.rng.below(6) as u8;
    let devices: Vec<DevCfg> = (0..n)
        .map(|i| DevCfg {
            vid: c.rng.range(1, 3) as u16,
            pid: i as u16,
            paired: c.rng.chance(2, 3),
            open_fails: c.rng.chance(1, 8),
            claim_fails: c.rng.chance(1, 8),
        })
        .collect();
    let list_fails = c.rng.chance(1, 12);
    // the user picks one of the devices the filter shows, or dismisses the dialog
    let shown: Vec<usize> = (0..n).filter(|i| devices[*i].vid == vid).collect();
    let chosen = if shown.is_empty() || c.rng.chance(1, 4) { None } else { Some(*c.rng.pick(&shown)) };
    for d in &devices {
        c.sig(d.vid as u64 * 8 + d.paired as u64 * 4 + d.open_fails as u64 * 2 + d.claim_fails as u64);
    }
    c.sig(vid as u64 * 16 + list_fails as u64 * 8 + chosen.map_or(7, |x| x as u64));
    c.nontrivial = true;
    sim::with(|s| {
        s.devices = devices.clone();
        s.get_devices_fails = list_fails;
        s.chosen = chosen;
    });
    let rt = paused_rt();
    let mut sched = Sched::new(c.rng.fork());
    let out: Rc<RefCell<Option<Result<(), String>>>> = Default::default();
    let whole = c.rng.chance(1, 2);
    {
        let out = out.clone();
        sched.spawn("connect", async move {
            let r = if whole {
                Client::try_new_webusb(vid, ifn, 1024, 1, 2, ERROR_PATH, 4, VarSeqKind::Seq2).await.map(|_| ()).map_err(|e| e.to_string())
            } else {
                WebUsbWire::new(vid, ifn, 1024, 1, 2).await.map(|_| ()).map_err(|e| e.to_string())
            };
            *out.borrow_mut() = Some(r);
        });
    }
    let rng = c.rng.fork();
    sched.spawn("browser", settler(rng));
    if sched.run_tokio(&rt, 50_000) == Stop::Livelock {
        return Err("connecting spins".into());
    }
    let log = sim::with(|s| s.log.clone());
    sched.drop_all();
    drop(sched);
    drop(rt);
    sim::reset();
    let res = out.borrow_mut().take().ok_or(format!("connecting never finished: {log:?}"))?;
    // what should have happened
    let paired = (0..n).find(|i| devices[*i].paired && devices[*i].vid == vid);
    let want: Result<usize, &str> = if list_fails {
        c.count("list_failed", 1);
        Err("the list of devices could not be read")
    } else {
        let d = match paired {
            Some(d) => {
                c.count("paired_used", 1);
                if (0..d).any(|i| devices[i].paired) {
                    c.count("wrong_vendor_skipped", 1);
                }
                Some(d)
            }
            None => {
                c.count(if chosen.is_some() { "requested" } else { "request_refused" }, 1);
                chosen
            }
        };
        match d {
            None => Err("the user picked no device"),
            Some(d) if devices[d].open_fails => {
                c.count("open_failed", 1);
                Err("the device cannot be opened")
            }
            Some(d) if devices[d].claim_fails => {
                c.count("claim_failed", 1);
                Err("the interface cannot be claimed")
            }
            Some(d) => Ok(d),
        }
    };
    let ctx = format!("{log:?} on {devices:?} for vendor {vid}");
    let asked: Vec<_> = log.iter().filter_map(|e| if let Ev::Request(j) = e { Some(j.clone()) } else { None }).collect();
    if paired.is_some() && !list_fails && !asked.is_empty() {
        return Err(format!("the user was asked although a paired device matches: {ctx}"));
    }
    for j in &asked {
        let ok = j["filters"].as_array().is_some_and(|f| !f.is_empty() && f.iter().all(|x| x["vendorId"] == vid));
        if !ok {
            return Err(format!("the user was asked with filter {j}, vendor {vid}"));
        }
    }
    match (want, res) {
        (Ok(d), Ok(())) => {
            c.count("connected", 1);
            let o = log.iter().position(|e| *e == Ev::Open(d));
            let k = log.iter().position(|e| *e == Ev::Claim(d, ifn));
            if o.is_none() || k.is_none() || o > k {
                return Err(format!("device {d} was not opened and its interface {ifn} claimed: {ctx}"));
            }
            if log.iter().any(|e| matches!(e, Ev::Open(x) if *x != d) || matches!(e, Ev::Claim(x, i) if *x != d || *i != ifn)) {
                return Err(format!("something other than device {d} interface {ifn} was opened or claimed: {ctx}"));
            }
        }
        (Err(_), Err(_)) => {}
        (Ok(d), Err(e)) => return Err(format!("connecting to device {d} failed with {e}: {ctx}")),
        (Err(w), Ok(())) => return Err(format!("connecting succeeded although {w}: {ctx}")),
    }
    c.note = Some(format!("{n} devices, {} calls", log.len()));
    Ok(())
}

#[derive(Clone, Debug)]
enum OutRes {
    Reject,
    Status(UsbTransferStatus),
    Throw,
}
#[derive(Clone, Debug)]
enum InIt {
    Frame(Vec<u8>),
    /// an empty transfer reported without any data
    NoData,
    Reject,
    Status(UsbTransferStatus),
}
struct Cfg {
    depth: usize,
    max: usize,
    n_out: usize,
    out_fail: Option<(usize, OutRes)>,
    script: Vec<InIt>,
    close_at_end: bool,
}

fn text(rng: &mut Rng, want: usize, hdr: usize) -> String {
    let mut n = want.saturating_sub(hdr + 1);
    if n > 127 {
        n -= 1;
    }
    if n > 16383 {
        n -= 1;
    }
    let zeros = if rng.chance(1, 6) { rng.below(n + 1) } else { 0 };
    (0..n).map(|i| if i + zeros >= n { '\0' } else { (b'a' + rng.below(26) as u8) as char }).collect()
}

fn run(c: &mut Case, cfg: Cfg) -> Result<(), String> {
    sim::reset();
    let (ep_in, ep_out) = (c.rng.range(1, 5) as u8, c.rng.range(1, 5) as u8);
    sim::with(|s| {
        s.devices = vec![DevCfg { vid: 1, pid: 1, paired: true, open_fails: false, claim_fails: false }];
        if let Some((n, OutRes::Throw)) = &cfg.out_fail {
            s.throw_at = Some(*n);
        }
    });
    let rt = paused_rt();
    let mut sched = Sched::new(c.rng.fork());
    let slot: Rc<RefCell<Option<Client>>> = Default::default();
    {
        let slot = slot.clone();
        let (depth, max) = (cfg.depth, cfg.max as u32);
        sched.spawn("connect", async move {
            *slot.borrow_mut() = Client::try_new_webusb(1, 0, max, ep_in, ep_out, ERROR_PATH, depth, VarSeqKind::Seq2).await.ok();
        });
    }
    let rng = c.rng.fork();
    let settle = sched.spawn("browser", settler(rng));
    sched.run_tokio(&rt, 50_000);
    settle.abort();
    let client = slot.borrow_mut().take().ok_or("no connection")?;
    let mut workers = vec![];
    for f in sim::with(|s| std::mem::take(&mut s.spawned)) {
        workers.push(sched.spawn("worker", f));
    }
    // publisher
    let accepted: Rc<RefCell<Vec<Vec<u8>>>> = Default::default();
    let refused = Rc::new(Cell::new(0u32));
    {
        let (cl, acc, rf) = (client.clone(), accepted.clone(), refused.clone());
        let mut rng = c.rng.fork();
        let n = cfg.n_out;
        sched.spawn("publisher", async move {
            for i in 0..n {
                let want = match if rng.chance(1, 40) { 9 } else { rng.below(4) } {
                    9 => {
                        let n = rng.edge_len(70_000);
                        if rng.chance(1, 2) { n / 64 * 64 } else { n }
                    }
                    0 | 1 => 64 * rng.range(1, 16),
                    2 => 64 * rng.range(1, 16) + rng.below(3) - 1,
                    _ => rng.range(13, 900),
                };
                let s = text(&mut rng, want, 11);
                let f = frame(ToB::TOPIC_KEY, 8, i as u32, 2, &postcard::to_stdvec(&s).unwrap());
                if rng.chance(1, 3) {
                    tokio::time::sleep(Duration::from_micros(rng.below(3000) as u64)).await;
                }
                match cl.publish::<ToB>(VarSeq::Seq2(i as u16), &s).await {
                    Ok(()) => acc.borrow_mut().push(f),
                    Err(_) => rf.set(rf.get() + 1),
                }
            }
        });
    }
    // OUT side of the browser
    {
        let mut rng = c.rng.fork();
        let fail = cfg.out_fail.clone();
        sched.spawn("out browser", async move {
            let mut n = 0usize;
            loop {
                wait_for(|s| !s.out.is_empty()).await;
                if rng.chance(1, 2) {
                    tokio::time::sleep(Duration::from_micros(rng.below(2000) as u64)).await;
                }
                let Some(t) = sim::with(|s| s.out.pop_front()) else { continue };
                let r = match &fail {
                    Some((at, OutRes::Reject)) if *at == n => Err(JsValue::from_str("NetworkError")),
                    Some((at, OutRes::Status(st))) if *at == n => Ok(JsValue::of(V::OutRes(*st, 0))),
                    _ => Ok(JsValue::of(V::OutRes(UsbTransferStatus::Ok, t.data.len() as u32))),
                };
                let ok = !matches!(&fail, Some((at, OutRes::Reject | OutRes::Status(_))) if *at == n);
                n += 1;
                sim::with(|s| s.log.push(Ev::OutDone(ok)));
                t.settle.settle(r);
            }
        });
    }
    // subscriber, then IN side
    let got: Rc<RefCell<Vec<String>>> = Default::default();
    let ready = Rc::new(Cell::new(false));
    {
        let (cl, got, ready) = (client.clone(), got.clone(), ready.clone());
        sched.spawn("subscriber", async move {
            let sub = cl.subscribe_multi::<ToB>(4096).await;
            drop(cl);
            ready.set(true);
            let Ok(mut sub) = sub else { return };
            while let Ok(m) = sub.recv().await {
                got.borrow_mut().push(m);
            }
        });
    }
    let bad: Rc<RefCell<Option<String>>> = Default::default();
    let delivered = Rc::new(Cell::new(0usize));
    {
        let script = cfg.script.clone();
        let mut rng = c.rng.fork();
        let (ready, bad, delivered) = (ready.clone(), bad.clone(), delivered.clone());
        let max = cfg.max;
        sched.spawn("in browser", async move {
            while !ready.get() {
                yield_now().await;
            }
            for it in script {
                if rng.chance(1, 2) {
                    tokio::time::sleep(Duration::from_micros(rng.below(3000) as u64)).await;
                }
                wait_for(|s| !s.inn.is_empty()).await;
                let Some(Transfer { len, settle, .. }) = sim::with(|s| s.inn.pop_front()) else { return };
                if len != max {
                    *bad.borrow_mut() = Some(format!("a read of {len} bytes was requested, configured are {max}"));
                }
                delivered.set(delivered.get() + 1);
                settle.settle(match it {
                    InIt::Frame(f) => Ok(JsValue::of(V::InRes(UsbTransferStatus::Ok, Some(f)))),
                    InIt::NoData => Ok(JsValue::of(V::InRes(UsbTransferStatus::Ok, None))),
                    InIt::Reject => Err(JsValue::from_str("NetworkError")),
                    InIt::Status(s) => Ok(JsValue::of(V::InRes(s, if rng.chance(1, 2) { Some(vec![0; 5]) } else { None }))),
                });
            }
        });
    }
    if sched.run_tokio(&rt, 400_000) == Stop::Livelock {
        return Err("the transport spins".into());
    }
    c.sig(sched.switch_sig);
    if let Some(b) = bad.borrow_mut().take() {
        return Err(b);
    }
    let log = sim::with(|s| s.log.clone());
    // ---------------- OUT
    let mut sent: Vec<Vec<u8>> = vec![];
    let (mut open, mut zlp_due, mut failed, mut last_empty) = (0, false, false, false);
    for e in &log {
        match e {
            Ev::Out(d, ep) => {
                if *ep != ep_out {
                    return Err(format!("a transfer went out on endpoint {ep}, configured is {ep_out}"));
                }
                if failed {
                    return Err("a transfer was started after an outgoing one had failed".into());
                }
                if open > 0 {
                    return Err("a transfer was started before the previous one was complete".into());
                }
                open += 1;
                last_empty = d.is_empty();
                let prev = sent.last().map_or(0, |f| f.len());
                if d.is_empty() {
                    if !zlp_due {
                        return Err(format!("an empty transfer after a frame of {prev} bytes"));
                    }
                    zlp_due = false;
                    c.count("out_zlp", 1);
                } else {
                    if zlp_due {
                        return Err(format!("a frame of {prev} bytes was not ended by an empty transfer: the device would take the next one for its continuation"));
                    }
                    zlp_due = d.len() % 64 == 0;
                    c.count("out_frames", 1);
                    c.sig(d.len() as u64);
                    sent.push(d.clone());
                }
            }
            Ev::OutDone(ok) => {
                open -= 1;
                if !ok {
                    failed = true;
                    c.count(if matches!(cfg.out_fail, Some((_, OutRes::Reject))) { "out_rejected" } else { "out_status" }, 1);
                    if last_empty {
                        c.count("out_zlp_failed", 1);
                    }
                }
            }
            Ev::Threw => {
                failed = true;
                c.count("out_threw", 1);
            }
            Ev::In(_, ep) if *ep != ep_in => return Err(format!("a read on endpoint {ep}, configured is {ep_in}")),
            _ => {}
        }
    }
    // ---------------- IN
    let mut expect = vec![];
    let mut in_closed = false;
    for it in cfg.script.iter().take(delivered.get()) {
        match it {
            InIt::Frame(f) => {
                c.sig(f.len() as u64);
                if f.is_empty() {
                    c.count("in_empty", 1);
                }
                if f.len() == cfg.max {
                    c.count("in_max", 1);
                }
                if let Some((h, b)) = dec(f) {
                    if h.key == ToB::TOPIC_KEY.to_bytes() {
                        expect.push(postcard::from_bytes::<String>(b).unwrap());
                    }
                }
            }
            InIt::NoData => c.count("in_no_data", 1),
            InIt::Reject => {
                c.count("in_rejected", 1);
                in_closed = true;
            }
            InIt::Status(_) => {
                c.count("in_status", 1);
                in_closed = true;
            }
        }
        if in_closed {
            break;
        }
    }
    let closed = failed || in_closed;
    let acc = accepted.borrow();
    if !closed {
        if zlp_due {
            return Err(format!("the last frame ({} bytes) was not ended by an empty transfer", sent.last().map_or(0, |f| f.len())));
        }
        if *acc != sent {
            return Err(format!("{} frames accepted, {} transferred, or their bytes differ", acc.len(), sent.len()));
        }
        if refused.get() > 0 {
            return Err("a publication was refused on a healthy link".into());
        }
        if delivered.get() != cfg.script.len() {
            return Err(format!("the client stopped reading after {} of {} transfers", delivered.get(), cfg.script.len()));
        }
    } else {
        for (i, f) in sent.iter().enumerate() {
            if i < acc.len() && acc[i] != *f {
                return Err(format!("transfer {i} does not carry the {i}-th accepted frame"));
            }
        }
    }
    let got = got.borrow();
    c.count("in_frames", got.len() as u64);
    if failed {
        if got.len() > expect.len() || *got != expect[..got.len()] {
            return Err(format!("received {} frames that are not a prefix of the {} sent", got.len(), expect.len()));
        }
    } else if *got != expect {
        let k = got.iter().zip(expect.iter()).take_while(|(a, b)| a == b).count();
        return Err(format!("received {} frames, expected {}; first difference at {k}", got.len(), expect.len()));
    }
    if closed != client.is_closed() {
        return Err(if closed {
            format!("an {} transfer failed but the client is not closed", if failed { "outgoing" } else { "incoming" })
        } else {
            "the client closed although nothing failed".into()
        });
    }
    // ---------------- release
    if cfg.close_at_end {
        client.close();
    }
    drop(client);
    sched.run_tokio(&rt, 100_000);
    if workers.iter().any(|w| !w.done()) {
        return Err("a background task outlives the client".into());
    }
    sched.drop_all();
    drop(sched);
    drop(rt);
    sim::reset();
    c.nontrivial = true;
    c.note = Some(format!("{} frames out, {} in, closed {closed}", sent.len(), got.len()));
    Ok(())
}

fn in_item(rng: &mut Rng, max: usize, i: u32) -> InIt {
    let f = match rng.below(12) {
        0 => vec![],
        1 => return InIt::NoData,
        2 => {
            let n = rng.below(40);
            let mut b = rng.bytes(n);
            if let Some(x) = b.first_mut() {
                *x |= 0x0f;
            }
            b
        }
        3 => frame(ToA::TOPIC_KEY, 8, i, 1, &rng.bytes(3)),
        k => {
            let want = match k {
                4 | 5 => max,
                6 => max - 1,
                7 => 64 * rng.range(1, max / 64),
                _ => rng.range(15, max),
            };
            // the text's length byte is two bytes long from 128 on
            let s = text(rng, want, 13);
            frame(ToB::TOPIC_KEY, 8, i, 4, &postcard::to_stdvec(&s).unwrap())
        }
    };
    InIt::Frame(f)
}

fn traffic(c: &mut Case) -> Result<(), String> {
    let max = *c.rng.pick(&[64usize, 512, 1000, 1024]);
    let n = c.rng.below(25) as u32;
    let script = (0..n).map(|i| in_item(&mut c.rng, max, i)).collect();
    let cfg = Cfg { depth: c.rng.range(1, 8), max, n_out: c.rng.below(20), out_fail: None, script, close_at_end: c.rng.chance(1, 2) };
    run(c, cfg)
}

fn faults(c: &mut Case) -> Result<(), String> {
    let max = 1024;
    let n = c.rng.below(12) as u32;
    let mut script: Vec<InIt> = (0..n).map(|i| in_item(&mut c.rng, max, i)).collect();
    let bad = [UsbTransferStatus::Stall, UsbTransferStatus::Babble];
    let n_out = c.rng.range(1, 12);
    let mut out_fail = None;
    if c.rng.chance(1, 2) {
        let at = c.rng.below(script.len() + 1);
        let e = if c.rng.chance(1, 2) { InIt::Reject } else { InIt::Status(*c.rng.pick(&bad)) };
        script.insert(at, e);
    } else {
        let f = match c.rng.below(5) {
            0 | 1 => OutRes::Reject,
            2 => OutRes::Throw,
            _ => OutRes::Status(*c.rng.pick(&bad)),
        };
        out_fail = Some((c.rng.below(n_out + 2), f));
    }
    let cfg = Cfg { depth: c.rng.range(1, 8), max, n_out, out_fail, script, close_at_end: c.rng.chance(1, 2) };
    run(c, cfg)
}

#[allow(dead_code)]
fn _is_wire(w: WebUsbWire) -> (impl WireTx, impl WireRx) {
    (w.clone(), w)
}
