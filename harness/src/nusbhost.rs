//! C22: the host USB transport against a simulated USB library (../fake-nusb).
use crate::exec::*;
use crate::icd::{ToA, ToB};
use crate::refc::*;
use crate::report::*;
use crate::rng::Rng;
use nusb::sim::{self, BusEv, DevCfg, EpCfg, Ev, IfCfg, Q};
use nusb::transfer::{EndpointType, TransferError};
use postcard_rpc::header::{VarSeq, VarSeqKind};
use postcard_rpc::host_client::HostClient;
use postcard_rpc::standard_icd::{WireError, ERROR_PATH};
use postcard_rpc::Topic;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::Poll;
use std::time::Duration;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C22",
        rule: "a distinct case is a distinct (device population / frame lengths / transfer results / schedule) of the real transport and client over a simulated USB library whose calls are all recorded",
        scenarios: vec![
            Scenario { name: "connect", f: c22_connect, quick: 3000, weight: 1, serial: false },
            Scenario { name: "traffic", f: c22_traffic, quick: 1500, weight: 2, serial: false },
            Scenario { name: "out_faults", f: c22_out_faults, quick: 1500, weight: 2, serial: false },
            Scenario { name: "in_faults", f: c22_in_faults, quick: 2000, weight: 3, serial: false },
        ],
        assumptions: &["nusb itself reports transfers in submission order and honours cancellation; it is replaced by a recording simulation"],
        must_see: &[
            "connected", "no_device", "no_interface", "no_endpoint", "open_failed", "claim_failed", "gap_interface",
            "out_frames", "out_zlp", "out_failed", "out_zlp_failed", "in_frames", "in_1024", "in_empty", "recovered", "burst_10", "burst_11_closed", "fatal_error_closed",
            "clear_halt_failed", "in_after_recovery",
        ],
    }]
}

type Client = HostClient<WireError>;

fn bulk(addr: u8, mps: usize) -> EpCfg {
    EpCfg { addr, kind: EndpointType::Bulk, mps }
}
fn iface(number: u8, class: u8, eps: Vec<EpCfg>) -> IfCfg {
    IfCfg { number, class, name: None, alts: vec![eps], claim_fails: false }
}

// ------------------------------------------------------------------ connecting

fn c22_connect(c: &mut Case) -> Result<(), String> {
    sim::reset();
    let rng = &mut c.rng;
    let mut devs = vec![];
    for d in 0..rng.below(4) {
        let mut ifs = vec![];
        let mut num = 0u8;
        for _ in 0..rng.below(4) {
            if rng.chance(1, 5) {
                num += rng.range(1, 3) as u8;
            }
            let mut alts = vec![];
            for _ in 0..rng.range(1, 2) {
                let mut eps = vec![];
                for e in 0..rng.below(5) as u8 {
                    let dir = if rng.chance(1, 2) { 0x80 } else { 0 };
                    let kind = *rng.pick(&[EndpointType::Bulk, EndpointType::Bulk, EndpointType::Bulk, EndpointType::Interrupt]);
                    eps.push(EpCfg { addr: (e + 1) | dir, kind, mps: *rng.pick(&[8usize, 64, 512]) });
                }
                alts.push(eps);
            }
            ifs.push(IfCfg {
                number: num,
                class: *rng.pick(&[0xFFu8, 0xFF, 0x03, 0x0A]),
                name: if rng.chance(1, 2) { Some(format!("if{}", rng.below(3))) } else { None },
                alts,
                claim_fails: rng.chance(1, 8),
            });
            num += 1;
        }
        devs.push(DevCfg {
            serial: if rng.chance(3, 4) { Some(format!("s{}", rng.below(3))) } else { None },
            vid: rng.below(3) as u16,
            pid: d as u16,
            interfaces: ifs,
            open_fails: rng.chance(1, 8),
        });
    }
    let list_fails = rng.chance(1, 20);
    let want_serial = format!("s{}", rng.below(3));
    let by_vid = rng.chance(1, 3);
    let want_vid = rng.below(3) as u16;
    let want_if = rng.below(3);
    let with_if = rng.chance(1, 2);
    for d in &devs {
        c.sig(d.interfaces.len() as u64);
        for i in &d.interfaces {
            c.sig(i.number as u64 * 256 + i.class as u64);
            for a in &i.alts {
                for e in a {
                    c.sig(e.addr as u64 + e.mps as u64 * 256);
                }
            }
        }
    }
    c.nontrivial = true;
    sim::with(|b| {
        b.devices = devs.clone();
        b.list_fails = list_fails;
    });
    let rt = paused_rt();
    let _g = rt.enter();
    let dev_ok = |serial: Option<&str>, vid: u16| if by_vid { vid == want_vid } else { serial == Some(want_serial.as_str()) };
    let res: Result<Client, String> = if with_if {
        Client::try_new_raw_nusb_with_interface(
            |d| dev_ok(d.serial_number(), d.vendor_id()),
            |i| match want_if {
                0 => i.class() == 0xFF,
                1 => i.interface_string() == Some("if1"),
                _ => i.class() == 0x0A,
            },
            ERROR_PATH,
            4,
            VarSeqKind::Seq2,
        )
    } else {
        Client::try_new_raw_nusb(|d| dev_ok(d.serial_number(), d.vendor_id()), ERROR_PATH, 4, VarSeqKind::Seq2)
    };
    let log = sim::with(|b| b.log.clone());
    let ok = res.is_ok();
    drop(res);
    drop(_g);
    drop(rt);
    sim::reset();
    // what should have happened
    let mut expect: Result<(usize, &IfCfg), &'static str> = Err("");
    if list_fails {
        expect = Err("list");
        c.count("list_failed", 1);
    } else if let Some((di, d)) = devs.iter().enumerate().find(|(_, d)| dev_ok(d.serial.as_deref(), d.vid)) {
        let m = d.interfaces.iter().find(|i| {
            if !with_if || want_if == 0 {
                i.class == 0xFF
            } else if want_if == 1 {
                i.name.as_deref() == Some("if1")
            } else {
                i.class == 0x0A
            }
        });
        match m {
            None => {
                c.count("no_interface", 1);
            }
            Some(_) if d.open_fails => {
                c.count("open_failed", 1);
            }
            Some(i) if i.claim_fails => {
                c.count("claim_failed", 1);
            }
            Some(i) => {
                let eps: Vec<&EpCfg> = i.alts.iter().flatten().filter(|e| e.kind == EndpointType::Bulk).collect();
                if eps.iter().any(|e| e.addr & 0x80 != 0) && eps.iter().any(|e| e.addr & 0x80 == 0) {
                    expect = Ok((di, i));
                } else {
                    c.count("no_endpoint", 1);
                }
            }
        }
    } else {
        c.count("no_device", 1);
    }
    match expect {
        Err(_) => {
            if ok {
                return Err(format!("connecting succeeded although something was missing: {log:?} on {devs:?}"));
            }
        }
        Ok((di, i)) => {
            if !ok {
                return Err(format!("connecting to device {di} interface {} failed: {log:?} on {:?}", i.number, devs[di]));
            }
            let pos = devs[di].interfaces.iter().position(|x| x.number == i.number);
            if pos != Some(i.number as usize) {
                c.count("gap_interface", 1);
            }
            c.count("connected", 1);
            let claims: Vec<&BusEv> = log.iter().filter(|e| matches!(e, BusEv::Claim(..))).collect();
            if claims.last() != Some(&&BusEv::Claim(di, i.number)) {
                return Err(format!("the matching interface is {} of device {di}, but claimed: {claims:?}", i.number));
            }
            let mut dirs = [0, 0];
            for e in &log {
                if let BusEv::Queue(d, n, ep) = e {
                    let valid = *d == di && *n == i.number
                        && i.alts.iter().flatten().any(|x| x.addr == *ep && x.kind == EndpointType::Bulk);
                    if !valid {
                        return Err(format!("a queue was opened on endpoint {ep:#x} of device {d} interface {n}, which is no bulk endpoint of the match"));
                    }
                    dirs[(*ep >> 7) as usize] += 1;
                }
            }
            if dirs[0] == 0 || dirs[1] == 0 {
                return Err(format!("endpoints opened: {} out, {} in", dirs[0], dirs[1]));
            }
        }
    }
    c.note = Some(format!("{} devices, connected {ok}", devs.len()));
    Ok(())
}

// ------------------------------------------------------------------ traffic

struct Cfg {
    mps: usize,
    depth: usize,
    /// outcome of the n-th OUT transfer (data and empty ones counted alike)
    out_fail_at: Option<(usize, TransferError)>,
    n_out: usize,
    in_script: Vec<InIt>,
    clear_halt_fails_at: Option<usize>,
    close_at_end: bool,
}
#[derive(Clone, Debug)]
enum InIt {
    Frame(Vec<u8>),
    Err(TransferError),
}

fn finish(q: &Arc<Mutex<Q>>, data: Vec<u8>, st: Result<(), TransferError>) -> bool {
    // the waker fires inside; do not hold anything else
    q.lock().unwrap().finish(data, st)
}

/// how many of the last bytes are zero
fn zero_tail(rng: &mut Rng, n: usize) -> usize {
    if rng.chance(1, 6) {
        rng.below(n + 1)
    } else {
        0
    }
}

fn out_frame(rng: &mut Rng, mps: usize, seq: u32) -> (String, Vec<u8>) {
    let hdr = 1 + 8 + 2;
    let want = match if rng.chance(1, 40) { 9 } else { rng.below(4) } {
        9 => {
            let n = rng.edge_len(70_000);
            if rng.chance(1, 2) { n / mps * mps } else { n }
        }
        0 => mps * rng.range(1, 3 + 64 / mps),
        1 => (mps * rng.range(1, 3 + 64 / mps) + rng.below(3)).saturating_sub(1),
        2 => rng.range(13, 80),
        _ => rng.range(13, 900),
    }
    .max(hdr + 2);
    let mut n = want - hdr - 1;
    if n > 127 {
        n -= 1;
    }
    if n > 16383 {
        n -= 1;
    }
    let zeros = zero_tail(rng, n);
    let s: String = (0..n).map(|i| if i + zeros >= n { '\0' } else { (b'a' + rng.below(26) as u8) as char }).collect();
    let body = postcard::to_stdvec(&s).unwrap();
    let f = frame(ToB::TOPIC_KEY, 8, seq, 2, &body);
    (s, f)
}

fn run(c: &mut Case, cfg: Cfg) -> Result<(), String> {
    sim::reset();
    sim::with(|b| {
        b.devices = vec![DevCfg {
            serial: None,
            vid: 1,
            pid: 1,
            interfaces: vec![iface(0, 0xFF, vec![bulk(0x01, cfg.mps), bulk(0x81, cfg.mps)])],
            open_fails: false,
        }];
    });
    let rt = paused_rt();
    let client: Client = {
        let _g = rt.enter();
        Client::try_new_raw_nusb(|_| true, ERROR_PATH, cfg.depth, VarSeqKind::Seq2).map_err(|e| format!("connect: {e}"))?
    };
    let qs = sim::with(|b| b.queues.clone());
    let qo = qs.iter().find(|q| q.lock().unwrap().endpoint == 0x01).ok_or("no OUT queue")?.clone();
    let qi = qs.iter().find(|q| q.lock().unwrap().endpoint == 0x81).ok_or("no IN queue")?.clone();
    drop(qs);
    let mut sched = Sched::new(c.rng.fork());
    // publisher
    let accepted: Rc<RefCell<Vec<Vec<u8>>>> = Default::default();
    let refused = Rc::new(Cell::new(0u32));
    {
        let (cl, acc, rf) = (client.clone(), accepted.clone(), refused.clone());
        let mut rng = c.rng.fork();
        let (n, mps) = (cfg.n_out, cfg.mps);
        sched.spawn("publisher", async move {
            for i in 0..n {
                let (s, f) = out_frame(&mut rng, mps, i as u32);
                if rng.chance(1, 3) {
                    tokio::time::sleep(Duration::from_micros(rng.below(3000) as u64)).await;
                }
                match cl.publish::<ToB>(VarSeq::Seq2(i as u16), &s).await {
                    Ok(()) => acc.borrow_mut().push(f),
                    Err(_) => rf.set(rf.get() + 1),
                }
            }
        });
    }
    // OUT controller
    {
        let q = qo.clone();
        let mut rng = c.rng.fork();
        let fail = cfg.out_fail_at;
        sched.spawn("out controller", async move {
            let mut n = 0usize;
            loop {
                std::future::poll_fn(|cx| {
                    let mut g = q.lock().unwrap();
                    if !g.active.is_empty() {
                        Poll::Ready(())
                    } else {
                        g.on_submit = Some(cx.waker().clone());
                        Poll::Pending
                    }
                })
                .await;
                if rng.chance(1, 2) {
                    tokio::time::sleep(Duration::from_micros(rng.below(2000) as u64)).await;
                }
                let st = match fail {
                    Some((at, e)) if at == n => Err(e),
                    _ => Ok(()),
                };
                n += 1;
                finish(&q, vec![], st);
            }
        });
    }
    // subscriber, then IN controller
    let got: Rc<RefCell<Vec<String>>> = Default::default();
    let ready = Rc::new(Cell::new(false));
    {
        let (cl, got, ready) = (client.clone(), got.clone(), ready.clone());
        sched.spawn("subscriber", async move {
            let mut sub = match cl.subscribe_multi::<ToB>(4096).await {
                Ok(s) => s,
                Err(_) => {
                    ready.set(true);
                    return;
                }
            };
            drop(cl);
            ready.set(true);
            while let Ok(m) = sub.recv().await {
                got.borrow_mut().push(m);
            }
        });
    }
    let few: Rc<RefCell<Option<String>>> = Default::default();
    {
        let q = qi.clone();
        let script = cfg.in_script.clone();
        let mut rng = c.rng.fork();
        let (ready, few) = (ready.clone(), few.clone());
        let chf = cfg.clear_halt_fails_at;
        sched.spawn("in controller", async move {
            while !ready.get() {
                yield_now().await;
            }
            let mut errs = 0;
            for it in script {
                if rng.chance(1, 2) {
                    tokio::time::sleep(Duration::from_millis(1 + rng.below(3) as u64)).await;
                    // the driver has had all the time it needs: several reads must be queued
                    let g = q.lock().unwrap();
                    if !g.dropped && g.active.len() < 2 {
                        *few.borrow_mut() = Some(format!("only {} reads are queued while the driver is idle", g.active.len()));
                    }
                }
                // wait for an outstanding read
                let dead = std::future::poll_fn(|cx| {
                    let mut g = q.lock().unwrap();
                    if g.dropped {
                        return Poll::Ready(true);
                    }
                    if !g.active.is_empty() {
                        return Poll::Ready(false);
                    }
                    g.on_submit = Some(cx.waker().clone());
                    Poll::Pending
                })
                .await;
                if dead {
                    return;
                }
                match it {
                    InIt::Frame(f) => {
                        let short = q.lock().unwrap().active.front().is_some_and(|r| r.len < f.len());
                        if short {
                            *few.borrow_mut() = Some("a read smaller than 1024 bytes was queued".into());
                            return;
                        }
                        finish(&q, f, Ok(()));
                    }
                    InIt::Err(e) => {
                        if chf == Some(errs) {
                            q.lock().unwrap().clear_halt_fails = true;
                        }
                        errs += 1;
                        let before = q.lock().unwrap().log.len();
                        finish(&q, vec![], Err(e));
                        // a halted endpoint does nothing until the driver has dealt with it
                        let mut spins = 0;
                        loop {
                            let g = q.lock().unwrap();
                            let done = g.dropped || (g.log[before..].iter().any(|x| matches!(x, Ev::Submit(..))));
                            drop(g);
                            if done || spins > 40 {
                                break;
                            }
                            spins += 1;
                            tokio::time::sleep(Duration::from_micros(200)).await;
                        }
                    }
                }
            }
        });
    }
    let stop = sched.run_tokio(&rt, 400_000);
    if stop == Stop::Livelock {
        return Err("the transport spins".into());
    }
    c.sig(sched.switch_sig);
    // ---------------- expectations of the IN side
    let mut expect_in = vec![];
    let mut consec = 0;
    let mut closed = false;
    let mut errs = 0;
    for it in &cfg.in_script {
        match it {
            InIt::Frame(f) => {
                if consec > 0 {
                    c.count("in_after_recovery", 1);
                }
                consec = 0;
                c.sig(f.len() as u64);
                if f.is_empty() {
                    c.count("in_empty", 1);
                }
                if f.len() == 1024 {
                    c.count("in_1024", 1);
                }
                if let Some((h, b)) = dec(f) {
                    if h.key == ToB::TOPIC_KEY.to_bytes() {
                        expect_in.push(postcard::from_bytes::<String>(b).unwrap());
                    }
                }
            }
            InIt::Err(e) => {
                c.sig(900 + *e as u64);
                consec += 1;
                let rec = matches!(e, TransferError::Stall | TransferError::Unknown);
                if !rec {
                    c.count("fatal_error_closed", 1);
                    closed = true;
                } else if consec > 10 {
                    c.count("burst_11_closed", 1);
                    closed = true;
                } else if cfg.clear_halt_fails_at == Some(errs) {
                    c.count("clear_halt_failed", 1);
                    closed = true;
                } else {
                    c.count("recovered", 1);
                    if consec == 10 {
                        c.count("burst_10", 1);
                    }
                }
                errs += 1;
            }
        }
        if closed {
            break;
        }
    }
    let in_closed = closed;
    // ---------------- the OUT side
    let lo = qo.lock().unwrap().log.clone();
    let mut outstanding = 0usize;
    let mut failed = false;
    let mut sent: Vec<Vec<u8>> = vec![];
    let mut zlp_due = false;
    for e in &lo {
        match e {
            Ev::Submit(d, _) if !d.is_empty() => {
                if failed {
                    return Err("a frame was submitted after an outgoing transfer had failed".into());
                }
                if outstanding > 0 {
                    return Err(format!("a frame was submitted while {outstanding} transfers of the previous one were unfinished"));
                }
                if zlp_due {
                    return Err(format!("a frame of {} bytes (packet size {}) was not followed by an empty transfer", sent.last().map_or(0, |f| f.len()), cfg.mps));
                }
                zlp_due = d.len() % cfg.mps == 0;
                sent.push(d.clone());
                outstanding += 1;
                c.count("out_frames", 1);
            }
            Ev::Submit(..) => {
                if !zlp_due {
                    return Err(format!("an unexpected empty transfer after a frame of {} bytes (packet size {})", sent.last().map_or(0, |f| f.len()), cfg.mps));
                }
                zlp_due = false;
                outstanding += 1;
                c.count("out_zlp", 1);
            }
            Ev::Finished(st, len) => {
                if st.is_err() {
                    c.count("out_failed", 1);
                    if *len == 0 {
                        c.count("out_zlp_failed", 1);
                    }
                }
            }
            Ev::Taken(st) => {
                outstanding -= 1;
                failed |= st.is_err();
            }
            _ => {}
        }
    }
    if c.trace_on {
        for e in &lo {
            let l = match e {
                Ev::Submit(d, _) => format!("OUT submit {} bytes", d.len()),
                o => format!("OUT {o:?}"),
            };
            c.log(|| l);
        }
        for e in &qi.lock().unwrap().log {
            let l = format!("IN {e:?}");
            c.log(|| l);
        }
    }
    let out_failed = lo.iter().any(|e| matches!(e, Ev::Finished(Err(_), _)));
    closed |= out_failed;
    let acc = accepted.borrow();
    if !closed {
        if zlp_due {
            return Err("the last frame was not terminated by an empty transfer".into());
        }
        if *acc != sent {
            return Err(format!("{} frames accepted, {} submitted, or their bytes differ", acc.len(), sent.len()));
        }
        if refused.get() > 0 {
            return Err("a publication was refused on a healthy link".into());
        }
    } else {
        for (i, f) in sent.iter().enumerate() {
            // a frame whose publish() lost the race against closing may still have been handed over
            if i < acc.len() && acc[i] != *f {
                return Err(format!("transfer {i} does not carry the {i}-th accepted frame"));
            }
        }
    }
    // ---------------- the IN side
    if let Some(m) = few.borrow().clone() {
        return Err(m);
    }
    let li = qi.lock().unwrap().log.clone();
    let mut need: Option<(bool, bool)> = None;
    for e in &li {
        match e {
            Ev::Submit(_, len) => {
                if *len < 1024 {
                    return Err(format!("a {len}-byte read was queued"));
                }
                if let Some((cancel, halt)) = need.take() {
                    if !cancel || !halt {
                        return Err("reads were queued again after a stall without cancelling and clearing the halt".into());
                    }
                }
            }
            Ev::Taken(Err(TransferError::Stall | TransferError::Unknown)) => {
                if need.is_none() {
                    need = Some((false, false));
                }
            }
            Ev::CancelAll(_) => {
                if let Some(n) = need.as_mut() {
                    n.0 = true;
                }
            }
            Ev::ClearHalt(out) => {
                if *out > 0 {
                    return Err(format!("the halt was cleared with {out} reads outstanding"));
                }
                if let Some(n) = need.as_mut() {
                    n.1 = true;
                }
            }
            _ => {}
        }
    }
    let got = got.borrow();
    c.count("in_frames", got.len() as u64);
    if out_failed {
        if got.len() > expect_in.len() || *got != expect_in[..got.len()] {
            return Err(format!("received {} frames that are not a prefix of the {} sent", got.len(), expect_in.len()));
        }
    } else if *got != expect_in {
        let k = got.iter().zip(expect_in.iter()).take_while(|(a, b)| a == b).count();
        return Err(format!("received {} frames, expected {}; first difference at {k}", got.len(), expect_in.len()));
    }
    // ---------------- closing
    if closed != client.is_closed() {
        return Err(if closed {
            format!("a {} transfer failed for good but the client is not closed", if in_closed { "IN" } else { "OUT" })
        } else {
            "the client closed although every failure was recoverable".into()
        });
    }
    if cfg.close_at_end {
        client.close();
    }
    sched.drop_all();
    let close = cfg.close_at_end;
    rt.block_on(async move {
        if close {
            client.wait_closed().await;
        }
        drop(client);
        tokio::time::sleep(Duration::from_secs(5)).await;
    });
    drop(sched);
    for (n, q) in [("OUT", &qo), ("IN", &qi)] {
        if !q.lock().unwrap().dropped {
            return Err(format!("the {n} queue is not released after the client is gone"));
        }
    }
    drop(rt);
    sim::reset();
    c.nontrivial = true;
    c.note = Some(format!("packet size {}, {} frames out, {} in, closed {closed}", cfg.mps, sent.len(), got.len()));
    Ok(())
}

fn in_frame(rng: &mut Rng, i: u32) -> Vec<u8> {
    match rng.below(12) {
        0 => vec![],
        1 => {
            let n = rng.below(40);
            let mut b = rng.bytes(n);
            if let Some(x) = b.first_mut() {
                *x |= 0x0f;
            }
            b
        }
        2 => frame(ToA::TOPIC_KEY, 8, i, 1, &rng.bytes(3)),
        k => {
            let hdr = 1 + 8 + 4;
            let want = match k {
                3 | 4 => 1024,
                5 => 1023,
                6 => 64 * rng.range(1, 15),
                _ => rng.range(hdr + 2, 1000),
            };
            let mut n = want - hdr - 1;
            if n > 127 {
                n -= 1;
            }
            let zeros = zero_tail(rng, n);
            let s: String = (0..n).map(|i| if i + zeros >= n { '\0' } else { (b'A' + rng.below(26) as u8) as char }).collect();
            frame(ToB::TOPIC_KEY, 8, i, 4, &postcard::to_stdvec(&s).unwrap())
        }
    }
}

fn c22_traffic(c: &mut Case) -> Result<(), String> {
    let n = c.rng.below(30) as u32;
    let in_script = (0..n).map(|i| InIt::Frame(in_frame(&mut c.rng, i))).collect();
    let cfg = Cfg {
        mps: *c.rng.pick(&[8usize, 16, 32, 64, 64, 512]),
        depth: c.rng.range(1, 8),
        out_fail_at: None,
        n_out: c.rng.below(25),
        in_script,
        clear_halt_fails_at: None,
        close_at_end: c.rng.chance(1, 2),
    };
    run(c, cfg)
}

fn c22_out_faults(c: &mut Case) -> Result<(), String> {
    let n_out = c.rng.range(1, 15);
    let e = *c.rng.pick(&[
        TransferError::Stall,
        TransferError::Unknown,
        TransferError::Disconnected,
        TransferError::Fault,
        TransferError::Cancelled,
    ]);
    let n = c.rng.below(6) as u32;
    let in_script = (0..n).map(|i| InIt::Frame(in_frame(&mut c.rng, i))).collect();
    let cfg = Cfg {
        mps: *c.rng.pick(&[8usize, 16, 64, 512]),
        depth: c.rng.range(1, 8),
        out_fail_at: Some((c.rng.below(n_out), e)),
        n_out,
        in_script,
        clear_halt_fails_at: None,
        close_at_end: c.rng.chance(1, 2),
    };
    run(c, cfg)
}

fn c22_in_faults(c: &mut Case) -> Result<(), String> {
    let mut script = vec![];
    let mut i = 0;
    for _ in 0..c.rng.range(1, 6) {
        for _ in 0..c.rng.below(5) {
            script.push(InIt::Frame(in_frame(&mut c.rng, i)));
            i += 1;
        }
        let burst = *c.rng.pick(&[0usize, 1, 1, 2, 3, 5, 9, 10, 10, 11, 12]);
        for _ in 0..burst {
            let e = if c.rng.chance(1, 40) {
                *c.rng.pick(&[TransferError::Disconnected, TransferError::Fault, TransferError::Cancelled])
            } else {
                *c.rng.pick(&[TransferError::Stall, TransferError::Unknown])
            };
            script.push(InIt::Err(e));
        }
    }
    let cfg = Cfg {
        mps: 64,
        depth: 4,
        out_fail_at: None,
        n_out: c.rng.below(6),
        in_script: script,
        clear_halt_fails_at: if c.rng.chance(1, 5) { Some(c.rng.below(8)) } else { None },
        close_at_end: c.rng.chance(1, 2),
    };
    run(c, cfg)
}
