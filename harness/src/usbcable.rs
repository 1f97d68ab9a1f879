//! C29: the real host USB transport and client, a simulated controller and cable, and the real device
//! transport and server: judged only on what the users of both ends observe.
use crate::e2e::*;
use crate::exec::*;
use crate::icd::Ctx;
use crate::icd_e2e::*;
use crate::refc::*;
use crate::report::*;
use crate::rng::Rng;
use crate::ssim::*;
use crate::usbdev::{dev, Cable, DevRef, Ver, V3, V4};
use nusb::sim::{self, DevCfg, EpCfg, IfCfg, Q};
use nusb::transfer::{EndpointType, TransferError};
use postcard_rpc::host_client::HostClient;
use postcard_rpc::server::{Dispatch, Sender, Server};
use postcard_rpc::standard_icd::{WireError, ERROR_PATH};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Poll, Waker};

type Queue = Arc<Mutex<Q>>;
const PKT: usize = 64;

#[derive(Default)]
struct Stats {
    out_transfers: Cell<u64>,
    out_multi: Cell<u64>,
    out_empty: Cell<u64>,
    in_transfers: Cell<u64>,
    in_multi: Cell<u64>,
    in_aligned: Cell<u64>,
    in_full: Cell<u64>,
}
fn inc(c: &Cell<u64>) {
    c.set(c.get() + 1)
}

/// the next transfer of the queue (its data and requested length); fails those of a pulled cable
async fn next_req(dev: &DevRef, q: &Queue) -> (Vec<u8>, usize) {
    std::future::poll_fn(|cx| {
        let gone = dev.borrow().cable.as_ref().is_none_or(|c| c.unplugged);
        let mut g = q.lock().unwrap();
        if gone {
            while g.finish(vec![], Err(TransferError::Disconnected)) {}
        }
        match g.active.front() {
            Some(r) => Poll::Ready((r.data.clone(), r.len)),
            None => {
                g.on_submit = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    })
    .await
}
fn wake(w: Option<Waker>) {
    if let Some(w) = w {
        w.wake()
    }
}
async fn nap(r: &mut Rng, max: usize) {
    for _ in 0..r.below(max + 1) {
        yield_now().await;
    }
}
/// host to device
async fn out_pipe(dev: DevRef, q: Queue, mut r: Rng, fifo: usize, st: Rc<Stats>) {
    let lazy = r.below(4);
    loop {
        let (data, _) = next_req(&dev, &q).await;
        nap(&mut r, lazy).await;
        let mut pkts: Vec<Vec<u8>> = data.chunks(PKT).map(|p| p.to_vec()).collect();
        if pkts.is_empty() {
            inc(&st.out_empty);
            pkts.push(vec![]);
        }
        inc(&st.out_transfers);
        if pkts.len() > 1 {
            inc(&st.out_multi);
        }
        for p in pkts {
            let up = std::future::poll_fn(|cx| {
                let mut d = dev.borrow_mut();
                let c = d.cable.as_mut().unwrap();
                if c.unplugged {
                    return Poll::Ready(false);
                }
                if c.out_pkts.len() >= fifo {
                    c.out_host = Some(cx.waker().clone());
                    return Poll::Pending;
                }
                c.out_pkts.push_back(p.clone());
                let w = c.out_reader.take();
                drop(d);
                wake(w);
                Poll::Ready(true)
            })
            .await;
            if !up {
                break;
            }
            nap(&mut r, lazy).await;
        }
        let gone = dev.borrow().cable.as_ref().is_none_or(|c| c.unplugged);
        if !gone {
            q.lock().unwrap().finish(vec![], Ok(()));
        }
    }
}
/// device to host: a transfer ends with a short packet or when it is full
async fn in_pipe(dev: DevRef, q: Queue, mut r: Rng, st: Rc<Stats>) {
    let lazy = r.below(4);
    loop {
        let (_, len) = next_req(&dev, &q).await;
        nap(&mut r, lazy).await;
        let mut cur = vec![];
        let res = loop {
            let p = std::future::poll_fn(|cx| {
                let mut d = dev.borrow_mut();
                let c = d.cable.as_mut().unwrap();
                if c.unplugged {
                    return Poll::Ready(None);
                }
                match c.in_pkt.take() {
                    Some(p) => {
                        let w = c.in_writer.take();
                        drop(d);
                        wake(w);
                        Poll::Ready(Some(p))
                    }
                    None => {
                        c.in_host = Some(cx.waker().clone());
                        Poll::Pending
                    }
                }
            })
            .await;
            let Some(p) = p else { break Err(TransferError::Disconnected) };
            cur.extend_from_slice(&p);
            if cur.len() > len {
                break Err(TransferError::Fault);
            }
            if p.len() < PKT {
                break Ok(());
            }
            if cur.len() == len {
                inc(&st.in_full);
                break Ok(());
            }
            nap(&mut r, lazy).await;
        };
        if res.is_ok() {
            inc(&st.in_transfers);
            if cur.len() > PKT {
                inc(&st.in_multi);
            }
            if cur.len() % PKT == 0 && !cur.is_empty() {
                inc(&st.in_aligned);
            }
        } else {
            cur.clear();
        }
        q.lock().unwrap().finish(cur, res);
    }
}

struct Plugged {
    cl: Cl,
    qi: Queue,
    qo: Queue,
    pipes: [Join; 2],
}
/// connect a host to the device
fn plug(c: &mut Case, rt: &tokio::runtime::Runtime, sched: &mut Sched, d: &DevRef, seq_w: usize, st: &Rc<Stats>) -> Result<Plugged, String> {
    d.borrow_mut().cable = Some(Cable::default());
    sim::reset();
    let ep = |addr| EpCfg { addr, kind: EndpointType::Bulk, mps: PKT };
    sim::with(|b| {
        b.devices = vec![DevCfg {
            serial: None,
            vid: 1,
            pid: 1,
            interfaces: vec![IfCfg { number: 0, class: 0xFF, name: None, alts: vec![vec![ep(0x01), ep(0x81)]], claim_fails: false }],
            open_fails: false,
        }];
    });
    let depth = c.rng.range(1, 8);
    let cl: Cl = {
        let _g = rt.enter();
        HostClient::<WireError>::try_new_raw_nusb(|_| true, ERROR_PATH, depth, skind(seq_w)).map_err(|e| format!("connecting failed: {e}"))?
    };
    let find = |a: u8| sim::with(|b| b.queues.iter().find(|q| q.lock().unwrap().endpoint == a).cloned());
    let qo = find(0x01).ok_or("no OUT queue")?;
    let qi = find(0x81).ok_or("no IN queue")?;
    let fifo = c.rng.range(1, 2);
    let a = sched.spawn("out pipe", out_pipe(d.clone(), qo.clone(), c.rng.fork(), fifo, st.clone()));
    let b = sched.spawn("in pipe", in_pipe(d.clone(), qi.clone(), c.rng.fork(), st.clone()));
    Ok(Plugged { cl, qi, qo, pipes: [a, b] })
}
/// pull the cable: both ends notice
fn unplug(d: &DevRef, p: &Plugged) {
    let ws = d.borrow_mut().cable.as_mut().unwrap().unplug();
    for w in ws {
        w.wake();
    }
    for q in [&p.qi, &p.qo] {
        let w = q.lock().unwrap().on_submit.take();
        wake(w);
    }
}

fn cabled<V: Ver, D: Dispatch<Tx = V::Tx> + 'static>(c: &mut Case, n: usize, mk: impl FnOnce(Ctx, SSpawn) -> D) -> Result<(), String> {
    vt_reset();
    let replug = c.rng.chance(1, 3);
    let tx_len = *c.rng.pick(&[350, 384, 511, 512, 513, 960, 1023, 1024]);
    let d = dev();
    d.borrow_mut().cable = Some(Cable::default());
    let (tx, rx, _leak) = V::make(&d, tx_len, c.rng.chance(1, 2));
    let rt = paused_rt();
    let mut sched = Sched::new(c.rng.fork());
    let link = slink(c.rng.fork());
    let kks: Vec<usize> = KLENS.into_iter().filter(|k| *k >= n).collect();
    let kk = *c.rng.pick(&kks);
    let rx_buf = PKT * c.rng.range(6, 18);
    {
        let mut g = link.lock().unwrap();
        g.max_yields = c.rng.below(4);
        for _ in 0..c.rng.below(3) {
            let i = c.rng.below(12);
            g.spawn_fail.insert(i, true);
        }
    }
    let app = mk(Ctx { link: link.clone() }, SSpawn { sp: sched.spawner(), link: link.clone() });
    let mut server = Server::new(tx, rx, vec![0u8; rx_buf].into_boxed_slice(), app, kkind(kk));
    let sender = server.sender();
    let ret: Arc<Mutex<Option<&'static str>>> = Default::default();
    let again: Rc<RefCell<(bool, Option<Waker>)>> = Default::default();
    let (ret2, again2) = (ret.clone(), again.clone());
    // as firmware does: run, and run again once the cable is back
    sched.spawn("server", async move {
        loop {
            let e = server.run().await;
            *ret2.lock().unwrap() = Some(ret_of(e));
            std::future::poll_fn(|cx| {
                let mut a = again2.borrow_mut();
                if std::mem::take(&mut a.0) {
                    return Poll::Ready(());
                }
                a.1 = Some(cx.waker().clone());
                Poll::Pending
            })
            .await;
        }
    });
    let st: Rc<Stats> = Default::default();
    let mk_traffic = |c: &mut Case| {
        let seq_w = *c.rng.pick(&SLENS);
        let mut e = env(c, kk, n, seq_w, tx_len);
        e.rx_buf = rx_buf - 1;
        e.fine = true;
        let mut t = traffic(c, &link, e);
        t.ret = ret.clone();
        t
    };
    if replug {
        let mut t = mk_traffic(c);
        t.huge = false;
        let p = plug(c, &rt, &mut sched, &d, t.env.seq_w, &st)?;
        let r = cut(c, &rt, &mut sched, &d, &p, &sender, &t);
        let Plugged { cl, pipes, .. } = p;
        drop(cl);
        for j in &pipes {
            j.abort();
        }
        r?;
        sched.run_tokio(&rt, 100_000);
        {
            let mut g = link.lock().unwrap();
            g.log.clear();
        }
        *ret.lock().unwrap() = None;
        c.count("replugged", 1);
    }
    let t = mk_traffic(c);
    let p = plug(c, &rt, &mut sched, &d, t.env.seq_w, &st)?;
    if replug {
        again.borrow_mut().0 = true;
        let w = again.borrow_mut().1.take();
        wake(w);
    }
    let cl = p.cl.clone();
    let done = body(c, &mut sched, &rt, &cl, &sender, &t, 1_000_000)?;
    if let Some(n) = d.borrow().too_long {
        return Err(format!("the device wrote a packet of {n} bytes"));
    }
    let failed = link.lock().unwrap().log.iter().filter(|e| matches!(e, Ev::Spawn { ok: false })).count();
    judge(c, &t, failed)?;
    c.count(if V::NAME == "v3" { "runs_v0_3" } else { "runs_v0_4" }, 1);
    for (k, v) in [
        ("out_transfers", &st.out_transfers),
        ("out_multi_packet", &st.out_multi),
        ("out_empty", &st.out_empty),
        ("in_transfers", &st.in_transfers),
        ("in_multi_packet", &st.in_multi),
        ("in_filled", &st.in_full),
    ] {
        c.count(k, v.get());
    }
    match t.end {
        End::None => {}
        End::ClientCloses => cl.close(),
        End::DeviceStops => unplug(&d, &p),
    }
    if t.end != End::None {
        sched.run_tokio(&rt, 100_000);
        if t.end == End::ClientCloses {
            if !p.qi.lock().unwrap().dropped || !p.qo.lock().unwrap().dropped {
                return Err("a closed client keeps its endpoints".into());
            }
            unplug(&d, &p);
        }
        let late = late_calls(&mut sched, &cl);
        sched.run_tokio(&rt, 100_000);
        let late = late.lock().unwrap().clone();
        let over = ret.lock().unwrap().is_some();
        judge_end(c, &t, &cl, over, &late, done.done())?;
    } else if ret.lock().unwrap().is_some() {
        return Err(format!("the server loop ended ({:?}) although the link is up", ret.lock().unwrap()));
    }
    c.sig(sched.switch_sig);
    drop(cl);
    drop(p);
    sched.drop_all();
    drop(rt);
    sim::reset();
    Ok(())
}

/// traffic, and the cable is pulled in the middle of it: everybody is released, nothing ran twice
fn cut<T>(c: &mut Case, rt: &tokio::runtime::Runtime, sched: &mut Sched, d: &DevRef, p: &Plugged, sender: &Sender<T>, t: &Traffic) -> Result<(), String>
where
    T: postcard_rpc::server::WireTx + 'static,
    Sender<T>: Clone,
{
    let ready = Arc::new(Mutex::new(0usize));
    start_subscribers(c, sched, &p.cl, t, &ready);
    sched.run_tokio(rt, 100_000);
    let mut js = start_device(c, sched, sender, t);
    js.extend(start_clients(c, sched, &p.cl, t));
    let k = c.rng.range(1, 1200) as u64;
    sched.run_tokio(rt, k);
    unplug(d, p);
    open_gate(&t.link);
    if sched.run_tokio(rt, 300_000) == Stop::Livelock {
        return Err("the cable is pulled and somebody keeps running for ever".into());
    }
    if let Some(j) = js.iter().find(|j| !j.done()) {
        let pend: Vec<String> = t.recs.lock().unwrap().iter().filter(|r| r.got.is_none() && !r.abandoned).map(|r| format!("{:?}", r.k)).collect();
        return Err(format!("a {} task hangs after the cable was pulled; unfinished: {pend:?}", j.name));
    }
    if !p.cl.is_closed() {
        return Err("the client does not report being closed although the cable was pulled".into());
    }
    if t.ret.lock().unwrap().is_none() {
        return Err("the server loop is still running although the cable was pulled".into());
    }
    if let Some(s) = t.subs.lock().unwrap().iter().find(|s| !s.ended) {
        return Err(format!("a {} subscriber of topic {} still waits although the cable was pulled", s.kind, s.topic));
    }
    let recs = t.recs.lock().unwrap();
    for r in recs.iter().filter(|r| !r.abandoned) {
        match &r.got {
            Some(Out::Closed) => c.count("cut_calls", 1),
            Some(o) if *o == r.want || (r.k.spawned() && *o == Out::Wire("FailedToSpawn")) => {}
            o => return Err(format!("{:?} with request {} returned {o:?} instead of {:?} or the loss of the link", r.k, hex(&r.req), r.want)),
        }
    }
    let mut runs: HashMap<(u32, Vec<u8>), usize> = HashMap::new();
    for e in &t.link.lock().unwrap().log {
        if let Ev::Start { which, req, .. } = e {
            *runs.entry((*which, req.clone())).or_default() += 1;
        }
    }
    for ((w, req), n) in runs {
        let sent = recs.iter().filter(|r| r.k.which() == Some(w) && r.req == req).count();
        if n > sent {
            return Err(format!("handler {w} ran {n} times for {sent} messages with content {}", hex(&req)));
        }
    }
    Ok(())
}

fn c29(c: &mut Case) -> Result<(), String> {
    match c.rng.below(6) {
        0 => cabled::<V3, _>(c, 2, us3::App2::new),
        1 => cabled::<V3, _>(c, 4, us3::App4::new),
        2 => cabled::<V3, _>(c, 8, us3::App8::new),
        3 => cabled::<V4, _>(c, 2, us4::App2::new),
        4 => cabled::<V4, _>(c, 4, us4::App4::new),
        _ => cabled::<V4, _>(c, 8, us4::App8::new),
    }
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C29",
        rule: "a distinct case is a distinct (operations, message lengths, controller timing, schedule) run of the real host transport and client against the real device transport and server over a simulated cable, judged on results, handler runs and received messages",
        scenarios: vec![Scenario { name: "cable", f: c29, quick: 1500, weight: 1, serial: false }],
        assumptions: &[
            "the USB controller, the cable and the device's peripheral deliver packets once and in order while plugged in; a transfer ends with a short packet or when it is full",
            "frames of the device are at most as long as the host's read requests",
        ],
        must_see: &[
            "calls", "publications", "device_errors", "ordered_pairs", "messages_received", "logs_received", "agreeing_subscribers", "spawn_failures_reported", "abandoned", "client_closed",
            "device_stopped", "runs_v0_3", "runs_v0_4", "out_transfers", "out_multi_packet", "out_empty", "in_transfers", "in_multi_packet", "in_filled", "replugged", "cut_calls",
        ],
    }]
}
