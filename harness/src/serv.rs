//! C03, C05, C06: the real server loop and dispatchers against a sequential reference.
use crate::exec::*;
use crate::icd::*;
use crate::refc::*;
use crate::report::*;
use crate::ssim::*;
use postcard_rpc::server::{Dispatch, Server, ServerError};
use postcard_rpc::standard_icd::{GetAllSchemasEndpoint, PingEndpoint, WireError, ERROR_KEY};
use postcard_rpc::{DeviceMap, Endpoint, Key, Topic};
use std::collections::HashSet;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C03",
            rule: "a distinct case is a distinct key set handed to min_key_needed (compared with a brute-force reference) or a distinct (interface, frame script, schedule) run through a real dispatcher built for an interface engineered to collide at a chosen length",
            scenarios: vec![
                Scenario { name: "min_key_needed", f: c03_min, quick: 4000, weight: 2, serial: false },
                Scenario { name: "dispatchers", f: c03_dispatch, quick: 1500, weight: 4, serial: false },
            ],
            assumptions: &["interfaces are built from lists that include the standard messages (the default)", "colliding paths were found by search over the documented key hash"],
            must_see: &["need_1", "need_2", "need_4", "need_8", "refused_duplicate", "icd_len_1", "icd_len_2", "icd_len_4", "icd_len_8", "handled", "errors_sent"],
        },
        Check {
            id: "C05",
            rule: "a distinct case is a distinct (dispatcher key length, frame script, fault plan, schedule); the full event log (handler starts and ends, transmissions) must equal the log of a sequential reference",
            scenarios: vec![
                Scenario { name: "scripts", f: c05_scripts, quick: 4000, weight: 5, serial: false },
                Scenario { name: "gated_spawn", f: c05_gated, quick: 1000, weight: 2, serial: false },
                Scenario { name: "send_failures", f: c05_faults, quick: 2000, weight: 2, serial: false },
            ],
            assumptions: &["handlers are deterministic functions of the request", "the transport either takes a whole frame or reports failure"],
            must_see: &["handled", "handled_spawned", "err_deser", "err_unknown", "err_keytoosmall", "err_spawn", "err_ser", "topic_handled", "topic_undecodable", "ignored", "schema_requests", "sync_done_while_spawned_pending"],
        },
        Check {
            id: "C06",
            rule: "a distinct case is a distinct (dispatcher key length, hostile byte script with receive and send failures, schedule); returns of the server loop must occur exactly where the reference says, with the injected error identity",
            scenarios: vec![
                Scenario { name: "hostile", f: c06_hostile, quick: 4000, weight: 5, serial: false },
                Scenario { name: "long", f: c06_long, quick: 60, weight: 1, serial: false },
                Scenario { name: "channels", f: c06_channels, quick: 300, weight: 1, serial: false },
            ],
            assumptions: &["after a fatal return the caller may call run() again (documented)"],
            must_see: &["buffer_filled", "ret_rx", "ret_tx", "rx_err_recoverable", "tx_err_recoverable", "too_large", "ignored", "pings_after_garbage", "handled", "long_hostile_runs"],
        },
    ]
}

type DecFn = Box<dyn Fn(&[u8]) -> Option<(Vec<u8>, Vec<u8>)>>;
struct MEp {
    which: u32,
    req: [u8; 8],
    resp: [u8; 8],
    spawned: bool,
    /// body -> (canonical request bytes, response bytes)
    f: DecFn,
}
struct MTp {
    which: u32,
    key: [u8; 8],
    spawned: bool,
    f: Box<dyn Fn(&[u8]) -> Option<Vec<u8>>>,
}
/// Reference model of a dispatcher
struct Model {
    /// length the dispatcher matches on
    n: usize,
    /// length the server sends with
    kk: usize,
    eps: Vec<MEp>,
    tps: Vec<MTp>,
    map: &'static DeviceMap,
}

fn de<T: serde::de::DeserializeOwned + serde::Serialize>(b: &[u8]) -> Option<(T, Vec<u8>)> {
    let t: T = postcard::from_bytes(b).ok()?;
    let r = postcard::to_stdvec(&t).ok()?;
    Some((t, r))
}
fn mep<E: Endpoint>(which: u32, spawned: bool, f: impl Fn(E::Request) -> E::Response + 'static) -> MEp
where
    E::Request: serde::de::DeserializeOwned + serde::Serialize,
    E::Response: serde::Serialize,
{
    MEp {
        which,
        req: E::REQ_KEY.to_bytes(),
        resp: E::RESP_KEY.to_bytes(),
        spawned,
        f: Box::new(move |b| {
            let (t, r) = de::<E::Request>(b)?;
            Some((r, postcard::to_stdvec(&f(t)).unwrap()))
        }),
    }
}
fn mtp<T: Topic>(which: u32, spawned: bool) -> MTp
where
    T::Message: serde::de::DeserializeOwned + serde::Serialize,
{
    MTp { which, key: T::TOPIC_KEY.to_bytes(), spawned, f: Box::new(|b| de::<T::Message>(b).map(|x| x.1)) }
}
fn main_model(n: usize, kk: usize, map: &'static DeviceMap) -> Model {
    Model {
        n,
        kk,
        eps: vec![
            mep::<EpBlk>(W_BLK, false, |r| f_rs(W_BLK, &r)),
            mep::<EpAsy>(W_ASY, false, |r| f_rs(W_ASY, &r)),
            mep::<EpSpn>(W_SPN, true, |r| f_rs(W_SPN, &r)),
            mep::<EpStr>(W_STR, false, |r| f_str(&r)),
            mep::<EpBig>(W_BIG, false, |r| f_big(r.min(100_000))),
            mep::<EpUnit>(W_UNIT, false, |_| ()),
            mep::<EpChoice>(W_CHOICE, false, |r| f_choice(&r)),
            mep::<EpSpn2>(W_SPN2, true, |r| f_spn2(&r)),
        ],
        tps: vec![mtp::<TiBlk>(W_TBLK, false), mtp::<TiAsy>(W_TASY, false), mtp::<TiSpn>(W_TSPN, true), mtp::<TiStr>(W_TSTR, false)],
        map,
    }
}

struct Plan {
    faults: std::collections::HashMap<(u32, bool), (TxK, u32)>,
    max_frame: usize,
    spawn_fail: std::collections::HashMap<usize, bool>,
    buf: usize,
}

#[derive(Clone, Debug, PartialEq)]
enum SEv {
    Start { which: u32, hdr: RHdr, req: Vec<u8> },
    End { which: u32, hdr: RHdr },
    Send { frame: Vec<u8>, err: Option<u32> },
    Spawn(bool),
    Ret { tx: bool, kind: &'static str, id: u32 },
}

struct Expect {
    sync: Vec<SEv>,
    /// (start, response frame) of spawned handlers
    spawned: Vec<(SEv, Option<Vec<u8>>)>,
}

fn werr(e: &WireError) -> Vec<u8> {
    postcard::to_stdvec(e).unwrap()
}

impl Model {
    fn reply(&self, key: &[u8; 8], h: &RHdr, body: &[u8]) -> Vec<u8> {
        let mut f = enc(&RHdr { key: fold(key, self.kk), seq: h.seq, slen: h.slen });
        f.extend_from_slice(body);
        f
    }
    /// run the script through the reference
    fn expect(&self, c: &mut Case, script: &[RxItem], p: &Plan) -> Expect {
        let mut ex = Expect { sync: vec![], spawned: vec![] };
        let mut spawns = 0usize;
        let ek = ERROR_KEY.to_bytes();
        let mut after_garbage = false;
        for (idx, it) in script.iter().enumerate() {
            let f = match it {
                RxItem::Err(k, id) => {
                    match k {
                        RxK::Closed => {
                            ex.sync.push(SEv::Ret { tx: false, kind: "closed", id: *id });
                            c.count("ret_rx", 1);
                        }
                        _ => c.count("rx_err_recoverable", 1),
                    }
                    after_garbage = true;
                    continue;
                }
                RxItem::Frame(f) => f,
            };
            if f.len() > p.buf {
                let _ = idx;
                c.count("too_large", 1);
                after_garbage = true;
                continue;
            }
            let Some((h, body)) = dec(f) else {
                c.count("ignored", 1);
                after_garbage = true;
                continue;
            };
            let body = body.to_vec();
            // one transmission; returns the injected failure if any
            let send = |ex: &mut Expect, frame: Vec<u8>| -> Option<(TxK, u32)> {
                let (fh, _) = dec(&frame).unwrap();
                let is_err = keys_match(&fh.key, &ek);
                let mut fault = p.faults.get(&(fh.seq, is_err)).copied();
                if frame.len() > p.max_frame {
                    fault = Some((TxK::Other, u32::MAX));
                }
                ex.sync.push(SEv::Send { frame, err: fault.map(|x| x.1) });
                fault
            };
            let error = |ex: &mut Expect, e: WireError| -> Option<(TxK, u32)> { send(ex, self.reply(&ek, &h, &werr(&e))) };
            let mut result: Option<(TxK, u32)> = None;
            if h.key.len() < self.n {
                c.count("err_keytoosmall", 1);
                c.count("errors_sent", 1);
                result = error(&mut ex, WireError::KeyTooSmall);
            } else {
                let k = fold(&h.key, self.n);
                if k == fold(&PingEndpoint::REQ_KEY.to_bytes(), self.n) {
                    match de::<u32>(&body) {
                        Some((_, r)) => {
                            if after_garbage {
                                c.count("pings_after_garbage", 1);
                            }
                            c.count("pings", 1);
                            result = send(&mut ex, self.reply(&PingEndpoint::RESP_KEY.to_bytes(), &h, &r));
                        }
                        None => {
                            c.count("err_deser", 1);
                            c.count("errors_sent", 1);
                            result = error(&mut ex, WireError::DeserFailed);
                        }
                    }
                } else if k == fold(&GetAllSchemasEndpoint::REQ_KEY.to_bytes(), self.n) {
                    c.count("schema_requests", 1);
                    let (pubs, totals) = crate::schema::expected_discovery(self.map, self.kk);
                    let mut errs = 0u32;
                    for pf in pubs {
                        if send(&mut ex, pf).is_some() {
                            errs += 1;
                        }
                    }
                    let t = totals(errs);
                    result = send(&mut ex, self.reply(&GetAllSchemasEndpoint::RESP_KEY.to_bytes(), &h, &t));
                } else if let Some(e) = self.eps.iter().find(|e| fold(&e.req, self.n) == k) {
                    match (e.f)(&body) {
                        None => {
                            c.count("err_deser", 1);
                            c.count("errors_sent", 1);
                            result = error(&mut ex, WireError::DeserFailed);
                        }
                        Some((req, resp)) => {
                            let st = SEv::Start { which: e.which, hdr: h.clone(), req };
                            let rf = self.reply(&e.resp, &h, &resp);
                            if e.spawned {
                                let ok = !p.spawn_fail.get(&spawns).copied().unwrap_or(false);
                                spawns += 1;
                                ex.sync.push(SEv::Spawn(ok));
                                if ok {
                                    c.count("handled_spawned", 1);
                                    ex.spawned.push((st, Some(rf)));
                                } else {
                                    c.count("err_spawn", 1);
                                    c.count("errors_sent", 1);
                                    result = error(&mut ex, WireError::FailedToSpawn);
                                }
                            } else {
                                c.count("handled", 1);
                                ex.sync.push(st);
                                ex.sync.push(SEv::End { which: e.which, hdr: h.clone() });
                                if send(&mut ex, rf).is_some() {
                                    c.count("err_ser", 1);
                                    c.count("errors_sent", 1);
                                    result = error(&mut ex, WireError::SerFailed);
                                }
                            }
                        }
                    }
                } else if let Some(t) = self.tps.iter().find(|t| fold(&t.key, self.n) == k) {
                    match (t.f)(&body) {
                        None => c.count("topic_undecodable", 1),
                        Some(req) => {
                            c.count("topic_handled", 1);
                            let st = SEv::Start { which: t.which, hdr: h.clone(), req };
                            if t.spawned {
                                let ok = !p.spawn_fail.get(&spawns).copied().unwrap_or(false);
                                spawns += 1;
                                ex.sync.push(SEv::Spawn(ok));
                                if ok {
                                    ex.spawned.push((st, None));
                                }
                            } else {
                                ex.sync.push(st);
                                ex.sync.push(SEv::End { which: t.which, hdr: h.clone() });
                            }
                        }
                    }
                } else {
                    c.count("err_unknown", 1);
                    c.count("errors_sent", 1);
                    result = error(&mut ex, WireError::UnknownKey);
                }
            }
            match result {
                None => {}
                Some((TxK::Other, _)) => c.count("tx_err_recoverable", 1),
                Some((TxK::Closed, id)) => {
                    c.count("ret_tx", 1);
                    ex.sync.push(SEv::Ret { tx: true, kind: "closed", id });
                }
                Some((TxK::Timeout, id)) => {
                    c.count("ret_tx", 1);
                    ex.sync.push(SEv::Ret { tx: true, kind: "timeout", id });
                }
            }
        }
        ex
    }
}

/// turn the raw event log into the comparable form; the colliding family has no End events
fn compare(m: &Model, log: &[Ev], ex: &Expect, ends: bool, final_: bool) -> Result<(), String> {
    let spawned_which: HashSet<u32> = m.eps.iter().filter(|e| e.spawned).map(|e| e.which).chain(m.tps.iter().filter(|t| t.spawned).map(|t| t.which)).collect();
    let mut spawned_frames: Vec<&Vec<u8>> = ex.spawned.iter().filter_map(|s| s.1.as_ref()).collect();
    let mut begun: std::collections::HashMap<u32, Vec<u8>> = Default::default();
    let mut sync: Vec<SEv> = vec![];
    let mut open_sync_send: Option<u32> = None;
    let mut sp_start: Vec<SEv> = vec![];
    let mut sp_end = 0usize;
    for ev in log {
        match ev {
            Ev::Rx(_) | Ev::RxErr(_) => {}
            Ev::Start { which, hdr, req } => {
                let s = SEv::Start { which: *which, hdr: hdr.clone(), req: req.clone() };
                if spawned_which.contains(which) {
                    sp_start.push(s);
                } else {
                    if open_sync_send.is_some() {
                        return Err(format!("handler {which} started while an earlier answer was still being sent"));
                    }
                    sync.push(s);
                }
            }
            Ev::End { which, hdr } => {
                if spawned_which.contains(which) {
                    sp_end += 1;
                } else {
                    sync.push(SEv::End { which: *which, hdr: hdr.clone() });
                }
            }
            Ev::SendBegin { id, frame } => {
                if let Some(i) = spawned_frames.iter().position(|f| *f == frame) {
                    spawned_frames.remove(i);
                    continue;
                }
                if open_sync_send.is_some() {
                    return Err("two answers of the server loop were being sent at the same time".into());
                }
                open_sync_send = Some(*id);
                begun.insert(*id, frame.clone());
            }
            Ev::SendEnd { id, err } => {
                if let Some(frame) = begun.remove(id) {
                    open_sync_send = None;
                    sync.push(SEv::Send { frame, err: *err });
                }
            }
            Ev::Spawn { ok } => sync.push(SEv::Spawn(*ok)),
            Ev::Ret { tx, kind, id } => sync.push(SEv::Ret { tx: *tx, kind, id: *id }),
        }
    }
    let want: Vec<&SEv> = ex.sync.iter().filter(|s| ends || !matches!(s, SEv::End { .. })).collect();
    for (i, w) in want.iter().enumerate() {
        match sync.get(i) {
            None => return Err(format!("event {i} never happened: expected {} (got only {} events; the server stopped making progress)", show(w), sync.len())),
            Some(g) if g != *w => return Err(format!("event {i}: got {} expected {}", show(g), show(w))),
            _ => {}
        }
    }
    if sync.len() > want.len() {
        return Err(format!("unexpected extra event: {}", show(&sync[want.len()])));
    }
    if final_ {
        let mut want: Vec<String> = ex.spawned.iter().map(|s| show(&s.0)).collect();
        let mut got: Vec<String> = sp_start.iter().map(show).collect();
        want.sort();
        got.sort();
        if want != got {
            return Err(format!("spawned handlers ran as {got:?}, expected {want:?}"));
        }
        if sp_end != ex.spawned.len() {
            return Err(format!("{sp_end} spawned handlers finished, expected {}", ex.spawned.len()));
        }
        if let Some(f) = spawned_frames.first() {
            return Err(format!("the response {} of a spawned handler was never sent", hex(f)));
        }
    }
    Ok(())
}
fn show(e: &SEv) -> String {
    match e {
        SEv::Start { which, hdr, req } => format!("start(handler {which}, hdr key={} seq={}/{}, req={})", hex(&hdr.key), hdr.seq, hdr.slen, hex(req)),
        SEv::End { which, hdr } => format!("end(handler {which}, seq={})", hdr.seq),
        SEv::Send { frame, err } => format!("send({}, err={err:?})", hex(frame)),
        o => format!("{o:?}"),
    }
}

struct RunOpts {
    gated: bool,
    ends: bool,
    drip: bool,
}

fn run_script<D: Dispatch<Tx = STx> + 'static>(
    c: &mut Case,
    mk: impl FnOnce(Ctx, SSpawn) -> D,
    m: &Model,
    script: Vec<RxItem>,
    plan: Plan,
    o: RunOpts,
) -> Result<(), String> {
    vt_reset();
    let mut sched = Sched::new(c.rng.fork());
    let link = slink(c.rng.fork());
    {
        let mut g = link.lock().unwrap();
        g.faults = plan.faults.clone();
        g.max_frame = plan.max_frame;
        g.spawn_fail = plan.spawn_fail.clone();
        g.gate_open = !o.gated;
        g.max_yields = c.rng.below(4);
    }
    let d = mk(Ctx { link: link.clone() }, SSpawn { sp: sched.spawner(), link: link.clone() });
    if klen(d.min_key_len()) != m.n {
        return Err(format!("dispatcher reports key length {:?}, expected {}", d.min_key_len(), m.n));
    }
    let buf = vec![0u8; plan.buf].into_boxed_slice();
    let mut server = Server::new(STx { link: link.clone() }, SRx { link: link.clone() }, buf, d, kkind(m.kk));
    let l2 = link.clone();
    sched.spawn("server", async move {
        loop {
            let ret = match server.run().await {
                ServerError::TxFatal(e) => Ev::Ret { tx: true, kind: kname(e.kind), id: e.id },
                ServerError::RxFatal(e) => Ev::Ret { tx: false, kind: if e.kind == RxK::Closed { "closed" } else { "recoverable" }, id: e.id },
            };
            l2.lock().unwrap().log.push(ret);
        }
    });
    if o.drip {
        let (l3, sc) = (link.clone(), script.clone());
        sched.spawn("pusher", async move {
            for (i, it) in sc.into_iter().enumerate() {
                push_rx(&l3, i, it);
                rand_yields(&l3).await;
            }
        });
    } else {
        for (i, it) in script.iter().enumerate() {
            push_rx(&link, i, it.clone());
        }
    }
    let ex = m.expect(c, &script, &plan);
    let lim = 20_000 + script.len() as u64 * 400;
    let stop = sched.run(lim);
    c.log(|| format!("n={} kk={} buf={} max_frame={} script={script:?}", m.n, m.kk, plan.buf, plan.max_frame));
    if c.trace_on {
        let log = link.lock().unwrap().log.clone();
        for e in log {
            c.log(|| format!("{e:?}"));
        }
    }
    if stop == Stop::Livelock {
        return Err(format!("the server is still busy after {lim} polls"));
    }
    let pend = ex.spawned.len();
    if o.gated {
        let log = link.lock().unwrap().log.clone();
        compare(m, &log, &ex, o.ends, false)?;
        if pend > 0 && !ex.sync.is_empty() {
            c.count("sync_done_while_spawned_pending", 1);
        }
        open_gate(&link);
        if sched.run(lim) == Stop::Livelock {
            return Err("livelock after releasing spawned handlers".into());
        }
    }
    let log = link.lock().unwrap().log.clone();
    compare(m, &log, &ex, o.ends, true)?;
    c.count("events", log.len() as u64);
    c.sig(sched.switch_sig);
    c.sig(script.len() as u64);
    for it in &script {
        if let RxItem::Frame(f) = it {
            c.sig_bytes(f);
        }
    }
    c.nontrivial = log.len() > 3;
    c.note = Some(format!("match length {}, {} script items, {} events, {} polls", m.n, script.len(), log.len(), sched.polls));
    sched.drop_all();
    Ok(())
}
fn kname(k: TxK) -> &'static str {
    match k {
        TxK::Closed => "closed",
        TxK::Timeout => "timeout",
        TxK::Other => "recoverable",
    }
}

fn rand_choice(c: &mut Case) -> Choice {
    match c.rng.below(4) {
        0 => Choice::Unit,
        1 => Choice::New(c.rng.u32() as u16),
        2 => Choice::Tup(c.rng.u8(), "héllo".into()),
        _ => Choice::Struct { a: c.rng.u64() as i64, b: if c.rng.chance(1, 2) { Some(rand_rq(c)) } else { None } },
    }
}
pub fn rand_rq(c: &mut Case) -> Rq {
    let n = if c.rng.chance(1, 60) {
        c.rng.edge_len(70_000)
    } else if c.rng.chance(1, 10) {
        c.rng.range(60, 200)
    } else {
        c.rng.below(12)
    };
    Rq { id: c.rng.u32(), data: c.rng.filler(n) }
}
/// a valid request body for handler `which`
fn body_for(c: &mut Case, which: u32) -> Vec<u8> {
    match which {
        W_STR | W_TSTR => {
            let n = c.rng.below(20);
            postcard::to_stdvec(&"x".repeat(n)).unwrap()
        }
        W_BIG => {
            let n = if c.rng.chance(1, 4) { c.rng.range(200, 700) as u32 } else { c.rng.below(30) as u32 };
            postcard::to_stdvec(&n).unwrap()
        }
        W_UNIT => vec![],
        W_CHOICE | W_SPN2 => {
            let x = rand_choice(c);
            postcard::to_stdvec(&x).unwrap()
        }
        _ => {
            let r = rand_rq(c);
            postcard::to_stdvec(&r).unwrap()
        }
    }
}

struct Seqs {
    used: HashSet<u32>,
}
impl Seqs {
    /// unused value representable in the width, away from the counters used by discovery
    fn next(&mut self, c: &mut Case, sl: usize) -> u32 {
        loop {
            let v = match sl {
                1 => c.rng.range(100, 255) as u32,
                2 => c.rng.range(100, 65535) as u32,
                _ => match c.rng.below(3) {
                    0 => c.rng.range(100, 400) as u32,
                    _ => c.rng.u32().max(100),
                },
            };
            if self.used.insert(v) {
                return v;
            }
        }
    }
}

#[derive(Clone, Copy)]
struct Mix {
    garbage: usize,
    bad_body: usize,
    unknown: usize,
    short_key: usize,
    rxerr: usize,
    closed: usize,
    schema: usize,
    ping: usize,
}

fn gen_script(c: &mut Case, m: &Model, len: usize, mx: Mix, buf: usize) -> Vec<RxItem> {
    let mut v = vec![];
    let mut seqs = Seqs { used: HashSet::new() };
    let mut id = 1000u32;
    for _ in 0..len {
        let roll = c.rng.below(100);
        let mut acc = 0;
        let mut pick = |w: usize| {
            acc += w;
            roll < acc
        };
        let sl = if len > 120 { *c.rng.pick(&[2, 4]) } else { *c.rng.pick(&SLENS) };
        let long: Vec<usize> = KLENS.into_iter().filter(|k| *k >= m.n).collect();
        if pick(mx.garbage) {
            let f = match c.rng.below(6) {
                0 => vec![],
                1 => {
                    let n = c.rng.below(16);
                    c.rng.bytes(n)
                }
                2 => {
                    let n = c.rng.range(buf.saturating_sub(3), buf + 10);
                    let mut b = c.rng.bytes(n);
                    if !b.is_empty() {
                        b[0] &= 0xf0;
                    }
                    // keep its sequence number out of the way
                    b
                }
                3 => {
                    let mut b = frame(PingEndpoint::REQ_KEY, 8, 7, 4, &[1]);
                    b[0] |= 1 + c.rng.below(15) as u8;
                    b
                }
                4 => {
                    let mut b = frame(PingEndpoint::REQ_KEY, 8, 7, 4, &[]);
                    let n = c.rng.below(b.len());
                    b.truncate(n);
                    b
                }
                _ => {
                    let n = c.rng.range(1, 60);
                    let mut b = c.rng.bytes(n);
                    b[0] = 0b1111_0000;
                    b
                }
            };
            // accidental well-formed headers must not reuse a planned sequence number
            if let Some((h, _)) = dec(&f) {
                if h.seq < 100 || !seqs.used.insert(h.seq) {
                    continue;
                }
            }
            v.push(RxItem::Frame(f));
            continue;
        }
        if pick(mx.rxerr) {
            id += 1;
            v.push(RxItem::Err(*c.rng.pick(&[RxK::Other, RxK::TooLarge]), id));
            continue;
        }
        if pick(mx.closed) {
            id += 1;
            v.push(RxItem::Err(RxK::Closed, id));
            continue;
        }
        let seq = seqs.next(c, sl);
        if pick(mx.ping) {
            let k = *c.rng.pick(&long);
            let body = postcard::to_stdvec(&c.rng.u32()).unwrap();
            let body = if c.rng.chance(1, 8) { vec![] } else { body };
            v.push(RxItem::Frame(frame(PingEndpoint::REQ_KEY, k, seq, sl, &body)));
            continue;
        }
        if pick(mx.schema) {
            let k = *c.rng.pick(&long);
            let n = c.rng.below(3);
            let b = c.rng.bytes(n);
            v.push(RxItem::Frame(frame(GetAllSchemasEndpoint::REQ_KEY, k, seq, sl, &b)));
            continue;
        }
        if pick(mx.unknown) {
            let key: [u8; 8] = c.rng.bytes(8).try_into().unwrap();
            let k = *c.rng.pick(&KLENS);
            let n = c.rng.below(10);
            let b = c.rng.bytes(n);
            v.push(RxItem::Frame(frame(key8(key), k, seq, sl, &b)));
            continue;
        }
        let ntot = m.eps.len() + m.tps.len();
        let (which, key) = if ntot == 0 {
            (u32::MAX, PingEndpoint::REQ_KEY.to_bytes())
        } else {
            let i = c.rng.below(ntot);
            if i < m.eps.len() {
                (m.eps[i].which, m.eps[i].req)
            } else {
                (m.tps[i - m.eps.len()].which, m.tps[i - m.eps.len()].key)
            }
        };
        let mut body = if m.eps.iter().any(|e| e.which == W_STR) { body_for(c, which) } else { postcard::to_stdvec(&rand_rq(c)).unwrap() };
        let mut k = *c.rng.pick(&long);
        if pick(mx.short_key) {
            let short: Vec<usize> = KLENS.into_iter().filter(|k| *k < m.n).collect();
            if let Some(s) = short.get(c.rng.below(short.len().max(1))) {
                k = *s;
            }
        } else if pick(mx.bad_body) {
            match c.rng.below(3) {
                0 => {
                    let n = c.rng.below(body.len().max(1));
                    body.truncate(n);
                }
                1 => {
                    let n = c.rng.below(10);
                    body = c.rng.bytes(n);
                }
                _ => {
                    let n = c.rng.range(1, 5);
                    body.extend(c.rng.bytes(n))
                }
            }
        }
        // frames around the size of the receive buffer (postcard ignores what follows the value)
        if c.rng.chance(1, 25) {
            let n = (buf + c.rng.below(3)).saturating_sub(2 + c.rng.below(2)) + 1;
            let h = 1 + k + sl;
            if n > h + body.len() {
                let pad = n - h - body.len();
                body.extend(c.rng.filler(pad));
            }
        }
        v.push(RxItem::Frame(frame(key8(key), k, seq, sl, &body)));
    }
    v
}

const NORMAL: Mix = Mix { garbage: 4, bad_body: 12, unknown: 8, short_key: 8, rxerr: 2, closed: 0, schema: 2, ping: 10 };
const HOSTILE: Mix = Mix { garbage: 35, bad_body: 10, unknown: 8, short_key: 6, rxerr: 8, closed: 3, schema: 2, ping: 15 };

fn app_case(c: &mut Case, mx: Mix, plan: impl FnOnce(&mut Case, &[RxItem]) -> Plan, gated: bool) -> Result<(), String> {
    let len = if c.rng.chance(1, 12) { c.rng.range(60, 110) } else { c.rng.range(1, 25) };
    app_case_len(c, len, mx, plan, gated)
}
fn app_case_len(c: &mut Case, len: usize, mx: Mix, plan: impl FnOnce(&mut Case, &[RxItem]) -> Plan, gated: bool) -> Result<(), String> {
    let n = *c.rng.pick(&KLENS);
    let kk = if c.rng.chance(3, 4) { n } else { *c.rng.pick(&KLENS) };
    let buf = if c.rng.chance(1, 6) { *c.rng.pick(&[512usize, 2048, 5000, 40_000, 80_000]) } else { *c.rng.pick(&[64usize, 256, 1024]) };
    let mut sched = Sched::new(c.rng.fork());
    let map = st::App1::new(Ctx { link: slink(c.rng.fork()) }, SSpawn { sp: sched.spawner(), link: slink(c.rng.fork()) }).device_map;
    sched.drop_all();
    let m = main_model(n, kk, map);
    let script = gen_script(c, &m, len, mx, buf);
    let mut p = plan(c, &script);
    p.buf = buf;
    let o = RunOpts { gated, ends: true, drip: c.rng.chance(1, 2) };
    match n {
        1 => run_script(c, st::App1::new, &m, script, p, o),
        2 => run_script(c, st::App2::new, &m, script, p, o),
        4 => run_script(c, st::App4::new, &m, script, p, o),
        _ => run_script(c, st::App8::new, &m, script, p, o),
    }
}

fn no_plan() -> Plan {
    Plan { faults: Default::default(), max_frame: usize::MAX, spawn_fail: Default::default(), buf: 1024 }
}
fn spawn_fails(c: &mut Case, p: &mut Plan) {
    for i in 0..20 {
        if c.rng.chance(1, 5) {
            p.spawn_fail.insert(i, true);
        }
    }
}
fn c05_scripts(c: &mut Case) -> Result<(), String> {
    app_case(
        c,
        NORMAL,
        |c, _| {
            let mut p = no_plan();
            if c.rng.chance(1, 2) {
                spawn_fails(c, &mut p);
            }
            if c.rng.chance(1, 3) {
                p.max_frame = c.rng.range(150, 260);
            }
            p
        },
        false,
    )
}
fn c05_gated(c: &mut Case) -> Result<(), String> {
    app_case(
        c,
        Mix { garbage: 0, bad_body: 3, unknown: 2, short_key: 2, rxerr: 0, closed: 0, schema: 1, ping: 10 },
        |c, _| {
            let mut p = no_plan();
            if c.rng.chance(1, 4) {
                spawn_fails(c, &mut p);
            }
            p
        },
        true,
    )
}
/// random failures on sends, keyed by the sequence number of the answered frame
fn fault_plan(c: &mut Case, script: &[RxItem], kinds: &[TxK], den: usize) -> Plan {
    let mut p = no_plan();
    let mut id = 1;
    for it in script {
        if let RxItem::Frame(f) = it {
            if let Some((h, _)) = dec(f) {
                for is_err in [false, true] {
                    if c.rng.chance(1, den) {
                        p.faults.insert((h.seq, is_err), (*c.rng.pick(kinds), id));
                        id += 1;
                    }
                }
            }
        }
    }
    if c.rng.chance(1, 4) {
        // discovery publications that fail
        for s in 0..40 {
            if c.rng.chance(1, 6) {
                p.faults.insert((s, false), (*c.rng.pick(kinds), 500 + s));
            }
        }
    }
    p
}
fn c05_faults(c: &mut Case) -> Result<(), String> {
    app_case(
        c,
        NORMAL,
        |c, s| {
            let mut p = fault_plan(c, s, &[TxK::Other], 4);
            spawn_fails(c, &mut p);
            p
        },
        false,
    )
}
fn c06_hostile(c: &mut Case) -> Result<(), String> {
    app_case(
        c,
        HOSTILE,
        |c, s| {
            let den = *c.rng.pick(&[3, 6, 20]);
            let mut p = if c.rng.chance(2, 3) { fault_plan(c, s, &[TxK::Other, TxK::Other, TxK::Closed, TxK::Timeout], den) } else { no_plan() };
            if c.rng.chance(1, 3) {
                spawn_fails(c, &mut p);
            }
            if c.rng.chance(1, 4) {
                p.max_frame = c.rng.range(150, 260);
            }
            p
        },
        false,
    )
}

/// very long runs of one kind of trouble: the server is still there afterwards
fn c06_long(c: &mut Case) -> Result<(), String> {
    let z = Mix { garbage: 0, bad_body: 0, unknown: 0, short_key: 0, rxerr: 0, closed: 0, schema: 0, ping: 4 };
    let k = c.rng.below(6);
    let mx = match k {
        0 => Mix { rxerr: 94, ..z },
        1 => Mix { garbage: 94, ..z },
        2 => Mix { unknown: 94, ..z },
        3 => Mix { short_key: 50, bad_body: 50, ..z },
        // answers that cannot be sent
        4 => z,
        _ => Mix { rxerr: 20, garbage: 20, unknown: 20, ping: 10, schema: 1, ..z },
    };
    let len = *c.rng.pick(&[300usize, 700, 1500, 3000]);
    c.count("long_hostile_runs", 1);
    app_case_len(
        c,
        len,
        mx,
        |c, s| {
            if k == 4 {
                let den = *c.rng.pick(&[1, 2]);
                let mut p = fault_plan(c, s, &[TxK::Other], den);
                p.faults.retain(|f, _| f.0 >= 40);
                p
            } else {
                no_plan()
            }
        },
        false,
    )
}

/// the library's channel transport: stop conditions and error kinds of its server side
fn c06_channels(c: &mut Case) -> Result<(), String> {
    use chd::{new_server, new_server_stoppable, Settings};
    use postcard_rpc::server::impls::test_channels::*;
    let rt = paused_rt();
    let link = slink(c.rng.fork());
    let mut sched = Sched::new(c.rng.fork());
    let (in_tx, in_rx) = tokio::sync::mpsc::channel::<Vec<u8>>(64);
    let (out_tx, mut out_rx) = tokio::sync::mpsc::channel::<Vec<u8>>(64);
    let app = ch::App8::new(Ctx { link: link.clone() }, ChannelWireSpawn);
    let bsize = *c.rng.pick(&[20usize, 64, 65, 128, 255, 256, 512, 1024, 2048, 4096, 65_536]);
    let set = Settings { tx: ChannelWireTx::new(out_tx), rx: ChannelWireRx::new(in_rx), buf: bsize, kkind: kkind(8) };
    let stoppable = c.rng.chance(1, 2);
    let mode = c.rng.below(3);
    let npings = c.rng.range(0, 6) as u32;
    let big = c.rng.chance(1, 2);
    let ret = std::sync::Arc::new(std::sync::Mutex::new(None::<&'static str>));
    let r2 = ret.clone();
    c.sig(stoppable as u64 + 2 * mode as u64 + 8 * npings as u64 + 64 * big as u64);
    c.nontrivial = true;
    let (mut srv, stopper) = if stoppable {
        let (s, st) = new_server_stoppable(app, set);
        (s, Some(st))
    } else {
        (new_server(app, set), None)
    };
    sched.spawn("server", async move {
        let e = srv.run().await;
        *r2.lock().unwrap() = Some(match e {
            ServerError::TxFatal(ChannelWireTxError::ChannelClosed) => "tx",
            ServerError::RxFatal(ChannelWireRxError::ChannelClosed) => "rx",
            ServerError::RxFatal(ChannelWireRxError::MessageTooLarge) => "rx-large",
        });
    });
    for i in 0..npings {
        if big && i == 1 {
            let _ = in_tx.try_send(vec![0xe0; bsize + 1]);
        }
        let mut f = frame(PingEndpoint::REQ_KEY, 8, i + 200, 4, &[]);
        f.extend(postcard::to_stdvec(&(i * 77)).unwrap());
        // what follows the value is ignored; the frame may fill the buffer to its last byte
        if c.rng.chance(1, 2) {
            let n = if c.rng.chance(1, 2) { bsize } else { c.rng.range(f.len(), bsize) };
            f.resize(n, 0x55);
            c.count(if n == bsize { "buffer_filled" } else { "long_frames" }, 1);
        }
        if in_tx.try_send(f).is_err() {
            return Err("INTERNAL: channel full".into());
        }
    }
    sched.run_tokio(&rt, 100_000);
    if ret.lock().unwrap().is_some() {
        return Err(format!("channel server returned {:?} although its link is up", ret.lock().unwrap()));
    }
    for i in 0..npings {
        let mut w = frame(PingEndpoint::RESP_KEY, 8, i + 200, 4, &[]);
        w.extend(postcard::to_stdvec(&(i * 77)).unwrap());
        match out_rx.try_recv() {
            Ok(f) if f == w => c.count("pings", 1),
            o => return Err(format!("channel server answered {o:?} expected {}", hex(&w))),
        }
    }
    let want;
    let mut in_tx = Some(in_tx);
    match (mode, &stopper) {
        (0, Some(s)) => {
            s.stop();
            want = "rx";
        }
        (1, _) => {
            out_rx.close();
            drop(out_rx);
            let f = frame(PingEndpoint::REQ_KEY, 8, 300, 4, &[1]);
            let _ = in_tx.as_ref().unwrap().try_send(f);
            want = "tx";
        }
        _ => {
            in_tx = None;
            want = "rx";
        }
    }
    sched.run_tokio(&rt, 100_000);
    let got = *ret.lock().unwrap();
    if got != Some(want) {
        return Err(format!("channel server returned {got:?}, expected {want}"));
    }
    drop(in_tx);
    sched.drop_all();
    Ok(())
}

// ------------------------------------------------------------------ C03

fn c03_min(c: &mut Case) -> Result<(), String> {
    // keys engineered to coincide at a chosen length
    let nk = if c.rng.chance(1, 5) { c.rng.range(12, 60) } else { c.rng.range(0, 12) };
    let target = *c.rng.pick(&[1usize, 2, 4, 8, 16]);
    let mut keys: Vec<[u8; 8]> = vec![];
    for _ in 0..nk {
        let k = if !keys.is_empty() && target > 1 && c.rng.chance(1, if nk > 12 { nk } else { 3 }) {
            let mut k = *c.rng.pick(&keys);
            let v = c.rng.u8();
            match target {
                // coincide at 1 byte only
                2 => {
                    k[0] ^= v;
                    k[7] ^= v;
                }
                // coincide at 2 bytes
                4 => {
                    let h = c.rng.below(2) * 4;
                    k[h] ^= v;
                    k[h + 3] ^= v;
                }
                // coincide at 4 bytes
                8 => {
                    let h = c.rng.below(4) * 2;
                    k[h] ^= v;
                    k[h + 1] ^= v;
                }
                _ => {}
            }
            k
        } else {
            c.rng.bytes(8).try_into().unwrap()
        };
        keys.push(k);
    }
    // split into lists
    let mut lists: Vec<Vec<Key>> = vec![vec![]];
    let split = *c.rng.pick(&[3usize, 3, 20, 1_000_000]);
    for k in &keys {
        if c.rng.chance(1, split) {
            lists.push(vec![]);
        }
        if split == 3 && c.rng.chance(1, 8) {
            lists.push(vec![]);
        }
        lists.last_mut().unwrap().push(key8(*k));
    }
    let refs: Vec<&[Key]> = lists.iter().map(|l| l.as_slice()).collect();
    for k in &keys {
        c.sig_bytes(k);
    }
    c.nontrivial = keys.len() > 1;
    c.log(|| format!("lists {:?}", lists.iter().map(|l| l.iter().map(|k| hex(&k.to_bytes())).collect::<Vec<_>>()).collect::<Vec<_>>()));
    let want = min_len(&keys);
    let got = expect_panic(|| postcard_rpc::server::min_key_needed(&refs));
    match (want, got) {
        (None, None) => c.count("refused_duplicate", 1),
        (Some(w), Some(g)) if w == g => c.count(
            match w {
                1 => "need_1",
                2 => "need_2",
                4 => "need_4",
                _ => "need_8",
            },
            1,
        ),
        (w, g) => return Err(format!("min_key_needed = {g:?} (None = refused), expected {w:?} for {:?}", keys.iter().map(|k| hex(k)).collect::<Vec<_>>())),
    }
    Ok(())
}

struct CInfo {
    eps: Vec<&'static str>,
    tin: Vec<&'static str>,
    tout: Vec<&'static str>,
}

fn c03_one<D: Dispatch<Tx = STx> + 'static>(c: &mut Case, name: &str, info: CInfo, map: &'static DeviceMap, mk: impl FnOnce(Ctx, SSpawn) -> D) -> Result<(), String> {
    use postcard_rpc::standard_icd::{GetAllSchemaDataTopic, LoggingTopic};
    let k = |p: &str| Key::for_path::<Rq>(p).to_bytes();
    let r = |p: &str| Key::for_path::<Rs>(p).to_bytes();
    let mut ins = vec![PingEndpoint::REQ_KEY.to_bytes(), GetAllSchemasEndpoint::REQ_KEY.to_bytes()];
    let mut outs = vec![
        PingEndpoint::RESP_KEY.to_bytes(),
        GetAllSchemasEndpoint::RESP_KEY.to_bytes(),
        GetAllSchemaDataTopic::TOPIC_KEY.to_bytes(),
        LoggingTopic::TOPIC_KEY.to_bytes(),
        ERROR_KEY.to_bytes(),
    ];
    ins.extend(info.eps.iter().map(|p| k(p)));
    ins.extend(info.tin.iter().map(|p| k(p)));
    outs.extend(info.eps.iter().map(|p| r(p)));
    outs.extend(info.tout.iter().map(|p| r(p)));
    let (Some(ni), Some(no)) = (min_len(&ins), min_len(&outs)) else { return Err("INTERNAL: duplicate key in interface".into()) };
    let n = ni.max(no);
    if klen(map.min_key_len) != n {
        let at = klen(map.min_key_len);
        let clash = |v: &[[u8; 8]]| v.iter().enumerate().any(|(i, a)| v[..i].iter().any(|b| fold(a, at) == fold(b, at)));
        return Err(format!(
            "interface '{name}' uses {at}-byte keys; incoming needs {ni}, outgoing (with the error reply) needs {no}; collision at {at} bytes: incoming {}, outgoing {}",
            clash(&ins),
            clash(&outs)
        ));
    }
    c.count(
        match n {
            1 => "icd_len_1",
            2 => "icd_len_2",
            4 => "icd_len_4",
            _ => "icd_len_8",
        },
        1,
    );
    let mut eps = vec![];
    for (i, p) in info.eps.iter().enumerate() {
        let w = i as u32;
        eps.push(MEp {
            which: w,
            req: k(p),
            resp: r(p),
            spawned: false,
            f: Box::new(move |b| {
                let (t, raw) = de::<Rq>(b)?;
                Some((raw, postcard::to_stdvec(&f_rs(w, &t)).unwrap()))
            }),
        });
    }
    let tps = info.tin.iter().enumerate().map(|(i, p)| MTp { which: 100 + i as u32, key: k(p), spawned: false, f: Box::new(|b| de::<Rq>(b).map(|x| x.1)) }).collect();
    let m = Model { n, kk: n, eps, tps, map };
    let len = c.rng.range(4, 24);
    let mut script = gen_script(c, &m, len, NORMAL, 1024);
    // every message at every permitted length, for sure
    let mut s = 70_000u32;
    for key in &ins {
        for kl in KLENS {
            let body = postcard::to_stdvec(&rand_rq(c)).unwrap();
            script.push(RxItem::Frame(frame(key8(*key), kl, s, 4, &body)));
            s += 1;
        }
    }
    c.rng.shuffle(&mut script);
    for it in &script {
        // the reference itself relies on keys being collision free
        if let RxItem::Frame(f) = it {
            if dec(f).is_none() {
                continue;
            }
        }
    }
    // everything sent must be attributable to exactly one outgoing message
    let plan = no_plan();
    run_script(c, mk, &m, script, plan, RunOpts { gated: false, ends: false, drip: false })?;
    c.sig(crate::rng::hash_str(name));
    Ok(())
}

fn c03_dispatch(c: &mut Case) -> Result<(), String> {
    macro_rules! go {
        ($($m:ident),*) => {{
            const NAMES: &[&str] = &[$(stringify!($m)),*];
            let i = c.rng.below(NAMES.len());
            let mut j = 0;
            $(
                if i == j {
                    let (a, b, o) = $m::paths();
                    let mut s = Sched::new(c.rng.fork());
                    let map = $m::App::new(Ctx { link: slink(c.rng.fork()) }, SSpawn { sp: s.spawner(), link: slink(c.rng.fork()) }).device_map;
                    s.drop_all();
                    return c03_one(c, stringify!($m), CInfo { eps: a, tin: b, tout: o }, map, $m::App::new);
                }
                j += 1;
            )*
            let _ = j;
            Ok(())
        }};
    }
    go!(plain, none, in2, in2t, in4, in8, in8t, in8tt, out2, out2t, out4, out8, out8t, out8tt, err2, err4, err2t, err4t, mixed)
}
