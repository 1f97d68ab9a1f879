// shared by every generated program
#![allow(dead_code, unused)]
pub use postcard_rpc::header::{VarHeader, VarKey, VarKeyKind, VarSeq};
pub use postcard_rpc::server::impls::test_channels::{dispatch_impl::*, ChannelWireRx, ChannelWireSpawn, ChannelWireTx};
pub use postcard_rpc::server::{Dispatch, Sender, SpawnContext};
pub use postcard_rpc::standard_icd::WireError;
pub use postcard_rpc::{define_dispatch, endpoints, topics, DeviceMap, Endpoint, Key, Topic, TopicDirection};
pub use postcard_schema::Schema;
pub use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};

#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub struct Rq {
    pub id: u32,
    pub data: Vec<u8>,
}
#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub struct Rs {
    pub who: u64,
    pub inner: Option<Rq>,
}
#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub enum Choice {
    Unit,
    New(u16),
    Tup(u8, String),
    Struct { a: i64, b: Option<Rq> },
}
#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub struct Bo<'a> {
    pub s: &'a str,
    pub n: u16,
}
#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub struct Bo2<'a, 'b> {
    pub s: &'a str,
    pub t: &'b str,
}
#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub struct Nothing;
pub type Bytes = Vec<u8>;
pub type OptA = Option<u16>;

pub trait Smp: Serialize {
    fn smp(i: u64) -> Self;
}
const WORDS: [&str; 5] = ["", "a", "zwölf", "a longer text than most", "\u{1F600}"];
macro_rules! smp { ($($t:ty, $i:ident => $e:expr;)*) => { $(impl Smp for $t { fn smp($i: u64) -> Self { $e } })* } }
smp! {
    u8, i => i as u8;
    u32, i => (i as u32).wrapping_mul(2654435761);
    i64, i => i as i64 * -7919;
    bool, i => i & 1 == 1;
    String, i => format!("{}{i}", WORDS[i as usize % 5]);
    (), _i => ();
    Nothing, _i => Nothing;
    Bytes, i => vec![i as u8; i as usize % 40];
    OptA, i => if i % 3 == 0 { None } else { Some(i as u16) };
    (u8, u16), i => (i as u8, i as u16 ^ 0x5a5a);
    [u8; 4], i => (i as u32).to_be_bytes();
    Rq, i => Rq { id: i as u32, data: vec![i as u8; i as usize % 5] };
    Rs, i => Rs { who: i, inner: if i % 2 == 0 { None } else { Some(Rq::smp(i)) } };
    Choice, i => match i % 4 { 0 => Choice::Unit, 1 => Choice::New(i as u16), 2 => Choice::Tup(i as u8, String::smp(i)), _ => Choice::Struct { a: i as i64, b: Some(Rq::smp(i)) } };
    Bo<'static>, i => Bo { s: WORDS[i as usize % 5], n: i as u16 };
    Bo2<'static, 'static>, i => Bo2 { s: WORDS[i as usize % 5], t: WORDS[i as usize / 5 % 5] };
}
pub fn ser<T: Serialize + ?Sized>(t: &T) -> Vec<u8> {
    postcard::to_stdvec(t).unwrap()
}

/// what a handler was given: its number, whether it ran in a task of its own, header, body
type Note = (usize, bool, Vec<u8>, Vec<u8>);
#[derive(Clone, Default)]
pub struct Ctx(Arc<Mutex<Vec<Note>>>);
impl Ctx {
    pub fn note<T: Serialize>(&self, idx: usize, h: &VarHeader, r: &T) {
        let own = tokio::task::try_id().is_some();
        self.0.lock().unwrap().push((idx, own, h.write_to_vec(), ser(r)));
    }
}
impl SpawnContext for Ctx {
    type SpawnCtxt = Ctx;
    fn spawn_ctxt(&mut self) -> Ctx {
        self.clone()
    }
}

pub struct H {
    pub idx: usize,
    pub key: Key,
    /// response key and body, for endpoints
    pub resp: Option<(Key, Vec<u8>)>,
    pub own_task: bool,
    pub body: fn(u64) -> Vec<u8>,
}
/// declared but without a handler
pub struct Un {
    pub key: Key,
}
pub struct Decl {
    pub eps: Vec<(&'static str, Key, Key)>,
    pub tin: Vec<(&'static str, Key)>,
    pub tout: Vec<(&'static str, Key)>,
}

fn fold(k: &Key, n: usize) -> Vec<u8> {
    k.to_bytes().chunks(8 / n).map(|c| c.iter().fold(0, |a, b| a ^ b)).collect()
}
fn hdr(k: &Key, kl: usize, seq: u32, sl: usize) -> Vec<u8> {
    let kc = match kl { 1 => 0u8, 2 => 1, 4 => 2, _ => 3 };
    let sc = match sl { 1 => 0u8, 2 => 1, _ => 2 };
    let mut v = vec![kc << 6 | sc << 4];
    v.extend(fold(k, kl));
    v.extend_from_slice(&seq.to_le_bytes()[..sl]);
    v
}
fn needed(sets: &[Vec<Key>]) -> usize {
    for n in [1, 2, 4, 8] {
        let ok = sets.iter().all(|s| {
            let mut v: Vec<_> = s.iter().map(|k| fold(k, n)).collect();
            v.sort();
            v.windows(2).all(|w| w[0] != w[1])
        });
        if ok {
            return n;
        }
    }
    panic!("generator: colliding full keys")
}
fn kl(k: VarKeyKind) -> usize {
    match k {
        VarKeyKind::Key1 => 1,
        VarKeyKind::Key2 => 2,
        VarKeyKind::Key4 => 4,
        VarKeyKind::Key8 => 8,
    }
}
fn rng(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn drive<D: Dispatch<Tx = ChannelWireTx>>(name: &str, seed: u64, d: Decl, hs: Vec<H>, uns: Vec<Un>, mk: fn(Ctx, ChannelWireSpawn) -> D, map: fn(&D) -> &'static DeviceMap) -> Result<(), String> {
    let std_e = postcard_rpc::standard_icd::STANDARD_ICD_ENDPOINTS.endpoints;
    let std_o = postcard_rpc::standard_icd::STANDARD_ICD_TOPICS_OUT.topics;
    let ctx = Ctx::default();
    let app = mk(ctx.clone(), ChannelWireSpawn);
    let m = map(&app);

    // the device map: exactly what is declared
    let mut we: Vec<_> = std_e.iter().chain(&d.eps).map(|e| (e.0, e.1.to_bytes(), e.2.to_bytes())).collect();
    let mut ge: Vec<_> = m.endpoints.iter().map(|e| (e.0, e.1.to_bytes(), e.2.to_bytes())).collect();
    we.sort();
    ge.sort();
    if we != ge {
        return Err(format!("device map lists endpoints {ge:?}, declared are {we:?}"));
    }
    for (n, g, w) in [("incoming", m.topics_in, d.tin.clone()), ("outgoing", m.topics_out, std_o.iter().copied().chain(d.tout.iter().copied()).collect())] {
        let mut g: Vec<_> = g.iter().map(|t| (t.0, t.1.to_bytes())).collect();
        let mut w: Vec<_> = w.iter().map(|t| (t.0, t.1.to_bytes())).collect();
        g.sort();
        w.sort();
        if g != w {
            return Err(format!("device map lists {n} topics {g:?}, declared are {w:?}"));
        }
    }
    // the key length
    let kin: Vec<Key> = std_e.iter().chain(&d.eps).map(|e| e.1).chain(d.tin.iter().map(|t| t.1)).collect();
    let kout: Vec<Key> = std_e.iter().chain(&d.eps).map(|e| e.2).chain(std_o.iter().chain(&d.tout).map(|t| t.1)).chain([postcard_rpc::standard_icd::ERROR_KEY]).collect();
    let n = needed(&[kin, kout]);
    if kl(app.min_key_len()) != n || kl(m.min_key_len) != n {
        return Err(format!("key length {} (device map {}), needed is {n}", kl(app.min_key_len()), kl(m.min_key_len)));
    }
    // every handler, with every key length that is long enough
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let mut s = seed;
    let (mut nreq, mut nerr) = (0, 0);
    rt.block_on(async {
        let (itx, irx) = tokio::sync::mpsc::channel(4);
        let (otx, mut orx) = tokio::sync::mpsc::channel(64);
        let kk = [VarKeyKind::Key1, VarKeyKind::Key2, VarKeyKind::Key4, VarKeyKind::Key8].into_iter().find(|k| kl(*k) == n).unwrap();
        let mut srv = new_server(app, Settings { tx: ChannelWireTx::new(otx), rx: ChannelWireRx::new(irx), buf: 1024, kkind: kk });
        let drv = async {
            let mut seq = 0u32;
            let mut order: Vec<(usize, usize)> = vec![];
            for round in 0..3 {
                for i in 0..hs.len() {
                    order.push((round, i));
                }
            }
            for i in (1..order.len()).rev() {
                order.swap(i, rng(&mut s) as usize % (i + 1));
            }
            for (_, i) in order {
                let h = &hs[i];
                let ks: Vec<usize> = [1, 2, 4, 8].into_iter().filter(|k| *k >= n).collect();
                let k = ks[rng(&mut s) as usize % ks.len()];
                let sl = [1, 2, 4][rng(&mut s) as usize % 3];
                seq += 1;
                let sq = seq & if sl == 1 { 0xff } else { 0xffff };
                let b = (h.body)(rng(&mut s) % 1000);
                let hd = hdr(&h.key, k, sq, sl);
                let mut f = hd.clone();
                f.extend(&b);
                itx.send(f.clone()).await.unwrap();
                tokio::time::sleep(std::time::Duration::from_millis(1)).await;
                let notes = std::mem::take(&mut *ctx.0.lock().unwrap());
                if notes != [(h.idx, h.own_task, hd, b)] {
                    return Err(format!("request {f:02x?} for handler {}: handlers saw {notes:?}", h.idx));
                }
                let mut out = vec![];
                while let Ok(f) = orx.try_recv() {
                    out.push(f);
                }
                let want: Vec<Vec<u8>> = h.resp.iter().map(|(rk, rb)| {
                    let mut v = hdr(rk, n, sq, sl);
                    v.extend(rb);
                    v
                }).collect();
                if out != want {
                    return Err(format!("request {f:02x?} for handler {}: answered {out:02x?}, expected {want:02x?}", h.idx));
                }
                nreq += 1;
            }
            // declared without a handler, and keys that are too short
            let mut bad: Vec<(Vec<u8>, u32, WireError)> = vec![];
            for u in &uns {
                seq += 1;
                bad.push((hdr(&u.key, 8, seq, 4), seq, WireError::UnknownKey));
            }
            for k in [1, 2, 4].into_iter().filter(|k| *k < n) {
                for h in &hs {
                    seq += 1;
                    bad.push((hdr(&h.key, k, seq, 4), seq, WireError::KeyTooSmall));
                }
            }
            for (f, sq, e) in bad {
                itx.send(f.clone()).await.unwrap();
                tokio::time::sleep(std::time::Duration::from_millis(1)).await;
                let notes = std::mem::take(&mut *ctx.0.lock().unwrap());
                let mut w = hdr(&postcard_rpc::standard_icd::ERROR_KEY, n, sq, 4);
                w.extend(ser(&e));
                let got = orx.try_recv();
                if !notes.is_empty() || got.as_ref() != Ok(&w) {
                    return Err(format!("request {f:02x?}: handlers saw {notes:?}, answered {got:02x?}, expected {w:02x?}"));
                }
                nerr += 1;
            }
            Ok(())
        };
        tokio::select! {
            r = drv => r,
            _ = srv.run() => Err("the server stopped".to_string()),
        }
    })?;
    println!("OK {name} key_length={n} handlers={} requests={nreq} refused={nerr} types={}", hs.len(), m.types.len());
    Ok(())
}
pub fn main_of(v: &[(&str, fn() -> Result<(), String>)]) {
    for (n, f) in v {
        match std::panic::catch_unwind(f) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => println!("VIOL {n}: {e}"),
            Err(p) => println!("VIOL {n}: panic {:?}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()))),
        }
    }
}
