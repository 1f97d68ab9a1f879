//! Compiled into both the host monitor (postcard-rpc with `use-std`) and the device probe
//! (postcard-rpc without it). Everything here must give the same answers in both.
//! The including crate provides `crate::rng::Rng` and `crate::probe_side::*`.
use crate::probe_side::*;
use crate::rng::Rng;
use postcard_rpc::header::{VarHeader, VarKey, VarKeyKind, VarSeq, VarSeqKind};
use postcard_rpc::server::{min_key_needed, Sender, SpawnContext, WireTx};
use postcard_rpc::standard_icd::*;
use postcard_rpc::{endpoints, topics, DeviceMap, Endpoint, Key, Key1, Key2, Key4, Topic, TopicDirection};
use postcard_schema::schema::NamedType;
use postcard_schema::Schema;
use serde::{de::DeserializeOwned, Deserialize, Serialize};

#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub struct P1 {
    pub a: u32,
    pub b: [u8; 4],
    pub c: Option<i16>,
}
#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub enum P2 {
    A,
    B(u64),
    C(u8, P1),
    D { x: i64, y: (u16, bool) },
    E(P3),
}
#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub struct P3(pub char);
#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub struct P4;
#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub struct P5(pub Result<P4, i8>, pub u128);
pub type Pair = [P1; 2];

endpoints! {
    list = P_EPS;
    | EndpointTy | RequestTy | ResponseTy | Path     |
    | ---------- | --------- | ---------- | ----     |
    | EpPA       | P1        | P2         | "p/a"    |
    | EpPB       | P2        | Pair       | "p/b"    |
    | EpPC       | ()        | u64        | "p/c"    |
    | EpPD       | P5        | P3         | "p/d"    |
    | EpPX       | u8        | P4         | "p/x"    |
}
topics! {
    list = P_TIN;
    direction = TopicDirection::ToServer;
    | TopicTy | MessageTy | Path     |
    | ------- | --------- | ----     |
    | TiP     | P1        | "p/t/in" |
}
topics! {
    list = P_TOUT;
    direction = TopicDirection::ToClient;
    | TopicTy | MessageTy | Path     |
    | ------- | --------- | ----     |
    | ToP     | P2        | "p/o/p"  |
    | ToQ     | P3        | "p/o/q"  |
}

pub fn f_a(r: &P1) -> P2 {
    match r.a % 5 {
        0 => P2::A,
        1 => P2::B(r.a as u64 * 1_000_003),
        2 => P2::C(r.b[0], r.clone()),
        3 => P2::D { x: -(r.a as i64), y: (u16::from_be_bytes([r.b[1], r.b[2]]), r.c.is_some()) },
        _ => P2::E(P3(char::from_u32(r.a % 0xD800).unwrap_or('x'))),
    }
}
pub fn f_b(r: &P2) -> Pair {
    let p = match r {
        P2::A => P1 { a: 1, b: [0; 4], c: None },
        P2::B(x) => P1 { a: *x as u32, b: (*x as u32).to_be_bytes(), c: Some(*x as i16) },
        P2::C(y, p) => P1 { a: p.a ^ *y as u32, ..p.clone() },
        P2::D { x, y } => P1 { a: *x as u32, b: [y.1 as u8; 4], c: Some(y.0 as i16) },
        P2::E(c) => P1 { a: c.0 as u32, b: [7; 4], c: None },
    };
    [p.clone(), P1 { a: !p.a, ..p }]
}
pub fn f_d(r: &P5) -> P3 {
    P3(char::from_u32((r.1 % 0xD000) as u32 + r.0.is_ok() as u32).unwrap())
}

pub struct PCtx {
    pub n: u64,
}
impl SpawnContext for PCtx {
    type SpawnCtxt = u64;
    fn spawn_ctxt(&mut self) -> u64 {
        self.n
    }
}
pub fn hp_a(_: &mut PCtx, _: VarHeader, r: P1) -> P2 {
    f_a(&r)
}
pub async fn hp_b(_: &mut PCtx, _: VarHeader, r: P2) -> Pair {
    f_b(&r)
}
pub fn hp_c(c: &mut PCtx, _: VarHeader, _: ()) -> u64 {
    c.n += 1;
    c.n
}
pub async fn hp_d<T: WireTx + Clone>(_: u64, h: VarHeader, r: P5, s: Sender<T>) {
    let _ = s.reply::<EpPD>(h.seq_no, &f_d(&r)).await;
}
pub async fn tp_in<T: WireTx>(_: &mut PCtx, h: VarHeader, r: P1, s: &Sender<T>) {
    let _ = s.publish::<ToP>(h.seq_no, &f_a(&r)).await;
    let _ = s.log_str(log_text(&r)).await;
    let _ = s.log_fmt(format_args!("fmt {} {:?}", r.a, r.c)).await;
}
pub fn log_text(r: &P1) -> &'static str {
    ["", "a", "log \u{1F600} text", "two\nlines \u{fc}", "a rather long line of text which takes more than one hundred and twenty seven bytes so that its length needs two bytes on the wire."][(r.a % 5) as usize]
}

#[macro_export]
macro_rules! probe_app {
    ($tx:ty, $sp:ty, $spawn_fn:ident) => {
        postcard_rpc::define_dispatch! {
            app: PApp;
            spawn_fn: $spawn_fn;
            tx_impl: $tx;
            spawn_impl: $sp;
            context: PCtx;
            endpoints: {
                list: P_EPS;
                | EndpointTy | kind     | handler |
                | ---------- | ----     | ------- |
                | EpPA       | blocking | hp_a    |
                | EpPB       | async    | hp_b    |
                | EpPC       | blocking | hp_c    |
                | EpPD       | spawn    | hp_d    |
            };
            topics_in: {
                list: P_TIN;
                | TopicTy | kind  | handler |
                | ------- | ----  | ------- |
                | TiP     | async | tp_in   |
            };
            topics_out: {
                list: P_TOUT;
            };
        }
    };
}

// ------------------------------------------------------------------ vectors

pub fn hx(b: &[u8]) -> String {
    let mut s = String::with_capacity(2 * b.len());
    for x in b {
        s.push(b"0123456789abcdef"[(x >> 4) as usize] as char);
        s.push(b"0123456789abcdef"[(x & 15) as usize] as char);
    }
    s
}
pub fn ser<T: Serialize + ?Sized>(t: &T) -> Vec<u8> {
    let mut buf = vec![0u8; 4096];
    postcard::to_slice(t, &mut buf).unwrap().to_vec()
}
fn kx(k: Key) -> String {
    hx(&k.to_bytes())
}
fn key(r: &mut Rng) -> Key {
    let mut b = [0u8; 8];
    for x in b.iter_mut() {
        *x = if r.chance(1, 3) { r.below(3) as u8 } else { r.u8() };
    }
    unsafe { Key::from_bytes(b) }
}
fn vkey(r: &mut Rng) -> VarKey {
    let k = key(r);
    match r.below(4) {
        0 => VarKey::Key1(Key1::from_key8(k)),
        1 => VarKey::Key2(Key2::from_key8(k)),
        2 => VarKey::Key4(Key4::from_key8(k)),
        _ => VarKey::Key8(k),
    }
}
fn vk_str(k: &VarKey) -> String {
    match k {
        VarKey::Key1(k) => hx(&[k.to_bytes()]),
        VarKey::Key2(k) => hx(&k.to_bytes()),
        VarKey::Key4(k) => hx(&k.to_bytes()),
        VarKey::Key8(k) => hx(&k.to_bytes()),
    }
}
fn hdr_str(h: &VarHeader) -> String {
    let s = match h.seq_no {
        VarSeq::Seq1(s) => format!("1:{s}"),
        VarSeq::Seq2(s) => format!("2:{s}"),
        VarSeq::Seq4(s) => format!("4:{s}"),
    };
    format!("{}/{s}", vk_str(&h.key))
}
fn vseq(r: &mut Rng) -> VarSeq {
    let v = match r.below(4) {
        0 => r.below(3) as u32,
        1 => r.below(70000) as u32,
        _ => r.u32(),
    };
    match r.below(3) {
        0 => VarSeq::Seq1(v as u8),
        1 => VarSeq::Seq2(v as u16),
        _ => VarSeq::Seq4(v),
    }
}
pub fn edge(r: &mut Rng) -> u32 {
    match r.below(5) {
        0 => 0,
        1 => 1 << r.below(32),
        2 => (1u32 << r.below(32)).wrapping_sub(1),
        3 => u32::MAX,
        _ => r.u32(),
    }
}
pub fn p1(r: &mut Rng) -> P1 {
    P1 { a: edge(r), b: edge(r).to_be_bytes(), c: if r.chance(1, 2) { Some(edge(r) as i16) } else { None } }
}
pub fn p2(r: &mut Rng) -> P2 {
    match r.below(5) {
        0 => P2::A,
        1 => P2::B(r.u64() >> r.below(64)),
        2 => P2::C(r.u8(), p1(r)),
        3 => P2::D { x: r.u64() as i64 >> r.below(64), y: (edge(r) as u16, r.chance(1, 2)) },
        _ => P2::E(P3(*r.pick(&['a', '\u{0}', '\u{7f}', '\u{80}', '\u{10ffff}', '\u{1F600}']))),
    }
}
pub fn p5(r: &mut Rng) -> P5 {
    let hi = r.u64() as u128;
    let lo = r.u64() as u128;
    P5(if r.chance(1, 2) { Ok(P4) } else { Err(r.u8() as i8) }, ((hi << 64) | lo) >> r.below(128))
}
pub fn werr(r: &mut Rng) -> WireError {
    match r.below(7) {
        0 => WireError::FrameTooLong(FrameTooLong { len: edge(r), max: edge(r) }),
        1 => WireError::FrameTooShort(FrameTooShort { len: edge(r) }),
        2 => WireError::DeserFailed,
        3 => WireError::SerFailed,
        4 => WireError::UnknownKey,
        5 => WireError::FailedToSpawn,
        _ => WireError::KeyTooSmall,
    }
}
pub fn totals(r: &mut Rng) -> SchemaTotals {
    SchemaTotals { types_sent: edge(r), endpoints_sent: edge(r), topics_in_sent: edge(r), topics_out_sent: edge(r), errors: edge(r) }
}
pub fn text(r: &mut Rng) -> String {
    let n = *r.pick(&[0usize, 1, 2, 5, 20, 40, 127, 128, 200]);
    (0..n).map(|_| *r.pick(&['a', 'Z', '0', ' ', '\u{fc}', '\u{20ac}', '\u{1F600}', '\u{0}'])).collect()
}
fn dec_as<T: DeserializeOwned + core::fmt::Debug>(b: &[u8]) -> String {
    match postcard::from_bytes::<T>(b) {
        Ok(v) => format!("{v:?}"),
        Err(_) => "refused".into(),
    }
}

pub static TYPES: &[&NamedType] = &[
    <bool as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <i16 as Schema>::SCHEMA, <i32 as Schema>::SCHEMA,
    <i64 as Schema>::SCHEMA, <i128 as Schema>::SCHEMA, <u16 as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA,
    <u128 as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <f64 as Schema>::SCHEMA, <char as Schema>::SCHEMA, <str as Schema>::SCHEMA,
    <() as Schema>::SCHEMA, <P1 as Schema>::SCHEMA, <P2 as Schema>::SCHEMA, <P3 as Schema>::SCHEMA, <P4 as Schema>::SCHEMA,
    <P5 as Schema>::SCHEMA, <Pair as Schema>::SCHEMA, <[P2] as Schema>::SCHEMA, <Option<Option<P5>> as Schema>::SCHEMA,
    <(u8, P1, (P2, P3)) as Schema>::SCHEMA, <Key as Schema>::SCHEMA, <NamedType as Schema>::SCHEMA, <WireError as Schema>::SCHEMA,
    <SchemaTotals as Schema>::SCHEMA, <TopicDirection as Schema>::SCHEMA, <FrameTooLong as Schema>::SCHEMA,
    <Result<P1, WireError> as Schema>::SCHEMA, <core::ops::Range<u16> as Schema>::SCHEMA,
];

fn ep_keys<E: Endpoint>(o: &mut Vec<String>, n: &str) {
    o.push(format!("{n} {} {} {} {} {}", E::PATH, kx(E::REQ_KEY), hx(&E::REQ_KEY4.to_bytes()), hx(&E::REQ_KEY2.to_bytes()), E::REQ_KEY1.to_bytes()));
    o.push(format!("{n} {} {} {} {}", kx(E::RESP_KEY), hx(&E::RESP_KEY4.to_bytes()), hx(&E::RESP_KEY2.to_bytes()), E::RESP_KEY1.to_bytes()));
}
fn tp_keys<E: Topic + ?Sized>(o: &mut Vec<String>, n: &str) {
    o.push(format!("{n} {} {} {} {} {}", E::PATH, kx(E::TOPIC_KEY), hx(&E::TOPIC_KEY4.to_bytes()), hx(&E::TOPIC_KEY2.to_bytes()), E::TOPIC_KEY1.to_bytes()));
}

/// facts that do not depend on the seed
pub fn constants(map: &DeviceMap) -> Vec<String> {
    let mut o = vec![];
    o.push(format!("error {ERROR_PATH} {}", kx(ERROR_KEY)));
    ep_keys::<PingEndpoint>(&mut o, "ping");
    ep_keys::<GetAllSchemasEndpoint>(&mut o, "schemas");
    tp_keys::<GetAllSchemaDataTopic>(&mut o, "schemadata");
    tp_keys::<LoggingTopic>(&mut o, "logging");
    ep_keys::<EpPA>(&mut o, "EpPA");
    ep_keys::<EpPB>(&mut o, "EpPB");
    ep_keys::<EpPC>(&mut o, "EpPC");
    ep_keys::<EpPD>(&mut o, "EpPD");
    ep_keys::<EpPX>(&mut o, "EpPX");
    tp_keys::<TiP>(&mut o, "TiP");
    tp_keys::<ToP>(&mut o, "ToP");
    tp_keys::<ToQ>(&mut o, "ToQ");
    for (n, l) in [("std", &STANDARD_ICD_ENDPOINTS), ("P", &P_EPS)] {
        for e in l.endpoints {
            o.push(format!("list {n} ep {} {} {}", e.0, kx(e.1), kx(e.2)));
        }
    }
    for (n, l) in [("stdin", &STANDARD_ICD_TOPICS_IN), ("stdout", &STANDARD_ICD_TOPICS_OUT), ("Pin", &P_TIN), ("Pout", &P_TOUT)] {
        o.push(format!("list {n} dir {:?} {}", l.direction, hx(&ser(&l.direction))));
        for e in l.topics {
            o.push(format!("list {n} topic {} {}", e.0, kx(e.1)));
        }
    }
    for e in map.endpoints {
        o.push(format!("map ep {} {} {}", e.0, kx(e.1), kx(e.2)));
    }
    for e in map.topics_in {
        o.push(format!("map tin {} {}", e.0, kx(e.1)));
    }
    for e in map.topics_out {
        o.push(format!("map tout {} {}", e.0, kx(e.1)));
    }
    o.push(format!("map kk {:?} types {}", map.min_key_len, map.types.len()));
    for t in TYPES {
        o.push(format!("type {} {}", t.name, hx(&sd_type(t))));
    }
    for d in [TopicDirection::ToServer, TopicDirection::ToClient] {
        o.push(format!("dir {:?} {}", d, hx(&ser(&d))));
    }
    o
}

/// answers that depend on random inputs
pub fn vectors(seed: u64, n: u64) -> Vec<String> {
    let mut o = vec![];
    let r = &mut Rng::new(seed);
    for _ in 0..n {
        // headers
        let h = VarHeader { key: vkey(r), seq_no: vseq(r) };
        let mut buf = vec![0xA5u8; r.below(16)];
        let l = buf.len();
        let w = h.write_to_slice(&mut buf).map(|(a, b)| (a.to_vec(), b.len()));
        o.push(format!("write {} {l} {w:?}", hdr_str(&h)));
        let len = r.below(18);
        let mut b = r.bytes(len);
        if len > 0 && r.chance(3, 4) {
            b[0] &= 0xF0;
        }
        let t = VarHeader::take_from_slice(&b).map(|(h, rest)| (hdr_str(&h), rest.len()));
        o.push(format!("take {} {t:?}", hx(&b)));
        // keys
        let k = key(r);
        let (k4, k2, k1) = (Key4::from_key8(k), Key2::from_key8(k), Key1::from_key8(k));
        o.push(format!("fold {} {} {} {}", kx(k), hx(&k4.to_bytes()), hx(&k2.to_bytes()), k1.to_bytes()));
        o.push(format!("fold2 {} {} {}", hx(&Key2::from_key4(k4).to_bytes()), Key1::from_key4(k4).to_bytes(), Key1::from_key2(k2).to_bytes()));
        let (mut x, y) = (vkey(r), vkey(r));
        o.push(format!("eq {} {} {}", vk_str(&x), vk_str(&y), x == y));
        x.shrink_to(*r.pick(&[VarKeyKind::Key1, VarKeyKind::Key2, VarKeyKind::Key4, VarKeyKind::Key8]));
        o.push(format!("shrink {}", vk_str(&x)));
        o.push(format!("as {:?} {:?} {:?} {:?}", Key1::try_from(&y).ok().map(|k| k.to_bytes()), Key2::try_from(&y).ok().map(|k| k.to_bytes()), Key4::try_from(&y).ok().map(|k| k.to_bytes()), Key::try_from(&y).ok().map(|k| k.to_bytes())));
        let mut s = vseq(r);
        let s2 = vseq(r);
        let e = s == s2;
        s.resize(*r.pick(&[VarSeqKind::Seq1, VarSeqKind::Seq2, VarSeqKind::Seq4]));
        o.push(format!("seq {s:?} {e}"));
        let set: Vec<Key> = {
            // always distinct in full
            let m = r.range(1, 6);
            (0..m).map(|i| { let mut b = key(r).to_bytes(); b[7] = (b[7] & 0xF0) | i as u8; b[6] ^= i as u8 * (r.below(2) as u8); unsafe { Key::from_bytes(b) } }).collect()
        };
        let cut = r.below(set.len() + 1);
        o.push(format!("min {}", min_key_needed(&[&set[..cut], &set[cut..]])));
        // standard messages
        let we = werr(r);
        o.push(format!("werr {we:?} {}", hx(&ser(&we))));
        let st = totals(r);
        o.push(format!("totals {st:?} {}", hx(&ser(&st))));
        let v = edge(r);
        o.push(format!("ping {v} {}", hx(&ser::<<PingEndpoint as Endpoint>::Request>(&v))));
        let s = text(r);
        o.push(format!("log {} {}", hx(s.as_bytes()), hx(&log_bytes(&s))));
        let s = text(r);
        let (a, b2) = (key(r), key(r));
        o.push(format!("sdep {}", hx(&sd_ep(&s, a, b2))));
        o.push(format!("sdtp {}", hx(&sd_tp(&s, a, if r.chance(1, 2) { TopicDirection::ToServer } else { TopicDirection::ToClient }))));
        // decoding
        let len = r.below(12);
        let mut b = r.bytes(len);
        if len > 0 && r.chance(2, 3) {
            b[0] %= 9;
        }
        o.push(format!("dwerr {} {}", hx(&b), dec_as::<WireError>(&b)));
        o.push(format!("dtotals {}", dec_as::<SchemaTotals>(&b)));
        o.push(format!("dping {}", dec_as::<u32>(&b)));
        o.push(format!("ddir {}", dec_as::<TopicDirection>(&b)));
        // interface messages
        let (a, b3, c) = (p1(r), p2(r), p5(r));
        o.push(format!("p {} {} {}", hx(&ser(&a)), hx(&ser(&b3)), hx(&ser(&c))));
        o.push(format!("f {} {} {}", hx(&ser(&f_a(&a))), hx(&ser(&f_b(&b3))), hx(&ser(&f_d(&c)))));
        o.push(format!("dp {} {} {}", dec_as::<P1>(&b), dec_as::<P2>(&b), dec_as::<P5>(&b)));
    }
    o
}
