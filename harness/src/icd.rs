//! Interfaces under test: one ordinary interface and a family engineered to collide at chosen
//! key lengths (paths found by search), all through the real macros.
use crate::refc::*;
use crate::report::Case;
use crate::ssim::*;
use postcard_rpc::header::VarHeader;
use postcard_rpc::server::{Sender, SpawnContext, WireTx};
use postcard_rpc::{define_dispatch, endpoints, topics, Endpoint, Topic, TopicDirection};
use postcard_schema::Schema;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub struct Rq {
    pub id: u32,
    pub data: Vec<u8>,
}
#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub struct Rs {
    pub who: u32,
    pub id: u32,
    pub data: Vec<u8>,
}
#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub enum Choice {
    Unit,
    New(u16),
    Tup(u8, String),
    Struct { a: i64, b: Option<Rq> },
}
pub type Bytes = Vec<u8>;

endpoints! {
    list = M_EPS;
    | EndpointTy | RequestTy | ResponseTy | Path     |
    | ---------- | --------- | ---------- | ----     |
    | EpBlk      | Rq        | Rs         | "m/blk"  |
    | EpAsy      | Rq        | Rs         | "m/asy"  |
    | EpSpn      | Rq        | Rs         | "m/spn"  |
    | EpStr      | String    | String     | "m/str"  |
    | EpBig      | u32       | Bytes      | "m/big"  |
    | EpUnit     | ()        | ()         | "m/unit" |
    | EpChoice   | Choice    | Choice     | "m/choice" |
    | EpSpn2     | Choice    | u64        | "m/spn2" |
}
topics! {
    list = M_TIN;
    direction = TopicDirection::ToServer;
    | TopicTy | MessageTy | Path      |
    | ------- | --------- | ----      |
    | TiBlk   | Rq        | "m/t/blk" |
    | TiAsy   | Rq        | "m/t/asy" |
    | TiSpn   | Rq        | "m/t/spn" |
    | TiStr   | String    | "m/t/str" |
}
topics! {
    list = M_TOUT;
    direction = TopicDirection::ToClient;
    | TopicTy | MessageTy | Path     |
    | ------- | --------- | ----     |
    | ToA     | Rs        | "m/o/a"  |
    | ToB     | String    | "m/o/b"  |
    | ToC     | u32       | "m/o/cc" |
    | ToD     | Choice    | "m/o/d"  |
}

pub const W_BLK: u32 = 0;
pub const W_ASY: u32 = 1;
pub const W_SPN: u32 = 2;
pub const W_STR: u32 = 3;
pub const W_BIG: u32 = 4;
pub const W_UNIT: u32 = 5;
pub const W_CHOICE: u32 = 6;
pub const W_SPN2: u32 = 7;
pub const W_TBLK: u32 = 100;
pub const W_TASY: u32 = 101;
pub const W_TSPN: u32 = 102;
pub const W_TSTR: u32 = 103;

pub struct Ctx {
    pub link: SLink,
}
impl SpawnContext for Ctx {
    type SpawnCtxt = SLink;
    fn spawn_ctxt(&mut self) -> SLink {
        self.link.clone()
    }
}
pub fn started<T: Serialize>(l: &SLink, which: u32, hdr: &VarHeader, req: &T) {
    l.lock().unwrap().log.push(Ev::Start { which, hdr: rhdr(hdr), req: postcard::to_stdvec(req).unwrap() });
}
pub fn ended(l: &SLink, which: u32, hdr: &VarHeader) {
    l.lock().unwrap().log.push(Ev::End { which, hdr: rhdr(hdr) });
}

// pure response functions: the oracle uses them too
pub fn f_rs(which: u32, r: &Rq) -> Rs {
    let mut data = r.data.clone();
    data.reverse();
    data.push(which as u8);
    Rs { who: which, id: r.id, data }
}
pub fn f_str(s: &str) -> String {
    format!("<{s}>")
}
pub fn f_big(n: u32) -> Vec<u8> {
    (0..n).map(|i| (i * 7 + n) as u8).collect()
}
pub fn f_choice(c: &Choice) -> Choice {
    match c {
        Choice::Unit => Choice::New(1),
        Choice::New(n) => Choice::Tup(*n as u8, n.to_string()),
        Choice::Tup(a, s) => Choice::Struct { a: *a as i64, b: Some(Rq { id: s.len() as u32, data: s.bytes().collect() }) },
        Choice::Struct { .. } => Choice::Unit,
    }
}
pub fn f_spn2(c: &Choice) -> u64 {
    postcard::to_stdvec(c).unwrap().iter().fold(7, |a, b| a * 31 % 1_000_003 + *b as u64)
}

pub fn h_blk(c: &mut Ctx, h: VarHeader, r: Rq) -> Rs {
    started(&c.link, W_BLK, &h, &r);
    ended(&c.link, W_BLK, &h);
    f_rs(W_BLK, &r)
}
pub async fn h_asy(c: &mut Ctx, h: VarHeader, r: Rq) -> Rs {
    started(&c.link, W_ASY, &h, &r);
    rand_yields(&c.link).await;
    ended(&c.link, W_ASY, &h);
    f_rs(W_ASY, &r)
}
pub async fn h_spn<T: WireTx + Clone>(l: SLink, h: VarHeader, r: Rq, s: Sender<T>) {
    started(&l, W_SPN, &h, &r);
    gate(&l).await;
    rand_yields(&l).await;
    ended(&l, W_SPN, &h);
    let _ = s.reply::<EpSpn>(h.seq_no, &f_rs(W_SPN, &r)).await;
}
pub async fn h_spn2<T: WireTx + Clone>(l: SLink, h: VarHeader, r: Choice, s: Sender<T>) {
    started(&l, W_SPN2, &h, &r);
    rand_yields(&l).await;
    ended(&l, W_SPN2, &h);
    let _ = s.reply::<EpSpn2>(h.seq_no, &f_spn2(&r)).await;
}
pub fn h_str(c: &mut Ctx, h: VarHeader, r: String) -> String {
    started(&c.link, W_STR, &h, &r);
    ended(&c.link, W_STR, &h);
    f_str(&r)
}
pub async fn h_big(c: &mut Ctx, h: VarHeader, r: u32) -> Vec<u8> {
    started(&c.link, W_BIG, &h, &r);
    rand_yields(&c.link).await;
    ended(&c.link, W_BIG, &h);
    f_big(r.min(100_000))
}
pub fn h_unit(c: &mut Ctx, h: VarHeader, r: ()) {
    started(&c.link, W_UNIT, &h, &r);
    ended(&c.link, W_UNIT, &h);
}
pub async fn h_choice(c: &mut Ctx, h: VarHeader, r: Choice) -> Choice {
    started(&c.link, W_CHOICE, &h, &r);
    rand_yields(&c.link).await;
    ended(&c.link, W_CHOICE, &h);
    f_choice(&r)
}
pub fn t_blk<T: WireTx>(c: &mut Ctx, h: VarHeader, r: Rq, _s: &Sender<T>) {
    started(&c.link, W_TBLK, &h, &r);
    ended(&c.link, W_TBLK, &h);
}
pub async fn t_asy<T: WireTx>(c: &mut Ctx, h: VarHeader, r: Rq, _s: &Sender<T>) {
    started(&c.link, W_TASY, &h, &r);
    rand_yields(&c.link).await;
    ended(&c.link, W_TASY, &h);
}
pub async fn t_spn<T: WireTx>(l: SLink, h: VarHeader, r: Rq, _s: Sender<T>) {
    started(&l, W_TSPN, &h, &r);
    gate(&l).await;
    rand_yields(&l).await;
    ended(&l, W_TSPN, &h);
}
pub fn t_str<T: WireTx>(c: &mut Ctx, h: VarHeader, r: String, _s: &Sender<T>) {
    started(&c.link, W_TSTR, &h, &r);
    ended(&c.link, W_TSTR, &h);
}

macro_rules! main_app {
    ($m:ident, $tx:ty, $sp:ty, $spawn_fn:ident) => {
        pub mod $m {
            use super::*;
            define_dispatch! {
                app: App;
                spawn_fn: $spawn_fn;
                tx_impl: $tx;
                spawn_impl: $sp;
                context: Ctx;
                endpoints: {
                    list: M_EPS;
                    | EndpointTy | kind     | handler  |
                    | ---------- | ----     | -------  |
                    | EpBlk      | blocking | h_blk    |
                    | EpAsy      | async    | h_asy    |
                    | EpSpn      | spawn    | h_spn    |
                    | EpStr      | blocking | h_str    |
                    | EpBig      | async    | h_big    |
                    | EpUnit     | blocking | h_unit   |
                    | EpChoice   | async    | h_choice |
                    | EpSpn2     | spawn    | h_spn2   |
                };
                topics_in: {
                    list: M_TIN;
                    | TopicTy | kind     | handler |
                    | ------- | ----     | ------- |
                    | TiBlk   | blocking | t_blk   |
                    | TiAsy   | async    | t_asy   |
                    | TiSpn   | spawn    | t_spn   |
                    | TiStr   | blocking | t_str   |
                };
                topics_out: {
                    list: M_TOUT;
                };
            }
            pub type App1 = impls::App<1>;
            pub type App2 = impls::App<2>;
            pub type App4 = impls::App<4>;
            pub type App8 = impls::App<8>;
        }
    };
}
main_app!(st, STx, SSpawn, s_spawn);

// the same application over the library's own channel transport
pub use postcard_rpc::server::impls::test_channels::dispatch_impl as chd;
use chd::spawn_fn as ch_spawn;
main_app!(ch, chd::WireTxImpl, chd::WireSpawnImpl, ch_spawn);

/// everything the oracle needs to know about a message of the main interface
pub struct EpInfo {
    pub which: u32,
    pub path: &'static str,
    pub req: [u8; 8],
    pub resp: [u8; 8],
    pub spawned: bool,
}
pub fn main_eps() -> Vec<EpInfo> {
    macro_rules! e {
        ($w:expr, $t:ty, $s:expr) => {
            EpInfo { which: $w, path: <$t>::PATH, req: <$t>::REQ_KEY.to_bytes(), resp: <$t>::RESP_KEY.to_bytes(), spawned: $s }
        };
    }
    vec![
        e!(W_BLK, EpBlk, false),
        e!(W_ASY, EpAsy, false),
        e!(W_SPN, EpSpn, true),
        e!(W_STR, EpStr, false),
        e!(W_BIG, EpBig, false),
        e!(W_UNIT, EpUnit, false),
        e!(W_CHOICE, EpChoice, false),
        e!(W_SPN2, EpSpn2, true),
    ]
}
pub fn main_tin() -> Vec<(u32, [u8; 8], bool)> {
    vec![
        (W_TBLK, TiBlk::TOPIC_KEY.to_bytes(), false),
        (W_TASY, TiAsy::TOPIC_KEY.to_bytes(), false),
        (W_TSPN, TiSpn::TOPIC_KEY.to_bytes(), true),
        (W_TSTR, TiStr::TOPIC_KEY.to_bytes(), false),
    ]
}

// ------------------------------------------------------------------ colliding family

pub fn h0(c: &mut Ctx, h: VarHeader, r: Rq) -> Rs {
    started(&c.link, 0, &h, &r);
    f_rs(0, &r)
}
pub fn h1(c: &mut Ctx, h: VarHeader, r: Rq) -> Rs {
    started(&c.link, 1, &h, &r);
    f_rs(1, &r)
}
pub fn h2(c: &mut Ctx, h: VarHeader, r: Rq) -> Rs {
    started(&c.link, 2, &h, &r);
    f_rs(2, &r)
}
pub fn t0(c: &mut Ctx, h: VarHeader, r: Rq, _s: &Sender<STx>) {
    started(&c.link, 100, &h, &r);
}
pub fn t1(c: &mut Ctx, h: VarHeader, r: Rq, _s: &Sender<STx>) {
    started(&c.link, 101, &h, &r);
}

macro_rules! cicd {
    ($m:ident; eps: $( ($e:ident, $ep:literal, $eh:ident) )*; tin: $( ($t:ident, $tp:literal, $th:ident) )*; tout: $( ($o:ident, $op:literal) )*;) => {
        pub mod $m {
            use super::*;
            endpoints! {
                list = EPS;
                | EndpointTy | RequestTy | ResponseTy | Path |
                | ---------- | --------- | ---------- | ---- |
                $( | $e | Rq | Rs | $ep | )*
            }
            topics! {
                list = TIN;
                direction = TopicDirection::ToServer;
                | TopicTy | MessageTy | Path |
                | ------- | --------- | ---- |
                $( | $t | Rq | $tp | )*
            }
            topics! {
                list = TOUT;
                direction = TopicDirection::ToClient;
                | TopicTy | MessageTy | Path |
                | ------- | --------- | ---- |
                $( | $o | Rs | $op | )*
            }
            define_dispatch! {
                app: App;
                spawn_fn: s_spawn;
                tx_impl: STx;
                spawn_impl: SSpawn;
                context: Ctx;
                endpoints: {
                    list: EPS;
                    | EndpointTy | kind | handler |
                    | ---------- | ---- | ------- |
                    $( | $e | blocking | $eh | )*
                };
                topics_in: {
                    list: TIN;
                    | TopicTy | kind | handler |
                    | ------- | ---- | ------- |
                    $( | $t | blocking | $th | )*
                };
                topics_out: {
                    list: TOUT;
                };
            }
            pub fn paths() -> (Vec<&'static str>, Vec<&'static str>, Vec<&'static str>) {
                (vec![$($ep),*], vec![$($tp),*], vec![$($op),*])
            }
        }
    };
}

cicd! { plain; eps: (A, "c/plain/a", h0) (B, "c/plain/b", h1); tin: (T, "c/plain/t", t0); tout: (O, "c/plain/o"); }
cicd! { none; eps: ; tin: ; tout: ; }
cicd! { in2; eps: (A, "c/ping_in2/42", h0) (B, "c/plain/b", h1); tin: (T, "c/plain/t", t0); tout: ; }
cicd! { in2t; eps: (B, "c/plain/b", h0); tin: (T, "c/ping_in2/42", t0); tout: ; }
cicd! { in4; eps: (A, "c/sch_in4/23305", h0) (B, "c/plain/b", h1); tin: ; tout: ; }
cicd! { in8; eps: (A, "c/in8/50622", h0) (B, "c/in8/36315", h1); tin: ; tout: ; }
cicd! { in8t; eps: (A, "c/in8/50622", h0); tin: (T, "c/in8/36315", t0); tout: ; }
cicd! { in8tt; eps: ; tin: (T, "c/in8/135847", t0) (U, "c/in8/64987", t1); tout: ; }
cicd! { out2; eps: (A, "c/log_out2/14", h0) (B, "c/plain/b", h1); tin: ; tout: ; }
cicd! { out2t; eps: (B, "c/plain/b", h0); tin: ; tout: (O, "c/log_out2/14"); }
cicd! { out4; eps: (A, "c/sd_out4/90310", h0); tin: ; tout: ; }
cicd! { out8; eps: (A, "c/out8/140685", h0) (B, "c/out8/62047", h1); tin: ; tout: ; }
cicd! { out8t; eps: (A, "c/out8/140685", h0); tin: ; tout: (O, "c/out8/62047"); }
cicd! { out8tt; eps: ; tin: ; tout: (O, "c/out8/164317") (P, "c/out8/72185"); }
cicd! { err2; eps: (A, "c/err2/860", h0) (B, "c/plain/b", h1); tin: ; tout: ; }
cicd! { err4; eps: (A, "c/err4/1507", h0); tin: ; tout: ; }
cicd! { err2t; eps: (B, "c/plain/b", h0); tin: ; tout: (O, "c/t/412"); }
cicd! { err4t; eps: ; tin: ; tout: (O, "c/t/78165"); }
cicd! { mixed; eps: (A, "c/in8/169040", h0) (B, "c/log_out2/250", h1) (C, "c/in8/64404", h2); tin: (T, "c/ping_in2/87", t0); tout: (O, "c/t/426"); }

/// keys produced at compile time against the same computation at run time
pub fn c02_const_vs_run(c: &mut Case) -> Result<(), String> {
    c.nontrivial = true;
    let mut n = 0u64;
    macro_rules! ep {
        ($($t:ty),*) => { $(
            for (k8, k4, k2, k1) in [
                (<$t>::REQ_KEY, <$t>::REQ_KEY4, <$t>::REQ_KEY2, <$t>::REQ_KEY1),
                (<$t>::RESP_KEY, <$t>::RESP_KEY4, <$t>::RESP_KEY2, <$t>::RESP_KEY1),
            ] {
                let b = k8.to_bytes();
                if k4.to_bytes().to_vec() != fold(&b, 4) || k2.to_bytes().to_vec() != fold(&b, 2) || vec![k1.to_bytes()] != fold(&b, 1) {
                    return Err(format!("compile-time short keys of {} differ from run-time folding of {}", <$t>::PATH, hex(&b)));
                }
                n += 3;
            }
        )* };
    }
    macro_rules! tp {
        ($($t:ty),*) => { $(
            let b = <$t>::TOPIC_KEY.to_bytes();
            if <$t>::TOPIC_KEY4.to_bytes().to_vec() != fold(&b, 4) || <$t>::TOPIC_KEY2.to_bytes().to_vec() != fold(&b, 2) || vec![<$t>::TOPIC_KEY1.to_bytes()] != fold(&b, 1) {
                return Err(format!("compile-time short keys of {} differ from run-time folding of {}", <$t>::PATH, hex(&b)));
            }
            n += 3;
        )* };
    }
    use postcard_rpc::standard_icd::*;
    ep!(EpBlk, EpAsy, EpSpn, EpStr, EpBig, EpUnit, EpChoice, EpSpn2, PingEndpoint, GetAllSchemasEndpoint);
    ep!(plain::A, plain::B, in2::A, in4::A, in8::A, in8::B, out2::A, out4::A, out8::A, out8::B, err2::A, err4::A);
    tp!(TiBlk, TiAsy, TiSpn, TiStr, ToA, ToB, ToC, ToD, GetAllSchemaDataTopic, LoggingTopic, in8tt::T, in8tt::U, out8tt::O, out8tt::P);
    c.count("const_keys", n);
    c.evals = n;
    let r = c.rng.u64() % 4;
    c.sig(r);
    Ok(())
}
