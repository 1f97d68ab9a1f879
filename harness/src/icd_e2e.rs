//! The interface of the end-to-end scenarios (C25), over the recording and the channel transport.
use crate::icd::{ended, f_big, f_rs, f_str, started, Bytes, Ctx, Rq, Rs};
use crate::ssim::*;
use postcard_rpc::header::VarHeader;
use postcard_rpc::server::{Sender, WireTx};
use postcard_rpc::{define_dispatch, endpoints, topics, TopicDirection};

endpoints! {
    list = E_EPS;
    | EndpointTy | RequestTy | ResponseTy | Path       |
    | ---------- | --------- | ---------- | ----       |
    | QBlk       | Rq        | Rs         | "e/blk"    |
    | QAsy       | Rq        | Rs         | "e/asy"    |
    | QSpn       | Rq        | Rs         | "e/spn"    |
    | QStr       | String    | String     | "e/str"    |
    | QBig       | u32       | Bytes      | "e/big"    |
    | QUnit      | ()        | ()         | "e/unit"   |
    | QSame      | Rs        | Rs         | "e/same"   |
    | QLate      | u32       | ()         | "e/late"   |
}
// known to the client only
endpoints! {
    list = E_FOREIGN;
    | EndpointTy | RequestTy | ResponseTy | Path       |
    | ---------- | --------- | ---------- | ----       |
    | QForeign   | Rq        | Rs         | "e/other"  |
    | QChanged   | u64       | Bytes      | "e/big"    |
}
topics! {
    list = E_TIN;
    direction = TopicDirection::ToServer;
    | TopicTy | MessageTy | Path      |
    | ------- | --------- | ----      |
    | PBlk    | Rq        | "e/t/blk" |
    | PAsy    | Rq        | "e/t/asy" |
    | PSpn    | Rq        | "e/t/spn" |
    | PUnit   | ()        | "e/t/u"   |
}
topics! {
    list = E_TOUT;
    direction = TopicDirection::ToClient;
    | TopicTy | MessageTy | Path     |
    | ------- | --------- | ----     |
    | SA      | Rs        | "e/o/a"  |
    | SB      | String    | "e/o/b"  |
    | SU      | ()        | "e/o/u"  |
}

pub const BLK: u32 = 0;
pub const ASY: u32 = 1;
pub const SPN: u32 = 2;
pub const STR: u32 = 3;
pub const BIG: u32 = 4;
pub const UNIT: u32 = 5;
pub const SAME: u32 = 6;
pub const LATE: u32 = 7;
pub const TBLK: u32 = 100;
pub const TASY: u32 = 101;
pub const TSPN: u32 = 102;
pub const TUNIT: u32 = 103;

pub fn f_same(r: &Rs) -> Rs {
    Rs { who: r.who ^ 0x55, id: r.id, data: r.data.iter().map(|b| b.wrapping_add(3)).collect() }
}
fn q_blk(c: &mut Ctx, h: VarHeader, r: Rq) -> Rs {
    started(&c.link, BLK, &h, &r);
    f_rs(BLK, &r)
}
async fn q_asy(c: &mut Ctx, h: VarHeader, r: Rq) -> Rs {
    started(&c.link, ASY, &h, &r);
    rand_yields(&c.link).await;
    ended(&c.link, ASY, &h);
    f_rs(ASY, &r)
}
async fn q_spn<T: WireTx + Clone>(l: SLink, h: VarHeader, r: Rq, s: Sender<T>) {
    started(&l, SPN, &h, &r);
    rand_yields(&l).await;
    let _ = s.reply::<QSpn>(h.seq_no, &f_rs(SPN, &r)).await;
}
/// answers only once the gate opens
async fn q_late<T: WireTx + Clone>(l: SLink, h: VarHeader, r: u32, s: Sender<T>) {
    started(&l, LATE, &h, &r);
    gate(&l).await;
    let _ = s.reply::<QLate>(h.seq_no, &()).await;
}
fn q_str(c: &mut Ctx, h: VarHeader, r: String) -> String {
    started(&c.link, STR, &h, &r);
    f_str(&r)
}
async fn q_big(c: &mut Ctx, h: VarHeader, r: u32) -> Vec<u8> {
    started(&c.link, BIG, &h, &r);
    rand_yields(&c.link).await;
    f_big(r & 0xfff)
}
fn q_unit(c: &mut Ctx, h: VarHeader, r: ()) {
    started(&c.link, UNIT, &h, &r);
}
fn q_same(c: &mut Ctx, h: VarHeader, r: Rs) -> Rs {
    started(&c.link, SAME, &h, &r);
    f_same(&r)
}
fn p_blk<T: WireTx>(c: &mut Ctx, h: VarHeader, r: Rq, _s: &Sender<T>) {
    started(&c.link, TBLK, &h, &r);
}
/// passes the message on to the client
async fn p_asy<T: WireTx>(c: &mut Ctx, h: VarHeader, r: Rq, s: &Sender<T>) {
    started(&c.link, TASY, &h, &r);
    rand_yields(&c.link).await;
    let _ = s.publish::<SA>(h.seq_no, &f_rs(TASY, &r)).await;
}
async fn p_spn<T: WireTx + Clone>(l: SLink, h: VarHeader, r: Rq, s: Sender<T>) {
    started(&l, TSPN, &h, &r);
    rand_yields(&l).await;
    let _ = s.publish::<SU>(h.seq_no, &()).await;
}
fn p_unit<T: WireTx>(c: &mut Ctx, h: VarHeader, r: (), _s: &Sender<T>) {
    started(&c.link, TUNIT, &h, &r);
}

macro_rules! e2e_app {
    ($m:ident, $tx:ty, $sp:ty, $spawn_fn:ident) => {
        pub mod $m {
            use super::*;
            define_dispatch! {
                app: App;
                spawn_fn: $spawn_fn;
                tx_impl: $tx;
                spawn_impl: $sp;
                context: Ctx;
                endpoints: {
                    list: E_EPS;
                    | EndpointTy | kind     | handler |
                    | ---------- | ----     | ------- |
                    | QBlk       | blocking | q_blk   |
                    | QAsy       | async    | q_asy   |
                    | QSpn       | spawn    | q_spn   |
                    | QStr       | blocking | q_str   |
                    | QBig       | async    | q_big   |
                    | QUnit      | blocking | q_unit  |
                    | QSame      | blocking | q_same  |
                    | QLate      | spawn    | q_late  |
                };
                topics_in: {
                    list: E_TIN;
                    | TopicTy | kind     | handler |
                    | ------- | ----     | ------- |
                    | PBlk    | blocking | p_blk   |
                    | PAsy    | async    | p_asy   |
                    | PSpn    | spawn    | p_spn   |
                    | PUnit   | blocking | p_unit  |
                };
                topics_out: {
                    list: E_TOUT;
                };
            }
            pub type Min = App;
            pub type App2 = impls::App<2>;
            pub type App4 = impls::App<4>;
            pub type App8 = impls::App<8>;
        }
    };
}
e2e_app!(st, STx, SSpawn, s_spawn);
use crate::icd::chd;
use chd::spawn_fn as ch_spawn;
e2e_app!(ch, chd::WireTxImpl, chd::WireSpawnImpl, ch_spawn);

#[cfg(all(feature = "usbdev", feature = "nusb"))]
mod us {
    use super::*;
    use crate::usbdev::{Ver, V3, V4};
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub type Tx3 = <V3 as Ver>::Tx;
    pub type Tx4 = <V4 as Ver>::Tx;
    /// the harness's executor is single-threaded
    struct Local<F>(Pin<Box<F>>);
    unsafe impl<F> Send for Local<F> {}
    impl<F: Future> Future for Local<F> {
        type Output = F::Output;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
            self.0.as_mut().poll(cx)
        }
    }
    pub fn us_spawn(sp: &SSpawn, fut: impl Future<Output = ()> + 'static) -> Result<(), ()> {
        s_spawn(sp, Local(Box::pin(fut)))
    }
}
#[cfg(all(feature = "usbdev", feature = "nusb"))]
use us::{us_spawn, Tx3, Tx4};
#[cfg(all(feature = "usbdev", feature = "nusb"))]
e2e_app!(us3, Tx3, SSpawn, us_spawn);
#[cfg(all(feature = "usbdev", feature = "nusb"))]
e2e_app!(us4, Tx4, SSpawn, us_spawn);
