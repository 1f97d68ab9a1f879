import os
P = open(os.path.join(os.path.dirname(__file__), "prelude.rs")).read()
U = "host_client/util.rs"; H = "host_client/mod.rs"; SV = "server/mod.rs"; D = "server/dispatch_macro.rs"
def m(body, **k): return {"prelude.rs": P, "main.rs": "mod prelude;\nuse prelude::*;\nuse postcard_rpc::header::*;\nuse postcard_rpc::host_client::*;\nuse postcard_rpc::{Endpoint, Topic};\nuse std::time::Duration;\n" + body, **k}
SERVER = '''
use postcard_rpc::define_dispatch;
use postcard_rpc::server::impls::test_channels::{dispatch_impl::{new_server, Settings, WireSpawnImpl, WireTxImpl, spawn_fn}, ChannelWireRx, ChannelWireSpawn, ChannelWireTx};
use postcard_rpc::server::{Dispatch, Sender, SpawnContext};
pub struct Ctx;
pub struct SCtx;
impl SpawnContext for Ctx {
    type SpawnCtxt = SCtx;
    fn spawn_ctxt(&mut self) -> SCtx { SCtx }
}
define_dispatch! {
    app: App;
    spawn_fn: spawn_fn;
    tx_impl: WireTxImpl;
    spawn_impl: WireSpawnImpl;
    context: Ctx;
    endpoints: {
        list: EPS;
        | EndpointTy | kind | handler |
        | ---------- | ---- | ------- |
        | Inc | async | inc |
        | Dbl | async | dbl |
    };
    topics_in: {
        list: TIN;
        | TopicTy | kind | handler |
        | ------- | ---- | ------- |
        | In1 | async | in1 |
    };
    topics_out: { list: TOUT; };
}
async fn inc(_c: &mut Ctx, _h: VarHeader, r: u32) -> u32 { r.wrapping_add(1) }
async fn dbl(_c: &mut Ctx, _h: VarHeader, r: u32) -> u64 { r as u64 * 2 }
async fn in1(_c: &mut Ctx, _h: VarHeader, _m: u32, _s: &Sender<ChannelWireTx>) {}
'''
SEEDS = [
 dict(id="narrow-seq-compare", property="C04",
  needs="a reply carrying a one-byte sequence number while a call with a wider number whose low byte is the same is outstanding",
  breaks="sequence numbers of different widths are compared in the narrower width, so a reply (or a late reply of an abandoned call) is handed to a different call 256 calls later",
  edits=[("header.rs", '''#[derive(Debug, PartialEq, Clone, Copy)]
pub struct VarHeader {
    /// The variably sized Key
    pub key: VarKey,
    /// The variably sized Sequence Number
    pub seq_no: VarSeq,
}
''', '''#[derive(Debug, Clone, Copy)]
pub struct VarHeader {
    /// The variably sized Key
    pub key: VarKey,
    /// The variably sized Sequence Number
    pub seq_no: VarSeq,
}

impl PartialEq for VarHeader {
    fn eq(&self, other: &Self) -> bool {
        let mut seq_no = self.seq_no;
        if let VarSeq::Seq1(_) = other.seq_no {
            seq_no.resize(VarSeqKind::Seq1);
        }
        self.key == other.key && seq_no == other.seq_no
    }
}
''')],
  files=m('''
#[tokio::main]
async fn main() {
    let mut l = link_with(VarSeqKind::Seq2, Duration::ZERO);
    let inject = l.inject.clone();
    // 256 calls answered, then one that is not
    for i in 0..256u32 {
        let c = l.client.clone();
        let j = tokio::spawn(async move { c.send_resp::<Inc>(&i).await });
        let f = within("request", l.sent.recv()).await.unwrap();
        let (h, _) = VarHeader::take_from_slice(&f).unwrap();
        inject.send(frame(VarKey::Key8(Inc::RESP_KEY), h.seq_no, &(i + 1))).unwrap();
        if within("reply", j).await.unwrap().unwrap() != i + 1 { fail("value") }
    }
    let c = l.client.clone();
    let j = tokio::spawn(async move { c.send_resp::<Inc>(&1000).await });
    let f = within("request", l.sent.recv()).await.unwrap();
    let (h, _) = VarHeader::take_from_slice(&f).unwrap();
    // a repeated answer to call number 0, in one byte
    inject.send(frame(VarKey::Key8(Inc::RESP_KEY), VarSeq::Seq1(0), &77u32)).unwrap();
    tokio::time::sleep(Duration::from_millis(50)).await;
    inject.send(frame(VarKey::Key8(Inc::RESP_KEY), h.seq_no, &1001u32)).unwrap();
    match within("reply", j).await.unwrap() {
        Ok(1001) => println!("ok"),
        o => fail(&format!("call {:?} got {o:?}", h.seq_no)),
    }
}
''')),
 dict(id="oversize-burst-stops-server", property="C06",
  needs="three messages in a row that are longer than the server's receive buffer",
  breaks="the server gives up with a fatal receive error although the link is fine",
  edits=[(SV, '''        loop {
            let Self {
                tx,
                rx,
                buf,
                dis: d,
            } = self;
            let used = match rx.receive(buf).await {
                Ok(u) => u,
                Err(e) => {
                    let kind = e.as_kind();
                    match kind {
                        WireRxErrorKind::ConnectionClosed => return ServerError::RxFatal(e),
                        WireRxErrorKind::ReceivedMessageTooLarge => continue,
''', '''        let mut oversize = 0u8;
        loop {
            let Self {
                tx,
                rx,
                buf,
                dis: d,
            } = self;
            let used = match rx.receive(buf).await {
                Ok(u) => {
                    oversize = 0;
                    u
                }
                Err(e) => {
                    let kind = e.as_kind();
                    match kind {
                        WireRxErrorKind::ConnectionClosed => return ServerError::RxFatal(e),
                        WireRxErrorKind::ReceivedMessageTooLarge if oversize >= 2 => {
                            // The other side does not respect our limits
                            return ServerError::RxFatal(e);
                        }
                        WireRxErrorKind::ReceivedMessageTooLarge => {
                            oversize += 1;
                            continue;
                        }
''')],
  files=m(SERVER + '''
#[tokio::main]
async fn main() {
    let (ctx, crx) = tokio::sync::mpsc::channel(8);
    let (stx, mut srx) = tokio::sync::mpsc::channel::<Vec<u8>>(8);
    let app = App::new(Ctx, ChannelWireSpawn {});
    let kk = app.min_key_len();
    let mut server = new_server(app, Settings { tx: ChannelWireTx::new(stx), rx: ChannelWireRx::new(crx), buf: 64, kkind: kk });
    tokio::spawn(async move { server.run().await; });
    for n in 1..6u16 {
        for _ in 0..n { ctx.send(vec![0u8; 100]).await.unwrap_or_else(|_| fail("the server stopped reading")); }
        ctx.send(frame(VarKey::Key8(Inc::REQ_KEY), VarSeq::Seq2(n), &5u32)).await.unwrap_or_else(|_| fail("the server stopped reading"));
        match within("the answer", srx.recv()).await {
            Some(f) if postcard::from_bytes::<u32>(VarHeader::take_from_slice(&f).unwrap().1) == Ok(6) => {}
            o => fail(&format!("after {n} long messages: {o:?}")),
        }
    }
    println!("ok");
}
''')),
 dict(id="empty-stray-frame-ends-client", property="C07",
  needs="a frame nobody waits for, with no body bytes, at the width of sequence numbers other than the client's",
  breaks="a stray frame ends the receive worker and with it every outstanding call",
  edits=[(U, '''            Ok(false) => debug!("Message not handled"),
            Err(ProcessError::Closed) => {
''', '''            Ok(false) if hdr.key.kind() == crate::header::VarKeyKind::Key1 && body.is_empty() => {
                warn!("Other side sent a bare header, quitting");
                return;
            }
            Ok(false) => debug!("Message not handled"),
            Err(ProcessError::Closed) => {
''')],
  files=m('''
#[tokio::main]
async fn main() {
    let mut l = link();
    let inject = l.inject.clone();
    for f in [vec![0u8, 9, 0], vec![0u8, 0x55, 200], vec![0x10u8, 1, 1, 1], vec![0x20u8, 1, 1, 1, 1, 1], vec![0xC0u8, 1, 2, 3, 4, 5, 6, 7, 8, 1]] {
        let c = l.client.clone();
        let j = tokio::spawn(async move { c.send_resp::<Inc>(&1).await });
        let q = within("request", l.sent.recv()).await.unwrap_or_else(|| fail("the client stopped"));
        let (h, _) = VarHeader::take_from_slice(&q).unwrap();
        inject.send(f.clone()).unwrap();
        let _ = inject.send(frame(VarKey::Key8(Inc::RESP_KEY), h.seq_no, &2u32));
        match within("reply", j).await.unwrap() {
            Ok(2) => {}
            o => fail(&format!("after the stray frame {f:?}: {o:?}")),
        }
    }
    println!("ok");
}
''')),
 dict(id="publish-drops-when-full", property="C11",
  needs="more messages published at once than the outgoing queue holds",
  breaks="publish reports success for messages that are thrown away because the outgoing queue is full",
  edits=[(H, '''        let cancel_fut = self.stopper.wait_stopped();
        let operate_fut = self.out.send(frame);
''', '''        let cancel_fut = self.stopper.wait_stopped();
        if self.out.capacity() == 0 && !self.is_closed() {
            // topics come without feedback, no need to wait for room
            return Ok(());
        }
        let operate_fut = self.out.send(frame);
''')],
  files=m('''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let mut l = link();
    let c = l.client.clone();
    let p = tokio::spawn(async move { for i in 0..40u32 { c.publish::<In1>(VarSeq::Seq2(i as u16), &i).await.unwrap(); } });
    within("publishing", p).await.unwrap();
    for i in 0..40u32 {
        let f = within("a published message", l.sent.recv()).await.unwrap();
        let (h, b) = VarHeader::take_from_slice(&f).unwrap();
        if h.seq_no != VarSeq::Seq2(i as u16) || postcard::from_bytes::<u32>(b) != Ok(i) { fail(&format!("message {i} was lost")) }
    }
    println!("ok");
}
''')),
 dict(id="error-reply-keeps-key-width", property="C12",
  needs="a server that answers with shorter keys, whose first answer is an error",
  breaks="the client does not adopt the key length of an error answer and keeps sending full-length keys",
  edits=[(H, '''                let (hdr, resp) = e?;
                if hdr.key.kind() != kkind {
                    *self.ctx.kkind.write().unwrap() = hdr.key.kind();
                }
                let r = postcard::from_bytes::<WireErr>(&resp)?;
''', '''                let (_hdr, resp) = e?;
                let r = postcard::from_bytes::<WireErr>(&resp)?;
''')],
  files=m('''
#[tokio::main]
async fn main() {
    for kind in [VarKeyKind::Key1, VarKeyKind::Key2, VarKeyKind::Key4] {
        let mut l = link();
        let c = l.client.clone();
        let j = tokio::spawn(async move { c.send_resp::<Inc>(&1).await });
        let q = within("request", l.sent.recv()).await.unwrap();
        let (h, _) = VarHeader::take_from_slice(&q).unwrap();
        let mut k = VarKey::Key8(postcard_rpc::Key::for_path::<WErr>("error"));
        k.shrink_to(kind);
        l.inject.send(frame(k, h.seq_no, &WErr::DeserFailed)).unwrap();
        match within("reply", j).await.unwrap() { Err(HostErr::Wire(WErr::DeserFailed)) => {}, o => fail(&format!("{o:?}")) }
        let c = l.client.clone();
        let j = tokio::spawn(async move { c.send_resp::<Inc>(&1).await });
        let q = within("request", l.sent.recv()).await.unwrap();
        let (h, _) = VarHeader::take_from_slice(&q).unwrap();
        if h.key.kind() != kind { fail(&format!("the server uses {kind:?}, the client sends {:?}", h.key.kind())) }
        j.abort();
    }
    println!("ok");
}
''')),
 dict(id="keycheck-diagonal", property="C03",
  needs="two keys that collide when shortened, in different lists of the interface, the later one at an earlier position",
  breaks="the collision is not seen when the key length is chosen, so two messages share one short key",
  edits=[(SV, '''                            let mut y = if x == i {
                                j + 1
                            } else {
                                0
                            };
''', '''                            let mut y = if x == i {
                                j + 1
                            } else {
                                j
                            };
''')],
  files=m('''
use postcard_rpc::server::min_key_needed;
use postcard_rpc::Key;
fn k(n: u64) -> Key { unsafe { Key::from_bytes(n.to_be_bytes()) } }
fn main() {
    // b and z differ in full, 4 and 2 bytes fold to the same 1-byte key
    let a = k(0x0102_0304_0506_0708);
    let b = k(0x1100_0000_0000_0000);
    let z = k(0x0000_0000_0000_0011);
    let lists: [&[Key]; 2] = [&[a, b], &[z]];
    if min_key_needed(&lists) != 2 { fail(&format!("{} byte(s) chosen", min_key_needed(&lists))) }
    let lists: [&[Key]; 2] = [&[b], &[a, z]];
    if min_key_needed(&lists) != 2 { fail(&format!("{} byte(s) chosen", min_key_needed(&lists))) }
    println!("ok");
}
''')),
 dict(id="abandoned-number-reused", property="C21",
  needs="a call abandoned (timed out) before it was answered, then another call to the same endpoint, then the late answer of the first",
  breaks="an abandoned call gives its sequence number back, so its late answer is taken for the answer of the next call",
  edits=[(H, '''        let seq_no = self.ctx.seq.fetch_add(1, Ordering::Relaxed);

        let msg = postcard::to_stdvec(&t).expect("Allocations should not ever fail");
''', '''        let seq_no = self.ctx.seq.fetch_add(1, Ordering::Relaxed);

        // Do not waste a number if we are dropped before completing
        struct GiveBack<'a>(&'a std::sync::atomic::AtomicU32, u32, bool);
        impl Drop for GiveBack<'_> {
            fn drop(&mut self) {
                if self.2 {
                    let next = self.1.wrapping_add(1);
                    let _ = self.0.compare_exchange(
                        next,
                        self.1,
                        Ordering::Relaxed,
                        Ordering::Relaxed,
                    );
                }
            }
        }
        let mut give_back = GiveBack(&self.ctx.seq, seq_no, true);

        let msg = postcard::to_stdvec(&t).expect("Allocations should not ever fail");
'''), (H, '''        let frame = self.send_resp_raw(frame, E::RESP_KEY).await?;
        let r = postcard::from_bytes::<E::Response>(&frame.body)?;
''', '''        let frame = self.send_resp_raw(frame, E::RESP_KEY).await;
        give_back.2 = false;
        let frame = frame?;
        let r = postcard::from_bytes::<E::Response>(&frame.body)?;
''')],
  files=m('''
#[tokio::main]
async fn main() {
    let mut l = link();
    let mut last = None;
    for i in 0..3u32 {
        if tokio::time::timeout(Duration::from_millis(30), l.client.send_resp::<Inc>(&(100 * i))).await.is_ok() { fail("answered?") }
        let q = within("request", l.sent.recv()).await.unwrap();
        let (h, _) = VarHeader::take_from_slice(&q).unwrap();
        if last == Some(h.seq_no) { fail(&format!("two calls use the number {:?}", h.seq_no)) }
        last = Some(h.seq_no);
    }
    println!("ok");
}
''')),
 dict(id="slice-header-short-buffer", property="C01",
  needs="a header with a four-byte key and four-byte sequence number and a buffer of exactly the encoded length",
  breaks="encoding into a buffer that is just large enough is refused",
  edits=[("header.rs", '''                let (seqbs, _) = remain.split_at_mut_checked(4)?;
                seqbs.copy_from_slice(&s.to_le_bytes());
                used += 4;
''', '''                let (seqbs, rest) = remain.split_at_mut_checked(4)?;
                if used == 5 {
                    // never fill the whole buffer with a header
                    rest.first()?;
                }
                seqbs.copy_from_slice(&s.to_le_bytes());
                used += 4;
''')],
  files=m('''
fn main() {
    for key in [Inc::REQ_KEY, Dbl::REQ_KEY] {
        for kind in [VarKeyKind::Key1, VarKeyKind::Key2, VarKeyKind::Key4, VarKeyKind::Key8] {
            for seq in [VarSeq::Seq1(1), VarSeq::Seq2(2), VarSeq::Seq4(3)] {
                let mut k = VarKey::Key8(key);
                k.shrink_to(kind);
                let h = VarHeader { key: k, seq_no: seq };
                let v = h.write_to_vec();
                let mut buf = vec![0u8; v.len()];
                match h.write_to_slice(&mut buf) {
                    Some((used, rest)) if used == v && rest.is_empty() => {}
                    o => fail(&format!("{h:?} in {} bytes: {o:?}", v.len())),
                }
            }
        }
    }
    println!("ok");
}
''')),
 dict(id="empty-body-not-sent", property="C25",
  needs="a call or publication whose payload is empty (unit type) on an otherwise working link",
  breaks="requests without payload never reach the device",
  edits=[(U, '''        if let Err(e) = wire.send(msg.to_bytes()).await {
''', '''        if msg.body.is_empty() && msg.header.key.kind() != crate::header::VarKeyKind::Key8 {
            // nothing to say
            continue;
        }
        if let Err(e) = wire.send(msg.to_bytes()).await {
''')],
  files=m('''
postcard_rpc::endpoints! {
    list = EPU;
    | EndpointTy | RequestTy | ResponseTy | Path |
    | ---------- | --------- | ---------- | ---- |
    | Status     | ()        | u32        | "demo/status" |
}
#[tokio::main]
async fn main() {
    let mut l = link();
    let inject = l.inject.clone();
    tokio::spawn(async move {
        while let Some(f) = l.sent.recv().await {
            let (h, _) = VarHeader::take_from_slice(&f).unwrap();
            let mut k = VarKey::Key8(Status::RESP_KEY);
            k.shrink_to(VarKeyKind::Key2);
            inject.send(frame(k, h.seq_no, &7u32)).unwrap();
        }
    });
    for _ in 0..3 {
        if within("a call with an empty request", l.client.send_resp::<Status>(&())).await.unwrap() != 7 { fail("value") }
    }
    println!("ok");
}
''')),
]
