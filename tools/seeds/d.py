import os
P = open(os.path.join(os.path.dirname(__file__), "usbmock.rs")).read()
E3 = "server/impls/embassy_usb_v0_3.rs"; E4 = "server/impls/embassy_usb_v0_4.rs"
def u(body): return {"usb.rs": P, "main.rs": "mod usb;\nuse usb::*;\n#[tokio::main(flavor = \"current_thread\")]\nasync fn main() {\n" + body + "\n}\n"}
SEEDS = [
 dict(id="one-packet-frame-not-pending", property="C16", usb=True,
  needs="a USB device (stack 0.4) whose frame of exactly 64 bytes is given up between its packet and the empty packet that ends it, and then another frame",
  breaks="the leftover of the given-up frame is not terminated, so the host sees both frames as one transfer",
  edits=[(E4, "        *pending_frame = true;\n", "        // a frame of one packet cannot be left half finished\n        *pending_frame = out.len() > 64;\n")],
  files=u('''    let (bus, tx, _rx) = v4::make(256);
    // header: 13 bytes, array: 51 bytes
    bus.borrow_mut().room = Some(1);
    let a: [[u8; 17]; 3] = [[7; 17]; 3];
    let r = within("send", tx.send(hdr(1), &a)).await;
    if r.is_ok() {
        fail("a send the host did not take was reported as done");
    }
    bus.borrow_mut().room = None;
    if within("second send", tx.send(hdr(2), &5u32)).await.is_err() {
        fail("second send refused");
    }
    let (done, rest) = bus.borrow().transfers();
    let mut want = hdr(2).write_to_vec();
    want.push(5);
    if done.last() != Some(&want) || !rest.is_empty() {
        fail(&format!("host saw transfers of {:?} bytes, rest {}", done.iter().map(|d| d.len()).collect::<Vec<_>>(), rest.len()));
    }
    println!("ok");''')),
 dict(id="drain-skips-empty-packet", property="C17", usb=True,
  needs="a transfer longer than the device's receive buffer whose length is a multiple of 64 (so it ends with an empty packet), followed by another transfer",
  breaks="the end of the oversized transfer is not noticed, and the transfer that follows it is swallowed with it",
  edits=[(E3, "                Ok(64) => {}\n", "                Ok(0) | Ok(64) => {}\n")],
  files=u('''    let (bus, _tx, mut rx) = v3::make(256);
    bus.borrow_mut().push(&[1; 192]);
    bus.borrow_mut().push(&[2; 20]);
    bus.borrow_mut().push(&[3; 30]);
    let mut buf = [0u8; 128];
    match within("first receive", rx.receive(&mut buf)).await {
        Err(WireRxErrorKind::ReceivedMessageTooLarge) => {}
        _ => fail("oversized transfer not reported"),
    }
    let got = match within("second receive", rx.receive(&mut buf)).await {
        Ok(f) => f.to_vec(),
        Err(_) => fail("transfer after the oversized one not received"),
    };
    if got != [2; 20] {
        fail(&format!("received {got:?} instead of the transfer that followed"));
    }
    println!("ok");''')),
 dict(id="log-exact-fit-truncated", property="C18", usb=True,
  needs="a formatted log call whose text fills the transmit buffer exactly",
  breaks="a text that fits is sent with its end replaced by dots",
  edits=[(E4, "        let bad = s.len() > sli.len();\n", "        let bad = s.len() >= sli.len() && !sli.is_empty();\n")],
  files=u('''    let (bus, tx, _rx) = v4::make(64);
    // header 3 bytes, length 1 byte, 60 bytes of text
    for n in [59usize, 60, 61] {
        let text = "x".repeat(n);
        let _ = within("log", tx.send_log_fmt(VarKeyKind::Key1, format_args!("{text}"))).await;
    }
    let _ = within("log", tx.send_log_fmt(VarKeyKind::Key1, format_args!("{}{}", "y".repeat(55), "z".repeat(4)))).await;
    let (done, _) = bus.borrow().transfers();
    let hl = 1 + 1 + 2;
    let texts: Vec<String> = done
        .iter()
        .map(|d| match postcard::from_bytes::<String>(&d[hl..]) {
            Ok(s) => s,
            Err(_) => fail("undecodable log frame"),
        })
        .collect();
    let cap = 64 - hl - 1;
    for n in [59usize, 60, 61] {
        let i = n - 59;
        let want = if n <= cap { "x".repeat(n) } else { format!("{}...", "x".repeat(cap - 3)) };
        if texts[i] != want {
            fail(&format!("text of {n} bytes in a buffer for {cap} arrived as {:?}", texts[i]));
        }
    }
    println!("ok");''')),
 dict(id="long-answer-without-end", property="C29", usb=True,
  needs="a device on stack 0.3 whose answer, header included, is a whole number of packets and longer than 512 bytes",
  breaks="the host never sees the end of the answer: the call hangs, and the next message is glued to it",
  edits=[(E3, "        if (out.len() & (64 - 1)) == 0 && ep_in.write(&[]).await.is_err() {", "        if (out.len() & (64 - 1)) == 0 && out.len() <= 512 && ep_in.write(&[]).await.is_err() {")],
  files={"usb.rs": P, "main.rs": '''mod usb;
use postcard_rpc::server::{Dispatch, Sender, Server};
use postcard_rpc::{endpoints, Endpoint};
use usb::*;
endpoints! {
    list = EPS;
    omit_std = true;
    | EndpointTy | RequestTy | ResponseTy | Path |
    | ---------- | --------- | ---------- | ---- |
    | Fill       | u32       | FillResp   | "demo/fill" |
}
type FillResp = Vec<u8>;
struct App;
impl Dispatch for App {
    type Tx = v3::Tx;
    fn min_key_len(&self) -> VarKeyKind {
        VarKeyKind::Key8
    }
    async fn handle(&mut self, tx: &Sender<v3::Tx>, h: &VarHeader, body: &[u8]) -> Result<(), WireTxErrorKind> {
        let n: u32 = postcard::from_bytes(body).unwrap();
        tx.reply::<Fill>(h.seq_no, &vec![9u8; n as usize]).await
    }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (bus, tx, rx) = v3::make(1024);
    let mut lens = vec![];
    for (i, n) in [10usize, 49, 500, 625, 689, 20].into_iter().enumerate() {
        let mut f = VarHeader { key: VarKey::Key8(Fill::REQ_KEY), seq_no: VarSeq::Seq4(i as u32) }.write_to_vec();
        f.extend(postcard::to_stdvec(&(n as u32)).unwrap());
        bus.borrow_mut().push(&f);
        let mut w = VarHeader { key: VarKey::Key8(Fill::RESP_KEY), seq_no: VarSeq::Seq4(i as u32) }.write_to_vec();
        w.extend(postcard::to_stdvec(&vec![9u8; n]).unwrap());
        lens.push(w);
    }
    if !lens.iter().any(|l| l.len() == 640) {
        println!("demo: no answer of 640 bytes");
        std::process::exit(4);
    }
    let mut srv = Server::new(tx, rx, vec![0u8; 1024].into_boxed_slice(), App, VarKeyKind::Key8);
    let _ = tokio::time::timeout(std::time::Duration::from_secs(2), srv.run()).await;
    let (done, rest) = bus.borrow().transfers();
    if done != lens || !rest.is_empty() {
        fail(&format!("host saw transfers of {:?} bytes (unfinished: {}), answers have {:?}", done.iter().map(|d| d.len()).collect::<Vec<_>>(), rest.len(), lens.iter().map(|d| d.len()).collect::<Vec<_>>()));
    }
    println!("ok");
}
'''}),
]
