//! C23: the serial client over a real pseudo-terminal.
use crate::cobsacc::{c13_segment, cobs_enc};
use crate::refc::*;
use crate::report::*;
use postcard_rpc::header::{VarSeq, VarSeqKind};
use postcard_rpc::host_client::{HostClient, HostErr, MultiSubRxError};
use postcard_rpc::standard_icd::{WireError, ERROR_PATH};
use postcard_rpc::{Endpoint, Topic};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

postcard_rpc::topic!(TText, String, "serial/text");
postcard_rpc::topic!(TUnit, (), "serial/unit");
postcard_rpc::topic!(TUp, String, "serial/up");
postcard_rpc::endpoint!(EUnit, u32, (), "serial/call/unit");
postcard_rpc::endpoint!(EEcho, String, String, "serial/call/echo");

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C23",
        rule: "a distinct case is a distinct (byte stream, chunking, outgoing frames, hang-up point) exchanged with the real serial client over a pseudo-terminal",
        scenarios: vec![
            Scenario { name: "receive", f: c23_receive, quick: 250, weight: 3, serial: false },
            Scenario { name: "exchange", f: c23_exchange, quick: 250, weight: 3, serial: false },
            Scenario { name: "hangup", f: c23_hangup, quick: 150, weight: 2, serial: false },
        ],
        assumptions: &["a pseudo-terminal stands for the serial line; a hang-up is the closing of its other end", "an expected event that has not happened after 20 s never happens"],
        must_see: &["bursts_of_tiny_frames", "frames_in", "frame_3_bytes", "frame_full_buffer", "garbage_segments", "overlong_segments", "frames_out", "frames_over_the_line_buffer", "calls_ok", "hangup_closed", "hangup_with_pending_call", "split_frames"],
    }]
}

const WAIT: Duration = Duration::from_secs(20);

struct Pty {
    master: OwnedFd,
    slave: Option<OwnedFd>,
    path: String,
}
fn pty() -> Result<Pty, String> {
    unsafe {
        let (mut m, mut s) = (0, 0);
        let mut name = [0 as libc::c_char; 128];
        let mut t: libc::termios = std::mem::zeroed();
        libc::cfmakeraw(&mut t);
        if libc::openpty(&mut m, &mut s, name.as_mut_ptr(), &t, std::ptr::null()) != 0 {
            panic!("openpty: {}", std::io::Error::last_os_error());
        }
        libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC);
        libc::fcntl(s, libc::F_SETFD, libc::FD_CLOEXEC);
        let path = std::ffi::CStr::from_ptr(name.as_ptr()).to_string_lossy().into_owned();
        Ok(Pty { master: OwnedFd::from_raw_fd(m), slave: Some(OwnedFd::from_raw_fd(s)), path })
    }
}
fn wr(fd: i32, mut b: &[u8]) -> bool {
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr() as *const libc::c_void, b.len()) };
        if n <= 0 {
            return false;
        }
        b = &b[n as usize..];
    }
    true
}
/// wait up to 20 ms for readable data
fn rd(fd: i32) -> Option<Vec<u8>> {
    let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
    let n = unsafe { libc::poll(&mut p, 1, 20) };
    if n <= 0 || p.revents & libc::POLLIN == 0 {
        if n > 0 {
            std::thread::sleep(Duration::from_millis(1));
        }
        return None;
    }
    let mut buf = [0u8; 4096];
    let n = unsafe { libc::read(fd, buf.as_mut_ptr() as *mut libc::c_void, buf.len()) };
    if n <= 0 {
        return None;
    }
    Some(buf[..n as usize].to_vec())
}

type Client = HostClient<WireError>;

fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}

#[derive(Clone, Debug, PartialEq)]
enum Got {
    Text(String),
    Unit,
}

/// what a byte stream must deliver to the two subscribers
fn reference(stream: &[u8]) -> (Vec<String>, usize) {
    let mut texts = vec![];
    let mut units = 0;
    for seg in stream.split_inclusive(|b| *b == 0) {
        if seg.last() != Some(&0) || seg.len() > 1024 {
            continue;
        }
        let mut s = seg.to_vec();
        let Ok(n) = cobs::decode_in_place(&mut s) else { continue };
        let Some((h, body)) = dec(&s[..n]) else { continue };
        if keys_match(&h.key, &TText::TOPIC_KEY.to_bytes()) {
            if let Ok(t) = postcard::from_bytes::<String>(body) {
                texts.push(t);
            }
        } else if keys_match(&h.key, &TUnit::TOPIC_KEY.to_bytes()) {
            units += 1;
        }
    }
    (texts, units)
}

fn good_segment(c: &mut Case) -> Vec<u8> {
    let kl = *c.rng.pick(&KLENS);
    let sl = *c.rng.pick(&SLENS);
    let seq = c.rng.u32() >> (32 - 8 * sl as u32);
    let f = if c.rng.chance(1, 3) {
        if kl == 1 && sl == 1 {
            c.count("frame_3_bytes", 1);
        }
        frame(TUnit::TOPIC_KEY, kl, seq, sl, &[])
    } else {
        let n = match c.rng.below(6) {
            0 => 0,
            1 | 2 => c.rng.below(30),
            3 => c.rng.below(400),
            // the encoded frame just fits the accumulator
            _ => {
                let hdr = 1 + kl + sl;
                let mut n = 1000 - hdr;
                loop {
                    let f = frame(TText::TOPIC_KEY, kl, seq, sl, &postcard::to_stdvec(&"y".repeat(n + 1)).unwrap());
                    if cobs_enc(&f).len() > 1024 {
                        break;
                    }
                    n += 1;
                }
                c.count("frame_full_buffer", 1);
                n
            }
        };
        let s: String = (0..n).map(|_| *c.rng.pick(&['a', 'b', '\0', 'z'])).collect();
        frame(TText::TOPIC_KEY, kl, seq, sl, &postcard::to_stdvec(&s).unwrap())
    };
    cobs_enc(&f)
}

fn cut(c: &mut Case, s: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut i = 0;
    let style = c.rng.below(3);
    while i < s.len() {
        let n = match style {
            0 => s.len(),
            1 => c.rng.range(1, 40),
            _ => c.rng.range(1, 900),
        }
        .min(s.len() - i);
        v.push(s[i..i + n].to_vec());
        i += n;
    }
    v
}

fn connect(p: &mut Pty, depth: usize, sk: VarSeqKind) -> Result<Client, String> {
    let c = Client::try_new_serial_cobs(&p.path, ERROR_PATH, depth, 115_200, sk).map_err(|e| format!("cannot open {}: {e}", p.path))?;
    p.slave = None;
    Ok(c)
}

fn c23_receive(c: &mut Case) -> Result<(), String> {
    let mut stream = vec![];
    if c.rng.chance(1, 3) {
        // the end of something else
        let n = c.rng.below(50);
        stream.extend(c.rng.bytes(n));
        stream.push(0);
    }
    // many tiny frames: dozens of them arrive in one read
    if c.rng.chance(1, 4) {
        for i in 0..c.rng.range(60, 400) {
            let kl = *c.rng.pick(&KLENS);
            let f = if c.rng.chance(1, 3) { frame(TUnit::TOPIC_KEY, kl, i as u32 & 0xff, 1, &[]) } else { frame(TText::TOPIC_KEY, kl, i as u32, 2, &postcard::to_stdvec(&format!("{i}")).unwrap()) };
            stream.extend(cobs_enc(&f));
        }
        c.count("bursts_of_tiny_frames", 1);
    }
    for _ in 0..c.rng.range(1, 25) {
        if c.rng.chance(2, 3) {
            stream.extend(good_segment(c));
        } else {
            let before = stream.len();
            c13_segment(c, 1024, &mut stream);
            if stream.last() != Some(&0) {
                stream.push(0);
            }
            c.count("garbage_segments", 1);
            if stream.len() - before > 1024 {
                c.count("overlong_segments", 1);
            }
        }
    }
    stream.extend(good_segment(c));
    let (texts, units) = reference(&stream);
    let chunks = cut(c, &stream);
    if chunks.len() > 1 {
        c.count("split_frames", 1);
    }
    c.sig_bytes(&stream);
    c.sig(chunks.len() as u64);
    c.nontrivial = true;
    let mut p = pty()?;
    let rt = rt();
    let pauses = c.rng.chance(1, 3);
    let res: Result<(), String> = rt.block_on(async {
        let client = connect(&mut p, 4, VarSeqKind::Seq2)?;
        let mut st = client.subscribe_multi::<TText>(512).await.map_err(|_| "closed")?;
        let mut su = client.subscribe_multi::<TUnit>(512).await.map_err(|_| "closed")?;
        let fd = p.master.as_raw_fd();
        let writer = std::thread::spawn(move || {
            for ch in chunks {
                if !wr(fd, &ch) {
                    return;
                }
                if pauses {
                    std::thread::sleep(Duration::from_micros(200));
                }
            }
        });
        let mut got = vec![];
        let mut gu = 0;
        let end = tokio::time::Instant::now() + WAIT;
        while got.len() < texts.len() || gu < units {
            tokio::select! {
                m = st.recv() => match m {
                    Ok(m) => got.push(m),
                    Err(MultiSubRxError::Lagged(_)) => return Err("lagged".to_string()),
                    Err(_) => return Err("the client closed on incoming data".to_string()),
                },
                m = su.recv() => match m {
                    Ok(()) => gu += 1,
                    Err(_) => return Err("the client closed on incoming data".to_string()),
                },
                _ = tokio::time::sleep_until(end) => {
                    return Err(format!("received {}/{} texts and {gu}/{units} unit messages of a stream of {} bytes; nothing more for 20 s", got.len(), texts.len(), stream.len()));
                }
            }
            let k = got.len();
            if k > 0 && got[k - 1] != texts[k - 1] {
                return Err(format!("message {} differs from what was sent ({} instead of {} bytes)", k - 1, got[k - 1].len(), texts[k - 1].len()));
            }
        }
        let _ = writer.join();
        // nothing else may follow
        tokio::time::sleep(Duration::from_millis(2)).await;
        if client.is_closed() {
            return Err("line noise closed the client".into());
        }
        client.close();
        while let Ok(m) = st.recv().await {
            return Err(format!("an extra message was delivered: {m:?}"));
        }
        c.count("frames_in", (texts.len() + units) as u64);
        Ok(())
    });
    c.note = Some(format!("{} bytes in, {} messages", stream.len(), texts.len() + units));
    res
}

/// peer: collects what the client sends, answers calls
struct Peer {
    seen: Arc<Mutex<Vec<u8>>>,
    stop: Arc<AtomicBool>,
    th: Option<std::thread::JoinHandle<()>>,
}
fn peer(master: &OwnedFd, mut rng: crate::rng::Rng, answer: bool, lazy: bool) -> Peer {
    let fd = unsafe { OwnedFd::from_raw_fd(libc::dup(master.as_raw_fd())) };
    let seen: Arc<Mutex<Vec<u8>>> = Default::default();
    let stop = Arc::new(AtomicBool::new(false));
    let (s2, st2) = (seen.clone(), stop.clone());
    let th = std::thread::spawn(move || {
        let mut pos = 0;
        let kl = *rng.pick(&KLENS);
        if lazy {
            // the line fills up first
            std::thread::sleep(Duration::from_millis(rng.range(2, 12) as u64));
        }
        while !st2.load(Ordering::SeqCst) {
            if lazy && rng.chance(1, 8) {
                std::thread::sleep(Duration::from_micros(rng.below(800) as u64));
            }
            let Some(b) = rd(fd.as_raw_fd()) else { continue };
            let segs: Vec<Vec<u8>> = {
                let mut g = s2.lock().unwrap();
                g.extend_from_slice(&b);
                let mut v = vec![];
                while let Some(z) = g[pos..].iter().position(|x| *x == 0) {
                    v.push(g[pos..=pos + z].to_vec());
                    pos += z + 1;
                }
                v
            };
            if !answer {
                continue;
            }
            for mut s in segs {
                let Ok(n) = cobs::decode_in_place(&mut s) else { continue };
                let Some((h, body)) = dec(&s[..n]) else { continue };
                let rep = if keys_match(&h.key, &EUnit::REQ_KEY.to_bytes()) {
                    frame(EUnit::RESP_KEY, kl, h.seq, h.slen, &[])
                } else if keys_match(&h.key, &EEcho::REQ_KEY.to_bytes()) {
                    frame(EEcho::RESP_KEY, kl, h.seq, h.slen, body)
                } else {
                    continue;
                };
                let mut out = vec![];
                if rng.chance(1, 4) {
                    out.extend(rng.bytes(5).into_iter().map(|b| b | 1));
                    out.push(0);
                }
                out.extend(cobs_enc(&rep));
                let k = rng.below(out.len());
                wr(fd.as_raw_fd(), &out[..k]);
                wr(fd.as_raw_fd(), &out[k..]);
            }
        }
    });
    Peer { seen, stop, th: Some(th) }
}
impl Drop for Peer {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        if let Some(t) = self.th.take() {
            let _ = t.join();
        }
    }
}

fn c23_exchange(c: &mut Case) -> Result<(), String> {
    let mut p = pty()?;
    let rt = rt();
    let mut rng = c.rng.fork();
    let n = c.rng.range(1, 20);
    // a peer that reads late makes the line accept only parts of long frames
    let lazy = c.rng.chance(1, 3);
    let pr = peer(&p.master, c.rng.fork(), true, lazy);
    let depth = c.rng.range(1, 6);
    let (sk, skl) = *c.rng.pick(&[(VarSeqKind::Seq1, 1usize), (VarSeqKind::Seq2, 2), (VarSeqKind::Seq4, 4)]);
    // (full key, sequence number or None, width, body)
    let mut want: Vec<(Vec<u8>, Option<u32>, usize, Vec<u8>)> = vec![];
    let mut calls = 0u64;
    let res: Result<(), String> = rt.block_on(async {
        let client = connect(&mut p, depth, sk)?;
        for i in 0..n {
            let len = match rng.below(5) {
                0 if lazy => rng.range(3000, 40_000),
                0 => rng.below(2000),
                1 => 254 - 12 + rng.below(6),
                _ => rng.below(60),
            };
            let s: String = (0..len).map(|_| *rng.pick(&['\0', 'q', 'w'])).collect();
            match rng.below(4) {
                0 => {
                    let v = rng.u32();
                    want.push((EUnit::REQ_KEY.to_bytes().to_vec(), None, skl, postcard::to_stdvec(&v).unwrap()));
                    match tokio::time::timeout(WAIT, client.send_resp::<EUnit>(&v)).await {
                        Ok(Ok(())) => calls += 1,
                        Ok(Err(e)) => return Err(format!("call failed: {e:?}")),
                        Err(_) => return Err("a call with an empty answer got no reply for 20 s".into()),
                    }
                }
                1 => {
                    let s: String = s.chars().take(900).collect();
                    want.push((EEcho::REQ_KEY.to_bytes().to_vec(), None, skl, postcard::to_stdvec(&s).unwrap()));
                    match tokio::time::timeout(WAIT, client.send_resp::<EEcho>(&s)).await {
                        Ok(Ok(r)) if r == s => calls += 1,
                        Ok(Ok(_)) => return Err("an echo came back changed".into()),
                        Ok(Err(e)) => return Err(format!("call failed: {e:?}")),
                        Err(_) => return Err("an echo call got no reply for 20 s".into()),
                    }
                }
                _ => {
                    let body = postcard::to_stdvec(&s).unwrap();
                    want.push((TUp::TOPIC_KEY.to_bytes().to_vec(), Some(i as u32), 2, body));
                    client.publish::<TUp>(VarSeq::Seq2(i as u16), &s).await.map_err(|_| "publish refused")?;
                }
            }
        }
        // everything has left once the bytes are all there
        let total = want.len();
        let t0 = Instant::now();
        loop {
            let k = pr.seen.lock().unwrap().iter().filter(|b| **b == 0).count();
            if k >= total {
                break;
            }
            if t0.elapsed() > WAIT {
                return Err(format!("{k} of {total} frames reached the line after 20 s"));
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        if client.is_closed() {
            return Err("the client closed by itself".into());
        }
        Ok(())
    });
    res?;
    drop(rt);
    let seen = pr.seen.lock().unwrap().clone();
    drop(pr);
    let segs: Vec<&[u8]> = seen.split_inclusive(|b| *b == 0).collect();
    if segs.len() != want.len() {
        return Err(format!("{} segments on the line for {} frames", segs.len(), want.len()));
    }
    for (i, (seg, (key, seq, slen, body))) in segs.iter().zip(&want).enumerate() {
        let mut s = seg.to_vec();
        let n = cobs::decode_in_place(&mut s).map_err(|_| format!("segment {i} does not decode"))?;
        let f = &s[..n];
        let Some((h, b)) = dec(f) else { return Err(format!("segment {i} has no header")) };
        if !keys_match(&h.key, key) || seq.is_some_and(|q| q != h.seq) || h.slen != *slen || b != body {
            return Err(format!("frame {i} differs from what was sent: {}", hex(f)));
        }
        c.sig(f.len() as u64);
    }
    c.count("calls_ok", calls);
    c.count("frames_out", want.len() as u64);
    c.count("frames_over_the_line_buffer", want.iter().filter(|w| lazy && w.3.len() > 4096).count() as u64);
    c.nontrivial = true;
    c.note = Some(format!("{} frames out, {calls} calls", want.len()));
    Ok(())
}

fn thread_cpu_ms() -> u64 {
    unsafe {
        let mut r: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_THREAD, &mut r);
        (r.ru_utime.tv_sec + r.ru_stime.tv_sec) as u64 * 1000 + (r.ru_utime.tv_usec + r.ru_stime.tv_usec) as u64 / 1000
    }
}

fn c23_hangup(c: &mut Case) -> Result<(), String> {
    let mut p = pty()?;
    let rt = rt();
    let mut rng = c.rng.fork();
    let n = c.rng.below(8);
    let pending = c.rng.chance(1, 2);
    let answer = !pending;
    let mut pr = Some(peer(&p.master, c.rng.fork(), answer, false));
    let tail_len = c.rng.below(30);
    let tail = c.rng.bytes(tail_len);
    let write_after = c.rng.chance(1, 2);
    let res: Result<(), String> = rt.block_on(async {
        let client = connect(&mut p, 4, VarSeqKind::Seq4)?;
        let mut sub = client.subscribe_multi::<TText>(64).await.map_err(|_| "closed")?;
        for i in 0..n {
            client.publish::<TUp>(VarSeq::Seq2(i as u16), &"x".repeat(rng.below(200))).await.map_err(|_| "publish refused")?;
            if answer {
                client.send_resp::<EUnit>(&1).await.map_err(|e| format!("call failed {e:?}"))?;
            }
        }
        let c2 = client.clone();
        let call = tokio::spawn(async move {
            if pending {
                Some(c2.send_resp::<EUnit>(&7).await)
            } else {
                None
            }
        });
        for _ in 0..rng.below(10) {
            tokio::task::yield_now().await;
        }
        // an unfinished segment, then the device is gone
        wr(p.master.as_raw_fd(), &tail.iter().map(|b| b | 1).collect::<Vec<u8>>());
        if rng.chance(1, 2) {
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        pr.take();
        let Pty { master, .. } = p;
        drop(master);
        let cpu0 = thread_cpu_ms();
        if write_after {
            let _ = client.publish::<TUp>(VarSeq::Seq1(1), &"late".to_string()).await;
        }
        if tokio::time::timeout(WAIT, client.wait_closed()).await.is_err() {
            let cpu = thread_cpu_ms() - cpu0;
            return Err(format!("the device is gone but the client is not closed after 20 s ({cpu} ms of processor time used meanwhile)"));
        }
        if !client.is_closed() {
            return Err("wait_closed() returned on an open client".into());
        }
        match tokio::time::timeout(WAIT, call).await {
            Ok(Ok(None)) => {}
            Ok(Ok(Some(Err(HostErr::Closed)))) => c.count("hangup_with_pending_call", 1),
            Ok(Ok(Some(r))) => return Err(format!("the pending call ended with {r:?}")),
            Ok(Err(e)) => return Err(format!("the calling task died: {e}")),
            Err(_) => return Err("the pending call never finished".into()),
        }
        loop {
            match tokio::time::timeout(WAIT, sub.recv()).await {
                Ok(Ok(m)) => return Err(format!("a message out of nowhere: {m:?}")),
                Ok(Err(_)) => break,
                Err(_) => return Err("the subscription never ended".into()),
            }
        }
        if tokio::time::timeout(WAIT, client.send_resp::<EUnit>(&9)).await.map_or(true, |r| !matches!(r, Err(HostErr::Closed))) {
            return Err("a call after the hang-up does not report closed".into());
        }
        Ok(())
    });
    res?;
    c.sig(n as u64 * 8 + pending as u64 * 4 + write_after as u64);
    c.sig_bytes(&tail);
    c.nontrivial = true;
    c.count("hangup_closed", 1);
    c.note = Some(format!("hang-up after {n} messages, pending call {pending}"));
    Ok(())
}
