//! C13: the COBS accumulator against a whole-segment reference.
use crate::report::*;
use crate::refc::*;
use postcard_rpc::accumulator::raw::{CobsAccumulator, FeedResult};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C13",
            rule: "a distinct case is a distinct (stream, chunking, buffer size) fed to the real accumulator; reports are compared with a whole-segment reference",
            scenarios: vec![
                Scenario { name: "streams", f: c13_stream, quick: 6000, weight: 4, serial: false },
                Scenario { name: "boundary", f: c13_boundary, quick: 600, weight: 2, serial: false },
                Scenario { name: "exhaustive_small", f: c13_exhaustive, quick: 32, weight: 1, serial: false },
            ],
            assumptions: &["a segment is decodable iff cobs::decode_in_place accepts the whole segment with its terminator"],
            must_see: &["frames_ok", "overfull", "deser_error", "exact_fill_ok", "good_after_overfull", "good_after_deser_error"],
        },
    ]
}

// ------------------------------------------------------------------ C13

#[derive(Clone, Debug, PartialEq)]
enum Rep {
    Frame(Vec<u8>),
    Error,
}

/// What the stream must produce, segment by segment (only terminated segments count)
fn c13_reference(stream: &[u8], n: usize) -> Vec<Rep> {
    let mut out = vec![];
    let mut start = 0;
    for (i, b) in stream.iter().enumerate() {
        if *b == 0 {
            let seg = &stream[start..=i];
            if seg.len() > n {
                out.push(Rep::Error);
            } else {
                let mut s = seg.to_vec();
                match cobs::decode_in_place(&mut s) {
                    Ok(k) => out.push(Rep::Frame(s[..k].to_vec())),
                    Err(_) => out.push(Rep::Error),
                }
            }
            start = i + 1;
        }
    }
    out
}

/// feed chunks, return frames together with the index of the segment (number of zero bytes
/// consumed so far) in which each report was made
fn c13_feed<const N: usize>(c: &mut Case, chunks: &[&[u8]]) -> Result<Vec<(usize, Rep)>, String> {
    let mut acc = Box::new(CobsAccumulator::<N>::new());
    let mut out = vec![];
    let mut zeros = 0usize;
    for ch in chunks {
        let mut win: &[u8] = ch;
        let mut guard = 0;
        let mut stuck = 0;
        while !win.is_empty() {
            guard += 1;
            if guard > 2 * ch.len() + 16 {
                return Err(format!("feeding a {}-byte chunk never finishes", ch.len()));
            }
            let before = win;
            let r = if c.rng.chance(1, 2) { acc.feed(win) } else { acc.feed_ref(win) };
            let (rep, rest): (Option<Rep>, &[u8]) = match r {
                FeedResult::Consumed => (None, &[]),
                FeedResult::OverFull(rest) => {
                    c.count("overfull", 1);
                    (Some(Rep::Error), rest)
                }
                FeedResult::DeserError(rest) => {
                    c.count("deser_error", 1);
                    (Some(Rep::Error), rest)
                }
                FeedResult::Success { data, remaining } => (Some(Rep::Frame(data.to_vec())), remaining),
            };
            if rest.len() > before.len() || rest != &before[before.len() - rest.len()..] {
                return Err("the remaining input is not a tail of the input".into());
            }
            if rest.len() == before.len() {
                stuck += 1;
                if stuck > 2 {
                    return Err("no input consumed, repeatedly".into());
                }
            } else {
                stuck = 0;
            }
            let used = &before[..before.len() - rest.len()];
            let z = used.iter().filter(|b| **b == 0).count();
            if let Some(rep) = rep {
                // a report made before the terminator was consumed belongs to the running segment
                let ends = used.last() == Some(&0);
                let seg = if ends { zeros + z - 1 } else { zeros + z };
                out.push((seg, rep));
            }
            zeros += z;
            win = rest;
        }
    }
    Ok(out)
}

fn c13_check<const N: usize>(c: &mut Case, stream: &[u8], cuts: &[usize]) -> Result<(), String> {
    let mut chunks: Vec<&[u8]> = vec![];
    let mut p = 0;
    for &x in cuts {
        chunks.push(&stream[p..x]);
        p = x;
    }
    chunks.push(&stream[p..]);
    c.log(|| format!("buffer {N}, chunks {:?}, stream {}", chunks.iter().map(|c| c.len()).collect::<Vec<_>>(), hex(stream)));
    let want = c13_reference(stream, N);
    let got = c13_feed::<N>(c, &chunks)?;
    // frames must be exactly the decodable segments, in order, and reported in their own segment
    let wf: Vec<&Vec<u8>> = want.iter().filter_map(|r| if let Rep::Frame(f) = r { Some(f) } else { None }).collect();
    let gf: Vec<&Vec<u8>> = got.iter().filter_map(|(_, r)| if let Rep::Frame(f) = r { Some(f) } else { None }).collect();
    if wf != gf {
        return Err(format!(
            "buffer {N}: frames {:?}, expected {:?}; stream {} cut at {cuts:?}",
            gf.iter().map(|f| hex(f)).collect::<Vec<_>>(),
            wf.iter().map(|f| hex(f)).collect::<Vec<_>>(),
            hex(stream)
        ));
    }
    // every bad terminated segment produced an error no later than its terminator; no good segment did
    let tail_over = stream.len() - stream.iter().rposition(|b| *b == 0).map(|p| p + 1).unwrap_or(0) > N;
    let mut errs = vec![0usize; want.len() + 1];
    for (seg, r) in &got {
        if *r == Rep::Error {
            errs[(*seg).min(want.len())] += 1;
        }
    }
    for (i, w) in want.iter().enumerate() {
        match w {
            Rep::Frame(_) => {
                c.count("frames_ok", 1);
                if errs[i] != 0 {
                    return Err(format!("buffer {N}: an error was reported for the well-formed segment {i} of {} cut at {cuts:?}", hex(stream)));
                }
                if i > 0 && want[i - 1] == Rep::Error {
                    c.count("good_after_error", 1);
                }
            }
            Rep::Error => {
                if errs[i] == 0 {
                    return Err(format!("buffer {N}: no error reported for the bad segment {i} of {} cut at {cuts:?}", hex(stream)));
                }
            }
        }
    }
    if errs[want.len()] > 0 && !tail_over {
        return Err(format!("buffer {N}: an error was reported for the unfinished tail that still fits, stream {} cut at {cuts:?}", hex(stream)));
    }
    // order of good frames relative to bad neighbours
    let mut prev: Option<(usize, bool)> = None;
    let mut s = 0usize;
    for (i, b) in stream.iter().enumerate() {
        if *b == 0 {
            let len = i + 1 - s;
            let idx = stream[..=i].iter().filter(|b| **b == 0).count() - 1;
            let ok = matches!(want[idx], Rep::Frame(_));
            if ok && len == N {
                c.count("exact_fill_ok", 1);
            }
            if let Some((plen, pok)) = prev {
                if ok && !pok {
                    c.count(if plen > N { "good_after_overfull" } else { "good_after_deser_error" }, 1);
                }
            }
            prev = Some((len, ok));
            s = i + 1;
        }
    }
    Ok(())
}

fn c13_dispatch(c: &mut Case, which: usize, stream: &[u8], cuts: &[usize]) -> Result<(), String> {
    match which {
        0 => c13_check::<1>(c, stream, cuts),
        1 => c13_check::<2>(c, stream, cuts),
        2 => c13_check::<3>(c, stream, cuts),
        3 => c13_check::<8>(c, stream, cuts),
        4 => c13_check::<16>(c, stream, cuts),
        5 => c13_check::<64>(c, stream, cuts),
        6 => c13_check::<256>(c, stream, cuts),
        7 => c13_check::<300>(c, stream, cuts),
        _ => c13_check::<1024>(c, stream, cuts),
    }
}
const C13_NS: [usize; 9] = [1, 2, 3, 8, 16, 64, 256, 300, 1024];

fn rand_cuts(c: &mut Case, len: usize) -> Vec<usize> {
    let mut cuts = vec![];
    match c.rng.below(6) {
        0 => {}
        1 => cuts = (1..len).collect(),
        2 => {
            let k = c.rng.range(1, 70);
            cuts = (1..).map(|i| i * k).take_while(|x| *x < len).collect();
        }
        _ => {
            let mean = c.rng.range(1, 40);
            let mut p = 0;
            loop {
                p += c.rng.range(0, 2 * mean);
                if p >= len {
                    break;
                }
                cuts.push(p);
            }
        }
    }
    cuts
}

pub fn cobs_enc(p: &[u8]) -> Vec<u8> {
    let mut v = cobs::encode_vec(p);
    v.push(0);
    v
}

pub fn c13_segment(c: &mut Case, n: usize, s: &mut Vec<u8>) {
    match c.rng.below(12) {
        0..=4 => {
            let m = c.rng.below(n.max(2) + 1);
            let mut p = c.rng.bytes(m);
            if c.rng.chance(1, 2) {
                for b in p.iter_mut() {
                    if c.rng.chance(1, 4) {
                        *b = 0;
                    }
                }
            }
            s.extend(cobs_enc(&p));
        }
        5 => {
            // around the buffer size, exactly
            let want = (n + 1).saturating_sub(c.rng.below(4));
            let p = vec![0x11u8; want.saturating_sub(2 + want / 255)];
            s.extend(cobs_enc(&p));
        }
        6 => {
            // too long
            let m = n + c.rng.below(n * 3 + 5);
            let p = c.rng.bytes(m);
            s.extend(cobs_enc(&p));
        }
        7 => {
            // garbage without zero, then zero
            let m = c.rng.below(n * 2 + 3);
            s.extend(c.rng.bytes(m).into_iter().map(|b| b.max(1)));
            s.push(0);
        }
        8 => s.push(0),
        9 => {
            // corrupted frame
            let m = c.rng.below(n.min(60) + 1);
            let p = c.rng.bytes(m);
            let mut e = cobs_enc(&p);
            let i = c.rng.below(e.len());
            e[i] = c.rng.u8();
            s.extend(e);
        }
        10 => {
            let m = c.rng.below(8);
            s.extend(c.rng.bytes(m));
        }
        _ => {
            // an over-long segment whose tail would itself decode
            let m = n + c.rng.below(n + 3);
            s.extend(vec![0xffu8; m]);
            let q = c.rng.below(n.max(2));
            let p = c.rng.bytes(q);
            s.extend(cobs_enc(&p));
        }
    }
}

fn c13_stream(c: &mut Case) -> Result<(), String> {
    let which = c.rng.below(9);
    let n = C13_NS[which];
    let mut s = vec![];
    for _ in 0..c.rng.range(1, 10) {
        c13_segment(c, n, &mut s);
    }
    let cuts = rand_cuts(c, s.len());
    c.sig_bytes(&s);
    c.sig(cuts.iter().fold(which as u64, |a, b| a.wrapping_mul(31).wrapping_add(*b as u64)));
    c.nontrivial = s.len() > 1;
    c.note = Some(format!("buffer {n}, {} bytes in {} chunks", s.len(), cuts.len() + 1));
    c13_dispatch(c, which, &s, &cuts)
}

/// frames of every encoded length around the buffer size, cut at every place
fn c13_boundary(c: &mut Case) -> Result<(), String> {
    let which = c.rng.below(9);
    let n = C13_NS[which];
    let delta = c.rng.below(6);
    let enc_len = (n + 3).saturating_sub(delta).max(1);
    let mut seg: Vec<u8> = cobs_enc(&vec![0x5au8; enc_len.saturating_sub(2)]);
    while seg.len() > enc_len && seg.len() > 2 {
        seg = cobs_enc(&vec![0x5au8; seg.len().saturating_sub(3 + seg.len() / 254)]);
    }
    let tail = cobs_enc(&[1]);
    let mut s = seg.clone();
    s.extend(&tail);
    s.extend(&seg);
    s.extend(&tail);
    c.sig(seg.len() as u64 * 16 + which as u64);
    c.nontrivial = true;
    c.evals = 0;
    for cut in 0..s.len() {
        c.evals += 1;
        c13_dispatch(c, which, &s, &[cut])?;
    }
    let all: Vec<usize> = (1..s.len()).collect();
    c13_dispatch(c, which, &s, &all)
}

/// all streams of length 7 over a small alphabet, all chunkings, tiny buffers
fn c13_exhaustive(c: &mut Case) -> Result<(), String> {
    const AL: [u8; 4] = [0, 1, 2, 3];
    c.nontrivial = true;
    c.evals = 0;
    let slice = c.rng.below(16);
    c.sig(slice as u64);
    for idx in (0..4usize.pow(6)).filter(|i| i % 16 == slice) {
        let mut x = idx;
        let s: Vec<u8> = (0..6)
            .map(|_| {
                let b = AL[x % 4];
                x /= 4;
                b
            })
            .chain([0u8, 2, 7, 0])
            .collect();
        for mask in [0usize, 1, 2, 5, 10, 21, 42, 63, 0x155, 0x2aa, 0x1ff, c.rng.below(512)] {
            let cuts: Vec<usize> = (0..9).filter(|i| mask >> i & 1 == 1).map(|i| i + 1).collect();
            for which in 1..5 {
                c.evals += 1;
                c13_dispatch(c, which, &s, &cuts)?;
            }
        }
    }
    Ok(())
}
