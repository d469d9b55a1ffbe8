//! Slicing: grants, multiplexing, and what inner codecs are told about the end of the stream.
use crate::enc::{self, Enc};
use crate::engine::{tick, Fail, Prop, Src, R};
use crate::spec::{self, Ctx, Out, Spec, Tot};
use crate::val::Val;
use crate::{drive, ensure, fail};
use bytecodec::bytes::{BytesEncoder, RemainingBytesDecoder, Utf8Decoder};
use bytecodec::combinator::Slice;
use bytecodec::fixnum::{U16beDecoder, U8Decoder};
use bytecodec::null::NullDecoder;
use bytecodec::{ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos, ErrorKind, SizedEncode};
use std::cell::RefCell;
use std::rc::Rc;

/// One logical stream: a decoder, its counterpart encoder, the items and their bytes.
struct Stream {
    d: spec::S,
    e: enc::E,
    items: Vec<Val>,
    bytes: Vec<u8>,
}
fn gen_stream(s: &mut Src) -> Option<Stream> {
    for _ in 0..6 {
        let depth = s.range(0, 2);
        let d = spec::gen(s, depth, Ctx { eos: false, reuse: true, min1: true });
        // a limit may count what lies beyond the slice
        if spec::contains(&d, &|x| matches!(x, Spec::MaxBytes(..))) || spec::eats_all(&d) {
            continue;
        }
        let Some(e) = enc::counterpart(&d) else { continue };
        let e = Rc::new(e);
        let mut items = vec![];
        let mut bytes: Vec<u8> = vec![];
        for _ in s.turns(1, 4) {
            s.refill();
            let b = spec::sample(&d, s, s.size.min(16));
            let Out::Done { val: Ok(v), .. } = spec::parse(&d, &b, true, Tot::Unknown) else { continue };
            let enc::Ser::Run { bytes: b, end: enc::SerEnd::Done } = enc::ser(&e, &v) else { continue };
            match spec::parse(&d, &b, false, Tot::Unknown) {
                Out::Done { val: Ok(w), used } if w == v && used == b.len() => {
                    items.push(v);
                    bytes.extend(b);
                }
                _ => {}
            }
            if s.full(bytes.len()) {
                break;
            }
        }
        if !items.is_empty() {
            return Some(Stream { d, e, items, bytes });
        }
    }
    None
}
fn grant(s: &mut Src) -> u64 {
    if s.big {
        return match s.draw(8) {
            0 => 0,
            1 => 1,
            2 => s.range(1, 30) as u64,
            3 | 4 => s.wide(70_000) as u64,
            5 => *s.pick(&[127u64, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 8192, 65535, 65536]),
            _ => 1_000_000,
        };
    }
    match s.draw(8) {
        0 => 0,
        1 | 2 | 3 => 1,
        4 => 2,
        5 => s.range(1, 5) as u64,
        6 => s.range(1, 30) as u64,
        _ => 1000,
    }
}
enum Sl {
    P(Slice<crate::val::DynEnc>),
    S(Slice<crate::val::DynSized>),
}
impl Sl {
    fn enc(&mut self) -> &mut dyn Encode<Item = Val> {
        match self {
            Sl::P(e) => e,
            Sl::S(e) => e,
        }
    }
    fn left(&self) -> u64 {
        match self {
            Sl::P(e) => e.consumable_bytes(),
            Sl::S(e) => e.consumable_bytes(),
        }
    }
    fn set(&mut self, n: u64) {
        match self {
            Sl::P(e) => e.set_consumable_bytes(n),
            Sl::S(e) => e.set_consumable_bytes(n),
        }
    }
    fn suspended(&self) -> bool {
        match self {
            Sl::P(e) => e.is_suspended(),
            Sl::S(e) => e.is_suspended(),
        }
    }
}
fn c17_mux(s: &mut Src) -> R {
    let n = s.range(1, 4);
    let mut streams = vec![];
    for _ in 0..n {
        if let Some(x) = gen_stream(s) {
            streams.push(x);
        }
    }
    if streams.is_empty() || streams.iter().map(|x| x.bytes.len()).sum::<usize>() > s.bulk() {
        return Ok(());
    }
    let n = streams.len();
    s.note(|| streams.iter().map(|x| format!("stream {:?} / {:?}: {:?}\n", x.d, x.e, x.items)).collect());
    let total: usize = streams.iter().map(|x| x.bytes.len()).sum();
    // multiplex
    let mut encs: Vec<(Sl, usize, Vec<u8>)> = vec![];
    for x in &streams {
        let e = match Enc::new(&x.e, s) {
            Enc::Plain(e) => Sl::P(e.slice()),
            Enc::Sized(e) => Sl::S(e.slice()),
        };
        ensure!(e.suspended() && e.left() == 0, "a fresh slice may move {} bytes", e.left());
        encs.push((e, 0, vec![]));
    }
    let mut shared: Vec<u8> = vec![];
    let mut blocks: Vec<(usize, usize)> = vec![];
    let mut rounds = 0;
    loop {
        let open: Vec<usize> = (0..n).filter(|i| encs[*i].1 < streams[*i].items.len() || !encs[*i].0.enc().is_idle()).collect();
        if open.is_empty() {
            break;
        }
        rounds += 1;
        ensure!(rounds < 4000 + 40 * (total.min(10_000) + streams.iter().map(|x| x.items.len()).sum::<usize>()), "multiplexing does not end");
        let i = *s.pick(&open);
        let g = if rounds > if s.big { 200 } else { 3000 } { if s.big { 10_000_000 } else { 1000 } } else { grant(s) };
        let (e, next, own) = &mut encs[i];
        e.set(g);
        ensure!(e.left() == g && e.suspended() == (g == 0), "granted {g}: consumable_bytes {}, is_suspended {}", e.left(), e.suspended());
        let mut block = 0u64;
        for k in 0.. {
            ensure!(k < 4000 + 40 * (total + streams[i].items.len()), "encoding within a grant does not end");
            if e.enc().is_idle() {
                if *next == streams[i].items.len() {
                    break;
                }
                if let Err(x) = e.enc().start_encoding(streams[i].items[*next].clone()) {
                    fail!("item refused with {:?}; {:?}", x.kind(), streams[i].e);
                }
                *next += 1;
                continue;
            }
            let stop = e.suspended();
            let c = if s.big { s.piece(total.max(1), 0, k + rounds) } else { s.range(0, if s.size > 10 { 12 } else { 3 }) };
            let mut buf = vec![0xA5u8; c + 1];
            let eos = match s.draw(3) {
                0 => Eos::with_remaining_bytes(ByteCount::Infinite),
                1 => Eos::with_remaining_bytes(ByteCount::Finite(2000 + total as u64)),
                _ => Eos::new(false),
            };
            let m = match e.enc().encode(&mut buf[..c], eos) {
                Ok(m) => m,
                Err(x) => fail!("encoding failed with {:?}; {:?}", x.kind(), streams[i].e),
            };
            block += m as u64;
            ensure!(m <= c && block <= g, "{block} bytes written with {g} granted; {:?}", streams[i].e);
            ensure!(e.left() == g - block, "{block} of {g} granted bytes written but consumable_bytes is {}; {:?}", e.left(), streams[i].e);
            ensure!(e.suspended() == (block == g), "is_suspended {} with {} left", e.suspended(), g - block);
            ensure!(buf[m..].iter().all(|b| *b == 0xA5), "bytes written beyond the grant: {buf:02x?} ({m} reported); {:?}", streams[i].e);
            shared.extend_from_slice(&buf[..m]);
            own.extend_from_slice(&buf[..m]);
            if stop {
                ensure!(m == 0, "suspended slice wrote {m} bytes");
                s.label("encode while suspended");
                break;
            }
            if e.suspended() && !s.one_in(4) {
                break;
            }
        }
        if block > 0 {
            blocks.push((i, block as usize));
        }
    }
    for (i, x) in streams.iter().enumerate() {
        ensure!(encs[i].2 == x.bytes, "sliced encoder wrote {:02x?}, expected {:02x?}; {:?}", encs[i].2, x.bytes, x.e);
    }
    s.nontrivial_if(n > 1 && blocks.len() > n && total > 3);
    s.label_if(blocks.len() > 2 * n, "finely interleaved");
    // demultiplex
    let mut decs: Vec<(Slice<crate::val::DynDec>, Vec<Val>)> = streams.iter().map(|x| (spec::build(&x.d).slice(), vec![])).collect();
    let mut pos = 0;
    let end_known = s.draw(3);
    for (i, len) in blocks {
        // one block may be granted in parts
        let mut todo = len;
        let mut parts = 0;
        while todo > 0 {
            let g = if s.bool() || parts > 30 { todo } else { s.range(1, todo) };
            todo -= g;
            parts += 1;
            let d = &mut decs[i].0;
            d.set_consumable_bytes(g as u64);
            let mut used = 0;
            for k in 0.. {
                ensure!(k < 3000 + 20 * total, "decoding within a grant does not end");
                let rest = shared.len() - pos;
                let c = match s.draw(4) {
                    0 => rest,
                    1 => (g - used).min(rest),
                    _ => s.piece(rest, 8, k),
                };
                let eos = match end_known {
                    0 => Eos::new(c == rest),
                    1 => Eos::with_remaining_bytes(ByteCount::Finite((rest - c) as u64)),
                    _ => Eos::new(false),
                };
                let stop = d.is_suspended();
                let m = match d.decode(&shared[pos..pos + c], eos) {
                    Ok(m) => m,
                    Err(x) => fail!("sliced decoder failed with {:?} ({used} of {g} granted bytes used, {c} offered, {eos:?}); {:?}", x.kind(), streams[i].d),
                };
                used += m;
                pos += m;
                ensure!(m <= c && used <= g, "{used} bytes consumed with {g} granted; {:?}", streams[i].d);
                ensure!(d.consumable_bytes() == (g - used) as u64 && d.is_suspended() == (used == g), "{used} of {g} granted bytes consumed but consumable_bytes is {}; {:?}", d.consumable_bytes(), streams[i].d);
                s.label_if(c > g - (used - m), "bytes withheld");
                if d.is_idle() {
                    let left = d.consumable_bytes();
                    match d.finish_decoding() {
                        Ok(v) => decs[i].1.push(v),
                        Err(x) => fail!("item refused with {:?}; {:?}", x.kind(), streams[i].d),
                    }
                    let d = &mut decs[i].0;
                    ensure!(d.consumable_bytes() == left, "taking an item changed the grant");
                    if used == g {
                        break;
                    }
                    return_if_stuck(k)?;
                    // go on with the next item of the block
                    let d2 = &mut decs[i].0;
                    ensure!(!d2.is_idle() || m > 0, "idle again");
                    continue_block(s, &mut decs[i], &streams[i], &shared, &mut pos, &mut used, g, end_known)?;
                    break;
                }
                ensure!(m == c.min(g - (used - m)), "not complete but only {m} bytes consumed of {c} offered, {} granted; {:?}", g - (used - m), streams[i].d);
                if stop {
                    s.label("decode while suspended");
                    break;
                }
                if used == g && !s.one_in(4) {
                    break;
                }
            }
            ensure!(used == g, "{used} of {g} granted bytes consumed; {:?}", streams[i].d);
        }
    }
    ensure!(pos == shared.len(), "{} bytes left over", shared.len() - pos);
    for (i, x) in streams.iter().enumerate() {
        ensure!(decs[i].1 == x.items, "stream {i}: sent {:?}, received {:?}; {:?}", x.items, decs[i].1, x.d);
    }
    Ok(())
}
fn return_if_stuck(k: usize) -> R {
    ensure!(k < 100_000, "stuck");
    Ok(())
}
/// Plain loop for the rest of a block after its first complete item.
#[allow(clippy::too_many_arguments)]
fn continue_block(s: &mut Src, dec: &mut (Slice<crate::val::DynDec>, Vec<Val>), x: &Stream, shared: &[u8], pos: &mut usize, used: &mut usize, g: usize, end_known: u64) -> R {
    let mut calls = 0;
    while *used < g {
        calls += 1;
        ensure!(calls < 3000 + 20 * shared.len(), "decoding within a grant does not end; {:?}", x.d);
        let rest = shared.len() - *pos;
        let c = if s.bool() { rest } else { s.piece(rest, 8, calls) };
        let eos = match end_known {
            0 => Eos::new(c == rest),
            1 => Eos::with_remaining_bytes(ByteCount::Finite((rest - c) as u64)),
            _ => Eos::new(false),
        };
        let m = match dec.0.decode(&shared[*pos..*pos + c], eos) {
            Ok(m) => m,
            Err(e) => fail!("sliced decoder failed with {:?}; {:?}", e.kind(), x.d),
        };
        *used += m;
        *pos += m;
        ensure!(m <= c && *used <= g && dec.0.consumable_bytes() == (g - *used) as u64, "{used} of {g} granted bytes consumed, consumable_bytes {}; {:?}", dec.0.consumable_bytes(), x.d);
        if dec.0.is_idle() {
            match dec.0.finish_decoding() {
                Ok(v) => dec.1.push(v),
                Err(e) => fail!("item refused with {:?}; {:?}", e.kind(), x.d),
            }
        }
    }
    Ok(())
}

/// Records every call; takes `want` bytes per item.
#[derive(Default)]
struct Log(Vec<(usize, Eos)>);
struct SpyD {
    log: Rc<RefCell<Log>>,
    want: usize,
    got: Vec<u8>,
    /// takes at most so many bytes in one call
    gulp: usize,
}
impl Decode for SpyD {
    type Item = Vec<u8>;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        tick();
        self.log.borrow_mut().0.push((buf.len(), eos));
        let n = buf.len().min(self.want - self.got.len()).min(self.gulp);
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<Vec<u8>> {
        Ok(std::mem::take(&mut self.got))
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite((self.want - self.got.len()) as u64)
    }
}
struct SpyE {
    log: Rc<RefCell<Log>>,
    left: usize,
    gulp: usize,
}
impl Encode for SpyE {
    type Item = usize;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        tick();
        self.log.borrow_mut().0.push((buf.len(), eos));
        let n = buf.len().min(self.left).min(self.gulp);
        buf[..n].fill(0x77);
        self.left -= n;
        Ok(n)
    }
    fn start_encoding(&mut self, n: usize) -> bytecodec::Result<()> {
        self.left = n;
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(self.left as u64)
    }
}
impl SizedEncode for SpyE {
    fn exact_requiring_bytes(&self) -> u64 {
        self.left as u64
    }
}
fn any_eos(s: &mut Src) -> Eos {
    match s.draw(6) {
        0 => Eos::with_remaining_bytes(ByteCount::Infinite),
        1 => Eos::new(false),
        2 | 3 => Eos::new(true),
        4 => Eos::with_remaining_bytes(ByteCount::Finite(s.int(64))),
        _ => Eos::with_remaining_bytes(ByteCount::Finite(s.len(40) as u64)),
    }
}
fn told(eos: Eos, withheld: usize) -> Eos {
    match eos.remaining_bytes() {
        ByteCount::Finite(n) => Eos::with_remaining_bytes(ByteCount::Finite(n.saturating_add(withheld as u64))),
        _ => eos,
    }
}
fn any_grant(s: &mut Src) -> u64 {
    match s.draw(6) {
        0 => u64::MAX,
        1 => s.int(64),
        2 => 0,
        _ => s.amount(30) as u64,
    }
}
/// Every call: what the inner codec is given and told, and the account of the grant.
fn c17_calls(s: &mut Src) -> R {
    let log = Rc::new(RefCell::new(Log::default()));
    let gulp = if s.bool() { 1_000_000 } else { s.range(0, 5) };
    let mut d = SpyD { log: log.clone(), want: s.amount(60), got: vec![], gulp }.slice();
    let mut e = SpyE { log: log.clone(), left: 0, gulp }.slice();
    let mut left = (0u64, 0u64);
    let mut moved = 0;
    for _ in s.turns(1, 14) {
        match s.draw(7) {
            0 | 1 => {
                let g = any_grant(s);
                if s.bool() {
                    d.set_consumable_bytes(g);
                    left.0 = g;
                } else {
                    e.set_consumable_bytes(g);
                    left.1 = g;
                }
            }
            2 => {
                let n = s.amount(60);
                ensure!(e.start_encoding(n).is_ok(), "start refused");
                ensure!(e.inner_ref().left == n && e.exact_requiring_bytes() == n as u64 && e.requiring_bytes() == ByteCount::Finite(n as u64) && e.is_idle() == (n == 0), "the slice hides its encoder's need");
            }
            3 => {
                if d.is_idle() {
                    ensure!(d.inner_ref().got.len() == d.inner_ref().want, "idle");
                    ensure!(d.finish_decoding().is_ok(), "finish refused");
                }
            }
            4 | 5 => {
                let c = s.amount(40);
                let eos = any_eos(s);
                let limit = left.0.min(c as u64) as usize;
                let expect = limit.min(d.inner_ref().want - d.inner_ref().got.len()).min(gulp);
                let buf = s.bytes(c);
                let had = d.inner_ref().got.len();
                log.borrow_mut().0.clear();
                match d.decode(&buf, eos) {
                    Ok(n) => ensure!(n == expect, "sliced decode gave {n}, expected {expect} ({c} offered, {} granted)", left.0),
                    Err(x) => fail!("{:?}", x.kind()),
                }
                ensure!(log.borrow().0 == [(limit, told(eos, c - limit))], "decoder offered {c} bytes and {eos:?} under a grant of {}: inner calls {:?}, expected {limit} bytes and {:?}", left.0, log.borrow().0, told(eos, c - limit));
                ensure!(d.inner_ref().got[had..] == buf[..expect], "wrong bytes passed");
                left.0 -= expect as u64;
                moved += expect;
                s.label_if(eos.is_reached() && limit < c, "end signalled with bytes withheld");
            }
            _ => {
                let c = s.amount(40);
                let eos = any_eos(s);
                let limit = left.1.min(c as u64) as usize;
                let expect = limit.min(e.inner_ref().left).min(gulp);
                let mut buf = vec![0u8; c];
                log.borrow_mut().0.clear();
                match e.encode(&mut buf, eos) {
                    Ok(n) => ensure!(n == expect, "sliced encode gave {n}, expected {expect} (room {c}, {} granted)", left.1),
                    Err(x) => fail!("{:?}", x.kind()),
                }
                ensure!(log.borrow().0 == [(limit, told(eos, c - limit))], "encoder with room {c} and {eos:?} under a grant of {}: inner calls {:?}, expected {limit} bytes and {:?}", left.1, log.borrow().0, told(eos, c - limit));
                ensure!(buf[expect..].iter().all(|b| *b == 0) && buf[..expect].iter().all(|b| *b == 0x77), "wrong bytes written");
                left.1 -= expect as u64;
                moved += expect;
                s.label_if(eos.is_reached() && limit < c, "end signalled with room withheld");
            }
        }
        ensure!(d.consumable_bytes() == left.0 && e.consumable_bytes() == left.1, "grants are {} and {}, expected {left:?}", d.consumable_bytes(), e.consumable_bytes());
        ensure!(d.is_suspended() == (left.0 == 0) && e.is_suspended() == (left.1 == 0), "is_suspended");
        ensure!(d.is_idle() == (d.inner_ref().want == d.inner_ref().got.len()), "idleness hidden");
    }
    s.nontrivial_if(moved > 1);
    Ok(())
}
/// F16.
fn pin_slice_huge() -> R {
    let log = Rc::new(RefCell::new(Log::default()));
    let mut d = SpyD { log: log.clone(), want: 9, got: vec![], gulp: 9 }.slice();
    d.set_consumable_bytes(2);
    let eos = Eos::with_remaining_bytes(ByteCount::Finite(u64::MAX));
    ensure!(d.decode(&[1, 2, 3], eos).ok() == Some(2), "refused");
    ensure!(log.borrow().0 == [(2, eos)], "told {:?}", log.borrow().0);
    Ok(())
}
/// A decoder to the end of the stream under grants: complete exactly when the end is reached and nothing is withheld.
fn c17_end(s: &mut Src) -> R {
    let n = s.amount(30);
    let data = s.bytes(n);
    let mut d = RemainingBytesDecoder::new().slice();
    let mut pos = 0;
    let mut left = 0u64;
    let mut calls = 0;
    loop {
        calls += 1;
        if calls > 300 {
            left = 1_000_000;
            d.set_consumable_bytes(left);
        }
        if s.bool() || left == 0 && s.bool() {
            left = grant(s);
            d.set_consumable_bytes(left);
        }
        let c = s.range(0, n - pos);
        let eos = if s.bool() { Eos::new(pos + c == n) } else { Eos::with_remaining_bytes(ByteCount::Finite((n - pos - c) as u64)) };
        let exp = (c as u64).min(left) as usize;
        match d.decode(&data[pos..pos + c], eos) {
            Ok(k) => ensure!(k == exp, "consumed {k}, expected {exp} ({c} offered, {left} granted)"),
            Err(x) => fail!("{:?}", x.kind()),
        }
        let done = eos.is_reached() && exp == c;
        pos += exp;
        left -= exp as u64;
        ensure!(d.is_idle() == done, "idle {} after {pos} of {n} bytes, {c} offered, {exp} granted, {eos:?}", d.is_idle());
        if done {
            break;
        }
        s.label_if(eos.is_reached(), "end signalled with bytes withheld");
        if calls > 400 {
            fail!("no end");
        }
    }
    s.nontrivial_if(calls > 2 && n > 2);
    match d.finish_decoding() {
        Ok(b) => ensure!(b == data, "got {b:02x?}, expected {data:02x?}"),
        Err(x) => fail!("{:?}", x.kind()),
    }
    Ok(())
}

// ---- C34 ----
struct Observe;
impl Observe {
    fn new() -> Observe {
        spec::observe_frames(true);
        enc::observe_frames(true);
        Observe
    }
}
impl Drop for Observe {
    fn drop(&mut self) {
        spec::observe_frames(false);
        enc::observe_frames(false);
    }
}
fn c34_dec(s: &mut Src, depth: usize) -> R {
    let reuse = s.bool();
    let mut d = spec::gen(s, depth, Ctx::top(reuse));
    if s.one_in(6) {
        d = Rc::new(Spec::MaybeEos(d));
    }
    let bad = if s.bool() { 0 } else { 4 };
    let hold = s.one_in(4);
    let _o = Observe::new();
    let r = drive::drive(s, &d, 3, bad, drive::Opt { hold, ..drive::PLAIN });
    let (lie, seen) = spec::frame_report();
    if let Some(l) = lie {
        fail!("{l}; spec {d:?}");
    }
    // the values are other properties' business
    if let Ok(o) = r {
        s.nontrivial_if(spec::nodes(&d) > 1 && seen > 2 && o.bytes > 1);
    }
    Ok(())
}
fn c34_decoders(s: &mut Src) -> R {
    let depth = s.range(1, 3);
    c34_dec(s, depth)
}
fn c34_deep(s: &mut Src) -> R {
    c34_dec(s, 5)
}
fn c34_encoders(s: &mut Src) -> R {
    let depth = s.range(1, 4);
    let sized = s.one_in(3);
    let e = enc::gen(s, depth, enc::Ctx { sized });
    let eos = s.bool();
    let _o = Observe::new();
    let r = enc::drive(s, &e, 3, enc::Opt { eos, ..enc::PLAIN });
    let (lie, seen) = enc::frame_report();
    if let Some(l) = lie {
        fail!("{l}; encoder {e:?}");
    }
    if let Ok(o) = r {
        s.nontrivial_if(enc::nodes(&e) > 1 && seen > 2 && o.bytes > 1);
    }
    Ok(())
}
/// One layer around a recording codec, arbitrary end-of-stream values.
fn c34_layers(s: &mut Src) -> R {
    let log = Rc::new(RefCell::new(Log::default()));
    let n = 1 + s.amount(20);
    let spy = SpyD { log: log.clone(), want: n, got: vec![], gulp: usize::MAX };
    let c = s.range(0, n);
    let buf = s.bytes(c);
    let which = s.draw(12);
    let pre = s.bytes(2);
    let eos = any_eos(s);
    s.nontrivial_if(c > 1);
    s.note(|| format!("layer {which}: {c} of {n} bytes, {eos:?}"));
    let mut expect = vec![(c, eos)];
    let mut fed = buf.clone();
    let r: bytecodec::Result<usize> = match which {
        0 => spy.map(|v| v.len()).decode(&fed, eos),
        1 => spy.try_map(Ok::<_, bytecodec::Error>).decode(&fed, eos),
        2 => spy.map_err(|e| e).decode(&fed, eos),
        3 => Utf8Decoder::with_bytes_decoder(spy).decode(&fed, eos),
        4 => spy.omit(false).decode(&fed, eos),
        5 => spy.peekable().decode(&fed, eos),
        6 => {
            if c == 0 && eos.is_reached() {
                expect = vec![(0, Eos::new(false))];
            }
            spy.maybe_eos().decode(&fed, eos)
        }
        7 => {
            fed = pre.clone();
            fed.extend(&buf);
            let c = RefCell::new(Some(spy));
            U16beDecoder::new().and_then(move |_| c.borrow_mut().take().unwrap()).decode(&fed, eos)
        }
        8 => {
            fed = pre.clone();
            fed.extend(&buf);
            U16beDecoder::new().chain(spy).decode(&fed, eos)
        }
        9 => {
            // another part follows
            let r = spy.chain(U8Decoder::new()).decode(&fed, eos);
            if r.is_err() && eos.is_reached() && c == n { Ok(c) } else { r }
        }
        10 => {
            let lim = u64::MAX;
            let big = eos.remaining_bytes();
            if big.is_infinite() || big.to_u64().is_some_and(|x| x > 1 << 60) {
                return Ok(());
            }
            spy.max_bytes(lim).decode(&fed, eos)
        }
        _ => {
            if c == 0 || c == n {
                // the number of calls is not the point here
                return Ok(());
            }
            let r = spy.collectn::<Vec<_>>(3).decode(&fed, eos);
            if r.is_err() && eos.is_reached() { Ok(c) } else { r }
        }
    };
    match r {
        Ok(k) => ensure!(k <= fed.len(), "consumed {k} of {}", fed.len()),
        Err(x) => fail!("layer {which} failed with {:?} on {c} of {n} bytes, {eos:?}", x.kind()),
    }
    ensure!(log.borrow().0 == expect, "layer {which} offered {c} bytes and {eos:?}: the inner decoder was given {:?}", log.borrow().0);
    Ok(())
}
/// One layer around a recording encoder, arbitrary end-of-stream values.
fn c34_encoder_layers(s: &mut Src) -> R {
    let log = Rc::new(RefCell::new(Log::default()));
    let n = 1 + s.amount(20);
    let gulp = if s.bool() { usize::MAX } else { s.range(1, 4) };
    let spy = SpyE { log: log.clone(), left: 0, gulp };
    let c = s.range(0, n);
    let eos = any_eos(s);
    let which = s.draw(13);
    s.note(|| format!("layer {which}: room {c} for {n} bytes, at most {gulp} per call, {eos:?}"));
    // bytes written before the recording encoder gets its turn
    let mut before = 0;
    let mut told_eos = eos;
    let mut room = c;
    let mut buf = vec![0u8; c];
    fn go<E: Encode>(mut e: E, item: E::Item, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        e.start_encoding(item)?;
        e.encode(buf, eos)
    }
    let r = match which {
        0 => go(spy.map_from(|x: u32| x as usize), n as u32, &mut buf, eos),
        1 => go(spy.try_map_from(|x: u32| Ok::<_, bytecodec::Error>(x as usize)), n as u32, &mut buf, eos),
        2 => go(spy.map_err(|e: bytecodec::Error| e), n, &mut buf, eos),
        3 => go(spy.optional(), Some(n), &mut buf, eos),
        4 => go(spy.max_bytes(u64::MAX), n, &mut buf, eos),
        5 => spy.last(n).encode(&mut buf, eos),
        6 => {
            buf = vec![0; c + 2];
            before = 2;
            go(bytecodec::fixnum::U16beEncoder::new().chain(spy), (7, n), &mut buf, eos)
        }
        7 => {
            let r = go(spy.chain(bytecodec::fixnum::U8Encoder::new()), (n, 7), &mut buf, eos);
            if r.is_err() && eos.is_reached() && c == n { Ok(c) } else { r }
        }
        8 => go(spy.repeat(), std::iter::once(n), &mut buf, eos),
        9 => go(Box::new(spy) as Box<dyn Encode<Item = usize>>, n, &mut buf, eos),
        10 => {
            let mut spy = spy;
            go(&mut spy, n, &mut buf, eos)
        }
        11 => {
            let g = any_grant(s);
            room = g.min(c as u64) as usize;
            told_eos = told(eos, c - room);
            let mut e = spy.slice();
            e.set_consumable_bytes(g);
            go(e, n, &mut buf, eos)
        }
        _ => {
            // of the encoder's bytes, as many remain as the length says, or fewer if the output ends before
            if c < n && eos.is_reached() {
                return Ok(());
            }
            let after = (n - c) as u64;
            let k = eos.remaining_bytes().to_u64().map_or(after, |x| x.min(after));
            told_eos = Eos::with_remaining_bytes(ByteCount::Finite(k));
            go(spy.length(n as u64), n, &mut buf, eos)
        }
    };
    let k = match r {
        Ok(k) => k,
        Err(x) => fail!("layer {which} failed with {:?} with room {c} for {n} bytes, {eos:?}", x.kind()),
    };
    let l = log.borrow();
    ensure!(!l.0.is_empty(), "layer {which}: the encoder was not called");
    for (i, (got, e)) in l.0.iter().enumerate() {
        let room = room.saturating_sub((i as u64).saturating_mul(gulp as u64) as usize);
        ensure!((*got, *e) == (room, told_eos), "layer {which}, room {} and {eos:?}, call {i}: the inner encoder was given room {got} and {e:?}, expected {room} and {told_eos:?}", buf.len());
    }
    let all = before + room.min(gulp.saturating_mul(l.0.len()));
    ensure!(k == all || which == 7 && k == c, "layer {which} wrote {k}, its inner encoder {all}");
    s.nontrivial_if(c > 1);
    Ok(())
}
/// One layer around a recording decoder, call after call.
fn c34_layer_calls(s: &mut Src) -> R {
    let log = Rc::new(RefCell::new(Log::default()));
    let n = 1 + s.amount(20);
    let gulp = if s.bool() { usize::MAX } else { s.range(1, 4) };
    let spy = SpyD { log: log.clone(), want: n, got: vec![], gulp };
    let which = s.draw(15);
    let more = s.range(0, 3);
    enum L {
        S(Slice<SpyD>, u64),
        D(Box<dyn Decode<Item = ()>>),
    }
    let mut d = match which {
        0 => L::D(Box::new(spy.map(|_| ()))),
        1 => L::D(Box::new(spy.try_map(|_| Ok::<_, bytecodec::Error>(())))),
        2 => L::D(Box::new(spy.map_err(|e| e).map(|_| ()))),
        3 => L::D(Box::new(Utf8Decoder::with_bytes_decoder(spy).map(|_| ()))),
        4 => L::D(Box::new(spy.omit(false).map(|_| ()))),
        5 => L::D(Box::new(spy.peekable().map(|_| ()))),
        6 => L::D(Box::new(spy.maybe_eos().map(|_| ()))),
        7 => {
            let c = RefCell::new(Some(spy));
            L::D(Box::new(NullDecoder.and_then(move |_| c.borrow_mut().take().unwrap()).map(|_| ())))
        }
        8 => L::D(Box::new(NullDecoder.chain(spy).map(|_| ()))),
        9 => L::D(Box::new(spy.max_bytes(u64::MAX).map(|_| ()))),
        10 => L::D(Box::new(spy.collectn::<Vec<_>>(1).map(|_| ()))),
        11 => L::D(Box::new(spy.length((n + more) as u64).map(|_| ()))),
        12 => L::D(Box::new(bytecodec::tuple::TupleDecoder::new((NullDecoder, NullDecoder, spy)).map(|_| ()))),
        _ => {
            let g = any_grant(s);
            let mut d = spy.slice();
            d.set_consumable_bytes(g);
            L::S(d, g)
        }
    };
    let mut pos = 0;
    s.note(|| format!("layer {which}, {n} bytes, at most {gulp} per call"));
    for call in s.turns(1, 12) {
        if let L::S(d, g) = &mut d {
            if s.one_in(3) {
                *g = any_grant(s);
                d.set_consumable_bytes(*g);
            }
        }
        let c = s.range(0, n - pos + 2);
        let data = vec![b'x'; c];
        let eos = any_eos(s);
        if which == 9 && (eos.remaining_bytes().is_infinite() || eos.remaining_bytes().to_u64().is_some_and(|x| x > 1 << 60)) {
            continue;
        }
        // what the inner decoder may see of it, and is told about the rest
        let (room, truth) = match &d {
            L::S(_, g) => {
                let room = (*g).min(c as u64) as usize;
                (room, told(eos, c - room))
            }
            _ if which == 11 => {
                let left = n + more - pos;
                let room = c.min(left);
                if eos.remaining_bytes().to_u64().is_some_and(|x| x < (left - room) as u64) {
                    // cannot come to the declared length
                    return Ok(());
                }
                (room, Eos::with_remaining_bytes(ByteCount::Finite((left - room) as u64)))
            }
            _ if which == 6 && pos == 0 && c == 0 && eos.is_reached() => (0, Eos::new(false)),
            _ => (c, eos),
        };
        let before = log.borrow().0.len();
        let r = match &mut d {
            L::S(d, _) => d.decode(&data, eos),
            L::D(d) => d.decode(&data, eos),
        };
        s.note(|| format!("decode({c}, {eos:?}) gave {:?}", r.as_ref().map_err(|e| *e.kind())));
        let l = log.borrow();
        let mut used = 0;
        for (got, e) in &l.0[before..] {
            ensure!((*got, *e) == (room - used, truth), "layer {which} offered {c} bytes at {pos} of {n} and {eos:?} (call {call}): the inner decoder was given {got} and {e:?}, expected {} and {truth:?}", room - used);
            used += (*got).min(gulp).min(n - pos - used);
        }
        ensure!(l.0.len() > before || room == 0 && !truth.is_reached(), "layer {which} offered {c} bytes at {pos} of {n} and {eos:?} (call {call}): the inner decoder was not called");
        match r {
            Ok(k) => ensure!(k == used, "layer {which} consumed {k}, its inner decoder {used}"),
            // the layer itself may know that this is the end of the item
            Err(_) if eos.is_reached() && which == 10 => return Ok(()),
            Err(x) => fail!("layer {which} failed with {:?} on {c} bytes at {pos} of {n}, {eos:?}", x.kind()),
        }
        pos += used;
        if let L::S(_, g) = &mut d {
            *g -= used as u64;
        }
        if pos == n {
            break;
        }
        s.nontrivial_if(call > 0);
    }
    Ok(())
}
/// F15.
fn pin_length_tells() -> R {
    let log = Rc::new(RefCell::new(Log::default()));
    let mut e = SpyE { log: log.clone(), left: 0, gulp: usize::MAX }.length(6);
    ensure!(e.start_encoding(6).is_ok(), "refused");
    let mut b = [0; 2];
    ensure!(matches!(e.encode(&mut b, Eos::new(false)), Ok(2)), "first call");
    ensure!(matches!(e.encode(&mut b, Eos::with_remaining_bytes(ByteCount::Finite(100))), Ok(2)), "second call");
    ensure!(matches!(e.encode(&mut b, Eos::new(true)), Ok(2)), "third call");
    let want = [(2, 4), (2, 2), (2, 0)].map(|(n, k)| (n, Eos::with_remaining_bytes(ByteCount::Finite(k))));
    ensure!(log.borrow().0 == want, "inner encoder was told {:?}", log.borrow().0);
    Ok(())
}
fn pin_slice_end() -> R {
    let mut e = BytesEncoder::new().slice();
    ensure!(e.start_encoding(b"abc".to_vec()).is_ok(), "refused");
    e.set_consumable_bytes(2);
    let mut b = [0; 3];
    // the output ends after the buffer but one byte of it is withheld
    match e.encode(&mut b, Eos::new(true)) {
        Ok(2) => {}
        r => return Err(Fail::Bug(format!("{:?}", r.map_err(|e: bytecodec::Error| -> ErrorKind { *e.kind() })))),
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop::new("C17")
            .sub("mux-demux", 480_000, "at least two streams of together more than three bytes, in more blocks than streams", c17_mux)
            .sub("calls", 720_000, "more than one byte moved", c17_calls)
            .sub("to-the-end", 480_000, "more than two bytes in more than two calls", c17_end)
            .large("large-mux-demux", 2000, "at least two streams of together more than three bytes, in more blocks than streams", c17_mux)
            .long("long-mux-demux", 9000, "at least two streams of together more than three bytes, in more blocks than streams", c17_mux)
            .large("large-calls", 4000, "more than one byte moved", c17_calls)
            .long("long-calls", 9000, "more than one byte moved", c17_calls)
            .large("large-to-the-end", 4000, "more than two bytes in more than two calls", c17_end)
            .long("long-to-the-end", 9000, "more than two bytes in more than two calls", c17_end)
            .pin("withheld-end", pin_slice_end)
            .pin("huge-distance", pin_slice_huge)
            .assume("a distance to the end plus the withheld bytes that is not representable is told as the largest one"),
        Prop::new("C34")
            .sub("decoders", 480_000, "at least two layers, more than two observed calls, more than one byte", c34_decoders)
            .sub("deep-decoders", 180_000, "at least two layers, more than two observed calls, more than one byte", c34_deep)
            .sub("encoders", 480_000, "at least two layers, more than two observed calls, more than one byte", c34_encoders)
            .sub("layers", 480_000, "more than one byte given", c34_layers)
            .sub("layer-calls", 300_000, "more than one call in an item", c34_layer_calls)
            .sub("encoder-layers", 400_000, "room for more than one byte", c34_encoder_layers)
            .large("large-encoder-layers", 4000, "room for more than one byte", c34_encoder_layers)
            .large("large-decoders", 4000, "at least two layers, more than two observed calls, more than one byte", c34_decoders)
            .long("long-decoders", 9000, "at least two layers, more than two observed calls, more than one byte", c34_decoders)
            .large("large-encoders", 4000, "at least two layers, more than two observed calls, more than one byte", c34_encoders)
            .long("long-encoders", 9000, "at least two layers, more than two observed calls, more than one byte", c34_encoders)
            .large("large-layers", 4000, "more than one byte given", c34_layers)
            .pin("length-encoder", pin_length_tells),
    ]
}
