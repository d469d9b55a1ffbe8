//! C24–C30: blocking helpers, read and write buffers, buffered streams, asynchronous I/O.
use crate::drive;
use crate::enc::{self, Ser, SerEnd, ES};
use crate::engine::{tick, Fail, Prop, Src, R};
use crate::spec::*;
use crate::val::{DynDec, Fix, Val};
use crate::{ensure, fail};
use bytecodec::io::{BufferedIo, IoDecodeExt, IoEncodeExt, ReadBuf, StreamState, WriteBuf};
use bytecodec::{ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos, ErrorKind};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use tokio::io::{AsyncRead, AsyncWrite};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    /// transfer at most that many bytes (at least one)
    Max(usize),
    Block,
    /// one operation answers with zero bytes
    Zero,
    Err(io::ErrorKind),
}
pub const FATAL: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::TimedOut,
    io::ErrorKind::InvalidData,
    io::ErrorKind::WriteZero,
    io::ErrorKind::PermissionDenied,
];
fn mapped(k: io::ErrorKind) -> ErrorKind {
    if k == io::ErrorKind::UnexpectedEof { ErrorKind::UnexpectedEos } else { ErrorKind::Other }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Last {
    None,
    Moved,
    Block,
    End,
    Err(io::ErrorKind),
}
impl Last {
    fn state(self) -> Option<StreamState> {
        match self {
            Last::None => None,
            Last::Moved => Some(StreamState::Normal),
            Last::Block => Some(StreamState::WouldBlock),
            Last::End => Some(StreamState::Eos),
            Last::Err(_) => Some(StreamState::Error),
        }
    }
}
/// A scripted peer: a source of bytes and a sink, each answering operations as its script says.
#[derive(Clone, Debug)]
pub struct Script {
    pub data: Vec<u8>,
    pub pos: usize,
    pub rops: VecDeque<Op>,
    pub out: Vec<u8>,
    pub wops: VecDeque<Op>,
    pub rlast: Last,
    pub wlast: Last,
    pub rcalls: u32,
    pub wcalls: u32,
}
impl Script {
    pub fn new(data: &[u8]) -> Script {
        Script { data: data.to_vec(), pos: 0, rops: VecDeque::new(), out: vec![], wops: VecDeque::new(), rlast: Last::None, wlast: Last::None, rcalls: 0, wcalls: 0 }
    }
    /// Short answers only; ends after `data`.
    pub fn short(s: &mut Src, data: &[u8]) -> Script {
        let mut x = Script::new(data);
        let n = s.len(12);
        for _ in 0..n {
            x.rops.push_back(Op::Max(s.wide(5).max(1)));
        }
        x
    }
    fn clear(&mut self) {
        self.rlast = Last::None;
        self.wlast = Last::None;
    }
    fn do_read(&mut self, room: usize, put: &mut dyn FnMut(&[u8])) -> Option<io::Result<usize>> {
        tick();
        self.rcalls += 1;
        let max = match self.rops.pop_front() {
            Some(Op::Max(n)) => n,
            Some(Op::Block) => {
                self.rlast = Last::Block;
                return None;
            }
            Some(Op::Zero) => 0,
            Some(Op::Err(k)) => {
                self.rlast = Last::Err(k);
                return Some(Err(io::Error::new(k, "scripted")));
            }
            None => usize::MAX,
        };
        let n = max.min(room).min(self.data.len() - self.pos);
        put(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.rlast = if n == 0 { Last::End } else { Last::Moved };
        Some(Ok(n))
    }
    fn do_write(&mut self, buf: &[u8]) -> Option<io::Result<usize>> {
        tick();
        self.wcalls += 1;
        let max = match self.wops.pop_front() {
            Some(Op::Max(n)) => n,
            Some(Op::Block) => {
                self.wlast = Last::Block;
                return None;
            }
            Some(Op::Zero) => 0,
            Some(Op::Err(k)) => {
                self.wlast = Last::Err(k);
                return Some(Err(io::Error::new(k, "scripted")));
            }
            None => usize::MAX,
        };
        let n = max.min(buf.len());
        self.out.extend(&buf[..n]);
        self.wlast = if n == 0 { Last::End } else { Last::Moved };
        Some(Ok(n))
    }
}
impl Read for Script {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut at = 0;
        let room = buf.len();
        match self.do_read(room, &mut |b| {
            buf[at..at + b.len()].copy_from_slice(b);
            at += b.len();
        }) {
            Some(r) => r,
            None => Err(io::ErrorKind::WouldBlock.into()),
        }
    }
}
impl Write for Script {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        match self.do_write(buf) {
            Some(r) => r,
            None => Err(io::ErrorKind::WouldBlock.into()),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        tick();
        Ok(())
    }
}
impl AsyncRead for Script {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        let room = buf.remaining();
        match self.do_read(room, &mut |b| buf.put_slice(b)) {
            Some(r) => Poll::Ready(r.map(|_| ())),
            None => {
                register(cx);
                Poll::Pending
            }
        }
    }
}
impl AsyncWrite for Script {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        match self.do_write(buf) {
            Some(r) => Poll::Ready(r),
            None => {
                register(cx);
                Poll::Pending
            }
        }
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        tick();
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
thread_local! {
    static REGISTERED: RefCell<Vec<Waker>> = const { RefCell::new(Vec::new()) };
}
/// What a real stream does on Pending: it keeps the task's waker.
fn register(cx: &mut Context<'_>) {
    REGISTERED.with(|r| r.borrow_mut().push(cx.waker().clone()));
}
fn take_registered() -> Vec<Waker> {
    REGISTERED.with(|r| std::mem::take(&mut *r.borrow_mut()))
}

/// `n` operations; `faults`: blocked, zero-byte and failing ones among them.
fn ops(s: &mut Src, n: usize, faults: bool) -> VecDeque<Op> {
    let n = s.len(n);
    let mut v: VecDeque<Op> = (0..n)
        .map(|_| match s.draw(if faults { 12 } else { 8 }) {
            0..=2 if s.big => Op::Max(*s.pick(&[1usize, 255, 256, 1023, 1024, 4096, 8192, 65535, 65536, 100_000])),
            0..=2 => Op::Max(1),
            3 | 4 => Op::Max(s.range(1, 3)),
            5 | 6 => Op::Max(s.range(1, 9)),
            7 => Op::Max(1000),
            8 | 9 => Op::Block,
            10 => Op::Zero,
            _ => Op::Err(*s.pick(FATAL)),
        })
        .collect();
    // now and then a long series of tiny operations
    if s.one_in(8) {
        let k = if s.big { *s.pick(&[20usize, 65, 130, 257, 1025, 5000]) } else { 40 };
        let op = Op::Max(s.range(1, 2));
        (0..k).for_each(|_| v.push_front(op));
    }
    v
}

// ---- C24 ----
/// Notes whether it is told of the end of the stream.
struct Listens {
    inner: DynDec,
    told: bool,
}
impl Decode for Listens {
    type Item = Val;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        self.told |= eos.is_reached();
        self.inner.decode(buf, eos)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<Val> {
        self.inner.finish_decoding()
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.inner.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.inner.is_idle()
    }
}
fn c24_items(s: &mut Src) -> R {
    let depth = s.range(0, 3);
    let c = Ctx { eos: s.one_in(3), reuse: s.one_in(3), min1: false };
    let mut spec = gen(s, depth, c);
    if s.one_in(12) {
        spec = Rc::new(Spec::MaybeEos(spec));
    }
    let mut data = vec![];
    let n = if eats_all(&spec) || !reusable(&spec) { 1 } else { s.rounds(1, 4) };
    for _ in 0..n {
        data.extend(sample(&spec, s, s.size));
        if s.full(data.len()) {
            break;
        }
    }
    match s.draw(4) {
        0 => mutate(s, &mut data),
        1 => {
            let k = s.below(data.len() + 1);
            data.truncate(k);
        }
        2 => {
            let k = s.len(8);
            data.extend(s.bytes(k));
        }
        _ => {}
    }
    let mut rd = Script::short(s, &data);
    let mut temp = 0;
    for _ in 0..s.len(5) {
        let k = s.range(0, rd.rops.len());
        let e = match s.draw(4) {
            0 => Op::Block,
            1 => Op::Err(io::ErrorKind::Interrupted),
            _ => Op::Err(*s.pick(FATAL)),
        };
        rd.rops.insert(k, e);
    }
    s.note(|| format!("{spec:?} reading {data:02x?} with {:?}", rd.rops));
    let mut dec = Listens { inner: build(&spec), told: false };
    let mut pos = 0;
    for item in 0..n + 1 {
        let model = parse(&spec, &data[pos..], true, Tot::Unknown);
        let r = loop {
            rd.clear();
            dec.told = false;
            let r = dec.decode_exact(&mut rd);
            ensure!(!dec.told || rd.rlast == Last::End, "the decoder was told that the stream had ended but the reader did {:?} last", rd.rlast);
            s.note(|| format!("decode_exact -> {:?}, reader at {}, last {:?}", r.as_ref().map_err(|e| *e.kind()), rd.pos, rd.rlast));
            let want = match rd.rlast {
                Last::Err(k) => mapped(k),
                Last::Block => ErrorKind::Other,
                _ => break r,
            };
            match r {
                // an interrupted read may be retried on the spot
                Ok(v) => fail!("reader failed with {:?} but decode_exact gave {v:?}; {spec:?}", rd.rlast),
                Err(e) => ensure!(*e.kind() == want, "reader failed with {:?}, decode_exact with {:?}; {spec:?}", rd.rlast, e.kind()),
            }
            temp += 1;
            s.label("reader error, then resumed");
        };
        match (r, model) {
            (Ok(v), Out::Done { val: Ok(w), used }) => {
                ensure!(v == w, "decode_exact gave {v:?}, expected {w:?}; {spec:?} {data:02x?} at {pos}");
                ensure!(rd.pos == pos + used, "item of {used} bytes, {} taken from the reader; {spec:?} {data:02x?} at {pos}", rd.pos - pos);
                pos += used;
            }
            (Err(e), Out::Done { val: Err(k), used }) => {
                ensure!(ebit(&e) & k != 0, "decode_exact failed with {:?}, expected {}; {spec:?}", e.kind(), kname(k));
                ensure!(rd.pos == pos + used, "item of {used} bytes, {} taken from the reader; {spec:?} {data:02x?} at {pos}", rd.pos - pos);
                pos += used;
                if contains(&spec, &|x| matches!(x, Spec::Tuple(_))) {
                    return Ok(());
                }
            }
            (Err(e), Out::Fail(k)) => {
                ensure!(ebit(&e) & k != 0, "decode_exact failed with {:?}, expected {}; {spec:?} {data:02x?} at {pos}", e.kind(), kname(k));
                s.label_if(k == UE, "stream ends early");
                s.label_if(item > 0, "several items");
                s.nontrivial_if(pos > 0 || temp > 0 || k == UE && data.len() > 1);
                return Ok(());
            }
            // a forgiven end of stream cannot yield an item either
            (Err(e), Out::More) => {
                ensure!(*e.kind() == ErrorKind::UnexpectedEos, "decode_exact failed with {:?} at the end of the stream; {spec:?}", e.kind());
                return Ok(());
            }
            (r, m) => fail!("decode_exact gave {:?}, expected {m:?}; {spec:?} {data:02x?} at {pos}", r.map_err(|e| *e.kind())),
        }
        s.label_if(item > 0, "several items");
        s.nontrivial_if(nodes(&spec) > 1 && pos > 1);
        if !reusable(&spec) || eats_all(&spec) {
            break;
        }
    }
    Ok(())
}
/// Items larger than any internal buffer.
fn c24_large(s: &mut Src) -> R {
    let n = match s.draw(4) {
        0 => 1023 + s.below(4),
        1 => 2047 + s.below(4),
        2 => s.range(0, 6000),
        _ => 1024 * s.range(1, 4) + s.below(3),
    };
    let body: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
    let mut data = (n as u32).to_be_bytes().to_vec();
    data.extend(&body);
    let second = s.len(2000);
    data.extend((second as u32).to_be_bytes());
    data.extend(vec![0x33; second]);
    data.extend(b"tail");
    let mut rd = Script::new(&data);
    for _ in 0..s.len(30) {
        rd.rops.push_back(Op::Max(*s.pick(&[1usize, 2, 3, 500, 1000, 1023, 1024, 1025])));
    }
    s.note(|| format!("items of {n} and {second} bytes, {:?}", rd.rops));
    s.nontrivial_if(n > 1000);
    let mut d: DynDec = build(&Rc::new(Spec::LenPrefix(Fix::U32be, Rc::new(Spec::Remain))));
    for (w, end) in [(body, 4 + n), (vec![0x33; second], 8 + n + second)] {
        match d.decode_exact(&mut rd) {
            Ok(v) => ensure!(v == Val::B(w.clone()), "item of {} bytes comes out wrong", w.len()),
            Err(e) => fail!("item of {} bytes failed with {:?}", w.len(), e.kind()),
        }
        ensure!(rd.pos == end, "{} bytes taken, expected {end}", rd.pos);
    }
    Ok(())
}

// ---- C25 ----
fn enc_any(s: &mut Src) -> enc::E {
    let depth = s.range(0, 3);
    let sized = s.one_in(3);
    enc::gen(s, depth, enc::Ctx { sized })
}
/// What encode_into_bytes may fail with when encoding ends early: it signals the end of the output.
fn c25_encode_all(s: &mut Src) -> R {
    let e = enc_any(s);
    let mut x = enc::Enc::new(&e, s);
    s.note(|| format!("{e:?}"));
    for _ in s.turns(1, 3) {
        let v = enc::gen_val(&e, s, s.size);
        let want = enc::ser(&e, &v);
        let mut w = Script::new(&[]);
        w.wops = ops(s, 10, false);
        let fatal = s.one_in(4);
        if fatal {
            let k = s.range(0, w.wops.len());
            let o = match s.draw(5) {
                0 => Op::Zero,
                1 => Op::Block,
                2 => Op::Err(io::ErrorKind::Interrupted),
                _ => Op::Err(*s.pick(FATAL)),
            };
            w.wops.insert(k, o);
        }
        if s.one_in(3) {
            // interruptions the writer recovers from
            for _ in s.turns(1, 4) {
                let k = s.range(0, w.wops.len());
                w.wops.insert(k, Op::Err(io::ErrorKind::Interrupted));
            }
            s.label("interrupted writer");
        }
        s.note(|| format!("item {v:?}, writer {:?}", w.wops));
        match (x.get().start_encoding(v.clone()), &want) {
            (Err(k), Ser::Refused(m)) => {
                ensure!(ebit(&k) & m != 0, "refused with {:?}; {e:?} {v:?}", k.kind());
                return Ok(());
            }
            (Ok(()), Ser::Run { .. }) => {}
            (r, _) => fail!("start gave {:?}, expected {want:?}; {e:?} {v:?}", r.map_err(|e| *e.kind())),
        }
        let Ser::Run { bytes, end } = want else { unreachable!() };
        let mut en = x.get();
        let r = en.encode_all(&mut w);
        s.note(|| format!("encode_all -> {:?} {:02x?}", r.as_ref().map_err(|e| *e.kind()), w.out));
        let bad = match w.wlast {
            Last::Err(io::ErrorKind::Interrupted) => None,
            Last::Err(k) => Some(mapped(k)),
            Last::Block | Last::End => Some(ErrorKind::Other),
            _ => None,
        };
        ensure!(w.out.len() <= bytes.len() && bytes[..w.out.len()] == w.out[..], "writer got {:02x?}, expected {bytes:02x?}; {e:?} {v:?}", w.out);
        match (r, bad, end) {
            (Ok(()), None, SerEnd::Done) => {
                ensure!(w.out == bytes, "encode_all succeeded after {} of {} bytes; {e:?} {v:?}", w.out.len(), bytes.len());
                ensure!(x.get().is_idle(), "encode_all left the encoder busy; {e:?}");
                s.nontrivial_if(bytes.len() > 1 && enc::nodes(&e) > 1);
            }
            (Err(k), Some(b), _) => {
                ensure!(*k.kind() == b, "writer failed with {:?}, encode_all with {:?}", w.wlast, k.kind());
                s.label("writer failure reported");
                s.nontrivial();
                return Ok(());
            }
            (Err(k), None, SerEnd::Fail(m)) => {
                ensure!(ebit(&k) & m != 0, "encode_all failed with {:?}, expected {}; {e:?} {v:?}", k.kind(), kname(m));
                s.label("encoding failure reported");
                return Ok(());
            }
            (r, b, end) => fail!("encode_all gave {:?}; writer failure {b:?}, encoder {end:?}; {e:?} {v:?}", r.map_err(|e| *e.kind())),
        }
    }
    Ok(())
}
fn c25_into_bytes(s: &mut Src) -> R {
    let e = enc_any(s);
    let mut x = enc::Enc::new(&e, s);
    s.note(|| format!("{e:?}"));
    for _ in s.turns(1, 4) {
        let v = enc::gen_val(&e, s, s.size);
        let want = enc::ser(&e, &v);
        let r = match &mut x {
            enc::Enc::Plain(d) => d.encode_into_bytes(v.clone()),
            enc::Enc::Sized(d) => d.encode_into_bytes(v.clone()),
        };
        s.note(|| format!("{v:?} -> {:02x?}", r.as_ref().map_err(|e| *e.kind())));
        match (r, want) {
            (Ok(b), Ser::Run { bytes, end: SerEnd::Done }) => {
                ensure!(b == bytes, "encode_into_bytes gave {b:02x?}, expected {bytes:02x?}; {e:?} {v:?}");
                ensure!(x.get().is_idle(), "encode_into_bytes left the encoder busy; {e:?}");
                s.nontrivial_if(bytes.len() > 1 && enc::nodes(&e) > 1);
            }
            (Err(k), Ser::Refused(m)) => {
                ensure!(ebit(&k) & m != 0, "refused with {:?}, expected {}; {e:?} {v:?}", k.kind(), kname(m));
                if !enc::clean_refusal(&e) {
                    return Ok(());
                }
            }
            (Err(k), Ser::Run { end: SerEnd::Fail(m), .. }) => {
                let m = m | enc::eos_mask(&e);
                ensure!(ebit(&k) & m != 0, "failed with {:?}, expected {}; {e:?} {v:?}", k.kind(), kname(m));
                s.label("encoding failure reported");
                return Ok(());
            }
            (r, w) => fail!("encode_into_bytes gave {:02x?}, expected {w:?}; {e:?} {v:?}", r.map_err(|e| *e.kind())),
        }
    }
    Ok(())
}
/// An encoder that cannot go on: out of grant.
fn c25_stuck(s: &mut Src) -> R {
    let k = s.range(1, 3000);
    let body: Vec<u8> = (0..k).map(|i| i as u8).collect();
    let mut e = bytecodec::bytes::BytesEncoder::<Vec<u8>>::new().slice();
    let grant = s.range(0, k + 2) as u64;
    e.set_consumable_bytes(grant);
    let _ = e.start_encoding(body.clone());
    let mut w = Script::new(&[]);
    w.wops = ops(s, 6, false);
    let r = e.encode_all(&mut w).map_err(|e| *e.kind());
    s.note(|| format!("{k} bytes, grant {grant}: {r:?}"));
    if grant < k as u64 {
        s.nontrivial();
        ensure!(r == Err(ErrorKind::Other), "{k} bytes with a grant of {grant}: encode_all gave {r:?}");
        ensure!(w.out == body[..grant as usize], "{k} bytes with a grant of {grant}: {} written", w.out.len());
    } else {
        ensure!(r == Ok(()) && w.out == body, "{k} bytes with a grant of {grant}: {r:?}, {} written", w.out.len());
    }
    Ok(())
}
/// An encoder that would go on for ever is refused instead of filling the memory.
fn c25_endless(s: &mut Src) -> R {
    let leaf = if s.bool() {
        enc::ES::Pad
    } else {
        let n = s.range(1, 3);
        let mut m: Vec<enc::E> = (0..n)
            .map(|_| {
                let d = s.range(0, 2);
                enc::gen(s, d, enc::Ctx { sized: false })
            })
            .collect();
        let at = s.range(0, n);
        m.insert(at, Rc::new(enc::ES::Pad));
        enc::ES::Tuple(m)
    };
    let d = s.range(0, 4);
    let e = super::encode::gen_passing(s, leaf, d);
    let v = enc::gen_val(&e, s, 10);
    let w = enc::ser(&e, &v);
    s.note(|| format!("{e:?} {v:?} {w:?}"));
    let mut x = enc::build(&e);
    match (x.encode_into_bytes(v.clone()).map_err(|e| *e.kind()), w) {
        (Err(k), Ser::Refused(m)) => ensure!(enc_bit(k) & m != 0, "refused with {k:?}, expected {}; {e:?} {v:?}", kname(m)),
        (r, Ser::Run { end: SerEnd::Fill(_), .. }) => {
            ensure!(r == Err(ErrorKind::InvalidInput), "endless encoding into a byte vector gave {r:?}; {e:?} {v:?}");
            s.nontrivial();
        }
        // nothing endless was started, or something before it fails
        _ => {}
    }
    Ok(())
}
/// A codec of `n` bytes whose reports are wrong.
struct Wrong {
    n: usize,
    /// Bytes received or still to be written.
    b: Vec<u8>,
    lie: ByteCount,
    over: bool,
}
impl Wrong {
    fn report(&self, left: usize) -> ByteCount {
        match self.lie {
            ByteCount::Finite(k) if self.over => ByteCount::Finite(left as u64 + k),
            ByteCount::Finite(k) => ByteCount::Finite((left as u64).saturating_sub(k).max(1)),
            x => x,
        }
    }
}
impl Decode for Wrong {
    type Item = Vec<u8>;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        crate::engine::tick();
        let k = (self.n - self.b.len()).min(buf.len());
        self.b.extend(&buf[..k]);
        if self.b.len() < self.n && eos.is_reached() {
            return Err(crate::spec::mkerr(ErrorKind::UnexpectedEos));
        }
        Ok(k)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<Vec<u8>> {
        if self.b.len() < self.n {
            return Err(crate::spec::mkerr(ErrorKind::IncompleteDecoding));
        }
        Ok(std::mem::take(&mut self.b))
    }
    fn requiring_bytes(&self) -> ByteCount {
        if self.b.len() == self.n { ByteCount::Finite(0) } else { self.report(self.n - self.b.len()) }
    }
    fn is_idle(&self) -> bool {
        self.b.len() == self.n
    }
}
struct WrongEnc(Wrong);
impl Encode for WrongEnc {
    type Item = Vec<u8>;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        crate::engine::tick();
        let k = self.0.b.len().min(buf.len());
        buf[..k].copy_from_slice(&self.0.b[..k]);
        self.0.b.drain(..k);
        if eos.is_reached() && !self.0.b.is_empty() && self.0.n == 1 {
            return Err(crate::spec::mkerr(ErrorKind::UnexpectedEos));
        }
        Ok(k)
    }
    fn start_encoding(&mut self, item: Vec<u8>) -> bytecodec::Result<()> {
        self.0.b = item;
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        if self.0.b.is_empty() { ByteCount::Finite(0) } else { self.0.report(self.0.b.len()) }
    }
    fn is_idle(&self) -> bool {
        self.0.b.is_empty()
    }
}
fn lie(s: &mut Src) -> (ByteCount, bool) {
    match s.draw(6) {
        0 => (ByteCount::Unknown, true),
        1 => (ByteCount::Infinite, true),
        2 | 3 => (ByteCount::Finite(1 + s.amount(6) as u64), true),
        _ => (ByteCount::Finite(1 + s.amount(6) as u64), false),
    }
}
/// A decoder that asks for too much or too little never costs the reader a byte in silence.
fn c24_wrong_need(s: &mut Src) -> R {
    let n = 1 + s.amount(9);
    let (lie, over) = lie(s);
    let k = n * s.range(1, 3) + s.len(6);
    let data = s.bytes(k);
    let mut rd = Script::new(&data);
    rd.rops = ops(s, 6, false);
    let mut d = Wrong { n, b: vec![], lie, over };
    let mut pos = 0;
    s.note(|| format!("items of {n} bytes, needs {lie:?} {}; {k} bytes", if over { "more" } else { "less" }));
    for i in 0..4 {
        match d.decode_exact(&mut rd).map_err(|e| *e.kind()) {
            Ok(v) => {
                ensure!(pos + n <= k && v == data[pos..pos + n], "item {i} is {v:02x?} at {pos} of {data:02x?}");
                pos += n;
                ensure!(rd.pos == pos, "{} bytes taken from the reader for {pos} bytes of items", rd.pos);
                s.nontrivial_if(n > 1);
            }
            Err(e) => {
                ensure!(over && lie != ByteCount::Unknown && rd.pos > pos || k - pos < n, "item {i} failed with {e:?} at {pos} of {k}, reader at {}", rd.pos);
                s.label("reported");
                return Ok(());
            }
        }
    }
    Ok(())
}
/// An encoder that reports too little is never cut short in silence.
fn c25_wrong_need(s: &mut Src) -> R {
    let n = s.amount(9);
    let (lie, over) = lie(s);
    let strict = s.range(0, 1);
    let mut e = WrongEnc(Wrong { n: strict, b: vec![], lie, over });
    let data = s.bytes(n);
    s.nontrivial_if(n > 1 && !over);
    let r = if s.one_in(3) {
        let mut w = Script::new(&[]);
        w.wops = ops(s, 6, false);
        let r = e.start_encoding(data.clone()).and_then(|()| e.encode_all(&mut w)).map(|()| w.out).map_err(|e| *e.kind());
        ensure!(r == Ok(data.clone()), "encode_all of {data:02x?} gave {r:02x?}, reports {lie:?} over {over}");
        return Ok(());
    } else {
        e.encode_into_bytes(data.clone()).map_err(|e| *e.kind())
    };
    s.note(|| format!("{data:02x?} reports {lie:?} over {over}: {r:02x?}"));
    match r {
        Ok(b) => ensure!(b.starts_with(&data) && (b.len() == n || over), "encode_into_bytes of {data:02x?} gave {b:02x?}, reports {lie:?} over {over}"),
        Err(k) => {
            ensure!(n > 0 && lie != ByteCount::Unknown, "encode_into_bytes of {data:02x?} failed with {k:?}, reports {lie:?} over {over}");
            s.label("reported");
        }
    }
    Ok(())
}
fn enc_bit(k: ErrorKind) -> u8 {
    crate::spec::kbit(k)
}
fn c25_large(s: &mut Src) -> R {
    let n = match s.draw(3) {
        0 => 1022 + s.below(5),
        1 => 2046 + s.below(5),
        _ => s.range(0, 5000),
    };
    let body: Vec<u8> = (0..n).map(|i| (i * 13 + i / 255) as u8).collect();
    let e: enc::E = Rc::new(ES::Count(Fix::U16be, Rc::new(ES::Fix(Fix::U8))));
    let v = Val::L(body.iter().map(|b| Val::U(u64::from(*b))).collect());
    let mut want = (n as u16).to_be_bytes().to_vec();
    want.extend(&body);
    let mut w = Script::new(&[]);
    for _ in 0..s.len(20) {
        w.wops.push_back(Op::Max(*s.pick(&[1usize, 2, 700, 1023, 1024, 1025])));
        if s.one_in(8) {
            w.wops.push_back(Op::Err(io::ErrorKind::Interrupted));
        }
    }
    let mut x = enc::build(&e);
    let (r, got) = if s.bool() {
        if x.start_encoding(v).is_err() {
            fail!("refused");
        }
        (x.encode_all(&mut w), w.out)
    } else {
        match x.encode_into_bytes(v) {
            Ok(b) => (Ok(()), b),
            Err(e) => (Err(e), vec![]),
        }
    };
    s.note(|| format!("{n} items"));
    ensure!(r.is_ok() && got == want, "{n} bytes: {:?}, {} written", r.map_err(|e| *e.kind()), got.len());
    s.nontrivial_if(n > 1000);
    Ok(())
}
fn c25_from_bytes(s: &mut Src) -> R {
    let depth = s.range(0, 3);
    let c = Ctx { eos: s.bool(), reuse: s.bool(), min1: false };
    let spec = gen(s, depth, c);
    let mut dec = build(&spec);
    s.note(|| format!("{spec:?}"));
    for _ in 0..if reusable(&spec) { 3 } else { 1 } {
        let mut data = sample(&spec, s, s.size);
        match s.draw(4) {
            0 => mutate(s, &mut data),
            1 => {
                let k = s.range(1, 4);
                data.extend(s.bytes(k));
            }
            2 => {
                let k = s.below(data.len() + 1);
                data.truncate(k);
            }
            _ => {}
        }
        let model = parse(&spec, &data, true, Tot::Known(data.len() as u64));
        let r = dec.decode_from_bytes(&data);
        s.note(|| format!("{data:02x?} -> {:?}, expected {model:?}", r.as_ref().map_err(|e| *e.kind())));
        match (r, model) {
            (Ok(v), Out::Done { val: Ok(w), used }) if used == data.len() => {
                ensure!(v == w, "decode_from_bytes gave {v:?}, expected {w:?}; {spec:?} {data:02x?}");
                s.nontrivial_if(used > 1 && nodes(&spec) > 1);
            }
            (Err(e), Out::Done { used, .. }) if used < data.len() => {
                ensure!(*e.kind() == ErrorKind::InvalidInput, "{} bytes left over but {:?}; {spec:?} {data:02x?}", data.len() - used, e.kind());
                s.label("leftover bytes");
                s.nontrivial_if(used > 0);
                return Ok(());
            }
            (Err(e), Out::Done { val: Err(k), .. }) | (Err(e), Out::Fail(k)) => {
                ensure!(ebit(&e) & k != 0, "decode_from_bytes failed with {:?}, expected {}; {spec:?} {data:02x?}", e.kind(), kname(k));
                s.label_if(k == UE, "missing bytes");
                s.nontrivial_if(k == UE && !data.is_empty());
                return Ok(());
            }
            (r, m) => fail!("decode_from_bytes gave {:?}, expected {m:?}; {spec:?} {data:02x?}", r.map_err(|e| *e.kind())),
        }
    }
    Ok(())
}

// ---- spies for the buffers ----
/// Consumes as scripted and records what it is given.
struct SpyDec {
    take: VecDeque<Result<usize, ErrorKind>>,
    got: Vec<u8>,
    offered: Vec<u8>,
    eos: Option<Eos>,
}
impl Decode for SpyDec {
    type Item = ();
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        tick();
        self.offered = buf.to_vec();
        self.eos = Some(eos);
        let n = match self.take.pop_front() {
            None => buf.len(),
            Some(Ok(n)) => n.min(buf.len()),
            Some(Err(k)) => return Err(mkerr(k)),
        };
        self.got.extend(&buf[..n]);
        Ok(n)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<()> {
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Unknown
    }
    fn is_idle(&self) -> bool {
        false
    }
}
struct SpyEnc {
    give: VecDeque<Result<usize, ErrorKind>>,
    put: Vec<u8>,
    next: u8,
    room: usize,
    eos: Option<Eos>,
    /// busy as long as the script is not used up
    busy: bool,
}
impl Encode for SpyEnc {
    type Item = ();
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        tick();
        self.room = buf.len();
        self.eos = Some(eos);
        let n = match self.give.pop_front() {
            None => 0,
            Some(Ok(n)) => n.min(buf.len()),
            Some(Err(k)) => {
                // room handed out but not declared used must not show up anywhere
                buf.iter_mut().for_each(|b| *b = 0xDD);
                return Err(mkerr(k));
            }
        };
        for b in buf.iter_mut().take(n) {
            *b = self.next;
            self.put.push(self.next);
            self.next = self.next.wrapping_add(1);
        }
        for b in buf.iter_mut().skip(n) {
            *b = 0xDD;
        }
        Ok(n)
    }
    fn start_encoding(&mut self, _: ()) -> bytecodec::Result<()> {
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Unknown
    }
    fn is_idle(&self) -> bool {
        !self.busy
    }
}
fn rbuf_ok(b: &ReadBuf<Vec<u8>>, cap: usize, len: usize) -> R {
    ensure!(b.capacity() == cap, "capacity {} instead of {cap}", b.capacity());
    ensure!(b.len() == len, "len {} with {len} bytes delivered and not taken", b.len());
    ensure!(b.len() + b.room() <= cap, "len {} + room {} > capacity {cap}", b.len(), b.room());
    ensure!(b.is_empty() == (len == 0), "is_empty {} with {len} bytes", b.is_empty());
    ensure!(b.is_full() == (b.room() == 0), "is_full {} with room {}", b.is_full(), b.room());
    ensure!(len > 0 || b.room() == cap, "empty but room is only {} of {cap}", b.room());
    Ok(())
}
fn wbuf_ok(b: &WriteBuf<Vec<u8>>, cap: usize, len: usize) -> R {
    ensure!(b.capacity() == cap, "capacity {} instead of {cap}", b.capacity());
    ensure!(b.len() == len, "len {} with {len} bytes put in and not flushed", b.len());
    ensure!(b.len() + b.room() <= cap, "len {} + room {} > capacity {cap}", b.len(), b.room());
    ensure!(b.is_empty() == (len == 0), "is_empty {} with {len} bytes", b.is_empty());
    ensure!(b.is_full() == (b.room() == 0), "is_full {} with room {}", b.is_full(), b.room());
    ensure!(len > 0 || b.room() == cap, "empty but room is only {} of {cap}", b.room());
    Ok(())
}
fn counter(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i % 251) as u8).collect()
}
fn cap(s: &mut Src) -> usize {
    if s.big && s.draw(3) > 0 {
        s.refill();
        return s.wide(9);
    }
    match s.draw(5) {
        0 => s.range(0, 2),
        1 => s.range(1, 40),
        _ => s.range(1, 9),
    }
}
/// A number of bytes; in a large case often a large one.
fn roomy(s: &mut Src, n: usize) -> usize {
    s.refill();
    s.wide(n)
}
fn takes(s: &mut Src) -> VecDeque<Result<usize, ErrorKind>> {
    let n = s.range(0, 2);
    (0..n).map(|_| if s.one_in(6) { Err(*s.pick(KINDS)) } else { Ok(roomy(s, 12)) }).collect()
}
/// The predicates of a state tell it apart from the others.
fn state_ok(st: StreamState) -> R {
    use StreamState::*;
    ensure!(st.is_normal() == matches!(st, Normal), "is_normal {} in state {st:?}", st.is_normal());
    ensure!(st.is_eos() == matches!(st, Eos), "is_eos {} in state {st:?}", st.is_eos());
    ensure!(st.would_block() == matches!(st, WouldBlock), "would_block {} in state {st:?}", st.would_block());
    ensure!(st.is_error() == matches!(st, Error), "is_error {} in state {st:?}", st.is_error());
    Ok(())
}
fn any_state(s: &mut Src) -> StreamState {
    *s.pick(&[StreamState::Normal, StreamState::Eos, StreamState::WouldBlock, StreamState::Error])
}
/// The result of one fill, judged against what the reader did in it.
fn judge_fill(r: Result<(), ErrorKind>, last: Last, before: StreamState, b: &ReadBuf<Vec<u8>>) -> R {
    match last {
        Last::Err(k) => ensure!(r == Err(mapped(k)), "reader failed with {k:?} but fill gave {r:?}"),
        _ => ensure!(r == Ok(()), "fill gave {r:?} though the reader did {last:?}"),
    }
    ensure!(matches!(last, Last::Block | Last::End | Last::Err(_)) || b.room() == 0, "fill stopped with room {} after the reader did {last:?}", b.room());
    let want = last.state().unwrap_or(before);
    ensure!(b.stream_state() == want, "stream state {:?} after the reader did {last:?} (before: {before:?})", b.stream_state());
    state_ok(want)
}
fn judge_flush(r: Result<(), ErrorKind>, last: Last, before: StreamState, b: &WriteBuf<Vec<u8>>) -> R {
    match last {
        Last::Err(k) => ensure!(r == Err(mapped(k)), "writer failed with {k:?} but flush gave {r:?}"),
        _ => ensure!(r == Ok(()), "flush gave {r:?} though the writer did {last:?}"),
    }
    ensure!(matches!(last, Last::Block | Last::End | Last::Err(_)) || b.is_empty(), "flush stopped with {} bytes after the writer did {last:?}", b.len());
    let want = last.state().unwrap_or(before);
    ensure!(b.stream_state() == want, "stream state {:?} after the writer did {last:?} (before: {before:?})", b.stream_state());
    state_ok(want)
}

// ---- C26 ----
fn c26(s: &mut Src) -> R {
    let mut cap = cap(s);
    let mut b = ReadBuf::new(vec![0xEE; cap]);
    let n = if s.huge { 2_500_000 } else if s.big { 150_000 } else if s.long > 0 { 12_000 } else { s.range(0, 60) };
    let mut rd = Script::new(&counter(n));
    let mut taken: Vec<u8> = vec![];
    rbuf_ok(&b, cap, 0)?;
    ensure!(b.stream_state() == StreamState::Normal, "fresh buffer in state {:?}", b.stream_state());
    let mut fills = 0;
    let steps = s.rounds(1, 14);
    for _ in 0..steps {
        match s.draw(9) {
            8 => {
                // the owner of the buffer makes it larger
                let more = roomy(s, 9);
                b.inner_mut().resize(cap + more, 0x77);
                cap += more;
                s.note(|| format!("buffer made {more} bytes larger: {cap}"));
                s.label("buffer made larger");
            }
            7 => {
                // the owner of the buffer changes every byte held
                let m = s.byte();
                ensure!(b.inner_ref().len() == cap, "the buffer of {cap} bytes is shown as {}", b.inner_ref().len());
                b.inner_mut().iter_mut().for_each(|x| *x ^= m);
                let (from, to) = (taken.len(), rd.pos);
                rd.data[from..to].iter_mut().for_each(|x| *x ^= m);
                s.note(|| format!("every byte of the buffer ^ {m:02x}"));
            }
            6 => {
                let st = any_state(s);
                s.note(|| format!("state set to {st:?}"));
                *b.stream_state_mut() = st;
                ensure!(b.stream_state() == st, "state set to {st:?} but reported as {:?}", b.stream_state());
                state_ok(st)?;
            }
            0..=2 => {
                rd.clear();
                rd.rops = ops(s, 5, true);
                let before = b.stream_state();
                let r = b.fill(&mut rd).map_err(|e| *e.kind());
                s.note(|| format!("fill -> {r:?}, reader {:?}, len {} room {}", rd.rlast, b.len(), b.room()));
                judge_fill(r, rd.rlast, before, &b)?;
                s.label_if(rd.rlast == Last::Block, "reader blocked");
                s.label_if(matches!(rd.rlast, Last::Err(_)), "reader failed");
                s.label_if(rd.rlast == Last::End, "reader ended");
                fills += 1;
            }
            3 | 4 => {
                let k = roomy(s, 12);
                let mut out = vec![0x99; k];
                let have = b.len();
                match b.read(&mut out) {
                    Ok(m) => {
                        s.note(|| format!("read({k}) -> {m}"));
                        ensure!(m <= k && (m > 0 || k == 0 || have == 0), "read({k}) gave {m} with {have} bytes there");
                        ensure!(out[m..].iter().all(|x| *x == 0x99), "read({k}) touched bytes beyond the {m} it returned");
                        taken.extend(&out[..m]);
                    }
                    Err(e) => fail!("read({k}) failed with {e}"),
                }
            }
            _ => {
                let mut d = SpyDec { take: takes(s), got: vec![], offered: vec![], eos: None };
                let st = b.stream_state();
                let want = d.take.front().cloned();
                let r = d.decode_from_read_buf(&mut b).map_err(|e| *e.kind());
                s.note(|| format!("decode_from_read_buf ({want:?}) -> {r:?}, got {:02x?}", d.got));
                match want {
                    Some(Err(k)) => ensure!(r == Err(k), "decoder failed with {k:?} but decode_from_read_buf gave {r:?}"),
                    _ => ensure!(r == Ok(()), "decode_from_read_buf gave {r:?}"),
                }
                if let Some(e) = d.eos {
                    ensure!(e.is_reached() == (st == StreamState::Eos), "decoder told {e:?} in state {st:?}");
                }
                let from = taken.len();
                ensure!(d.offered == rd.data[from..from + d.offered.len()] && d.offered.len() == rd.pos - from, "decoder shown {:02x?}, the buffer holds {:02x?}", d.offered, &rd.data[from..rd.pos]);
                taken.extend(&d.got);
                s.label("decoded from the buffer");
            }
        }
        ensure!(taken.len() <= rd.pos && taken[..] == rd.data[..taken.len()], "taken {taken:02x?}, delivered {:02x?}", &rd.data[..rd.pos]);
        rbuf_ok(&b, cap, rd.pos - taken.len())?;
    }
    // the rest comes out too
    let mut out = vec![0; rd.pos - taken.len()];
    let mut at = 0;
    while at < out.len() {
        match b.read(&mut out[at..]) {
            Ok(m) if m > 0 => at += m,
            r => fail!("{} bytes do not come out: {r:?}", out.len() - at),
        }
    }
    taken.extend(&out);
    ensure!(taken[..] == rd.data[..rd.pos], "taken {taken:02x?}, delivered {:02x?}", &rd.data[..rd.pos]);
    rbuf_ok(&b, cap, 0)?;
    ensure!(b.inner_ref().len() == cap && b.into_inner().len() == cap, "not the buffer of {cap} bytes that was put in");
    s.nontrivial_if(fills > 1 && taken.len() > 2);
    Ok(())
}
/// Items decoded through a small read buffer are the items of the stream.
fn c26_items(s: &mut Src) -> R {
    let depth = s.range(0, 3);
    let e = s.bool();
    let spec = gen(s, depth, Ctx { eos: e, reuse: true, min1: true });
    if contains(&spec, &|x| matches!(x, Spec::MaxBytes(..))) {
        return Ok(());
    }
    let n = if eats_all(&spec) { 1 } else { s.range(1, 4) };
    let mut data = vec![];
    for _ in 0..n {
        data.extend(sample(&spec, s, s.size));
    }
    s.note(|| format!("{spec:?} through a buffer, {data:02x?}"));
    let mut rd = Script::new(&data);
    let k = s.len(10);
    for _ in 0..k {
        rd.rops.push_back(if s.one_in(3) { Op::Block } else { Op::Max(roomy(s, 6).max(1)) });
    }
    let cap = roomy(s, 20).max(1).max(data.len() / 1000);
    let mut b = ReadBuf::new(vec![0; cap]);
    let mut d = build(&spec);
    let mut pos = 0;
    for _ in 0..n {
        let model = parse(&spec, &data[pos..], true, Tot::Unknown);
        let mut rounds = 0;
        let r = loop {
            if let Err(e) = b.fill(&mut rd) {
                fail!("fill failed with {:?}", e.kind());
            }
            if let Err(e) = d.decode_from_read_buf(&mut b) {
                break Err(e);
            }
            if d.is_idle() {
                break d.finish_decoding();
            }
            rounds += 1;
            ensure!(rounds < 500 + 20 * data.len(), "item never complete; {spec:?} {data:02x?} at {pos}");
        };
        match (r, model) {
            (Ok(v), Out::Done { val: Ok(w), used }) => {
                ensure!(v == w, "decoded {v:?}, expected {w:?}; {spec:?} {data:02x?} at {pos}");
                pos += used;
                ensure!(rd.pos - b.len() == pos, "{} bytes used up, expected {pos}; {spec:?}", rd.pos - b.len());
            }
            (Err(e), Out::Fail(k)) => {
                ensure!(ebit(&e) & k != 0, "failed with {:?}, expected {}; {spec:?} {data:02x?}", e.kind(), kname(k));
                return Ok(());
            }
            (Err(e), Out::Done { val: Err(k), .. }) => {
                ensure!(ebit(&e) & k != 0, "failed with {:?}, expected {}; {spec:?} {data:02x?}", e.kind(), kname(k));
                return Ok(());
            }
            (r, m) => fail!("gave {:?}, expected {m:?}; {spec:?} {data:02x?} at {pos}", r.map_err(|e| *e.kind())),
        }
        s.nontrivial_if(pos > cap);
    }
    Ok(())
}

// ---- C27 ----
fn c27(s: &mut Src) -> R {
    let mut cap = cap(s);
    let mut b = WriteBuf::new(vec![0xEE; cap]);
    let mut w = Script::new(&[]);
    let mut put: Vec<u8> = vec![];
    let mut next = 0u8;
    wbuf_ok(&b, cap, 0)?;
    let mut flushes = 0;
    let steps = s.rounds(1, 14);
    for _ in 0..steps {
        match s.draw(9) {
            8 => {
                // the owner of the buffer makes it larger
                let more = roomy(s, 9);
                b.inner_mut().resize(cap + more, 0x77);
                cap += more;
                s.note(|| format!("buffer made {more} bytes larger: {cap}"));
                s.label("buffer made larger");
            }
            7 => {
                // the owner of the buffer changes every byte held
                let m = s.byte();
                ensure!(b.inner_ref().len() == cap, "the buffer of {cap} bytes is shown as {}", b.inner_ref().len());
                b.inner_mut().iter_mut().for_each(|x| *x ^= m);
                put[w.out.len()..].iter_mut().for_each(|x| *x ^= m);
                s.note(|| format!("every byte of the buffer ^ {m:02x}"));
            }
            6 => {
                let st = any_state(s);
                s.note(|| format!("state set to {st:?}"));
                *b.stream_state_mut() = st;
                ensure!(b.stream_state() == st, "state set to {st:?} but reported as {:?}", b.stream_state());
                state_ok(st)?;
            }
            0 | 1 => {
                w.clear();
                w.wops = ops(s, 5, true);
                let before = b.stream_state();
                let r = b.flush(&mut w).map_err(|e| *e.kind());
                s.note(|| format!("flush -> {r:?}, writer {:?}, len {} room {}", w.wlast, b.len(), b.room()));
                judge_flush(r, w.wlast, before, &b)?;
                s.label_if(w.wlast == Last::Block, "writer blocked");
                s.label_if(matches!(w.wlast, Last::Err(_)), "writer failed");
                s.label_if(w.wlast == Last::End, "writer ended");
                flushes += 1;
            }
            2 | 3 => {
                let k = roomy(s, 12);
                let src: Vec<u8> = (0..k).map(|i| next.wrapping_add(i as u8)).collect();
                let room = b.room();
                match b.write(&src) {
                    Ok(m) => {
                        s.note(|| format!("write({k}) -> {m}"));
                        ensure!(m <= k && m <= room && (m > 0 || k == 0 || room == 0), "write({k}) with room {room} gave {m}");
                        put.extend(&src[..m]);
                        next = next.wrapping_add(m as u8);
                    }
                    Err(e) => fail!("write({k}) failed with {e}"),
                }
                if s.one_in(4) {
                    ensure!(Write::flush(&mut b).is_ok(), "Write::flush failed");
                }
            }
            _ => {
                let mut e = SpyEnc { give: takes(s), put: vec![], next, room: 0, eos: None, busy: true };
                let want = e.give.front().cloned();
                let (st, room) = (b.stream_state(), b.room());
                let waker = Waker::from(Arc::new(Count::default()));
                let r = if s.bool() { e.encode_to_write_buf(&mut b) } else { e.encode_to_write_buf_async(&mut b, &mut Context::from_waker(&waker)) };
                let r = r.map_err(|e| *e.kind());
                s.note(|| format!("encode_to_write_buf ({want:?}) -> {r:?}, put {:02x?}", e.put));
                match want {
                    Some(Err(k)) => ensure!(r == Err(k), "encoder failed with {k:?} but encode_to_write_buf gave {r:?}"),
                    _ => ensure!(r == Ok(()), "encode_to_write_buf gave {r:?}"),
                }
                if let Some(x) = e.eos {
                    ensure!(x.is_reached() == (st == StreamState::Eos), "encoder told {x:?} in state {st:?}");
                    ensure!(e.room == room, "encoder given {} bytes with room {room}", e.room);
                }
                put.extend(&e.put);
                next = e.next;
                s.label("encoded into the buffer");
            }
        }
        ensure!(w.out.len() <= put.len() && w.out[..] == put[..w.out.len()], "writer got {:02x?}, put in {put:02x?}", w.out);
        wbuf_ok(&b, cap, put.len() - w.out.len())?;
    }
    w.wops.clear();
    let _ = b.flush(&mut w);
    ensure!(w.out == put, "writer got {:02x?}, put in {put:02x?}", w.out);
    wbuf_ok(&b, cap, 0)?;
    ensure!(b.inner_ref().len() == cap && b.into_inner().len() == cap, "not the buffer of {cap} bytes that was put in");
    s.nontrivial_if(flushes > 1 && put.len() > 2);
    Ok(())
}
/// Items encoded through a small write buffer.
fn c27_items(s: &mut Src) -> R {
    let e = enc_any(s);
    let mut x = enc::Enc::new(&e, s);
    let cap = roomy(s, 16).max(1).max(if s.huge { 4000 } else if s.big { 200 } else { 1 });
    let mut b = WriteBuf::new(vec![0; cap]);
    let mut w = Script::new(&[]);
    let mut want = vec![];
    s.note(|| format!("{e:?} through a buffer of {cap}"));
    for _ in s.turns(1, 4) {
        let Some((v, bytes)) = enc::gen_valid(&e, s, s.size) else { return Ok(()) };
        if s.full(want.len()) {
            break;
        }
        if x.get().start_encoding(v.clone()).is_err() {
            fail!("valid item refused; {e:?} {v:?}");
        }
        let limit = 200 + 20 * bytes.len();
        want.extend(bytes);
        let mut rounds = 0;
        loop {
            let mut en = x.get();
            if let Err(k) = en.encode_to_write_buf(&mut b) {
                fail!("encode_to_write_buf failed with {:?}; {e:?} {v:?}", k.kind());
            }
            if x.get().is_idle() {
                break;
            }
            w.wops = ops(s, 3, false);
            if s.one_in(3) {
                w.wops.push_back(Op::Block);
            }
            if let Err(k) = b.flush(&mut w) {
                fail!("flush failed with {:?}", k.kind());
            }
            rounds += 1;
            ensure!(rounds < limit, "item never written; {e:?} {v:?}");
        }
    }
    w.wops.clear();
    let _ = b.flush(&mut w);
    ensure!(w.out == want, "writer got {:02x?}, expected {want:02x?}; {e:?}", w.out);
    s.nontrivial_if(want.len() > cap);
    Ok(())
}

// ---- C28 ----
fn c28(s: &mut Src) -> R {
    let (mut rc, mut wc) = (cap(s), cap(s));
    let n = if s.huge { 2_500_000 } else if s.big { 150_000 } else if s.long > 0 { 12_000 } else { s.range(0, 50) };
    let mut io = BufferedIo::new(Script::new(&counter(n)), rc, wc);
    let mut taken: Vec<u8> = vec![];
    let mut put: Vec<u8> = vec![];
    let (mut rstate, mut wstate) = (StreamState::Normal, StreamState::Normal);
    let mut rounds = 0;
    let mut next = 0u8;
    let steps = s.rounds(1, 14);
    for _ in 0..steps {
        match s.draw(9) {
            8 => {
                // both buffers are made larger
                let (m, n) = (roomy(s, 9), roomy(s, 9));
                io.read_buf_mut().inner_mut().resize(rc + m, 0x77);
                io.write_buf_mut().inner_mut().resize(wc + n, 0x77);
                rc += m;
                wc += n;
                s.label("buffers made larger");
            }
            0..=3 => {
                let st = io.stream_mut();
                st.clear();
                st.rops = ops(s, 4, true);
                st.wops = ops(s, 4, true);
                let r = io.execute_io().map_err(|e| *e.kind());
                let st = io.stream_ref();
                let (rl, wl) = (st.rlast, st.wlast);
                s.note(|| format!("execute_io -> {r:?}, reads {rl:?}, writes {wl:?}"));
                let e = match (rl, wl) {
                    (Last::Err(k), Last::Err(j)) => vec![mapped(k), mapped(j)],
                    (Last::Err(k), _) | (_, Last::Err(k)) => vec![mapped(k)],
                    _ => vec![],
                };
                match r {
                    Ok(()) => {
                        ensure!(e.is_empty(), "reads {rl:?}, writes {wl:?}, but execute_io succeeded");
                        ensure!(io.read_buf_ref().is_full() || matches!(rl, Last::Block | Last::End), "read buffer not full (room {}) though reads {rl:?}", io.read_buf_ref().room());
                        ensure!(io.write_buf_ref().is_empty() || matches!(wl, Last::Block | Last::End), "write buffer holds {} bytes though writes {wl:?}", io.write_buf_ref().len());
                    }
                    Err(k) => ensure!(e.contains(&k), "execute_io failed with {k:?}; reads {rl:?}, writes {wl:?}"),
                }
                rstate = rl.state().unwrap_or(rstate);
                wstate = wl.state().unwrap_or(wstate);
                rounds += 1;
                s.label_if(rl == Last::Block, "input blocked");
                s.label_if(wl == Last::Block, "output blocked");
                s.label_if(rl == Last::End || wl == Last::End, "a direction ended");
                s.label_if(!e.is_empty(), "a direction failed");
            }
            4 | 5 => {
                let mut d = SpyDec { take: takes(s), got: vec![], offered: vec![], eos: None };
                let _ = d.decode_from_read_buf(io.read_buf_mut());
                taken.extend(&d.got);
                if let Some(e) = d.eos {
                    ensure!(e.is_reached() == (rstate == StreamState::Eos), "decoder told {e:?} while the input is {rstate:?}");
                }
            }
            6 => {
                let mut e = SpyEnc { give: takes(s), put: vec![], next, room: 0, eos: None, busy: true };
                let _ = e.encode_to_write_buf(io.write_buf_mut());
                put.extend(&e.put);
                next = e.next;
            }
            7 => {
                let k = roomy(s, 10);
                let src: Vec<u8> = (0..k).map(|i| next.wrapping_add(i as u8)).collect();
                let m = io.write_buf_mut().write(&src).unwrap_or(0);
                put.extend(&src[..m]);
                next = next.wrapping_add(m as u8);
            }
            _ => unreachable!(),
        }
        let st = io.stream_ref();
        ensure!(taken.len() <= st.pos && taken[..] == st.data[..taken.len()], "taken {taken:02x?}, delivered {:02x?}", &st.data[..st.pos]);
        ensure!(st.out.len() <= put.len() && st.out[..] == put[..st.out.len()], "peer got {:02x?}, put in {put:02x?}", st.out);
        rbuf_ok(io.read_buf_ref(), rc, st.pos - taken.len())?;
        wbuf_ok(io.write_buf_ref(), wc, put.len() - st.out.len())?;
        ensure!(io.is_eos() == (rstate == StreamState::Eos || wstate == StreamState::Eos), "is_eos {} while input {rstate:?}, output {wstate:?}", io.is_eos());
        let pending = put.len() > st.out.len();
        let want = rstate == StreamState::WouldBlock && (!pending || wstate == StreamState::WouldBlock);
        ensure!(io.would_block() == want, "would_block {} while input {rstate:?}, output {wstate:?}, {} bytes to write", io.would_block(), put.len() - st.out.len());
        s.label_if(want, "would block");
    }
    s.nontrivial_if(rounds > 1 && taken.len() + put.len() > 2);
    let out = io.into_stream().out;
    ensure!(out[..] == put[..out.len()], "peer got {out:02x?}");
    Ok(())
}
/// Two endpoints exchanging items over a pipe that delivers as scripted.
struct Pipe {
    inn: Rc<RefCell<VecDeque<u8>>>,
    out: Rc<RefCell<VecDeque<u8>>>,
    rops: VecDeque<Op>,
    wops: VecDeque<Op>,
    done: bool,
}
impl Read for Pipe {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        tick();
        let max = match self.rops.pop_front() {
            Some(Op::Max(n)) => n,
            Some(Op::Block) => return Err(io::ErrorKind::WouldBlock.into()),
            _ => usize::MAX,
        };
        let mut q = self.inn.borrow_mut();
        if q.is_empty() {
            return if self.done { Ok(0) } else { Err(io::ErrorKind::WouldBlock.into()) };
        }
        let n = max.min(buf.len()).min(q.len());
        for b in buf.iter_mut().take(n) {
            *b = q.pop_front().unwrap();
        }
        Ok(n)
    }
}
impl Write for Pipe {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        tick();
        let max = match self.wops.pop_front() {
            Some(Op::Max(n)) => n,
            Some(Op::Block) => return Err(io::ErrorKind::WouldBlock.into()),
            _ => usize::MAX,
        };
        let n = max.min(buf.len());
        self.out.borrow_mut().extend(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn c28_exchange(s: &mut Src) -> R {
    let depth = s.range(0, 3);
    let spec = gen(s, depth, Ctx { eos: false, reuse: true, min1: true });
    let Some(e) = enc::counterpart(&spec).map(Rc::new) else { return Ok(()) };
    if contains(&spec, &|x| matches!(x, Spec::MaxBytes(..))) {
        return Ok(());
    }
    let mut items = vec![];
    let mut total = 0;
    for _ in s.turns(1, 5) {
        let b = sample(&spec, s, 20);
        total += b.len();
        if s.full(total) {
            break;
        }
        let Out::Done { val: Ok(v), .. } = parse(&spec, &b, true, Tot::Unknown) else { continue };
        if let Ser::Run { end: SerEnd::Done, .. } = enc::ser(&e, &v) {
            items.push(v);
        }
    }
    s.note(|| format!("{spec:?}, items {items:?}"));
    let (a, b) = (Rc::new(RefCell::new(VecDeque::new())), Rc::new(RefCell::new(VecDeque::new())));
    let mk = |s: &mut Src, i: &Rc<RefCell<VecDeque<u8>>>, o: &Rc<RefCell<VecDeque<u8>>>| {
        let block = |q: VecDeque<Op>| q.into_iter().map(|o| if matches!(o, Op::Max(_)) { o } else { Op::Block }).collect();
        let (r, w) = (block(ops(s, 12, true)), block(ops(s, 12, true)));
        // (never so many rounds that the call budget comes into play)
        let least = 1 + total / 1000;
        let (rc, wc) = (roomy(s, 12).max(least), roomy(s, 12).max(least));
        BufferedIo::new(Pipe { inn: i.clone(), out: o.clone(), rops: r, wops: w, done: false }, rc, wc)
    };
    let mut left = mk(s, &a, &b);
    let mut right = mk(s, &b, &a);
    // left sends the items, right echoes them
    let mut le = enc::build(&e);
    let mut re = enc::build(&e);
    let mut ld = build(&spec);
    let mut rd = build(&spec);
    let mut sent = 0;
    let mut queue: VecDeque<Val> = VecDeque::new();
    let mut seen: Vec<Val> = vec![];
    let mut back: Vec<Val> = vec![];
    let er = |w: &str, e: bytecodec::Error| -> Fail { Fail::Bug(format!("{w} failed with {:?}; {spec:?} {items:?}", e.kind())) };
    for round in 0..3000 + 40 * (total + items.len()) {
        if back.len() == items.len() {
            ensure!(seen == items && back == items, "items {items:?} arrived as {seen:?} and came back as {back:?}; {spec:?}");
            s.nontrivial_if(items.len() > 1 && round > 2);
            // an orderly end
            left.stream_mut().done = true;
            left.stream_mut().rops.clear();
            for _ in 0..14 {
                left.execute_io().map_err(|e| er("execute_io", e))?;
            }
            ensure!(left.is_eos() || left.read_buf_ref().is_full(), "the peer closed but is_eos is false; {spec:?}");
            return Ok(());
        }
        if le.is_idle() && sent < items.len() {
            le.start_encoding(items[sent].clone()).map_err(|e| er("start_encoding", e))?;
            sent += 1;
        }
        le.encode_to_write_buf(left.write_buf_mut()).map_err(|e| er("encode_to_write_buf", e))?;
        left.execute_io().map_err(|e| er("execute_io", e))?;
        ld.decode_from_read_buf(left.read_buf_mut()).map_err(|e| er("decode_from_read_buf", e))?;
        if ld.is_idle() {
            back.push(ld.finish_decoding().map_err(|e| er("finish_decoding", e))?);
        }
        right.execute_io().map_err(|e| er("execute_io", e))?;
        rd.decode_from_read_buf(right.read_buf_mut()).map_err(|e| er("decode_from_read_buf", e))?;
        if rd.is_idle() {
            let v = rd.finish_decoding().map_err(|e| er("finish_decoding", e))?;
            seen.push(v.clone());
            queue.push_back(v);
        }
        if re.is_idle() {
            if let Some(v) = queue.pop_front() {
                re.start_encoding(v).map_err(|e| er("start_encoding", e))?;
            }
        }
        re.encode_to_write_buf(right.write_buf_mut()).map_err(|e| er("encode_to_write_buf", e))?;
    }
    fail!("exchange does not end: {} of {} items back; {spec:?}", back.len(), items.len())
}

// ---- C29, C30 ----
#[derive(Default)]
struct Count(AtomicU32);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}
fn poll_kind(p: Poll<bytecodec::Result<()>>) -> Poll<Result<(), ErrorKind>> {
    p.map(|r| r.map_err(|e| *e.kind()))
}
fn same_wake(cx: &Waker, n: usize, what: &str) -> R {
    let ws = take_registered();
    ensure!(ws.len() == n, "{what}: {} wake-ups registered, {n} blocked operations", ws.len());
    for w in ws {
        ensure!(w.will_wake(cx), "{what}: a foreign waker was registered");
    }
    Ok(())
}
fn c29(s: &mut Src) -> R {
    take_registered();
    let (rc, wc) = (cap(s), cap(s));
    let n = if s.huge { 2_500_000 } else if s.big { 150_000 } else if s.long > 0 { 12_000 } else { s.range(0, 50) };
    let data = counter(n);
    let mut sync = BufferedIo::new(Script::new(&data), rc, wc);
    let mut asyn = BufferedIo::new(Script::new(&data), rc, wc);
    let count = Arc::new(Count::default());
    let waker = Waker::from(count.clone());
    let mut cx = Context::from_waker(&waker);
    let mut next = 0u8;
    let mut rounds = 0;
    let steps = s.rounds(1, 14);
    for _ in 0..steps {
        let (ro, wo) = (ops(s, 4, true), ops(s, 4, true));
        let what = s.draw(8);
        match what {
            0..=4 => {
                rounds += 1;
                for io in [&mut sync, &mut asyn] {
                    let st = io.stream_mut();
                    st.clear();
                    st.rops = ro.clone();
                    st.wops = wo.clone();
                    st.rcalls = 0;
                    st.wcalls = 0;
                }
                let (mut sr, mut sw) = (None, None);
                let mut st = std::mem::replace(sync.stream_mut(), Script::new(&[]));
                if what != 1 {
                    sr = Some(sync.read_buf_mut().fill(&mut st).map_err(|e| *e.kind()));
                }
                if what != 0 {
                    sw = Some(sync.write_buf_mut().flush(&mut st).map_err(|e| *e.kind()));
                }
                let blocked = |on: bool, l: Last| on && l == Last::Block;
                let (rb, wb) = (blocked(what != 1, st.rlast), blocked(what != 0, st.wlast));
                *sync.stream_mut() = st;
                let (name, got, want) = match what {
                    0 => {
                        let mut st = std::mem::replace(asyn.stream_mut(), Script::new(&[]));
                        let p = asyn.read_buf_mut().poll_fill(Pin::new(&mut st), &mut cx);
                        *asyn.stream_mut() = st;
                        ("poll_fill", poll_kind(p), if rb { Poll::Pending } else { Poll::Ready(sr.unwrap()) })
                    }
                    1 => {
                        let mut st = std::mem::replace(asyn.stream_mut(), Script::new(&[]));
                        let p = asyn.write_buf_mut().poll_flush(Pin::new(&mut st), &mut cx);
                        *asyn.stream_mut() = st;
                        ("poll_flush", poll_kind(p), if wb { Poll::Pending } else { Poll::Ready(sw.unwrap()) })
                    }
                    _ => {
                        let p = Pin::new(&mut asyn).execute_io_poll(&mut cx);
                        let (r, w) = (sr.unwrap(), sw.unwrap());
                        ("execute_io_poll", poll_kind(p), if rb && wb { Poll::Pending } else { Poll::Ready(r.and(w)) })
                    }
                };
                s.note(|| format!("{name} reads {ro:?} writes {wo:?}: {got:?}"));
                let (rl, wl) = (asyn.stream_ref().rlast, asyn.stream_ref().wlast);
                if let (Last::Err(a), Last::Err(b), true) = (rl, wl, what > 1) {
                    // both failed: either error may be the one returned
                    ensure!(got == Poll::Ready(Err(mapped(a))) || got == Poll::Ready(Err(mapped(b))), "{name} gave {got:?}, reads failed with {a:?}, writes with {b:?}");
                } else {
                    ensure!(got == want, "{name} gave {got:?}, the synchronous operations {want:?}; reads {rl:?}, writes {wl:?}");
                }
                same_wake(&waker, usize::from(rb) + usize::from(wb), name)?;
                s.label_if(got == Poll::Pending, "pending");
                s.label_if(matches!(got, Poll::Ready(Err(_))), "error");
                s.label_if(what > 1, "combined round");
            }
            5 => {
                let k = roomy(s, 10);
                let src: Vec<u8> = (0..k).map(|i| next.wrapping_add(i as u8)).collect();
                next = next.wrapping_add(k as u8);
                let a = sync.write_buf_mut().write(&src).unwrap_or(0);
                let b = asyn.write_buf_mut().write(&src).unwrap_or(0);
                ensure!(a == b, "write took {b} bytes, {a} in the synchronous buffer");
            }
            6 => {
                let k = roomy(s, 10);
                let (mut x, mut y) = (vec![0; k], vec![0; k]);
                let a = sync.read_buf_mut().read(&mut x).unwrap_or(0);
                let b = asyn.read_buf_mut().read(&mut y).unwrap_or(0);
                ensure!(a == b && x == y, "read gave {:02x?}, {:02x?} from the synchronous buffer", &y[..b], &x[..a]);
            }
            _ => {
                let give = takes(s);
                let mk = || SpyEnc { give: give.clone(), put: vec![], next, room: 0, eos: None, busy: true };
                let (mut e, mut f) = (mk(), mk());
                let a = e.encode_to_write_buf(sync.write_buf_mut()).map_err(|e| *e.kind());
                let b = f.encode_to_write_buf_async(asyn.write_buf_mut(), &mut cx).map_err(|e| *e.kind());
                ensure!(a == b && e.put == f.put && e.eos == f.eos, "encode_to_write_buf_async gave {b:?} {:02x?} {:?}, the synchronous one {a:?} {:02x?} {:?}", f.put, f.eos, e.put, e.eos);
                next = e.next;
            }
        }
        let (x, y) = (&sync, &asyn);
        ensure!(x.stream_ref().pos == y.stream_ref().pos && x.stream_ref().out == y.stream_ref().out, "transferred {} in, {:02x?} out; synchronously {} in, {:02x?} out", y.stream_ref().pos, y.stream_ref().out, x.stream_ref().pos, x.stream_ref().out);
        ensure!(x.stream_ref().rcalls == y.stream_ref().rcalls && x.stream_ref().wcalls == y.stream_ref().wcalls, "{}+{} operations, synchronously {}+{}", y.stream_ref().rcalls, y.stream_ref().wcalls, x.stream_ref().rcalls, x.stream_ref().wcalls);
        let (a, b) = (x.read_buf_ref(), y.read_buf_ref());
        ensure!((a.len(), a.room(), a.stream_state()) == (b.len(), b.room(), b.stream_state()), "read buffer ({}, {}, {:?}), synchronously ({}, {}, {:?})", b.len(), b.room(), b.stream_state(), a.len(), a.room(), a.stream_state());
        let (a, b) = (x.write_buf_ref(), y.write_buf_ref());
        ensure!((a.len(), a.room(), a.stream_state()) == (b.len(), b.room(), b.stream_state()), "write buffer ({}, {}, {:?}), synchronously ({}, {}, {:?})", b.len(), b.room(), b.stream_state(), a.len(), a.room(), a.stream_state());
        ensure!(x.is_eos() == y.is_eos() && x.would_block() == y.would_block(), "is_eos {}, would_block {}, synchronously {}, {}", y.is_eos(), y.would_block(), x.is_eos(), x.would_block());
    }
    // what is left is the same
    let (mut p, mut q) = (vec![], vec![]);
    let _ = sync.read_buf_mut().read_to_end(&mut p);
    let _ = asyn.read_buf_mut().read_to_end(&mut q);
    ensure!(p == q, "read buffer holds {q:02x?}, synchronously {p:02x?}");
    s.nontrivial_if(rounds > 1 && n > 1);
    Ok(())
}
fn c30(s: &mut Src) -> R {
    take_registered();
    let cap = match s.draw(8) {
        0 => 0,
        1 => s.range(1, 30),
        _ => s.range(1, 6),
    };
    let mut b = WriteBuf::new(vec![0; cap]);
    let tasks: Vec<Arc<Count>> = (0..3).map(|_| Arc::default()).collect();
    let wakers: Vec<Waker> = tasks.iter().map(|t| Waker::from(t.clone())).collect();
    let mut waiting: Option<usize> = None;
    let mut w = Script::new(&[]);
    let mut woken = 0;
    let steps = s.rounds(2, 16);
    let counts = || tasks.iter().map(|t| t.0.load(Ordering::SeqCst)).collect::<Vec<_>>();
    for _ in 0..steps {
        match s.draw(6) {
            0 | 1 => {
                // a task encodes; it waits if its encoder still has bytes when the buffer is full
                let t = s.below(3);
                let k = s.range(1, 2 * cap.min(8) + 3);
                let mut e = bytecodec::bytes::BytesEncoder::<Vec<u8>>::new();
                let _ = e.start_encoding(vec![t as u8; k]);
                let r = e.encode_to_write_buf_async(&mut b, &mut Context::from_waker(&wakers[t]));
                if b.stream_state().is_eos() {
                    // the output has ended: nothing more to wait for
                    if r.is_err() {
                        return Ok(());
                    }
                } else if let Err(e) = r {
                    fail!("encode_to_write_buf_async failed with {:?}", e.kind());
                }
                s.note(|| format!("task {t} encodes {k} bytes, {} left, full {}", k.saturating_sub(0), b.is_full()));
                if !e.is_idle() {
                    ensure!(b.is_full(), "encoder not done though there is room {}", b.room());
                    s.label_if(waiting.is_some() && waiting != Some(t), "two tasks wait");
                    waiting = Some(t);
                } else if waiting.is_none() || !b.is_full() {
                    // done: it does not wait (and nobody else can be waiting)
                    waiting = None;
                }
            }
            2 => {
                let k = s.len(cap.min(6));
                let _ = b.write(&vec![7; k]);
            }
            op => {
                w.clear();
                let faults = if s.long > 0 { s.one_in(200) } else { s.bool() };
                w.wops = ops(s, 4, faults);
                if s.bool() {
                    w.wops.push_back(Op::Block);
                }
                let full = b.is_full();
                let before = counts();
                let flusher = Waker::from(Arc::new(Count::default()));
                let r = if op < 5 {
                    b.flush(&mut w).is_ok()
                } else {
                    b.poll_flush(Pin::new(&mut w), &mut Context::from_waker(&flusher)).is_ready()
                };
                take_registered();
                let after = counts();
                s.note(|| format!("{} -> {r}, full {full} -> {}, waiting {waiting:?}, woken {before:?} -> {after:?}", if op < 5 { "flush" } else { "poll_flush" }, b.is_full()));
                if b.is_full() {
                    ensure!(before == after, "flush left the buffer full but woke a task: {before:?} -> {after:?}");
                } else if full {
                    if let Some(t) = waiting {
                        ensure!(after[t] > before[t], "task {t} waits for room, the flush made room ({}), but it was not woken", b.room());
                        woken += 1;
                        s.label_if(op < 5, "woken by flush");
                        s.label_if(op == 5, "woken by poll_flush");
                    }
                    waiting = None;
                }
            }
        }
    }
    s.nontrivial_if(woken > 0);
    Ok(())
}

// ---- pinned ----
fn pin_exact_end() -> R {
    // F13: the stream ends, the decoder tolerates it
    let mut d = Fix::U16be.dec().maybe_eos();
    let r = d.decode_exact(Script::new(&[])).map_err(|e| *e.kind());
    ensure!(r == Err(ErrorKind::UnexpectedEos), "decode_exact on an empty stream gave {r:?}");
    Ok(())
}
fn pin_collect_end() -> R {
    // F19: an item that starts without a byte, and the stream has ended
    let spec = Rc::new(Spec::Collect(Rc::new(Spec::Then(Rc::new(Spec::Null), Rc::new(Spec::Fix(Fix::U8))))));
    for data in [&[][..], &[1, 2, 3][..]] {
        let want = crate::val::Val::L(data.iter().map(|b| crate::val::Val::T(vec![crate::val::Val::Unit, crate::val::Val::U(u64::from(*b))])).collect());
        let r = build(&spec).decode_exact(Script::new(data)).map_err(|e| *e.kind());
        ensure!(r.as_ref().ok() == Some(&want), "decode_exact on {data:?} gave {r:?}, expected {want:?}");
    }
    Ok(())
}
fn pin_poll_wake() -> R {
    // F14: poll_flush drains a full buffer in several writes
    let mut b = WriteBuf::new(vec![0; 4]);
    let t = Arc::new(Count::default());
    let w = Waker::from(t.clone());
    let mut e = bytecodec::bytes::BytesEncoder::<Vec<u8>>::new();
    let _ = e.start_encoding(vec![1; 9]);
    let _ = e.encode_to_write_buf_async(&mut b, &mut Context::from_waker(&w));
    let mut sink = Script::new(&[]);
    sink.wops = [Op::Max(1), Op::Max(3)].into_iter().collect();
    let _ = b.poll_flush(Pin::new(&mut sink), &mut Context::from_waker(&Waker::from(Arc::new(Count::default()))));
    ensure!(t.0.load(Ordering::SeqCst) == 1, "waiting task woken {} times", t.0.load(Ordering::SeqCst));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let _ = drive::PLAIN;
    vec![
        Prop::new("C24")
            .sub("items", 600_000, "at least two nodes and two bytes, a reader error, or an early end after some bytes", c24_items)
            .large("large-items", 5000, "at least two nodes and two bytes, a reader error, or an early end after some bytes", c24_items)
            .sub("wrong-need", 80_000, "an item of at least two bytes", c24_wrong_need)
            .large("large-wrong-need", 2000, "an item of at least two bytes", c24_wrong_need)
            .long("long-items", 9000, "at least two nodes and two bytes, a reader error, or an early end after some bytes", c24_items)
            .sub("large", 20_000, "an item of more than 1000 bytes", c24_large)
            .pin("exact-end", pin_exact_end)
            .pin("collect-end", pin_collect_end),
        Prop::new("C25")
            .sub("encode-all", 300_000, "composition and more than one byte, or a writer failure", c25_encode_all)
            .large("large-encode-all", 3000, "composition and more than one byte, or a writer failure", c25_encode_all)
            .sub("wrong-need", 80_000, "at least two bytes, fewer reported", c25_wrong_need)
            .large("large-wrong-need", 2000, "at least two bytes, fewer reported", c25_wrong_need)
            .long("long-encode-all", 9000, "composition and more than one byte, or a writer failure", c25_encode_all)
            .sub("into-bytes", 300_000, "composition and more than one byte", c25_into_bytes)
            .large("large-into-bytes", 3000, "composition and more than one byte", c25_into_bytes)
            .long("long-into-bytes", 9000, "composition and more than one byte", c25_into_bytes)
            .sub("endless", 100_000, "an encoder without end took the item", c25_endless)
            .sub("stuck", 20_000, "the encoder cannot finish", c25_stuck)
            .sub("large", 4_000, "more than 1000 bytes", c25_large)
            .sub("from-bytes", 600_000, "composition and more than one byte, or bytes left over or missing", c25_from_bytes)
            .large("large-from-bytes", 5000, "composition and more than one byte, or bytes left over or missing", c25_from_bytes),
        Prop::new("C26")
            .sub("history", 600_000, "at least two fills and three bytes", c26)
            .large("large-history", 4000, "at least two fills and three bytes", c26)
            .long("long-history", 9000, "at least two fills and three bytes", c26)
            .sub("items", 300_000, "more bytes than the buffer holds", c26_items)
            .large("large-items", 3000, "more bytes than the buffer holds", c26_items),
        Prop::new("C27")
            .sub("history", 600_000, "at least two flushes and three bytes", c27)
            .large("large-history", 4000, "at least two flushes and three bytes", c27)
            .long("long-history", 9000, "at least two flushes and three bytes", c27)
            .sub("items", 200_000, "more bytes than the buffer holds", c27_items).long("long-items", 9000, "more bytes than the buffer holds", c27_items)
            .large("large-items", 2000, "more bytes than the buffer holds", c27_items),
        Prop::new("C28")
            .sub("history", 600_000, "at least two rounds and three bytes", c28)
            .large("large-history", 4000, "at least two rounds and three bytes", c28)
            .long("long-history", 9000, "at least two rounds and three bytes", c28)
            .sub("exchange", 80_000, "at least two items over more than two rounds", c28_exchange).long("long-exchange", 3000, "at least two items over more than two rounds", c28_exchange)
            .large("large-exchange", 1000, "at least two items over more than two rounds", c28_exchange),
        Prop::new("C29").sub("differential", 800_000, "at least two rounds and two bytes to read", c29).long("long-differential", 9000, "at least two rounds and two bytes to read", c29)
            .large("large-differential", 4000, "at least two rounds and two bytes to read", c29),
        Prop::new("C30").sub("wake", 1_000_000, "a waiting task was woken", c30).long("long-wake", 9000, "a waiting task was woken", c30).pin("poll-wake", pin_poll_wake),
    ]
}
