//! Decoder compositions: random trees, the real decoders they denote, and a whole-input reference model.
use crate::engine::{tick, Src};
use crate::val::{DynDec, Fix, Val, UINTS};
use bytecodec::bytes::{BytesDecoder, CopyableBytesDecoder, RemainingBytesDecoder, Utf8Decoder};
use bytecodec::json_codec::JsonDecoder;
use bytecodec::null::NullDecoder;
use bytecodec::padding::PaddingDecoder;
use bytecodec::tuple::TupleDecoder;
use bytecodec::{ByteCount, Decode, DecodeExt, Eos, Error, ErrorKind};
use std::rc::Rc;
use trackable::error::ErrorKindExt;

pub type S = Rc<Spec>;
#[derive(Clone, Debug)]
pub enum Spec {
    Fix(Fix),
    Copy(usize),
    Bytes(usize),
    Utf8N(usize),
    Remain,
    Utf8,
    Pad(Option<u8>),
    Null,
    Json,
    Map(S),
    TryMap(S),
    MapErr(Option<ErrorKind>, S),
    /// prefix, `and_then` body bounded to the prefix value
    LenPrefix(Fix, S),
    /// one tag byte, `and_then` the selected alternative
    Dispatch(Vec<S>),
    /// prefix, `and_then` that many items
    Count(Fix, S),
    Collect(S),
    CollectN(usize, S),
    /// window size, inner, a stream that fits
    Length(u64, S, Vec<u8>),
    Omit(bool, S),
    MaxBytes(u64, S),
    Tuple(Vec<S>),
    Slice(S),
    Peek(S),
    MaybeEos(S),
    /// after `0` bytes: fails with `1`, while decoding or (`2`) when taken
    Boom(usize, ErrorKind, bool),
    /// user-written: bytes up to a zero byte; states no (or a minimal) number of required bytes
    Zstr(bool),
    /// `0`, `and_then` a new `1`
    Then(S, S),
}
use Spec::*;

pub const II: u8 = 1;
pub const IS: u8 = 2;
pub const UE: u8 = 4;
pub const EF: u8 = 8;
pub const DT: u8 = 16;
pub const ID: u8 = 32;
pub const OT: u8 = 64;
pub const KINDS: &[ErrorKind] = &[
    ErrorKind::InvalidInput,
    ErrorKind::InconsistentState,
    ErrorKind::UnexpectedEos,
    ErrorKind::EncoderFull,
    ErrorKind::DecoderTerminated,
    ErrorKind::IncompleteDecoding,
    ErrorKind::Other,
];
pub fn kbit(k: ErrorKind) -> u8 {
    match k {
        ErrorKind::InvalidInput => II,
        ErrorKind::InconsistentState => IS,
        ErrorKind::UnexpectedEos => UE,
        ErrorKind::EncoderFull => EF,
        ErrorKind::DecoderTerminated => DT,
        ErrorKind::IncompleteDecoding => ID,
        ErrorKind::Other => OT,
    }
}
pub fn ebit(e: &Error) -> u8 {
    kbit(*e.kind())
}
pub fn kname(mask: u8) -> String {
    KINDS.iter().filter(|k| kbit(**k) & mask != 0).map(|k| format!("{k:?}")).collect::<Vec<_>>().join("|")
}
pub fn mkerr(k: ErrorKind) -> Error {
    k.cause("raised by the harness").into()
}

/// What the decoder knows about the total length of its window, counted from the start of the item.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tot {
    Known(u64),
    Unknown,
    Inf,
}
impl Tot {
    fn minus(self, n: usize) -> Tot {
        match self {
            Tot::Known(t) => Tot::Known(t - n as u64),
            t => t,
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    /// Idle after `used` bytes; taking the item gives `val`.
    Done { val: Result<Val, u8>, used: usize },
    More,
    /// A decode call fails with one of these kinds.
    Fail(u8),
}

fn checksum(v: &Val) -> u64 {
    match v {
        Val::Unit => 1,
        Val::U(n) => *n,
        Val::I(n) => *n as u64,
        Val::F32(n) => u64::from(*n),
        Val::F64(n) => *n,
        Val::B(b) => b.iter().fold(3, |a: u64, x| a.wrapping_mul(31).wrapping_add(u64::from(*x))),
        Val::S(b) => b.bytes().fold(5, |a: u64, x| a.wrapping_mul(31).wrapping_add(u64::from(x))),
        Val::J(j) => j.to_string().len() as u64,
        Val::L(v) | Val::T(v) => v.iter().fold(7, |a: u64, x| a.wrapping_mul(17).wrapping_add(checksum(x))),
        Val::O(o) => o.as_ref().map_or(2, |v| checksum(v).wrapping_add(1)),
        Val::M(_, v) => checksum(v).wrapping_add(9),
    }
}
/// The predicate of every generated fallible mapping.
pub fn reject(v: &Val) -> Option<ErrorKind> {
    let c = checksum(v);
    if c % 9 == 4 {
        Some(KINDS[(c / 9 % 7) as usize])
    } else {
        None
    }
}

/// Leaf wrapper counting calls, so that endless loops end deterministically.
pub struct Probe<D>(pub D);
impl<D: Decode> Decode for Probe<D> {
    type Item = D::Item;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        tick();
        self.0.decode(buf, eos)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<D::Item> {
        tick();
        self.0.finish_decoding()
    }
    fn requiring_bytes(&self) -> ByteCount {
        tick();
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        tick();
        self.0.is_idle()
    }
}
fn leaf<D: Decode + 'static>(d: D, f: fn(D::Item) -> Val) -> DynDec {
    Box::new(Probe(d).map(f))
}

/// How the stream a decoder is shown relates to the stream its parent is shown.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rel {
    Root,
    /// the same end, the same knowledge
    Pass,
    /// a window of that many bytes per item
    Window(u64),
    /// as Pass, but an end before the first byte is withheld
    Maybe,
}
thread_local! {
    static FRAMES: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static STACK: std::cell::RefCell<Vec<(usize, Eos)>> = const { std::cell::RefCell::new(Vec::new()) };
    static LIE: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
    static SEEN: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// From now on decoders are built with observers between every combinator and its inner decoders (or without).
pub fn observe_frames(on: bool) {
    FRAMES.with(|f| f.set(on));
    STACK.with(|s| s.borrow_mut().clear());
    LIE.with(|l| *l.borrow_mut() = None);
    SEEN.with(|l| l.set(0));
}
/// The first untrue end-of-stream information an inner codec was given, and how many calls were observed.
pub fn frame_report() -> (Option<String>, u64) {
    (LIE.with(|l| l.borrow_mut().take()), SEEN.with(|s| s.get()))
}
struct Frame {
    inner: DynDec,
    rel: Rel,
    left: u64,
    started: bool,
}
impl Decode for Frame {
    type Item = Val;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        let end = buf.as_ptr() as usize + buf.len();
        let parent = STACK.with(|s| s.borrow().last().copied());
        let ok = match (self.rel, parent) {
            (Rel::Root, _) | (_, None) => true,
            (Rel::Pass, Some((pe, peos))) => end == pe && eos == peos,
            (Rel::Maybe, Some((pe, peos))) => end == pe && (eos == peos || !self.started && buf.is_empty() && peos.is_reached() && !eos.is_reached()),
            (Rel::Window(_), Some((pe, _))) => {
                let avail = (pe - buf.as_ptr() as usize) as u64;
                let want = avail.min(self.left);
                buf.len() as u64 == want && eos.remaining_bytes() == ByteCount::Finite(self.left - want)
            }
        };
        if !ok {
            LIE.with(|l| {
                let mut l = l.borrow_mut();
                if l.is_none() {
                    *l = Some(format!("inner decoder ({:?}, {} bytes of its window left) was given {} bytes and {eos:?}; its parent had {:?} bytes from there and {:?}", self.rel, self.left, buf.len(), parent.map(|p| p.0.wrapping_sub(buf.as_ptr() as usize)), parent.map(|p| p.1)));
                }
            });
        }
        SEEN.with(|s| s.set(s.get() + 1));
        STACK.with(|s| s.borrow_mut().push((end, eos)));
        let r = self.inner.decode(buf, eos);
        STACK.with(|s| s.borrow_mut().pop());
        if let Ok(n) = r {
            self.left = self.left.saturating_sub(n as u64);
            self.started |= n > 0;
        }
        r
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<Val> {
        let idle = self.inner.is_idle();
        let r = self.inner.finish_decoding();
        if idle {
            self.started = false;
            if let Rel::Window(n) = self.rel {
                self.left = n;
            }
        }
        r
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.inner.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.inner.is_idle()
    }
}
fn frame(d: DynDec, rel: Rel) -> DynDec {
    if FRAMES.with(|f| f.get()) {
        let left = if let Rel::Window(n) = rel { n } else { 0 };
        Box::new(Frame { inner: d, rel, left, started: false })
    } else {
        d
    }
}
fn kid(spec: &S, rel: Rel) -> DynDec {
    frame(bare(spec), rel)
}
struct BoomDec {
    at: usize,
    got: usize,
    kind: ErrorKind,
    fin: bool,
}
impl Decode for BoomDec {
    type Item = Val;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        let n = buf.len().min(self.at - self.got);
        self.got += n;
        if self.got == self.at {
            if !self.fin {
                return Err(mkerr(self.kind));
            }
        } else if eos.is_reached() {
            return Err(mkerr(ErrorKind::UnexpectedEos));
        }
        Ok(n)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<Val> {
        if self.got != self.at {
            return Err(mkerr(ErrorKind::IncompleteDecoding));
        }
        self.got = 0;
        Err(mkerr(self.kind))
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite((self.at - self.got) as u64)
    }
    fn is_idle(&self) -> bool {
        self.fin && self.got == self.at
    }
}
/// Bytes up to and including a terminator.
#[derive(Default)]
struct ZstrDec {
    lower: bool,
    got: Vec<u8>,
    done: bool,
}
impl Decode for ZstrDec {
    type Item = Vec<u8>;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        if self.done {
            return Ok(0);
        }
        for (i, b) in buf.iter().enumerate() {
            if *b == 0 {
                self.done = true;
                return Ok(i + 1);
            }
            self.got.push(*b);
        }
        if eos.is_reached() {
            return Err(mkerr(ErrorKind::UnexpectedEos));
        }
        Ok(buf.len())
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<Vec<u8>> {
        if !self.done {
            return Err(mkerr(ErrorKind::IncompleteDecoding));
        }
        self.done = false;
        Ok(std::mem::take(&mut self.got))
    }
    fn requiring_bytes(&self) -> ByteCount {
        match (self.done, self.lower) {
            (true, _) => ByteCount::Finite(0),
            (false, true) => ByteCount::Finite(1),
            (false, false) => ByteCount::Unknown,
        }
    }
    fn is_idle(&self) -> bool {
        self.done
    }
}
/// Replaces one leaf (chosen by `s`) by one that fails.
pub fn inject(spec: &S, s: &mut Src) -> S {
    fn leaves(x: &S) -> usize {
        match &**x {
            Map(i) | TryMap(i) | MapErr(_, i) | Omit(_, i) | MaxBytes(_, i) | Slice(i) | Peek(i) | MaybeEos(i) | Collect(i) | CollectN(_, i) | Length(_, i, _) | LenPrefix(_, i) | Count(_, i) => leaves(i),
            Tuple(m) | Dispatch(m) => m.iter().map(leaves).sum(),
            Then(h, b) => leaves(h) + leaves(b),
            _ => 1,
        }
    }
    fn go(x: &S, n: &mut usize, s: &mut Src) -> S {
        macro_rules! g { ($i:expr) => { go($i, n, s) }; }
        Rc::new(match &**x {
            Map(i) => Map(g!(i)),
            TryMap(i) => TryMap(g!(i)),
            MapErr(k, i) => MapErr(*k, g!(i)),
            Omit(b, i) => Omit(*b, g!(i)),
            MaxBytes(k, i) => MaxBytes(*k, g!(i)),
            Slice(i) => Slice(g!(i)),
            Peek(i) => Peek(g!(i)),
            MaybeEos(i) => MaybeEos(g!(i)),
            Collect(i) => Collect(g!(i)),
            CollectN(k, i) => CollectN(*k, g!(i)),
            Length(k, i, h) => Length(*k, g!(i), h.clone()),
            LenPrefix(k, i) => LenPrefix(*k, g!(i)),
            Count(k, i) => Count(*k, g!(i)),
            Tuple(m) => Tuple(m.iter().map(|m| g!(m)).collect()),
            Dispatch(m) => Dispatch(m.iter().map(|m| g!(m)).collect()),
            Then(h, b) => Then(g!(h), g!(b)),
            leaf => {
                let hit = *n == 0;
                *n = n.wrapping_sub(1);
                if !hit || matches!(leaf, Null) {
                    return x.clone();
                }
                let k = *s.pick(KINDS);
                match fixed_size(leaf) {
                    Some(w) if w > 0 && s.bool() => Boom(w, k, true),
                    Some(w) => Boom(s.range(0, w), k, false),
                    None => Boom(s.range(0, 6), k, false),
                }
            }
        })
    }
    let mut n = s.below(leaves(spec));
    go(spec, &mut n, s)
}

/// The decoder `spec` denotes.
pub fn build(spec: &S) -> DynDec {
    kid(spec, Rel::Root)
}
fn bare(spec: &S) -> DynDec {
    match &**spec {
        Fix(k) => Box::new(Probe(k.dec())),
        Copy(n) => {
            macro_rules! c {
                ($($k:literal)*) => { match n { $($k => leaf(CopyableBytesDecoder::new([0xEEu8; $k]), |b| Val::B(b.to_vec())),)* _ => panic!("harness: array size {n}") } };
            }
            c!(0 1 2 3 5 8 32 255 256 1024 4096)
        }
        Bytes(n) => leaf(BytesDecoder::new(vec![0xEE; *n]), Val::B),
        Utf8N(n) => leaf(Utf8Decoder::with_bytes_decoder(BytesDecoder::new(vec![0xEE; *n])), Val::S),
        Remain => leaf(RemainingBytesDecoder::new(), Val::B),
        Utf8 => leaf(Utf8Decoder::new(), Val::S),
        Pad(e) => leaf(PaddingDecoder::new(*e), |()| Val::Unit),
        Null => leaf(NullDecoder, |()| Val::Unit),
        Json => leaf(JsonDecoder::<serde_json::Value>::new(), Val::J),
        Map(i) => Box::new(kid(i, Rel::Pass).map(|v| Val::M(1, Box::new(v)))),
        TryMap(i) => Box::new(kid(i, Rel::Pass).try_map(|v| match reject(&v) {
            Some(k) => Err(mkerr(k)),
            None => Ok(Val::M(2, Box::new(v))),
        })),
        MapErr(None, i) => Box::new(kid(i, Rel::Pass).map_err(|e| trackable::track!(e, "outer"))),
        MapErr(Some(k), i) => {
            let k = *k;
            Box::new(kid(i, Rel::Pass).map_err(move |_| mkerr(k)))
        }
        LenPrefix(k, body) => {
            let body = body.clone();
            Box::new(kid(&Rc::new(Fix(*k)), Rel::Pass).and_then(move |v| frame(Box::new(kid(&body, Rel::Window(v.u())).length(v.u())), Rel::Pass)))
        }
        Dispatch(alts) => {
            let alts = alts.clone();
            Box::new(kid(&Rc::new(Fix(crate::val::Fix::U8)), Rel::Pass).and_then(move |v| {
                let t = v.u() as usize % alts.len();
                kid(&alts[t], Rel::Pass).map(move |x| Val::M(100 + t as u32, Box::new(x)))
            }))
        }
        Count(k, body) => {
            let body = body.clone();
            Box::new(kid(&Rc::new(Fix(*k)), Rel::Pass).and_then(move |v| frame(Box::new(kid(&body, Rel::Pass).collectn::<Vec<Val>>(v.u() as usize).map(Val::L)), Rel::Pass)))
        }
        Collect(i) => Box::new(kid(i, Rel::Pass).collect::<Vec<Val>>().map(Val::L)),
        CollectN(n, i) => Box::new(kid(i, Rel::Pass).collectn::<Vec<Val>>(*n).map(Val::L)),
        Length(n, i, _) => Box::new(kid(i, Rel::Window(*n)).length(*n)),
        Omit(b, i) => Box::new(kid(i, Rel::Pass).omit(*b).map(|o| Val::O(o.map(Box::new)))),
        MaxBytes(n, i) => Box::new(kid(i, Rel::Pass).max_bytes(*n)),
        Tuple(m) => {
            let m: Vec<DynDec> = m.iter().map(|m| kid(m, Rel::Pass)).collect();
            tuple_dec(m)
        }
        Slice(i) => {
            let mut d = kid(i, Rel::Pass).slice();
            d.set_consumable_bytes(u64::MAX);
            Box::new(d)
        }
        Peek(i) => Box::new(kid(i, Rel::Pass).peekable()),
        MaybeEos(i) => Box::new(kid(i, Rel::Maybe).maybe_eos()),
        Boom(at, k, fin) => Box::new(Probe(BoomDec { at: *at, got: 0, kind: *k, fin: *fin })),
        Zstr(lower) => leaf(ZstrDec { lower: *lower, ..Default::default() }, Val::B),
        Then(h, b) => {
            let b = b.clone();
            Box::new(kid(h, Rel::Pass).and_then(move |v| kid(&b, Rel::Pass).map(move |w| Val::T(vec![v.clone(), w]))))
        }
    }
}
/// A tuple decoder over the given members (2 by `chain`).
pub fn tuple_dec(m: Vec<DynDec>) -> DynDec {
    let mut it = m.into_iter();
    macro_rules! n { () => { it.next().unwrap() }; }
    match it.len() {
        2 => {
            let (a, b) = (n!(), n!());
            Box::new(a.chain(b).map(|(a, b)| Val::T(vec![a, b])))
        }
        3 => Box::new(TupleDecoder::new((n!(), n!(), n!())).map(|(a, b, c)| Val::T(vec![a, b, c]))),
        4 => Box::new(TupleDecoder::new((n!(), n!(), n!(), n!())).map(|(a, b, c, d)| Val::T(vec![a, b, c, d]))),
        5 => Box::new(TupleDecoder::new((n!(), n!(), n!(), n!(), n!())).map(|(a, b, c, d, e)| Val::T(vec![a, b, c, d, e]))),
        6 => Box::new(TupleDecoder::new((n!(), n!(), n!(), n!(), n!(), n!())).map(|(a, b, c, d, e, f)| Val::T(vec![a, b, c, d, e, f]))),
        7 => Box::new(TupleDecoder::new((n!(), n!(), n!(), n!(), n!(), n!(), n!())).map(|(a, b, c, d, e, f, g)| Val::T(vec![a, b, c, d, e, f, g]))),
        8 => Box::new(TupleDecoder::new((n!(), n!(), n!(), n!(), n!(), n!(), n!(), n!())).map(|(a, b, c, d, e, f, g, h)| Val::T(vec![a, b, c, d, e, f, g, h]))),
        k => panic!("harness: tuple of {k}"),
    }
}

fn fixed(data: &[u8], closed: bool, n: usize, f: impl FnOnce(&[u8]) -> Result<Val, u8>) -> Out {
    if data.len() >= n {
        Out::Done { val: f(&data[..n]), used: n }
    } else if closed {
        Out::Fail(UE)
    } else {
        Out::More
    }
}
fn to_end(data: &[u8], closed: bool, f: impl FnOnce(&[u8]) -> Result<Val, u8>) -> Out {
    if closed {
        Out::Done { val: f(data), used: data.len() }
    } else {
        Out::More
    }
}
fn utf8(b: &[u8]) -> Result<Val, u8> {
    std::str::from_utf8(b).map(|s| Val::S(s.to_string())).map_err(|_| II)
}

/// The meaning of `spec` on a stream whose first bytes are `data`; `closed`: the stream ends there.
pub fn parse(spec: &Spec, data: &[u8], closed: bool, tot: Tot) -> Out {
    match spec {
        Fix(k) => fixed(data, closed, k.width(), |b| Ok(k.parse(b))),
        Copy(n) | Bytes(n) => fixed(data, closed, *n, |b| Ok(Val::B(b.to_vec()))),
        Utf8N(n) => fixed(data, closed, *n, utf8),
        Remain => to_end(data, closed, |b| Ok(Val::B(b.to_vec()))),
        Utf8 => to_end(data, closed, utf8),
        Pad(e) => {
            if let Some(e) = e {
                if data.iter().any(|b| b != e) {
                    return Out::Fail(II);
                }
            }
            to_end(data, closed, |_| Ok(Val::Unit))
        }
        Null => Out::Done { val: Ok(Val::Unit), used: 0 },
        Boom(n, k, true) => fixed(data, closed, *n, |_| Err(kbit(*k))),
        Boom(n, k, false) => {
            if data.len() >= *n {
                Out::Fail(kbit(*k))
            } else if closed {
                Out::Fail(UE)
            } else {
                Out::More
            }
        }
        Zstr(_) => match data.iter().position(|b| *b == 0) {
            Some(n) => Out::Done { val: Ok(Val::B(data[..n].to_vec())), used: n + 1 },
            None if closed => Out::Fail(UE),
            None => Out::More,
        },
        Then(h, b) => and_then(h, data, closed, tot, |v, d, t| map_val(parse(b, d, closed, t), |w| Ok(Val::T(vec![v, w])))),
        Json => {
            if !closed {
                Out::More
            } else {
                match serde_json::from_slice::<serde_json::Value>(data) {
                    Ok(v) => Out::Done { val: Ok(Val::J(v)), used: data.len() },
                    Err(_) => Out::Fail(II),
                }
            }
        }
        Map(i) => map_val(parse(i, data, closed, tot), |v| Ok(Val::M(1, Box::new(v)))),
        TryMap(i) => map_val(parse(i, data, closed, tot), |v| match reject(&v) {
            Some(k) => Err(kbit(k)),
            None => Ok(Val::M(2, Box::new(v))),
        }),
        MapErr(None, i) | Slice(i) => parse(i, data, closed, tot),
        MapErr(Some(k), i) => match parse(i, data, closed, tot) {
            Out::Fail(_) => Out::Fail(kbit(*k)),
            Out::Done { val: Err(_), used } => Out::Done { val: Err(kbit(*k)), used },
            o => o,
        },
        LenPrefix(k, body) => and_then(&Fix(*k), data, closed, tot, |v, d, t| window(body, v.u(), d, closed, t)),
        Dispatch(alts) => and_then(&Fix(crate::val::Fix::U8), data, closed, tot, |v, d, t| {
            let i = v.u() as usize % alts.len();
            map_val(parse(&alts[i], d, closed, t), |v| Ok(Val::M(100 + i as u32, Box::new(v))))
        }),
        Count(k, body) => and_then(&Fix(*k), data, closed, tot, |v, d, t| collectn(body, v.u(), d, closed, t)),
        CollectN(n, i) => collectn(i, *n as u64, data, closed, tot),
        Collect(i) => {
            let mut pos = 0;
            let mut items = vec![];
            while pos < data.len() {
                match parse(i, &data[pos..], closed, tot.minus(pos)) {
                    Out::Done { val: Ok(v), used } => {
                        assert!(used > 0, "harness: zero-size item in collect: {i:?}");
                        items.push(v);
                        pos += used;
                    }
                    Out::Done { val: Err(k), .. } => return Out::Fail(k),
                    o => return o,
                }
            }
            if closed { Out::Done { val: Ok(Val::L(items)), used: pos } } else { Out::More }
        }
        Length(n, i, _) => window(i, *n, data, closed, tot),
        Omit(true, _) => Out::Done { val: Ok(Val::O(None)), used: 0 },
        Omit(false, i) => map_val(parse(i, data, closed, tot), |v| Ok(Val::O(Some(Box::new(v))))),
        MaxBytes(n, i) => {
            let over = data.len() as u64 > *n
                || match tot {
                    Tot::Known(t) => t > *n,
                    Tot::Inf => true,
                    Tot::Unknown => false,
                };
            let o = parse(i, data, closed, tot);
            match (over, o) {
                (false, o) => o,
                (true, Out::Fail(k)) => Out::Fail(k | II),
                (true, _) => Out::Fail(II),
            }
        }
        Tuple(ms) => {
            let mut pos = 0;
            let mut vals: Result<Vec<Val>, u8> = Ok(vec![]);
            for m in ms {
                match parse(m, &data[pos..], closed, tot.minus(pos)) {
                    Out::Done { val, used } => {
                        pos += used;
                        vals = match (vals, val) {
                            (Ok(mut vs), Ok(v)) => {
                                vs.push(v);
                                Ok(vs)
                            }
                            (Err(k), _) => Err(k),
                            (Ok(_), Err(k)) => Err(k),
                        };
                    }
                    o => return o,
                }
            }
            Out::Done { val: vals.map(Val::T), used: pos }
        }
        Peek(i) => match parse(i, data, closed, tot) {
            Out::Done { val: Err(k), .. } => Out::Fail(k),
            o => o,
        },
        MaybeEos(i) => {
            if data.is_empty() && closed {
                // a forgiven end of stream
                parse(i, data, false, Tot::Unknown)
            } else {
                parse(i, data, closed, tot)
            }
        }
    }
}
fn map_val(o: Out, f: impl FnOnce(Val) -> Result<Val, u8>) -> Out {
    match o {
        Out::Done { val: Ok(v), used } => Out::Done { val: f(v), used },
        o => o,
    }
}
fn and_then(first: &Spec, data: &[u8], closed: bool, tot: Tot, f: impl FnOnce(Val, &[u8], Tot) -> Out) -> Out {
    match parse(first, data, closed, tot) {
        Out::Done { val: Ok(v), used } => match f(v, &data[used..], tot.minus(used)) {
            Out::Done { val, used: u } => Out::Done { val, used: used + u },
            o => o,
        },
        Out::Done { val: Err(k), .. } => Out::Fail(k),
        o => o,
    }
}
fn collectn(i: &Spec, n: u64, data: &[u8], closed: bool, tot: Tot) -> Out {
    let mut pos = 0;
    let mut items = vec![];
    for _ in 0..n {
        match parse(i, &data[pos..], closed, tot.minus(pos)) {
            Out::Done { val: Ok(v), used } => {
                items.push(v);
                pos += used;
            }
            Out::Done { val: Err(k), .. } => return Out::Fail(k),
            o => return o,
        }
    }
    Out::Done { val: Ok(Val::L(items)), used: pos }
}
/// A window of `n` bytes; the inner decoder either uses all of it or fails (by construction of the trees).
fn window(i: &Spec, n: u64, data: &[u8], closed: bool, tot: Tot) -> Out {
    let w = (data.len() as u64).min(n) as usize;
    let full = data.len() as u64 >= n;
    let short = (closed && !full) || matches!(tot, Tot::Known(t) if t < n);
    match parse(i, &data[..w], full, Tot::Known(n)) {
        Out::Done { val, used } => {
            assert!(full && used as u64 == n, "harness: inner item ends inside its window: {i:?}");
            Out::Done { val, used }
        }
        Out::More => {
            if short { Out::Fail(UE) } else { Out::More }
        }
        Out::Fail(k) => Out::Fail(if short { k | UE } else { k }),
    }
}

pub fn fixed_size(s: &Spec) -> Option<usize> {
    match s {
        Fix(k) => Some(k.width()),
        Copy(n) | Bytes(n) | Utf8N(n) | Boom(n, ..) => Some(*n),
        Null | Omit(true, _) => Some(0),
        Map(i) | TryMap(i) | MapErr(_, i) | Omit(false, i) | MaxBytes(_, i) | Slice(i) | Peek(i) | MaybeEos(i) => fixed_size(i),
        Tuple(m) => m.iter().map(|m| fixed_size(m)).sum(),
        Then(h, b) => Some(fixed_size(h)? + fixed_size(b)?),
        Length(n, ..) => usize::try_from(*n).ok(),
        CollectN(n, i) => fixed_size(i).map(|k| k * n),
        _ => None,
    }
}
/// Completes only at the end of its window.
pub fn eats_all(s: &Spec) -> bool {
    match s {
        Remain | Utf8 | Pad(_) | Json | Collect(_) => true,
        Map(i) | TryMap(i) | MapErr(_, i) | Omit(false, i) | MaxBytes(_, i) | Slice(i) | Peek(i) | MaybeEos(i) => eats_all(i),
        Tuple(m) => m.iter().any(|m| eats_all(m)),
        Then(h, b) => eats_all(h) || eats_all(b),
        Dispatch(a) => a.iter().all(|m| eats_all(m)),
        CollectN(n, i) => *n > 0 && eats_all(i),
        _ => false,
    }
}
/// Uses at least one byte of a non-empty window.
pub fn min1(s: &Spec) -> bool {
    match s {
        Fix(_) | Zstr(_) | Remain | Utf8 | Pad(_) | Json | LenPrefix(..) | Dispatch(_) | Count(..) | Collect(_) => true,
        Copy(n) | Bytes(n) | Utf8N(n) | Boom(n, ..) => *n > 0,
        Null | Omit(true, _) => false,
        Map(i) | TryMap(i) | MapErr(_, i) | Omit(false, i) | MaxBytes(_, i) | Slice(i) | Peek(i) | MaybeEos(i) => min1(i),
        CollectN(n, i) => *n > 0 && min1(i),
        Length(n, ..) => *n > 0,
        Tuple(m) => m.iter().any(|m| min1(m)),
        Then(h, b) => min1(h) || min1(b),
    }
}
/// One instance can decode many items.
pub fn reusable(s: &Spec) -> bool {
    match s {
        Bytes(_) | Utf8N(_) | CollectN(..) => false,
        Map(i) | TryMap(i) | MapErr(_, i) | Omit(_, i) | MaxBytes(_, i) | Slice(i) | Peek(i) | MaybeEos(i) | Collect(i) | Length(_, i, _) => reusable(i),
        Tuple(m) => m.iter().all(|m| reusable(m)),
        Then(h, _) => reusable(h),
        _ => true,
    }
}
pub fn contains(s: &Spec, p: &dyn Fn(&Spec) -> bool) -> bool {
    if p(s) {
        return true;
    }
    match s {
        Map(i) | TryMap(i) | MapErr(_, i) | Omit(_, i) | MaxBytes(_, i) | Slice(i) | Peek(i) | MaybeEos(i) | Collect(i) | CollectN(_, i) | Length(_, i, _) | LenPrefix(_, i) | Count(_, i) => contains(i, p),
        Tuple(m) | Dispatch(m) => m.iter().any(|m| contains(m, p)),
        Then(h, b) => contains(h, p) || contains(b, p),
        _ => false,
    }
}
pub fn nodes(s: &Spec) -> usize {
    1 + match s {
        Map(i) | TryMap(i) | MapErr(_, i) | Omit(_, i) | MaxBytes(_, i) | Slice(i) | Peek(i) | MaybeEos(i) | Collect(i) | CollectN(_, i) | Length(_, i, _) | LenPrefix(_, i) | Count(_, i) => nodes(i),
        Tuple(m) | Dispatch(m) => m.iter().map(|m| nodes(m)).sum(),
        Then(h, b) => nodes(h) + nodes(b),
        _ => 0,
    }
}

#[derive(Clone, Copy)]
pub struct Ctx {
    /// the item may extend to the end of its window
    pub eos: bool,
    /// one instance will decode many items
    pub reuse: bool,
    /// must use at least one byte of a non-empty window
    pub min1: bool,
}
impl Ctx {
    pub fn top(reuse: bool) -> Ctx {
        Ctx { eos: true, reuse, min1: false }
    }
}

/// Roughly how large an item must be at least (in memory too).
fn cost(s: &Spec) -> usize {
    4 + match s {
        Map(i) | TryMap(i) | MapErr(_, i) | Omit(_, i) | MaxBytes(_, i) | Slice(i) | Peek(i) | MaybeEos(i) | LenPrefix(_, i) => cost(i),
        CollectN(n, i) => n.saturating_mul(cost(i)),
        Length(n, i, _) => cost(i).saturating_add(*n as usize),
        Copy(n) | Bytes(n) | Utf8N(n) => *n,
        Tuple(m) | Dispatch(m) => m.iter().map(|m| cost(m)).fold(0, usize::saturating_add),
        Then(h, b) => cost(h).saturating_add(cost(b)),
        _ => 0,
    }
}
/// A lower bound for the bytes of an item.
fn least(s: &Spec) -> usize {
    match s {
        Fix(k) => k.width() as usize,
        Copy(n) | Bytes(n) | Utf8N(n) => *n,
        Map(i) | TryMap(i) | MapErr(_, i) | Omit(false, i) | MaxBytes(_, i) | Slice(i) | Peek(i) | MaybeEos(i) => least(i),
        LenPrefix(k, _) | Count(k, _) => k.width() as usize,
        Dispatch(_) => 1,
        CollectN(n, i) => n.saturating_mul(least(i)),
        Length(n, ..) => *n as usize,
        Tuple(m) => m.iter().map(|m| least(m)).fold(0, usize::saturating_add),
        Then(h, b) => least(h).saturating_add(least(b)),
        _ => 0,
    }
}
/// Many values in few bytes: too much for the memory when a large stream is made of them.
fn dense(s: &Spec) -> bool {
    contains(s, &|x| matches!(x, CollectN(n, i) if *n > 20 && 16 * least(i) < cost(i)))
}
/// What a large stream can be made of.
fn body(s: &mut Src, d: usize, c: Ctx) -> S {
    let i = gen(s, d, c);
    if s.big && dense(&i) { Rc::new(Fix(crate::val::Fix::U8)) } else { i }
}
pub fn gen(s: &mut Src, depth: usize, c: Ctx) -> S {
    let x = gen_any(s, depth, c);
    if c.min1 && !min1(&x) {
        let k = *s.pick(crate::val::FIXES);
        Rc::new(Tuple(vec![Rc::new(Fix(k)), x]))
    } else {
        x
    }
}
fn gen_leaf(s: &mut Src, c: Ctx) -> S {
    let e = u32::from(c.eos);
    let o = u32::from(!c.reuse);
    Rc::new(match s.weighted(&[6, 2, 2 * o, o, 2 * e, 3 * e, 2 * e, 1, e, 2]) {
        0 => Fix(*s.pick(crate::val::FIXES)),
        1 => Copy(if s.big && s.bool() { *s.pick(&[255usize, 256, 1024, 4096]) } else { *s.pick(&[1usize, 2, 3, 5, 8, 32, 0]) }),
        2 => Bytes(s.wide(40)),
        3 => Utf8N(s.wide(9)),
        4 => Remain,
        5 => Utf8,
        6 => Pad(if s.bool() { Some(s.byte()) } else { None }),
        7 => Null,
        8 => Json,
        _ => Zstr(s.bool()),
    })
}
fn gen_any(s: &mut Src, depth: usize, c: Ctx) -> S {
    if depth == 0 || s.one_in(5) {
        return gen_leaf(s, c);
    }
    let d = depth - 1;
    let e = u32::from(c.eos);
    let o = u32::from(!c.reuse);
    match s.weighted(&[2, 1, 1, 1, 4, 2, 2, 3 * e, 2 * o, 4, 1, 2 * e, 5, 1, 1, 3]) {
        0 => gen_leaf(s, c),
        1 => Rc::new(Map(gen(s, d, c))),
        2 => Rc::new(TryMap(gen(s, d, c))),
        3 => {
            let k = if s.bool() { Some(*s.pick(KINDS)) } else { None };
            Rc::new(MapErr(k, gen(s, d, c)))
        }
        4 => {
            let k = *s.pick(UINTS);
            Rc::new(LenPrefix(k, gen_eater(s, d, Ctx { eos: true, reuse: false, min1: false })))
        }
        5 => {
            let n = s.range(1, 3);
            let all = c.eos && s.bool();
            let a = (0..n).map(|_| if all { gen_eater(s, d, Ctx { reuse: false, min1: false, ..c }) } else { gen(s, d, Ctx { reuse: false, min1: false, eos: false }) }).collect();
            Rc::new(Dispatch(a))
        }
        6 => {
            let k = *s.pick(UINTS);
            // at least one byte per item: the count is untrusted
            Rc::new(Count(k, body(s, d, Ctx { eos: false, reuse: true, min1: true })))
        }
        7 => {
            let e = s.one_in(4);
            Rc::new(Collect(body(s, d, Ctx { eos: e, reuse: true, min1: true })))
        }
        8 => {
            let n = s.wide(5);
            let e = c.eos && s.one_in(4);
            let i = body(s, d, Ctx { eos: e, reuse: true, min1: false });
            let n = if n > 20 && n.saturating_mul(cost(&i).max(sample(&i, s, 30).len())) > s.bulk_items() { s.len(5) } else { n };
            Rc::new(CollectN(n, i))
        }
        9 => gen_length(s, d, c),
        10 => {
            let b = s.bool();
            Rc::new(Omit(b, gen(s, d, c)))
        }
        11 => {
            let i = gen_eater(s, d, c);
            Rc::new(MaxBytes(gen_max(s, &i), i))
        }
        12 => gen_tuple(s, d, c),
        13 => Rc::new(Slice(gen(s, d, c))),
        14 => Rc::new(Peek(gen(s, d, c))),
        _ => {
            let h = gen(s, d.min(1), Ctx { eos: false, reuse: c.reuse, min1: false });
            Rc::new(Then(h, gen(s, d, Ctx { reuse: false, min1: false, ..c })))
        }
    }
}
pub fn gen_max(s: &mut Src, i: &Spec) -> u64 {
    let l = sample(i, s, 30).len();
    match s.draw(6) {
        0 => s.len(20) as u64,
        1 => u64::MAX,
        2 => (l as u64).saturating_sub(1),
        3 => l as u64 + 1,
        4 => l as u64 + s.wide(20) as u64,
        _ => l as u64,
    }
}
pub fn gen_length(s: &mut Src, d: usize, c: Ctx) -> S {
    if s.one_in(4) {
        let i = gen(s, d, Ctx { eos: false, min1: false, ..c });
        if let Some(n) = fixed_size(&i) {
            let hint = sample(&i, s, 30);
            if hint.len() == n {
                return Rc::new(Length(n as u64, i, hint));
            }
        }
    }
    let i = gen_eater(s, d, Ctx { eos: true, min1: false, ..c });
    let mut hint = sample(&i, s, 30);
    if c.min1 && hint.is_empty() {
        hint.push(b'1');
    }
    if s.one_in(8) {
        // a length the inner decoder may dislike
        let n = s.wide(30);
        hint.resize(n.max(usize::from(c.min1)), b'a');
    }
    Rc::new(Length(hint.len() as u64, i, hint))
}
pub fn gen_tuple(s: &mut Src, d: usize, c: Ctx) -> S {
    let n = if s.one_in(4) { s.range(4, 8) } else { s.range(2, 3) };
    let dd = if n > 3 { d.min(1) } else { d };
    let ms = (0..n)
        .map(|i| {
            let e = c.eos && (i + 1 == n || s.one_in(12));
            gen(s, dd, Ctx { eos: e, reuse: c.reuse, min1: false })
        })
        .collect();
    Rc::new(Tuple(ms))
}
/// A tree that completes only at the end of its window.
pub fn gen_eater(s: &mut Src, depth: usize, c: Ctx) -> S {
    if depth == 0 {
        return Rc::new(match s.weighted(&[3, 4, 2, 1]) {
            0 => Remain,
            1 => Utf8,
            2 => Pad(if s.bool() { Some(s.byte()) } else { None }),
            _ => Json,
        });
    }
    let d = depth - 1;
    match s.weighted(&[6, 4, 1, 1, 1, 1, 2, 4, 1, 1, 1, 2]) {
        0 => gen_eater(s, 0, c),
        1 => {
            let e = s.one_in(4);
            Rc::new(Collect(body(s, d, Ctx { eos: e, reuse: true, min1: true })))
        }
        2 => Rc::new(Map(gen_eater(s, d, c))),
        3 => Rc::new(TryMap(gen_eater(s, d, c))),
        4 => Rc::new(MapErr(None, gen_eater(s, d, c))),
        5 => {
            let n = s.range(1, 3);
            Rc::new(Dispatch((0..n).map(|_| gen_eater(s, d, Ctx { reuse: false, min1: false, ..c })).collect()))
        }
        6 => {
            let i = gen_eater(s, d, c);
            Rc::new(MaxBytes(gen_max(s, &i), i))
        }
        7 => {
            let n = s.range(1, 3);
            let mut ms: Vec<S> = (0..n).map(|_| gen(s, d, Ctx { eos: false, reuse: c.reuse, min1: false })).collect();
            ms.push(gen_eater(s, d, c));
            Rc::new(Tuple(ms))
        }
        8 => Rc::new(Peek(gen_eater(s, d, c))),
        9 => Rc::new(Slice(gen_eater(s, d, c))),
        10 => Rc::new(Omit(false, gen_eater(s, d, c))),
        _ => {
            let h = gen(s, d.min(1), Ctx { eos: false, reuse: c.reuse, min1: false });
            Rc::new(Then(h, gen_eater(s, d, Ctx { reuse: false, ..c })))
        }
    }
}

pub fn gen_string(s: &mut Src, maxchars: usize) -> String {
    let n = s.wide(maxchars);
    if n > 200 {
        let k = s.range(1, 40);
        let base: Vec<char> = (0..k).map(|_| gen_char(s)).collect();
        return base.into_iter().cycle().take(n).collect();
    }
    (0..n).map(|_| gen_char(s)).collect()
}
fn gen_char(s: &mut Src) -> char {
    match s.draw(6) {
        0..=2 => (b'a' + s.draw(26) as u8) as char,
        3 => *s.pick(&['é', 'ß', '\u{80}', '\u{7FF}', '\0', '"', '\\', '\n']),
        4 => *s.pick(&['あ', '€', '\u{800}', '\u{FFFD}', '\u{FFFF}', '\u{D7FF}', '\u{E000}']),
        _ => *s.pick(&['😀', '\u{10000}', '\u{10FFFF}']),
    }
}
/// Size bound of a large case's repeated parts.
pub const BULK: usize = 400_000;
/// `n` streams one after another; when there are many, a few streams in turn.
fn repeat_sample(i: &Spec, s: &mut Src, n: usize, room: usize) -> Vec<u8> {
    let mut out = vec![];
    if n > 20 {
        let k = s.range(1, 4);
        let some: Vec<Vec<u8>> = (0..k).map(|_| sample(i, s, room)).collect();
        for b in some.iter().cycle().take(n) {
            if out.len() > s.bulk_items() {
                break;
            }
            out.extend(b);
        }
    } else {
        for _ in 0..n {
            out.extend(sample(i, s, room));
        }
    }
    out
}
pub fn gen_json(s: &mut Src, depth: usize) -> serde_json::Value {
    use serde_json::Value as J;
    match s.weighted(&[1, 1, 3, 3, if depth > 0 { 2 } else { 0 }, if depth > 0 { 2 } else { 0 }]) {
        0 => J::Null,
        1 => J::Bool(s.bool()),
        2 => {
            if s.bool() {
                J::from(s.int(64))
            } else {
                J::from(s.int(64) as i64)
            }
        }
        3 => J::from(gen_string(s, 8)),
        4 => {
            let n = s.len(4);
            J::from((0..n).map(|_| gen_json(s, depth - 1)).collect::<Vec<_>>())
        }
        _ => {
            let n = s.len(3);
            J::from((0..n).map(|_| (gen_string(s, 4), gen_json(s, depth - 1))).collect::<serde_json::Map<_, _>>())
        }
    }
}

/// A stream of one item, mostly valid. `room` bounds variable parts.
pub fn sample(spec: &Spec, s: &mut Src, room: usize) -> Vec<u8> {
    match spec {
        Fix(k) => {
            let v = k.gen(s, false);
            k.ser(&v).unwrap()
        }
        Copy(n) | Bytes(n) | Boom(n, _, true) => s.bytes(*n),
        Boom(n, _, false) => s.bytes(*n + 2),
        Utf8N(n) => {
            let mut b = gen_string(s, *n).into_bytes();
            b.resize(*n, b'u');
            b
        }
        Zstr(_) => {
            let n = s.wide(room.min(30));
            let mut b = s.bytes(n);
            b.retain(|x| *x != 0);
            b.push(0);
            b
        }
        Then(h, b) => {
            let mut out = sample(h, s, room);
            out.extend(sample(b, s, room));
            out
        }
        Remain => {
            let n = s.wide(room);
            s.bytes(n)
        }
        Utf8 => {
            let mut b = gen_string(s, room / 2).into_bytes();
            if s.one_in(8) {
                mutate(s, &mut b);
            }
            b
        }
        Pad(e) => {
            let n = s.wide(room);
            match e {
                Some(e) => vec![*e; n],
                None => s.bytes(n),
            }
        }
        Null | Omit(true, _) => vec![],
        Json => {
            let mut b = gen_json(s, 2).to_string().into_bytes();
            if s.one_in(6) {
                b.push(b' ');
            }
            b
        }
        Map(i) | TryMap(i) | MapErr(_, i) | Omit(false, i) | MaxBytes(_, i) | Slice(i) | Peek(i) | MaybeEos(i) => sample(i, s, room),
        LenPrefix(k, body) => {
            let mut b = sample(body, s, room.min(60));
            if b.len() as u64 > k.max() {
                let m = k.max() as usize;
                b.truncate(if s.bool() { m } else { s.range(0, m) });
            }
            let mut n = b.len() as u64;
            if s.one_in(24) {
                n = s.int(8 * k.width() as u32);
            }
            let mut out = k.ser(&Val::U(n)).unwrap();
            out.extend(b);
            out
        }
        Dispatch(alts) => {
            let t = s.below(alts.len());
            let rep = s.below(256 / alts.len());
            let mut out = vec![(t + rep * alts.len()) as u8];
            out.extend(sample(&alts[t], s, room));
            out
        }
        Count(k, body) => {
            let n = (s.wide(6) as u64).min(k.max()) as usize;
            let n = if n > 20 && n.saturating_mul(cost(body).max(sample(body, s, room / 2).len())) > s.bulk_items() { 3 } else { n };
            let mut out = k.ser(&Val::U(n as u64)).unwrap();
            out.extend(repeat_sample(body, s, n, room / 2));
            out
        }
        Collect(i) => {
            let n = s.wide(6);
            let n = if n > 20 && n.saturating_mul(cost(i)) > s.bulk_items() { 3 } else { n };
            repeat_sample(i, s, if eats_all(i) { n.min(1) } else { n }, room / 2)
        }
        CollectN(n, i) => {
            repeat_sample(i, s, *n, room / 2)
        }
        Length(n, i, hint) => {
            let n = (*n).min(64.max(hint.len() as u64)) as usize;
            if fixed_size(i) == Some(n) {
                let b = sample(i, s, room);
                if b.len() == n {
                    return b;
                }
            }
            match &**i {
                Remain => s.bytes(n),
                Pad(None) => s.bytes(n),
                Utf8 => {
                    let mut t = gen_string(s, n);
                    if t.len() > n {
                        let cut = (0..=n).rev().find(|k| t.is_char_boundary(*k)).unwrap();
                        t.truncate(cut);
                    }
                    let mut b = t.into_bytes();
                    b.resize(n, b'x');
                    b
                }
                _ => hint.clone(),
            }
        }
        Tuple(ms) => {
            let mut out = vec![];
            for m in ms {
                out.extend(sample(m, s, room));
            }
            out
        }
    }
}
pub fn mutate(s: &mut Src, b: &mut Vec<u8>) {
    match s.draw(4) {
        0 if !b.is_empty() => {
            let i = s.below(b.len());
            b[i] = s.byte();
        }
        1 if !b.is_empty() => {
            let i = s.below(b.len());
            b.remove(i);
        }
        2 => {
            let i = s.below(b.len() + 1);
            b.insert(i, s.byte());
        }
        _ => {
            let n = s.below(b.len() + 1);
            b.truncate(n);
        }
    }
}
