//! Encoder compositions: random trees, the real encoders they denote, a reference serializer, and the driver.
use crate::engine::{tick, Fail, Src};
use crate::spec::{ebit, gen_json, gen_string, kbit, kname, mkerr, reject, Spec, EF, II, KINDS, S, UE};
use crate::val::{DynEnc, DynSized, Fix, Given, Val};
use crate::{ensure, fail};
use bytecodec::bytes::{BytesEncoder, Utf8Encoder};
use bytecodec::json_codec::JsonEncoder;
use bytecodec::null::NullEncoder;
use bytecodec::padding::PaddingEncoder;
use bytecodec::tuple::TupleEncoder;
use bytecodec::{ByteCount, Encode, EncodeExt, Eos, ErrorKind, SizedEncode};
use std::rc::Rc;

pub type E = Rc<ES>;
#[derive(Clone, Debug)]
pub enum ES {
    Fix(Fix),
    Bytes,
    /// a user's encoder: knows its size only as a SizedEncode; refuses an item with this kind while it has one
    Own(ErrorKind),
    Utf8,
    Null,
    Json,
    /// bincode of a string
    Bin,
    Map(E),
    TryMap(E),
    MapErr(Option<ErrorKind>, E),
    Repeat(E),
    Optional(E),
    MaxBytes(u64, E),
    /// bytes per item, inner, an item of that size if one is known
    Length(u64, E, Option<Val>),
    Tuple(Vec<E>),
    /// only as the last member of a tuple under Length
    Pad,
    Pre(E),
    Slice(E),
    /// length field and body
    LenPrefix(Fix, E),
    /// number of items and items
    Count(Fix, E),
    /// tag byte and the selected alternative
    Dispatch(Vec<E>),
    /// writes the item's number of bytes up to `.0` of them, then fails with `.1` (`.2`: refuses the item instead)
    Boom(usize, ErrorKind, bool),
}
use ES::*;

fn m_in(v: Val, t: u32) -> Val {
    match v {
        Val::M(k, v) if k == t => *v,
        v => panic!("harness: bad item {v:?}"),
    }
}
fn o_in(v: Val) -> Option<Val> {
    match v {
        Val::O(o) => o.map(|b| *b),
        v => panic!("harness: bad item {v:?}"),
    }
}
fn try_in(v: Val) -> bytecodec::Result<Val> {
    let v = m_in(v, 2);
    match reject(&v) {
        Some(k) => Err(mkerr(k)),
        None => Ok(v),
    }
}
fn tag_in(v: Val, n: usize) -> Val {
    match v {
        Val::M(k, x) => {
            let t = (k - 100) as usize;
            let mut m = vec![Val::U(t as u64)];
            let mut x = Some(x);
            for i in 0..n {
                m.push(Val::O(if i == t { x.take() } else { None }));
            }
            Val::T(m)
        }
        v => panic!("harness: bad item {v:?}"),
    }
}

/// Leaf wrapper counting calls, so that endless loops end deterministically.
pub struct Probe<T>(pub T);
impl<T: Encode> Encode for Probe<T> {
    type Item = T::Item;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        tick();
        self.0.encode(buf, eos)
    }
    fn start_encoding(&mut self, item: T::Item) -> bytecodec::Result<()> {
        tick();
        self.0.start_encoding(item)
    }
    fn requiring_bytes(&self) -> ByteCount {
        tick();
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        tick();
        self.0.is_idle()
    }
}
impl<T: SizedEncode> SizedEncode for Probe<T> {
    fn exact_requiring_bytes(&self) -> u64 {
        tick();
        self.0.exact_requiring_bytes()
    }
}
fn null_probe() -> impl SizedEncode<Item = ()> {
    Probe(NullEncoder)
}
struct OwnEnc {
    busy: ErrorKind,
    item: Option<Vec<u8>>,
    at: usize,
}
impl Encode for OwnEnc {
    type Item = Val;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        tick();
        let Some(b) = &self.item else { return Ok(0) };
        let n = buf.len().min(b.len() - self.at);
        buf[..n].copy_from_slice(&b[self.at..][..n]);
        self.at += n;
        if self.at == b.len() {
            self.item = None;
        } else if eos.is_reached() {
            return Err(mkerr(ErrorKind::UnexpectedEos));
        }
        Ok(n)
    }
    fn start_encoding(&mut self, v: Val) -> bytecodec::Result<()> {
        tick();
        if self.item.is_some() {
            return Err(mkerr(self.busy));
        }
        self.item = match v {
            Val::B(b) => Some(b),
            v => panic!("harness: bad item {v:?}"),
        };
        self.at = 0;
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        if self.item.is_some() { ByteCount::Unknown } else { ByteCount::Finite(0) }
    }
    fn is_idle(&self) -> bool {
        tick();
        self.item.is_none()
    }
}
impl SizedEncode for OwnEnc {
    fn exact_requiring_bytes(&self) -> u64 {
        self.item.as_ref().map_or(0, |b| b.len() - self.at) as u64
    }
}
struct BoomEnc {
    at: usize,
    kind: ErrorKind,
    start: bool,
    left: Option<usize>,
}
impl Encode for BoomEnc {
    type Item = Val;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        tick();
        let Some(left) = self.left else { return Ok(0) };
        let n = buf.len().min(left);
        buf[..n].iter_mut().for_each(|b| *b = 0xB0);
        if n == left {
            return Err(mkerr(self.kind));
        }
        self.left = Some(left - n);
        if eos.is_reached() {
            return Err(mkerr(ErrorKind::UnexpectedEos));
        }
        Ok(n)
    }
    fn start_encoding(&mut self, _: Val) -> bytecodec::Result<()> {
        if self.left.is_some() {
            return Err(mkerr(ErrorKind::EncoderFull));
        }
        if self.start {
            return Err(mkerr(self.kind));
        }
        self.left = Some(self.at);
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        if self.left.is_some() {
            ByteCount::Unknown
        } else {
            ByteCount::Finite(0)
        }
    }
}

pub fn tuple_enc<T: Encode<Item = Val> + 'static>(m: Vec<T>) -> DynEnc {
    let mut it = m.into_iter();
    macro_rules! n { () => { it.next().unwrap() }; }
    macro_rules! t {
        ($($x:ident)*) => {{
            $(let $x = n!();)*
            Box::new(TupleEncoder::new(($($x),*,)).map_from(|v: Val| { let mut i = v.seq().into_iter(); $(let $x = i.next().unwrap();)* assert!(i.next().is_none(), "harness: arity"); ($($x),*,) }))
        }};
    }
    match it.len() {
        2 => {
            let (a, b) = (n!(), n!());
            Box::new(a.chain(b).map_from(|v: Val| {
                let mut i = v.seq().into_iter();
                (i.next().unwrap(), i.next().unwrap())
            }))
        }
        3 => t!(a b c),
        4 => t!(a b c d),
        5 => t!(a b c d e),
        6 => t!(a b c d e f),
        7 => t!(a b c d e f g),
        8 => t!(a b c d e f g h),
        k => panic!("harness: tuple of {k}"),
    }
}
pub fn tuple_sized<T: SizedEncode<Item = Val> + 'static>(m: Vec<T>) -> DynSized {
    let mut it = m.into_iter();
    macro_rules! n { () => { it.next().unwrap() }; }
    macro_rules! t {
        ($($x:ident)*) => {{
            $(let $x = n!();)*
            Box::new(TupleEncoder::new(($($x),*,)).map_from(|v: Val| { let mut i = v.seq().into_iter(); $(let $x = i.next().unwrap();)* assert!(i.next().is_none(), "harness: arity"); ($($x),*,) }))
        }};
    }
    match it.len() {
        2 => {
            let (a, b) = (n!(), n!());
            Box::new(a.chain(b).map_from(|v: Val| {
                let mut i = v.seq().into_iter();
                (i.next().unwrap(), i.next().unwrap())
            }))
        }
        3 => t!(a b c),
        4 => t!(a b c d),
        5 => t!(a b c d e),
        6 => t!(a b c d e f),
        7 => t!(a b c d e f g),
        8 => t!(a b c d e f g h),
        k => panic!("harness: tuple of {k}"),
    }
}

/// How the stream an encoder is shown relates to the one its parent is shown.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rel {
    Root,
    Pass,
    Window(u64),
    /// driven by its parent on its own
    Detached,
}
thread_local! {
    static FRAMES: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static STACK: std::cell::RefCell<Vec<(usize, Eos)>> = const { std::cell::RefCell::new(Vec::new()) };
    static LIE: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
    static SEEN: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
pub fn observe_frames(on: bool) {
    FRAMES.with(|f| f.set(on));
    STACK.with(|s| s.borrow_mut().clear());
    LIE.with(|l| *l.borrow_mut() = None);
    SEEN.with(|l| l.set(0));
}
pub fn frame_report() -> (Option<String>, u64) {
    (LIE.with(|l| l.borrow_mut().take()), SEEN.with(|s| s.get()))
}
struct Frame<T> {
    inner: T,
    rel: Rel,
    left: u64,
}
impl<T: Encode<Item = Val>> Encode for Frame<T> {
    type Item = Val;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        let start = buf.as_ptr() as usize;
        let end = start + buf.len();
        let parent = STACK.with(|s| s.borrow().last().copied());
        let ok = match (self.rel, parent) {
            (Rel::Root | Rel::Detached, _) | (_, None) => true,
            (Rel::Pass, Some((pe, peos))) => end == pe && eos == peos,
            (Rel::Window(_), Some((pe, peos))) => {
                let avail = (pe - start) as u64;
                let want = avail.min(self.left);
                let mut beyond = self.left - want;
                if let ByteCount::Finite(n) = peos.remaining_bytes() {
                    beyond = beyond.min(n);
                }
                buf.len() as u64 == want && eos.remaining_bytes() == ByteCount::Finite(beyond)
            }
        };
        if !ok {
            LIE.with(|l| {
                let mut l = l.borrow_mut();
                if l.is_none() {
                    *l = Some(format!("inner encoder ({:?}, {} bytes of its window left) was given room for {} bytes and {eos:?}; its parent had room for {:?} from there and {:?}", self.rel, self.left, buf.len(), parent.map(|p| p.0.wrapping_sub(start)), parent.map(|p| p.1)));
                }
            });
        }
        SEEN.with(|s| s.set(s.get() + 1));
        STACK.with(|s| s.borrow_mut().push((end, eos)));
        let r = self.inner.encode(buf, eos);
        STACK.with(|s| s.borrow_mut().pop());
        if let Ok(n) = r {
            self.left = self.left.saturating_sub(n as u64);
        }
        r
    }
    fn start_encoding(&mut self, item: Val) -> bytecodec::Result<()> {
        // items may be encoded while this one is being started (pre-encoding)
        let saved = STACK.with(|s| std::mem::take(&mut *s.borrow_mut()));
        let r = self.inner.start_encoding(item);
        STACK.with(|s| *s.borrow_mut() = saved);
        if let (Ok(()), Rel::Window(n)) = (&r, self.rel) {
            self.left = n;
        }
        r
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.inner.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.inner.is_idle()
    }
}
impl<T: SizedEncode<Item = Val>> SizedEncode for Frame<T> {
    fn exact_requiring_bytes(&self) -> u64 {
        self.inner.exact_requiring_bytes()
    }
}
fn frame(d: DynEnc, rel: Rel) -> DynEnc {
    if FRAMES.with(|f| f.get()) {
        Box::new(Frame { inner: d, rel, left: 0 })
    } else {
        d
    }
}
fn frame_s(d: DynSized, rel: Rel) -> DynSized {
    if FRAMES.with(|f| f.get()) {
        Box::new(Frame { inner: d, rel, left: 0 })
    } else {
        d
    }
}

macro_rules! common {
    ($e:expr, $kid:ident, $tuple:ident, $boxed:ty) => {
        match &**$e {
            Fix(k) => Some(Box::new(Probe(k.sized())) as $boxed),
            Bytes => Some(Box::new(Probe(BytesEncoder::<Vec<u8>>::new()).map_from(|v: Val| match v {
                Val::B(b) => b,
                v => panic!("harness: bad item {v:?}"),
            })) as $boxed),
            Own(k) => Some(Box::new(OwnEnc { busy: *k, item: None, at: 0 }) as $boxed),
            Utf8 => Some(Box::new(Probe(Utf8Encoder::<String>::new()).map_from(|v: Val| match v {
                Val::S(b) => b,
                v => panic!("harness: bad item {v:?}"),
            })) as $boxed),
            Null => Some(Box::new(null_probe().map_from(|_: Val| ())) as $boxed),
            Map(i) => Some(Box::new($kid(i, Rel::Pass).map_from(|v: Val| m_in(v, 1))) as $boxed),
            TryMap(i) => Some(Box::new($kid(i, Rel::Pass).try_map_from(try_in)) as $boxed),
            MapErr(None, i) => Some(Box::new($kid(i, Rel::Pass).map_err(|e| trackable::track!(e, "outer"))) as $boxed),
            MapErr(Some(k), i) => {
                let k = *k;
                Some(Box::new($kid(i, Rel::Pass).map_err(move |_| mkerr(k))) as $boxed)
            }
            Optional(i) => Some(Box::new($kid(i, Rel::Pass).optional().map_from(o_in)) as $boxed),
            MaxBytes(n, i) => Some(Box::new($kid(i, Rel::Pass).max_bytes(*n)) as $boxed),
            Length(n, i, _) => Some(Box::new(kid(i, Rel::Window(*n)).length(*n)) as $boxed),
            Tuple(m) => Some($tuple(m.iter().map(|m| $kid(m, Rel::Pass)).collect())),
            Pre(i) => Some(Box::new(kid(i, Rel::Detached).pre_encode()) as $boxed),
            Slice(i) => {
                let mut e = $kid(i, Rel::Pass).slice();
                e.set_consumable_bytes(u64::MAX);
                Some(Box::new(e) as $boxed)
            }
            LenPrefix(k, i) => {
                let body = i.clone();
                let t = $tuple(vec![$kid(&Rc::new(Fix(*k)), Rel::Pass), $kid(i, Rel::Pass)]);
                Some(Box::new(t.map_from(move |v: Val| match ser(&body, &v) {
                    Ser::Run { bytes, .. } => Val::T(vec![Val::U(bytes.len() as u64), v]),
                    _ => Val::T(vec![Val::U(0), v]),
                })) as $boxed)
            }
            Dispatch(a) => {
                let n = a.len();
                if n > 7 {
                    panic!("harness: too many alternatives");
                }
                let mut m = vec![$kid(&Rc::new(Fix(crate::val::Fix::U8)), Rel::Pass)];
                m.extend(a.iter().map(|a| $kid(&Rc::new(Optional(a.clone())), Rel::Pass)));
                Some(Box::new($tuple(m).map_from(move |v: Val| tag_in(v, n))) as $boxed)
            }
            Json | Bin | Repeat(_) | Pad | Count(..) | Boom(..) => None,
        }
    };
}
pub fn build_sized(e: &E) -> DynSized {
    kid_s(e, Rel::Root)
}
pub fn build(e: &E) -> DynEnc {
    kid(e, Rel::Root)
}
fn kid_s(e: &E, rel: Rel) -> DynSized {
    frame_s(common!(e, kid_s, tuple_sized, DynSized).unwrap_or_else(|| panic!("harness: {e:?} has no size")), rel)
}
fn kid(e: &E, rel: Rel) -> DynEnc {
    let d = match common!(e, kid, tuple_enc, DynEnc) {
        Some(x) => x,
        None => match &**e {
            Json => Box::new(Probe(JsonEncoder::<serde_json::Value>::new()).map_from(|v: Val| match v {
                Val::J(b) => b,
                v => panic!("harness: bad item {v:?}"),
            })) as DynEnc,
            Bin => Box::new(Probe(bytecodec::bincode_codec::BincodeEncoder::<String>::new()).map_from(|v: Val| match v {
                Val::S(b) => b,
                v => panic!("harness: bad item {v:?}"),
            })),
            Repeat(i) => {
                let count = std::cell::Cell::new(0usize);
                Box::new(kid(i, Rel::Pass).repeat().map_from(move |v: Val| {
                    let v = v.seq();
                    count.set(count.get() + 1);
                    let how = count.get() + v.len();
                    Given::new(v, how)
                }))
            }
            Count(k, i) => {
                let m = vec![kid(&Rc::new(Fix(*k)), Rel::Pass), kid(&Rc::new(Repeat(i.clone())), Rel::Pass)];
                Box::new(tuple_enc(m).map_from(|v: Val| {
                    let l = v.seq();
                    Val::T(vec![Val::U(l.len() as u64), Val::L(l)])
                }))
            }
            Pad => Box::new(Probe(PaddingEncoder::new()).map_from(|v: Val| v.u() as u8)),
            Boom(at, kind, start) => Box::new(BoomEnc { at: *at, kind: *kind, start: *start, left: None }),
            e => unreachable!("{e:?}"),
        },
    };
    frame(d, rel)
}
pub fn sized(e: &ES) -> bool {
    match e {
        Json | Bin | Repeat(_) | Pad | Count(..) | Boom(..) => false,
        Fix(_) | Bytes | Own(_) | Utf8 | Null | Length(..) | Pre(_) => true,
        Map(i) | TryMap(i) | MapErr(_, i) | Optional(i) | MaxBytes(_, i) | Slice(i) | LenPrefix(_, i) => sized(i),
        Tuple(m) | Dispatch(m) => m.iter().all(|m| sized(m)),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ser {
    /// start_encoding refuses the item with one of these kinds
    Refused(u8),
    Run { bytes: Vec<u8>, end: SerEnd },
}
#[derive(Clone, Debug, PartialEq)]
pub enum SerEnd {
    Done,
    /// an encode call fails with one of these kinds
    Fail(u8),
    /// goes on with this byte up to the end of the output
    Fill(u8),
}
/// The kinds UnexpectedEos raised inside may have been replaced with.
pub fn eos_mask(e: &ES) -> u8 {
    let m = std::cell::Cell::new(UE);
    contains(e, &|x| {
        if let MapErr(Some(k), _) = x {
            m.set(m.get() | kbit(*k));
        }
        false
    });
    m.get()
}
/// The kinds a busy encoder refuses an item with: a combinator may ask the inner encoder
/// or find out by itself, with `EncoderFull`, that it is busy.
pub fn full_mask(e: &ES) -> u8 {
    match e {
        Own(k) | MapErr(Some(k), _) => kbit(*k),
        Map(i) | TryMap(i) | Optional(i) | MaxBytes(_, i) => full_mask(i) | EF,
        MapErr(None, i) | Slice(i) => full_mask(i),
        _ => EF,
    }
}
/// The meaning of `e` for the item `v`.
pub fn ser(e: &ES, v: &Val) -> Ser {
    let run = |bytes| Ser::Run { bytes, end: SerEnd::Done };
    match (e, v) {
        (Fix(k), v) => match k.ser(v) {
            Some(b) => run(b),
            None => Ser::Refused(II),
        },
        (Bytes | Own(_), Val::B(b)) => run(b.clone()),
        (Utf8, Val::S(b)) => run(b.clone().into_bytes()),
        (Null, _) => run(vec![]),
        (Bin, Val::S(b)) => {
            let mut v = (b.len() as u64).to_le_bytes().to_vec();
            v.extend(b.as_bytes());
            run(v)
        }
        (Json, Val::J(j)) => run(serde_json::to_vec(j).expect("json")),
        (Map(i), Val::M(1, v)) => ser(i, v),
        (TryMap(i), Val::M(2, v)) => match reject(v) {
            Some(k) => Ser::Refused(kbit(k)),
            None => ser(i, v),
        },
        (MapErr(None, i) | Slice(i), v) => ser(i, v),
        (MapErr(Some(k), i), v) => match ser(i, v) {
            Ser::Refused(_) => Ser::Refused(kbit(*k)),
            Ser::Run { bytes, end: SerEnd::Fail(_) } => Ser::Run { bytes, end: SerEnd::Fail(kbit(*k)) },
            r => r,
        },
        (Optional(_), Val::O(None)) => run(vec![]),
        (Optional(i), Val::O(Some(v))) => ser(i, v),
        (Repeat(i), Val::L(vs)) => {
            let mut out = vec![];
            for v in vs {
                match ser(i, v) {
                    Ser::Refused(k) => return Ser::Run { bytes: out, end: SerEnd::Fail(k) },
                    Ser::Run { bytes, end } => {
                        out.extend(bytes);
                        if end != SerEnd::Done {
                            return Ser::Run { bytes: out, end };
                        }
                    }
                }
            }
            run(out)
        }
        (MaxBytes(n, i), v) => match ser(i, v) {
            Ser::Run { bytes, end } if bytes.len() as u64 > *n => {
                let k = if let SerEnd::Fail(k) = end { k } else { 0 };
                Ser::Run { bytes, end: SerEnd::Fail(II | k) }
            }
            r => r,
        },
        (Length(n, i, _), v) => {
            let n = *n as usize;
            match ser(i, v) {
                Ser::Refused(k) => Ser::Refused(k),
                Ser::Run { mut bytes, end } => {
                    if bytes.len() > n {
                        bytes.truncate(n);
                        let k = if let SerEnd::Fail(k) = end { k } else { 0 };
                        return Ser::Run { bytes, end: SerEnd::Fail(eos_mask(i) | k) };
                    }
                    match end {
                        SerEnd::Done if bytes.len() == n => Ser::Run { bytes, end },
                        SerEnd::Done => Ser::Run { bytes, end: SerEnd::Fail(II) },
                        // an inner window larger than this one fails first
                        SerEnd::Fail(k) => Ser::Run { bytes, end: SerEnd::Fail(k | eos_mask(i)) },
                        SerEnd::Fill(b) => {
                            bytes.resize(n, b);
                            run(bytes)
                        }
                    }
                }
            }
        }
        (Tuple(ms), Val::T(vs)) => concat(ms.iter().map(|m| &**m).zip(vs.iter())),
        (Pad, v) => Ser::Run { bytes: vec![], end: SerEnd::Fill(v.u() as u8) },
        (Pre(i), v) => match ser(i, v) {
            Ser::Run { end: SerEnd::Fail(k), .. } => Ser::Refused(k | if unknown_size(i) { 0 } else { eos_mask(i) }),
            r => r,
        },
        (LenPrefix(k, i), v) => {
            let n = match ser(i, v) {
                Ser::Run { ref bytes, .. } => bytes.len() as u64,
                _ => 0,
            };
            concat([(&Fix(*k), &Val::U(n)), (&**i, v)].into_iter())
        }
        (Count(k, i), Val::L(l)) => concat([(&Fix(*k), &Val::U(l.len() as u64)), (&Repeat(i.clone()), v)].into_iter()),
        (Dispatch(a), Val::M(t, v)) => {
            let t = (*t - 100) as usize;
            match ser(&a[t], v) {
                Ser::Run { bytes, end } => {
                    let mut out = vec![t as u8];
                    out.extend(bytes);
                    Ser::Run { bytes: out, end }
                }
                r => r,
            }
        }
        (Boom(_, k, true), _) => Ser::Refused(kbit(*k)),
        (Boom(at, k, false), _) => Ser::Run { bytes: vec![0xB0; *at], end: SerEnd::Fail(kbit(*k)) },
        (e, v) => panic!("harness: item {v:?} for {e:?}"),
    }
}
fn unknown_size(e: &ES) -> bool {
    !sized(e)
}
fn concat<'a>(ms: impl Iterator<Item = (&'a ES, &'a Val)>) -> Ser {
    let mut out = vec![];
    let mut end = SerEnd::Done;
    for (m, v) in ms {
        match ser(m, v) {
            Ser::Refused(k) => return Ser::Refused(k),
            Ser::Run { bytes, end: e } => {
                if end == SerEnd::Done {
                    out.extend(bytes);
                    end = e;
                }
            }
        }
    }
    Ser::Run { bytes: out, end }
}
pub fn contains(s: &ES, p: &dyn Fn(&ES) -> bool) -> bool {
    if p(s) {
        return true;
    }
    match s {
        Map(i) | TryMap(i) | MapErr(_, i) | Repeat(i) | Optional(i) | MaxBytes(_, i) | Length(_, i, _) | Pre(i) | Slice(i) | LenPrefix(_, i) | Count(_, i) => contains(i, p),
        Tuple(m) | Dispatch(m) => m.iter().any(|m| contains(m, p)),
        _ => false,
    }
}
pub fn nodes(s: &ES) -> usize {
    let n = std::cell::Cell::new(0);
    contains(s, &|_| {
        n.set(n.get() + 1);
        false
    });
    n.get()
}
/// A refused item leaves the encoder clean (every composition but those that start several members or pre-encode).
pub fn clean_refusal(e: &ES) -> bool {
    !contains(e, &|x| matches!(x, Tuple(_) | LenPrefix(..) | Dispatch(_) | Count(..) | Pre(_)))
}

#[derive(Clone, Copy)]
pub struct Ctx {
    pub sized: bool,
}
pub fn gen(s: &mut Src, depth: usize, c: Ctx) -> E {
    let u = u32::from(!c.sized);
    if depth == 0 || s.one_in(5) {
        return Rc::new(match s.weighted(&[5, 4, 3, 1, 2 * u, 3, u]) {
            0 => Fix(*s.pick(crate::val::FIXES)),
            1 => Bytes,
            2 => Utf8,
            3 => Null,
            4 => Json,
            6 => Bin,
            _ => Own(if s.bool() { ErrorKind::EncoderFull } else { *s.pick(KINDS) }),
        });
    }
    let d = depth - 1;
    match s.weighted(&[1, 1, 1, 4 * u, 2, 2, 4, 5, 3, 1, 2, 2 * u, 2]) {
        0 => Rc::new(Map(gen(s, d, c))),
        1 => Rc::new(TryMap(gen(s, d, c))),
        2 => {
            let k = if s.bool() { Some(*s.pick(KINDS)) } else { None };
            Rc::new(MapErr(k, gen(s, d, c)))
        }
        3 => Rc::new(Repeat(gen(s, d, c))),
        4 => Rc::new(Optional(gen(s, d, c))),
        5 => {
            let i = gen(s, d, c);
            let n = gen_limit(s, &i);
            Rc::new(MaxBytes(n, i))
        }
        6 => gen_length(s, d),
        7 => gen_tuple(s, d, c),
        8 => Rc::new(Pre(gen(s, d, Ctx { sized: false }))),
        9 => Rc::new(Slice(gen(s, d, c))),
        10 => {
            let k = len_kind(s);
            Rc::new(LenPrefix(k, gen(s, d, c)))
        }
        11 => Rc::new(Count(*s.pick(crate::val::UINTS), gen(s, d, c))),
        _ => {
            let n = s.range(1, 3);
            Rc::new(Dispatch((0..n).map(|_| gen(s, d, c)).collect()))
        }
    }
}
/// A prefix whose host type holds every size that is generated.
pub fn len_kind(s: &mut Src) -> crate::val::Fix {
    let ks: Vec<_> = crate::val::UINTS[1..].iter().filter(|k| !s.big || k.max() >= (1 << 24) - 1).copied().collect();
    *s.pick(&ks)
}
pub fn gen_limit(s: &mut Src, i: &ES) -> u64 {
    let v = gen_val(i, s, 20);
    let l = match ser(i, &v) {
        Ser::Run { bytes, .. } => bytes.len() as u64,
        _ => 0,
    };
    match s.draw(5) {
        0 => s.len(20) as u64,
        1 => l.saturating_sub(1),
        2 => u64::MAX,
        3 => l + s.wide(30) as u64,
        _ => l,
    }
}
pub fn gen_tuple(s: &mut Src, d: usize, c: Ctx) -> E {
    let n = if s.one_in(4) { s.range(4, 8) } else { s.range(2, 3) };
    let d = if n > 3 { d.min(1) } else { d };
    Rc::new(Tuple((0..n).map(|_| gen(s, d, c)).collect()))
}
pub fn gen_length(s: &mut Src, d: usize) -> E {
    if s.one_in(3) {
        // filled up with padding
        let k = s.range(1, 2);
        let mut m: Vec<E> = (0..k).map(|_| gen(s, d.min(2), Ctx { sized: false })).collect();
        m.push(Rc::new(Pad));
        let i = Rc::new(Tuple(m));
        let v = gen_val(&i, s, 20);
        let l = match ser(&i, &v) {
            Ser::Run { bytes, .. } => bytes.len(),
            _ => 0,
        };
        let n = if s.one_in(6) { s.wide(40) } else { l + s.wide(30) };
        return Rc::new(Length(n as u64, i, None));
    }
    let i = gen(s, d, Ctx { sized: false });
    let v = gen_val(&i, s, 20);
    let (l, hint) = match ser(&i, &v) {
        Ser::Run { bytes, end: SerEnd::Done } => (bytes.len(), Some(v)),
        _ => (s.len(20), None),
    };
    Rc::new(Length(l as u64, i, hint))
}
/// An item for `e`, mostly valid.
pub fn gen_val(e: &ES, s: &mut Src, room: usize) -> Val {
    let bx = |v| Box::new(v);
    match e {
        Fix(k) => {
            let over = s.one_in(12);
            k.gen(s, over)
        }
        Bytes | Own(_) => {
            let n = s.wide(room);
            Val::B(s.bytes(n))
        }
        Utf8 | Bin => Val::S(gen_string(s, room / 2)),
        Null => Val::Unit,
        Json => Val::J(gen_json(s, 2)),
        Map(i) => Val::M(1, bx(gen_val(i, s, room))),
        TryMap(i) => {
            let mut v = gen_val(i, s, room);
            for _ in 0..2 {
                if reject(&v).is_some() {
                    v = gen_val(i, s, room);
                }
            }
            Val::M(2, bx(v))
        }
        MapErr(_, i) | MaxBytes(_, i) | Pre(i) | Slice(i) | LenPrefix(_, i) => gen_val(i, s, room),
        Repeat(i) | Count(_, i) => {
            let n = s.wide(6);
            let n = if let Count(k, _) = e { (n as u64).min(k.max()) as usize } else { n };
            if n > 20 {
                let k = s.range(1, 4);
                let some: Vec<Val> = (0..k).map(|_| gen_val(i, s, room / 2)).collect();
                let l = some.iter().map(|v| v.weight().max(if let Ser::Run { bytes, .. } = ser(i, v) { bytes.len() } else { 0 })).max().unwrap();
                let n = if n.saturating_mul(l) > s.bulk_items() { 3 } else { n };
                return Val::L(some.into_iter().cycle().take(n).collect());
            }
            Val::L((0..n).map(|_| gen_val(i, s, room / 2)).collect())
        }
        Optional(i) => Val::O(if s.one_in(3) { None } else { Some(bx(gen_val(i, s, room))) }),
        Length(n, i, hint) => match hint {
            _ if matches!(**i, Bytes) && !s.one_in(8) => Val::B(s.bytes(*n as usize)),
            Some(h) if !s.one_in(6) => h.clone(),
            _ => gen_val(i, s, room),
        },
        Tuple(m) => Val::T(m.iter().map(|m| gen_val(m, s, room)).collect()),
        Pad => Val::U(u64::from(s.byte())),
        Dispatch(a) => {
            let t = s.below(a.len());
            Val::M(100 + t as u32, bx(gen_val(&a[t], s, room)))
        }
        Boom(..) => Val::Unit,
    }
}
/// An item every part of which is acceptable (a few tries).
pub fn gen_valid(e: &ES, s: &mut Src, room: usize) -> Option<(Val, Vec<u8>)> {
    for _ in 0..6 {
        let v = gen_val(e, s, room);
        if let Ser::Run { bytes, end: SerEnd::Done } = ser(e, &v) {
            return Some((v, bytes));
        }
    }
    None
}
/// Whether offering `v` to a busy encoder reaches a component that is busy for sure.
pub fn meets_guard(e: &ES, v: &Val) -> bool {
    match (e, v) {
        (Optional(_), Val::O(None)) => false,
        (Optional(i), Val::O(Some(v))) => meets_guard(i, v),
        (Map(i), Val::M(_, v)) | (TryMap(i), Val::M(_, v)) => meets_guard(i, v),
        (MapErr(_, i) | MaxBytes(_, i) | Slice(i), v) => meets_guard(i, v),
        (Null, _) => false,
        _ => true,
    }
}
/// Replaces one leaf by one that fails.
pub fn inject(e: &E, s: &mut Src) -> E {
    fn leaves(x: &E) -> usize {
        match &**x {
            Map(i) | TryMap(i) | MapErr(_, i) | Repeat(i) | Optional(i) | MaxBytes(_, i) | Length(_, i, _) | Pre(i) | Slice(i) | LenPrefix(_, i) | Count(_, i) => leaves(i),
            Tuple(m) | Dispatch(m) => m.iter().map(leaves).sum(),
            _ => 1,
        }
    }
    fn go(x: &E, n: &mut usize, s: &mut Src) -> E {
        macro_rules! g { ($i:expr) => { go($i, n, s) }; }
        Rc::new(match &**x {
            Map(i) => Map(g!(i)),
            TryMap(i) => TryMap(g!(i)),
            MapErr(k, i) => MapErr(*k, g!(i)),
            Repeat(i) => Repeat(g!(i)),
            Optional(i) => Optional(g!(i)),
            MaxBytes(k, i) => MaxBytes(*k, g!(i)),
            Length(k, i, _) => Length(*k, g!(i), None),
            Pre(i) => Pre(g!(i)),
            Slice(i) => Slice(g!(i)),
            LenPrefix(k, i) => LenPrefix(*k, g!(i)),
            Count(k, i) => Count(*k, g!(i)),
            Tuple(m) => Tuple(m.iter().map(|m| g!(m)).collect()),
            Dispatch(m) => Dispatch(m.iter().map(|m| g!(m)).collect()),
            _ => {
                let hit = *n == 0;
                *n = n.wrapping_sub(1);
                if !hit {
                    return x.clone();
                }
                Boom(s.range(0, 5), *s.pick(KINDS), s.one_in(3))
            }
        })
    }
    let mut n = s.below(leaves(e));
    go(e, &mut n, s)
}

#[derive(Clone, Copy)]
pub struct Opt {
    /// check requiring_bytes / exact_requiring_bytes
    pub need: bool,
    /// offer items to a busy encoder
    pub busy: bool,
    /// signal the end of the output at random points
    pub eos: bool,
}
pub const PLAIN: Opt = Opt { need: false, busy: false, eos: false };

pub enum Enc {
    Plain(DynEnc),
    Sized(DynSized),
}
impl Enc {
    pub fn new(e: &E, s: &mut Src) -> Enc {
        if sized(e) && s.bool() { Enc::Sized(build_sized(e)) } else { Enc::Plain(build(e)) }
    }
    pub fn get(&mut self) -> &mut dyn Encode<Item = Val> {
        match self {
            Enc::Plain(e) => e,
            Enc::Sized(e) => e,
        }
    }
    fn need(&self) -> (ByteCount, Option<u64>, bool) {
        match self {
            Enc::Plain(e) => (e.requiring_bytes(), None, e.is_idle()),
            Enc::Sized(e) => (e.requiring_bytes(), Some(e.exact_requiring_bytes()), e.is_idle()),
        }
    }
}
fn check_need(e: &E, enc: &Enc, left: usize, must_be_idle: Option<bool>) -> Result<(), Fail> {
    let (n, x, idle) = enc.need();
    match n {
        ByteCount::Finite(k) => ensure!(k == left as u64, "requiring_bytes is {k} but {left} bytes are still to be written; {e:?}"),
        ByteCount::Infinite => fail!("requiring_bytes is Infinite but {left} bytes are still to be written; {e:?}"),
        ByteCount::Unknown => ensure!(must_be_idle != Some(true), "idle but requiring_bytes is Unknown; {e:?}"),
    }
    if let Some(x) = x {
        ensure!(x == left as u64, "exact_requiring_bytes is {x} but {left} bytes are still to be written; {e:?}");
    }
    if let Some(w) = must_be_idle {
        ensure!(idle == w, "is_idle is {idle} with {left} bytes left to write; {e:?}");
    }
    Ok(())
}
#[derive(Debug, PartialEq)]
pub enum EncEnd {
    Done,
    Refused,
    Failed,
}
/// Encodes one item through random buffers, comparing every step with `ser`.
pub fn drive_item(s: &mut Src, e: &E, enc: &mut Enc, v: &Val, o: Opt) -> Result<EncEnd, Fail> {
    let want = ser(e, v);
    s.note(|| format!("item {v:?} expected {want:?}"));
    if o.need {
        check_need(e, enc, 0, Some(true))?;
    }
    match (enc.get().start_encoding(v.clone()), &want) {
        (Ok(()), Ser::Run { .. }) => {}
        (Ok(()), Ser::Refused(k)) => fail!("item {v:?} accepted, expected {}; {e:?}", kname(*k)),
        (Err(x), Ser::Refused(k)) => {
            ensure!(ebit(&x) & k != 0, "item {v:?} refused with {:?}, expected {}; {e:?}", x.kind(), kname(*k));
            return Ok(EncEnd::Refused);
        }
        (Err(x), _) => fail!("valid item {v:?} refused with {:?}; {e:?}", x.kind()),
    }
    let Ser::Run { bytes, end } = want else { unreachable!() };
    let done = end == SerEnd::Done;
    let fail_mask = if let SerEnd::Fail(k) = end { k } else { 0 };
    let mut pos = 0;
    let mut calls = 0;
    let mut zeros = 0;
    loop {
        let left = bytes.len() - pos;
        if done {
            if o.need {
                check_need(e, enc, left, if left > 0 { Some(false) } else { None })?;
            }
            if left > 0 {
                ensure!(!enc.get().is_idle(), "idle with {left} of {} bytes unwritten; {e:?} item {v:?}", bytes.len());
            }
        }
        if o.busy && (left > 0 || done && !enc.get().is_idle()) && s.one_in(3) && !(s.big && calls > 4) && !(s.long == 2 && !s.one_in(8)) {
            let w = if s.bool() { Some(v.clone()) } else { gen_valid(e, s, s.size).map(|w| w.0) };
            if let Some(w) = w {
                if meets_guard(e, &w) {
                    s.label(if left > 0 { "item offered to a busy encoder" } else { "item offered to an encoder holding one without bytes" });
                    match enc.get().start_encoding(w.clone()) {
                        Ok(()) => fail!("busy encoder ({left} bytes left) accepted {w:?}; {e:?} item {v:?}"),
                        Err(x) => ensure!(ebit(&x) & full_mask(e) != 0, "busy encoder refused an item with {:?} instead of EncoderFull; {e:?}", x.kind()),
                    }
                    if done && o.need {
                        check_need(e, enc, left, Some(false))?;
                    }
                }
            }
        }
        let c = if s.big && left > 60 {
            if calls > s.patience(40) {
                left + 1
            } else {
                match s.draw(10) {
                    0 if zeros < 2 => 0,
                    1 => 1,
                    2 => s.range(1, 12),
                    3 => s.range(0, left),
                    4 => left / 2,
                    5 => left - 1,
                    6 => *s.pick(&[255usize, 256, 257, 1023, 1024, 1025, 4096, 8192, 65535, 65536]),
                    7 => left + s.below(4),
                    _ => left,
                }
            }
        } else if s.long == 2 {
            s.label_if(calls > 256, "more than 256 calls for an item");
            match s.draw(8) {
                0 | 1 | 2 if zeros < 300 => 0,
                3 => s.range(0, 4),
                _ => 1,
            }
        } else { match s.draw(8) {
            0 if zeros < 2 => 0,
            0 | 1 | 2 => 1,
            3 => 2,
            4 => s.range(1, 6),
            5 => left,
            6 => s.range(0, left + 3),
            _ => left + 5,
        } };
        zeros = if c == 0 { zeros + 1 } else { 0 };
        let reached = o.eos && s.one_in(if s.long > 0 { 2000 } else { 4 });
        let eos = if reached {
            Eos::new(true)
        } else {
            match s.draw(6) {
                0 => Eos::with_remaining_bytes(ByteCount::Infinite),
                1 => Eos::with_remaining_bytes(ByteCount::Finite(left as u64 + 1 + s.len(40) as u64)),
                _ => Eos::new(false),
            }
        };
        let mut buf = vec![0xA5; c + 2];
        let r = enc.get().encode(&mut buf[..c], eos);
        calls += 1;
        ensure!(calls < 3000 + 400 * bytes.len(), "no end after {calls} encode calls; {e:?} item {v:?}");
        s.note(|| format!("encode(room {c}, {eos:?}) -> {:?} {:02x?}", r.as_ref().map_err(|e| *e.kind()), &buf[..c.min(40)]));
        ensure!(buf[c..] == [0xA5, 0xA5], "harness");
        let cut = reached && left > c;
        match r {
            Err(x) => {
                let mut ok = fail_mask;
                if reached && (cut || !done) {
                    ok |= eos_mask(e);
                }
                ensure!(ebit(&x) & ok != 0, "encode failed with {:?} at byte {pos} of {} (room {c}, {eos:?}); expected {}; {e:?} item {v:?}", x.kind(), bytes.len(), if ok == 0 { "no failure".into() } else { kname(ok) });
                s.label_if(cut, "output ended inside the item");
                s.label_if(!cut, "encoding failure");
                return Ok(EncEnd::Failed);
            }
            Ok(n) => {
                ensure!(!cut, "the output ended {} bytes early but encode succeeded (room {c}, wrote {n}); {e:?} item {v:?}", left - c);
                ensure!(n <= c, "encode reports {n} bytes in room for {c}; {e:?}");
                ensure!(n <= left && buf[..n] == bytes[pos..pos + n], "wrong bytes {:02x?} at {pos} of {bytes:02x?}; {e:?} item {v:?}", &buf[..n]);
                pos += n;
                let idle = enc.get().is_idle();
                if done {
                    ensure!(n == c.min(left), "encode wrote {n} bytes, room {c}, left {left}; {e:?} item {v:?}");
                    ensure!(idle == (pos == bytes.len()), "is_idle is {idle} after {pos} of {} bytes; {e:?} item {v:?}", bytes.len());
                    s.label_if(reached, "end signalled with enough room");
                } else {
                    ensure!(!idle, "idle after {pos} bytes but the item must fail with {}; {e:?} item {v:?}", kname(fail_mask));
                }
                if idle {
                    if o.need {
                        check_need(e, enc, 0, Some(true))?;
                    }
                    s.label_if(calls > 1, "several buffers");
                    if s.one_in(4) {
                        // an idle encoder hands out nothing more
                        let mut b = [0u8; 3];
                        match enc.get().encode(&mut b, Eos::new(s.bool())) {
                            Ok(0) => {}
                            r => fail!("idle encoder: encode gave {:?}; {e:?}", r.map_err(|e| *e.kind())),
                        }
                        ensure!(enc.get().is_idle(), "idle encoder woke up; {e:?}");
                    }
                    return Ok(EncEnd::Done);
                }
            }
        }
    }
}
pub struct Outcome {
    pub done: usize,
    pub refused: usize,
    pub failed: bool,
    pub bytes: usize,
}
pub fn drive(s: &mut Src, e: &E, max_items: usize, o: Opt) -> Result<Outcome, Fail> {
    s.note(|| format!("encoder {e:?}"));
    let mut enc = Enc::new(e, s);
    ensure!(enc.get().is_idle(), "fresh encoder is not idle; {e:?}");
    let mut out = Outcome { done: 0, refused: 0, failed: false, bytes: 0 };
    let items = if s.long == 1 { s.rounds(1, max_items) } else { s.range(1, max_items) };
    for _ in 0..items {
        if s.tired() {
            break;
        }
        s.refill();
        let v = gen_val(e, s, s.size);
        match drive_item(s, e, &mut enc, &v, o)? {
            EncEnd::Done => {
                out.done += 1;
                if let Ser::Run { bytes, .. } = ser(e, &v) {
                    out.bytes += bytes.len();
                }
                s.label_if(out.done > 1, "several items on one instance");
                s.label_if(out.done > 256, "more than 256 items on one instance");
            }
            EncEnd::Refused => {
                out.refused += 1;
                s.label("item refused");
                if !clean_refusal(e) {
                    break;
                }
                ensure!(enc.get().is_idle(), "a refused item left the encoder busy; {e:?} item {v:?}");
            }
            EncEnd::Failed => {
                out.failed = true;
                break;
            }
        }
    }
    Ok(out)
}

/// The encoder that writes what `d` reads, if there is one.
pub fn counterpart(d: &Spec) -> Option<ES> {
    let r = |i: &S| counterpart(i).map(Rc::new);
    Some(match d {
        Spec::Fix(k) => Fix(*k),
        Spec::Copy(n) | Spec::Bytes(n) => Length(*n as u64, Rc::new(Bytes), None),
        Spec::Utf8N(_) => return None,
        Spec::Remain => Bytes,
        Spec::Utf8 => Utf8,
        Spec::Null => Null,
        Spec::Json => Json,
        Spec::Map(i) => Map(r(i)?),
        Spec::TryMap(i) => TryMap(r(i)?),
        Spec::MapErr(k, i) => MapErr(*k, r(i)?),
        Spec::LenPrefix(k, i) => LenPrefix(*k, r(i)?),
        Spec::Count(k, i) => Count(*k, r(i)?),
        Spec::Dispatch(a) => Dispatch(a.iter().map(r).collect::<Option<Vec<_>>>()?),
        Spec::Collect(i) => Repeat(r(i)?),
        Spec::Length(n, i, _) => Length(*n, r(i)?, None),
        Spec::Omit(false, i) => Optional(r(i)?),
        Spec::MaxBytes(n, i) => MaxBytes(*n, r(i)?),
        Spec::Tuple(m) => Tuple(m.iter().map(r).collect::<Option<Vec<_>>>()?),
        Spec::Slice(i) => Slice(r(i)?),
        Spec::Peek(i) | Spec::MaybeEos(i) => return counterpart(i),
        Spec::Pad(_) | Spec::CollectN(..) | Spec::Omit(true, _) | Spec::Boom(..) | Spec::Zstr(_) | Spec::Then(..) => return None,
    })
}
