//! Byte-count arithmetic, forwarding implementations, error kinds, and parameters changed between items.
use super::codec::{feed, pump};
use crate::enc;
use crate::engine::{tick, Prop, Src, R};
use crate::spec::{self, ebit, kbit, kname, mkerr, Ctx, KINDS};
use crate::{drive, ensure, fail};
use bytecodec::padding::PaddingEncoder;
use bytecodec::tuple::TupleEncoder;
use bytecodec::bytes::{BytesEncoder, RemainingBytesDecoder, Utf8Encoder};
use bytecodec::combinator::{Length, MaxBytes};
use bytecodec::fixnum::{U16beDecoder, U16beEncoder, U24beEncoder, U32leDecoder, U8Decoder, U8Encoder};
use bytecodec::io::{IoDecodeExt, IoEncodeExt, ReadBuf, WriteBuf};
use bytecodec::padding::PaddingDecoder;
use bytecodec::{ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos, Error, ErrorKind, SizedEncode, TaggedDecode, TryTaggedDecode};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::io;
use std::rc::Rc;
use ByteCount::{Finite, Infinite, Unknown};

// ---- C32 ----
/// `None`: the sum is not representable.
fn model(dec: bool, a: ByteCount, b: ByteCount) -> Option<ByteCount> {
    match (a, b) {
        (Infinite, _) | (_, Infinite) => Some(Infinite),
        (Finite(x), Finite(y)) => x.checked_add(y).map(Finite),
        (Unknown, Unknown) => Some(Unknown),
        (Finite(x), Unknown) | (Unknown, Finite(x)) => Some(if dec && x != 0 { Finite(x) } else { Unknown }),
    }
}
fn add(dec: bool, a: ByteCount, b: ByteCount) -> ByteCount {
    if dec { a.add_for_decoding(b) } else { a.add_for_encoding(b) }
}
fn pair_laws(a: ByteCount, b: ByteCount) -> R {
    for dec in [true, false] {
        let r = add(dec, a, b);
        match model(dec, a, b) {
            Some(w) => ensure!(r == w, "{a:?} + {b:?} (decoding {dec}) = {r:?}, the table says {w:?}"),
            None => ensure!(!r.is_unknow() && r >= a && r >= b, "{a:?} + {b:?} (decoding {dec}) wrapped around to {r:?}"),
        }
        let r2 = add(dec, b, a);
        ensure!(r == r2, "{a:?} + {b:?} = {r:?} but {b:?} + {a:?} = {r2:?} (decoding {dec})");
    }
    let want = match (a, b) {
        (Unknown, _) | (_, Unknown) => None,
        (Infinite, Infinite) => Some(Ordering::Equal),
        (Infinite, _) => Some(Ordering::Greater),
        (_, Infinite) => Some(Ordering::Less),
        (Finite(x), Finite(y)) => Some(x.cmp(&y)),
    };
    ensure!(a.partial_cmp(&b) == want, "{a:?} against {b:?}: {:?}, expected {want:?}", a.partial_cmp(&b));
    ensure!((a < b) == (want == Some(Ordering::Less)) && (a > b) == (want == Some(Ordering::Greater)), "{a:?} < or > {b:?}");
    ensure!((a <= b) == matches!(want, Some(Ordering::Less | Ordering::Equal)) && (a >= b) == matches!(want, Some(Ordering::Greater | Ordering::Equal)), "{a:?} <= or >= {b:?}");
    let same = match (a, b) {
        (Finite(x), Finite(y)) => x == y,
        (Infinite, Infinite) | (Unknown, Unknown) => true,
        _ => false,
    };
    ensure!((a == b) == same, "{a:?} == {b:?} is {}", a == b);
    Ok(())
}
fn single_laws(a: ByteCount) -> R {
    ensure!(a.is_finite() == matches!(a, Finite(_)) && a.is_infinite() == matches!(a, Infinite) && a.is_unknow() == matches!(a, Unknown), "predicates of {a:?}");
    ensure!(a.to_u64() == if let Finite(n) = a { Some(n) } else { None }, "{a:?}.to_u64() is {:?}", a.to_u64());
    let e = Eos::with_remaining_bytes(a);
    ensure!(e.remaining_bytes() == a, "end at {a:?} says {:?}", e.remaining_bytes());
    ensure!(e.is_reached() == (a == Finite(0)), "end at {a:?}: is_reached {}", e.is_reached());
    Ok(())
}
fn back_laws(a: ByteCount, k: u64) -> R {
    let r = Eos::with_remaining_bytes(a).back(k);
    let want = match a {
        Finite(n) => match n.checked_add(k) {
            Some(m) => Finite(m),
            None => {
                ensure!(r.remaining_bytes() >= a && r.remaining_bytes() >= Finite(k) && !r.is_reached(), "{k} before the end at {a:?}: {:?}", r.remaining_bytes());
                return Ok(());
            }
        },
        a => a,
    };
    ensure!(r.remaining_bytes() == want, "{k} before the end at {a:?}: {:?}, expected {want:?}", r.remaining_bytes());
    ensure!(r.is_reached() == (want == Finite(0)), "{k} before the end at {a:?}: is_reached {}", r.is_reached());
    Ok(())
}
fn triple_laws(a: ByteCount, b: ByteCount, c: ByteCount) -> R {
    for dec in [true, false] {
        let big: u128 = [a, b, c].iter().filter_map(|x| x.to_u64()).map(u128::from).sum();
        if big > u128::from(u64::MAX) {
            continue;
        }
        let l = add(dec, add(dec, a, b), c);
        let r = add(dec, a, add(dec, b, c));
        ensure!(l == r, "({a:?} + {b:?}) + {c:?} = {l:?} but {a:?} + ({b:?} + {c:?}) = {r:?} (decoding {dec})");
    }
    if a < b && b < c {
        ensure!(a < c, "{a:?} < {b:?} < {c:?} but not {a:?} < {c:?}");
    }
    Ok(())
}
fn count(s: &mut Src) -> ByteCount {
    match s.draw(6) {
        0 => Infinite,
        1 => Unknown,
        2 => Finite(s.draw(3)),
        _ => Finite(s.int(64)),
    }
}
fn c32_random(s: &mut Src) -> R {
    let (a, b, c) = (count(s), count(s), count(s));
    let k = s.int(64);
    let j = s.int(64);
    s.nontrivial_if(a.is_finite() && b.is_finite() && a != Finite(0) && b != Finite(0));
    s.note(|| format!("{a:?} {b:?} {c:?} {k} {j}"));
    single_laws(a)?;
    pair_laws(a, b)?;
    triple_laws(a, b, c)?;
    back_laws(a, k)?;
    if let (Finite(n), Some(kj)) = (a, k.checked_add(j)) {
        if n.checked_add(kj).is_some() {
            let e = Eos::with_remaining_bytes(a);
            ensure!(e.back(k).back(j) == e.back(kj), "back({k}).back({j}) differs from back({kj}) at {a:?}");
        }
    }
    Ok(())
}
fn nth(i: u64) -> ByteCount {
    match i {
        0 => Infinite,
        1 => Unknown,
        i => Finite(match i - 2 {
            n @ 0..=7 => n,
            8 => 255,
            9 => 256,
            10 => 65_535,
            11 => u64::from(u32::MAX),
            12 => u64::from(u32::MAX) + 1,
            13 => 1 << 53,
            14 => u64::MAX / 2,
            15 => u64::MAX / 2 + 1,
            n => u64::MAX - (n - 16),
        }),
    }
}
const NTH: u64 = 21;
fn c32_all(i: u64) -> R {
    let (a, b, c) = (nth(i % NTH), nth(i / NTH % NTH), nth(i / NTH / NTH));
    single_laws(a)?;
    pair_laws(a, b)?;
    triple_laws(a, b, c)?;
    if let Finite(k) = b {
        back_laws(a, k)?;
    }
    ensure!(ByteCount::default() == Unknown, "default is {:?}", ByteCount::default());
    ensure!(Eos::new(true).remaining_bytes() == Finite(0) && Eos::new(false).remaining_bytes() == Unknown, "Eos::new");
    Ok(())
}
/// F11.
fn pin_saturate() -> R {
    pair_laws(Finite(u64::MAX), Finite(1))?;
    let d = U8Decoder::new().length(u64::MAX).chain(U8Decoder::new());
    ensure!(d.requiring_bytes() >= Finite(u64::MAX), "needs {:?}", d.requiring_bytes());
    Ok(())
}
/// F16.
fn pin_back() -> R {
    back_laws(Finite(u64::MAX), 1)
}
/// F18.
pub fn pin_sum_sized() -> R {
    let half = || PaddingEncoder::new().length(u64::MAX);
    let mut e = TupleEncoder::new((half(), half(), U8Encoder::new()));
    ensure!(e.start_encoding((1, 2, 3)).is_ok(), "refused");
    ensure!(e.exact_requiring_bytes() == u64::MAX, "{} bytes though each of two members needs 2^64-1", e.exact_requiring_bytes());
    ensure!(e.requiring_bytes() >= Finite(u64::MAX), "needs {:?}", e.requiring_bytes());
    Ok(())
}

// ---- C33 ----
#[derive(Clone, Debug, PartialEq)]
enum Call {
    Code(Vec<u8>, Eos),
    Take,
    Start(u64),
    Need,
    Exact,
    Idle,
    Tag(u64),
    TryTag(u64),
}
/// A codec whose every answer is a function of its history; what it is told it records.
struct Odd {
    seed: u64,
    n: Cell<u64>,
    log: Rc<RefCell<Vec<Call>>>,
}
impl Odd {
    fn new(seed: u64) -> (Odd, Rc<RefCell<Vec<Call>>>) {
        let log = Rc::new(RefCell::new(vec![]));
        (Odd { seed, n: Cell::new(0), log: log.clone() }, log)
    }
    fn next(&self, c: Call) -> u64 {
        tick();
        self.log.borrow_mut().push(c);
        self.n.set(self.n.get() + 1);
        crate::engine::hash64(&[self.seed, self.n.get()])
    }
    fn res<T>(&self, r: u64, v: T) -> bytecodec::Result<T> {
        if r % 5 == 0 { Err(mkerr(KINDS[(r / 5 % 7) as usize])) } else { Ok(v) }
    }
    fn count(r: u64) -> ByteCount {
        match r % 4 {
            0 => Infinite,
            1 => Unknown,
            2 => Finite(0),
            _ => Finite(r >> 8),
        }
    }
}
struct OddD(Odd);
impl Decode for OddD {
    type Item = u64;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        let r = self.0.next(Call::Code(buf.to_vec(), eos));
        self.0.res(r, (r >> 8) as usize)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<u64> {
        let r = self.0.next(Call::Take);
        self.0.res(r, r)
    }
    fn requiring_bytes(&self) -> ByteCount {
        Odd::count(self.0.next(Call::Need))
    }
    fn is_idle(&self) -> bool {
        self.0.next(Call::Idle) % 2 == 0
    }
}
struct OddTag(OddD);
impl Decode for OddTag {
    type Item = u64;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        self.0.decode(buf, eos)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<u64> {
        self.0.finish_decoding()
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
impl TaggedDecode for OddTag {
    type Tag = u64;
    fn start_decoding(&mut self, tag: u64) -> bytecodec::Result<()> {
        let r = self.0 .0.next(Call::Tag(tag));
        self.0 .0.res(r, ())
    }
}
impl TryTaggedDecode for OddD {
    type Tag = u64;
    fn try_start_decoding(&mut self, tag: u64) -> bytecodec::Result<bool> {
        let r = self.0.next(Call::TryTag(tag));
        self.0.res(r, r % 3 == 0)
    }
}
struct OddE(Odd);
impl Encode for OddE {
    type Item = u64;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        let r = self.0.next(Call::Code(buf.to_vec(), eos));
        for b in buf.iter_mut() {
            *b = b.wrapping_add(r as u8);
        }
        self.0.res(r, (r >> 8) as usize)
    }
    fn start_encoding(&mut self, item: u64) -> bytecodec::Result<()> {
        let r = self.0.next(Call::Start(item));
        self.0.res(r, ())
    }
    fn requiring_bytes(&self) -> ByteCount {
        Odd::count(self.0.next(Call::Need))
    }
    fn is_idle(&self) -> bool {
        self.0.next(Call::Idle) % 2 == 0
    }
}
impl SizedEncode for OddE {
    fn exact_requiring_bytes(&self) -> u64 {
        self.0.next(Call::Exact)
    }
}
fn kind<T>(r: bytecodec::Result<T>) -> Result<T, ErrorKind> {
    r.map_err(|e| *e.kind())
}
macro_rules! same {
    ($what:expr, $a:expr, $b:expr) => {{
        let (x, y) = ($a, $b);
        ensure!(x == y, "{}: {x:?} through the indirection, {y:?} directly", $what);
    }};
}
type Extra<'a, D> = &'a mut dyn FnMut(&mut Src, &mut D, &mut OddD) -> R;
fn dec_calls<D: Decode<Item = u64>>(s: &mut Src, what: &str, mut w: D, mut d: OddD, logs: &[Rc<RefCell<Vec<Call>>>; 2], extra: Extra<D>) -> R {
    for _ in s.turns(1, 10) {
        match s.draw(6) {
            0 | 1 => {
                let n = s.amount(20);
                let b = s.bytes(n);
                let eos = Eos::with_remaining_bytes(count(s));
                same!(format!("{what}.decode"), kind(w.decode(&b, eos)), kind(d.decode(&b, eos)));
            }
            2 => same!(format!("{what}.finish_decoding"), kind(w.finish_decoding()), kind(d.finish_decoding())),
            3 => same!(format!("{what}.requiring_bytes"), w.requiring_bytes(), d.requiring_bytes()),
            4 => same!(format!("{what}.is_idle"), w.is_idle(), d.is_idle()),
            _ => extra(s, &mut w, &mut d)?,
        }
        same!(format!("{what}: calls received"), &*logs[0].borrow(), &*logs[1].borrow());
    }
    s.nontrivial_if(logs[0].borrow().len() > 2);
    Ok(())
}
fn c33_decode(s: &mut Src) -> R {
    let seed = s.draw(0);
    let ((mut a, l), (b, m)) = (Odd::new(seed), Odd::new(seed));
    a.n.set(0);
    let logs = [l, m];
    let b = OddD(b);
    let mut no = |_: &mut Src, _: &mut _, _: &mut OddD| -> R { Ok(()) };
    macro_rules! go { ($t:ty, $w:expr) => {{ let mut no = |_: &mut Src, _: &mut $t, _: &mut OddD| -> R { Ok(()) }; let w: $t = $w; dec_calls(s, stringify!($t), w, b, &logs, &mut no) }}; }
    let which = s.draw(7);
    a.seed = seed;
    let mut a = OddD(a);
    match which {
        0 => dec_calls(s, "&mut D", &mut a, b, &logs, &mut no),
        1 => go!(Box<OddD>, Box::new(a)),
        2 => go!(Box<dyn Decode<Item = u64>>, Box::new(a)),
        3 => go!(Box<Box<dyn Decode<Item = u64>>>, Box::new(Box::new(a))),
        4 => {
            let x: &mut dyn Decode<Item = u64> = &mut a;
            let mut no = |_: &mut Src, _: &mut &mut dyn Decode<Item = u64>, _: &mut OddD| -> R { Ok(()) };
            dec_calls(s, "&mut dyn Decode", x, b, &logs, &mut no)
        }
        5 => {
            let mut x: Box<dyn Decode<Item = u64>> = Box::new(a);
            let mut no = |_: &mut Src, _: &mut &mut Box<dyn Decode<Item = u64>>, _: &mut OddD| -> R { Ok(()) };
            dec_calls(s, "&mut Box<dyn Decode>", &mut x, b, &logs, &mut no)
        }
        _ => {
            let mut no = |_: &mut Src, _: &mut Box<&mut OddD>, _: &mut OddD| -> R { Ok(()) };
            dec_calls(s, "Box<&mut D>", Box::new(&mut a), b, &logs, &mut no)
        }
    }
}
fn tag_calls<D: TaggedDecode<Item = u64, Tag = u64>>(s: &mut Src, what: &str, w: D, b: OddD, logs: &[Rc<RefCell<Vec<Call>>>; 2]) -> R {
    let mut f = |s: &mut Src, w: &mut D, d: &mut OddD| -> R {
        let t = s.int(64);
        let r = d.0.next(Call::Tag(t));
        same!("start_decoding", kind(w.start_decoding(t)), kind(d.0.res(r, ())));
        s.label("tag");
        Ok(())
    };
    dec_calls(s, what, w, b, logs, &mut f)
}
fn try_calls<D: TryTaggedDecode<Item = u64, Tag = u64>>(s: &mut Src, what: &str, w: D, b: OddD, logs: &[Rc<RefCell<Vec<Call>>>; 2]) -> R {
    let mut f = |s: &mut Src, w: &mut D, d: &mut OddD| -> R {
        let t = s.int(64);
        same!("try_start_decoding", kind(w.try_start_decoding(t)), kind(d.try_start_decoding(t)));
        s.label("tried tag");
        Ok(())
    };
    dec_calls(s, what, w, b, logs, &mut f)
}
fn c33_tagged(s: &mut Src) -> R {
    let seed = s.draw(0);
    let ((a, l), (b, m)) = (Odd::new(seed), Odd::new(seed));
    let logs = [l, m];
    let b = OddD(b);
    let which = s.draw(8);
    if which < 4 {
        let mut a = OddTag(OddD(a));
        match which {
            0 => tag_calls(s, "&mut D", &mut a, b, &logs),
            1 => tag_calls(s, "Box<D>", Box::new(a), b, &logs),
            2 => tag_calls::<Box<dyn TaggedDecode<Item = u64, Tag = u64>>>(s, "Box<dyn TaggedDecode>", Box::new(a), b, &logs),
            _ => tag_calls(s, "&mut Box<D>", &mut Box::new(a), b, &logs),
        }
    } else {
        let mut a = OddD(a);
        match which {
            4 => try_calls(s, "&mut D", &mut a, b, &logs),
            5 => try_calls(s, "Box<D>", Box::new(a), b, &logs),
            6 => try_calls::<Box<dyn TryTaggedDecode<Item = u64, Tag = u64>>>(s, "Box<dyn TryTaggedDecode>", Box::new(a), b, &logs),
            _ => try_calls(s, "&mut Box<D>", &mut Box::new(a), b, &logs),
        }
    }
}
type ExtraE<'a, E> = Option<&'a dyn Fn(&E, &OddE) -> (u64, u64)>;
fn enc_calls<E: Encode<Item = u64>>(s: &mut Src, what: &str, mut w: E, mut d: OddE, logs: &[Rc<RefCell<Vec<Call>>>; 2], exact: ExtraE<E>) -> R {
    for _ in s.turns(1, 10) {
        match s.draw(6) {
            0 | 1 => {
                let n = s.amount(20);
                let b = s.bytes(n);
                let (mut x, mut y) = (b.clone(), b);
                let eos = Eos::with_remaining_bytes(count(s));
                same!(format!("{what}.encode"), kind(w.encode(&mut x, eos)), kind(d.encode(&mut y, eos)));
                same!(format!("{what}.encode: output"), x, y);
            }
            2 => {
                let n = s.int(64);
                same!(format!("{what}.start_encoding"), kind(w.start_encoding(n)), kind(d.start_encoding(n)));
            }
            3 => same!(format!("{what}.requiring_bytes"), w.requiring_bytes(), d.requiring_bytes()),
            4 => same!(format!("{what}.is_idle"), w.is_idle(), d.is_idle()),
            _ => {
                if let Some(f) = exact {
                    let (x, y) = f(&w, &d);
                    same!(format!("{what}.exact_requiring_bytes"), x, y);
                    s.label("exact size");
                }
            }
        }
        same!(format!("{what}: calls received"), &*logs[0].borrow(), &*logs[1].borrow());
    }
    s.nontrivial_if(logs[0].borrow().len() > 2);
    Ok(())
}
fn sized_calls<E: SizedEncode<Item = u64>>(s: &mut Src, what: &str, w: E, b: OddE, logs: &[Rc<RefCell<Vec<Call>>>; 2]) -> R {
    enc_calls(s, what, w, b, logs, Some(&|w: &E, d: &OddE| (w.exact_requiring_bytes(), d.exact_requiring_bytes())))
}
fn c33_encode(s: &mut Src) -> R {
    let seed = s.draw(0);
    let ((a, l), (b, m)) = (Odd::new(seed), Odd::new(seed));
    let logs = [l, m];
    let b = OddE(b);
    let mut a = OddE(a);
    match s.draw(10) {
        0 => enc_calls(s, "&mut E", &mut a, b, &logs, None),
        1 => enc_calls(s, "Box<E>", Box::new(a), b, &logs, None),
        2 => enc_calls::<Box<dyn Encode<Item = u64>>>(s, "Box<dyn Encode>", Box::new(a), b, &logs, None),
        3 => enc_calls::<&mut dyn Encode<Item = u64>>(s, "&mut dyn Encode", &mut a, b, &logs, None),
        4 => enc_calls::<Box<Box<dyn Encode<Item = u64>>>>(s, "Box<Box<dyn Encode>>", Box::new(Box::new(a)), b, &logs, None),
        5 => sized_calls(s, "&mut E", &mut a, b, &logs),
        6 => sized_calls(s, "Box<E>", Box::new(a), b, &logs),
        7 => sized_calls::<Box<dyn SizedEncode<Item = u64>>>(s, "Box<dyn SizedEncode>", Box::new(a), b, &logs),
        8 => sized_calls::<&mut dyn SizedEncode<Item = u64>>(s, "&mut dyn SizedEncode", &mut a, b, &logs),
        _ => sized_calls(s, "&mut Box<&mut E>", &mut Box::new(&mut a), b, &logs),
    }
}

// ---- C35 ----
fn c35_decode(s: &mut Src) -> R {
    let depth = s.range(0, 4);
    let x = spec::gen(s, depth, Ctx::top(true));
    let d = spec::inject(&x, s);
    let r = drive::drive(s, &d, 3, 0, drive::PLAIN)?;
    s.nontrivial_if(r.failed && spec::nodes(&d) > 1);
    Ok(())
}
fn c35_encode(s: &mut Src) -> R {
    let depth = s.range(0, 4);
    let sized = s.one_in(4);
    let x = enc::gen(s, depth, enc::Ctx { sized });
    let e = enc::inject(&x, s);
    let r = enc::drive(s, &e, 3, enc::PLAIN)?;
    s.nontrivial_if((r.failed || r.refused > 0) && enc::nodes(&e) > 1);
    Ok(())
}
/// An error type of the user's own.
struct Mine(ErrorKind);
impl From<Mine> for Error {
    fn from(e: Mine) -> Error {
        mkerr(e.0)
    }
}
type Layers = Rc<RefCell<Vec<ErrorKind>>>;
struct BoomAt {
    at: u64,
    got: u64,
    kind: ErrorKind,
    phase: u8,
}
impl Decode for BoomAt {
    type Item = u64;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        tick();
        let n = (buf.len() as u64).min(self.at - self.got);
        self.got += n;
        if self.got == self.at && self.phase == 0 {
            return Err(mkerr(self.kind));
        }
        if self.got < self.at && eos.is_reached() {
            return Err(mkerr(ErrorKind::UnexpectedEos));
        }
        Ok(n as usize)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<u64> {
        if self.got != self.at {
            return Err(mkerr(ErrorKind::IncompleteDecoding));
        }
        self.got = 0;
        if self.phase == 1 { Err(mkerr(self.kind)) } else { Ok(7) }
    }
    fn requiring_bytes(&self) -> ByteCount {
        Finite(self.at - self.got)
    }
    fn is_idle(&self) -> bool {
        self.got == self.at && self.phase != 0
    }
}
impl Encode for BoomAt {
    type Item = u64;
    fn encode(&mut self, buf: &mut [u8], _: Eos) -> bytecodec::Result<usize> {
        tick();
        let n = (buf.len() as u64).min(self.got);
        self.got -= n;
        if self.got == 0 && self.phase == 0 {
            return Err(mkerr(self.kind));
        }
        Ok(n as usize)
    }
    fn start_encoding(&mut self, _: u64) -> bytecodec::Result<()> {
        if self.phase == 1 {
            return Err(mkerr(self.kind));
        }
        self.got = self.at;
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        if self.got > 0 || self.phase == 0 && self.at == 0 { Unknown } else { Finite(0) }
    }
}
/// Mapping layers around a failing codec: each applied exactly once, innermost first, the last one's word counts.
fn c35_layers(s: &mut Src) -> R {
    let log: Layers = Rc::new(RefCell::new(vec![]));
    let at = 1 + s.draw(6);
    let kind0 = *s.pick(KINDS);
    let phase = s.draw(3) as u8;
    let dec = s.bool();
    // the item is taken before it is complete
    let early = dec && phase == 2 && s.bool();
    let mut cur = if early { ErrorKind::IncompleteDecoding } else { kind0 };
    let mut expect = vec![];
    let n = s.range(1, 5);
    let mut maps = 0;
    let rk = *s.pick(KINDS);
    let mut failing = phase < 2 || early;
    let outcome: Result<(), ErrorKind>;
    if dec {
        let mut d: Box<dyn Decode<Item = u64>> = Box::new(BoomAt { at, got: 0, kind: kind0, phase });
        for _ in 0..n {
            match s.draw(8) {
                0 | 1 | 2 => {
                    let k = *s.pick(KINDS);
                    let log = log.clone();
                    d = if s.bool() {
                        Box::new(d.map_err(move |e| {
                            log.borrow_mut().push(*e.kind());
                            Mine(k)
                        }))
                    } else {
                        Box::new(d.map_err(move |e| {
                            log.borrow_mut().push(*e.kind());
                            mkerr(k)
                        }))
                    };
                    if failing {
                        expect.push(cur);
                        cur = k;
                        maps += 1;
                    }
                }
                3 => d = Box::new(d.map(|v| v + 1)),
                4 => {
                    // fails unless something inside already did
                    d = Box::new(d.try_map(move |_| Err::<u64, Mine>(Mine(rk))));
                    if !failing {
                        failing = true;
                        cur = rk;
                    }
                }
                5 if !early => d = Box::new(d.peekable()),
                5 | 6 => d = Box::new(d.maybe_eos()),
                _ => d = Box::new(d.slice_all()),
            }
        }
        let data = s.bytes(at as usize);
        outcome = if early {
            let k = s.below(at as usize);
            let r = d.decode(&data[..k], super::codec::more(s)).map_err(|e| *e.kind());
            ensure!(r == Ok(k), "{r:?} for {k} of {at} bytes");
            s.label("taken early");
            d.finish_decoding().map(|_| ()).map_err(|e| *e.kind())
        } else {
            match feed(s, &mut d, &data, false)? {
                (_, Some(r)) => r.map(|_| ()),
                (_, None) => fail!("neither complete nor failed"),
            }
        };
    } else {
        let mut e: Box<dyn Encode<Item = u64>> = Box::new(BoomAt { at, got: 0, kind: kind0, phase });
        for _ in 0..n {
            match s.draw(7) {
                0 | 1 | 2 => {
                    let k = *s.pick(KINDS);
                    let log = log.clone();
                    e = if s.bool() {
                        Box::new(e.map_err(move |e| {
                            log.borrow_mut().push(*e.kind());
                            Mine(k)
                        }))
                    } else {
                        Box::new(e.map_err(move |e| {
                            log.borrow_mut().push(*e.kind());
                            mkerr(k)
                        }))
                    };
                    if failing {
                        expect.push(cur);
                        cur = k;
                        maps += 1;
                    }
                }
                3 => e = Box::new(e.map_from(|v: u64| v + 1)),
                4 => {
                    // refuses before anything inside is asked: whatever was to fail inside does not
                    e = Box::new(e.try_map_from(move |_| Err::<u64, Mine>(Mine(rk))));
                    failing = true;
                    cur = rk;
                    expect.clear();
                    maps = 0;
                }
                5 => e = Box::new(e.max_bytes(u64::MAX)),
                _ => e = Box::new(e.optional().map_from(Some)),
            }
        }
        outcome = match e.start_encoding(1) {
            Err(x) => Err(*x.kind()),
            Ok(()) => pump(s, &mut e, 64)?.map(|_| ()),
        };
    }
    s.nontrivial_if(failing && maps > 0);
    s.label_if(maps > 1, "several mappings");
    match outcome {
        Err(k) => ensure!(failing && k == cur, "failed with {k:?}, expected {}; mappings saw {:?}", if failing { format!("{cur:?}") } else { "success".into() }, log.borrow()),
        Ok(()) => ensure!(!failing, "no failure, expected {cur:?}"),
    }
    ensure!(*log.borrow() == expect, "the mappings saw {:?}, expected {expect:?}", log.borrow());
    Ok(())
}
trait SliceAll: Decode + Sized {
    fn slice_all(self) -> bytecodec::combinator::Slice<Self> {
        let mut d = self.slice();
        d.set_consumable_bytes(u64::MAX);
        d
    }
}
impl<D: Decode> SliceAll for D {}
const IO: &[io::ErrorKind] = &[
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::AddrNotAvailable,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::InvalidData,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WriteZero,
    io::ErrorKind::Unsupported,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::Other,
    io::ErrorKind::Interrupted,
    io::ErrorKind::WouldBlock,
];
fn io_kind(k: io::ErrorKind) -> ErrorKind {
    if k == io::ErrorKind::UnexpectedEof { ErrorKind::UnexpectedEos } else { ErrorKind::Other }
}
fn c35_io_kinds(i: u64) -> R {
    let k = IO[(i / 4) as usize];
    let e = match i % 4 {
        0 => io::Error::from(k),
        1 => io::Error::new(k, "custom"),
        2 => io::Error::new(k, io::Error::from(io::ErrorKind::UnexpectedEof)),
        _ => io::Error::new(k, mkerr(ErrorKind::UnexpectedEos).to_string()),
    };
    let x = Error::from(e);
    ensure!(*x.kind() == io_kind(k), "{k:?} became {:?}", x.kind());
    Ok(())
}
fn c35_os(i: u64) -> R {
    let e = io::Error::from_raw_os_error(i as i32);
    let k = e.kind();
    let x = Error::from(e);
    ensure!(*x.kind() == io_kind(k), "OS error {i} ({k:?}) became {:?}", x.kind());
    Ok(())
}
struct Broken {
    after: usize,
    kind: io::ErrorKind,
}
impl io::Read for Broken {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        tick();
        if self.after == 0 {
            return Err(io::Error::new(self.kind, "broken"));
        }
        let n = b.len().min(self.after).min(3);
        b[..n].fill(1);
        self.after -= n;
        Ok(n)
    }
}
impl io::Write for Broken {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        tick();
        if self.after == 0 {
            return Err(io::Error::new(self.kind, "broken"));
        }
        let n = b.len().min(self.after).min(3);
        self.after -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// A failing reader or writer under the blocking and the buffered helpers.
fn c35_io(s: &mut Src) -> R {
    let k = *s.pick(&IO[..18]);
    let total = 4 + s.draw(12) as usize;
    let after = s.below(total);
    s.nontrivial_if(after > 0);
    let want = io_kind(k);
    s.note(|| format!("{k:?} after {after} of {total} bytes"));
    let got = match s.draw(5) {
        0 => {
            let mut d = bytecodec::bytes::BytesDecoder::new(vec![0; total]);
            kind(d.decode_exact(Broken { after, kind: k })).map(|_| ())
        }
        1 => {
            let mut e = BytesEncoder::new();
            ensure!(e.start_encoding(vec![1; total]).is_ok(), "refused");
            kind(e.encode_all(Broken { after, kind: k }))
        }
        2 => {
            let mut b = ReadBuf::new(vec![0; 1 + s.len(20)]);
            let mut d = bytecodec::bytes::BytesDecoder::new(vec![0; total]);
            let mut r = Broken { after, kind: k };
            let mut x = Ok(());
            for _ in 0..200 {
                x = kind(b.fill(&mut r));
                if x.is_err() || d.is_idle() {
                    break;
                }
                if let Err(e) = d.decode_from_read_buf(&mut b) {
                    fail!("decoding failed with {:?}", e.kind());
                }
            }
            x
        }
        3 => {
            let mut b = WriteBuf::new(vec![0; 1 + s.len(20)]);
            let mut e = BytesEncoder::new();
            ensure!(e.start_encoding(vec![1; total]).is_ok(), "refused");
            let mut w = Broken { after, kind: k };
            let mut x = Ok(());
            for _ in 0..200 {
                if let Err(e) = e.encode_to_write_buf(&mut b) {
                    fail!("encoding failed with {:?}", e.kind());
                }
                x = kind(b.flush(&mut w));
                if x.is_err() {
                    break;
                }
            }
            x
        }
        _ => {
            // a mapping between the codec and the helper must not see the reader's error
            let log: Layers = Rc::new(RefCell::new(vec![]));
            let l = log.clone();
            let mut d = bytecodec::bytes::BytesDecoder::new(vec![0; total]).map_err(move |e| {
                l.borrow_mut().push(*e.kind());
                e
            });
            let r = kind(d.decode_exact(Broken { after, kind: k })).map(|_| ());
            ensure!(log.borrow().is_empty(), "the codec saw {:?}", log.borrow());
            r
        }
    };
    ensure!(got == Err(want), "{k:?} after {after} of {total} bytes: {got:?}, expected {want:?}");
    Ok(())
}

// ---- C37 ----
fn refused<T: std::fmt::Debug>(r: bytecodec::Result<T>, want: ErrorKind, what: &str) -> R {
    match r {
        Ok(v) => fail!("{what}: accepted with {v:?}"),
        Err(e) => ensure!(*e.kind() == want, "{what}: {:?}, expected {want:?}", e.kind()),
    }
    Ok(())
}
fn c37_length_decoder(s: &mut Src) -> R {
    let mut len = s.amount(20) as u64;
    let mut d = RemainingBytesDecoder::new().length(len);
    let mut changes = 0;
    for _ in s.turns(1, 6) {
        // between items
        for _ in 0..s.range(0, 2) {
            let n = match s.draw(8) {
                0 => s.int(64),
                _ => s.amount(30) as u64,
            };
            if let Err(e) = d.set_expected_bytes(n) {
                fail!("set_expected_bytes({n}) between items failed with {:?}", e.kind());
            }
            len = n;
            changes += 1;
            ensure!(d.expected_bytes() == n && d.remaining_bytes() == n, "set to {n}: expected_bytes {} remaining_bytes {}", d.expected_bytes(), d.remaining_bytes());
            ensure!(d.requiring_bytes() == Finite(n), "set to {n}: needs {:?}", d.requiring_bytes());
        }
        let huge = len > if s.big { 200_000 } else { 64 };
        let n = if huge { 40 } else { len as usize };
        let data = s.bytes(n + 3);
        let mut pos = 0;
        let mut calls = 0;
        loop {
            calls += 1;
            if calls > 200 {
                fail!("no end");
            }
            ensure!(d.expected_bytes() == len && d.remaining_bytes() == len - pos as u64, "after {pos} of {len} bytes: expected_bytes {} remaining_bytes {}", d.expected_bytes(), d.remaining_bytes());
            if pos > 0 && s.one_in(3) {
                let k = s.amount(30) as u64;
                refused(d.set_expected_bytes(k), ErrorKind::IncompleteDecoding, "set_expected_bytes midway")?;
                ensure!(d.expected_bytes() == len && d.remaining_bytes() == len - pos as u64, "a refused change disturbed the item: expected_bytes {} remaining_bytes {}", d.expected_bytes(), d.remaining_bytes());
                s.label("refused midway");
            }
            let c = s.piece(data.len() - pos, 6, calls);
            match d.decode(&data[pos..pos + c], Eos::new(false)) {
                Ok(k) => {
                    ensure!(k as u64 == (c as u64).min(len - pos as u64), "consumed {k} of {c} with {} to go", len - pos as u64);
                    pos += k;
                }
                Err(e) => fail!("{:?}", e.kind()),
            }
            ensure!(d.is_idle() == (pos as u64 == len), "is_idle {} after {pos} of {len}", d.is_idle());
            if d.is_idle() || huge && pos > 20 {
                break;
            }
        }
        if huge {
            break;
        }
        match d.finish_decoding() {
            Ok(b) => ensure!(b == data[..pos], "got {b:02x?}, expected {:02x?}", &data[..pos]),
            Err(e) => fail!("{:?}", e.kind()),
        }
        ensure!(d.expected_bytes() == len && d.remaining_bytes() == len, "after an item: expected_bytes {} remaining_bytes {}, set to {len}", d.expected_bytes(), d.remaining_bytes());
        s.nontrivial_if(changes > 1 && pos > 1);
    }
    Ok(())
}
fn c37_length_encoder(s: &mut Src) -> R {
    let mut len = s.amount(20) as u64;
    let mut e: Length<BytesEncoder> = BytesEncoder::new().length(len);
    let mut changes = 0;
    for _ in s.turns(1, 6) {
        for _ in 0..s.range(0, 2) {
            let n = s.amount(30) as u64;
            if let Err(x) = e.set_expected_bytes(n) {
                fail!("set_expected_bytes({n}) between items failed with {:?}", x.kind());
            }
            len = n;
            changes += 1;
            ensure!(e.expected_bytes() == n, "set to {n}: expected_bytes {}", e.expected_bytes());
        }
        ensure!(e.is_idle() && e.exact_requiring_bytes() == 0, "not idle between items");
        let data = s.bytes(len as usize);
        ensure!(e.start_encoding(data.clone()).is_ok(), "item refused");
        let mut out: Vec<u8> = vec![];
        let mut calls = 0;
        while !e.is_idle() {
            calls += 1;
            if calls > 200 {
                fail!("no end");
            }
            ensure!(e.expected_bytes() == len && e.remaining_bytes() == len - out.len() as u64 && e.exact_requiring_bytes() == len - out.len() as u64, "after {} of {len} bytes: expected_bytes {} remaining_bytes {} exact {}", out.len(), e.expected_bytes(), e.remaining_bytes(), e.exact_requiring_bytes());
            if !out.is_empty() && s.one_in(3) {
                let k = s.amount(30) as u64;
                refused(e.set_expected_bytes(k), ErrorKind::IncompleteDecoding, "set_expected_bytes midway")?;
                ensure!(e.expected_bytes() == len && e.remaining_bytes() == len - out.len() as u64, "a refused change disturbed the item");
                s.label("refused midway");
            }
            let c = if s.big { s.piece(len as usize + 1, 6, calls) } else { s.range(0, 6) };
            let mut buf = vec![0; c];
            match e.encode(&mut buf, Eos::new(false)) {
                Ok(n) => {
                    ensure!(n <= c, "{n} of {c}");
                    out.extend_from_slice(&buf[..n]);
                }
                Err(x) => fail!("{:?} after {} of {len} bytes", x.kind(), out.len()),
            }
        }
        ensure!(out == data, "wrote {out:02x?}, expected {data:02x?}");
        s.nontrivial_if(changes > 1 && out.len() > 1);
        if s.one_in(6) {
            // the wrong size for the next item
            let n = len as usize + 1 + s.len(4);
            let x = vec![3; n];
            let r = match e.start_encoding(x) {
                Err(x) => Err(*x.kind()),
                Ok(()) => pump(s, &mut e, n + 8)?.map(|_| ()),
            };
            ensure!(r.is_err(), "{n} bytes accepted for {len}");
            s.label("wrong size refused");
            break;
        }
    }
    Ok(())
}
fn c37_max_decoder(s: &mut Src) -> R {
    let mut max = s.amount(20) as u64;
    let mut d = RemainingBytesDecoder::new().max_bytes(max);
    let mut changes = 0;
    for _ in s.turns(1, 5) {
        let n = s.amount(24);
        let data = s.bytes(n);
        let mut pos = 0u64;
        let mut calls = 0;
        loop {
            calls += 1;
            if calls > 300 {
                fail!("no end");
            }
            ensure!(d.consumed_bytes() == pos && MaxBytes::max_bytes(&d) == max, "after {pos} bytes under {max}: consumed_bytes {} max_bytes {}", d.consumed_bytes(), MaxBytes::max_bytes(&d));
            if s.one_in(3) {
                let k = match s.draw(6) {
                    0 => pos,
                    1 => pos.saturating_sub(1),
                    2 => u64::MAX,
                    3 => s.int(64),
                    _ => s.amount(30) as u64,
                };
                if k < pos {
                    refused(d.set_max_bytes(k), ErrorKind::InvalidInput, "a limit below what is used")?;
                    s.label("limit refused");
                } else {
                    if let Err(e) = d.set_max_bytes(k) {
                        fail!("set_max_bytes({k}) after {pos} bytes failed with {:?}", e.kind());
                    }
                    max = k;
                    changes += 1;
                }
                ensure!(d.consumed_bytes() == pos && MaxBytes::max_bytes(&d) == max, "after a change: consumed_bytes {} max_bytes {}, expected {pos} and {max}", d.consumed_bytes(), MaxBytes::max_bytes(&d));
            }
            let rest = n - pos as usize;
            let c = s.piece(rest, 5, calls);
            let end = c == rest;
            let eos = Eos::new(end);
            let over = pos + c as u64 > max;
            match d.decode(&data[pos as usize..pos as usize + c], eos) {
                Ok(k) => {
                    ensure!(!over && k == c, "consumed {k} of {c} after {pos} under {max}");
                    pos += k as u64;
                }
                Err(e) => {
                    ensure!(over && *e.kind() == ErrorKind::InvalidInput, "{:?} on {c} bytes after {pos} under {max}", e.kind());
                    s.label("limit exceeded");
                    s.nontrivial_if(pos > 0);
                    return Ok(());
                }
            }
            if end {
                break;
            }
        }
        ensure!(d.is_idle(), "incomplete at the end");
        match d.finish_decoding() {
            Ok(b) => ensure!(b == data, "got {b:02x?}"),
            Err(e) => fail!("{:?}", e.kind()),
        }
        ensure!(d.consumed_bytes() == 0, "consumed_bytes {} after an item", d.consumed_bytes());
        s.nontrivial_if(changes > 1 && n > 1);
    }
    Ok(())
}
fn c37_max_encoder(s: &mut Src) -> R {
    let mut max = s.amount(20) as u64;
    let mut e = BytesEncoder::<Vec<u8>>::new().max_bytes(max);
    let mut changes = 0;
    for _ in s.turns(1, 5) {
        let n = s.amount(24);
        let data = s.bytes(n);
        ensure!(e.consumed_bytes() == 0, "consumed_bytes {} between items", e.consumed_bytes());
        ensure!(e.start_encoding(data.clone()).is_ok(), "refused");
        let mut out: Vec<u8> = vec![];
        let mut calls = 0;
        while !e.is_idle() {
            calls += 1;
            if calls > 300 {
                fail!("no end");
            }
            let pos = out.len() as u64;
            ensure!(e.consumed_bytes() == pos && MaxBytes::max_bytes(&e) == max, "after {pos} bytes under {max}: consumed_bytes {} max_bytes {}", e.consumed_bytes(), MaxBytes::max_bytes(&e));
            if s.one_in(3) {
                let k = match s.draw(5) {
                    0 => pos,
                    1 => pos.saturating_sub(1),
                    2 => u64::MAX,
                    _ => s.amount(30) as u64,
                };
                if k < pos {
                    refused(e.set_max_bytes(k), ErrorKind::InvalidInput, "a limit below what is used")?;
                    s.label("limit refused");
                } else {
                    if let Err(x) = e.set_max_bytes(k) {
                        fail!("set_max_bytes({k}) after {pos} bytes failed with {:?}", x.kind());
                    }
                    max = k;
                    changes += 1;
                }
                ensure!(e.consumed_bytes() == pos && MaxBytes::max_bytes(&e) == max, "after a change: consumed_bytes {} max_bytes {}", e.consumed_bytes(), MaxBytes::max_bytes(&e));
            }
            let c = if s.big { s.piece(n + 1, 6, calls) } else { s.range(0, 6) };
            let mut buf = vec![0; c];
            let k = c.min(n - out.len());
            match e.encode(&mut buf, Eos::new(false)) {
                Ok(m) => {
                    ensure!(m == k && pos + k as u64 <= max, "wrote {m} of {k} after {pos} under {max}");
                    out.extend_from_slice(&buf[..m]);
                }
                Err(x) => {
                    ensure!(pos + k as u64 > max && *x.kind() == ErrorKind::InvalidInput, "{:?} on {k} bytes after {pos} under {max}", x.kind());
                    s.label("limit exceeded");
                    s.nontrivial_if(pos > 0);
                    return Ok(());
                }
            }
        }
        ensure!(out == data, "wrote {out:02x?}");
        s.nontrivial_if(changes > 1 && n > 1);
    }
    Ok(())
}
fn c37_collectn(s: &mut Src) -> R {
    let mut n = s.amount(6);
    let mut d = U16beDecoder::new().collectn::<Vec<u16>>(n);
    for i in s.turns(1, 6) {
        if i > 0 || s.bool() {
            n = s.amount(6);
            d.set_remaining_items(n);
            s.label_if(i > 0, "count set between items");
        }
        let data = s.bytes(2 * n + 2);
        let want: Vec<u16> = (0..n).map(|k| u16::from_be_bytes([data[2 * k], data[2 * k + 1]])).collect();
        let mut pos = 0;
        let mut calls = 0;
        loop {
            ensure!(d.remaining_items() == n - pos / 2, "{} remaining after {pos} bytes of {n} items", d.remaining_items());
            ensure!(d.is_idle() == (pos == 2 * n), "is_idle {} after {pos} bytes of {n} items", d.is_idle());
            if d.is_idle() {
                break;
            }
            if s.one_in(5) {
                refused(d.finish_decoding(), ErrorKind::IncompleteDecoding, "premature take")?;
            }
            let c = s.piece(data.len() - pos, 5, calls);
            match d.decode(&data[pos..pos + c], Eos::new(false)) {
                Ok(k) => pos += k,
                Err(e) => fail!("{:?}", e.kind()),
            }
            calls += 1;
            ensure!(calls < 300, "no end");
        }
        match d.finish_decoding() {
            Ok(v) => ensure!(v == want, "got {v:x?}, expected {want:x?}"),
            Err(e) => fail!("{:?}", e.kind()),
        }
        s.nontrivial_if(i > 0 && n > 1);
    }
    Ok(())
}
fn c37_omit(s: &mut Src) -> R {
    match s.draw(4) {
        0 => omit_changes(s, U32leDecoder::new(), 4, |b| u32::from_le_bytes([b[0], b[1], b[2], b[3]])),
        1 => omit_changes(s, bytecodec::null::NullDecoder, 0, |_| ()),
        2 => omit_changes(s, bytecodec::null::NullDecoder.map(|()| 5u8), 0, |_| 5),
        _ => omit_changes(s, U8Decoder::new().map(|b| b ^ 3), 1, |b| b[0] ^ 3),
    }
}
fn omit_changes<D: Decode>(s: &mut Src, inner: D, size: usize, read: fn(&[u8]) -> D::Item) -> R
where
    D::Item: PartialEq + std::fmt::Debug,
{
    let mut omit = s.bool();
    let mut d = inner.omit(omit);
    let mut changes = 0;
    for _ in s.turns(1, 8) {
        if s.bool() {
            omit = s.bool();
            d.do_omit(omit);
            changes += 1;
        }
        let need = if omit { 0 } else { size };
        ensure!(d.will_omit() == omit, "will_omit {}, set to {omit}", d.will_omit());
        ensure!(d.is_idle() == (need == 0) && d.requiring_bytes() == Finite(need as u64), "omit {omit}: is_idle {}, needs {:?}", d.is_idle(), d.requiring_bytes());
        let data = s.bytes(6);
        let (k, r) = feed(s, &mut d, &data, false)?;
        let want = if omit { None } else { Some(read(&data)) };
        ensure!(k == need && r == Some(Ok(want)), "omit {omit}: {r:?} after {k} bytes of {data:02x?}");
        s.nontrivial_if(changes > 1);
    }
    Ok(())
}
/// The number of items left to collect is changed between two of them.
fn c37_collectn_during(s: &mut Src) -> R {
    let mut left = s.len(5);
    let mut d = U16beDecoder::new().collectn::<Vec<u16>>(left);
    let mut want: Vec<u16> = vec![];
    let (mut pos, mut changes) = (0, 0);
    for _ in s.turns(4, 40) {
        ensure!(d.remaining_items() == left && d.is_idle() == (left == 0), "{left} items left: remaining_items {}, is_idle {}", d.remaining_items(), d.is_idle());
        match s.draw(6) {
            0 => {
                let r = d.finish_decoding().map_err(|e| *e.kind());
                s.note(|| format!("take -> {r:?}"));
                if left > 0 {
                    ensure!(r == Err(ErrorKind::IncompleteDecoding), "{left} items left: taken {r:?}");
                } else {
                    ensure!(r.as_ref() == Ok(&want), "took {r:x?}, expected {want:x?}");
                    s.nontrivial_if(changes > 0 && want.len() > 1);
                    want.clear();
                    changes = 0;
                }
            }
            1 if pos == 0 => {
                left = s.len(5);
                d.set_remaining_items(left);
                s.note(|| format!("{left} left now"));
                s.label_if(!want.is_empty(), "changed with items collected");
                changes += 1;
            }
            2 if left > 1 || pos == 0 && left > 0 => {
                // in the middle of an item, more or fewer may follow it
                left = s.range(1, 5);
                d.set_remaining_items(left);
                s.note(|| format!("{left} left now"));
                changes += 1;
            }
            _ => {
                let n = s.range(1, 5);
                let b = s.bytes(n);
                let mut k = 0;
                let r = d.decode(&b, Eos::new(false)).map_err(|e| *e.kind());
                s.note(|| format!("decode {b:02x?} -> {r:?}"));
                // the model: one byte after the other
                while k < n && left > 0 {
                    if pos == 0 {
                        want.push(u16::from(b[k]) << 8);
                        pos = 1;
                    } else {
                        if let Some(w) = want.last_mut() {
                            *w |= u16::from(b[k]);
                        }
                        pos = 0;
                        left -= 1;
                    }
                    k += 1;
                }
                ensure!(r == Ok(k), "decode {b:02x?} gave {r:?}, expected {k} bytes");
            }
        }
    }
    Ok(())
}
fn c37_padding(s: &mut Src) -> R {
    let mut want = Some(s.byte());
    let mut d = PaddingDecoder::new(want);
    for i in s.turns(2, 6) {
        if s.bool() {
            want = if s.one_in(4) { None } else { Some(s.byte()) };
            d.set_expected_byte(want);
        }
        ensure!(d.expected_byte() == want, "expected_byte");
        let n = s.len(10);
        let b = if s.one_in(4) { s.byte() } else { want.unwrap_or(9) };
        let data = vec![b; n];
        let ok = n == 0 || want.is_none() || want == Some(b);
        s.nontrivial_if(i > 0 && n > 0);
        match feed(s, &mut d, &data, true)? {
            (_, Some(Ok(()))) => ensure!(ok, "{data:02x?} accepted, {want:?} expected"),
            (_, Some(Err(k))) => {
                ensure!(!ok && k == ErrorKind::InvalidInput, "{data:02x?} refused with {k:?}, {want:?} expected");
                break;
            }
            (_, None) => fail!("incomplete at the end"),
        }
    }
    Ok(())
}
/// A length field read first decides the length of the body that follows, many times on one instance.
/// Parameters of every size are reported, and counted down from, as they were set.
fn c37_any_size(s: &mut Src) -> R {
    let edges = [0, 1, 255, 256, 65_535, 65_536, u64::from(u32::MAX), 1 << 32, 1 << 33, 1 << 40, u64::MAX - 1, u64::MAX];
    let mut pick = |s: &mut Src| if s.bool() { *s.pick(&edges) } else { s.int(64) };
    let first = pick(s);
    let which = s.draw(7);
    let mut n = first;
    let data = s.bytes(9);
    let mut len = RemainingBytesDecoder::new().length(first);
    let mut elen = bytecodec::padding::PaddingEncoder::new().length(first);
    let mut max = RemainingBytesDecoder::new().max_bytes(first);
    let mut emax = bytecodec::padding::PaddingEncoder::new().max_bytes(first);
    let mut count = U8Decoder::new().collectn::<Vec<u8>>(first as usize);
    let mut sl = RemainingBytesDecoder::new().slice();
    let mut esl = bytecodec::padding::PaddingEncoder::new().slice();
    for round in 0..2 {
        if round > 0 || s.bool() {
            n = pick(s);
            match which {
                0 => ensure!(len.set_expected_bytes(n).is_ok(), "length {n} refused"),
                1 => ensure!(elen.set_expected_bytes(n).is_ok(), "length {n} refused"),
                2 => ensure!(max.set_max_bytes(n).is_ok(), "limit {n} refused"),
                3 => ensure!(emax.set_max_bytes(n).is_ok(), "limit {n} refused"),
                4 => count.set_remaining_items(n as usize),
                5 => sl.set_consumable_bytes(n),
                _ => esl.set_consumable_bytes(n),
            }
        } else if which >= 5 {
            n = 0;
        }
        s.note(|| format!("kind {which}, round {round}: {n}"));
        let k = s.below(10).min(n as usize);
        let m = k as u64;
        let mut buf = vec![0u8; k];
        let nx = Eos::new(false);
        match which {
            0 => {
                ensure!(len.expected_bytes() == n && len.remaining_bytes() == n && len.requiring_bytes() == Finite(n), "length {n}: {} of {}, needs {:?}", len.remaining_bytes(), len.expected_bytes(), len.requiring_bytes());
                if m == n {
                    return Ok(());
                }
                let r = len.decode(&data[..k], nx).map_err(|e| *e.kind());
                ensure!(r == Ok(k), "decode of {k} bytes of {n} gave {r:?}");
                ensure!(len.expected_bytes() == n && len.remaining_bytes() == n - m && len.requiring_bytes() == Finite(n - m) && !len.is_idle(), "length {n} after {k}: {} of {}", len.remaining_bytes(), len.expected_bytes());
                if k > 0 {
                    refused(len.set_expected_bytes(pick(s)), ErrorKind::IncompleteDecoding, "length in the middle of an item")?;
                    refused(len.finish_decoding().map(|_| ()), ErrorKind::IncompleteDecoding, "premature take")?;
                    ensure!(len.expected_bytes() == n && len.remaining_bytes() == n - m, "length {n} after refusals: {} of {}", len.remaining_bytes(), len.expected_bytes());
                    s.nontrivial();
                    return Ok(());
                }
            }
            1 => {
                ensure!(elen.expected_bytes() == n && elen.requiring_bytes() == Finite(0) && elen.exact_requiring_bytes() == 0 && elen.is_idle(), "length {n} at rest: {}, needs {:?}", elen.expected_bytes(), elen.requiring_bytes());
                ensure!(elen.start_encoding(7).is_ok(), "refused");
                ensure!(elen.remaining_bytes() == n && elen.exact_requiring_bytes() == n, "length {n}: {} remaining", elen.remaining_bytes());
                if m == n {
                    return Ok(());
                }
                let r = elen.encode(&mut buf, nx).map_err(|e| *e.kind());
                ensure!(r == Ok(k) && elen.remaining_bytes() == n - m && elen.exact_requiring_bytes() == n - m && elen.requiring_bytes() == Finite(n - m), "length {n}: {r:?}, then {} remaining", elen.remaining_bytes());
                s.nontrivial_if(k > 0);
                return Ok(());
            }
            2 => {
                ensure!(MaxBytes::max_bytes(&max) == n && max.consumed_bytes() == 0, "limit {n}: {} of {}", max.consumed_bytes(), MaxBytes::max_bytes(&max));
                let far = n.checked_add(1);
                if let Some(far) = far {
                    refused(max.decode(&[], Eos::with_remaining_bytes(Finite(far))).map(|_| ()), ErrorKind::InvalidInput, "more announced than allowed")?;
                }
                let eos = Eos::with_remaining_bytes(Finite(n - m));
                let r = max.decode(&data[..k], eos).map_err(|e| *e.kind());
                ensure!(r == Ok(k) && max.consumed_bytes() == m && max.is_idle() == (n == m), "limit {n}, {k} bytes and {} to come: {r:?}, then {}", n - m, max.consumed_bytes());
                s.nontrivial_if(k > 0);
                if n > m {
                    if m > 0 {
                        refused(max.set_max_bytes(m - 1), ErrorKind::InvalidInput, "limit below what is used")?;
                    }
                    ensure!(max.set_max_bytes(m).is_ok() && MaxBytes::max_bytes(&max) == m, "limit {m} refused after {k} bytes");
                    ensure!(max.decode(&[], Eos::new(true)).is_ok(), "the end");
                }
                ensure!(max.finish_decoding().is_ok() && max.consumed_bytes() == 0, "take");
            }
            3 => {
                ensure!(MaxBytes::max_bytes(&emax) == n && emax.consumed_bytes() == 0, "limit {n}: {} of {}", emax.consumed_bytes(), MaxBytes::max_bytes(&emax));
                ensure!(emax.start_encoding(7).is_ok(), "refused");
                let r = emax.encode(&mut buf, nx).map_err(|e| *e.kind());
                ensure!(r == Ok(k) && emax.consumed_bytes() == m, "limit {n}, {k} bytes: {r:?}, then {}", emax.consumed_bytes());
                let r = emax.encode(&mut [], Eos::new(true)).map_err(|e| *e.kind());
                ensure!(r == Ok(0) && emax.is_idle() && emax.consumed_bytes() == 0, "the end: {r:?}, then {}", emax.consumed_bytes());
                s.nontrivial_if(k > 0);
            }
            4 => {
                ensure!(count.remaining_items() == n as usize && count.is_idle() == (n == 0), "count {n}: {}", count.remaining_items());
                let r = count.decode(&data[..k], nx).map_err(|e| *e.kind());
                ensure!(r == Ok(k) && count.remaining_items() == n as usize - k && count.is_idle() == (n == m), "count {n}, {k} items: {r:?}, then {}", count.remaining_items());
                count.set_remaining_items(0);
                let r = count.finish_decoding().map_err(|e| *e.kind());
                ensure!(r.as_deref() == Ok(&data[..k]), "items {r:02x?}, expected {:02x?}", &data[..k]);
                s.nontrivial_if(k > 0);
            }
            5 => {
                ensure!(sl.consumable_bytes() == n && sl.is_suspended() == (n == 0), "grant {n}: {}, suspended {}", sl.consumable_bytes(), sl.is_suspended());
                let r = sl.decode(&data[..k], nx).map_err(|e| *e.kind());
                ensure!(r == Ok(k) && sl.consumable_bytes() == n - m && sl.is_suspended() == (n == m), "grant {n}, {k} bytes: {r:?}, then {}", sl.consumable_bytes());
                s.nontrivial_if(k > 0);
            }
            _ => {
                ensure!(esl.consumable_bytes() == n && esl.is_suspended() == (n == 0), "grant {n}: {}, suspended {}", esl.consumable_bytes(), esl.is_suspended());
                if esl.is_idle() {
                    ensure!(esl.start_encoding(7).is_ok(), "refused");
                }
                let r = esl.encode(&mut buf, nx).map_err(|e| *e.kind());
                ensure!(r == Ok(k) && esl.consumable_bytes() == n - m && esl.is_suspended() == (n == m), "grant {n}, {k} bytes: {r:?}, then {}", esl.consumable_bytes());
                s.nontrivial_if(k > 0);
            }
        }
    }
    Ok(())
}
fn c37_two_step(s: &mut Src) -> R {
    let mut head = U8Decoder::new();
    let mut body = RemainingBytesDecoder::new().length(0);
    let mut he = U8Encoder::new();
    let mut be = Utf8Encoder::<String>::new().length(0);
    for i in s.turns(1, 5) {
        let mut t = spec::gen_string(s, 12);
        if t.len() > 255 {
            t = t.chars().take(63).collect();
        }
        ensure!(he.start_encoding(t.len() as u8).is_ok() && be.set_expected_bytes(t.len() as u64).is_ok(), "length refused");
        ensure!(be.start_encoding(t.clone()).is_ok(), "body refused");
        let mut bytes = pump(s, &mut he, 8)?.unwrap_or_default();
        match pump(s, &mut be, t.len() + 8)? {
            Ok(b) => bytes.extend(b),
            Err(k) => fail!("body of {} bytes failed with {k:?}", t.len()),
        }
        let (k, r) = feed(s, &mut head, &bytes, false)?;
        ensure!(k == 1 && r == Some(Ok(t.len() as u8)), "head {r:?}");
        if let Err(e) = body.set_expected_bytes(t.len() as u64) {
            fail!("{:?}", e.kind());
        }
        match feed(s, &mut body, &bytes[1..], false)? {
            (k, Some(Ok(b))) => ensure!(k == t.len() && b == t.as_bytes(), "body {b:02x?} after {k} bytes, expected {t:?}"),
            (_, r) => fail!("body {r:?}"),
        }
        s.nontrivial_if(i > 0 && t.len() > 1);
    }
    Ok(())
}
/// A failure without a kind of its own is `Other`.
fn pin_failure() -> R {
    let f = trackable::error::Failure::from_error("why");
    let e = Error::from(f);
    ensure!(*e.kind() == ErrorKind::Other, "a failure became {:?}", e.kind());
    ensure!(e.to_string().contains("why"), "cause lost: {e}");
    Ok(())
}
fn pin_take() -> R {
    // a refused take leaves the limit's account alone
    let mut d = U16beDecoder::new().max_bytes(2);
    ensure!(matches!(d.decode(&[1], Eos::new(false)), Ok(1)), "first byte");
    refused(d.finish_decoding(), ErrorKind::IncompleteDecoding, "premature take")?;
    ensure!(d.consumed_bytes() == 1, "consumed_bytes {} after a refused take", d.consumed_bytes());
    refused(d.set_max_bytes(0), ErrorKind::InvalidInput, "limit")?;
    let mut e = U24beEncoder::new().max_bytes(3);
    ensure!(e.start_encoding(1).is_ok(), "refused");
    let mut b = [0; 2];
    ensure!(matches!(e.encode(&mut b, Eos::new(false)), Ok(2)) && e.consumed_bytes() == 2, "account");
    let _ = U16beEncoder::new();
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let _ = (kbit(ErrorKind::Other), kname(1), ebit(&mkerr(ErrorKind::Other)));
    vec![
        Prop::new("C32")
            .sub("random", 1_600_000, "two finite, non-zero operands", c32_random)
            .exhaust("triples", NTH * NTH * NTH, "every triple of 21 boundary counts", c32_all)
            .pin("saturate", pin_saturate)
            .pin("back", pin_back)
            .pin("sized-sum", pin_sum_sized)
            .assume("a sum that does not fit is any count at least as large as both operands"),
        Prop::new("C33")
            .sub("decode", 600_000, "more than two calls", c33_decode)
            .large("large-decode", 4000, "more than two calls", c33_decode)
            .long("long-decode", 4000, "more than two calls", c33_decode)
            .large("large-encode", 4000, "more than two calls", c33_encode)
            .long("long-encode", 4000, "more than two calls", c33_encode)
            .sub("tagged", 600_000, "more than two calls", c33_tagged).long("long-tagged", 4000, "more than two calls", c33_tagged)
            .sub("encode", 600_000, "more than two calls", c33_encode),
        Prop::new("C35")
            .sub("decode", 600_000, "a failure under at least one layer", c35_decode)
            .sub("encode", 600_000, "a failure under at least one layer", c35_encode)
            .sub("layers", 600_000, "a failure under at least one error mapping", c35_layers)
            .large("large-decode", 4000, "a failure under at least one layer", c35_decode)
            .long("long-decode", 4000, "a failure under at least one layer", c35_decode)
            .large("large-encode", 4000, "a failure under at least one layer", c35_encode)
            .long("long-encode", 4000, "a failure under at least one layer", c35_encode)
            .sub("busy", 400_000, "an item offered to an encoder that has one", super::encode::c35_busy)
            .sub("io", 240_000, "an I/O error after some bytes", c35_io)
            .pin("failure", pin_failure)
            .exhaust("io-kinds", 4 * IO.len() as u64, "every stable kind, four ways to make the error", c35_io_kinds)
            .exhaust("os-errors", 134, "every OS error number", c35_os),
        Prop::new("C37")
            .sub("length-decoder", 240_000, "two changes and an item of more than one byte", c37_length_decoder)
            .sub("length-encoder", 240_000, "two changes and an item of more than one byte", c37_length_encoder)
            .sub("max-decoder", 240_000, "two changes, or a failure midway", c37_max_decoder)
            .sub("max-encoder", 240_000, "two changes, or a failure midway", c37_max_encoder)
            .large("large-length-decoder", 3000, "two changes and an item of more than one byte", c37_length_decoder)
            .long("long-length-decoder", 9000, "two changes and an item of more than one byte", c37_length_decoder)
            .large("large-length-encoder", 3000, "two changes and an item of more than one byte", c37_length_encoder)
            .long("long-length-encoder", 9000, "two changes and an item of more than one byte", c37_length_encoder)
            .large("large-max-decoder", 3000, "two changes, or a failure midway", c37_max_decoder)
            .long("long-max-decoder", 9000, "two changes, or a failure midway", c37_max_decoder)
            .large("large-max-encoder", 3000, "two changes, or a failure midway", c37_max_encoder)
            .long("long-max-encoder", 9000, "two changes, or a failure midway", c37_max_encoder)
            .large("large-collectn", 2000, "a second item of more than one element", c37_collectn)
            .long("long-collectn", 9000, "a second item of more than one element", c37_collectn)
            .sub("collectn", 160_000, "a second item of more than one element", c37_collectn)
            .sub("collectn-during", 160_000, "a change, then at least two items", c37_collectn_during)
            .sub("omit", 160_000, "two changes", c37_omit).long("long-omit", 9000, "two changes", c37_omit)
            .sub("padding", 160_000, "a second stream with a byte", c37_padding).long("long-padding", 9000, "a second stream with a byte", c37_padding)
            .sub("any-size", 200_000, "at least one byte or item after a size was set", c37_any_size)
            .sub("two-step", 160_000, "a second body of more than one byte", c37_two_step).long("long-two-step", 9000, "a second body of more than one byte", c37_two_step)
            .pin("refused-take", pin_take)
            .assume("a length is changed mid-item only after the item's first byte; other parameters only between items; the number of items left to collect is not set to 0 in the middle of one of them"),
    ]
}
