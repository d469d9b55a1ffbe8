//! Codecs that take or give less than they are offered: combinators around members which stop short of the
//! buffer's end without being done (as a sliced codec does when its share is used up).
use crate::engine::{tick, Prop, Src, R};
use crate::enc::tuple_enc;
use crate::spec::tuple_dec;
use crate::val::{DynDec, DynEnc, Fix, Given, Val, FIXES};
use crate::{ensure, fail};
use bytecodec::io::{IoDecodeExt, IoEncodeExt, ReadBuf, StreamState, WriteBuf};
use bytecodec::{ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos, ErrorKind};

/// Moves at most `q` bytes per call, and none at all in every second call if `lazy`.
struct Gulp<C> {
    c: C,
    q: usize,
    lazy: bool,
    turn: bool,
}
impl<C> Gulp<C> {
    fn room(&mut self, n: usize) -> usize {
        tick();
        self.turn = !self.turn;
        if self.lazy && self.turn { 0 } else { n.min(self.q) }
    }
}
impl<D: Decode> Decode for Gulp<D> {
    type Item = D::Item;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        let n = self.room(buf.len());
        if n == 0 && !buf.is_empty() {
            return Ok(0);
        }
        self.c.decode(&buf[..n], eos.back((buf.len() - n) as u64))
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<D::Item> {
        self.c.finish_decoding()
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.c.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.c.is_idle()
    }
}
impl<E: Encode> Encode for Gulp<E> {
    type Item = E::Item;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        let n = self.room(buf.len());
        if n == 0 && !buf.is_empty() {
            return Ok(0);
        }
        let eos = eos.back((buf.len() - n) as u64);
        self.c.encode(&mut buf[..n], eos)
    }
    fn start_encoding(&mut self, item: E::Item) -> bytecodec::Result<()> {
        self.c.start_encoding(item)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.c.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.c.is_idle()
    }
}

/// Layouts whose width does not depend on the item.
#[derive(Clone, Debug)]
enum G {
    Num(Fix),
    Tup(Vec<G>),
    Many(Box<G>, usize),
    Then(Box<G>, Box<G>),
    Len(Box<G>),
    Max(Box<G>),
    Same(u8, Box<G>),
    Opt(bool, Box<G>),
    Gulp(usize, bool, Box<G>),
}
use G::*;
fn width(g: &G) -> usize {
    match g {
        Num(k) => k.width(),
        Tup(m) => m.iter().map(width).sum(),
        Many(g, n) => n * width(g),
        Then(h, b) => width(h) + width(b),
        Opt(false, _) => 0,
        Opt(_, g) | Len(g) | Max(g) | Same(_, g) | Gulp(_, _, g) => width(g),
    }
}
fn lazy(g: &G) -> bool {
    match g {
        Num(_) => false,
        Tup(m) => m.iter().any(lazy),
        Then(h, b) => lazy(h) || lazy(b),
        Gulp(_, l, g) => *l || lazy(g),
        Opt(_, g) | Len(g) | Max(g) | Same(_, g) | Many(g, _) => lazy(g),
    }
}
fn item(g: &G, s: &mut Src) -> Val {
    match g {
        Num(k) => k.gen(s, false),
        Tup(m) => Val::T(m.iter().map(|g| item(g, s)).collect()),
        Many(g, n) => Val::L((0..*n).map(|_| item(g, s)).collect()),
        Then(h, b) => Val::T(vec![item(h, s), item(b, s)]),
        Opt(y, g) => Val::O(if *y { Some(Box::new(item(g, s))) } else { None }),
        Len(g) | Max(g) | Same(_, g) | Gulp(_, _, g) => item(g, s),
    }
}
fn ser(g: &G, v: &Val) -> Vec<u8> {
    match (g, v) {
        (Num(k), v) => k.ser(v).unwrap(),
        (Tup(m), Val::T(v)) => m.iter().zip(v).flat_map(|(g, v)| ser(g, v)).collect(),
        (Many(g, _), Val::L(v)) => v.iter().flat_map(|v| ser(g, v)).collect(),
        (Then(h, b), Val::T(v)) => [ser(h, &v[0]), ser(b, &v[1])].concat(),
        (Opt(_, _), Val::O(None)) => vec![],
        (Opt(_, g), Val::O(Some(v))) => ser(g, v),
        (Len(g) | Max(g) | Same(_, g) | Gulp(_, _, g), v) => ser(g, v),
        _ => panic!("harness: {v:?} for {g:?}"),
    }
}
fn unlist(v: Val) -> Vec<Val> {
    v.seq()
}
fn dec(g: &G) -> DynDec {
    match g {
        Num(k) => k.dec(),
        Tup(m) => tuple_dec(m.iter().map(dec).collect()),
        Many(g, n) => Box::new(dec(g).collectn::<Vec<_>>(*n).map(Val::L)),
        Then(h, b) => {
            let b = b.clone();
            Box::new(dec(h).and_then(move |v| dec(&b).map(move |w| Val::T(vec![v.clone(), w]))))
        }
        Len(g) => Box::new(dec(g).length(width(g) as u64)),
        Max(g) => Box::new(dec(g).max_bytes(1 << 40)),
        Same(0, g) => Box::new(dec(g).map(|v| v)),
        Same(1, g) => Box::new(dec(g).map_err(bytecodec::Error::from)),
        Same(2, g) => Box::new(dec(g).peekable()),
        Same(3, g) => Box::new(dec(g).maybe_eos()),
        Same(4, g) => Box::new(dec(g).try_map(Ok::<_, bytecodec::Error>)),
        Same(_, g) => {
            let mut d = dec(g).slice();
            d.set_consumable_bytes(u64::MAX);
            Box::new(d)
        }
        Opt(y, g) => {
            let mut d = dec(g).omit(false);
            d.do_omit(!*y);
            Box::new(d.map(|v| Val::O(v.map(Box::new))))
        }
        Gulp(q, l, g) => Box::new(self::Gulp { c: dec(g), q: *q, lazy: *l, turn: false }),
    }
}
fn enc(g: &G) -> DynEnc {
    match g {
        Num(k) => k.enc(),
        Tup(m) => tuple_enc(m.iter().map(enc).collect()),
        Many(g, _) => Box::new(enc(g).repeat().map_from(|v: Val| Given::new(unlist(v), 0))),
        Then(h, b) => tuple_enc(vec![enc(h), enc(b)]),
        Len(g) => Box::new(enc(g).length(width(g) as u64)),
        Max(g) => Box::new(enc(g).max_bytes(width(g) as u64)),
        Same(0 | 2 | 3, g) => Box::new(enc(g).map_from(|v: Val| v)),
        Same(1, g) => Box::new(enc(g).map_err(bytecodec::Error::from)),
        Same(4, g) => Box::new(enc(g).try_map_from(|v: Val| Ok::<_, bytecodec::Error>(v))),
        Same(_, g) => {
            let mut e = enc(g).slice();
            e.set_consumable_bytes(u64::MAX);
            Box::new(e)
        }
        Opt(_, g) => Box::new(enc(g).optional().map_from(|v: Val| match v {
            Val::O(v) => v.map(|v| *v),
            v => panic!("harness: {v:?}"),
        })),
        Gulp(q, l, g) => Box::new(self::Gulp { c: enc(g), q: *q, lazy: *l, turn: false }),
    }
}
/// A layout, with some of its parts taking gulps.
fn gen(s: &mut Src, depth: usize) -> G {
    let g = if depth == 0 {
        Num(*s.pick(FIXES))
    } else {
        match s.draw(9) {
            0 => tuple(s, 2, 8, depth - 1),
            1 => tuple(s, 2, 3, depth - 1),
            2 => many(s, depth - 1),
            3 => Then(Box::new(gen(s, depth - 1)), Box::new(gen(s, depth - 1))),
            4 => Len(Box::new(gen(s, depth - 1))),
            5 => Max(Box::new(gen(s, depth - 1))),
            6 => Opt(s.bool(), Box::new(gen(s, depth - 1))),
            7 => Same(s.below(6) as u8, Box::new(gen(s, depth - 1))),
            _ => Num(*s.pick(FIXES)),
        }
    };
    if s.draw(5) < 3 { gulp(s, g) } else { g }
}
fn gulp(s: &mut Src, g: G) -> G {
    Gulp(s.range(1, 5), s.one_in(3), Box::new(g))
}
fn tuple(s: &mut Src, lo: usize, hi: usize, depth: usize) -> G {
    let n = s.range(lo, hi);
    Tup((0..n).map(|_| gen(s, depth.min(1))).collect())
}
fn many(s: &mut Src, depth: usize) -> G {
    let n = s.range(0, 5);
    Many(Box::new(gen(s, depth)), n)
}

/// `collectn` counts once in its life: what is used for more than one item must do without.
fn reusable(g: &G, again: bool) -> G {
    let go = |g: &G| Box::new(reusable(g, again));
    match g {
        Num(k) => Num(*k),
        Tup(m) => Tup(m.iter().map(|g| reusable(g, again)).collect()),
        Many(g, _) if again => reusable(g, true),
        Many(g, n) => Many(Box::new(reusable(g, true)), *n),
        Then(h, b) => Then(go(h), Box::new(reusable(b, false))),
        Opt(y, g) => Opt(*y, go(g)),
        Len(g) => Len(go(g)),
        Max(g) => Max(go(g)),
        Same(k, g) => Same(*k, go(g)),
        Gulp(q, l, g) => Gulp(*q, *l, go(g)),
    }
}
/// Items one after the other through one decoder, in pieces.
fn decoding(s: &mut Src, g: &G) -> R {
    let n = s.range(1, 3);
    let g = &reusable(g, n > 1);
    let mut d = dec(g);
    let w = width(g);
    let items: Vec<Val> = (0..n).map(|_| item(g, s)).collect();
    let data: Vec<u8> = items.iter().flat_map(|v| ser(g, v)).collect();
    s.note(|| format!("{g:?} items {items:?} bytes {data:02x?}"));
    let finite = s.one_in(3);
    let beyond = if lazy(g) { 1 } else { s.range(0, 1) } as u64;
    let mut pos = 0;
    let mut short = false;
    for (i, v) in items.iter().enumerate() {
        let end = (i + 1) * w;
        let mut calls = 0;
        while !d.is_idle() {
            calls += 1;
            ensure!(calls < 200 + 40 * data.len(), "item {i} never complete, {pos} of {end} bytes consumed; {g:?}");
            if let ByteCount::Finite(n) = d.requiring_bytes() {
                ensure!(n <= (end - pos) as u64, "needs {n} bytes with {} to go; {g:?}", end - pos);
            }
            let c = if calls > 60 { data.len() - pos } else { s.range(0, data.len() - pos) };
            let eos = if finite { Eos::with_remaining_bytes(ByteCount::Finite((data.len() - pos - c) as u64 + beyond)) } else { Eos::new(false) };
            match d.decode(&data[pos..pos + c], eos) {
                Ok(n) => {
                    ensure!(n <= c.min(end - pos), "consumed {n} of {c} bytes, {} belong to item {i}; {g:?}", end - pos);
                    short |= n < c.min(end - pos);
                    pos += n;
                }
                Err(e) => fail!("decode({c} bytes at {pos}, {eos:?}) failed with {:?}; {g:?}", e.kind()),
            }
        }
        ensure!(pos == end, "item {i} complete at {pos} instead of {end}; {g:?}");
        match d.finish_decoding() {
            Ok(x) => ensure!(x == *v, "item {i} is {x:?} instead of {v:?}; {g:?}"),
            Err(e) => fail!("finish_decoding failed with {:?}; {g:?}", e.kind()),
        }
    }
    s.label_if(short, "less consumed than offered");
    s.nontrivial_if(short);
    Ok(())
}
/// Everything `e` has to write, into pieces of the output.
fn writing(s: &mut Src, e: &mut dyn Encode<Item = Val>, want: &[u8], what: &dyn Fn() -> String) -> Result<bool, crate::engine::Fail> {
    let mut pos = 0;
    let mut calls = 0;
    let mut short = false;
    while !e.is_idle() {
        calls += 1;
        let left = want.len() - pos;
        ensure!(calls < 200 + 40 * want.len(), "never done, {pos} of {} bytes written; {}", want.len(), what());
        if let ByteCount::Finite(n) = e.requiring_bytes() {
            ensure!(n == left as u64, "needs {n} bytes with {left} to go; {}", what());
        }
        let c = if calls > 60 { left + 1 } else { s.range(0, left + 2) };
        let mut b = vec![0xA5; c];
        match e.encode(&mut b, Eos::new(false)) {
            Ok(n) => {
                ensure!(n <= c.min(left), "wrote {n} bytes into {c} with {left} to go; {}", what());
                ensure!(b[..n] == want[pos..pos + n], "wrote {:02x?} at {pos} of {want:02x?}; {}", &b[..n], what());
                short |= n < c.min(left);
                pos += n;
            }
            Err(x) => fail!("encode(room {c}) at {pos} failed with {:?}; {}", x.kind(), what()),
        }
    }
    ensure!(pos == want.len(), "idle after {pos} of {} bytes; {}", want.len(), what());
    Ok(short)
}
fn encoding(s: &mut Src, g: &G) -> R {
    let mut e = enc(g);
    let mut short = false;
    for _ in 0..s.range(1, 3) {
        let v = item(g, s);
        let want = ser(g, &v);
        s.note(|| format!("{g:?} item {v:?} bytes {want:02x?}"));
        if let Err(x) = e.start_encoding(v.clone()) {
            fail!("{v:?} refused with {:?}; {g:?}", x.kind());
        }
        short |= writing(s, &mut e, &want, &|| format!("{g:?} {v:?}"))?;
    }
    s.label_if(short, "less written than there was room for");
    s.nontrivial_if(short);
    Ok(())
}
fn encoding_last(s: &mut Src) -> R {
    let g = gen(s, 1);
    let g = gulp(s, g);
    let mut e = enc(&g);
    let mut want = vec![];
    let first = s.bool().then(|| item(&g, s));
    if let Some(v) = &first {
        if let Err(x) = e.start_encoding(v.clone()) {
            fail!("{v:?} refused with {:?}; {g:?}", x.kind());
        }
        want.extend(ser(&g, v));
    }
    let v = item(&g, s);
    want.extend(ser(&g, &v));
    s.note(|| format!("{g:?} first {first:?} last {v:?}"));
    let mut e = e.last(v.clone());
    let mut pos = 0;
    let mut calls = 0;
    let mut short = false;
    while !e.is_idle() {
        calls += 1;
        let left = want.len() - pos;
        ensure!(calls < 200 + 40 * want.len(), "never done, {pos} of {} bytes written; last over {g:?}", want.len());
        let c = if calls > 60 { left + 1 } else { s.range(0, left + 2) };
        let mut b = vec![0xA5; c];
        match e.encode(&mut b, Eos::new(false)) {
            Ok(n) => {
                ensure!(n <= c.min(left), "wrote {n} bytes into {c} with {left} to go; last over {g:?}");
                ensure!(b[..n] == want[pos..pos + n], "wrote {:02x?} at {pos} of {want:02x?}; last over {g:?}", &b[..n]);
                short |= n < c.min(left);
                pos += n;
            }
            Err(x) => fail!("encode(room {c}) at {pos} failed with {:?}; last over {g:?}", x.kind()),
        }
    }
    ensure!(pos == want.len(), "idle after {pos} of {} bytes; last over {g:?}", want.len());
    s.nontrivial_if(short);
    Ok(())
}
/// Everything up to the end of the stream, from a decoder of items that takes gulps.
fn collecting(s: &mut Src) -> R {
    let g = gen(s, 1);
    let g = reusable(&gulp(s, g), true);
    let g = if width(&g) == 0 { gulp(s, Num(Fix::U16be)) } else { g };
    let n = s.range(0, 6);
    let items: Vec<Val> = (0..n).map(|_| item(&g, s)).collect();
    let data: Vec<u8> = items.iter().flat_map(|v| ser(&g, v)).collect();
    s.note(|| format!("collect over {g:?}: {items:?} {data:02x?}"));
    let mut d = dec(&g).collect::<Vec<_>>();
    let mut pos = 0;
    let mut calls = 0;
    let mut short = false;
    while !d.is_idle() {
        calls += 1;
        ensure!(calls < 200 + 40 * data.len(), "never complete, {pos} of {} bytes consumed; collect over {g:?}", data.len());
        let c = if calls > 60 { data.len() - pos } else { s.range(0, data.len() - pos) };
        let eos = Eos::new(pos + c == data.len());
        match d.decode(&data[pos..pos + c], eos) {
            Ok(n) => {
                ensure!(n <= c, "consumed {n} of {c}; collect over {g:?}");
                short |= n < c;
                pos += n;
            }
            Err(e) => fail!("decode({c} bytes at {pos}, {eos:?}) failed with {:?}; collect over {g:?}", e.kind()),
        }
    }
    ensure!(pos == data.len(), "complete after {pos} of {} bytes; collect over {g:?}", data.len());
    match d.finish_decoding() {
        Ok(x) => ensure!(x == items, "{x:?} instead of {items:?}; collect over {g:?}"),
        Err(e) => fail!("finish_decoding failed with {:?}; collect over {g:?}", e.kind()),
    }
    s.nontrivial_if(short);
    Ok(())
}
/// As `decoding`, but the stream ends inside an item: an error, and not before the end is told.
fn cut(s: &mut Src) -> R {
    let all = s.bool();
    let g = unforgiving(&reusable(&gen(s, 2), true));
    let g = gulp(s, if width(&g) < 2 { Num(Fix::U32le) } else { g });
    let w = width(&g);
    let n = s.range(1, 3);
    let items: Vec<Val> = (0..n).map(|_| item(&g, s)).collect();
    let mut data: Vec<u8> = items.iter().flat_map(|v| ser(&g, v)).collect();
    data.truncate((n - 1) * w + s.range(1, w - 1));
    let l = data.len();
    let apart = s.bool();
    s.note(|| format!("{g:?} {} {data:02x?}, end told apart: {apart}", if all { "collected" } else { "one by one" }));
    let mut d: Box<dyn Decode<Item = Val>> = if all { Box::new(dec(&g).collect::<Vec<_>>().map(Val::L)) } else { dec(&g) };
    let mut pos = 0;
    let mut calls = 0;
    let mut done = 0;
    loop {
        calls += 1;
        ensure!(calls < 400 + 80 * l, "the end inside an item never reported; {g:?}");
        let c = if calls > 60 { l - pos } else { s.range(0, l - pos) };
        let eos = Eos::new(pos + c == l && (!apart || c == 0));
        match d.decode(&data[pos..pos + c], eos) {
            Ok(n) => {
                ensure!(n <= c, "consumed {n} of {c}; {g:?}");
                s.label_if(n < c, "less consumed than offered");
                pos += n;
            }
            Err(e) => {
                ensure!(*e.kind() == ErrorKind::UnexpectedEos && eos.is_reached(), "decode({c} bytes at {pos}, {eos:?}) failed with {:?}; {g:?}", e.kind());
                break;
            }
        }
        if d.is_idle() {
            ensure!(!all && done + 1 < n, "complete after {pos} bytes of {data:02x?}; {g:?}");
            match d.finish_decoding() {
                Ok(x) => ensure!(x == items[done], "{x:?} instead of {:?}; {g:?}", items[done]),
                Err(e) => fail!("finish_decoding failed with {:?}; {g:?}", e.kind()),
            }
            done += 1;
        }
    }
    ensure!(all || done == n - 1, "failed after {done} of {n} items; {g:?}");
    s.nontrivial_if(pos > 1);
    Ok(())
}
fn unforgiving(g: &G) -> G {
    let go = |g: &G| Box::new(unforgiving(g));
    match g {
        Num(k) => Num(*k),
        Tup(m) => Tup(m.iter().map(unforgiving).collect()),
        Many(g, n) => Many(go(g), *n),
        Then(h, b) => Then(go(h), go(b)),
        Opt(y, g) => Opt(*y, go(g)),
        Len(g) => Len(go(g)),
        Max(g) => Max(go(g)),
        Same(3, g) => Same(0, go(g)),
        Same(k, g) => Same(*k, go(g)),
        Gulp(q, l, g) => Gulp(*q, *l, go(g)),
    }
}
/// As `encoding`, but the output ends inside the item.
fn cut_output(s: &mut Src) -> R {
    let g = gen(s, 2);
    let g = gulp(s, if width(&g) < 2 { Num(Fix::U32le) } else { g });
    let v = item(&g, s);
    let want = ser(&g, &v);
    let l = s.range(0, want.len() - 1);
    s.note(|| format!("{g:?} item {v:?} bytes {want:02x?}, room for {l}"));
    let mut e = enc(&g);
    if let Err(x) = e.start_encoding(v.clone()) {
        fail!("{v:?} refused with {:?}; {g:?}", x.kind());
    }
    let mut pos = 0;
    let mut calls = 0;
    loop {
        calls += 1;
        ensure!(calls < 400 + 80 * want.len(), "the end of the output never reported; {g:?}");
        let c = if calls > 60 { l - pos } else { s.range(0, l - pos) };
        let eos = Eos::new(pos + c == l);
        let mut b = vec![0xA5; c];
        match e.encode(&mut b, eos) {
            Ok(n) => {
                ensure!(n <= c && b[..n] == want[pos..pos + n], "wrote {:02x?} ({n} of {c}) at {pos} of {want:02x?}; {g:?}", b);
                pos += n;
                ensure!(!e.is_idle(), "idle after {pos} of {} bytes; {g:?}", want.len());
            }
            Err(x) => {
                ensure!(*x.kind() == ErrorKind::UnexpectedEos && eos.is_reached(), "encode(room {c}, {eos:?}) at {pos} failed with {:?}; {g:?}", x.kind());
                break;
            }
        }
    }
    s.nontrivial_if(pos > 0);
    Ok(())
}
/// Gives what is left in pieces of at most `step` bytes.
struct Drip<'a> {
    data: &'a [u8],
    pos: usize,
    step: usize,
}
impl std::io::Read for Drip<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        tick();
        let n = buf.len().min(self.step).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// Blocking decoding: the item and not a byte more, or a failure if the decoder did not take what it asked for.
fn exact(s: &mut Src) -> R {
    let g = gen(s, 2);
    let again = s.bool();
    let g = reusable(&g, again);
    let w = width(&g);
    let mut d = dec(&g);
    let n = if again { 2 } else { 1 };
    let items: Vec<Val> = (0..n).map(|_| item(&g, s)).collect();
    let mut data: Vec<u8> = items.iter().flat_map(|v| ser(&g, v)).collect();
    data.extend(s.bytes(3));
    let mut r = Drip { data: &data, pos: 0, step: s.range(1, 6) };
    for (i, v) in items.iter().enumerate() {
        match d.decode_exact(&mut r) {
            Ok(x) => {
                ensure!(x == *v, "item {i} is {x:?} instead of {v:?}; {g:?}");
                ensure!(r.pos == (i + 1) * w, "item {i} took the reader to {} instead of {}; {g:?}", r.pos, (i + 1) * w);
            }
            Err(e) => {
                ensure!(r.pos <= (i + 1) * w, "{} bytes read for {} of items; {g:?}", r.pos, (i + 1) * w);
                ensure!(has_gulp(&g), "item {i} failed with {:?}; {g:?}", e.kind());
                s.label("failed");
                return Ok(());
            }
        }
    }
    s.nontrivial_if(has_gulp(&g));
    Ok(())
}
fn has_gulp(g: &G) -> bool {
    match g {
        Num(_) => false,
        Tup(m) => m.iter().any(has_gulp),
        Then(h, b) => has_gulp(h) || has_gulp(b),
        Gulp(..) => true,
        Opt(_, g) | Len(g) | Max(g) | Same(_, g) | Many(g, _) => has_gulp(g),
    }
}
/// Whole items at once: everything, or a failure.
fn whole(s: &mut Src) -> R {
    let g = gen(s, 2);
    let v = item(&g, s);
    let want = ser(&g, &v);
    s.note(|| format!("{g:?} item {v:?} bytes {want:02x?}"));
    match s.draw(4) {
        0 => match enc(&g).encode_into_bytes(v.clone()) {
            Ok(b) => ensure!(b == want, "encode_into_bytes gave {b:02x?} instead of {want:02x?}; {g:?} {v:?}"),
            Err(e) => ensure!(has_gulp(&g), "encode_into_bytes failed with {:?}; {g:?} {v:?}", e.kind()),
        },
        1 | 2 => {
            let mut e = enc(&g);
            if let Err(x) = e.start_encoding(v.clone()) {
                fail!("{v:?} refused with {:?}; {g:?}", x.kind());
            }
            let mut pos = 0;
            if s.bool() {
                let mut b = vec![0; s.range(0, want.len())];
                match e.encode(&mut b, Eos::new(false)) {
                    Ok(n) => pos = n,
                    Err(x) => fail!("encode failed with {:?}; {g:?} {v:?}", x.kind()),
                }
            }
            let mut out = vec![];
            let r = e.encode_all(&mut out);
            match r {
                Ok(()) => {
                    ensure!(out == want[pos..] && e.is_idle(), "encode_all gave {out:02x?} instead of {:02x?}, idle {}; {g:?} {v:?}", &want[pos..], e.is_idle());
                    s.nontrivial_if(has_gulp(&g) && want.len() > 1);
                }
                Err(x) => {
                    ensure!(lazy(&g), "encode_all failed with {:?}; {g:?} {v:?}", x.kind());
                    ensure!(want[pos..].starts_with(&out), "encode_all gave {out:02x?}, no prefix of {:02x?}; {g:?} {v:?}", &want[pos..]);
                }
            }
        }
        _ => {
            let g = reusable(&g, false);
            let v = item(&g, s);
            let want = ser(&g, &v);
            match dec(&g).decode_from_bytes(&want) {
                Ok(x) => ensure!(x == v, "decode_from_bytes gave {x:?} instead of {v:?}; {g:?}"),
                Err(e) => ensure!(has_gulp(&g), "decode_from_bytes failed with {:?}; {g:?} {want:02x?}", e.kind()),
            }
        }
    }
    Ok(())
}
/// Through a read buffer, which keeps what the decoder leaves.
fn from_read_buf(s: &mut Src) -> R {
    let n = s.range(1, 3);
    let g = gen(s, 2);
    let g = reusable(&g, n > 1);
    let items: Vec<Val> = (0..n).map(|_| item(&g, s)).collect();
    let data: Vec<u8> = items.iter().flat_map(|v| ser(&g, v)).collect();
    let cap = s.range(1, 9);
    s.note(|| format!("{g:?} items {items:?} through {cap} bytes"));
    let mut r = Drip { data: &data, pos: 0, step: s.range(1, 9) };
    let mut b = ReadBuf::new(vec![0; cap]);
    let mut d = dec(&g);
    let mut short = false;
    for (i, v) in items.iter().enumerate() {
        let mut calls = 0;
        while !d.is_idle() {
            calls += 1;
            ensure!(calls < 400 + 80 * data.len(), "item {i} never complete; {g:?}");
            // the end is only seen once all bytes are there, so keep it from the decoder
            if r.pos < data.len() && (calls > 60 || s.bool()) {
                if let Err(e) = b.fill(&mut r) {
                    fail!("fill failed with {:?}", e.kind());
                }
            }
            *b.stream_state_mut() = StreamState::Normal;
            let was = b.len();
            if let Err(e) = d.decode_from_read_buf(&mut b) {
                fail!("decode_from_read_buf failed with {:?}; {g:?}", e.kind());
            }
            ensure!(b.len() <= was && b.len() + b.room() <= cap, "{} of {was} bytes left, {} free of {cap}; {g:?}", b.len(), b.room());
            short |= b.len() != 0;
        }
        match d.finish_decoding() {
            Ok(x) => ensure!(x == *v, "item {i} is {x:?} instead of {v:?}; {g:?}"),
            Err(e) => fail!("finish_decoding failed with {:?}; {g:?}", e.kind()),
        }
    }
    ensure!(r.pos - b.len() == data.len(), "{} of {} bytes decoded; {g:?}", r.pos - b.len(), data.len());
    s.nontrivial_if(short);
    Ok(())
}
/// Through a write buffer, whose room the encoder need not fill.
fn to_write_buf(s: &mut Src) -> R {
    let g = gen(s, 2);
    let cap = s.range(1, 9);
    let mut e = enc(&g);
    let mut b = WriteBuf::new(vec![0; cap]);
    let mut out: Vec<u8> = vec![];
    let mut want: Vec<u8> = vec![];
    let mut short = false;
    for _ in 0..s.range(1, 3) {
        let v = item(&g, s);
        want.extend(ser(&g, &v));
        s.note(|| format!("{g:?} item {v:?} through {cap} bytes"));
        if let Err(x) = e.start_encoding(v.clone()) {
            fail!("{v:?} refused with {:?}; {g:?}", x.kind());
        }
        let mut calls = 0;
        while !e.is_idle() {
            calls += 1;
            ensure!(calls < 400 + 80 * want.len(), "never done; {g:?}");
            let (was, room) = (b.len(), b.room());
            if let Err(x) = e.encode_to_write_buf(&mut b) {
                fail!("encode_to_write_buf failed with {:?}; {g:?}", x.kind());
            }
            ensure!(b.len() >= was && b.len() - was + b.room() == room, "{was} bytes and {room} free before, {} and {} after; {g:?}", b.len(), b.room());
            short |= b.room() != 0 && !e.is_idle();
            if calls > 60 || s.bool() {
                if let Err(x) = b.flush(&mut out) {
                    fail!("flush failed with {:?}", x.kind());
                }
            }
        }
    }
    if let Err(x) = b.flush(&mut out) {
        fail!("flush failed with {:?}", x.kind());
    }
    ensure!(out == want, "{out:02x?} written instead of {want:02x?}; {g:?}");
    s.nontrivial_if(short);
    Ok(())
}
macro_rules! root {
    ($($d:ident $e:ident $g:expr;)*) => {$(
        #[allow(dead_code)]
        fn $d(s: &mut Src) -> R {
            let f: fn(&mut Src) -> G = $g;
            let g = f(s);
            decoding(s, &g)
        }
        #[allow(dead_code)]
        fn $e(s: &mut Src) -> R {
            let f: fn(&mut Src) -> G = $g;
            let g = f(s);
            encoding(s, &g)
        }
    )*};
}
root! {
    any_dec any_enc |s| gen(s, 3);
    tup_dec tup_enc |s| tuple(s, 2, 8, 1);
    many_dec many_enc |s| many(s, 1);
    len_dec len_enc |s| Len(Box::new(gen(s, 2)));
    max_dec max_enc |s| Max(Box::new(gen(s, 2)));
    map_dec map_enc |s| match s.draw(3) {
        0 => Then(Box::new(gen(s, 1)), Box::new(gen(s, 1))),
        1 => Opt(s.bool(), Box::new(gen(s, 1))),
        _ => Same([0, 4, 0][s.below(3)], Box::new(gen(s, 1))),
    };
}
const RULE: &str = "a call moved fewer bytes than it could have";
pub fn subs(p: Prop) -> Prop {
    const N: u64 = 60_000;
    match p.id {
        "C03" => p.sub("gulps", 2 * N, RULE, any_dec),
        "C04" => p.sub("gulps", 2 * N, RULE, any_enc),
        "C10" => p.sub("gulps", 2 * N, "more than one byte decoded before the end", cut),
        "C11" => p.sub("gulps", 2 * N, "some bytes written before the end", cut_output),
        "C12" => p.sub("gulps", N, RULE, len_dec),
        "C13" => p.sub("gulps", N, RULE, len_enc),
        "C14" => p.sub("gulps", N, RULE, max_dec).sub("gulps-encode", N, RULE, max_enc),
        "C15" => p.sub("gulps", N, RULE, many_dec).sub("gulps-all", N, RULE, collecting).sub("gulps-cut", N, "more than one byte decoded before the end", cut),
        "C16" => p.sub("gulps", N, RULE, map_dec).sub("gulps-encode", N, RULE, map_enc),
        "C20" => p.sub("gulps", N, RULE, many_enc).sub("gulps-last", N, RULE, encoding_last),
        "C24" => p.sub("gulps", N, "members that move less than offered", exact),
        "C25" => p.sub("gulps", N, "members that move less than offered", whole),
        "C26" => p.sub("gulps", N, "bytes left in the buffer", from_read_buf),
        "C27" => p.sub("gulps", N, "room left in the buffer by a busy encoder", to_write_buf),
        "C36" => p.sub("gulps", N, RULE, tup_dec).sub("gulps-encode", N, RULE, tup_enc),
        _ => p,
    }
}
