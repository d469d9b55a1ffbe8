//! Combinators opened and unwrapped in the middle of an item; default-made and item-made codecs.
use crate::engine::{tick, Prop, Src, R};
use crate::spec::mkerr;
use crate::{ensure, fail};
use bytecodec::bincode_codec::{BincodeDecoder, BincodeEncoder};
use bytecodec::bytes::*;
use bytecodec::combinator::*;
use bytecodec::fixnum::*;
use bytecodec::json_codec::{JsonDecoder, JsonEncoder};
use bytecodec::monolithic::*;
use bytecodec::null::{NullDecoder, NullEncoder};
use bytecodec::padding::{PaddingDecoder, PaddingEncoder};
use bytecodec::tuple::{TupleDecoder, TupleEncoder};
use bytecodec::{ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos, Error, ErrorKind, Result, SizedEncode};
use std::fmt::Debug;
use std::io::{Read, Write};

/// A decoder with a name: its item is the name and the given number of bytes.
#[derive(Debug, Clone, PartialEq)]
struct Word {
    name: u8,
    want: usize,
    got: Vec<u8>,
}
impl Default for Word {
    fn default() -> Self {
        Word { name: 1, want: 2, got: vec![] }
    }
}
impl Decode for Word {
    type Item = Vec<u8>;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        tick();
        let n = buf.len().min(self.want - self.got.len());
        self.got.extend(&buf[..n]);
        if self.got.len() < self.want && eos.is_reached() {
            return Err(mkerr(ErrorKind::UnexpectedEos));
        }
        Ok(n)
    }
    fn finish_decoding(&mut self) -> Result<Vec<u8>> {
        if self.got.len() < self.want {
            return Err(mkerr(ErrorKind::IncompleteDecoding));
        }
        let mut v = vec![self.name];
        v.append(&mut self.got);
        Ok(v)
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite((self.want - self.got.len()) as u64)
    }
    fn is_idle(&self) -> bool {
        self.got.len() == self.want
    }
}
/// An encoder with a name, which colours the bytes it writes.
#[derive(Debug, Clone, PartialEq)]
struct Pen {
    name: u8,
    left: Vec<u8>,
}
impl Default for Pen {
    fn default() -> Self {
        Pen { name: 1, left: vec![] }
    }
}
impl Encode for Pen {
    type Item = Vec<u8>;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        tick();
        let n = buf.len().min(self.left.len());
        for (b, x) in buf.iter_mut().zip(self.left.drain(..n)) {
            *b = x ^ self.name;
        }
        if !self.left.is_empty() && eos.is_reached() {
            return Err(mkerr(ErrorKind::UnexpectedEos));
        }
        Ok(n)
    }
    fn start_encoding(&mut self, item: Vec<u8>) -> Result<()> {
        if !self.left.is_empty() {
            return Err(mkerr(ErrorKind::EncoderFull));
        }
        if item.first() == Some(&0xEE) {
            return Err(mkerr(ErrorKind::InvalidInput));
        }
        self.left = item;
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(self.left.len() as u64)
    }
    fn is_idle(&self) -> bool {
        self.left.is_empty()
    }
}
impl SizedEncode for Pen {
    fn exact_requiring_bytes(&self) -> u64 {
        self.left.len() as u64
    }
}
fn kind<T>(r: Result<T>) -> std::result::Result<T, ErrorKind> {
    r.map_err(|e| *e.kind())
}
fn ascii(s: &mut Src, n: usize) -> Vec<u8> {
    (0..n).map(|_| b'a' + s.below(26) as u8).collect()
}

/// `$c` holds a `Word` of `$n` bytes as its `inner`; `$get` turns its item into the Word's.
macro_rules! open_dec {
    ($s:expr, $what:literal, $word:expr, $c:expr, $direct:expr, $get:expr) => {{
        let word: Word = $word;
        let (n, name) = (word.want, word.name);
        let mut c = $c;
        let data = ascii($s, n);
        let k = $s.below(n);
        let new = 64 + $s.below(40) as u8;
        $s.note(|| format!("{} of a {n}-byte word, opened after {k} bytes", $what));
        $s.label($what);
        if k > 0 || $s.bool() {
            let r = kind(c.decode(&data[..k], Eos::new(false)));
            ensure!(r == Ok(k), "{}: {k} of {n} bytes: {r:?}", $what);
        }
        let mut w = Word { name, want: n, got: data[..k].to_vec() };
        ensure!(*c.inner_ref() == w, "{}: inner_ref shows {:?}, expected {w:?}", $what, c.inner_ref());
        ensure!(*c.inner_mut() == w, "{}: inner_mut shows {:?}, expected {w:?}", $what, c.inner_mut());
        if $s.bool() {
            c.inner_mut().name = new;
            w.name = new;
            ensure!(*c.inner_ref() == w, "{}: inner_ref shows {:?} after a change, expected {w:?}", $what, c.inner_ref());
        }
        $s.nontrivial_if(k > 0);
        let mut item = vec![w.name];
        item.extend(&data);
        match $s.draw(3) {
            0 => {
                let mut i = c.into_inner();
                ensure!(i == w, "{}: unwrapped {i:?}, expected {w:?}", $what);
                let r = kind(i.decode(&data[k..], Eos::new(false)));
                ensure!(r == Ok(n - k), "{}: unwrapped and fed: {r:?}", $what);
                let r = kind(i.finish_decoding());
                ensure!(r.as_ref() == Ok(&item), "{}: unwrapped and finished: {r:?}, expected {item:?}", $what);
            }
            1 if $direct => {
                let r = kind(c.inner_mut().decode(&data[k..], Eos::new(false)));
                ensure!(r == Ok(n - k), "{}: fed through inner_mut: {r:?}", $what);
                ensure!(c.is_idle(), "{}: not idle though its decoder is complete", $what);
                let r = kind(c.finish_decoding()).map($get);
                ensure!(r.as_ref() == Ok(&item), "{}: fed through inner_mut: {r:?}, expected {item:?}", $what);
            }
            _ => {
                let r = kind(c.decode(&data[k..], Eos::new(true)));
                ensure!(r == Ok(n - k) && c.is_idle(), "{}: after the opening: {r:?}, idle {}", $what, c.is_idle());
                let r = kind(c.finish_decoding()).map($get);
                ensure!(r.as_ref() == Ok(&item), "{}: after the opening: {r:?}, expected {item:?}", $what);
                let i = c.into_inner();
                w.got.clear();
                ensure!(i == w, "{}: unwrapped after an item: {i:?}, expected {w:?}", $what);
            }
        }
        Ok(())
    }};
}
fn c40_decoders(s: &mut Src) -> R {
    let n = s.range(1, 8);
    let word = Word { name: 40 + s.below(20) as u8, want: n, got: vec![] };
    let w = word.clone();
    let id = |v: Vec<u8>| v;
    match s.draw(13) {
        0 => open_dec!(s, "map", word, w.map(|v| (v, 1u8)), true, |x| x.0),
        1 => open_dec!(s, "try_map", word, w.try_map(Ok::<_, Error>), true, id),
        2 => open_dec!(s, "map_err", word, w.map_err(|e: Error| e), true, id),
        3 => open_dec!(s, "omit", word, w.omit(false), true, |x: Option<Vec<u8>>| x.unwrap_or_default()),
        4 => open_dec!(s, "collect", word, w.collect::<Vec<_>>(), false, |x: Vec<Vec<u8>>| x.concat()),
        5 => open_dec!(s, "collectn", word, w.collectn::<Vec<_>>(1), false, |x: Vec<Vec<u8>>| x.concat()),
        6 => open_dec!(s, "length", word, w.length(n as u64), false, id),
        7 => open_dec!(s, "max_bytes", word, w.max_bytes(n as u64 + 2), true, id),
        8 => {
            let mut c = w.slice();
            c.set_consumable_bytes(100);
            open_dec!(s, "slice", word, c, true, id)
        }
        9 => open_dec!(s, "peekable", word, w.peekable(), false, id),
        10 => open_dec!(s, "maybe_eos", word, w.maybe_eos(), true, id),
        11 => open_dec!(s, "utf8", word, Utf8Decoder::with_bytes_decoder(w), true, String::into_bytes),
        _ => {
            // two members
            let second = Word { name: 99, want: s.range(1, 5), got: vec![] };
            let data = ascii(s, n + second.want);
            let k = s.range(0, data.len() - 1);
            let mut t = TupleDecoder::new((w, second.clone()));
            let r = kind(t.decode(&data[..k], Eos::new(false)));
            ensure!(r == Ok(k), "tuple: {r:?}");
            let a = Word { got: data[..k.min(n)].to_vec(), ..word };
            let mut b = Word { got: data[k.min(n)..k].to_vec(), ..second };
            ensure!(*t.inner_ref() == (a.clone(), b.clone()), "tuple: inner_ref shows {:?}, expected {a:?} {b:?}", t.inner_ref());
            t.inner_mut().1.name = 7;
            b.name = 7;
            s.nontrivial_if(k > 0);
            if s.bool() {
                ensure!(t.into_inner() == (a, b), "tuple: unwrapped wrongly");
            } else {
                let r = kind(t.decode(&data[k..], Eos::new(true)));
                ensure!(r == Ok(data.len() - k), "tuple: {r:?}");
                let r = kind(t.finish_decoding());
                let want = ([&[a.name], &data[..n]].concat(), [&[7], &data[n..]].concat());
                ensure!(r.as_ref() == Ok(&want), "tuple: {r:?}, expected {want:?}");
            }
            Ok(())
        }
    }
}
/// A decoder already at work, or already holding its item, is put in and goes on.
macro_rules! put_dec {
    ($s:expr, $what:literal, $word:expr, $data:expr, $c:expr, $get:expr) => {{
        let mut w: Word = $word;
        let mut c = $c;
        let (n, k) = (w.want, w.got.len());
        $s.note(|| format!("{}: put around a {n}-byte word after {k} bytes", $what));
        $s.label($what);
        ensure!(*c.inner_ref() == w && *c.inner_mut() == w, "{}: inner_ref shows {:?}, put in {w:?}", $what, c.inner_ref());
        $s.nontrivial_if(k > 0);
        if k == n && $s.bool() {
            ensure!(c.is_idle(), "{}: the decoder put in holds an item, not idle", $what);
        } else {
            if $s.one_in(4) {
                let r = kind(c.decode(&[], Eos::new(false)));
                ensure!(r == Ok(0), "{}: {r:?} from no bytes", $what);
                w.got.truncate(k);
                ensure!(*c.inner_ref() == w, "{}: inner_ref shows {:?}, expected {w:?}", $what, c.inner_ref());
            }
            let r = kind(c.decode(&$data[k..], Eos::new(k < n && $s.bool())));
            ensure!(r == Ok(n - k) && c.is_idle(), "{}: put in after {k} of {n} bytes: {r:?}, idle {}", $what, c.is_idle());
        }
        let mut item = vec![w.name];
        item.extend(&$data);
        let r = kind(c.finish_decoding()).map($get);
        ensure!(r.as_ref() == Ok(&item), "{}: put in after {k} of {n} bytes: {r:?}, expected {item:?}", $what);
        w.got.clear();
        let i = c.into_inner();
        ensure!(i == w, "{}: unwrapped {i:?}, expected {w:?}", $what);
        Ok(())
    }};
}
fn c40_put_decoders(s: &mut Src) -> R {
    let n = s.range(1, 8);
    let data = ascii(s, n);
    let k = s.range(0, n);
    let word = Word { name: 40 + s.below(20) as u8, want: n, got: data[..k].to_vec() };
    let w = word.clone();
    let id = |v: Vec<u8>| v;
    match s.draw(12) {
        0 => put_dec!(s, "map", word, data, w.map(|v| (v, 1u8)), |x| x.0),
        1 => put_dec!(s, "try_map", word, data, w.try_map(Ok::<_, Error>), id),
        2 => put_dec!(s, "map_err", word, data, w.map_err(|e: Error| e), id),
        3 => put_dec!(s, "omit", word, data, w.omit(false), |x: Option<Vec<u8>>| x.unwrap_or_default()),
        4 => put_dec!(s, "collectn", word, data, CollectOne(w.collectn::<Vec<_>>(1)), |x: Vec<Vec<u8>>| x.concat()),
        5 => put_dec!(s, "max_bytes", word, data, w.max_bytes(n as u64 + 2), id),
        6 => {
            let mut c = w.slice();
            c.set_consumable_bytes(100);
            put_dec!(s, "slice", word, data, c, id)
        }
        7 => put_dec!(s, "maybe_eos", word, data, w.maybe_eos(), id),
        8 => put_dec!(s, "utf8", word, data, Utf8Decoder::with_bytes_decoder(w), String::into_bytes),
        9 if k < n => put_dec!(s, "length", word, data, w.length((n - k) as u64), id),
        9 | 10 => {
            // the bytes decoders of this crate
            let mut b = BytesDecoder::new(vec![0; n]);
            ensure!(kind(b.decode(&data[..k], Eos::new(false))) == Ok(k), "refused");
            let mut d = Utf8Decoder::with_bytes_decoder(b);
            ensure!(d.is_idle() == (k == n) && d.requiring_bytes() == ByteCount::Finite((n - k) as u64), "utf8: {k} of {n} bytes when put in: idle {}, needs {:?}", d.is_idle(), d.requiring_bytes());
            ensure!(kind(d.decode(&data[k..], Eos::new(false))) == Ok(n - k), "utf8: refused");
            let r = kind(d.finish_decoding()).map(String::into_bytes);
            ensure!(r.as_ref() == Ok(&data), "utf8: put in after {k} of {n} bytes: {r:?}, expected {data:?}");
            let mut b = RemainingBytesDecoder::new();
            ensure!(kind(b.decode(&data[..k], Eos::new(k == n))) == Ok(k), "refused");
            let mut d = Utf8Decoder::with_bytes_decoder(b);
            ensure!(d.is_idle() == (k == n), "utf8: idle {} when put in after {k} of {n} bytes", d.is_idle());
            if k < n {
                ensure!(kind(d.decode(&data[k..], Eos::new(true))) == Ok(n - k), "utf8: refused");
            }
            let r = kind(d.finish_decoding()).map(String::into_bytes);
            ensure!(r.as_ref() == Ok(&data), "utf8: put in after {k} of {n} bytes: {r:?}, expected {data:?}");
            s.nontrivial_if(k > 0);
            Ok(())
        }
        _ => {
            // members of a tuple, each with its own progress, and the first part of a branch
            let more = ascii(s, n);
            let j = s.range(0, n);
            let second = Word { name: 99, want: n, got: more[..j].to_vec() };
            let mut feed = data[k..].to_vec();
            feed.extend(&more[j..]);
            let want = ([&[word.name], &data[..]].concat(), [&[99], &more[..]].concat());
            s.nontrivial_if(k > 0 && j > 0);
            s.note(|| format!("{k} and {j} of {n} bytes done when put in"));
            if s.bool() {
                let mut t = w.chain(second);
                let r = kind(t.decode(&feed, Eos::new(false)));
                ensure!(r == Ok(feed.len()) && t.is_idle(), "chain: {r:?}, idle {}", t.is_idle());
                let r = kind(t.finish_decoding());
                ensure!(r.as_ref() == Ok(&want), "chain: {r:?}, expected {want:?}");
            } else {
                let mut t = w.and_then(move |v| second.clone().map(move |x| (v.clone(), x)));
                let r = kind(t.decode(&feed, Eos::new(false)));
                ensure!(r == Ok(feed.len()) && t.is_idle(), "and_then: {r:?}, idle {}", t.is_idle());
                let r = kind(t.finish_decoding());
                ensure!(r.as_ref() == Ok(&want), "and_then: {r:?}, expected {want:?}");
            }
            Ok(())
        }
    }
}
/// `collectn(1)` counts the item done only once it has been asked to decode.
struct CollectOne(CollectN<Word, Vec<Vec<u8>>>);
impl CollectOne {
    fn inner_ref(&self) -> &Word {
        self.0.inner_ref()
    }
    fn inner_mut(&mut self) -> &mut Word {
        self.0.inner_mut()
    }
    fn into_inner(self) -> Word {
        self.0.into_inner()
    }
    fn is_idle(&mut self) -> bool {
        let _ = self.0.decode(&[], Eos::new(false));
        self.0.is_idle()
    }
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        self.0.decode(buf, eos)
    }
    fn finish_decoding(&mut self) -> Result<Vec<Vec<u8>>> {
        self.0.finish_decoding()
    }
}
/// An encoder in the middle of an item is put in and goes on.
macro_rules! put_enc {
    ($s:expr, $what:literal, $pen:expr, $c:expr, $wrap:expr) => {{
        let mut p: Pen = $pen;
        let mut c = $c;
        $s.note(|| format!("{}: put around an encoder with {} bytes to write", $what, p.left.len()));
        $s.label($what);
        ensure!(*c.inner_ref() == p && *c.inner_mut() == p, "{}: inner_ref shows {:?}, put in {p:?}", $what, c.inner_ref());
        ensure!(c.is_idle() == p.left.is_empty(), "{}: idle {} around {p:?}", $what, c.is_idle());
        let mut want: Vec<u8> = p.left.iter().map(|b| b ^ p.name).collect();
        if !p.left.is_empty() && $s.bool() {
            let r = kind(c.start_encoding($wrap(vec![1, 2, 3])));
            ensure!(r == Err(ErrorKind::EncoderFull), "{}: an item offered while the encoder put in is busy: {r:?}", $what);
            ensure!(*c.inner_ref() == p, "{}: inner_ref shows {:?}, expected {p:?}", $what, c.inner_ref());
        }
        $s.nontrivial_if(p.left.len() > 1);
        let mut out = vec![0; $s.range(0, p.left.len())];
        let m = out.len();
        let r = kind(c.encode(&mut out, Eos::new(false)));
        ensure!(r == Ok(m), "{}: {r:?} in room {m}", $what);
        out.extend(drain(&mut c));
        ensure!(c.is_idle(), "{}: not idle at the end", $what);
        let r = kind(c.start_encoding($wrap(vec![1, 2, 3])));
        ensure!(r == Ok(()), "{}: item refused: {r:?}", $what);
        want.extend([1, 2, 3].iter().map(|b| b ^ p.name));
        out.extend(drain(&mut c));
        ensure!(out == want, "{}: wrote {out:02x?}, expected {want:02x?}", $what);
        p.left.clear();
        let i = c.into_inner();
        ensure!(i == p, "{}: unwrapped {i:?}, expected {p:?}", $what);
        Ok(())
    }};
}
fn c40_put_encoders(s: &mut Src) -> R {
    let n = s.range(0, 9);
    let pen = Pen { name: 32 + s.below(16) as u8, left: ascii(s, n) };
    let p = pen.clone();
    let id = |v: Vec<u8>| v;
    match s.draw(8) {
        0 => put_enc!(s, "map_from", pen, p.map_from(|v: (Vec<u8>, u8)| v.0), |v| (v, 1u8)),
        1 => put_enc!(s, "try_map_from", pen, p.try_map_from(|v: Vec<u8>| Ok::<_, Error>(v)), id),
        2 => put_enc!(s, "map_err", pen, p.map_err(|e: Error| e), id),
        3 => put_enc!(s, "optional", pen, p.optional(), Some),
        4 | 5 => put_enc!(s, "max_bytes", pen, p.max_bytes(100), id),
        6 => {
            let mut c = p.slice();
            c.set_consumable_bytes(100);
            put_enc!(s, "slice", pen, c, id)
        }
        _ => {
            let m = s.range(0, 9);
            let q = Pen { name: 9, left: ascii(s, m) };
            let mut c = TupleEncoder::new((p, q.clone()));
            ensure!(*c.inner_ref() == (pen.clone(), q.clone()), "tuple: shows {:?}", c.inner_ref());
            ensure!(c.is_idle() == (n + m == 0) && c.exact_requiring_bytes() == (n + m) as u64, "tuple: idle {}, needs {}; {n} and {m} bytes", c.is_idle(), c.exact_requiring_bytes());
            if n + m > 0 {
                let r = kind(c.start_encoding((vec![1], vec![2])));
                ensure!(r == Err(ErrorKind::EncoderFull), "tuple: an item offered while the encoders put in are busy: {r:?}");
            }
            let o = drain(&mut c);
            let want: Vec<u8> = pen.left.iter().map(|b| b ^ pen.name).chain(q.left.iter().map(|b| b ^ 9)).collect();
            ensure!(o == want, "tuple: wrote {o:02x?}, expected {want:02x?}");
            s.nontrivial_if(n > 0 && m > 0);
            Ok(())
        }
    }
}
fn drain<E: Encode>(e: &mut E) -> Vec<u8> {
    let mut out = vec![];
    let mut b = [0; 64];
    for _ in 0..50 {
        if let Ok(n) = e.encode(&mut b, Eos::new(false)) {
            out.extend(&b[..n]);
        }
        if e.is_idle() {
            return out;
        }
    }
    let mut b = vec![0; 5000];
    for i in 0..90 {
        if i == 50 {
            b = vec![0; 1 << 20];
        }
        match e.encode(&mut b, Eos::new(false)) {
            Ok(0) | Err(_) => break,
            Ok(n) => out.extend(&b[..n]),
        }
        if e.is_idle() {
            break;
        }
    }
    out
}
macro_rules! open_enc {
    ($s:expr, $what:literal, $pen:expr, $c:expr, $wrap:expr) => {{
        let mut c = $c;
        let mut p: Pen = $pen;
        let n = $s.range(1, 9);
        let item = ascii($s, n);
        let k = $s.below(n);
        $s.note(|| format!("{}: item of {n} bytes, opened after {k}", $what));
        $s.label($what);
        ensure!(*c.inner_ref() == p, "{}: fresh inner_ref shows {:?}, expected {p:?}", $what, c.inner_ref());
        if $s.one_in(4) {
            c.inner_mut().name = 3;
            p.name = 3;
        }
        let r = kind(c.start_encoding($wrap(item.clone())));
        ensure!(r == Ok(()), "{}: item refused: {r:?}", $what);
        let mut out = vec![0; k];
        let r = kind(c.encode(&mut out, Eos::new(false)));
        ensure!(r == Ok(k), "{}: {k} of {n} bytes: {r:?}", $what);
        let mut want: Vec<u8> = item[..k].iter().map(|b| b ^ p.name).collect();
        p.left = item[k..].to_vec();
        ensure!(*c.inner_ref() == p, "{}: inner_ref shows {:?}, expected {p:?}", $what, c.inner_ref());
        ensure!(*c.inner_mut() == p, "{}: inner_mut shows {:?}, expected {p:?}", $what, c.inner_mut());
        if $s.bool() {
            c.inner_mut().name = 5;
            p.name = 5;
        }
        want.extend(item[k..].iter().map(|b| b ^ p.name));
        $s.nontrivial_if(k > 0);
        if $s.bool() {
            let mut i = c.into_inner();
            ensure!(i == p, "{}: unwrapped {i:?}, expected {p:?}", $what);
            out.extend(drain(&mut i));
        } else {
            out.extend(drain(&mut c));
            ensure!(c.is_idle(), "{}: not idle at the end", $what);
            let i = c.into_inner();
            p.left.clear();
            ensure!(i == p, "{}: unwrapped after an item: {i:?}, expected {p:?}", $what);
        }
        ensure!(out == want, "{}: wrote {out:02x?}, expected {want:02x?}", $what);
        Ok(())
    }};
}
fn c40_encoders(s: &mut Src) -> R {
    let pen = Pen { name: 32 + s.below(16) as u8, left: vec![] };
    let p = pen.clone();
    let id = |v: Vec<u8>| v;
    match s.draw(11) {
        0 => open_enc!(s, "map_from", pen, p.map_from(|v: (Vec<u8>, u8)| v.0), |v| (v, 1u8)),
        1 => open_enc!(s, "try_map_from", pen, p.try_map_from(|v: Vec<u8>| Ok::<_, Error>(v)), id),
        2 => open_enc!(s, "map_err", pen, p.map_err(|e: Error| e), id),
        3 => open_enc!(s, "optional", pen, p.optional(), Some),
        4 => open_enc!(s, "repeat", pen, p.repeat(), |v| std::iter::once(v)),
        5 => open_enc!(s, "max_bytes", pen, p.max_bytes(100), id),
        6 => {
            let mut c = p.slice();
            c.set_consumable_bytes(100);
            open_enc!(s, "slice", pen, c, id)
        }
        7 => {
            // bounded to the item's length
            let n = s.range(1, 9);
            let item = ascii(s, n);
            let k = s.below(n);
            let mut c = p.length(n as u64);
            ensure!(c.start_encoding(item.clone()).is_ok(), "refused");
            let mut out = vec![0; k];
            ensure!(kind(c.encode(&mut out, Eos::new(false))) == Ok(k), "length: {k} of {n} bytes");
            let want = Pen { left: item[k..].to_vec(), ..pen };
            ensure!(*c.inner_ref() == want && *c.inner_mut() == want, "length: shows {:?}, expected {want:?}", c.inner_ref());
            c.inner_mut().name = 2;
            s.nontrivial_if(k > 0);
            if s.bool() {
                let i = c.into_inner();
                ensure!(i == Pen { name: 2, ..want.clone() }, "length: unwrapped {i:?}, expected {want:?}");
            } else {
                let rest: Vec<u8> = item[k..].iter().map(|b| b ^ 2).collect();
                let o = drain(&mut c);
                ensure!(o == rest, "length: wrote {o:02x?}, expected {rest:02x?}");
            }
            Ok(())
        }
        8 => {
            // encoded when the item is given: later changes concern later items
            let n = s.range(1, 9);
            let item = ascii(s, n);
            let mut c = p.pre_encode();
            ensure!(*c.inner_ref() == pen, "pre_encode: shows {:?}", c.inner_ref());
            ensure!(c.start_encoding(item.clone()).is_ok(), "refused");
            ensure!(*c.inner_ref() == pen, "pre_encode: shows {:?} after an item", c.inner_ref());
            c.inner_mut().name = 2;
            let o = drain(&mut c);
            let want: Vec<u8> = item.iter().map(|b| b ^ pen.name).collect();
            ensure!(o == want, "pre_encode: wrote {o:02x?}, expected {want:02x?}");
            ensure!(c.start_encoding(item.clone()).is_ok(), "refused");
            let o = drain(&mut c);
            let want: Vec<u8> = item.iter().map(|b| b ^ 2).collect();
            ensure!(o == want, "pre_encode: wrote {o:02x?} after a change, expected {want:02x?}");
            let i = c.into_inner();
            ensure!(i == Pen { name: 2, left: vec![] }, "pre_encode: unwrapped {i:?}");
            s.nontrivial();
            Ok(())
        }
        9 => {
            // one more item
            let n = s.range(1, 9);
            let item = ascii(s, n);
            let k = s.below(n);
            let mut c = p.last(item.clone());
            ensure!(*c.inner_ref() == pen && *c.inner_mut() == pen, "last: shows {:?}", c.inner_ref());
            let mut out = vec![0; k];
            ensure!(kind(c.encode(&mut out, Eos::new(false))) == Ok(k), "last: {k} of {n} bytes");
            if k > 0 {
                let want = Pen { left: item[k..].to_vec(), ..pen };
                ensure!(*c.inner_ref() == want, "last: shows {:?}, expected {want:?}", c.inner_ref());
                c.inner_mut().name = 2;
                let i = c.into_inner();
                ensure!(i == Pen { name: 2, ..want.clone() }, "last: unwrapped {i:?}, expected {want:?}");
                s.nontrivial();
            }
            Ok(())
        }
        _ => {
            let q = Pen { name: 9, left: vec![] };
            let mut c = TupleEncoder::new((p, q.clone()));
            let (n, m) = (s.range(1, 6), s.range(1, 6));
            let (x, y) = (ascii(s, n), ascii(s, m));
            ensure!(c.start_encoding((x.clone(), y.clone())).is_ok(), "refused");
            let k = s.range(0, n + m - 1);
            let mut out = vec![0; k];
            ensure!(kind(c.encode(&mut out, Eos::new(false))) == Ok(k), "tuple: {k} of {} bytes", n + m);
            let a = Pen { left: x[k.min(n)..].to_vec(), ..pen };
            let b = Pen { left: y[k.saturating_sub(n)..].to_vec(), ..q };
            ensure!(*c.inner_ref() == (a.clone(), b.clone()), "tuple: shows {:?}, expected {a:?} {b:?}", c.inner_ref());
            c.inner_mut().1.name = 10;
            let i = c.into_inner();
            ensure!(i == (a, Pen { name: 10, ..b }), "tuple: unwrapped {i:?}");
            s.nontrivial_if(k > 0);
            Ok(())
        }
    }
}

/// A whole-item codec with a name.
#[derive(Debug, Clone, PartialEq)]
struct Whole(u8);
impl Default for Whole {
    fn default() -> Self {
        Whole(11)
    }
}
impl MonolithicDecode for Whole {
    type Item = (u8, Vec<u8>);
    fn monolithic_decode<R2: Read>(&self, mut r: R2) -> Result<Self::Item> {
        tick();
        let mut v = vec![];
        r.read_to_end(&mut v)?;
        Ok((self.0, v))
    }
}
impl MonolithicEncode for Whole {
    type Item = Vec<u8>;
    fn monolithic_encode<W: Write>(&self, item: &Vec<u8>, mut w: W) -> Result<()> {
        tick();
        w.write_all(&[self.0])?;
        Ok(w.write_all(item)?)
    }
}
fn c40_whole(s: &mut Src) -> R {
    let name = s.byte();
    let n = s.amount(9);
    let data = s.bytes(n);
    let k = s.range(0, n);
    let mut d = MonolithicDecoder::new(Whole(name));
    ensure!(kind(d.decode(&data[..k], Eos::new(false))) == Ok(k), "refused");
    ensure!(*d.inner_ref() == Whole(name) && *d.inner_mut() == Whole(name), "shows {:?}", d.inner_ref());
    let new = if s.bool() { name.wrapping_add(1) } else { name };
    d.inner_mut().0 = new;
    ensure!(kind(d.decode(&data[k..], Eos::new(true))) == Ok(n - k), "refused");
    let r = kind(d.finish_decoding());
    ensure!(r == Ok((new, data.clone())), "{r:?} from {data:02x?} with codec {new}");
    ensure!(d.into_inner() == Whole(new), "unwrapped wrongly");
    let mut e = MonolithicEncoder::new(Whole(name));
    ensure!(*e.inner_ref() == Whole(name) && *e.inner_mut() == Whole(name), "shows {:?}", e.inner_ref());
    e.inner_mut().0 = new;
    ensure!(e.start_encoding(data.clone()).is_ok(), "refused");
    let o = drain(&mut e);
    ensure!(o[0] == new && o[1..] == data, "{o:02x?} from {data:02x?} with codec {new}");
    ensure!(e.into_inner() == Whole(new), "unwrapped wrongly");
    s.nontrivial_if(n > 1);
    Ok(())
}

/// The bytes of a copyable decoder, shown and changed part-way.
fn c40_copyable(s: &mut Src) -> R {
    const N: usize = 7;
    let mut d = CopyableBytesDecoder::new([0xEEu8; N]);
    for item in 0..s.rounds(1, 4) {
        let mut want = *d.inner_ref();
        let mut at = 0;
        let mut calls = 0;
        while at < N {
            calls += 1;
            let k = if calls > 20 { N - at } else { s.range(0, N - at) };
            let b = s.bytes(k);
            ensure!(kind(d.decode(&b, Eos::new(false))) == Ok(k), "refused {k} bytes with {at} of {N} there");
            want[at..at + k].copy_from_slice(&b);
            at += k;
            ensure!(d.inner_ref()[..at] == want[..at], "{at} bytes decoded: shows {:02x?}, expected {:02x?}", d.inner_ref(), &want[..at]);
            if s.one_in(3) {
                let i = s.below(N);
                d.inner_mut()[i] ^= 0x5A;
                want[i] ^= 0x5A;
                s.label("changed part-way");
            }
            want[at..].copy_from_slice(&d.inner_ref()[at..]);
        }
        s.nontrivial_if(calls > 1);
        s.note(|| format!("item {item}: {want:02x?} in {calls} calls"));
        if s.one_in(4) {
            ensure!(d.into_inner() == want, "unwrapped to other bytes than {want:02x?}");
            return Ok(());
        }
        let r = kind(d.finish_decoding());
        ensure!(r == Ok(want), "{r:?}, expected {want:02x?}");
    }
    Ok(())
}

/// Two decoders do the same on the same calls.
fn same_dec<A, B>(s: &mut Src, what: &'static str, mut a: A, mut b: B) -> R
where
    A: Decode,
    B: Decode<Item = A::Item>,
    A::Item: Debug,
{
    s.label(what);
    let mut moved = 0;
    for _ in s.turns(1, 10) {
        let (x, y) = match s.draw(5) {
            0 => (format!("take {:?}", kind(a.finish_decoding())), format!("take {:?}", kind(b.finish_decoding()))),
            1 => (format!("idle {:?}", a.is_idle()), format!("idle {:?}", b.is_idle())),
            2 => (format!("need {:?}", a.requiring_bytes()), format!("need {:?}", b.requiring_bytes())),
            _ => {
                let n = s.len(10);
                let d = ascii(s, n);
                let eos = if s.bool() { Eos::new(s.one_in(3)) } else { Eos::with_remaining_bytes(ByteCount::Finite(s.draw(4))) };
                let r = kind(a.decode(&d, eos));
                moved += *r.as_ref().unwrap_or(&0);
                let failed = r.is_err();
                let p = (format!("decode {d:02x?} {eos:?} {r:?}"), format!("decode {d:02x?} {eos:?} {:?}", kind(b.decode(&d, eos))));
                if failed {
                    ensure!(p.0 == p.1, "{what}: {} by default, {} when constructed", p.0, p.1);
                    return Ok(());
                }
                p
            }
        };
        s.note(|| x.clone());
        ensure!(x == y, "{what}: {x} by default, {y} when constructed");
    }
    s.nontrivial_if(moved > 1);
    Ok(())
}
fn same_enc<A, B>(s: &mut Src, what: &'static str, mut a: A, mut b: B, item: impl Fn(&mut Src) -> A::Item) -> R
where
    A: Encode,
    B: Encode<Item = A::Item>,
    A::Item: Clone,
{
    s.label(what);
    let mut moved = 0;
    for _ in s.turns(1, 10) {
        let (x, y) = match s.draw(6) {
            0 | 1 => {
                let i = item(s);
                (format!("start {:?}", kind(a.start_encoding(i.clone()))), format!("start {:?}", kind(b.start_encoding(i))))
            }
            2 => (format!("idle {:?}", a.is_idle()), format!("idle {:?}", b.is_idle())),
            3 => (format!("need {:?}", a.requiring_bytes()), format!("need {:?}", b.requiring_bytes())),
            _ => {
                let n = s.len(10);
                let (mut o, mut p) = (vec![0; n], vec![0; n]);
                let eos = Eos::new(s.one_in(4));
                let (r, q) = (kind(a.encode(&mut o, eos)), kind(b.encode(&mut p, eos)));
                moved += *r.as_ref().unwrap_or(&0);
                let failed = r.is_err();
                let p = (format!("encode {n} {eos:?} {r:?} {o:02x?}"), format!("encode {n} {eos:?} {q:?} {p:02x?}"));
                if failed {
                    ensure!(r == q, "{what}: {} by default, {} when constructed", p.0, p.1);
                    return Ok(());
                }
                p
            }
        };
        s.note(|| x.clone());
        ensure!(x == y, "{what}: {x} by default, {y} when constructed");
    }
    s.nontrivial_if(moved > 1);
    Ok(())
}
macro_rules! pick_dec {
    ($s:expr; $($a:ty = $b:expr),* $(,)?) => {{
        let fs: &[fn(&mut Src) -> R] = &[$(|s| same_dec(s, stringify!($a), <$a>::default(), $b)),*];
        let f = *$s.pick(fs);
        f($s)
    }};
}
macro_rules! pick_enc {
    ($s:expr; $($a:ty = $b:expr, $i:expr);* $(;)?) => {{
        let fs: &[fn(&mut Src) -> R] = &[$(|s| same_enc(s, stringify!($a), <$a>::default(), $b, $i)),*];
        let f = *$s.pick(fs);
        f($s)
    }};
}
fn c40_default_decoders(s: &mut Src) -> R {
    pick_dec!(s;
        U8Decoder = U8Decoder::new(), I8Decoder = I8Decoder::new(),
        U16beDecoder = U16beDecoder::new(), U16leDecoder = U16leDecoder::new(), I16beDecoder = I16beDecoder::new(), I16leDecoder = I16leDecoder::new(),
        U24beDecoder = U24beDecoder::new(), U24leDecoder = U24leDecoder::new(),
        U32beDecoder = U32beDecoder::new(), U32leDecoder = U32leDecoder::new(), I32beDecoder = I32beDecoder::new(), I32leDecoder = I32leDecoder::new(),
        U40beDecoder = U40beDecoder::new(), U40leDecoder = U40leDecoder::new(), U48beDecoder = U48beDecoder::new(), U48leDecoder = U48leDecoder::new(),
        U56beDecoder = U56beDecoder::new(), U56leDecoder = U56leDecoder::new(),
        U64beDecoder = U64beDecoder::new(), U64leDecoder = U64leDecoder::new(), I64beDecoder = I64beDecoder::new(), I64leDecoder = I64leDecoder::new(),
        F32beDecoder = F32beDecoder::new(), F32leDecoder = F32leDecoder::new(), F64beDecoder = F64beDecoder::new(), F64leDecoder = F64leDecoder::new(),
        RemainingBytesDecoder = RemainingBytesDecoder::new(), Utf8Decoder = Utf8Decoder::new(),
        Utf8Decoder<Word> = Utf8Decoder::with_bytes_decoder(Word::default()),
        CopyableBytesDecoder<[u8; 3]> = CopyableBytesDecoder::new([0; 3]),
        PaddingDecoder = PaddingDecoder::new(None), NullDecoder = NullDecoder,
        Omittable<Word> = Word::default().omit(false),
        Collect<Word, Vec<Vec<u8>>> = Word::default().collect::<Vec<_>>(),
        CollectN<Word, Vec<Vec<u8>>> = Word::default().collectn::<Vec<_>>(0),
        Length<Word> = Word::default().length(0), MaxBytes<Word> = Word::default().max_bytes(0),
        Slice<Word> = Word::default().slice(), Peekable<Word> = Word::default().peekable(), MaybeEos<Word> = Word::default().maybe_eos(),
        TupleDecoder<(Word, U8Decoder)> = Word::default().chain(U8Decoder::new()),
        TupleDecoder<(Word, U8Decoder, U16beDecoder)> = TupleDecoder::new((Word::default(), U8Decoder::new(), U16beDecoder::new())),
        MonolithicDecoder<Whole> = MonolithicDecoder::new(Whole::default()),
        Peekable<NullDecoder> = NullDecoder.peekable(), Omittable<NullDecoder> = NullDecoder.omit(false), MaybeEos<NullDecoder> = NullDecoder.maybe_eos(),
        CollectN<NullDecoder, Vec<()>> = NullDecoder.collectn::<Vec<_>>(0),
        Length<NullDecoder> = NullDecoder.length(0), MaxBytes<NullDecoder> = NullDecoder.max_bytes(0), Slice<NullDecoder> = NullDecoder.slice(),
        Peekable<Full> = Full::default().peekable(), Omittable<Full> = Full::default().omit(false), MaybeEos<Full> = Full::default().maybe_eos(),
        CollectN<Full, Vec<Vec<u8>>> = Full::default().collectn::<Vec<_>>(0), MaxBytes<Full> = Full::default().max_bytes(0),
        Slice<Full> = Full::default().slice(), TupleDecoder<(Full, U8Decoder)> = Full::default().chain(U8Decoder::new()),
        JsonDecoder<u32> = JsonDecoder::new(), BincodeDecoder<u16> = BincodeDecoder::new(),
    )
}
/// A `Word` that holds an item from the start.
#[derive(Debug, Clone, PartialEq)]
struct Full(Word);
impl Default for Full {
    fn default() -> Self {
        Full(Word { name: 2, want: 2, got: vec![b'x', b'y'] })
    }
}
impl Decode for Full {
    type Item = Vec<u8>;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        self.0.decode(buf, eos)
    }
    fn finish_decoding(&mut self) -> Result<Vec<u8>> {
        self.0.finish_decoding()
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
/// A default `Peekable` shows what a constructed one shows.
fn c40_default_peek(s: &mut Src) -> R {
    fn go<D>(s: &mut Src) -> R
    where
        D: Decode + Default,
        D::Item: Debug,
    {
        let (mut a, mut b) = (Peekable::<D>::default(), D::default().peekable());
        for _ in 0..s.range(1, 6) {
            let (x, y) = match s.draw(4) {
                0 => (format!("take {:?}", kind(a.finish_decoding())), format!("take {:?}", kind(b.finish_decoding()))),
                1 => {
                    let n = s.len(4);
                    let d = ascii(s, n);
                    (format!("decode {n} {:?}", kind(a.decode(&d, Eos::new(false)))), format!("decode {n} {:?}", kind(b.decode(&d, Eos::new(false)))))
                }
                _ => (format!("peek {:?}, idle {}", a.peek(), a.is_idle()), format!("peek {:?}, idle {}", b.peek(), b.is_idle())),
            };
            s.note(|| x.clone());
            s.nontrivial_if(x.contains("Some"));
            ensure!(x == y, "{x} by default, {y} when constructed");
        }
        Ok(())
    }
    match s.draw(4) {
        0 => go::<NullDecoder>(s),
        1 => go::<Full>(s),
        2 => go::<Word>(s),
        _ => go::<U16beDecoder>(s),
    }
}
fn some_bytes(s: &mut Src) -> Vec<u8> {
    let n = s.amount(9);
    s.bytes(n)
}
fn c40_default_encoders(s: &mut Src) -> R {
    pick_enc!(s;
        U8Encoder = U8Encoder::new(), |s| s.byte(); I8Encoder = I8Encoder::new(), |s| s.byte() as i8;
        U16beEncoder = U16beEncoder::new(), |s| s.int(16) as u16; U16leEncoder = U16leEncoder::new(), |s| s.int(16) as u16;
        I16beEncoder = I16beEncoder::new(), |s| s.int(16) as i16; I16leEncoder = I16leEncoder::new(), |s| s.int(16) as i16;
        U24beEncoder = U24beEncoder::new(), |s| s.int(32) as u32; U24leEncoder = U24leEncoder::new(), |s| s.int(32) as u32;
        U32beEncoder = U32beEncoder::new(), |s| s.int(32) as u32; U32leEncoder = U32leEncoder::new(), |s| s.int(32) as u32;
        I32beEncoder = I32beEncoder::new(), |s| s.int(32) as i32; I32leEncoder = I32leEncoder::new(), |s| s.int(32) as i32;
        U40beEncoder = U40beEncoder::new(), |s| s.int(64); U40leEncoder = U40leEncoder::new(), |s| s.int(64);
        U48beEncoder = U48beEncoder::new(), |s| s.int(64); U48leEncoder = U48leEncoder::new(), |s| s.int(64);
        U56beEncoder = U56beEncoder::new(), |s| s.int(64); U56leEncoder = U56leEncoder::new(), |s| s.int(64);
        U64beEncoder = U64beEncoder::new(), |s| s.int(64); U64leEncoder = U64leEncoder::new(), |s| s.int(64);
        I64beEncoder = I64beEncoder::new(), |s| s.int(64) as i64; I64leEncoder = I64leEncoder::new(), |s| s.int(64) as i64;
        F32beEncoder = F32beEncoder::new(), |s| f32::from_bits(s.int(32) as u32); F32leEncoder = F32leEncoder::new(), |s| f32::from_bits(s.int(32) as u32);
        F64beEncoder = F64beEncoder::new(), |s| f64::from_bits(s.int(64)); F64leEncoder = F64leEncoder::new(), |s| f64::from_bits(s.int(64));
        BytesEncoder<Vec<u8>> = BytesEncoder::new(), some_bytes;
        Utf8Encoder<String> = Utf8Encoder::new(), |s| s.int(64).to_string();
        PaddingEncoder = PaddingEncoder::new(), |s| s.byte(); NullEncoder = NullEncoder, |_| ();
        Optional<Pen> = Pen::default().optional(), |s| if s.bool() { Some(some_bytes(s)) } else { None };
        Repeat<Pen, std::vec::IntoIter<Vec<u8>>> = Pen::default().repeat(), |s| (0..s.len(3)).map(|_| some_bytes(s)).collect::<Vec<_>>().into_iter();
        Length<Pen> = Pen::default().length(0), some_bytes; MaxBytes<Pen> = Pen::default().max_bytes(0), some_bytes;
        PreEncode<Pen> = Pen::default().pre_encode(), some_bytes; Slice<Pen> = Pen::default().slice(), some_bytes;
        TupleEncoder<(Pen, U8Encoder)> = Pen::default().chain(U8Encoder::new()), |s| (some_bytes(s), s.byte());
        TupleEncoder<(Pen, U8Encoder, Pen)> = TupleEncoder::new((Pen::default(), U8Encoder::new(), Pen::default())), |s| (some_bytes(s), s.byte(), some_bytes(s));
        MonolithicEncoder<Whole> = MonolithicEncoder::new(Whole::default()), some_bytes;
        JsonEncoder<u32> = JsonEncoder::new(), |s| s.int(32) as u32; BincodeEncoder<u16> = BincodeEncoder::new(), |s| s.int(16) as u16;
    )
}
/// `with_item` is the default encoder given the item.
fn given<E: Encode + Default>(s: &mut Src, what: &'static str, item: E::Item) -> R
where
    E::Item: Clone,
{
    s.label(what);
    let mut b = E::default();
    let want = kind(b.start_encoding(item.clone()));
    match (E::with_item(item), want) {
        (Err(e), Err(k)) => ensure!(*e.kind() == k, "{what}: with_item fails with {:?}, start_encoding with {k:?}", e.kind()),
        (Ok(mut a), Ok(())) => {
            ensure!(a.is_idle() == b.is_idle() && a.requiring_bytes() == b.requiring_bytes(), "{what}: with_item: idle {} needs {:?}, given the item: idle {} needs {:?}", a.is_idle(), a.requiring_bytes(), b.is_idle(), b.requiring_bytes());
            let (x, y) = (drain(&mut a), drain(&mut b));
            ensure!(x == y && a.is_idle() == b.is_idle(), "{what}: with_item wrote {x:02x?}, given the item {y:02x?}");
            s.nontrivial_if(x.len() > 1);
        }
        (r, w) => fail!("{what}: with_item gave {:?}, start_encoding {w:?}", r.map(|_| ()).map_err(|e| *e.kind())),
    }
    Ok(())
}
fn c40_with_item(s: &mut Src) -> R {
    match s.draw(14) {
        0 => { let i = some_bytes(s); given::<Pen>(s, "user encoder", i) }
        1 => { let i = s.int(64); given::<U48leEncoder>(s, "U48le", i) }
        2 => { let i = s.int(32) as u32; given::<U24beEncoder>(s, "U24be", i) }
        3 => { let i = s.int(16) as i16; given::<I16leEncoder>(s, "I16le", i) }
        4 => { let i = some_bytes(s); given::<BytesEncoder<Vec<u8>>>(s, "BytesEncoder", i) }
        5 => { let i = s.int(64).to_string(); given::<Utf8Encoder>(s, "Utf8Encoder", i) }
        6 => { let i = if s.bool() { Some(some_bytes(s)) } else { None }; given::<Optional<Pen>>(s, "optional", i) }
        7 => { let i: Vec<_> = (0..s.len(4)).map(|_| some_bytes(s)).collect(); given::<Repeat<Pen, _>>(s, "repeat", i.into_iter()) }
        8 => { let i = some_bytes(s); given::<PreEncode<Pen>>(s, "pre_encode", i) }
        9 => { let i = (some_bytes(s), s.int(16) as u16); given::<TupleEncoder<(Pen, U16beEncoder)>>(s, "tuple", i) }
        10 => { let i = some_bytes(s); given::<MonolithicEncoder<Whole>>(s, "whole-item", i) }
        11 => { let i = s.int(32) as u32; given::<JsonEncoder<u32>>(s, "json", i) }
        12 => { let i = s.int(32) as u32; given::<BincodeEncoder<u32>>(s, "bincode", i) }
        _ => {
            // a default Last has no item
            let mut l = Last::<Pen>::default();
            ensure!(l.is_idle() && l.requiring_bytes() == ByteCount::Finite(0) && drain(&mut l).is_empty(), "a default Last is not empty");
            given::<NullEncoder>(s, "null", ())
        }
    }
}
pub fn props() -> Vec<Prop> {
    vec![Prop::new("C40")
        .sub("decoders", 300_000, "opened after at least one byte", c40_decoders)
        .sub("encoders", 300_000, "opened after at least one byte", c40_encoders)
        .sub("put-decoders", 300_000, "at least one byte decoded before", c40_put_decoders)
        .sub("put-encoders", 200_000, "at least two bytes to write", c40_put_encoders)
        .sub("whole-item", 60_000, "an item of at least two bytes", c40_whole)
        .sub("copyable", 60_000, "an item in more than one call", c40_copyable).long("long-copyable", 5000, "an item in more than one call", c40_copyable)
        .sub("default-decoders", 300_000, "at least two bytes decoded", c40_default_decoders).long("long-default-decoders", 9000, "at least two bytes decoded", c40_default_decoders)
        .sub("default-peek", 60_000, "an item is shown", c40_default_peek)
        .sub("default-encoders", 300_000, "at least two bytes encoded", c40_default_encoders)
        .large("large-whole-item", 3000, "an item of at least two bytes", c40_whole)
        .large("large-default-encoders", 4000, "at least two bytes encoded", c40_default_encoders)
        .long("long-default-encoders", 9000, "at least two bytes encoded", c40_default_encoders)
        .large("large-with-item", 4000, "an item of at least two bytes", c40_with_item)
        .sub("with-item", 100_000, "an item of at least two bytes", c40_with_item)]
}
