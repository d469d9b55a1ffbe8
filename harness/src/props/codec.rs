//! Round trips of whole compositions, and the leaf codecs: bytes, UTF-8, padding, null, whole-item codecs, owned slices.
use crate::enc;
use crate::engine::{tick, Fail, Prop, Src, R};
use crate::spec::{self, gen_json, gen_string, mkerr, mutate, Ctx, Out, Tot, KINDS};
use crate::val::Val;
use crate::{ensure, fail};
use bytecodec::bincode_codec::{BincodeDecoder, BincodeEncoder};
use bytecodec::bytes::{BytesDecoder, BytesEncoder, CopyableBytesDecoder, RemainingBytesDecoder, Utf8Decoder, Utf8Encoder};
use bytecodec::json_codec::{JsonDecoder, JsonEncoder};
use bytecodec::monolithic::{MonolithicDecode, MonolithicDecoder, MonolithicEncode, MonolithicEncoder};
use bytecodec::null::{NullDecoder, NullEncoder};
use bytecodec::padding::{PaddingDecoder, PaddingEncoder};
use bytecodec::slice::OwnedSlice;
use bytecodec::{ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos, ErrorKind, SizedEncode};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::io::{Read, Write};
use std::rc::Rc;

/// An end-of-stream value saying that at least one byte follows.
pub fn more(s: &mut Src) -> Eos {
    match s.draw(4) {
        0 => Eos::with_remaining_bytes(ByteCount::Infinite),
        1 => Eos::with_remaining_bytes(ByteCount::Finite(1 + s.len(60) as u64)),
        _ => Eos::new(false),
    }
}
fn room(s: &mut Src, zeros: &mut u32) -> usize {
    let c = if s.big && !s.one_in(12) {
        match s.draw(8) {
            0 if *zeros < 2 => 0,
            1 => s.range(1, 40),
            2 => *s.pick(&[255usize, 256, 257, 1023, 1024, 1025]),
            3 => s.range(1000, 10_000),
            4 => *s.pick(&[4096usize, 8191, 8192, 8193, 65535, 65536, 65537]),
            _ => 300_000,
        }
    } else {
    match s.draw(8) {
        0 if *zeros < 2 => 0,
        0 | 1 | 2 => 1,
        3 => 2,
        4 => s.range(1, 6),
        5 => s.range(1, 20),
        _ => 64,
    } };
    *zeros = if c == 0 { *zeros + 1 } else { 0 };
    c
}
/// Everything `e` writes, through random buffers, until it is idle; nothing around the buffers may be touched.
pub fn pump<E: Encode + ?Sized>(s: &mut Src, e: &mut E, limit: usize) -> Result<Result<Vec<u8>, ErrorKind>, Fail> {
    let mut out: Vec<u8> = vec![];
    let mut zeros = 0;
    let mut calls = 0;
    while !e.is_idle() {
        calls += 1;
        ensure!(calls < 3000 + 20 * limit && out.len() <= limit, "the encoder never becomes idle ({calls} calls, {} bytes)", out.len());
        let c = room(s, &mut zeros);
        let mut buf = vec![0xA5u8; c + 4];
        let eos = more(s);
        match e.encode(&mut buf[2..2 + c], eos) {
            Err(x) => return Ok(Err(*x.kind())),
            Ok(n) => {
                ensure!(n <= c, "encode reports {n} bytes in room for {c}");
                out.extend_from_slice(&buf[2..2 + n]);
            }
        }
    }
    s.label_if(calls > 1, "several buffers");
    Ok(Ok(out))
}
/// Feeds `data` (then, if `closed`, the end of the stream) until one item is complete; returns it and the number of bytes used.
/// `None`: still incomplete when everything was fed.
pub fn feed<D: Decode + ?Sized>(s: &mut Src, d: &mut D, data: &[u8], closed: bool) -> Result<(usize, Option<Result<D::Item, ErrorKind>>), Fail> {
    let mut pos = 0;
    let mut zeros = 0;
    let known = s.one_in(4);
    let mut calls = 0;
    loop {
        let rest = data.len() - pos;
        let c = room(s, &mut zeros).min(rest);
        let last = c == rest;
        let end = closed && last && (c == 0 || s.bool());
        let eos = if end {
            Eos::new(true)
        } else if known && closed && !last {
            Eos::with_remaining_bytes(ByteCount::Finite((rest - c) as u64))
        } else {
            Eos::new(false)
        };
        calls += 1;
        ensure!(calls < 3000 + 20 * data.len(), "no end after {calls} decode calls");
        let n = match d.decode(&data[pos..pos + c], eos) {
            Err(e) => return Ok((pos, Some(Err(*e.kind())))),
            Ok(n) => n,
        };
        ensure!(n <= c, "decode consumed {n} of {c} bytes");
        pos += n;
        s.label_if(calls > 1, "several chunks");
        if d.is_idle() {
            return Ok((pos, Some(d.finish_decoding().map_err(|e| *e.kind()))));
        }
        if end || last && !closed && (c > 0 || data.is_empty() || calls > 2) && pos == data.len() {
            return Ok((pos, None));
        }
    }
}

// ---- C05 ----
/// A decoder with its counterpart, some items, and their encodings by the reference serializer.
fn pair(s: &mut Src, depth: usize) -> Option<(spec::S, enc::E, Vec<(Val, usize)>)> {
    for _ in 0..6 {
        let reuse = !s.one_in(5);
        let d = spec::gen(s, depth, Ctx::top(reuse));
        let Some(e) = enc::counterpart(&d) else { continue };
        let e = Rc::new(e);
        let mut items = vec![];
        let n = if spec::reusable(&d) { s.rounds(1, 6) } else { 1 };
        for _ in 0..n + 3 {
            s.refill();
            let b = spec::sample(&d, s, s.size);
            let Out::Done { val: Ok(v), .. } = spec::parse(&d, &b, true, Tot::Unknown) else { continue };
            let enc::Ser::Run { bytes, end: enc::SerEnd::Done } = enc::ser(&e, &v) else { continue };
            // the pair must match on this item (limits and tags can differ from what was sampled)
            match spec::parse(&d, &bytes, spec::eats_all(&d), Tot::Unknown) {
                Out::Done { val: Ok(w), used } if w == v && used == bytes.len() => items.push((v, bytes.len())),
                _ => continue,
            }
            if items.len() == n || items.iter().map(|i| i.1).sum::<usize>() > if s.long > 0 { 20_000 } else { s.bulk() } {
                break;
            }
        }
        if !items.is_empty() {
            return Some((d, e, items));
        }
    }
    None
}
fn c05(s: &mut Src, depth: usize) -> R {
    let Some((d, e, items)) = pair(s, depth) else { return Ok(()) };
    s.note(|| format!("decoder {d:?}\nencoder {e:?}\nitems {items:?}"));
    let mut en = enc::Enc::new(&e, s);
    let mut de = spec::build(&d);
    let eater = spec::eats_all(&d);
    let total: usize = items.iter().map(|i| i.1).sum();
    s.nontrivial_if(items.len() > 1 && total > 2 && spec::nodes(&d) > 1);
    if eater {
        s.label("items to the end of their stream");
        for (i, (v, len)) in items.iter().enumerate() {
            if let Err(x) = en.get().start_encoding(v.clone()) {
                fail!("item {i} refused with {:?}; {e:?} {v:?}", x.kind());
            }
            let b = match pump(s, en.get(), len + 64)? {
                Ok(b) => b,
                Err(k) => fail!("encoding item {i} failed with {k:?}; {e:?} {v:?}"),
            };
            match feed(s, &mut de, &b, true)? {
                (n, Some(Ok(w))) => {
                    ensure!(n == b.len(), "{} bytes left over after item {i}; {d:?}", b.len() - n);
                    ensure!(w == *v, "item {i}: encoded {v:?}, decoded {w:?}; {d:?} bytes {b:02x?}");
                }
                (_, r) => fail!("item {i} {v:?} does not come back: {r:?}; {d:?} bytes {b:02x?}"),
            }
        }
        return Ok(());
    }
    // one pipe: the encoder writes while the decoder reads
    let mut pipe: Vec<u8> = vec![];
    let mut produced = 0;
    let mut next_in = 0;
    let mut next_out = 0;
    let mut zeros = 0;
    let mut rounds = 0;
    let all_first = s.one_in(4);
    while next_out < items.len() {
        rounds += 1;
        ensure!(rounds < 5000 + 40 * (total + items.len()), "the pipe is stuck after {next_out} of {} items; {d:?}", items.len());
        let may_write = next_in < items.len() || !en.get().is_idle();
        if may_write && (all_first || pipe.is_empty() || s.bool()) {
            if en.get().is_idle() {
                if let Err(x) = en.get().start_encoding(items[next_in].0.clone()) {
                    fail!("item {next_in} refused with {:?}; {e:?} {:?}", x.kind(), items[next_in].0);
                }
                next_in += 1;
            }
            if !en.get().is_idle() {
                let c = room(s, &mut zeros);
                let mut buf = vec![0u8; c];
                match en.get().encode(&mut buf, more(s)) {
                    Ok(n) => {
                        ensure!(n <= c, "encode reports {n} bytes in room for {c}; {e:?}");
                        pipe.extend_from_slice(&buf[..n]);
                        produced += n;
                    }
                    Err(x) => fail!("encoding item {} failed with {:?}; {e:?} {:?}", next_in - 1, x.kind(), items[next_in - 1].0),
                }
                ensure!(produced <= total, "the encoder wrote {produced} bytes for items of {total}; {e:?}");
            }
            if all_first {
                continue;
            }
        }
        let most = if s.big && s.draw(4) > 0 { usize::MAX } else if s.bool() { 2 } else { 80 };
        let c = s.range(0, pipe.len().min(most));
        let end = next_in == items.len() && c == pipe.len() && en.get().is_idle();
        let eos = if end && s.bool() { Eos::new(true) } else { Eos::new(false) };
        match de.decode(&pipe[..c], eos) {
            Ok(n) => {
                ensure!(n <= c, "decode consumed {n} of {c} bytes; {d:?}");
                pipe.drain(..n);
            }
            Err(x) => fail!("decoding item {next_out} failed with {:?}; {d:?} {:?}", x.kind(), items[next_out].0),
        }
        if de.is_idle() {
            ensure!(next_out < next_in || items[next_out].1 == 0, "item {next_out} decoded before it was encoded; {d:?}");
            match de.finish_decoding() {
                Ok(w) => ensure!(w == items[next_out].0, "item {next_out}: encoded {:?}, decoded {w:?}; {d:?}", items[next_out].0),
                Err(x) => fail!("item {next_out} refused with {:?}; {d:?} {:?}", x.kind(), items[next_out].0),
            }
            next_out += 1;
        }
    }
    while next_in < items.len() || !en.get().is_idle() {
        // items of no bytes may have been decoded before they were encoded
        if en.get().is_idle() {
            ensure!(items[next_in].1 == 0 && en.get().start_encoding(items[next_in].0.clone()).is_ok(), "item {next_in} refused; {e:?}");
            next_in += 1;
        }
        match pump(s, en.get(), 64)? {
            Ok(b) => ensure!(b.is_empty(), "left over: {b:02x?}; {e:?}"),
            Err(k) => fail!("encoding failed with {k:?}; {e:?}"),
        }
    }
    ensure!(pipe.is_empty() && produced == total, "{} bytes left over after all items, {produced} of {total} written; {d:?}", pipe.len());
    s.label_if(items.len() > 1, "several items back to back");
    Ok(())
}
fn c05_any(s: &mut Src) -> R {
    let depth = s.range(0, 3);
    c05(s, depth)
}
fn c05_deep(s: &mut Src) -> R {
    c05(s, 4)
}

// ---- C21 ----
fn c21_encoder(s: &mut Src) -> R {
    let mut e = PaddingEncoder::new();
    ensure!(e.is_idle() && e.requiring_bytes() == ByteCount::Finite(0), "fresh padding encoder is not idle");
    let items = s.range(1, 4);
    let mut total = 0;
    for _ in 0..items {
        let b = s.byte();
        ensure!(e.start_encoding(b).is_ok(), "idle padding encoder refused an item");
        let calls = s.range(1, 6);
        for i in 0..calls {
            ensure!(!e.is_idle(), "padding encoder idle before the end was signalled (byte {b:#x})");
            ensure!(!e.requiring_bytes().is_finite(), "padding encoder demands {:?}", e.requiring_bytes());
            if s.one_in(4) {
                let x = s.byte();
                match e.start_encoding(x) {
                    Ok(()) => fail!("busy padding encoder accepted another byte"),
                    Err(x) => ensure!(*x.kind() == ErrorKind::EncoderFull, "refused with {:?}", x.kind()),
                }
            }
            let c = s.wide(40);
            let end = i + 1 == calls;
            let eos = if end { Eos::new(true) } else { more(s) };
            let mut buf = vec![b ^ 0x5A; c + 2];
            match e.encode(&mut buf[1..1 + c], eos) {
                Ok(n) => ensure!(n == c, "padding filled {n} of {c} bytes"),
                Err(x) => fail!("padding failed with {:?}", x.kind()),
            }
            ensure!(buf[1..1 + c].iter().all(|x| *x == b) && buf[0] == b ^ 0x5A && buf[c + 1] == b ^ 0x5A, "padding with {b:#x} wrote {buf:02x?}");
            total += c;
            s.label_if(c == 0 && end, "end with no room left");
        }
        ensure!(e.is_idle() && e.requiring_bytes() == ByteCount::Finite(0), "padding encoder not idle after the end");
        if s.bool() {
            let mut buf = [0xA5u8; 3];
            match e.encode(&mut buf, Eos::new(s.bool())) {
                Ok(0) => {}
                r => fail!("idle padding encoder: {:?}", r.map_err(|e| *e.kind())),
            }
            ensure!(buf == [0xA5; 3] && e.is_idle(), "idle padding encoder wrote {buf:02x?}");
        }
    }
    s.nontrivial_if(items > 1 && total > 2);
    Ok(())
}
fn c21_decoder(s: &mut Src) -> R {
    let mut want = if s.one_in(3) { None } else { Some(s.byte()) };
    let mut d = PaddingDecoder::new(want);
    for i in s.turns(1, 5) {
        if i > 0 && s.one_in(3) {
            want = if s.one_in(3) { None } else { Some(s.byte()) };
            d.set_expected_byte(want);
            s.label("expectation changed");
        }
        ensure!(d.expected_byte() == want, "expected_byte is {:?}, set to {want:?}", d.expected_byte());
        ensure!(!d.is_idle(), "padding decoder idle before its stream ended");
        let n = s.wide(60);
        let mut data = match want {
            Some(b) => vec![b; n],
            None => s.bytes(n),
        };
        let mut bad = false;
        if let (Some(b), true) = (want, n > 0 && s.one_in(3)) {
            for _ in 0..s.range(1, 2) {
                let k = match s.draw(3) {
                    0 => 0,
                    1 => n - 1,
                    _ => s.below(n),
                };
                data[k] = if s.bool() { b ^ (1 << s.below(8)) } else { b.wrapping_add(1 + s.draw(255) as u8) };
            }
            bad = data.iter().any(|x| *x != b);
            s.label("a wrong byte");
        }
        s.nontrivial_if(n > 2);
        s.note(|| format!("expect {want:?} data {data:02x?}"));
        let mut pos = 0;
        let mut zeros = 0;
        loop {
            if s.one_in(5) {
                match d.finish_decoding() {
                    Ok(()) => fail!("padding completed after {pos} of {n} bytes, the end not signalled"),
                    Err(e) => ensure!(*e.kind() == ErrorKind::IncompleteDecoding, "premature take: {:?}", e.kind()),
                }
            }
            let c = room(s, &mut zeros).min(n - pos);
            let end = pos + c == n && (c == 0 || s.bool());
            let eos = if end { Eos::new(true) } else { more(s) };
            match d.decode(&data[pos..pos + c], eos) {
                Err(e) => {
                    ensure!(bad && *e.kind() == ErrorKind::InvalidInput, "padding {data:02x?} (expected {want:?}) failed with {:?}", e.kind());
                    ensure!(data[..pos + c].iter().any(|x| Some(*x) != want), "failed before the wrong byte was seen: {data:02x?} after {}", pos + c);
                    s.label_if(pos > 0, "wrong byte after a good chunk");
                    return Ok(());
                }
                Ok(k) => ensure!(k == c, "padding consumed {k} of {c} bytes"),
            }
            pos += c;
            if end {
                break;
            }
            ensure!(!d.is_idle(), "padding complete after {pos} of {n} bytes");
            ensure!(!d.requiring_bytes().is_finite(), "padding demands {:?}", d.requiring_bytes());
        }
        ensure!(!bad, "padding {data:02x?} accepted, expected {want:?}");
        ensure!(d.is_idle() && d.requiring_bytes() == ByteCount::Finite(0), "padding incomplete at the end of the stream");
        if s.bool() {
            let extra = s.bytes(3);
            match d.decode(&extra, Eos::new(s.bool())) {
                Ok(0) => {}
                r => fail!("complete padding decoder: {:?}", r.map_err(|e| *e.kind())),
            }
            ensure!(d.is_idle(), "completed padding lost");
        }
        if let Err(e) = d.finish_decoding() {
            fail!("complete padding refused with {:?}", e.kind());
        }
        s.label_if(i > 0, "several streams");
    }
    Ok(())
}
fn c21_null(s: &mut Src) -> R {
    let mut d = NullDecoder;
    let mut e = NullEncoder;
    let mut bytes = 0;
    for _ in s.turns(1, 10) {
        let c = s.wide(20);
        bytes += c;
        let eos = if s.bool() { Eos::new(true) } else { more(s) };
        ensure!(d.is_idle() && e.is_idle(), "a null codec is not idle");
        ensure!(d.requiring_bytes() == ByteCount::Finite(0) && e.requiring_bytes() == ByteCount::Finite(0) && e.exact_requiring_bytes() == 0, "a null codec requires bytes");
        match s.draw(4) {
            0 => ensure!(d.finish_decoding().is_ok(), "null decoder gave no item"),
            1 => ensure!(e.start_encoding(()).is_ok(), "null encoder refused its item"),
            2 => {
                let b = s.bytes(c);
                ensure!(matches!(d.decode(&b, eos), Ok(0)), "null decoder consumed bytes or failed");
            }
            _ => {
                let b = s.bytes(c);
                let mut x = b.clone();
                ensure!(matches!(e.encode(&mut x, eos), Ok(0)) && x == b, "null encoder wrote bytes or failed");
            }
        }
    }
    s.nontrivial_if(bytes > 3);
    Ok(())
}
/// A field filled up with padding, inside a fixed record, there and back.
fn c21_field(s: &mut Src) -> R {
    let size = s.wide(40);
    let pad = s.byte();
    let mut e = BytesEncoder::<Vec<u8>>::new().chain(PaddingEncoder::new()).length(size as u64);
    for _ in s.turns(1, 4) {
        let n = s.range(0, size);
        let body = s.bytes(n);
        ensure!(e.start_encoding((body.clone(), pad)).is_ok(), "padded field refused");
        let out = match pump(s, &mut e, size + 8)? {
            Ok(b) => b,
            Err(k) => fail!("padded field of {n} bytes in {size} failed with {k:?}"),
        };
        let mut want = body.clone();
        want.resize(size, pad);
        ensure!(out == want, "padded field is {out:02x?}, expected {want:02x?}");
        let bad = n < size && s.one_in(3);
        let mut data = out;
        if bad {
            let k = s.range(n, size - 1);
            data[k] ^= 1 << s.below(8);
        }
        let mut d = BytesDecoder::new(vec![0; n]).chain(PaddingDecoder::new(Some(pad))).length(size as u64);
        let closed = s.bool();
        match feed(s, &mut d, &data, closed)? {
            (k, Some(Ok((b, ())))) => ensure!(!bad && b == body && k == size, "padded field {data:02x?} gave {b:02x?} after {k} bytes"),
            (_, Some(Err(k))) => ensure!(bad && k == ErrorKind::InvalidInput, "padded field {data:02x?} failed with {k:?}"),
            (_, None) => fail!("padded field {data:02x?} incomplete"),
        }
        s.nontrivial_if(n > 0 && n < size);
    }
    Ok(())
}

// ---- C22 ----
fn bytes_enc<B: AsRef<[u8]> + Debug>(s: &mut Src, mk: impl Fn(&mut Src) -> B) -> R {
    let mut e = BytesEncoder::<B>::new();
    for i in s.turns(1, 4) {
        let b = mk(s);
        let want = b.as_ref().to_vec();
        ensure!(e.is_idle() && e.exact_requiring_bytes() == 0, "byte encoder not idle");
        ensure!(e.start_encoding(b).is_ok(), "idle byte encoder refused an item");
        ensure!(e.exact_requiring_bytes() == want.len() as u64, "{} bytes to write, exact_requiring_bytes {}", want.len(), e.exact_requiring_bytes());
        match pump(s, &mut e, want.len() + 8)? {
            Ok(out) => ensure!(out == want, "wrote {out:02x?}, expected {want:02x?}"),
            Err(k) => fail!("byte encoder failed with {k:?}"),
        }
        s.nontrivial_if(want.len() > 2);
        s.label_if(i > 0, "reused");
    }
    Ok(())
}
fn c22_encode(s: &mut Src) -> R {
    match s.draw(7) {
        0 => bytes_enc(s, |s| {
            let n = s.wide(60);
            s.bytes(n)
        }),
        1 => bytes_enc(s, |s| [s.byte(), s.byte(), s.byte(), s.byte(), s.byte(), s.byte(), s.byte()]),
        2 => bytes_enc(s, |s| {
            let n = s.wide(60);
            s.bytes(n).into_boxed_slice()
        }),
        3 => bytes_enc(s, |s| gen_string(s, 12)),
        4 => bytes_enc(s, |s| {
            let n = s.wide(60);
            Rc::<[u8]>::from(s.bytes(n))
        }),
        5 => bytes_enc(s, |s| {
            let n = s.wide(60);
            let b = s.bytes(n);
            let x = s.range(0, n);
            let y = s.range(x, n);
            OwnedSlice::new(b, x, y)
        }),
        _ => {
            let mut e = Utf8Encoder::<String>::new();
            for i in s.turns(1, 4) {
                let t = gen_string(s, 12);
                ensure!(e.start_encoding(t.clone()).is_ok(), "idle UTF-8 encoder refused an item");
                ensure!(e.exact_requiring_bytes() == t.len() as u64, "exact_requiring_bytes is {}", e.exact_requiring_bytes());
                match pump(s, &mut e, t.len() + 8)? {
                    Ok(out) => ensure!(out == t.as_bytes(), "wrote {out:02x?}, expected {t:?}"),
                    Err(k) => fail!("UTF-8 encoder failed with {k:?}"),
                }
                s.nontrivial_if(t.len() > t.chars().count());
                s.label_if(i > 0, "reused");
            }
            Ok(())
        }
    }
}
fn terminated<B: AsRef<[u8]> + AsMut<[u8]> + Debug>(s: &mut Src, d: &mut BytesDecoder<B>) -> R {
    for _ in 0..s.range(1, 3) {
        let c = s.len(5);
        let b = s.bytes(c);
        if s.bool() {
            match d.decode(&b, Eos::new(s.bool())) {
                Ok(n) => fail!("used up byte decoder consumed {n} of {c} bytes"),
                Err(e) => ensure!(*e.kind() == ErrorKind::DecoderTerminated, "used up byte decoder failed with {:?}", e.kind()),
            }
        } else {
            match d.finish_decoding() {
                Ok(b) => fail!("used up byte decoder gave {b:?}"),
                Err(e) => ensure!(*e.kind() == ErrorKind::DecoderTerminated, "used up byte decoder failed with {:?}", e.kind()),
            }
        }
        s.label("used after termination");
    }
    Ok(())
}
fn oneshot<B: AsRef<[u8]> + AsMut<[u8]> + Debug>(s: &mut Src, mk: impl Fn(&mut Src) -> B) -> R {
    let mut d = if s.one_in(4) {
        let mut d = BytesDecoder::<B>::default();
        terminated(s, &mut d)?;
        let b = mk(s);
        d.set_bytes(b);
        d
    } else {
        let b = mk(s);
        BytesDecoder::new(b)
    };
    for i in s.turns(1, 4) {
        let Some(n) = d.requiring_bytes().to_u64() else { fail!("byte decoder requires {:?}", d.requiring_bytes()) };
        let n = n as usize;
        let data = s.bytes(n);
        if s.one_in(4) && n > 0 {
            // abandon an item midway
            let k = s.range(0, n - 1);
            ensure!(matches!(d.decode(&data[..k], Eos::new(false)), Ok(x) if x == k), "byte decoder did not take {k} bytes");
            match d.finish_decoding() {
                Ok(b) => fail!("incomplete byte decoder gave {b:?}"),
                Err(e) => ensure!(*e.kind() == ErrorKind::IncompleteDecoding, "premature take: {:?}", e.kind()),
            }
            s.label("new buffer given midway");
            let b = mk(s);
            d.set_bytes(b);
            continue;
        }
        let mut fed = data.clone();
        let extra = if s.bool() { s.len(5) } else { 0 };
        fed.extend(s.bytes(extra));
        let closed = s.bool();
        match feed(s, &mut d, &fed, closed)? {
            (k, Some(Ok(b))) => {
                ensure!(k == n, "byte decoder used {k} bytes for {n}");
                ensure!(b.as_ref() == data, "byte decoder gave {:02x?}, expected {data:02x?}", b.as_ref());
            }
            (_, Some(Err(e))) => fail!("byte decoder failed with {e:?} on {n} bytes of {}", fed.len()),
            (_, None) => fail!("byte decoder incomplete after all {n} bytes"),
        }
        s.nontrivial_if(n > 2);
        s.label_if(i > 0, "new buffer");
        terminated(s, &mut d)?;
        let b = mk(s);
        d.set_bytes(b);
    }
    Ok(())
}
fn c22_oneshot(s: &mut Src) -> R {
    match s.draw(5) {
        0 | 1 => oneshot(s, |s| {
            let n = s.wide(60);
            s.bytes(n)
        }),
        2 => oneshot(s, |s| [s.byte(); 5]),
        3 => oneshot(s, |s| {
            let n = s.wide(60);
            s.bytes(n).into_boxed_slice()
        }),
        _ => oneshot(s, |s| {
            let n = s.wide(60);
            let b = s.bytes(n);
            let x = s.range(0, n);
            let y = s.range(x, n);
            OwnedSlice::new(b, x, y)
        }),
    }
}
fn copyable<const N: usize>(s: &mut Src) -> R {
    let mut d = CopyableBytesDecoder::new([0u8; N]);
    for i in s.turns(1, 5) {
        let data = s.bytes(N);
        let mut fed = data.clone();
        let extra = if s.bool() { s.len(5) } else { 0 };
        fed.extend(s.bytes(extra));
        let closed = s.bool();
        match feed(s, &mut d, &fed, closed)? {
            (k, Some(Ok(b))) => ensure!(k == N && b[..] == data[..], "{N} byte decoder gave {b:02x?} after {k} bytes, expected {data:02x?}"),
            (k, r) => fail!("{N} byte decoder: {r:?} after {k} of {} bytes", fed.len()),
        }
        s.label_if(i > 0, "reused");
    }
    s.nontrivial_if(N > 2);
    Ok(())
}
fn c22_fixed(s: &mut Src) -> R {
    match s.draw(6) {
        0 => copyable::<1>(s),
        1 => copyable::<3>(s),
        2 => copyable::<4>(s),
        3 => copyable::<17>(s),
        4 => copyable::<0>(s),
        _ if s.big => match s.draw(4) {
            0 => copyable::<255>(s),
            1 => copyable::<256>(s),
            2 => copyable::<1025>(s),
            _ => copyable::<65537>(s),
        },
        _ => copyable::<64>(s),
    }
}
fn c22_remaining(s: &mut Src) -> R {
    let mut d = RemainingBytesDecoder::new();
    for i in s.turns(1, 4) {
        let n = if s.one_in(30) { 5000 } else { s.wide(80) };
        let data = s.bytes(n);
        match feed(s, &mut d, &data, true)? {
            (k, Some(Ok(b))) => ensure!(k == n && b == data, "gathered {} bytes {:02x?}, expected {n}", b.len(), &b[..b.len().min(80)]),
            (k, r) => fail!("gathering {n} bytes: {r:?} after {k}"),
        }
        s.nontrivial_if(n > 2 && i > 0);
    }
    Ok(())
}
fn judge_utf8(data: &[u8], r: Result<String, ErrorKind>) -> R {
    match (std::str::from_utf8(data), r) {
        (Ok(w), Ok(v)) => ensure!(v == w, "UTF-8 {data:02x?} gave {v:?}, expected {w:?}"),
        (Err(_), Err(k)) => ensure!(k == ErrorKind::InvalidInput, "broken UTF-8 {data:02x?} failed with {k:?}"),
        (Ok(_), Err(k)) => fail!("valid UTF-8 {data:02x?} refused with {k:?}"),
        (Err(_), Ok(v)) => fail!("broken UTF-8 {data:02x?} accepted as {v:?}"),
    }
    Ok(())
}
fn gen_utf8(s: &mut Src) -> Vec<u8> {
    if s.one_in(8) {
        let n = s.wide(12);
        return s.bytes(n);
    }
    let mut b = gen_string(s, 12).into_bytes();
    if s.bool() {
        for _ in 0..s.range(1, 2) {
            if b.is_empty() || s.one_in(3) {
                let i = s.below(b.len() + 1);
                let x: &[u8] = s.pick(&[&[0xC0u8, 0x80][..], &[0xE0, 0x80, 0x80], &[0xED, 0xA0, 0x80], &[0xF4, 0x90, 0x80, 0x80], &[0xF0, 0x8F, 0xBF, 0xBF], &[0xEF, 0xBB, 0xBF], &[0xC2], &[0xBF], &[0xFF]]);
                b.splice(i..i, x.iter().copied());
            } else {
                mutate(s, &mut b);
            }
        }
    }
    b
}
fn c22_utf8(s: &mut Src) -> R {
    let mut whole = Utf8Decoder::new();
    let mut failed = false;
    for i in s.turns(1, 4) {
        let data = gen_utf8(s);
        s.note(|| format!("{data:02x?}"));
        let ok = std::str::from_utf8(&data).is_ok();
        s.nontrivial_if(data.len() > 1 && data.iter().any(|b| *b >= 0x80));
        s.label_if(!ok, "not UTF-8");
        s.label_if(failed, "used after an error");
        if i > 0 && s.one_in(4) {
            // over a decoder of a fixed number of bytes
            let mut d = Utf8Decoder::with_bytes_decoder(BytesDecoder::new(vec![0; data.len()]));
            let closed = s.bool();
            let (k, r) = feed(s, &mut d, &data, closed)?;
            ensure!(k == data.len(), "{k} of {} bytes used", data.len());
            judge_utf8(&data, r.unwrap_or(Err(ErrorKind::Other)))?;
        }
        let (k, r) = feed(s, &mut whole, &data, true)?;
        ensure!(k == data.len(), "{k} of {} bytes used", data.len());
        let Some(r) = r else { fail!("UTF-8 decoder incomplete at the end of {data:02x?}") };
        judge_utf8(&data, r)?;
        ensure!(!whole.is_idle(), "UTF-8 decoder idle after its item was taken");
        failed |= !ok;
    }
    Ok(())
}
const TAILS: [u8; 10] = [0x00, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xFF];
fn utf8_direct(b: &[u8], cut: usize) -> R {
    let mut d = Utf8Decoder::new();
    let k = cut.min(b.len());
    ensure!(matches!(d.decode(&b[..k], Eos::new(false)), Ok(n) if n == k), "did not take {k} bytes of {b:02x?}");
    ensure!(matches!(d.decode(&b[k..], Eos::new(true)), Ok(n) if n == b.len() - k), "did not take the rest of {b:02x?}");
    judge_utf8(b, d.finish_decoding().map_err(|e| *e.kind()))
}
fn c22_two(i: u64) -> R {
    let b = [(i >> 8) as u8, i as u8];
    if i < 256 {
        utf8_direct(&b[1..], 1)?;
    }
    utf8_direct(&b, 1)
}
fn c22_three(i: u64) -> R {
    let b = [0xC0 + (i / 2560 % 64) as u8, (i / 10 % 256) as u8, TAILS[(i % 10) as usize]];
    utf8_direct(&b, (i % 3) as usize)
}
fn c22_four(i: u64) -> R {
    let b = [0xF0 + (i / 25600 % 16) as u8, (i / 100 % 256) as u8, TAILS[(i / 10 % 10) as usize], TAILS[(i % 10) as usize]];
    utf8_direct(&b, (i % 4) as usize)
}

// ---- C23 ----
fn gen_float(s: &mut Src) -> f64 {
    let f = f64::from_bits(s.int(64));
    if f.is_finite() { f } else { 0.5 }
}
fn json_doc(s: &mut Src) -> serde_json::Value {
    let mut v = gen_json(s, 3);
    if s.one_in(4) {
        v = serde_json::Value::from(vec![v, serde_json::Value::from(gen_float(s))]);
    }
    v
}
fn enc_item<E: Encode>(s: &mut Src, e: &mut E, item: E::Item, want: &[u8]) -> R
where
    E::Item: Clone + Debug,
{
    ensure!(e.is_idle(), "encoder not idle before its item");
    if let Err(x) = e.start_encoding(item.clone()) {
        fail!("item {item:?} refused with {:?}", x.kind());
    }
    ensure!(!e.is_idle(), "idle although nothing of {item:?} was written");
    match pump(s, e, want.len() + 8)? {
        Ok(out) => ensure!(out == want, "{item:?} encoded as {:?}, the serializer gives {:?}", String::from_utf8_lossy(&out), String::from_utf8_lossy(want)),
        Err(k) => fail!("encoding {item:?} failed with {k:?}"),
    }
    ensure!(e.is_idle() && e.requiring_bytes() == ByteCount::Finite(0), "not idle after its item");
    Ok(())
}
fn dec_item<D: Decode>(s: &mut Src, d: &mut D, data: &[u8], want: Option<D::Item>, all: bool) -> Result<bool, Fail>
where
    D::Item: PartialEq + Debug,
{
    ensure!(!d.is_idle(), "decoder idle before its stream");
    let (k, r) = feed(s, d, data, true)?;
    match (r, want) {
        (Some(Ok(v)), Some(w)) => {
            ensure!(v == w, "{:?} decoded as {v:?}, the serializer reads {w:?}", String::from_utf8_lossy(data));
            ensure!(!all || k == data.len(), "{k} of {} bytes used", data.len());
            Ok(true)
        }
        (Some(Err(k)), None) => {
            ensure!(k == ErrorKind::InvalidInput, "unreadable {:?} failed with {k:?}", String::from_utf8_lossy(data));
            Ok(false)
        }
        (Some(Ok(v)), None) => fail!("{:?} decoded as {v:?}, the serializer fails", String::from_utf8_lossy(data)),
        (Some(Err(k)), Some(w)) => fail!("{:?} refused with {k:?}, the serializer reads {w:?}", String::from_utf8_lossy(data)),
        (None, _) => fail!("incomplete at the end of {:?}", String::from_utf8_lossy(data)),
    }
}
fn json_typed<T: serde::Serialize + for<'a> serde::Deserialize<'a> + Clone + Debug + PartialEq>(s: &mut Src, mk: impl Fn(&mut Src) -> T) -> R {
    let mut e = JsonEncoder::<T>::new();
    let mut d = JsonDecoder::<T>::new();
    for i in s.turns(1, 4) {
        let v = mk(s);
        let text = serde_json::to_vec(&v).unwrap();
        enc_item(s, &mut e, v, &text)?;
        let mut data = text;
        if s.bool() {
            match s.draw(5) {
                0 => {
                    for _ in 0..s.range(1, 3) {
                        let i = s.below(data.len() + 1);
                        data.insert(i, *s.pick(b" \n\t\r"));
                    }
                }
                1 => {
                    let k = s.below(data.len() + 1);
                    data.truncate(k);
                }
                2 => data.extend_from_slice(s.pick(&[&b" "[..], b"x", b"1", b"{}", b"\0", b"\n"])),
                _ => {
                    for _ in 0..s.range(1, 2) {
                        if s.bool() && !data.is_empty() {
                            let i = s.below(data.len());
                            data[i] = *s.pick(b"0123456789+-.eE,:[]{}\"\\nutf");
                        } else {
                            mutate(s, &mut data);
                        }
                    }
                }
            }
            s.label("altered text");
        }
        s.note(|| format!("text {:?}", String::from_utf8_lossy(&data)));
        let want = serde_json::from_slice::<T>(&data).ok();
        s.nontrivial_if(data.len() > 2);
        if !dec_item(s, &mut d, &data, want, true)? {
            s.label("unreadable");
            d = JsonDecoder::new();
        }
        s.label_if(i > 0, "reused");
    }
    Ok(())
}
/// Fields out of alphabetic order, of every width.
#[derive(Clone, Debug, PartialEq)]
struct Mixed {
    z: f32,
    a: u8,
    m: Option<i64>,
    b: u128,
    k: Vec<(char, bool)>,
}
impl serde::Serialize for Mixed {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeStruct;
        let mut q = s.serialize_struct("Mixed", 5)?;
        q.serialize_field("z", &self.z)?;
        q.serialize_field("a", &self.a)?;
        q.serialize_field("m", &self.m)?;
        q.serialize_field("b", &self.b)?;
        q.serialize_field("k", &self.k)?;
        q.end()
    }
}
impl<'de> serde::Deserialize<'de> for Mixed {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Mixed;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("a Mixed")
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut q: A) -> Result<Mixed, A::Error> {
                use serde::de::Error;
                let none = || A::Error::custom("too few fields");
                Ok(Mixed {
                    z: q.next_element()?.ok_or_else(none)?,
                    a: q.next_element()?.ok_or_else(none)?,
                    m: q.next_element()?.ok_or_else(none)?,
                    b: q.next_element()?.ok_or_else(none)?,
                    k: q.next_element()?.ok_or_else(none)?,
                })
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut q: A) -> Result<Mixed, A::Error> {
                use serde::de::Error;
                let mut v = Mixed { z: 0.0, a: 0, m: None, b: 0, k: vec![] };
                while let Some(key) = q.next_key::<String>()? {
                    match key.as_str() {
                        "z" => v.z = q.next_value()?,
                        "a" => v.a = q.next_value()?,
                        "m" => v.m = q.next_value()?,
                        "b" => v.b = q.next_value()?,
                        "k" => v.k = q.next_value()?,
                        _ => return Err(A::Error::custom("unknown field")),
                    }
                }
                Ok(v)
            }
        }
        d.deserialize_struct("Mixed", &["z", "a", "m", "b", "k"], V)
    }
}
fn mixed(s: &mut Src) -> Mixed {
    let n = s.len(4);
    Mixed {
        z: match s.draw(3) {
            0 => s.int(20) as f32 / 1024.0,
            1 => 0.1 * s.int(8) as f32,
            _ => Some(f32::from_bits(s.int(32) as u32)).filter(|x| x.is_finite()).unwrap_or(0.5),
        },
        a: s.byte(),
        m: if s.bool() { Some(s.int(64) as i64) } else { None },
        b: u128::from(s.int(64)) << s.draw(65),
        k: (0..n).map(|_| (*s.pick(&['a', '"', 'é', '\u{10FFFF}']), s.bool())).collect(),
    }
}
fn c23_json(s: &mut Src) -> R {
    match s.draw(8) {
        6 => json_typed(s, mixed),
        0 | 1 => json_typed(s, json_doc),
        2 => json_typed(s, |s| gen_string(s, 12)),
        3 => json_typed(s, |s| {
            let n = s.len(6);
            (0..n).map(|_| s.int(32) as i32).collect::<Vec<i32>>()
        }),
        4 => json_typed(s, |s| (s.int(8) as u8, if s.bool() { Some(gen_string(s, 4)) } else { None }, s.bool())),
        _ => json_typed(s, |s| {
            let n = s.len(4);
            (0..n).map(|_| (gen_string(s, 4), gen_float(s))).collect::<BTreeMap<String, f64>>()
        }),
    }
}
/// `cut`: any alteration is harmless (no length fields).
fn bin_typed<T: serde::Serialize + for<'a> serde::Deserialize<'a> + Clone + Debug + PartialEq>(s: &mut Src, plain: bool, mk: impl Fn(&mut Src) -> T) -> R {
    let mut e = BincodeEncoder::<T>::new();
    let mut d = BincodeDecoder::<T>::new();
    for i in s.turns(1, 4) {
        let v = mk(s);
        let bytes = bincode::serialize(&v).unwrap();
        enc_item(s, &mut e, v, &bytes)?;
        let mut data = bytes;
        if s.one_in(3) {
            let k = s.below(data.len() + 1);
            data.truncate(k);
            s.label("cut short");
        } else if plain && s.bool() && !data.is_empty() {
            let k = s.below(data.len());
            data[k] = s.byte();
            s.label("altered");
        } else if s.one_in(6) {
            data.extend(s.bytes(3));
            s.label("trailing bytes");
        }
        s.nontrivial_if(data.len() > 2);
        let mut rd = &data[..];
        let want = bincode::deserialize_from::<_, T>(&mut rd).ok();
        let all = rd.is_empty();
        if !dec_item(s, &mut d, &data, want, all)? {
            s.label("unreadable");
            d = BincodeDecoder::new();
        }
        s.label_if(i > 0, "reused");
    }
    Ok(())
}
fn c23_bincode(s: &mut Src) -> R {
    match s.draw(7) {
        6 => bin_typed(s, false, mixed),
        0 => bin_typed(s, true, |s| (s.int(8) as u8, s.int(16) as u16, s.int(32) as u32, s.int(64), s.int(64) as i64)),
        1 => bin_typed(s, true, |s| (s.bool(), if s.bool() { Some(s.int(16) as u16) } else { None }, *s.pick(&['a', 'é', '\u{10FFFF}']))),
        2 => bin_typed(s, true, |s| if s.bool() { Ok::<u32, [u8; 3]>(s.int(32) as u32) } else { Err([s.byte(), s.byte(), s.byte()]) }),
        3 => bin_typed(s, false, |s| gen_string(s, 20)),
        4 => bin_typed(s, false, |s| {
            let n = s.wide(20);
            (0..n).map(|_| s.int(32) as u32).collect::<Vec<u32>>()
        }),
        _ => bin_typed(s, false, |s| {
            let n = s.len(4);
            (0..n).map(|_| (gen_string(s, 4), (s.int(64), gen_float(s)))).collect::<BTreeMap<String, (u64, f64)>>()
        }),
    }
}
/// A whole-item decoder that records what it is given.
struct Whole {
    runs: Rc<RefCell<Vec<Vec<u8>>>>,
    step: usize,
    fail: Rc<Cell<Option<ErrorKind>>>,
}
impl MonolithicDecode for Whole {
    type Item = (usize, Vec<u8>);
    fn monolithic_decode<R: Read>(&self, mut reader: R) -> bytecodec::Result<Self::Item> {
        let mut all = vec![];
        let mut buf = vec![0; self.step];
        loop {
            tick();
            let n = reader.read(&mut buf).map_err(bytecodec::Error::from)?;
            if n == 0 {
                break;
            }
            all.extend_from_slice(&buf[..n]);
        }
        self.runs.borrow_mut().push(all.clone());
        match self.fail.get() {
            Some(k) => Err(mkerr(k)),
            None => Ok((self.runs.borrow().len(), all)),
        }
    }
}
impl MonolithicEncode for Whole {
    type Item = Vec<u8>;
    fn monolithic_encode<W: Write>(&self, item: &Vec<u8>, mut writer: W) -> bytecodec::Result<()> {
        self.runs.borrow_mut().push(item.clone());
        for c in item.chunks(self.step) {
            tick();
            writer.write_all(c).map_err(bytecodec::Error::from)?;
            if c.len() % 2 == 0 {
                writer.flush().map_err(bytecodec::Error::from)?;
            }
        }
        match self.fail.get() {
            Some(k) => Err(mkerr(k)),
            None => Ok(()),
        }
    }
}
fn c23_own_decode(s: &mut Src) -> R {
    let runs = Rc::new(RefCell::new(vec![]));
    let fails = Rc::new(Cell::new(None));
    let step = s.range(1, 20);
    let mut d = MonolithicDecoder::new(Whole { runs: runs.clone(), step, fail: fails.clone() });
    for i in s.turns(1, 5) {
        let n = s.wide(60);
        let data = s.bytes(n);
        let f = if s.one_in(6) { Some(*s.pick(KINDS)) } else { None };
        fails.set(f);
        let (k, r) = feed(s, &mut d, &data, true)?;
        ensure!(runs.borrow().len() == i + 1, "run {} times for {} items", runs.borrow().len(), i + 1);
        ensure!(runs.borrow()[i] == data, "run over {:02x?}, the item is {data:02x?}", runs.borrow()[i]);
        s.nontrivial_if(n > 2 && i > 0);
        match (r, f) {
            (Some(Err(e)), Some(f)) => {
                ensure!(e == f, "failed with {e:?} instead of {f:?}");
                s.label("failing decoder");
                return Ok(());
            }
            (Some(Ok((c, b))), None) => ensure!(c == i + 1 && b == data && k == n, "got {b:02x?} of run {c} after {k} bytes, expected {data:02x?} of run {}", i + 1),
            (r, f) => fail!("{r:?} for {f:?}"),
        }
    }
    Ok(())
}
fn c23_own_encode(s: &mut Src) -> R {
    let runs = Rc::new(RefCell::new(vec![]));
    let fails = Rc::new(Cell::new(None));
    let step = s.range(1, 20);
    let mut e = MonolithicEncoder::new(Whole { runs: runs.clone(), step, fail: fails.clone() });
    for i in s.turns(1, 5) {
        let n = s.wide(60);
        let data = s.bytes(n);
        let f = if s.one_in(6) { Some(*s.pick(KINDS)) } else { None };
        fails.set(f);
        ensure!(e.is_idle(), "not idle before its item");
        ensure!(e.start_encoding(data.clone()).is_ok(), "idle encoder refused an item");
        s.nontrivial_if(n > 2 && i > 0);
        let r = pump(s, &mut e, n + 8)?;
        ensure!(runs.borrow().len() == i + 1, "run {} times for {} items", runs.borrow().len(), i + 1);
        ensure!(runs.borrow()[i] == data, "run for {:02x?}, the item is {data:02x?}", runs.borrow()[i]);
        match (r, f) {
            (Err(k), Some(f)) => {
                ensure!(k == f, "failed with {k:?} instead of {f:?}");
                s.label("failing encoder");
                // the item is gone: it is not run again, and the next one is encoded as if it had not been offered
                ensure!(e.is_idle() && e.requiring_bytes() == ByteCount::Finite(0), "not idle after a failed item");
                let mut b = [0xA5u8; 9];
                let m = e.encode(&mut b, more(s)).map_err(|e| *e.kind());
                ensure!(m == Ok(0) && b == [0xA5; 9], "{m:?} after a failed item: {b:02x?}");
            }
            (Ok(b), None) => ensure!(b == data, "wrote {b:02x?}, the item is {data:02x?}"),
            (r, f) => fail!("{r:?} for {f:?}"),
        }
    }
    Ok(())
}
/// An item whose serialization fails part-way, or does not.
#[derive(Clone, Debug)]
struct Picky(Vec<u32>, bool);
impl serde::Serialize for Picky {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{Error, SerializeSeq};
        let mut q = s.serialize_seq(Some(self.0.len()))?;
        for x in &self.0 {
            q.serialize_element(x)?;
        }
        if self.1 {
            return Err(S::Error::custom("not this one"));
        }
        q.end()
    }
}
/// Items the serializer refuses write nothing and leave the encoder fit for the next.
fn refused<E: Encode<Item = Picky>>(s: &mut Src, mut e: E, ser: impl Fn(&Picky) -> Option<Vec<u8>>) -> R {
    let mut bad = 0;
    for _ in s.turns(2, 5) {
        let n = s.wide(8);
        let v = Picky((0..n).map(|_| s.int(32) as u32).collect(), s.bool());
        s.note(|| format!("{v:?}"));
        match ser(&v) {
            Some(w) => {
                enc_item(s, &mut e, v, &w)?;
                s.nontrivial_if(bad > 0);
                s.label_if(bad > 0, "an item after one refused");
            }
            None => {
                bad += 1;
                let k = match e.start_encoding(v.clone()) {
                    Err(x) => *x.kind(),
                    Ok(()) => {
                        let mut calls = 0;
                        loop {
                            calls += 1;
                            ensure!(!e.is_idle() && calls < 1000, "idle after an item the serializer refuses, or no end; {v:?}");
                            let k = s.range(0, 40);
                            let mut b = vec![0; k];
                            match e.encode(&mut b, more(s)) {
                                Err(x) => break *x.kind(),
                                Ok(m) => ensure!(m == 0, "{:02x?} written of an item the serializer refuses; {v:?}", &b[..m]),
                            }
                        }
                    }
                };
                ensure!(k == ErrorKind::InvalidInput, "{v:?} refused with {k:?}");
                ensure!(e.is_idle() && e.requiring_bytes() == ByteCount::Finite(0), "not idle after a refused item");
            }
        }
    }
    Ok(())
}
fn c23_refused(s: &mut Src) -> R {
    if s.bool() {
        refused(s, JsonEncoder::new(), |v| serde_json::to_vec(v).ok())
    } else {
        refused(s, BincodeEncoder::new(), |v| bincode::serialize(v).ok())
    }
}
/// F5: a finished item is not decoded a second time.
pub fn pin_mono_hold() -> R {
    let mut d = JsonDecoder::<serde_json::Value>::new();
    ensure!(matches!(d.decode(b"[1]", Eos::new(true)), Ok(3)), "JSON not taken");
    ensure!(matches!(d.decode(b"7", Eos::new(true)), Ok(0)), "bytes taken while an item is held");
    ensure!(d.finish_decoding().ok() == Some(serde_json::json!([1])), "held item lost");
    Ok(())
}
/// F6: the end of the output inside an item is reported.
pub fn pin_mono_eos() -> R {
    let mut e = JsonEncoder::<String>::new();
    e.start_encoding("abc".to_string()).map_err(|_| Fail::Bug("refused".into()))?;
    let mut b = [0; 3];
    match e.encode(&mut b, Eos::new(true)) {
        Err(x) => ensure!(*x.kind() == ErrorKind::UnexpectedEos, "{:?}", x.kind()),
        Ok(n) => fail!("{n} bytes written, item cut short, no error"),
    }
    Ok(())
}

// ---- C38 ----
fn owned<T: AsRef<[u8]> + AsMut<[u8]> + Debug + Clone>(s: &mut Src, owner: T) -> R {
    let orig = owner.as_ref().to_vec();
    let n = orig.len();
    let a = s.range(0, n);
    let b = s.range(a, n);
    s.note(|| format!("{orig:02x?} {a}..{b}"));
    s.nontrivial_if(b - a > 1 && b - a < n);
    let mut o = OwnedSlice::new(owner, a, b);
    let mut model = orig.clone();
    for _ in s.turns(1, 6) {
        ensure!(o.start() == a && o.end() == b, "range is {}..{}, set to {a}..{b}", o.start(), o.end());
        match s.draw(6) {
            0 => {
                let v: &[u8] = o.as_ref();
                ensure!(v == &model[a..b], "view {v:02x?} of {model:02x?} {a}..{b}");
            }
            1 => {
                let v: &mut [u8] = o.as_mut();
                ensure!(v == &model[a..b], "mutable view {v:02x?} of {model:02x?} {a}..{b}");
                if a < b {
                    let k = s.below(b - a);
                    v[k] = s.byte();
                    model[a + k] = v[k];
                    s.label("write through the view");
                }
            }
            2 => ensure!(o.inner_ref().as_ref() == &model[..], "owner is {:02x?}, expected {model:02x?}", o.inner_ref().as_ref()),
            3 => {
                if n > 0 {
                    let k = s.below(n);
                    let x = s.byte();
                    o.inner_mut().as_mut()[k] = x;
                    model[k] = x;
                    s.label("write to the owner");
                }
            }
            4 => {
                // as the buffer of a byte decoder
                let data = s.bytes(b - a);
                let mut fed = data.clone();
                fed.extend(s.bytes(2));
                let mut d = BytesDecoder::new(o);
                match feed(s, &mut d, &fed, false)? {
                    (k, Some(Ok(x))) => {
                        ensure!(k == b - a, "{k} bytes decoded into a range of {}", b - a);
                        o = x;
                    }
                    (k, r) => fail!("decoding into {a}..{b}: {:?} after {k}", r.map(|r| r.map(|_| ()))),
                }
                model[a..b].copy_from_slice(&data);
                ensure!(o.inner_ref().as_ref() == &model[..], "owner after decoding is {:02x?}, expected {model:02x?}", o.inner_ref().as_ref());
                s.label("decoded into");
            }
            _ => {
                let mut e = BytesEncoder::new();
                ensure!(e.start_encoding(o.clone()).is_ok(), "refused");
                match pump(s, &mut e, n + 8)? {
                    Ok(x) => ensure!(x == model[a..b], "encoded {x:02x?}, expected {:02x?}", &model[a..b]),
                    Err(k) => fail!("{k:?}"),
                }
                s.label("encoded from");
            }
        }
    }
    ensure!(o.into_inner().as_ref() == &model[..], "the owner came back changed");
    Ok(())
}
fn c38(s: &mut Src) -> R {
    let n = s.wide(40);
    let b = s.bytes(n);
    match s.draw(5) {
        0 | 1 => owned(s, b),
        2 => owned(s, b.into_boxed_slice()),
        3 => {
            let mut a = [0u8; 8];
            a.iter_mut().for_each(|x| *x = s.byte());
            owned(s, a)
        }
        _ => {
            // a slice of a slice
            let x = s.range(0, n);
            let y = s.range(x, n);
            owned(s, OwnedSlice::new(b, x, y))
        }
    }
}
/// Elements other than bytes.
fn c38_other(s: &mut Src) -> R {
    let n = s.wide(20);
    let v: Vec<String> = (0..n).map(|_| gen_string(s, 3)).collect();
    let a = s.range(0, n);
    let b = s.range(a, n);
    s.nontrivial_if(b > a && b - a < n);
    let mut o = OwnedSlice::new(v.clone(), a, b);
    let view: &[String] = o.as_ref();
    ensure!(view == &v[a..b], "view {view:?} of {v:?} {a}..{b}");
    let mut model = v;
    for (i, x) in AsMut::<[String]>::as_mut(&mut o).iter_mut().enumerate() {
        x.push('!');
        model[a + i].push('!');
    }
    ensure!(o.into_inner() == model, "owner came back changed");
    Ok(())
}
/// A range that is none of the owner's: nothing is shown, shared or mutable.
fn no_view(first: Vec<u8>, then: Vec<u8>, a: usize, b: usize) -> R {
    use std::panic::{catch_unwind, AssertUnwindSafe};
    let seen = catch_unwind(AssertUnwindSafe(|| {
        let mut o = OwnedSlice::new(first.clone(), a, b);
        *o.inner_mut() = then.clone();
        AsRef::<[u8]>::as_ref(&o).to_vec()
    }));
    ensure!(seen.is_err(), "range {a}..{b} of {then:02x?} shows {seen:02x?}");
    let seen = catch_unwind(AssertUnwindSafe(|| {
        let mut o = OwnedSlice::new(first, a, b);
        *o.inner_mut() = then.clone();
        AsMut::<[u8]>::as_mut(&mut o).to_vec()
    }));
    ensure!(seen.is_err(), "range {a}..{b} of {then:02x?} shows {seen:02x?}, mutably");
    Ok(())
}
/// The owner is exchanged for a longer or shorter one.
fn c38_resized(s: &mut Src) -> R {
    let n = s.range(0, 8);
    let orig = s.bytes(n);
    let a = s.range(0, n);
    let b = s.range(a, n);
    let m = s.range(0, 12);
    let then = s.bytes(m);
    s.note(|| format!("{a}..{b} of {orig:02x?}, then of {then:02x?}"));
    s.nontrivial_if(m != n && b > a);
    if b > m {
        return no_view(orig, then, a, b);
    }
    let mut o = OwnedSlice::new(orig, a, b);
    *o.inner_mut() = then.clone();
    ensure!(AsRef::<[u8]>::as_ref(&o) == &then[a..b], "view of {then:02x?} {a}..{b}");
    AsMut::<[u8]>::as_mut(&mut o).fill(0xEE);
    let mut want = then;
    want[a..b].fill(0xEE);
    ensure!(o.into_inner() == want, "owner changed outside {a}..{b}");
    Ok(())
}
/// Every range of every owner of up to 7 bytes, and every range that is none.
fn c38_small(i: u64) -> R {
    let (n, a, b) = ((i / 64) as usize, (i / 8 % 8) as usize, (i % 8) as usize);
    let orig: Vec<u8> = (0..n as u8).map(|x| x + 1).collect();
    if a > b || b > n {
        return no_view(orig.clone(), orig, a, b);
    }
    let mut o = OwnedSlice::new(orig.clone(), a, b);
    ensure!(AsRef::<[u8]>::as_ref(&o) == &orig[a..b], "{n} {a}..{b}");
    AsMut::<[u8]>::as_mut(&mut o).fill(0xEE);
    let mut want = orig;
    want[a..b].fill(0xEE);
    ensure!(o.inner_ref() == &want && o.into_inner() == want, "{n} {a}..{b} mutable");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop::new("C05")
            .sub("any", 720_000, "a composed pair, at least two items of together more than two bytes", c05_any)
            .large("large", 4000, "a composed pair, at least two items of together more than two bytes", c05_any)
            .long("long", 9000, "a composed pair, at least two items of together more than two bytes", c05_any)
            .sub("deep", 240_000, "a composed pair, at least two items of together more than two bytes", c05_deep)
            .assume("pairs are those of enc::counterpart; items are those the reference model maps to bytes and back"),
        Prop::new("C21")
            .sub("padding-encoder", 480_000, "two items and more than two bytes of padding", c21_encoder)
            .large("large-encoder", 4000, "two items and more than two bytes of padding", c21_encoder)
            .long("long-encoder", 9000, "two items and more than two bytes of padding", c21_encoder)
            .sub("padding-decoder", 720_000, "more than two bytes of padding", c21_decoder)
            .large("large-decoder", 4000, "more than two bytes of padding", c21_decoder)
            .long("long-decoder", 9000, "more than two bytes of padding", c21_decoder)
            .sub("padded-field", 360_000, "a field partly filled by its body", c21_field)
            .large("large-field", 4000, "a field partly filled by its body", c21_field)
            .long("long-field", 9000, "a field partly filled by its body", c21_field)
            .sub("null", 240_000, "more than three bytes offered", c21_null).long("long-null", 9000, "more than three bytes offered", c21_null),
        Prop::new("C22")
            .sub("encode", 480_000, "more than two bytes, or a multi-byte character", c22_encode)
            .large("large-encode", 4000, "more than two bytes, or a multi-byte character", c22_encode)
            .long("long-encode", 9000, "more than two bytes, or a multi-byte character", c22_encode)
            .sub("one-shot", 480_000, "more than two bytes", c22_oneshot)
            .large("large-one-shot", 4000, "more than two bytes", c22_oneshot)
            .sub("fixed", 360_000, "more than two bytes", c22_fixed)
            .large("large-fixed", 4000, "more than two bytes", c22_fixed)
            .long("long-fixed", 9000, "more than two bytes", c22_fixed)
            .sub("to-the-end", 240_000, "a second stream of more than two bytes", c22_remaining)
            .large("large-to-the-end", 4000, "a second stream of more than two bytes", c22_remaining)
            .long("long-to-the-end", 9000, "a second stream of more than two bytes", c22_remaining)
            .sub("utf8", 720_000, "more than one byte, one of them not ASCII", c22_utf8).long("long-utf8", 1500, "more than one byte, one of them not ASCII", c22_utf8)
            .large("large-utf8", 4000, "more than one byte, one of them not ASCII", c22_utf8)
            .exhaust("utf8-two-bytes", 65_536, "every sequence of one or two bytes, split in the middle", c22_two)
            .exhaust("utf8-three-bytes", 163_840, "lead bytes from C0, every second byte, boundary third bytes", c22_three)
            .exhaust("utf8-four-bytes", 409_600, "lead bytes from F0, every second byte, boundary third and fourth bytes", c22_four),
        Prop::new("C23")
            .sub("json", 480_000, "a text of more than two bytes", c23_json)
            .large("large-json", 3000, "a text of more than two bytes", c23_json)
            .long("long-json", 9000, "a text of more than two bytes", c23_json)
            .sub("bincode", 360_000, "more than two bytes", c23_bincode)
            .large("large-bincode", 3000, "more than two bytes", c23_bincode)
            .long("long-bincode", 9000, "more than two bytes", c23_bincode)
            .sub("own-decode", 360_000, "a second item of more than two bytes", c23_own_decode)
            .large("large-own-decode", 3000, "a second item of more than two bytes", c23_own_decode)
            .long("long-own-decode", 9000, "a second item of more than two bytes", c23_own_decode)
            .sub("own-encode", 360_000, "a second item of more than two bytes", c23_own_encode)
            .large("large-own-encode", 3000, "a second item of more than two bytes", c23_own_encode)
            .long("long-own-encode", 9000, "a second item of more than two bytes", c23_own_encode)
            .sub("refused", 150_000, "a valid item after one the serializer refuses", c23_refused)
            .long("long-refused", 5000, "a valid item after one the serializer refuses", c23_refused)
            .pin("item-held", pin_mono_hold)
            .pin("output-ended", pin_mono_eos)
            .assume("serde_json and bincode are the serializers meant; bincode lengths are not hostile"),
        Prop::new("C38")
            .sub("bytes", 720_000, "a range of at least two bytes that is not everything", c38)
            .large("large-bytes", 3000, "a range of at least two bytes that is not everything", c38)
            .long("long-bytes", 9000, "a range of at least two bytes that is not everything", c38)
            .large("large-other-elements", 1000, "a range that is neither empty nor everything", c38_other)
            .long("long-other-elements", 9000, "a range that is neither empty nor everything", c38_other)
            .sub("other-elements", 240_000, "a range that is neither empty nor everything", c38_other)
            .sub("resized", 60_000, "another length, and a range with bytes", c38_resized)
            .exhaust("small", 512, "every range of owners of up to seven bytes, valid or not", c38_small),
    ]
}
