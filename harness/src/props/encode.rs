//! Properties of encoder compositions: random trees against a reference serializer.
use crate::enc::*;
use crate::engine::{Fail, Prop, Src, R};
use crate::spec::{ebit, kbit, kname, mkerr, reject, KINDS, UE};
use crate::val::{DynEnc, DynSized, Fix, Given, Val, FIXES, UINTS};
use crate::{ensure, fail};
use bytecodec::bytes::{BytesEncoder, Utf8Encoder};
use bytecodec::fixnum::{U16beEncoder, U8Encoder};
use bytecodec::json_codec::JsonEncoder;
use bytecodec::tuple::TupleEncoder;
use bytecodec::{ByteCount, Encode, EncodeExt, Eos, ErrorKind, SizedEncode};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

const NEED: Opt = Opt { need: true, busy: false, eos: false };
const BUSY: Opt = Opt { need: false, busy: true, eos: false };
const EOS: Opt = Opt { need: false, busy: false, eos: true };

fn any(s: &mut Src) -> E {
    let depth = s.range(0, 4);
    let sized = s.one_in(3);
    gen(s, depth, Ctx { sized })
}
fn check(s: &mut Src, e: &E, o: Opt) -> R {
    let r = drive(s, e, 3, o)?;
    s.nontrivial_if(nodes(e) > 1 && (r.bytes > 1 || r.failed));
    Ok(())
}
/// Sometimes puts the tree under test inside another combinator.
fn wrap(s: &mut Src, x: E) -> E {
    let leaf = |s: &mut Src| -> E { Rc::new(ES::Fix(*s.pick(FIXES))) };
    match s.draw(12) {
        0 => Rc::new(ES::Map(x)),
        1 => Rc::new(ES::Optional(x)),
        2 => Rc::new(ES::Slice(x)),
        3 => {
            let (a, b) = (leaf(s), leaf(s));
            Rc::new(ES::Tuple(if s.bool() { vec![a, x, b] } else { vec![x, b] }))
        }
        4 => Rc::new(ES::Repeat(x)),
        5 => Rc::new(ES::LenPrefix(len_kind(s), x)),
        6 => Rc::new(ES::Count(*s.pick(UINTS), x)),
        7 => Rc::new(ES::Dispatch(vec![x.clone(), x])),
        8 => Rc::new(ES::Pre(x)),
        _ => x,
    }
}

// ---- C04 ----
fn c04_any(s: &mut Src) -> R {
    let e = any(s);
    check(s, &e, PLAIN)
}
fn c04_deep(s: &mut Src) -> R {
    let x = gen(s, 3, Ctx { sized: false });
    let e = wrap(s, x);
    check(s, &e, PLAIN)
}

// ---- C06 ----
fn c06_any(s: &mut Src) -> R {
    let e = any(s);
    check(s, &e, NEED)
}
fn c06_sized(s: &mut Src) -> R {
    let x = gen(s, 3, Ctx { sized: true });
    let e: E = match s.draw(4) {
        0 => gen_tuple(s, 2, Ctx { sized: true }),
        1 => {
            let l = gen_length(s, 2);
            wrap(s, l)
        }
        2 => Rc::new(ES::Optional(x)),
        _ => x,
    };
    check(s, &e, NEED)
}
/// The same tree reports the same through its plain and its size-knowing side, for the same calls.
fn c06_both(s: &mut Src) -> R {
    let e = gen(s, 3, Ctx { sized: true });
    let Some((v, bytes)) = gen_valid(&e, s, s.size) else { return Ok(()) };
    s.note(|| format!("{e:?} item {v:?}"));
    let mut a = build(&e);
    let mut b = build_sized(&e);
    for x in [a.start_encoding(v.clone()), b.start_encoding(v.clone())] {
        ensure!(x.is_ok(), "valid item {v:?} refused: {:?}; {e:?}", x.map_err(|e| *e.kind()));
    }
    let mut pos = 0;
    loop {
        let left = (bytes.len() - pos) as u64;
        ensure!(b.exact_requiring_bytes() == left, "exact_requiring_bytes {} with {left} to go; {e:?} {v:?}", b.exact_requiring_bytes());
        ensure!(b.requiring_bytes() == a.requiring_bytes(), "needs {:?} as SizedEncode, {:?} as Encode; {e:?} {v:?}", b.requiring_bytes(), a.requiring_bytes());
        if let ByteCount::Finite(n) = a.requiring_bytes() {
            ensure!(n == left, "requiring_bytes {n} with {left} to go; {e:?} {v:?}");
        }
        if left == 0 {
            break;
        }
        let c = s.range(1, 9);
        let (mut x, mut y) = (vec![0u8; c], vec![0u8; c]);
        let n = a.encode(&mut x, Eos::new(false)).map_err(|e| *e.kind());
        let m = b.encode(&mut y, Eos::new(false)).map_err(|e| *e.kind());
        let Ok(k) = n else { fail!("encode failed with {n:?}; {e:?} {v:?}") };
        ensure!(n == m && k > 0 && x[..k] == y[..k], "encode gave {n:?} and {m:?}; {e:?} {v:?}");
        pos += k;
        ensure!(pos <= bytes.len(), "too many bytes; {e:?} {v:?}");
    }
    s.nontrivial_if(nodes(&e) > 1 && pos > 1);
    Ok(())
}
/// Encoders with one more item: what they report and what they write.
fn last(s: &mut Src, need: bool) -> R {
    let sized = s.bool();
    let e = gen(s, 2, Ctx { sized });
    let Some((v2, b2)) = gen_valid(&e, s, 16) else { return Ok(()) };
    // items without bytes keep an encoder busy too
    let room = if s.one_in(3) { 0 } else { 16 };
    let first = if s.bool() { gen_valid(&e, s, room) } else { None };
    let untouched = s.one_in(3);
    s.note(|| format!("last over {e:?}: first {first:?}, last {v2:?} {b2:02x?}"));
    let mut rest: Vec<u8> = vec![];
    enum L {
        P(bytecodec::combinator::Last<DynEnc>),
        S(bytecodec::combinator::Last<DynSized>),
    }
    let mut put = |s: &mut Src, x: &mut dyn Encode<Item = Val>| -> R {
        if let Some((v, b)) = &first {
            if let Err(e) = x.start_encoding(v.clone()) {
                fail!("valid item {v:?} refused with {:?}", e.kind());
            }
            s.label_if(untouched && b.is_empty() && !x.is_idle(), "busy with an item of no bytes");
            let k = if untouched { 0 } else { s.range(0, b.len()) };
            if !untouched {
                let mut buf = vec![0; k];
                let n = x.encode(&mut buf, Eos::new(false)).map_err(|e| *e.kind());
                ensure!(n == Ok(k) && buf == b[..k], "first item: encode gave {n:?} {buf:02x?}");
            }
            rest = b[k..].to_vec();
        }
        Ok(())
    };
    let mut l = if sized && s.bool() {
        let mut x = build_sized(&e);
        put(s, &mut x)?;
        L::S(x.last(v2.clone()))
    } else {
        let mut x = build(&e);
        put(s, &mut x)?;
        L::P(x.last(v2.clone()))
    };
    let split = rest.len();
    rest.extend(&b2);
    let total = rest.len();
    let mut pos = 0;
    let mut calls = 0;
    let mut known = false;
    s.label_if(split > 0, "asked while the inner encoder is busy");
    s.nontrivial_if(total > 1);
    loop {
        let left = (total - pos) as u64;
        let (n, x, idle) = match &l {
            L::P(l) => (l.requiring_bytes(), None, l.is_idle()),
            L::S(l) => (l.requiring_bytes(), Some(l.exact_requiring_bytes()), l.is_idle()),
        };
        if need {
            match n {
                ByteCount::Finite(n) => ensure!(n == left, "requiring_bytes {n} with {left} to go; last over {e:?}, {v2:?}"),
                ByteCount::Unknown => ensure!(!idle, "idle but requiring_bytes is Unknown"),
                ByteCount::Infinite => fail!("requiring_bytes is Infinite with {left} to go"),
            }
            if let Some(x) = x {
                if x != left {
                    // recorded: before the inner encoder is done with its item, the pending one is left out
                    ensure!(calls == 0 || pos < split, "exact_requiring_bytes {x} with {left} to go; last over {e:?}, {v2:?}");
                    ensure!(x == split.saturating_sub(pos) as u64, "exact_requiring_bytes {x} with {left} to go, {} of the first item; last over {e:?}, {v2:?}", split.saturating_sub(pos));
                    known = true;
                }
            }
        }
        if left > 0 {
            ensure!(!idle, "idle with {left} bytes unwritten; last over {e:?}, {v2:?}");
        }
        if idle {
            break;
        }
        let c = match s.draw(4) {
            0 => 0,
            1 => 1,
            2 => s.range(0, 6),
            _ => left as usize + s.range(0, 3),
        };
        let mut buf = vec![0xA5u8; c];
        // the distance to the end of the output, where there is room for everything
        let eos = match s.draw(3) {
            0 => Eos::new(false),
            1 => Eos::with_remaining_bytes(ByteCount::Finite(left.saturating_sub(c as u64))),
            _ => Eos::with_remaining_bytes(ByteCount::Finite(left.saturating_sub(c as u64) + s.below(4) as u64)),
        };
        let r = match &mut l {
            L::P(l) => l.encode(&mut buf, eos),
            L::S(l) => l.encode(&mut buf, eos),
        };
        calls += 1;
        ensure!(calls < 1000 + 20 * total, "never idle; last over {e:?}, {v2:?}");
        s.note(|| format!("encode(room {c}, {eos:?}) -> {:?}", r.as_ref().map_err(|e| *e.kind())));
        match r {
            Ok(n) => {
                ensure!(n == c.min(left as usize), "wrote {n} with room {c} and {left} to go; last over {e:?}, {v2:?}");
                ensure!(buf[..n] == rest[pos..pos + n], "wrong bytes {:02x?} at {pos} of {rest:02x?}; last over {e:?}", &buf[..n]);
                pos += n;
            }
            Err(x) => fail!("encode failed with {:?}; last over {e:?}, {v2:?}", x.kind()),
        }
    }
    ensure!(pos == total, "idle after {pos} of {total} bytes; last over {e:?}, {v2:?}");
    if known { Err(Fail::Known("last-exact")) } else { Ok(()) }
}
/// A need is a need under whatever grant: what a sliced encoder reports is what is left of its item.
fn c06_slice(s: &mut Src) -> R {
    let e = gen(s, 2, Ctx { sized: true });
    let mut d = build_sized(&e).slice();
    let mut grant = 0u64;
    for item in s.turns(1, 3) {
        let Some((v, bytes)) = gen_valid(&e, s, s.size) else { return Ok(()) };
        s.note(|| format!("slice over {e:?}, item {v:?} {bytes:02x?}"));
        if let Err(x) = d.start_encoding(v.clone()) {
            fail!("valid item {v:?} refused with {:?}; slice over {e:?}", x.kind());
        }
        let mut pos = 0;
        let mut calls = 0;
        loop {
            let left = bytes.len() - pos;
            ensure!(d.exact_requiring_bytes() == left as u64, "exact_requiring_bytes {} with {left} to go and {grant} granted; slice over {e:?}, {v:?}", d.exact_requiring_bytes());
            if let ByteCount::Finite(n) = d.requiring_bytes() {
                ensure!(n == left as u64, "requiring_bytes {n} with {left} to go and {grant} granted; slice over {e:?}, {v:?}");
            }
            if left == 0 && d.is_idle() {
                break;
            }
            calls += 1;
            ensure!(calls < 200 + bytes.len(), "no end; slice over {e:?}");
            if calls > 100 {
                grant = u64::MAX;
                d.set_consumable_bytes(grant);
            } else if s.bool() {
                grant = s.range(0, left + 2) as u64;
                d.set_consumable_bytes(grant);
                s.label_if(grant > 0 && grant < left as u64, "a grant smaller than the need");
                continue;
            }
            let c = if calls > 100 { left + 1 } else { s.range(0, 9) };
            let mut b = vec![0u8; c];
            let n = d.encode(&mut b, Eos::new(false)).map_err(|e| *e.kind());
            let want = (c as u64).min(grant).min(left as u64) as usize;
            ensure!(n == Ok(want) && b[..want] == bytes[pos..pos + want], "encode(room {c}) with {grant} granted and {left} to go gave {n:?}, expected {want}; slice over {e:?}, {v:?}");
            pos += want;
            grant -= want as u64;
        }
        s.nontrivial_if(bytes.len() > 1 && (item > 0 || calls > 2));
    }
    Ok(())
}
fn c06_last(s: &mut Src) -> R {
    last(s, true)
}
fn c20_last(s: &mut Src) -> R {
    last(s, false)
}
fn k1_demo() -> Result<bool, String> {
    let l = U16beEncoder::new().last(7);
    match l.exact_requiring_bytes() {
        0 => Ok(true),
        2 => Ok(false),
        n => Err(format!("exact_requiring_bytes is {n}")),
    }
}

// ---- C07 ----
fn c07_busy(s: &mut Src) -> R {
    let e = any(s);
    let o = Opt { need: s.bool(), ..BUSY };
    let r = drive(s, &e, 3, o)?;
    s.nontrivial_if(nodes(&e) > 1 && r.bytes > 1);
    Ok(())
}
fn c07_tuple_busy(s: &mut Src) -> R {
    let x = gen_tuple(s, 2, Ctx { sized: false });
    let e = wrap(s, x);
    let r = drive(s, &e, 2, BUSY)?;
    s.nontrivial_if(r.bytes > 1);
    Ok(())
}
/// An item `e` refuses when it is offered, if one is found.
fn gen_refused(e: &ES, s: &mut Src) -> Option<Val> {
    for _ in 0..12 {
        let v = gen_val(e, s, 16);
        if matches!(ser(e, &v), Ser::Refused(_)) {
            return Some(v);
        }
    }
    None
}
/// A tree that can refuse items and starts one component at a time.
fn gen_refuser(s: &mut Src, depth: usize) -> E {
    if depth == 0 {
        return Rc::new(match s.draw(3) {
            0 => ES::TryMap(Rc::new(ES::Fix(*s.pick(FIXES)))),
            1 => ES::TryMap(Rc::new(ES::Bytes)),
            _ => ES::Fix(*s.pick(&[Fix::U24be, Fix::U24le, Fix::U40be, Fix::U40le, Fix::U48be, Fix::U48le, Fix::U56be, Fix::U56le])),
        });
    }
    let i = gen_refuser(s, depth - 1);
    Rc::new(match s.draw(8) {
        0 => ES::Map(i),
        1 => ES::TryMap(i),
        2 => ES::MapErr(if s.bool() { Some(*s.pick(KINDS)) } else { None }, i),
        3 => ES::Optional(i),
        4 => ES::MaxBytes(u64::MAX, i),
        5 => ES::Slice(i),
        6 if !contains(&i, &|x| matches!(x, ES::Length(..))) => ES::Pre(i),
        _ => {
            let n = match gen_valid(&i, s, 16) {
                Some((_, b)) => b.len() as u64,
                None => 4,
            };
            ES::Length(n, i, None)
        }
    })
}
/// Refused, valid, refused, ... on one instance.
fn c07_refused(s: &mut Src) -> R {
    let d = s.range(0, 4);
    let e = gen_refuser(s, d);
    s.note(|| format!("encoder {e:?}"));
    let mut enc = Enc::new(&e, s);
    let mut refused = 0;
    for _ in s.turns(2, 5) {
        let v = if s.bool() { gen_refused(&e, s) } else { gen_valid(&e, s, 16).map(|v| v.0) };
        let Some(v) = v else { continue };
        match drive_item(s, &e, &mut enc, &v, Opt { need: true, busy: true, eos: false })? {
            EncEnd::Refused => {
                refused += 1;
                ensure!(enc.get().is_idle(), "a refused item left the encoder busy; {e:?} item {v:?}");
                let mut b = [0xA5u8; 4];
                let r = enc.get().encode(&mut b, Eos::new(s.bool())).map_err(|e| *e.kind());
                ensure!(r == Ok(0) && b == [0xA5; 4], "after a refused item encode gave {r:?} {b:02x?}; {e:?} item {v:?}");
            }
            EncEnd::Done if refused > 0 => s.nontrivial(),
            EncEnd::Done => {}
            EncEnd::Failed => return Ok(()),
        }
    }
    Ok(())
}
/// `leaf` under encoders that hand their item on.
pub fn gen_passing(s: &mut Src, leaf: ES, depth: usize) -> E {
    let mut e = leaf;
    for _ in 0..depth {
        let i = Rc::new(e);
        e = match s.draw(6) {
            0 => ES::Map(i),
            1 => ES::TryMap(i),
            2 => ES::MapErr(if s.bool() { Some(*s.pick(KINDS)) } else { None }, i),
            3 => ES::Optional(i),
            4 => ES::MaxBytes(u64::MAX, i),
            _ => ES::Slice(i),
        };
    }
    Rc::new(e)
}
/// An item for such a chain that reaches the leaf.
fn wrap_item(e: &ES, v: Val) -> Val {
    match e {
        ES::Map(i) => Val::M(1, Box::new(wrap_item(i, v))),
        ES::TryMap(i) => Val::M(2, Box::new(wrap_item(i, v))),
        ES::Optional(i) => Val::O(Some(Box::new(wrap_item(i, v)))),
        ES::MapErr(_, i) | ES::MaxBytes(_, i) | ES::Slice(i) => wrap_item(i, v),
        _ => v,
    }
}
/// The padding encoder takes no other item before it has filled up the output.
fn c07_padding(s: &mut Src) -> R {
    let d = s.range(0, 4);
    let e = gen_passing(s, ES::Pad, d);
    s.note(|| format!("encoder {e:?}"));
    let mut enc = build(&e);
    let mut cur: Option<u8> = None;
    for _ in s.turns(2, 14) {
        match s.draw(3) {
            0 => {
                let b = match cur {
                    Some(b) if s.bool() => b,
                    _ => s.byte(),
                };
                let v = wrap_item(&e, Val::U(u64::from(b)));
                if matches!(ser(&e, &v), Ser::Refused(_)) {
                    continue;
                }
                let r = enc.start_encoding(v).map_err(|e| *e.kind());
                s.note(|| format!("start({b}) -> {r:?}"));
                match (cur, r) {
                    (None, Ok(())) => cur = Some(b),
                    (Some(_), Err(k)) => {
                        ensure!(kbit(k) & full_mask(&e) != 0, "padding {cur:?}: item {b} refused with {k:?}; {e:?}");
                        s.nontrivial();
                    }
                    (_, r) => fail!("padding {cur:?}: start_encoding({b}) gave {r:?}; {e:?}"),
                }
            }
            _ => {
                let mut buf = vec![0xA5; s.len(12)];
                let eos = s.one_in(4);
                let r = enc.encode(&mut buf, Eos::new(eos)).map_err(|e| *e.kind());
                s.note(|| format!("encode(room {}, {eos}) -> {r:?} {buf:02x?}", buf.len()));
                let want = if cur.is_some() { buf.len() } else { 0 };
                ensure!(r == Ok(want), "padding {cur:?}: encode in room {} gave {r:?}; {e:?}", buf.len());
                let b = cur.unwrap_or(0xA5);
                ensure!(buf.iter().all(|&x| x == b), "padding {cur:?}: wrote {buf:02x?}; {e:?}");
                if eos {
                    cur = None;
                }
            }
        }
        ensure!(enc.is_idle() == cur.is_none(), "padding {cur:?}: is_idle is {}; {e:?}", enc.is_idle());
    }
    Ok(())
}
/// What an inner encoder answers to an item it cannot take now reaches the caller, through any number of layers.
pub fn c35_busy(s: &mut Src) -> R {
    let k = *s.pick(KINDS);
    let d = s.range(1, 6);
    let e = gen_passing(s, ES::Own(k), d);
    let n = s.range(2, 9);
    let v = wrap_item(&e, Val::B(s.bytes(n)));
    if matches!(ser(&e, &v), Ser::Refused(_)) {
        return Ok(());
    }
    s.note(|| format!("encoder {e:?} item {v:?}"));
    let mut enc = Enc::new(&e, s);
    let r = enc.get().start_encoding(v.clone()).map_err(|e| *e.kind());
    ensure!(r == Ok(()), "valid item {v:?} refused with {r:?}; {e:?}");
    let mut left = n;
    while left > 0 {
        for _ in 0..s.range(0, 2) {
            let m = s.len(6);
            let w = if s.bool() { v.clone() } else { wrap_item(&e, Val::B(s.bytes(m))) };
            let Ser::Run { .. } = ser(&e, &w) else { continue };
            match enc.get().start_encoding(w.clone()) {
                Err(x) => ensure!(ebit(&x) & full_mask(&e) != 0, "the inner encoder refuses an item with {}, the caller gets {:?}; {e:?}", kname(full_mask(&e)), x.kind()),
                Ok(()) => fail!("an item was accepted, the inner encoder refuses it; {e:?}"),
            }
            s.nontrivial();
        }
        let c = s.range(1, 3).min(left);
        let mut buf = [0u8; 3];
        let r = enc.get().encode(&mut buf[..c], Eos::new(false)).map_err(|e| *e.kind());
        ensure!(r == Ok(c), "encode in room {c} gave {r:?}; {e:?}");
        left -= c;
    }
    Ok(())
}
/// A tuple one of whose members refuses its part.
fn c07_tuple_refused(s: &mut Src) -> R {
    let n = s.range(2, 8);
    let bad = s.below(n);
    let ms: Vec<E> = (0..n)
        .map(|i| {
            if i == bad {
                let d = s.range(0, 1);
                gen_refuser(s, d)
            } else {
                Rc::new(match s.draw(4) {
                    0 => ES::Fix(*s.pick(FIXES)),
                    1 => ES::Bytes,
                    2 => ES::Utf8,
                    _ => ES::Repeat(Rc::new(ES::Fix(Fix::U16be))),
                })
            }
        })
        .collect();
    let mut parts = vec![];
    let mut before: Vec<u8> = vec![];
    for (i, m) in ms.iter().enumerate() {
        let v = if i == bad { gen_refused(m, s) } else { gen_valid(m, s, 8).map(|v| v.0) };
        let Some(v) = v else { return Ok(()) };
        if i < bad {
            if let Ser::Run { bytes, .. } = ser(m, &v) {
                before.extend(bytes);
            }
        }
        parts.push(v);
    }
    let e: E = Rc::new(ES::Tuple(ms));
    let v = Val::T(parts);
    s.note(|| format!("{e:?}, member {bad} refuses {v:?}; {before:02x?} precede it"));
    let Ser::Refused(k) = ser(&e, &v) else { return Ok(()) };
    let mut enc = Enc::new(&e, s);
    match enc.get().start_encoding(v.clone()) {
        Ok(()) => fail!("item {v:?} accepted, expected {}; {e:?}", kname(k)),
        Err(x) => ensure!(ebit(&x) & k != 0, "refused with {:?}, expected {}; {e:?}", x.kind(), kname(k)),
    }
    s.nontrivial_if(!before.is_empty());
    s.label_if(before.is_empty(), "nothing precedes the refusing member");
    if !enc.get().is_idle() {
        // recorded: the parts before the refusing one stay queued; anything else is new
        let mut out: Vec<u8> = vec![];
        for _ in 0..before.len() + 40 {
            let mut b = [0u8; 7];
            let c = s.range(1, 7);
            match enc.get().encode(&mut b[..c], Eos::new(false)) {
                Ok(n) => out.extend(&b[..n]),
                Err(x) => fail!("after a refused item encode fails with {:?}; {e:?} item {v:?}", x.kind()),
            }
            if enc.get().is_idle() {
                break;
            }
        }
        ensure!(enc.get().is_idle() && out == before, "after a refused item the encoder writes {out:02x?}; the parts before the refusing one are {before:02x?}; {e:?} item {v:?}");
        // the members behind must not have kept anything: the next item is encoded in full
        if let Some((w, _)) = gen_valid(&e, s, 8) {
            drive_item(s, &e, &mut enc, &w, PLAIN)?;
        }
        if before.is_empty() {
            // queued parts without bytes (an encoder of an empty sequence): nothing was written
            return Ok(());
        }
        return Err(Fail::Known("tuple-partial-start"));
    }
    if let Some((w, _)) = gen_valid(&e, s, 8) {
        drive_item(s, &e, &mut enc, &w, NEED)?;
    }
    Ok(())
}
/// A pre-encoding encoder refuses what its inner encoder fails to encode.
fn c07_pre_failed(s: &mut Src) -> R {
    let n = s.range(0, 9);
    let mut e: E = Rc::new(ES::Length(n as u64, Rc::new(ES::Bytes), None));
    for _ in 0..s.range(0, 2) {
        e = Rc::new(match s.draw(2) {
            0 => ES::MapErr(None, e),
            _ => ES::Slice(e),
        });
    }
    let e: E = Rc::new(ES::Pre(e));
    s.note(|| format!("encoder {e:?}"));
    let mut enc = Enc::new(&e, s);
    for _ in 0..s.range(0, 2) {
        let v = Val::B(s.bytes(n));
        drive_item(s, &e, &mut enc, &v, NEED)?;
    }
    let len = if n > 0 && s.bool() { s.below(n) } else { n + s.range(1, 5) };
    let v = Val::B(s.bytes(len));
    if drive_item(s, &e, &mut enc, &v, NEED)? != EncEnd::Refused {
        fail!("item of {len} bytes not refused; {e:?}");
    }
    s.nontrivial();
    let mut b = [0xA5u8; 4];
    let r = enc.get().encode(&mut b, Eos::new(s.bool())).map_err(|e| *e.kind());
    ensure!(r == Ok(0) && b == [0xA5; 4] && enc.get().is_idle(), "after a refused item encode gave {r:?} {b:02x?}; {e:?} item {v:?}");
    let w = Val::B(s.bytes(n));
    match enc.get().start_encoding(w.clone()) {
        // recorded: the inner encoder is stuck in the refused item
        Err(x) if *x.kind() == ErrorKind::EncoderFull => Err(Fail::Known("pre-encode-stuck")),
        Err(x) => fail!("valid item {w:?} after a refused one: {:?}; {e:?}", x.kind()),
        Ok(()) => {
            let mut out = vec![0u8; n + 4];
            let r = enc.get().encode(&mut out, Eos::new(false)).map_err(|e| *e.kind());
            ensure!(r == Ok(n) && Val::B(out[..n].to_vec()) == w && enc.get().is_idle(), "valid item {w:?} after a refused one written as {r:?} {out:02x?}; {e:?}");
            Ok(())
        }
    }
}
fn k3_demo() -> Result<bool, String> {
    let mut e = BytesEncoder::<Vec<u8>>::new().length(2).pre_encode();
    if e.start_encoding(vec![1, 2, 3]).is_ok() || !e.is_idle() {
        return Err("too long item accepted".into());
    }
    match e.start_encoding(vec![1, 2]).map_err(|e| *e.kind()) {
        Err(ErrorKind::EncoderFull) => Ok(true),
        Ok(()) => Ok(false),
        r => Err(format!("{r:?}")),
    }
}
fn k2_demo() -> Result<bool, String> {
    let mut e = TupleEncoder::new((U8Encoder::new(), bytecodec::fixnum::U24beEncoder::new()));
    if e.start_encoding((7, 1 << 24)).is_ok() {
        return Err("accepted".into());
    }
    if e.is_idle() {
        return Ok(false);
    }
    let mut b = [0; 8];
    match e.encode(&mut b, Eos::new(false)) {
        Ok(1) if b[0] == 7 => Ok(true),
        r => Err(format!("{r:?} {b:?}")),
    }
}
fn pin_tuple_busy() -> R {
    // F9: the first member is idle again, the second is not
    let mut e = U8Encoder::new().chain(U8Encoder::new());
    let mut b = [0; 8];
    ensure!(e.start_encoding((1, 2)).is_ok(), "refused");
    let n = e.encode(&mut b[..1], Eos::new(false)).map_err(|e| *e.kind());
    ensure!(n == Ok(1) && b[0] == 1, "first byte: {n:?}");
    let r = e.start_encoding((3, 4)).map_err(|e| *e.kind());
    ensure!(r == Err(ErrorKind::EncoderFull), "busy tuple encoder: {r:?}");
    let n = e.encode(&mut b, Eos::new(false)).map_err(|e| *e.kind());
    ensure!(n == Ok(1) && b[0] == 2 && e.is_idle(), "after a refused item: {n:?} {b:?}");
    Ok(())
}

// ---- C11 ----
fn c11_any(s: &mut Src) -> R {
    let e = any(s);
    check(s, &e, EOS)
}
/// Every cut position of a valid item, signalled with a full buffer.
fn c11_cut(s: &mut Src) -> R {
    let x = gen(s, 3, Ctx { sized: false });
    let e = wrap(s, x);
    s.note(|| format!("encoder {e:?}"));
    let Some((v, bytes)) = gen_valid(&e, s, 20) else { return Ok(()) };
    let l = bytes.len();
    s.note(|| format!("item {v:?} {bytes:02x?}"));
    let cuts: Vec<usize> = if l <= 12 { (0..=l).collect() } else { (0..8).map(|_| s.below(l + 1)).collect() };
    let ok = eos_mask(&e);
    for cut in cuts {
        let mut enc = Enc::new(&e, s);
        if s.one_in(3) {
            if let Some((w, _)) = gen_valid(&e, s, 10) {
                drive_item(s, &e, &mut enc, &w, PLAIN)?;
                s.label("cut in a later item of the instance");
            }
        }
        if let Err(x) = enc.get().start_encoding(v.clone()) {
            fail!("valid item {v:?} refused with {:?}; {e:?}", x.kind());
        }
        let mut pos = 0;
        while pos < cut && !s.one_in(3) {
            let c = s.range(1, cut - pos);
            let mut b = vec![0; c];
            let r = enc.get().encode(&mut b, Eos::new(false)).map_err(|e| *e.kind());
            ensure!(r == Ok(c) && b == bytes[pos..pos + c], "encode(room {c}) at {pos} gave {r:?}; {e:?} item {v:?}");
            pos += c;
        }
        if pos == l {
            continue;
        }
        let extra = if cut == l && s.bool() { s.range(1, 5) } else { 0 };
        let mut b = vec![0; cut - pos + extra];
        let room = b.len();
        let eos = if s.bool() { Eos::new(true) } else { Eos::with_remaining_bytes(ByteCount::Finite(0)) };
        let r = enc.get().encode(&mut b, eos);
        s.note(|| format!("end of output after {cut}: room {room} at {pos} -> {:?}", r.as_ref().map_err(|e| *e.kind())));
        if cut == l {
            match r {
                Ok(n) => {
                    ensure!(n == l - pos && b[..n] == bytes[pos..], "the last {} bytes: {n} written, {b:02x?}; {e:?} item {v:?}", l - pos);
                    ensure!(enc.get().is_idle(), "not idle after the last byte; {e:?} item {v:?}");
                }
                Err(x) => fail!("the item fits but the end of the output made encode fail with {:?}; {e:?} item {v:?}", x.kind()),
            }
            continue;
        }
        match r {
            Ok(n) => fail!("the output ends {} bytes early but encode succeeded (room {room}, wrote {n}); {e:?} item {v:?}", l - cut),
            Err(x) => ensure!(ebit(&x) & ok != 0, "the output ends {} bytes early: {:?} instead of UnexpectedEos; {e:?} item {v:?}", l - cut, x.kind()),
        }
        s.nontrivial_if(l > 1 && nodes(&e) > 1);
        s.label("cut");
    }
    Ok(())
}
fn pin_mono_eos() -> R {
    // F6: the serializer's output did not fit and the output ends
    let mut e = JsonEncoder::<String>::new();
    ensure!(e.start_encoding("hello".into()).is_ok(), "refused");
    let mut b = [0; 3];
    let r = e.encode(&mut b, Eos::new(true)).map_err(|e| *e.kind());
    ensure!(r == Err(ErrorKind::UnexpectedEos), "3 of 7 bytes and the end: {r:?}");
    Ok(())
}

// ---- C13 ----
fn c13_tree(s: &mut Src) -> R {
    let x = gen_length(s, 3);
    let e = wrap(s, x);
    let o = Opt { need: true, busy: s.one_in(3), eos: s.one_in(3) };
    check(s, &e, o)
}
/// Items shorter and longer than the window, several on one instance; an oracle that needs no model.
fn c13_plain(s: &mut Src) -> R {
    let n = s.len(20);
    let which = s.draw(3);
    let e: Box<dyn Encode<Item = Vec<u8>>> = match which {
        0 => Box::new(BytesEncoder::<Vec<u8>>::new().length(n as u64)),
        1 => Box::new(Fix::U8.enc().repeat().map_from(|v: Vec<u8>| Given::new(v.iter().map(|b| Val::U(u64::from(*b))).collect(), v.len())).length(n as u64)),
        _ => Box::new(JsonEncoder::<Vec<u8>>::new().length(n as u64)),
    };
    let mut e = e.to_val();
    ensure!(e.is_idle() && e.requiring_bytes() == ByteCount::Finite(0), "fresh window of {n}: idle {}, needs {:?}", e.is_idle(), e.requiring_bytes());
    for item in 0..3 {
        let len = match s.draw(5) {
            0 => n + s.range(1, 4),
            1 => n.saturating_sub(s.range(1, 4)),
            _ => n,
        };
        let (v, bytes) = if which == 2 {
            // [1,1,...]: an odd number of bytes
            let v = vec![1u8; len.saturating_sub(1) / 2];
            let b = serde_json::to_vec(&v).unwrap();
            (v, b)
        } else {
            let v = s.bytes(len);
            (v.clone(), v)
        };
        s.note(|| format!("window of {n}, kind {which}: item of {} bytes", bytes.len()));
        if let Err(x) = e.start_encoding(Val::B(v)) {
            fail!("item {item} refused with {:?} by an idle window of {n}", x.kind());
        }
        let mut out: Vec<u8> = vec![];
        let mut calls = 0;
        let r = loop {
            let left = n - out.len();
            let idle = e.is_idle();
            if idle {
                break Ok(());
            }
            ensure!(e.requiring_bytes() == ByteCount::Finite(left as u64), "window of {n}: needs {:?} after {} bytes", e.requiring_bytes(), out.len());
            let c = if s.one_in(6) { 0 } else { s.range(1, left.max(1) + 2) };
            let mut b = vec![0; c];
            calls += 1;
            ensure!(calls < 500, "window of {n}: never ends");
            match e.encode(&mut b, Eos::new(false)) {
                Ok(k) => out.extend(&b[..k]),
                Err(x) => break Err(*x.kind()),
            }
            ensure!(out.len() <= n, "{} bytes from a window of {n}", out.len());
        };
        let k = out.len().min(bytes.len());
        ensure!(out[..k] == bytes[..k], "window of {n}: wrote {out:02x?} of {bytes:02x?}");
        if bytes.len() > n {
            ensure!(r == Err(ErrorKind::UnexpectedEos), "item of {} bytes in a window of {n}: {r:?}", bytes.len());
            s.label("item too long");
            s.nontrivial();
            return Ok(());
        }
        if bytes.len() < n {
            ensure!(r == Err(ErrorKind::InvalidInput), "item of {} bytes in a window of {n}: {r:?}", bytes.len());
            s.label("item too short");
            s.nontrivial();
            return Ok(());
        }
        ensure!(r == Ok(()) && out == bytes, "window of {n}: {r:?} {out:02x?}, expected {bytes:02x?}");
        ensure!(e.requiring_bytes() == ByteCount::Finite(0), "window of {n}: idle but needs {:?}", e.requiring_bytes());
        s.label_if(item > 0, "several items");
        s.nontrivial_if(item > 0 && n > 1);
    }
    Ok(())
}
trait ToVal {
    fn to_val(self) -> DynEnc;
}
impl ToVal for Box<dyn Encode<Item = Vec<u8>>> {
    fn to_val(self) -> DynEnc {
        Box::new(self.map_from(|v: Val| match v {
            Val::B(b) => b,
            v => panic!("harness: bad item {v:?}"),
        }))
    }
}
fn pin_length_reuse() -> R {
    // F4: a fresh one was busy, and one item made it unusable
    let mut e = Utf8Encoder::<&str>::new().length(3);
    ensure!(e.is_idle() && e.exact_requiring_bytes() == 0, "fresh: idle {}, needs {}", e.is_idle(), e.exact_requiring_bytes());
    let mut b = [0; 8];
    for item in ["abc", "def"] {
        let r = e.start_encoding(item).map_err(|e| *e.kind());
        ensure!(r == Ok(()), "{item} refused: {r:?}");
        let r = e.encode(&mut b, Eos::new(true)).map_err(|e| *e.kind());
        ensure!(r == Ok(3) && &b[..3] == item.as_bytes() && e.is_idle(), "{item}: {r:?}");
    }
    Ok(())
}

// ---- C14 (encoding) ----
fn c14_enc(s: &mut Src) -> R {
    let i = gen(s, 2, Ctx { sized: false });
    let n = gen_limit(s, &i);
    let x: E = Rc::new(ES::MaxBytes(n, i));
    let e = wrap(s, x);
    let o = Opt { need: false, busy: false, eos: s.one_in(4) };
    check(s, &e, o)
}
/// An encoder that notices only in a later call that it is done.
#[derive(Default)]
struct Lingers(BytesEncoder<Vec<u8>>, bool);
impl Encode for Lingers {
    type Item = Vec<u8>;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        if self.0.is_idle() {
            self.1 = false;
        }
        self.0.encode(buf, eos)
    }
    fn start_encoding(&mut self, item: Vec<u8>) -> bytecodec::Result<()> {
        if self.1 {
            return Err(mkerr(ErrorKind::EncoderFull));
        }
        self.1 = true;
        self.0.start_encoding(item)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        !self.1
    }
}
fn c14_enc_plain(s: &mut Src) -> R {
    let n = s.len(20) as u64;
    let which = s.draw(3);
    let mut e: Box<dyn Encode<Item = Vec<u8>>> = if which == 0 {
        Box::new(BytesEncoder::<Vec<u8>>::new().max_bytes(n))
    } else if which == 1 {
        Box::new(Lingers::default().max_bytes(n))
    } else {
        Box::new(Fix::U8.enc().repeat().max_bytes(n).map_from(|v: Vec<u8>| Given::new(v.iter().map(|b| Val::U(u64::from(*b))).collect(), v.len())))
    };
    let items = if s.long > 0 { s.rounds(1, 4) } else { 4 };
    for item in 0..items {
        let len = match s.draw(if s.long > 0 { 300 } else { 3 }) {
            0 => n + 1 + s.len(6) as u64,
            1 | 3..=99 => n,
            _ => n.saturating_sub(s.len(4) as u64),
        } as usize;
        let data = s.bytes(len);
        s.note(|| format!("limit {n}, item of {len}"));
        if let Err(x) = e.start_encoding(data.clone()) {
            fail!("item of {len} bytes refused with {:?}", x.kind());
        }
        let mut out: Vec<u8> = vec![];
        let mut calls = 0;
        while !e.is_idle() {
            if s.one_in(8) {
                // an item that is turned away changes nothing
                let k = s.len(4);
                let other = s.bytes(k);
                match e.start_encoding(other) {
                    Ok(()) => fail!("a second item was taken in the middle of one"),
                    Err(x) => ensure!(*x.kind() == ErrorKind::EncoderFull, "a second item: {:?}", x.kind()),
                }
                s.label("offered an item while busy");
            }
            let c = if s.one_in(6) { 0 } else { s.range(1, 8) };
            let mut b = vec![0; c];
            calls += 1;
            ensure!(calls < 500, "never ends");
            match e.encode(&mut b, Eos::new(false)) {
                Ok(k) => out.extend(&b[..k]),
                Err(x) => {
                    ensure!(*x.kind() == ErrorKind::InvalidInput && len as u64 > n, "limit {n}, item of {len} bytes failed with {:?} after {}", x.kind(), out.len());
                    s.label("over the limit");
                    s.nontrivial();
                    return Ok(());
                }
            }
            ensure!(out.len() as u64 <= n, "{} bytes written past a limit of {n}", out.len());
        }
        ensure!(len as u64 <= n, "an item of {len} bytes passed a limit of {n}");
        ensure!(out == data, "wrote {out:02x?}, expected {data:02x?}");
        s.nontrivial_if(item > 0 && len > 0);
        s.label_if(len as u64 == n, "exactly at the limit");
    }
    Ok(())
}

// ---- C20 ----
fn c20_tree(s: &mut Src) -> R {
    let c = Ctx { sized: false };
    let i = gen(s, 2, c);
    let x: E = match s.draw(8) {
        0 | 1 => Rc::new(ES::Repeat(i)),
        2 => Rc::new(ES::Optional(i)),
        3 => Rc::new(ES::Pre(i)),
        4 => Rc::new(ES::Map(i)),
        5 => Rc::new(ES::TryMap(i)),
        _ => gen_tuple(s, 2, c),
    };
    let e = wrap(s, x);
    let o = Opt { need: false, busy: s.one_in(4), eos: false };
    check(s, &e, o)
}
/// How often and with what the user's functions are called; in which order an iterator is drawn from.
fn c20_calls(s: &mut Src) -> R {
    let i = gen(s, 2, Ctx { sized: false });
    let which = s.draw(3);
    let seen: Rc<RefCell<Vec<Val>>> = Rc::default();
    let s2 = seen.clone();
    let drawn: Rc<Cell<usize>> = Rc::default();
    let d2 = drawn.clone();
    let mut e: DynEnc = match which {
        0 => Box::new(build(&i).map_from(move |v: Val| {
            s2.borrow_mut().push(v.clone());
            v
        })),
        1 => Box::new(build(&i).try_map_from(move |v: Val| {
            s2.borrow_mut().push(v.clone());
            match reject(&v) {
                Some(k) => Err(mkerr(k)),
                None => Ok(v),
            }
        })),
        _ => Box::new(build(&i).repeat().map_from(move |v: Val| {
            let d = d2.clone();
            let v = v.seq();
            let how = v.len();
            Given::new(v, how).inspect(move |_| d.set(d.get() + 1))
        })),
    };
    s.note(|| format!("{} over {i:?}", ["map_from", "try_map_from", "repeat"][which as usize]));
    let mut told = 0;
    for round in 0..3 {
        let (item, bytes, ends) = if which == 2 {
            let mut vs = vec![];
            let mut all = vec![];
            let mut ends = vec![];
            for _ in 0..s.len(5) {
                let Some((v, b)) = gen_valid(&i, s, 10) else { return Ok(()) };
                all.extend(b);
                ends.push(all.len());
                vs.push(v);
            }
            (Val::L(vs), all, ends)
        } else {
            let Some((v, b)) = gen_valid(&i, s, 16) else { return Ok(()) };
            (v, b, vec![])
        };
        drawn.set(0);
        let r = e.start_encoding(item.clone()).map_err(|e| ebit(&e));
        told += 1;
        if which < 2 {
            ensure!(seen.borrow().len() == told && seen.borrow().last() == Some(&item), "the mapping was called {} times for {told} items, last with {:?}; {i:?} item {item:?}", seen.borrow().len(), seen.borrow().last());
        }
        if which == 1 {
            if let Some(k) = reject(&item) {
                ensure!(r == Err(kbit(k)), "failing conversion ({k:?}) gave {r:?}; {i:?}");
                ensure!(e.is_idle(), "failing conversion left the encoder busy; {i:?}");
                s.label("conversion fails");
                s.nontrivial();
                continue;
            }
        }
        ensure!(r == Ok(()), "item {item:?} refused: {r:?}; {i:?}");
        let mut out: Vec<u8> = vec![];
        let mut calls = 0;
        while !e.is_idle() {
            let c = if s.one_in(6) { 0 } else { s.range(1, 10) };
            let mut b = vec![0; c];
            calls += 1;
            ensure!(calls < 500 + bytes.len(), "never ends; {i:?} item {item:?}");
            match e.encode(&mut b, Eos::new(false)) {
                Ok(k) => out.extend(&b[..k]),
                Err(x) => fail!("encode failed with {:?}; {i:?} item {item:?}", x.kind()),
            }
            if which == 2 && out.len() < bytes.len() {
                // no item is drawn before the ones before it are handed out
                let started = ends.iter().filter(|e| **e <= out.len()).count();
                ensure!(drawn.get() <= started + 1, "{} items drawn although only {started} are written; {i:?}", drawn.get());
            }
        }
        ensure!(out == bytes, "wrote {out:02x?}, expected {bytes:02x?}; {i:?} item {item:?}");
        ensure!(which != 2 || drawn.get() == ends.len(), "{} of {} items drawn; {i:?}", drawn.get(), ends.len());
        s.nontrivial_if(bytes.len() > 1 && (round > 0 || ends.len() > 1));
    }
    ensure!(which == 2 || seen.borrow().len() == told, "the mapping was called {} times for {told} items", seen.borrow().len());
    Ok(())
}
/// Plain numbers: an oracle that needs no model.
fn c20_plain(s: &mut Src) -> R {
    let k = *s.pick(UINTS);
    let how = std::rc::Rc::new(std::cell::Cell::new(0));
    let how2 = how.clone();
    let mut e = k.enc().optional().repeat().map_from(move |v: Vec<Option<Val>>| Given::new(v, how2.get()));
    for round in 0..3 {
        let n = s.len(8);
        let items: Vec<Option<Val>> = (0..n).map(|_| if s.one_in(3) { None } else { Some(k.gen(s, false)) }).collect();
        let want: Vec<u8> = items.iter().flatten().flat_map(|v| k.ser(v).unwrap()).collect();
        s.note(|| format!("{k:?}: {items:?}"));
        s.nontrivial_if(n > 1 && round > 0);
        s.label_if(items.iter().any(Option::is_none), "absent items");
        let mut out: Vec<u8> = vec![];
        how.set(s.below(5));
        if s.bool() {
            match e.encode_into_bytes(items.clone()) {
                Ok(b) => out = b,
                Err(x) => fail!("encode_into_bytes failed with {:?}", x.kind()),
            }
        } else {
            if let Err(x) = e.start_encoding(items.clone()) {
                fail!("refused with {:?}", x.kind());
            }
            for _ in 0..200 {
                if e.is_idle() {
                    break;
                }
                let c = s.range(0, 7);
                let mut b = vec![0; c];
                match e.encode(&mut b, Eos::new(false)) {
                    Ok(n) => out.extend(&b[..n]),
                    Err(x) => fail!("encode failed with {:?}", x.kind()),
                }
            }
        }
        ensure!(e.is_idle() && out == want, "{k:?}: wrote {out:02x?} for {items:?}, expected {want:02x?}");
    }
    Ok(())
}
/// Writes its item at most two bytes at a time, and notes every call.
#[derive(Default)]
struct Noted {
    left: usize,
    on: bool,
    calls: usize,
}
impl Encode for Noted {
    type Item = usize;
    fn encode(&mut self, buf: &mut [u8], _: Eos) -> bytecodec::Result<usize> {
        self.calls += 1;
        let n = buf.len().min(self.left).min(2);
        buf[..n].fill(7);
        self.left -= n;
        self.on = self.left > 0;
        Ok(n)
    }
    fn start_encoding(&mut self, n: usize) -> bytecodec::Result<()> {
        self.calls += 1;
        if self.on {
            return Err(mkerr(ErrorKind::EncoderFull));
        }
        self.left = n;
        self.on = true;
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(self.left as u64)
    }
    fn is_idle(&self) -> bool {
        !self.on
    }
}
/// An absent item, accepted or not, does not concern the inner encoder whenever it is offered.
fn c20_absent(s: &mut Src) -> R {
    let mut e = Noted::default().optional();
    for _ in s.turns(2, 10) {
        match s.draw(3) {
            0 => {
                let n = s.draw(6) as usize;
                let on = e.inner_ref().on;
                let r = e.start_encoding(Some(n)).map_err(|e| *e.kind());
                s.note(|| format!("start(Some({n})) -> {r:?}"));
                ensure!(r.is_ok() != on, "{r:?} for an item; busy: {on}");
            }
            1 => {
                let mut b = vec![0; s.draw(4) as usize];
                let r = e.encode(&mut b, Eos::new(false)).map_err(|e| *e.kind());
                s.note(|| format!("encode(room {}) -> {r:?}", b.len()));
                ensure!(r.is_ok(), "{r:?}");
            }
            _ => {
                let (left, on, calls) = (e.inner_ref().left, e.inner_ref().on, e.inner_ref().calls);
                let r = e.start_encoding(None).map_err(|e| *e.kind());
                s.note(|| format!("start(None) -> {r:?} with {left} bytes left, busy {on}"));
                ensure!(on || r.is_ok(), "an absent item refused with {r:?}");
                let i = e.inner_ref();
                ensure!((i.left, i.on, i.calls) == (left, on, calls), "the inner encoder was called for an absent item; {left} bytes left, busy {on}");
                ensure!(e.is_idle() != on, "idle: {}, the inner encoder is busy: {on}", e.is_idle());
                s.nontrivial_if(on);
                s.label_if(on && left == 0, "held item without bytes");
            }
        }
    }
    Ok(())
}
fn pin_repeat_empty() -> R {
    // F7: an item without bytes in the middle
    let mut e = U8Encoder::new().optional().repeat();
    let r = e.encode_into_bytes(vec![Some(1), None, Some(2)].into_iter()).map_err(|e| *e.kind());
    ensure!(r == Ok(vec![1, 2]), "{r:?}");
    let mut e = BytesEncoder::<Vec<u8>>::new().repeat();
    let _ = e.start_encoding(vec![vec![1], vec![], vec![2]].into_iter());
    let mut b = [0; 8];
    let r = e.encode(&mut b, Eos::new(true)).map_err(|e| *e.kind());
    ensure!(r == Ok(2) && b[..2] == [1, 2] && e.is_idle(), "{r:?} {b:?}");
    Ok(())
}
fn pin_last() -> R {
    // F12: both items in one call
    let mut e = U8Encoder::new();
    let _ = e.start_encoding(1);
    let mut e = e.last(2);
    let mut b = [0; 8];
    let r = e.encode(&mut b, Eos::new(true)).map_err(|e| *e.kind());
    ensure!(r == Ok(2) && b[..2] == [1, 2] && e.is_idle(), "{r:?} {b:?}");
    Ok(())
}

// ---- C36 (encoding) ----
fn c36_enc(s: &mut Src) -> R {
    let n = s.range(2, 8);
    let sized = s.bool();
    let ms: Vec<E> = (0..n)
        .map(|_| {
            let d = s.range(0, 1);
            gen(s, d, Ctx { sized })
        })
        .collect();
    s.label(["", "", "arity 2", "arity 3", "arity 4", "arity 5", "arity 6", "arity 7", "arity 8"][n]);
    let mut e: E = Rc::new(ES::Tuple(ms));
    if s.one_in(3) {
        let m = gen(s, 0, Ctx { sized });
        e = Rc::new(ES::Tuple(if s.bool() { vec![e, m] } else { vec![m, e] }));
    }
    let o = Opt { need: true, busy: s.one_in(3), eos: s.one_in(4) };
    check(s, &e, o)
}
fn c36_enc_plain(s: &mut Src) -> R {
    let n = s.range(2, 8);
    let ks: Vec<Fix> = (0..n).map(|_| *s.pick(FIXES)).collect();
    let total: usize = ks.iter().map(|k| k.width()).sum();
    let mut e = tuple_sized(ks.iter().map(|k| k.sized()).collect());
    s.note(|| format!("{ks:?}"));
    ensure!(e.is_idle() && e.exact_requiring_bytes() == 0, "{ks:?}: fresh tuple not idle");
    for _ in 0..2 {
        let vs: Vec<Val> = ks.iter().map(|k| k.gen(s, false)).collect();
        let want: Vec<u8> = ks.iter().zip(&vs).flat_map(|(k, v)| k.ser(v).unwrap()).collect();
        if let Err(x) = e.start_encoding(Val::T(vs.clone())) {
            fail!("{ks:?}: {vs:?} refused with {:?}", x.kind());
        }
        let mut out: Vec<u8> = vec![];
        let mut calls = 0;
        loop {
            let left = (total - out.len()) as u64;
            ensure!(e.exact_requiring_bytes() == left && e.requiring_bytes() == ByteCount::Finite(left), "{ks:?}: needs {} / {:?} with {left} to go", e.exact_requiring_bytes(), e.requiring_bytes());
            ensure!(e.is_idle() == (left == 0), "{ks:?}: is_idle {} with {left} to go", e.is_idle());
            if left == 0 {
                break;
            }
            calls += 1;
            ensure!(calls < 300, "never ends");
            let c = s.range(0, 20);
            let mut b = vec![0; c];
            match e.encode(&mut b, Eos::new(false)) {
                Ok(k) => {
                    ensure!(k == c.min(left as usize), "{ks:?}: wrote {k} in room for {c} with {left} to go");
                    out.extend(&b[..k]);
                }
                Err(x) => fail!("{ks:?} failed with {:?}", x.kind()),
            }
        }
        ensure!(out == want, "{ks:?}: {vs:?} written as {out:02x?}, expected {want:02x?}");
    }
    s.nontrivial_if(n > 2);
    Ok(())
}

const TREE: &str = "composition of at least two encoders and more than one byte encoded, or a failure";
/// An encoder given its last item at once, whose output ends somewhere inside.
fn c11_last(s: &mut Src) -> R {
    let e = gen(s, 2, Ctx { sized: false });
    let Some((v, bytes)) = gen_valid(&e, s, 20) else { return Ok(()) };
    let l = bytes.len();
    let cut = s.range(0, l);
    s.note(|| format!("last over {e:?}, item {v:?} {bytes:02x?}, output ends after {cut}"));
    let mut d = build(&e).last(v.clone());
    let mut pos = 0;
    while pos < cut && !s.one_in(3) {
        let c = s.range(1, cut - pos);
        let mut b = vec![0; c];
        let r = d.encode(&mut b, Eos::new(false)).map_err(|e| *e.kind());
        ensure!(r == Ok(c) && b == bytes[pos..pos + c], "encode(room {c}) at {pos} gave {r:?}; last over {e:?} item {v:?}");
        pos += c;
    }
    if pos == l && d.is_idle() {
        return Ok(());
    }
    let mut b = vec![0; cut - pos];
    let r = d.encode(&mut b, Eos::new(true));
    if cut == l {
        match r {
            Ok(n) => ensure!(n == l - pos && b == bytes[pos..] && d.is_idle(), "the last {} bytes: {n} written, {b:02x?}; last over {e:?} item {v:?}", l - pos),
            Err(x) => fail!("the item fits but the end of the output made encode fail with {:?}; last over {e:?} item {v:?}", x.kind()),
        }
    } else {
        match r {
            Ok(n) => fail!("the output ends {} bytes early but encode succeeded (wrote {n}); last over {e:?} item {v:?}", l - cut),
            Err(x) => ensure!(ebit(&x) & eos_mask(&e) != 0, "the output ends {} bytes early: {:?} instead of UnexpectedEos; last over {e:?} item {v:?}", l - cut, x.kind()),
        }
        s.label("cut");
    }
    s.nontrivial_if(l > 1);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let _ = UE;
    vec![
        Prop::new("C04")
            .sub("any", 1_000_000, TREE, c04_any)
            .sub("deep", 700_000, TREE, c04_deep)
            .large("large", 6_000, TREE, c04_any)
            .long("long", 9000, TREE, c04_any)
            .pin("repeat-empty", pin_repeat_empty)
            .pin("monolithic-end", pin_mono_eos)
            .pin("length-reuse", pin_length_reuse),
        Prop::new("C06")
            .sub("any", 800_000, TREE, c06_any)
            .large("large", 5000, TREE, c06_any)
            .long("long", 9000, TREE, c06_any)
            .sub("sized", 600_000, TREE, c06_sized).long("long-sized", 9000, TREE, c06_sized)
            .sub("both", 500_000, "composition of at least two encoders and more than one byte", c06_both)
            .sub("last", 400_000, "more than one byte", c06_last)
            .sub("slice", 200_000, "a second item, or one of several bytes and calls", c06_slice).long("long-slice", 9000, "a second item, or one of several bytes and calls", c06_slice)
            .known("last-exact", "Last::exact_requiring_bytes leaves out the item that was given to last() until the inner encoder is done with its current item (U16beEncoder::new().last(7) says 0 and then writes 2 bytes)", k1_demo)
            .pin("length-reuse", pin_length_reuse),
        Prop::new("C07")
            .sub("busy", 800_000, "composition of at least two encoders and more than one byte", c07_busy)
            .large("large", 3000, "composition of at least two encoders and more than one byte", c07_busy)
            .long("long", 9000, "composition of at least two encoders and more than one byte", c07_busy)
            .sub("tuple-busy", 500_000, "more than one byte", c07_tuple_busy)
            .sub("refused", 600_000, "a valid item encoded after a refused one", c07_refused).long("long-refused", 9000, "a valid item encoded after a refused one", c07_refused)
            .sub("padding", 400_000, "an item offered while padding", c07_padding).long("long-padding", 9000, "an item offered while padding", c07_padding)
            .sub("tuple-refused", 400_000, "bytes precede the refusing member", c07_tuple_refused)
            .sub("pre-failed", 200_000, "an item refused by its pre-encoding", c07_pre_failed)
            .known("pre-encode-stuck", "PreEncode refuses an item its inner encoder fails to encode, reports that it is idle, and then refuses valid items with EncoderFull (the inner encoder is stuck in the refused item)", k3_demo)
            .known("tuple-partial-start", "TupleEncoder::start_encoding of an item whose member i is refused leaves the parts of members 0..i-1 queued, and they are written", k2_demo)
            .pin("tuple-busy", pin_tuple_busy)
            .pin("length-reuse", pin_length_reuse),
        Prop::new("C11")
            .sub("any", 800_000, TREE, c11_any)
            .large("large", 5000, TREE, c11_any)
            .long("long", 9000, TREE, c11_any)
            .sub("cut", 500_000, "composition of at least two encoders and an item of at least two bytes, cut inside", c11_cut)
            .sub("last", 200_000, "an item of at least two bytes", c11_last)
            .pin("monolithic-end", pin_mono_eos),
        Prop::new("C13")
            .sub("tree", 1_000_000, TREE, c13_tree)
            .large("large", 5000, TREE, c13_tree)
            .long("long", 9000, TREE, c13_tree)
            .sub("plain", 500_000, "item too short, too long, or a later item that fits", c13_plain)
            .pin("length-reuse", pin_length_reuse),
        super::decode::c14_subs(Prop::new("C14"))
            .sub("encode", 600_000, TREE, c14_enc)
            .large("encode-large", 5000, TREE, c14_enc)
            .long("encode-long", 9000, TREE, c14_enc)
            .sub("encode-plain", 400_000, "an item over the limit, or a later one within", c14_enc_plain).long("encode-plain-long", 9000, "an item over the limit, or a later one within", c14_enc_plain),
        Prop::new("C20")
            .sub("tree", 1_000_000, TREE, c20_tree)
            .large("large", 5000, TREE, c20_tree)
            .long("long", 9000, TREE, c20_tree)
            .sub("last", 400_000, "more than one byte", c20_last)
            .sub("calls", 400_000, "failing conversion, or at least two items or rounds", c20_calls)
            .sub("plain", 300_000, "a later sequence of at least two items", c20_plain)
            .sub("absent", 100_000, "an absent item offered while the inner encoder is busy", c20_absent)
            .pin("repeat-empty", pin_repeat_empty)
            .pin("last", pin_last),
        super::decode::c36_subs(Prop::new("C36"))
            .sub("encode", 500_000, TREE, c36_enc)
            .large("encode-large", 3000, TREE, c36_enc)
            .long("encode-long", 9000, TREE, c36_enc)
            .sub("encode-plain", 300_000, "at least three members", c36_enc_plain)
            .pin("sized-sum", super::misc::pin_sum_sized)
            .pin("tuple-busy", pin_tuple_busy),
    ]
}
