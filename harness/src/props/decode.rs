//! Properties of decoder compositions: random trees against a whole-input reference model.
use crate::drive::*;
use crate::engine::{Fail, Prop, Src, R};
use crate::spec::*;
use crate::val::{DynDec, Fix, Val, FIXES, UINTS};
use crate::{ensure, fail};
use bytecodec::combinator::Peekable;
use bytecodec::bytes::RemainingBytesDecoder;
use bytecodec::io::IoDecodeExt;
use bytecodec::{ByteCount, Decode, DecodeExt, Eos, ErrorKind};
use std::cell::Cell;
use std::rc::Rc;

const ALL: Opt = Opt { hold: true, premature: true, need: true, twice: true };
const HOLD: Opt = Opt { hold: true, premature: true, need: false, twice: true };
const NEED: Opt = Opt { hold: false, premature: false, need: true, twice: false };

fn ctx(s: &mut Src) -> Ctx {
    Ctx::top(s.bool())
}
fn any(s: &mut Src) -> S {
    let depth = s.range(0, 4);
    let c = ctx(s);
    gen(s, depth, c)
}
fn check(s: &mut Src, spec: &S, bad: u64, o: Opt) -> R {
    let r = drive(s, spec, 3, bad, o)?;
    s.nontrivial_if(nodes(spec) > 1 && (r.bytes > 1 || r.failed));
    Ok(())
}
/// Sometimes puts the tree under test inside another combinator.
fn wrap(s: &mut Src, x: S) -> S {
    let fix = |s: &mut Src| -> S { Rc::new(Spec::Fix(*s.pick(FIXES))) };
    match s.draw(12) {
        0 => Rc::new(Spec::Map(x)),
        1 => Rc::new(Spec::Peek(x)),
        2 => Rc::new(Spec::Slice(x)),
        3 => {
            let a = fix(s);
            if eats_all(&x) || s.bool() {
                Rc::new(Spec::Tuple(vec![a, x]))
            } else {
                let b = fix(s);
                Rc::new(Spec::Tuple(vec![a, x, b]))
            }
        }
        4 if reusable(&x) && min1(&x) => Rc::new(Spec::Collect(x)),
        5 if eats_all(&x) => Rc::new(Spec::LenPrefix(*s.pick(UINTS), x)),
        6 => Rc::new(Spec::Dispatch(vec![x.clone(), x])),
        _ => x,
    }
}

// ---- C03 ----
fn c03_any(s: &mut Src) -> R {
    let spec = any(s);
    check(s, &spec, 5, PLAIN)
}
fn c03_deep(s: &mut Src) -> R {
    let c = ctx(s);
    let x = gen(s, 3, c);
    let spec = wrap(s, x);
    check(s, &spec, 8, PLAIN)
}
// ---- C08, C09 ----
fn c08_any(s: &mut Src) -> R {
    let spec = any(s);
    check(s, &spec, 12, HOLD)
}
fn c09_any(s: &mut Src) -> R {
    let spec = any(s);
    check(s, &spec, 12, NEED)
}
fn c09_sequence(s: &mut Src) -> R {
    // sums of needs: tuples, prefixes and windows of all kinds
    let c = ctx(s);
    let x = match s.draw(4) {
        0 => gen_length(s, 2, c),
        1 => Rc::new(Spec::CollectN(s.len(5), gen(s, 2, Ctx { eos: false, reuse: true, min1: false }))),
        _ => gen_tuple(s, 2, c),
    };
    let spec = wrap(s, x);
    check(s, &spec, 12, NEED)
}

// ---- C10 ----
fn c10_cut(s: &mut Src) -> R {
    let mut spec = any(s);
    if s.one_in(10) {
        spec = Rc::new(Spec::MaybeEos(spec));
    }
    s.note(|| format!("spec {spec:?}"));
    let data = sample(&spec, s, s.size);
    let full = parse(&spec, &data, true, Tot::Unknown);
    let Out::Done { used, val } = full else { return Ok(()) };
    let warm = reusable(&spec) && !eats_all(&spec) && s.bool();
    let all: Vec<usize> = if used <= 12 { (0..used).collect() } else { (0..8).map(|_| s.below(used)).collect() };
    for cut in all {
        let mut dec = build(&spec);
        if warm {
            match drive_item(s, &spec, &mut dec, &data[..used], true, Mode::Unknown, PLAIN)? {
                End::Done { val: v, .. } => ensure!(v == val, "decoded {v:?}, expected {val:?}; {spec:?}"),
                e => fail!("valid item ended in {e:?}; {spec:?} {data:02x?}"),
            }
        }
        let mode = match s.draw(3) {
            0 => Mode::Unknown,
            1 => Mode::Known(0),
            _ => Mode::Mixed,
        };
        let model = parse(&spec, &data[..cut], true, if mode == Mode::Known(0) { Tot::Known(cut as u64) } else { Tot::Unknown });
        s.note(|| format!("cut {data:02x?} at {cut}: {mode:?}, model {model:?}"));
        let r = drive_item(s, &spec, &mut dec, &data[..cut], true, mode, PLAIN)?;
        if let Out::Fail(UE) = model {
            ensure!(matches!(r, End::Failed(UE)), "stream cut at {cut} of {used} ended in {r:?}; {spec:?} {data:02x?} {mode:?}");
            s.nontrivial();
            s.label_if(warm, "cut in a later item of the instance");
            s.label_if(mode == Mode::Unknown, "end signalled");
            s.label_if(mode == Mode::Known(0), "distance known");
        }
    }
    Ok(())
}
/// The same through the helpers that own the input.
/// A collector of `n` items does not forgive the end of the stream, although its inner decoder may.
fn c10_collectn(s: &mut Src) -> R {
    let k = *s.pick(crate::val::FIXES);
    let w = fixed_size(&Spec::Fix(k)).unwrap();
    let n = s.range(1, 6);
    let len = s.range(0, n * w - 1);
    let data = s.bytes(len);
    s.note(|| format!("{n} x {k:?} from {data:02x?}"));
    s.nontrivial_if(len > 0 && n > 1);
    s.label_if(len % w == 0, "ends between elements");
    let mut dec = build(&Rc::new(Spec::MaybeEos(Rc::new(Spec::Fix(k))))).collectn::<Vec<Val>>(n);
    let mut pos = 0;
    for _ in 0..100 {
        let c = s.range(0, len - pos);
        let end = pos + c == len && (c == 0 || s.bool());
        let r = dec.decode(&data[pos..pos + c], Eos::new(end)).map_err(|e| *e.kind());
        s.note(|| format!("decode({c} bytes, {end}) -> {r:?}"));
        match r {
            Ok(m) => {
                ensure!(!end, "the stream ended after {len} of {} bytes, decode gave {r:?}", n * w);
                ensure!(m == c && !dec.is_idle(), "{m} of {c} bytes consumed, idle {}", dec.is_idle());
                pos += m;
            }
            Err(k) => {
                ensure!(end && k == ErrorKind::UnexpectedEos, "{pos}+{c} of {len} bytes, end {end}: {k:?}");
                return Ok(());
            }
        }
    }
    Ok(())
}
fn c10_helpers(s: &mut Src) -> R {
    let spec = any(s);
    if contains(&spec, &|x| matches!(x, Spec::Slice(_))) {
        return Ok(());
    }
    s.note(|| format!("spec {spec:?}"));
    let data = sample(&spec, s, s.size);
    let Out::Done { used, .. } = parse(&spec, &data, true, Tot::Unknown) else { return Ok(()) };
    if used == 0 {
        return Ok(());
    }
    let cut = s.below(used);
    let Out::Fail(k) = parse(&spec, &data[..cut], true, Tot::Unknown) else { return Ok(()) };
    s.note(|| format!("cut {data:02x?} at {cut}"));
    if k == UE {
        s.nontrivial();
    }
    let mut dec = build(&spec);
    match dec.decode_from_bytes(&data[..cut]) {
        Ok(v) => fail!("decode_from_bytes gave {v:?} from a stream cut at {cut} of {used}; {spec:?} {data:02x?}"),
        Err(e) => ensure!(ebit(&e) & k != 0, "decode_from_bytes failed with {:?} on a stream cut at {cut} of {used}, expected {}; {spec:?} {data:02x?}", e.kind(), kname(k)),
    }
    let mut dec = build(&spec);
    match dec.decode_exact(super::io::Script::short(s, &data[..cut])) {
        Ok(v) => fail!("decode_exact gave {v:?} from a stream cut at {cut} of {used}; {spec:?} {data:02x?}"),
        Err(e) => ensure!(ebit(&e) & k != 0, "decode_exact failed with {:?} on a stream cut at {cut} of {used}, expected {}; {spec:?} {data:02x?}", e.kind(), kname(k)),
    }
    Ok(())
}

// ---- C12 ----
fn c12_window(s: &mut Src) -> R {
    let c = ctx(s);
    let x = gen_length(s, 3, c);
    let spec = wrap(s, x);
    observe_frames(true);
    let r = check(s, &spec, 6, HOLD);
    let (lie, _) = frame_report();
    observe_frames(false);
    r?;
    if let Some(l) = lie {
        fail!("{l}; spec {spec:?}");
    }
    Ok(())
}
/// Inner decoders that end before, at or after the window; several items on one instance.
fn c12_fit(s: &mut Src) -> R {
    let e = s.bool();
    let i = gen(s, 2, Ctx { eos: e, reuse: true, min1: false });
    let sz = sample(&i, s, 20).len();
    let n = match s.draw(4) {
        0 => sz,
        1 => sz + s.range(1, 6),
        2 => sz.saturating_sub(s.range(1, 4)),
        _ => s.len(24),
    };
    s.note(|| format!("{i:?} in a window of {n}"));
    let mut d = build(&i).length(n as u64);
    ensure!(d.expected_bytes() == n as u64 && d.remaining_bytes() == n as u64, "fresh window of {n}: expected {} remaining {}", d.expected_bytes(), d.remaining_bytes());
    for item in 0..3 {
        let mut data = sample(&i, s, 20);
        let k = s.len(8);
        data.extend(s.bytes(k));
        while data.len() < n {
            data.push(s.byte());
        }
        let model = parse(&i, &data[..n], true, Tot::Known(n as u64));
        let mut pos = 0;
        let mut calls = 0;
        let err = loop {
            let c = if s.one_in(6) { 0 } else { s.range(0, data.len() - pos) };
            calls += 1;
            ensure!(calls < 500 + 20 * data.len(), "window of {n} over {i:?} never ends");
            let rest = data.len() - pos - c;
            let eos = if s.bool() { Eos::new(rest == 0) } else { Eos::with_remaining_bytes(ByteCount::Finite(rest as u64)) };
            match d.decode(&data[pos..pos + c], eos) {
                Ok(k) => {
                    ensure!(k <= c && pos + k <= n, "window of {n}: {k} bytes consumed at {pos} of {c} offered; {i:?}");
                    pos += k;
                    ensure!(d.remaining_bytes() == (n - pos) as u64, "window of {n}: remaining_bytes {} after {pos}; {i:?}", d.remaining_bytes());
                    s.note(|| format!("decode {c} -> {k}, idle {}", d.is_idle()));
                    if d.is_idle() {
                        break None;
                    }
                    ensure!(k == c || pos == n, "window of {n}: not idle but {k} of {c} consumed at {pos}; {i:?}");
                    ensure!(pos < n || k < c || !eos.is_reached(), "window of {n} full but neither item nor error; {i:?}");
                }
                Err(e) => break Some(e),
            }
        };
        match (err, model) {
            (Some(e), Out::Fail(k)) => {
                ensure!(ebit(&e) & k != 0, "window of {n} over {i:?} failed with {:?}, expected {}; {data:02x?}", e.kind(), kname(k));
                s.label("inner decoder fails or needs more than the window");
                s.nontrivial();
                return Ok(());
            }
            (None, Out::Done { used, val }) if used == n => {
                ensure!(pos == n, "item of the window of {n} complete after {pos} bytes; {i:?}");
                match (d.finish_decoding(), val) {
                    (Ok(v), Ok(w)) => ensure!(v == w, "decoded {v:?}, expected {w:?}; window of {n} over {i:?}"),
                    (Err(e), Err(k)) => ensure!(ebit(&e) & k != 0, "finish failed with {:?}, expected {}; {i:?}", e.kind(), kname(k)),
                    (v, w) => fail!("finish gave {:?}, expected {w:?}; window of {n} over {i:?}", v.map_err(|e| *e.kind())),
                }
                ensure!(d.remaining_bytes() == n as u64, "window of {n} not renewed for the next item; {i:?}");
                s.label_if(item > 0, "several items");
                s.nontrivial_if(nodes(&i) > 1 && n > 1);
            }
            (None, Out::Done { used, .. }) => {
                ensure!(pos == used, "inner item of {used} bytes, {pos} consumed; window of {n} over {i:?}");
                match d.finish_decoding() {
                    Ok(v) => fail!("item {v:?} of {used} bytes yielded by a window of {n}; {i:?}"),
                    Err(e) => ensure!(*e.kind() == ErrorKind::IncompleteDecoding, "item smaller than its window: {:?}; {i:?}", e.kind()),
                }
                s.label("inner item smaller than the window");
                s.nontrivial();
                return Ok(());
            }
            (Some(e), Out::Done { used, .. }) if used < n => {
                // an item that is complete too early may also be refused at once
                ensure!(matches!(*e.kind(), ErrorKind::InvalidInput | ErrorKind::IncompleteDecoding), "item of {used} bytes in a window of {n}: {:?}; {i:?}", e.kind());
                return Ok(());
            }
            (Some(e), m) => fail!("window of {n} over {i:?} failed with {:?}; expected {m:?}; {data:02x?}", e.kind()),
            (None, m) => fail!("window of {n} over {i:?} complete after {pos}; expected {m:?}; {data:02x?}"),
        }
    }
    Ok(())
}

// ---- C14 (decoding) ----
fn c14_dec(s: &mut Src) -> R {
    let c = ctx(s);
    let i = gen_eater(s, 2, c);
    let n = gen_max(s, &i);
    let spec = wrap(s, Rc::new(Spec::MaxBytes(n, i)));
    check(s, &spec, 12, PLAIN)
}
/// What the limit makes of announced distances to the end.
fn c14_told(s: &mut Src) -> R {
    let n = match s.draw(8) {
        0 => s.int(64),
        1 => u64::MAX - s.draw(4),
        _ => s.len(30) as u64,
    };
    let mut d = RemainingBytesDecoder::new().max_bytes(n);
    let mut got: Vec<u8> = vec![];
    s.note(|| format!("limit {n}"));
    for _ in s.turns(1, 8) {
        let left = n - got.len() as u64;
        let c = s.len(12);
        let buf = s.bytes(c);
        let over = s.draw(6);
        let eos = match s.draw(8) {
            0 => ByteCount::Infinite,
            1 | 2 => ByteCount::Unknown,
            3 => ByteCount::Finite(0),
            4 => ByteCount::Finite(s.int(64)),
            5 => ByteCount::Finite(u64::MAX - over),
            6 => ByteCount::Finite(left.saturating_sub(c as u64).saturating_add(over)),
            _ => ByteCount::Finite(left.saturating_sub(c as u64).saturating_sub(over)),
        };
        let total = got.len() as u128 + c as u128;
        let fits = match eos {
            ByteCount::Infinite => false,
            ByteCount::Unknown => total <= u128::from(n),
            ByteCount::Finite(r) => {
                let t = total + u128::from(r);
                if n == u64::MAX && t > u128::from(n) {
                    return Ok(()); // no such stream
                }
                t <= u128::from(n)
            }
        };
        let r = d.decode(&buf, Eos::with_remaining_bytes(eos)).map_err(|e| *e.kind());
        s.note(|| format!("{c} bytes, {eos:?} to the end -> {r:?}"));
        if !fits {
            ensure!(r == Err(ErrorKind::InvalidInput), "limit {n}, {} bytes used, {c} given, {eos:?} to the end: {r:?}", got.len());
            s.label("announced too many");
            s.nontrivial_if(!got.is_empty());
            return Ok(());
        }
        ensure!(r == Ok(c), "limit {n}, {} bytes used, {c} given, {eos:?} to the end: {r:?}", got.len());
        got.extend(buf);
        ensure!(d.is_idle() == (eos == ByteCount::Finite(0)), "idle {} with {eos:?} to the end", d.is_idle());
        if d.is_idle() {
            match d.finish_decoding() {
                Ok(b) => ensure!(b == got, "{b:02x?} instead of {got:02x?}"),
                Err(e) => fail!("{:?}", e.kind()),
            }
            got.clear();
            s.nontrivial();
        }
        ensure!(d.consumed_bytes() == got.len() as u64, "consumed_bytes {} after {}", d.consumed_bytes(), got.len());
    }
    Ok(())
}
/// F17.
fn pin_max_huge() -> R {
    let r = RemainingBytesDecoder::new().max_bytes(5).decode(&[1], Eos::with_remaining_bytes(ByteCount::Finite(u64::MAX))).map_err(|e| *e.kind());
    ensure!(r == Err(ErrorKind::InvalidInput), "a limit of 5, 2^64-1 bytes announced: {r:?}");
    Ok(())
}
/// Inner items that end before the stream does, read exactly.
fn c14_exact(s: &mut Src) -> R {
    let i = gen(s, 2, Ctx { eos: false, reuse: true, min1: false });
    if contains(&i, &|x| matches!(x, Spec::MaxBytes(..))) {
        return Ok(());
    }
    let n = gen_max(s, &i);
    s.note(|| format!("{i:?} limited to {n}"));
    let mut d = build(&i).max_bytes(n);
    for item in 0..4 {
        let data = sample(&i, s, 20);
        let model = parse(&i, &data, true, Tot::Unknown);
        let r = d.decode_exact(super::io::Script::short(s, &data));
        s.note(|| format!("item {data:02x?}: {:?}", r.as_ref().map_err(|e| *e.kind())));
        match model {
            Out::Done { used, val } if used as u64 <= n => {
                s.label_if(used as u64 == n, "exactly at the limit");
                s.label_if(item > 0, "several items");
                s.nontrivial_if(used > 1);
                match (r, val) {
                    (Ok(v), Ok(w)) => ensure!(v == w, "decoded {v:?}, expected {w:?}; {i:?} limited to {n}"),
                    (Err(e), Err(k)) => ensure!(ebit(&e) & k != 0, "failed with {:?}, expected {}; {i:?} limited to {n}", e.kind(), kname(k)),
                    (r, w) => fail!("gave {:?}, expected {w:?}; {i:?} limited to {n}, item {data:02x?}", r.map_err(|e| *e.kind())),
                }
                ensure!(d.consumed_bytes() == 0, "consumed_bytes {} after an item was taken; {i:?}", d.consumed_bytes());
            }
            Out::Done { used, .. } => {
                match r {
                    Ok(v) => fail!("item {v:?} of {used} bytes passed a limit of {n}; {i:?}"),
                    Err(e) => ensure!(*e.kind() == ErrorKind::InvalidInput, "item of {used} bytes over a limit of {n}: {:?}; {i:?}", e.kind()),
                }
                s.label("over the limit");
                s.nontrivial();
                return Ok(());
            }
            _ => return Ok(()),
        }
    }
    Ok(())
}

// ---- C15 ----
fn c15(s: &mut Src) -> R {
    let d = s.range(0, 3);
    let e = s.one_in(5);
    let x = if s.bool() {
        Rc::new(Spec::Collect(gen(s, d, Ctx { eos: e, reuse: true, min1: true })))
    } else {
        let n = s.len(7);
        Rc::new(Spec::CollectN(n, gen(s, d, Ctx { eos: e, reuse: true, min1: false })))
    };
    let spec = wrap(s, x);
    check(s, &spec, 6, ALL)
}
/// Plain numbers, collected: an oracle that needs no model.
fn c15_plain(s: &mut Src) -> R {
    let k = *s.pick(UINTS);
    let w = k.width();
    let len = s.len(8 * w + 3);
    let data = s.bytes(len);
    let items: Vec<Val> = data.chunks_exact(w).map(|b| k.parse(b)).collect();
    let whole = data.len() % w == 0;
    s.nontrivial_if(items.len() > 1);
    let feed = |s: &mut Src, d: &mut dyn Decode<Item = Vec<Val>>| -> Result<(Result<Vec<Val>, ErrorKind>, usize), Fail> {
        let mut pos = 0;
        for _ in 0..1000 {
            let c = s.range(0, data.len() - pos);
            let end = pos + c == data.len() && s.bool();
            match d.decode(&data[pos..pos + c], Eos::new(end)) {
                Err(e) => return Ok((Err(*e.kind()), pos)),
                Ok(n) => pos += n,
            }
            if d.is_idle() {
                return Ok((d.finish_decoding().map_err(|e| *e.kind()), pos));
            }
            ensure!(!end, "end of stream signalled but no item and no error");
        }
        Ok((Err(ErrorKind::Other), pos))
    };
    if s.bool() {
        let mut d = k.dec().collect::<Vec<Val>>();
        for _ in 0..2 {
            s.note(|| format!("collect {k:?} of {data:02x?}"));
            let (r, pos) = feed(s, &mut d)?;
            if !whole {
                ensure!(r == Err(ErrorKind::UnexpectedEos), "collect {k:?} of {data:02x?} gave {r:?}");
                s.label("ends inside an item");
                return Ok(());
            }
            ensure!(r == Ok(items.clone()) && pos == data.len(), "collect {k:?} of {data:02x?} gave {r:?} after {pos} bytes, expected {items:?}");
        }
    } else {
        let n = s.range(0, items.len() + 1);
        s.note(|| format!("collectn({n}) {k:?} of {data:02x?}"));
        let mut d = k.dec().collectn::<Vec<Val>>(n);
        let (r, pos) = feed(s, &mut d)?;
        if n > items.len() {
            ensure!(r == Err(ErrorKind::UnexpectedEos), "collectn({n}) {k:?} of {data:02x?} gave {r:?}");
            s.label("too few items");
        } else {
            ensure!(r == Ok(items[..n].to_vec()) && pos == n * w, "collectn({n}) {k:?} of {data:02x?} gave {r:?} after {pos} bytes");
        }
    }
    Ok(())
}
/// Items whose conversion fails: whoever goes on nevertheless is never given a collection of fewer items than asked for.
fn c15_refused(s: &mut Src) -> R {
    let n = s.range(1, 6);
    let bad = s.byte();
    let k = *s.pick(KINDS);
    let mut d = bytecodec::fixnum::U8Decoder::new().try_map(move |b| if b == bad { Err(mkerr(k)) } else { Ok(b) }).collectn::<Vec<u8>>(n);
    let mut good = vec![];
    let mut failures = 0;
    for _ in 0..s.range(n, 2 * n + 3) {
        let b = if s.one_in(3) { bad } else { s.byte() };
        s.note(|| format!("byte {b}, refused {bad}"));
        match d.decode(&[b], Eos::new(false)) {
            Ok(m) => {
                ensure!(m == 1 && b != bad, "byte {b} (refused: {bad}) gave {m}");
                good.push(b);
            }
            Err(e) => {
                ensure!(b == bad && *e.kind() == k, "byte {b} (refused: {bad}) failed with {:?}", e.kind());
                failures += 1;
            }
        }
        if d.is_idle() {
            let v = match d.finish_decoding() {
                Ok(v) => v,
                Err(e) => fail!("complete, but failed with {:?}", e.kind()),
            };
            let mut rest = good.iter();
            ensure!(v.len() == n && v.iter().all(|x| rest.any(|y| x == y)), "{n} items asked for, {good:?} accepted, {v:?} collected");
            s.label_if(failures > 0, "collected in spite of a failure");
            break;
        }
        ensure!(good.len() < n || failures > 0, "{good:?} not enough for {n}");
    }
    s.nontrivial_if(failures > 0);
    Ok(())
}

/// Collecting to the end goes on after an item that its mapping refused.
fn c15_refused_end(s: &mut Src) -> R {
    let bad = s.byte();
    let k = *s.pick(KINDS);
    let mut d = bytecodec::fixnum::U16beDecoder::new().try_map(move |n| if n as u8 == bad { Err(mkerr(k)) } else { Ok(n) }).collect::<Vec<u16>>();
    let mut good = vec![];
    let mut failures = 0;
    for _ in 0..s.range(1, 8) {
        let n = u16::from_be_bytes([s.byte(), if s.one_in(3) { bad } else { s.byte() }]);
        s.note(|| format!("item {n:#x}, refused low byte {bad:#x}"));
        for (i, b) in n.to_be_bytes().into_iter().enumerate() {
            match d.decode(&[b], Eos::new(false)) {
                Ok(m) => {
                    ensure!(m == 1 && !(i == 1 && b == bad), "item {n:#x} (refused: {bad:#x}) gave {m}");
                    if i == 1 {
                        good.push(n);
                    }
                }
                Err(e) => {
                    ensure!(i == 1 && b == bad && *e.kind() == k, "item {n:#x} (refused: {bad:#x}) failed with {:?}", e.kind());
                    failures += 1;
                }
            }
        }
        ensure!(!d.is_idle(), "complete before the end");
    }
    s.nontrivial_if(failures > 0);
    match d.decode(&[], Eos::new(true)) {
        Ok(_) => ensure!(d.is_idle(), "not complete at the end"),
        Err(e) => fail!("the end between two items, after {failures} refused ones, failed with {:?}", e.kind()),
    }
    match d.finish_decoding() {
        Ok(v) => ensure!(v == good, "{good:?} accepted, {v:?} collected"),
        Err(e) => fail!("complete, but failed with {:?}", e.kind()),
    }
    Ok(())
}

// ---- C16 ----
fn c16(s: &mut Src) -> R {
    let c = ctx(s);
    let x: S = match s.draw(5) {
        0 => Rc::new(Spec::Map(gen(s, 2, c))),
        1 => Rc::new(Spec::TryMap(gen(s, 2, c))),
        2 => {
            let k = *s.pick(KINDS);
            Rc::new(Spec::MapErr(Some(k), gen(s, 2, c)))
        }
        3 => {
            let n = s.range(1, 4);
            let e = c.eos && s.bool();
            Rc::new(Spec::Dispatch((0..n).map(|_| if e { gen_eater(s, 1, Ctx { reuse: false, ..c }) } else { gen(s, 2, Ctx { reuse: false, eos: false, min1: false }) }).collect()))
        }
        _ => {
            let b = s.bool();
            Rc::new(Spec::Omit(b, gen(s, 2, c)))
        }
    };
    let spec = wrap(s, x);
    check(s, &spec, 6, ALL)
}
/// How often and with what the user's functions are called.
fn c16_calls(s: &mut Src) -> R {
    let i = gen(s, 2, Ctx { eos: false, reuse: true, min1: false });
    let which = s.draw(4);
    let calls: Rc<Cell<u32>> = Rc::new(Cell::new(0));
    let seen: Rc<std::cell::RefCell<Vec<Val>>> = Rc::default();
    let (c2, s2) = (calls.clone(), seen.clone());
    let second = gen(s, 1, Ctx { eos: false, reuse: false, min1: false });
    let sec = second.clone();
    let fin_err = s.bool();
    let mut d: DynDec = match which {
        0 => Box::new(build(&i).map(move |v| {
            c2.set(c2.get() + 1);
            s2.borrow_mut().push(v.clone());
            Val::M(77, Box::new(v))
        })),
        1 => Box::new(build(&i).try_map(move |v| {
            c2.set(c2.get() + 1);
            s2.borrow_mut().push(v.clone());
            if fin_err && c2.get() % 2 == 1 { Err(mkerr(ErrorKind::EncoderFull)) } else { Ok(Val::M(77, Box::new(v))) }
        })),
        2 => Box::new(build(&i).and_then(move |v| {
            c2.set(c2.get() + 1);
            s2.borrow_mut().push(v);
            build(&sec)
        })),
        _ => Box::new(build(&i).map_err(move |e| {
            c2.set(c2.get() + 1);
            let _ = e;
            mkerr(ErrorKind::DecoderTerminated)
        })),
    };
    s.note(|| format!("{} over {i:?}, then {second:?}", ["map", "try_map", "and_then", "map_err"][which as usize]));
    let mut total = 0u32;
    for round in 0..3u32 {
        let mut data = sample(&i, s, 20);
        let Out::Done { used: u0, val: Ok(v0) } = parse(&i, &data, false, Tot::Unknown) else { return Ok(()) };
        data.truncate(u0);
        let mut want = Ok(v0.clone());
        if which == 2 {
            let b = sample(&second, s, 20);
            data.extend(&b);
            match parse(&second, &b, false, Tot::Unknown) {
                Out::Done { used, val: Ok(v) } => {
                    data.truncate(u0 + used);
                    want = Ok(v);
                }
                _ => return Ok(()),
            }
        }
        let len = data.len();
        let extra = s.len(5);
        data.extend(s.bytes(extra));
        let cut = which == 3 && round == 2 && len > 0;
        if cut {
            data.truncate(s.below(len));
        }
        let mut pos = 0;
        let mut r = None;
        for _ in 0..400 {
            let c = s.range(0, data.len() - pos);
            let end = pos + c == data.len() && (cut && s.bool());
            match d.decode(&data[pos..pos + c], Eos::new(end)) {
                Ok(n) => pos += n,
                Err(e) => {
                    r = Some(Err(*e.kind()));
                    break;
                }
            }
            if d.is_idle() {
                r = Some(d.finish_decoding().map_err(|e| *e.kind()));
                break;
            }
            ensure!(!end, "end of stream signalled but neither item nor error");
        }
        if cut {
            if parse(&i, &data, true, Tot::Unknown) != Out::Fail(UE) {
                return Ok(());
            }
            ensure!(r == Some(Err(ErrorKind::DecoderTerminated)), "mapped error is {r:?}; {i:?}");
            ensure!(calls.get() == 1, "error mapping called {} times for one error; {i:?}", calls.get());
            s.label("error mapped");
            s.nontrivial();
            return Ok(());
        }
        let Some(r) = r else { fail!("item of {len} bytes not complete after {pos}; {i:?}") };
        ensure!(pos == len, "{pos} bytes consumed for an item of {len}; {i:?}");
        total += 1;
        match which {
            0 => ensure!(r == Ok(Val::M(77, Box::new(v0.clone()))), "map gave {r:?} for {v0:?}"),
            1 if fin_err && total % 2 == 1 => {
                ensure!(r == Err(ErrorKind::EncoderFull), "failing try_map gave {r:?}");
                s.label("fallible mapping failed and decoding went on");
            }
            1 => ensure!(r == Ok(Val::M(77, Box::new(v0.clone()))), "try_map gave {r:?} for {v0:?}"),
            2 => ensure!(r == want, "and_then gave {r:?}, expected {want:?}"),
            _ => ensure!(r == Ok(v0.clone()), "map_err changed an item to {r:?}"),
        }
        ensure!(calls.get() == if which == 3 { 0 } else { total }, "function called {} times for {total} items; {i:?}", calls.get());
        if which < 3 {
            ensure!(seen.borrow().last() == Some(&v0), "function called with {:?} instead of {v0:?}", seen.borrow().last());
        }
        s.nontrivial_if(total > 1);
    }
    Ok(())
}

/// A decoder that never says how many bytes it needs.
struct Vague(DynDec);
impl Decode for Vague {
    type Item = Val;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        self.0.decode(buf, eos)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<Val> {
        self.0.finish_decoding()
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Unknown
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
/// Decoders that do not tell their need make no difference.
fn c16_vague(s: &mut Src) -> R {
    let i = gen(s, 1, Ctx { eos: false, reuse: true, min1: false });
    let second = gen(s, 1, Ctx { eos: false, reuse: false, min1: false });
    let which = s.draw(5);
    let sec = second.clone();
    let omit = s.bool();
    let opt = |v: Option<Val>| Val::M(9, Box::new(v.unwrap_or(Val::M(8, Box::new(Val::U(0))))));
    let mut d: DynDec = match which {
        0 => Box::new(Vague(build(&i)).map(|v| Val::M(7, Box::new(v)))),
        1 => Box::new(Vague(build(&i)).try_map(|v| -> bytecodec::Result<Val> { Ok(Val::M(7, Box::new(v))) })),
        2 => Box::new(Vague(build(&i)).and_then(move |_| Vague(build(&sec)))),
        3 => Box::new(Vague(build(&i)).omit(omit).map(opt)),
        _ => Box::new(Vague(build(&i)).map_err(|e| e)),
    };
    s.note(|| format!("{} over {i:?}, then {second:?}; all vague", ["map", "try_map", "and_then", "omit", "map_err"][which as usize]));
    for round in 0..3 {
        let mut data = sample(&i, s, 20);
        let Out::Done { used, val: Ok(v0) } = parse(&i, &data, false, Tot::Unknown) else { return Ok(()) };
        data.truncate(used);
        let want = match which {
            0 | 1 => Val::M(7, Box::new(v0)),
            2 => {
                let b = sample(&second, s, 20);
                let Out::Done { used, val: Ok(v) } = parse(&second, &b, false, Tot::Unknown) else { return Ok(()) };
                data.extend(&b[..used]);
                v
            }
            3 if omit => {
                data.clear();
                opt(None)
            }
            3 => opt(Some(v0)),
            _ => v0,
        };
        let len = data.len();
        let extra = s.len(5);
        data.extend(s.bytes(extra));
        let mut pos = 0;
        for call in 0.. {
            ensure!(call < 200, "item of {len} bytes not complete after {pos}");
            let c = if call > 100 { data.len() - pos } else { s.range(0, data.len() - pos) };
            match d.decode(&data[pos..pos + c], Eos::new(false)) {
                Ok(n) => pos += n,
                Err(e) => fail!("failed with {:?} at {pos} of {len}", e.kind()),
            }
            if d.is_idle() {
                break;
            }
        }
        ensure!(pos == len, "{pos} bytes consumed for an item of {len}");
        // a held item stays
        for _ in 0..s.below(3) {
            let k = d.decode(&data[pos..], Eos::new(false)).map_err(|e| *e.kind());
            ensure!(k == Ok(0) && d.is_idle(), "a call on a complete item gave {k:?}");
        }
        let r = d.finish_decoding().map_err(|e| *e.kind());
        ensure!(r == Ok(want.clone()), "gave {r:?}, expected {want:?}");
        s.nontrivial_if(round > 0 && len > 0);
    }
    Ok(())
}

// ---- C18 ----
fn c18(s: &mut Src) -> R {
    let c = ctx(s);
    let x = gen(s, 3, c);
    let spec = Rc::new(Spec::MaybeEos(x));
    check(s, &spec, 8, HOLD)
}
/// Ends of stream between items, at every distance from the item boundary, several times on one instance.
fn c18_boundary(s: &mut Src) -> R {
    let i = gen(s, 2, Ctx { eos: false, reuse: true, min1: true });
    let spec: S = Rc::new(Spec::MaybeEos(i.clone()));
    let mut d = build(&i).maybe_eos();
    s.note(|| format!("maybe_eos over {i:?}"));
    if parse(&i, &[], false, Tot::Unknown) != Out::More {
        // fails (or completes) whatever it is fed
        return Ok(());
    }
    for round in 0..4 {
        // an end of stream that arrives between items, possibly repeatedly
        for _ in 0..s.range(0, 2) {
            match d.decode(&[], Eos::new(true)) {
                Ok(0) => {}
                r => fail!("end of stream between items gave {:?}; {i:?}", r.map_err(|e| *e.kind())),
            }
            ensure!(!d.is_idle(), "an end of stream between items completed an item; {i:?}");
            s.label("end between items");
            s.nontrivial_if(round > 0);
        }
        let mut data = sample(&i, s, 20);
        let Out::Done { used, val } = parse(&spec, &data, false, Tot::Unknown) else { return Ok(()) };
        data.truncate(used);
        if used == 0 {
            return Ok(());
        }
        let cut = if s.one_in(3) { s.below(used) } else { used };
        let mut pos = 0;
        while pos < cut {
            let c = s.range(1, cut - pos);
            match d.decode(&data[pos..pos + c], Eos::new(false)) {
                Ok(n) => {
                    ensure!(n == c, "consumed {n} of {c}; {i:?}");
                    pos += n;
                }
                Err(e) => fail!("failed with {:?} inside a valid item; {i:?} {data:02x?}", e.kind()),
            }
            if s.one_in(4) {
                let _ = d.is_idle();
            }
        }
        if cut == used {
            ensure!(d.is_idle(), "item not complete after its last byte; {i:?} {data:02x?}");
            let r = d.finish_decoding();
            match (r, val) {
                (Ok(v), Ok(w)) => ensure!(v == w, "decoded {v:?}, expected {w:?}"),
                (Err(e), Err(k)) => ensure!(ebit(&e) & k != 0, "finish failed with {:?}", e.kind()),
                (r, w) => fail!("finish gave {:?}, expected {w:?}; {i:?}", r.map_err(|e| *e.kind())),
            }
            continue;
        }
        if cut == 0 {
            continue;
        }
        let Out::Fail(k) = parse(&i, &data[..cut], true, Tot::Unknown) else { return Ok(()) };
        match d.decode(&[], Eos::new(true)) {
            Ok(_) => fail!("end of stream after {cut} of {used} bytes forgiven; {i:?} {data:02x?}"),
            Err(e) => ensure!(ebit(&e) & k != 0, "end of stream after {cut} of {used} bytes: {:?}, expected {}; {i:?}", e.kind(), kname(k)),
        }
        s.label("end inside an item");
        s.nontrivial();
        return Ok(());
    }
    Ok(())
}

// ---- C19 ----
fn c19_tree(s: &mut Src) -> R {
    let c = ctx(s);
    let x = gen(s, 2, c);
    let spec = wrap(s, Rc::new(Spec::Peek(x)));
    check(s, &spec, 8, HOLD)
}
fn c19_peek(s: &mut Src) -> R {
    let reuse = s.bool();
    let e = s.bool();
    let i = gen(s, 2, Ctx { eos: e, reuse, min1: false });
    let mut d: Peekable<DynDec> = build(&i).peekable();
    s.note(|| format!("peekable over {i:?}"));
    for round in 0..if reusable(&i) { 3 } else { 1 } {
        let mut data = sample(&i, s, 20);
        let Out::Done { used, val: Ok(mut want) } = parse(&i, &data, true, Tot::Unknown) else { return Ok(()) };
        if !eats_all(&i) {
            let k = s.len(6);
            data.truncate(used);
            data.extend(s.bytes(k));
        }
        let mut pos = 0;
        let mut calls = 0;
        loop {
            ensure!(d.peek().is_none() && d.peek_mut().is_none(), "something to peek at before the item is complete ({pos} of {used} bytes); {i:?}");
            if s.one_in(4) {
                match d.finish_decoding() {
                    Ok(v) => fail!("premature take gave {v:?}; {i:?}"),
                    Err(e) => ensure!(*e.kind() == ErrorKind::IncompleteDecoding, "premature take failed with {:?}; {i:?}", e.kind()),
                }
            }
            let c = s.range(0, data.len() - pos);
            let end = pos + c == data.len() && s.bool();
            match d.decode(&data[pos..pos + c], Eos::new(end)) {
                Ok(n) => {
                    ensure!(n <= c && pos + n <= used, "{n} of {c} consumed at {pos}, item of {used}; {i:?}");
                    pos += n;
                }
                Err(e) => {
                    ensure!(contains(&i, &|x| matches!(x, Spec::MaxBytes(..))) || matches!(parse(&i, &data[..pos + c], end, Tot::Unknown), Out::Fail(_)), "failed with {:?}; {i:?} {data:02x?}", e.kind());
                    return Ok(());
                }
            }
            calls += 1;
            ensure!(calls < 500 + 20 * data.len(), "never complete; {i:?}");
            if d.is_idle() {
                break;
            }
            ensure!(!end, "end of stream signalled but neither item nor error; {i:?}");
        }
        ensure!(pos == used, "item of {used} bytes complete after {pos}; {i:?}");
        for _ in 0..s.range(1, 4) {
            match s.draw(4) {
                0 => ensure!(d.peek() == Some(&want), "peek shows {:?}, the item is {want:?}; {i:?}", d.peek()),
                1 => {
                    let k = s.draw(1000);
                    match d.peek_mut() {
                        Some(x) => {
                            ensure!(*x == want, "peek_mut shows {x:?}, the item is {want:?}; {i:?}");
                            *x = Val::U(k);
                            want = Val::U(k);
                            s.label("changed through the view");
                        }
                        None => fail!("peek_mut shows nothing; {i:?}"),
                    }
                }
                2 => {
                    let n = s.len(5);
                    let b = s.bytes(n);
                    match d.decode(&b, Eos::new(s.bool())) {
                        Ok(0) => {}
                        r => fail!("decode while an item is shown gave {:?}; {i:?}", r.map_err(|e| *e.kind())),
                    }
                    s.label("decode while shown");
                }
                _ => ensure!(d.is_idle() && d.requiring_bytes() == ByteCount::Finite(0), "item shown but not idle; {i:?}"),
            }
        }
        ensure!(d.peek() == Some(&want), "peek shows {:?}, the item is {want:?}; {i:?}", d.peek());
        match d.finish_decoding() {
            Ok(v) => ensure!(v == want, "took {v:?}, peek showed {want:?}; {i:?}"),
            Err(e) => fail!("take failed with {:?}; {i:?}", e.kind()),
        }
        ensure!(d.peek().is_none() && d.peek_mut().is_none(), "the taken item is still shown; {i:?}");
        match d.finish_decoding() {
            Ok(v) => fail!("item taken twice: {v:?}; {i:?}"),
            Err(e) => ensure!(*e.kind() == ErrorKind::IncompleteDecoding, "second take failed with {:?}", e.kind()),
        }
        s.nontrivial_if(round > 0 || used > 1);
    }
    Ok(())
}

// ---- pinned: repaired defects ----
fn run(d: &mut dyn Decode<Item = Val>, chunks: &[(&[u8], bool)]) -> Result<(Val, usize), ErrorKind> {
    let mut used = 0;
    for (c, e) in chunks {
        used += d.decode(c, Eos::new(*e)).map_err(|e| *e.kind())?;
        if d.is_idle() {
            return d.finish_decoding().map(|v| (v, used)).map_err(|e| *e.kind());
        }
    }
    Err(ErrorKind::IncompleteDecoding)
}
fn u(n: u64) -> Val {
    Val::U(n)
}
fn pin_collect_partial() -> R {
    // F1: an item cut by the end of the stream
    let mut d = Fix::U16be.dec().collect::<Vec<Val>>().map(Val::L);
    let r = run(&mut d, &[(&[0, 1, 0], false), (&[], true)]);
    ensure!(r == Err(ErrorKind::UnexpectedEos), "collect of a cut stream gave {r:?}");
    Ok(())
}
fn pin_collectn_eos() -> R {
    // F2: the end of the stream between two items
    let mut d = Fix::U8.dec().collectn::<Vec<Val>>(3).map(Val::L);
    let r = run(&mut d, &[(&[1, 2], true)]);
    ensure!(r == Err(ErrorKind::UnexpectedEos), "collectn(3) of two bytes gave {r:?}");
    let mut d = Fix::U8.dec().omit(true).collectn::<Vec<Option<Val>>>(2).map(|v| u(v.len() as u64));
    let r = run(&mut d, &[(&[], true)]);
    ensure!(r == Ok((u(2), 0)), "collectn(2) of empty items gave {r:?}");
    Ok(())
}
fn pin_length_large() -> R {
    // F3: a declared length above 4 GiB whose low half is small
    let mut d = build(&Rc::new(Spec::Remain)).length((1 << 32) + 1);
    let n = d.decode(&[1, 2, 3], Eos::new(false)).map_err(|e| *e.kind());
    ensure!(n == Ok(3) && !d.is_idle(), "a window of 2^32+1 bytes took {n:?} of 3 bytes, idle {}", d.is_idle());
    Ok(())
}
fn pin_tuple_premature() -> R {
    // F10: taking a tuple of which only the first member is complete
    let mut d = Fix::U8.dec().chain(Fix::U8.dec()).map(|(a, b)| Val::T(vec![a, b]));
    let _ = d.decode(&[7], Eos::new(false));
    let r = d.finish_decoding().map_err(|e| *e.kind());
    ensure!(r == Err(ErrorKind::IncompleteDecoding), "premature take gave {r:?}");
    let r = run(&mut d, &[(&[8], false)]);
    ensure!(r == Ok((Val::T(vec![u(7), u(8)]), 1)), "after a premature take: {r:?}");
    Ok(())
}
fn pin_and_then_premature() -> R {
    let mut d = Fix::U8.dec().and_then(|n| build(&Rc::new(Spec::Remain)).length(n.u()));
    let _ = d.decode(&[2, 9], Eos::new(false));
    let r = d.finish_decoding().map_err(|e| *e.kind());
    ensure!(r == Err(ErrorKind::IncompleteDecoding), "premature take gave {r:?}");
    let r = run(&mut d, &[(&[8], false)]);
    ensure!(r == Ok((Val::B(vec![9, 8]), 1)), "after a premature take: {r:?}");
    Ok(())
}
fn pin_maybe_premature() -> R {
    let mut d = Fix::U16be.dec().maybe_eos();
    let _ = d.decode(&[2], Eos::new(false));
    let _ = d.finish_decoding();
    let r = run(&mut d, &[(&[], true)]);
    ensure!(r == Err(ErrorKind::UnexpectedEos), "an end inside an item after a premature take gave {r:?}");
    Ok(())
}
fn pin_max_premature() -> R {
    let mut d = build(&Rc::new(Spec::Remain)).max_bytes(3);
    let _ = d.decode(&[1, 2], Eos::new(false));
    let _ = d.finish_decoding();
    let r = run(&mut d, &[(&[3, 4], true)]);
    ensure!(r == Err(ErrorKind::InvalidInput), "4 bytes past a limit of 3 after a premature take gave {r:?}");
    Ok(())
}
fn pin_reserve() -> R {
    // F8: a declared length must not be allocated at once
    let base = crate::alloc_guard::begin();
    let mut d = build(&Rc::new(Spec::Remain)).length(1 << 40);
    let _ = d.decode(&[1, 2, 3], Eos::new(false));
    let p = crate::alloc_guard::peak_since(base);
    ensure!(p < 16 << 20, "3 bytes received, {p} bytes allocated");
    Ok(())
}

/// Serialized input whose declared lengths and nesting are hostile.
fn hostile_bincode(s: &mut Src) -> Vec<u8> {
    let mut out = vec![];
    for _ in 0..s.range(1, 4) {
        match s.draw(6) {
            0 => {
                let n = s.range(0, 6);
                out.extend(s.bytes(n));
            }
            1 => {
                // a string or byte sequence of the length it declares, and perhaps one less
                let n = s.range(0, 20);
                let k = n.saturating_sub(s.below(2) as usize);
                out.extend((n as u64).to_le_bytes());
                out.extend(std::iter::repeat(b'a' + s.below(20) as u8).take(k));
            }
            2 => out.push(s.below(3) as u8),
            3 => out.extend((s.below(5)).to_le_bytes()),
            _ => out.extend(s.int(64).to_le_bytes()),
        }
    }
    out
}
fn hostile_json(s: &mut Src) -> Vec<u8> {
    let mut out = vec![];
    for _ in 0..s.range(1, 4) {
        let n = if s.one_in(40) { s.range(100, 20_000) } else { s.range(0, 9) };
        let piece: &[u8] = match s.draw(9) {
            0 => b"[",
            1 => b"{\"a\":",
            2 => b"9",
            3 => b"1e",
            4 => b"\"\\u12",
            5 => b"]",
            6 => b"\"",
            7 => b"[1,",
            _ => b"\xff",
        };
        for _ in 0..n {
            out.extend(piece);
        }
    }
    out
}
fn serialized<D: Decode>(s: &mut Src, mut d: D, data: &[u8], what: &str) -> R {
    let base = crate::alloc_guard::begin();
    let mut pos = 0;
    let mut calls = 0;
    loop {
        calls += 1;
        ensure!(calls < 400, "{what}: no end after {calls} calls on {} bytes", data.len());
        let rest = data.len() - pos;
        let c = if calls > 30 || s.one_in(3) { rest } else { s.range(usize::from(rest > 0), rest.min(9)) };
        let eos = Eos::new(c == rest);
        match d.decode(&data[pos..pos + c], eos) {
            Ok(n) => {
                ensure!(n <= c, "{what}: consumed {n} of {c}");
                pos += n;
            }
            Err(_) => {
                s.label("rejected");
                break;
            }
        }
        if d.is_idle() {
            s.label("item decoded");
            ensure!(d.finish_decoding().is_ok(), "{what}: idle, but no item");
            break;
        }
        ensure!(!eos.is_reached(), "{what}: the end of the stream led to neither an item nor an error");
    }
    let peak = crate::alloc_guard::peak_since(base);
    let limit = (8 << 20) + 4096 * data.len();
    ensure!(peak <= limit, "{what}: {} bytes received, {peak} bytes of memory used (limit {limit})", data.len());
    Ok(())
}
fn c31_serialized(s: &mut Src) -> R {
    use bytecodec::bincode_codec::BincodeDecoder as B;
    use bytecodec::json_codec::JsonDecoder as J;
    use std::collections::{BTreeMap, HashMap};
    let kind = s.draw(14);
    let data = if kind < 10 { hostile_bincode(s) } else { hostile_json(s) };
    s.note(|| format!("kind {kind}, {} bytes {:02x?}", data.len(), &data[..data.len().min(64)]));
    s.nontrivial_if(data.len() > 7);
    match kind {
        0 => serialized(s, B::<String>::new(), &data, "bincode String"),
        1 => serialized(s, B::<Vec<u8>>::new(), &data, "bincode Vec<u8>"),
        2 => serialized(s, B::<Vec<u32>>::new(), &data, "bincode Vec<u32>"),
        3 => serialized(s, B::<Vec<String>>::new(), &data, "bincode Vec<String>"),
        4 => serialized(s, B::<(String, u16)>::new(), &data, "bincode (String, u16)"),
        5 => serialized(s, B::<Option<String>>::new(), &data, "bincode Option<String>"),
        6 => serialized(s, B::<HashMap<u16, Vec<u64>>>::new(), &data, "bincode HashMap"),
        7 => serialized(s, B::<BTreeMap<String, Option<char>>>::new(), &data, "bincode BTreeMap"),
        8 => serialized(s, B::<(u8, Result<Box<str>, Vec<[u16; 3]>>)>::new(), &data, "bincode Result"),
        9 => serialized(s, B::<std::ffi::CString>::new(), &data, "bincode CString"),
        10 => serialized(s, J::<String>::new(), &data, "json String"),
        11 => serialized(s, J::<Vec<u8>>::new(), &data, "json Vec<u8>"),
        12 => serialized(s, J::<HashMap<String, f64>>::new(), &data, "json HashMap"),
        _ => serialized(s, J::<serde_json::Value>::new(), &data, "json Value"),
    }
}
fn pin_declared_string() -> R {
    // F20: the declared length of a string must not be allocated at once
    for n in [u64::MAX, 1 << 62, 1 << 40, 1 << 33, 1 << 28] {
        let base = crate::alloc_guard::begin();
        let mut d = bytecodec::bincode_codec::BincodeDecoder::<String>::new();
        ensure!(d.decode(&n.to_le_bytes(), Eos::new(true)).is_err(), "a string of {n} bytes decoded from nothing");
        let p = crate::alloc_guard::peak_since(base);
        ensure!(p < 16 << 20, "8 bytes received, {p} bytes allocated");
    }
    Ok(())
}

// ---- C31 ----
fn hostile(s: &mut Src, spec: &Spec) -> Vec<u8> {
    let mut out = vec![];
    for _ in 0..s.range(1, 3) {
        match s.draw(5) {
            0 => {
                let n = s.len(40);
                out.extend(s.bytes(n));
            }
            1 => out.extend(vec![0xFF; s.range(1, 16)]),
            2 => {
                // huge declared numbers in front
                for _ in 0..s.range(1, 3) {
                    out.extend(s.int(64).to_be_bytes());
                }
            }
            _ => {
                out.extend(sample(spec, s, 40));
                for _ in 0..s.range(0, 3) {
                    let i = s.below(out.len() + 1);
                    match s.draw(3) {
                        0 if i < out.len() => out[i] = *s.pick(&[0xFFu8, 0x80, 0x7F, 0, 1, 0xFE]),
                        1 => {
                            let k = s.range(0, 8).min(out.len() - i);
                            out[i..i + k].iter_mut().for_each(|b| *b = 0xFF);
                        }
                        _ => mutate(s, &mut out),
                    }
                }
            }
        }
    }
    out
}
fn c31(s: &mut Src) -> R {
    let depth = s.range(1, 4);
    let x = match s.draw(6) {
        0 => gen(s, depth, Ctx::top(true)),
        1 => {
            let c = gen_eater(s, depth - 1, Ctx { eos: true, reuse: false, min1: false });
            Rc::new(Spec::LenPrefix(*s.pick(&[Fix::U32be, Fix::U64be, Fix::U64le, Fix::U56be, Fix::U40le]), c))
        }
        2 => {
            let c = gen(s, depth - 1, Ctx { eos: false, reuse: true, min1: true });
            Rc::new(Spec::Count(*s.pick(&[Fix::U32be, Fix::U64be, Fix::U64le, Fix::U48be]), c))
        }
        3 => {
            // several windows of huge declared sizes side by side
            let n = s.range(2, 5);
            Rc::new(Spec::Tuple((0..n).map(|_| { let c = gen_eater(s, 1, Ctx { eos: true, reuse: false, min1: false }); Rc::new(Spec::LenPrefix(*s.pick(UINTS), c)) as S }).collect()))
        }
        4 => {
            // statically huge windows, whose needs are added up
            let n = s.range(2, 4);
            Rc::new(Spec::Tuple((0..n).map(|_| { let k = s.int(64); let c = gen_eater(s, 0, Ctx { eos: true, reuse: true, min1: false }); Rc::new(Spec::Length(k, c, vec![])) as S }).collect()))
        }
        _ => wrap_any(s, depth),
    };
    s.note(|| format!("spec {x:?}"));
    let data = hostile(s, &x);
    s.note(|| format!("input {data:02x?}"));
    let base = crate::alloc_guard::begin();
    let mut d = build(&x);
    let mut pos = 0;
    let mut items = 0;
    let mut calls = 0;
    let declared = s.draw(4);
    let mut failed = false;
    loop {
        calls += 1;
        ensure!(calls < 4000 + 4 * data.len(), "no end after {calls} calls on {} bytes; {x:?} {data:02x?}", data.len());
        let rest = data.len() - pos;
        let c = if s.one_in(3) { rest } else { s.range(usize::from(rest > 0), rest.min(9)) };
        let end = c == rest;
        let eos = match declared {
            0 => Eos::with_remaining_bytes(ByteCount::Finite((rest - c) as u64)),
            1 if !end => Eos::with_remaining_bytes(ByteCount::Infinite),
            _ => Eos::new(end),
        };
        let n = match d.decode(&data[pos..pos + c], eos) {
            Ok(n) => n,
            Err(_) => {
                failed = true;
                break;
            }
        };
        ensure!(n <= c, "consumed {n} of {c}; {x:?}");
        pos += n;
        let _ = d.requiring_bytes();
        if d.is_idle() {
            items += 1;
            let r = d.finish_decoding();
            if r.is_err() || n == 0 && pos == data.len() || items > 64 || !reusable(&x) {
                break;
            }
        } else {
            ensure!(n == c, "not idle but {n} of {c} consumed; {x:?} {data:02x?}");
            ensure!(!eos.is_reached(), "the end of the stream led to neither an item nor an error; {x:?} {data:02x?}");
        }
    }
    let peak = crate::alloc_guard::peak_since(base);
    drop(d);
    let limit = (8 << 20) + 4096 * (data.len() + nodes(&x));
    ensure!(peak <= limit, "{} bytes received, {peak} bytes of memory used (limit {limit}); {x:?} {data:02x?}", data.len());
    s.label_if(failed, "rejected");
    s.label_if(items > 0, "item decoded");
    s.nontrivial_if(data.len() > 1 && nodes(&x) > 1);
    Ok(())
}
fn wrap_any(s: &mut Src, depth: usize) -> S {
    let x = gen(s, depth, Ctx::top(true));
    wrap(s, x)
}

// ---- C36 (decoding) ----
fn c36_dec(s: &mut Src) -> R {
    let n = s.range(2, 8);
    let c = ctx(s);
    let ms: Vec<S> = (0..n)
        .map(|i| {
            let d = s.range(0, 1);
            gen(s, d, Ctx { eos: c.eos && i + 1 == n, reuse: c.reuse, min1: false })
        })
        .collect();
    s.label(["", "", "arity 2", "arity 3", "arity 4", "arity 5", "arity 6", "arity 7", "arity 8"][n]);
    let mut spec: S = Rc::new(Spec::Tuple(ms));
    if s.one_in(3) {
        // chains of chains
        let m = gen(s, 0, Ctx { eos: false, reuse: c.reuse, min1: false });
        spec = if eats_all(&spec) { Rc::new(Spec::Tuple(vec![m, spec])) } else { Rc::new(Spec::Tuple(vec![spec, m])) };
    }
    check(s, &spec, 8, ALL)
}
/// Plain numbers of different widths: sizes, needs and values with no model.
fn c36_plain(s: &mut Src) -> R {
    let n = s.range(2, 8);
    let ks: Vec<Fix> = (0..n).map(|_| *s.pick(FIXES)).collect();
    let total: usize = ks.iter().map(|k| k.width()).sum();
    let mut d = tuple_dec(ks.iter().map(|k| k.dec()).collect());
    s.note(|| format!("{ks:?}"));
    for _ in 0..2 {
        let data = s.bytes(total + 3);
        let mut pos = 0;
        let mut want = vec![];
        for k in &ks {
            want.push(k.parse(&data[pos..]));
            pos += k.width();
        }
        let mut pos = 0;
        let mut calls = 0;
        while !d.is_idle() {
            ensure!(d.requiring_bytes() == ByteCount::Finite((total - pos) as u64), "{ks:?}: needs {:?} after {pos} of {total} bytes", d.requiring_bytes());
            let c = s.range(0, data.len() - pos);
            match d.decode(&data[pos..pos + c], Eos::new(false)) {
                Ok(n) => {
                    ensure!(n == c.min(total - pos), "{ks:?}: consumed {n} of {c} at {pos} of {total}");
                    pos += n;
                }
                Err(e) => fail!("{ks:?} failed with {:?}", e.kind()),
            }
            calls += 1;
            ensure!(calls < 500 + 20 * data.len(), "never complete");
            ensure!(d.is_idle() == (pos == total), "{ks:?}: is_idle {} after {pos} of {total}", d.is_idle());
        }
        ensure!(d.requiring_bytes() == ByteCount::Finite(0), "{ks:?}: complete but needs {:?}", d.requiring_bytes());
        match d.finish_decoding() {
            Ok(v) => ensure!(v == Val::T(want.clone()), "{ks:?}: {v:?}, expected {want:?}"),
            Err(e) => fail!("{ks:?} failed with {:?}", e.kind()),
        }
    }
    s.nontrivial_if(n > 2);
    Ok(())
}
pub fn c36_subs(p: Prop) -> Prop {
    p.sub("decode", 400_000, "more than one byte decoded, or a failure", c36_dec).long("decode-long", 9000, "more than one byte decoded, or a failure", c36_dec).large("decode-large", 3_000, "more than one byte decoded, or a failure", c36_dec).sub("plain", 300_000, "at least three members", c36_plain)
}
pub fn c14_subs(p: Prop) -> Prop {
    p.sub("decode", 600_000, "more than one byte decoded, or a failure", c14_dec)
            .large("decode-large", 5000, "more than one byte decoded, or a failure", c14_dec)
            .long("decode-long", 9000, "more than one byte decoded, or a failure", c14_dec)
        .sub("exact", 500_000, "an item of more than one byte at or below the limit, or one above it", c14_exact)
        .sub("told", 300_000, "too many announced after some bytes, or a complete item", c14_told).long("told-long", 9000, "too many announced after some bytes, or a complete item", c14_told)
        .pin("huge-distance", pin_max_huge)
        .pin("premature take", pin_max_premature)
}

const TREE: &str = "composition of at least two decoders and more than one byte decoded, or a failure";
pub fn props() -> Vec<Prop> {
    vec![
        Prop::new("C03")
            .sub("any", 1_500_000, TREE, c03_any)
            .sub("deep", 600_000, TREE, c03_deep)
            .large("large", 6_000, TREE, c03_any)
            .long("long", 9000, TREE, c03_any)
            .pin("collect-partial", pin_collect_partial)
            .pin("length-large", pin_length_large),
        Prop::new("C08")
            .sub("any", 1_500_000, TREE, c08_any)
            .large("large", 5000, TREE, c08_any)
            .long("long", 9000, TREE, c08_any)
            .pin("tuple-premature", pin_tuple_premature)
            .pin("and-then-premature", pin_and_then_premature)
            .pin("maybe-premature", pin_maybe_premature)
            .pin("max-premature", pin_max_premature),
        Prop::new("C09").sub("any", 1_000_000, TREE, c09_any).long("long", 9000, TREE, c09_any).sub("sums", 600_000, TREE, c09_sequence).large("large", 5_000, TREE, c09_any),
        Prop::new("C10")
            .sub("cut", 500_000, "the model says the cut stream must end in UnexpectedEos", c10_cut)
            .large("large", 5000, "the model says the cut stream must end in UnexpectedEos", c10_cut)
            .long("long", 9000, "the model says the cut stream must end in UnexpectedEos", c10_cut)
            .sub("helpers", 500_000, "the model says the cut stream must end in UnexpectedEos", c10_helpers)
            .sub("collectn", 100_000, "several elements wanted and a byte given", c10_collectn)
            .pin("collect-partial", pin_collect_partial)
            .pin("collectn-eos", pin_collectn_eos),
        Prop::new("C12")
            .sub("window", 800_000, TREE, c12_window)
            .large("large", 5000, TREE, c12_window)
            .long("long", 9000, TREE, c12_window)
            .sub("fit", 600_000, "inner item larger or smaller than the window, or a composed inner decoder that fits", c12_fit)
            .pin("length-large", pin_length_large),
        Prop::new("C15")
            .sub("tree", 1_000_000, TREE, c15)
            .large("large", 5000, TREE, c15)
            .long("long", 9000, TREE, c15)
            .sub("plain", 500_000, "at least two items", c15_plain)
            .sub("refused", 100_000, "an item refused", c15_refused)
            .sub("refused-end", 100_000, "an item refused", c15_refused_end)
            .pin("collect-partial", pin_collect_partial)
            .pin("collectn-eos", pin_collectn_eos),
        Prop::new("C16")
            .sub("vague", 300_000, "a second item of at least one byte", c16_vague)
            .sub("tree", 1_000_000, TREE, c16)
            .large("large", 5000, TREE, c16)
            .long("long", 9000, TREE, c16)
            .sub("calls", 500_000, "at least two items, or a mapped error", c16_calls)
            .pin("and-then-premature", pin_and_then_premature),
        Prop::new("C18")
            .sub("tree", 600_000, TREE, c18)
            .large("large", 5000, TREE, c18)
            .long("long", 9000, TREE, c18)
            .sub("boundary", 600_000, "an end between items after the first item, or an end inside an item", c18_boundary)
            .pin("maybe-premature", pin_maybe_premature),
        Prop::new("C19").sub("tree", 500_000, TREE, c19_tree).large("large", 4_000, TREE, c19_tree).long("long", 9000, TREE, c19_tree).sub("peek", 800_000, "more than one item or more than one byte", c19_peek),
        Prop::new("C31")
            .sub("hostile", 1_500_000, "composition of at least two decoders and at least two input bytes", c31).long("long", 9000, "composition of at least two decoders and at least two input bytes", c31)
            .sub("serialized", 300_000, "at least eight bytes of serialized input", c31_serialized)
            .pin("declared-string", pin_declared_string)
            .pin("reserve", pin_reserve)
            .pin("length-large", pin_length_large),
    ]
}
