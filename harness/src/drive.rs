//! Feeds a composed decoder a stream in random divisions and compares every step with the reference model.
use crate::engine::{Fail, Src};
use crate::spec::*;
use crate::val::{DynDec, Val};
use crate::{ensure, fail};
use bytecodec::{ByteCount, Decode, Eos};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    /// distance to the end unknown until the end is signalled
    Unknown,
    /// exact distance given in every call; `extra` bytes exist beyond the fed data
    Known(u64),
    /// endless stream
    Inf,
    /// exact and unknown distances mixed (closed streams only)
    Mixed,
}
#[derive(Clone, Copy)]
pub struct Opt {
    /// decode while an item is held
    pub hold: bool,
    /// take before complete
    pub premature: bool,
    /// check requiring_bytes
    pub need: bool,
    /// take twice
    pub twice: bool,
}
pub const PLAIN: Opt = Opt { hold: false, premature: false, need: false, twice: false };

#[derive(Debug)]
pub enum End {
    Done { val: Result<Val, u8>, used: usize, fresh_idle: bool },
    Failed(u8),
    /// everything fed, item not complete, end not signalled (or forgiven)
    Open,
}

fn kinds_of_map_err(s: &Spec) -> u8 {
    let m = std::cell::Cell::new(0u8);
    contains(s, &|x| {
        if let Spec::MapErr(Some(k), _) = x {
            m.set(m.get() | kbit(*k));
        }
        false
    });
    m.get()
}
fn chunk_len(s: &mut Src, rest: usize, zeros: &mut u32, calls: usize) -> usize {
    if s.big && rest > 60 {
        let c = if calls > s.patience(40) {
            rest
        } else {
            match s.draw(10) {
                0 if *zeros < 3 => 0,
                1 => 1,
                2 => s.range(1, 12),
                3 => s.range(0, rest),
                4 => rest / 2,
                5 => rest - 1,
                6 => *s.pick(&[255usize, 256, 257, 1023, 1024, 1025, 4096, 8192, 65535, 65536]),
                _ => rest,
            }
            .min(rest)
        };
        *zeros = if c == 0 { *zeros + 1 } else { 0 };
        return c;
    }
    if s.long == 2 {
        let c = match s.draw(8) {
            0 | 1 | 2 if *zeros < 300 => 0,
            3 => s.range(0, rest.min(4)),
            _ => rest.min(1),
        };
        *zeros = if c == 0 { *zeros + 1 } else { 0 };
        s.label_if(calls > 256, "more than 256 calls for an item");
        return c;
    }
    let c = match s.draw(8) {
        0 if *zeros < 3 => 0,
        0 | 1 | 2 => 1,
        3 => 2,
        4 => s.range(1, rest.min(4).max(1)),
        5 => s.range(1, rest.min(12).max(1)),
        6 => s.range(0, rest),
        _ => rest,
    }
    .min(rest);
    if c == 0 {
        *zeros += 1;
    } else {
        *zeros = 0;
    }
    c
}

/// Decodes (at most) one item from `data`; `closed`: the stream ends after `data`.
pub fn drive_item(s: &mut Src, spec: &S, dec: &mut DynDec, data: &[u8], closed: bool, mode: Mode, o: Opt) -> Result<End, Fail> {
    let total = data.len();
    let full_tot = match mode {
        Mode::Unknown | Mode::Mixed => Tot::Unknown,
        Mode::Known(x) => Tot::Known(total as u64 + x),
        Mode::Inf => Tot::Inf,
    };
    let full = parse(spec, data, closed, full_tot);
    let full_known = if mode == Mode::Mixed { parse(spec, data, closed, Tot::Known(total as u64)) } else { full.clone() };
    let mut accept = 0u8;
    for f in [&full, &full_known] {
        if let Out::Fail(k) = f {
            accept |= k;
        }
    }
    let fresh_idle = dec.is_idle();
    let mut pos = 0usize;
    let mut zeros = 0;
    let mut calls = 0;
    let mut need_at = 0u64;
    let mut inf_seen = false;
    let premature_ok = ID | kinds_of_map_err(spec);
    loop {
        if o.need && !dec.is_idle() {
            match dec.requiring_bytes() {
                ByteCount::Finite(n) => need_at = need_at.max((pos as u64).saturating_add(n)),
                ByteCount::Infinite => inf_seen = true,
                ByteCount::Unknown => {}
            }
        }
        if o.premature && !dec.is_idle() && s.one_in(4) {
            s.label("premature take");
            match dec.finish_decoding() {
                Ok(v) => fail!("finish_decoding returned {v:?} for an incomplete item after {pos} bytes of {data:?}; spec {spec:?}"),
                Err(e) => ensure!(ebit(&e) & premature_ok != 0, "premature finish_decoding after {pos} bytes failed with {:?} instead of IncompleteDecoding; spec {spec:?}", e.kind()),
            }
            ensure!(!dec.is_idle(), "a refused finish_decoding made the decoder idle; spec {spec:?}");
        }
        let rest = total - pos;
        let c = chunk_len(s, rest, &mut zeros, calls);
        let last = pos + c == total;
        let mut signalled = false;
        let eos = match mode {
            Mode::Unknown => {
                if last && closed && (rest == 0 && c == 0 || s.bool()) {
                    signalled = true;
                    Eos::new(true)
                } else {
                    Eos::new(false)
                }
            }
            Mode::Known(x) => {
                signalled = last && x == 0;
                Eos::with_remaining_bytes(ByteCount::Finite((rest - c) as u64 + x))
            }
            Mode::Inf => Eos::with_remaining_bytes(ByteCount::Infinite),
            Mode::Mixed => {
                if last && s.bool() || s.bool() && !last {
                    signalled = last;
                    Eos::with_remaining_bytes(ByteCount::Finite((rest - c) as u64))
                } else {
                    Eos::new(false)
                }
            }
        };
        s.label_if(c == 0 && !signalled, "empty chunk");
        s.label_if(signalled && c == 0, "end in a separate empty call");
        s.label_if(signalled && c > 0, "end with the last bytes");
        calls += 1;
        ensure!(calls < 3000 + 400 * total, "no end after {calls} calls; spec {spec:?} data {data:?}");
        let r = dec.decode(&data[pos..pos + c], eos);
        s.note(|| format!("decode({:02x?}, {eos:?}) at {pos} -> {:?}, idle {}", &data[pos..pos + c], r.as_ref().map_err(|e| *e.kind()), dec.is_idle()));
        let pre = parse(spec, &data[..pos + c], signalled, if mode == Mode::Mixed { Tot::Unknown } else { full_tot });
        let n = match r {
            Err(e) => {
                let mut ok = accept;
                if let Out::Fail(k) = pre {
                    ok |= k;
                }
                let k = ebit(&e);
                ensure!(ok & k != 0, "decode failed with {:?} after {} of {total} bytes; the model expects {}; prefix {:?}, whole {:?}; spec {spec:?} data {data:02x?} eos {eos:?}", e.kind(), pos + c, if ok == 0 { "no failure".to_string() } else { kname(ok) }, brief(&pre), brief(&full));
                s.label_if(calls > 1, "failure after several calls");
                return Ok(End::Failed(k));
            }
            Ok(n) => n,
        };
        ensure!(n <= c, "decode consumed {n} of {c} bytes; spec {spec:?}");
        pos += n;
        if dec.is_idle() {
            let (val, used) = match pre {
                Out::Done { val, used } => (val, used),
                p => fail!("idle after {pos} bytes but the model says {:?}; spec {spec:?} data {data:02x?} signalled {signalled}", brief(&p)),
            };
            ensure!(used == pos, "item of {used} bytes but {pos} consumed; spec {spec:?} data {data:02x?}");
            if o.need {
                if val.is_ok() {
                    ensure!(dec.requiring_bytes() == ByteCount::Finite(0), "complete item but requiring_bytes is {:?}; spec {spec:?}", dec.requiring_bytes());
                }
                if !signalled {
                    ensure!(need_at <= used as u64, "requiring_bytes demanded at least {need_at} bytes in all but the item was complete after {used}; spec {spec:?} data {data:02x?}");
                    ensure!(!inf_seen, "requiring_bytes was Infinite but the item was complete before the end of the stream; spec {spec:?} data {data:02x?}");
                }
            }
            if o.hold && !contains(spec, &|x| matches!(x, Spec::MaxBytes(..))) {
                for _ in 0..s.range(0, 2) {
                    let c = s.range(0, total - pos);
                    let end = pos + c == total && closed && mode != Mode::Inf;
                    let eos = match mode {
                        Mode::Known(x) => Eos::with_remaining_bytes(ByteCount::Finite((total - pos - c) as u64 + x)),
                        Mode::Inf => Eos::with_remaining_bytes(ByteCount::Infinite),
                        _ => Eos::new(end),
                    };
                    s.label_if(c > 0, "bytes offered while an item is held");
                    match dec.decode(&data[pos..pos + c], eos) {
                        Ok(0) => {}
                        Ok(n) => fail!("{n} bytes consumed while a complete item is held; spec {spec:?} data {data:02x?}"),
                        Err(e) => fail!("decode failed with {:?} while a complete item is held; spec {spec:?} data {data:02x?}", e.kind()),
                    }
                    ensure!(dec.is_idle(), "complete item lost by a further decode call; spec {spec:?}");
                }
                if s.one_in(4) {
                    // whatever is offered, even after the end of the stream
                    let c = s.range(1, 5);
                    let junk = s.bytes(c);
                    let eos = Eos::new(s.bool());
                    s.label_if(signalled, "bytes offered after the end while an item is held");
                    match dec.decode(&junk, eos) {
                        Ok(0) => {}
                        r => fail!("offered {junk:02x?} {eos:?} while a complete item is held: decode gave {:?}; spec {spec:?} data {data:02x?}", r.map_err(|e| *e.kind())),
                    }
                    ensure!(dec.is_idle(), "complete item lost by a further decode call; spec {spec:?}");
                }
            }
            s.label_if(calls > 1, "several calls");
            match (dec.finish_decoding(), &val) {
                (Ok(v), Ok(w)) => ensure!(v == *w, "decoded {v:?}, expected {w:?}; spec {spec:?} data {data:02x?}"),
                (Ok(v), Err(k)) => fail!("decoded {v:?}, expected an error {}; spec {spec:?} data {data:02x?}", kname(*k)),
                (Err(e), Ok(w)) => fail!("finish_decoding failed with {:?}, expected {w:?}; spec {spec:?} data {data:02x?}", e.kind()),
                (Err(e), Err(k)) => ensure!(ebit(&e) & k != 0, "finish_decoding failed with {:?}, expected {}; spec {spec:?}", e.kind(), kname(*k)),
            }
            if o.twice && !fresh_idle && reusable(spec) {
                ensure!(!dec.is_idle(), "decoder still idle after its item was taken; spec {spec:?}");
                match dec.finish_decoding() {
                    Ok(v) => fail!("item taken twice: {v:?}; spec {spec:?}"),
                    Err(e) => ensure!(ebit(&e) & premature_ok != 0, "second finish_decoding failed with {:?}; spec {spec:?}", e.kind()),
                }
            }
            return Ok(End::Done { val, used, fresh_idle });
        }
        ensure!(n == c, "not idle but only {n} of {c} offered bytes consumed; spec {spec:?} data {data:02x?}");
        match pre {
            Out::More => {}
            Out::Done { used, .. } => fail!("not idle although the item is complete after {used} bytes ({pos} fed); spec {spec:?} data {data:02x?} signalled {signalled}"),
            Out::Fail(k) if mode != Mode::Mixed || signalled => fail!("no failure ({}) after {pos} bytes of {total}; spec {spec:?} data {data:02x?} mode {mode:?} signalled {signalled}", kname(k)),
            Out::Fail(_) => {}
        }
        if signalled || (last && !closed && s.bool()) || (last && mode == Mode::Inf) || (last && matches!(mode, Mode::Known(x) if x > 0)) {
            return Ok(End::Open);
        }
    }
}
fn brief(o: &Out) -> String {
    match o {
        Out::Fail(k) => format!("Fail({})", kname(*k)),
        o => format!("{o:?}"),
    }
}

pub struct Outcome {
    pub done: usize,
    pub failed: bool,
    pub open: bool,
    pub bytes: usize,
}

/// Generates streams for `spec` and decodes up to `max_items` items on one instance.
/// `bad`: how often streams are damaged (1 in `bad`; 0 = never).
pub fn drive(s: &mut Src, spec: &S, max_items: usize, bad: u64, o: Opt) -> Result<Outcome, Fail> {
    s.note(|| format!("spec {spec:?}"));
    let bad = if s.long > 0 { 0 } else { bad };
    let mut dec = build(spec);
    let mut out = Outcome { done: 0, failed: false, open: false, bytes: 0 };
    let streams = if !reusable(spec) {
        1
    } else if s.long == 1 && eats_all(spec) {
        s.rounds(1, max_items)
    } else {
        s.range(1, max_items)
    };
    let mut items = 0;
    'streams: for _ in 0..streams {
        if s.tired() {
            break;
        }
        let per = if eats_all(spec) || !reusable(spec) {
            1
        } else if s.long == 1 {
            s.rounds(1, max_items)
        } else {
            s.range(1, max_items)
        };
        let room = s.size;
        let mut data = vec![];
        for _ in 0..per {
            s.refill();
            data.extend(sample(spec, s, room));
            if data.len() > s.bulk() || s.long == 1 && data.len() > 6000 {
                break;
            }
        }
        if data.len() > 3 * s.bulk() {
            return Ok(out);
        }
        if bad != 0 && s.one_in(bad) {
            for _ in 0..s.range(1, 3) {
                mutate(s, &mut data);
            }
            s.label("damaged stream");
        }
        if !eats_all(spec) && s.one_in(3) {
            let n = s.len(10);
            data.extend(s.bytes(n));
            s.label("trailing bytes");
        }
        let (closed, mode) = match s.draw(10) {
            0..=2 if s.long == 1 => (true, Mode::Unknown),
            0 => (false, Mode::Known(1 + s.len(300) as u64)),
            1 => (false, Mode::Inf),
            2 => (false, Mode::Unknown),
            3 | 4 => (true, Mode::Known(0)),
            5 => (true, Mode::Mixed),
            _ => (true, Mode::Unknown),
        };
        s.note(|| format!("stream {data:02x?} closed {closed} {mode:?}"));
        let mut pos = 0;
        for _ in 0..per + 1 {
            let e = drive_item(s, spec, &mut dec, &data[pos..], closed, mode, o)?;
            match e {
                End::Done { used, val, fresh_idle } => {
                    pos += used;
                    out.bytes += used;
                    out.done += 1;
                    items += 1;
                    s.label_if(val.is_err(), "item rejected when taken");
                    s.label_if(out.done > 1, "several items on one instance");
                    s.label_if(out.done > 256, "more than 256 items on one instance");
                    if !reusable(spec) {
                        break 'streams;
                    }
                    if items >= 12 && s.long == 0 || fresh_idle && used == 0 {
                        break;
                    }
                    if pos == data.len() && s.bool() {
                        break;
                    }
                }
                End::Failed(_) => {
                    out.failed = true;
                    s.label("failure");
                    break 'streams;
                }
                End::Open => {
                    out.open = true;
                    s.label("input incomplete");
                    if pos == data.len() && !contains(spec, &|x| matches!(x, Spec::Length(..) | Spec::MaxBytes(..) | Spec::LenPrefix(..))) && !eats_all(spec) {
                        // nothing of an item was fed (a forgiven end): the instance goes on
                        continue 'streams;
                    }
                    break 'streams;
                }
            }
        }
    }
    Ok(out)
}
