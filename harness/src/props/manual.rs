//! Codecs composed by hand with the exported macros, against the tuple of the same members.
use crate::enc::{self, Ser, SerEnd};
use crate::engine::{tick, Prop, Src, R};
use crate::spec::{self, Ctx, Spec};
use crate::val::{DynDec, DynEnc, Val};
use crate::{ensure, fail};
use bytecodec::{bytecodec_try_decode, bytecodec_try_encode, ByteCount, Decode, Encode, Eos, ErrorKind, Result};
use std::rc::Rc;
use trackable::track;

/// Members run in order by the macro; `1` (form) per member: plain, with a message, with values.
struct ManualDec {
    m: Vec<(DynDec, u8)>,
}
impl Decode for ManualDec {
    type Item = Val;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        let mut offset = 0;
        for (i, (d, form)) in self.m.iter_mut().enumerate() {
            tick();
            match form {
                0 => bytecodec_try_decode!(d, offset, buf, eos),
                1 => bytecodec_try_decode!(d, offset, buf, eos, "member {}", i),
                _ => bytecodec_try_decode!(d, offset, buf, eos; i, offset),
            }
        }
        Ok(offset)
    }
    fn finish_decoding(&mut self) -> Result<Val> {
        if !self.is_idle() {
            return Err(spec::mkerr(ErrorKind::IncompleteDecoding));
        }
        // every member's item is taken, whether or not one is rejected
        let v: Vec<Result<Val>> = self.m.iter_mut().map(|(d, _)| d.finish_decoding()).collect();
        v.into_iter().collect::<Result<Vec<_>>>().map(Val::T)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.m.iter().fold(ByteCount::Finite(0), |a, (d, _)| a.add_for_decoding(d.requiring_bytes()))
    }
    fn is_idle(&self) -> bool {
        self.m.iter().all(|(d, _)| d.is_idle())
    }
}
struct ManualEnc {
    m: Vec<(DynEnc, u8)>,
}
impl Encode for ManualEnc {
    type Item = Val;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        let mut offset = 0;
        for (i, (e, form)) in self.m.iter_mut().enumerate() {
            tick();
            match form {
                0 => bytecodec_try_encode!(e, offset, buf, eos),
                1 => bytecodec_try_encode!(e, offset, buf, eos, "member {}", i),
                _ => bytecodec_try_encode!(e, offset, buf, eos; i, offset),
            }
        }
        Ok(offset)
    }
    fn start_encoding(&mut self, item: Val) -> Result<()> {
        if !self.is_idle() {
            return Err(spec::mkerr(ErrorKind::EncoderFull));
        }
        for ((e, _), v) in self.m.iter_mut().zip(item.seq()) {
            e.start_encoding(v)?;
        }
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.m.iter().fold(ByteCount::Finite(0), |a, (d, _)| a.add_for_encoding(d.requiring_bytes()))
    }
    fn is_idle(&self) -> bool {
        self.m.iter().all(|(d, _)| d.is_idle())
    }
}

fn c39_decode(s: &mut Src) -> R {
    let d = s.range(0, 2);
    let reuse = s.bool();
    let t = spec::gen_tuple(s, d, Ctx::top(reuse));
    let Spec::Tuple(ms) = &*t else { unreachable!() };
    let forms: Vec<u8> = ms.iter().map(|_| s.draw(3) as u8).collect();
    s.note(|| format!("{t:?} forms {forms:?}"));
    // the hand-written composition has the meaning of the tuple
    let mut man: DynDec = Box::new(ManualDec { m: ms.iter().zip(&forms).map(|(m, f)| (spec::build(m), *f)).collect() });
    let items = if spec::reusable(&t) && !spec::eats_all(&t) { s.range(1, 3) } else { 1 };
    let mut data = vec![];
    for _ in 0..items {
        data.extend(spec::sample(&t, s, s.size));
    }
    if s.one_in(4) {
        spec::mutate(s, &mut data);
    }
    if s.one_in(3) && !data.is_empty() {
        let n = s.below(data.len());
        data.truncate(n);
    }
    let mut pos = 0;
    for _ in 0..items {
        let mode = if s.bool() { crate::drive::Mode::Unknown } else { crate::drive::Mode::Known(0) };
        match crate::drive::drive_item(s, &t, &mut man, &data[pos..], true, mode, crate::drive::PLAIN)? {
            crate::drive::End::Done { used, .. } => pos += used,
            _ => {
                s.nontrivial_if(data.len() > 1);
                return Ok(());
            }
        }
        s.nontrivial_if(pos > 1);
    }
    Ok(())
}
fn c39_encode(s: &mut Src) -> R {
    let d = s.range(0, 2);
    let t = enc::gen_tuple(s, d, enc::Ctx { sized: false });
    let enc::ES::Tuple(ms) = &*t else { unreachable!() };
    let forms: Vec<u8> = ms.iter().map(|_| s.draw(3) as u8).collect();
    s.note(|| format!("{t:?} forms {forms:?}"));
    let man: DynEnc = Box::new(ManualEnc { m: ms.iter().zip(&forms).map(|(m, f)| (enc::build(m), *f)).collect() });
    let mut man = enc::Enc::Plain(man);
    for _ in 0..s.range(1, 3) {
        let v = enc::gen_val(&t, s, s.size);
        let o = enc::Opt { need: false, busy: s.bool(), eos: s.bool() };
        match enc::drive_item(s, &t, &mut man, &v, o)? {
            enc::EncEnd::Done => {
                if let Ser::Run { bytes, end: SerEnd::Done } = enc::ser(&t, &v) {
                    s.nontrivial_if(bytes.len() > 1);
                }
            }
            enc::EncEnd::Failed => {
                s.nontrivial();
                break;
            }
            enc::EncEnd::Refused => break,
        }
    }
    Ok(())
}
/// Call by call the same as the tuple, unusual members included.
fn c39_same(s: &mut Src) -> R {
    let d = s.range(0, 1);
    let reuse = s.bool();
    let t = spec::gen_tuple(s, d, Ctx::top(reuse));
    let t = if s.bool() { spec::inject(&t, s) } else { t };
    let Spec::Tuple(ms) = &*t else { return Ok(()) };
    let forms: Vec<u8> = ms.iter().map(|_| s.draw(3) as u8).collect();
    s.note(|| format!("{t:?} forms {forms:?}"));
    let mut man = ManualDec { m: ms.iter().zip(&forms).map(|(m, f)| (spec::build(m), *f)).collect() };
    let mut tup = spec::build(&t);
    let data = spec::sample(&Rc::clone(&t), s, s.size);
    let mut pos = 0;
    for _ in 0..40 {
        let c = s.range(0, (data.len() - pos).min(6));
        let eos = Eos::new(pos + c == data.len() && s.bool());
        let (a, b) = (man.decode(&data[pos..pos + c], eos).map_err(|e| *e.kind()), tup.decode(&data[pos..pos + c], eos).map_err(|e| *e.kind()));
        s.note(|| format!("decode({c} bytes, {eos:?}) -> {a:?}"));
        ensure!(a == b, "by hand {a:?}, as a tuple {b:?} for {:02x?} {eos:?}; {t:?}", &data[pos..pos + c]);
        let Ok(n) = a else { break };
        pos += n;
        ensure!(man.is_idle() == tup.is_idle(), "by hand idle {}, as a tuple {}; {t:?}", man.is_idle(), tup.is_idle());
        if man.is_idle() {
            let (a, b) = (man.finish_decoding().map_err(|e| *e.kind()), tup.finish_decoding().map_err(|e| *e.kind()));
            ensure!(a == b, "by hand {a:?}, as a tuple {b:?}; {t:?}");
            s.nontrivial_if(pos > 1);
            break;
        }
        if eos.is_reached() {
            break;
        }
    }
    if pos > data.len() {
        fail!("consumed {pos} of {} bytes", data.len());
    }
    Ok(())
}
/// A member that records its calls; it needs `left` bytes and takes at most `quota` in a call.
struct Stub {
    left: usize,
    quota: usize,
    calls: Vec<(usize, Eos)>,
}
impl Stub {
    fn run(&mut self, len: usize, eos: Eos) -> usize {
        tick();
        self.calls.push((len, eos));
        let n = len.min(self.quota).min(self.left);
        self.left -= n;
        n
    }
    fn is_idle(&self) -> bool {
        self.left == 0
    }
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        Ok(self.run(buf.len(), eos))
    }
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        Ok(self.run(buf.len(), eos))
    }
}
fn dec_round(m: &mut [(Stub, u8)], buf: &[u8], eos: Eos) -> Result<usize> {
    let mut offset = 0;
    for (d, form) in m.iter_mut() {
        match form {
            0 => bytecodec_try_decode!(d, offset, buf, eos),
            1 => bytecodec_try_decode!(d, offset, buf, eos, "member {}", 1),
            _ => bytecodec_try_decode!(d, offset, buf, eos; 2, offset),
        }
    }
    Ok(offset)
}
fn enc_round(m: &mut [(Stub, u8)], buf: &mut [u8], eos: Eos) -> Result<usize> {
    let mut offset = 0;
    for (d, form) in m.iter_mut() {
        match form {
            0 => bytecodec_try_encode!(d, offset, buf, eos),
            1 => bytecodec_try_encode!(d, offset, buf, eos, "member {}", 1),
            _ => bytecodec_try_encode!(d, offset, buf, eos; 2, offset),
        }
    }
    Ok(offset)
}
/// Which members are called, with how much of the buffer.
fn c39_calls(s: &mut Src) -> R {
    let n = s.range(1, 4);
    let mut m: Vec<(Stub, u8)> = (0..n).map(|_| (Stub { left: s.amount(4), quota: if s.big { s.amount(6) } else { s.range(1, 6) }, calls: vec![] }, s.draw(3) as u8)).collect();
    let enc = s.bool();
    s.note(|| format!("{} of members {:?}", if enc { "encoding" } else { "decoding" }, m.iter().map(|(d, f)| (d.left, d.quota, *f)).collect::<Vec<_>>()));
    let mut left: Vec<usize> = m.iter().map(|(d, _)| d.left).collect();
    let mut rounds = 0;
    for _ in s.turns(1, 6) {
        let k = s.amount(8);
        let eos = if s.bool() { Eos::new(s.bool()) } else { Eos::with_remaining_bytes(ByteCount::Finite(s.draw(9))) };
        let mut want = vec![];
        let mut done = 0;
        for (i, l) in left.iter_mut().enumerate() {
            if *l > 0 {
                want.push((i, k - done, eos));
                let t = (k - done).min(m[i].0.quota).min(*l);
                *l -= t;
                done += t;
                if *l > 0 {
                    break;
                }
            }
        }
        let mut b = vec![0; k];
        let r = if enc { enc_round(&mut m, &mut b, eos) } else { dec_round(&mut m, &b, eos) }.map_err(|e| *e.kind());
        let got: Vec<_> = m.iter_mut().enumerate().flat_map(|(i, (d, _))| d.calls.drain(..).map(move |(n, e)| (i, n, e)).collect::<Vec<_>>()).collect();
        s.note(|| format!("{k} bytes, {eos:?} -> {r:?}, calls {got:?}"));
        ensure!(r == Ok(done), "{k} bytes, {eos:?}: {r:?}, expected {done}");
        ensure!(got == want, "{k} bytes, {eos:?}: calls (member, bytes, eos) {got:?}, expected {want:?}");
        rounds += usize::from(done > 0);
    }
    s.nontrivial_if(rounds > 1 || (rounds > 0 && n > 1));
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop::new("C39")
        .sub("decode", 400_000, "more than one byte decoded, or a failure on a stream of more than one byte", c39_decode)
        .sub("encode", 400_000, "more than one byte encoded, or a failure", c39_encode)
        .sub("same", 200_000, "an item of more than one byte", c39_same)
        .large("large-decode", 3000, "more than one byte decoded, or a failure on a stream of more than one byte", c39_decode)
        .long("long-decode", 9000, "more than one byte decoded, or a failure on a stream of more than one byte", c39_decode)
        .large("large-encode", 3000, "more than one byte encoded, or a failure", c39_encode)
        .long("long-encode", 9000, "more than one byte encoded, or a failure", c39_encode)
        .large("large-calls", 4000, "several members or several calls that make progress", c39_calls)
        .long("long-calls", 9000, "several members or several calls that make progress", c39_calls)
        .sub("calls", 300_000, "several members or several calls that make progress", c39_calls)]
}
