//! C01, C02: fixed-width numbers.
use crate::engine::{Prop, Src, R};
use crate::val::{DynDec, DynSized, Fix, Val, FIXES};
use crate::{ensure, fail};
use bytecodec::{ByteCount, Decode, Encode, EncodeExt, Eos, ErrorKind, SizedEncode};

/// The layout written out by hand with the standard library, independently of `Fix::ser`.
fn layout(k: Fix, v: &Val) -> Vec<u8> {
    macro_rules! pick {
        ($n:expr) => {
            if k.is_be() { $n.to_be_bytes().to_vec() } else { $n.to_le_bytes().to_vec() }
        };
    }
    match (v, k.width()) {
        (Val::U(n), 1) => vec![*n as u8],
        (Val::U(n), 2) => pick!(*n as u16),
        (Val::U(n), 4) => pick!(*n as u32),
        (Val::U(n), 8) => pick!(*n),
        (Val::U(n), w) => {
            let b = n.to_le_bytes();
            let mut b = b[..w].to_vec();
            if k.is_be() {
                b.reverse();
            }
            b
        }
        (Val::I(n), 1) => vec![*n as i8 as u8],
        (Val::I(n), 2) => pick!(*n as i16),
        (Val::I(n), 4) => pick!(*n as i32),
        (Val::I(n), _) => pick!(*n),
        (Val::F32(n), _) => pick!(*n),
        (Val::F64(n), _) => pick!(*n),
        _ => panic!("harness: {v:?}"),
    }
}
/// Encodes through buffers of random sizes on the given instance.
fn enc(s: &mut Src, e: &mut DynSized, k: Fix, v: &Val) -> Result<Vec<u8>, crate::engine::Fail> {
    if let Err(x) = e.start_encoding(v.clone()) {
        fail!("{k:?}: valid {v:?} refused with {:?}", x.kind());
    }
    let mut out = vec![];
    for _ in 0..64 {
        if e.is_idle() {
            return Ok(out);
        }
        ensure!(e.exact_requiring_bytes() == (k.width() - out.len().min(k.width())) as u64, "{k:?}: exact_requiring_bytes {} after {} bytes", e.exact_requiring_bytes(), out.len());
        let c = s.range(0, k.width() + 1);
        let mut buf = vec![0x5A; c];
        let last = c + out.len() >= k.width();
        let n = match e.encode(&mut buf, Eos::new(last && s.bool())) {
            Ok(n) => n,
            Err(x) => fail!("{k:?}: encoding {v:?} failed with {:?}", x.kind()),
        };
        ensure!(n <= c, "{k:?}: {n} bytes in room for {c}");
        out.extend(&buf[..n]);
    }
    if e.is_idle() { Ok(out) } else { fail!("{k:?}: no end after 64 calls") }
}
fn dec(s: &mut Src, d: &mut DynDec, k: Fix, b: &[u8]) -> Result<Val, crate::engine::Fail> {
    let mut pos = 0;
    for _ in 0..64 {
        let c = s.range(0, b.len() - pos);
        let n = match d.decode(&b[pos..pos + c], Eos::new(pos + c == b.len() && s.bool())) {
            Ok(n) => n,
            Err(x) => fail!("{k:?}: decoding {b:02x?} failed with {:?}", x.kind()),
        };
        ensure!(n == c.min(k.width() - pos), "{k:?}: consumed {n} of {c} at {pos}");
        pos += n;
        ensure!(d.is_idle() == (pos == k.width()), "{k:?}: is_idle {} after {pos} bytes", d.is_idle());
        if d.is_idle() {
            return match d.finish_decoding() {
                Ok(v) => Ok(v),
                Err(x) => fail!("{k:?}: finish failed with {:?}", x.kind()),
            };
        }
    }
    // finish in one go
    match d.decode(&b[pos..], Eos::new(false)) {
        Ok(n) => ensure!(n == k.width() - pos, "{k:?}: consumed {n}"),
        Err(x) => fail!("{k:?}: failed with {:?}", x.kind()),
    }
    d.finish_decoding().map_err(|x| crate::engine::Fail::Bug(format!("{k:?}: finish failed with {:?}", x.kind())))
}
fn c01_seq(s: &mut Src) -> R {
    let k = *s.pick(FIXES);
    let mut e = k.sized();
    let mut d = k.dec();
    let n = s.rounds(1, 6);
    for _ in 0..n {
        let v = k.gen(s, false);
        let w = layout(k, &v);
        s.note(|| format!("{k:?} {v:?} = {w:02x?}"));
        let got = enc(s, &mut e, k, &v)?;
        ensure!(got == w, "{k:?}: {v:?} encoded as {got:02x?}, documented layout {w:02x?}");
        let back = dec(s, &mut d, k, &w)?;
        ensure!(back == v, "{k:?}: {w:02x?} decoded as {back:?}, expected {v:?}");
        // any byte pattern
        let p = s.bytes(k.width());
        let v = dec(s, &mut d, k, &p)?;
        ensure!(v == k.parse(&p), "{k:?}: {p:02x?} decoded as {v:?}, expected {:?}", k.parse(&p));
        let again = enc(s, &mut e, k, &v)?;
        ensure!(again == p, "{k:?}: {v:?} encoded as {again:02x?}, expected {p:02x?}");
    }
    s.label_if(k.width() >= 5, "at least five bytes wide");
    s.label_if(k.class() == 'f', "float");
    s.label_if(k.class() == 'i', "signed");
    s.nontrivial_if(k.width() > 1 && n > 1);
    Ok(())
}
fn one(k: Fix, n: u64) -> R {
    let w = k.width();
    let b: Vec<u8> = (0..w).map(|i| (n >> (8 * i)) as u8).collect();
    let mut d = k.dec();
    let v = match d.decode(&b, Eos::new(true)).and_then(|_| d.finish_decoding()) {
        Ok(v) => v,
        Err(x) => fail!("{k:?}: {b:02x?} failed with {:?}", x.kind()),
    };
    ensure!(v == k.parse(&b), "{k:?}: {b:02x?} decoded as {v:?}, expected {:?}", k.parse(&b));
    ensure!(layout(k, &v) == b, "{k:?}: {b:02x?} decoded as {v:?}, whose layout is {:02x?}", layout(k, &v));
    let mut e = k.sized();
    match e.encode_into_bytes(v.clone()) {
        Ok(o) => ensure!(o == b, "{k:?}: {v:?} encoded as {o:02x?}, expected {b:02x?}"),
        Err(x) => fail!("{k:?}: {v:?} failed with {:?}", x.kind()),
    }
    Ok(())
}
const SMALL: [Fix; 6] = [Fix::U8, Fix::I8, Fix::U16be, Fix::U16le, Fix::I16be, Fix::I16le];
fn c01_small(i: u64) -> R {
    one(SMALL[(i >> 16) as usize], i & 0xFFFF & ((1u64 << (8 * SMALL[(i >> 16) as usize].width())) - 1))
}
fn c01_24(i: u64) -> R {
    one(if i >> 24 == 0 { Fix::U24be } else { Fix::U24le }, i & 0xFF_FFFF)
}
/// Every single-bit, all-but-one-bit and one-byte pattern of every kind.
fn c01_bits(i: u64) -> R {
    let k = FIXES[(i / 4096) as usize];
    let j = i % 4096;
    let n = match j {
        0..=63 => 1u64 << j,
        64..=127 => !(1u64 << (j - 64)),
        128..=191 => (1u64 << (j - 128)).wrapping_sub(1),
        192..=255 => !((1u64 << (j - 192)).wrapping_sub(1)),
        256..=2303 => ((j - 256) & 0xFF) << (8 * ((j - 256) >> 8)),
        _ => !(((j - 2304) & 0xFF) << (8 * (((j - 2304) >> 8) & 7))),
    };
    one(k, if k.width() == 8 { n } else { n & ((1 << (8 * k.width())) - 1) })
}

fn limited(s: &mut Src) -> Fix {
    *s.pick(&[Fix::U24be, Fix::U24le, Fix::U40be, Fix::U40le, Fix::U48be, Fix::U48le, Fix::U56be, Fix::U56le])
}
fn c02(s: &mut Src) -> R {
    let k = limited(s);
    let mut e = k.sized();
    let n = s.rounds(1, 6);
    let (mut over, mut fit) = (0, 0);
    for _ in 0..n {
        let v = match s.draw(4) {
            0 => k.gen(s, true).u(),
            1 => k.max() + 1 + s.draw(4),
            2 => k.max() - s.draw(3),
            _ => {
                // exactly one bit above or below the limit
                let b = s.draw(u64::from(k.host_bits()));
                (1u64 << b) | s.draw(2)
            }
        };
        s.note(|| format!("{k:?} {v:#x}"));
        if v > k.max() {
            over += 1;
            match e.start_encoding(Val::U(v)) {
                Ok(()) => fail!("{k:?}: {v:#x} accepted"),
                Err(x) => ensure!(*x.kind() == ErrorKind::InvalidInput, "{k:?}: {v:#x} refused with {:?}", x.kind()),
            }
            ensure!(e.is_idle(), "{k:?}: not idle after refusing {v:#x}");
            ensure!(e.requiring_bytes() == ByteCount::Finite(0) && e.exact_requiring_bytes() == 0, "{k:?}: needs {:?} after refusing {v:#x}", e.requiring_bytes());
            let mut buf = [0x77; 16];
            match e.encode(&mut buf, Eos::new(s.bool())) {
                Ok(0) => {}
                o => fail!("{k:?}: encode after refusing {v:#x} gave {:?}", o.map_err(|x| *x.kind())),
            }
            ensure!(buf == [0x77; 16], "{k:?}: buffer touched after refusing {v:#x}");
        } else {
            fit += 1;
            let got = enc(s, &mut e, k, &Val::U(v))?;
            ensure!(got == layout(k, &Val::U(v)), "{k:?}: {v:#x} encoded as {got:02x?}");
        }
    }
    s.label_if(over > 0, "refused");
    s.label_if(over > 0 && fit > 0, "refused and accepted on one instance");
    s.nontrivial_if(over > 0);
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop::new("C01")
            .exhaust("bits", 26 * 4096, "every one-bit, all-but-one-bit, prefix-mask and one-byte pattern of all 26 number codecs", c01_bits)
            .exhaust("small", 6 << 16, "every byte pattern of every 8- and 16-bit codec", c01_small)
            .exhaust("w24", 2 << 24, "every byte pattern of both 24-bit codecs", c01_24)
            .sub("sequence", 600_000, "codec wider than one byte and at least two items through the same instances", c01_seq)
            .long("long-sequence", 9000, "codec wider than one byte and at least two items through the same instances", c01_seq),
        Prop::new("C02").sub("sequence", 1_000_000, "at least one value above the limit was offered", c02)
            .long("long-sequence", 9000, "at least one value above the limit was offered", c02),
    ]
}
