//! A codec made by `Default` is the codec made by `new`.
use crate::engine::{Prop, Src, R};
use crate::val::{Fix, FIXES};
use crate::{ensure, fail};
use bytecodec::bincode_codec::{BincodeDecoder, BincodeEncoder};
use bytecodec::bytes::*;
use bytecodec::json_codec::{JsonDecoder, JsonEncoder};
use bytecodec::null::{NullDecoder, NullEncoder};
use bytecodec::padding::{PaddingDecoder, PaddingEncoder};
use bytecodec::{Decode, Encode, Eos};
use std::fmt::Debug;

/// The same calls on both, over two items.
fn same_dec<D: Decode, E: Decode<Item = D::Item>>(s: &mut Src, mut a: D, mut b: E, data: &[u8], what: &str) -> R
where
    D::Item: PartialEq + Debug,
{
    let mut pos = 0;
    let mut taken = 0;
    for call in 0..60 {
        ensure!(a.requiring_bytes() == b.requiring_bytes() && a.is_idle() == b.is_idle(), "{what}: needs {:?} and {:?}, idle {} and {} after {pos} of {data:02x?}", a.requiring_bytes(), b.requiring_bytes(), a.is_idle(), b.is_idle());
        if a.is_idle() {
            let x = a.finish_decoding().map_err(|e| *e.kind());
            let y = b.finish_decoding().map_err(|e| *e.kind());
            ensure!(x == y, "{what}: {x:?} and {y:?} from {data:02x?}");
            taken += 1;
            if taken == 2 || x.is_err() {
                break;
            }
            continue;
        }
        let c = if call > 40 { data.len() - pos } else { s.range(0, data.len() - pos) };
        let eos = Eos::new(pos + c == data.len());
        let x = a.decode(&data[pos..pos + c], eos).map_err(|e| *e.kind());
        let y = b.decode(&data[pos..pos + c], eos).map_err(|e| *e.kind());
        ensure!(x == y, "{what}: {x:?} and {y:?} for {c} bytes at {pos} of {data:02x?}");
        match x {
            Ok(n) => pos += n,
            Err(_) => break,
        }
    }
    s.nontrivial_if(pos > 1);
    Ok(())
}
fn same_enc<D: Encode, E: Encode<Item = D::Item>>(s: &mut Src, mut a: D, mut b: E, items: [(D::Item, D::Item); 2], what: &str) -> R {
    let mut out = 0;
    for (x, y) in items {
        ensure!(a.requiring_bytes() == b.requiring_bytes() && a.is_idle() && b.is_idle(), "{what}: needs {:?} and {:?}, idle {} and {}", a.requiring_bytes(), b.requiring_bytes(), a.is_idle(), b.is_idle());
        if let (Err(e), _) | (_, Err(e)) = (a.start_encoding(x), b.start_encoding(y)) {
            fail!("{what}: item refused with {:?}", e.kind());
        }
        for call in 0..60 {
            ensure!(a.requiring_bytes() == b.requiring_bytes() && a.is_idle() == b.is_idle(), "{what}: needs {:?} and {:?}, idle {} and {} after {out} bytes", a.requiring_bytes(), b.requiring_bytes(), a.is_idle(), b.is_idle());
            if a.is_idle() {
                break;
            }
            let c = if call > 40 { 200 } else { s.range(0, 12) };
            let eos = Eos::new(call > 40);
            let (mut p, mut q) = (vec![0xA5u8; c], vec![0xA5u8; c]);
            let x = a.encode(&mut p, eos).map_err(|e| *e.kind());
            let y = b.encode(&mut q, eos).map_err(|e| *e.kind());
            ensure!(x == y && p == q, "{what}: {x:?} {p:02x?} and {y:?} {q:02x?}");
            let Ok(n) = x else { fail!("{what}: encode failed with {x:?}") };
            out += n;
        }
    }
    s.nontrivial_if(out > 1);
    Ok(())
}
fn twice<T: Clone>(a: T, b: T) -> [(T, T); 2] {
    [(a.clone(), a), (b.clone(), b)]
}
fn numbers(s: &mut Src) -> R {
    let k: Fix = *s.pick(FIXES);
    let w = format!("{k:?}");
    if s.bool() {
        let data = s.bytes(2 * k.width() + 1);
        same_dec(s, k.dec_default(), k.dec(), &data, &w)
    } else {
        let (a, b) = (k.gen(s, false), k.gen(s, false));
        same_enc(s, k.enc_default(), k.enc(), twice(a, b), &w)
    }
}
fn text(s: &mut Src) -> String {
    let n = s.range(0, 20);
    s.bytes(n).iter().map(|&b| if b < 0xF0 { (b & 0x7F) as char } else { '\u{2665}' }).collect()
}
fn bytes(s: &mut Src) -> R {
    let n = s.range(0, 20);
    let data = s.bytes(n);
    match s.draw(7) {
        0 => same_dec(s, RemainingBytesDecoder::default(), RemainingBytesDecoder::new(), &data, "RemainingBytesDecoder"),
        1 => same_dec(s, <Utf8Decoder>::default(), Utf8Decoder::new(), &data, "Utf8Decoder"),
        2 => {
            let d = text(s).into_bytes();
            same_dec(s, <Utf8Decoder>::default(), Utf8Decoder::new(), &d, "Utf8Decoder")
        }
        3 => same_dec(s, CopyableBytesDecoder::<[u8; 5]>::default(), CopyableBytesDecoder::new([0u8; 5]), &data, "CopyableBytesDecoder"),
        4 => {
            // without a buffer there is nothing to decode into until one is set
            let mut d = BytesDecoder::<Vec<u8>>::default();
            let k = s.range(0, 9);
            d.set_bytes(vec![0; k]);
            same_dec(s, d, BytesDecoder::new(vec![0; k]), &data, "BytesDecoder")
        }
        5 => {
            let m = s.range(0, 20);
            let b = s.bytes(m);
            same_enc(s, BytesEncoder::default(), BytesEncoder::new(), twice(data, b), "BytesEncoder")
        }
        _ => {
            let (a, b) = (text(s), text(s));
            same_enc(s, Utf8Encoder::default(), Utf8Encoder::new(), twice(a, b), "Utf8Encoder")
        }
    }
}
fn serialized(s: &mut Src) -> R {
    type T = (u8, Option<u32>, Vec<u16>, String);
    let item = |s: &mut Src| -> T {
        let n = s.range(0, 4);
        (s.byte(), if s.bool() { Some(s.int(32) as u32) } else { None }, (0..n).map(|_| s.int(16) as u16).collect(), text(s))
    };
    let (a, b) = (item(s), item(s));
    let damage = s.one_in(4);
    let mut hurt = |s: &mut Src, mut v: Vec<u8>| {
        if damage && !v.is_empty() {
            let i = s.below(v.len());
            v[i] ^= 1 << s.below(8);
        }
        v
    };
    match s.draw(4) {
        0 => same_enc(s, JsonEncoder::<T>::default(), JsonEncoder::new(), twice(a, b), "JsonEncoder"),
        1 => same_enc(s, BincodeEncoder::<T>::default(), BincodeEncoder::new(), twice(a, b), "BincodeEncoder"),
        2 => {
            let d = hurt(s, serde_json::to_vec(&a).unwrap());
            same_dec(s, JsonDecoder::<T>::default(), JsonDecoder::new(), &d, "JsonDecoder")
        }
        _ => {
            let d = hurt(s, bincode::serialize(&a).unwrap());
            same_dec(s, BincodeDecoder::<T>::default(), BincodeDecoder::new(), &d, "BincodeDecoder")
        }
    }
}
fn filling(s: &mut Src) -> R {
    let n = s.range(0, 9);
    let data = s.bytes(n);
    match s.draw(4) {
        0 => same_dec(s, PaddingDecoder::default(), PaddingDecoder::new(None), &data, "PaddingDecoder"),
        1 => {
            let (a, b) = (s.byte(), s.byte());
            same_enc(s, PaddingEncoder::default(), PaddingEncoder::new(), twice(a, b), "PaddingEncoder")
        }
        2 => same_dec(s, <NullDecoder as Default>::default(), NullDecoder, &data, "NullDecoder"),
        _ => same_enc(s, <NullEncoder as Default>::default(), NullEncoder, twice((), ()), "NullEncoder"),
    }
}
const RULE: &str = "more than one byte moved";
pub fn subs(p: Prop) -> Prop {
    match p.id {
        "C01" => p.sub("default", 30_000, RULE, numbers),
        "C21" => p.sub("default", 10_000, RULE, filling),
        "C22" => p.sub("default", 20_000, RULE, bytes),
        "C23" => p.sub("default", 20_000, RULE, serialized),
        _ => p,
    }
}
