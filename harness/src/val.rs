//! Universal item type of the composition DSL, and the fixed-width kinds.
use bytecodec::fixnum::*;
use bytecodec::{Decode, DecodeExt, Encode, EncodeExt, SizedEncode};

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Unit,
    U(u64),
    I(i64),
    F32(u32),
    F64(u64),
    B(Vec<u8>),
    S(String),
    J(serde_json::Value),
    L(Vec<Val>),
    T(Vec<Val>),
    O(Option<Box<Val>>),
    M(u32, Box<Val>),
}
#[allow(dead_code)]
impl Val {
    /// Roughly how large the value is.
    pub fn weight(&self) -> usize {
        match self {
            Val::B(b) => 4 + b.len(),
            Val::S(b) => 4 + b.len(),
            Val::J(j) => 4 + j.to_string().len(),
            Val::L(v) | Val::T(v) => 4 + v.iter().map(Val::weight).sum::<usize>(),
            Val::O(v) => 4 + v.as_ref().map_or(0, |v| v.weight()),
            Val::M(_, v) => 4 + v.weight(),
            _ => 4,
        }
    }
    pub fn u(&self) -> u64 {
        match self {
            Val::U(n) => *n,
            v => panic!("harness: {v:?} is no unsigned number"),
        }
    }
    pub fn seq(self) -> Vec<Val> {
        match self {
            Val::L(v) | Val::T(v) => v,
            v => panic!("harness: {v:?} is no sequence"),
        }
    }
}

/// The items of a vector, from an iterator that tells more or less about how many there are.
pub struct Given<T>(std::vec::IntoIter<T>, usize);
impl<T> Given<T> {
    pub fn new(v: Vec<T>, how: usize) -> Self {
        Given(v.into_iter(), how % 5)
    }
}
impl<T> Iterator for Given<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.0.len();
        match self.1 {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n.min(1), None),
            3 => (0, Some(n)),
            _ => (n / 2, Some(2 * n + 1)),
        }
    }
}

pub type DynDec = Box<dyn Decode<Item = Val>>;
pub type DynEnc = Box<dyn Encode<Item = Val>>;
pub type DynSized = Box<dyn SizedEncode<Item = Val>>;

macro_rules! kinds {
    ($($k:ident $w:literal $be:literal $class:ident $ty:ty, $dec:ident, $enc:ident;)*) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
        pub enum Fix { $($k),* }
        pub const FIXES: &[Fix] = &[$(Fix::$k),*];
        impl Fix {
            pub fn width(self) -> usize { match self { $(Fix::$k => $w),* } }
            pub fn is_be(self) -> bool { match self { $(Fix::$k => $be),* } }
            pub fn class(self) -> char { match self { $(Fix::$k => stringify!($class).chars().next().unwrap()),* } }
            pub fn dec(self) -> DynDec { match self { $(Fix::$k => Box::new(<$dec>::new().map(|v: $ty| <$ty as Num>::up(v)))),* } }
            pub fn sized(self) -> DynSized { match self { $(Fix::$k => Box::new(<$enc>::new().map_from(|v: Val| <$ty as Num>::down(v)))),* } }
            pub fn dec_default(self) -> DynDec { match self { $(Fix::$k => Box::new(<$dec>::default().map(|v: $ty| <$ty as Num>::up(v)))),* } }
            pub fn enc_default(self) -> DynEnc { match self { $(Fix::$k => Box::new(<$enc>::default().map_from(|v: Val| <$ty as Num>::down(v)))),* } }
            #[allow(dead_code)]
            pub fn enc(self) -> DynEnc { match self { $(Fix::$k => Box::new(<$enc>::new().map_from(|v: Val| <$ty as Num>::down(v)))),* } }
            /// Bits of the host integer type the encoder takes.
            pub fn host_bits(self) -> u32 { match self { $(Fix::$k => (std::mem::size_of::<$ty>() * 8) as u32),* } }
        }
    };
}
pub trait Num {
    fn up(self) -> Val;
    fn down(v: Val) -> Self;
}
macro_rules! num {
    ($($t:ty => $v:ident as $w:ty),*) => {$(
        impl Num for $t {
            fn up(self) -> Val { Val::$v(self as $w) }
            fn down(v: Val) -> Self { match v { Val::$v(n) => { let t = n as $t; assert!(t as $w == n, "harness: number too large for the host type"); t }, v => panic!("harness: bad item {v:?}") } }
        })*
    };
}
num!(u8 => U as u64, u16 => U as u64, u32 => U as u64, u64 => U as u64, i8 => I as i64, i16 => I as i64, i32 => I as i64, i64 => I as i64);
impl Num for f32 {
    fn up(self) -> Val {
        Val::F32(self.to_bits())
    }
    fn down(v: Val) -> Self {
        match v {
            Val::F32(b) => f32::from_bits(b),
            v => panic!("harness: bad item {v:?}"),
        }
    }
}
impl Num for f64 {
    fn up(self) -> Val {
        Val::F64(self.to_bits())
    }
    fn down(v: Val) -> Self {
        match v {
            Val::F64(b) => f64::from_bits(b),
            v => panic!("harness: bad item {v:?}"),
        }
    }
}
kinds! {
    U8 1 true u u8, U8Decoder, U8Encoder;
    U16be 2 true u u16, U16beDecoder, U16beEncoder;
    U16le 2 false u u16, U16leDecoder, U16leEncoder;
    U24be 3 true u u32, U24beDecoder, U24beEncoder;
    U24le 3 false u u32, U24leDecoder, U24leEncoder;
    U32be 4 true u u32, U32beDecoder, U32beEncoder;
    U32le 4 false u u32, U32leDecoder, U32leEncoder;
    U40be 5 true u u64, U40beDecoder, U40beEncoder;
    U40le 5 false u u64, U40leDecoder, U40leEncoder;
    U48be 6 true u u64, U48beDecoder, U48beEncoder;
    U48le 6 false u u64, U48leDecoder, U48leEncoder;
    U56be 7 true u u64, U56beDecoder, U56beEncoder;
    U56le 7 false u u64, U56leDecoder, U56leEncoder;
    U64be 8 true u u64, U64beDecoder, U64beEncoder;
    U64le 8 false u u64, U64leDecoder, U64leEncoder;
    I8 1 true i i8, I8Decoder, I8Encoder;
    I16be 2 true i i16, I16beDecoder, I16beEncoder;
    I16le 2 false i i16, I16leDecoder, I16leEncoder;
    I32be 4 true i i32, I32beDecoder, I32beEncoder;
    I32le 4 false i i32, I32leDecoder, I32leEncoder;
    I64be 8 true i i64, I64beDecoder, I64beEncoder;
    I64le 8 false i i64, I64leDecoder, I64leEncoder;
    F32be 4 true f f32, F32beDecoder, F32beEncoder;
    F32le 4 false f f32, F32leDecoder, F32leEncoder;
    F64be 8 true f f64, F64beDecoder, F64beEncoder;
    F64le 8 false f f64, F64leDecoder, F64leEncoder;
}
impl Fix {
    /// Reference layout: value of a byte pattern.
    pub fn parse(self, b: &[u8]) -> Val {
        let w = self.width();
        let mut n: u64 = 0;
        for i in 0..w {
            let byte = if self.is_be() { b[i] } else { b[w - 1 - i] };
            n = (n << 8) | u64::from(byte);
        }
        match self.class() {
            'u' => Val::U(n),
            'i' => {
                let sh = 64 - 8 * w as u32;
                Val::I(((n << sh) as i64) >> sh)
            }
            _ if w == 4 => Val::F32(n as u32),
            _ => Val::F64(n),
        }
    }
    /// Reference layout: bytes of a value; `None` if it does not fit.
    pub fn ser(self, v: &Val) -> Option<Vec<u8>> {
        let w = self.width();
        let n: u64 = match v {
            Val::U(n) => {
                if w < 8 && *n >> (8 * w) != 0 {
                    return None;
                }
                *n
            }
            Val::I(n) => *n as u64,
            Val::F32(n) => u64::from(*n),
            Val::F64(n) => *n,
            _ => panic!("harness: bad item {v:?}"),
        };
        let mut out: Vec<u8> = (0..w).map(|i| (n >> (8 * i)) as u8).collect();
        if self.is_be() {
            out.reverse();
        }
        Some(out)
    }
    pub fn max(self) -> u64 {
        if self.width() == 8 { u64::MAX } else { (1 << (8 * self.width())) - 1 }
    }
    /// A value for the encoder; with `over`, possibly one that does not fit.
    pub fn gen(self, s: &mut crate::engine::Src, over: bool) -> Val {
        let bits = if over { self.host_bits() } else { 8 * self.width() as u32 };
        let n = s.int(bits);
        let w = self.width();
        match self.class() {
            'u' => Val::U(n),
            'i' => {
                let sh = 64 - 8 * w as u32;
                Val::I(((n << sh) as i64) >> sh)
            }
            _ if w == 4 => Val::F32(n as u32),
            _ => Val::F64(n),
        }
    }
}
pub const UINTS: &[Fix] = &[Fix::U8, Fix::U16be, Fix::U16le, Fix::U24be, Fix::U24le, Fix::U32be, Fix::U32le, Fix::U40be, Fix::U40le, Fix::U48be, Fix::U48le, Fix::U56be, Fix::U56le, Fix::U64be, Fix::U64le];
