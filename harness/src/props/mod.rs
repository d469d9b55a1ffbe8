//! The properties and their checks.
use crate::engine::Prop;

mod access;
mod codec;
mod decode;
mod encode;
mod fresh;
mod gulp;
mod io;
mod manual;
mod misc;
mod numbers;
mod slice;

pub fn all() -> Vec<Prop> {
    let mut v: Vec<Prop> = vec![];
    v.extend(numbers::props());
    v.extend(decode::props());
    v.extend(io::props());
    v.extend(encode::props());
    v.extend(codec::props());
    v.extend(slice::props());
    v.extend(misc::props());
    v.extend(manual::props());
    v.extend(access::props());
    let mut v: Vec<Prop> = v.into_iter().map(gulp::subs).map(fresh::subs).collect();
    v.sort_by_key(|p| p.id);
    v
}
