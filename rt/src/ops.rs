//! Uniform access to derived structures through the library's public API.
use crate::model::Desc;
use packed_struct::prelude::*;
use packed_struct::types::bits::ByteArray;
use packed_struct::{PackedStructInfo, PackingResult};

/// Implemented by generated code for every generated structure.
pub trait Subject: PackedStruct + PackedStructInfo + Clone + PartialEq + std::fmt::Debug + 'static {
    fn desc() -> &'static Desc;
    fn build(v: &[i128]) -> Self;
    fn extract(&self, out: &mut Vec<i128>);
    /// Debug text of every row
    fn row_debug(&self) -> Vec<String> { vec![] }
    /// Display through the formatter with the given switches (None: plain Display)
    fn show(&self, _switches: Option<u8>) -> String { String::new() }
}

#[derive(Clone)]
pub struct Ops {
    pub desc: &'static Desc,
    pub pack: fn(&[i128]) -> PackingResult<Vec<u8>>,
    pub unpack: fn(&[u8]) -> PackingResult<Vec<i128>>,
    pub pack_slice: fn(&[i128], &mut [u8]) -> PackingResult<()>,
    pub unpack_slice: fn(&[u8]) -> PackingResult<Vec<i128>>,
    pub pack_vec: fn(&[i128]) -> PackingResult<Vec<u8>>,
    pub size: fn(Option<&[i128]>) -> PackingResult<usize>,
    pub packed_bits: fn() -> usize,
    pub arr_len: fn() -> usize,
    /// unpack, then pack the unpacked structure itself
    pub repack: fn(&[u8]) -> PackingResult<(Vec<u8>, Vec<i128>)>,
    /// pack, unpack, compare with PartialEq, extract
    pub round: fn(&[i128]) -> PackingResult<(bool, Vec<i128>)>,
    pub show: fn(&[i128], Option<u8>) -> String,
    pub row_debug: fn(&[i128]) -> Vec<String>,
    /// packs the very same instance twice and reports both and whether it still equals its clone
    pub twice: fn(&[i128]) -> PackingResult<(Vec<u8>, Vec<u8>, bool)>,
    /// Vec<S> of several instances: pack_to_vec / unpack_from_slice
    pub many_pack: fn(&[Vec<i128>]) -> PackingResult<Vec<u8>>,
    pub many_unpack: fn(&[u8]) -> PackingResult<Vec<Vec<i128>>>,
}

fn arr<S: PackedStruct>(src: &[u8]) -> S::ByteArray {
    let mut a = <S::ByteArray as ByteArray>::new(0);
    a.as_mut_bytes_slice().copy_from_slice(src);
    a
}
fn ex<S: Subject>(s: &S) -> Vec<i128> { let mut o = Vec::new(); s.extract(&mut o); o }

fn f_pack<S: Subject>(v: &[i128]) -> PackingResult<Vec<u8>> { Ok(S::build(v).pack()?.as_bytes_slice().to_vec()) }
fn f_unpack<S: Subject>(b: &[u8]) -> PackingResult<Vec<i128>> { Ok(ex(&S::unpack(&arr::<S>(b))?)) }
fn f_pack_slice<S: Subject>(v: &[i128], o: &mut [u8]) -> PackingResult<()> { S::build(v).pack_to_slice(o) }
fn f_unpack_slice<S: Subject>(b: &[u8]) -> PackingResult<Vec<i128>> { Ok(ex(&S::unpack_from_slice(b)?)) }
fn f_size<S: Subject>(v: Option<&[i128]>) -> PackingResult<usize> {
    match v { None => <S as PackedStructSlice>::packed_bytes_size(None), Some(v) => { let s = S::build(v); <S as PackedStructSlice>::packed_bytes_size(Some(&s)) } }
}
fn f_arr_len<S: Subject>() -> usize { <S::ByteArray as ByteArray>::len() }
fn f_repack<S: Subject>(b: &[u8]) -> PackingResult<(Vec<u8>, Vec<i128>)> {
    let s = S::unpack(&arr::<S>(b))?;
    let o = ex(&s);
    Ok((s.pack()?.as_bytes_slice().to_vec(), o))
}
fn f_round<S: Subject>(v: &[i128]) -> PackingResult<(bool, Vec<i128>)> {
    let s = S::build(v);
    let p = s.pack()?;
    let u = S::unpack(&p)?;
    Ok((u == s, ex(&u)))
}
fn f_show<S: Subject>(v: &[i128], sw: Option<u8>) -> String { S::build(v).show(sw) }
fn f_row_debug<S: Subject>(v: &[i128]) -> Vec<String> { S::build(v).row_debug() }
fn f_twice<S: Subject>(v: &[i128]) -> PackingResult<(Vec<u8>, Vec<u8>, bool)> {
    let s = S::build(v);
    let c = s.clone();
    let a = s.pack()?;
    let b = s.pack()?;
    Ok((a.as_bytes_slice().to_vec(), b.as_bytes_slice().to_vec(), s == c))
}

#[cfg(feature = "full")]
fn f_pack_vec<S: Subject>(v: &[i128]) -> PackingResult<Vec<u8>> { S::build(v).pack_to_vec() }
#[cfg(not(feature = "full"))]
fn f_pack_vec<S: Subject>(v: &[i128]) -> PackingResult<Vec<u8>> { f_pack::<S>(v) }
#[cfg(feature = "full")]
fn f_many_pack<S: Subject>(v: &[Vec<i128>]) -> PackingResult<Vec<u8>> { v.iter().map(|v| S::build(v)).collect::<Vec<S>>().pack_to_vec() }
#[cfg(not(feature = "full"))]
fn f_many_pack<S: Subject>(v: &[Vec<i128>]) -> PackingResult<Vec<u8>> { let mut o = vec![]; for x in v { o.extend(f_pack::<S>(x)?) } Ok(o) }
#[cfg(feature = "full")]
fn f_many_unpack<S: Subject>(b: &[u8]) -> PackingResult<Vec<Vec<i128>>> { Ok(Vec::<S>::unpack_from_slice(b)?.iter().map(|s| ex(s)).collect()) }
#[cfg(not(feature = "full"))]
fn f_many_unpack<S: Subject>(b: &[u8]) -> PackingResult<Vec<Vec<i128>>> { b.chunks(S::desc().bytes.max(1)).map(|c| f_unpack::<S>(c)).collect() }

pub fn ops<S: Subject>() -> Ops {
    Ops {
        desc: S::desc(),
        pack: f_pack::<S>, unpack: f_unpack::<S>, pack_slice: f_pack_slice::<S>, unpack_slice: f_unpack_slice::<S>,
        pack_vec: f_pack_vec::<S>, size: f_size::<S>, packed_bits: S::packed_bits, arr_len: f_arr_len::<S>,
        repack: f_repack::<S>, round: f_round::<S>, show: f_show::<S>, row_debug: f_row_debug::<S>, twice: f_twice::<S>,
        many_pack: f_many_pack::<S>, many_unpack: f_many_unpack::<S>,
    }
}
