//! Derived types of the zoo. Written by tools/mkzoo.sh; do not edit.
pub mod attributes {
use hz::model::*;
use hz::model::{Cont, Model};
use speedy::{Readable, Writable};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::num::NonZeroU16;
use std::net::Ipv4Addr;
use std::time::Duration;
use std::sync::atomic::AtomicU32;
use smallvec::SmallVec;
use indexmap_v2::IndexSet;

#[derive(Readable, Writable, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)] #[speedy(tag_type = u7)] pub enum E0 {
    V0 = 2,
    V1 = 73,
    V2 = 0,
    V3 = 126,
    Type4,
    V5 = 1,
}
impl View for E0 { fn enc(&self, e__: &mut Enc) { match self { E0::V0 => { let _ = (); enc_tag(e__, LK::U7, 2);  } E0::V1 => { let _ = (); enc_tag(e__, LK::U7, 73);  } E0::V2 => { let _ = (); enc_tag(e__, LK::U7, 0);  } E0::V3 => { let _ = (); enc_tag(e__, LK::U7, 126);  } E0::Type4 => { let _ = (); enc_tag(e__, LK::U7, 127);  } E0::V5 => { let _ = (); enc_tag(e__, LK::U7, 1);  } } } }
impl<'a> Model<'a> for E0 {
    fn gen(g__: &mut Gen<'a>) -> Self { match g__.rng.below(6) { 0 => {  E0::V0 } 1 => {  E0::V1 } 2 => {  E0::V2 } 3 => {  E0::V3 } 4 => {  E0::Type4 } _ => {  E0::V5 } } }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { let at__ = d__.pos; let t__ = dec_tag(d__, LK::U7)?; let _ = at__; e__.num((t__ as u64).to_le_bytes()); match t__ { 2 => {  } 73 => {  } 0 => {  } 126 => {  } 127 => {  } 1 => {  } _ => return Err(DErr::Invalid("tag")) } Ok(()) }
    fn shape() -> Shape { Shape::fixed(1).or(Shape::fixed(1)).or(Shape::fixed(1)).or(Shape::fixed(1)).or(Shape::fixed(1)).or(Shape::fixed(1)).var().fails() }
}

#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u64, peek_tag)] pub enum E1<'a> {
    #[speedy(tag = 127)] V0(u64, #[speedy(length_type = u16)] Option<String>, i64, SmallVec<[IndexSet<Result<u64, u64>>; 3]>, u16),
    #[speedy(tag = 1)] V1(u64, u32, Box<f64>, #[speedy(length = t1 & 15)] Cow<'a, HashMap<Result<u64, i64>, bool>>, Box<u128>),
}
impl<'a> View for E1<'a> { fn enc(&self, e__: &mut Enc) { match self { E1::V0(f0, f1, f2, f3, f4) => { let _ = (f0, f1, f2, f3, f4, );  f0.enc(e__); enc_opt_with(f1, e__, LK::U16); f2.enc(e__); f3.enc(e__); f4.enc(e__); } E1::V1(f0, f1, f2, f3, f4) => { let _ = (f0, f1, f2, f3, f4, );  f0.enc(e__); f1.enc(e__); f2.enc(e__); enc_len(f3, e__, (*f1 & 15) as usize); f4.enc(e__); } } } }
impl<'a> Model<'a> for E1<'a> {
    fn gen(g__: &mut Gen<'a>) -> Self { match g__.rng.below(2) { 0 => { let v0: u64 = 127; let v1: Option<String> = if g__.rng.bool() { Some(gen_lt(g__, LK::U16)) } else { None }; let v2: i64 = Model::gen(g__); let v3: SmallVec<[IndexSet<Result<u64, u64>>; 3]> = Model::gen(g__); let v4: u16 = Model::gen(g__); E1::V0(v0, v1, v2, v3, v4) } _ => { let v3: Cow<'a, HashMap<Result<u64, i64>, bool>> = gen_with(g__, 15); let n__ = v3.clen(); let n__ = said(g__, n__, 15); let _ = n__; let v1 = (n__ | (g__.rng.us(60000) & !15)) as u32; let v0: u64 = 1; let v2: Box<f64> = Model::gen(g__); let v4: Box<u128> = Model::gen(g__); E1::V1(v0, v1, v2, v3, v4) } } }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { let at__ = d__.pos; let t__ = dec_tag(d__, LK::U64)?; d__.pos = at__; match t__ { 127 => { <u64 as Model>::dec(d__, e__)?; dec_opt_with::<String>(d__, e__, LK::U16)?; <i64 as Model>::dec(d__, e__)?; <SmallVec<[IndexSet<Result<u64, u64>>; 3]> as Model>::dec(d__, e__)?; <u16 as Model>::dec(d__, e__)?; } 1 => { <u64 as Model>::dec(d__, e__)?; let f1 = &dec_u32(d__, e__)?; <Box<f64> as Model>::dec(d__, e__)?; dec_len::<Cow<'a, HashMap<Result<u64, i64>, bool>>>(d__, e__, (*f1 & 15) as usize)?; <Box<u128> as Model>::dec(d__, e__)?; } _ => return Err(DErr::Invalid("tag")) } Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(shape_of::<u64>()).and(Shape::fixed(1).var().fails().flags(<String as Cont>::body_shape())).and(shape_of::<i64>()).and(shape_of::<SmallVec<[IndexSet<Result<u64, u64>>; 3]>>()).and(shape_of::<u16>()).or(Shape::fixed(0).and(shape_of::<u64>()).and(shape_of::<u32>()).and(shape_of::<Box<f64>>()).and(<Cow<'a, HashMap<Result<u64, i64>, bool>> as Cont>::body_shape().var()).and(shape_of::<Box<u128>>())).var().fails() }
}

#[derive(Readable, Writable, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)] #[repr(C)] pub struct S2<'a>(#[speedy(varint)] #[speedy(constant_prefix = b'z')] pub u64, #[speedy(varint)] pub u64, #[speedy(length = ..)] pub &'a [i8]);
impl<'a> View for S2<'a> { fn enc(&self, e__: &mut Enc) { let _ = &e__; let S2(f0, f1, f2) = self; let _ = (f0, f1, f2, ); if !e__.canon { e__.raw(b"\x7a") } enc_varint(*f0, e__); enc_varint(*f1, e__); f2.body(e__); } }
impl<'a> Model<'a> for S2<'a> {
    fn gen(g__: &mut Gen<'a>) -> Self { let _ = &g__; let v0: u64 = g__.rng.int() as u64; let v1: u64 = g__.rng.int() as u64; let v2: &'a [i8] = gen_with(g__, 1000); S2(v0, v1, v2) }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { let _ = (&d__, &e__); d__.constant(b"\x7a")?; dec_varint(d__, e__)?; dec_varint(d__, e__)?; <&'a [i8] as Cont>::dec_eof(d__, e__)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(Shape::fixed(1).fails().and(Shape::fixed(1).var())).and(Shape::fixed(1).var()).and(<&'a [i8] as Cont>::body_shape().var().min(0).opened()) }
}

#[derive(Readable, Writable, Clone)] pub struct S3<'a>(pub Cow<'a, HashSet<(Vec<String>, u64)>>);
impl<'a> View for S3<'a> { fn enc(&self, e__: &mut Enc) { let _ = &e__; let S3(f0) = self; let _ = (f0, ); f0.enc(e__); } }
impl<'a> Model<'a> for S3<'a> {
    fn gen(g__: &mut Gen<'a>) -> Self { let _ = &g__; let v0: Cow<'a, HashSet<(Vec<String>, u64)>> = Model::gen(g__); S3(v0) }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { let _ = (&d__, &e__); <Cow<'a, HashSet<(Vec<String>, u64)>> as Model>::dec(d__, e__)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(shape_of::<Cow<'a, HashSet<(Vec<String>, u64)>>>()) }
}

#[derive(Readable, Writable, Clone)] #[speedy(peek_tag, tag_type = u8)] pub enum E4<'a> {
    V0 { count: u8, tag: Option<(NonZeroU16, E0)>, #[speedy(length_type = u7)] buffer: Option<Vec<u8>>, length: u32, #[speedy(length = ..)] n: &'a [u8] },
    V1(u8, S3<'a>, Box<Option<&'a [u8]>>, u16, S3<'a>, S2<'a>),
}
impl<'a> View for E4<'a> { fn enc(&self, e__: &mut Enc) { match self { E4::V0 { count: f0, tag: f1, buffer: f2, length: f3, n: f4 } => { let _ = (f0, f1, f2, f3, f4, );  f0.enc(e__); f1.enc(e__); enc_opt_with(f2, e__, LK::U7); f3.enc(e__); f4.body(e__); } E4::V1(f0, f1, f2, f3, f4, f5) => { let _ = (f0, f1, f2, f3, f4, f5, );  f0.enc(e__); f1.enc(e__); f2.enc(e__); f3.enc(e__); f4.enc(e__); f5.enc(e__); } } } }
impl<'a> Model<'a> for E4<'a> {
    fn gen(g__: &mut Gen<'a>) -> Self { match g__.rng.below(2) { 0 => { let v0: u8 = 0; let v1: Option<(NonZeroU16, E0)> = Model::gen(g__); let v2: Option<Vec<u8>> = if g__.rng.bool() { Some(gen_lt(g__, LK::U7)) } else { None }; let v3: u32 = Model::gen(g__); let v4: &'a [u8] = gen_with(g__, 1000); E4::V0 { count: v0, tag: v1, buffer: v2, length: v3, n: v4 } } _ => { let v0: u8 = 1; let v1: S3<'a> = Model::gen(g__); let v2: Box<Option<&'a [u8]>> = Model::gen(g__); let v3: u16 = Model::gen(g__); let v4: S3<'a> = Model::gen(g__); let v5: S2<'a> = Model::gen(g__); E4::V1(v0, v1, v2, v3, v4, v5) } } }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { let at__ = d__.pos; let t__ = dec_tag(d__, LK::U8)?; d__.pos = at__; match t__ { 0 => { <u8 as Model>::dec(d__, e__)?; <Option<(NonZeroU16, E0)> as Model>::dec(d__, e__)?; dec_opt_with::<Vec<u8>>(d__, e__, LK::U7)?; <u32 as Model>::dec(d__, e__)?; <&'a [u8] as Cont>::dec_eof(d__, e__)?; } 1 => { <u8 as Model>::dec(d__, e__)?; <S3<'a> as Model>::dec(d__, e__)?; <Box<Option<&'a [u8]>> as Model>::dec(d__, e__)?; <u16 as Model>::dec(d__, e__)?; <S3<'a> as Model>::dec(d__, e__)?; <S2<'a> as Model>::dec(d__, e__)?; } _ => return Err(DErr::Invalid("tag")) } Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(shape_of::<u8>()).and(shape_of::<Option<(NonZeroU16, E0)>>()).and(Shape::fixed(1).var().fails().flags(<Vec<u8> as Cont>::body_shape())).and(shape_of::<u32>()).and(<&'a [u8] as Cont>::body_shape().var().min(0).opened()).or(Shape::fixed(0).and(shape_of::<u8>()).and(shape_of::<S3<'a>>()).and(shape_of::<Box<Option<&'a [u8]>>>()).and(shape_of::<u16>()).and(shape_of::<S3<'a>>()).and(shape_of::<S2<'a>>())).var().fails() }
}

#[derive(Readable, Writable, Clone)] #[speedy(peek_tag)] pub enum E5<'a> {
    V0(u32, #[speedy(skip)] i64, E1<'a>, Result<(Box<[String]>, u8), HashMap<u16, u32>>),
}
impl<'a> View for E5<'a> { fn enc(&self, e__: &mut Enc) { match self { E5::V0(f0, f1, f2, f3) => { let _ = (f0, f1, f2, f3, );  f0.enc(e__); enc_skip(f1, e__); f2.enc(e__); f3.enc(e__); } } } }
impl<'a> Model<'a> for E5<'a> {
    fn gen(g__: &mut Gen<'a>) -> Self { match g__.rng.below(1) { _ => { let v0: u32 = 0; let v1: i64 = Model::gen(g__); let v2: E1<'a> = Model::gen(g__); let v3: Result<(Box<[String]>, u8), HashMap<u16, u32>> = Model::gen(g__); E5::V0(v0, v1, v2, v3) } } }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { let at__ = d__.pos; let t__ = dec_tag(d__, LK::U32)?; d__.pos = at__; match t__ { 0 => { <u32 as Model>::dec(d__, e__)?; dec_skip::<i64>(d__, e__)?; <E1<'a> as Model>::dec(d__, e__)?; <Result<(Box<[String]>, u8), HashMap<u16, u32>> as Model>::dec(d__, e__)?; } _ => return Err(DErr::Invalid("tag")) } Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(shape_of::<u32>()).skipped::<i64>().and(shape_of::<E1<'a>>()).and(shape_of::<Result<(Box<[String]>, u8), HashMap<u16, u32>>>()).var().fails() }
}

#[derive(Readable, Writable, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S6<'a, T0>(pub Vec<Option<T0>>, #[speedy(constant_prefix = 80_u8)] pub usize, #[speedy(length_type = u7)] pub Cow<'a, [[[i64; 3]; 5]]>, pub Result<[&'a [i8]; 3], i8>, pub Vec<T0>);
impl<'a, T0: View> View for S6<'a, T0> { fn enc(&self, e__: &mut Enc) { let _ = &e__; let S6(f0, f1, f2, f3, f4) = self; let _ = (f0, f1, f2, f3, f4, ); f0.enc(e__); if !e__.canon { e__.raw(b"\x50") } f1.enc(e__); enc_with(f2, e__, LK::U7); f3.enc(e__); f4.enc(e__); } }
impl<'a, T0: Model<'a>> Model<'a> for S6<'a, T0> {
    fn gen(g__: &mut Gen<'a>) -> Self { let _ = &g__; let v0: Vec<Option<T0>> = Model::gen(g__); let v1: usize = Model::gen(g__); let v2: Cow<'a, [[[i64; 3]; 5]]> = gen_lt(g__, LK::U7); let v3: Result<[&'a [i8]; 3], i8> = Model::gen(g__); let v4: Vec<T0> = Model::gen(g__); S6(v0, v1, v2, v3, v4) }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { let _ = (&d__, &e__); <Vec<Option<T0>> as Model>::dec(d__, e__)?; d__.constant(b"\x50")?; <usize as Model>::dec(d__, e__)?; dec_with::<Cow<'a, [[[i64; 3]; 5]]>>(d__, e__, LK::U7)?; <Result<[&'a [i8]; 3], i8> as Model>::dec(d__, e__)?; <Vec<T0> as Model>::dec(d__, e__)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(shape_of::<Vec<Option<T0>>>()).and(Shape::fixed(1).fails().and(shape_of::<usize>())).and(Shape::fixed(1).var().fails().flags(<Cow<'a, [[[i64; 3]; 5]]> as Cont>::body_shape())).and(shape_of::<Result<[&'a [i8]; 3], i8>>()).and(shape_of::<Vec<T0>>()) }
}

#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u64_varint, peek_tag)] pub enum E7<'a> {
    #[speedy(tag = 252)] V0 { #[speedy(varint)] writer: u64, count: u16, length: f64, c: u32, #[speedy(length_type = u7)] index: Option<Cow<'a, str>>, y: Cow<'a, str>, #[speedy(constant_prefix = -112_i8)] n: (NonZeroU16, BTreeMap<Cow<'a, str>, Cow<'a, str>>) },
    #[speedy(tag = 0xffff)] V1 { #[speedy(varint)] m: u64, #[speedy(length_type = u16)] buffer: Vec<String>, size: usize, reader: u16, key: f64, #[speedy(length = ..)] kind: &'a str },
    V2(#[speedy(varint)] u64, #[speedy(varint)] u64, Box<Vec<Cow<'a, BTreeMap<Ipv4Addr, Cow<'a, str>>>>>, #[speedy(varint)] u64, HashSet<&'a [i8]>),
    V3 { #[speedy(varint)] m: u64, #[speedy(length_type = u7)] kind: HashSet<Box<str>>, #[speedy(varint)] a: u64, size: Result<(BTreeMap<usize, i64>, Vec<char>), bool>, reader: Result<Result<char, Cow<'a, HashMap<i16, i32>>>, (u32, u8)>, #[speedy(default_on_eof)] buffer: usize },
}
impl<'a> View for E7<'a> { fn enc(&self, e__: &mut Enc) { match self { E7::V0 { writer: f0, count: f1, length: f2, c: f3, index: f4, y: f5, n: f6 } => { let _ = (f0, f1, f2, f3, f4, f5, f6, );  enc_varint(*f0, e__); f1.enc(e__); f2.enc(e__); f3.enc(e__); enc_opt_with(f4, e__, LK::U7); f5.enc(e__); if !e__.canon { e__.raw(b"\x90") } f6.enc(e__); } E7::V1 { m: f0, buffer: f1, size: f2, reader: f3, key: f4, kind: f5 } => { let _ = (f0, f1, f2, f3, f4, f5, );  enc_varint(*f0, e__); enc_with(f1, e__, LK::U16); f2.enc(e__); f3.enc(e__); f4.enc(e__); f5.body(e__); } E7::V2(f0, f1, f2, f3, f4) => { let _ = (f0, f1, f2, f3, f4, );  enc_varint(*f0, e__); enc_varint(*f1, e__); f2.enc(e__); enc_varint(*f3, e__); f4.enc(e__); } E7::V3 { m: f0, kind: f1, a: f2, size: f3, reader: f4, buffer: f5 } => { let _ = (f0, f1, f2, f3, f4, f5, );  enc_varint(*f0, e__); enc_with(f1, e__, LK::U7); enc_varint(*f2, e__); f3.enc(e__); f4.enc(e__); f5.enc(e__); } } } }
impl<'a> Model<'a> for E7<'a> {
    fn gen(g__: &mut Gen<'a>) -> Self { match g__.rng.below(4) { 0 => { let v0: u64 = 252; let v1: u16 = Model::gen(g__); let v2: f64 = Model::gen(g__); let v3: u32 = Model::gen(g__); let v4: Option<Cow<'a, str>> = if g__.rng.bool() { Some(gen_lt(g__, LK::U7)) } else { None }; let v5: Cow<'a, str> = Model::gen(g__); let v6: (NonZeroU16, BTreeMap<Cow<'a, str>, Cow<'a, str>>) = Model::gen(g__); E7::V0 { writer: v0, count: v1, length: v2, c: v3, index: v4, y: v5, n: v6 } } 1 => { let v0: u64 = 65535; let v1: Vec<String> = gen_lt(g__, LK::U16); let v2: usize = Model::gen(g__); let v3: u16 = Model::gen(g__); let v4: f64 = Model::gen(g__); let v5: &'a str = gen_with(g__, 1000); E7::V1 { m: v0, buffer: v1, size: v2, reader: v3, key: v4, kind: v5 } } 2 => { let v0: u64 = 65536; let v1: u64 = g__.rng.int() as u64; let v2: Box<Vec<Cow<'a, BTreeMap<Ipv4Addr, Cow<'a, str>>>>> = Model::gen(g__); let v3: u64 = g__.rng.int() as u64; let v4: HashSet<&'a [i8]> = Model::gen(g__); E7::V2(v0, v1, v2, v3, v4) } _ => { let v0: u64 = 65537; let v1: HashSet<Box<str>> = gen_lt(g__, LK::U7); let v2: u64 = g__.rng.int() as u64; let v3: Result<(BTreeMap<usize, i64>, Vec<char>), bool> = Model::gen(g__); let v4: Result<Result<char, Cow<'a, HashMap<i16, i32>>>, (u32, u8)> = Model::gen(g__); let v5: usize = Model::gen(g__); E7::V3 { m: v0, kind: v1, a: v2, size: v3, reader: v4, buffer: v5 } } } }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { let at__ = d__.pos; let t__ = dec_tag(d__, LK::Var)?; d__.pos = at__; match t__ { 252 => { dec_varint(d__, e__)?; <u16 as Model>::dec(d__, e__)?; <f64 as Model>::dec(d__, e__)?; <u32 as Model>::dec(d__, e__)?; dec_opt_with::<Cow<'a, str>>(d__, e__, LK::U7)?; <Cow<'a, str> as Model>::dec(d__, e__)?; d__.constant(b"\x90")?; <(NonZeroU16, BTreeMap<Cow<'a, str>, Cow<'a, str>>) as Model>::dec(d__, e__)?; } 65535 => { dec_varint(d__, e__)?; dec_with::<Vec<String>>(d__, e__, LK::U16)?; <usize as Model>::dec(d__, e__)?; <u16 as Model>::dec(d__, e__)?; <f64 as Model>::dec(d__, e__)?; <&'a str as Cont>::dec_eof(d__, e__)?; } 65536 => { dec_varint(d__, e__)?; dec_varint(d__, e__)?; <Box<Vec<Cow<'a, BTreeMap<Ipv4Addr, Cow<'a, str>>>>> as Model>::dec(d__, e__)?; dec_varint(d__, e__)?; <HashSet<&'a [i8]> as Model>::dec(d__, e__)?; } 65537 => { dec_varint(d__, e__)?; dec_with::<HashSet<Box<str>>>(d__, e__, LK::U7)?; dec_varint(d__, e__)?; <Result<(BTreeMap<usize, i64>, Vec<char>), bool> as Model>::dec(d__, e__)?; <Result<Result<char, Cow<'a, HashMap<i16, i32>>>, (u32, u8)> as Model>::dec(d__, e__)?; dec_or_default(d__, e__, |d__, e__| { <usize as Model>::dec(d__, e__)?; Ok(()) }, |e__| <usize as Default>::default().enc(e__))?; } _ => return Err(DErr::Invalid("tag")) } Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(Shape::fixed(1).var()).and(shape_of::<u16>()).and(shape_of::<f64>()).and(shape_of::<u32>()).and(Shape::fixed(1).var().fails().flags(<Cow<'a, str> as Cont>::body_shape())).and(shape_of::<Cow<'a, str>>()).and(Shape::fixed(1).fails().and(shape_of::<(NonZeroU16, BTreeMap<Cow<'a, str>, Cow<'a, str>>)>())).or(Shape::fixed(0).and(Shape::fixed(1).var()).and(Shape::fixed(2).var().fails().flags(<Vec<String> as Cont>::body_shape())).and(shape_of::<usize>()).and(shape_of::<u16>()).and(shape_of::<f64>()).and(<&'a str as Cont>::body_shape().var().min(0).opened())).or(Shape::fixed(0).and(Shape::fixed(1).var()).and(Shape::fixed(1).var()).and(shape_of::<Box<Vec<Cow<'a, BTreeMap<Ipv4Addr, Cow<'a, str>>>>>>()).and(Shape::fixed(1).var()).and(shape_of::<HashSet<&'a [i8]>>())).or(Shape::fixed(0).and(Shape::fixed(1).var()).and(Shape::fixed(1).var().fails().flags(<HashSet<Box<str>> as Cont>::body_shape())).and(Shape::fixed(1).var()).and(shape_of::<Result<(BTreeMap<usize, i64>, Vec<char>), bool>>()).and(shape_of::<Result<Result<char, Cow<'a, HashMap<i16, i32>>>, (u32, u8)>>()).and(shape_of::<usize>().min(0).opened())).var().fails() }
}

#[derive(Readable, Writable, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)] pub struct S8<'a> { pub a: String, #[speedy(length_type = u64)] pub slice: &'a [u8], #[speedy(length = ..)] pub index: String }
impl<'a> View for S8<'a> { fn enc(&self, e__: &mut Enc) { let _ = &e__; let S8 { a: f0, slice: f1, index: f2 } = self; let _ = (f0, f1, f2, ); f0.enc(e__); enc_with(f1, e__, LK::U64); f2.body(e__); } }
impl<'a> Model<'a> for S8<'a> {
    fn gen(g__: &mut Gen<'a>) -> Self { let _ = &g__; let v0: String = Model::gen(g__); let v1: &'a [u8] = gen_lt(g__, LK::U64); let v2: String = gen_with(g__, 1000); S8 { a: v0, slice: v1, index: v2 } }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { let _ = (&d__, &e__); <String as Model>::dec(d__, e__)?; dec_with::<&'a [u8]>(d__, e__, LK::U64)?; <String as Cont>::dec_eof(d__, e__)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(shape_of::<String>()).and(Shape::fixed(8).var().fails().flags(<&'a [u8] as Cont>::body_shape())).and(<String as Cont>::body_shape().var().min(0).opened()) }
}

#[derive(Readable, Writable, Clone)] pub struct S9<'a, T0: Ord>(pub u8, #[speedy(length = (t0 >> 1))] pub &'a [i8], pub BTreeSet<T0>, #[speedy(constant_prefix = 'k')] pub Vec<Box<str>>, pub E4<'a>);
impl<'a, T0: View + Ord> View for S9<'a, T0> { fn enc(&self, e__: &mut Enc) { let _ = &e__; let S9(f0, f1, f2, f3, f4) = self; let _ = (f0, f1, f2, f3, f4, ); f0.enc(e__); enc_len(f1, e__, (*f0 >> 1) as usize); f2.enc(e__); if !e__.canon { e__.raw(b"\x6b") } f3.enc(e__); f4.enc(e__); } }
impl<'a, T0: Model<'a> + Ord> Model<'a> for S9<'a, T0> {
    fn gen(g__: &mut Gen<'a>) -> Self { let _ = &g__; let v1: &'a [i8] = gen_with(g__, 127); let n__ = v1.clen(); let n__ = said(g__, n__, 127); let _ = n__; let v0 = (n__ * 2 + g__.rng.us(2)) as u8; let v2: BTreeSet<T0> = Model::gen(g__); let v3: Vec<Box<str>> = Model::gen(g__); let v4: E4<'a> = Model::gen(g__); S9(v0, v1, v2, v3, v4) }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { let _ = (&d__, &e__); let f0 = &dec_u8(d__, e__)?; dec_len::<&'a [i8]>(d__, e__, (*f0 >> 1) as usize)?; <BTreeSet<T0> as Model>::dec(d__, e__)?; d__.constant(b"\x6b")?; <Vec<Box<str>> as Model>::dec(d__, e__)?; <E4<'a> as Model>::dec(d__, e__)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(shape_of::<u8>()).and(<&'a [i8] as Cont>::body_shape().var()).and(shape_of::<BTreeSet<T0>>()).and(Shape::fixed(1).fails().and(shape_of::<Vec<Box<str>>>())).and(shape_of::<E4<'a>>()) }
}

#[derive(Readable, Writable, Default)] pub struct S10<'a> { pub b: AtomicU32, #[speedy(length = ..)] pub index: Cow<'a, str> }
impl<'a> View for S10<'a> { fn enc(&self, e__: &mut Enc) { let _ = &e__; let S10 { b: f0, index: f1 } = self; let _ = (f0, f1, ); f0.enc(e__); f1.body(e__); } }
impl<'a> Model<'a> for S10<'a> {
    fn gen(g__: &mut Gen<'a>) -> Self { let _ = &g__; let v0: AtomicU32 = Model::gen(g__); let v1: Cow<'a, str> = gen_with(g__, 1000); S10 { b: v0, index: v1 } }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { let _ = (&d__, &e__); <AtomicU32 as Model>::dec(d__, e__)?; <Cow<'a, str> as Cont>::dec_eof(d__, e__)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(shape_of::<AtomicU32>()).and(<Cow<'a, str> as Cont>::body_shape().var().min(0).opened()) }
}

#[derive(Readable, Writable, Clone)] pub struct S11<'a> { pub a: Vec<E1<'a>>, pub writer: [[Cow<'a, BTreeMap<i32, f64>>; 1]; 0], #[speedy(constant_prefix = b"\x00\xff\x7f", length_type = u64)] pub slice: &'a [i8], pub key: E1<'a>, pub version: u16 }
impl<'a> View for S11<'a> { fn enc(&self, e__: &mut Enc) { let _ = &e__; let S11 { a: f0, writer: f1, slice: f2, key: f3, version: f4 } = self; let _ = (f0, f1, f2, f3, f4, ); f0.enc(e__); f1.enc(e__); if !e__.canon { e__.raw(b"\x00\xff\x7f") } enc_with(f2, e__, LK::U64); f3.enc(e__); f4.enc(e__); } }
impl<'a> Model<'a> for S11<'a> {
    fn gen(g__: &mut Gen<'a>) -> Self { let _ = &g__; let v0: Vec<E1<'a>> = Model::gen(g__); let v1: [[Cow<'a, BTreeMap<i32, f64>>; 1]; 0] = Model::gen(g__); let v2: &'a [i8] = gen_lt(g__, LK::U64); let v3: E1<'a> = Model::gen(g__); let v4: u16 = Model::gen(g__); S11 { a: v0, writer: v1, slice: v2, key: v3, version: v4 } }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { let _ = (&d__, &e__); <Vec<E1<'a>> as Model>::dec(d__, e__)?; <[[Cow<'a, BTreeMap<i32, f64>>; 1]; 0] as Model>::dec(d__, e__)?; d__.constant(b"\x00\xff\x7f")?; dec_with::<&'a [i8]>(d__, e__, LK::U64)?; <E1<'a> as Model>::dec(d__, e__)?; <u16 as Model>::dec(d__, e__)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(shape_of::<Vec<E1<'a>>>()).and(shape_of::<[[Cow<'a, BTreeMap<i32, f64>>; 1]; 0]>()).and(Shape::fixed(3).fails().and(Shape::fixed(8).var().fails().flags(<&'a [i8] as Cont>::body_shape()))).and(shape_of::<E1<'a>>()).and(shape_of::<u16>()) }
}

#[derive(Readable, Writable, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)] pub struct S12 { pub key: char, pub reader: i8, #[speedy(default_on_eof)] pub m: Box<i128> }
impl View for S12 { fn enc(&self, e__: &mut Enc) { let _ = &e__; let S12 { key: f0, reader: f1, m: f2 } = self; let _ = (f0, f1, f2, ); f0.enc(e__); f1.enc(e__); f2.enc(e__); } }
impl<'a> Model<'a> for S12 {
    fn gen(g__: &mut Gen<'a>) -> Self { let _ = &g__; let v0: char = Model::gen(g__); let v1: i8 = Model::gen(g__); let v2: Box<i128> = Model::gen(g__); S12 { key: v0, reader: v1, m: v2 } }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { let _ = (&d__, &e__); <char as Model>::dec(d__, e__)?; <i8 as Model>::dec(d__, e__)?; dec_or_default(d__, e__, |d__, e__| { <Box<i128> as Model>::dec(d__, e__)?; Ok(()) }, |e__| <Box<i128> as Default>::default().enc(e__))?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(shape_of::<char>()).and(shape_of::<i8>()).and(shape_of::<Box<i128>>().min(0).opened()) }
}

#[derive(Readable, Writable, Clone, Default)] pub struct S13<'a> { #[speedy(constant_prefix = 'k')] pub index: BTreeMap<i64, i32>, #[speedy(length_type = u64_varint)] pub buffer: &'a [u8], pub b: u16, #[speedy(constant_prefix = "MAGIC")] #[speedy(length = ..)] pub data: HashSet<i16> }
impl<'a> View for S13<'a> { fn enc(&self, e__: &mut Enc) { let _ = &e__; let S13 { index: f0, buffer: f1, b: f2, data: f3 } = self; let _ = (f0, f1, f2, f3, ); if !e__.canon { e__.raw(b"\x6b") } f0.enc(e__); enc_with(f1, e__, LK::Var); f2.enc(e__); if !e__.canon { e__.raw(b"\x4d\x41\x47\x49\x43") } f3.body(e__); } }
impl<'a> Model<'a> for S13<'a> {
    fn gen(g__: &mut Gen<'a>) -> Self { let _ = &g__; let v0: BTreeMap<i64, i32> = Model::gen(g__); let v1: &'a [u8] = gen_lt(g__, LK::Var); let v2: u16 = Model::gen(g__); let v3: HashSet<i16> = gen_with(g__, 1000); S13 { index: v0, buffer: v1, b: v2, data: v3 } }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { let _ = (&d__, &e__); d__.constant(b"\x6b")?; <BTreeMap<i64, i32> as Model>::dec(d__, e__)?; dec_with::<&'a [u8]>(d__, e__, LK::Var)?; <u16 as Model>::dec(d__, e__)?; d__.constant(b"\x4d\x41\x47\x49\x43")?; <HashSet<i16> as Cont>::dec_eof(d__, e__)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(Shape::fixed(1).fails().and(shape_of::<BTreeMap<i64, i32>>())).and(Shape::fixed(1).var().fails().flags(<&'a [u8] as Cont>::body_shape())).and(shape_of::<u16>()).and(Shape::fixed(5).fails().and(<HashSet<i16> as Cont>::body_shape().var()).min(0).opened()) }
}

#[derive(Readable, Writable, Clone)] pub struct S14<'a> { #[speedy(constant_prefix = 'k', length_type = u64)] pub a: Cow<'a, HashMap<u32, String>> }
impl<'a> View for S14<'a> { fn enc(&self, e__: &mut Enc) { let _ = &e__; let S14 { a: f0 } = self; let _ = (f0, ); if !e__.canon { e__.raw(b"\x6b") } enc_with(f0, e__, LK::U64); } }
impl<'a> Model<'a> for S14<'a> {
    fn gen(g__: &mut Gen<'a>) -> Self { let _ = &g__; let v0: Cow<'a, HashMap<u32, String>> = gen_lt(g__, LK::U64); S14 { a: v0 } }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { let _ = (&d__, &e__); d__.constant(b"\x6b")?; dec_with::<Cow<'a, HashMap<u32, String>>>(d__, e__, LK::U64)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(Shape::fixed(1).fails().and(Shape::fixed(8).var().fails().flags(<Cow<'a, HashMap<u32, String>> as Cont>::body_shape()))) }
}

#[derive(Readable, Writable, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)] #[speedy(peek_tag)] pub enum E15<'a> {
    #[speedy(tag = 0x1)] V0 { buffer: u32, y: (S6<'a, &'a [i8]>, bool), #[speedy(length_type = u32)] size: Cow<'a, [Box<Box<[Cow<'a, str>]>>]>, #[speedy(length_type = u8)] item: Option<Vec<u16>>, #[speedy(varint)] #[speedy(default_on_eof)] x: u64 },
    V1(u32, #[speedy(length_type = u8)] Cow<'a, str>, u8, #[speedy(constant_prefix = 28_u8, length = t2)] BTreeMap<Cow<'a, [Cow<'a, str>]>, char>, String),
    #[speedy(tag = 0xfffffffe)] Type2(u32, String, BTreeSet<BTreeSet<i64>>, #[speedy(length = ..)] &'a [i8]),
}
impl<'a> View for E15<'a> { fn enc(&self, e__: &mut Enc) { match self { E15::V0 { buffer: f0, y: f1, size: f2, item: f3, x: f4 } => { let _ = (f0, f1, f2, f3, f4, );  f0.enc(e__); f1.enc(e__); enc_with(f2, e__, LK::U32); enc_opt_with(f3, e__, LK::U8); enc_varint(*f4, e__); } E15::V1(f0, f1, f2, f3, f4) => { let _ = (f0, f1, f2, f3, f4, );  f0.enc(e__); enc_with(f1, e__, LK::U8); f2.enc(e__); if !e__.canon { e__.raw(b"\x1c") } enc_len(f3, e__, *f2 as usize); f4.enc(e__); } E15::Type2(f0, f1, f2, f3) => { let _ = (f0, f1, f2, f3, );  f0.enc(e__); f1.enc(e__); f2.enc(e__); f3.body(e__); } } } }
impl<'a> Model<'a> for E15<'a> {
    fn gen(g__: &mut Gen<'a>) -> Self { match g__.rng.below(3) { 0 => { let v0: u32 = 1; let v1: (S6<'a, &'a [i8]>, bool) = Model::gen(g__); let v2: Cow<'a, [Box<Box<[Cow<'a, str>]>>]> = gen_lt(g__, LK::U32); let v3: Option<Vec<u16>> = if g__.rng.bool() { Some(gen_lt(g__, LK::U8)) } else { None }; let v4: u64 = g__.rng.int() as u64; E15::V0 { buffer: v0, y: v1, size: v2, item: v3, x: v4 } } 1 => { let v3: BTreeMap<Cow<'a, [Cow<'a, str>]>, char> = gen_with(g__, 255); let n__ = v3.clen(); let n__ = said(g__, n__, 255); let _ = n__; let v2 = n__ as u8; let v0: u32 = 2; let v1: Cow<'a, str> = gen_lt(g__, LK::U8); let v4: String = Model::gen(g__); E15::V1(v0, v1, v2, v3, v4) } _ => { let v0: u32 = 4294967294; let v1: String = Model::gen(g__); let v2: BTreeSet<BTreeSet<i64>> = Model::gen(g__); let v3: &'a [i8] = gen_with(g__, 1000); E15::Type2(v0, v1, v2, v3) } } }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { let at__ = d__.pos; let t__ = dec_tag(d__, LK::U32)?; d__.pos = at__; match t__ { 1 => { <u32 as Model>::dec(d__, e__)?; <(S6<'a, &'a [i8]>, bool) as Model>::dec(d__, e__)?; dec_with::<Cow<'a, [Box<Box<[Cow<'a, str>]>>]>>(d__, e__, LK::U32)?; dec_opt_with::<Vec<u16>>(d__, e__, LK::U8)?; dec_or_default(d__, e__, |d__, e__| { dec_varint(d__, e__)?; Ok(()) }, |e__| <u64 as Default>::default().enc(e__))?; } 2 => { <u32 as Model>::dec(d__, e__)?; dec_with::<Cow<'a, str>>(d__, e__, LK::U8)?; let f2 = &dec_u8(d__, e__)?; d__.constant(b"\x1c")?; dec_len::<BTreeMap<Cow<'a, [Cow<'a, str>]>, char>>(d__, e__, *f2 as usize)?; <String as Model>::dec(d__, e__)?; } 4294967294 => { <u32 as Model>::dec(d__, e__)?; <String as Model>::dec(d__, e__)?; <BTreeSet<BTreeSet<i64>> as Model>::dec(d__, e__)?; <&'a [i8] as Cont>::dec_eof(d__, e__)?; } _ => return Err(DErr::Invalid("tag")) } Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(shape_of::<u32>()).and(shape_of::<(S6<'a, &'a [i8]>, bool)>()).and(Shape::fixed(4).var().fails().flags(<Cow<'a, [Box<Box<[Cow<'a, str>]>>]> as Cont>::body_shape())).and(Shape::fixed(1).var().fails().flags(<Vec<u16> as Cont>::body_shape())).and(Shape::fixed(1).var().min(0).opened()).or(Shape::fixed(0).and(shape_of::<u32>()).and(Shape::fixed(1).var().fails().flags(<Cow<'a, str> as Cont>::body_shape())).and(shape_of::<u8>()).and(Shape::fixed(1).fails().and(<BTreeMap<Cow<'a, [Cow<'a, str>]>, char> as Cont>::body_shape().var())).and(shape_of::<String>())).or(Shape::fixed(0).and(shape_of::<u32>()).and(shape_of::<String>()).and(shape_of::<BTreeSet<BTreeSet<i64>>>()).and(<&'a [i8] as Cont>::body_shape().var().min(0).opened())).var().fails() }
}

#[derive(Readable, Writable, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)] #[repr(packed)] pub struct S16(#[speedy(varint, constant_prefix = b'z')] pub u64, pub u32, pub i16, pub i64, #[speedy(constant_prefix = -120_i8)] pub bool);
impl View for S16 { fn enc(&self, e__: &mut Enc) { let _ = &e__; let f0 = &{ self.0 }; let f1 = &{ self.1 }; let f2 = &{ self.2 }; let f3 = &{ self.3 }; let f4 = &{ self.4 }; let _ = (f0, f1, f2, f3, f4, ); if !e__.canon { e__.raw(b"\x7a") } enc_varint(*f0, e__); f1.enc(e__); f2.enc(e__); f3.enc(e__); if !e__.canon { e__.raw(b"\x88") } f4.enc(e__); } }
impl<'a> Model<'a> for S16 {
    fn gen(g__: &mut Gen<'a>) -> Self { let _ = &g__; let v0: u64 = g__.rng.int() as u64; let v1: u32 = Model::gen(g__); let v2: i16 = Model::gen(g__); let v3: i64 = Model::gen(g__); let v4: bool = Model::gen(g__); S16(v0, v1, v2, v3, v4) }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { let _ = (&d__, &e__); d__.constant(b"\x7a")?; dec_varint(d__, e__)?; <u32 as Model>::dec(d__, e__)?; <i16 as Model>::dec(d__, e__)?; <i64 as Model>::dec(d__, e__)?; d__.constant(b"\x88")?; <bool as Model>::dec(d__, e__)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(Shape::fixed(1).fails().and(Shape::fixed(1).var())).and(shape_of::<u32>()).and(shape_of::<i16>()).and(shape_of::<i64>()).and(Shape::fixed(1).fails().and(shape_of::<bool>())) }
}

#[derive(Readable, Writable, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S17<'a, T0> { pub key: Vec<usize>, #[speedy(length_type = u8)] pub tag: Vec<T0>, pub length: [T0; 2], #[speedy(length_type = u64_varint)] pub kind: &'a [i8], #[speedy(length_type = u64_varint)] pub b: &'a [i8] }
impl<'a, T0: View> View for S17<'a, T0> { fn enc(&self, e__: &mut Enc) { let _ = &e__; let S17 { key: f0, tag: f1, length: f2, kind: f3, b: f4 } = self; let _ = (f0, f1, f2, f3, f4, ); f0.enc(e__); enc_with(f1, e__, LK::U8); f2.enc(e__); enc_with(f3, e__, LK::Var); enc_with(f4, e__, LK::Var); } }
impl<'a, T0: Model<'a>> Model<'a> for S17<'a, T0> {
    fn gen(g__: &mut Gen<'a>) -> Self { let _ = &g__; let v0: Vec<usize> = Model::gen(g__); let v1: Vec<T0> = gen_lt(g__, LK::U8); let v2: [T0; 2] = Model::gen(g__); let v3: &'a [i8] = gen_lt(g__, LK::Var); let v4: &'a [i8] = gen_lt(g__, LK::Var); S17 { key: v0, tag: v1, length: v2, kind: v3, b: v4 } }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { let _ = (&d__, &e__); <Vec<usize> as Model>::dec(d__, e__)?; dec_with::<Vec<T0>>(d__, e__, LK::U8)?; <[T0; 2] as Model>::dec(d__, e__)?; dec_with::<&'a [i8]>(d__, e__, LK::Var)?; dec_with::<&'a [i8]>(d__, e__, LK::Var)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(shape_of::<Vec<usize>>()).and(Shape::fixed(1).var().fails().flags(<Vec<T0> as Cont>::body_shape())).and(shape_of::<[T0; 2]>()).and(Shape::fixed(1).var().fails().flags(<&'a [i8] as Cont>::body_shape())).and(Shape::fixed(1).var().fails().flags(<&'a [i8] as Cont>::body_shape())) }
}

#[derive(Readable, Writable, Clone, Default)] pub struct S18<'a, T0: Ord>(pub Vec<T0>, #[speedy(length_type = u8)] pub BTreeSet<Box<Result<u16, Duration>>>, pub Cow<'a, [[f64; 3]]>, pub Box<str>, #[speedy(length = ..)] pub &'a [u8]);
impl<'a, T0: View + Ord> View for S18<'a, T0> { fn enc(&self, e__: &mut Enc) { let _ = &e__; let S18(f0, f1, f2, f3, f4) = self; let _ = (f0, f1, f2, f3, f4, ); f0.enc(e__); enc_with(f1, e__, LK::U8); f2.enc(e__); f3.enc(e__); f4.body(e__); } }
impl<'a, T0: Model<'a> + Ord> Model<'a> for S18<'a, T0> {
    fn gen(g__: &mut Gen<'a>) -> Self { let _ = &g__; let v0: Vec<T0> = Model::gen(g__); let v1: BTreeSet<Box<Result<u16, Duration>>> = gen_lt(g__, LK::U8); let v2: Cow<'a, [[f64; 3]]> = Model::gen(g__); let v3: Box<str> = Model::gen(g__); let v4: &'a [u8] = gen_with(g__, 1000); S18(v0, v1, v2, v3, v4) }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { let _ = (&d__, &e__); <Vec<T0> as Model>::dec(d__, e__)?; dec_with::<BTreeSet<Box<Result<u16, Duration>>>>(d__, e__, LK::U8)?; <Cow<'a, [[f64; 3]]> as Model>::dec(d__, e__)?; <Box<str> as Model>::dec(d__, e__)?; <&'a [u8] as Cont>::dec_eof(d__, e__)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(shape_of::<Vec<T0>>()).and(Shape::fixed(1).var().fails().flags(<BTreeSet<Box<Result<u16, Duration>>> as Cont>::body_shape())).and(shape_of::<Cow<'a, [[f64; 3]]>>()).and(shape_of::<Box<str>>()).and(<&'a [u8] as Cont>::body_shape().var().min(0).opened()) }
}

#[derive(Readable, Writable, Clone)] pub enum E19<'a> {
    #[speedy(tag = 255)] V0(#[speedy(length_type = u32)] HashMap<Result<i8, usize>, Vec<i64>>, BTreeMap<bool, S17<'a, u8>>),
}
impl<'a> View for E19<'a> { fn enc(&self, e__: &mut Enc) { match self { E19::V0(f0, f1) => { let _ = (f0, f1, ); enc_tag(e__, LK::U32, 255); enc_with(f0, e__, LK::U32); f1.enc(e__); } } } }
impl<'a> Model<'a> for E19<'a> {
    fn gen(g__: &mut Gen<'a>) -> Self { match g__.rng.below(1) { _ => { let v0: HashMap<Result<i8, usize>, Vec<i64>> = gen_lt(g__, LK::U32); let v1: BTreeMap<bool, S17<'a, u8>> = Model::gen(g__); E19::V0(v0, v1) } } }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { let at__ = d__.pos; let t__ = dec_tag(d__, LK::U32)?; let _ = at__; e__.num((t__ as u64).to_le_bytes()); match t__ { 255 => { dec_with::<HashMap<Result<i8, usize>, Vec<i64>>>(d__, e__, LK::U32)?; <BTreeMap<bool, S17<'a, u8>> as Model>::dec(d__, e__)?; } _ => return Err(DErr::Invalid("tag")) } Ok(()) }
    fn shape() -> Shape { Shape::fixed(4).and(Shape::fixed(4).var().fails().flags(<HashMap<Result<i8, usize>, Vec<i64>> as Cont>::body_shape())).and(shape_of::<BTreeMap<bool, S17<'a, u8>>>()).var().fails() }
}

#[derive(Readable, Writable)] #[speedy(tag_type = u16)] pub enum E20<'a> {
    V0 { #[speedy(constant_prefix = b'z')] #[speedy(length_type = u64)] n: Option<Cow<'a, BTreeSet<u32>>>, count: usize },
    V1,
    #[speedy(tag = 128)] V2(#[speedy(length_type = u64_varint)] Vec<HashMap<char, AtomicU32>>, #[speedy(length_type = u64_varint)] Vec<(Vec<&'a str>, Box<u128>)>),
    #[speedy(tag = 0x64)] Type3 { #[speedy(constant_prefix = 'k')] writer: E19<'a> },
    #[speedy(tag = 0x100)] V4 { n: u8, #[speedy(varint)] key: u64 },
    Type5,
}
impl<'a> View for E20<'a> { fn enc(&self, e__: &mut Enc) { match self { E20::V0 { n: f0, count: f1 } => { let _ = (f0, f1, ); enc_tag(e__, LK::U16, 0); if !e__.canon { e__.raw(b"\x7a") } enc_opt_with(f0, e__, LK::U64); f1.enc(e__); } E20::V1 => { let _ = (); enc_tag(e__, LK::U16, 1);  } E20::V2(f0, f1) => { let _ = (f0, f1, ); enc_tag(e__, LK::U16, 128); enc_with(f0, e__, LK::Var); enc_with(f1, e__, LK::Var); } E20::Type3 { writer: f0 } => { let _ = (f0, ); enc_tag(e__, LK::U16, 100); if !e__.canon { e__.raw(b"\x6b") } f0.enc(e__); } E20::V4 { n: f0, key: f1 } => { let _ = (f0, f1, ); enc_tag(e__, LK::U16, 256); f0.enc(e__); enc_varint(*f1, e__); } E20::Type5 => { let _ = (); enc_tag(e__, LK::U16, 257);  } } } }
impl<'a> Model<'a> for E20<'a> {
    fn gen(g__: &mut Gen<'a>) -> Self { match g__.rng.below(6) { 0 => { let v0: Option<Cow<'a, BTreeSet<u32>>> = if g__.rng.bool() { Some(gen_lt(g__, LK::U64)) } else { None }; let v1: usize = Model::gen(g__); E20::V0 { n: v0, count: v1 } } 1 => {  E20::V1 } 2 => { let v0: Vec<HashMap<char, AtomicU32>> = gen_lt(g__, LK::Var); let v1: Vec<(Vec<&'a str>, Box<u128>)> = gen_lt(g__, LK::Var); E20::V2(v0, v1) } 3 => { let v0: E19<'a> = Model::gen(g__); E20::Type3 { writer: v0 } } 4 => { let v0: u8 = Model::gen(g__); let v1: u64 = g__.rng.int() as u64; E20::V4 { n: v0, key: v1 } } _ => {  E20::Type5 } } }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { let at__ = d__.pos; let t__ = dec_tag(d__, LK::U16)?; let _ = at__; e__.num((t__ as u64).to_le_bytes()); match t__ { 0 => { d__.constant(b"\x7a")?; dec_opt_with::<Cow<'a, BTreeSet<u32>>>(d__, e__, LK::U64)?; <usize as Model>::dec(d__, e__)?; } 1 => {  } 128 => { dec_with::<Vec<HashMap<char, AtomicU32>>>(d__, e__, LK::Var)?; dec_with::<Vec<(Vec<&'a str>, Box<u128>)>>(d__, e__, LK::Var)?; } 100 => { d__.constant(b"\x6b")?; <E19<'a> as Model>::dec(d__, e__)?; } 256 => { <u8 as Model>::dec(d__, e__)?; dec_varint(d__, e__)?; } 257 => {  } _ => return Err(DErr::Invalid("tag")) } Ok(()) }
    fn shape() -> Shape { Shape::fixed(2).and(Shape::fixed(1).fails().and(Shape::fixed(1).var().fails().flags(<Cow<'a, BTreeSet<u32>> as Cont>::body_shape()))).and(shape_of::<usize>()).or(Shape::fixed(2)).or(Shape::fixed(2).and(Shape::fixed(1).var().fails().flags(<Vec<HashMap<char, AtomicU32>> as Cont>::body_shape())).and(Shape::fixed(1).var().fails().flags(<Vec<(Vec<&'a str>, Box<u128>)> as Cont>::body_shape()))).or(Shape::fixed(2).and(Shape::fixed(1).fails().and(shape_of::<E19<'a>>()))).or(Shape::fixed(2).and(shape_of::<u8>()).and(Shape::fixed(1).var())).or(Shape::fixed(2)).var().fails() }
}

#[derive(Readable, Writable, Clone)] pub enum E21<'a> {
    V0(#[speedy(length_type = u8)] &'a [u8], usize, #[speedy(skip)] #[speedy(default_on_eof)] [Option<Duration>; 3], f64, #[speedy(constant_prefix = false)] S12),
    Type1 { #[speedy(constant_prefix = 'k', length_type = u16)] error: Cow<'a, str>, #[speedy(length_type = u7)] index: Cow<'a, [bool]>, #[speedy(length_type = u32)] reader: Option<BTreeSet<i128>> },
    #[speedy(tag = 0xffffffff)] V2(#[speedy(default_on_eof)] String),
}
impl<'a> View for E21<'a> { fn enc(&self, e__: &mut Enc) { match self { E21::V0(f0, f1, f2, f3, f4) => { let _ = (f0, f1, f2, f3, f4, ); enc_tag(e__, LK::U32, 0); enc_with(f0, e__, LK::U8); f1.enc(e__); enc_skip(f2, e__); f3.enc(e__); if !e__.canon { e__.raw(b"\x00") } f4.enc(e__); } E21::Type1 { error: f0, index: f1, reader: f2 } => { let _ = (f0, f1, f2, ); enc_tag(e__, LK::U32, 1); if !e__.canon { e__.raw(b"\x6b") } enc_with(f0, e__, LK::U16); enc_with(f1, e__, LK::U7); enc_opt_with(f2, e__, LK::U32); } E21::V2(f0) => { let _ = (f0, ); enc_tag(e__, LK::U32, 4294967295); f0.enc(e__); } } } }
impl<'a> Model<'a> for E21<'a> {
    fn gen(g__: &mut Gen<'a>) -> Self { match g__.rng.below(3) { 0 => { let v0: &'a [u8] = gen_lt(g__, LK::U8); let v1: usize = Model::gen(g__); let v2: [Option<Duration>; 3] = Model::gen(g__); let v3: f64 = Model::gen(g__); let v4: S12 = Model::gen(g__); E21::V0(v0, v1, v2, v3, v4) } 1 => { let v0: Cow<'a, str> = gen_lt(g__, LK::U16); let v1: Cow<'a, [bool]> = gen_lt(g__, LK::U7); let v2: Option<BTreeSet<i128>> = if g__.rng.bool() { Some(gen_lt(g__, LK::U32)) } else { None }; E21::Type1 { error: v0, index: v1, reader: v2 } } _ => { let v0: String = Model::gen(g__); E21::V2(v0) } } }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { let at__ = d__.pos; let t__ = dec_tag(d__, LK::U32)?; let _ = at__; e__.num((t__ as u64).to_le_bytes()); match t__ { 0 => { dec_with::<&'a [u8]>(d__, e__, LK::U8)?; <usize as Model>::dec(d__, e__)?; dec_skip::<[Option<Duration>; 3]>(d__, e__)?; <f64 as Model>::dec(d__, e__)?; d__.constant(b"\x00")?; <S12 as Model>::dec(d__, e__)?; } 1 => { d__.constant(b"\x6b")?; dec_with::<Cow<'a, str>>(d__, e__, LK::U16)?; dec_with::<Cow<'a, [bool]>>(d__, e__, LK::U7)?; dec_opt_with::<BTreeSet<i128>>(d__, e__, LK::U32)?; } 4294967295 => { dec_or_default(d__, e__, |d__, e__| { <String as Model>::dec(d__, e__)?; Ok(()) }, |e__| <String as Default>::default().enc(e__))?; } _ => return Err(DErr::Invalid("tag")) } Ok(()) }
    fn shape() -> Shape { Shape::fixed(4).and(Shape::fixed(1).var().fails().flags(<&'a [u8] as Cont>::body_shape())).and(shape_of::<usize>()).skipped::<[Option<Duration>; 3]>().and(shape_of::<f64>()).and(Shape::fixed(1).fails().and(shape_of::<S12>())).or(Shape::fixed(4).and(Shape::fixed(1).fails().and(Shape::fixed(2).var().fails().flags(<Cow<'a, str> as Cont>::body_shape()))).and(Shape::fixed(1).var().fails().flags(<Cow<'a, [bool]> as Cont>::body_shape())).and(Shape::fixed(1).var().fails().flags(<BTreeSet<i128> as Cont>::body_shape()))).or(Shape::fixed(4).and(shape_of::<String>().min(0).opened())).var().fails() }
}

#[derive(Readable, Writable, Clone, Default)] pub struct S22<'a> { #[speedy(constant_prefix = b'z')] pub context: BTreeSet<uuid::Uuid>, pub r#type: i128, pub x: u8, #[speedy(length = (x >> 1))] pub reader: HashSet<Duration>, pub count: Box<[NonZeroU16]>, #[speedy(length = ..)] pub _unused: &'a str }
impl<'a> View for S22<'a> { fn enc(&self, e__: &mut Enc) { let _ = &e__; let S22 { context: f0, r#type: f1, x: f2, reader: f3, count: f4, _unused: f5 } = self; let _ = (f0, f1, f2, f3, f4, f5, ); if !e__.canon { e__.raw(b"\x7a") } f0.enc(e__); f1.enc(e__); f2.enc(e__); enc_len(f3, e__, (*f2 >> 1) as usize); f4.enc(e__); f5.body(e__); } }
impl<'a> Model<'a> for S22<'a> {
    fn gen(g__: &mut Gen<'a>) -> Self { let _ = &g__; let v3: HashSet<Duration> = gen_with(g__, 127); let n__ = v3.clen(); let n__ = said(g__, n__, 127); let _ = n__; let v2 = (n__ * 2 + g__.rng.us(2)) as u8; let v0: BTreeSet<uuid::Uuid> = Model::gen(g__); let v1: i128 = Model::gen(g__); let v4: Box<[NonZeroU16]> = Model::gen(g__); let v5: &'a str = gen_with(g__, 1000); S22 { context: v0, r#type: v1, x: v2, reader: v3, count: v4, _unused: v5 } }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { let _ = (&d__, &e__); d__.constant(b"\x7a")?; <BTreeSet<uuid::Uuid> as Model>::dec(d__, e__)?; <i128 as Model>::dec(d__, e__)?; let f2 = &dec_u8(d__, e__)?; dec_len::<HashSet<Duration>>(d__, e__, (*f2 >> 1) as usize)?; <Box<[NonZeroU16]> as Model>::dec(d__, e__)?; <&'a str as Cont>::dec_eof(d__, e__)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(Shape::fixed(1).fails().and(shape_of::<BTreeSet<uuid::Uuid>>())).and(shape_of::<i128>()).and(shape_of::<u8>()).and(<HashSet<Duration> as Cont>::body_shape().var()).and(shape_of::<Box<[NonZeroU16]>>()).and(<&'a str as Cont>::body_shape().var().min(0).opened()) }
}

#[derive(Readable, Writable, Clone, Default)] pub struct S23<'a> { #[speedy(constant_prefix = b'z')] pub out: u32, pub kind: S18<'a, Box<str>> }
impl<'a> View for S23<'a> { fn enc(&self, e__: &mut Enc) { let _ = &e__; let S23 { out: f0, kind: f1 } = self; let _ = (f0, f1, ); if !e__.canon { e__.raw(b"\x7a") } f0.enc(e__); f1.enc(e__); } }
impl<'a> Model<'a> for S23<'a> {
    fn gen(g__: &mut Gen<'a>) -> Self { let _ = &g__; let v0: u32 = Model::gen(g__); let v1: S18<'a, Box<str>> = Model::gen(g__); S23 { out: v0, kind: v1 } }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { let _ = (&d__, &e__); d__.constant(b"\x7a")?; <u32 as Model>::dec(d__, e__)?; <S18<'a, Box<str>> as Model>::dec(d__, e__)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(Shape::fixed(1).fails().and(shape_of::<u32>())).and(shape_of::<S18<'a, Box<str>>>()) }
}

hz::zoo! { add_dyn, speedy::Endianness;
    Z0 = E0;
    Z1 = E1<'a>;
    Z2 = S2<'a>;
    Z3 = S3<'a>;
    Z4 = E4<'a>;
    Z5 = E5<'a>;
    Z6 = S6<'a, Duration>;
    Z7 = S6<'a, &'a [i8]>;
    Z8 = E7<'a>;
    Z9 = S8<'a>;
    Z10 = S9<'a, (uuid::Uuid, bool)>;
    Z11 = S9<'a, Box<[i64]>>;
    Z12 = S10<'a>;
    Z13 = S11<'a>;
    Z14 = S12;
    Z15 = S13<'a>;
    Z16 = S14<'a>;
    Z17 = E15<'a>;
    Z18 = S16;
    Z19 = S17<'a, u8>;
    Z20 = S18<'a, NonZeroU16>;
    Z21 = S18<'a, Box<str>>;
    Z22 = E19<'a>;
    Z23 = E20<'a>;
    Z24 = E21<'a>;
    Z25 = S22<'a>;
    Z26 = S23<'a>;
    Z27 = Vec<E0>;
    Z28 = SmallVec<[E1<'a>; 2]>;
    Z29 = Box<S14<'a>>;
    Z30 = Box<S16>;
    Z31 = Vec<E19<'a>>;
    Z32 = Option<E20<'a>>;
}
hz::zoo! { add_le, hz::ops::Native;
    Y0 = S2<'a>;
    Y1 = S10<'a>;
    Y2 = S13<'a>;
    Y3 = S18<'a, Box<str>>;
    Y4 = Vec<E19<'a>>;
}
hz::zoo! { add_be, speedy::BigEndian;
    X0 = S6<'a, &'a [i8]>;
    X1 = S13<'a>;
    X2 = S16;
    X3 = E19<'a>;
    X4 = Box<S16>;
}
pub fn all(v: &mut Vec<Box<dyn hz::ops::Ops>>) { add_dyn(v); add_le(v); add_be(v); }
}
pub mod layouts {
use hz::model::*;
use hz::model::{Cont, Model};
use speedy::{Readable, Writable};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::num::NonZeroU16;
use std::net::Ipv4Addr;
use std::time::Duration;
use std::sync::atomic::AtomicU32;
use smallvec::SmallVec;
use indexmap_v2::IndexSet;

#[derive(Readable, Writable, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)] #[repr(transparent)] pub struct L0 { pub out: i128 }
impl View for L0 { fn enc(&self, e__: &mut Enc) { let f0 = &{ self.out }; f0.enc(e__); } }
impl<'a> Model<'a> for L0 {
    fn gen(g__: &mut Gen<'a>) -> Self { let v0: i128 = Model::gen(g__); L0 { out: v0 } }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { <i128 as Model>::dec(d__, e__)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(shape_of::<i128>()) }
}

#[derive(Readable, Writable, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)] #[repr(packed)] pub struct L1(pub u64, pub char, pub u64);
impl View for L1 { fn enc(&self, e__: &mut Enc) { let f0 = &{ self.0 }; let f1 = &{ self.1 }; let f2 = &{ self.2 }; f0.enc(e__); f1.enc(e__); f2.enc(e__); } }
impl<'a> Model<'a> for L1 {
    fn gen(g__: &mut Gen<'a>) -> Self { let v0: u64 = Model::gen(g__); let v1: char = Model::gen(g__); let v2: u64 = Model::gen(g__); L1(v0, v1, v2) }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { <u64 as Model>::dec(d__, e__)?; <char as Model>::dec(d__, e__)?; <u64 as Model>::dec(d__, e__)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(shape_of::<u64>()).and(shape_of::<char>()).and(shape_of::<u64>()) }
}

#[derive(Readable, Writable, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)] #[repr(C)] pub struct L2(pub u16, pub u16, pub i16);
impl View for L2 { fn enc(&self, e__: &mut Enc) { let f0 = &{ self.0 }; let f1 = &{ self.1 }; let f2 = &{ self.2 }; f0.enc(e__); f1.enc(e__); f2.enc(e__); } }
impl<'a> Model<'a> for L2 {
    fn gen(g__: &mut Gen<'a>) -> Self { let v0: u16 = Model::gen(g__); let v1: u16 = Model::gen(g__); let v2: i16 = Model::gen(g__); L2(v0, v1, v2) }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { <u16 as Model>::dec(d__, e__)?; <u16 as Model>::dec(d__, e__)?; <i16 as Model>::dec(d__, e__)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(shape_of::<u16>()).and(shape_of::<u16>()).and(shape_of::<i16>()) }
}

#[derive(Readable, Writable, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)] pub struct L3(pub u128, #[speedy(varint)] pub u64, pub u128);
impl View for L3 { fn enc(&self, e__: &mut Enc) { let f0 = &{ self.0 }; let f1 = &{ self.1 }; let f2 = &{ self.2 }; f0.enc(e__); enc_varint(*f1, e__); f2.enc(e__); } }
impl<'a> Model<'a> for L3 {
    fn gen(g__: &mut Gen<'a>) -> Self { let v0: u128 = Model::gen(g__); let v1: u64 = g__.rng.int() as u64; let v2: u128 = Model::gen(g__); L3(v0, v1, v2) }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { <u128 as Model>::dec(d__, e__)?; dec_varint(d__, e__)?; <u128 as Model>::dec(d__, e__)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(shape_of::<u128>()).and(Shape::fixed(1).var()).and(shape_of::<u128>()) }
}

#[derive(Readable, Writable, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)] pub struct L4 { #[speedy(constant_prefix = -63_i8)] pub reader: i128 }
impl View for L4 { fn enc(&self, e__: &mut Enc) { let f0 = &{ self.reader }; if !e__.canon { e__.raw(b"\xc1") } f0.enc(e__); } }
impl<'a> Model<'a> for L4 {
    fn gen(g__: &mut Gen<'a>) -> Self { let v0: i128 = Model::gen(g__); L4 { reader: v0 } }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { d__.constant(b"\xc1")?; <i128 as Model>::dec(d__, e__)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(Shape::fixed(1).fails().and(shape_of::<i128>())) }
}

#[derive(Readable, Writable, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)] #[repr(C)] #[speedy(unsafe_is_primitive = always)] pub struct L5(pub u64);
impl View for L5 { fn enc(&self, e__: &mut Enc) { let f0 = &{ self.0 }; f0.enc(e__); } }
impl<'a> Model<'a> for L5 {
    fn gen(g__: &mut Gen<'a>) -> Self { let v0: u64 = Model::gen(g__); L5(v0) }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { <u64 as Model>::dec(d__, e__)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(shape_of::<u64>()) }
}

#[derive(Readable, Writable, Clone)] #[repr(transparent)] pub struct W6<T0>(pub T0);
impl<T0: View + Clone> View for W6<T0> { fn enc(&self, e__: &mut Enc) { let f0 = &self.0.clone(); f0.enc(e__);  } }
impl<'a, T0: Model<'a> + Clone> Model<'a> for W6<T0> { fn gen(g__: &mut Gen<'a>) -> Self { W6(Model::gen(g__)) } fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { T0::dec(d__, e__)?;  Ok(()) } fn shape() -> Shape { Shape::fixed(0).and(shape_of::<T0>()) } }

#[derive(Readable, Writable, Clone, Copy, Default)] pub struct L7 { pub out: i32, pub item: L3, pub buffer: f32 }
impl View for L7 { fn enc(&self, e__: &mut Enc) { let f0 = &{ self.out }; let f1 = &{ self.item }; let f2 = &{ self.buffer }; f0.enc(e__); f1.enc(e__); f2.enc(e__); } }
impl<'a> Model<'a> for L7 {
    fn gen(g__: &mut Gen<'a>) -> Self { let v0: i32 = Model::gen(g__); let v1: L3 = Model::gen(g__); let v2: f32 = Model::gen(g__); L7 { out: v0, item: v1, buffer: v2 } }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { <i32 as Model>::dec(d__, e__)?; <L3 as Model>::dec(d__, e__)?; <f32 as Model>::dec(d__, e__)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(shape_of::<i32>()).and(shape_of::<L3>()).and(shape_of::<f32>()) }
}

#[derive(Readable, Writable, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)] #[repr(align(8))] pub struct L8(pub i128, pub u64, pub u64, pub [u8; 3]);
impl View for L8 { fn enc(&self, e__: &mut Enc) { let f0 = &{ self.0 }; let f1 = &{ self.1 }; let f2 = &{ self.2 }; let f3 = &{ self.3 }; f0.enc(e__); f1.enc(e__); f2.enc(e__); f3.enc(e__); } }
impl<'a> Model<'a> for L8 {
    fn gen(g__: &mut Gen<'a>) -> Self { let v0: i128 = Model::gen(g__); let v1: u64 = Model::gen(g__); let v2: u64 = Model::gen(g__); let v3: [u8; 3] = Model::gen(g__); L8(v0, v1, v2, v3) }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { <i128 as Model>::dec(d__, e__)?; <u64 as Model>::dec(d__, e__)?; <u64 as Model>::dec(d__, e__)?; <[u8; 3] as Model>::dec(d__, e__)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(shape_of::<i128>()).and(shape_of::<u64>()).and(shape_of::<u64>()).and(shape_of::<[u8; 3]>()) }
}

#[derive(Readable, Writable, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)] #[repr(align(2))] pub struct L9 { pub key: u32, pub error: u16, pub context: u64, pub buffer: u16, pub n: u64, pub a: L8 }
impl View for L9 { fn enc(&self, e__: &mut Enc) { let f0 = &{ self.key }; let f1 = &{ self.error }; let f2 = &{ self.context }; let f3 = &{ self.buffer }; let f4 = &{ self.n }; let f5 = &{ self.a }; f0.enc(e__); f1.enc(e__); f2.enc(e__); f3.enc(e__); f4.enc(e__); f5.enc(e__); } }
impl<'a> Model<'a> for L9 {
    fn gen(g__: &mut Gen<'a>) -> Self { let v0: u32 = Model::gen(g__); let v1: u16 = Model::gen(g__); let v2: u64 = Model::gen(g__); let v3: u16 = Model::gen(g__); let v4: u64 = Model::gen(g__); let v5: L8 = Model::gen(g__); L9 { key: v0, error: v1, context: v2, buffer: v3, n: v4, a: v5 } }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { <u32 as Model>::dec(d__, e__)?; <u16 as Model>::dec(d__, e__)?; <u64 as Model>::dec(d__, e__)?; <u16 as Model>::dec(d__, e__)?; <u64 as Model>::dec(d__, e__)?; <L8 as Model>::dec(d__, e__)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(shape_of::<u32>()).and(shape_of::<u16>()).and(shape_of::<u64>()).and(shape_of::<u16>()).and(shape_of::<u64>()).and(shape_of::<L8>()) }
}

hz::zoo! { add_dyn, speedy::Endianness;
    Z0 = L0;
    Z1 = (L0, u8);
    Z2 = Cow<'a, [L0]>;
    Z3 = [L0; 3];
    Z4 = IndexSet<L0>;
    Z5 = L1;
    Z6 = Option<L1>;
    Z7 = Vec<[L1; 2]>;
    Z8 = BTreeSet<L1>;
    Z9 = IndexSet<L1>;
    Z10 = L2;
    Z11 = BTreeMap<L2, u8>;
    Z12 = (L2, u8);
    Z13 = [L2; 3];
    Z14 = Vec<L2>;
    Z15 = L3;
    Z16 = [L3; 3];
    Z17 = HashSet<L3>;
    Z18 = (L3, u8);
    Z19 = SmallVec<[L3; 2]>;
    Z20 = L4;
    Z21 = (L4, u8);
    Z22 = HashMap<u8, L4>;
    Z23 = BTreeMap<u16, L4>;
    Z24 = HashSet<L4>;
    Z25 = L5;
    Z26 = Option<L5>;
    Z27 = BTreeSet<L5>;
    Z28 = IndexSet<L5>;
    Z29 = Vec<L5>;
    Z30 = Box<[W6<u8>]>;
    Z31 = Vec<W6<u8>>;
    Z32 = Vec<W6<char>>;
    Z33 = Cow<'a, [W6<char>]>;
    Z34 = Cow<'a, [W6<u128>]>;
    Z35 = Box<[W6<u128>]>;
    Z36 = L7;
    Z37 = (u8, Vec<L7>, u8);
    Z38 = Box<[L7]>;
    Z39 = Option<L7>;
    Z40 = Vec<L7>;
    Z41 = L8;
    Z42 = SmallVec<[L8; 2]>;
    Z43 = BTreeMap<u16, L8>;
    Z44 = Box<[L8]>;
    Z45 = HashSet<L8>;
    Z46 = L9;
    Z47 = (u8, Vec<L9>, u8);
    Z48 = Cow<'a, [[L9; 2]]>;
    Z49 = [L9; 3];
    Z50 = Vec<[L9; 2]>;
}
hz::zoo! { add_le, hz::ops::Native;
    Y0 = &'a [L0];
    Y1 = (u8, &'a [L0]);
    Y2 = IndexSet<L1>;
    Y3 = (L4, u8);
    Y4 = HashSet<L4>;
    Y5 = Cow<'a, [W6<char>]>;
    Y6 = (u8, Vec<L7>, u8);
    Y7 = [L9; 3];
}
hz::zoo! { add_be, speedy::BigEndian;
    X0 = BTreeSet<L1>;
    X1 = IndexSet<L1>;
    X2 = (L3, u8);
    X3 = L5;
    X4 = Cow<'a, [W6<char>]>;
    X5 = Box<[L7]>;
    X6 = Option<L7>;
    X7 = Vec<L7>;
    X8 = Cow<'a, [[L9; 2]]>;
    X9 = Vec<[L9; 2]>;
}
pub fn all(v: &mut Vec<Box<dyn hz::ops::Ops>>) { add_dyn(v); add_le(v); add_be(v); }
}
pub mod bulk {
use hz::model::*;
use hz::model::{Cont, Model};
use speedy::{Readable, Writable};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::num::NonZeroU16;
use std::net::Ipv4Addr;
use std::time::Duration;
use std::sync::atomic::AtomicU32;
use smallvec::SmallVec;
use indexmap_v2::IndexSet;

#[derive(Readable, Writable, Clone, Copy, Default)] #[repr(packed)] pub struct L0 { pub b: u8, pub tag: u32, pub data: f64, pub out: u16 }
impl View for L0 { fn enc(&self, e__: &mut Enc) { let f0 = &{ self.b }; let f1 = &{ self.tag }; let f2 = &{ self.data }; let f3 = &{ self.out }; f0.enc(e__); f1.enc(e__); f2.enc(e__); f3.enc(e__); } }
impl<'a> Model<'a> for L0 {
    fn gen(g__: &mut Gen<'a>) -> Self { let v0: u8 = Model::gen(g__); let v1: u32 = Model::gen(g__); let v2: f64 = Model::gen(g__); let v3: u16 = Model::gen(g__); L0 { b: v0, tag: v1, data: v2, out: v3 } }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { <u8 as Model>::dec(d__, e__)?; <u32 as Model>::dec(d__, e__)?; <f64 as Model>::dec(d__, e__)?; <u16 as Model>::dec(d__, e__)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(shape_of::<u8>()).and(shape_of::<u32>()).and(shape_of::<f64>()).and(shape_of::<u16>()) }
}

#[derive(Readable, Writable, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)] #[repr(C)] #[speedy(unsafe_is_primitive = always)] pub struct L1 { pub value: u32, pub item: u32 }
impl View for L1 { fn enc(&self, e__: &mut Enc) { let f0 = &{ self.value }; let f1 = &{ self.item }; f0.enc(e__); f1.enc(e__); } }
impl<'a> Model<'a> for L1 {
    fn gen(g__: &mut Gen<'a>) -> Self { let v0: u32 = Model::gen(g__); let v1: u32 = Model::gen(g__); L1 { value: v0, item: v1 } }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { <u32 as Model>::dec(d__, e__)?; <u32 as Model>::dec(d__, e__)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(shape_of::<u32>()).and(shape_of::<u32>()) }
}

#[derive(Readable, Writable, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)] #[repr(packed)] pub struct L2 { pub kind: u8, pub a: u8, pub _unused: i8, pub x: i8, pub buffer: u8 }
impl View for L2 { fn enc(&self, e__: &mut Enc) { let f0 = &{ self.kind }; let f1 = &{ self.a }; let f2 = &{ self._unused }; let f3 = &{ self.x }; let f4 = &{ self.buffer }; f0.enc(e__); f1.enc(e__); f2.enc(e__); f3.enc(e__); f4.enc(e__); } }
impl<'a> Model<'a> for L2 {
    fn gen(g__: &mut Gen<'a>) -> Self { let v0: u8 = Model::gen(g__); let v1: u8 = Model::gen(g__); let v2: i8 = Model::gen(g__); let v3: i8 = Model::gen(g__); let v4: u8 = Model::gen(g__); L2 { kind: v0, a: v1, _unused: v2, x: v3, buffer: v4 } }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { <u8 as Model>::dec(d__, e__)?; <u8 as Model>::dec(d__, e__)?; <i8 as Model>::dec(d__, e__)?; <i8 as Model>::dec(d__, e__)?; <u8 as Model>::dec(d__, e__)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(shape_of::<u8>()).and(shape_of::<u8>()).and(shape_of::<i8>()).and(shape_of::<i8>()).and(shape_of::<u8>()) }
}

#[derive(Readable, Writable, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)] #[repr(transparent)] pub struct L3(pub u32);
impl View for L3 { fn enc(&self, e__: &mut Enc) { let f0 = &{ self.0 }; f0.enc(e__); } }
impl<'a> Model<'a> for L3 {
    fn gen(g__: &mut Gen<'a>) -> Self { let v0: u32 = Model::gen(g__); L3(v0) }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { <u32 as Model>::dec(d__, e__)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(shape_of::<u32>()) }
}

#[derive(Readable, Writable, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)] pub struct L4 { pub size: u32, pub r#type: u32, pub c: u32, pub version: u32 }
impl View for L4 { fn enc(&self, e__: &mut Enc) { let f0 = &{ self.size }; let f1 = &{ self.r#type }; let f2 = &{ self.c }; let f3 = &{ self.version }; f0.enc(e__); f1.enc(e__); f2.enc(e__); f3.enc(e__); } }
impl<'a> Model<'a> for L4 {
    fn gen(g__: &mut Gen<'a>) -> Self { let v0: u32 = Model::gen(g__); let v1: u32 = Model::gen(g__); let v2: u32 = Model::gen(g__); let v3: u32 = Model::gen(g__); L4 { size: v0, r#type: v1, c: v2, version: v3 } }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { <u32 as Model>::dec(d__, e__)?; <u32 as Model>::dec(d__, e__)?; <u32 as Model>::dec(d__, e__)?; <u32 as Model>::dec(d__, e__)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(shape_of::<u32>()).and(shape_of::<u32>()).and(shape_of::<u32>()).and(shape_of::<u32>()) }
}

#[derive(Readable, Writable, Clone, Copy, Default)] #[repr(packed)] pub struct L5 { pub context: f32, pub r#type: f32, pub x: i32 }
impl View for L5 { fn enc(&self, e__: &mut Enc) { let f0 = &{ self.context }; let f1 = &{ self.r#type }; let f2 = &{ self.x }; f0.enc(e__); f1.enc(e__); f2.enc(e__); } }
impl<'a> Model<'a> for L5 {
    fn gen(g__: &mut Gen<'a>) -> Self { let v0: f32 = Model::gen(g__); let v1: f32 = Model::gen(g__); let v2: i32 = Model::gen(g__); L5 { context: v0, r#type: v1, x: v2 } }
    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { <f32 as Model>::dec(d__, e__)?; <f32 as Model>::dec(d__, e__)?; <i32 as Model>::dec(d__, e__)?; Ok(()) }
    fn shape() -> Shape { Shape::fixed(0).and(shape_of::<f32>()).and(shape_of::<f32>()).and(shape_of::<i32>()) }
}

hz::zoo! { add_dyn, speedy::Endianness;
    Z0 = L0;
    Z1 = Vec<L0>;
    Z2 = [L0; 3];
    Z3 = Box<[L0]>;
    Z4 = Cow<'a, [L0]>;
    Z5 = (u8, Vec<[L0; 2]>);
    Z6 = L1;
    Z7 = Vec<L1>;
    Z8 = [L1; 3];
    Z9 = Box<[L1]>;
    Z10 = Cow<'a, [L1]>;
    Z11 = (u8, Vec<[L1; 2]>);
    Z12 = L2;
    Z13 = Vec<L2>;
    Z14 = [L2; 3];
    Z15 = Box<[L2]>;
    Z16 = Cow<'a, [L2]>;
    Z17 = (u8, Vec<[L2; 2]>);
    Z18 = (u8, &'a [L2]);
    Z19 = L3;
    Z20 = Vec<L3>;
    Z21 = [L3; 3];
    Z22 = Box<[L3]>;
    Z23 = Cow<'a, [L3]>;
    Z24 = (u8, Vec<[L3; 2]>);
    Z25 = L4;
    Z26 = Vec<L4>;
    Z27 = [L4; 3];
    Z28 = Box<[L4]>;
    Z29 = Cow<'a, [L4]>;
    Z30 = (u8, Vec<[L4; 2]>);
    Z31 = L5;
    Z32 = Vec<L5>;
    Z33 = [L5; 3];
    Z34 = Box<[L5]>;
    Z35 = Cow<'a, [L5]>;
    Z36 = (u8, Vec<[L5; 2]>);
}
hz::zoo! { add_le, hz::ops::Native;
    Y0 = &'a [L0];
    Y1 = (u8, &'a [L0]);
    Y2 = &'a [L2];
    Y3 = &'a [L3];
    Y4 = (u8, &'a [L3]);
    Y5 = &'a [L5];
    Y6 = (u8, &'a [L5]);
    Y7 = Cow<'a, [L1]>;
    Y8 = (u8, &'a [L2]);
    Y9 = Box<[L3]>;
    Y10 = L5;
}
hz::zoo! { add_be, speedy::BigEndian;
    X0 = Cow<'a, [L0]>;
    X1 = (u8, Vec<[L0; 2]>);
    X2 = (u8, Vec<[L1; 2]>);
    X3 = L2;
    X4 = Vec<L2>;
    X5 = Box<[L2]>;
    X6 = Box<[L5]>;
}
pub fn all(v: &mut Vec<Box<dyn hz::ops::Ops>>) { add_dyn(v); add_le(v); add_be(v); }
}
