//! The types every behavioural check runs over.
use crate::ops::Ops;
mod std1 {
    use std::borrow::Cow;
    use std::ops::*;
    use std::num::*;
    use std::sync::atomic::*;
    use std::time::*;
    use std::net::*;
    crate::zoo! { add, speedy::Endianness;
        A1 = u8; A2 = i8; A3 = u16; A4 = i16; A5 = u32; A6 = i32; A7 = u64; A8 = i64; A9 = u128; A10 = i128;
        A11 = f32; A12 = f64; A13 = usize; A14 = bool; A15 = char;
        A16 = String; A17 = &'a str; A18 = Cow<'a, str>; A19 = Box<str>;
        A20 = (); A21 = (u8,); A22 = (u8, u16); A23 = (u32, bool, String); A24 = (u8, u8, u8, u64);
        A25 = (i8, i16, i32, i64, i128); A26 = (u8, u16, u8, u32, u8, u64); A27 = (bool, char, u8, f32, f64, u16, ());
        A28 = (u8, u8, u8, u8, u8, u8, u8, String); A29 = (u8, i8, u16, i16, u32, i32, u64, i64, f32);
        A30 = (u8, (u8, (u8, u16)), u8, u8, u8, u8, u8, u8, u8, u32); A31 = (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, Option<u16>);
        A32 = Range<u16>; A33 = RangeInclusive<i64>; A34 = Range<String>; A35 = RangeInclusive<char>;
        A36 = Option<u8>; A37 = Option<Option<u32>>; A38 = Option<String>; A39 = Result<u16, String>; A40 = Result<(), bool>; A41 = Option<&'a str>;
        A42 = speedy::Endianness; A43 = NonZeroU8; A44 = NonZeroU16; A45 = NonZeroU32; A46 = NonZeroU64; A47 = NonZeroI8; A48 = NonZeroI16; A49 = NonZeroI32; A50 = NonZeroI64;
        A51 = AtomicU8; A52 = AtomicU16; A53 = AtomicU32; A54 = AtomicU64; A55 = AtomicI8; A56 = AtomicI16; A57 = AtomicI32; A58 = AtomicI64;
        A59 = Ipv4Addr; A60 = Ipv6Addr; A61 = IpAddr; A62 = Duration; A63 = SystemTime; A64 = speedy::private::VarInt64;
        A65 = Box<u32>; A66 = Box<Option<Box<String>>>;
        A67 = RangeInclusive<String>; A68 = RangeInclusive<Option<u16>>; A69 = Range<Result<u8, String>>; A70 = Range<speedy::private::VarInt64>; A71 = Result<Vec<u16>, Option<char>>; A72 = Option<Result<String, Box<str>>>; A73 = (String, Option<u16>, Vec<u8>, speedy::private::VarInt64);
        A74 = Box<[Option<String>]>; A75 = [Cow<'a, str>; 2]; A76 = Vec<AtomicU16>; A77 = [AtomicI64; 2]; A78 = (AtomicU8, Option<AtomicU32>); A79 = Option<NonZeroU64>; A80 = [NonZeroI32; 3];
    }
}
mod std2 {
    use std::borrow::Cow;
    use std::ops::*;
    use std::num::*;
    use std::time::*;
    use std::net::*;
    crate::zoo! { add, speedy::Endianness;
        B1 = Vec<u8>; B2 = Vec<i8>; B3 = Vec<u16>; B4 = Vec<i16>; B5 = Vec<u32>; B6 = Vec<i32>; B7 = Vec<u64>; B8 = Vec<i64>; B9 = Vec<u128>; B10 = Vec<i128>; B11 = Vec<f32>; B12 = Vec<f64>;
        B13 = Vec<bool>; B14 = Vec<char>; B15 = Vec<String>; B16 = Vec<Vec<u16>>; B17 = Vec<Option<u32>>; B18 = Vec<(u8, u16)>; B19 = Vec<()>; B20 = Vec<Duration>; B21 = Vec<usize>;
        B22 = Vec<NonZeroU16>; B23 = Vec<[u16; 3]>; B24 = Vec<Cow<'a, str>>; B25 = Vec<&'a [u8]>; B26 = Vec<Ipv6Addr>; B27 = Vec<Result<u8, u32>>; B28 = Vec<Range<u8>>;
        B30 = Box<[u8]>; B31 = Box<[u32]>; B32 = Box<[String]>; B33 = Box<[(u8, bool)]>;
        B40 = Cow<'a, [u8]>; B41 = Cow<'a, [i8]>; B42 = Cow<'a, [u16]>; B43 = Cow<'a, [u32]>; B44 = Cow<'a, [i64]>; B45 = Cow<'a, [u128]>; B46 = Cow<'a, [f32]>; B47 = Cow<'a, [f64]>; B48 = Cow<'a, [bool]>; B49 = Cow<'a, [String]>; B50 = Cow<'a, [char]>;
        B60 = &'a [u8]; B61 = &'a [i8]; B62 = &'a [u8; 5]; B63 = &'a [i8; 1]; B64 = &'a [u8; 0]; B65 = (u8, &'a [u8], &'a str, &'a [u8; 3]);
        B70 = [u8; 7]; B71 = [u16; 5]; B72 = [u32; 1]; B73 = [u64; 0]; B74 = [f64; 3]; B75 = [String; 3]; B76 = [[u16; 2]; 3]; B77 = [bool; 4]; B78 = [Option<u8>; 3]; B79 = [char; 2]; B80 = [i128; 2]; B81 = [u8; 300];
        B82 = [Box<u16>; 4]; B83 = Option<[u32; 3]>; B84 = [(u8, u16); 3];
        B90 = Vec<SystemTime>; B91 = Vec<IpAddr>; B92 = Vec<speedy::private::VarInt64>; B93 = Vec<speedy::Endianness>;
    }
}
mod std3 {
    use std::borrow::Cow;
    use std::collections::*;
    crate::zoo! { add, speedy::Endianness;
        C1 = BTreeSet<u8>; C2 = BTreeSet<u32>; C3 = BTreeSet<String>; C4 = BTreeSet<(u8, u16)>; C5 = BTreeSet<char>;
        C6 = BTreeMap<u8, u8>; C7 = BTreeMap<u16, u64>; C8 = BTreeMap<String, Vec<u8>>; C9 = BTreeMap<u32, String>; C10 = BTreeMap<i8, bool>; C11 = BTreeMap<u64, f32>;
        C12 = HashSet<u8>; C13 = HashSet<i32>; C14 = HashSet<String>; C15 = HashSet<u128>; C16 = HashSet<bool>;
        C17 = HashMap<u8, i8>; C18 = HashMap<u32, u16>; C19 = HashMap<String, u64>; C20 = HashMap<i64, Option<String>>; C21 = HashMap<char, char>;
        C22 = Cow<'a, BTreeSet<u16>>; C23 = Cow<'a, BTreeMap<u8, u32>>; C24 = Cow<'a, HashSet<u64>>; C25 = Cow<'a, HashMap<u16, u8>>; C26 = Cow<'a, HashMap<String, String>>; C27 = Cow<'a, BTreeSet<String>>;
        C28 = BTreeMap<u8, BTreeMap<u8, BTreeSet<u16>>>; C29 = Vec<HashMap<u8, u8>>; C30 = HashMap<Cow<'a, str>, Cow<'a, [u8]>>; C31 = HashSet<&'a str>; C32 = BTreeMap<&'a [u8], u8>;
        C33 = BTreeSet<[u8; 2]>; C34 = HashMap<(u8, bool), [u16; 2]>; C35 = Option<BTreeMap<u8, ()>>; C36 = BTreeSet<i128>; C37 = HashMap<i16, u128>; C38 = HashSet<Option<u8>>; C39 = BTreeSet<bool>;
        C43 = BTreeMap<Option<u8>, Result<u8, String>>; C44 = BTreeSet<speedy::private::VarInt64>; C45 = HashMap<std::net::Ipv4Addr, std::time::Duration>; C46 = BTreeSet<std::time::Duration>; C47 = HashSet<Vec<u16>>; C48 = Option<Box<BTreeMap<String, Option<u64>>>>;
        C40 = BTreeMap<bool, f64>; C41 = HashMap<u8, u32>; C42 = BTreeSet<i8>;
    }
}
mod ext {
    use glam::*;
    crate::zoo! { add, speedy::Endianness;
        D1 = Vec2; D2 = Vec3; D3 = Vec3A; D4 = Vec4; D5 = DVec2; D6 = DVec3; D7 = DVec4; D8 = IVec2; D9 = IVec3; D10 = IVec4; D11 = UVec2; D12 = UVec3; D13 = UVec4; D14 = Quat; D15 = DQuat;
        D16 = Mat2; D17 = Mat3; D18 = Mat3A; D19 = Mat4; D20 = DMat2; D21 = DMat3; D22 = DMat4; D23 = Affine2; D24 = Affine3A; D25 = DAffine2; D26 = DAffine3; D27 = BVec2; D28 = BVec3; D29 = BVec4;
        D30 = Vec<Vec3>; D31 = Option<Mat4>; D32 = [Vec3A; 3]; D33 = Vec<BVec3>;
        E1 = uuid::Uuid; E2 = Vec<uuid::Uuid>; E3 = regex::Regex; E4 = chrono::DateTime<chrono::Utc>; E5 = Vec<chrono::DateTime<chrono::Utc>>;
        E6 = smallvec::SmallVec<[u8; 4]>; E7 = smallvec::SmallVec<[String; 2]>; E8 = smallvec::SmallVec<[u32; 8]>; E9 = smallvec::SmallVec<[u16; 1]>; E10 = smallvec::SmallVec<[Option<u16>; 2]>; E11 = indexmap_v1::IndexMap<u8, Option<String>>; E12 = indexmap_v2::IndexSet<Option<char>>; E13 = std::collections::HashMap<uuid::Uuid, Vec<u8>>; E14 = Option<smallvec::SmallVec<[u64; 3]>>; E15 = Vec<smallvec::SmallVec<[u8; 2]>>;
        F1 = indexmap_v1::IndexMap<u8, u16>; F2 = indexmap_v1::IndexSet<String>; F3 = indexmap_v1::IndexMap<String, u32>; F4 = indexmap_v1::IndexSet<u32>;
        F5 = indexmap_v2::IndexMap<u8, u16>; F6 = indexmap_v2::IndexSet<String>; F7 = indexmap_v2::IndexMap<i64, Vec<u8>>; F8 = indexmap_v2::IndexSet<u16>; F9 = indexmap_v2::IndexMap<u8, u8>;
    }
}
mod native {
    use std::borrow::Cow;
    use std::collections::*;
    crate::zoo! { add, crate::ops::Native;
        N1 = &'a [u16]; N2 = &'a [i32]; N3 = &'a [u64]; N4 = &'a [f32]; N5 = &'a [f64]; N6 = &'a [u128]; N7 = &'a [i16; 3]; N8 = &'a [u32; 4]; N9 = &'a [i64; 2]; N10 = &'a [u8];
        N11 = (u8, &'a [u32], u8, &'a [u16]); N12 = Vec<&'a [u16]>; N13 = Option<&'a [u64; 1]>;
    }
    crate::zoo! { add_le, speedy::LittleEndian;
        N20 = u32; N21 = String; N22 = Vec<u16>; N23 = Cow<'a, [u32]>; N24 = Cow<'a, str>; N25 = HashMap<u16, u32>; N26 = [u64; 3]; N27 = (u8, i16, Option<char>); N28 = BTreeMap<u8, Vec<String>>; N29 = bool; N30 = std::net::Ipv6Addr; N31 = Vec<f64>; N32 = speedy::private::VarInt64; N33 = std::time::SystemTime;
    }
}
mod be {
    use std::borrow::Cow;
    use std::collections::*;
    crate::zoo! { add, speedy::BigEndian;
        M20 = u32; M21 = String; M22 = Vec<u16>; M23 = Cow<'a, [u32]>; M24 = Cow<'a, str>; M25 = HashMap<u16, u32>; M26 = [u64; 3]; M27 = (u8, i16, Option<char>); M28 = BTreeMap<u8, Vec<String>>; M29 = &'a [u8]; M30 = std::net::Ipv6Addr; M31 = Vec<f64>; M32 = speedy::private::VarInt64; M33 = BTreeSet<u64>;
    }
}
/// Set by programs which bring types of their own.
pub static OWN: std::sync::OnceLock<fn(&mut Vec<Box<dyn Ops>>)> = std::sync::OnceLock::new();
pub fn generated() -> bool { OWN.get().is_some() }
pub fn all() -> Vec<Box<dyn Ops>> {
    let mut v = vec![];
    if let Some(f) = OWN.get() { f(&mut v); return v; }
    std1::add(&mut v); std2::add(&mut v); std3::add(&mut v); ext::add(&mut v); native::add(&mut v); native::add_le(&mut v); be::add(&mut v);
    crate::zoo_gen::attributes::all(&mut v); crate::zoo_gen::layouts::all(&mut v); crate::zoo_gen::bulk::all(&mut v);
    v
}
