use super::*;
use speedy::{Readable, Writable};
use std::time::Duration;
use std::collections::*;
#[derive(Readable, Writable, Debug)] struct Plain1 { a: u8, b: u16, c: u32 }
#[derive(Readable, Writable, Debug, Clone)] #[repr(C)] struct Ordered { a: u32, b: u16, c: u8, d: u8 }
#[derive(Readable, Writable, Debug, Clone, Copy)] #[repr(packed)] struct Packed { a: u8, b: u32, c: u16 }
#[derive(Readable, Writable, Debug, Clone, Copy, PartialEq)] #[repr(transparent)] struct Clear(u16);
#[derive(Readable, Writable, Debug)] struct Attrs<'a> { a: u8, #[speedy(varint)] b: u64, #[speedy(skip)] c: u32, d: Option<&'a str>, e: [u16; 2], #[speedy(default_on_eof)] f: u16, #[speedy(default_on_eof)] g: Option<u8> }
#[derive(Readable, Writable, Debug)] enum Plain2 { A, B(u8, u16), C { x: char, y: Option<bool> }, #[speedy(tag = 5)] D(Duration) }
#[derive(Readable, Writable, Debug)] #[speedy(tag_type = u8)] enum Small { #[speedy(tag = 1)] A(u8), #[speedy(tag = 97)] B { v: [bool; 2] }, C }
#[derive(Readable, Writable, Debug)] #[speedy(tag_type = u64_varint)] enum Long<'a> { #[speedy(tag = 0)] A(&'a str), #[speedy(tag = 300)] B, #[speedy(tag = 3)] C(f32) }
#[derive(Readable, Writable, Debug)] #[speedy(tag_type = u16)] #[speedy(peek_tag)] enum Peek { #[speedy(tag = 1)] A { t: u16, x: u8 }, #[speedy(tag = 2)] B(u16, char) }
#[derive(Readable, Writable, Debug)] struct Generic<T> { x: T, y: Option<T>, #[speedy(default_on_eof)] z: u8 }
#[derive(Readable, Writable, Debug)] struct Unit;
pub fn core(o: &mut Out) {
    types! { o, "core derive", false, &[b"\x01\0", b"\0\x02", b"\x01\x02\0"]; Plain1, Ordered, Packed, Clear, Attrs<'a>, Plain2, Small, Long<'a>, Peek, Generic<u16>, Generic<Plain2>, Unit, [Ordered; 3], [Packed; 2], [Clear; 4], Option<Plain1>, (u8, Small), Result<Small, Clear> }
    readable! { o, "core derive"; &'a [Packed; 1] }
    readable_native! { o, "core derive"; &'a [Packed], &'a [Clear] }
    native! { o, "core derive"; [Packed; 3], Plain1, Generic<Ordered> }
}
#[cfg(feature = "alloc")] #[derive(Readable, Writable, Debug)] struct Lens<'a> { #[speedy(length_type = u8)] a: Vec<u16>, n: u8, #[speedy(length = n & 3)] b: Vec<u8>, #[speedy(length_type = u7)] c: String, #[speedy(length_type = u64_varint)] d: Cow<'a, [u8]>, #[speedy(length_type = u16)] e: Option<Vec<u8>>, #[speedy(skip)] f: String, #[speedy(default_on_eof)] g: Vec<u8> }
#[cfg(feature = "alloc")] #[derive(Readable, Writable, Debug)] struct Marked<'a> { #[speedy(constant_prefix = "OK")] a: u8, d: Option<&'a [u8]>, #[speedy(constant_prefix = 7u8)] e: [u16; 2], #[speedy(default_on_eof)] f: u16 }
#[cfg(feature = "alloc")] #[derive(Readable, Writable, Debug)] struct Tail<'a> { a: u8, #[speedy(length = ..)] b: Cow<'a, [u16]> }
#[cfg(feature = "alloc")] #[derive(Readable, Writable, Debug)] enum Tree { Leaf(u8), Node(Vec<Tree>), Text(String) }
#[cfg(feature = "alloc")] pub fn alloc(o: &mut Out) {
    types! { o, "alloc derive", false, &[b"OK", b"OK\x01\0\x07", b"\0\0\0\0\0\0", b"\x01\x02\x03\x02xy\x01a\x01b\0"]; Lens<'a>, Marked<'a>, Tail<'a>, Tree, Vec<Plain1>, Vec<Ordered>, Vec<Packed>, Vec<Clear>, Cow<'a, [Ordered]>, Cow<'a, [Packed]>, Box<[Clear]>, Vec<Plain2>, Generic<String>, Generic<Vec<Small>>, Option<Lens<'a>> }
}
#[cfg(feature = "std")] #[derive(Readable, Writable, Debug)] struct Maps { #[speedy(length_type = u8)] a: HashMap<u8, u8>, n: u8, #[speedy(length = n & 1)] b: HashSet<u16>, c: std::time::SystemTime }
#[cfg(feature = "std")] pub fn std(o: &mut Out) { types! { o, "std derive", true, &[]; Maps, Vec<Maps> } }
