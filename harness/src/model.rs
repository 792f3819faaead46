//! Reference models for library functions whose own bodies are written for speed (unrolling,
//! specialisation, raw pointers).  The extractor analyses the model instead of the library body.
//! `vp_*` functions are primitives of the analyser.
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::iter::Skip;

use byteorder::ByteOrder;

pub fn vp_from_bytes<T: ByteOrder, X, const N: usize>(_b: [u8; N]) -> X { loop {} }
pub fn vp_to_bytes<T: ByteOrder, X, const N: usize>(_x: X) -> [u8; N] { loop {} }
pub fn vp_format(_a: std::fmt::Arguments<'_>) -> String { loop {} }
pub fn vp_advance<I: Iterator>(_i: &mut I, _n: usize) { loop {} }
pub fn vp_skip<I: Iterator>(_i: I) -> Skip<I> { loop {} }
pub fn vp_chain<A: Iterator, B: Iterator>(_v: Vec<A::Item>) -> std::iter::Chain<A, B> { loop {} }
pub fn vp_io_full() { loop {} }

pub fn read_exact<S: Read + ?Sized>(s: &mut S, buf: &mut [u8]) -> io::Result<()> {
    match s.read(buf) {
        Ok(_) => Ok(()),
        Err(e) => Err(e),
    }
}
pub fn write_all<S: Write + ?Sized>(s: &mut S, buf: &[u8]) -> io::Result<()> {
    match s.write(buf) {
        Ok(_) => Ok(()),
        Err(e) => Err(e),
    }
}
pub fn stream_position<S: Seek + ?Sized>(s: &mut S) -> io::Result<u64> { s.seek(SeekFrom::Current(0)) }
pub fn rewind<S: Seek + ?Sized>(s: &mut S) -> io::Result<()> {
    match s.seek(SeekFrom::Start(0)) {
        Ok(_) => Ok(()),
        Err(e) => Err(e),
    }
}
pub fn write_fmt<S: Write + ?Sized>(s: &mut S, a: std::fmt::Arguments<'_>) -> io::Result<()> {
    s.write_all(vp_format(a).as_bytes())
}

macro_rules! rw {
    ($($r:ident $w:ident $t:ty, $n:literal;)*) => {$(
        pub fn $r<S: Read + ?Sized, T: ByteOrder>(s: &mut S) -> io::Result<$t> {
            let mut b = [0u8; $n];
            match s.read_exact(&mut b) {
                Ok(()) => Ok(vp_from_bytes::<T, $t, $n>(b)),
                Err(e) => Err(e),
            }
        }
        pub fn $w<S: Write + ?Sized, T: ByteOrder>(s: &mut S, x: $t) -> io::Result<()> {
            s.write_all(&vp_to_bytes::<T, $t, $n>(x))
        }
    )*};
}
rw! {
    read_u16 write_u16 u16, 2; read_i16 write_i16 i16, 2; read_u32 write_u32 u32, 4; read_i32 write_i32 i32, 4;
    read_u64 write_u64 u64, 8; read_i64 write_i64 i64, 8; read_f32 write_f32 f32, 4; read_f64 write_f64 f64, 8;
    read_u128 write_u128 u128, 16; read_i128 write_i128 i128, 16;
}
macro_rules! rw1 {
    ($($r:ident $w:ident $t:ty;)*) => {$(
        pub fn $r<S: Read + ?Sized>(s: &mut S) -> io::Result<$t> {
            let mut b = [0u8; 1];
            match s.read_exact(&mut b) {
                Ok(()) => Ok(vp_from_bytes::<byteorder::LE, $t, 1>(b)),
                Err(e) => Err(e),
            }
        }
        pub fn $w<S: Write + ?Sized>(s: &mut S, x: $t) -> io::Result<()> {
            s.write_all(&vp_to_bytes::<byteorder::LE, $t, 1>(x))
        }
    )*};
}
rw1! { read_u8 write_u8 u8; read_i8 write_i8 i8; }

pub fn skip<S: Iterator>(mut s: S, n: usize) -> Skip<S> {
    vp_advance(&mut s, n);
    vp_skip(s)
}
pub fn chain<A: Iterator, B: IntoIterator<Item = A::Item>>(mut a: A, b: B) -> std::iter::Chain<A, B::IntoIter> {
    let mut v = Vec::new();
    while let Some(x) = a.next() {
        v.push(x);
    }
    let mut b = b.into_iter();
    while let Some(x) = b.next() {
        v.push(x);
    }
    vp_chain(v)
}
pub fn any<S: Iterator + ?Sized, F: FnMut(S::Item) -> bool>(s: &mut S, mut f: F) -> bool {
    while let Some(x) = s.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn all<S: Iterator + ?Sized, F: FnMut(S::Item) -> bool>(s: &mut S, mut f: F) -> bool {
    while let Some(x) = s.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn find<S: Iterator + ?Sized, F: FnMut(&S::Item) -> bool>(s: &mut S, mut f: F) -> Option<S::Item> {
    while let Some(x) = s.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn find_map<S: Iterator + ?Sized, B, F: FnMut(S::Item) -> Option<B>>(s: &mut S, mut f: F) -> Option<B> {
    while let Some(x) = s.next() {
        if let Some(y) = f(x) {
            return Some(y);
        }
    }
    None
}
pub fn position<S: Iterator + ?Sized, F: FnMut(S::Item) -> bool>(s: &mut S, mut f: F) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = s.next() {
        if f(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn fold<S: Iterator, B, F: FnMut(B, S::Item) -> B>(mut s: S, init: B, mut f: F) -> B {
    let mut b = init;
    while let Some(x) = s.next() {
        b = f(b, x);
    }
    b
}
pub fn for_each<S: Iterator, F: FnMut(S::Item)>(mut s: S, mut f: F) {
    while let Some(x) = s.next() {
        f(x);
    }
}
pub fn try_for_each<S: Iterator + ?Sized, F: FnMut(S::Item) -> R, R: std::ops::Try<Output = ()>>(s: &mut S, mut f: F) -> R {
    while let Some(x) = s.next() {
        f(x)?;
    }
    R::from_output(())
}
pub fn try_fold<S: Iterator + ?Sized, B, F: FnMut(B, S::Item) -> R, R: std::ops::Try<Output = B>>(s: &mut S, init: B, mut f: F) -> R {
    let mut b = init;
    while let Some(x) = s.next() {
        b = f(b, x)?;
    }
    R::from_output(b)
}
pub fn count<S: Iterator>(mut s: S) -> usize {
    let mut n = 0;
    while let Some(_) = s.next() {
        n += 1;
    }
    n
}
pub fn last<S: Iterator>(mut s: S) -> Option<S::Item> {
    let mut r = None;
    while let Some(x) = s.next() {
        r = Some(x);
    }
    r
}
pub fn nth<S: Iterator + ?Sized>(s: &mut S, n: usize) -> Option<S::Item> {
    let mut i = 0;
    while i < n {
        match s.next() {
            Some(_) => {}
            None => return None,
        }
        i += 1;
    }
    s.next()
}
macro_rules! sums {
    ($($n:ident $t:ty;)*) => {$(
        pub fn $n<I: Iterator<Item = $t>>(mut s: I) -> $t {
            let mut n = 0;
            while let Some(x) = s.next() {
                n += x;
            }
            n
        }
    )*};
}
sums! { sum_u8 u8; sum_u16 u16; sum_u32 u32; sum_u64 u64; sum_usize usize; sum_i32 i32; sum_i16 i16; sum_i64 i64; }
pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    let mut s = it.into_iter();
    while let Some(x) = s.next() {
        v.push(x);
    }
    v
}
pub fn vec_extend<T, A, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    let mut s = it.into_iter();
    while let Some(x) = s.next() {
        v.push(x);
    }
}
pub fn result_from_iter<A, E, V: FromIterator<A>, I: IntoIterator<Item = Result<A, E>>>(it: I) -> Result<V, E> {
    let mut v = Vec::new();
    let mut s = it.into_iter();
    while let Some(x) = s.next() {
        match x {
            Ok(y) => v.push(y),
            Err(e) => return Err(e),
        }
    }
    Ok(V::from_iter(v))
}
pub fn option_from_iter<A, V: FromIterator<A>, I: IntoIterator<Item = Option<A>>>(it: I) -> Option<V> {
    let mut v = Vec::new();
    let mut s = it.into_iter();
    while let Some(x) = s.next() {
        match x {
            Some(y) => v.push(y),
            None => return None,
        }
    }
    Some(V::from_iter(v))
}
pub fn box_slice_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Box<[T]> {
    vec_from_iter::<T, I>(it).into_boxed_slice()
}

// itertools
pub fn it_format<S: Iterator>(mut s: S, sep: &str) -> String
where
    S::Item: std::fmt::Display,
{
    let mut r = String::new();
    if let Some(x) = s.next() {
        r.push_str(&x.to_string());
        while let Some(x) = s.next() {
            r.push_str(sep);
            r.push_str(&x.to_string());
        }
    }
    r
}
pub fn it_join<S: Iterator>(s: &mut S, sep: &str) -> String
where
    S::Item: std::fmt::Display,
{
    let mut r = String::new();
    if let Some(x) = s.next() {
        r.push_str(&x.to_string());
        while let Some(x) = s.next() {
            r.push_str(sep);
            r.push_str(&x.to_string());
        }
    }
    r
}
pub fn it_sorted_by_key<S: Iterator, K: Ord, F: FnMut(&S::Item) -> K>(s: S, f: F) -> std::vec::IntoIter<S::Item> {
    let mut v = Vec::new();
    for x in s {
        v.push(x);
    }
    v.sort_by_key(f);
    v.into_iter()
}
pub fn vec_retain<T, A, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::take(v);
    let mut new = Vec::new();
    for x in old {
        if f(&x) {
            new.push(x);
        }
    }
    *v = new;
}
