//! A description of the part of bpaf's interface that the options module uses.  Nothing is executed: a parser is the
//! tree of its combinators, and a function given to a combinator is described by its results over symbolic inputs.
//! Texts that are only shown to the user (help, refusal messages) are left out.
#![allow(dead_code, unused)]
use std::marker::PhantomData;

pub fn vp_syms<T>() -> Vec<T> { loop {} }
pub fn vp_run<P, A, T>(_p: P, _a: A) -> Result<T, ParseFailure> { loop {} }

pub trait Parser<T>: Sized {
    fn help(self, _h: &'static str) -> Self { self }
    fn hide(self) -> Self { self }
    fn guard<F: Fn(&T) -> bool>(self, f: F, _m: &'static str) -> Guard<Self, T> {
        let mut accepts = Vec::new();
        for x in vp_syms::<T>() {
            accepts.push(f(&x));
        }
        Guard { p: self, accepts, t: PhantomData }
    }
    fn map<F: Fn(T) -> R, R>(self, f: F) -> Map<Self, R> {
        let mut results = Vec::new();
        for x in vp_syms::<T>() {
            results.push(f(x));
        }
        Map { p: self, results }
    }
    fn parse<F: Fn(T) -> Result<R, E>, R, E>(self, f: F) -> Parse<Self, R> {
        let mut results = Vec::new();
        for x in vp_syms::<T>() {
            results.push(match f(x) {
                Ok(r) => Some(r),
                Err(_) => None,
            });
        }
        Parse { p: self, results }
    }
    fn optional(self) -> Optional<Self, T> { Optional { how: "optional", p: self, t: PhantomData } }
    fn many(self) -> Many<Self, T> { Many { how: "many", p: self, t: PhantomData } }
    fn some(self, _m: &'static str) -> AtLeastOne<Self, T> { AtLeastOne { how: "atleastone", p: self, t: PhantomData } }
    fn catch(self) -> Catch<Self, T> { Catch { how: "catch", p: self, t: PhantomData } }
    fn adjacent(self) -> Adjacent<Self, T> { Adjacent { how: "adjacent", p: self, t: PhantomData } }
    fn anywhere(self) -> Anywhere<Self, T> { Anywhere { how: "anywhere", p: self, t: PhantomData } }
    fn fallback(self, v: T) -> Fallback<Self, T> { Fallback { p: self, v } }
    fn to_options(self) -> OptionParser<T> {
        OptionParser { tree: vp_tree(self), t: PhantomData }
    }
}
pub fn vp_tree<P>(_p: P) -> Tree { loop {} }
pub struct Tree(());

pub struct Named<T> { pub kind: &'static str, pub name: &'static str, pub t: PhantomData<T> }
pub struct Guard<P, T> { pub p: P, pub accepts: Vec<bool>, pub t: PhantomData<T> }
pub struct Map<P, R> { pub p: P, pub results: Vec<R> }
pub struct Parse<P, R> { pub p: P, pub results: Vec<Option<R>> }
pub struct Optional<P, T> { pub how: &'static str, pub p: P, pub t: PhantomData<T> }
pub struct Many<P, T> { pub how: &'static str, pub p: P, pub t: PhantomData<T> }
pub struct AtLeastOne<P, T> { pub how: &'static str, pub p: P, pub t: PhantomData<T> }
pub struct Catch<P, T> { pub how: &'static str, pub p: P, pub t: PhantomData<T> }
pub struct Adjacent<P, T> { pub how: &'static str, pub p: P, pub t: PhantomData<T> }
pub struct Anywhere<P, T> { pub how: &'static str, pub p: P, pub t: PhantomData<T> }
pub struct Fallback<P, T> { pub p: P, pub v: T }
/// the parsers of a product, in the order in which they are run
pub struct Product<C, T> { pub how: &'static str, pub first: C, pub t: PhantomData<T> }
pub struct Cons<P, T, C> { pub field: &'static str, pub p: P, pub rest: C, pub t: PhantomData<T> }
pub struct Nil;

impl<T> Parser<T> for Named<T> {}
impl<P: Parser<T>, T> Parser<T> for Guard<P, T> {}
impl<P, R> Parser<R> for Map<P, R> {}
impl<P, R> Parser<R> for Parse<P, R> {}
impl<P: Parser<T>, T> Parser<Option<T>> for Optional<P, T> {}
impl<P: Parser<T>, T> Parser<Vec<T>> for Many<P, T> {}
impl<P: Parser<T>, T> Parser<Vec<T>> for AtLeastOne<P, T> {}
impl<P: Parser<T>, T> Parser<T> for Catch<P, T> {}
impl<P: Parser<T>, T> Parser<T> for Adjacent<P, T> {}
impl<P: Parser<T>, T> Parser<T> for Anywhere<P, T> {}
impl<P: Parser<T>, T> Parser<T> for Fallback<P, T> {}
impl<C, T> Parser<T> for Product<C, T> {}

pub fn cons<P: Parser<T>, T, C>(field: &'static str, p: P, rest: C) -> Cons<P, T, C> { Cons { field, p, rest, t: PhantomData } }

pub fn any<T>(name: &'static str) -> Named<T> { Named { kind: "any", name, t: PhantomData } }
pub fn positional<T>(name: &'static str) -> Named<T> { Named { kind: "positional", name: "", t: PhantomData } }
pub fn long(name: &'static str) -> Flag { Flag { long: name, short: ' ' } }
pub fn short(name: char) -> Flag { Flag { long: "", short: name } }
pub struct Flag { pub long: &'static str, pub short: char }
impl Flag {
    pub fn help(self, _h: &'static str) -> Self { self }
    pub fn switch(self) -> Switch { Switch { how: "switch", flag: self } }
    pub fn argument<T>(self, _m: &'static str) -> Argument<T> { Argument { how: "argument", flag: self, t: PhantomData } }
}
pub struct Switch { pub how: &'static str, pub flag: Flag }
impl Parser<bool> for Switch {}
pub struct Argument<T> { pub how: &'static str, pub flag: Flag, pub t: PhantomData<T> }
impl<T> Parser<T> for Argument<T> {}
pub struct Pure<T>(pub T, pub &'static str);
impl<T> Parser<T> for Pure<T> {}
pub fn pure<T>(v: T) -> Pure<T> { Pure(v, "pure") }

pub struct OptionParser<T> { pub tree: Tree, pub t: PhantomData<T> }
impl<T> OptionParser<T> {
    pub fn descr(self, _d: &'static str) -> Self { self }
    pub fn version(self, _d: &'static str) -> Self { self }
    pub fn run_inner<'a>(self, a: Args<'a>) -> Result<T, ParseFailure> { vp_run(self.tree, a.0) }
    pub fn run(self) -> T { loop {} }
    pub fn check_invariants(&self, _x: bool) {}
}
pub struct Args<'a>(pub &'a [&'a str]);
impl<'a> From<&'a [&'a str]> for Args<'a> {
    fn from(v: &'a [&'a str]) -> Self { Args(v) }
}
impl<'a, const N: usize> From<&'a [&'a str; N]> for Args<'a> {
    fn from(v: &'a [&'a str; N]) -> Self { Args(v) }
}
pub struct ParseFailure(());

#[macro_export]
macro_rules! construct {
    (@ [$($done:tt)*] ) => { $crate::construct!(@build $($done)*) };
    (@ [$($done:tt)*] $n:ident () , $($rest:tt)*) => { $crate::construct!(@ [$($done)* ($n, $n())] $($rest)*) };
    (@ [$($done:tt)*] $n:ident ( $($a:expr),* ) , $($rest:tt)*) => { $crate::construct!(@ [$($done)* ($n, $n($($a),*))] $($rest)*) };
    (@ [$($done:tt)*] $n:ident () ) => { $crate::construct!(@ [$($done)* ($n, $n())]) };
    (@ [$($done:tt)*] $n:ident , $($rest:tt)*) => { $crate::construct!(@ [$($done)* ($n, $n)] $($rest)*) };
    (@ [$($done:tt)*] $n:ident ) => { $crate::construct!(@ [$($done)* ($n, $n)]) };
    (@build) => { $crate::Nil };
    (@build ($n:ident, $p:expr) $($rest:tt)*) => { $crate::cons(stringify!($n), $p, $crate::construct!(@build $($rest)*)) };
    ($t:ident { $($body:tt)* }) => { $crate::product::<_, $t>($crate::construct!(@ [] $($body)*)) };
    ($($body:tt)*) => { $crate::tuple($crate::construct!(@ [] $($body)*)) };
}
pub fn product<C, T>(first: C) -> Product<C, T> { Product { how: "all", first, t: PhantomData } }
pub trait Values { type T; }
impl<A, B, P: Parser<A>, Q: Parser<B>> Values for Cons<P, A, Cons<Q, B, Nil>> { type T = (A, B); }
impl<A, B, C, P: Parser<A>, Q: Parser<B>, R: Parser<C>> Values for Cons<P, A, Cons<Q, B, Cons<R, C, Nil>>> { type T = (A, B, C); }
pub fn tuple<C: Values>(first: C) -> Product<C, C::T> { Product { how: "all", first, t: PhantomData } }
