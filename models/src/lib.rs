//! Models of the standard library's combinators and iterator adapters, as ordinary Rust.
//! They are never run: the driver extracts their MIR and the abstract interpreter inlines
//! it wherever the analysed code calls the function each one models (table in
//! analysis/models.py).  `prim` functions are interpreted by the engine itself.
#![allow(unused, clippy::all)]
use std::cmp::Ordering;
use std::convert::Infallible;
use std::ops::ControlFlow;

pub mod prim {
    pub fn len<S: ?Sized>(_s: &S) -> usize { unimplemented!() }
    pub fn elem<S, T>(_s: &S, _i: usize) -> T { unimplemented!() }
    pub fn elem_mut<S, T>(_s: &mut S, _i: usize) -> &mut T { unimplemented!() }
    pub fn append<T, R>(_s: &mut T, _r: R) { unimplemented!() }
    pub fn equal<A, B>(_a: &A, _b: &B) -> bool { unimplemented!() }
    pub fn map_insert<M, K, V>(_m: &mut M, _k: K, _v: V) { unimplemented!() }
    pub fn panics<T>(_m: &str) -> T { unimplemented!() }
    pub fn opaque_max<T>(_a: T, _b: T) -> T { unimplemented!() }
    pub fn default<T>() -> T { unimplemented!() }
    pub fn add<T>(_a: T, _b: T) -> T { unimplemented!() }
}

// ---- Option ---------------------------------------------------------------------
pub fn option_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => Some(f(x)), None => None } }
pub fn option_inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => { f(&x); Some(x) } None => None } }
pub fn option_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(x) => f(x), None => d } }
pub fn option_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(x) => f(x), None => d() } }
pub fn option_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => f(x), None => None } }
pub fn option_and<T, U>(o: Option<T>, p: Option<U>) -> Option<U> { match o { Some(_) => p, None => None } }
pub fn option_or<T>(o: Option<T>, p: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => p } }
pub fn option_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => Some(x), None => f() } }
pub fn option_xor<T>(o: Option<T>, p: Option<T>) -> Option<T> { match (o, p) { (Some(x), None) => Some(x), (None, Some(x)) => Some(x), _ => None } }
pub fn option_unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn option_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T { match o { Some(x) => x, None => f() } }
pub fn option_unwrap_or_default<T>(o: Option<T>) -> T { match o { Some(x) => x, None => prim::default() } }
pub fn option_unwrap<T>(o: Option<T>) -> T { match o { Some(x) => x, None => prim::panics("unwrap on None") } }
pub fn option_expect<T>(o: Option<T>, _m: &str) -> T { match o { Some(x) => x, None => prim::panics("expect on None") } }
pub fn option_is_some<T>(o: &Option<T>) -> bool { match o { Some(_) => true, None => false } }
pub fn option_is_none<T>(o: &Option<T>) -> bool { match o { Some(_) => false, None => true } }
pub fn option_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => false } }
pub fn option_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => true } }
pub fn option_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub fn option_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(f()) } }
pub fn option_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None } }
pub fn option_flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
pub fn option_zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> { match (o, p) { (Some(a), Some(b)) => Some((a, b)), _ => None } }
pub fn option_transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> { match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) } }
pub fn option_take<T>(o: &mut Option<T>) -> Option<T> { std::mem::replace(o, None) }
pub fn option_replace<T>(o: &mut Option<T>, x: T) -> Option<T> { std::mem::replace(o, Some(x)) }
pub fn option_branch<T>(o: Option<T>) -> ControlFlow<Option<Infallible>, T> { match o { Some(x) => ControlFlow::Continue(x), None => ControlFlow::Break(None) } }
pub fn option_from_residual<T>(_o: Option<Infallible>) -> Option<T> { None }
pub fn option_then_cmp(o: Option<Ordering>) -> Option<Ordering> { o }

// ---- Result ---------------------------------------------------------------------
pub fn result_map<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, f: F) -> Result<U, E> { match r { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
pub fn result_map_err<T, E, U, F: FnOnce(E) -> U>(r: Result<T, E>, f: F) -> Result<T, U> { match r { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub fn result_map_or<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, d: U, f: F) -> U { match r { Ok(x) => f(x), Err(_) => d } }
pub fn result_map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(r: Result<T, E>, d: D, f: F) -> U { match r { Ok(x) => f(x), Err(e) => d(e) } }
pub fn result_and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(r: Result<T, E>, f: F) -> Result<U, E> { match r { Ok(x) => f(x), Err(e) => Err(e) } }
pub fn result_and<T, E, U>(r: Result<T, E>, s: Result<U, E>) -> Result<U, E> { match r { Ok(_) => s, Err(e) => Err(e) } }
pub fn result_or<T, E, F>(r: Result<T, E>, s: Result<T, F>) -> Result<T, F> { match r { Ok(x) => Ok(x), Err(_) => s } }
pub fn result_or_else<T, E, U, F: FnOnce(E) -> Result<T, U>>(r: Result<T, E>, f: F) -> Result<T, U> { match r { Ok(x) => Ok(x), Err(e) => f(e) } }
pub fn result_ok<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(x) => Some(x), Err(_) => None } }
pub fn result_err<T, E>(r: Result<T, E>) -> Option<E> { match r { Ok(_) => None, Err(e) => Some(e) } }
pub fn result_is_ok<T, E>(r: &Result<T, E>) -> bool { match r { Ok(_) => true, Err(_) => false } }
pub fn result_is_err<T, E>(r: &Result<T, E>) -> bool { match r { Ok(_) => false, Err(_) => true } }
pub fn result_is_ok_and<T, E, F: FnOnce(T) -> bool>(r: Result<T, E>, f: F) -> bool { match r { Ok(x) => f(x), Err(_) => false } }
pub fn result_is_err_and<T, E, F: FnOnce(E) -> bool>(r: Result<T, E>, f: F) -> bool { match r { Ok(_) => false, Err(e) => f(e) } }
pub fn result_unwrap<T, E>(r: Result<T, E>) -> T { match r { Ok(x) => x, Err(_) => prim::panics("unwrap on Err") } }
pub fn result_expect<T, E>(r: Result<T, E>, _m: &str) -> T { match r { Ok(x) => x, Err(_) => prim::panics("expect on Err") } }
pub fn result_unwrap_err<T, E>(r: Result<T, E>) -> E { match r { Ok(_) => prim::panics("unwrap_err on Ok"), Err(e) => e } }
pub fn result_unwrap_or<T, E>(r: Result<T, E>, d: T) -> T { match r { Ok(x) => x, Err(_) => d } }
pub fn result_unwrap_or_else<T, E, F: FnOnce(E) -> T>(r: Result<T, E>, f: F) -> T { match r { Ok(x) => x, Err(e) => f(e) } }
pub fn result_unwrap_or_default<T, E>(r: Result<T, E>) -> T { match r { Ok(x) => x, Err(_) => prim::default() } }
pub fn result_transpose<T, E>(r: Result<Option<T>, E>) -> Option<Result<T, E>> { match r { Ok(Some(x)) => Some(Ok(x)), Ok(None) => None, Err(e) => Some(Err(e)) } }
pub fn result_branch<T, E>(r: Result<T, E>) -> ControlFlow<Result<Infallible, E>, T> { match r { Ok(x) => ControlFlow::Continue(x), Err(e) => ControlFlow::Break(Err(e)) } }

// ---- bool, Ordering -------------------------------------------------------------
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool_then_some<T>(b: bool, x: T) -> Option<T> { if b { Some(x) } else { None } }
pub fn ordering_then(a: Ordering, b: Ordering) -> Ordering { match a { Ordering::Equal => b, _ => a } }
pub fn ordering_then_with<F: FnOnce() -> Ordering>(a: Ordering, f: F) -> Ordering { match a { Ordering::Equal => f(), _ => a } }
pub fn ordering_is_lt(a: Ordering) -> bool { match a { Ordering::Less => true, _ => false } }
pub fn ordering_is_le(a: Ordering) -> bool { match a { Ordering::Greater => false, _ => true } }
pub fn ordering_is_gt(a: Ordering) -> bool { match a { Ordering::Greater => true, _ => false } }
pub fn ordering_is_ge(a: Ordering) -> bool { match a { Ordering::Less => false, _ => true } }
pub fn ordering_is_eq(a: Ordering) -> bool { match a { Ordering::Equal => true, _ => false } }
pub fn ordering_is_ne(a: Ordering) -> bool { match a { Ordering::Equal => false, _ => true } }

// ---- slices ---------------------------------------------------------------------
pub fn slice_first<S, T>(s: &S) -> Option<T> { if prim::len(s) == 0 { None } else { Some(prim::elem(s, 0)) } }
pub fn slice_last<S, T>(s: &S) -> Option<T> { let n = prim::len(s); if n == 0 { None } else { Some(prim::elem(s, n - 1)) } }
pub fn slice_get<S, T>(s: &S, i: usize) -> Option<T> { if i < prim::len(s) { Some(prim::elem(s, i)) } else { None } }
pub fn slice_first_mut<S, T>(s: &mut S) -> Option<&mut T> { if prim::len(s) == 0 { None } else { Some(prim::elem_mut(s, 0)) } }
pub fn slice_last_mut<S, T>(s: &mut S) -> Option<&mut T> { let n = prim::len(s); if n == 0 { None } else { Some(prim::elem_mut(s, n - 1)) } }
pub fn slice_get_mut<S, T>(s: &mut S, i: usize) -> Option<&mut T> { if i < prim::len(s) { Some(prim::elem_mut(s, i)) } else { None } }

// ---- iterators ------------------------------------------------------------------
pub trait It { type Item; fn next(&mut self) -> Option<Self::Item>; fn next_back(&mut self) -> Option<Self::Item> { unimplemented!() } }

pub struct SliceIter<S> { pub s: S, pub pos: usize, pub end: usize }
impl<S> It for SliceIter<S> { type Item = usize;
    fn next(&mut self) -> Option<usize> { if self.pos < self.end { let x = prim::elem(&self.s, self.pos); self.pos += 1; Some(x) } else { None } }
    fn next_back(&mut self) -> Option<usize> { if self.pos < self.end { self.end -= 1; Some(prim::elem(&self.s, self.end)) } else { None } }
}
pub struct SliceIterMut<'a, S> { pub s: &'a mut S, pub pos: usize, pub end: usize }
impl<'a, S: 'static> It for SliceIterMut<'a, S> { type Item = &'static mut S;
    fn next(&mut self) -> Option<&'static mut S> { if self.pos < self.end { let i = self.pos; self.pos += 1; let p: *mut S = prim::elem_mut(self.s, i); Some(unsafe { &mut *p }) } else { None } }
    fn next_back(&mut self) -> Option<&'static mut S> { if self.pos < self.end { self.end -= 1; let p: *mut S = prim::elem_mut(self.s, self.end); Some(unsafe { &mut *p }) } else { None } }
}
pub fn range_next(r: &mut std::ops::Range<usize>) -> Option<usize> { if r.start < r.end { let x = r.start; r.start += 1; Some(x) } else { None } }
pub fn range_next_back(r: &mut std::ops::Range<usize>) -> Option<usize> { if r.start < r.end { r.end -= 1; Some(r.end) } else { None } }
pub fn range_from_next(r: &mut std::ops::RangeFrom<usize>) -> Option<usize> { let x = r.start; r.start += 1; Some(x) }
pub struct RangeIncl { pub start: usize, pub end: usize, pub done: bool }
impl It for RangeIncl { type Item = usize;
    fn next(&mut self) -> Option<usize> { if self.done { return None; } if self.start < self.end { let x = self.start; self.start += 1; Some(x) } else if self.start == self.end { self.done = true; Some(self.start) } else { None } }
}
pub struct OptIter<T> { pub o: Option<T> }
impl<T> It for OptIter<T> { type Item = T; fn next(&mut self) -> Option<T> { std::mem::replace(&mut self.o, None) } fn next_back(&mut self) -> Option<T> { std::mem::replace(&mut self.o, None) } }
pub struct Repeat<T> { pub x: T }
impl<T: Clone> It for Repeat<T> { type Item = T; fn next(&mut self) -> Option<T> { Some(self.x.clone()) } }
pub struct FromFn<F> { pub f: F }
impl<T, F: FnMut() -> Option<T>> It for FromFn<F> { type Item = T; fn next(&mut self) -> Option<T> { (self.f)() } }
pub struct Map<I, F> { pub i: I, pub f: F }
impl<I: It, U, F: FnMut(I::Item) -> U> It for Map<I, F> { type Item = U;
    fn next(&mut self) -> Option<U> { match self.i.next() { Some(x) => Some((self.f)(x)), None => None } }
    fn next_back(&mut self) -> Option<U> { match self.i.next_back() { Some(x) => Some((self.f)(x)), None => None } }
}
pub struct Filter<I, F> { pub i: I, pub f: F }
impl<I: It, F: FnMut(&I::Item) -> bool> It for Filter<I, F> { type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { loop { match self.i.next() { Some(x) => if (self.f)(&x) { return Some(x); }, None => return None } } }
    fn next_back(&mut self) -> Option<I::Item> { loop { match self.i.next_back() { Some(x) => if (self.f)(&x) { return Some(x); }, None => return None } } }
}
pub struct FilterMap<I, F> { pub i: I, pub f: F }
impl<I: It, U, F: FnMut(I::Item) -> Option<U>> It for FilterMap<I, F> { type Item = U;
    fn next(&mut self) -> Option<U> { loop { match self.i.next() { Some(x) => if let Some(y) = (self.f)(x) { return Some(y); }, None => return None } } }
}
pub struct Inspect<I, F> { pub i: I, pub f: F }
impl<I: It, F: FnMut(&I::Item)> It for Inspect<I, F> { type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { match self.i.next() { Some(x) => { (self.f)(&x); Some(x) } None => None } }
}
pub struct Enumerate<I> { pub i: I, pub n: usize }
impl<I: It> It for Enumerate<I> { type Item = (usize, I::Item);
    fn next(&mut self) -> Option<(usize, I::Item)> { match self.i.next() { Some(x) => { let n = self.n; self.n += 1; Some((n, x)) } None => None } }
}
pub struct Rev<I> { pub i: I }
impl<I: It> It for Rev<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { self.i.next_back() } fn next_back(&mut self) -> Option<I::Item> { self.i.next() } }
pub struct Zip<A, B> { pub a: A, pub b: B }
impl<A: It, B: It> It for Zip<A, B> { type Item = (A::Item, B::Item);
    fn next(&mut self) -> Option<(A::Item, B::Item)> { match self.a.next() { Some(x) => match self.b.next() { Some(y) => Some((x, y)), None => None }, None => None } }
}
pub struct Chain<A, B> { pub a: A, pub b: B, pub first: bool }
impl<A: It, B: It<Item = A::Item>> It for Chain<A, B> { type Item = A::Item;
    fn next(&mut self) -> Option<A::Item> { if self.first { match self.a.next() { Some(x) => return Some(x), None => self.first = false } } self.b.next() }
}
pub struct Skip<I> { pub i: I, pub n: usize }
impl<I: It> It for Skip<I> { type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { while self.n > 0 { self.n -= 1; match self.i.next() { Some(_) => {}, None => return None } } self.i.next() }
}
pub struct Take<I> { pub i: I, pub n: usize }
impl<I: It> It for Take<I> { type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { if self.n == 0 { None } else { self.n -= 1; self.i.next() } }
}
pub struct TakeWhile<I, F> { pub i: I, pub f: F, pub done: bool }
impl<I: It, F: FnMut(&I::Item) -> bool> It for TakeWhile<I, F> { type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { if self.done { return None; } match self.i.next() { Some(x) => if (self.f)(&x) { Some(x) } else { self.done = true; None }, None => None } }
}
pub struct SkipWhile<I, F> { pub i: I, pub f: F, pub done: bool }
impl<I: It, F: FnMut(&I::Item) -> bool> It for SkipWhile<I, F> { type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { loop { match self.i.next() { Some(x) => if self.done || !(self.f)(&x) { self.done = true; return Some(x); }, None => return None } } }
}
pub struct MapWhile<I, F> { pub i: I, pub f: F }
impl<I: It, U, F: FnMut(I::Item) -> Option<U>> It for MapWhile<I, F> { type Item = U;
    fn next(&mut self) -> Option<U> { match self.i.next() { Some(x) => (self.f)(x), None => None } } fn next_back(&mut self) -> Option<U> { loop {} } }
pub struct StepBy<I> { pub i: I, pub n: usize, pub first: bool }
impl<I: It> It for StepBy<I> { type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { if self.first { self.first = false; return self.i.next(); } let mut k = self.n; while k > 1 { k -= 1; match self.i.next() { Some(_) => {}, None => return None } } self.i.next() } fn next_back(&mut self) -> Option<I::Item> { loop {} } }
pub struct Peekable<I, T> { pub i: I, pub p: Option<Option<T>> }
impl<T, I: It<Item = T>> It for Peekable<I, T> { type Item = T;
    fn next(&mut self) -> Option<T> { match std::mem::replace(&mut self.p, None) { Some(x) => x, None => self.i.next() } }
}
pub fn peekable_peek<T: Clone, I: It<Item = T>>(p: &mut Peekable<I, T>) -> Option<T> {
    if let None = p.p { let x = p.i.next(); p.p = Some(x); }
    match &p.p { Some(x) => x.clone(), None => None }
}
pub fn peekable_next_if<T: Clone, I: It<Item = T>, F: FnOnce(&T) -> bool>(p: &mut Peekable<I, T>, f: F) -> Option<T> {
    match p.next() { Some(x) => if f(&x) { Some(x) } else { p.p = Some(Some(x)); None }, None => { p.p = Some(None); None } }
}
pub struct FlatMap<I, F, J> { pub i: I, pub f: F, pub cur: Option<J> }
impl<I: It, J: It, F: FnMut(I::Item) -> J> It for FlatMap<I, F, J> { type Item = J::Item;
    fn next(&mut self) -> Option<J::Item> { loop {
        if let Some(c) = &mut self.cur { match c.next() { Some(x) => return Some(x), None => self.cur = None } }
        match self.i.next() { Some(x) => self.cur = Some(into_it((self.f)(x))), None => return None }
    } }
}
pub fn into_it<I>(i: I) -> I { i } // engine: IntoIterator::into_iter
pub struct Flatten<I, J> { pub i: I, pub cur: Option<J> }
impl<I: It<Item = J>, J: It> It for Flatten<I, J> { type Item = J::Item;
    fn next(&mut self) -> Option<J::Item> { loop {
        if let Some(c) = &mut self.cur { match c.next() { Some(x) => return Some(x), None => self.cur = None } }
        match self.i.next() { Some(x) => self.cur = Some(into_it(x)), None => return None }
    } }
}
pub fn it_next<I: It>(i: &mut I) -> Option<I::Item> { i.next() }
pub fn it_map<I, F>(i: I, f: F) -> Map<I, F> { Map { i, f } }
pub fn it_filter<I, F>(i: I, f: F) -> Filter<I, F> { Filter { i, f } }
pub fn it_filter_map<I, F>(i: I, f: F) -> FilterMap<I, F> { FilterMap { i, f } }
pub fn it_inspect<I, F>(i: I, f: F) -> Inspect<I, F> { Inspect { i, f } }
pub fn it_enumerate<I>(i: I) -> Enumerate<I> { Enumerate { i, n: 0 } }
pub fn it_rev<I>(i: I) -> Rev<I> { Rev { i } }
pub fn it_zip<A, B>(a: A, b: B) -> Zip<A, B> { Zip { a: into_it(a), b: into_it(b) } }
pub fn it_chain<A, B>(a: A, b: B) -> Chain<A, B> { Chain { a, b: into_it(b), first: true } }
pub fn it_skip<I>(i: I, n: usize) -> Skip<I> { Skip { i, n } }
pub fn it_take<I>(i: I, n: usize) -> Take<I> { Take { i, n } }
pub fn it_take_while<I, F>(i: I, f: F) -> TakeWhile<I, F> { TakeWhile { i, f, done: false } }
pub fn it_skip_while<I, F>(i: I, f: F) -> SkipWhile<I, F> { SkipWhile { i, f, done: false } }
pub fn it_map_while<I, F>(i: I, f: F) -> MapWhile<I, F> { MapWhile { i, f } }
pub fn it_step_by<I>(i: I, n: usize) -> StepBy<I> { StepBy { i, n, first: true } }
pub fn it_rfind<I: It, F: FnMut(&I::Item) -> bool>(i: &mut I, mut f: F) -> Option<I::Item> { while let Some(x) = i.next_back() { if f(&x) { return Some(x); } } None }
pub fn it_rev_fold<I: It, A, F: FnMut(A, I::Item) -> A>(mut i: I, a: A, mut f: F) -> A { let mut a = a; while let Some(x) = i.next_back() { a = f(a, x); } a }
pub fn it_min<I: It>(mut i: I) -> Option<I::Item> { let mut m = match i.next() { Some(x) => x, None => return None }; while let Some(x) = i.next() { m = prim::opaque_max(m, x); } Some(m) }
pub fn it_reduce<I: It, F: FnMut(I::Item, I::Item) -> I::Item>(mut i: I, mut f: F) -> Option<I::Item> { let mut m = match i.next() { Some(x) => x, None => return None }; while let Some(x) = i.next() { m = f(m, x); } Some(m) }
pub fn it_peekable<I, T>(i: I) -> Peekable<I, T> { Peekable { i, p: None } }
pub fn it_flat_map<I, F, J>(i: I, f: F) -> FlatMap<I, F, J> { FlatMap { i, f, cur: None } }
pub fn it_flatten<I, J>(i: I) -> Flatten<I, J> { Flatten { i, cur: None } }
pub fn it_once<T>(x: T) -> OptIter<T> { OptIter { o: Some(x) } }
pub fn it_empty<T>() -> OptIter<T> { OptIter { o: None } }
pub fn it_repeat<T>(x: T) -> Repeat<T> { Repeat { x } }
pub fn it_from_fn<F>(f: F) -> FromFn<F> { FromFn { f } }
pub fn it_nth<I: It>(i: &mut I, n: usize) -> Option<I::Item> { let mut k = n; while k > 0 { k -= 1; match i.next() { Some(_) => {}, None => return None } } i.next() }
pub fn it_last<I: It>(mut i: I) -> Option<I::Item> { let mut l = None; while let Some(x) = i.next() { l = Some(x); } l }
pub fn it_count<I: It>(mut i: I) -> usize { let mut n = 0; while let Some(_) = i.next() { n += 1; } n }
pub fn it_fold<I: It, A, F: FnMut(A, I::Item) -> A>(mut i: I, a: A, mut f: F) -> A { let mut a = a; while let Some(x) = i.next() { a = f(a, x); } a }
pub fn it_try_fold<I: It, A, E, F: FnMut(A, I::Item) -> Result<A, E>>(i: &mut I, a: A, mut f: F) -> Result<A, E> { let mut a = a; while let Some(x) = i.next() { match f(a, x) { Ok(y) => a = y, Err(e) => return Err(e) } } Ok(a) }
pub fn it_try_for_each<I: It, E, F: FnMut(I::Item) -> Result<(), E>>(i: &mut I, mut f: F) -> Result<(), E> { while let Some(x) = i.next() { match f(x) { Ok(_) => {}, Err(e) => return Err(e) } } Ok(()) }
pub fn it_for_each<I: It, F: FnMut(I::Item)>(mut i: I, mut f: F) { while let Some(x) = i.next() { f(x); } }
pub fn it_any<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool { while let Some(x) = i.next() { if f(x) { return true; } } false }
pub fn it_all<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool { while let Some(x) = i.next() { if !f(x) { return false; } } true }
pub fn it_find<I: It, F: FnMut(&I::Item) -> bool>(i: &mut I, mut f: F) -> Option<I::Item> { while let Some(x) = i.next() { if f(&x) { return Some(x); } } None }
pub fn it_find_map<I: It, U, F: FnMut(I::Item) -> Option<U>>(i: &mut I, mut f: F) -> Option<U> { while let Some(x) = i.next() { if let Some(y) = f(x) { return Some(y); } } None }
pub fn it_position<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> Option<usize> { let mut n = 0; while let Some(x) = i.next() { if f(x) { return Some(n); } n += 1; } None }
// the same over a list of known items, item by item
pub fn it_any_1<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool { match i.next() { Some(x) => if f(x) { return true; }, None => {} } false }
pub fn it_all_1<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool { match i.next() { Some(x) => if !f(x) { return false; }, None => {} } true }
pub fn it_find_1<I: It, F: FnMut(&I::Item) -> bool>(i: &mut I, mut f: F) -> Option<I::Item> { match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } None }
pub fn it_position_1<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> Option<usize> { match i.next() { Some(x) => if f(x) { return Some(0); }, None => {} } None }
pub fn it_any_2<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool { match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } false }
pub fn it_all_2<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool { match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } true }
pub fn it_find_2<I: It, F: FnMut(&I::Item) -> bool>(i: &mut I, mut f: F) -> Option<I::Item> { match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } None }
pub fn it_position_2<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> Option<usize> { match i.next() { Some(x) => if f(x) { return Some(0); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(1); }, None => {} } None }
pub fn it_any_3<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool { match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } false }
pub fn it_all_3<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool { match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } true }
pub fn it_find_3<I: It, F: FnMut(&I::Item) -> bool>(i: &mut I, mut f: F) -> Option<I::Item> { match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } None }
pub fn it_position_3<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> Option<usize> { match i.next() { Some(x) => if f(x) { return Some(0); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(1); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(2); }, None => {} } None }
pub fn it_any_4<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool { match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } false }
pub fn it_all_4<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool { match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } true }
pub fn it_find_4<I: It, F: FnMut(&I::Item) -> bool>(i: &mut I, mut f: F) -> Option<I::Item> { match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } None }
pub fn it_position_4<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> Option<usize> { match i.next() { Some(x) => if f(x) { return Some(0); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(1); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(2); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(3); }, None => {} } None }
pub fn it_any_5<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool { match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } false }
pub fn it_all_5<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool { match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } true }
pub fn it_find_5<I: It, F: FnMut(&I::Item) -> bool>(i: &mut I, mut f: F) -> Option<I::Item> { match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } None }
pub fn it_position_5<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> Option<usize> { match i.next() { Some(x) => if f(x) { return Some(0); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(1); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(2); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(3); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(4); }, None => {} } None }
pub fn it_any_6<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool { match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } false }
pub fn it_all_6<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool { match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } true }
pub fn it_find_6<I: It, F: FnMut(&I::Item) -> bool>(i: &mut I, mut f: F) -> Option<I::Item> { match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } None }
pub fn it_position_6<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> Option<usize> { match i.next() { Some(x) => if f(x) { return Some(0); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(1); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(2); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(3); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(4); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(5); }, None => {} } None }
pub fn it_any_7<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool { match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } false }
pub fn it_all_7<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool { match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } true }
pub fn it_find_7<I: It, F: FnMut(&I::Item) -> bool>(i: &mut I, mut f: F) -> Option<I::Item> { match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } None }
pub fn it_position_7<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> Option<usize> { match i.next() { Some(x) => if f(x) { return Some(0); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(1); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(2); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(3); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(4); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(5); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(6); }, None => {} } None }
pub fn it_any_8<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool { match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } match i.next() { Some(x) => if f(x) { return true; }, None => {} } false }
pub fn it_all_8<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool { match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } match i.next() { Some(x) => if !f(x) { return false; }, None => {} } true }
pub fn it_find_8<I: It, F: FnMut(&I::Item) -> bool>(i: &mut I, mut f: F) -> Option<I::Item> { match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } match i.next() { Some(x) => if f(&x) { return Some(x); }, None => {} } None }
pub fn it_position_8<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> Option<usize> { match i.next() { Some(x) => if f(x) { return Some(0); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(1); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(2); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(3); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(4); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(5); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(6); }, None => {} } match i.next() { Some(x) => if f(x) { return Some(7); }, None => {} } None }
pub fn it_sum<I: It>(mut i: I) -> I::Item { let mut a: I::Item = prim::default(); while let Some(x) = i.next() { a = prim::add(a, x); } a }
pub fn it_max<I: It>(mut i: I) -> Option<I::Item> { let mut m = match i.next() { Some(x) => x, None => return None }; while let Some(x) = i.next() { m = prim::opaque_max(m, x); } Some(m) }
pub fn collect_vec<I: It>(i: I) -> Vec<I::Item> { let mut i = into_it(i); let mut v = Vec::new(); while let Some(x) = i.next() { v.push(x); } v }
pub fn collect_string<I: It>(i: I) -> String { let mut i = into_it(i); let mut v = String::new(); while let Some(x) = i.next() { prim::append(&mut v, x); } v }
pub fn collect_result_vec<T, E, I: It<Item = Result<T, E>>>(i: I) -> Result<Vec<T>, E> { let mut i = into_it(i); let mut v = Vec::new(); while let Some(x) = i.next() { match x { Ok(y) => v.push(y), Err(e) => return Err(e) } } Ok(v) }
pub fn collect_result_string<T, E, I: It<Item = Result<T, E>>>(i: I) -> Result<String, E> { let mut i = into_it(i); let mut v = String::new(); while let Some(x) = i.next() { match x { Ok(y) => prim::append(&mut v, y), Err(e) => return Err(e) } } Ok(v) }
pub fn collect_result_unit<T, E, I: It<Item = Result<T, E>>>(i: I) -> Result<(), E> { let mut i = into_it(i); while let Some(x) = i.next() { match x { Ok(_) => {}, Err(e) => return Err(e) } } Ok(()) }
pub fn collect_option_vec<T, I: It<Item = Option<T>>>(i: I) -> Option<Vec<T>> { let mut i = into_it(i); let mut v = Vec::new(); while let Some(x) = i.next() { match x { Some(y) => v.push(y), None => return None } } Some(v) }
pub fn collect_map<K, V, M: Default, I: It<Item = (K, V)>>(i: I) -> M { let mut i = into_it(i); let mut m: M = prim::default(); while let Some((k, v)) = i.next() { prim::map_insert(&mut m, k, v); } m }
pub fn extend_vec<T, I: It<Item = T>>(v: &mut Vec<T>, i: I) { let mut i = into_it(i); while let Some(x) = i.next() { v.push(x); } }
pub fn extend_string<T, I: It<Item = T>>(v: &mut String, i: I) { let mut i = into_it(i); while let Some(x) = i.next() { prim::append(v, x); } }
pub fn extend_map<K, V, M, I: It<Item = (K, V)>>(m: &mut M, i: I) { let mut i = into_it(i); while let Some((k, v)) = i.next() { prim::map_insert(m, k, v); } }
pub fn vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) where Vec<T>: It<Item = T> { let old = std::mem::replace(v, Vec::new()); let mut i = into_it(old); while let Some(x) = It::next(&mut i) { if f(&x) { v.push(x); } } }
pub fn partition<I: It, F: FnMut(&I::Item) -> bool>(mut i: I, mut f: F) -> (Vec<I::Item>, Vec<I::Item>) { let mut a = Vec::new(); let mut b = Vec::new(); while let Some(x) = i.next() { if f(&x) { a.push(x); } else { b.push(x); } } (a, b) }
pub fn unzip<A, B, I: It<Item = (A, B)>>(mut i: I) -> (Vec<A>, Vec<B>) { let mut a = Vec::new(); let mut b = Vec::new(); while let Some((x, y)) = i.next() { a.push(x); b.push(y); } (a, b) }
pub fn str_contains_fn<I: It<Item = char>, F: FnMut(char) -> bool>(i: I, mut f: F) -> bool { let mut i = into_it(i); while let Some(x) = i.next() { if f(x) { return true; } } false }

pub fn cell_update<T: Copy, F: FnOnce(T) -> T>(c: &std::cell::Cell<T>, f: F) { c.set(f(c.get())) }
