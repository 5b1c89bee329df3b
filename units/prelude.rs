// Specification-level library: the mathematical meaning of the std / bstr
// operations that extracted code uses.  Definitions here are either plain
// definitions (no assumption) or `uninterp` (nothing assumed but purity).
// Lemmas are proved, never admitted.
#![allow(unused_imports, unused_variables, dead_code, unused_parens, unused_braces, deprecated, non_snake_case)]
pub mod xl {
use vstd::prelude::*;
use vstd::seq_lib::*;

verus! {

pub struct XErr { }
pub open spec fn x_err() -> XErr { XErr { } }
pub enum Ctl<S, R> { Next(S), Brk(S), Ret(R) }

// ---------------------------------------------------------------- sequences

pub open spec fn seq_fold<T, S>(s: Seq<T>, init: S, f: spec_fn(S, T) -> S) -> S
    decreases s.len()
{
    if s.len() == 0 { init } else { f(seq_fold(s.drop_last(), init, f), s.last()) }
}

pub open spec fn seq_for<T, S, R>(s: Seq<T>, init: S, f: spec_fn(S, T) -> Ctl<S, R>) -> Ctl<S, R>
    decreases s.len()
{
    if s.len() == 0 { Ctl::Next(init) } else {
        match f(init, s[0]) {
            Ctl::Next(st) => seq_for(s.subrange(1, s.len() as int), st, f),
            Ctl::Brk(st) => Ctl::Brk(st),
            Ctl::Ret(r) => Ctl::Ret(r),
        }
    }
}

pub open spec fn seq_flat<T>(s: Seq<Seq<T>>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { seq_flat(s.drop_last()) + s.last() }
}

pub open spec fn seq_somes<T>(s: Seq<Option<T>>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        match s.last() {
            Some(x) => seq_somes(s.drop_last()).push(x),
            None => seq_somes(s.drop_last()),
        }
    }
}

pub open spec fn x_range(lo: int, hi: int) -> Seq<int> {
    Seq::new(if hi > lo { (hi - lo) as nat } else { 0 }, |i: int| lo + i)
}

pub open spec fn x_repeat<T>(x: T, n: int) -> Seq<T> { Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| x) }

pub open spec fn first_index<T>(s: Seq<T>, f: spec_fn(T) -> bool) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else if f(s[0]) { 0 } else { 1 + first_index(s.subrange(1, s.len() as int), f) }
}

pub open spec fn x_filter_f<T>(s: Seq<T>, f: spec_fn(T) -> bool) -> Seq<T> { s.filter(f) }

pub trait XSeq<T>: Sized {
    spec fn x_any(self, f: spec_fn(T) -> bool) -> bool;
    spec fn x_all(self, f: spec_fn(T) -> bool) -> bool;
    spec fn x_filter(self, f: spec_fn(T) -> bool) -> Seq<T>;
    spec fn x_retain(self, f: spec_fn(T) -> bool) -> Seq<T>;
    spec fn x_map<B>(self, f: spec_fn(T) -> B) -> Seq<B>;
    spec fn x_filter_map<B>(self, f: spec_fn(T) -> Option<B>) -> Seq<B>;
    spec fn x_flat_map<B>(self, f: spec_fn(T) -> Seq<B>) -> Seq<B>;
    spec fn x_find(self, f: spec_fn(T) -> bool) -> Option<T>;
    spec fn x_position(self, f: spec_fn(T) -> bool) -> Option<int>;
    spec fn x_fold<S>(self, init: S, f: spec_fn(S, T) -> S) -> S;
    spec fn x_for<S, R>(self, init: S, f: spec_fn(S, T) -> Ctl<S, R>) -> Ctl<S, R>;
    spec fn x_len(self) -> int;
    spec fn x_count(self) -> int;
    spec fn x_is_empty(self) -> bool;
    spec fn x_first(self) -> Option<T>;
    spec fn x_last(self) -> Option<T>;
    spec fn x_get(self, i: int) -> Option<T>;
    spec fn x_contains(self, x: T) -> bool;
    spec fn x_index(self, i: int) -> T;
    spec fn x_slice(self, i: int, j: int) -> Seq<T>;
    spec fn x_update(self, i: int, v: T) -> Seq<T>;
    spec fn x_push(self, x: T) -> Seq<T>;
    spec fn x_push_str(self, x: Seq<T>) -> Seq<T>;
    spec fn x_append(self, x: Seq<T>) -> Seq<T>;
    spec fn x_write_all(self, x: Seq<T>) -> Seq<T>;
    spec fn x_extend(self, x: Seq<T>) -> Seq<T>;
    spec fn x_extend_from_slice(self, x: Seq<T>) -> Seq<T>;
    spec fn x_chain(self, x: Seq<T>) -> Seq<T>;
    spec fn x_clear(self) -> Seq<T>;
    spec fn x_truncate(self, n: int) -> Seq<T>;
    spec fn x_rev(self) -> Seq<T>;
    spec fn x_skip(self, n: int) -> Seq<T>;
    spec fn x_take(self, n: int) -> Seq<T>;
    spec fn x_enumerate(self) -> Seq<(int, T)>;
    spec fn x_zip<B>(self, o: Seq<B>) -> Seq<(T, B)>;
    spec fn x_next(self) -> (Seq<T>, Option<T>);
    spec fn x_starts_with(self, p: Seq<T>) -> bool;
    spec fn x_ends_with(self, p: Seq<T>) -> bool;
    spec fn x_contains_str(self, p: Seq<T>) -> bool;
    spec fn x_collect_set(self) -> Set<T>;
    spec fn x_reduce(self, f: spec_fn(T, T) -> T) -> Option<T>;
}

pub open spec fn sub_at<T>(s: Seq<T>, p: Seq<T>, i: int) -> bool {
    0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p
}

impl<T> XSeq<T> for Seq<T> {
    open spec fn x_any(self, f: spec_fn(T) -> bool) -> bool { exists|i: int| 0 <= i < self.len() && f(#[trigger] self[i]) }
    open spec fn x_all(self, f: spec_fn(T) -> bool) -> bool { forall|i: int| 0 <= i < self.len() ==> f(#[trigger] self[i]) }
    open spec fn x_filter(self, f: spec_fn(T) -> bool) -> Seq<T> { self.filter(f) }
    open spec fn x_retain(self, f: spec_fn(T) -> bool) -> Seq<T> { self.filter(f) }
    open spec fn x_map<B>(self, f: spec_fn(T) -> B) -> Seq<B> { self.map_values(f) }
    open spec fn x_filter_map<B>(self, f: spec_fn(T) -> Option<B>) -> Seq<B> { seq_somes(self.map_values(f)) }
    open spec fn x_flat_map<B>(self, f: spec_fn(T) -> Seq<B>) -> Seq<B> { seq_flat(self.map_values(f)) }
    open spec fn x_find(self, f: spec_fn(T) -> bool) -> Option<T> { if first_index(self, f) < self.len() { Some(self[first_index(self, f)]) } else { None } }
    open spec fn x_position(self, f: spec_fn(T) -> bool) -> Option<int> { if first_index(self, f) < self.len() { Some(first_index(self, f)) } else { None } }
    open spec fn x_fold<S>(self, init: S, f: spec_fn(S, T) -> S) -> S { seq_fold(self, init, f) }
    open spec fn x_for<S, R>(self, init: S, f: spec_fn(S, T) -> Ctl<S, R>) -> Ctl<S, R> { seq_for(self, init, f) }
    open spec fn x_len(self) -> int { self.len() as int }
    open spec fn x_count(self) -> int { self.len() as int }
    open spec fn x_is_empty(self) -> bool { self.len() == 0 }
    open spec fn x_first(self) -> Option<T> { if self.len() == 0 { None } else { Some(self[0]) } }
    open spec fn x_last(self) -> Option<T> { if self.len() == 0 { None } else { Some(self[self.len() - 1]) } }
    open spec fn x_get(self, i: int) -> Option<T> { if 0 <= i < self.len() { Some(self[i]) } else { None } }
    open spec fn x_contains(self, x: T) -> bool { self.contains(x) }
    open spec fn x_index(self, i: int) -> T { self[i] }
    open spec fn x_slice(self, i: int, j: int) -> Seq<T> { self.subrange(i, j) }
    open spec fn x_update(self, i: int, v: T) -> Seq<T> { self.update(i, v) }
    open spec fn x_push(self, x: T) -> Seq<T> { self.push(x) }
    open spec fn x_push_str(self, x: Seq<T>) -> Seq<T> { self + x }
    open spec fn x_append(self, x: Seq<T>) -> Seq<T> { self + x }
    open spec fn x_write_all(self, x: Seq<T>) -> Seq<T> { self + x }
    open spec fn x_extend(self, x: Seq<T>) -> Seq<T> { self + x }
    open spec fn x_extend_from_slice(self, x: Seq<T>) -> Seq<T> { self + x }
    open spec fn x_chain(self, x: Seq<T>) -> Seq<T> { self + x }
    open spec fn x_clear(self) -> Seq<T> { Seq::empty() }
    open spec fn x_truncate(self, n: int) -> Seq<T> { if n < self.len() { self.take(n) } else { self } }
    open spec fn x_rev(self) -> Seq<T> { self.reverse() }
    open spec fn x_skip(self, n: int) -> Seq<T> { if n < self.len() { self.subrange(n, self.len() as int) } else { Seq::empty() } }
    open spec fn x_take(self, n: int) -> Seq<T> { if n < self.len() { self.subrange(0, n) } else { self } }
    open spec fn x_enumerate(self) -> Seq<(int, T)> { Seq::new(self.len(), |i: int| (i, self[i])) }
    open spec fn x_zip<B>(self, o: Seq<B>) -> Seq<(T, B)> { Seq::new(if self.len() < o.len() { self.len() } else { o.len() }, |i: int| (self[i], o[i])) }
    open spec fn x_next(self) -> (Seq<T>, Option<T>) { if self.len() == 0 { (self, None) } else { (self.subrange(1, self.len() as int), Some(self[0])) } }
    open spec fn x_starts_with(self, p: Seq<T>) -> bool { sub_at(self, p, 0) }
    open spec fn x_ends_with(self, p: Seq<T>) -> bool { sub_at(self, p, self.len() - p.len()) }
    open spec fn x_contains_str(self, p: Seq<T>) -> bool { exists|i: int| #[trigger] sub_at(self, p, i) }
    open spec fn x_collect_set(self) -> Set<T> { self.to_set() }
    open spec fn x_reduce(self, f: spec_fn(T, T) -> T) -> Option<T> {
        if self.len() == 0 { None } else { Some(seq_fold(self.subrange(1, self.len() as int), self[0], f)) }
    }
}

// case folding and lossy decoding are uninterpreted: only purity is assumed
pub uninterp spec fn lowercase(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn uppercase(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn lossy(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn trim_ws(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn replace_any(s: Seq<u8>, a: Seq<u8>, b: Seq<u8>) -> Seq<u8>;
pub open spec fn replace_byte(a: u8, b: Seq<u8>) -> spec_fn(u8) -> Seq<u8> { |c: u8| if c == a { b } else { seq![c] } }
/// all occurrences of a one-byte pattern; other patterns are opaque
pub open spec fn replace_all(s: Seq<u8>, a: Seq<u8>, b: Seq<u8>) -> Seq<u8> {
    if a.len() == 1 { seq_flat(s.map_values(replace_byte(a[0], b))) } else { replace_any(s, a, b) }
}
pub uninterp spec fn replacen_any(s: Seq<u8>, a: Seq<u8>, b: Seq<u8>, n: int) -> Seq<u8>;
/// the first `n` occurrences of a one-byte pattern; other patterns are opaque
pub open spec fn replacen_byte(s: Seq<u8>, a: u8, b: Seq<u8>, n: int) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 || n <= 0 { s }
    else if s[0] == a { b + replacen_byte(s.subrange(1, s.len() as int), a, b, n - 1) }
    else { seq![s[0]] + replacen_byte(s.subrange(1, s.len() as int), a, b, n) }
}
pub open spec fn replace_n(s: Seq<u8>, a: Seq<u8>, b: Seq<u8>, n: int) -> Seq<u8> {
    if a.len() == 1 { replacen_byte(s, a[0], b, n) } else { replacen_any(s, a, b, n) }
}

pub trait XBytes: Sized {
    spec fn x_to_lowercase(self) -> Seq<u8>;
    spec fn x_to_uppercase(self) -> Seq<u8>;
    spec fn x_to_str_lossy(self) -> Seq<u8>;
    spec fn x_trim(self) -> Seq<u8>;
    spec fn x_replace(self, a: Seq<u8>, b: Seq<u8>) -> Seq<u8>;
    spec fn x_replacen(self, a: Seq<u8>, b: Seq<u8>, n: int) -> Seq<u8>;
}
impl XBytes for Seq<u8> {
    open spec fn x_to_lowercase(self) -> Seq<u8> { lowercase(self) }
    open spec fn x_to_uppercase(self) -> Seq<u8> { uppercase(self) }
    open spec fn x_to_str_lossy(self) -> Seq<u8> { lossy(self) }
    open spec fn x_trim(self) -> Seq<u8> { trim_ws(self) }
    open spec fn x_replace(self, a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { replace_all(self, a, b) }
    open spec fn x_replacen(self, a: Seq<u8>, b: Seq<u8>, n: int) -> Seq<u8> { replace_n(self, a, b, n) }
}

// ---------------------------------------------------------------- options

pub trait XOpt<T>: Sized {
    spec fn x_is_some(self) -> bool;
    spec fn x_is_none(self) -> bool;
    spec fn x_unwrap(self) -> T;
    spec fn x_expect(self, m: Seq<u8>) -> T;
    spec fn x_unwrap_or(self, d: T) -> T;
    spec fn x_or(self, d: Option<T>) -> Option<T>;
    spec fn x_map<B>(self, f: spec_fn(T) -> B) -> Option<B>;
    spec fn x_and_then<B>(self, f: spec_fn(T) -> Option<B>) -> Option<B>;
    spec fn x_filter(self, f: spec_fn(T) -> bool) -> Option<T>;
    spec fn x_is_some_and(self, f: spec_fn(T) -> bool) -> bool;
    spec fn x_is_none_or(self, f: spec_fn(T) -> bool) -> bool;
    spec fn x_map_or<B>(self, d: B, f: spec_fn(T) -> B) -> B;
    spec fn x_map_or_else<B>(self, d: spec_fn() -> B, f: spec_fn(T) -> B) -> B;
    spec fn x_ok_or(self, e: XErr) -> Result<T, XErr>;
    spec fn x_take(self) -> (Option<T>, Option<T>);
}
impl<T> XOpt<T> for Option<T> {
    open spec fn x_is_some(self) -> bool { self is Some }
    open spec fn x_is_none(self) -> bool { self is None }
    open spec fn x_unwrap(self) -> T { self->0 }
    open spec fn x_expect(self, m: Seq<u8>) -> T { self->0 }
    open spec fn x_unwrap_or(self, d: T) -> T { match self { Some(x) => x, None => d } }
    open spec fn x_or(self, d: Option<T>) -> Option<T> { match self { Some(x) => Some(x), None => d } }
    open spec fn x_map<B>(self, f: spec_fn(T) -> B) -> Option<B> { match self { Some(x) => Some(f(x)), None => None } }
    open spec fn x_and_then<B>(self, f: spec_fn(T) -> Option<B>) -> Option<B> { match self { Some(x) => f(x), None => None } }
    open spec fn x_filter(self, f: spec_fn(T) -> bool) -> Option<T> { match self { Some(x) => if f(x) { Some(x) } else { None }, None => None } }
    open spec fn x_is_some_and(self, f: spec_fn(T) -> bool) -> bool { match self { Some(x) => f(x), None => false } }
    open spec fn x_is_none_or(self, f: spec_fn(T) -> bool) -> bool { match self { Some(x) => f(x), None => true } }
    open spec fn x_map_or<B>(self, d: B, f: spec_fn(T) -> B) -> B { match self { Some(x) => f(x), None => d } }
    open spec fn x_map_or_else<B>(self, d: spec_fn() -> B, f: spec_fn(T) -> B) -> B { match self { Some(x) => f(x), None => d() } }
    open spec fn x_ok_or(self, e: XErr) -> Result<T, XErr> { match self { Some(x) => Ok(x), None => Err(e) } }
    open spec fn x_take(self) -> (Option<T>, Option<T>) { (None, self) }
}

pub trait XRes<T>: Sized {
    spec fn x_is_ok(self) -> bool;
    spec fn x_is_err(self) -> bool;
    spec fn x_unwrap(self) -> T;
    spec fn x_ok(self) -> Option<T>;
    spec fn x_map<B>(self, f: spec_fn(T) -> B) -> Result<B, XErr>;
}
impl<T> XRes<T> for Result<T, XErr> {
    open spec fn x_is_ok(self) -> bool { self is Ok }
    open spec fn x_is_err(self) -> bool { self is Err }
    open spec fn x_unwrap(self) -> T { self->Ok_0 }
    open spec fn x_ok(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
    open spec fn x_map<B>(self, f: spec_fn(T) -> B) -> Result<B, XErr> { match self { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
}

/// `collect::<Result<Vec<_>, _>>()`: all successes, or an error if one failed
pub open spec fn seq_oks<T>(s: Seq<Result<T, XErr>>) -> Result<Seq<T>, XErr>
    decreases s.len()
{
    if s.len() == 0 { Ok(Seq::empty()) } else {
        match s[0] {
            Err(e) => Err(e),
            Ok(x) => match seq_oks(s.subrange(1, s.len() as int)) { Ok(v) => Ok(seq![x] + v), Err(e) => Err(e) },
        }
    }
}
pub trait XSeqRes<T>: Sized { spec fn x_collect_result(self) -> Result<Seq<T>, XErr>; }
impl<T> XSeqRes<T> for Seq<Result<T, XErr>> {
    open spec fn x_collect_result(self) -> Result<Seq<T>, XErr> { seq_oks(self) }
}

// ---------------------------------------------------------------- loops that end where their body leaves them
pub open spec fn loop_at<S, R>(n: nat, st: S, f: spec_fn(S, int) -> Ctl<S, R>) -> Ctl<S, R>
    decreases n
{
    if n == 0 { Ctl::Next(st) } else {
        match f(st, 0) { Ctl::Next(a) => loop_at((n - 1) as nat, a, f), Ctl::Brk(a) => Ctl::Brk(a), Ctl::Ret(r) => Ctl::Ret(r) }
    }
}
pub struct XForever { }
pub open spec fn x_forever() -> XForever { XForever { } }
impl XForever {
    /// what the loop ends with; nothing is known of a loop that does not end
    pub open spec fn x_for<S, R>(self, init: S, f: spec_fn(S, int) -> Ctl<S, R>) -> Ctl<S, R> {
        if exists|n: nat| !((#[trigger] loop_at(n, init, f)) is Next) { loop_at(choose|n: nat| !((#[trigger] loop_at(n, init, f)) is Next), init, f) } else { arbitrary() }
    }
}
pub proof fn lem_loop_more<S, R>(n: nat, m: nat, st: S, f: spec_fn(S, int) -> Ctl<S, R>)
    requires !(loop_at(n, st, f) is Next), n <= m
    ensures loop_at(m, st, f) == loop_at(n, st, f)
    decreases n
{ if n > 0 { match f(st, 0) { Ctl::Next(a) => { lem_loop_more((n - 1) as nat, (m - 1) as nat, a, f); } _ => {} } } }
/// a loop that ends after at most `n` rounds
pub proof fn lem_forever<S, R>(n: nat, st: S, f: spec_fn(S, int) -> Ctl<S, R>)
    requires !(loop_at(n, st, f) is Next)
    ensures x_forever().x_for(st, f) == loop_at(n, st, f)
{
    let k = choose|n: nat| !((#[trigger] loop_at(n, st, f)) is Next);
    if n <= k { lem_loop_more(n, k, st, f); } else { lem_loop_more(k, n, st, f); }
}

pub proof fn lem_loop_ext<S, R>(n: nat, st: S, f: spec_fn(S, int) -> Ctl<S, R>, g: spec_fn(S, int) -> Ctl<S, R>)
    requires forall|a: S, x: int| #[trigger] f(a, x) == g(a, x)
    ensures loop_at(n, st, f) == loop_at(n, st, g)
    decreases n
{ if n > 0 { assert(f(st, 0) == g(st, 0)); match f(st, 0) { Ctl::Next(a) => { lem_loop_ext((n - 1) as nat, a, f, g); } _ => {} } } }
pub broadcast proof fn lem_forever_ext<S, R>(st: S, f: spec_fn(S, int) -> Ctl<S, R>, g: spec_fn(S, int) -> Ctl<S, R>)
    requires forall|a: S, x: int| #[trigger] f(a, x) == g(a, x)
    ensures #![trigger x_forever().x_for(st, f), x_forever().x_for(st, g)] x_forever().x_for(st, f) == x_forever().x_for(st, g)
{
    if exists|n: nat| !((#[trigger] loop_at(n, st, f)) is Next) {
        let n = choose|n: nat| !((#[trigger] loop_at(n, st, f)) is Next);
        lem_loop_ext(n, st, f, g);
        lem_forever(n, st, g);
    } else if exists|n: nat| !((#[trigger] loop_at(n, st, g)) is Next) {
        let n = choose|n: nat| !((#[trigger] loop_at(n, st, g)) is Next);
        lem_loop_ext(n, st, f, g);
        assert(!(loop_at(n, st, f) is Next));
    }
}

// ---------------------------------------------------------------- sets

pub trait XSet<T>: Sized {
    spec fn x_any(self, f: spec_fn(T) -> bool) -> bool;
    spec fn x_all(self, f: spec_fn(T) -> bool) -> bool;
    spec fn x_contains(self, x: T) -> bool;
    spec fn x_insert(self, x: T) -> (bool, Set<T>);
    spec fn x_remove(self, x: T) -> (bool, Set<T>);
    spec fn x_is_empty(self) -> bool;
    spec fn x_clear(self) -> Set<T>;
}
impl<T> XSet<T> for Set<T> {
    open spec fn x_any(self, f: spec_fn(T) -> bool) -> bool { exists|x: T| #[trigger] self.contains(x) && f(x) }
    open spec fn x_all(self, f: spec_fn(T) -> bool) -> bool { forall|x: T| #[trigger] self.contains(x) ==> f(x) }
    open spec fn x_contains(self, x: T) -> bool { self.contains(x) }
    open spec fn x_insert(self, x: T) -> (bool, Set<T>) { (!self.contains(x), self.insert(x)) }
    open spec fn x_remove(self, x: T) -> (bool, Set<T>) { (self.contains(x), self.remove(x)) }
    open spec fn x_is_empty(self) -> bool { self == Set::<T>::empty() }
    open spec fn x_clear(self) -> Set<T> { Set::empty() }
}

// ---------------------------------------------------------------- maps

pub open spec fn map_put<K, V>(m: Map<K, V>, k: K, v: V) -> Map<K, V> { m.insert(k, v) }
pub open spec fn map_or<K, V>(m: Map<K, V>, k: K, d: V) -> V { if m.contains_key(k) { m[k] } else { d } }
pub open spec fn map_at<K, V>(m: Map<K, V>, k: K) -> V { m[k] }
/// the entries in the order of iteration, of which nothing is known
pub uninterp spec fn map_items<K, V>(m: Map<K, V>) -> Seq<(K, V)>;
/// each entry comes up once
pub open spec fn lists_entries<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == (k, m[k])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
}
pub trait XMap<K, V>: Sized {
    spec fn x_items(self) -> Seq<(K, V)>;
    spec fn x_contains_key(self, k: K) -> bool;
    spec fn x_get(self, k: K) -> Option<V>;
    spec fn x_insert(self, k: K, v: V) -> (Option<V>, Map<K, V>);
    spec fn x_keys(self) -> Seq<K>;
    spec fn x_values(self) -> Seq<V>;
    spec fn x_is_empty(self) -> bool;
    spec fn x_retain(self, f: spec_fn(K, V) -> bool) -> Map<K, V>;
}
impl<K, V> XMap<K, V> for Map<K, V> {
    open spec fn x_items(self) -> Seq<(K, V)> { map_items(self) }
    open spec fn x_contains_key(self, k: K) -> bool { self.contains_key(k) }
    open spec fn x_get(self, k: K) -> Option<V> { if self.contains_key(k) { Some(self[k]) } else { None } }
    open spec fn x_insert(self, k: K, v: V) -> (Option<V>, Map<K, V>) { (self.x_get(k), self.insert(k, v)) }
    open spec fn x_keys(self) -> Seq<K> { map_items(self).map_values(|p: (K, V)| p.0) }
    open spec fn x_values(self) -> Seq<V> { map_items(self).map_values(|p: (K, V)| p.1) }
    open spec fn x_is_empty(self) -> bool { forall|k: K| !#[trigger] self.contains_key(k) }
    open spec fn x_retain(self, f: spec_fn(K, V) -> bool) -> Map<K, V> { map_retain(self, f) }
}
pub open spec fn map_retain<K, V>(m: Map<K, V>, f: spec_fn(K, V) -> bool) -> Map<K, V> { m.restrict(m.dom().filter(|k: K| f(k, m[k]))) }

// ---------------------------------------------------------------- sorting
pub trait XOrdering: Sized {
    spec fn x_then(self, o: Ordering) -> Ordering;
    spec fn x_then_with(self, f: spec_fn() -> Ordering) -> Ordering;
    spec fn x_reverse(self) -> Ordering;
}
impl XOrdering for Ordering {
    open spec fn x_then(self, o: Ordering) -> Ordering { match self { Ordering::Equal => o, x => x } }
    open spec fn x_then_with(self, f: spec_fn() -> Ordering) -> Ordering { match self { Ordering::Equal => f(), x => x } }
    open spec fn x_reverse(self) -> Ordering { match self { Ordering::Less => Ordering::Greater, Ordering::Greater => Ordering::Less, Ordering::Equal => Ordering::Equal } }
}

pub use core::cmp::Ordering;
pub open spec fn int_cmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
/// lexicographic order of sequences by the order of their elements
pub open spec fn lex_cmp<T: XCmp>(a: Seq<T>, b: Seq<T>) -> Ordering
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else { match a[0].x_cmp(b[0]) { Ordering::Equal => lex_cmp(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)), o => o } }
}
pub trait XCmp: Sized { spec fn x_cmp(self, r: Self) -> Ordering; }
impl XCmp for int { open spec fn x_cmp(self, r: int) -> Ordering { int_cmp(self, r) } }
impl XCmp for u8 { open spec fn x_cmp(self, r: u8) -> Ordering { int_cmp(self as int, r as int) } }
impl<T: XCmp> XCmp for Seq<T> { open spec fn x_cmp(self, r: Seq<T>) -> Ordering { lex_cmp(self, r) } }
pub open spec fn not_above<T>(f: spec_fn(T, T) -> Ordering) -> spec_fn(T, T) -> bool { |a: T, b: T| !(f(a, b) is Greater) }
pub trait XSort<T>: Sized {
    spec fn x_sort_by(self, f: spec_fn(T, T) -> Ordering) -> Seq<T>;
}
impl<T> XSort<T> for Seq<T> {
    open spec fn x_sort_by(self, f: spec_fn(T, T) -> Ordering) -> Seq<T> { self.sort_by(not_above(f)) }
}
pub open spec fn cmp_fn<T: XCmp>() -> spec_fn(T, T) -> Ordering { |a: T, b: T| a.x_cmp(b) }
pub trait XSortCmp: Sized { spec fn x_sort(self) -> Self; spec fn x_sort_unstable(self) -> Self; }
impl<T: XCmp> XSortCmp for Seq<T> {
    open spec fn x_sort(self) -> Seq<T> { self.x_sort_by(cmp_fn::<T>()) }
    open spec fn x_sort_unstable(self) -> Seq<T> { self.x_sort_by(cmp_fn::<T>()) }
}
/// without the elements that equal the one before them
pub open spec fn seq_dedup<T>(s: Seq<T>) -> Seq<T>
    decreases s.len()
{
    if s.len() < 2 { s } else if s[s.len() - 2] == s.last() { seq_dedup(s.drop_last()) } else { seq_dedup(s.drop_last()).push(s.last()) }
}
pub trait XDedup: Sized { spec fn x_dedup(self) -> Self; }
impl<T> XDedup for Seq<T> { open spec fn x_dedup(self) -> Seq<T> { seq_dedup(self) } }

pub trait XSum: Sized { spec fn x_sum(self) -> int; }
impl XSum for Seq<int> { open spec fn x_sum(self) -> int { seq_sum(self) } }
pub open spec fn seq_sum(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 0 } else { seq_sum(s.drop_last()) + s.last() } }

// ---------------------------------------------------------------- ordering, numbers, chars

pub open spec fn lex_lt(a: Seq<u8>, b: Seq<u8>) -> bool
    decreases a.len()
{
    if b.len() == 0 { false }
    else if a.len() == 0 { true }
    else if a[0] < b[0] { true }
    else if a[0] > b[0] { false }
    else { lex_lt(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)) }
}

pub trait XOrd: Sized {
    spec fn x_lt(self, r: Self) -> bool;
    spec fn x_le(self, r: Self) -> bool;
    spec fn x_gt(self, r: Self) -> bool;
    spec fn x_ge(self, r: Self) -> bool;
}
impl XOrd for Seq<u8> {
    open spec fn x_lt(self, r: Seq<u8>) -> bool { lex_lt(self, r) }
    open spec fn x_le(self, r: Seq<u8>) -> bool { !lex_lt(r, self) }
    open spec fn x_gt(self, r: Seq<u8>) -> bool { lex_lt(r, self) }
    open spec fn x_ge(self, r: Seq<u8>) -> bool { !lex_lt(self, r) }
}
impl XOrd for int {
    open spec fn x_lt(self, r: int) -> bool { self < r }
    open spec fn x_le(self, r: int) -> bool { self <= r }
    open spec fn x_gt(self, r: int) -> bool { self > r }
    open spec fn x_ge(self, r: int) -> bool { self >= r }
}
impl XOrd for u8 {
    open spec fn x_lt(self, r: u8) -> bool { self < r }
    open spec fn x_le(self, r: u8) -> bool { self <= r }
    open spec fn x_gt(self, r: u8) -> bool { self > r }
    open spec fn x_ge(self, r: u8) -> bool { self >= r }
}

pub trait XInt: Sized { spec fn x_int(self) -> int; }
impl XInt for int { open spec fn x_int(self) -> int { self } }
impl XInt for u8 { open spec fn x_int(self) -> int { self as int } }
impl XInt for char { open spec fn x_int(self) -> int { self as u32 as int } }
impl XInt for bool { open spec fn x_int(self) -> int { if self { 1 } else { 0 } } }
pub open spec fn x_wrap(x: int, m: int) -> int { x % m }
pub open spec fn x_to_u8(x: int) -> u8 { (x % 256) as u8 }

pub trait XNum: Sized {
    spec fn x_saturating_sub(self, r: int) -> int;
    spec fn x_min(self, r: int) -> int;
    spec fn x_max(self, r: int) -> int;
    spec fn x_is_power_of_two(self) -> bool;
}
impl XNum for int {
    open spec fn x_saturating_sub(self, r: int) -> int { if self >= r { self - r } else { 0 } }
    open spec fn x_min(self, r: int) -> int { if self <= r { self } else { r } }
    open spec fn x_max(self, r: int) -> int { if self >= r { self } else { r } }
    uninterp spec fn x_is_power_of_two(self) -> bool;
}

pub open spec fn is_digit(c: u8) -> bool { 48 <= c <= 57 }
pub open spec fn is_upper(c: u8) -> bool { 65 <= c <= 90 }
pub open spec fn is_lower(c: u8) -> bool { 97 <= c <= 122 }
pub open spec fn is_alpha(c: u8) -> bool { is_upper(c) || is_lower(c) }
pub open spec fn is_alnum(c: u8) -> bool { is_alpha(c) || is_digit(c) }

pub trait XChar: Sized {
    spec fn x_is_ascii_digit(self) -> bool;
    spec fn x_is_ascii_uppercase(self) -> bool;
    spec fn x_is_ascii_lowercase(self) -> bool;
    spec fn x_is_ascii_alphabetic(self) -> bool;
    spec fn x_is_ascii_alphanumeric(self) -> bool;
}
impl XChar for u8 {
    open spec fn x_is_ascii_digit(self) -> bool { is_digit(self) }
    open spec fn x_is_ascii_uppercase(self) -> bool { is_upper(self) }
    open spec fn x_is_ascii_lowercase(self) -> bool { is_lower(self) }
    open spec fn x_is_ascii_alphabetic(self) -> bool { is_alpha(self) }
    open spec fn x_is_ascii_alphanumeric(self) -> bool { is_alnum(self) }
}
impl XChar for char {
    open spec fn x_is_ascii_digit(self) -> bool { '0' <= self <= '9' }
    open spec fn x_is_ascii_uppercase(self) -> bool { 'A' <= self <= 'Z' }
    open spec fn x_is_ascii_lowercase(self) -> bool { 'a' <= self <= 'z' }
    open spec fn x_is_ascii_alphabetic(self) -> bool { 'A' <= self <= 'Z' || 'a' <= self <= 'z' }
    open spec fn x_is_ascii_alphanumeric(self) -> bool { 'A' <= self <= 'Z' || 'a' <= self <= 'z' || '0' <= self <= '9' }
}

// `Display`: bytes are displayed as themselves (extraction maps str, String,
// BStr and BString to their byte sequences; lossy decoding of invalid UTF-8
// by BStr's Display is not modelled)
pub uninterp spec fn int_dec(x: int) -> Seq<u8>;
pub uninterp spec fn char_utf8(c: char) -> Seq<u8>;
pub trait XDisplay: Sized { spec fn x_display(self) -> Seq<u8>; }
impl XDisplay for Seq<u8> { open spec fn x_display(self) -> Seq<u8> { self } }
impl XDisplay for int { open spec fn x_display(self) -> Seq<u8> { int_dec(self) } }
impl XDisplay for char { open spec fn x_display(self) -> Seq<u8> { char_utf8(self) } }

// ---------------------------------------------------------------- lemmas (all proved)

pub broadcast proof fn lem_filter_elem<T>(s: Seq<T>, p: spec_fn(T) -> bool, j: int)
    requires 0 <= j < s.filter(p).len()
    ensures p(#[trigger] s.filter(p)[j]), exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == s.filter(p)[j]
{
    s.lemma_filter_contains_rev(p, s.filter(p)[j]);
    s.filter_lemma(p);
}

pub broadcast proof fn lem_filter_has<T>(s: Seq<T>, p: spec_fn(T) -> bool, i: int)
    requires 0 <= i < s.len(), p(s[i])
    ensures #![trigger s.filter(p), s[i]] exists|j: int| 0 <= j < s.filter(p).len() && #[trigger] s.filter(p)[j] == s[i]
{
    s.filter_lemma(p);
    assert(s.contains(s[i]));
    assert(s.filter(p).contains(s[i]));
}

pub broadcast proof fn lem_filter_ext<T>(s: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) == q(s[i])
    ensures #![trigger s.filter(p), s.filter(q)] s.filter(p) == s.filter(q)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let r = s.drop_last();
        assert forall|i: int| 0 <= i < r.len() implies p(#[trigger] r[i]) == q(r[i]) by { assert(r[i] == s[i]); }
        lem_filter_ext(r, p, q);
        assert(p(s[s.len() - 1]) == q(s[s.len() - 1]));
    }
}

pub broadcast proof fn lem_filter_filter<T>(s: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool)
    ensures #[trigger] s.filter(p).filter(q) == s.filter(|x: T| p(x) && q(x))
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        lem_filter_filter(s.drop_last(), p, q);
        let f = s.drop_last().filter(p);
        if p(s.last()) {
            assert(f.push(s.last()).drop_last() == f);
            assert(f.push(s.last()).last() == s.last());
        }
    }
}

pub broadcast proof fn lem_filter_true<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i])
    ensures #[trigger] s.filter(p) == s
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let r = s.drop_last();
        assert forall|i: int| 0 <= i < r.len() implies p(#[trigger] r[i]) by { assert(r[i] == s[i]); }
        lem_filter_true(r, p);
        assert(p(s[s.len() - 1]));
        assert(r.push(s.last()) == s);
    }
}

pub broadcast proof fn lem_filter_false<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> !p(#[trigger] s[i])
    ensures #[trigger] s.filter(p) == Seq::<T>::empty()
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let r = s.drop_last();
        assert forall|i: int| 0 <= i < r.len() implies !p(#[trigger] r[i]) by { assert(r[i] == s[i]); }
        lem_filter_false(r, p);
        assert(!p(s[s.len() - 1]));
    }
}

pub broadcast group group_x {
    lem_filter_elem,
    lem_filter_has,
    lem_filter_ext,
    lem_filter_filter,
}

} // verus!
}
pub use xl::*;
use vstd::prelude::*;
use vstd::seq_lib::*;
fn main() {}
