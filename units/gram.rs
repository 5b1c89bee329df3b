// The grammar of matcher expressions over the leaves `leaf(m, text)` (the
// including module names the type `M`): texts, shape and the lemmas that a
// parser built from the combinators reads such a text.
pub open spec fn not_text(u: Seq<u8>) -> Seq<u8> { seq![33u8] + u }
pub open spec fn group_text(u: Seq<u8>) -> Seq<u8> { seq![40u8] + u + seq![41u8] }
pub open spec fn comp_text(u: Seq<u8>, o: Seq<u8>, v: Seq<u8>) -> Seq<u8> { u + o + v }
/// `t` spells `m`, layout allowed between the tokens
pub open spec fn spells(m: M, t: Seq<u8>) -> bool decreases m {
    match m {
        M::Not(b) => exists|u: Seq<u8>| spells(*b, u) && #[trigger] padded(t, not_text(u)),
        M::Group(b) => exists|u: Seq<u8>| spells(*b, u) && #[trigger] padded(t, group_text(u)),
        M::Composite { lhs, op, rhs } => exists|u: Seq<u8>, o: Seq<u8>, v: Seq<u8>| spells(*lhs, u) && op_text(op, o) && spells(*rhs, v) && #[trigger] padded(t, comp_text(u, o, v)),
        _ => exists|u: Seq<u8>| #[trigger] leaf(m, u) && padded(t, u),
    }
}
/// how tight the outermost operator binds
pub open spec fn level(m: M) -> int { match m { M::Composite { lhs, op, rhs } => op_level(op), _ => 3 } }
/// the operands bind tighter than their operator, the left one at least as
/// tight (chains group to the left); a negation is of an atom
pub open spec fn shaped(m: M) -> bool decreases m {
    match m {
        M::Not(b) => shaped(*b) && level(*b) == 3,
        M::Group(b) => shaped(*b),
        M::Composite { lhs, op, rhs } => shaped(*lhs) && shaped(*rhs) && level(*lhs) >= op_level(op) && level(*rhs) > op_level(op),
        _ => true,
    }
}
/// an expression that binds at least as tight as level `lo`
pub open spec fn expr(lo: int) -> spec_fn(M, Seq<u8>) -> bool { |m: M, t: Seq<u8>| spells(m, t) && shaped(m) && level(m) >= lo }

pub proof fn lem_pad(m: M, t: Seq<u8>, u: Seq<u8>)
    requires spells(m, u), padded(t, u)
    ensures spells(m, t)
{
    match m {
        M::Not(b) => { let v = choose|v: Seq<u8>| spells(*b, v) && #[trigger] padded(u, not_text(v)); lem_padded_trans(t, u, not_text(v)); }
        M::Group(b) => { let v = choose|v: Seq<u8>| spells(*b, v) && #[trigger] padded(u, group_text(v)); lem_padded_trans(t, u, group_text(v)); }
        M::Composite { lhs, op, rhs } => {
            let (a, v, o) = choose|a: Seq<u8>, v: Seq<u8>, o: Seq<u8>| spells(*lhs, a) && op_text(op, o) && spells(*rhs, v) && #[trigger] padded(u, comp_text(a, o, v));
            lem_padded_trans(t, u, comp_text(a, o, v));
        }
        _ => { let v = choose|v: Seq<u8>| #[trigger] leaf(m, v) && padded(u, v); lem_padded_trans(t, u, v); }
    }
}
pub broadcast proof fn sound_ws(p: Parser<M>, lo: int)
    requires sound(p, expr(lo))
    ensures #[trigger] sound(p_ws(p), expr(lo))
{ reveal(sound);
    reveal(sfx);
    assert(sfx(p)) by { assert forall|i: Seq<u8>| match #[trigger] p(i) { PR::Ok(x, r) => suff(i, r), _ => true } by {} }
    assert forall|i: Seq<u8>| match #[trigger] p_ws(p)(i) { PR::Ok(x, r) => suff(i, r) && expr(lo)(x, took(i, r)), _ => true } by {
        if p_ws(p)(i) is Ok {
            let o = lem_ws(p, i);
            let r = p_ws(p)(i)->Ok_1;
            assert(expr(lo)(p_ws(p)(i)->Ok_0, took(o.0, o.1)));
            lem_pad(p_ws(p)(i)->Ok_0, took(i, r), took(o.0, o.1));
        }
    }
}
/// a parser of leaves
#[verifier::opaque]
pub open spec fn leaves(p: Parser<M>) -> bool {
    forall|i: Seq<u8>| match #[trigger] p(i) { PR::Ok(x, r) => suff(i, r) && leaf(x, took(i, r)) && is_leaf(x), _ => true }
}
pub open spec fn is_leaf(m: M) -> bool { !(m is Not || m is Group || m is Composite) }
pub broadcast proof fn sound_leaves(p: Parser<M>, lo: int)
    requires leaves(p), lo <= 3
    ensures #[trigger] sound(p, expr(lo))
{ reveal(leaves); reveal(sound);
    assert forall|i: Seq<u8>| match #[trigger] p(i) { PR::Ok(x, r) => suff(i, r) && expr(lo)(x, took(i, r)), _ => true } by {
        match p(i) { PR::Ok(x, r) => { lem_padded_refl(took(i, r)); } _ => {} }
    }
}
/// whatever `p` reads is a word of `w` with layout around it
#[verifier::opaque]
pub open spec fn token<A>(p: Parser<A>, w: spec_fn(Seq<u8>) -> bool) -> bool {
    forall|i: Seq<u8>| match #[trigger] p(i) { PR::Ok(x, r) => suff(i, r) && exists|u: Seq<u8>| #[trigger] w(u) && padded(took(i, r), u), _ => true }
}
/// a parser that reads nothing
#[verifier::opaque]
pub open spec fn still<A>(p: Parser<A>) -> bool { forall|i: Seq<u8>| match #[trigger] p(i) { PR::Ok(x, r) => r == i, _ => true } }
pub open spec fn is_tok(b: u8) -> spec_fn(Seq<u8>) -> bool { |u: Seq<u8>| u == seq![b] }
pub open spec fn op_word(op: BooleanOp) -> spec_fn(Seq<u8>) -> bool { |u: Seq<u8>| op_text(op, u) }
pub broadcast proof fn token_byte(b: u8, w: spec_fn(Seq<u8>) -> bool)
    requires w(seq![b])
    ensures #[trigger] token(p_byte(b), w)
{ reveal(token);
    let p = p_byte(b);
    assert forall|i: Seq<u8>| match #[trigger] p(i) { PR::Ok(x, r) => suff(i, r) && exists|u: Seq<u8>| #[trigger] w(u) && padded(took(i, r), u), _ => true } by {
        if p(i) is Ok { assert(took(i, p(i)->Ok_1) =~= seq![b]); lem_padded_refl(seq![b]); }
    }
}
pub broadcast proof fn token_lit(s: Seq<u8>, w: spec_fn(Seq<u8>) -> bool)
    requires w(s)
    ensures #[trigger] token(p_lit(s), w)
{ reveal(token);
    let p = p_lit(s);
    assert forall|i: Seq<u8>| match #[trigger] p(i) { PR::Ok(x, r) => suff(i, r) && exists|u: Seq<u8>| #[trigger] w(u) && padded(took(i, r), u), _ => true } by {
        if p(i) is Ok { assert(took(i, p(i)->Ok_1) =~= s); lem_padded_refl(s); }
    }
}
pub broadcast proof fn token_alt<A>(p: Parser<A>, q: Parser<A>, w: spec_fn(Seq<u8>) -> bool)
    requires token(p, w), token(q, w)
    ensures #[trigger] token(p_alt(p, q), w)
{ reveal(token);
    let a = p_alt(p, q);
    assert forall|i: Seq<u8>| match #[trigger] a(i) { PR::Ok(x, r) => suff(i, r) && exists|u: Seq<u8>| #[trigger] w(u) && padded(took(i, r), u), _ => true } by { let _ = p(i); let _ = q(i); }
}
pub broadcast proof fn token_map<A, B>(p: Parser<A>, f: spec_fn(A) -> B, w: spec_fn(Seq<u8>) -> bool)
    requires token(p, w)
    ensures #[trigger] token(p_map(p, f), w)
{ reveal(token);
    let a = p_map(p, f);
    assert forall|i: Seq<u8>| match #[trigger] a(i) { PR::Ok(x, r) => suff(i, r) && exists|u: Seq<u8>| #[trigger] w(u) && padded(took(i, r), u), _ => true } by { let _ = p(i); }
}
pub broadcast proof fn token_value<A, B>(p: Parser<A>, v: B, w: spec_fn(Seq<u8>) -> bool)
    requires token(p, w)
    ensures #[trigger] token(p_value(p, v), w)
{ reveal(token); token_map(p, |x: A| v, w); }
pub broadcast proof fn token_still<A, B>(p: Parser<A>, c: Parser<B>, w: spec_fn(Seq<u8>) -> bool)
    requires token(p, w), still(c)
    ensures #[trigger] token(p_terminated(p, c), w)
{ reveal(token); reveal(still);
    let a = p_terminated(p, c);
    assert forall|i: Seq<u8>| match #[trigger] a(i) { PR::Ok(x, r) => suff(i, r) && exists|u: Seq<u8>| #[trigger] w(u) && padded(took(i, r), u), _ => true } by {
        match p(i) { PR::Ok(x, r) => { let _ = c(r); } _ => {} }
    }
}
pub proof fn lem_token_sfx<A>(p: Parser<A>, w: spec_fn(Seq<u8>) -> bool) requires token(p, w) ensures sfx(p)
{ reveal(token); reveal(sfx); assert forall|i: Seq<u8>| match #[trigger] p(i) { PR::Ok(x, r) => suff(i, r), _ => true } by {} }
pub proof fn lem_sound_sfx(p: Parser<M>, lo: int) requires sound(p, expr(lo)) ensures sfx(p)
{ reveal(sound); reveal(sfx); assert forall|i: Seq<u8>| match #[trigger] p(i) { PR::Ok(x, r) => suff(i, r), _ => true } by {} }
pub broadcast proof fn token_ws<A>(p: Parser<A>, w: spec_fn(Seq<u8>) -> bool)
    requires token(p, w)
    ensures #[trigger] token(p_ws(p), w)
{ reveal(token);
    let a = p_ws(p);
    lem_token_sfx(p, w);
    assert forall|i: Seq<u8>| match #[trigger] a(i) { PR::Ok(x, r) => suff(i, r) && exists|u: Seq<u8>| #[trigger] w(u) && padded(took(i, r), u), _ => true } by {
        if a(i) is Ok {
            let o = lem_ws(p, i);
            let u = choose|u: Seq<u8>| #[trigger] w(u) && padded(took(o.0, o.1), u);
            lem_padded_trans(took(i, a(i)->Ok_1), took(o.0, o.1), u);
        }
    }
}
/// a + u + b with layout a, b around a word u
pub proof fn lem_unpad(t: Seq<u8>, u: Seq<u8>) -> (o: (Seq<u8>, Seq<u8>))
    requires padded(t, u)
    ensures t == o.0 + u + o.1, blank(o.0), blank(o.1)
{ let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| t == #[trigger] (a + u + b) && blank(a) && blank(b); (a, b) }

pub broadcast proof fn sound_not<A>(o: Parser<A>, p: Parser<M>, g: spec_fn(M) -> M, lo: int)
    requires token(o, is_tok(33)), sound(p, expr(3)), forall|m: M| #[trigger] g(m) == M::Not(Box::new(m)), lo <= 3
    ensures #[trigger] sound(p_map(p_preceded(o, p), g), expr(lo))
{ reveal(token); reveal(sound);
    let q = p_map(p_preceded(o, p), g);
    assert forall|i: Seq<u8>| match #[trigger] q(i) { PR::Ok(x, r) => suff(i, r) && expr(lo)(x, took(i, r)), _ => true } by {
        match o(i) { PR::Ok(x, r) => match p(r) { PR::Ok(m, s) => {
            lem_suff_trans(i, r, s);
            let u = choose|u: Seq<u8>| #[trigger] is_tok(33)(u) && padded(took(i, r), u);
            let (a, b) = lem_unpad(took(i, r), u);
            let v = took(r, s);
            assert(expr(3)(m, v));
            let e = Seq::<u8>::empty();
            assert(b + v =~= b + v + e);
            lem_padded(b + v, b, v, e);
            lem_pad(m, b + v, v);
            assert(took(i, s) =~= a + not_text(b + v) + e);
            lem_padded(took(i, s), a, not_text(b + v), e);
            assert(spells(M::Not(Box::new(m)), took(i, s)));
            assert(p_preceded(o, p)(i) == PR::Ok(m, s));
        } _ => {} } _ => {} }
    }
}
pub broadcast proof fn sound_group<A, C>(o: Parser<A>, p: Parser<M>, c: Parser<C>, g: spec_fn(M) -> M, lo: int)
    requires token(o, is_tok(40)), sound(p, expr(0)), token(c, is_tok(41)), forall|m: M| #[trigger] g(m) == M::Group(Box::new(m)), lo <= 3
    ensures #[trigger] sound(p_map(p_delimited(o, p, c), g), expr(lo))
{ reveal(token); reveal(sound);
    let q = p_map(p_delimited(o, p, c), g);
    assert forall|i: Seq<u8>| match #[trigger] q(i) { PR::Ok(x, r) => suff(i, r) && expr(lo)(x, took(i, r)), _ => true } by {
        match o(i) { PR::Ok(x, r) => match p(r) { PR::Ok(m, s) => match c(s) { PR::Ok(y, z) => {
            lem_suff_trans(i, r, s);
            lem_suff_trans(i, s, z);
            let u = choose|u: Seq<u8>| #[trigger] is_tok(40)(u) && padded(took(i, r), u);
            let w = choose|w: Seq<u8>| #[trigger] is_tok(41)(w) && padded(took(s, z), w);
            let (a, b) = lem_unpad(took(i, r), u);
            let (e, d) = lem_unpad(took(s, z), w);
            let v = took(r, s);
            assert(expr(0)(m, v));
            lem_padded(b + v + e, b, v, e);
            lem_pad(m, b + v + e, v);
            let n = b + v + e;
            assert(took(i, z) =~= a + group_text(n) + d);
            lem_padded(took(i, z), a, group_text(n), d);
            assert(spells(M::Group(Box::new(m)), took(i, z)));
            assert(p_delimited(o, p, c)(i) == PR::Ok(m, z));
        } _ => {} } _ => {} } _ => {} }
    }
}

/// `l op r`
pub open spec fn comp(l: M, op: BooleanOp, r: M) -> M { M::Composite { lhs: Box::new(l), op: op, rhs: Box::new(r) } }
/// what a chain of operands stands for: grouped to the left
#[verifier::opaque]
pub open spec fn lefts(g: spec_fn((M, Seq<M>)) -> M, op: BooleanOp) -> bool {
    &&& forall|h: M| #[trigger] g((h, Seq::<M>::empty())) == h
    &&& forall|h: M, s: Seq<M>, x: M| level(g((h, s))) >= op_level(op) && level(x) > op_level(op) ==> #[trigger] g((h, s.push(x))) == comp(g((h, s)), op, x)
}
pub proof fn lem_comp(l: M, op: BooleanOp, r: M, tl: Seq<u8>, to: Seq<u8>, tr: Seq<u8>)
    requires expr(op_level(op))(l, tl), expr(op_level(op) + 1)(r, tr), exists|u: Seq<u8>| #[trigger] op_word(op)(u) && padded(to, u)
    ensures expr(op_level(op))(comp(l, op, r), tl + to + tr)
{
    let u = choose|u: Seq<u8>| #[trigger] op_word(op)(u) && padded(to, u);
    let (a, b) = lem_unpad(to, u);
    let e = Seq::<u8>::empty();
    assert(tl + a =~= e + tl + a);
    lem_padded(tl + a, e, tl, a);
    lem_pad(l, tl + a, tl);
    assert(b + tr =~= b + tr + e);
    lem_padded(b + tr, b, tr, e);
    lem_pad(r, b + tr, tr);
    assert(tl + to + tr =~= comp_text(tl + a, u, b + tr));
    lem_padded_refl(tl + to + tr);
    assert(op_text(op, u));
    assert(spells(comp(l, op, r), tl + to + tr));
}
pub proof fn lem_chain<X>(i: Seq<u8>, hi: Option<int>, a: Parser<M>, o: Parser<X>, g: spec_fn((M, Seq<M>)) -> M, op: BooleanOp, h: M, ts: Seq<M>, t: Seq<u8>)
    requires sound(a, expr(op_level(op) + 1)), token(o, op_word(op)), lefts(g, op), expr(op_level(op))(g((h, ts)), t)
    ensures match p_many(i, hi, p_preceded(o, a)) { PR::Ok(xs, r) => suff(i, r) && expr(op_level(op))(g((h, ts + xs)), t + took(i, r)), _ => true }
    decreases i.len()
{ reveal(token); reveal(lefts); reveal(sound);
    let p = p_preceded(o, a);
    lem_suff_refl(i);
    assert(ts + Seq::<M>::empty() =~= ts);
    assert(t + Seq::<u8>::empty() =~= t);
    if !(hi is Some && hi->0 <= 0) {
        match p(i) { PR::Ok(x, r) => { if r.len() < i.len() {
            let q = o(i)->Ok_1;
            assert(o(i) is Ok && a(q) == PR::Ok(x, r));
            lem_suff_trans(i, q, r);
            lem_comp(g((h, ts)), op, x, t, took(i, q), took(q, r));
            let t2 = t + took(i, q) + took(q, r);
            assert(g((h, ts.push(x))) == comp(g((h, ts)), op, x));
            let h2 = match hi { Some(h) => Some(h - 1), None => None };
            lem_chain(r, h2, a, o, g, op, h, ts.push(x), t2);
            match p_many(r, h2, p) { PR::Ok(xs, r2) => {
                lem_suff_trans(i, r, r2);
                assert(ts.push(x) + xs =~= ts + (seq![x] + xs));
                assert(t2 + took(r, r2) =~= t + took(i, r2));
            } _ => {} }
        } } _ => {} }
    }
}
pub open spec fn chain_of<X>(a: Parser<M>, o: Parser<X>, g: spec_fn((M, Seq<M>)) -> M, op: BooleanOp, lo: int) -> bool {
    sound(a, expr(op_level(op) + 1)) && token(o, op_word(op)) && lefts(g, op) && lo <= op_level(op)
}
pub broadcast proof fn sound_chain<X>(a: Parser<M>, o: Parser<X>, g: spec_fn((M, Seq<M>)) -> M, k: int, hi: Option<int>, lo: int)
    requires chain_of(a, o, g, BooleanOp::Or, lo) || chain_of(a, o, g, BooleanOp::Xor, lo) || chain_of(a, o, g, BooleanOp::And, lo)
    ensures #[trigger] sound(p_map(p_tup2(a, p_repeat(k, hi, p_preceded(o, a))), g), expr(lo))
{ reveal(sound); reveal(lefts);
    let op = if chain_of(a, o, g, BooleanOp::Or, lo) { BooleanOp::Or } else if chain_of(a, o, g, BooleanOp::Xor, lo) { BooleanOp::Xor } else { BooleanOp::And };
    let q = p_map(p_tup2(a, p_repeat(k, hi, p_preceded(o, a))), g);
    assert forall|i: Seq<u8>| match #[trigger] q(i) { PR::Ok(x, r) => suff(i, r) && expr(lo)(x, took(i, r)), _ => true } by {
        match a(i) { PR::Ok(m, r) => {
            let e = Seq::<M>::empty();
            assert(g((m, e)) == m);
            assert(expr(op_level(op) + 1)(m, took(i, r)));
            assert(expr(op_level(op))(m, took(i, r)));
            lem_chain(r, hi, a, o, g, op, m, e, took(i, r));
            match p_many(r, hi, p_preceded(o, a)) { PR::Ok(xs, s) => {
                assert(e + xs =~= xs);
                lem_suff_trans(i, r, s);
            } _ => {} }
        } _ => {} }
    }
}
pub broadcast proof fn lem_lefts(g: spec_fn((M, Seq<M>)) -> M, op: BooleanOp)
    requires forall|h: M| #[trigger] g((h, Seq::<M>::empty())) == h, forall|h: M, s: Seq<M>, x: M| level(g((h, s))) >= op_level(op) && level(x) > op_level(op) ==> #[trigger] g((h, s.push(x))) == comp(g((h, s)), op, x)
    ensures #[trigger] lefts(g, op)
{ reveal(lefts); }
/// one more step of a fold
pub broadcast proof fn lem_fold_push<T, S>(s: Seq<T>, x: T, init: S, f: spec_fn(S, T) -> S)
    ensures #[trigger] seq_fold(s.push(x), init, f) == f(seq_fold(s, init, f), x)
{ assert(s.push(x).drop_last() =~= s); }
pub broadcast group group_gram {
    sound_cut, sound_alt, sound_ws, sound_leaves, sound_not, sound_group, sound_chain,
    token_byte, token_lit, token_alt, token_map, token_value, token_still, token_ws, lem_fold_push, lem_lefts,
}
