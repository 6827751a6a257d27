// Lemmas about the key encoding of _keyspec.rs (proved in every unit that imports them).
pub open spec fn rvals(s: Seq<&Bson>) -> Seq<Val> { Seq::new(s.len(), |i: int| val(*s[i])) }

/// what a decoder finds at the start of the key of `v` followed by anything
pub open spec fn headed(v: Val, rest: Seq<u8>, tail: Seq<u8>) -> bool {
    let p = rest.skip(1);
    &&& rest.len() >= 1
    &&& rest[0] == tag(v)
    &&& wf(v)
    &&& match v {
        Val::Str(s) => zero_at(p) == esc(utf8(s)).len() && p.len() > zero_at(p) && p.take(zero_at(p)) == esc(utf8(s)) && p.skip(zero_at(p) + 1) == tail,
        Val::Sym(s) => zero_at(p) == esc(utf8(s)).len() && p.len() > zero_at(p) && p.take(zero_at(p)) == esc(utf8(s)) && p.skip(zero_at(p) + 1) == tail,
        _ => p.len() >= payload(v).len() && p.take(payload(v).len() as int) == payload(v) && p.skip(payload(v).len() as int) == tail,
    }
}

// ---- lemmas ----

pub proof fn ts_pack()
    ensures forall|t: u32, i: u32| #[trigger] (((t as u64) << 32) | (i as u64)) as int == t as int * 0x1_0000_0000 + i as int,
{
    assert forall|t: u32, i: u32| #[trigger] (((t as u64) << 32) | (i as u64)) as int == t as int * 0x1_0000_0000 + i as int by {
        let a = t as u64;
        let b = i as u64;
        assert(((a << 32) | b) == add(mul(a, 0x1_0000_0000), b)) by (bit_vector)
            requires a <= 0xffff_ffff, b <= 0xffff_ffff;
        assert(a * 0x1_0000_0000 + b <= 0xffff_ffff_ffff_ffff) by (nonlinear_arith) requires a <= 0xffff_ffff, b <= 0xffff_ffff;
    }
}

pub proof fn ts_unpack()
    ensures
        forall|v: u64| #[trigger] (v >> 32) as int == v as int / 0x1_0000_0000,
        forall|v: u64| (#[trigger] (v as u32)) as int == v as int % 0x1_0000_0000,
        forall|v: u64| (#[trigger] ((v >> 32) as u32)) as int == v as int / 0x1_0000_0000,
{
    assert forall|v: u64| #[trigger] (v >> 32) as int == v as int / 0x1_0000_0000 by {
        assert((v >> 32) == v / 0x1_0000_0000) by (bit_vector);
    }
    assert forall|v: u64| (#[trigger] (v as u32)) as int == v as int % 0x1_0000_0000 by {
        assert((v as u32) as u64 == v % 0x1_0000_0000) by (bit_vector);
    }
    assert forall|v: u64| (#[trigger] ((v >> 32) as u32)) as int == v as int / 0x1_0000_0000 by {
        assert(((v >> 32) as u32) as u64 == v / 0x1_0000_0000) by (bit_vector);
    }
}

pub proof fn lemma_be_len(n: nat, x: int)
    ensures be(n, x).len() == n,
    decreases n,
{ if n > 0 { lemma_be_len((n - 1) as nat, x / 256); } }

pub open spec fn pow256(n: nat) -> int
    decreases n,
{ if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) } }

pub proof fn lemma_be_injective(n: nat, x: int, y: int)
    requires 0 <= x < pow256(n), 0 <= y < pow256(n), be(n, x) == be(n, y),
    ensures x == y,
    decreases n,
{
    if n > 0 {
        let a = be((n - 1) as nat, x / 256);
        let b = be((n - 1) as nat, y / 256);
        lemma_be_len((n - 1) as nat, x / 256);
        lemma_be_len((n - 1) as nat, y / 256);
        assert(be(n, x) == a.push((x % 256) as u8));
        assert(be(n, y) == b.push((y % 256) as u8));
        assert(a.push((x % 256) as u8)[a.len() as int] == (x % 256) as u8);
        assert(b.push((y % 256) as u8)[b.len() as int] == (y % 256) as u8);
        assert(a =~= be(n, x).drop_last());
        assert(b =~= be(n, y).drop_last());
        lemma_be_injective((n - 1) as nat, x / 256, y / 256);
        assert((x % 256) as u8 == (y % 256) as u8);
    }
}

pub proof fn lemma_all_be()
    ensures
        forall|n: nat, x: int| (#[trigger] be(n, x)).len() == n,
        forall|x: i32, y: i32| #[trigger] be(4, u32_of(x)) == #[trigger] be(4, u32_of(y)) ==> x == y,
        forall|x: i64, y: i64| #[trigger] be(8, u64_of(x)) == #[trigger] be(8, u64_of(y)) ==> x == y,
        forall|x: f64, y: f64| #[trigger] be(8, f64_bits(x)) == #[trigger] be(8, f64_bits(y)) ==> x == y,
        forall|x: u64, t: u32, i: u32| #[trigger] be(8, x as int) == #[trigger] be(8, t as int * 0x1_0000_0000 + i as int) ==> x as int == t as int * 0x1_0000_0000 + i as int,
{
    broadcast use f64_bits_injective, f64_bits_range;
    assert(pow256(4) == 0x1_0000_0000 && pow256(8) == 0x1_0000_0000_0000_0000) by { reveal_with_fuel(pow256, 9); }
    assert forall|n: nat, x: int| (#[trigger] be(n, x)).len() == n by { lemma_be_len(n, x); }
    assert forall|x: i32, y: i32| #[trigger] be(4, u32_of(x)) == #[trigger] be(4, u32_of(y)) implies x == y by { lemma_be_injective(4, u32_of(x), u32_of(y)); }
    assert forall|x: i64, y: i64| #[trigger] be(8, u64_of(x)) == #[trigger] be(8, u64_of(y)) implies x == y by { lemma_be_injective(8, u64_of(x), u64_of(y)); }
    assert forall|x: f64, y: f64| #[trigger] be(8, f64_bits(x)) == #[trigger] be(8, f64_bits(y)) implies x == y by { lemma_be_injective(8, f64_bits(x), f64_bits(y)); }
    assert forall|x: u64, t: u32, i: u32| #[trigger] be(8, x as int) == #[trigger] be(8, t as int * 0x1_0000_0000 + i as int) implies x as int == t as int * 0x1_0000_0000 + i as int by {
        lemma_be_injective(8, x as int, t as int * 0x1_0000_0000 + i as int);
    }
}

pub proof fn lemma_zero_at(e: Seq<u8>, tail: Seq<u8>)
    requires forall|i: int| 0 <= i < e.len() ==> e[i] != 0,
    ensures zero_at(e.push(0) + tail) == e.len(),
    decreases e.len(),
{
    let s = e.push(0) + tail;
    if e.len() > 0 {
        assert(s[0] == e[0]);
        assert(s.skip(1) =~= e.skip(1).push(0) + tail);
        assert forall|i: int| 0 <= i < e.skip(1).len() implies e.skip(1)[i] != 0 by { assert(e.skip(1)[i] == e[i + 1]); }
        lemma_zero_at(e.skip(1), tail);
    } else {
        assert(s[0] == 0);
    }
}

pub proof fn lemma_esc_no_zero(b: Seq<u8>)
    ensures forall|i: int| 0 <= i < esc(b).len() ==> esc(b)[i] != 0,
    decreases b.len(),
{
    if b.len() > 0 {
        lemma_esc_no_zero(b.skip(1));
        let h = esc1(b[0]);
        assert(esc(b) == h + esc(b.skip(1)));
        assert forall|i: int| 0 <= i < esc(b).len() implies esc(b)[i] != 0 by {
            if i < h.len() { assert(esc(b)[i] == h[i]); } else { assert(esc(b)[i] == esc(b.skip(1))[i - h.len()]); }
        }
    }
}

pub proof fn lemma_unesc_esc(b: Seq<u8>)
    requires forall|i: int| 0 <= i < b.len() ==> b[i] != 0xC0,
    ensures unesc(esc(b)) == b,
    decreases b.len(),
{
    if b.len() > 0 {
        let t = b.skip(1);
        assert forall|i: int| 0 <= i < t.len() implies t[i] != 0xC0 by { assert(t[i] == b[i + 1]); }
        lemma_unesc_esc(t);
        let e = esc(b);
        assert(e == esc1(b[0]) + esc(t));
        if b[0] == 0 {
            assert(e[0] == 0xC0 && e[1] == 0x80);
            assert(e.skip(2) =~= esc(t));
            assert(unesc(e) =~= seq![0u8] + t);
        } else {
            assert(e[0] == b[0]);
            assert(e.skip(1) =~= esc(t));
            assert(unesc(e) =~= seq![b[0]] + t);
        }
        assert(unesc(e) =~= b);
    }
}

pub proof fn lemma_all_unesc()
    ensures
        forall|s: Seq<char>| unesc(#[trigger] esc(utf8(s))) == utf8(s),
        forall|s: Seq<char>, t: Seq<char>| #[trigger] utf8(s) == #[trigger] utf8(t) ==> s == t,
        forall|b: Seq<u8>| b.len() > 0 ==> #[trigger] b.drop_last() == b.take(b.len() - 1),
        forall|b: Seq<u8>, n: int| 0 <= n < b.len() ==> (#[trigger] b.take(n + 1)).drop_last() == b.take(n),
        forall|b: Seq<u8>| Seq::<u8>::empty() + b == b,
{
    assert forall|s: Seq<char>| unesc(#[trigger] esc(utf8(s))) == utf8(s) by { utf8_axiom(s); lemma_unesc_esc(utf8(s)); }
    assert forall|s: Seq<char>, t: Seq<char>| #[trigger] utf8(s) == #[trigger] utf8(t) implies s == t by { utf8_injective(s, t); }
    assert forall|b: Seq<u8>| b.len() > 0 implies #[trigger] b.drop_last() == b.take(b.len() - 1) by { assert(b.drop_last() =~= b.take(b.len() - 1)); }
    assert forall|b: Seq<u8>, n: int| 0 <= n < b.len() implies (#[trigger] b.take(n + 1)).drop_last() == b.take(n) by { assert(b.take(n + 1).drop_last() =~= b.take(n)); }
    assert forall|b: Seq<u8>| Seq::<u8>::empty() + b == b by { assert(Seq::<u8>::empty() + b =~= b); }
}

pub proof fn lemma_headed(v: Val, tail: Seq<u8>)
    requires wf(v),
    ensures headed(v, enc(v) + tail, tail),
{
    let rest = enc(v) + tail;
    let p = rest.skip(1);
    assert(p =~= payload(v) + tail);
    match v {
        Val::Str(s) | Val::Sym(s) => {
            let e = esc(utf8(s));
            lemma_esc_no_zero(utf8(s));
            lemma_zero_at(e, tail);
            assert(p == e.push(0) + tail);
            assert(p.take(e.len() as int) =~= e);
            assert(p.skip(e.len() as int + 1) =~= tail);
        }
        _ => {
            assert(p.take(payload(v).len() as int) =~= payload(v));
            assert(p.skip(payload(v).len() as int) =~= tail);
        }
    }
}

// ---- the property ----

/// two different values never share a key, and no key is a prefix of another: if the keys of v and w start the
/// same byte sequence, v and w are the same value
pub proof fn c01_prefix_free(v: Val, w: Val, x: Seq<u8>, y: Seq<u8>)
    requires wf(v), wf(w), enc(v) + x == enc(w) + y,
    ensures v == w, x == y,
{
    lemma_headed(v, x);
    lemma_headed(w, y);
    lemma_all_unesc();
    lemma_all_be();
    let r = enc(v) + x;
    assert(r[0] == tag(v) && r[0] == tag(w));
    assert(tag(v) == tag(w));
    match v {
        Val::Ts(t, i) => {
            match w {
                Val::Ts(t2, i2) => {
                    assert(payload(v) == payload(w));
                    assert(pow256(8) == 0x1_0000_0000_0000_0000) by { reveal_with_fuel(pow256, 9); }
                    lemma_be_injective(8, t as int * 0x1_0000_0000 + i as int, t2 as int * 0x1_0000_0000 + i2 as int);
                }
                _ => {}
            }
        }
        Val::Bool(b) => { assert(payload(v)[0] == payload(w)[0]); }
        Val::Str(s) => { match w { Val::Str(t) => { assert(esc(utf8(s)) == esc(utf8(t))); } _ => {} } }
        Val::Sym(s) => { match w { Val::Sym(t) => { assert(esc(utf8(s)) == esc(utf8(t))); } _ => {} } }
        _ => {}
    }
}

/// tuples: the encoding is injective
pub proof fn c01_injective(a: Seq<Val>, b: Seq<Val>)
    requires valid(a), valid(b), encs(a) == encs(b),
    ensures a == b,
    decreases a.len(),
{
    if a.len() == 0 {
        if b.len() > 0 { assert(enc(b[0]).len() > 0); }
        assert(a =~= b);
    } else if b.len() == 0 {
        assert(enc(a[0]).len() > 0);
    } else {
        c01_prefix_free(a[0], b[0], encs(a.skip(1)), encs(b.skip(1)));
        assert forall|i: int| 0 <= i < a.skip(1).len() implies wf(#[trigger] a.skip(1)[i]) by { assert(a.skip(1)[i] == a[i + 1]); }
        assert forall|i: int| 0 <= i < b.skip(1).len() implies wf(#[trigger] b.skip(1)[i]) by { assert(b.skip(1)[i] == b[i + 1]); }
        c01_injective(a.skip(1), b.skip(1));
        assert(a =~= seq![a[0]] + a.skip(1));
        assert(b =~= seq![b[0]] + b.skip(1));
    }
}

