// The storage engine as a map from keys to values in byte order, and the layout of the database in it.
// Assumed: what a transaction's get/put/delete and its iterators do (RocksDB behind the FFI).
pub type KV = Map<Seq<u8>, Seq<u8>>;

/// a starts b
pub open spec fn pref(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }

/// byte-wise lexicographic order
pub open spec fn le(a: Seq<u8>, b: Seq<u8>) -> bool
    decreases a.len(),
{ a.len() == 0 || (b.len() > 0 && (a[0] < b[0] || (a[0] == b[0] && le(a.skip(1), b.skip(1))))) }

pub open spec fn lt(a: Seq<u8>, b: Seq<u8>) -> bool { le(a, b) && a != b }

pub proof fn lemma_le_refl(a: Seq<u8>)
    ensures le(a, a),
    decreases a.len(),
{ if a.len() > 0 { lemma_le_refl(a.skip(1)); } }

pub proof fn lemma_le_total(a: Seq<u8>, b: Seq<u8>)
    ensures le(a, b) || le(b, a), le(a, b) && le(b, a) ==> a == b,
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 {
        lemma_le_total(a.skip(1), b.skip(1));
        if le(a, b) && le(b, a) {
            assert(a =~= seq![a[0]] + a.skip(1));
            assert(b =~= seq![b[0]] + b.skip(1));
        }
    } else if le(a, b) && le(b, a) { assert(a =~= b); }
}

pub proof fn lemma_le_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires le(a, b), le(b, c),
    ensures le(a, c),
    decreases a.len(),
{ if a.len() > 0 && a[0] == b[0] && b[0] == c[0] { lemma_le_trans(a.skip(1), b.skip(1), c.skip(1)); } }

pub proof fn lemma_pref_le(a: Seq<u8>, b: Seq<u8>)
    requires pref(a, b),
    ensures le(a, b),
    decreases a.len(),
{
    if a.len() > 0 {
        assert(b.take(a.len() as int)[0] == a[0]);
        assert(b.skip(1).take(a.skip(1).len() as int) =~= a.skip(1));
        lemma_pref_le(a.skip(1), b.skip(1));
    }
}

/// the keys that start with p lie next to each other
pub proof fn lemma_pref_convex(p: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires le(p, a), le(a, b), pref(p, b),
    ensures pref(p, a),
    decreases p.len(),
{
    if p.len() > 0 {
        assert(b.take(p.len() as int)[0] == p[0]);
        assert(a.len() > 0);
        assert(b.skip(1).take(p.skip(1).len() as int) =~= p.skip(1));
        lemma_pref_convex(p.skip(1), a.skip(1), b.skip(1));
        assert(a.take(p.len() as int) =~= p) by {
            assert(a.skip(1).take(p.skip(1).len() as int) == p.skip(1));
            assert forall|i: int| 0 <= i < p.len() implies a[i] == p[i] by { if i > 0 { assert(a.skip(1).take(p.skip(1).len() as int)[i - 1] == p.skip(1)[i - 1]); } }
        }
    } else {
        assert(a.take(0) =~= p);
    }
}

pub proof fn lemma_pref_add(a: Seq<u8>, x: Seq<u8>)
    ensures pref(a, a + x),
{ assert((a + x).take(a.len() as int) =~= a); }

pub proof fn lemma_pref_split(a: Seq<u8>, b: Seq<u8>)
    requires pref(a, b),
    ensures b == a + b.skip(a.len() as int),
{ assert(b =~= b.take(a.len() as int) + b.skip(a.len() as int)); }

/// the first key at or after t
pub open spec fn is_first(kv: KV, t: Seq<u8>, at: Option<Seq<u8>>) -> bool {
    match at {
        Some(k) => kv.contains_key(k) && le(t, k) && forall|o: Seq<u8>| #[trigger] kv.contains_key(o) && le(t, o) ==> le(k, o),
        None => forall|o: Seq<u8>| #[trigger] kv.contains_key(o) ==> !le(t, o),
    }
}

/// the first key after t
pub open spec fn is_next(kv: KV, t: Seq<u8>, at: Option<Seq<u8>>) -> bool {
    match at {
        Some(k) => kv.contains_key(k) && lt(t, k) && forall|o: Seq<u8>| #[trigger] kv.contains_key(o) && lt(t, o) ==> le(k, o),
        None => forall|o: Seq<u8>| #[trigger] kv.contains_key(o) ==> !lt(t, o),
    }
}

/// a seek to p finds a key that starts with p if there is one
pub proof fn lemma_seek_prefix(kv: KV, p: Seq<u8>, at: Option<Seq<u8>>, o: Seq<u8>)
    requires is_first(kv, p, at), kv.contains_key(o), pref(p, o),
    ensures at is Some, pref(p, at->0), le(at->0, o),
{
    lemma_pref_le(p, o);
    lemma_pref_convex(p, at->0, o);
}

/// a step from a key that starts with p goes to the next such key if there is one
pub proof fn lemma_step_prefix(kv: KV, p: Seq<u8>, t: Seq<u8>, at: Option<Seq<u8>>, o: Seq<u8>)
    requires is_next(kv, t, at), pref(p, t), kv.contains_key(o), pref(p, o), lt(t, o),
    ensures at is Some, pref(p, at->0), le(at->0, o),
{
    lemma_pref_le(p, t);
    lemma_le_trans(p, t, at->0);
    lemma_pref_convex(p, at->0, o);
}

pub struct RocksDBIterator { x: u8 }
impl RocksDBIterator {
    /// what the transaction held when the iterator was made
    pub uninterp spec fn snap(&self) -> KV;
    pub uninterp spec fn pos(&self) -> Option<Seq<u8>>;

    #[verifier::external_body]
    pub fn seek(&mut self, key: &[u8])
        ensures final(self).snap() == old(self).snap(), is_first(old(self).snap(), key@, final(self).pos()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn seek_to_first(&mut self)
        ensures final(self).snap() == old(self).snap(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn valid(&self) -> (r: bool)
        ensures r == self.pos() is Some,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn next(&mut self)
        requires old(self).pos() is Some,
        ensures final(self).snap() == old(self).snap(), is_next(old(self).snap(), old(self).pos()->0, final(self).pos()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn copy_key_arc(&self) -> (r: Result<KeyBuf>)
        requires self.pos() is Some,
        ensures match r { Ok(k) => k@ == self.pos()->0, Err(e) => e is Storage },
    { unimplemented!() }

    #[verifier::external_body]
    pub fn copy_key(&self) -> (r: Result<KeyBuf>)
        requires self.pos() is Some,
        ensures match r { Ok(k) => k@ == self.pos()->0, Err(e) => e is Storage },
    { unimplemented!() }

    #[verifier::external_body]
    pub fn copy_data(&self) -> (r: Result<Vec<u8>>)
        requires self.pos() is Some,
        ensures match r { Ok(v) => v@ == self.snap()[self.pos()->0], Err(e) => e is Storage },
    { unimplemented!() }
}

/// Arc<[u8]>
pub struct KeyBuf { pub b: Vec<u8> }
impl View for KeyBuf {
    type V = Seq<u8>;
    open spec fn view(&self) -> Seq<u8> { self.b@ }
}
impl KeyBuf {
    #[verifier::external_body]
    pub fn starts_with(&self, p: &[u8]) -> (r: bool) ensures r == pref(p@, self@), { unimplemented!() }
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@, { self.b.as_slice() }
    pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@, { self.b.as_slice() }
}
#[verifier::external_body]
fn clone_key(k: &Option<KeyBuf>) -> (r: Option<KeyBuf>)
    ensures r is Some == k is Some, r is Some ==> r->0@ == k->0@,
{ unimplemented!() }
#[verifier::external_body]
fn bytes_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@), { unimplemented!() }
#[verifier::external_body]
fn slice_starts_with(a: &[u8], b: &[u8]) -> (r: bool) ensures r == pref(b@, a@), { unimplemented!() }

pub struct RocksDBTransaction { x: u8 }
impl RocksDBTransaction {
    pub uninterp spec fn kv(&self) -> KV;

    #[verifier::external_body]
    pub fn new_iterator(&self) -> (r: RocksDBIterator)
        ensures r.snap() == self.kv(), self.kv().dom().finite(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn get(&self, key: &[u8]) -> (r: Result<Option<Vec<u8>>>)
        ensures match r {
            Ok(Some(v)) => self.kv().contains_key(key@) && v@ == self.kv()[key@],
            Ok(None) => !self.kv().contains_key(key@),
            Err(e) => e is Storage,
        },
    { unimplemented!() }

    #[verifier::external_body]
    pub fn set(&mut self, key: &[u8], value: &[u8]) -> (r: Result<()>)
        ensures match r {
            Ok(_) => final(self).kv() == old(self).kv().insert(key@, value@),
            Err(e) => e is Storage && final(self).kv() == old(self).kv(),
        },
    { unimplemented!() }

    #[verifier::external_body]
    pub fn delete(&mut self, key: &[u8]) -> (r: Result<()>)
        ensures match r {
            Ok(_) => final(self).kv() == old(self).kv().remove(key@),
            Err(e) => e is Storage && final(self).kv() == old(self).kv(),
        },
    { unimplemented!() }
}

pub struct TransactionInner { pub rocksdb_txn: RocksDBTransaction, pub auto_commit: bool }
impl TransactionInner {
    pub open spec fn kv(&self) -> KV { self.rocksdb_txn.kv() }
//@fn src/polodb_core/transaction/transaction_inner.rs TransactionInner::put
//@rw writes go through a mutable transaction: &self ~~> &mut self
//@ret r
//@spec
    ensures match r {
        Ok(_) => final(self).kv() == old(self).kv().insert(key@, value@),
        Err(e) => e is Storage && final(self).kv() == old(self).kv(),
    },
//@end
//@fn src/polodb_core/transaction/transaction_inner.rs TransactionInner::delete
//@rw writes go through a mutable transaction: &self ~~> &mut self
//@ret r
//@spec
    ensures match r {
        Ok(_) => final(self).kv() == old(self).kv().remove(key@),
        Err(e) => e is Storage && final(self).kv() == old(self).kv(),
    },
//@end
}
//@rule writes go through a mutable transaction: txn: &TransactionInner ~~> txn: &mut TransactionInner
//@rule iterators move: let cursor = txn.rocksdb_txn.new_iterator(); ~~> let mut cursor = txn.rocksdb_txn.new_iterator();
//@rule path: crate::Result ~~> Result
//@rule shared bytes: Arc<[u8]> ~~> KeyBuf
//@rule shared bytes: self.current_key.clone() ~~> clone_key(&self.current_key)

// ---- layout ----
pub open spec fn pre1(c: Seq<char>) -> Seq<u8> { enc(Val::Str(c)) }
/// where the document with the primary key p is stored
pub open spec fn dk(c: Seq<char>, p: Val) -> Seq<u8> { pre1(c) + enc(p) }
pub open spec fn ipre(c: Seq<char>) -> Seq<u8> { pre1("$I"@) + pre1(c) }
pub open spec fn ipre2(c: Seq<char>, i: Seq<char>) -> Seq<u8> { ipre(c) + pre1(i) }
/// the entries of index i for the value v
pub open spec fn ik1(c: Seq<char>, i: Seq<char>, v: Val) -> Seq<u8> { ipre2(c, i) + enc(v) }
pub open spec fn ik(c: Seq<char>, i: Seq<char>, v: Val, p: Val) -> Seq<u8> { ik1(c, i, v) + enc(p) }
/// the definition of the collection
pub open spec fn mk(c: Seq<char>) -> Seq<u8> { pre1("$TABLE_META"@) + pre1(c) }

pub open spec fn forbidden(c: char) -> bool { c == '$' || c == '\n' || c == '\t' || c == '\r' || c == '.' }
pub open spec fn okname(c: Seq<char>) -> bool { forall|i: int| 0 <= i < c.len() ==> !forbidden(#[trigger] c[i]) }

/// the keys of a collection
pub open spec fn own(c: Seq<char>, k: Seq<u8>) -> bool { pref(pre1(c), k) || pref(ipre(c), k) || k == mk(c) }

pub proof fn lemma_okname(c: Seq<char>)
    requires okname(c),
    ensures c != "$I"@, c != "$TABLE_META"@, "$I"@ != "$TABLE_META"@,
{
    reveal_strlit("$I");
    reveal_strlit("$TABLE_META");
    assert("$I"@[0] == '$' && "$TABLE_META"@[0] == '$');
    if c == "$I"@ || c == "$TABLE_META"@ { assert(forbidden(c[0])); }
    assert("$I"@.len() == 2 && "$TABLE_META"@.len() == 11);
}

proof fn cat3(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures (a + b) + c == a + (b + c),
{ assert((a + b) + c =~= a + (b + c)); }

/// every key form as one value followed by the rest
proof fn lemma_forms(c: Seq<char>, i: Seq<char>, v: Val, p: Val)
    ensures
        ipre2(c, i) == pre1("$I"@) + (pre1(c) + pre1(i)),
        ik1(c, i, v) == pre1("$I"@) + (pre1(c) + (pre1(i) + enc(v))),
        ik(c, i, v, p) == pre1("$I"@) + (pre1(c) + (pre1(i) + (enc(v) + enc(p)))),
{
    cat3(pre1("$I"@), pre1(c), pre1(i));
    cat3(pre1("$I"@), pre1(c) + pre1(i), enc(v));
    cat3(pre1(c), pre1(i), enc(v));
    cat3(ipre2(c, i), enc(v), enc(p));
    cat3(pre1("$I"@), pre1(c) + pre1(i), enc(v) + enc(p));
    cat3(pre1(c), pre1(i), enc(v) + enc(p));
}

pub proof fn lemma_dk_inj(c: Seq<char>, p: Val, c2: Seq<char>, p2: Val)
    requires dk(c, p) == dk(c2, p2), wf(p), wf(p2),
    ensures c == c2, p == p2,
{
    c01_prefix_free(Val::Str(c), Val::Str(c2), enc(p), enc(p2));
    assert(enc(p) + Seq::<u8>::empty() =~= enc(p));
    assert(enc(p2) + Seq::<u8>::empty() =~= enc(p2));
    c01_prefix_free(p, p2, Seq::empty(), Seq::empty());
}

pub proof fn lemma_pre1_cat(c: Seq<char>, d: Seq<char>, x: Seq<u8>)
    requires pref(pre1(c), pre1(d) + x),
    ensures c == d,
{
    let k = pre1(d) + x;
    lemma_pref_split(pre1(c), k);
    c01_prefix_free(Val::Str(c), Val::Str(d), k.skip(pre1(c).len() as int), x);
}

pub proof fn lemma_ipre_cat(c: Seq<char>, d: Seq<char>, x: Seq<u8>)
    requires pref(ipre(c), pre1("$I"@) + (pre1(d) + x)),
    ensures c == d,
{
    let k = pre1("$I"@) + (pre1(d) + x);
    lemma_pref_split(ipre(c), k);
    let r = k.skip(ipre(c).len() as int);
    cat3(pre1("$I"@), pre1(c), r);
    c01_prefix_free(Val::Str("$I"@), Val::Str("$I"@), pre1(c) + r, pre1(d) + x);
    c01_prefix_free(Val::Str(c), Val::Str(d), r, x);
}

/// the entries found under an index and a value belong to that index and value
pub proof fn lemma_ik1_pref(c: Seq<char>, i: Seq<char>, v: Val, c2: Seq<char>, i2: Seq<char>, v2: Val, p2: Val)
    requires pref(ik1(c, i, v), ik(c2, i2, v2, p2)), wf(v), wf(v2),
    ensures c == c2, i == i2, v == v2,
{
    lemma_forms(c, i, v, v);
    lemma_forms(c2, i2, v2, p2);
    let k = ik(c2, i2, v2, p2);
    lemma_pref_split(ik1(c, i, v), k);
    let r = k.skip(ik1(c, i, v).len() as int);
    cat3(pre1("$I"@), pre1(c) + (pre1(i) + enc(v)), r);
    cat3(pre1(c), pre1(i) + enc(v), r);
    cat3(pre1(i), enc(v), r);
    c01_prefix_free(Val::Str("$I"@), Val::Str("$I"@), pre1(c) + (pre1(i) + (enc(v) + r)), pre1(c2) + (pre1(i2) + (enc(v2) + enc(p2))));
    c01_prefix_free(Val::Str(c), Val::Str(c2), pre1(i) + (enc(v) + r), pre1(i2) + (enc(v2) + enc(p2)));
    c01_prefix_free(Val::Str(i), Val::Str(i2), enc(v) + r, enc(v2) + enc(p2));
    c01_prefix_free(v, v2, r, enc(p2));
}

pub proof fn lemma_ik_inj(c: Seq<char>, i: Seq<char>, v: Val, p: Val, c2: Seq<char>, i2: Seq<char>, v2: Val, p2: Val)
    requires ik(c, i, v, p) == ik(c2, i2, v2, p2), wf(v), wf(v2), wf(p), wf(p2),
    ensures c == c2, i == i2, v == v2, p == p2,
{
    lemma_pref_add(ik1(c, i, v), enc(p));
    lemma_ik1_pref(c, i, v, c2, i2, v2, p2);
    assert(enc(p) =~= ik(c, i, v, p).skip(ik1(c, i, v).len() as int));
    assert(enc(p2) =~= ik(c, i, v, p2).skip(ik1(c, i, v).len() as int));
    assert(enc(p) + Seq::<u8>::empty() =~= enc(p));
    assert(enc(p2) + Seq::<u8>::empty() =~= enc(p2));
    c01_prefix_free(p, p2, Seq::empty(), Seq::empty());
}

/// which keys belong to which collection
pub proof fn lemma_own(c: Seq<char>, i: Seq<char>, v: Val, p: Val)
    requires okname(c), wf(p), wf(v),
    ensures
        pref(pre1(c), dk(c, p)), pref(ipre(c), ik(c, i, v, p)), pref(ik1(c, i, v), ik(c, i, v, p)), pref(ipre2(c, i), ik(c, i, v, p)),
        !pref(ipre(c), dk(c, p)), dk(c, p) != mk(c), dk(c, p) != ik(c, i, v, p),
        !pref(pre1(c), ik(c, i, v, p)), ik(c, i, v, p) != mk(c),
        !pref(pre1(c), mk(c)), !pref(ipre(c), mk(c)),
{
    lemma_okname(c);
    lemma_forms(c, i, v, p);
    lemma_pref_add(pre1(c), enc(p));
    lemma_pref_add(ik1(c, i, v), enc(p));
    cat3(ipre(c), pre1(i), enc(v));
    cat3(ipre(c), pre1(i) + enc(v), enc(p));
    lemma_pref_add(ipre(c), (pre1(i) + enc(v)) + enc(p));
    cat3(ipre2(c, i), enc(v), enc(p));
    lemma_pref_add(ipre2(c, i), enc(v) + enc(p));
    if pref(ipre(c), dk(c, p)) {
        lemma_pref_split(ipre(c), dk(c, p));
        let r = dk(c, p).skip(ipre(c).len() as int);
        cat3(pre1("$I"@), pre1(c), r);
        lemma_pref_add(pre1("$I"@), pre1(c) + r);
        lemma_pre1_cat("$I"@, c, enc(p));
    }
    if pref(pre1(c), ik(c, i, v, p)) { lemma_pre1_cat(c, "$I"@, pre1(c) + (pre1(i) + (enc(v) + enc(p)))); }
    if pref(pre1(c), mk(c)) { lemma_pre1_cat(c, "$TABLE_META"@, pre1(c)); }
    if pref(ipre(c), mk(c)) {
        lemma_pref_split(ipre(c), mk(c));
        let r = mk(c).skip(ipre(c).len() as int);
        cat3(pre1("$I"@), pre1(c), r);
        lemma_pref_add(pre1("$I"@), pre1(c) + r);
        lemma_pre1_cat("$I"@, "$TABLE_META"@, pre1(c));
    }
}

/// no key belongs to two collections
pub proof fn lemma_own_disjoint(c: Seq<char>, d: Seq<char>, k: Seq<u8>)
    requires okname(c), okname(d), own(c, k), own(d, k),
    ensures c == d,
{
    lemma_okname(c);
    lemma_okname(d);
    let a = lemma_own_head(c, k);
    let b = lemma_own_head(d, k);
    c01_prefix_free(Val::Str(a.0), Val::Str(b.0), a.1, b.1);
    if a.0 == "$I"@ {
        lemma_pref_split(pre1(c), a.1);
        lemma_pref_split(pre1(d), a.1);
        c01_prefix_free(Val::Str(c), Val::Str(d), a.1.skip(pre1(c).len() as int), a.1.skip(pre1(d).len() as int));
    } else if a.0 != c {
        assert(pre1(c) + Seq::<u8>::empty() =~= pre1(c));
        assert(pre1(d) + Seq::<u8>::empty() =~= pre1(d));
        c01_prefix_free(Val::Str(c), Val::Str(d), Seq::empty(), Seq::empty());
    }
}

/// the first value of a key of c and what follows
proof fn lemma_own_head(c: Seq<char>, k: Seq<u8>) -> (r: (Seq<char>, Seq<u8>))
    requires own(c, k), okname(c),
    ensures k == pre1(r.0) + r.1,
        pref(pre1(c), k) ==> r.0 == c, !pref(pre1(c), k) && pref(ipre(c), k) ==> r.0 == "$I"@ && pref(pre1(c), r.1), !pref(pre1(c), k) && !pref(ipre(c), k) ==> r.0 == "$TABLE_META"@ && r.1 == pre1(c),
{
    if pref(pre1(c), k) {
        lemma_pref_split(pre1(c), k);
        (c, k.skip(pre1(c).len() as int))
    } else if pref(ipre(c), k) {
        lemma_pref_split(ipre(c), k);
        let r = k.skip(ipre(c).len() as int);
        cat3(pre1("$I"@), pre1(c), r);
        lemma_pref_add(pre1(c), r);
        ("$I"@, pre1(c) + r)
    } else { ("$TABLE_META"@, pre1(c)) }
}

/// the key of a tuple (proved in unit `keys`)
#[verifier::external_body]
fn stacked_key(keys: &Vec<&Bson>) -> (r: Result<Vec<u8>>)
    ensures
        valid(rvals(keys@)) ==> r is Ok && r->Ok_0@ == encs(rvals(keys@)),
        !valid(rvals(keys@)) ==> r is Err && r->Err_0 is NotAValidKeyType,
{ unimplemented!() }
//@rule list argument of stacked_key: crate::utils::bson::stacked_key([$a, $b]) ~~> stacked_key2($a, $b)
//@rule list argument of stacked_key: crate::utils::bson::stacked_key([$a, $b,]) ~~> stacked_key2($a, $b)
//@rule list argument of stacked_key: crate::utils::bson::stacked_key(&[$a, $b]) ~~> stacked_key2(&$a, &$b)
//@rule list argument of stacked_key: crate::utils::bson::stacked_key(&[$a, $b,]) ~~> stacked_key2(&$a, &$b)
//@rule list argument of stacked_key: crate::utils::bson::stacked_key(vec![$a, $b]) ~~> stacked_key2($a, $b)
//@rule list argument of stacked_key: crate::utils::bson::stacked_key([$a]) ~~> stacked_key1($a)
//@rule list argument of stacked_key: crate::utils::bson::stacked_key([$a,]) ~~> stacked_key1($a)
//@rule list argument of stacked_key: crate::utils::bson::stacked_key($i_b) ~~> stacked_key(&$i_b)

proof fn lemma_encs(vs: Seq<Val>)
    ensures
        vs.len() == 1 ==> encs(vs) == enc(vs[0]),
        vs.len() == 2 ==> encs(vs) == enc(vs[0]) + enc(vs[1]),
        vs.len() == 4 ==> encs(vs) == enc(vs[0]) + (enc(vs[1]) + (enc(vs[2]) + enc(vs[3]))),
        vs.len() == 5 ==> encs(vs) == enc(vs[0]) + (enc(vs[1]) + (enc(vs[2]) + (enc(vs[3]) + enc(vs[4])))),
{
    reveal_with_fuel(encs, 6);
    assert forall|x: Seq<u8>| #[trigger] (x + Seq::<u8>::empty()) == x by { assert(x + Seq::<u8>::empty() =~= x); }
    let t = |n: int| vs.skip(n);
    if vs.len() >= 2 { assert(vs.skip(1).skip(1) =~= vs.skip(2)); }
    if vs.len() >= 4 {
        assert(vs.skip(2).skip(1) =~= vs.skip(3));
        assert(vs.skip(3).skip(1) =~= vs.skip(4));
        if vs.len() == 5 { assert(vs.skip(4).skip(1) =~= vs.skip(5)); }
    }
}

fn stacked_key1(a: &Bson) -> (r: Result<Vec<u8>>)
    ensures
        wf(val(*a)) ==> r is Ok && r->Ok_0@ == enc(val(*a)),
        !wf(val(*a)) ==> r is Err && r->Err_0 is NotAValidKeyType,
{
    let mut v: Vec<&Bson> = Vec::new();
    v.push(a);
    proof { assert(rvals(v@)[0] == val(*a)); lemma_encs(rvals(v@)); }
    stacked_key(&v)
}

fn stacked_key2(a: &Bson, b: &Bson) -> (r: Result<Vec<u8>>)
    ensures
        wf(val(*a)) && wf(val(*b)) ==> r is Ok && r->Ok_0@ == enc(val(*a)) + enc(val(*b)),
        !(wf(val(*a)) && wf(val(*b))) ==> r is Err && r->Err_0 is NotAValidKeyType,
{
    let mut v: Vec<&Bson> = Vec::new();
    v.push(a);
    v.push(b);
    proof { assert(rvals(v@)[0] == val(*a) && rvals(v@)[1] == val(*b)); lemma_encs(rvals(v@)); }
    stacked_key(&v)
}

/// how many keys are left from a position on
pub open spec fn left(kv: KV, at: Option<Seq<u8>>) -> nat {
    match at { Some(t) => kv.dom().filter(|k: Seq<u8>| le(t, k)).len(), None => 0 }
}
pub proof fn lemma_left(kv: KV, t: Seq<u8>, at: Option<Seq<u8>>)
    requires kv.dom().finite(), kv.contains_key(t), is_next(kv, t, at),
    ensures left(kv, at) < left(kv, Some(t)),
{
    let a = kv.dom().filter(|k: Seq<u8>| le(t, k));
    lemma_le_refl(t);
    assert(a.contains(t));
    assert(a.len() > 0) by { if a.len() == 0 { assert(a =~= Set::<Seq<u8>>::empty()); } }
    match at {
        None => {}
        Some(u) => {
            let b = kv.dom().filter(|k: Seq<u8>| le(u, k));
            assert forall|k: Seq<u8>| b.contains(k) implies a.contains(k) by { lemma_le_trans(t, u, k); }
            assert(!b.contains(t)) by { if le(u, t) { lemma_le_total(t, u); } }
            assert(b.subset_of(a.remove(t)));
            vstd::set_lib::lemma_len_subset(b, a.remove(t));
        }
    }
}

/// key of a value appended (proved in unit `keys`)
#[verifier::external_body]
fn stacked_key_bytes(w: &mut Vec<u8>, key: &Bson) -> (r: Result<()>)
    ensures
        wf(val(*key)) ==> r is Ok && final(w)@ == old(w)@ + enc(val(*key)),
        !wf(val(*key)) ==> r is Err && r->Err_0 is NotAValidKeyType,
{ unimplemented!() }
#[verifier::external_body]
fn own_name<T: OwnName>(s: T) -> (r: String) ensures r@ == s.onm(), { unimplemented!() }
//@rule path: crate::utils::bson::stacked_key_bytes ~~> stacked_key_bytes
//@rule comparison of bytes: Ok($i_f.as_ref().cmp($i_k) == Ordering::Equal) ~~> Ok(bytes_eq($i_f.as_ref(), $i_k))
//@rule comparison of bytes: $i_f.as_ref().starts_with($x) ~~> $i_f.starts_with($x)
