// ---- isolation (C02) ----
/// whatever changes only keys of c leaves every other collection as it was
proof fn c02_isolation(a: KV, b: KV, c: Seq<char>, d: Seq<char>)
    requires okname(c), okname(d), c != d, only(a, b, c),
    ensures
        spec_at(a, d) == spec_at(b, d),
        forall|p: Val| wf(p) ==> #[trigger] doc_at(a, d, p) == doc_at(b, d, p),
        forall|k: Seq<u8>| own(d, k) ==> a.contains_key(k) == #[trigger] b.contains_key(k),
        inv(a, d) ==> inv(b, d),
{
    assert forall|k: Seq<u8>| own(d, k) implies !own(c, k) by { if own(c, k) { lemma_own_disjoint(c, d, k); } }
    assert(own(d, mk(d)));
    assert forall|p: Val| wf(p) implies #[trigger] doc_at(a, d, p) == doc_at(b, d, p) by {
        lemma_own(d, d, p, p);
        assert(own(d, dk(d, p)));
    }
    assert forall|k: Seq<u8>| own(d, k) implies a.contains_key(k) == #[trigger] b.contains_key(k) by { assert(!own(c, k)); }
    if inv(a, d) {
        let l = il_at(a, d);
        assert(il_at(b, d) == l);
        assert forall|k: Seq<u8>| #[trigger] b.contains_key(k) && pref(pre1(d), k) implies doc_key(b, d, k) by {
            assert(own(d, k));
            assert(!own(c, k));
            assert(a.contains_key(k));
        }
        assert forall|k: Seq<u8>| #[trigger] b.contains_key(k) && pref(ipre(d), k) implies exists|j: int, p: Val| 0 <= j < l.len() && #[trigger] is_entry(b, d, l[j], p, k) by {
            assert(own(d, k));
            assert(!own(c, k));
            assert(a.contains_key(k));
            let (j, p) = choose|j: int, p: Val| 0 <= j < l.len() && #[trigger] is_entry(a, d, l[j], p, k);
            assert(is_entry(b, d, l[j], p, k));
        }
        assert forall|j: int| 0 <= j < l.len() implies indexed(b, d, #[trigger] l[j]) by {
            assert(indexed(a, d, l[j]));
            assert forall|p: Val| wf(p) && (#[trigger] doc_at(b, d, p)) is Some implies has_entry(b, d, l[j], p) by {
                assert(doc_at(a, d, p) is Some);
                match pathv(doc_at(a, d, p)->0, l[j].1.path) {
                    Some(v) => { lemma_own(d, l[j].0, v, p); assert(own(d, ik(d, l[j].0, v, p))); }
                    None => {}
                }
            }
        }
        assert forall|j: int| 0 <= j < l.len() && l[j].1.unique implies unique_ok(b, d, #[trigger] l[j]) by {
            assert(unique_ok(a, d, l[j]));
            assert forall|p: Val, q: Val| wf(p) && wf(q) && (#[trigger] doc_at(b, d, p)) is Some && (#[trigger] doc_at(b, d, q)) is Some
                && pathv(doc_at(b, d, p)->0, l[j].1.path) is Some
                && pathv(doc_at(b, d, p)->0, l[j].1.path) == pathv(doc_at(b, d, q)->0, l[j].1.path) implies p == q by {
                assert(doc_at(a, d, p) is Some && doc_at(a, d, q) is Some);
            }
        }
    }
}

// ---- the value at an indexed path ----
#[verifier::external_body]
fn split_path(key: &str) -> (r: Vec<&str>)
    ensures r@.map_values(|s: &str| s@) == parts(key@), r@.len() > 0,
{ unimplemented!() }
#[verifier::external_body]
fn rest<'a>(s: &'a [&'a str]) -> (r: &'a [&'a str]) requires s@.len() > 0, ensures r@ == s@.skip(1), { unimplemented!() }
//@fn src/polodb_core/utils/bson.rs try_get_document_value
//@rw splitting by contract: $i_k.split('.').collect::<Vec<&str>>() ~~> split_path($i_k)
//@ret r
//@spec
    ensures (match r { Some(b) => pv(*doc, parts(key@)) == Some(b), None => pv(*doc, parts(key@)) is None }),
//@end
//@fn src/polodb_core/utils/bson.rs try_get_document_by_slices
//@rw slice behind the first element: &$i_k[1..] ~~> rest($i_k)
//@rw and_then over the first element as a match: first.and_then(|$i_f| { $s_b }) ~~> match first { Some($i_f) => { $s_b } None => None, }
//@rw name argument: doc.get($i_f) ~~> doc.get(*$i_f)
//@ret r
//@spec
    ensures (match r { Some(b) => pv(*doc, keys@.map_values(|s: &str| s@)) == Some(b), None => pv(*doc, keys@.map_values(|s: &str| s@)) is None }),
    decreases keys@.len(),
//@start
    proof {
        if keys@.len() > 0 { assert(keys@.map_values(|s: &str| s@).skip(1) =~= keys@.skip(1).map_values(|s: &str| s@)); }
    }
//@end

// ---- index keys and entries ----
//@const src/polodb_core/index/index_helper.rs INDEX_PREFIX
#[derive(Structural, PartialEq, Eq, Clone, Copy)]
pub enum IndexHelperOperation { Insert, Delete }
#[verifier::external_body]
fn str_own(s: &str) -> (r: String) ensures r@ == s@, { unimplemented!() }
#[verifier::external_body]
fn vec4<'a>(a: &'a Bson, b: &'a Bson, c: &'a Bson, d: &'a Bson) -> (r: Vec<&'a Bson>) ensures r@ == seq![a, b, c, d], { unimplemented!() }
#[verifier::external_body]
fn slice_to_vec(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@, { unimplemented!() }
//@rule bytes of a slice as a vector: $i_x.to_vec() ~~> slice_to_vec($i_x)
//@rule path: crate::utils::bson::try_get_document_value ~~> try_get_document_value
//@rule owned string: $i_x.to_string() ~~> str_own($i_x)
//@rule list of four: vec![$a, $b, $c, $d,] ~~> vec4($a, $b, $c, $d)
//@rule list of four: vec![$a, $b, $c, $d] ~~> vec4($a, $b, $c, $d)
//@rule refused, whatever the message: return Err(DuplicateKeyError { $m }.into()); ~~> return Err(Error::DuplicateKey);
//@rule element type number: ElementType::$i_x as u8 ~~> et(ElementType::$i_x)
//@rule the pairs of a map: = $x.iter().collect::<Vec<(&String, &i8)>>() ~~> = pairs(&$x)
//@rule the only pair of a map: = $x.first().unwrap() ~~> = &$x[0]
#[verifier::external_body]
fn pairs<'a>(m: &'a IndexMap<String, i8>) -> (r: Vec<(&'a String, &'a i8)>)
    ensures r@.len() == m.entries@.len(), forall|j: int| 0 <= j < r@.len() ==> *(#[trigger] r@[j]).0 == m.entries@[j].0,
{ unimplemented!() }

pub open spec fn taken(kv: KV, c: Seq<char>, i: Seq<char>, v: Val) -> bool {
    exists|k: Seq<u8>| #[trigger] kv.contains_key(k) && pref(ik1(c, i, v), k)
}
pub open spec fn null_byte() -> Seq<u8> { seq![10u8] }
/// what maintaining one index for a document does; None is a refusal
pub open spec fn ix1(kv: KV, c: Seq<char>, i: (Seq<char>, Idx), d: Document, p: Val, op: IndexHelperOperation) -> Option<KV> {
    match pathv(d, i.1.path) {
        None => Some(kv),
        Some(v) =>
            if !wf(v) || !wf(p) { None }
            else if op == IndexHelperOperation::Delete { Some(kv.remove(ik(c, i.0, v, p))) }
            else if i.1.unique && taken(kv, c, i.0, v) { None }
            else { Some(kv.insert(ik(c, i.0, v, p), null_byte())) },
    }
}
/// a duplicate is reported only if there is one
pub open spec fn dup1(kv: KV, c: Seq<char>, i: (Seq<char>, Idx), d: Document) -> bool {
    i.1.unique && pathv(d, i.1.path) is Some && wf(pathv(d, i.1.path)->0) && taken(kv, c, i.0, pathv(d, i.1.path)->0)
}

impl IndexInfo {
//@fn src/polodb_core/coll/collection_info.rs IndexInfo::is_unique
//@rw option chain as a match: $x.as_ref().and_then(|$i_o| $b).unwrap_or(false) ~~> match &$x { Some($i_o) => match $b { Some(u) => u, None => false }, None => false }
//@ret r
//@spec
    ensures r == idx(*self).unique,
//@end
}

//@fn src/polodb_core/index/index_helper.rs make_index_key_with_query_key
//@ret r
//@spec
    ensures
        wf(val(*query_value)) ==> r is Ok && r->Ok_0@ == prefix_bytes@ + enc(val(*query_value)),
        !wf(val(*query_value)) ==> r is Err && r->Err_0 is NotAValidKeyType,
//@end

pub struct IndexHelper<'b, 'c, 'd, 'e> {
    txn: &'b mut TransactionInner,
    col_spec: &'c CollectionSpecification,
    doc: &'d Document,
    pkey: &'e Bson,
}
impl<'b, 'c, 'd, 'e> IndexHelper<'b, 'c, 'd, 'e> {
//@fn src/polodb_core/index/index_helper.rs IndexHelper::make_index_key
//@ret r
//@spec
    ensures
        wf(val(*value)) && (pkey is Some ==> wf(val(*pkey->0))) ==> r is Ok
            && r->Ok_0@ == (match pkey { Some(p) => ik(col_name@, index_name@, val(*value), val(*p)), None => ik1(col_name@, index_name@, val(*value)) }),
        !(wf(val(*value)) && (pkey is Some ==> wf(val(*pkey->0)))) ==> r is Err && r->Err_0 is NotAValidKeyType,
//@bind stacked_key(&$i_b)
//@before stacked_key(&
    proof {
        let vs = rvals($i_b@);
        lemma_encs(vs);
        lemma_forms(col_name@, index_name@, val(*value), match pkey { Some(p) => val(*p), None => Val::Null });
        assert(vs[0] == Val::Str("$I"@) && vs[1] == Val::Str(col_name@) && vs[2] == Val::Str(index_name@) && vs[3] == val(*value));
        if pkey is Some { assert(vs[4] == val(*pkey->0)); }
    }
//@end
//@fn src/polodb_core/index/index_helper.rs IndexHelper::check_unique_key
//@ret r
//@spec
    ensures
        final(txn).kv() == old(txn).kv(),
        match r {
            Ok(_) => wf(val(*value)) && !taken(old(txn).kv(), col_name@, index_name@, val(*value)),
            Err(e) => e is Storage || (!wf(val(*value)) && e is NotAValidKeyType)
                || (wf(val(*value)) && e is DuplicateKey && taken(old(txn).kv(), col_name@, index_name@, val(*value))),
        },
//@bind cursor.seek(&$x);
//@after cursor.seek(&$x);
    proof {
        assert forall|o: Seq<u8>| #[trigger] cursor.snap().contains_key(o) && pref($x@, o) implies cursor.pos() is Some && pref($x@, cursor.pos()->0) by {
            lemma_seek_prefix(cursor.snap(), $x@, cursor.pos(), o);
        }
    }
//@end
//@fn src/polodb_core/index/index_helper.rs IndexHelper::try_execute_with_index_info
//@ret r
//@spec
    requires wf_info(*index_info),
    ensures
        match r {
            Ok(_) => ix1(old(txn).kv(), col_name@, (index_name@, idx(*index_info)), *data_doc, val(*pkey), op) == Some(final(txn).kv()),
            Err(e) => final(txn).kv() == old(txn).kv()
                && (e is Storage || ix1(old(txn).kv(), col_name@, (index_name@, idx(*index_info)), *data_doc, val(*pkey), op) is None)
                && (e is DuplicateKey ==> dup1(old(txn).kv(), col_name@, (index_name@, idx(*index_info)), *data_doc)),
        },
//@bind let $i_v = [et(
//@after let $i_v = [$x];
    proof { assert($i_v@ =~= null_byte()); }
//@end
//@fn src/polodb_core/index/index_helper.rs IndexHelper::new
//@rw writes go through a mutable transaction: txn: &'b TransactionInner ~~> txn: &'b mut TransactionInner
//@ret r
//@spec
    ensures *r.txn == *old(txn), *final(r.txn) == *final(txn), r.col_spec == col_spec, r.doc == doc, r.pkey == pkey,
//@end
//@fn src/polodb_core/index/index_helper.rs IndexHelper::execute
//@rw loop over the indexes as an indexed loop: for ($i_k, $i_v) in $x.iter() { ~~> let mut zi: usize = 0; while zi < $x.entries.len() { let ($i_k, $i_v) = &$x.entries[zi]; zi = zi + 1;
//@rw reborrow: self.txn ~~> &mut *self.txn
//@ret r
//@spec
    requires wf_spec(*old(self).col_spec),
    ensures
        *final(old(self).txn) == *final(final(self).txn),
        final(self).col_spec == old(self).col_spec,
        match r {
            Ok(_) => ixn(old(self).txn.kv(), old(self).col_spec._id@, il(*old(self).col_spec), il(*old(self).col_spec).len() as int, *old(self).doc, val(*old(self).pkey), op) == Some(final(self).txn.kv()),
            Err(e) => exists|n: int| n >= 0 && some(#[trigger] il(*old(self).col_spec)[n]) && stopped(n, old(self).txn.kv(), old(self).col_spec._id@, il(*old(self).col_spec), *old(self).doc, val(*old(self).pkey), op, e, final(self).txn.kv()),
        },
//@bind let $i_m = &self.col_spec.indexes;
//@loopstart 0
    proof { assert(il(*self.col_spec)[zi as int] == ($i_m.entries@[zi as int].0@, idx($i_m.entries@[zi as int].1))); }
//@loop 0
    invariant
        zi <= $i_m.entries.len(),
        *$i_m == self.col_spec.indexes,
        wf_spec(*self.col_spec),
        self.col_spec == old(self).col_spec, self.doc == old(self).doc, self.pkey == old(self).pkey,
        ixn(old(self).txn.kv(), self.col_spec._id@, il(*self.col_spec), zi as int, *self.doc, val(*self.pkey), op) == Some(self.txn.kv()),
    decreases $i_m.entries.len() - zi,
//@end
}
pub open spec fn some<A>(a: A) -> bool { true }
/// maintaining the first n indexes, one after the other
pub open spec fn ixn(kv: KV, c: Seq<char>, l: Seq<(Seq<char>, Idx)>, n: int, d: Document, p: Val, op: IndexHelperOperation) -> Option<KV>
    decreases n,
{
    if n <= 0 { Some(kv) } else { match ixn(kv, c, l, n - 1, d, p, op) { None => None, Some(k) => ix1(k, c, l[n - 1], d, p, op) } }
}
pub open spec fn stopped(n: int, kv: KV, c: Seq<char>, l: Seq<(Seq<char>, Idx)>, d: Document, p: Val, op: IndexHelperOperation, e: Error, now: KV) -> bool {
    &&& 0 <= n < l.len()
    &&& ixn(kv, c, l, n, d, p, op) == Some(now)
    &&& e is Storage || ix1(now, c, l[n], d, p, op) is None
    &&& e is DuplicateKey ==> dup1(now, c, l[n], d)
}

// ---- what maintaining the indexes does to the invariant ----
/// the entry of index i for the document d with the key p
pub open spec fn entry_of(c: Seq<char>, i: (Seq<char>, Idx), d: Document, p: Val, k: Seq<u8>) -> bool {
    pathv(d, i.1.path) is Some && k == ik(c, i.0, pathv(d, i.1.path)->0, p)
}
pub open spec fn new_key(c: Seq<char>, l: Seq<(Seq<char>, Idx)>, n: int, d: Document, p: Val, k: Seq<u8>) -> bool {
    exists|j: int| 0 <= j < n && entry_of(c, #[trigger] l[j], d, p, k)
}

proof fn lemma_ixn_insert(kv: KV, c: Seq<char>, l: Seq<(Seq<char>, Idx)>, n: int, d: Document, p: Val, r: KV)
    requires 0 <= n <= l.len(), okname(c), wf(p), ixn(kv, c, l, n, d, p, IndexHelperOperation::Insert) == Some(r),
    ensures ({
        &&& forall|k: Seq<u8>| #[trigger] r.contains_key(k) == (kv.contains_key(k) || new_key(c, l, n, d, p, k))
        &&& forall|k: Seq<u8>| kv.contains_key(k) && !pref(ipre(c), k) ==> #[trigger] r[k] == kv[k]
        &&& forall|k: Seq<u8>| kv.contains_key(k) && !own(c, k) ==> #[trigger] r[k] == kv[k]
        &&& forall|j: int| 0 <= j < n && pathv(d, l[j].1.path) is Some ==> wf(pathv(d, (#[trigger] l[j]).1.path)->0) && (l[j].1.unique ==> !taken(kv, c, l[j].0, pathv(d, l[j].1.path)->0))
    }),
    decreases n,
{
    if n > 0 {
        let a = ixn(kv, c, l, n - 1, d, p, IndexHelperOperation::Insert)->0;
        lemma_ixn_insert(kv, c, l, n - 1, d, p, a);
        let i = l[n - 1];
        assert forall|k: Seq<u8>| #[trigger] r.contains_key(k) == (kv.contains_key(k) || new_key(c, l, n, d, p, k)) by {
            assert(a.contains_key(k) == (kv.contains_key(k) || new_key(c, l, n - 1, d, p, k)));
            if new_key(c, l, n, d, p, k) && !new_key(c, l, n - 1, d, p, k) { assert(entry_of(c, i, d, p, k)); }
            if new_key(c, l, n - 1, d, p, k) {
                let j = choose|j: int| 0 <= j < n - 1 && entry_of(c, #[trigger] l[j], d, p, k);
                assert(entry_of(c, l[j], d, p, k));
            }
            if r.contains_key(k) && !a.contains_key(k) { assert(entry_of(c, l[n - 1], d, p, k)); }
        }
        if pathv(d, i.1.path) is Some {
            let v = pathv(d, i.1.path)->0;
            lemma_own(c, i.0, v, p);
            assert(own(c, ik(c, i.0, v, p)));
            if i.1.unique && taken(kv, c, i.0, v) {
                let k = choose|k: Seq<u8>| #[trigger] kv.contains_key(k) && pref(ik1(c, i.0, v), k);
                assert(a.contains_key(k));
            }
        }
        assert forall|k: Seq<u8>| kv.contains_key(k) && !pref(ipre(c), k) implies #[trigger] r[k] == kv[k] by { assert(a[k] == kv[k]); }
        assert forall|k: Seq<u8>| kv.contains_key(k) && !own(c, k) implies #[trigger] r[k] == kv[k] by { assert(a[k] == kv[k]); }
    }
}

proof fn lemma_ixn_delete(kv: KV, c: Seq<char>, l: Seq<(Seq<char>, Idx)>, n: int, d: Document, p: Val, r: KV)
    requires 0 <= n <= l.len(), okname(c), wf(p), ixn(kv, c, l, n, d, p, IndexHelperOperation::Delete) == Some(r),
    ensures ({
        &&& forall|k: Seq<u8>| #[trigger] r.contains_key(k) == (kv.contains_key(k) && !new_key(c, l, n, d, p, k))
        &&& forall|k: Seq<u8>| r.contains_key(k) ==> #[trigger] r[k] == kv[k]
        &&& forall|j: int| 0 <= j < n && pathv(d, l[j].1.path) is Some ==> wf(pathv(d, (#[trigger] l[j]).1.path)->0)
    }),
    decreases n,
{
    if n > 0 {
        let a = ixn(kv, c, l, n - 1, d, p, IndexHelperOperation::Delete)->0;
        lemma_ixn_delete(kv, c, l, n - 1, d, p, a);
        let i = l[n - 1];
        assert forall|k: Seq<u8>| #[trigger] r.contains_key(k) == (kv.contains_key(k) && !new_key(c, l, n, d, p, k)) by {
            assert(a.contains_key(k) == (kv.contains_key(k) && !new_key(c, l, n - 1, d, p, k)));
            if new_key(c, l, n, d, p, k) && !new_key(c, l, n - 1, d, p, k) { assert(entry_of(c, i, d, p, k)); }
            if new_key(c, l, n - 1, d, p, k) {
                let j = choose|j: int| 0 <= j < n - 1 && entry_of(c, #[trigger] l[j], d, p, k);
                assert(entry_of(c, l[j], d, p, k));
            }
            if !r.contains_key(k) && a.contains_key(k) { assert(entry_of(c, l[n - 1], d, p, k)); }
        }
        assert forall|k: Seq<u8>| r.contains_key(k) implies #[trigger] r[k] == kv[k] by { assert(a.contains_key(k)); assert(a[k] == kv[k]); }
    }
}

proof fn lemma_new_key(c: Seq<char>, l: Seq<(Seq<char>, Idx)>, d: Document, p: Val, k: Seq<u8>)
    requires okname(c), wf(p), new_key(c, l, l.len() as int, d, p, k),
        forall|j: int| 0 <= j < l.len() && pathv(d, l[j].1.path) is Some ==> wf(pathv(d, (#[trigger] l[j]).1.path)->0),
    ensures own(c, k), pref(ipre(c), k), !pref(pre1(c), k), k != mk(c), forall|q: Val| wf(q) ==> k != #[trigger] dk(c, q),
{
    let j = choose|j: int| 0 <= j < l.len() && entry_of(c, #[trigger] l[j], d, p, k);
    let v = pathv(d, l[j].1.path)->0;
    lemma_own(c, l[j].0, v, p);
    assert forall|q: Val| wf(q) implies k != #[trigger] dk(c, q) by { lemma_own(c, l[j].0, v, q); }
}

/// a new document, written and then indexed, keeps the invariant
proof fn c08_insert(kv: KV, c: Seq<char>, s: CollectionSpecification, d: Document, p: Val, b: Seq<u8>, kv2: KV)
    requires
        okname(c), inv(kv, c), spec_at(kv, c) == Some(s), wf(p), pk(d) == Some(p), !kv.contains_key(dk(c, p)), ser(d) == Some(b),
        ixn(kv.insert(dk(c, p), b), c, il(s), il(s).len() as int, d, p, IndexHelperOperation::Insert) == Some(kv2),
    ensures
        inv(kv2, c), only(kv, kv2, c), spec_at(kv2, c) == Some(s),
        doc_at(kv2, c, p) == Some(d),
        forall|q: Val| wf(q) && q != p ==> #[trigger] doc_at(kv2, c, q) == doc_at(kv, c, q),
{
    broadcast use ax_ser;
    let kv1 = kv.insert(dk(c, p), b);
    let l = il(s);
    assert(ser(d) is Some);
    lemma_ixn_insert(kv1, c, l, l.len() as int, d, p, kv2);
    lemma_own(c, c, p, p);
    assert(own(c, dk(c, p)));
    assert forall|k: Seq<u8>| #[trigger] new_key(c, l, l.len() as int, d, p, k) implies own(c, k) && pref(ipre(c), k) && !pref(pre1(c), k) && k != mk(c) by {
        lemma_new_key(c, l, d, p, k);
    }
    assert forall|q: Val| wf(q) implies !new_key(c, l, l.len() as int, d, p, #[trigger] dk(c, q)) && !pref(ipre(c), dk(c, q)) && (q != p ==> dk(c, q) != dk(c, p)) && dk(c, q) != mk(c) by {
        if new_key(c, l, l.len() as int, d, p, dk(c, q)) { lemma_new_key(c, l, d, p, dk(c, q)); }
        lemma_own(c, c, q, q);
        if q != p && dk(c, q) == dk(c, p) { lemma_dk_inj(c, q, c, p); }
    }
    assert(kv.contains_key(mk(c)));
    assert(kv1.contains_key(mk(c)));
    assert(kv2.contains_key(mk(c)));
    assert(kv2[mk(c)] == kv[mk(c)]);
    assert forall|q: Val| wf(q) && q != p implies #[trigger] doc_at(kv2, c, q) == doc_at(kv, c, q) by {
        let k = dk(c, q);
        assert(kv2.contains_key(k) == (kv1.contains_key(k) || new_key(c, l, l.len() as int, d, p, k)));
        if kv.contains_key(k) { assert(kv2[k] == kv1[k]); }
    }
    assert(kv2.contains_key(dk(c, p)));
    assert(kv2[dk(c, p)] == kv1[dk(c, p)]);
    assert(doc_at(kv2, c, p) == Some(d));
    assert forall|k: Seq<u8>| #[trigger] kv2.contains_key(k) && pref(pre1(c), k) implies doc_key(kv2, c, k) by {
        assert(kv1.contains_key(k));
        lemma_pref_split(pre1(c), k);
        if k != dk(c, p) {
            assert(kv.contains_key(k));
            assert(doc_key(kv, c, k));
            let q = pk(de(kv[k])->0)->0;
            assert(kv2[k] == kv1[k]) by { lemma_own(c, c, q, q); }
        }
    }
    assert forall|k: Seq<u8>| #[trigger] kv2.contains_key(k) && pref(ipre(c), k) implies exists|j: int, q: Val| 0 <= j < l.len() && #[trigger] is_entry(kv2, c, l[j], q, k) by {
        if new_key(c, l, l.len() as int, d, p, k) {
            let j = choose|j: int| 0 <= j < l.len() && entry_of(c, #[trigger] l[j], d, p, k);
            assert(is_entry(kv2, c, l[j], p, k));
        } else {
            assert(kv1.contains_key(k));
            assert(kv.contains_key(k));
            let (j, q) = choose|j: int, q: Val| 0 <= j < l.len() && #[trigger] is_entry(kv, c, l[j], q, k);
            assert(q != p);
            assert(doc_at(kv2, c, q) == doc_at(kv, c, q));
            assert(is_entry(kv2, c, l[j], q, k));
        }
    }
    assert forall|j: int| 0 <= j < l.len() implies indexed(kv2, c, #[trigger] l[j]) by {
        assert(indexed(kv, c, l[j]));
        assert forall|q: Val| wf(q) && (#[trigger] doc_at(kv2, c, q)) is Some implies has_entry(kv2, c, l[j], q) by {
            if q != p {
                assert(doc_at(kv, c, q) is Some);
                assert(has_entry(kv, c, l[j], q));
            } else if pathv(d, l[j].1.path) is Some {
                assert(entry_of(c, l[j], d, p, ik(c, l[j].0, pathv(d, l[j].1.path)->0, p)));
            }
        }
    }
    assert forall|j: int| 0 <= j < l.len() && l[j].1.unique implies unique_ok(kv2, c, #[trigger] l[j]) by {
        assert(unique_ok(kv, c, l[j]));
        assert(indexed(kv, c, l[j]));
        assert forall|q: Val, t: Val| wf(q) && wf(t) && (#[trigger] doc_at(kv2, c, q)) is Some && (#[trigger] doc_at(kv2, c, t)) is Some
            && pathv(doc_at(kv2, c, q)->0, l[j].1.path) is Some
            && pathv(doc_at(kv2, c, q)->0, l[j].1.path) == pathv(doc_at(kv2, c, t)->0, l[j].1.path) implies q == t by {
            if q != t {
                if q != p && t != p {
                    assert(doc_at(kv, c, q) is Some && doc_at(kv, c, t) is Some);
                } else {
                    let o = if q == p { t } else { q };
                    let v = pathv(d, l[j].1.path)->0;
                    assert(doc_at(kv, c, o) is Some);
                    assert(has_entry(kv, c, l[j], o));
                    lemma_own(c, l[j].0, v, o);
                    assert(kv1.contains_key(ik(c, l[j].0, v, o)));
                    assert(taken(kv1, c, l[j].0, v));
                }
            }
        }
    }
    assert(il_at(kv2, c) == l);
}

/// removing the entries of a document and then the document keeps the invariant
proof fn c08_delete(kv: KV, c: Seq<char>, s: CollectionSpecification, d: Document, p: Val, kv1: KV)
    requires
        okname(c), inv(kv, c), spec_at(kv, c) == Some(s), wf(p), doc_at(kv, c, p) == Some(d),
        ixn(kv, c, il(s), il(s).len() as int, d, p, IndexHelperOperation::Delete) == Some(kv1),
    ensures
        pk(d) == Some(p),
        kv1.contains_key(dk(c, p)), kv1[dk(c, p)] == kv[dk(c, p)],
        only(kv, kv1.remove(dk(c, p)), c), spec_at(kv1.remove(dk(c, p)), c) == Some(s),
        inv(kv1.remove(dk(c, p)), c),
        doc_at(kv1.remove(dk(c, p)), c, p) is None,
        forall|q: Val| wf(q) && q != p ==> #[trigger] doc_at(kv1.remove(dk(c, p)), c, q) == doc_at(kv, c, q),
{
    let kv2 = kv1.remove(dk(c, p));
    let l = il(s);
    lemma_ixn_delete(kv, c, l, l.len() as int, d, p, kv1);
    lemma_own(c, c, p, p);
    assert(own(c, dk(c, p)));
    assert forall|k: Seq<u8>| #[trigger] new_key(c, l, l.len() as int, d, p, k) implies own(c, k) && pref(ipre(c), k) && !pref(pre1(c), k) && k != mk(c) by {
        lemma_new_key(c, l, d, p, k);
    }
    assert forall|q: Val| wf(q) implies !new_key(c, l, l.len() as int, d, p, #[trigger] dk(c, q)) && !pref(ipre(c), dk(c, q)) && (q != p ==> dk(c, q) != dk(c, p)) && dk(c, q) != mk(c) && pref(pre1(c), dk(c, q)) by {
        if new_key(c, l, l.len() as int, d, p, dk(c, q)) { lemma_new_key(c, l, d, p, dk(c, q)); }
        lemma_own(c, c, q, q);
        if q != p && dk(c, q) == dk(c, p) { lemma_dk_inj(c, q, c, p); }
    }
    assert(kv.contains_key(dk(c, p)));
    assert(doc_key(kv, c, dk(c, p)));
    assert(pk(d) == Some(p)) by { lemma_dk_inj(c, p, c, pk(d)->0); }
    assert(!new_key(c, l, l.len() as int, d, p, dk(c, p)));
    assert(kv1.contains_key(mk(c)));
    assert(kv2.contains_key(mk(c)));
    assert(kv2[mk(c)] == kv1[mk(c)]);
    assert(kv1[mk(c)] == kv[mk(c)]);
    assert forall|k: Seq<u8>| kv2.contains_key(k) implies kv.contains_key(k) && #[trigger] kv2[k] == kv[k] by { assert(kv1.contains_key(k)); assert(kv1[k] == kv[k]); }
    assert forall|q: Val| wf(q) && q != p implies #[trigger] doc_at(kv2, c, q) == doc_at(kv, c, q) by {
        let k = dk(c, q);
        assert(kv1.contains_key(k) == (kv.contains_key(k) && !new_key(c, l, l.len() as int, d, p, k)));
        if kv.contains_key(k) { assert(kv2.contains_key(k)); assert(kv2[k] == kv[k]); }
    }
    assert forall|k: Seq<u8>| !#[trigger] own(c, k) implies kv.contains_key(k) == kv2.contains_key(k) && (kv.contains_key(k) ==> kv[k] == kv2[k]) by {
        assert(kv1.contains_key(k) == (kv.contains_key(k) && !new_key(c, l, l.len() as int, d, p, k)));
        if kv2.contains_key(k) { assert(kv2[k] == kv[k]); }
    }
    assert forall|k: Seq<u8>| #[trigger] kv2.contains_key(k) && pref(pre1(c), k) implies doc_key(kv2, c, k) by {
        assert(kv1.contains_key(k));
        assert(kv.contains_key(k));
        assert(doc_key(kv, c, k));
        assert(kv2[k] == kv[k]);
    }
    assert forall|k: Seq<u8>| #[trigger] kv2.contains_key(k) && pref(ipre(c), k) implies exists|j: int, q: Val| 0 <= j < l.len() && #[trigger] is_entry(kv2, c, l[j], q, k) by {
        assert(kv1.contains_key(k));
        assert(kv.contains_key(k));
        let (j, q) = choose|j: int, q: Val| 0 <= j < l.len() && #[trigger] is_entry(kv, c, l[j], q, k);
        if q == p { assert(entry_of(c, l[j], d, p, k)); assert(new_key(c, l, l.len() as int, d, p, k)); }
        assert(doc_at(kv2, c, q) == doc_at(kv, c, q));
        assert(is_entry(kv2, c, l[j], q, k));
    }
    assert forall|j: int| 0 <= j < l.len() implies indexed(kv2, c, #[trigger] l[j]) by {
        assert(indexed(kv, c, l[j]));
        assert forall|q: Val| wf(q) && (#[trigger] doc_at(kv2, c, q)) is Some implies has_entry(kv2, c, l[j], q) by {
            assert(doc_at(kv, c, q) is Some);
            assert(has_entry(kv, c, l[j], q));
            match pathv(doc_at(kv, c, q)->0, l[j].1.path) {
                Some(v) => {
                    let k = ik(c, l[j].0, v, q);
                    if new_key(c, l, l.len() as int, d, p, k) {
                        let h = choose|h: int| 0 <= h < l.len() && entry_of(c, #[trigger] l[h], d, p, k);
                        lemma_ik_inj(c, l[j].0, v, q, c, l[h].0, pathv(d, l[h].1.path)->0, p);
                    }
                    lemma_own(c, l[j].0, v, q);
                    assert(kv1.contains_key(k));
                    assert(kv2.contains_key(k));
                }
                None => {}
            }
        }
    }
    assert forall|j: int| 0 <= j < l.len() && l[j].1.unique implies unique_ok(kv2, c, #[trigger] l[j]) by {
        assert(unique_ok(kv, c, l[j]));
        assert forall|q: Val, t: Val| wf(q) && wf(t) && (#[trigger] doc_at(kv2, c, q)) is Some && (#[trigger] doc_at(kv2, c, t)) is Some
            && pathv(doc_at(kv2, c, q)->0, l[j].1.path) is Some
            && pathv(doc_at(kv2, c, q)->0, l[j].1.path) == pathv(doc_at(kv2, c, t)->0, l[j].1.path) implies q == t by {
            assert(doc_at(kv, c, q) is Some && doc_at(kv, c, t) is Some);
        }
    }
    assert(il_at(kv2, c) == l);
}

/// replacing a document: its old entries go, the new version is written over it, and its new entries are added
proof fn c08_update(kv: KV, c: Seq<char>, s: CollectionSpecification, d: Document, e: Document, p: Val, b: Seq<u8>, kv1: KV, kv2: KV)
    requires
        okname(c), inv(kv, c), spec_at(kv, c) == Some(s), wf(p), doc_at(kv, c, p) == Some(d), pk(e) == Some(p), ser(e) == Some(b),
        ixn(kv, c, il(s), il(s).len() as int, d, p, IndexHelperOperation::Delete) == Some(kv1),
        ixn(kv1.insert(dk(c, p), b), c, il(s), il(s).len() as int, e, p, IndexHelperOperation::Insert) == Some(kv2),
    ensures
        inv(kv2, c), only(kv, kv2, c), spec_at(kv2, c) == Some(s),
        doc_at(kv2, c, p) == Some(e),
        forall|q: Val| wf(q) && q != p ==> #[trigger] doc_at(kv2, c, q) == doc_at(kv, c, q),
{
    c08_delete(kv, c, s, d, p, kv1);
    let base = kv1.remove(dk(c, p));
    assert(base.insert(dk(c, p), b) =~= kv1.insert(dk(c, p), b));
    c08_insert(base, c, s, e, p, b, kv2);
    assert forall|k: Seq<u8>| !#[trigger] own(c, k) implies kv.contains_key(k) == kv2.contains_key(k) && (kv.contains_key(k) ==> kv[k] == kv2[k]) by {
        assert(base.contains_key(k) == kv.contains_key(k));
    }
}

/// a duplicate in a unique index is reported only if another document really has the value (C09)
proof fn c09_conflict(kv: KV, c: Seq<char>, s: CollectionSpecification, d: Document, p: Val, b: Seq<u8>, n: int, kv1: KV)
    requires
        okname(c), inv(kv, c), spec_at(kv, c) == Some(s), wf(p), !kv.contains_key(dk(c, p)), 0 <= n < il(s).len(),
        ixn(kv.insert(dk(c, p), b), c, il(s), n, d, p, IndexHelperOperation::Insert) == Some(kv1),
        dup1(kv1, c, il(s)[n], d),
    ensures
        exists|q: Val| wf(q) && q != p && (#[trigger] doc_at(kv, c, q)) is Some && pathv(doc_at(kv, c, q)->0, il(s)[n].1.path) == pathv(d, il(s)[n].1.path),
{
    let l = il(s);
    let kv0 = kv.insert(dk(c, p), b);
    lemma_ixn_insert(kv0, c, l, n, d, p, kv1);
    let v = pathv(d, l[n].1.path)->0;
    let k = choose|k: Seq<u8>| #[trigger] kv1.contains_key(k) && pref(ik1(c, l[n].0, v), k);
    lemma_own(c, c, p, p);
    lemma_pref_split(ik1(c, l[n].0, v), k);
    cat3(ipre(c), pre1(l[n].0), enc(v));
    cat3(ipre(c), pre1(l[n].0) + enc(v), k.skip(ik1(c, l[n].0, v).len() as int));
    lemma_pref_add(ipre(c), (pre1(l[n].0) + enc(v)) + k.skip(ik1(c, l[n].0, v).len() as int));
    assert(pref(ipre(c), k));
    if new_key(c, l, n, d, p, k) {
        let j = choose|j: int| 0 <= j < n && entry_of(c, #[trigger] l[j], d, p, k);
        lemma_ik1_pref(c, l[n].0, v, c, l[j].0, pathv(d, l[j].1.path)->0, p);
        assert(l[j].0 == l[n].0);
        assert(false);
    }
    assert(kv0.contains_key(k));
    assert(kv.contains_key(k));
    let (j, q) = choose|j: int, q: Val| 0 <= j < l.len() && #[trigger] is_entry(kv, c, l[j], q, k);
    lemma_ik1_pref(c, l[n].0, v, c, l[j].0, pathv(doc_at(kv, c, q)->0, l[j].1.path)->0, q);
    assert(j == n) by { if j < n { assert(l[j].0 != l[n].0); } else if n < j { assert(l[n].0 != l[j].0); } }
    assert(doc_at(kv, c, q) is Some);
}

