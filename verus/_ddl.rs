// Creating and dropping indexes and collections.

/// a definition with one more index
pub open spec fn with_index(l: Seq<(Seq<char>, Idx)>, i: (Seq<char>, Idx)) -> Seq<(Seq<char>, Idx)> { l.push(i) }
pub open spec fn fresh(l: Seq<(Seq<char>, Idx)>, n: Seq<char>) -> bool { forall|j: int| 0 <= j < l.len() ==> (#[trigger] l[j]).0 != n }

/// rewriting the definition alone leaves the documents as they were
proof fn lemma_put_spec(kv: KV, c: Seq<char>, b: Seq<u8>, s: CollectionSpecification)
    requires okname(c), sde(b) == Some(s),
    ensures ({
        let kv1 = kv.insert(mk(c), b);
        &&& only(kv, kv1, c)
        &&& spec_at(kv1, c) == Some(s)
        &&& forall|p: Val| wf(p) ==> #[trigger] doc_at(kv1, c, p) == doc_at(kv, c, p)
        &&& docs_ok(kv, c) ==> docs_ok(kv1, c)
        &&& forall|k: Seq<u8>| pref(ipre(c), k) ==> #[trigger] kv1.contains_key(k) == kv.contains_key(k)
    }),
{
    let kv1 = kv.insert(mk(c), b);
    assert(own(c, mk(c)));
    assert forall|p: Val| wf(p) implies #[trigger] doc_at(kv1, c, p) == doc_at(kv, c, p) by { lemma_own(c, c, p, p); }
    lemma_own(c, c, Val::Null, Val::Null);
    if docs_ok(kv, c) {
        assert forall|k: Seq<u8>| #[trigger] kv1.contains_key(k) && pref(pre1(c), k) implies doc_key(kv1, c, k) by {
            assert(kv.contains_key(k));
            assert(doc_key(kv, c, k));
        }
    }
}

/// the entries of an index that is not in the definition do not exist
proof fn lemma_no_entries(kv: KV, c: Seq<char>, l: Seq<(Seq<char>, Idx)>, n: Seq<char>, v: Val)
    requires entries_ok(kv, c, l), fresh(l, n), wf(v),
    ensures !taken(kv, c, n, v),
{
    if taken(kv, c, n, v) {
        let k = choose|k: Seq<u8>| #[trigger] kv.contains_key(k) && pref(ik1(c, n, v), k);
        lemma_pref_split(ik1(c, n, v), k);
        let r = k.skip(ik1(c, n, v).len() as int);
        cat3(ipre(c), pre1(n), enc(v));
        cat3(ipre(c), pre1(n) + enc(v), r);
        lemma_pref_add(ipre(c), (pre1(n) + enc(v)) + r);
        let (j, q) = choose|j: int, q: Val| 0 <= j < l.len() && #[trigger] is_entry(kv, c, l[j], q, k);
        lemma_ik1_pref(c, n, v, c, l[j].0, pathv(doc_at(kv, c, q)->0, l[j].1.path)->0, q);
    }
}

/// a new index whose entries were built keeps the invariant
proof fn c08_create_index(kv: KV, c: Seq<char>, s2: CollectionSpecification, i: (Seq<char>, Idx), b: Seq<u8>, kv2: KV)
    requires
        okname(c), inv(kv, c), fresh(il_at(kv, c), i.0), il(s2) == il_at(kv, c).push(i), s2._id@ == c, wf_spec(s2), sde(b) == Some(s2),
        built(kv.insert(mk(c), b), kv2, c, i, None, IndexHelperOperation::Insert),
    ensures
        inv(kv2, c), only(kv, kv2, c), spec_at(kv2, c) == Some(s2),
        forall|p: Val| wf(p) ==> #[trigger] doc_at(kv2, c, p) == doc_at(kv, c, p),
{
    let kv1 = kv.insert(mk(c), b);
    let none: Option<Seq<u8>> = None;
    let l = il_at(kv, c);
    lemma_put_spec(kv, c, b, s2);
    assert forall|k: Seq<u8>| #[trigger] seen_key(kv1, c, i, none, k) implies own(c, k) && pref(ipre(c), k) && !pref(pre1(c), k) && k != mk(c) by {
        let q = choose|q: Val| #[trigger] seen(kv1, c, none, q) && entry_of(c, i, doc_at(kv1, c, q)->0, q, k);
        lemma_own(c, i.0, pathv(doc_at(kv1, c, q)->0, i.1.path)->0, q);
    }
    lemma_own(c, c, Val::Null, Val::Null);
    assert(kv2.contains_key(mk(c)));
    assert(kv2[mk(c)] == kv1[mk(c)]);
    assert forall|p: Val| wf(p) implies #[trigger] doc_at(kv2, c, p) == doc_at(kv1, c, p) by {
        let k = dk(c, p);
        lemma_own(c, c, p, p);
        assert(kv2.contains_key(k) == (kv1.contains_key(k) || seen_key(kv1, c, i, none, k)));
        if kv1.contains_key(k) { assert(kv2[k] == kv1[k]); }
    }
    assert forall|p: Val| wf(p) implies #[trigger] doc_at(kv2, c, p) == doc_at(kv, c, p) by { assert(doc_at(kv1, c, p) == doc_at(kv, c, p)); }
    assert forall|k: Seq<u8>| !#[trigger] own(c, k) implies kv.contains_key(k) == kv2.contains_key(k) && (kv.contains_key(k) ==> kv[k] == kv2[k]) by {
        assert(kv2.contains_key(k) == (kv1.contains_key(k) || seen_key(kv1, c, i, none, k)));
        if kv1.contains_key(k) { assert(kv2[k] == kv1[k]); }
    }
    assert forall|k: Seq<u8>| #[trigger] kv2.contains_key(k) && pref(pre1(c), k) implies doc_key(kv2, c, k) by {
        assert(kv2.contains_key(k) == (kv1.contains_key(k) || seen_key(kv1, c, i, none, k)));
        assert(kv1.contains_key(k));
        assert(doc_key(kv1, c, k));
        let q = pk(de(kv1[k])->0)->0;
        lemma_own(c, c, q, q);
        assert(kv2[k] == kv1[k]);
    }
    let l2 = il(s2);
    assert forall|k: Seq<u8>| #[trigger] kv2.contains_key(k) && pref(ipre(c), k) implies exists|j: int, q: Val| 0 <= j < l2.len() && #[trigger] is_entry(kv2, c, l2[j], q, k) by {
        if seen_key(kv1, c, i, none, k) {
            let q = choose|q: Val| #[trigger] seen(kv1, c, none, q) && entry_of(c, i, doc_at(kv1, c, q)->0, q, k);
            assert(doc_at(kv2, c, q) == doc_at(kv1, c, q));
            assert(l2[l.len() as int] == i);
            assert(is_entry(kv2, c, l2[l.len() as int], q, k));
        } else {
            assert(kv1.contains_key(k));
            assert(kv.contains_key(k));
            let (j, q) = choose|j: int, q: Val| 0 <= j < l.len() && #[trigger] is_entry(kv, c, l[j], q, k);
            assert(doc_at(kv2, c, q) == doc_at(kv, c, q));
            assert(l2[j] == l[j]);
            assert(is_entry(kv2, c, l2[j], q, k));
        }
    }
    assert forall|j: int| 0 <= j < l2.len() implies indexed(kv2, c, #[trigger] l2[j]) by {
        assert forall|q: Val| wf(q) && (#[trigger] doc_at(kv2, c, q)) is Some implies has_entry(kv2, c, l2[j], q) by {
            assert(doc_at(kv, c, q) == doc_at(kv2, c, q));
            assert(doc_at(kv1, c, q) == doc_at(kv, c, q));
            if j < l.len() {
                assert(l2[j] == l[j]);
                assert(indexed(kv, c, l[j]));
                assert(has_entry(kv, c, l[j], q));
                if pathv(doc_at(kv, c, q)->0, l[j].1.path) is Some {
                    let k = ik(c, l[j].0, pathv(doc_at(kv, c, q)->0, l[j].1.path)->0, q);
                    assert(kv1.contains_key(k));
                    assert(kv2.contains_key(k));
                }
            } else {
                assert(seen(kv1, c, none, q));
                if pathv(doc_at(kv, c, q)->0, i.1.path) is Some {
                    let k = ik(c, i.0, pathv(doc_at(kv, c, q)->0, i.1.path)->0, q);
                    assert(entry_of(c, i, doc_at(kv1, c, q)->0, q, k));
                    assert(seen_key(kv1, c, i, none, k));
                    assert(kv2.contains_key(k));
                }
            }
        }
    }
    assert forall|j: int| 0 <= j < l2.len() && l2[j].1.unique implies unique_ok(kv2, c, #[trigger] l2[j]) by {
        if j < l.len() { assert(l2[j] == l[j]); assert(unique_ok(kv, c, l[j])); }
        assert forall|q: Val, t: Val| wf(q) && wf(t) && (#[trigger] doc_at(kv2, c, q)) is Some && (#[trigger] doc_at(kv2, c, t)) is Some
            && pathv(doc_at(kv2, c, q)->0, l2[j].1.path) is Some
            && pathv(doc_at(kv2, c, q)->0, l2[j].1.path) == pathv(doc_at(kv2, c, t)->0, l2[j].1.path) implies q == t by {
            assert(doc_at(kv, c, q) is Some && doc_at(kv, c, t) is Some);
            assert(doc_at(kv1, c, q) is Some && doc_at(kv1, c, t) is Some);
            assert(seen(kv1, c, none, q) && seen(kv1, c, none, t));
        }
    }
    assert(il_at(kv2, c) == l2);
}

/// a unique index is refused only for two documents that share a value (C09)
proof fn c09_create_conflict(kv: KV, c: Seq<char>, i: (Seq<char>, Idx), b: Seq<u8>, s2: CollectionSpecification, q: Val)
    requires okname(c), inv(kv, c), fresh(il_at(kv, c), i.0), sde(b) == Some(s2), clash(kv.insert(mk(c), b), c, i, q),
    ensures exists|t: Val| t != q && wf(t) && (#[trigger] doc_at(kv, c, t)) is Some && doc_at(kv, c, q) is Some
        && pathv(doc_at(kv, c, t)->0, i.1.path) is Some && pathv(doc_at(kv, c, t)->0, i.1.path) == pathv(doc_at(kv, c, q)->0, i.1.path),
{
    let kv1 = kv.insert(mk(c), b);
    lemma_put_spec(kv, c, b, s2);
    let v = pathv(doc_at(kv1, c, q)->0, i.1.path);
    assert(doc_at(kv, c, q) == doc_at(kv1, c, q));
    if taken(kv1, c, i.0, v->0) {
        let k = choose|k: Seq<u8>| #[trigger] kv1.contains_key(k) && pref(ik1(c, i.0, v->0), k);
        lemma_pref_split(ik1(c, i.0, v->0), k);
        let r = k.skip(ik1(c, i.0, v->0).len() as int);
        cat3(ipre(c), pre1(i.0), enc(v->0));
        cat3(ipre(c), pre1(i.0) + enc(v->0), r);
        lemma_pref_add(ipre(c), (pre1(i.0) + enc(v->0)) + r);
        assert(kv.contains_key(k));
        assert(taken(kv, c, i.0, v->0));
        lemma_no_entries(kv, c, il_at(kv, c), i.0, v->0);
        assert(false);
    }
    let t = choose|t: Val| t != q && wf(t) && (#[trigger] doc_at(kv1, c, t)) is Some && pathv(doc_at(kv1, c, t)->0, i.1.path) == v;
    assert(doc_at(kv, c, t) == doc_at(kv1, c, t));
}

/// an index dropped leaves no entry behind and changes nothing else (C16)
proof fn c16_drop_index(kv: KV, c: Seq<char>, s: CollectionSpecification, n: int, kv1: KV, s2: CollectionSpecification, b: Seq<u8>)
    requires
        okname(c), inv(kv, c), spec_at(kv, c) == Some(s), 0 <= n < il(s).len(), il(s2) == il(s).remove(n), s2._id@ == c, wf_spec(s2), sde(b) == Some(s2),
        built(kv, kv1, c, il(s)[n], None, IndexHelperOperation::Delete),
    ensures ({
        let kv2 = kv1.insert(mk(c), b);
        &&& inv(kv2, c)
        &&& only(kv, kv2, c)
        &&& spec_at(kv2, c) == Some(s2)
        &&& forall|p: Val| wf(p) ==> #[trigger] doc_at(kv2, c, p) == doc_at(kv, c, p)
        &&& forall|v: Val| wf(v) ==> !#[trigger] taken(kv2, c, il(s)[n].0, v)
    }),
{
    let kv2 = kv1.insert(mk(c), b);
    let none: Option<Seq<u8>> = None;
    let l = il(s);
    let l2 = il(s2);
    let i = l[n];
    lemma_put_spec(kv1, c, b, s2);
    assert forall|k: Seq<u8>| #[trigger] seen_key(kv, c, i, none, k) implies own(c, k) && pref(ipre(c), k) && !pref(pre1(c), k) && k != mk(c) by {
        let q = choose|q: Val| #[trigger] seen(kv, c, none, q) && entry_of(c, i, doc_at(kv, c, q)->0, q, k);
        lemma_own(c, i.0, pathv(doc_at(kv, c, q)->0, i.1.path)->0, q);
    }
    lemma_own(c, c, Val::Null, Val::Null);
    assert forall|p: Val| wf(p) implies #[trigger] doc_at(kv2, c, p) == doc_at(kv, c, p) by {
        let k = dk(c, p);
        lemma_own(c, c, p, p);
        assert(kv1.contains_key(k) == (kv.contains_key(k) && !seen_key(kv, c, i, none, k)));
        assert(doc_at(kv2, c, p) == doc_at(kv1, c, p));
        if kv1.contains_key(k) { assert(kv1[k] == kv[k]); }
    }
    assert forall|k: Seq<u8>| !#[trigger] own(c, k) implies kv.contains_key(k) == kv2.contains_key(k) && (kv.contains_key(k) ==> kv[k] == kv2[k]) by {
        assert(kv1.contains_key(k) == (kv.contains_key(k) && !seen_key(kv, c, i, none, k)));
        if kv1.contains_key(k) { assert(kv1[k] == kv[k]); }
    }
    assert forall|k: Seq<u8>| #[trigger] kv1.contains_key(k) && pref(pre1(c), k) implies doc_key(kv1, c, k) by {
        assert(kv.contains_key(k));
        assert(doc_key(kv, c, k));
        assert(kv1[k] == kv[k]);
    }
    assert(docs_ok(kv2, c));
    assert forall|k: Seq<u8>| #[trigger] kv2.contains_key(k) && pref(ipre(c), k) implies exists|j: int, q: Val| 0 <= j < l2.len() && #[trigger] is_entry(kv2, c, l2[j], q, k) by {
        assert(kv1.contains_key(k));
        assert(kv.contains_key(k) && !seen_key(kv, c, i, none, k));
        let (j, q) = choose|j: int, q: Val| 0 <= j < l.len() && #[trigger] is_entry(kv, c, l[j], q, k);
        assert(seen(kv, c, none, q));
        if j == n { assert(entry_of(c, i, doc_at(kv, c, q)->0, q, k)); }
        assert(doc_at(kv2, c, q) == doc_at(kv, c, q));
        let j2 = if j < n { j } else { j - 1 };
        assert(l2[j2] == l[j]);
        assert(is_entry(kv2, c, l2[j2], q, k));
    }
    assert forall|j: int| 0 <= j < l2.len() implies indexed(kv2, c, #[trigger] l2[j]) by {
        let j1 = if j < n { j } else { j + 1 };
        assert(l2[j] == l[j1]);
        assert(l[j1].0 != i.0) by { if j1 < n { assert(l[j1].0 != l[n].0); } else { assert(l[n].0 != l[j1].0); } }
        assert(indexed(kv, c, l[j1]));
        assert forall|q: Val| wf(q) && (#[trigger] doc_at(kv2, c, q)) is Some implies has_entry(kv2, c, l2[j], q) by {
            assert(doc_at(kv, c, q) == doc_at(kv2, c, q));
            assert(has_entry(kv, c, l[j1], q));
            let v = pathv(doc_at(kv, c, q)->0, l[j1].1.path);
            if v is Some {
                let k = ik(c, l[j1].0, v->0, q);
                lemma_own(c, l[j1].0, v->0, q);
                if seen_key(kv, c, i, none, k) {
                    let t = choose|t: Val| #[trigger] seen(kv, c, none, t) && entry_of(c, i, doc_at(kv, c, t)->0, t, k);
                    lemma_ik_inj(c, l[j1].0, v->0, q, c, i.0, pathv(doc_at(kv, c, t)->0, i.1.path)->0, t);
                }
                assert(kv1.contains_key(k));
                assert(kv2.contains_key(k));
            }
        }
    }
    assert forall|j: int| 0 <= j < l2.len() && l2[j].1.unique implies unique_ok(kv2, c, #[trigger] l2[j]) by {
        let j1 = if j < n { j } else { j + 1 };
        assert(l2[j] == l[j1]);
        assert(unique_ok(kv, c, l[j1]));
        assert forall|q: Val, t: Val| wf(q) && wf(t) && (#[trigger] doc_at(kv2, c, q)) is Some && (#[trigger] doc_at(kv2, c, t)) is Some
            && pathv(doc_at(kv2, c, q)->0, l2[j].1.path) is Some
            && pathv(doc_at(kv2, c, q)->0, l2[j].1.path) == pathv(doc_at(kv2, c, t)->0, l2[j].1.path) implies q == t by {
            assert(doc_at(kv, c, q) is Some && doc_at(kv, c, t) is Some);
        }
    }
    assert(il_at(kv2, c) == l2);
    assert(fresh(l2, i.0)) by {
        assert forall|j: int| 0 <= j < l2.len() implies (#[trigger] l2[j]).0 != i.0 by {
            let j1 = if j < n { j } else { j + 1 };
            assert(l2[j] == l[j1]);
            if j1 < n { assert(l[j1].0 != l[n].0); } else { assert(l[n].0 != l[j1].0); }
        }
    }
    assert forall|v: Val| wf(v) implies !#[trigger] taken(kv2, c, i.0, v) by { lemma_no_entries(kv2, c, l2, i.0, v); }
}

/// a collection without documents whose definition is removed leaves no key behind (C16)
proof fn c16_drop_collection(kv: KV, c: Seq<char>)
    requires okname(c), inv(kv, c), forall|p: Val| wf(p) ==> (#[trigger] doc_at(kv, c, p)) is None,
    ensures
        forall|k: Seq<u8>| own(c, k) ==> !#[trigger] kv.remove(mk(c)).contains_key(k),
        inv(kv.remove(mk(c)), c), only(kv, kv.remove(mk(c)), c), spec_at(kv.remove(mk(c)), c) is None,
{
    let kv2 = kv.remove(mk(c));
    assert forall|k: Seq<u8>| own(c, k) implies !#[trigger] kv2.contains_key(k) by {
        if kv2.contains_key(k) {
            assert(kv.contains_key(k));
            if pref(pre1(c), k) {
                assert(doc_key(kv, c, k));
                assert(doc_at(kv, c, pk(de(kv[k])->0)->0) is Some);
            } else {
                let l = il_at(kv, c);
                let (j, q) = choose|j: int, q: Val| 0 <= j < l.len() && #[trigger] is_entry(kv, c, l[j], q, k);
                assert(doc_at(kv, c, q) is Some);
            }
        }
    }
    assert(own(c, mk(c)));
    assert forall|p: Val| wf(p) implies (#[trigger] doc_at(kv2, c, p)) is None by { lemma_own(c, c, p, p); assert(own(c, dk(c, p))); }
    assert forall|k: Seq<u8>| #[trigger] kv2.contains_key(k) implies !pref(pre1(c), k) by { if pref(pre1(c), k) { assert(own(c, k)); } }
}
/// the invariant of a collection that does not exist
proof fn lemma_inv_new(kv: KV, c: Seq<char>, s: CollectionSpecification, b: Seq<u8>)
    requires okname(c), inv(kv, c), !kv.contains_key(mk(c)), sde(b) == Some(s), s._id@ == c, wf_spec(s), il(s).len() == 0,
    ensures inv(kv.insert(mk(c), b), c), only(kv, kv.insert(mk(c), b), c), spec_at(kv.insert(mk(c), b), c) == Some(s),
        forall|p: Val| wf(p) ==> (#[trigger] doc_at(kv.insert(mk(c), b), c, p)) is None,
{
    let kv1 = kv.insert(mk(c), b);
    lemma_put_spec(kv, c, b, s);
    assert forall|k: Seq<u8>| #[trigger] kv1.contains_key(k) && pref(ipre(c), k) implies false by {
        lemma_own(c, c, Val::Null, Val::Null);
        assert(kv.contains_key(k));
        let l = il_at(kv, c);
        let (j, q) = choose|j: int, q: Val| 0 <= j < l.len() && #[trigger] is_entry(kv, c, l[j], q, k);
    }
    assert forall|p: Val| wf(p) implies (#[trigger] doc_at(kv1, c, p)) is None by {
        lemma_own(c, c, p, p);
    }
}
