// Building and removing the entries of one index (src/polodb_core/index/index_builder.rs).

/// the documents a scan of the collection has passed
pub open spec fn seen(kv: KV, c: Seq<char>, at: Option<Seq<u8>>, q: Val) -> bool {
    wf(q) && doc_at(kv, c, q) is Some && (at is None || !le(at->0, dk(c, q)))
}
pub open spec fn seen_key(kv: KV, c: Seq<char>, i: (Seq<char>, Idx), at: Option<Seq<u8>>, k: Seq<u8>) -> bool {
    exists|q: Val| #[trigger] seen(kv, c, at, q) && entry_of(c, i, doc_at(kv, c, q)->0, q, k)
}
pub open spec fn seen_wf(kv: KV, c: Seq<char>, i: (Seq<char>, Idx), at: Option<Seq<u8>>) -> bool {
    forall|q: Val| #[trigger] seen(kv, c, at, q) && pathv(doc_at(kv, c, q)->0, i.1.path) is Some ==> wf(pathv(doc_at(kv, c, q)->0, i.1.path)->0)
}
pub open spec fn seen_unique(kv: KV, c: Seq<char>, i: (Seq<char>, Idx), at: Option<Seq<u8>>) -> bool {
    &&& forall|q: Val| #[trigger] seen(kv, c, at, q) && pathv(doc_at(kv, c, q)->0, i.1.path) is Some ==> !taken(kv, c, i.0, pathv(doc_at(kv, c, q)->0, i.1.path)->0)
    &&& forall|q: Val, t: Val| #[trigger] seen(kv, c, at, q) && #[trigger] seen(kv, c, at, t) && pathv(doc_at(kv, c, q)->0, i.1.path) is Some
        && pathv(doc_at(kv, c, q)->0, i.1.path) == pathv(doc_at(kv, c, t)->0, i.1.path) ==> q == t
}
/// kv is kv0 with the entries of the documents passed added (or removed)
pub open spec fn built(kv0: KV, kv: KV, c: Seq<char>, i: (Seq<char>, Idx), at: Option<Seq<u8>>, op: IndexHelperOperation) -> bool {
    &&& seen_wf(kv0, c, i, at)
    &&& op == IndexHelperOperation::Insert ==> {
        &&& forall|k: Seq<u8>| #[trigger] kv.contains_key(k) == (kv0.contains_key(k) || seen_key(kv0, c, i, at, k))
        &&& forall|k: Seq<u8>| kv0.contains_key(k) && !pref(ipre(c), k) ==> #[trigger] kv[k] == kv0[k]
        &&& i.1.unique ==> seen_unique(kv0, c, i, at)
    }
    &&& op == IndexHelperOperation::Delete ==> {
        &&& forall|k: Seq<u8>| #[trigger] kv.contains_key(k) == (kv0.contains_key(k) && !seen_key(kv0, c, i, at, k))
        &&& forall|k: Seq<u8>| kv.contains_key(k) ==> #[trigger] kv[k] == kv0[k]
    }
}
/// a document that cannot be entered: its value is no key, or another document of the collection has it
pub open spec fn clash(kv: KV, c: Seq<char>, i: (Seq<char>, Idx), q: Val) -> bool {
    let v = pathv(doc_at(kv, c, q)->0, i.1.path);
    wf(q) && doc_at(kv, c, q) is Some && v is Some && wf(v->0) && i.1.unique
        && (taken(kv, c, i.0, v->0) || exists|t: Val| t != q && wf(t) && (#[trigger] doc_at(kv, c, t)) is Some && pathv(doc_at(kv, c, t)->0, i.1.path) == v)
}
pub open spec fn nokey(kv: KV, c: Seq<char>, i: (Seq<char>, Idx), q: Val) -> bool {
    wf(q) && doc_at(kv, c, q) is Some && pathv(doc_at(kv, c, q)->0, i.1.path) is Some && !wf(pathv(doc_at(kv, c, q)->0, i.1.path)->0)
}
pub open spec fn unbuildable(kv: KV, c: Seq<char>, i: (Seq<char>, Idx), op: IndexHelperOperation, e: Error) -> bool {
    &&& e is Storage || (exists|q: Val| #[trigger] nokey(kv, c, i, q)) || (op == IndexHelperOperation::Insert && exists|q: Val| #[trigger] clash(kv, c, i, q))
    &&& e is DuplicateKey ==> op == IndexHelperOperation::Insert && exists|q: Val| #[trigger] clash(kv, c, i, q)
}

/// the next document a scan passes
proof fn lemma_seen_step(kv0: KV, c: Seq<char>, t: Seq<u8>, at: Option<Seq<u8>>, p: Val, q: Val)
    requires docs_ok(kv0, c), okname(c), kv0.contains_key(t), pref(pre1(c), t), is_next(kv0, t, at), pk(de(kv0[t])->0) == Some(p),
    ensures wf(p), t == dk(c, p), doc_at(kv0, c, p) == de(kv0[t]), doc_at(kv0, c, p) is Some, !seen(kv0, c, Some(t), p), seen(kv0, c, at, p),
        seen(kv0, c, at, q) == (seen(kv0, c, Some(t), q) || q == p),
{
    assert(doc_key(kv0, c, t));
    lemma_le_refl(t);
    if at is Some { lemma_le_total(at->0, t); }
    if wf(q) && doc_at(kv0, c, q) is Some {
        let k = dk(c, q);
        lemma_le_total(t, k);
        if k == t { lemma_dk_inj(c, q, c, p); }
        if at is Some { if le(at->0, k) { lemma_le_trans(t, at->0, k); } }
    }
}

proof fn lemma_built_step(kv0: KV, kv: KV, c: Seq<char>, i: (Seq<char>, Idx), t: Seq<u8>, at: Option<Seq<u8>>, p: Val, d: Document, kv2: KV, op: IndexHelperOperation)
    requires
        docs_ok(kv0, c), okname(c), kv0.contains_key(t), pref(pre1(c), t), is_next(kv0, t, at),
        de(kv0[t]) == Some(d), pk(d) == Some(p), built(kv0, kv, c, i, Some(t), op), ix1(kv, c, i, d, p, op) == Some(kv2),
    ensures built(kv0, kv2, c, i, at, op),
{
    lemma_seen_step(kv0, c, t, at, p, p);
    let tt = Some(t);
    assert forall|q: Val| #[trigger] seen(kv0, c, at, q) == (seen(kv0, c, tt, q) || q == p) by { lemma_seen_step(kv0, c, t, at, p, q); }
    assert(seen(kv0, c, at, p));
    assert forall|k: Seq<u8>| #[trigger] seen_key(kv0, c, i, at, k) == (seen_key(kv0, c, i, tt, k) || entry_of(c, i, d, p, k)) by {
        if seen_key(kv0, c, i, tt, k) {
            let q = choose|q: Val| #[trigger] seen(kv0, c, tt, q) && entry_of(c, i, doc_at(kv0, c, q)->0, q, k);
            assert(seen(kv0, c, at, q));
        }
        if seen_key(kv0, c, i, at, k) {
            let q = choose|q: Val| #[trigger] seen(kv0, c, at, q) && entry_of(c, i, doc_at(kv0, c, q)->0, q, k);
            if q != p { assert(seen(kv0, c, tt, q)); }
        }
    }
    let v = pathv(d, i.1.path);
    if v is Some { lemma_own(c, i.0, v->0, p); }
    if op == IndexHelperOperation::Insert {
        assert forall|k: Seq<u8>| #[trigger] kv2.contains_key(k) == (kv0.contains_key(k) || seen_key(kv0, c, i, at, k)) by {
            assert(kv.contains_key(k) == (kv0.contains_key(k) || seen_key(kv0, c, i, tt, k)));
            assert(seen_key(kv0, c, i, at, k) == (seen_key(kv0, c, i, tt, k) || entry_of(c, i, d, p, k)));
        }
        assert forall|k: Seq<u8>| kv0.contains_key(k) && !pref(ipre(c), k) implies #[trigger] kv2[k] == kv0[k] by { assert(kv[k] == kv0[k]); }
        if i.1.unique {
            assert forall|q: Val| #[trigger] seen(kv0, c, at, q) && pathv(doc_at(kv0, c, q)->0, i.1.path) is Some implies !taken(kv0, c, i.0, pathv(doc_at(kv0, c, q)->0, i.1.path)->0) by {
                if q == p {
                    if taken(kv0, c, i.0, v->0) {
                        let k = choose|k: Seq<u8>| #[trigger] kv0.contains_key(k) && pref(ik1(c, i.0, v->0), k);
                        assert(kv.contains_key(k));
                        assert(taken(kv, c, i.0, v->0));
                    }
                } else { assert(seen(kv0, c, tt, q)); }
            }
            assert forall|q: Val| #[trigger] seen(kv0, c, tt, q) && v is Some implies pathv(doc_at(kv0, c, q)->0, i.1.path) != v by {
                if pathv(doc_at(kv0, c, q)->0, i.1.path) == v {
                    let k = ik(c, i.0, v->0, q);
                    assert(entry_of(c, i, doc_at(kv0, c, q)->0, q, k));
                    assert(seen_key(kv0, c, i, tt, k));
                    assert(kv.contains_key(k));
                    lemma_own(c, i.0, v->0, q);
                    assert(taken(kv, c, i.0, v->0));
                }
            }
            assert forall|q: Val, t2: Val| #[trigger] seen(kv0, c, at, q) && #[trigger] seen(kv0, c, at, t2) && pathv(doc_at(kv0, c, q)->0, i.1.path) is Some
                && pathv(doc_at(kv0, c, q)->0, i.1.path) == pathv(doc_at(kv0, c, t2)->0, i.1.path) implies q == t2 by {
                if q != p { assert(seen(kv0, c, tt, q)); }
                if t2 != p { assert(seen(kv0, c, tt, t2)); }
            }
        }
    } else {
        assert forall|k: Seq<u8>| #[trigger] kv2.contains_key(k) == (kv0.contains_key(k) && !seen_key(kv0, c, i, at, k)) by {
            assert(kv.contains_key(k) == (kv0.contains_key(k) && !seen_key(kv0, c, i, tt, k)));
            assert(seen_key(kv0, c, i, at, k) == (seen_key(kv0, c, i, tt, k) || entry_of(c, i, d, p, k)));
        }
        assert forall|k: Seq<u8>| kv2.contains_key(k) implies #[trigger] kv2[k] == kv0[k] by { assert(kv.contains_key(k)); assert(kv[k] == kv0[k]); }
    }
}

/// what stopped a build
proof fn lemma_built_stop(kv0: KV, kv: KV, c: Seq<char>, i: (Seq<char>, Idx), t: Seq<u8>, p: Val, d: Document, op: IndexHelperOperation)
    requires
        docs_ok(kv0, c), okname(c), kv0.contains_key(t), pref(pre1(c), t),
        de(kv0[t]) == Some(d), pk(d) == Some(p), built(kv0, kv, c, i, Some(t), op),
        ix1(kv, c, i, d, p, op) is None,
    ensures forall|e: Error| (e is DuplicateKey ==> dup1(kv, c, i, d)) ==> #[trigger] unbuildable(kv0, c, i, op, e),
{
    assert(doc_key(kv0, c, t));
    lemma_le_refl(t);
    let tt = Some(t);
    let v = pathv(d, i.1.path)->0;
    if !wf(v) { assert(nokey(kv0, c, i, p)); }
    else {
        let k = choose|k: Seq<u8>| #[trigger] kv.contains_key(k) && pref(ik1(c, i.0, v), k);
        if kv0.contains_key(k) { assert(taken(kv0, c, i.0, v)); }
        else {
            let q = choose|q: Val| #[trigger] seen(kv0, c, tt, q) && entry_of(c, i, doc_at(kv0, c, q)->0, q, k);
            lemma_ik1_pref(c, i.0, v, c, i.0, pathv(doc_at(kv0, c, q)->0, i.1.path)->0, q);
            assert(q != p);
            assert(doc_at(kv0, c, q) is Some);
        }
        assert(clash(kv0, c, i, p));
    }
}

/// at the end of the scan every document has been passed
proof fn lemma_seen_end(kv0: KV, kv: KV, c: Seq<char>, i: (Seq<char>, Idx), at: Option<Seq<u8>>, op: IndexHelperOperation)
    requires okname(c), built(kv0, kv, c, i, at, op), at is Some ==> le(pre1(c), at->0) && !pref(pre1(c), at->0),
    ensures built(kv0, kv, c, i, None, op),
{
    let none: Option<Seq<u8>> = None;
    assert forall|q: Val| #[trigger] seen(kv0, c, at, q) == seen(kv0, c, none, q) by {
        if at is Some && wf(q) {
            if le(at->0, dk(c, q)) { lemma_pref_add(pre1(c), enc(q)); lemma_pref_convex(pre1(c), at->0, dk(c, q)); }
        }
    }
    assert forall|q: Val| #[trigger] seen(kv0, c, none, q) implies seen(kv0, c, at, q) by { assert(seen(kv0, c, at, q) == seen(kv0, c, none, q)); }
    assert forall|k: Seq<u8>| #[trigger] seen_key(kv0, c, i, at, k) == seen_key(kv0, c, i, none, k) by {
        if seen_key(kv0, c, i, none, k) {
            let q = choose|q: Val| #[trigger] seen(kv0, c, none, q) && entry_of(c, i, doc_at(kv0, c, q)->0, q, k);
            assert(seen(kv0, c, at, q));
        }
        if seen_key(kv0, c, i, at, k) {
            let q = choose|q: Val| #[trigger] seen(kv0, c, at, q) && entry_of(c, i, doc_at(kv0, c, q)->0, q, k);
            assert(seen(kv0, c, none, q));
        }
    }
    assert forall|k: Seq<u8>| op == IndexHelperOperation::Insert implies #[trigger] kv.contains_key(k) == (kv0.contains_key(k) || seen_key(kv0, c, i, none, k)) by {
        assert(seen_key(kv0, c, i, at, k) == seen_key(kv0, c, i, none, k));
    }
    assert forall|k: Seq<u8>| op == IndexHelperOperation::Delete implies #[trigger] kv.contains_key(k) == (kv0.contains_key(k) && !seen_key(kv0, c, i, none, k)) by {
        assert(seen_key(kv0, c, i, at, k) == seen_key(kv0, c, i, none, k));
    }
}

/// a scan starts with nothing passed
proof fn lemma_seen_start(kv0: KV, c: Seq<char>, at: Option<Seq<u8>>, q: Val)
    requires is_first(kv0, pre1(c), at),
    ensures at is Some ==> !seen(kv0, c, at, q), at is None ==> !seen(kv0, c, at, q),
{
    if wf(q) && kv0.contains_key(dk(c, q)) {
        lemma_pref_add(pre1(c), enc(q));
        lemma_pref_le(pre1(c), dk(c, q));
    }
}

pub struct IndexBuilder<'b, 'c, 'd, 'e> {
    pub txn: &'b mut TransactionInner,
    pub col_name: &'c str,
    pub index_name: &'d str,
    pub index_info: &'e IndexInfo,
}
impl<'b, 'c, 'd, 'e> IndexBuilder<'b, 'c, 'd, 'e> {
    pub open spec fn ix(&self) -> (Seq<char>, Idx) { (self.index_name@, idx(*self.index_info)) }
//@fn src/polodb_core/index/index_builder.rs IndexBuilder::new
//@rw writes go through a mutable transaction: txn: &'b TransactionInner ~~> txn: &'b mut TransactionInner
//@ret r
//@spec
    ensures *r.txn == *old(txn), *final(r.txn) == *final(txn), r.col_name == col_name, r.index_name == index_name, r.index_info == index_info,
//@end
//@fn src/polodb_core/index/index_builder.rs IndexBuilder::execute_index_item
//@rw reborrow: self.txn ~~> &mut *self.txn
//@rw deserialisation by contract: bson::from_slice::<Document>($a) ~~> doc_from_slice($a)
//@ret r
//@spec
    requires wf_info(*old(self).index_info), de(current_data@) is Some, pk(de(current_data@)->0) is Some,
    ensures
        *final(old(self).txn) == *final(final(self).txn),
        final(self).col_name == old(self).col_name, final(self).index_name == old(self).index_name, final(self).index_info == old(self).index_info,
        ({
            let d = de(current_data@)->0;
            let before = old(self).txn.kv();
            match r {
                Ok(_) => ix1(before, old(self).col_name@, old(self).ix(), d, pk(d)->0, op) == Some(final(self).txn.kv()),
                Err(e) => final(self).txn.kv() == before
                    && (e is Storage || ix1(before, old(self).col_name@, old(self).ix(), d, pk(d)->0, op) is None)
                    && (e is DuplicateKey ==> dup1(before, old(self).col_name@, old(self).ix(), d)),
            }
        }),
//@end
//@fn src/polodb_core/index/index_builder.rs IndexBuilder::execute
//@rw owned name: self.col_name.to_string() ~~> str_own(self.col_name)
//@rw slice of a vector: $i_d.as_ref() ~~> $i_d.as_slice()
//@ret r
//@spec
    requires wf_info(*old(self).index_info), okname(old(self).col_name@), docs_ok(old(self).txn.kv(), old(self).col_name@),
    ensures
        *final(old(self).txn) == *final(final(self).txn),
        match r {
            Ok(_) => built(old(self).txn.kv(), final(self).txn.kv(), old(self).col_name@, old(self).ix(), None, op),
            Err(e) => unbuildable(old(self).txn.kv(), old(self).col_name@, old(self).ix(), op, e),
        },
//@bind let mut $i_c = Cursor::new_with_str_prefix($x)?;
//@beforeloop 0
    let ghost kv0 = self.txn.kv();
    let ghost c = self.col_name@;
    let ghost i = self.ix();
    proof {
        assert forall|q: Val| !#[trigger] seen(kv0, c, $i_c.pos(), q) by { lemma_seen_start(kv0, c, $i_c.pos(), q); }
    }
//@loop 0
    invariant
        kv0 == old(self).txn.kv(), c == old(self).col_name@, i == old(self).ix(),
        *final(old(self).txn) == *final(self.txn),
        self.col_name == old(self).col_name, self.index_name == old(self).index_name, self.index_info == old(self).index_info,
        wf_info(*self.index_info), okname(c), docs_ok(kv0, c), kv0.dom().finite(),
        $i_c.ok(), $i_c.pre() == pre1(c), $i_c.snap() == kv0,
        $i_c.pos() is Some ==> kv0.contains_key($i_c.pos()->0) && le(pre1(c), $i_c.pos()->0),
        built(kv0, self.txn.kv(), c, i, $i_c.pos(), op),
    decreases left(kv0, $i_c.pos()),
//@loopstart 0
    let ghost t = $i_c.pos()->0;
    let ghost d = de(kv0[t])->0;
    let ghost p = pk(d)->0;
    let ghost kv1 = self.txn.kv();
    proof {
        assert(doc_key(kv0, c, t));
        if ix1(kv1, c, i, d, p, op) is None { lemma_built_stop(kv0, kv1, c, i, t, p, d, op); }
    }
//@loopend 0
    proof {
        lemma_left(kv0, t, $i_c.pos());
        lemma_built_step(kv0, kv1, c, i, t, $i_c.pos(), p, d, self.txn.kv(), op);
        if $i_c.pos() is Some { lemma_le_trans(pre1(c), t, $i_c.pos()->0); }
    }
//@afterloop 0
    proof { lemma_seen_end(kv0, self.txn.kv(), c, i, $i_c.pos(), op); }
//@end
}
