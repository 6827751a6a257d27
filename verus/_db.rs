// The operations of the engine on one transaction (src/polodb_core/db/db_inner.rs), with the indexes and the catalogue.
//@const src/polodb_core/db/db_inner.rs TABLE_META_PREFIX
//@const src/polodb_core/meta_doc_helper.rs ID
//@rule error without its text: Error::CollectionNotFound($m) ~~> Error::CollectionNotFound
//@rule error without its text: Error::IllegalCollectionName($m) ~~> Error::IllegalCollectionName
//@rule error without its text: Error::IllegalIndexName($m) ~~> Error::IllegalIndexName
//@rule error without its text: Error::CollectionAlreadyExits($m) ~~> Error::CollectionAlreadyExits
//@rule error without its text: Error::OnlySupportsAscendingOrder($m) ~~> Error::OnlySupportsAscendingOrder
//@rule a string as a value: Bson::from($i_n) ~~> Bson::String(str_own($i_n))
//@rule definition read by contract: bson::from_slice::<CollectionSpecification>($a) ~~> spec_from_slice($a)
//@rule new identifier by contract: uuid::Uuid::now_v1($a) ~~> new_uuid()
//@rule path: DatabaseInner::get_collection_meta_by_name_advanced(self, ~~> self.get_collection_meta_by_name_advanced(
#[verifier::external_body]
fn new_uuid() -> Uuid { unimplemented!() }
#[verifier::external_body]
fn spec_info(u: Uuid) -> Opaque { unimplemented!() }
pub struct Uuid { x: u8 }

pub open spec fn has_name<V>(m: IndexMap<String, V>, n: Seq<char>, j: int) -> bool { 0 <= j < m.entries@.len() && m.entries@[j].0@ == n }
impl<V> IndexMap<String, V> {
    #[verifier::external_body]
    pub fn new() -> (r: IndexMap<String, V>) ensures r.entries@.len() == 0, { unimplemented!() }
    #[verifier::external_body]
    pub fn get<K: Name + ?Sized>(&self, k: &K) -> (r: Option<&V>)
        ensures match r {
            Some(v) => exists|j: int| #[trigger] has_name(*self, k.nm(), j) && self.entries@[j].1 == *v,
            None => forall|j: int| !#[trigger] has_name(*self, k.nm(), j),
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures (forall|j: int| !#[trigger] has_name(*old(self), k@, j)) ==> final(self).entries@ == old(self).entries@.push((k, v)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn shift_remove<K: Name + ?Sized>(&mut self, k: &K) -> (r: Option<V>)
        ensures forall|j: int| #[trigger] has_name(*old(self), k.nm(), j) && (forall|m: int| #[trigger] has_name(*old(self), k.nm(), m) ==> m == j) ==> final(self).entries@ == old(self).entries@.remove(j),
    { unimplemented!() }
}
impl Clone for IndexInfo {
    #[verifier::external_body]
    fn clone(&self) -> (r: IndexInfo) ensures idx(r) == idx(*self), wf_info(*self) ==> wf_info(r), { unimplemented!() }
}
impl IndexInfo {
//@fn src/polodb_core/coll/collection_info.rs IndexInfo::single_index
//@ret r
//@spec
    ensures wf_info(r), idx(r).path == name@, r.options == options,
//@end
}
impl CollectionSpecification {
//@fn src/polodb_core/coll/collection_info.rs CollectionSpecification::name
//@ret r
//@spec
    ensures r@ == self._id@,
//@end
//@fn src/polodb_core/coll/collection_info.rs CollectionSpecification::new
//@rw opaque information: info: CollectionSpecificationInfo { $x } ~~> info: spec_info(uuid)
//@ret r
//@spec
    ensures r._id == id, r.indexes.entries@.len() == 0,
//@end
}

/// the keys of the catalogue
proof fn lemma_meta(c: Seq<char>)
    ensures "$TABLE_META"@ == TABLE_META_PREFIX@, mk(c) == enc(Val::Str(TABLE_META_PREFIX@)) + enc(Val::Str(c)),
{ }

pub struct DatabaseInner { pub node_id: [u8; 6] }
impl DatabaseInner {
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::internal_get_collection_id_by_name
//@ret r
//@spec
    ensures final(txn).kv() == old(txn).kv(),
        match r {
            Ok(s) => spec_at(old(txn).kv(), name@) == Some(s) && old(txn).kv().contains_key(mk(name@)),
            Err(e) => (e is CollectionNotFound ==> !old(txn).kv().contains_key(mk(name@)))
                && (e is CollectionNotFound || e is Storage || (e is Bson && spec_at(old(txn).kv(), name@) is None)),
        },
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::check_collection_exist
//@ret r
//@spec
    ensures final(txn).kv() == old(txn).kv(),
        match r {
            Ok(b) => b == old(txn).kv().contains_key(mk(name@)),
            Err(e) => e is Storage || (e is Bson && spec_at(old(txn).kv(), name@) is None),
        },
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::internal_create_collection
//@rw definition written by contract: bson::to_vec(&$i_s) ~~> spec_to_vec(&$i_s)
//@rw slice of a vector: $i_d.as_ref() ~~> $i_d.as_slice()
//@ret r
//@spec
    ensures
        match r {
            Ok(s) => name@.len() > 0 && !old(txn).kv().contains_key(mk(name@)) && s._id@ == name@ && il(s).len() == 0 && wf_spec(s)
                && sser(s) is Some && final(txn).kv() == old(txn).kv().insert(mk(name@), sser(s)->0),
            Err(e) => final(txn).kv() == old(txn).kv() && !(e is CollectionNotFound) && !(e is DuplicateKey) && (e is CollectionAlreadyExits ==> old(txn).kv().contains_key(mk(name@))),
        },
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::create_collection_internal
//@ret r
//@spec
    ensures
        match r {
            Ok(s) => name@.len() > 0 && !old(txn).kv().contains_key(mk(name@)) && s._id@ == name@ && il(s).len() == 0 && wf_spec(s)
                && sser(s) is Some && final(txn).kv() == old(txn).kv().insert(mk(name@), sser(s)->0),
            Err(e) => final(txn).kv() == old(txn).kv() && (e is CollectionAlreadyExits ==> old(txn).kv().contains_key(mk(name@))),
        },
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::get_collection_meta_by_name_advanced
//@ret r
//@spec
    ensures
        match r {
            Ok(Some(s)) => spec_at(final(txn).kv(), name@) == Some(s)
                && (old(txn).kv().contains_key(mk(name@)) ==> final(txn).kv() == old(txn).kv())
                && (!old(txn).kv().contains_key(mk(name@)) ==> create_if_not_exist && name@.len() > 0 && s._id@ == name@ && il(s).len() == 0 && wf_spec(s)
                    && sser(s) is Some && final(txn).kv() == old(txn).kv().insert(mk(name@), sser(s)->0)),
            Ok(None) => !create_if_not_exist && final(txn).kv() == old(txn).kv() && !old(txn).kv().contains_key(mk(name@)),
            Err(e) => final(txn).kv() == old(txn).kv() && !(e is DuplicateKey),
        },
//@start
    broadcast use ax_sser;
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::get_collection_meta_by_name_advanced_auto
//@ret r
//@spec
    ensures
        match r {
            Ok(Some(s)) => spec_at(final(txn).kv(), name@) == Some(s)
                && (old(txn).kv().contains_key(mk(name@)) ==> final(txn).kv() == old(txn).kv())
                && (!old(txn).kv().contains_key(mk(name@)) ==> create_if_not_exist),
            Ok(None) => !create_if_not_exist && final(txn).kv() == old(txn).kv() && !old(txn).kv().contains_key(mk(name@)),
            Err(e) => final(txn).kv() == old(txn).kv(),
        },
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::is_num_1
//@ret r
//@spec
    ensures r == (*val == Bson::Int32(1) || *val == Bson::Int64(1)),
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::update_collection_spec
//@rw definition written by contract: bson::to_vec(&$i_s) ~~> spec_to_vec(&$i_s)
//@rw slice of a vector: $i_d.as_ref() ~~> $i_d.as_slice()
//@ret r
//@spec
    ensures
        match r {
            Ok(_) => sser(*collection_spec) is Some && final(txn).kv() == old(txn).kv().insert(mk(col_name@), sser(*collection_spec)->0),
            Err(e) => final(txn).kv() == old(txn).kv() && (e is Storage || e is Bson),
        },
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::build_index
//@ret r
//@spec
    requires wf_info(*index_info), okname(col_name@), docs_ok(old(txn).kv(), col_name@),
    ensures
        match r {
            Ok(_) => built(old(txn).kv(), final(txn).kv(), col_name@, (index_name@, idx(*index_info)), None, IndexHelperOperation::Insert),
            Err(e) => unbuildable(old(txn).kv(), col_name@, (index_name@, idx(*index_info)), IndexHelperOperation::Insert, e),
        },
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::create_single_index
//@rw name by contract: DatabaseInner::make_index_name($a) ~~> index_name_of($a)
//@rw cloned options: $i_o.cloned() ~~> cloned_options($i_o)
//@ret r
//@spec
    requires okname(col_name@), inv(old(txn).kv(), col_name@),
    ensures
        match r {
            Ok(_) => inv(final(txn).kv(), col_name@) && only(old(txn).kv(), final(txn).kv(), col_name@)
                && (forall|p: Val| wf(p) ==> #[trigger] doc_at(final(txn).kv(), col_name@, p) == doc_at(old(txn).kv(), col_name@, p))
                && final(txn).kv().contains_key(mk(col_name@))
                && (final(txn).kv() == old(txn).kv() || il_at(final(txn).kv(), col_name@).last().1 == new_idx(key@, options)),
            Err(e) => e is DuplicateKey ==> shared(old(txn).kv(), col_name@, key@) && (match options { Some(o) => o.unique == Some(true), None => false }),
        },
//@start
    broadcast use ax_sser;
    let ghost c = col_name@;
    let ghost kv0 = txn.kv();
//@bind $i_s.indexes.get(&$i_n)
//@bind let $i_f = IndexInfo::single_index
//@before $i_s.indexes.insert(
    let ghost s0 = $i_s;
    proof {
        assert($i_n.nm() == $i_n@);
        assert(il(s0) =~= il_at(kv0, c));
        assert forall|j: int| 0 <= j < il(s0).len() implies (#[trigger] il(s0)[j]).0 != $i_n@ by { assert(!has_name(s0.indexes, $i_n@, j)); }
        assert(fresh(il_at(kv0, c), $i_n@));
    }
//@after $i_s.indexes.insert($x);
    proof {
        assert(il($i_s) =~= il_at(kv0, c).push(($i_n@, idx($i_f))));
        assert forall|j: int| 0 <= j < $i_s.indexes.entries@.len() implies wf_info((#[trigger] $i_s.indexes.entries@[j]).1) by {
            if j < s0.indexes.entries@.len() { assert(wf_info(s0.indexes.entries@[j].1)); }
        }
        assert(wf_spec($i_s));
        if sser($i_s) is Some {
            lemma_put_spec(kv0, c, sser($i_s)->0, $i_s);
        }
    }
//@before self.build_index(
    let ghost b = sser($i_s)->0;
    let ghost i = ($i_n@, idx($i_f));
    proof {
        assert forall|kv2: KV| #[trigger] built(kv0.insert(mk(c), b), kv2, c, i, None, IndexHelperOperation::Insert) implies
            inv(kv2, c) && only(kv0, kv2, c) && spec_at(kv2, c) == Some($i_s)
            && forall|p: Val| wf(p) ==> #[trigger] doc_at(kv2, c, p) == doc_at(kv0, c, p) by {
            c08_create_index(kv0, c, $i_s, i, b, kv2);
        }
        assert forall|q: Val| #[trigger] clash(kv0.insert(mk(c), b), c, i, q) implies shared(kv0, c, key@) by {
            c09_create_conflict(kv0, c, i, b, $i_s, q);
            let t = choose|t: Val| t != q && wf(t) && (#[trigger] doc_at(kv0, c, t)) is Some && doc_at(kv0, c, q) is Some
                && pathv(doc_at(kv0, c, t)->0, i.1.path) is Some && pathv(doc_at(kv0, c, t)->0, i.1.path) == pathv(doc_at(kv0, c, q)->0, i.1.path);
            assert(sharing(kv0, c, key@, q, t));
        }
    }
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::internal_drop_index
//@ret r
//@spec
    requires okname(col_name@), inv(old(txn).kv(), col_name@),
    ensures
        r is Ok ==> inv(final(txn).kv(), col_name@) && only(old(txn).kv(), final(txn).kv(), col_name@)
            && (forall|p: Val| wf(p) ==> #[trigger] doc_at(final(txn).kv(), col_name@, p) == doc_at(old(txn).kv(), col_name@, p))
            && (final(txn).kv().contains_key(mk(col_name@)) == old(txn).kv().contains_key(mk(col_name@)))
            && fresh(il_at(final(txn).kv(), col_name@), index_name@)
            && (forall|v: Val| wf(v) ==> !#[trigger] taken(final(txn).kv(), col_name@, index_name@, v)),
//@bind let mut $i_s = match
//@bind let $i_g = $i_s.indexes.get(index_name);
//@start
    broadcast use ax_sser;
    let ghost c = col_name@;
    let ghost kv0 = txn.kv();
    let ghost l = il_at(kv0, c);
    proof {
        if fresh(l, index_name@) {
            assert forall|v: Val| wf(v) implies !#[trigger] taken(kv0, c, index_name@, v) by { lemma_no_entries(kv0, c, l, index_name@, v); }
        }
        if !kv0.contains_key(mk(c)) { assert(fresh(l, index_name@)); }
    }
//@after let $i_g = $i_s.indexes.get(index_name);
    let ghost s0 = $i_s;
    let ghost mut n: int = 0;
    proof {
        assert(il(s0) =~= l);
        assert(index_name.nm() == index_name@);
        if $i_g is None {
            assert forall|j: int| 0 <= j < l.len() implies (#[trigger] l[j]).0 != index_name@ by { assert(!has_name(s0.indexes, index_name@, j)); }
            assert(fresh(l, index_name@));
        } else {
            n = choose|j: int| #[trigger] has_name(s0.indexes, index_name@, j) && s0.indexes.entries@[j].1 == *$i_g->0;
            assert(l[n] == (index_name@, idx(*$i_g->0)));
            assert(wf_info(s0.indexes.entries@[n].1));
        }
    }
//@before $i_s.indexes.shift_remove(index_name)
    let ghost kv1 = txn.kv();
    proof {
        assert(built(kv0, kv1, c, l[n], None, IndexHelperOperation::Delete));
        assert forall|m: int| #[trigger] has_name(s0.indexes, index_name@, m) implies m == n by {
            if m < n { assert(l[m].0 != l[n].0); } else if n < m { assert(l[n].0 != l[m].0); }
        }
    }
//@after $i_s.indexes.shift_remove(index_name);
    proof {
        assert(has_name(s0.indexes, index_name.nm(), n));
        let s2 = $i_s;
        assert(il(s2) =~= l.remove(n));
        assert forall|j: int| 0 <= j < s2.indexes.entries@.len() implies wf_info((#[trigger] s2.indexes.entries@[j]).1) by {
            assert(s2.indexes.entries@[j] == s0.indexes.entries@[if j < n { j } else { j + 1 }]);
        }
        assert(distinct(il(s2))) by {
            let l2 = il(s2);
            assert forall|a: int, b: int| 0 <= a < b < l2.len() implies (#[trigger] l2[a]).0 != (#[trigger] l2[b]).0 by {
                let a1 = if a < n { a } else { a + 1 };
                let b1 = if b < n { b } else { b + 1 };
                assert(l2[a] == l[a1] && l2[b] == l[b1]);
                assert(l[a1].0 != l[b1].0);
            }
        }
        if sser(s2) is Some { c16_drop_index(kv0, c, s0, n, kv1, s2, sser(s2)->0); }
        lemma_own(c, c, Val::Null, Val::Null);
        assert(fresh(il(s2), index_name@)) by {
            let l2 = il(s2);
            assert forall|j: int| 0 <= j < l2.len() implies (#[trigger] l2[j]).0 != index_name@ by {
                let j1 = if j < n { j } else { j + 1 };
                assert(l2[j] == l[j1]);
                if j1 < n { assert(l[j1].0 != l[n].0); } else { assert(l[n].0 != l[j1].0); }
            }
        }
    }
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::drop_index
//@ret r
//@spec
    requires okname(col_name@) ==> inv(old(txn).kv(), col_name@),
    ensures
        !okname(col_name@) ==> r is Err && final(txn).kv() == old(txn).kv(),
        r is Ok ==> inv(final(txn).kv(), col_name@) && only(old(txn).kv(), final(txn).kv(), col_name@)
            && (forall|p: Val| wf(p) ==> #[trigger] doc_at(final(txn).kv(), col_name@, p) == doc_at(old(txn).kv(), col_name@, p))
            && fresh(il_at(final(txn).kv(), col_name@), index_name@)
            && (forall|v: Val| wf(v) ==> !#[trigger] taken(final(txn).kv(), col_name@, index_name@, v)),
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::validate_col_name
//@rw characters as an indexed loop: for $i_c in col_name.chars() { ~~> let zcs = chars_of(col_name); let mut zi: usize = 0; while zi < zcs.len() { let $i_c = zcs[zi]; zi = zi + 1;
//@ret r
//@spec
    ensures r is Ok == okname(col_name@), r is Err ==> r->Err_0 is IllegalCollectionName,
//@loop 0
    invariant zcs@ == col_name@, zi <= zcs.len(), forall|j: int| 0 <= j < zi ==> !forbidden(#[trigger] col_name@[j]),
    decreases zcs.len() - zi,
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::validate_index_name
//@rw characters as an indexed loop: for $i_c in col_name.chars() { ~~> let zcs = chars_of(col_name); let mut zi: usize = 0; while zi < zcs.len() { let $i_c = zcs[zi]; zi = zi + 1;
//@ret r
//@spec
    ensures r is Ok == okname(col_name@), r is Err ==> r->Err_0 is IllegalIndexName,
//@loop 0
    invariant zcs@ == col_name@, zi <= zcs.len(), forall|j: int| 0 <= j < zi ==> !forbidden(#[trigger] col_name@[j]),
    decreases zcs.len() - zi,
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::internal_create_index
//@rw error without its text: Error::OnlySupportSingleFieldIndexes($m) ~~> Error::OnlySupportSingleFieldIndexes
//@rw the pairs of a document: = $x.iter().collect::<Vec<(&String, &Bson)>>() ~~> = doc_pairs(&$x)
//@rw the only pair: let $i_f = $x.first().unwrap(); let ($i_k, $i_v) = $i_f; ~~> let ($i_k, $i_v) = $x[0];
//@rw the number of pairs: index.keys.len() ~~> doc_len(&index.keys)
//@ret r
//@spec
    requires okname(col_name@), inv(old(txn).kv(), col_name@),
    ensures
        match r {
            Ok(_) => dv(index.keys).len() == 1 && inv(final(txn).kv(), col_name@) && only(old(txn).kv(), final(txn).kv(), col_name@)
                && (forall|p: Val| wf(p) ==> #[trigger] doc_at(final(txn).kv(), col_name@, p) == doc_at(old(txn).kv(), col_name@, p))
                && final(txn).kv().contains_key(mk(col_name@)),
            Err(e) => e is DuplicateKey ==> dv(index.keys).len() == 1 && shared(old(txn).kv(), col_name@, dv(index.keys)[0].0) && (match index.options { Some(o) => o.unique == Some(true), None => false }),
        },
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::create_index
//@ret r
//@spec
    requires okname(col_name@) ==> inv(old(txn).kv(), col_name@),
    ensures
        !okname(col_name@) ==> r is Err && final(txn).kv() == old(txn).kv(),
        match r {
            Ok(_) => inv(final(txn).kv(), col_name@) && only(old(txn).kv(), final(txn).kv(), col_name@)
                && (forall|p: Val| wf(p) ==> #[trigger] doc_at(final(txn).kv(), col_name@, p) == doc_at(old(txn).kv(), col_name@, p)),
            Err(e) => e is DuplicateKey ==> dv(index.keys).len() == 1 && shared(old(txn).kv(), col_name@, dv(index.keys)[0].0) && (match index.options { Some(o) => o.unique == Some(true), None => false }),
        },
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::delete_collection_meta
//@rw name as a value: &col_name.into() ~~> &Bson::String(str_own(col_name))
//@ret r
//@spec
    ensures match r {
        Ok(_) => final(txn).kv() == old(txn).kv().remove(mk(col_name@)),
        Err(e) => final(txn).kv() == old(txn).kv() && e is Storage,
    },
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::fix_doc
//@rw field name: meta_doc_key::ID ~~> ID
//@rw insertion of a new identifier: doc.insert::<String, Bson>($k.into(), $i_o.into()) ~~> doc.insert(str_own($k), Bson::ObjectId($i_o))
//@ret r
//@spec
    ensures fixed(doc, r),
//@start
    let ghost d0 = doc;
    proof { lemma_get_ins(dv(doc), ID@, Bson::Null, ID@); }
//@bind let $i_o = ObjectId::new();
//@after let $i_o = ObjectId::new();
    proof { lemma_get_ins(dv(d0), ID@, Bson::ObjectId($i_o), ID@); }
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::try_insert_index
//@ret r
//@spec
    requires wf_spec(*col_spec),
    ensures
        match r {
            Ok(_) => ixn(old(txn).kv(), col_spec._id@, il(*col_spec), il(*col_spec).len() as int, *doc, val(*pkey), IndexHelperOperation::Insert) == Some(final(txn).kv()),
            Err(e) => exists|n: int| n >= 0 && some(#[trigger] il(*col_spec)[n]) && stopped(n, old(txn).kv(), col_spec._id@, il(*col_spec), *doc, val(*pkey), IndexHelperOperation::Insert, e, final(txn).kv()),
        },
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::insert_one_with_meta
//@rw slice of a vector: $i_d.as_ref() ~~> $i_d.as_slice()
//@rw document written by contract: bson::to_vec(&$i_s) ~~> doc_to_vec(&$i_s)
//@ret r
//@spec
    requires okname(col_spec._id@), inv(old(txn).kv(), col_spec._id@), spec_at(old(txn).kv(), col_spec._id@) == Some(col_spec),
    ensures
        match r {
            Ok((res, s)) => s == col_spec && inserted(old(txn).kv(), final(txn).kv(), col_spec._id@, doc, val(res.inserted_id)),
            Err(e) => e is DuplicateKey ==> conflicting(old(txn).kv(), col_spec._id@, doc),
        },
//@start
    let ghost c = col_spec._id@;
    let ghost kv0 = txn.kv();
    let ghost d0 = doc;
//@bind let $i_d = DatabaseInner::fix_doc($i_o);
//@bind let $i_p = $i_d.get($n).unwrap();
//@after let $i_p = $i_d.get($n).unwrap();
    let ghost p = val(*$i_p);
    proof { assert(pk($i_d) == Some(p)); }
//@before self.try_insert_index(
    let ghost b = ser($i_d)->0;
    proof {
        assert(txn.kv() == kv0.insert(dk(c, p), b));
        assert forall|kv2: KV| ixn(kv0.insert(dk(c, p), b), c, il(col_spec), il(col_spec).len() as int, $i_d, p, IndexHelperOperation::Insert) == Some(kv2) implies #[trigger] inserted(kv0, kv2, c, d0, p) by {
            c08_insert(kv0, c, col_spec, $i_d, p, b, kv2);
            assert(inserted_as(kv0, kv2, c, d0, p, $i_d));
        }
        assert forall|n: int, now: KV| 0 <= n < il(col_spec).len() && ixn(kv0.insert(dk(c, p), b), c, il(col_spec), n, $i_d, p, IndexHelperOperation::Insert) == Some(now)
            && #[trigger] dup1(now, c, il(col_spec)[n], $i_d) implies conflicting(kv0, c, d0) by {
            c09_conflict(kv0, c, col_spec, $i_d, p, b, n, now);
            let q = choose|q: Val| wf(q) && q != p && (#[trigger] doc_at(kv0, c, q)) is Some && pathv(doc_at(kv0, c, q)->0, il(col_spec)[n].1.path) == pathv($i_d, il(col_spec)[n].1.path);
            assert(clashes(kv0, c, $i_d, il(col_spec)[n], q));
            assert(conflicting_as(kv0, c, d0, $i_d));
        }
    }
//@before return Err(Error::DuplicateKey);
    proof { assert(conflicting_as(kv0, c, d0, $i_d)); }
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::insert_one_internal
//@rw the definition exists: self.get_collection_meta_by_name_advanced($a)?.expect($m) ~~> must(self.get_collection_meta_by_name_advanced($a)?)
//@rw result: let (result, _) = ~~> let (result, _zspec) =
//@ret r
//@spec
    requires okname(col_name@), inv(old(txn).kv(), col_name@),
    ensures
        match r {
            Ok(res) => inserted(old(txn).kv(), final(txn).kv(), col_name@, doc, val(res.inserted_id)),
            Err(e) => e is DuplicateKey ==> conflicting(old(txn).kv(), col_name@, doc),
        },
//@start
    let ghost c = col_name@;
    let ghost kv0 = txn.kv();
    broadcast use ax_sser;
//@bind let $i_m = must(
//@before let (result, _zspec) =
    let ghost kv1 = txn.kv();
    proof {
        if !kv0.contains_key(mk(c)) {
            let b = sser($i_m)->0;
            lemma_inv_new(kv0, c, $i_m, b);
            assert forall|kv2: KV, p: Val| inserted(kv1, kv2, c, doc, p) implies #[trigger] inserted(kv0, kv2, c, doc, p) by { lemma_inserted_new(kv0, c, $i_m, b, kv2, doc, p); }
            if conflicting(kv1, c, doc) { lemma_no_conflict(kv0, c, $i_m, b, doc); }
        }
    }
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::insert_one
//@ret r
//@spec
    requires okname(col_name@) ==> inv(old(txn).kv(), col_name@),
    ensures
        !okname(col_name@) ==> r is Err && final(txn).kv() == old(txn).kv(),
        match r {
            Ok(res) => inserted(old(txn).kv(), final(txn).kv(), col_name@, doc, val(res.inserted_id)),
            Err(e) => e is DuplicateKey ==> conflicting(old(txn).kv(), col_name@, doc),
        },
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::insert_many_internal
//@rw documents to insert: insert_many_internal<T: Serialize> ~~> insert_many_internal
//@rw documents to insert: docs: impl IntoIterator<Item = impl Borrow<T>> ~~> docs: Vec<Document>
//@rw the definition exists: self.get_collection_meta_by_name_advanced($a)?.expect($m) ~~> must(self.get_collection_meta_by_name_advanced($a)?)
//@rw numbered documents as an indexed loop: for ($i_c, $i_d) in docs.into_iter().enumerate() { ~~> let mut zi: usize = 0; while zi < docs.len() { let $i_c = zi; let $i_d = &docs[zi]; zi = zi + 1;
//@rw serialisation by contract: bson::to_document($i_d.borrow()) ~~> to_document($i_d)
//@rw map of numbers: HashMap<usize, Bson> = HashMap::new() ~~> IdMap = IdMap::new()
//@ret r
//@spec
    requires okname(col_name@), inv(old(txn).kv(), col_name@),
    ensures
        match r {
            Ok(res) => exists|st: Seq<KV>, ids: Seq<Val>| #[trigger] inserted_all(st, col_name@, docs@, ids) && started(old(txn).kv(), st[0], col_name@) && st.last() == final(txn).kv() && ids.len() == docs@.len()
                && inv(final(txn).kv(), col_name@) && only(old(txn).kv(), final(txn).kv(), col_name@)
                && (forall|j: usize| #[trigger] res.inserted_ids.m().contains_key(j) == (j < docs@.len())) && forall|j: usize| j < docs@.len() ==> val(#[trigger] res.inserted_ids.m()[j]) == ids[j as int],
            Err(e) => e is DuplicateKey ==> exists|st: Seq<KV>, ids: Seq<Val>| #[trigger] refused_at(st, col_name@, docs@, ids) && started(old(txn).kv(), st[0], col_name@),
        },
//@start
    let ghost c = col_name@;
    let ghost kv0 = txn.kv();
    let ghost mut ids: Seq<Val> = Seq::empty();
    let ghost mut st: Seq<KV> = Seq::empty();
    broadcast use ax_sser;
//@bind let mut $i_m = must(
//@bind let mut $i_h: IdMap
//@beforeloop 0
    let ghost kv1 = txn.kv();
    proof {
        if !kv0.contains_key(mk(c)) {
            let b = sser($i_m)->0;
            lemma_inv_new(kv0, c, $i_m, b);
        }
        st = seq![kv1];
    }
//@loop 0
    invariant
        c == col_name@, okname(c), kv0 == old(txn).kv(), zi <= docs.len(), ids.len() == zi,
        inserted_all(st, c, docs@, ids), st[0] == kv1, st.last() == txn.kv(), inv(txn.kv(), c), only(kv0, txn.kv(), c),
        spec_at(txn.kv(), c) == Some($i_m), $i_m._id@ == c,
        started(kv0, kv1, c),
        forall|j: usize| #[trigger] $i_h.m().contains_key(j) == (j < zi), forall|j: usize| j < zi ==> val(#[trigger] $i_h.m()[j]) == ids[j as int],
    decreases docs.len() - zi,
//@loopstart 0
    let ghost kvb = txn.kv();
    proof {
        if conflicting(kvb, c, docs@[zi as int]) { assert(refused_at(st, c, docs@, ids)); }
    }
//@loopend 0
    proof {
        let p = val($i_h.m()[(zi - 1) as usize]);
        assert(inserted(kvb, txn.kv(), c, docs@[zi - 1], p));
        lemma_inserted_all(st, txn.kv(), c, docs@, ids, p);
        ids = ids.push(p);
        st = st.push(txn.kv());
        let d = choose|d: Document| #[trigger] inserted_as(kvb, txn.kv(), c, docs@[zi - 1], p, d);
        assert(spec_at(txn.kv(), c) == spec_at(kvb, c));
    }
//@afterloop 0
    proof { assert(inserted_all(st, c, docs@, ids)); }
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::merge_query_and_update
//@rw fields as an indexed loop: for ($i_k, $i_v) in query { ~~> let zq = doc_pairs(query); let mut zi: usize = 0; while zi < zq.len() { let ($i_k, $i_v) = zq[zi]; zi = zi + 1;
//@rw fields as an indexed loop: for ($i_k, $i_v) in update { ~~> let zu = doc_pairs(update); let mut zj: usize = 0; while zj < zu.len() { let ($i_k, $i_v) = zu[zj]; zj = zj + 1;
//@rw error without its text: Error::UpsertError($m) ~~> Error::UpsertError
//@rw character test: key.starts_with('$') ~~> starts_with_char(key, '$')
//@rw character test: key.contains('.') ~~> contains_char(key, '.')
//@rw character test: key.contains("$") ~~> contains_char(key, '$')
//@rw character test: key.contains(".") ~~> contains_char(key, '.')
//@rw copies of the field: doc.insert(key, value) ~~> doc.insert(key, value.clone())
//@ret r
//@spec
    ensures
        match r {
            Ok(d) => merged(dv(*query), dv(*update), dv(d)),
            Err(e) => e is UpsertError,
        },
//@bind let mut $i_d = Document::new();
//@beforeloop 0
    let ghost q = dv(*query);
    let ghost u = dv(*update);
//@loop 0
    invariant
        q == dv(*query), zi <= zq.len(), zq.len() == q.len(),
        forall|j: int| 0 <= j < zq@.len() ==> (*(#[trigger] zq@[j]).0)@ == q[j].0 && *zq@[j].1 == q[j].1,
        forall|k: Seq<char>| #[trigger] d_get(dv($i_d), k) == last_eq(q, zi as int, k),
    decreases zq.len() - zi,
//@loopstart 0
    let ghost before = dv($i_d);
    proof { assert forall|k: Seq<char>, v: Bson| #[trigger] d_get(d_ins(before, q[zi as int].0, v), k) == (if k == q[zi as int].0 { Some(v) } else { d_get(before, k) }) by { lemma_get_ins(before, q[zi as int].0, v, k); } }
//@loop 1
    invariant
        u == dv(*update), zj <= zu.len(), zu.len() == u.len(),
        forall|j: int| 0 <= j < zu@.len() ==> (*(#[trigger] zu@[j]).0)@ == u[j].0 && *zu@[j].1 == u[j].1,
        forall|k: Seq<char>| #[trigger] d_get(dv($i_d), k) == (match last_of(u, zj as int, k) { Some(v) => Some(v), None => last_eq(q, q.len() as int, k) }),
    decreases zu.len() - zj,
//@loopstart 1
    let ghost before = dv($i_d);
    proof { assert forall|k: Seq<char>, v: Bson| #[trigger] d_get(d_ins(before, u[zj as int].0, v), k) == (if k == u[zj as int].0 { Some(v) } else { d_get(before, k) }) by { lemma_get_ins(before, u[zj as int].0, v, k); } }
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::upsert
//@rw refused as a match: = $x.ok_or($e)?; ~~> = match $x { Some(zd) => zd, None => { return Err($e); } };
//@ret r
//@spec
    requires okname(col_name@), inv(old(txn).kv(), col_name@),
    ensures
        match r {
            Ok(_) => match d_get(dv(update), "$set"@) {
                None => final(txn).kv() == old(txn).kv(),
                Some(Bson::Document(s)) => exists|doc: Document, p: Val| merged(dv(query), dv(s), dv(doc)) && #[trigger] inserted(old(txn).kv(), final(txn).kv(), col_name@, doc, p),
                _ => false,
            },
            Err(e) => e is DuplicateKey ==> exists|doc: Document| #[trigger] conflicting(old(txn).kv(), col_name@, doc),
        },
//@end
}
pub open spec fn new_idx(path: Seq<char>, options: Option<&IndexOptions>) -> Idx {
    Idx { path, unique: match options { Some(o) => (match o.unique { Some(u) => u, None => false }), None => false } }
}
pub open spec fn sharing(kv: KV, c: Seq<char>, path: Seq<char>, q: Val, t: Val) -> bool {
    q != t && wf(q) && wf(t) && doc_at(kv, c, q) is Some && doc_at(kv, c, t) is Some
        && pathv(doc_at(kv, c, q)->0, path) is Some && pathv(doc_at(kv, c, q)->0, path) == pathv(doc_at(kv, c, t)->0, path)
}
/// two documents of the collection have the same value
pub open spec fn shared(kv: KV, c: Seq<char>, path: Seq<char>) -> bool { exists|q: Val, t: Val| #[trigger] sharing(kv, c, path, q, t) }
#[verifier::external_body]
fn index_name_of(key: &str, order: i32, o: Option<&IndexOptions>) -> (r: Result<String>)
    ensures r is Err ==> r->Err_0 is IllegalIndexName,
{ unimplemented!() }
#[verifier::external_body]
fn cloned_options(o: Option<&IndexOptions>) -> (r: Option<IndexOptions>)
    ensures match o { Some(x) => r is Some && r->0.unique == x.unique, None => r is None },
{ unimplemented!() }

#[verifier::external_body]
fn chars_of(s: &str) -> (r: Vec<char>) ensures r@ == s@, { unimplemented!() }
pub struct IndexModel { pub keys: Document, pub options: Option<IndexOptions> }
#[verifier::external_body]
fn doc_len(d: &Document) -> (r: usize) ensures r == dv(*d).len(), { unimplemented!() }
#[verifier::external_body]
fn doc_pairs<'a>(d: &'a Document) -> (r: Vec<(&'a String, &'a Bson)>)
    ensures r@.len() == dv(*d).len(), forall|j: int| 0 <= j < r@.len() ==> (*(#[trigger] r@[j]).0)@ == dv(*d)[j].0 && *r@[j].1 == dv(*d)[j].1,
{ unimplemented!() }

impl ObjectId {
    #[verifier::external_body]
    pub fn new() -> (r: ObjectId) { unimplemented!() }
}
pub struct InsertOneResult { pub inserted_id: Bson }
/// d is the document to store for doc: doc itself, or doc with a new identifier
pub open spec fn fixed(doc: Document, d: Document) -> bool {
    &&& d_has(dv(d), "_id"@)
    &&& d_get(dv(doc), "_id"@) is Some && !(d_get(dv(doc), "_id"@)->0 is Null) ==> d == doc
    &&& d_get(dv(doc), "_id"@) is None || d_get(dv(doc), "_id"@)->0 is Null ==> exists|o: ObjectId| dv(d) == #[trigger] d_ins(dv(doc), "_id"@, Bson::ObjectId(o))
}
pub open spec fn inserted_as(kv0: KV, kv: KV, c: Seq<char>, doc: Document, p: Val, d: Document) -> bool {
    &&& fixed(doc, d)
    &&& pk(d) == Some(p)
    &&& wf(p)
    &&& !kv0.contains_key(dk(c, p))
    &&& doc_at(kv, c, p) == Some(d)
    &&& inv(kv, c)
    &&& only(kv0, kv, c)
    &&& spec_at(kv, c) is Some
    &&& kv0.contains_key(mk(c)) ==> spec_at(kv, c) == spec_at(kv0, c)
    &&& forall|q: Val| wf(q) && q != p ==> #[trigger] doc_at(kv, c, q) == doc_at(kv0, c, q)
}
/// the document was new, it is stored under its key, everything else is as it was
pub open spec fn inserted(kv0: KV, kv: KV, c: Seq<char>, doc: Document, p: Val) -> bool { exists|d: Document| #[trigger] inserted_as(kv0, kv, c, doc, p, d) }
pub open spec fn clashes(kv: KV, c: Seq<char>, d: Document, i: (Seq<char>, Idx), q: Val) -> bool {
    wf(q) && doc_at(kv, c, q) is Some && i.1.unique && pathv(d, i.1.path) is Some && pathv(doc_at(kv, c, q)->0, i.1.path) == pathv(d, i.1.path)
}
pub open spec fn conflicting_as(kv: KV, c: Seq<char>, doc: Document, d: Document) -> bool {
    fixed(doc, d) && pk(d) is Some && (kv.contains_key(dk(c, pk(d)->0)) || exists|j: int, q: Val| 0 <= j < il_at(kv, c).len() && #[trigger] clashes(kv, c, d, il_at(kv, c)[j], q))
}
/// the collection has a document with the key, or with the value of a unique index, of the new document
pub open spec fn conflicting(kv: KV, c: Seq<char>, doc: Document) -> bool { exists|d: Document| #[trigger] conflicting_as(kv, c, doc, d) }

#[verifier::external_body]
fn must(o: Option<CollectionSpecification>) -> (r: CollectionSpecification) requires o is Some, ensures o == Some(r), { unimplemented!() }
proof fn lemma_inserted_new(kv0: KV, c: Seq<char>, s: CollectionSpecification, b: Seq<u8>, kv2: KV, doc: Document, p: Val)
    requires okname(c), inv(kv0, c), !kv0.contains_key(mk(c)), sde(b) == Some(s), s._id@ == c, wf_spec(s), il(s).len() == 0,
        inserted(kv0.insert(mk(c), b), kv2, c, doc, p),
    ensures inserted(kv0, kv2, c, doc, p),
{
    let kv1 = kv0.insert(mk(c), b);
    let d = choose|d: Document| #[trigger] inserted_as(kv1, kv2, c, doc, p, d);
    lemma_inv_new(kv0, c, s, b);
    lemma_put_spec(kv0, c, b, s);
    assert forall|q: Val| wf(q) && q != p implies #[trigger] doc_at(kv2, c, q) == doc_at(kv0, c, q) by { assert(doc_at(kv1, c, q) == doc_at(kv0, c, q)); }
    lemma_own(c, c, p, p);
    assert(inserted_as(kv0, kv2, c, doc, p, d));
}
/// a new collection conflicts with nothing
proof fn lemma_no_conflict(kv0: KV, c: Seq<char>, s: CollectionSpecification, b: Seq<u8>, doc: Document)
    requires okname(c), inv(kv0, c), !kv0.contains_key(mk(c)), sde(b) == Some(s), s._id@ == c, wf_spec(s), il(s).len() == 0,
        conflicting(kv0.insert(mk(c), b), c, doc),
    ensures conflicting(kv0, c, doc),
{
    let kv1 = kv0.insert(mk(c), b);
    let d = choose|d: Document| #[trigger] conflicting_as(kv1, c, doc, d);
    lemma_own(c, c, Val::Null, Val::Null);
    let k = dk(c, pk(d)->0);
    lemma_pref_add(pre1(c), enc(pk(d)->0));
    if k != mk(c) { assert(kv0.contains_key(k)); }
    assert(conflicting_as(kv0, c, doc, d));
}

pub struct IdMap { x: u8 }
impl IdMap {
    pub uninterp spec fn m(&self) -> Map<usize, Bson>;
    #[verifier::external_body]
    pub fn new() -> (r: IdMap) ensures r.m() == Map::<usize, Bson>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: usize, v: Bson) -> (r: Option<Bson>) ensures final(self).m() == old(self).m().insert(k, v), { unimplemented!() }
}
pub struct InsertManyResult { pub inserted_ids: IdMap }
#[verifier::external_body]
fn to_document(d: &Document) -> (r: Result<Document>) ensures match r { Ok(x) => x == *d, Err(e) => e is Bson }, { unimplemented!() }
/// the collection exists, created if it did not
pub open spec fn started(kv0: KV, kv1: KV, c: Seq<char>) -> bool {
    &&& kv0.contains_key(mk(c)) ==> kv1 == kv0
    &&& !kv0.contains_key(mk(c)) ==> exists|b: Seq<u8>| kv1 == #[trigger] kv0.insert(mk(c), b)
}
/// the documents of a list, one after the other: the states in between
pub open spec fn inserted_all(st: Seq<KV>, c: Seq<char>, docs: Seq<Document>, ids: Seq<Val>) -> bool {
    &&& ids.len() <= docs.len() && st.len() == ids.len() + 1
    &&& forall|j: int| 0 <= j < ids.len() ==> #[trigger] inserted_nth(st, c, docs, ids, j)
}
pub open spec fn inserted_nth(st: Seq<KV>, c: Seq<char>, docs: Seq<Document>, ids: Seq<Val>, j: int) -> bool { inserted(st[j], st[j + 1], c, docs[j], ids[j]) }
pub open spec fn refused_at(st: Seq<KV>, c: Seq<char>, docs: Seq<Document>, ids: Seq<Val>) -> bool {
    inserted_all(st, c, docs, ids) && ids.len() < docs.len() && conflicting(st.last(), c, docs[ids.len() as int])
}

proof fn lemma_inserted_all(st: Seq<KV>, kv: KV, c: Seq<char>, docs: Seq<Document>, ids: Seq<Val>, p: Val)
    requires inserted_all(st, c, docs, ids), ids.len() < docs.len(), inserted(st.last(), kv, c, docs[ids.len() as int], p),
    ensures inserted_all(st.push(kv), c, docs, ids.push(p)),
{
    let (s2, i2) = (st.push(kv), ids.push(p));
    assert forall|j: int| 0 <= j < i2.len() implies #[trigger] inserted_nth(s2, c, docs, i2, j) by {
        if j < ids.len() { assert(inserted_nth(st, c, docs, ids, j)); }
    }
}

#[verifier::external_body]
fn starts_with_char(s: &String, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c), { unimplemented!() }
#[verifier::external_body]
fn contains_char(s: &String, c: char) -> (r: bool) ensures r == s@.contains(c), { unimplemented!() }
/// the value a condition of the query demands
pub open spec fn demanded(k: Seq<char>, v: Bson) -> Option<Bson> {
    if k.len() > 0 && k[0] == '$' { None } else { match v { Bson::Document(o) => d_get(dv(o), "$eq"@), _ => Some(v) } }
}
pub open spec fn last_eq(q: DV, n: int, k: Seq<char>) -> Option<Bson>
    decreases n,
{ if n <= 0 { None } else if q[n - 1].0 == k && demanded(k, q[n - 1].1) is Some { demanded(k, q[n - 1].1) } else { last_eq(q, n - 1, k) } }
pub open spec fn last_of(q: DV, n: int, k: Seq<char>) -> Option<Bson>
    decreases n,
{ if n <= 0 { None } else if q[n - 1].0 == k { Some(q[n - 1].1) } else { last_of(q, n - 1, k) } }
/// the new document has what $set says and otherwise what the query demands
pub open spec fn merged(q: DV, u: DV, d: DV) -> bool {
    forall|k: Seq<char>| #[trigger] d_get(d, k) == (match last_of(u, u.len() as int, k) { Some(v) => Some(v), None => last_eq(q, q.len() as int, k) })
}
