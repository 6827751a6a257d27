// The catalogue, the documents and the index entries of a collection as they lie in the key-value map.
pub struct IndexMap<K, V> { pub entries: Vec<(K, V)> }
#[derive(Clone)]
pub struct IndexOptions { pub name: Option<String>, pub unique: Option<bool> }
pub struct IndexInfo { pub keys: IndexMap<String, i8>, pub options: Option<IndexOptions> }
pub struct Opaque { x: u8 }
pub enum CollectionType { View, Collection }
pub struct CollectionSpecification { pub _id: String, pub collection_type: CollectionType, pub info: Opaque, pub indexes: IndexMap<String, IndexInfo> }

pub struct Idx { pub path: Seq<char>, pub unique: bool }
pub open spec fn idx(info: IndexInfo) -> Idx {
    Idx {
        path: info.keys.entries@[0].0@,
        unique: match info.options { Some(o) => (match o.unique { Some(u) => u, None => false }), None => false },
    }
}
/// the indexes of a collection
pub open spec fn il(s: CollectionSpecification) -> Seq<(Seq<char>, Idx)> {
    s.indexes.entries@.map_values(|e: (String, IndexInfo)| (e.0@, idx(e.1)))
}
pub open spec fn wf_info(i: IndexInfo) -> bool { i.keys.entries@.len() == 1 }
pub open spec fn distinct(l: Seq<(Seq<char>, Idx)>) -> bool { forall|a: int, b: int| 0 <= a < b < l.len() ==> (#[trigger] l[a]).0 != (#[trigger] l[b]).0 }
pub open spec fn wf_spec(s: CollectionSpecification) -> bool {
    &&& forall|j: int| 0 <= j < s.indexes.entries@.len() ==> wf_info((#[trigger] s.indexes.entries@[j]).1)
    &&& distinct(il(s))
}

// serialisation (assumed: the bson crate reads back what it wrote)
pub uninterp spec fn ser(d: Document) -> Option<Seq<u8>>;
pub uninterp spec fn de(b: Seq<u8>) -> Option<Document>;
pub uninterp spec fn sser(s: CollectionSpecification) -> Option<Seq<u8>>;
pub uninterp spec fn sde(b: Seq<u8>) -> Option<CollectionSpecification>;
pub broadcast axiom fn ax_ser(d: Document) ensures #[trigger] ser(d) is Some ==> de(ser(d)->0) == Some(d);
pub broadcast axiom fn ax_sser(s: CollectionSpecification) ensures #[trigger] sser(s) is Some ==> sde(sser(s)->0) == Some(s);

#[verifier::external_body]
fn doc_to_vec(d: &Document) -> (r: Result<Vec<u8>>)
    ensures match r { Ok(v) => ser(*d) == Some(v@), Err(e) => ser(*d) is None && e is Bson },
{ unimplemented!() }
#[verifier::external_body]
fn doc_from_slice(b: &[u8]) -> (r: Result<Document>)
    ensures match r { Ok(d) => de(b@) == Some(d), Err(e) => de(b@) is None && e is Bson },
{ unimplemented!() }
#[verifier::external_body]
fn spec_to_vec(d: &CollectionSpecification) -> (r: Result<Vec<u8>>)
    ensures match r { Ok(v) => sser(*d) == Some(v@), Err(e) => sser(*d) is None && e is Bson },
{ unimplemented!() }
#[verifier::external_body]
fn spec_from_slice(b: &[u8]) -> (r: Result<CollectionSpecification>)
    ensures match r { Ok(d) => sde(b@) == Some(d), Err(e) => sde(b@) is None && e is Bson },
{ unimplemented!() }

// ---- the value at a dotted path ----
pub uninterp spec fn parts(path: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn pv(d: Document, ks: Seq<Seq<char>>) -> Option<Bson>
    decreases ks.len(),
{
    if ks.len() == 0 { None } else {
        match d_get(dv(d), ks[0]) {
            Some(Bson::Document(e)) => pv(e, ks.skip(1)),
            Some(v) => if ks.len() == 1 { Some(v) } else { None },
            None => None,
        }
    }
}
pub open spec fn pathv(d: Document, path: Seq<char>) -> Option<Val> {
    match pv(d, parts(path)) { Some(b) => Some(val(b)), None => None }
}
pub open spec fn pk(d: Document) -> Option<Val> {
    match d_get(dv(d), "_id"@) { Some(b) => Some(val(b)), None => None }
}

// ---- a collection's state ----
pub open spec fn spec_at(kv: KV, c: Seq<char>) -> Option<CollectionSpecification> {
    if kv.contains_key(mk(c)) { sde(kv[mk(c)]) } else { None }
}
pub open spec fn doc_at(kv: KV, c: Seq<char>, p: Val) -> Option<Document> {
    if kv.contains_key(dk(c, p)) { de(kv[dk(c, p)]) } else { None }
}
/// the definition is readable
pub open spec fn meta_ok(kv: KV, c: Seq<char>) -> bool {
    kv.contains_key(mk(c)) ==> spec_at(kv, c) is Some && spec_at(kv, c)->0._id@ == c && wf_spec(spec_at(kv, c)->0)
}
/// every key of the collection's range is a document under its own primary key
pub open spec fn docs_ok(kv: KV, c: Seq<char>) -> bool {
    forall|k: Seq<u8>| #[trigger] kv.contains_key(k) && pref(pre1(c), k) ==> doc_key(kv, c, k)
}
pub open spec fn doc_key(kv: KV, c: Seq<char>, k: Seq<u8>) -> bool {
    de(kv[k]) is Some && pk(de(kv[k])->0) is Some && wf(pk(de(kv[k])->0)->0) && k == dk(c, pk(de(kv[k])->0)->0)
}
/// every entry belongs to a document that has the value
pub open spec fn entries_ok(kv: KV, c: Seq<char>, l: Seq<(Seq<char>, Idx)>) -> bool {
    forall|k: Seq<u8>| #[trigger] kv.contains_key(k) && pref(ipre(c), k) ==> exists|j: int, p: Val| 0 <= j < l.len() && #[trigger] is_entry(kv, c, l[j], p, k)
}
pub open spec fn is_entry(kv: KV, c: Seq<char>, i: (Seq<char>, Idx), p: Val, k: Seq<u8>) -> bool {
    let d = doc_at(kv, c, p);
    wf(p) && d is Some && pathv(d->0, i.1.path) is Some && wf(pathv(d->0, i.1.path)->0) && k == ik(c, i.0, pathv(d->0, i.1.path)->0, p)
}
/// every document that has a value has its entry
pub open spec fn indexed(kv: KV, c: Seq<char>, i: (Seq<char>, Idx)) -> bool {
    forall|p: Val| wf(p) && (#[trigger] doc_at(kv, c, p)) is Some ==> has_entry(kv, c, i, p)
}
pub open spec fn has_entry(kv: KV, c: Seq<char>, i: (Seq<char>, Idx), p: Val) -> bool {
    match pathv(doc_at(kv, c, p)->0, i.1.path) { Some(v) => wf(v) && kv.contains_key(ik(c, i.0, v, p)), None => true }
}
/// no two documents share a value of a unique index
pub open spec fn unique_ok(kv: KV, c: Seq<char>, i: (Seq<char>, Idx)) -> bool {
    forall|p: Val, q: Val| wf(p) && wf(q) && (#[trigger] doc_at(kv, c, p)) is Some && (#[trigger] doc_at(kv, c, q)) is Some
        && pathv(doc_at(kv, c, p)->0, i.1.path) is Some
        && pathv(doc_at(kv, c, p)->0, i.1.path) == pathv(doc_at(kv, c, q)->0, i.1.path) ==> p == q
}
pub open spec fn mirror(kv: KV, c: Seq<char>, l: Seq<(Seq<char>, Idx)>) -> bool {
    &&& entries_ok(kv, c, l)
    &&& forall|j: int| 0 <= j < l.len() ==> indexed(kv, c, #[trigger] l[j])
    &&& forall|j: int| 0 <= j < l.len() && l[j].1.unique ==> unique_ok(kv, c, #[trigger] l[j])
}
pub open spec fn il_at(kv: KV, c: Seq<char>) -> Seq<(Seq<char>, Idx)> {
    match spec_at(kv, c) { Some(s) => il(s), None => Seq::empty() }
}
/// the invariant of a collection (C08, C09)
pub open spec fn inv(kv: KV, c: Seq<char>) -> bool {
    &&& meta_ok(kv, c)
    &&& docs_ok(kv, c)
    &&& mirror(kv, c, il_at(kv, c))
    &&& !kv.contains_key(mk(c)) ==> forall|k: Seq<u8>| #[trigger] kv.contains_key(k) ==> !pref(pre1(c), k)
}
/// nothing but keys of c differs
pub open spec fn only(a: KV, b: KV, c: Seq<char>) -> bool {
    forall|k: Seq<u8>| !#[trigger] own(c, k) ==> a.contains_key(k) == b.contains_key(k) && (a.contains_key(k) ==> a[k] == b[k])
}
