// The operations of the engine on one transaction as their callers see them (db_inner.rs), and the public operations of a
// collection inside and outside of a transaction (collection.rs, txn_collection.rs, transaction.rs, db.rs, find.rs, aggregate.rs,
// client_cursor.rs).
//@rule error without its text: Error::CollectionNotFound($m) ~~> Error::CollectionNotFound
//@rule path: SubProgram:: ~~> SubProgram::
//@rule type argument dropped: ::<Document> ~~>
//@rule type argument dropped: ::<T> ~~>
//@rule type argument dropped: <T: DeserializeOwned + Send + Sync> ~~>
//@rule type argument dropped: <T: Serialize> ~~>
//@rule type argument dropped: where T: Serialize ~~>
//@rule type argument dropped: where T: DeserializeOwned + Send + Sync ~~>
//@rule type argument dropped: ClientCursor<$i_t> ~~> ClientCursor
//@rule type argument dropped: Find<'_, '_, T> ~~> Find<'_, '_>
//@rule type argument dropped: Find<T> ~~> Find<'_, '_>
//@rule type argument dropped: Find<'a, 'b, T> ~~> Find<'a, 'b>
//@rule type argument dropped: TransactionalCollection<T> ~~> TransactionalCollection
//@rule type argument dropped: Collection<T> ~~> Collection
//@rule phantom dropped: _phantom: std::default::Default::default(), ~~>
//@rule phantom dropped: _phantom: Default::default(), ~~>
//@rule definition of a document type: doc! { $k: $e, } ~~> doc1($k, $e)
//@rule definition of a document type: doc! { $k: $e } ~~> doc1($k, $e)
//@rule the world: fn $i_f(&self ~~> fn $i_f(&self, w: &mut World
//@rule the world: fn $i_f<$i_g>(&self ~~> fn $i_f<$i_g>(&self, w: &mut World
//@rule weak reference: Weak<DatabaseInner> ~~> WeakDb
//@rule weak reference: Arc::downgrade(&self.inner) ~~> self.inner.weak()
//@rule documents to insert: docs: impl IntoIterator<Item = impl Borrow<T>> ~~> docs: Vec<Value>
//@rule document to insert: doc: impl Borrow<T> ~~> doc: Value
//@rule stages of a pipeline: pipeline: impl IntoIterator<Item = Document> ~~> pipeline: Vec<Document>
//@rule stages of a pipeline: pipeline.into_iter().collect() ~~> pipeline
//@rule serialisation by contract: bson::to_document(doc.borrow())? ~~> to_document(&doc)?
//@rule any kind of string: impl AsRef<str> ~~> &str
//@rule any kind of string: name.as_ref() ~~> name
//@rule any kind of string: name: name.into() ~~> name: str_own(name)
//@rule owned transaction: VM::new(txn, ~~> VM::new(same(txn),
//@rule owned transaction: (self.name, self.filter, txn) ~~> (self.name, self.filter, same(txn))
//@rule owned transaction: (self.name, pipeline, txn) ~~> (self.name, pipeline, same(txn))
//@rule the world: .execute( ~~> .execute(w,
//@rule the world: .advance( ~~> .advance(w,
//@rule the world: .start_transaction( ~~> .start_transaction(w,
//@rule the world: .begin_transaction( ~~> .begin_transaction(w,
//@rule the world: .internal_get_collection_id_by_name( ~~> .internal_get_collection_id_by_name(w,
//@rule the world: .get_collection_meta_by_name_advanced( ~~> .get_collection_meta_by_name_advanced(w,
//@rule the world: .get_collection_meta_by_name_advanced_auto( ~~> .get_collection_meta_by_name_advanced_auto(w,
//@rule the world: .internal_create_collection( ~~> .internal_create_collection(w,
//@rule the world: .create_collection_internal( ~~> .create_collection_internal(w,
//@rule the world: .create_collection( ~~> .create_collection(w,
//@rule the world: .internal_create_index( ~~> .internal_create_index(w,
//@rule the world: .create_index( ~~> .create_index(w,
//@rule the world: .internal_drop_index( ~~> .internal_drop_index(w,
//@rule the world: .drop_index( ~~> .drop_index(w,
//@rule the world: .insert_one_internal( ~~> .insert_one_internal(w,
//@rule the world: .insert_one( ~~> .insert_one(w,
//@rule the world: .insert_many_internal( ~~> .insert_many_internal(w,
//@rule the world: .insert_many( ~~> .insert_many(w,
//@rule the world: .upsert( ~~> .upsert(w,
//@rule the world: .internal_update( ~~> .internal_update(w,
//@rule the world: .update_one( ~~> .update_one(w,
//@rule the world: .update_many( ~~> .update_many(w,
//@rule the world: .drop_collection_internal( ~~> .drop_collection_internal(w,
//@rule the world: .drop_collection( ~~> .drop_collection(w,
//@rule the world: .delete_collection_meta( ~~> .delete_collection_meta(w,
//@rule the world: .internal_delete_by_query( ~~> .internal_delete_by_query(w,
//@rule the world: .internal_delete_all( ~~> .internal_delete_all(w,
//@rule the world: .delete_all( ~~> .delete_all(w,
//@rule the world: .delete_one( ~~> .delete_one(w,
//@rule the world: .delete_many( ~~> .delete_many(w,
//@rule the world: .count( ~~> .count(w,
//@rule the world: .count_documents( ~~> .count_documents(w,
//@rule the world: .query_all_meta( ~~> .query_all_meta(w,
//@rule the world: .list_collection_names_with_session( ~~> .list_collection_names_with_session(w,
//@rule the world: .find_internal( ~~> .find_internal(w,
//@rule the world: .find_with_owned_session( ~~> .find_with_owned_session(w,
//@rule the world: .aggregate_with_owned_session( ~~> .aggregate_with_owned_session(w,
//@rule the world: .make_handle( ~~> .make_handle(w,
//@rule the world: .run( ~~> .run(w,
//@rule the world: .find( ~~> .find(w,
//@rule the world: .is_upsert( ~~> .is_upsert(w,

pub struct Document { x: u8 }
pub enum Bson { Document(Document), Int64(i64), Other }
impl Document {
    pub uninterp spec fn empty(&self) -> bool;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == self.empty(), { unimplemented!() }
}
impl Clone for Document {
    #[verifier::external_body]
    fn clone(&self) -> (r: Document) ensures r == *self, { unimplemented!() }
}
impl Clone for Bson {
    #[verifier::external_body]
    fn clone(&self) -> (r: Bson) ensures r == *self, { unimplemented!() }
}
impl Bson {
    pub fn as_document(&self) -> (r: Option<&Document>)
        ensures (match r { Some(d) => *self == Bson::Document(*d), None => !(*self is Document) }),
    { match self { Bson::Document(d) => Some(d), _ => None } }
}
/// doc! { k: v }
pub uninterp spec fn stage(k: Seq<char>, v: Bson) -> Document;
pub trait IntoBson: Sized { spec fn b(self) -> Bson; }
impl IntoBson for Document { open spec fn b(self) -> Bson { Bson::Document(self) } }
impl IntoBson for i64 { open spec fn b(self) -> Bson { Bson::Int64(self) } }
#[verifier::external_body]
pub fn doc1<V: IntoBson>(k: &str, v: V) -> (r: Document) ensures r == stage(k@, v.b()), { unimplemented!() }
#[verifier::external_body]
pub fn str_own(s: &str) -> (r: String) ensures r@ == s@, { unimplemented!() }
/// something that can be stored
pub struct Value { x: u8 }
pub uninterp spec fn ser(v: Value) -> Document;
#[verifier::external_body]
pub fn to_document(v: &Value) -> (r: Result<Document>) ensures r is Ok ==> r->Ok_0 == ser(*v), { unimplemented!() }
pub struct IndexModel { x: u8 }
pub struct CollectionSpecification { pub _id: String }
pub struct SubProgram { x: u8 }
pub struct Metrics { x: u8 }
impl Clone for Metrics {
    #[verifier::external_body]
    fn clone(&self) -> Metrics { unimplemented!() }
}
pub struct UpdateOptions { pub upsert: Option<bool> }
impl UpdateOptions {
    #[verifier::external_body]
    pub fn default() -> (r: UpdateOptions) ensures r.upsert is None, { unimplemented!() }
    pub open spec fn up(&self) -> bool { self.upsert == Some(true) }
//@fn src/polodb_core/options.rs UpdateOptions::is_upsert
//@ret r
//@spec
    ensures r == self.up(), *final(w) == *old(w),
//@end
}
pub struct InsertOneResult { pub inserted_id: Bson }
pub struct InsertManyResult { pub inserted_ids: Ghost<Map<int, Bson>> }
pub struct UpdateResult { pub matched_count: u64, pub modified_count: u64 }
impl UpdateResult {
    #[verifier::external_body]
    pub fn default() -> (r: UpdateResult) ensures r.matched_count == 0, r.modified_count == 0, { unimplemented!() }
}
pub struct DeleteResult { pub deleted_count: u64 }

// ---- what the parts below mean; decided elsewhere (units kv, vm, match, update) ----
/// the definition of a collection
pub uninterp spec fn catalog(kv: KV, name: Seq<char>) -> Option<CollectionSpecification>;
/// the documents a query selects, all documents, the results of a pipeline; all definitions
pub uninterp spec fn found(c: CollectionSpecification, q: Document, kv: KV) -> Seq<Bson>;
pub uninterp spec fn whole(c: CollectionSpecification, kv: KV) -> Seq<Bson>;
pub uninterp spec fn piped(c: CollectionSpecification, stages: Seq<Document>, kv: KV) -> Seq<Bson>;
pub uninterp spec fn metas(prefix: Seq<char>, kv: KV) -> Seq<Bson>;
/// how an update program changes the data: documents matched, documents rewritten
pub uninterp spec fn rewrites(c: CollectionSpecification, q: Document, u: Document, many: bool, a: KV, b: KV, matched: int, modified: int) -> bool;
/// how a delete program changes the data; None: no condition
pub uninterp spec fn removes(c: CollectionSpecification, q: Option<Document>, many: bool, a: KV, b: KV, n: int) -> bool;
pub uninterp spec fn inserted(name: Seq<char>, d: Document, a: KV, b: KV, r: InsertOneResult) -> bool;
pub uninterp spec fn inserted_many(name: Seq<char>, d: Seq<Value>, a: KV, b: KV, r: InsertManyResult) -> bool;
pub uninterp spec fn upserted(name: Seq<char>, q: Document, u: Document, a: KV, b: KV) -> bool;
pub uninterp spec fn created(name: Seq<char>, a: KV, b: KV) -> bool;
pub uninterp spec fn forgotten(name: Seq<char>, a: KV, b: KV) -> bool;
pub uninterp spec fn indexed(name: Seq<char>, i: IndexModel, a: KV, b: KV) -> bool;
pub uninterp spec fn unindexed(name: Seq<char>, i: Seq<char>, a: KV, b: KV) -> bool;
/// the names in the definitions
pub uninterp spec fn names(d: Seq<Document>) -> Seq<String>;

// ---- programs ----
pub uninterp spec fn reads(p: SubProgram) -> bool;
pub uninterp spec fn rows(p: SubProgram, kv: KV) -> Seq<Bson>;
pub uninterp spec fn runs(p: SubProgram, a: KV, b: KV, r2: int, r4: int) -> bool;
/// rows are documents, and a storage holds fewer than 2^64 of them
#[verifier::external_body]
pub broadcast proof fn ax_rows(p: SubProgram, kv: KV)
    ensures (#[trigger] rows(p, kv)).len() <= u64::MAX, forall|i: int| 0 <= i < rows(p, kv).len() ==> rows(p, kv)[i] is Document,
{ }
impl SubProgram {
    #[verifier::external_body]
    pub fn compile_empty_query() -> (r: SubProgram) ensures reads(r), forall|kv: KV| #[trigger] rows(r, kv) == Seq::<Bson>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn compile_query(c: &CollectionSpecification, q: &Document, s: bool) -> (r: Result<SubProgram>)
        ensures r is Ok ==> reads(r->Ok_0) && forall|kv: KV| #[trigger] rows(r->Ok_0, kv) == found(*c, *q, kv), r is Err ==> !(r->Err_0 is CollectionNotFound),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compile_query_all(c: &CollectionSpecification, s: bool) -> (r: Result<SubProgram>)
        ensures r is Ok ==> reads(r->Ok_0) && forall|kv: KV| #[trigger] rows(r->Ok_0, kv) == whole(*c, kv), r is Err ==> !(r->Err_0 is CollectionNotFound),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compile_query_all_by_name(n: &str, s: bool) -> (r: Result<SubProgram>)
        ensures r is Ok ==> reads(r->Ok_0) && forall|kv: KV| #[trigger] rows(r->Ok_0, kv) == metas(n@, kv), r is Err ==> !(r->Err_0 is CollectionNotFound),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compile_aggregate(c: &CollectionSpecification, p: Vec<Document>, s: bool) -> (r: Result<SubProgram>)
        ensures r is Ok ==> reads(r->Ok_0) && forall|kv: KV| #[trigger] rows(r->Ok_0, kv) == piped(*c, p@, kv), r is Err ==> !(r->Err_0 is CollectionNotFound),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compile_update(c: &CollectionSpecification, q: &Document, u: &Document, s: bool, many: bool) -> (r: Result<SubProgram>)
        ensures r is Ok ==> !reads(r->Ok_0) && forall|a: KV, b: KV, m: int, n: int| #[trigger] runs(r->Ok_0, a, b, m, n) == rewrites(*c, *q, *u, many, a, b, m, n),
            r is Err ==> !(r->Err_0 is CollectionNotFound),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compile_delete(c: &CollectionSpecification, name: &str, q: Option<&Document>, s: bool, many: bool) -> (r: Result<SubProgram>)
        ensures r is Ok ==> !reads(r->Ok_0) && forall|a: KV, b: KV, m: int, n: int| #[trigger] runs(r->Ok_0, a, b, m, n)
                == removes(*c, (match q { Some(d) => Some(*d), None => None }), many, a, b, m),
            r is Err ==> !(r->Err_0 is CollectionNotFound),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compile_delete_all(c: &CollectionSpecification, name: &str, s: bool) -> (r: Result<SubProgram>)
        ensures r is Ok ==> !reads(r->Ok_0) && forall|a: KV, b: KV, m: int, n: int| #[trigger] runs(r->Ok_0, a, b, m, n) == removes(*c, None, true, a, b, m),
            r is Err ==> !(r->Err_0 is CollectionNotFound),
    { unimplemented!() }
}
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum VmState { Init, Running, Halt, HasRow }
pub assume_specification[ <VmState as PartialEq>::eq ](a: &VmState, b: &VmState) -> (r: bool) ensures r == (*a == *b);
pub struct VM { pub txn: TransactionInner, pub state: VmState, pub r2: i64, pub r4: i64, pub program: SubProgram, pub left: Ghost<Seq<Bson>>, pub top: Bson }
impl VM {
    /// what the program has yet to yield
    pub open spec fn togo(&self, w: World) -> Seq<Bson> {
        if self.state is Init { rows(self.program, w.view(self.txn.id())) } else if self.state is Halt { Seq::empty() } else { self.left@ }
    }
    #[verifier::external_body]
    pub fn new(txn: TransactionInner, program: SubProgram, metrics: Metrics) -> (r: VM)
        ensures r.txn == txn, r.program == program, r.state is Init,
    { unimplemented!() }
    /// runs to the next row or to the end
    #[verifier::external_body]
    pub fn execute(&mut self, w: &mut World) -> (r: Result<()>)
        ensures
            final(self).txn == old(self).txn, final(self).program == old(self).program,
            r is Err ==> !(r->Err_0 is CollectionNotFound),
            reads(old(self).program) ==> {
                &&& final(w).view(old(self).txn.id()) == old(w).view(old(self).txn.id())
                &&& settles(*old(w), *final(w), old(self).txn.id())
                &&& !old(self).txn.auto_commit ==> *final(w) == *old(w)
                &&& r is Ok ==> (if old(self).togo(*old(w)).len() == 0 { final(self).state is Halt } else {
                    final(self).state is HasRow && final(self).top == old(self).togo(*old(w))[0] && final(self).left@ == old(self).togo(*old(w)).skip(1)
                })
            },
            !reads(old(self).program) && !old(self).txn.auto_commit ==> {
                &&& stays(*old(w), *final(w), old(self).txn.id())
                &&& r is Ok && old(self).state is Init ==> 0 <= final(self).r2 && 0 <= final(self).r4
                    && runs(old(self).program, old(w).view(old(self).txn.id()), final(w).view(old(self).txn.id()), final(self).r2 as int, final(self).r4 as int)
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn stack_top(&self) -> (r: &Bson) ensures *r == self.top, { unimplemented!() }
}
pub struct ClientCursor { pub vm: VM }
impl ClientCursor {
    pub open spec fn togo(&self, w: World) -> Seq<Bson> { self.vm.togo(w) }
    /// deserialize_current: the row itself, or an error if it has not the type asked for
    #[verifier::external_body]
    pub fn current(&self, w: &mut World) -> (r: Result<Bson>) ensures *final(w) == *old(w), r is Ok ==> r->Ok_0 == self.vm.top, { unimplemented!() }
    pub open spec fn reader(&self) -> bool { reads(self.vm.program) }
//@fn src/polodb_core/db/client_cursor.rs ClientCursor::new
//@ret r
//@spec
    ensures r.vm == vm,
//@end
//@fn src/polodb_core/db/client_cursor.rs ClientCursor::has_row
//@ret r
//@spec
    ensures r == self.vm.state is HasRow, *final(w) == *old(w),
//@end
//@fn src/polodb_core/db/client_cursor.rs ClientCursor::get
//@ret r
//@spec
    ensures *r == self.vm.top, *final(w) == *old(w),
//@end
//@fn src/polodb_core/db/client_cursor.rs ClientCursor::advance
//@rw the world: (&mut self ~~> (&mut self, w: &mut World
//@rw the world: self.has_row() ~~> self.has_row(w)
//@ret r
//@spec
    requires old(self).reader(),
    ensures
        final(self).vm.txn == old(self).vm.txn, final(self).vm.program == old(self).vm.program,
        final(w).view(old(self).vm.txn.id()) == old(w).view(old(self).vm.txn.id()),
        settles(*old(w), *final(w), old(self).vm.txn.id()), !old(self).vm.txn.auto_commit ==> *final(w) == *old(w),
        match r {
            Ok(b) => b == (old(self).togo(*old(w)).len() > 0)
                && (b ==> final(self).vm.top == old(self).togo(*old(w))[0] && final(self).togo(*final(w)) == old(self).togo(*old(w)).skip(1))
                && (!b ==> final(self).togo(*final(w)).len() == 0),
            Err(e) => !(e is CollectionNotFound),
        },
//@end
}

pub struct RocksDBWrapper { x: u8 }
impl RocksDBWrapper {
    #[verifier::external_body]
    pub fn begin_transaction(&self, w: &mut World) -> (r: Result<RocksDBTransaction>)
        ensures final(w).disk == old(w).disk, r is Err ==> *final(w) == *old(w),
            r is Ok ==> apart(*old(w), *final(w), r->Ok_0.id()) && final(w).writes@[r->Ok_0.id()] == nothing() && final(w).saves@[r->Ok_0.id()].len() == 0,
    { unimplemented!() }
}
pub open spec fn updated(many: bool, name: Seq<char>, q: Document, u: Document, up: bool, a: KV, b: KV, r: UpdateResult) -> bool {
    exists|m: KV| #[trigger] matched(many, name, q, u, a, m, r) && (if up && r.matched_count == 0 { upserted(name, q, u, m, b) } else { b == m })
}
pub open spec fn matched(many: bool, name: Seq<char>, q: Document, u: Document, a: KV, m: KV, r: UpdateResult) -> bool {
    match catalog(a, name) {
        Some(c) => rewrites(c, q, u, many, a, m, r.matched_count as int, r.modified_count as int),
        None => m == a && r.matched_count == 0 && r.modified_count == 0,
    }
}
pub open spec fn deleted(many: bool, name: Seq<char>, q: Document, a: KV, b: KV, n: int) -> bool {
    match catalog(a, name) {
        Some(c) => removes(c, if many && q.empty() { None } else { Some(q) }, many, a, b, n),
        None => b == a && n == 0,
    }
}
/// the documents are removed, then the definition
pub open spec fn dropped(name: Seq<char>, a: KV, b: KV) -> bool {
    match catalog(a, name) {
        Some(c) => emptied(c, name, a, b),
        None => b == a,
    }
}
pub open spec fn emptied(c: CollectionSpecification, name: Seq<char>, a: KV, b: KV) -> bool {
    exists|m: KV, n: int| #[trigger] removes(c, None, true, a, m, n) && forgotten(name, m, b)
}
pub open spec fn selected(name: Seq<char>, q: Document, kv: KV) -> Seq<Bson> {
    match catalog(kv, name) { Some(c) => found(c, q, kv), None => Seq::empty() }
}
pub open spec fn aggregated(name: Seq<char>, stages: Seq<Document>, kv: KV) -> Seq<Bson> {
    match catalog(kv, name) { Some(c) => piped(c, stages, kv), None => Seq::empty() }
}
pub open spec fn count_of(name: Seq<char>, kv: KV) -> int {
    match catalog(kv, name) { Some(c) => whole(c, kv).len() as int, None => 0 }
}
pub open spec fn docs_of(s: Seq<Bson>) -> Seq<Document> { s.map_values(|b: Bson| b->Document_0) }

pub struct DatabaseInner { pub rocksdb: RocksDBWrapper, pub metrics: Metrics, pub node_id: [u8; 6] }
impl DatabaseInner {
    #[verifier::external_body]
    pub fn weak(&self) -> WeakDb { unimplemented!() }
    #[verifier::external_body]
    fn validate_col_name(n: &str) -> (r: Result<()>) ensures r is Err ==> !(r->Err_0 is CollectionNotFound), { unimplemented!() }
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::start_transaction
//@ret r
//@spec
    ensures final(w).disk == old(w).disk, r is Err ==> *final(w) == *old(w),
        r is Ok ==> apart(*old(w), *final(w), r->Ok_0.id()) && final(w).writes@[r->Ok_0.id()] == nothing() && final(w).saves@[r->Ok_0.id()].len() == 0
            && r->Ok_0.auto_commit,
//@end
    // discharged on the stored bytes by the unit kv
    #[verifier::external_body]
    fn internal_get_collection_id_by_name(&self, w: &mut World, txn: &TransactionInner, name: &str) -> (r: Result<CollectionSpecification>)
        ensures *final(w) == *old(w),
            r is Ok ==> catalog(old(w).view(txn.id()), name@) == Some(r->Ok_0), r is Err && r->Err_0 is CollectionNotFound ==> catalog(old(w).view(txn.id()), name@) is None,
    { unimplemented!() }
    #[verifier::external_body]
    fn internal_create_collection(&self, w: &mut World, txn: &TransactionInner, name: &str, node_id: &[u8; 6]) -> (r: Result<CollectionSpecification>)
        ensures stays(*old(w), *final(w), txn.id()), r is Err ==> !(r->Err_0 is CollectionNotFound),
            r is Ok ==> created(name@, old(w).view(txn.id()), final(w).view(txn.id())) && catalog(final(w).view(txn.id()), name@) == Some(r->Ok_0),
    { unimplemented!() }
    #[verifier::external_body]
    fn internal_create_index(&self, w: &mut World, txn: &TransactionInner, name: &str, i: IndexModel) -> (r: Result<()>)
        ensures stays(*old(w), *final(w), txn.id()), r is Ok ==> indexed(name@, i, old(w).view(txn.id()), final(w).view(txn.id())),
    { unimplemented!() }
    #[verifier::external_body]
    fn internal_drop_index(&self, w: &mut World, name: &str, i: &str, txn: &TransactionInner) -> (r: Result<()>)
        ensures stays(*old(w), *final(w), txn.id()), r is Ok ==> unindexed(name@, i@, old(w).view(txn.id()), final(w).view(txn.id())),
    { unimplemented!() }
    #[verifier::external_body]
    fn insert_one_internal(&self, w: &mut World, txn: &TransactionInner, name: &str, d: Document, node_id: &[u8; 6]) -> (r: Result<InsertOneResult>)
        ensures stays(*old(w), *final(w), txn.id()), r is Ok ==> inserted(name@, d, old(w).view(txn.id()), final(w).view(txn.id()), r->Ok_0),
    { unimplemented!() }
    #[verifier::external_body]
    fn insert_many_internal(&self, w: &mut World, txn: &TransactionInner, name: &str, d: Vec<Value>, node_id: &[u8; 6]) -> (r: Result<InsertManyResult>)
        ensures stays(*old(w), *final(w), txn.id()), r is Ok ==> inserted_many(name@, d@, old(w).view(txn.id()), final(w).view(txn.id()), r->Ok_0),
    { unimplemented!() }
    #[verifier::external_body]
    fn upsert(&self, w: &mut World, name: &str, q: Document, u: Document, txn: &TransactionInner) -> (r: Result<()>)
        ensures stays(*old(w), *final(w), txn.id()), r is Ok ==> upserted(name@, q, u, old(w).view(txn.id()), final(w).view(txn.id())),
    { unimplemented!() }
    #[verifier::external_body]
    fn delete_collection_meta(&self, w: &mut World, name: &str, txn: &TransactionInner) -> (r: Result<()>)
        ensures stays(*old(w), *final(w), txn.id()), r is Ok ==> forgotten(name@, old(w).view(txn.id()), final(w).view(txn.id())),
    { unimplemented!() }

//@fn src/polodb_core/db/db_inner.rs DatabaseInner::get_collection_meta_by_name_advanced
//@ret r
//@spec
    ensures stays(*old(w), *final(w), txn.id()), !create_if_not_exist ==> *final(w) == *old(w),
        match r {
            Ok(Some(c)) => catalog(final(w).view(txn.id()), name@) == Some(c),
            Ok(None) => *final(w) == *old(w) && catalog(old(w).view(txn.id()), name@) is None,
            Err(e) => !(e is CollectionNotFound),
        },
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::get_collection_meta_by_name_advanced_auto
//@rw path: DatabaseInner::get_collection_meta_by_name_advanced(self, ~~> self.get_collection_meta_by_name_advanced(
//@ret r
//@spec
    ensures stays(*old(w), *final(w), txn.id()), !create_if_not_exist ==> *final(w) == *old(w),
        match r {
            Ok(Some(c)) => catalog(final(w).view(txn.id()), name@) == Some(c),
            Ok(None) => *final(w) == *old(w) && catalog(old(w).view(txn.id()), name@) is None,
            Err(e) => !(e is CollectionNotFound),
        },
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::create_collection_internal
//@ret r
//@spec
    ensures stays(*old(w), *final(w), txn.id()), r is Ok ==> created(name@, old(w).view(txn.id()), final(w).view(txn.id())),
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::create_collection
//@ret r
//@spec
    ensures
        match r { Ok(_) => created(name@, old(w).disk@, final(w).disk@), Err(_) => final(w).disk == old(w).disk },
//@start
    proof { lemma_over_nothing(w.disk@); }
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::make_handle
//@ret r
//@spec
    ensures *final(w) == *old(w),
        r is Ok, r->Ok_0.vm.txn == txn, r->Ok_0.vm.program == program, r->Ok_0.vm.state is Init,
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::create_index
//@ret r
//@spec
    ensures stays(*old(w), *final(w), txn.id()), r is Ok ==> indexed(col_name@, index, old(w).view(txn.id()), final(w).view(txn.id())),
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::drop_index
//@ret r
//@spec
    ensures stays(*old(w), *final(w), txn.id()), r is Ok ==> unindexed(col_name@, index_name@, old(w).view(txn.id()), final(w).view(txn.id())),
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::insert_one
//@ret r
//@spec
    ensures stays(*old(w), *final(w), txn.id()), r is Ok ==> inserted(col_name@, doc, old(w).view(txn.id()), final(w).view(txn.id()), r->Ok_0),
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::insert_many
//@ret r
//@spec
    ensures stays(*old(w), *final(w), txn.id()), r is Ok ==> inserted_many(col_name@, docs@, old(w).view(txn.id()), final(w).view(txn.id()), r->Ok_0),
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::internal_update
//@ret r
//@spec
    requires !txn.auto_commit,
    ensures stays(*old(w), *final(w), txn.id()),
        r is Ok ==> updated(is_many, col_name@, query, update, options.up(), old(w).view(txn.id()), final(w).view(txn.id()), r->Ok_0),
//@bind let $i_r = match &meta_opt $x;
//@after let $i_r = match &meta_opt $x;
    proof { assert(matched(is_many, col_name@, query, update, old(w).view(txn.id()), w.view(txn.id()), $i_r)); }
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::update_one
//@ret r
//@spec
    ensures stays(*old(w), *final(w), txn.id()),
        r is Ok ==> updated(false, col_name@, query, update, options.up(), old(w).view(txn.id()), final(w).view(txn.id()), r->Ok_0),
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::update_many
//@ret r
//@spec
    ensures stays(*old(w), *final(w), txn.id()),
        r is Ok ==> updated(true, col_name@, query, update, options.up(), old(w).view(txn.id()), final(w).view(txn.id()), r->Ok_0),
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::drop_collection_internal
//@ret r
//@spec
    ensures stays(*old(w), *final(w), txn.id()),
        r is Ok ==> dropped(col_name@, old(w).view(txn.id()), final(w).view(txn.id())),
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::drop_collection
//@ret r
//@spec
    ensures stays(*old(w), *final(w), txn.id()),
        r is Ok ==> dropped(col_name@, old(w).view(txn.id()), final(w).view(txn.id())),
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::internal_delete_by_query
//@ret r
//@spec
    requires !txn.auto_commit,
    ensures stays(*old(w), *final(w), txn.id()), r is Err ==> !(r->Err_0 is CollectionNotFound),
        r is Ok ==> (match catalog(old(w).view(txn.id()), col_name@) {
            Some(c) => removes(c, Some(query), is_many, old(w).view(txn.id()), final(w).view(txn.id()), r->Ok_0 as int),
            None => *final(w) == *old(w) && r->Ok_0 == 0,
        }),
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::internal_delete_all
//@ret r
//@spec
    requires !txn.auto_commit,
    ensures stays(*old(w), *final(w), txn.id()), r is Err ==> !(r->Err_0 is CollectionNotFound),
        r is Ok ==> (match catalog(old(w).view(txn.id()), col_name@) {
            Some(c) => removes(c, None, true, old(w).view(txn.id()), final(w).view(txn.id()), r->Ok_0 as int),
            None => *final(w) == *old(w) && r->Ok_0 == 0,
        }),
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::delete
//@ret r
//@spec
    ensures stays(*old(w), *final(w), txn.id()), r is Err ==> !(r->Err_0 is CollectionNotFound),
        r is Ok ==> (match catalog(old(w).view(txn.id()), col_name@) {
            Some(c) => removes(c, Some(query), is_many, old(w).view(txn.id()), final(w).view(txn.id()), r->Ok_0 as int),
            None => *final(w) == *old(w) && r->Ok_0 == 0,
        }),
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::delete_all
//@ret r
//@spec
    ensures stays(*old(w), *final(w), txn.id()), r is Err ==> !(r->Err_0 is CollectionNotFound),
        r is Ok ==> (match catalog(old(w).view(txn.id()), col_name@) {
            Some(c) => removes(c, None, true, old(w).view(txn.id()), final(w).view(txn.id()), r->Ok_0 as int),
            None => *final(w) == *old(w) && r->Ok_0 == 0,
        }),
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::delete_one
//@ret r
//@spec
    ensures stays(*old(w), *final(w), txn.id()),
        r is Ok ==> deleted(false, col_name@, query, old(w).view(txn.id()), final(w).view(txn.id()), r->Ok_0.deleted_count as int),
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::delete_many
//@ret r
//@spec
    ensures stays(*old(w), *final(w), txn.id()),
        r is Ok ==> deleted(true, col_name@, query, old(w).view(txn.id()), final(w).view(txn.id()), r->Ok_0.deleted_count as int),
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::find_internal
//@ret r
//@spec
    ensures *final(w) == *old(w),
        r is Ok ==> r->Ok_0.vm.txn == txn && r->Ok_0.vm.state is Init && r->Ok_0.reader()
            && r->Ok_0.togo(*old(w)) == (match query { Some(q) => found(*col_spec, q, old(w).view(txn.id())), None => whole(*col_spec, old(w).view(txn.id())) }),
        r is Err ==> !(r->Err_0 is CollectionNotFound),
//@end
#[verifier::loop_isolation(false)]
#[verifier::exec_allows_no_decreases_clause]
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::count
//@rw type of the counter: let mut count = 0; ~~> let mut count: u64 = 0;
//@ret r
//@spec
    ensures settles(*old(w), *final(w), txn.id()), final(w).view(txn.id()) == old(w).view(txn.id()), !txn.auto_commit ==> *final(w) == *old(w),
        match r { Ok(n) => n as int == count_of(name@, old(w).view(txn.id())), Err(e) => !(e is CollectionNotFound) },
//@start
    broadcast use {ax_rows, lemma_settles};
    let ghost v = old(w).view(txn.id());
//@bind let mut $i_h = self.find_internal($x)?;
//@loop 0
    invariant $i_h.reader(), $i_h.vm.txn == *txn, w.view(txn.id()) == v, settles(*old(w), *w, txn.id()), !txn.auto_commit ==> *w == *old(w),
        count + $i_h.togo(*w).len() == whole(col, v).len(), whole(col, v).len() <= u64::MAX,
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::count_documents
//@ret r
//@spec
    ensures settles(*old(w), *final(w), txn.id()), final(w).view(txn.id()) == old(w).view(txn.id()), !txn.auto_commit ==> *final(w) == *old(w),
        r is Ok ==> r->Ok_0 as int == count_of(col_name@, old(w).view(txn.id())),
//@end
#[verifier::loop_isolation(false)]
#[verifier::exec_allows_no_decreases_clause]
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::query_all_meta
//@rw the world: .get() ~~> .get(w)
//@rw type of the list: let mut result = Vec::new(); ~~> let mut result: Vec<Document> = Vec::new();
//@ret r
//@spec
    ensures settles(*old(w), *final(w), txn.id()), final(w).view(txn.id()) == old(w).view(txn.id()), !txn.auto_commit ==> *final(w) == *old(w),
        r is Ok ==> r->Ok_0@ == docs_of(metas(TABLE_META_PREFIX@, old(w).view(txn.id()))),
//@start
    broadcast use {ax_rows, lemma_settles};
    let ghost v = old(w).view(txn.id());
//@bind let mut $i_h : ClientCursor = $x;
//@bind let mut $i_r: Vec<Document> = Vec::new();
//@loop 0
    invariant $i_h.reader(), $i_h.vm.txn == *txn, w.view(txn.id()) == v, settles(*old(w), *w, txn.id()), !txn.auto_commit ==> *w == *old(w),
        $i_r@ + docs_of($i_h.togo(*w)) =~= docs_of(metas(TABLE_META_PREFIX@, v)),
        forall|i: int| 0 <= i < $i_h.togo(*w).len() ==> $i_h.togo(*w)[i] is Document,
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::list_collection_names_with_session
//@ret r
//@spec
    ensures settles(*old(w), *final(w), txn.id()), final(w).view(txn.id()) == old(w).view(txn.id()), !txn.auto_commit ==> *final(w) == *old(w),
        r is Ok ==> r->Ok_0@ == names(docs_of(metas(TABLE_META_PREFIX@, old(w).view(txn.id())))),
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::find_with_owned_session
//@rw the query: filter: impl Into<Option<Document>> ~~> filter: Document
//@rw the query: filter.into() ~~> Some(filter)
//@ret r
//@spec
    ensures *final(w) == *old(w),
        r is Ok ==> r->Ok_0.vm.txn == txn && r->Ok_0.vm.state is Init && r->Ok_0.reader() && r->Ok_0.togo(*old(w)) == selected(col_name@, filter, old(w).view(txn.id())),
//@end
//@fn src/polodb_core/db/db_inner.rs DatabaseInner::aggregate_with_owned_session
//@ret r
//@spec
    ensures *final(w) == *old(w),
        r is Ok ==> r->Ok_0.vm.txn == txn && r->Ok_0.vm.state is Init && r->Ok_0.reader() && r->Ok_0.togo(*old(w)) == aggregated(col_name@, pipeline@, old(w).view(txn.id())),
//@end
}
//@const src/polodb_core/db/db_inner.rs TABLE_META_PREFIX
#[verifier::external_body]
fn collection_metas_to_names(d: Vec<Document>) -> (r: Vec<String>) ensures r@ == names(d@), { unimplemented!() }
pub fn same(t: TransactionInner) -> (r: TransactionInner) ensures r == t, { t }
pub struct WeakDb { x: u8 }
impl Clone for WeakDb {
    #[verifier::external_body]
    fn clone(&self) -> WeakDb { unimplemented!() }
}
impl WeakDb {
    #[verifier::external_body]
    pub fn upgrade(&self) -> Option<&DatabaseInner> { unimplemented!() }
}

// ---- a collection outside of a transaction: every operation is committed as a whole or leaves the stored data as it is ----
pub struct Collection { pub db: WeakDb, pub name: String }
impl Collection {
//@fn src/polodb_core/coll/collection.rs Collection::new
//@ret r
//@spec
    ensures r.name@ == name@,
//@end
//@fn src/polodb_core/coll/collection.rs CollectionT for Collection::count_documents
//@ret r
//@spec
    ensures final(w).disk@ == old(w).disk@, r is Ok ==> r->Ok_0 as int == count_of(self.name@, old(w).disk@),
//@start
    proof { lemma_over_nothing(w.disk@); }
//@end
//@fn src/polodb_core/coll/collection.rs CollectionT for Collection::update_one
//@ret r
//@spec
    ensures match r { Ok(x) => updated(false, self.name@, query, update, false, old(w).disk@, final(w).disk@, x), Err(_) => final(w).disk == old(w).disk },
//@start
    proof { lemma_over_nothing(w.disk@); }
//@end
//@fn src/polodb_core/coll/collection.rs CollectionT for Collection::update_one_with_options
//@ret r
//@spec
    ensures match r { Ok(x) => updated(false, self.name@, query, update, options.up(), old(w).disk@, final(w).disk@, x), Err(_) => final(w).disk == old(w).disk },
//@start
    proof { lemma_over_nothing(w.disk@); }
//@end
//@fn src/polodb_core/coll/collection.rs CollectionT for Collection::update_many
//@ret r
//@spec
    ensures match r { Ok(x) => updated(true, self.name@, query, update, false, old(w).disk@, final(w).disk@, x), Err(_) => final(w).disk == old(w).disk },
//@start
    proof { lemma_over_nothing(w.disk@); }
//@end
//@fn src/polodb_core/coll/collection.rs CollectionT for Collection::update_many_with_options
//@ret r
//@spec
    ensures match r { Ok(x) => updated(true, self.name@, query, update, options.up(), old(w).disk@, final(w).disk@, x), Err(_) => final(w).disk == old(w).disk },
//@start
    proof { lemma_over_nothing(w.disk@); }
//@end
//@fn src/polodb_core/coll/collection.rs CollectionT for Collection::delete_one
//@ret r
//@spec
    ensures match r { Ok(x) => deleted(false, self.name@, query, old(w).disk@, final(w).disk@, x.deleted_count as int), Err(_) => final(w).disk == old(w).disk },
//@start
    proof { lemma_over_nothing(w.disk@); }
//@end
//@fn src/polodb_core/coll/collection.rs CollectionT for Collection::delete_many
//@ret r
//@spec
    ensures match r { Ok(x) => deleted(true, self.name@, query, old(w).disk@, final(w).disk@, x.deleted_count as int), Err(_) => final(w).disk == old(w).disk },
//@start
    proof { lemma_over_nothing(w.disk@); }
//@end
//@fn src/polodb_core/coll/collection.rs CollectionT for Collection::create_index
//@ret r
//@spec
    ensures match r { Ok(x) => indexed(self.name@, index, old(w).disk@, final(w).disk@), Err(_) => final(w).disk == old(w).disk },
//@start
    proof { lemma_over_nothing(w.disk@); }
//@end
//@fn src/polodb_core/coll/collection.rs CollectionT for Collection::drop_index
//@ret r
//@spec
    ensures match r { Ok(x) => unindexed(self.name@, name@, old(w).disk@, final(w).disk@), Err(_) => final(w).disk == old(w).disk },
//@start
    proof { lemma_over_nothing(w.disk@); }
//@end
//@fn src/polodb_core/coll/collection.rs CollectionT for Collection::drop
//@ret r
//@spec
    ensures match r { Ok(x) => dropped(self.name@, old(w).disk@, final(w).disk@), Err(_) => final(w).disk == old(w).disk },
//@start
    proof { lemma_over_nothing(w.disk@); }
//@end
//@fn src/polodb_core/coll/collection.rs CollectionT for Collection::insert_one
//@ret r
//@spec
    ensures match r { Ok(x) => inserted(self.name@, ser(doc), old(w).disk@, final(w).disk@, x), Err(_) => final(w).disk == old(w).disk },
//@start
    proof { lemma_over_nothing(w.disk@); }
//@end
//@fn src/polodb_core/coll/collection.rs CollectionT for Collection::insert_many
//@ret r
//@spec
    ensures match r { Ok(x) => inserted_many(self.name@, docs@, old(w).disk@, final(w).disk@, x), Err(_) => final(w).disk == old(w).disk },
//@start
    proof { lemma_over_nothing(w.disk@); }
//@end
//@fn src/polodb_core/coll/collection.rs CollectionT for Collection::find
//@ret r
//@spec
    ensures *final(w) == *old(w), r.txn == None::<&TransactionInner>, r.name@ == self.name@, r.filter == filter, r.skip is None, r.limit is None, r.sort is None,
//@end
//@fn src/polodb_core/coll/collection.rs CollectionT for Collection::find_one
//@rw the row itself: Result<Option<T>> ~~> Result<Option<Bson>>
//@rw the row itself: cursor.deserialize_current()? ~~> cursor.current(w)?
//@ret r
//@spec
    ensures
        final(w).disk@ == old(w).disk@,
        match r {
            Ok(Some(d)) => selected(self.name@, filter, old(w).disk@).len() > 0 && d == selected(self.name@, filter, old(w).disk@)[0],
            Ok(None) => selected(self.name@, filter, old(w).disk@).len() == 0,
            Err(_) => true,
        },
//@start
    proof { lemma_over_nothing(w.disk@); }
//@end
//@fn src/polodb_core/coll/collection.rs CollectionT for Collection::aggregate
//@rw own aggregate: Aggregate::new( ~~> new_aggregate(
//@ret r
//@spec
    ensures r.txn == None::<&TransactionInner>, r.name@ == self.name@, r.pipeline@ == pipeline@,
//@end
}

// ---- a collection inside a transaction: it acts on that transaction alone, and a refused operation leaves no trace in it ----
pub struct TransactionalCollection { pub db: WeakDb, pub name: String, pub txn: TransactionInner }
impl TransactionalCollection {
    pub open spec fn id(&self) -> int { self.txn.id() }
//@fn src/polodb_core/coll/txn_collection.rs TransactionalCollection::new
//@ret r
//@spec
    ensures r.name@ == name@, r.txn == txn,
//@end
//@fn src/polodb_core/coll/txn_collection.rs CollectionT for TransactionalCollection::count_documents
//@ret r
//@spec
    requires !self.txn.auto_commit,
    ensures *final(w) == *old(w), r is Ok ==> r->Ok_0 as int == count_of(self.name@, old(w).view(self.id())),
//@end
//@fn src/polodb_core/coll/txn_collection.rs CollectionT for TransactionalCollection::update_one
//@rw! contract of the closure: .atomically(|| $e) ~~> .atomically(|w: &mut World| -> (r: Result<UpdateResult>) ensures stays(*old(w), *final(w), self.id()), r is Ok ==> updated(false, self.name@, query, update, false, (*old(w)).view(self.id()), (*final(w)).view(self.id()), r->Ok_0) { $e })
//@ret r
//@spec
    requires !self.txn.auto_commit,
    ensures apart(*old(w), *final(w), self.id()),
        match r {
            Ok(x) => updated(false, self.name@, query, update, false, old(w).view(self.id()), final(w).view(self.id()), x),
            Err(_) => final(w).writes@[self.id()] == old(w).writes@[self.id()] && final(w).saves@[self.id()] == old(w).saves@[self.id()],
        },
//@end
//@fn src/polodb_core/coll/txn_collection.rs CollectionT for TransactionalCollection::update_one_with_options
//@rw! contract of the closure: .atomically(|| $e) ~~> .atomically(|w: &mut World| -> (r: Result<UpdateResult>) ensures stays(*old(w), *final(w), self.id()), r is Ok ==> updated(false, self.name@, query, update, options.up(), (*old(w)).view(self.id()), (*final(w)).view(self.id()), r->Ok_0) { $e })
//@ret r
//@spec
    requires !self.txn.auto_commit,
    ensures apart(*old(w), *final(w), self.id()),
        match r {
            Ok(x) => updated(false, self.name@, query, update, options.up(), old(w).view(self.id()), final(w).view(self.id()), x),
            Err(_) => final(w).writes@[self.id()] == old(w).writes@[self.id()] && final(w).saves@[self.id()] == old(w).saves@[self.id()],
        },
//@end
//@fn src/polodb_core/coll/txn_collection.rs CollectionT for TransactionalCollection::update_many
//@rw! contract of the closure: .atomically(|| $e) ~~> .atomically(|w: &mut World| -> (r: Result<UpdateResult>) ensures stays(*old(w), *final(w), self.id()), r is Ok ==> updated(true, self.name@, query, update, false, (*old(w)).view(self.id()), (*final(w)).view(self.id()), r->Ok_0) { $e })
//@ret r
//@spec
    requires !self.txn.auto_commit,
    ensures apart(*old(w), *final(w), self.id()),
        match r {
            Ok(x) => updated(true, self.name@, query, update, false, old(w).view(self.id()), final(w).view(self.id()), x),
            Err(_) => final(w).writes@[self.id()] == old(w).writes@[self.id()] && final(w).saves@[self.id()] == old(w).saves@[self.id()],
        },
//@end
//@fn src/polodb_core/coll/txn_collection.rs CollectionT for TransactionalCollection::update_many_with_options
//@rw! contract of the closure: .atomically(|| $e) ~~> .atomically(|w: &mut World| -> (r: Result<UpdateResult>) ensures stays(*old(w), *final(w), self.id()), r is Ok ==> updated(true, self.name@, query, update, options.up(), (*old(w)).view(self.id()), (*final(w)).view(self.id()), r->Ok_0) { $e })
//@ret r
//@spec
    requires !self.txn.auto_commit,
    ensures apart(*old(w), *final(w), self.id()),
        match r {
            Ok(x) => updated(true, self.name@, query, update, options.up(), old(w).view(self.id()), final(w).view(self.id()), x),
            Err(_) => final(w).writes@[self.id()] == old(w).writes@[self.id()] && final(w).saves@[self.id()] == old(w).saves@[self.id()],
        },
//@end
//@fn src/polodb_core/coll/txn_collection.rs CollectionT for TransactionalCollection::delete_one
//@rw! contract of the closure: .atomically(|| $e) ~~> .atomically(|w: &mut World| -> (r: Result<DeleteResult>) ensures stays(*old(w), *final(w), self.id()), r is Ok ==> deleted(false, self.name@, query, (*old(w)).view(self.id()), (*final(w)).view(self.id()), r->Ok_0.deleted_count as int) { $e })
//@ret r
//@spec
    requires !self.txn.auto_commit,
    ensures apart(*old(w), *final(w), self.id()),
        match r {
            Ok(x) => deleted(false, self.name@, query, old(w).view(self.id()), final(w).view(self.id()), x.deleted_count as int),
            Err(_) => final(w).writes@[self.id()] == old(w).writes@[self.id()] && final(w).saves@[self.id()] == old(w).saves@[self.id()],
        },
//@end
//@fn src/polodb_core/coll/txn_collection.rs CollectionT for TransactionalCollection::delete_many
//@rw! contract of the closure: .atomically(|| $e) ~~> .atomically(|w: &mut World| -> (r: Result<DeleteResult>) ensures stays(*old(w), *final(w), self.id()), r is Ok ==> deleted(true, self.name@, query, (*old(w)).view(self.id()), (*final(w)).view(self.id()), r->Ok_0.deleted_count as int) { $e })
//@ret r
//@spec
    requires !self.txn.auto_commit,
    ensures apart(*old(w), *final(w), self.id()),
        match r {
            Ok(x) => deleted(true, self.name@, query, old(w).view(self.id()), final(w).view(self.id()), x.deleted_count as int),
            Err(_) => final(w).writes@[self.id()] == old(w).writes@[self.id()] && final(w).saves@[self.id()] == old(w).saves@[self.id()],
        },
//@end
//@fn src/polodb_core/coll/txn_collection.rs CollectionT for TransactionalCollection::create_index
//@rw! contract of the closure: .atomically(|| $e) ~~> .atomically(|w: &mut World| -> (r: Result<()>) ensures stays(*old(w), *final(w), self.id()), r is Ok ==> indexed(self.name@, index, (*old(w)).view(self.id()), (*final(w)).view(self.id())) { $e })
//@ret r
//@spec
    requires !self.txn.auto_commit,
    ensures apart(*old(w), *final(w), self.id()),
        match r {
            Ok(x) => indexed(self.name@, index, old(w).view(self.id()), final(w).view(self.id())),
            Err(_) => final(w).writes@[self.id()] == old(w).writes@[self.id()] && final(w).saves@[self.id()] == old(w).saves@[self.id()],
        },
//@end
//@fn src/polodb_core/coll/txn_collection.rs CollectionT for TransactionalCollection::drop_index
//@rw! contract of the closure: .atomically(|| $e) ~~> .atomically(|w: &mut World| -> (r: Result<()>) ensures stays(*old(w), *final(w), self.id()), r is Ok ==> unindexed(self.name@, name@, (*old(w)).view(self.id()), (*final(w)).view(self.id())) { $e })
//@ret r
//@spec
    requires !self.txn.auto_commit,
    ensures apart(*old(w), *final(w), self.id()),
        match r {
            Ok(x) => unindexed(self.name@, name@, old(w).view(self.id()), final(w).view(self.id())),
            Err(_) => final(w).writes@[self.id()] == old(w).writes@[self.id()] && final(w).saves@[self.id()] == old(w).saves@[self.id()],
        },
//@end
//@fn src/polodb_core/coll/txn_collection.rs CollectionT for TransactionalCollection::drop
//@rw! contract of the closure: .atomically(|| $e) ~~> .atomically(|w: &mut World| -> (r: Result<()>) ensures stays(*old(w), *final(w), self.id()), r is Ok ==> dropped(self.name@, (*old(w)).view(self.id()), (*final(w)).view(self.id())) { $e })
//@ret r
//@spec
    requires !self.txn.auto_commit,
    ensures apart(*old(w), *final(w), self.id()),
        match r {
            Ok(x) => dropped(self.name@, old(w).view(self.id()), final(w).view(self.id())),
            Err(_) => final(w).writes@[self.id()] == old(w).writes@[self.id()] && final(w).saves@[self.id()] == old(w).saves@[self.id()],
        },
//@end
//@fn src/polodb_core/coll/txn_collection.rs CollectionT for TransactionalCollection::insert_one
//@rw! contract of the closure: .atomically(|| $e) ~~> .atomically(|w: &mut World| -> (r: Result<InsertOneResult>) ensures stays(*old(w), *final(w), self.id()), r is Ok ==> inserted(self.name@, doc, (*old(w)).view(self.id()), (*final(w)).view(self.id()), r->Ok_0) { $e })
//@ret r
//@spec
    requires !self.txn.auto_commit,
    ensures apart(*old(w), *final(w), self.id()),
        match r {
            Ok(x) => inserted(self.name@, ser(doc), old(w).view(self.id()), final(w).view(self.id()), x),
            Err(_) => final(w).writes@[self.id()] == old(w).writes@[self.id()] && final(w).saves@[self.id()] == old(w).saves@[self.id()],
        },
//@end
//@fn src/polodb_core/coll/txn_collection.rs CollectionT for TransactionalCollection::insert_many
//@rw! contract of the closure: .atomically(|| $e) ~~> .atomically(|w: &mut World| -> (r: Result<InsertManyResult>) ensures stays(*old(w), *final(w), self.id()), r is Ok ==> inserted_many(self.name@, docs@, (*old(w)).view(self.id()), (*final(w)).view(self.id()), r->Ok_0) { $e })
//@ret r
//@spec
    requires !self.txn.auto_commit,
    ensures apart(*old(w), *final(w), self.id()),
        match r {
            Ok(x) => inserted_many(self.name@, docs@, old(w).view(self.id()), final(w).view(self.id()), x),
            Err(_) => final(w).writes@[self.id()] == old(w).writes@[self.id()] && final(w).saves@[self.id()] == old(w).saves@[self.id()],
        },
//@end
//@fn src/polodb_core/coll/txn_collection.rs CollectionT for TransactionalCollection::find
//@ret r
//@spec
    ensures *final(w) == *old(w), r.txn == Some(&self.txn), r.name@ == self.name@, r.filter == filter, r.skip is None, r.limit is None, r.sort is None,
//@end
//@fn src/polodb_core/coll/txn_collection.rs CollectionT for TransactionalCollection::find_one
//@rw the row itself: Result<Option<T>> ~~> Result<Option<Bson>>
//@rw the row itself: cursor.deserialize_current()? ~~> cursor.current(w)?
//@ret r
//@spec
    requires !self.txn.auto_commit,
    ensures
        *final(w) == *old(w),
        match r {
            Ok(Some(d)) => selected(self.name@, filter, old(w).view(self.id())).len() > 0 && d == selected(self.name@, filter, old(w).view(self.id()))[0],
            Ok(None) => selected(self.name@, filter, old(w).view(self.id())).len() == 0,
            Err(_) => true,
        },
//@start
    proof { lemma_over_nothing(w.disk@); }
//@end
//@fn src/polodb_core/coll/txn_collection.rs CollectionT for TransactionalCollection::aggregate
//@rw own aggregate: Aggregate::new( ~~> new_aggregate(
//@ret r
//@spec
    ensures r.txn == Some(&self.txn), r.name@ == self.name@, r.pipeline@ == pipeline@,
//@end
}
pub struct Transaction { pub db: WeakDb, pub inner: TransactionInner }
/// everything done in a transaction takes effect when it is committed, all at once, and not before; nothing does when it is rolled back
impl Transaction {
//@fn src/polodb_core/transaction/transaction.rs Transaction::new
//@rw shared transaction: Arc::new(inner) ~~> inner
//@ret r
//@spec
    ensures r.inner == inner,
//@end
//@fn src/polodb_core/transaction/transaction.rs Transaction::collection
//@rw shared transaction: self.inner.as_ref().clone() ~~> self.inner.clone()
//@ret r
//@spec
    ensures *final(w) == *old(w), r.txn == self.inner, r.name@ == col_name@,
//@end
//@fn src/polodb_core/transaction/transaction.rs Transaction::commit
//@ret r
//@spec
    ensures
        (forall|j: int| j != self.inner.id() ==> #[trigger] final(w).writes@[j] == old(w).writes@[j] && final(w).saves@[j] == old(w).saves@[j]),
        r is Ok ==> final(w).disk@ == old(w).view(self.inner.id()) && final(w).writes@[self.inner.id()] == nothing(),
        r is Err ==> final(w).disk == old(w).disk,
//@end
//@fn src/polodb_core/transaction/transaction.rs Transaction::rollback
//@ret r
//@spec
    ensures apart(*old(w), *final(w), self.inner.id()), r is Ok ==> final(w).writes@[self.inner.id()] == nothing(),
//@end
}
pub struct Database { pub inner: DatabaseInner }
impl Database {
//@fn src/polodb_core/db/db.rs Database::create_collection
//@ret r
//@spec
    ensures match r { Ok(_) => created(name@, old(w).disk@, final(w).disk@), Err(_) => final(w).disk == old(w).disk },
//@end
//@fn src/polodb_core/db/db.rs Database::collection
//@ret r
//@spec
    ensures *final(w) == *old(w), r.name@ == col_name@,
//@end
//@fn src/polodb_core/db/db.rs Database::start_transaction
//@ret r
//@spec
    ensures final(w).disk == old(w).disk, r is Err ==> *final(w) == *old(w),
        r is Ok ==> !r->Ok_0.inner.auto_commit && apart(*old(w), *final(w), r->Ok_0.inner.id()) && final(w).writes@[r->Ok_0.inner.id()] == nothing()
            && final(w).saves@[r->Ok_0.inner.id()].len() == 0,
//@end
//@fn src/polodb_core/db/db.rs Database::list_collection_names
//@ret r
//@spec
    ensures final(w).disk@ == old(w).disk@, r is Ok ==> r->Ok_0@ == names(docs_of(metas(TABLE_META_PREFIX@, old(w).disk@))),
//@start
    proof { lemma_over_nothing(w.disk@); }
//@end
}

// ---- finding and aggregating ----
pub struct Find<'a, 'b> {
    pub db: WeakDb, pub name: &'a str, pub txn: Option<&'b TransactionInner>, pub filter: Document,
    pub skip: Option<u64>, pub limit: Option<u64>, pub sort: Option<Document>,
}
pub open spec fn clamp(n: u64) -> i64 { if n > i64::MAX { i64::MAX } else { n as i64 } }
/// the condition, then the order, then what is passed over, then how many
pub open spec fn stages_of(q: Document, sort: Option<Document>, skip: Option<u64>, limit: Option<u64>) -> Seq<Document> {
    seq![stage("$match"@, Bson::Document(q))]
        + (match sort { Some(d) => seq![stage("$sort"@, Bson::Document(d))], None => Seq::empty() })
        + (match skip { Some(n) => seq![stage("$skip"@, Bson::Int64(clamp(n)))], None => Seq::empty() })
        + (match limit { Some(n) => seq![stage("$limit"@, Bson::Int64(clamp(n)))], None => Seq::empty() })
}
impl<'a, 'b> Find<'a, 'b> {
    pub open spec fn results(&self, kv: KV) -> Seq<Bson> {
        if self.skip is None && self.limit is None && self.sort is None { selected(self.name@, self.filter, kv) }
        else { aggregated(self.name@, stages_of(self.filter, self.sort, self.skip, self.limit), kv) }
    }
//@fn src/polodb_core/action/find.rs Find::new
//@ret r
//@spec
    ensures r.name == name, r.txn == txn, r.filter == filter, r.skip is None, r.limit is None, r.sort is None,
//@end
//@fn src/polodb_core/action/find.rs Find::skip
//@rw own copy: (mut self, ~~> (self,
//@rw own copy: self.$i_f = $e; self ~~> let mut me = self; me.$i_f = $e; me
//@ret r
//@spec
    ensures r.name == self.name, r.txn == self.txn, r.filter == self.filter, r.limit == self.limit, r.sort == self.sort, r.skip == Some(skip),
//@end
//@fn src/polodb_core/action/find.rs Find::limit
//@rw own copy: (mut self, ~~> (self,
//@rw own copy: self.$i_f = $e; self ~~> let mut me = self; me.$i_f = $e; me
//@ret r
//@spec
    ensures r.name == self.name, r.txn == self.txn, r.filter == self.filter, r.skip == self.skip, r.sort == self.sort, r.limit == Some(limit),
//@end
//@fn src/polodb_core/action/find.rs Find::sort
//@rw own copy: (mut self, ~~> (self,
//@rw own copy: self.$i_f = $e; self ~~> let mut me = self; me.$i_f = $e; me
//@ret r
//@spec
    ensures r.name == self.name, r.txn == self.txn, r.filter == self.filter, r.skip == self.skip, r.limit == self.limit, r.sort == Some(sort),
//@end
//@fn src/polodb_core/action/find.rs Find::run
//@rw the world: run(self) ~~> run(self, w: &mut World)
//@rw smaller of two: $i_n.min(i64::MAX as u64) ~~> min_u64($i_n, i64::MAX as u64)
//@ret r
//@spec
    ensures final(w).disk == old(w).disk,
        match self.txn { Some(t) => *final(w) == *old(w), None => true },
        r is Ok ==> r->Ok_0.reader() && r->Ok_0.vm.state is Init && (match self.txn {
            Some(t) => r->Ok_0.vm.txn == *t && r->Ok_0.togo(*final(w)) == self.results(old(w).view(t.id())),
            None => final(w).writes@[r->Ok_0.vm.txn.id()] == nothing() && r->Ok_0.togo(*final(w)) == self.results(old(w).disk@),
        }),
//@start
    proof { lemma_over_nothing(w.disk@); reveal_strlit("$match"); }
//@bind let mut $i_p = vec![$x];
//@before db.aggregate_with_owned_session($x)
    proof { assert($i_p@ =~= stages_of(self.filter, self.sort, self.skip, self.limit)); }
//@end
}
#[verifier::external_body]
pub fn new_aggregate<'a, 'b>(db: WeakDb, name: &'a str, pipeline: Vec<Document>, txn: Option<&'b TransactionInner>) -> (r: Aggregate<'a, 'b>)
    ensures r.name == name, r.pipeline == pipeline, r.txn == txn,
{ unimplemented!() }
pub fn min_u64(a: u64, b: u64) -> (r: u64) ensures r == (if a < b { a } else { b }), { if a < b { a } else { b } }
pub struct Aggregate<'a, 'b> { pub db: WeakDb, pub name: &'a str, pub pipeline: Vec<Document>, pub txn: Option<&'b TransactionInner> }
impl<'a, 'b> Aggregate<'a, 'b> {
//@fn src/polodb_core/action/aggregate.rs Aggregate::run
//@rw the world: run(self) ~~> run(self, w: &mut World)
//@ret r
//@spec
    ensures final(w).disk == old(w).disk,
        match self.txn { Some(t) => *final(w) == *old(w), None => true },
        r is Ok ==> r->Ok_0.reader() && r->Ok_0.vm.state is Init && (match self.txn {
            Some(t) => r->Ok_0.vm.txn == *t && r->Ok_0.togo(*final(w)) == aggregated(self.name@, self.pipeline@, old(w).view(t.id())),
            None => final(w).writes@[r->Ok_0.vm.txn.id()] == nothing() && r->Ok_0.togo(*final(w)) == aggregated(self.name@, self.pipeline@, old(w).disk@),
        }),
//@start
    proof { lemma_over_nothing(w.disk@); }
//@end
}
