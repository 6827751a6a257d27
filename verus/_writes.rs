// insert_handler.rs, update_handler.rs, delete_handler.rs, commit_transaction.rs, abort_transaction.rs
/// InsertManyResult: a HashMap from positions to ids
pub struct IdMap { pub n: Ghost<nat> }
impl IdMap {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.n@, r <= 0xffff_ffff, { unimplemented!() }
}
pub struct InsertManyResult { pub inserted_ids: IdMap }
pub struct UpdateResult { pub matched_count: u64, pub modified_count: u64 }
pub struct DeleteResult { pub deleted_count: u64 }
pub struct UpdateOptions { pub upsert: bool }
impl UpdateResult { #[verifier::external_body] pub fn default() -> (r: Self) ensures r.matched_count == 0, r.modified_count == 0, { unimplemented!() } }
impl DeleteResult { #[verifier::external_body] pub fn default() -> (r: Self) ensures r.deleted_count == 0, { unimplemented!() } }
/// one command touches fewer than 2^32 documents
pub open spec fn small(n: nat) -> bool { n <= 0xffff_ffff }
/// a request which fails leaves nothing behind; one which succeeds is recorded with what it touched
pub open spec fn did(pre: AppContext, post: AppContext, ok: bool, scope: Scope, coll: Seq<char>, op: Op, n: nat, m: nat) -> bool {
    post.inner == pre.inner && post.heap == pre.heap && post.ses == pre.ses && post.started == pre.started
        && (if ok { small(n) && small(m) && post.events@ == pre.events@.push(Ev { scope, coll, op, n, m }) } else { post.events == pre.events })
}
impl Collection {
    #[verifier::external_body]
    pub fn insert_many(&self, world: &mut AppContext, docs: &[Document]) -> (r: Result<InsertManyResult>)
        ensures did(*old(world), *final(world), r is Ok, self.scope@, self.name@, Op::Insert(bytes_of(docs@)), docs@.len(), 0),
            r is Ok ==> r->Ok_0.inserted_ids.n@ == docs@.len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn update_many_with_options(&self, world: &mut AppContext, filter: Document, update: Document, options: UpdateOptions) -> (r: Result<UpdateResult>)
        ensures did(*old(world), *final(world), r is Ok, self.scope@, self.name@, Op::Update(filter.bytes@, update.bytes@, options.upsert, true), (match r { Ok(x) => x.matched_count as nat, Err(_) => 0 }), (match r { Ok(x) => x.modified_count as nat, Err(_) => 0 })),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn update_one_with_options(&self, world: &mut AppContext, filter: Document, update: Document, options: UpdateOptions) -> (r: Result<UpdateResult>)
        ensures did(*old(world), *final(world), r is Ok, self.scope@, self.name@, Op::Update(filter.bytes@, update.bytes@, options.upsert, false), (match r { Ok(x) => x.matched_count as nat, Err(_) => 0 }), (match r { Ok(x) => x.modified_count as nat, Err(_) => 0 })),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn delete_one(&self, world: &mut AppContext, filter: Document) -> (r: Result<DeleteResult>)
        ensures did(*old(world), *final(world), r is Ok, self.scope@, self.name@, Op::Delete(filter.bytes@, true), (match r { Ok(x) => x.deleted_count as nat, Err(_) => 0 }), 0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn delete_many(&self, world: &mut AppContext, filter: Document) -> (r: Result<DeleteResult>)
        ensures did(*old(world), *final(world), r is Ok, self.scope@, self.name@, Op::Delete(filter.bytes@, false), (match r { Ok(x) => x.deleted_count as nat, Err(_) => 0 }), 0),
    { unimplemented!() }
}
impl Transaction {
    #[verifier::external_body]
    pub fn commit(&self, world: &mut AppContext) -> (r: Result<()>)
        ensures did(*old(world), *final(world), r is Ok, Scope::Txn(self.id@), Seq::empty(), Op::Commit, 0, 0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rollback(&self, world: &mut AppContext) -> (r: Result<()>)
        ensures did(*old(world), *final(world), r is Ok, Scope::Txn(self.id@), Seq::empty(), Op::Rollback, 0, 0),
    { unimplemented!() }
}
/// the session's transaction, or none without a session
pub open spec fn scope_of(app: AppContext, session: Option<SessionContext>) -> Option<Scope> {
    match session { Some(s) => match app.ses@[s.id@] { Some(t) => Some(Scope::Txn(t)), None => None }, None => Some(Scope::Direct) }
}
pub open spec fn ses_ok(app: AppContext, session: Option<SessionContext>) -> bool { match session { Some(s) => app.ses@.dom().contains(s.id@), None => true } }
pub open spec fn only_events(pre: AppContext, post: AppContext) -> bool { post.inner == pre.inner && post.heap == pre.heap && post.ses == pre.ses && post.started == pre.started }
/// the numbers a write tells
pub open spec fn sum_n(s: Seq<Ev>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { sum_n(s.drop_last()) + s.last().n } }
pub open spec fn sum_m(s: Seq<Ev>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { sum_m(s.drop_last()) + s.last().m } }
proof fn lemma_sum_push(s: Seq<Ev>, e: Ev)
    ensures sum_n(s.push(e)) == sum_n(s) + e.n, sum_m(s.push(e)) == sum_m(s) + e.m, sum_n(Seq::<Ev>::empty()) == 0, sum_m(Seq::<Ev>::empty()) == 0,
{
    assert(s.push(e).drop_last() =~= s);
}
//@rule a path: utils::truly_value_for_bson_ref( ~~> truly_value_for_bson_ref(
//@rule a path: Vec::<bson::Document>::new() ~~> Vec::<Document>::new()
//@rule a write of the database: collection.insert_many(batch_insert.as_slice())? ~~> collection.insert_many(ctx, batch_insert.as_slice())?
//@rule a vector as a slice: ctx.message.document_sequences.as_slice() ~~> &ctx.message.document_sequences
//@rule loop over a vector as an indexed loop: for doc_seq in &ctx.message.document_sequences { ~~> let mut zi: usize = 0; while zi < ctx.message.document_sequences.len() { let doc_seq = &ctx.message.document_sequences[zi]; zi = zi + 1;
//@rule loop over a vector as an indexed loop: for doc_seq in ctx.message.document_sequences.as_slice() { ~~> let mut zi: usize = 0; while zi < ctx.message.document_sequences.len() { let doc_seq = &ctx.message.document_sequences[zi]; zi = zi + 1;
//@rule loop over a vector as an indexed loop: for doc in doc_seq.documents.as_slice() { ~~> let mut zj: usize = 0; while zj < doc_seq.documents.len() { let doc = &doc_seq.documents[zj]; zj = zj + 1;
//@rule loop over an array as an indexed loop: for doc in documents.into_iter() { ~~> let mut zk: usize = 0; while zk < documents.len() { let doc = documents.item(zk); zk = zk + 1;
/// the documents of the sequences of a message, in order
pub open spec fn seq_docs(q: Seq<DocumentSequence>) -> Seq<Seq<u8>>
    decreases q.len(),
{ if q.len() == 0 { Seq::empty() } else { seq_docs(q.drop_last()) + raw_docs(q.last().documents@) } }
pub open spec fn raw_docs(q: Seq<RawDocumentBuf>) -> Seq<Seq<u8>> { q.map_values(|d: RawDocumentBuf| d.bytes@) }
proof fn lemma_seq_docs(q: Seq<DocumentSequence>, n: int)
    requires 0 <= n < q.len(),
    ensures seq_docs(q.take(n + 1)) == seq_docs(q.take(n)) + raw_docs(q[n].documents@), seq_docs(q.take(0)) == Seq::<Seq<u8>>::empty(),
{
    assert(q.take(n + 1).drop_last() =~= q.take(n));
}
proof fn lemma_raw_docs(q: Seq<RawDocumentBuf>, n: int)
    requires 0 <= n < q.len(),
    ensures raw_docs(q.take(n + 1)) == raw_docs(q.take(n)).push(q[n].bytes@),
{
    assert(raw_docs(q.take(n + 1)) =~= raw_docs(q.take(n)).push(q[n].bytes@));
}
/// what an insert inserts: the documents of its sequences, then those of its documents field
pub open spec fn inserted(m: &Message) -> Seq<Seq<u8>> { seq_docs(m.document_sequences@) + docs_of(arr_of(field(m.document_payload.bytes@, "documents"@))) }
//@fn src/polodb/utils.rs truly_value_for_bson_ref
//@ret r
//@spec
    ensures r == truly(match arg_r { Some(v) => Some(v.v()), None => None }, default),
//@rw a parameter renamed: (r: Option<RawBsonRef>, ~~> (arg_r: Option<RawBsonRef>,
//@rw a parameter renamed: match r { Some(r) ~~> match arg_r { Some(r)
//@end
pub open spec fn truly(v: Option<RawV>, default: bool) -> bool {
    match v { Some(RawV::Boolean(b)) => b, Some(RawV::Int32(i)) => i == 1, Some(RawV::Int64(i)) => i == 1, _ => default }
}
//@fn src/polodb/handlers/insert_handler.rs Handler for InsertHandler::handle#insert_all
//@sig fn insert_all(ctx: &mut AppContext, session_opt: Option<SessionContext>, db: Database, collection_name: String, batch_insert: Vec<Document>) -> Result<InsertManyResult>
//@body task::spawn_blocking(move || -> anyhow::Result<polodb_core::results::InsertManyResult> { $s_body }).await??
//@rw a shared session: session.get_transaction() ~~> ctx.txn_of(&session)
//@ret r
//@spec
    requires ses_ok(*old(ctx), session_opt),
    ensures
        r is Ok ==> scope_of(*old(ctx), session_opt) is Some && r->Ok_0.inserted_ids.n@ == batch_insert@.len()
            && did(*old(ctx), *final(ctx), true, scope_of(*old(ctx), session_opt)->Some_0, collection_name@, Op::Insert(bytes_of(batch_insert@)), batch_insert@.len(), 0),
        r is Err ==> *final(ctx) == *old(ctx),
//@end
pub struct InsertHandler {}
impl Handler for InsertHandler {
    open spec fn accepts(&self, doc: Seq<u8>) -> bool { is_str(doc, "insert"@) }
//@fn src/polodb/handlers/insert_handler.rs Handler for InsertHandler::test
//@end
#[verifier::loop_isolation(false)]
//@fn src/polodb/handlers/insert_handler.rs Handler for InsertHandler::handle
//@ret r
//@spec
    ensures r is Ok ==> old(ctx).scope() is Some && ({
            let all = inserted(old(ctx).message);
            did(*old(ctx).app_context, *final(ctx).app_context, true, old(ctx).scope()->Some_0, str_of(field(old(ctx).doc(), "insert"@)), Op::Insert(all), all.len(), 0)
                && exists|c: i64| #[trigger] built(r->Ok_0.doc.bytes@, f3(("ok"@, RawV::Int32(1)), ("connectionId"@, RawV::Int64(c)), ("n"@, RawV::Int64(all.len() as i64))))
        }),
        r is Err ==> *final(ctx).app_context == *old(ctx).app_context,
//@beforeloop 0
    let ghost seqs = ctx.message.document_sequences@;
    proof { assert(bytes_of(Seq::<Document>::empty()) =~= Seq::<Seq<u8>>::empty()); assert(seq_docs(seqs.take(0)) =~= Seq::<Seq<u8>>::empty()); }
//@loop 0
    invariant
        zi <= seqs.len(), *ctx == *old(ctx), bytes_of(batch_insert@) == seq_docs(seqs.take(zi as int)),
    decreases seqs.len() - zi,
//@beforeloop 1
    let ghost ds = doc_seq.documents@;
    let ghost got = bytes_of(batch_insert@);
    proof { lemma_seq_docs(seqs, zi - 1); assert(raw_docs(ds.take(0)) =~= Seq::<Seq<u8>>::empty()); assert(got + raw_docs(ds.take(0)) =~= got); }
//@loop 1
    invariant
        zj <= ds.len(), *ctx == *old(ctx), bytes_of(batch_insert@) == got + raw_docs(ds.take(zj as int)),
    decreases ds.len() - zj,
//@loopstart 1
    let ghost b0 = batch_insert@;
//@before batch_insert.push(d)
    proof { lemma_raw_docs(ds, zj - 1); lemma_bytes_push(b0, d); assert(got + raw_docs(ds.take(zj as int)) =~= (got + raw_docs(ds.take(zj - 1))).push(d.bytes@)); }
//@afterloop 1
    proof { assert(ds.take(zj as int) =~= ds); }
//@afterloop 0
    proof { assert(seqs.take(zi as int) =~= seqs); }
    let ghost got = seq_docs(seqs);
    let ghost arr = arr_of(field(ctx.doc(), "documents"@));
//@beforeloop 2
    proof { assert(docs_of(arr.take(0)) =~= Seq::<Seq<u8>>::empty()); assert(got + docs_of(arr.take(0)) =~= got); }
//@loop 2
    invariant
        zk <= arr.len(), *ctx == *old(ctx), arr == documents.items@, bytes_of(batch_insert@) == got + docs_of(arr.take(zk as int)),
    decreases arr.len() - zk,
//@loopstart 2
    let ghost b0 = batch_insert@;
    let ghost k0 = zk as int;
//@after batch_insert.push(from_slice(doc_ref.as_bytes())?);
    proof { lemma_docs_push(arr, k0); lemma_bytes_push(b0, batch_insert@.last()); assert(batch_insert@ =~= b0.push(batch_insert@.last())); assert(got + docs_of(arr.take(k0 + 1)) =~= (got + docs_of(arr.take(k0))).push(batch_insert@.last().bytes@)); }
//@afterloop 2
    proof { assert(arr.take(zk as int) =~= arr); }
//@before let insert_result
    let ghost pre = *old(ctx);
    let ghost all = inserted(ctx.message);
    proof {
        assert(docs_of(Seq::<RawV>::empty()) =~= Seq::<Seq<u8>>::empty());
        assert(got + Seq::<Seq<u8>>::empty() =~= got);
        assert(bytes_of(batch_insert@) == all);
        assert(bytes_of(batch_insert@).len() == batch_insert@.len());
    }
//@before Ok(reply)
    assert(did(*pre.app_context, *ctx.app_context, true, pre.scope()->Some_0, str_of(field(pre.doc(), "insert"@)), Op::Insert(all), all.len(), 0));
    assert(built(reply.doc.bytes@, f3(("ok"@, RawV::Int32(1)), ("connectionId"@, RawV::Int64(ctx.conn_id as i64)), ("n"@, RawV::Int64(all.len() as i64)))));
//@end
}
pub open spec fn bflag(d: Seq<u8>, key: Seq<char>) -> bool { flag(d, key) }
impl Document {
    /// get_bool(key).unwrap_or(false)
    #[verifier::external_body]
    pub fn bool_or_false(&self, key: &str) -> (r: bool) ensures r == flag(self.bytes@, key@), { unimplemented!() }
}
pub open spec fn bdoc(v: Option<Bson>) -> Option<Seq<u8>> { match v { Some(Bson::Document(d)) => Some(d.bytes@), _ => None } }
/// the update one element of `updates` asks for
pub open spec fn update_op(d: Seq<u8>) -> Op { Op::Update(bdoc(bget(d, "q"@))->Some_0, bdoc(bget(d, "u"@))->Some_0, flag(d, "upsert"@), flag(d, "multi"@)) }
/// the number a value is, if it is a whole number (bson_util::get_int, which rounds floats)
pub uninterp spec fn whole(v: Bson) -> Option<i64>;
pub open spec fn whole_of(v: Option<Bson>) -> Option<i64> { match v { Some(b) => whole(b), None => None } }
#[verifier::external_body]
pub fn whole_is(v: Option<&Bson>, n: i64) -> (r: bool) ensures r == (whole_of(match v { Some(b) => Some(*b), None => None }) == Some(n)), { unimplemented!() }
pub open spec fn delete_op(d: Seq<u8>) -> Op { Op::Delete(bdoc(bget(d, "q"@))->Some_0, whole_of(bget(d, "limit"@)) == Some(1i64)) }
//@rule std by definition: $i_d.get_bool($e).unwrap_or(false) ~~> $i_d.bool_or_false($e)
//@rule std by definition: $i_d.get($e).and_then(bson_util::get_int) == Some($e2) ~~> whole_is($i_d.get($e), $e2)
//@rule a builder: UpdateOptions::builder() .upsert($e) .build() ~~> UpdateOptions { upsert: $e }
//@rule exclusive access: fn handle_update(ctx: AppContext, ~~> fn handle_update(ctx: &mut AppContext,
//@rule exclusive access: fn handle_delete(ctx: AppContext, ~~> fn handle_delete(ctx: &mut AppContext,
//@rule exclusive access: fn update_collection(collection: &impl CollectionT<Document>, ~~> fn update_collection(ctx: &mut AppContext, collection: &Collection,
//@rule exclusive access: fn delete_from_collection(collection: &impl CollectionT<Document>, ~~> fn delete_from_collection(ctx: &mut AppContext, collection: &Collection,
//@rule exclusive access: UpdateHandler::update_collection(&collection, ~~> UpdateHandler::update_collection(ctx, &collection,
//@rule exclusive access: DeleteHandler::delete_from_collection(&collection, ~~> DeleteHandler::delete_from_collection(ctx, &collection,
//@rule exclusive access: (ctx.app_context.clone(), ~~> (ctx.app_context,
//@rule a write of the database: collection.update_many_with_options( ~~> collection.update_many_with_options(ctx,
//@rule a write of the database: collection.update_one_with_options( ~~> collection.update_one_with_options(ctx,
//@rule a write of the database: collection.delete_one( ~~> collection.delete_one(ctx,
//@rule a write of the database: collection.delete_many( ~~> collection.delete_many(ctx,
//@rule loop over an array as an indexed loop: for update in updates.into_iter() { ~~> let mut zi: usize = 0; while zi < updates.len() { let update = updates.item(zi); zi = zi + 1;
//@rule loop over an array as an indexed loop: for delete_doc in deletes_arr.into_iter() { ~~> let mut zi: usize = 0; while zi < deletes_arr.len() { let delete_doc = deletes_arr.item(zi); zi = zi + 1;
/// the events of a command: one per element, each what the element asks for
pub open spec fn one_each(es: Seq<Ev>, scope: Scope, coll: Seq<char>, items: Seq<RawV>, del: bool) -> bool {
    es.len() == items.len() && forall|i: int| 0 <= i < es.len() ==> {
        let e = #[trigger] es[i];
        e.scope == scope && e.coll == coll && small(e.n) && small(e.m) && items[i] is Doc && e.op == (if del { delete_op(items[i]->Doc_0) } else { update_op(items[i]->Doc_0) })
    }
}
pub struct UpdateHandler {}
impl UpdateHandler {
//@fn src/polodb/handlers/update_handler.rs UpdateHandler::update_collection
//@ret r
//@spec
    ensures did(*old(ctx), *final(ctx), r is Ok, collection.scope@, collection.name@, Op::Update(filter.bytes@, update.bytes@, options.upsert, is_multi), (match r { Ok(x) => x.matched_count as nat, Err(_) => 0 }), (match r { Ok(x) => x.modified_count as nat, Err(_) => 0 })),
//@end
//@fn src/polodb/handlers/update_handler.rs UpdateHandler::handle_update
//@rw a shared session: session.get_transaction() ~~> ctx.txn_of(session)
//@ret r
//@rw a parameter renamed: update: Document, ~~> arg_update: Document,
//@spec
    requires ses_ok(*old(ctx), *session_opt), old(result).matched_count + 0xffff_ffff <= u64::MAX, old(result).modified_count + 0xffff_ffff <= u64::MAX,
    ensures
        (match r {
            Ok(_) => scope_of(*old(ctx), *session_opt) is Some && final(result).matched_count >= old(result).matched_count && final(result).modified_count >= old(result).modified_count
                && did(*old(ctx), *final(ctx), true, scope_of(*old(ctx), *session_opt)->Some_0, col_name@, update_op(arg_update.bytes@),
                    (final(result).matched_count - old(result).matched_count) as nat, (final(result).modified_count - old(result).modified_count) as nat),
            Err(_) => *final(ctx) == *old(ctx),
        }),
//@start
    let update = arg_update;
//@end
}
impl Handler for UpdateHandler {
    open spec fn accepts(&self, doc: Seq<u8>) -> bool { is_str(doc, "update"@) }
//@fn src/polodb/handlers/update_handler.rs Handler for UpdateHandler::test
//@end
#[verifier::loop_isolation(false)]
//@fn src/polodb/handlers/update_handler.rs Handler for UpdateHandler::handle
//@ret r
//@spec
    ensures
        only_events(*old(ctx).app_context, *final(ctx).app_context),
        r is Ok ==> (exists|es: Seq<Ev>| #[trigger] one_each(es, old(ctx).scope()->Some_0, str_of(field(old(ctx).doc(), "update"@)), arr_of(field(old(ctx).doc(), "updates"@)), false)
            && (es.len() > 0 ==> old(ctx).scope() is Some)
            && final(ctx).app_context.events@ == old(ctx).app_context.events@ + es
            && exists|c: i64| #[trigger] built(r->Ok_0.doc.bytes@, f4(("ok"@, RawV::Int32(1)), ("connectionId"@, RawV::Int64(c)), ("nModified"@, RawV::Int64(sum_m(es) as i64)), ("n"@, RawV::Int64(sum_n(es) as i64))))),
//@beforeloop 0
    let ghost pre = *old(ctx);
    let ghost coll = collection_name@;
    let ghost arr = updates.items@;
    let ghost mut es = Seq::<Ev>::empty();
    assert(pre.app_context.events@ + es =~= pre.app_context.events@);
//@loop 0
    invariant
        zi <= arr.len(), *ctx.message == *pre.message, ctx.session == pre.session, ctx.conn_id == pre.conn_id, only_events(*pre.app_context, *ctx.app_context),
        one_each(es, pre.scope()->Some_0, coll, arr.take(zi as int), false), es.len() > 0 ==> pre.scope() is Some,
        ctx.app_context.events@ == pre.app_context.events@ + es, in_scope(pre.app_context.events@, ctx.app_context.events@, pre.scope()),
        update_result.matched_count == sum_n(es), update_result.modified_count == sum_m(es),
        update_result.matched_count <= zi * 0x1_0000_0000, update_result.modified_count <= zi * 0x1_0000_0000,
        same_app(*old(ctx), *ctx),
    decreases arr.len() - zi,
//@loopstart 0
    let ghost e0 = ctx.app_context.events@;
//@loopend 0
    proof {
        let e = ctx.app_context.events@.last();
        assert(ctx.app_context.events@ == e0.push(e));
        assert(pre.app_context.events@ + es.push(e) =~= e0.push(e));
        assert(arr.take(zi as int) =~= arr.take(zi - 1).push(arr[zi - 1]));
        lemma_sum_push(es, e);
        es = es.push(e);
    }
//@before let body
    proof { assert(arr.take(zi as int) =~= arr); }
//@before Ok(reply)
    assert(built(reply.doc.bytes@, f4(("ok"@, RawV::Int32(1)), ("connectionId"@, RawV::Int64(ctx.conn_id as i64)), ("nModified"@, RawV::Int64(sum_m(es) as i64)), ("n"@, RawV::Int64(sum_n(es) as i64)))));
    assert(coll == str_of(field(pre.doc(), "update"@)));
    assert(arr == arr_of(field(pre.doc(), "updates"@)));
    assert(ctx.app_context.events@ == pre.app_context.events@ + es);
    assert(one_each(es, pre.scope()->Some_0, str_of(field(pre.doc(), "update"@)), arr_of(field(pre.doc(), "updates"@)), false));
//@end
}
pub struct DeleteHandler {}
impl DeleteHandler {
//@fn src/polodb/handlers/delete_handler.rs DeleteHandler::delete_from_collection
//@ret r
//@spec
    ensures did(*old(ctx), *final(ctx), r is Ok, collection.scope@, collection.name@, Op::Delete(filter.bytes@, is_one), (match r { Ok(x) => x.deleted_count as nat, Err(_) => 0 }), 0),
//@end
//@fn src/polodb/handlers/delete_handler.rs DeleteHandler::handle_delete
//@rw a shared session: session.get_transaction() ~~> ctx.txn_of(session)
//@ret r
//@spec
    requires ses_ok(*old(ctx), *session_opt), old(result).deleted_count + 0xffff_ffff <= u64::MAX,
    ensures
        (match r {
            Ok(_) => scope_of(*old(ctx), *session_opt) is Some && final(result).deleted_count >= old(result).deleted_count
                && did(*old(ctx), *final(ctx), true, scope_of(*old(ctx), *session_opt)->Some_0, col_name@, delete_op(delete_doc.bytes@), (final(result).deleted_count - old(result).deleted_count) as nat, 0),
            Err(_) => *final(ctx) == *old(ctx),
        }),
//@end
}
impl Handler for DeleteHandler {
    open spec fn accepts(&self, doc: Seq<u8>) -> bool { is_str(doc, "delete"@) }
//@fn src/polodb/handlers/delete_handler.rs Handler for DeleteHandler::test
//@end
#[verifier::loop_isolation(false)]
//@fn src/polodb/handlers/delete_handler.rs Handler for DeleteHandler::handle
//@ret r
//@spec
    ensures
        only_events(*old(ctx).app_context, *final(ctx).app_context),
        r is Ok ==> (exists|es: Seq<Ev>| #[trigger] one_each(es, old(ctx).scope()->Some_0, str_of(field(old(ctx).doc(), "delete"@)), arr_of(field(old(ctx).doc(), "deletes"@)), true)
            && (es.len() > 0 ==> old(ctx).scope() is Some)
            && final(ctx).app_context.events@ == old(ctx).app_context.events@ + es
            && built(r->Ok_0.doc.bytes@, f2(("ok"@, RawV::Int32(1)), ("n"@, RawV::Int64(sum_n(es) as i64))))),
//@beforeloop 0
    let ghost pre = *old(ctx);
    let ghost coll = collection_name@;
    let ghost arr = deletes_arr.items@;
    let ghost mut es = Seq::<Ev>::empty();
    assert(pre.app_context.events@ + es =~= pre.app_context.events@);
//@loop 0
    invariant
        zi <= arr.len(), *ctx.message == *pre.message, ctx.session == pre.session, ctx.conn_id == pre.conn_id, only_events(*pre.app_context, *ctx.app_context), session_opt == pre.session,
        one_each(es, pre.scope()->Some_0, coll, arr.take(zi as int), true), es.len() > 0 ==> pre.scope() is Some,
        ctx.app_context.events@ == pre.app_context.events@ + es, in_scope(pre.app_context.events@, ctx.app_context.events@, pre.scope()),
        delete_result.deleted_count == sum_n(es), delete_result.deleted_count <= zi * 0x1_0000_0000,
        same_app(*old(ctx), *ctx),
    decreases arr.len() - zi,
//@loopstart 0
    let ghost e0 = ctx.app_context.events@;
//@loopend 0
    proof {
        let e = ctx.app_context.events@.last();
        assert(ctx.app_context.events@ == e0.push(e));
        assert(pre.app_context.events@ + es.push(e) =~= e0.push(e));
        assert(arr.take(zi as int) =~= arr.take(zi - 1).push(arr[zi - 1]));
        lemma_sum_push(es, e);
        es = es.push(e);
    }
//@before let body
    proof { assert(arr.take(zi as int) =~= arr); }
//@before Ok(reply)
    assert(coll == str_of(field(pre.doc(), "delete"@)));
    assert(arr == arr_of(field(pre.doc(), "deletes"@)));
    assert(built(reply.doc.bytes@, f2(("ok"@, RawV::Int32(1)), ("n"@, RawV::Int64(sum_n(es) as i64)))));
    assert(one_each(es, pre.scope()->Some_0, coll, arr, true));
//@end
}
pub struct CommitTransactionHandler {}
pub struct AbortTransactionHandler {}
/// the end of the session's transaction
pub open spec fn ended(pre: AppContext, post: AppContext, session: Option<SessionContext>, op: Op) -> bool {
    match session { Some(s) => pre.ses@[s.id@] is Some && post.ses@ == pre.ses@.insert(s.id@, None)
        && post.events@ == pre.events@.push(Ev { scope: Scope::Txn(pre.ses@[s.id@]->Some_0), coll: Seq::empty(), op, n: 0, m: 0 })
        && post.inner == pre.inner && post.heap == pre.heap && post.started == pre.started, None => false }
}
//@rule a path: bson::RawBsonRef:: ~~> RawBsonRef::
//@rule the end of a transaction: conn_ctx.commit()? ~~> conn_ctx.commit(ctx.app_context)?
//@rule a shared session: session.clear_transaction(); ~~> ctx.app_context.clear_txn(&session);
//@rule a shared session: ctx.session.as_ref().ok_or($e)? ~~> ctx.session.clone().ok_or($e)?
impl Handler for CommitTransactionHandler {
    open spec fn accepts(&self, doc: Seq<u8>) -> bool { match field(doc, "commitTransaction"@) { Some(RawV::Int32(i)) => i == 1, Some(RawV::Int64(i)) => i == 1, _ => false } }
//@fn src/polodb/handlers/commit_transaction.rs Handler for CommitTransactionHandler::test
//@end
//@fn src/polodb/handlers/commit_transaction.rs Handler for CommitTransactionHandler::handle
//@ret r
//@spec
    ensures
        r is Ok ==> ended(*old(ctx).app_context, *final(ctx).app_context, old(ctx).session, Op::Commit),
        r is Err ==> *final(ctx).app_context == *old(ctx).app_context,
//@end
}
impl Handler for AbortTransactionHandler {
    open spec fn accepts(&self, doc: Seq<u8>) -> bool { match field(doc, "abortTransaction"@) { Some(RawV::Int32(i)) => i == 1, Some(RawV::Int64(_)) => true, _ => false } }
//@fn src/polodb/handlers/abort_transaction.rs Handler for AbortTransactionHandler::test
//@end
//@fn src/polodb/handlers/abort_transaction.rs Handler for AbortTransactionHandler::handle
//@rw a shadowing name renamed: let ctx = session.get_transaction() ~~> let zc = ctx.app_context.txn_of(&session)
//@rw a shadowing name renamed: ctx.rollback()? ~~> zc.rollback(ctx.app_context)?
//@ret r
//@spec
    ensures
        r is Ok ==> ended(*old(ctx).app_context, *final(ctx).app_context, old(ctx).session, Op::Rollback),
        r is Err ==> *final(ctx).app_context == *old(ctx).app_context,
//@end
}
