// handlers/*.rs: what each command does, in which scope, and how it is answered.
pub struct HandleContext<'a> { pub app_context: &'a mut AppContext, pub conn_id: u64, pub message: &'a Message, pub session: Option<SessionContext>, pub auto_commit: bool }
impl<'a> HandleContext<'a> {
    pub open spec fn doc(&self) -> Seq<u8> { self.message.document_payload.bytes@ }
    /// the transaction a request runs in: the one its session holds
    pub open spec fn scope(&self) -> Option<Scope> {
        match self.session { Some(s) => match self.app_context.ses@[s.id@] { Some(t) => Some(Scope::Txn(t)), None => None }, None => Some(Scope::Direct) }
    }
    pub open spec fn ok(&self) -> bool {
        self.app_context.wf() && self.app_context.inner.next_cursor_id.v < i64::MAX - 1 && self.message.request_id is Some
            && (match self.session { Some(s) => self.app_context.ses@.dom().contains(s.id@), None => true })
    }
}
/// everything from n on happened in this scope
pub open spec fn in_scope(pre: Seq<Ev>, post: Seq<Ev>, scope: Option<Scope>) -> bool {
    pre.len() <= post.len() && post.take(pre.len() as int) =~= pre && forall|i: int| pre.len() <= i < post.len() ==> scope == Some((#[trigger] post[i]).scope)
}
pub open spec fn is_end(op: Op) -> bool { op is Commit || op is Rollback }
/// a command changes no session but its own, and its own only by ending its transaction
pub open spec fn keeps_sessions(pre: AppContext, post: AppContext, session: Option<SessionContext>) -> bool {
    post.inner.session_ctx == pre.inner.session_ctx && post.started == pre.started
        && (post.ses@ == pre.ses@ || (match session {
            Some(s) => pre.ses@[s.id@] is Some && post.ses@ == pre.ses@.insert(s.id@, None)
                && post.events@.len() == pre.events@.len() + 1 && is_end(post.events@.last().op) && post.events@.last().scope == Scope::Txn(pre.ses@[s.id@]->Some_0),
            None => false,
        }))
}
/// a request is answered: with its own id, as one document which tells success first, and having acted in its own scope only
pub open spec fn is_success(doc: Seq<u8>) -> bool { exists|f: Seq<F>| #[trigger] built(doc, f) && f.len() > 0 && f[0] == ("ok"@, RawV::Int32(1)) }
pub open spec fn answered(pre: HandleContext, post: HandleContext, r: Result<Reply>) -> bool {
    post.app_context.wf() && post.message == pre.message && post.session == pre.session && keeps_sessions(*pre.app_context, *post.app_context, pre.session)
        && in_scope(pre.app_context.events@, post.app_context.events@, pre.scope())
        && (match r { Ok(p) => Some(p.response_to) == pre.message.request_id && p.wf() && is_success(p.doc.bytes@) && p.payload@.len() + 16 <= 0x7fff_ffff, Err(_) => true })
}
#[verifier::prophetic]
pub open spec fn same_app(pre: HandleContext, post: HandleContext) -> bool { *final(post.app_context) == *final(pre.app_context) }
pub trait Handler: Sized {
    spec fn accepts(&self, doc: Seq<u8>) -> bool;
    fn test(&self, doc: &RawDocumentBuf) -> (r: Result<bool>) ensures r is Ok ==> r->Ok_0 == self.accepts(doc.bytes@);
    fn handle(&self, ctx: &mut HandleContext) -> (r: Result<Reply>)
        requires self.accepts(old(ctx).doc()), old(ctx).ok(),
        ensures answered(*old(ctx), *final(ctx), r), same_app(*old(ctx), *final(ctx));
}
pub open spec fn present(doc: Seq<u8>, key: Seq<char>) -> bool { field(doc, key) is Some }
pub open spec fn is_str(doc: Seq<u8>, key: Seq<char>) -> bool { match field(doc, key) { Some(v) => v is Str, None => false } }
//@rule sequential execution of one request: async fn ~~> fn
//@rule exclusive access: ctx: &HandleContext ~~> ctx: &mut HandleContext
//@rule the result type: anyhow::Result ~~> Result
//@rule text of the error dropped: anyhow::anyhow!($e) ~~> Error
//@rule text of the error dropped: anyhow!($e) ~~> Error

// ---- ping, hello ----
pub struct PingHandler {}
impl Handler for PingHandler {
    open spec fn accepts(&self, doc: Seq<u8>) -> bool { present(doc, "ping"@) }
//@fn src/polodb/handlers/ping_handler.rs Handler for PingHandler::test
//@end
//@fn src/polodb/handlers/ping_handler.rs Handler for PingHandler::handle
//@end
}
pub struct HelloHandler {}
impl Handler for HelloHandler {
    open spec fn accepts(&self, doc: Seq<u8>) -> bool { present(doc, "helloOk"@) || present(doc, "ismaster"@) || present(doc, "isMaster"@) }
//@fn src/polodb/handlers/hello_handler.rs Handler for HelloHandler::test
//@end
//@fn src/polodb/handlers/hello_handler.rs Handler for HelloHandler::handle
//@end
}

// ---- cursors ----
pub struct KillCursorsHandler {}
/// the ids named by a killCursors request
pub open spec fn ids_of(items: Seq<RawV>) -> Seq<i64> { items.map_values(|v: RawV| match v { RawV::Int64(i) => i, _ => 0 }) }
impl Handler for KillCursorsHandler {
    open spec fn accepts(&self, doc: Seq<u8>) -> bool { present(doc, "killCursors"@) }
//@fn src/polodb/handlers/kill_cursors_handler.rs Handler for KillCursorsHandler::test
//@end
//@rule loop over an array as an indexed loop: for $i_c in cursors_array.into_iter() { ~~> let mut zi: usize = 0; while zi < cursors_array.len() { let $i_c = cursors_array.item(zi); zi = zi + 1;
#[verifier::loop_isolation(false)]
//@fn src/polodb/handlers/kill_cursors_handler.rs Handler for KillCursorsHandler::handle
//@rw a vector as a slice: cursor_ids.as_slice() ~~> &cursor_ids
//@ret r
//@spec
    ensures
        r is Ok ==> (exists|items: Seq<RawV>| #[trigger] ids_of(items) == ids_of(items) && field(old(ctx).doc(), "cursors"@) == Some(RawV::Arr(items))
            && (forall|i: int| 0 <= i < items.len() ==> #[trigger] items[i] is Int64)
            && final(ctx).app_context.inner.cursors.m@ == old(ctx).app_context.inner.cursors.m@.remove_keys(ids_of(items).to_set())),
        final(ctx).app_context.heap == old(ctx).app_context.heap,
//@beforeloop 0
    assert(ids_of(cursors_array.items@.take(0)) =~= Seq::<i64>::empty());
//@loop 0
    invariant
        zi <= cursors_array.items@.len(), cursor_ids@ == ids_of(cursors_array.items@.take(zi as int)),
        forall|i: int| 0 <= i < zi ==> #[trigger] cursors_array.items@[i] is Int64,
        *ctx == *old(ctx),
    decreases cursors_array.items@.len() - zi,
//@loopstart 0
    proof { assert(ids_of(cursors_array.items@.take(zi + 1)) =~= ids_of(cursors_array.items@.take(zi as int)).push(match cursors_array.items@[zi as int] { RawV::Int64(i) => i, _ => 0 })); }
//@afterloop 0
    proof { assert(cursors_array.items@.take(zi as int) =~= cursors_array.items@); }
//@end
}
/// std::slice::from_ref
#[verifier::external_body]
fn only(x: &i64) -> (r: &[i64]) ensures r@ == seq![*x], { unimplemented!() }
impl Handler for GetMoreHandler {
    open spec fn accepts(&self, doc: Seq<u8>) -> bool { present(doc, "getMore"@) }
//@fn src/polodb/handlers/get_more_handler.rs Handler for GetMoreHandler::test
//@end
//@fn src/polodb/handlers/get_more_handler.rs Handler for GetMoreHandler::handle
//@rw a shared cursor: let mut cursor_guard = cursor.lock().unwrap(); ~~> let cursor_guard = ctx.app_context.lock(&cursor);
//@rw a shared cursor: &mut cursor_guard ~~> cursor_guard
//@rw a slice of one element: &[cursor_id] ~~> only(&cursor_id)
//@ret r
//@spec
    ensures r is Ok ==> more_given(*old(ctx), *final(ctx), r->Ok_0.doc.bytes@),
        r is Err ==> final(ctx).app_context.inner.cursors == old(ctx).app_context.inner.cursors,
//@before if !has_more
    let ghost pre = *old(ctx);
    let ghost left0 = pre.app_context.left(cursor_id);
    let ghost cref = pre.app_context.inner.cursors.m@[cursor_id].id@;
    let ghost left1 = ctx.app_context.heap@[cref];
    let ghost docs = choose|docs: Seq<RawV>| #[trigger] batch(left0, left1, docs) && more_batch(left0, left1, docs, has_more, batch_size as int)
        && built(cursor_doc.bytes@, f3(("id"@, RawV::Int64(if has_more { cursor_id } else { 0 })), ("ns"@, RawV::Str(ns_of(db_name@, collection@))), ("nextBatch"@, RawV::Arr(docs))));
    assert(more_batch(left0, left1, docs, has_more, batch_size as int));
//@before Ok(reply)
    proof {
        assert(field(pre.doc(), "getMore"@) == Some(RawV::Int64(cursor_id)));
        assert(pre.app_context.inner.cursors.m@.dom().contains(cursor_id));
        assert(ctx.app_context.heap@ == pre.app_context.heap@.insert(cref, left1));
        assert(size_of(pre.doc()) == batch_size);
        let m0 = pre.app_context.inner.cursors.m@;
        assert(m0.remove_keys(seq![cursor_id].to_set()) =~= m0.remove(cursor_id)) by {
            assert(seq![cursor_id][0] == cursor_id);
            assert forall|k: i64| seq![cursor_id].to_set().contains(k) == (k == cursor_id) by {}
        }
        assert(built(reply.doc.bytes@, f2(("ok"@, RawV::Int32(1)), ("cursor"@, RawV::Doc(cursor_doc.bytes@)))));
        assert(cursor_reply(reply.doc.bytes@, false, if has_more { cursor_id } else { 0 }, docs, ns_of(str_of(field(pre.doc(), "$db"@)), str_of(field(pre.doc(), "collection"@)))));
        assert(ctx.app_context.inner.cursors.m@ == (if has_more { m0 } else { m0.remove(cursor_id) }));
    }
//@end
}
/// the cursor document of a reply
pub open spec fn cursor_reply(doc: Seq<u8>, first: bool, id: i64, docs: Seq<RawV>, ns: Seq<char>) -> bool {
    exists|c: Seq<u8>| #[trigger] built(doc, f2(("ok"@, RawV::Int32(1)), ("cursor"@, RawV::Doc(c))))
        && (if first { built(c, f3(("firstBatch"@, RawV::Arr(docs)), ("id"@, RawV::Int64(id)), ("ns"@, RawV::Str(ns)))) }
            else { built(c, f3(("id"@, RawV::Int64(id)), ("ns"@, RawV::Str(ns)), ("nextBatch"@, RawV::Arr(docs)))) })
}
pub open spec fn str_of(v: Option<RawV>) -> Seq<char> { match v { Some(RawV::Str(s)) => s, _ => Seq::empty() } }
pub open spec fn ns_of(db: Seq<char>, coll: Seq<char>) -> Seq<char> { db + seq!['.'] + coll }
/// the requested size of a batch
pub open spec fn size_of(doc: Seq<u8>) -> int { match field(doc, "batchSize"@) { Some(v) => batch_size_of(v), None => 101 } }
/// what a getMore does: the next documents of the cursor it names, of which it stays open exactly while it was cut short
pub open spec fn more_given(pre: HandleContext, post: HandleContext, reply: Seq<u8>) -> bool {
    let doc = pre.doc();
    exists|id: i64, docs: Seq<RawV>, more: bool| #[trigger] more_batch(pre.app_context.left(id), post.app_context.heap@[pre.app_context.inner.cursors.m@[id].id@], docs, more, size_of(doc))
        && field(doc, "getMore"@) == Some(RawV::Int64(id)) && pre.app_context.inner.cursors.m@.dom().contains(id)
        && cursor_reply(reply, false, if more { id } else { 0 }, docs, ns_of(str_of(field(doc, "$db"@)), str_of(field(doc, "collection"@))))
        && post.app_context.inner.cursors.m@ == (if more { pre.app_context.inner.cursors.m@ } else { pre.app_context.inner.cursors.m@.remove(id) })
        && post.app_context.heap@ == pre.app_context.heap@.insert(pre.app_context.inner.cursors.m@[id].id@, post.app_context.heap@[pre.app_context.inner.cursors.m@[id].id@])
}
pub open spec fn more_batch(pre: Seq<Seq<u8>>, post: Seq<Seq<u8>>, docs: Seq<RawV>, more: bool, size: int) -> bool {
    batch(pre, post, docs) && (size >= 1 ==> docs.len() <= size) && (!more ==> post.len() == 0) && (pre.len() == 0 ==> !more) && (pre.len() > 0 && size != 0 ==> docs.len() > 0)
}

// ---- find, aggregate ----
/// what a query gives on the contents these events led to
pub uninterp spec fn found(events: Seq<Ev>, scope: Scope, coll: Seq<char>, filter: Seq<u8>, limit: Option<u64>, skip: Option<u64>) -> Seq<Seq<u8>>;
pub uninterp spec fn computed(events: Seq<Ev>, scope: Scope, coll: Seq<char>, pipeline: Seq<Seq<u8>>) -> Seq<Seq<u8>>;
/// a collection, in the scope it was taken from
pub struct Collection { pub scope: Ghost<Scope>, pub name: Ghost<Seq<char>> }
pub struct Database {}
impl Database {
    #[verifier::external_body]
    pub fn collection(&self, name: &str) -> (r: Collection) ensures r.scope@ == Scope::Direct, r.name@ == name@, { unimplemented!() }
}
impl Transaction {
    #[verifier::external_body]
    pub fn collection(&self, name: &str) -> (r: Collection) ensures r.scope@ == Scope::Txn(self.id@), r.name@ == name@, { unimplemented!() }
}
pub struct Find { pub scope: Ghost<Scope>, pub name: Ghost<Seq<char>>, pub filter: Ghost<Seq<u8>>, pub lim: Ghost<Option<u64>>, pub skp: Ghost<Option<u64>> }
pub struct Agg { pub scope: Ghost<Scope>, pub name: Ghost<Seq<char>>, pub pipeline: Ghost<Seq<Seq<u8>>> }
pub open spec fn bytes_of(v: Seq<Document>) -> Seq<Seq<u8>> { v.map_values(|d: Document| d.bytes@) }
impl Collection {
    #[verifier::external_body]
    pub fn find(&self, filter: Document) -> (r: Find)
        ensures r == (Find { scope: self.scope, name: self.name, filter: filter.bytes, lim: Ghost(None), skp: Ghost(None) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn aggregate(&self, pipeline: Vec<Document>) -> (r: Agg)
        ensures r.scope == self.scope, r.name == self.name, r.pipeline@ == bytes_of(pipeline@),
    { unimplemented!() }
}
impl Find {
    #[verifier::external_body]
    pub fn limit(self, n: u64) -> (r: Find) ensures r == (Find { lim: Ghost(Some(n)), ..self }), { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: u64) -> (r: Find) ensures r == (Find { skp: Ghost(Some(n)), ..self }), { unimplemented!() }
    #[verifier::external_body]
    pub fn run(self, world: &AppContext) -> (r: Result<ClientCursor>)
        ensures r is Ok ==> r->Ok_0.rest@ == found(world.events@, self.scope@, self.name@, self.filter@, self.lim@, self.skp@),
    { unimplemented!() }
}
impl Agg {
    #[verifier::external_body]
    pub fn run(self, world: &AppContext) -> (r: Result<ClientCursor>)
        ensures r is Ok ==> r->Ok_0.rest@ == computed(world.events@, self.scope@, self.name@, self.pipeline@),
    { unimplemented!() }
}
impl AppContext {
    #[verifier::external_body]
    pub fn db(&self) -> Database { unimplemented!() }
}
pub open spec fn int_of(v: Option<RawV>) -> Option<u64> {
    match v { Some(RawV::Int32(i)) => Some(i as i64 as u64), Some(RawV::Int64(i)) => Some(i as u64), Some(_) => Some(0), None => None }
}
pub open spec fn filter_of(v: Option<RawV>) -> Seq<u8> { match v { Some(RawV::Doc(d)) => d, _ => empty_doc() } }
/// a reply with the first documents of a result; the rest stays with a cursor of a new id
pub open spec fn first_given(pre: HandleContext, post: HandleContext, reply: Seq<u8>, all: Seq<Seq<u8>>, size: int, single: bool, ns: Seq<char>) -> bool {
    if single {
        cursor_reply(reply, true, 0, as_docs(all), ns) && post.app_context.inner.cursors == pre.app_context.inner.cursors && post.app_context.heap == pre.app_context.heap
    } else {
        exists|id: i64, docs: Seq<RawV>| #[trigger] batch(all, post.app_context.left(id), docs)
            && (size >= 0 ==> docs.len() <= size) && (size < 0 ==> post.app_context.left(id).len() == 0)
            && cursor_reply(reply, true, id, docs, ns)
            && id != 0 && !pre.app_context.inner.cursors.m@.dom().contains(id)
            && post.app_context.inner.cursors.m@ == pre.app_context.inner.cursors.m@.insert(id, post.app_context.inner.cursors.m@[id])
            && !pre.app_context.heap@.dom().contains(post.app_context.inner.cursors.m@[id].id@)
            && post.app_context.heap@ == pre.app_context.heap@.insert(post.app_context.inner.cursors.m@[id].id@, post.app_context.left(id))
    }
}
//@rule the type of the documents: collection::<Document>( ~~> collection(
//@rule the type of the documents: collection::<bson::Document>( ~~> collection(
//@rule the type of the documents: from_slice::<Document>( ~~> from_slice(
//@rule the type of the documents: bson::from_slice::<bson::Document>( ~~> from_slice(
//@rule the type of the documents: bson::from_slice( ~~> from_slice(
//@rule std by definition: let $i_n = doc.get($e)?.map( |val| { $s_b } ); ~~> let $i_n = match doc.get($e)? { Some(val) => Some({ $s_b }), None => None };
//@rule a read of the database: find.run()? ~~> find.run(&*ctx.app_context)?
//@rule a read of the database: .aggregate(pipeline_arr).run()? ~~> .aggregate(pipeline_arr).run(&*ctx.app_context)?
//@rule a shared session: session.get_transaction() ~~> ctx.app_context.txn_of(&session)
//@rule a shared cursor: Arc::new(Mutex::new(cursor)) ~~> ctx.app_context.share(cursor)
//@rule a shared cursor: let mut cursor_guard = cursor.lock().unwrap(); ~~> let cursor_guard = ctx.app_context.lock(&cursor);
//@rule a shared cursor: &mut cursor_guard ~~> cursor_guard
//@rule loop over an array as an indexed loop: for (index, doc) in pipeline.into_iter().enumerate() { ~~> let mut zi: usize = 0; while zi < pipeline.len() { let doc = pipeline.item(zi); zi = zi + 1;
impl FindHandler {
//@fn src/polodb/handlers/find_handler.rs FindHandler::handle_single_batch
//@ret r
//@spec
    requires old(ctx).ok(),
    ensures r is Ok ==> cursor_reply(r->Ok_0.doc.bytes@, true, 0, as_docs(old(cursor).rest@), ns_of(db_name@, col_name@)) && Some(r->Ok_0.response_to) == old(ctx).message.request_id && r->Ok_0.wf()
        && r->Ok_0.payload@.len() + 16 <= 0x7fff_ffff,
        *final(ctx) == *old(ctx),
//@before Ok(reply)
    assert(built(reply.doc.bytes@, f2(("ok"@, RawV::Int32(1)), ("cursor"@, RawV::Doc(cursor_doc.bytes@)))));
//@end
}
impl Handler for FindHandler {
    open spec fn accepts(&self, doc: Seq<u8>) -> bool { present(doc, "find"@) }
//@fn src/polodb/handlers/find_handler.rs Handler for FindHandler::test
//@end
//@fn src/polodb/handlers/find_handler.rs Handler for FindHandler::handle
//@ret r
//@spec
    ensures r is Ok ==> old(ctx).scope() is Some && ({
            let doc = old(ctx).doc();
            first_given(*old(ctx), *final(ctx), r->Ok_0.doc.bytes@,
                found(old(ctx).app_context.events@, old(ctx).scope()->Some_0, str_of(field(doc, "find"@)), filter_of(field(doc, "filter"@)), int_of(field(doc, "limit"@)), int_of(field(doc, "skip"@))),
                size_of(doc), field(doc, "singleBatch"@) == Some(RawV::Boolean(true)), ns_of(str_of(field(doc, "$db"@)), str_of(field(doc, "find"@))))
        }),
//@before if single_batch
    let ghost pre = *old(ctx);
    let ghost all = cursor.rest@;
    assert(filter_of(field(pre.doc(), "filter"@)) == filter.bytes@);
    assert(all == found(pre.app_context.events@, pre.scope()->Some_0, str_of(field(pre.doc(), "find"@)), filter_of(field(pre.doc(), "filter"@)), int_of(field(pre.doc(), "limit"@)), int_of(field(pre.doc(), "skip"@))));
//@before Ok(reply)
    proof {
        let now = ctx.app_context.left(cursor_id);
        let docs = choose|docs: Seq<RawV>| #[trigger] batch(all, now, docs)
            && (batch_size >= 0 ==> docs.len() <= batch_size) && (batch_size < 0 ==> now.len() == 0)
            && built(cursor_doc.bytes@, f3(("firstBatch"@, RawV::Arr(docs)), ("id"@, RawV::Int64(cursor_id)), ("ns"@, RawV::Str(ns_of(db_name@, collection_name@)))));
        assert(batch(all, now, docs));
        assert(built(reply.doc.bytes@, f2(("ok"@, RawV::Int32(1)), ("cursor"@, RawV::Doc(cursor_doc.bytes@)))));
        assert(cursor_reply(reply.doc.bytes@, true, cursor_id, docs, ns_of(db_name@, collection_name@)));
        assert(ctx.app_context.heap@ =~= pre.app_context.heap@.insert(cursor.id@, now));
    }
//@end
}
/// the documents of an array
pub open spec fn docs_of(items: Seq<RawV>) -> Seq<Seq<u8>> { items.map_values(|v: RawV| match v { RawV::Doc(d) => d, _ => Seq::empty() }) }
pub open spec fn all_docs(items: Seq<RawV>) -> bool { forall|i: int| 0 <= i < items.len() ==> (#[trigger] items[i]) is Doc }
pub open spec fn arr_of(v: Option<RawV>) -> Seq<RawV> { match v { Some(RawV::Arr(a)) => a, _ => Seq::empty() } }
proof fn lemma_docs_push(items: Seq<RawV>, n: int)
    requires 0 <= n < items.len(), items[n] is Doc,
    ensures docs_of(items.take(n + 1)) == docs_of(items.take(n)).push(items[n]->Doc_0), items.take(0) == Seq::<RawV>::empty(), docs_of(Seq::<RawV>::empty()) == Seq::<Seq<u8>>::empty(),
{
    assert(docs_of(items.take(n + 1)) =~= docs_of(items.take(n)).push(items[n]->Doc_0));
    assert(items.take(0) =~= Seq::<RawV>::empty());
    assert(docs_of(Seq::<RawV>::empty()) =~= Seq::<Seq<u8>>::empty());
}
proof fn lemma_bytes_push(v: Seq<Document>, d: Document)
    ensures bytes_of(v.push(d)) == bytes_of(v).push(d.bytes@), bytes_of(Seq::<Document>::empty()) == Seq::<Seq<u8>>::empty(),
{
    assert(bytes_of(v.push(d)) =~= bytes_of(v).push(d.bytes@));
    assert(bytes_of(Seq::<Document>::empty()) =~= Seq::<Seq<u8>>::empty());
}
pub struct AggregateHandle {}
impl Handler for AggregateHandle {
    open spec fn accepts(&self, doc: Seq<u8>) -> bool { is_str(doc, "aggregate"@) }
//@fn src/polodb/handlers/aggregate_handler.rs Handler for AggregateHandle::test
//@end
#[verifier::loop_isolation(false)]
//@fn src/polodb/handlers/aggregate_handler.rs Handler for AggregateHandle::handle
//@ret r
//@spec
    ensures r is Ok ==> old(ctx).scope() is Some && ({
            let doc = old(ctx).doc();
            let name = str_of(field(doc, "aggregate"@));
            all_docs(arr_of(field(doc, "pipeline"@))) && first_given(*old(ctx), *final(ctx), r->Ok_0.doc.bytes@,
                computed(old(ctx).app_context.events@, old(ctx).scope()->Some_0, name, docs_of(arr_of(field(doc, "pipeline"@)))), -1, false, ns_of(str_of(field(doc, "$db"@)), name))
        }),
//@beforeloop 0
    proof {
        assert(bytes_of(Seq::<Document>::empty()) =~= docs_of(pipeline.items@.take(0)));
    }
//@loop 0
    invariant
        zi <= pipeline.items@.len(), *ctx == *old(ctx), bytes_of(pipeline_arr@) == docs_of(pipeline.items@.take(zi as int)), all_docs(pipeline.items@.take(zi as int)),
    decreases pipeline.items@.len() - zi,
//@loopstart 0
    let ghost arr0 = pipeline_arr@;
//@before pipeline_arr.push(d)
    proof { lemma_docs_push(pipeline.items@, zi - 1); lemma_bytes_push(arr0, d); }
//@afterloop 0
    proof { assert(pipeline.items@.take(zi as int) =~= pipeline.items@); }
//@before let cursor = ctx.app_context.share
    let ghost pre = *old(ctx);
    let ghost all = cursor.rest@;
    assert(all == computed(pre.app_context.events@, pre.scope()->Some_0, str_of(field(pre.doc(), "aggregate"@)), docs_of(arr_of(field(pre.doc(), "pipeline"@)))));
//@before Ok(reply)
    proof {
        let now = ctx.app_context.left(cursor_id);
        let docs = choose|docs: Seq<RawV>| #[trigger] batch(all, now, docs) && now.len() == 0
            && built(cursor_doc.bytes@, f3(("firstBatch"@, RawV::Arr(docs)), ("id"@, RawV::Int64(cursor_id)), ("ns"@, RawV::Str(ns_of(db_name@, col_name@)))));
        assert(batch(all, now, docs));
        assert(built(reply.doc.bytes@, f2(("ok"@, RawV::Int32(1)), ("cursor"@, RawV::Doc(cursor_doc.bytes@)))));
        assert(cursor_reply(reply.doc.bytes@, true, cursor_id, docs, ns_of(db_name@, col_name@)));
        assert(ctx.app_context.heap@ =~= pre.app_context.heap@.insert(cursor.id@, now));
    }
//@end
}

