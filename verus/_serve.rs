// handlers/mod.rs make_handlers, main.rs: which command answers a request, in which session, and the conversation of a connection.
/// Arc<dyn Handler>: one of the handlers, each with its own code
pub enum HandlerRef {
    Find(FindHandler), GetMore(GetMoreHandler), Kill(KillCursorsHandler), Aggregate(AggregateHandle), Insert(InsertHandler), Update(UpdateHandler), Delete(DeleteHandler),
    Hello(HelloHandler), Commit(CommitTransactionHandler), Abort(AbortTransactionHandler), Ping(PingHandler),
}
impl Clone for HandlerRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
/// a call through Arc<dyn Handler> is a call of the handler behind it
impl Handler for HandlerRef {
    open spec fn accepts(&self, doc: Seq<u8>) -> bool {
        match *self {
            HandlerRef::Find(h) => h.accepts(doc), HandlerRef::GetMore(h) => h.accepts(doc), HandlerRef::Kill(h) => h.accepts(doc), HandlerRef::Aggregate(h) => h.accepts(doc),
            HandlerRef::Insert(h) => h.accepts(doc), HandlerRef::Update(h) => h.accepts(doc), HandlerRef::Delete(h) => h.accepts(doc), HandlerRef::Hello(h) => h.accepts(doc),
            HandlerRef::Commit(h) => h.accepts(doc), HandlerRef::Abort(h) => h.accepts(doc), HandlerRef::Ping(h) => h.accepts(doc),
        }
    }
    fn test(&self, doc: &RawDocumentBuf) -> (r: Result<bool>) {
        match self {
            HandlerRef::Find(h) => h.test(doc), HandlerRef::GetMore(h) => h.test(doc), HandlerRef::Kill(h) => h.test(doc), HandlerRef::Aggregate(h) => h.test(doc),
            HandlerRef::Insert(h) => h.test(doc), HandlerRef::Update(h) => h.test(doc), HandlerRef::Delete(h) => h.test(doc), HandlerRef::Hello(h) => h.test(doc),
            HandlerRef::Commit(h) => h.test(doc), HandlerRef::Abort(h) => h.test(doc), HandlerRef::Ping(h) => h.test(doc),
        }
    }
    fn handle(&self, ctx: &mut HandleContext) -> (r: Result<Reply>) {
        match self {
            HandlerRef::Find(h) => h.handle(ctx), HandlerRef::GetMore(h) => h.handle(ctx), HandlerRef::Kill(h) => h.handle(ctx), HandlerRef::Aggregate(h) => h.handle(ctx),
            HandlerRef::Insert(h) => h.handle(ctx), HandlerRef::Update(h) => h.handle(ctx), HandlerRef::Delete(h) => h.handle(ctx), HandlerRef::Hello(h) => h.handle(ctx),
            HandlerRef::Commit(h) => h.handle(ctx), HandlerRef::Abort(h) => h.handle(ctx), HandlerRef::Ping(h) => h.handle(ctx),
        }
    }
}
//@rule a shared handler: Arc::new(FindHandler {}) ~~> HandlerRef::Find(FindHandler {})
//@rule a shared handler: Arc::new(GetMoreHandler {}) ~~> HandlerRef::GetMore(GetMoreHandler {})
//@rule a shared handler: Arc::new(KillCursorsHandler {}) ~~> HandlerRef::Kill(KillCursorsHandler {})
//@rule a shared handler: Arc::new(AggregateHandle) ~~> HandlerRef::Aggregate(AggregateHandle {})
//@rule a shared handler: Arc::new(InsertHandler {}) ~~> HandlerRef::Insert(InsertHandler {})
//@rule a shared handler: Arc::new(UpdateHandler {}) ~~> HandlerRef::Update(UpdateHandler {})
//@rule a shared handler: Arc::new(DeleteHandler {}) ~~> HandlerRef::Delete(DeleteHandler {})
//@rule a shared handler: Arc::new(HelloHandler {}) ~~> HandlerRef::Hello(HelloHandler {})
//@rule a shared handler: Arc::new(CommitTransactionHandler) ~~> HandlerRef::Commit(CommitTransactionHandler {})
//@rule a shared handler: Arc::new(AbortTransactionHandler) ~~> HandlerRef::Abort(AbortTransactionHandler {})
//@rule a shared handler: Arc::new(PingHandler {}) ~~> HandlerRef::Ping(PingHandler {})
//@rule a shared handler: Arc<CommitTransactionHandler> ~~> HandlerRef
//@rule a shared handler: Arc<AbortTransactionHandler> ~~> HandlerRef
impl FindHandler {
//@fn src/polodb/handlers/find_handler.rs FindHandler::new
//@ret r
//@spec
    ensures r is Find,
//@end
}
impl GetMoreHandler {
//@fn src/polodb/handlers/get_more_handler.rs GetMoreHandler::new
//@ret r
//@spec
    ensures r is GetMore,
//@end
}
impl KillCursorsHandler {
//@fn src/polodb/handlers/kill_cursors_handler.rs KillCursorsHandler::new
//@ret r
//@spec
    ensures r is Kill,
//@end
}
impl AggregateHandle {
//@fn src/polodb/handlers/aggregate_handler.rs AggregateHandle::new
//@ret r
//@spec
    ensures r is Aggregate,
//@end
}
impl InsertHandler {
//@fn src/polodb/handlers/insert_handler.rs InsertHandler::new
//@ret r
//@spec
    ensures r is Insert,
//@end
}
impl UpdateHandler {
//@fn src/polodb/handlers/update_handler.rs UpdateHandler::new
//@ret r
//@spec
    ensures r is Update,
//@end
}
impl DeleteHandler {
//@fn src/polodb/handlers/delete_handler.rs DeleteHandler::new
//@ret r
//@spec
    ensures r is Delete,
//@end
}
impl HelloHandler {
//@fn src/polodb/handlers/hello_handler.rs HelloHandler::new
//@ret r
//@spec
    ensures r is Hello,
//@end
}
impl CommitTransactionHandler {
//@fn src/polodb/handlers/commit_transaction.rs CommitTransactionHandler::new
//@ret r
//@spec
    ensures r is Commit,
//@end
}
impl AbortTransactionHandler {
//@fn src/polodb/handlers/abort_transaction.rs AbortTransactionHandler::new
//@ret r
//@spec
    ensures r is Abort,
//@end
}
impl PingHandler {
//@fn src/polodb/handlers/ping_handler.rs PingHandler::new
//@ret r
//@spec
    ensures r is Ping,
//@end
}
/// every command has its handler
pub open spec fn all_handlers(v: Seq<HandlerRef>) -> bool {
    (exists|i: int| 0 <= i < v.len() && #[trigger] v[i] is Find) && (exists|i: int| 0 <= i < v.len() && #[trigger] v[i] is GetMore) && (exists|i: int| 0 <= i < v.len() && #[trigger] v[i] is Kill)
        && (exists|i: int| 0 <= i < v.len() && #[trigger] v[i] is Aggregate) && (exists|i: int| 0 <= i < v.len() && #[trigger] v[i] is Insert) && (exists|i: int| 0 <= i < v.len() && #[trigger] v[i] is Update)
        && (exists|i: int| 0 <= i < v.len() && #[trigger] v[i] is Delete) && (exists|i: int| 0 <= i < v.len() && #[trigger] v[i] is Hello) && (exists|i: int| 0 <= i < v.len() && #[trigger] v[i] is Commit)
        && (exists|i: int| 0 <= i < v.len() && #[trigger] v[i] is Abort) && (exists|i: int| 0 <= i < v.len() && #[trigger] v[i] is Ping)
}
//@fn src/polodb/handlers/mod.rs make_handlers
//@ret r
//@spec
    ensures all_handlers(r@),
//@end

// ---- sessions ----
/// the session id a value is: a binary of 16 bytes
pub open spec fn session_id(b: Bson) -> Option<Seq<u8>> { match b { Bson::Binary(x) => if x.bytes@.len() == 16 { Some(x.bytes@) } else { None }, _ => None } }
impl Uuid {
    #[verifier::external_body]
    pub fn of(b: &[u8]) -> (r: Uuid) requires b@.len() == 16, ensures r.b@ == b@, { unimplemented!() }
}
//@rule a session id: let mut bytes: [u8; 16] = [0u8; 16]; bytes.copy_from_slice($e); Some(uuid::Uuid::from_bytes(bytes)) ~~> Some(Uuid::of($e))
//@rule a path: uuid::Uuid ~~> Uuid
//@fn src/polodb/utils.rs uuid_from_bson
//@ret ret
//@spec
    ensures (match ret { Some(u) => session_id(*r) == Some(u.b@), None => session_id(*r) is None }),
//@end
/// the session a request names
pub open spec fn lsid(doc: Seq<u8>) -> Option<Seq<u8>> {
    match field(doc, "lsid"@) { Some(RawV::Doc(d)) => (match bget(d, "id"@) { Some(b) => session_id(b), None => None }), _ => None }
}
pub open spec fn starts(doc: Seq<u8>) -> bool { truly(field(doc, "startTransaction"@), false) }
/// the open transaction of a session
pub open spec fn open_txn(app: AppContext, id: Seq<u8>) -> Option<int> {
    if app.inner.session_ctx.m@.dom().contains(id) { app.ses@[app.inner.session_ctx.m@[id].id@] } else { None }
}
/// the scope a request acts in: a transaction of its own if it starts one, else that of its session if one is open, else none
pub open spec fn acts_in(pre: AppContext, doc: Seq<u8>, sc: Scope) -> bool {
    if starts(doc) { sc is Txn && !pre.started@.contains(sc->Txn_0) }
    else { match lsid(doc) { Some(id) => (match open_txn(pre, id) { Some(t) => sc == Scope::Txn(t), None => sc == Scope::Direct }), None => sc == Scope::Direct } }
}
pub open spec fn all_in(pre: Seq<Ev>, post: Seq<Ev>, sc: Scope) -> bool { forall|i: int| pre.len() <= i < post.len() ==> (#[trigger] post[i]).scope == sc }
/// a session comes to hold the transaction its request started, and loses it when that is committed or rolled back; nothing else changes a session
pub open spec fn session_step(pre: AppContext, post: AppContext, doc: Seq<u8>, id: Seq<u8>) -> bool {
    let now = open_txn(post, id);
    now == open_txn(pre, id) || (lsid(doc) == Some(id) && (match now {
        Some(t) => starts(doc) && !pre.started@.contains(t) && all_in(pre.events@, post.events@, Scope::Txn(t)),
        None => post.events@.len() == pre.events@.len() + 1 && is_end(post.events@.last().op) && (!starts(doc) ==> open_txn(pre, id) is Some && post.events@.last().scope == Scope::Txn(open_txn(pre, id)->Some_0)),
    }))
}
pub open spec fn acted(pre: AppContext, post: AppContext, doc: Seq<u8>) -> bool {
    pre.events@.len() <= post.events@.len() && post.events@.take(pre.events@.len() as int) =~= pre.events@
        && (post.events@.len() == pre.events@.len() || exists|sc: Scope| #[trigger] all_in(pre.events@, post.events@, sc) && acts_in(pre, doc, sc))
        && forall|id: Seq<u8>| #[trigger] session_step(pre, post, doc, id)
}
pub open spec fn is_failure(doc: Seq<u8>) -> bool { exists|f: Seq<F>| #[trigger] built(doc, f) && f.len() > 1 && f[0] == ("ok"@, RawV::Int32(0)) && f[1].0 == "errmsg"@ }
pub open spec fn answers(m: Message, p: Reply) -> bool {
    Some(p.response_to) == m.request_id && p.wf() && p.payload@.len() + 16 <= 0x7fff_ffff && (is_success(p.doc.bytes@) || is_failure(p.doc.bytes@))
}
//@rule exclusive access: (ctx: AppContext, ~~> (ctx: &mut AppContext,
//@rule exclusive access: utils::truly_value_for_bson_ref( ~~> truly_value_for_bson_ref(
//@rule a path: wire::Message ~~> Message
//@rule a handle of the database: ctx.db().start_transaction() ~~> ctx.start_transaction()
//@rule a shadowing name renamed: let ctx = HandleContext { app_context: ctx.clone(), $e }; ~~> let mut hctx = HandleContext { app_context: ctx, $e };
//@rule a shadowing name renamed: handler.handle(&ctx) ~~> { let zr = handler.handle(&mut hctx); zr }
//@fn src/polodb/main.rs make_reply
//@rw std by definition: ctx.get_session(&id).filter(|session| session.get_transaction().is_some()) ~~> match ctx.get_session(&id) { Some(session) => if ctx.txn_of(&session).is_some() { Some(session) } else { None }, None => None }
//@ret r
//@spec
    requires old(ctx).wf(), old(ctx).inner.next_cursor_id.v < i64::MAX - 1, message.request_id is Some,
    ensures final(ctx).wf(), r is Ok ==> answers(*message, r->Ok_0), acted(*old(ctx), *final(ctx), message.document_payload.bytes@),
//@after let txn = ctx.start_transaction()?;
    let ghost a1 = *ctx;
//@before let mut hctx
    let ghost a0 = *old(ctx);
    let ghost pre = *ctx;
    let ghost sess = session;
    let ghost doc = message.document_payload.bytes@;
    proof {
        if !starts(doc) { assert(pre == a0); }
        assert(sess is Some && !starts(doc) ==> lsid(doc) is Some && open_txn(a0, lsid(doc)->Some_0) == pre.ses@[sess->Some_0.id@] && pre.ses@[sess->Some_0.id@] is Some);
        assert(starts(doc) ==> sess is Some && lsid(doc) is Some && pre.ses@[sess->Some_0.id@] is Some && !a0.started@.contains(pre.ses@[sess->Some_0.id@]->Some_0));
    }
//@after let zr = handler.handle(&mut hctx);
    proof {
        let post = *hctx.app_context;
        let sc = scope_of(pre, sess)->Some_0;
        assert(all_in(a0.events@, post.events@, sc));
        assert(acts_in(a0, doc, sc));
        assert forall|id: Seq<u8>| #[trigger] session_step(a0, post, doc, id) by {
            if lsid(doc) != Some(id) { assert(open_txn(pre, id) == open_txn(a0, id)); assert(open_txn(post, id) == open_txn(pre, id)); }
        }
    }
//@end
impl Error { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
/// a reply to this message was sent: its header, announcing its length, and its payload
pub open spec fn replied(pre: Seq<u8>, post: Seq<u8>, m: Message) -> bool {
    exists|p: Reply, h: Seq<u8>| #[trigger] is_header(Header { length: (16 + p.payload@.len()) as i32, request_id: 0, response_to: p.response_to, op_code: OpCode::Message }, h)
        && answers(m, p) && post == pre + h + p.payload@
}
//@rule one stream type: fn handle_message<W: AsyncWrite + Unpin>(ctx: &mut AppContext, conn_id: u64, stream: &mut W, ~~> fn handle_message(ctx: &mut AppContext, conn_id: u64, stream: &mut Stream,
//@rule one stream type: fn handle_stream<W: AsyncWrite + AsyncRead + Unpin + Send>(ctx: &mut AppContext, conn_id: u64, mut stream: W) ~~> fn handle_stream(ctx: &mut AppContext, conn_id: u64, stream: &mut Stream)
//@rule one stream type: &mut stream, ~~> stream,
//@rule exclusive access: let ctx = ctx.clone(); ~~>
//@rule logging dropped: debug!($e); ~~>
//@fn src/polodb/main.rs handle_message
//@ret r
//@spec
    requires old(ctx).wf(), old(ctx).inner.next_cursor_id.v < i64::MAX - 1, message.request_id is Some,
    ensures
        final(ctx).wf(), acted(*old(ctx), *final(ctx), message.document_payload.bytes@),
        r is Ok ==> replied(old(stream).sent@, final(stream).sent@, message),
        final(stream).rest == old(stream).rest,
//@end
/// the replies of a conversation: one per message, in order
pub open spec fn talk(before: Seq<u8>, now: Seq<u8>, ms: Seq<Message>) -> bool
    decreases ms.len(),
{ if ms.len() == 0 { now == before } else { exists|mid: Seq<u8>| #[trigger] replied(mid, now, ms.last()) && talk(before, mid, ms.drop_last()) } }
/// fewer than 2^63 cursors are opened in the life of a server (assumed)
#[verifier::external_body]
fn few_cursors(ctx: &AppContext) ensures ctx.inner.next_cursor_id.v < i64::MAX - 1, { }
//@const src/polodb/main.rs MAX_MESSAGE_SIZE
#[verifier::exec_allows_no_decreases_clause]
//@fn src/polodb/main.rs handle_stream
//@ret r
//@spec
    requires old(ctx).wf(),
//@start
    let ghost sent0 = stream.sent@;
    let ghost mut ms = Seq::<Message>::empty();
//@loop 0
    invariant
        ctx.wf(), talk(sent0, stream.sent@, ms), forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).request_id is Some,
//@loopstart 0
    few_cursors(ctx);
    let ghost mid = stream.sent@;
//@before handle_message(
    let ghost msg = message;
//@loopend 0
    proof { let ms0 = ms; ms = ms.push(msg); assert(ms.drop_last() =~= ms0); assert(replied(mid, stream.sent@, ms.last())); }
//@end
/// C19: consecutive batches of a cursor make one longer batch, and when nothing is left they are the whole result, each document once and in order
proof fn c19_batches(all: Seq<Seq<u8>>, rest1: Seq<Seq<u8>>, rest2: Seq<Seq<u8>>, d1: Seq<RawV>, d2: Seq<RawV>)
    requires batch(all, rest1, d1), batch(rest1, rest2, d2),
    ensures batch(all, rest2, d1 + d2), rest2.len() == 0 ==> d1 + d2 == as_docs(all),
{
    let n = d1.len() as int; let m = d2.len() as int;
    assert(d1 + d2 =~= as_docs(all.take(n + m)));
    assert(rest2 =~= all.skip(n + m));
    if rest2.len() == 0 { assert(all.take(n + m) =~= all); }
}
/// C21: requests of different sessions with open transactions, and requests without one, act in different scopes
proof fn c21_apart(app: AppContext, a: Seq<u8>, b: Seq<u8>, sa: Scope, sb: Scope)
    requires
        app.wf(), acts_in(app, a, sa), acts_in(app, b, sb), !starts(a), !starts(b),
        lsid(a) is Some, open_txn(app, lsid(a)->Some_0) is Some, lsid(b) != lsid(a),
    ensures sa is Txn, sa != sb,
{
    let u = lsid(a)->Some_0;
    let m = app.inner.session_ctx.m@;
    assert(m.dom().contains(u));
    assert(app.ses@.dom().contains(m[u].id@));
    if lsid(b) is Some {
        let v = lsid(b)->Some_0;
        if open_txn(app, v) is Some { assert(m.dom().contains(v)); assert(app.ses@.dom().contains(m[v].id@)); }
    }
}
/// C21: a transaction a request starts is one no session held
proof fn c21_fresh(app: AppContext, a: Seq<u8>, sa: Scope, v: Seq<u8>)
    requires app.wf(), acts_in(app, a, sa), starts(a), open_txn(app, v) is Some,
    ensures sa != Scope::Txn(open_txn(app, v)->Some_0),
{
    let m = app.inner.session_ctx.m@;
    assert(m.dom().contains(v));
    assert(app.ses@.dom().contains(m[v].id@));
}
