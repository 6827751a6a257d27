// app_context.rs, session_context.rs, utils.rs: open cursors and sessions.
// Locks give exclusive access; what is shared behind an Arc is a reference into `heap` or `ses`.
pub enum Scope { Direct, Txn(int) }
pub enum Op { Insert(Seq<Seq<u8>>), Update(Seq<u8>, Seq<u8>, bool, bool), Delete(Seq<u8>, bool), Commit, Rollback }
/// what a request did to the database: in which scope, to which collection, and how many documents that touched
pub struct Ev { pub scope: Scope, pub coll: Seq<char>, pub op: Op, pub n: nat, pub m: nat }
pub struct CursorRef { pub id: Ghost<int> }
impl Clone for CursorRef { fn clone(&self) -> (r: Self) ensures r == *self, { CursorRef { id: Ghost(self.id@) } } }
pub struct Transaction { pub id: Ghost<int> }
impl Clone for Transaction { fn clone(&self) -> (r: Self) ensures r == *self, { Transaction { id: Ghost(self.id@) } } }
/// atomics under sequential execution
pub struct Counter { pub v: i64 }
pub enum Ordering { Relaxed }
impl Counter {
    #[verifier::external_body]
    pub fn fetch_add(&mut self, n: i64, o: Ordering) -> (r: i64) requires old(self).v + n <= i64::MAX, ensures r == old(self).v, final(self).v == old(self).v + n, { unimplemented!() }
}
pub struct CursorMap { pub m: Ghost<Map<i64, CursorRef>> }
impl CursorMap {
    #[verifier::external_body]
    pub fn insert(&mut self, k: i64, v: CursorRef) -> (r: Option<CursorRef>) ensures final(self).m@ == old(self).m@.insert(k, v), { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &i64) -> (r: Option<CursorRef>) ensures final(self).m@ == old(self).m@.remove(*k), { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &i64) -> (r: Option<&CursorRef>)
        ensures (match r { Some(c) => self.m@.dom().contains(*k) && self.m@[*k] == *c, None => !self.m@.dom().contains(*k) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).m@ == Map::<i64, CursorRef>::empty(), { unimplemented!() }
}
pub struct Uuid { pub b: Ghost<Seq<u8>> }
/// SessionContext: a reference to the transaction it may hold
pub struct SessionContext { pub id: Ghost<int> }
impl Clone for SessionContext { fn clone(&self) -> (r: Self) ensures r == *self, { SessionContext { id: Ghost(self.id@) } } }
pub struct SessionMap { pub m: Ghost<Map<Seq<u8>, SessionContext>> }
impl SessionMap {
    #[verifier::external_body]
    pub fn insert(&mut self, k: Uuid, v: SessionContext) -> (r: Option<SessionContext>) ensures final(self).m@ == old(self).m@.insert(k.b@, v), { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Uuid) -> (r: Option<&SessionContext>)
        ensures (match r { Some(c) => self.m@.dom().contains(k.b@) && self.m@[k.b@] == *c, None => !self.m@.dom().contains(k.b@) }),
    { unimplemented!() }
}
pub struct AppContextInner { pub cursors: CursorMap, pub next_cursor_id: Counter, pub session_ctx: SessionMap, pub handlers: Vec<HandlerRef> }
/// heap: what each shared cursor has yet to give; ses: the transaction each shared session holds; events: what was done to the database
pub struct AppContext {
    pub inner: AppContextInner, pub heap: Ghost<Map<int, Seq<Seq<u8>>>>, pub ses: Ghost<Map<int, Option<int>>>, pub events: Ghost<Seq<Ev>>, pub started: Ghost<Set<int>>,
}
impl AppContext {
    /// ids of open cursors are positive and below the next one, and each denotes a cursor of its own
    pub open spec fn wf(&self) -> bool {
        let m = self.inner.cursors.m@;
        1 <= self.inner.next_cursor_id.v < i64::MAX
            && (forall|k: i64| #[trigger] m.dom().contains(k) ==> 1 <= k < self.inner.next_cursor_id.v && self.heap@.dom().contains(m[k].id@))
            && (forall|k: i64, l: i64| #![trigger m.dom().contains(k), m.dom().contains(l)] m.dom().contains(k) && m.dom().contains(l) && k != l ==> m[k].id@ != m[l].id@)
            && self.wf_sessions()
    }
    /// each session is known by one id and holds a transaction of its own
    pub open spec fn wf_sessions(&self) -> bool {
        let m = self.inner.session_ctx.m@;
        (forall|u: Seq<u8>| #[trigger] m.dom().contains(u) ==> self.ses@.dom().contains(m[u].id@))
            && (forall|u: Seq<u8>, v: Seq<u8>| #![trigger m.dom().contains(u), m.dom().contains(v)] m.dom().contains(u) && m.dom().contains(v) && u != v ==> m[u].id@ != m[v].id@)
            && (forall|s: int| #[trigger] self.ses@.dom().contains(s) && self.ses@[s] is Some ==> self.started@.contains(self.ses@[s]->Some_0))
            && (forall|s: int, t: int| #![trigger self.ses@.dom().contains(s), self.ses@.dom().contains(t)] self.ses@.dom().contains(s) && self.ses@.dom().contains(t) && s != t && self.ses@[s] is Some ==> self.ses@[s] != self.ses@[t])
    }
    pub open spec fn same_sessions(&self, o: &AppContext) -> bool { self.inner.session_ctx == o.inner.session_ctx && self.ses == o.ses && self.started == o.started }
    pub open spec fn same_cursors(&self, o: &AppContext) -> bool { self.inner.cursors == o.inner.cursors && self.heap == o.heap && self.inner.next_cursor_id == o.inner.next_cursor_id }
    pub open spec fn same_handlers(&self, o: &AppContext) -> bool { self.inner.handlers == o.inner.handlers }
    /// what an open cursor has yet to give
    pub open spec fn left(&self, id: i64) -> Seq<Seq<u8>> { self.heap@[self.inner.cursors.m@[id].id@] }
    /// Arc::new(Mutex::new(cursor))
    #[verifier::external_body]
    pub fn share(&mut self, c: ClientCursor) -> (r: CursorRef)
        ensures
            !old(self).heap@.dom().contains(r.id@), final(self).heap@ == old(self).heap@.insert(r.id@, c.rest@),
            final(self).inner == old(self).inner, final(self).events == old(self).events, final(self).ses == old(self).ses, final(self).started == old(self).started,
    { unimplemented!() }
    /// the guard of a shared cursor: what is done through it is done to the cursor
    #[verifier::external_body]
    pub fn lock<'a>(&'a mut self, c: &CursorRef) -> (r: &'a mut ClientCursor)
        requires old(self).heap@.dom().contains(c.id@),
        ensures
            r.rest@ == old(self).heap@[c.id@],
            final(self).heap@ == old(self).heap@.insert(c.id@, final(r).rest@),
            final(self).inner == old(self).inner, final(self).events == old(self).events, final(self).ses == old(self).ses, final(self).started == old(self).started,
    { unimplemented!() }
    /// SessionContext::new: a session of its own holding the transaction
    #[verifier::external_body]
    pub fn new_session(&mut self, txn: Transaction) -> (r: SessionContext)
        ensures
            !old(self).ses@.dom().contains(r.id@), final(self).ses@ == old(self).ses@.insert(r.id@, Some(txn.id@)),
            final(self).inner == old(self).inner, final(self).heap == old(self).heap, final(self).events == old(self).events, final(self).started == old(self).started,
    { unimplemented!() }
    /// SessionContext::get_transaction
    #[verifier::external_body]
    pub fn txn_of(&self, s: &SessionContext) -> (r: Option<Transaction>)
        requires self.ses@.dom().contains(s.id@),
        ensures (match r { Some(t) => self.ses@[s.id@] == Some(t.id@), None => self.ses@[s.id@] is None }),
    { unimplemented!() }
    /// SessionContext::clear_transaction
    #[verifier::external_body]
    pub fn clear_txn(&mut self, s: &SessionContext)
        requires old(self).ses@.dom().contains(s.id@),
        ensures
            final(self).ses@ == old(self).ses@.insert(s.id@, None),
            final(self).inner == old(self).inner, final(self).heap == old(self).heap, final(self).events == old(self).events, final(self).started == old(self).started,
    { unimplemented!() }
    /// Database::start_transaction
    #[verifier::external_body]
    pub fn start_transaction(&mut self) -> (r: Result<Transaction>)
        ensures
            final(self).inner == old(self).inner, final(self).heap == old(self).heap, final(self).events == old(self).events, final(self).ses == old(self).ses,
            (match r { Ok(t) => !old(self).started@.contains(t.id@) && final(self).started@ == old(self).started@.insert(t.id@), Err(_) => final(self).started == old(self).started }),
    { unimplemented!() }
//@rule exclusive access: (&self, cursor: Arc<Mutex<ClientCursor<Document>>>) ~~> (&mut self, cursor: CursorRef)
//@rule exclusive access: (&self, cursor_ids: &[i64]) ~~> (&mut self, cursor_ids: &[i64])
//@rule exclusive access: (&self, uuid: Uuid, txn: Transaction) ~~> (&mut self, uuid: Uuid, txn: Transaction)
//@rule exclusive access: let mut cursors = self.inner.cursors.lock().unwrap(); ~~> let cursors = &mut self.inner.cursors;
//@rule exclusive access: let cursors = self.inner.cursors.lock().unwrap(); ~~> let cursors = &self.inner.cursors;
//@rule exclusive access: let mut session_ctx = self.inner.session_ctx.lock().unwrap(); ~~> let session_ctx = &mut self.inner.session_ctx;
//@rule exclusive access: let session_ctx = self.inner.session_ctx.lock().unwrap(); ~~> let session_ctx = &self.inner.session_ctx;
//@rule exclusive access: let handlers = self.inner.handlers.lock().unwrap(); ~~> let handlers = &self.inner.handlers;
//@rule a shared cursor: Arc<Mutex<ClientCursor<Document>>> ~~> CursorRef
//@rule a shared handler: Arc<dyn Handler> ~~> HandlerRef
//@rule a shared session: SessionContext::new(txn) ~~> self.new_session(txn)
//@rule a path: std::sync::atomic::Ordering::Relaxed ~~> Ordering::Relaxed
//@rule loop over a slice as an indexed loop: for $i_c in cursor_ids { ~~> let mut zi: usize = 0; while zi < cursor_ids.len() { let $i_c = &cursor_ids[zi]; zi = zi + 1;
//@rule loop over a slice as an indexed loop: for $i_c in handlers.iter() { ~~> let mut zi: usize = 0; while zi < handlers.len() { let $i_c = &handlers[zi]; zi = zi + 1;
//@fn src/polodb/app_context.rs AppContext::save_cursor
//@ret r
//@spec
    requires
        old(self).wf(), old(self).inner.next_cursor_id.v < i64::MAX - 1, old(self).heap@.dom().contains(cursor.id@),
        forall|k: i64| #[trigger] old(self).inner.cursors.m@.dom().contains(k) ==> old(self).inner.cursors.m@[k].id@ != cursor.id@,
    ensures
        final(self).wf(), r > 0, !old(self).inner.cursors.m@.dom().contains(r), final(self).inner.cursors.m@ == old(self).inner.cursors.m@.insert(r, cursor),
        final(self).heap == old(self).heap, final(self).same_sessions(old(self)), final(self).same_handlers(old(self)), final(self).events == old(self).events,
        r >= old(self).inner.next_cursor_id.v,
        final(self).inner.next_cursor_id.v > r,
//@end
//@fn src/polodb/app_context.rs AppContext::get_cursor
//@ret r
//@spec
    ensures (match r { Some(c) => self.inner.cursors.m@.dom().contains(cursor_id) && self.inner.cursors.m@[cursor_id] == c, None => !self.inner.cursors.m@.dom().contains(cursor_id) }),
//@end
//@fn src/polodb/app_context.rs AppContext::remove_cursor
//@ret r
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).inner.cursors.m@ == old(self).inner.cursors.m@.remove_keys(cursor_ids@.to_set()),
        final(self).heap == old(self).heap, final(self).same_sessions(old(self)), final(self).same_handlers(old(self)), final(self).events == old(self).events,
        final(self).inner.next_cursor_id == old(self).inner.next_cursor_id,
//@start
    let ghost m0 = self.inner.cursors.m@;
    assert(cursor_ids@.take(0).to_set() =~= Set::<i64>::empty());
    assert(m0.remove_keys(Set::<i64>::empty()) =~= m0);
//@loopstart 0
    proof {
        let t = cursor_ids@.take(zi as int);
        let u = cursor_ids@.take(zi + 1);
        assert(u =~= t.push(cursor_ids@[zi as int]));
        assert(u.to_set() =~= t.to_set().insert(cursor_ids@[zi as int])) by {
            assert forall|k: i64| u.to_set().contains(k) == t.to_set().insert(cursor_ids@[zi as int]).contains(k) by {
                if t.contains(k) { let i = choose|i: int| 0 <= i < t.len() && t[i] == k; assert(u[i] == k); }
                if k == cursor_ids@[zi as int] { assert(u[zi as int] == k); }
            }
        }
        assert(m0.remove_keys(u.to_set()) =~= m0.remove_keys(t.to_set()).remove(cursor_ids@[zi as int]));
    }
//@afterloop 0
    proof { assert(cursor_ids@.take(zi as int) =~= cursor_ids@); }
//@loop 0
    invariant
        zi <= cursor_ids.len(), m0 == old(self).inner.cursors.m@,
        cursors.m@ == m0.remove_keys(cursor_ids@.take(zi as int).to_set()),
    decreases cursor_ids.len() - zi,
//@end
//@fn src/polodb/app_context.rs AppContext::create_session
//@ret r
//@spec
    requires
        old(self).wf(), old(self).started@.contains(txn.id@),
        forall|s: int| #[trigger] old(self).ses@.dom().contains(s) ==> old(self).ses@[s] != Some(txn.id@),
    ensures
        final(self).wf(), final(self).same_cursors(old(self)), final(self).same_handlers(old(self)), final(self).events == old(self).events,
        !old(self).ses@.dom().contains(r.id@), final(self).ses@ == old(self).ses@.insert(r.id@, Some(txn.id@)),
        final(self).inner.session_ctx.m@ == old(self).inner.session_ctx.m@.insert(uuid.b@, r), final(self).started == old(self).started,
//@end
//@fn src/polodb/app_context.rs AppContext::get_handlers
//@ret r
//@spec
    ensures (match r {
        Ok(Some(h)) => exists|i: int| 0 <= i < self.inner.handlers@.len() && h == #[trigger] self.inner.handlers@[i] && h.accepts(doc.bytes@) && forall|j: int| 0 <= j < i ==> !(#[trigger] self.inner.handlers@[j]).accepts(doc.bytes@),
        Ok(None) => forall|j: int| 0 <= j < self.inner.handlers@.len() ==> !(#[trigger] self.inner.handlers@[j]).accepts(doc.bytes@),
        Err(_) => true,
    }),
//@loop 0
    invariant zi <= handlers@.len(), handlers == &self.inner.handlers, forall|j: int| 0 <= j < zi ==> !(#[trigger] handlers@[j]).accepts(doc.bytes@),
    decreases handlers@.len() - zi,
//@end
//@fn src/polodb/app_context.rs AppContext::get_session
//@ret r
//@spec
    ensures (match r { Some(s) => self.inner.session_ctx.m@.dom().contains(uuid.b@) && self.inner.session_ctx.m@[uuid.b@] == s, None => !self.inner.session_ctx.m@.dom().contains(uuid.b@) }),
//@end
}
/// ClientCursor: what it has yet to give, and where it stands
pub struct ClientCursor { pub rest: Ghost<Seq<Seq<u8>>>, pub current: Ghost<Option<Seq<u8>>> }
impl ClientCursor {
    #[verifier::external_body]
    pub fn advance(&mut self) -> (r: Result<bool>)
        ensures (match r {
            Ok(true) => old(self).rest@.len() > 0 && final(self).rest@ == old(self).rest@.skip(1) && final(self).current@ == Some(old(self).rest@[0]),
            Ok(false) => old(self).rest@.len() == 0 && final(self).rest@ == old(self).rest@,
            Err(_) => true,
        }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn deserialize_current(&self) -> (r: Result<Document>) ensures r is Ok ==> self.current@ == Some(r->Ok_0.bytes@), { unimplemented!() }
}
