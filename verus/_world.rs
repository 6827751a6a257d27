// The stored data, the transactions open on it, and the handles of a transaction: rocksdb_transaction.rs, transaction_inner.rs,
// transaction.rs. What RocksDB's C functions do is assumed (`rocksdb_transaction_*` below); locks give exclusive access.
//@macro src/polodb_core/db/rocksdb_transaction.rs check_err
//@rule text of the C error dropped: std::ffi::CStr::from_ptr($e) ~~> $e.text()
//@rule text of the C error dropped: .to_str().expect($m) ~~> .to_str()
//@rule text of the C error dropped: str_slice.to_owned() ~~> str_slice
//@rule error without its text: crate::Error::RocksDbErr($x) ~~> Error::RocksDbErr
//@rule path: crate::Result ~~> Result
//@rule path: crate::Error ~~> Error
//@rule no error yet: let mut err: *mut c_char = ptr::null_mut(); ~~> let mut err = ErrPtr::null();
//@rule bytes for C: $i_k.as_ptr().cast::<c_char>() ~~> $i_k
//@rule C function: ffi::$i_f( ~~> $i_f(w,
//@rule unsafe block: unsafe { $s_b } ~~> { $s_b }
//@rule exclusive access: .lock().unwrap() ~~> .guard()
//@rule the world: .set( ~~> .set(w,
//@rule the world: .put( ~~> .put(w,
//@rule the world: .delete( ~~> .delete(w,
//@rule the world: .commit( ~~> .commit(w,
//@rule the world: .rollback( ~~> .rollback(w,
//@rule the world: .set_savepoint( ~~> .set_savepoint(w,
//@rule the world: .rollback_to_savepoint( ~~> .rollback_to_savepoint(w,
//@rule the world: .auto_commit( ~~> .auto_commit(w,
//@rule the world: .atomically( ~~> .atomically(w,
pub type KV = spec_fn(Seq<u8>) -> Option<Seq<u8>>;
/// what a transaction has written: Some(Some(value)), or Some(None) for a deleted key
pub type Ov = spec_fn(Seq<u8>) -> Option<Option<Seq<u8>>>;
pub open spec fn over(d: KV, o: Ov) -> KV { |k: Seq<u8>| match o(k) { Some(v) => v, None => d(k) } }
pub open spec fn nothing() -> Ov { |k: Seq<u8>| None }
pub open spec fn wrote(o: Ov, k: Seq<u8>, v: Option<Seq<u8>>) -> Ov { |j: Seq<u8>| if j == k { Some(v) } else { o(j) } }
pub proof fn lemma_over_nothing(d: KV)
    ensures over(d, nothing()) == d,
{ assert(over(d, nothing()) =~= d); }

pub struct World { pub disk: Ghost<KV>, pub writes: Ghost<Map<int, Ov>>, pub saves: Ghost<Map<int, Seq<Ov>>> }
impl World {
    /// what the transaction t sees
    pub open spec fn view(&self, t: int) -> KV { over(self.disk@, self.writes@[t]) }
}
/// nothing but the transaction t was touched
pub open spec fn apart(a: World, b: World, t: int) -> bool {
    a.disk == b.disk && (forall|j: int| j != t ==> #[trigger] a.writes@[j] == b.writes@[j] && a.saves@[j] == b.saves@[j])
}
/// nothing but the writes of the transaction t was touched
pub open spec fn stays(a: World, b: World, t: int) -> bool { apart(a, b, t) && a.saves@[t] == b.saves@[t] }
/// as stays, or the transaction t was committed
pub open spec fn settles(a: World, b: World, t: int) -> bool {
    (forall|j: int| j != t ==> #[trigger] a.writes@[j] == b.writes@[j] && a.saves@[j] == b.saves@[j])
        && ((b.disk == a.disk && b.writes@[t] == a.writes@[t]) || (b.disk@ == over(a.disk@, a.writes@[t]) && b.writes@[t] == nothing()))
}

/// settling twice is settling, if the first left what the transaction sees
pub broadcast proof fn lemma_settles(a: World, b: World, c: World, t: int)
    requires #[trigger] settles(a, b, t), #[trigger] settles(b, c, t), a.view(t) == b.view(t),
    ensures settles(a, c, t),
{
    lemma_over_nothing(b.disk@);
    if b.disk == a.disk && c.disk != b.disk { assert(c.disk@ == b.view(t)); }
    assert forall|j: int| j != t implies #[trigger] a.writes@[j] == c.writes@[j] && a.saves@[j] == c.saves@[j] by { assert(a.writes@[j] == b.writes@[j]); }
}

pub struct Text { x: u8 }
pub struct ErrPtr { pub set: Ghost<bool> }
impl ErrPtr {
    pub fn null() -> (r: ErrPtr) ensures !r.set@, { ErrPtr { set: Ghost(false) } }
    #[verifier::external_body]
    pub fn is_null(&self) -> (r: bool) ensures r == !self.set@, { unimplemented!() }
    #[verifier::external_body]
    pub fn text(&self) -> Text { unimplemented!() }
}
impl Text {
    #[verifier::external_body]
    pub fn to_str(&self) -> Text { unimplemented!() }
}
pub struct TxnPtr { pub id: Ghost<int> }
impl Clone for TxnPtr { fn clone(&self) -> (r: Self) ensures r == *self, { TxnPtr { id: Ghost(self.id@) } } }
impl Copy for TxnPtr { }

#[verifier::external_body]
pub fn rocksdb_transaction_put(w: &mut World, t: TxnPtr, k: &[u8], kl: usize, v: &[u8], vl: usize, err: &mut ErrPtr)
    requires kl == k@.len(), vl == v@.len(),
    ensures stays(*old(w), *final(w), t.id@),
        final(w).writes@[t.id@] == (if final(err).set@ { old(w).writes@[t.id@] } else { wrote(old(w).writes@[t.id@], k@, Some(v@)) }),
{ unimplemented!() }
#[verifier::external_body]
pub fn rocksdb_transaction_delete(w: &mut World, t: TxnPtr, k: &[u8], kl: usize, err: &mut ErrPtr)
    requires kl == k@.len(),
    ensures stays(*old(w), *final(w), t.id@),
        final(w).writes@[t.id@] == (if final(err).set@ { old(w).writes@[t.id@] } else { wrote(old(w).writes@[t.id@], k@, None) }),
{ unimplemented!() }
#[verifier::external_body]
pub fn rocksdb_transaction_rollback(w: &mut World, t: TxnPtr, err: &mut ErrPtr)
    ensures apart(*old(w), *final(w), t.id@),
        if final(err).set@ { final(w).writes@[t.id@] == old(w).writes@[t.id@] && final(w).saves@[t.id@] == old(w).saves@[t.id@] }
        else { final(w).writes@[t.id@] == nothing() && final(w).saves@[t.id@].len() == 0 },
{ unimplemented!() }
#[verifier::external_body]
pub fn rocksdb_transaction_set_savepoint(w: &mut World, t: TxnPtr)
    ensures apart(*old(w), *final(w), t.id@), final(w).writes@[t.id@] == old(w).writes@[t.id@],
        final(w).saves@[t.id@] == old(w).saves@[t.id@].push(old(w).writes@[t.id@]),
{ unimplemented!() }
/// fails only if there is no savepoint
#[verifier::external_body]
pub fn rocksdb_transaction_rollback_to_savepoint(w: &mut World, t: TxnPtr, err: &mut ErrPtr)
    ensures apart(*old(w), *final(w), t.id@),
        final(err).set@ == (old(w).saves@[t.id@].len() == 0),
        if final(err).set@ { final(w).writes@[t.id@] == old(w).writes@[t.id@] && final(w).saves@[t.id@] == old(w).saves@[t.id@] }
        else { final(w).writes@[t.id@] == old(w).saves@[t.id@].last() && final(w).saves@[t.id@] == old(w).saves@[t.id@].drop_last() },
{ unimplemented!() }
#[verifier::external_body]
pub fn rocksdb_transaction_commit(w: &mut World, t: TxnPtr, err: &mut ErrPtr)
    ensures (forall|j: int| j != t.id@ ==> #[trigger] final(w).writes@[j] == old(w).writes@[j] && final(w).saves@[j] == old(w).saves@[j]),
        if final(err).set@ { final(w).disk == old(w).disk && final(w).writes@[t.id@] == old(w).writes@[t.id@] }
        else { final(w).disk@ == old(w).view(t.id@) && final(w).writes@[t.id@] == nothing() },
{ unimplemented!() }

pub struct RocksDBTransactionInner { pub inner: TxnPtr }
impl RocksDBTransactionInner {
    pub open spec fn id(&self) -> int { self.inner.id@ }
//@fn src/polodb_core/db/rocksdb_transaction.rs RocksDBTransactionInner::set
//@ret r
//@spec
    ensures stays(*old(w), *final(w), self.id()),
        final(w).writes@[self.id()] == (if r is Ok { wrote(old(w).writes@[self.id()], key@, Some(value@)) } else { old(w).writes@[self.id()] }),
//@end
//@fn src/polodb_core/db/rocksdb_transaction.rs RocksDBTransactionInner::delete
//@ret r
//@spec
    ensures stays(*old(w), *final(w), self.id()),
        final(w).writes@[self.id()] == (if r is Ok { wrote(old(w).writes@[self.id()], key@, None) } else { old(w).writes@[self.id()] }),
//@end
//@fn src/polodb_core/db/rocksdb_transaction.rs RocksDBTransactionInner::rollback
//@ret r
//@spec
    ensures apart(*old(w), *final(w), self.id()),
        r is Ok ==> final(w).writes@[self.id()] == nothing() && final(w).saves@[self.id()].len() == 0,
        r is Err ==> final(w).writes@[self.id()] == old(w).writes@[self.id()] && final(w).saves@[self.id()] == old(w).saves@[self.id()],
//@end
//@fn src/polodb_core/db/rocksdb_transaction.rs RocksDBTransactionInner::set_savepoint
//@spec
    ensures apart(*old(w), *final(w), self.id()), final(w).writes@[self.id()] == old(w).writes@[self.id()],
        final(w).saves@[self.id()] == old(w).saves@[self.id()].push(old(w).writes@[self.id()]),
//@end
//@fn src/polodb_core/db/rocksdb_transaction.rs RocksDBTransactionInner::rollback_to_savepoint
//@ret r
//@spec
    ensures apart(*old(w), *final(w), self.id()), r is Ok == (old(w).saves@[self.id()].len() > 0),
        r is Ok ==> final(w).writes@[self.id()] == old(w).saves@[self.id()].last() && final(w).saves@[self.id()] == old(w).saves@[self.id()].drop_last(),
        r is Err ==> final(w).writes@[self.id()] == old(w).writes@[self.id()] && final(w).saves@[self.id()] == old(w).saves@[self.id()],
//@end
//@fn src/polodb_core/db/rocksdb_transaction.rs RocksDBTransactionInner::commit
//@ret r
//@spec
    ensures settles(*old(w), *final(w), self.id()),
        r is Ok ==> final(w).disk@ == old(w).view(self.id()) && final(w).writes@[self.id()] == nothing(),
        r is Err ==> final(w).disk == old(w).disk && final(w).writes@[self.id()] == old(w).writes@[self.id()],
//@end
}
/// Arc<Mutex<RocksDBTransactionInner>>
pub struct SharedTxn { pub v: RocksDBTransactionInner }
impl SharedTxn { pub fn guard(&self) -> (r: &RocksDBTransactionInner) ensures *r == self.v, { &self.v } }
impl Clone for SharedTxn {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
pub struct RocksDBTransaction { pub inner: SharedTxn }
impl RocksDBTransaction {
    pub open spec fn id(&self) -> int { self.inner.v.id() }
//@fn src/polodb_core/db/rocksdb_transaction.rs RocksDBTransaction::set
//@ret r
//@spec
    ensures stays(*old(w), *final(w), self.id()),
        final(w).writes@[self.id()] == (if r is Ok { wrote(old(w).writes@[self.id()], key@, Some(value@)) } else { old(w).writes@[self.id()] }),
//@end
//@fn src/polodb_core/db/rocksdb_transaction.rs RocksDBTransaction::delete
//@ret r
//@spec
    ensures stays(*old(w), *final(w), self.id()),
        final(w).writes@[self.id()] == (if r is Ok { wrote(old(w).writes@[self.id()], key@, None) } else { old(w).writes@[self.id()] }),
//@end
//@fn src/polodb_core/db/rocksdb_transaction.rs RocksDBTransaction::rollback
//@ret r
//@spec
    ensures apart(*old(w), *final(w), self.id()),
        r is Ok ==> final(w).writes@[self.id()] == nothing() && final(w).saves@[self.id()].len() == 0,
        r is Err ==> final(w).writes@[self.id()] == old(w).writes@[self.id()] && final(w).saves@[self.id()] == old(w).saves@[self.id()],
//@end
//@fn src/polodb_core/db/rocksdb_transaction.rs RocksDBTransaction::set_savepoint
//@spec
    ensures apart(*old(w), *final(w), self.id()), final(w).writes@[self.id()] == old(w).writes@[self.id()],
        final(w).saves@[self.id()] == old(w).saves@[self.id()].push(old(w).writes@[self.id()]),
//@end
//@fn src/polodb_core/db/rocksdb_transaction.rs RocksDBTransaction::rollback_to_savepoint
//@ret r
//@spec
    ensures apart(*old(w), *final(w), self.id()), r is Ok == (old(w).saves@[self.id()].len() > 0),
        r is Ok ==> final(w).writes@[self.id()] == old(w).saves@[self.id()].last() && final(w).saves@[self.id()] == old(w).saves@[self.id()].drop_last(),
        r is Err ==> final(w).writes@[self.id()] == old(w).writes@[self.id()] && final(w).saves@[self.id()] == old(w).saves@[self.id()],
//@end
//@fn src/polodb_core/db/rocksdb_transaction.rs RocksDBTransaction::commit
//@ret r
//@spec
    ensures settles(*old(w), *final(w), self.id()),
        r is Ok ==> final(w).disk@ == old(w).view(self.id()) && final(w).writes@[self.id()] == nothing(),
        r is Err ==> final(w).disk == old(w).disk && final(w).writes@[self.id()] == old(w).writes@[self.id()],
//@end
}

pub struct TransactionInner { pub rocksdb_txn: RocksDBTransaction, pub auto_commit: bool }
/// a clone is another handle of the same transaction
impl Clone for TransactionInner {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
impl TransactionInner {
    pub open spec fn id(&self) -> int { self.rocksdb_txn.id() }
//@fn src/polodb_core/transaction/transaction_inner.rs TransactionInner::new
//@ret r
//@spec
    ensures r.id() == rocksdb_txn.id(), r.auto_commit,
//@end
//@fn src/polodb_core/transaction/transaction_inner.rs TransactionInner::set_auto_commit
//@spec
    ensures final(self).id() == old(self).id(), final(self).auto_commit == auto_commit,
//@end
//@fn src/polodb_core/transaction/transaction_inner.rs TransactionInner::put
//@ret r
//@spec
    ensures stays(*old(w), *final(w), self.id()),
        final(w).writes@[self.id()] == (if r is Ok { wrote(old(w).writes@[self.id()], key@, Some(value@)) } else { old(w).writes@[self.id()] }),
//@end
//@fn src/polodb_core/transaction/transaction_inner.rs TransactionInner::delete
//@ret r
//@spec
    ensures stays(*old(w), *final(w), self.id()),
        final(w).writes@[self.id()] == (if r is Ok { wrote(old(w).writes@[self.id()], key@, None) } else { old(w).writes@[self.id()] }),
//@end
//@fn src/polodb_core/transaction/transaction_inner.rs TransactionInner::commit
//@ret r
//@spec
    ensures settles(*old(w), *final(w), self.id()),
        r is Ok ==> final(w).disk@ == old(w).view(self.id()) && final(w).writes@[self.id()] == nothing(),
        r is Err ==> final(w).disk == old(w).disk && final(w).writes@[self.id()] == old(w).writes@[self.id()],
//@end
//@fn src/polodb_core/transaction/transaction_inner.rs TransactionInner::auto_commit
//@ret r
//@spec
    ensures settles(*old(w), *final(w), self.id()), !self.auto_commit ==> r is Ok && *final(w) == *old(w),
        r is Ok && self.auto_commit ==> final(w).disk@ == old(w).view(self.id()) && final(w).writes@[self.id()] == nothing(),
        r is Err ==> final(w).disk == old(w).disk && final(w).writes@[self.id()] == old(w).writes@[self.id()],
//@end
//@fn src/polodb_core/transaction/transaction_inner.rs TransactionInner::rollback
//@ret r
//@spec
    ensures apart(*old(w), *final(w), self.id()),
        r is Ok ==> final(w).writes@[self.id()] == nothing() && final(w).saves@[self.id()].len() == 0,
        r is Err ==> final(w).writes@[self.id()] == old(w).writes@[self.id()] && final(w).saves@[self.id()] == old(w).saves@[self.id()],
//@end
//@fn src/polodb_core/transaction/transaction_inner.rs TransactionInner::atomically
//@rw the operation acts on the world: impl FnOnce() ~~> impl FnOnce(&mut World)
//@rw the operation acts on the world: operation() ~~> operation(w)
//@ret r
//@spec
    requires
        forall|x: &mut World| operation.requires((x,)),
        forall|x: &mut World, q: Result<R>| operation.ensures((x,), q) ==> stays(*x, *final(x), self.id()),
    ensures
        // nothing but this transaction is touched; a failed operation leaves nothing in it
        apart(*old(w), *final(w), self.id()),
        r is Err ==> final(w).writes@[self.id()] == old(w).writes@[self.id()] && final(w).saves@[self.id()] =~= old(w).saves@[self.id()],
        r is Ok ==> exists|x: &mut World| #[trigger] operation.ensures((x,), r) && (*x).disk == old(w).disk && (*x).writes@[self.id()] == old(w).writes@[self.id()]
            && (*final(x)).writes@[self.id()] == final(w).writes@[self.id()],
//@end
}
