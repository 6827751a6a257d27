// The machine.
//@macro src/polodb_core/vm/vm.rs try_vm
//@const src/polodb_core/vm/vm.rs STACK_SIZE
pub enum VmState { Halt, Init, Running, HasRow }
/// where to go on behind a call
pub struct VMFrame { pub stack_begin_pos: usize, pub return_pos: usize }
impl VMFrame { fn default() -> (r: VMFrame) { VMFrame { stack_begin_pos: 0, return_pos: usize::MAX } } }
/// pc: as an offset into the code. m: what is known before each instruction; write: for which kind of request the program was made (ghost)
pub struct VM {
    pub txn: TransactionInner,
    pub state: VmState,
    pub pc: usize,
    pub r0: i32,
    pub r1: Option<Cursor>,
    pub r2: i64,
    pub r3: usize,
    pub r4: i64,
    pub stack: Vec<Bson>,
    pub frames: Vec<VMFrame>,
    pub program: SubProgram,
    pub global_vars: Vec<Bson>,
    pub index_value: Option<Bson>,
    pub metrics: Metrics,
    pub m: Ghost<Code>,
    pub write: Ghost<bool>,
}
// ---- what the machine uses ----
pub struct Metrics { x: u8 }
impl Metrics {
    #[verifier::external_body]
    pub fn add_find_by_index_count(&self) { unimplemented!() }
}
pub struct RocksTxn { x: u8 }
pub struct RocksDBIterator { x: u8 }
impl RocksDBIterator {
    #[verifier::external_body]
    pub fn seek_to_first(&self) { unimplemented!() }
}
impl RocksTxn {
    #[verifier::external_body]
    pub fn new_iterator(&self) -> RocksDBIterator { unimplemented!() }
}
pub struct TransactionInner { pub rocksdb_txn: RocksTxn }
impl TransactionInner {
    #[verifier::external_body]
    pub fn delete(&self, k: &[u8]) -> Result<()> { unimplemented!() }
    #[verifier::external_body]
    pub fn auto_commit(&self) -> Result<()> { unimplemented!() }
}
pub struct KeyBuf { pub v: Vec<u8> }
impl KeyBuf {
    pub fn as_ref(&self) -> &[u8] { self.v.as_slice() }
    #[verifier::external_body]
    pub fn starts_with(&self, p: &[u8]) -> bool { unimplemented!() }
}
/// the cursor is on a key (proved of src/polodb_core/cursor.rs in units kv and vm)
pub struct Cursor { pub prefix_bytes: Vec<u8>, pub kv_cursor: RocksDBIterator }
impl Cursor {
    pub uninterp spec fn on(&self) -> bool;
    pub uninterp spec fn keyed(&self) -> bool;
    #[verifier::external_body]
    pub fn new(prefix: Vec<u8>, i: RocksDBIterator) -> Cursor { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&mut self) -> Result<()> { unimplemented!() }
    #[verifier::external_body]
    pub fn has_next(&self) -> (r: bool) ensures r ==> self.on(), { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Result<()>) requires old(self).on(), ensures r is Ok && final(self).keyed() ==> final(self).on(), { unimplemented!() }
    #[verifier::external_body]
    pub fn copy_data(&self) -> Result<Vec<u8>> requires self.on(), { unimplemented!() }
    #[verifier::external_body]
    pub fn reset_by_pkey(&mut self, p: &Bson) -> (r: Result<bool>) ensures r matches Ok(b) && b ==> final(self).on(), { unimplemented!() }
    #[verifier::external_body]
    pub fn reset_by_index_value(&mut self, p: &Bson) -> (r: Result<bool>) ensures r matches Ok(b) && b ==> final(self).on() && final(self).keyed(), { unimplemented!() }
    #[verifier::external_body]
    pub fn peek_key(&self) -> (r: Option<KeyBuf>) ensures r is Some == self.keyed(), { unimplemented!() }
    #[verifier::external_body]
    pub fn update_current(&mut self, txn: &TransactionInner, d: &Vec<u8>) -> (r: Result<bool>) ensures *final(self) == *old(self), { unimplemented!() }
}
pub open spec fn stored(d: Document) -> bool { d_has(dv(d), "_id"@) }
/// (what is stored in a collection has an _id: unit kv)
#[verifier::external_body]
fn doc_from_slice(b: &[u8]) -> (r: Result<Document>) ensures r is Ok ==> stored(r->Ok_0), { unimplemented!() }
#[verifier::external_body]
fn doc_to_vec(d: &Document) -> Result<Vec<u8>> { unimplemented!() }
#[verifier::external_body]
fn make_index_key_with_query_key(p: &[u8], v: &Bson) -> Result<Vec<u8>> { unimplemented!() }
#[verifier::external_body]
fn stacked_key_bytes(w: &mut Vec<u8>, v: &Bson) -> Result<()> { unimplemented!() }
pub enum IndexHelperOperation { Insert, Delete }
pub struct IndexHelper { x: u8 }
impl IndexHelper {
    #[verifier::external_body]
    pub fn try_execute_with_index_info(op: IndexHelperOperation, d: &Document, c: &str, p: &Bson, n: &str, i: &IndexInfo, txn: &TransactionInner) -> Result<()>
        requires wf_info(*i),
    { unimplemented!() }
}
pub enum VmExternalFuncStatus { Continue, Next(Bson) }
impl ExternalFunc {
    #[verifier::external_body]
    pub fn call(&self, args: &[Bson]) -> Result<VmExternalFuncStatus> { unimplemented!() }
    #[verifier::external_body]
    pub fn is_completed(&self) -> bool { unimplemented!() }
}
pub struct UpdateResult { pub updated: bool }
impl UpdateOp {
    /// the operators keep _id (unit update)
    #[verifier::external_body]
    pub fn update(&self, v: &mut Bson) -> (r: Result<UpdateResult>)
        requires *old(v) is Document && stored(old(v)->Document_0),
        ensures *final(v) is Document && stored(final(v)->Document_0),
    { unimplemented!() }
}
#[verifier::external_body]
fn field_path_value(d: &Document, k: &str) -> Option<Bson> { unimplemented!() }
/// the value of the field of the value on top of the stack, or null
#[verifier::external_body]
fn field_or_null(s: &Vec<Bson>, k: &str) -> Bson { unimplemented!() }
#[verifier::external_body]
fn generic_cmp(op: DbOp, a: &Bson, b: &Bson) -> Result<bool> { unimplemented!() }
#[verifier::external_body]
fn matches_in(a: &Bson, b: &Vec<Bson>) -> Result<bool> { unimplemented!() }
#[verifier::external_body]
fn matches_all(a: &Bson, b: &Vec<Bson>) -> Result<bool> { unimplemented!() }
#[verifier::external_body]
fn matches_regex(a: &Bson, r: &Regex) -> Result<bool> { unimplemented!() }
#[verifier::external_body]
fn int_of(b: bool) -> i32 { unimplemented!() }
#[verifier::external_body]
fn is_null(b: &Bson) -> bool { unimplemented!() }
pub struct Cell { pub v: bool }
impl Cell {
    pub fn new(b: bool) -> (r: Cell) ensures r.v == b, { Cell { v: b } }
    pub fn set(&mut self, b: bool) ensures final(self).v == b, { self.v = b; }
    pub fn get(&self) -> (r: bool) ensures r == self.v, { self.v }
}
impl Bson {
    #[verifier::external_body]
    pub fn of_i64(n: i64) -> Bson { unimplemented!() }
    #[verifier::external_body]
    pub fn of_i32(n: i32) -> Bson { unimplemented!() }
}
// ---- reading the code ----
#[verifier::external_body]
fn op_at(v: &Vec<u8>, i: usize) -> (r: DbOp)
    requires i < v.len(), exists|o: DbOp| #[trigger] byte(o) == v@[i as int],
    ensures byte(r) == v@[i as int],
{ unimplemented!() }
#[verifier::external_body]
fn u32_at(v: &Vec<u8>, i: usize) -> (r: u32)
    requires i + 4 <= v.len(),
    ensures r == le4(v@, i as int),
{ unimplemented!() }
#[verifier::external_body]
fn u8_at(v: &Vec<u8>, i: usize) -> (r: u8) requires i < v.len(), { unimplemented!() }
/// a location in the code, or just behind it
fn ptr_add(v: &Vec<u8>, i: usize, n: usize) -> (r: usize)
    requires i + n <= v.len(),
    ensures r == i + n,
{ i + n }
// ---- the stack ----
#[verifier::external_body]
fn tail(v: &Vec<Bson>, i: usize) -> &[Bson] requires i <= v.len(), { unimplemented!() }
#[verifier::external_body]
fn resize(v: &mut Vec<Bson>, n: usize)
    ensures final(v).len() == n, forall|i: int| 0 <= i < n && i < old(v).len() ==> #[trigger] final(v)@[i] == old(v)@[i],
{ unimplemented!() }
fn last_of(v: &Vec<Bson>) -> (r: &Bson) requires v.len() > 0, ensures *r == v@.last(), { &v[v.len() - 1] }
/// (a request does not count to 2^63)
#[verifier::external_body]
fn one_more(x: i64) -> i64 { unimplemented!() }

// ---- what holds between two instructions ----
pub open spec fn ty_ok(b: Bson, t: Ty) -> bool { match t { Ty::Any => true, Ty::Doc => b is Document && stored(b->Document_0), Ty::Arr => b is Array } }
/// the topmost values are of the types known
pub open spec fn fits(st: Seq<Bson>, s: At) -> bool {
    &&& s.stack.len() <= st.len() && (s.full ==> s.stack.len() == st.len())
    &&& forall|i: int| 0 <= i < s.stack.len() ==> ty_ok(st[st.len() - 1 - i], #[trigger] s.stack[i])
}
pub open spec fn cur_ok(v: VM, s: At) -> bool {
    match s.cur { Cur::Fresh | Cur::Unknown => true, Cur::Open | Cur::Ended => v.r1 is Some, Cur::On => v.r1 is Some && v.r1->0.on() && (s.ix ==> v.index_value is Some) }
}
pub open spec fn at(v: VM) -> At { v.m@[v.pc as int].s }
pub open spec fn begin(v: VM, k: int) -> int { v.frames@[k].stack_begin_pos as int }
/// what is known where the call k returns to
pub open spec fn back(v: VM, k: int) -> At { v.m@[v.frames@[k].return_pos as int].s }
/// the k-th call was made from the top level (the first), or from the like; what is known behind it still holds of the stack below
pub open spec fn frame_ok(v: VM, k: int, kind: Kind) -> bool {
    let r = back(v, k);
    &&& v.m@.contains_key(v.frames@[k].return_pos as int)
    &&& cur_ok(v, r) && if k == 1 { r.kind is Main } else { r.kind == kind }
    &&& kind is Query ==> begin(v, k) <= v.stack@.len() && fits(v.stack@.take(begin(v, k)), r) && (k > 1 ==> begin(v, k) >= begin(v, k - 1) + r.base)
    &&& kind is Stage ==> all_any(r.stack) && r.stack.len() <= begin(v, k) && (r.full ==> r.stack.len() == begin(v, k))
}
pub open spec fn calls_ok(v: VM, s: At) -> bool {
    let n = v.frames@.len() as int;
    &&& n >= 1 && (s.kind is Main <==> n == 1)
    &&& forall|k: int| 1 <= k < n ==> #[trigger] frame_ok(v, k, s.kind)
    &&& s.kind is Query ==> v.stack@.len() >= begin(v, n - 1) + s.base
    &&& s.kind is Query ==> forall|j: int, k: int| 1 <= j <= k < n ==> #[trigger] begin(v, j) <= #[trigger] begin(v, k)
}
pub open spec fn mpool(v: VM) -> Pool { pool(v.program, v.write@) }
#[verifier::opaque]
pub open spec fn made(v: VM) -> bool { good(mpool(v), v.program.instructions@, v.m@) }
/// s is known, and the machine is what it has to be in this state
pub open spec fn known_at(v: VM, s: At) -> bool { fits(v.stack@, s) && cur_ok(v, s) && calls_ok(v, s) }
#[verifier::opaque]
pub open spec fn running(v: VM) -> bool { made(v) && v.m@.contains_key(v.pc as int) && fits(v.stack@, at(v)) && (cur_ok(v, at(v)) || v.m@[v.pc as int].op is Close) && calls_ok(v, at(v)) }
pub open spec fn vm_ok(v: VM) -> bool { v.state is Halt || running(v) }
/// the program is the same
pub open spec fn same(a: VM, b: VM) -> bool { b.program == a.program && b.m == a.m && b.write == a.write }
pub open spec fn kept(a: VM, b: VM) -> bool { same(a, b) && b.pc == a.pc && b.frames == a.frames && b.state == a.state }

proof fn lemma_made(a: VM, b: VM)
    requires made(a), same(a, b),
    ensures made(b),
{ reveal(made); }
/// what the code says of an instruction
proof fn lemma_node(v: VM, q: int)
    requires made(v), v.m@.contains_key(q),
    ensures node(mpool(v), v.program.instructions@, v.m@, q), v.program.instructions@.len() <= u32::MAX,
{ reveal(made); }
proof fn lemma_weaker_fits(st: Seq<Bson>, w: At, s: At)
    requires weaker(w, s), fits(st, s),
    ensures fits(st, w),
{
    assert forall|i: int| 0 <= i < w.stack.len() implies ty_ok(st[st.len() - 1 - i], #[trigger] w.stack[i]) by { assert(ty_ok(st[st.len() - 1 - i], s.stack[i])); }
}
/// the machine is at the location q, in a state which implies what is known there
proof fn lemma_at(v: VM, e: At)
    requires made(v), v.m@.contains_key(v.pc as int), weaker(at(v), e), known_at(v, e),
    ensures running(v),
{
    reveal(running);
    lemma_weaker_fits(v.stack@, at(v), e);
}
/// what execution finds at an instruction
proof fn lemma_here(v: VM)
    requires running(v),
    ensures ({
        let i = v.m@[v.pc as int];
        let code = v.program.instructions@;
        &&& code.len() <= u32::MAX && v.pc + width(i.op) <= code.len() && coded(code, v.pc as int, i) && ok(mpool(v), i)
        &&& jumps(i.op) ==> le4(code, v.pc + slot(i.op)) <= code.len()
        &&& fits(v.stack@, i.s) && (cur_ok(v, i.s) || i.op is Close) && v.frames@.len() >= 1 && (i.s.kind is Main <==> v.frames@.len() == 1)
        &&& v.frames@.len() > 1 ==> v.frames@.last().return_pos <= code.len()
        &&& i.s.kind is Query ==> v.stack@.len() >= v.frames@.last().stack_begin_pos + i.s.base
    }),
{
    reveal(running);
    let i = v.m@[v.pc as int];
    let code = v.program.instructions@;
    lemma_node(v, v.pc as int);
    if jumps(i.op) { lemma_node(v, le4(code, v.pc + slot(i.op))); }
    let n = v.frames@.len() - 1;
    if n > 0 { assert(frame_ok(v, n, i.s.kind)); lemma_node(v, v.frames@[n].return_pos as int); }
}
/// nothing that matters was changed
proof fn lemma_still(a: VM, b: VM)
    requires running(a), same(a, b), b.pc == a.pc, b.frames == a.frames, b.stack == a.stack, b.index_value == a.index_value, b.r1 == a.r1 || a.m@[a.pc as int].op is Close,
    ensures running(b),
{
    reveal(running);
    lemma_made(a, b);
    lemma_node(a, a.pc as int);
    assert(a.frames@.len() > 1 ==> b.r1 == a.r1);
    if at(a).kind is Query {
        assert forall|j: int, k: int| 1 <= j <= k < b.frames@.len() implies #[trigger] begin(b, j) <= #[trigger] begin(b, k) by { assert(begin(a, j) <= begin(a, k)); }
    }
    assert forall|k: int| 1 <= k < b.frames@.len() implies #[trigger] frame_ok(b, k, at(b).kind) by { assert(frame_ok(a, k, at(a).kind)); }
}
/// the values of the current call changed, and no others; nothing below the top level touches the cursor
pub open spec fn local(a: VM, b: VM) -> bool {
    let kind = at(a).kind;
    let f = a.frames@.last().stack_begin_pos as int;
    &&& !(kind is Main) ==> b.r1 == a.r1 && b.index_value == a.index_value
    &&& kind is Query ==> b.stack@.len() >= f && forall|j: int| 0 <= j < f ==> #[trigger] b.stack@[j] == a.stack@[j]
}
pub open spec fn shaped(a: VM, b: VM, e: At) -> bool {
    &&& b.frames == a.frames && local(a, b) && fits(b.stack@, e) && cur_ok(b, e) && e.kind == at(a).kind
    &&& e.kind is Query ==> b.stack@.len() >= a.frames@.last().stack_begin_pos + e.base
}
proof fn lemma_move(a: VM, b: VM, e: At)
    requires running(a), same(a, b), shaped(a, b, e), b.m@.contains_key(b.pc as int), weaker(at(b), e),
    ensures running(b),
{
    reveal(running);
    lemma_made(a, b);
    let kind = at(a).kind;
    let n = a.frames@.len() - 1;
    assert forall|k: int| 1 <= k < b.frames@.len() implies #[trigger] frame_ok(b, k, kind) by {
        assert(frame_ok(a, k, kind));
        if kind is Query {
            assert(begin(a, k) <= begin(a, n));
            assert(b.stack@.take(begin(b, k)) =~= a.stack@.take(begin(a, k)));
        }
    }
    if kind is Query {
        assert forall|j: int, k: int| 1 <= j <= k < b.frames@.len() implies #[trigger] begin(b, j) <= #[trigger] begin(b, k) by { assert(begin(a, j) <= begin(a, k)); }
    }
    lemma_at(b, e);
}
proof fn lemma_fall(a: VM, b: VM)
    requires running(a), same(a, b), falls(a.m@[a.pc as int].op), b.pc == a.pc + width(a.m@[a.pc as int].op), shaped(a, b, after(mpool(a), a.m@[a.pc as int])),
    ensures running(b),
{
    assert(made(a) && a.m@.contains_key(a.pc as int)) by { reveal(running); }
    lemma_node(a, a.pc as int);
    lemma_move(a, b, after(mpool(a), a.m@[a.pc as int]));
}
proof fn lemma_jump(a: VM, b: VM)
    requires
        running(a), same(a, b), jumps(a.m@[a.pc as int].op), !(a.m@[a.pc as int].op is Call),
        b.pc == le4(a.program.instructions@, a.pc + slot(a.m@[a.pc as int].op)), shaped(a, b, taken(a.m@[a.pc as int])),
    ensures running(b),
{
    assert(made(a) && a.m@.contains_key(a.pc as int)) by { reveal(running); }
    lemma_node(a, a.pc as int);
    lemma_move(a, b, taken(a.m@[a.pc as int]));
}
pub open spec fn called_by(a: VM, b: VM) -> bool {
    let i = a.m@[a.pc as int];
    &&& i.op is Call && b.stack == a.stack && b.r1 == a.r1 && b.index_value == a.index_value && b.pc == le4(a.program.instructions@, a.pc + 1)
    &&& b.frames@ == a.frames@.push(VMFrame { stack_begin_pos: (a.stack@.len() - i.b) as usize, return_pos: (a.pc + 9) as usize })
}
proof fn lemma_call(a: VM, b: VM)
    requires running(a), same(a, b), called_by(a, b),
    ensures running(b),
{
    reveal(running);
    let i = a.m@[a.pc as int];
    let code = a.program.instructions@;
    let n = a.frames@.len() as int;
    let s = i.s;
    let e = at(b);
    lemma_made(a, b);
    lemma_node(a, a.pc as int);
    assert(leads(a.m@, mpool(a), a.pc as int));
    assert(a.stack.len() >= i.b && i.b >= 0);
    assert(a.pc + 9 <= code.len());
    assert(begin(b, n) == a.stack@.len() - i.b && b.frames@[n].return_pos == a.pc + 9);
    let r = back(b, n);
    assert(weaker(r, pop(s, i.b)));
    assert(fits(b.stack@, e)) by {
        assert forall|k: int| 0 <= k < e.stack.len() implies ty_ok(b.stack@[b.stack@.len() - 1 - k], #[trigger] e.stack[k]) by { assert(ty_ok(a.stack@[a.stack@.len() - 1 - k], s.stack[k])); }
    }
    assert(fits(b.stack@.take(begin(b, n)), pop(s, i.b))) by {
        let t = b.stack@.take(begin(b, n));
        assert forall|k: int| 0 <= k < pop(s, i.b).stack.len() implies ty_ok(t[t.len() - 1 - k], #[trigger] pop(s, i.b).stack[k]) by { assert(ty_ok(a.stack@[a.stack@.len() - 1 - (k + i.b)], s.stack[k + i.b])); }
    }
    lemma_weaker_fits(b.stack@.take(begin(b, n)), r, pop(s, i.b));
    assert(s.kind is Query || s.kind is Stage ==> s.kind == e.kind);
    assert forall|k: int| 1 <= k < n + 1 implies #[trigger] frame_ok(b, k, e.kind) by {
        if k < n {
            assert(frame_ok(a, k, s.kind));
            assert(b.frames@[k] == a.frames@[k]);
            if k > 1 { assert(b.frames@[k - 1] == a.frames@[k - 1]); }
        } else {
            if k > 1 { assert(b.frames@[k - 1] == a.frames@[k - 1]); assert(begin(b, k - 1) == begin(a, n - 1)); }
            assert(b.m@.contains_key(b.frames@[k].return_pos as int));
            if e.kind is Stage { assert(all_any(r.stack)) by { assert forall|j: int| 0 <= j < r.stack.len() implies #[trigger] r.stack[j] is Any by { assert(pop(s, i.b).stack[j] is Any); } } }
        }
    }
    if e.kind is Query {
        assert forall|j: int, k: int| 1 <= j <= k < n + 1 implies #[trigger] begin(b, j) <= #[trigger] begin(b, k) by {
            if k < n { assert(begin(a, j) <= begin(a, k)); } else if j < n { assert(begin(a, j) <= begin(a, n - 1)); }
        }
    }
}
pub open spec fn returned_to(a: VM, b: VM) -> bool {
    let f = a.frames@.last();
    &&& a.m@[a.pc as int].op is Ret0 && b.r1 == a.r1 && b.index_value == a.index_value && a.frames@.len() > 1
    &&& b.frames@ == a.frames@.drop_last() && b.pc == f.return_pos && b.stack@.len() == f.stack_begin_pos
    &&& forall|j: int| 0 <= j < b.stack@.len() && j < a.stack@.len() ==> #[trigger] b.stack@[j] == a.stack@[j]
}
proof fn lemma_ret(a: VM, b: VM)
    requires running(a), same(a, b), returned_to(a, b),
    ensures running(b),
{
    reveal(running);
    lemma_made(a, b);
    let n = a.frames@.len() - 1;
    let s = at(a);
    let r = back(a, n);
    assert(frame_ok(a, n, s.kind));
    assert(r == at(b));
    if s.kind is Query { assert(b.stack@ =~= a.stack@.take(begin(a, n))); }
    assert(fits(b.stack@, r));
    assert forall|k: int| 1 <= k < n implies #[trigger] frame_ok(b, k, s.kind) by {
        assert(frame_ok(a, k, s.kind));
        assert(b.frames@[k] == a.frames@[k]);
        if k > 1 { assert(b.frames@[k - 1] == a.frames@[k - 1]); }
        if s.kind is Query {
            assert(begin(a, k) <= begin(a, n));
            assert(b.stack@.take(begin(b, k)) =~= a.stack@.take(begin(a, k)));
        }
    }
    if s.kind is Query && n > 1 {
        assert(begin(b, n - 1) == begin(a, n - 1));
        assert forall|j: int, k: int| 1 <= j <= k < n implies #[trigger] begin(b, j) <= #[trigger] begin(b, k) by { assert(begin(a, j) <= begin(a, k)); }
    }
}
/// one instruction was executed
pub open spec fn stepped(a: VM, b: VM) -> bool {
    let i = a.m@[a.pc as int];
    ||| falls(i.op) && !(i.op is Call) && b.pc == a.pc + width(i.op) && shaped(a, b, after(mpool(a), i))
    ||| jumps(i.op) && !(i.op is Call) && b.pc == le4(a.program.instructions@, a.pc + slot(i.op)) && shaped(a, b, taken(i))
    ||| called_by(a, b)
    ||| returned_to(a, b)
}
proof fn lemma_step(a: VM, b: VM)
    requires running(a), same(a, b), stepped(a, b),
    ensures running(b),
{
    let i = a.m@[a.pc as int];
    if called_by(a, b) { lemma_call(a, b); } else if returned_to(a, b) { lemma_ret(a, b); }
    else if falls(i.op) && b.pc == a.pc + width(i.op) && shaped(a, b, after(mpool(a), i)) { lemma_fall(a, b); } else { lemma_jump(a, b); }
}

//@rule path: crate::utils::bson:: ~~>
//@rule documents by contract: let doc = bson::from_slice($x.as_ref())?; ~~> let doc = doc_from_slice($x.as_slice())?;
//@rule documents by contract: bson::to_vec($i_d)? ~~> doc_to_vec($i_d)?
//@rule out parameter: is_empty: &Cell<bool> ~~> is_empty: &mut Cell
//@rule out parameter: let is_empty = Cell::new(false); ~~> let mut is_empty = Cell::new(false);
//@rule out parameter: self.reset_cursor(&is_empty) ~~> self.reset_cursor(&mut is_empty)
//@rule loop over the indexes as an indexed loop: for ($i_k, $i_v) in $i_m { ~~> let mut zi: usize = 0; while zi < $i_m.entries.len() { let ($i_k, $i_v) = &$i_m.entries[zi]; zi = zi + 1;
//@rule the number of bytes as an offset: self.pc.cast::<DbOp>().read() ~~> op_at(&self.program.instructions, self.pc)
//@rule the number of bytes as an offset: self.pc.add($n).cast::<u32>().read() ~~> u32_at(&self.program.instructions, self.pc + $n)
//@rule the number of bytes as an offset: self.pc.add($n).read() as i32 ~~> (u8_at(&self.program.instructions, self.pc + $n) as i32)
//@rule the number of bytes as an offset: self.pc = self.pc.add($n); ~~> self.pc = ptr_add(&self.program.instructions, self.pc, $n);
//@rule the number of bytes as an offset: let start = self.program.instructions.as_ptr() as usize; ~~>
//@rule the number of bytes as an offset: self.pc.add($n).sub(start) as usize ~~> ptr_add(&self.program.instructions, self.pc, $n)
//@rule the number of bytes as an offset: unsafe { self.pc = self.program.instructions.as_ptr().add($n); } ~~> self.pc = ptr_add(&self.program.instructions, 0, $n);
//@rule the number of bytes as an offset: let pc = program.instructions.as_ptr(); ~~> let pc: usize = 0;
//@rule reads by contract: unsafe { loop { ~~> { loop {
//@rule equality of states: self.state == VmState::Halt ~~> matches!(self.state, VmState::Halt)
//@rule the error, whatever its message: let name = format!("{}", top); let err = FieldTypeUnexpectedStruct { $m }; ~~> let err = Error::FieldType;
//@rule the error, whatever its message: return Err(err.into()); ~~> return Err(err);
//@rule not reached: panic!($m) ~~> vstd::pervasive::unreached()
//@rule counting: self.r2 += 1; ~~> self.r2 = one_more(self.r2);
//@rule counting: self.r4 += 1; ~~> self.r4 = one_more(self.r4);
//@rule a number: Bson::from(self.r0) ~~> Bson::of_i32(self.r0)
//@rule a number: Bson::from(arr.len() as i64) ~~> Bson::of_i64(arr.len() as i64)
//@rule a number: i32::from(matches) ~~> int_of(matches)
//@rule the value under a path, or null: self.stack.last().and_then(Bson::as_document).and_then(|document| field_path_value(document, key_name)).unwrap_or(Bson::Null) ~~> field_or_null(&self.stack, key_name)
//@rule comparison with null: val == &Bson::Null ~~> is_null(val)
//@rule the top of the stack: self.stack.push(self.stack.last().unwrap().clone()); ~~> { let zt = last_of(&self.stack).clone(); self.stack.push(zt); }
//@rule the top of the stack: self.stack.last().unwrap() ~~> last_of(&self.stack)
//@rule the top of the stack: operator.update(self.stack.last_mut().unwrap()) ~~> { let zt = self.stack.len() - 1; operator.update(&mut self.stack[zt]) }
//@rule the top of the stack: &self.stack[self.stack.len() - size_of_param..] ~~> tail(&self.stack, self.stack.len() - size_of_param)
//@rule cut: self.stack.resize($n, Bson::Null); ~~> let zn = $n; resize(&mut self.stack, zn);
//@rule owned text: key.into() ~~> key
//@rule owned text: mut_doc.insert::<String, Bson>($x); ~~> mut_doc.insert($x);
//@rule no value of the machine: let func = &self.program.external_funcs[$x]; ~~> let func = &self.program.external_funcs[$x];

impl VM {
    // instructions the compiler does not make
    #[verifier::external_body]
    fn unset_field(&mut self, f: u32) -> Result<()> requires false, { unimplemented!() }
    #[verifier::external_body]
    fn array_push(&mut self) -> Result<()> requires false, { unimplemented!() }
    #[verifier::external_body]
    fn array_pop_first(&mut self) -> Result<()> requires false, { unimplemented!() }
    #[verifier::external_body]
    fn array_pop_last(&mut self) -> Result<()> requires false, { unimplemented!() }
    #[verifier::external_body]
    fn inc(&mut self) requires false, { unimplemented!() }
    /// (proved in unit vm)
    #[verifier::external_body]
    fn read_index_value_by_index_key(&mut self, k: &[u8]) -> (r: Result<Option<Bson>>) ensures *final(self) == *old(self), { unimplemented!() }
//@fn src/polodb_core/vm/vm.rs VM::new
//@rw loop over a vector as an indexed loop: for item in &program.global_variables { ~~> let mut zi: usize = 0; while zi < program.global_variables.len() { let item = &program.global_variables[zi]; zi = zi + 1;
//@rw what is known of the code: metrics, } ~~> metrics, m: Ghost(m), write: Ghost(write) }
//@ret r
//@spec
    requires compiled(program),
    ensures vm_ok(r), r.program == program,
//@start
    let ghost write: bool;
    let ghost m: Code;
    proof { let w = lemma_start(program); write = w.0; m = w.1; }
//@loop 0
    invariant zi <= program.global_variables.len(),
    decreases program.global_variables.len() - zi,
//@end
//@fn src/polodb_core/vm/vm.rs VM::reset_location
//@spec
    requires location <= old(self).program.instructions@.len(),
    ensures *final(self) == (VM { pc: location as usize, ..*old(self) }),
//@end
//@fn src/polodb_core/vm/vm.rs VM::borrow_static
//@ret r
//@spec
    requires index < self.program.static_values@.len(),
    ensures *r == self.program.static_values@[index as int],
//@end
//@fn src/polodb_core/vm/vm.rs VM::stack_top
//@ret r
//@spec
    requires self.stack.len() >= 1,
    ensures *r == self.stack@.last(),
//@end
//@fn src/polodb_core/vm/vm.rs VM::array_size
//@spec
    requires self.stack.len() >= 1,
//@end
//@fn src/polodb_core/vm/vm.rs VM::prefix_bytes_from_bson
//@ret r
//@spec
    requires val is String || val is Binary,
//@end
//@fn src/polodb_core/vm/vm.rs VM::open_read
//@ret r
//@spec
    requires prefix is String || prefix is Binary,
    ensures kept(*old(self), *final(self)), final(self).stack == old(self).stack, r is Ok ==> final(self).r1 is Some,
//@end
//@fn src/polodb_core/vm/vm.rs VM::open_write
//@ret r
//@spec
    requires prefix is String || prefix is Binary,
    ensures kept(*old(self), *final(self)), final(self).stack == old(self).stack, r is Ok ==> final(self).r1 is Some,
//@end
//@fn src/polodb_core/vm/vm.rs VM::reset_cursor
//@ret r
//@spec
    requires old(self).r1 is Some,
    ensures
        kept(*old(self), *final(self)),
        r is Ok ==> final(self).r1 is Some && if final(is_empty).v { final(self).stack == old(self).stack } else { pushed(*old(self), *final(self), Ty::Doc) && final(self).r1->0.on() },
//@end
//@fn src/polodb_core/vm/vm.rs VM::find_by_primary_key
//@ret r
//@spec
    requires old(self).r1 is Some, old(self).stack.len() >= 1,
    ensures
        kept(*old(self), *final(self)),
        r matches Ok(b) ==> final(self).r1 is Some && if !b { final(self).stack == old(self).stack } else { pushed(*old(self), *final(self), Ty::Doc) && final(self).r1->0.on() },
//@end
//@fn src/polodb_core/vm/vm.rs VM::find_by_index
//@ret r
//@spec
    requires old(self).r1 is Some, old(self).stack.len() >= 2,
    ensures
        kept(*old(self), *final(self)),
        r matches Ok(b) ==> final(self).r1 is Some && if !b { final(self).stack == old(self).stack } else { pushed(*old(self), *final(self), Ty::Any) && final(self).r1->0.on() && final(self).index_value is Some },
//@end
//@fn src/polodb_core/vm/vm.rs VM::next
//@rw a limit checked in debug builds: debug_assert!($m); ~~>
//@ret r
//@spec
    requires old(self).r1 is Some, old(self).r1->0.on(),
    ensures
        kept(*old(self), *final(self)),
        r is Ok ==> final(self).r1 is Some && if final(self).r0 == 0 { final(self).stack == old(self).stack } else { pushed(*old(self), *final(self), Ty::Doc) && final(self).r1->0.on() },
//@end
//@fn src/polodb_core/vm/vm.rs VM::next_index_value
//@ret r
//@spec
    requires old(self).r1 is Some, old(self).r1->0.on(), old(self).index_value is Some,
    ensures
        kept(*old(self), *final(self)), final(self).index_value == old(self).index_value,
        r is Ok ==> final(self).r1 is Some && if final(self).r0 == 0 { final(self).stack == old(self).stack } else { pushed(*old(self), *final(self), Ty::Any) && final(self).r1->0.on() },
//@end
//@fn src/polodb_core/vm/vm.rs VM::update_current
//@rw the same transaction: let txn = &self.txn; ~~>
//@rw the same transaction: cursor.update_current(txn, ~~> cursor.update_current(&self.txn,
//@ret r
//@spec
    requires old(self).r1 is Some, old(self).stack.len() >= 1, old(self).stack@.last() is Document,
    ensures kept(*old(self), *final(self)), final(self).stack == old(self).stack, final(self).r1 == old(self).r1, final(self).index_value == old(self).index_value,
//@end
//@fn src/polodb_core/vm/vm.rs VM::insert_index
//@ret r
//@spec
    requires index_info_id < old(self).program.index_infos@.len(), infos_ok(old(self).program.index_infos@[index_info_id as int]), old(self).stack.len() >= 1, ty_ok(old(self).stack@.last(), Ty::Doc),
    ensures *final(self) == *old(self),
//@bind let $i_info = &self.program.index_infos[$x];
//@bind let $i_m = &$i_info.indexes;
//@loop 0
    invariant zi <= $i_m.entries.len(), *$i_m == $i_info.indexes, infos_ok(*$i_info), *self == *old(self),
    decreases $i_m.entries.len() - zi,
//@end
//@fn src/polodb_core/vm/vm.rs VM::delete_index
//@ret r
//@spec
    requires index_info_id < old(self).program.index_infos@.len(), infos_ok(old(self).program.index_infos@[index_info_id as int]), old(self).stack.len() >= 1, ty_ok(old(self).stack@.last(), Ty::Doc),
    ensures *final(self) == *old(self),
//@bind let $i_info = &self.program.index_infos[$x];
//@bind let $i_m = &$i_info.indexes;
//@loop 0
    invariant zi <= $i_m.entries.len(), *$i_m == $i_info.indexes, infos_ok(*$i_info), *self == *old(self),
    decreases $i_m.entries.len() - zi,
//@end
//@fn src/polodb_core/vm/vm.rs VM::ret
//@rw loop over a range as a while loop: for $i_i in 0..return_size { ~~> let mut zi: usize = 0; while zi < return_size { let $i_i = zi; zi = zi + 1;
//@spec
    requires old(self).frames.len() >= 1, return_size == 0 || old(self).frames@.last().stack_begin_pos + return_size <= old(self).stack.len(), old(self).frames@.last().stack_begin_pos + return_size <= usize::MAX,
        old(self).frames@.last().return_pos <= old(self).program.instructions@.len() <= u32::MAX,
    ensures
        same(*old(self), *final(self)), final(self).state == old(self).state, final(self).r1 == old(self).r1, final(self).index_value == old(self).index_value,
        final(self).frames@ == old(self).frames@.drop_last(), final(self).pc == old(self).frames@.last().return_pos,
        final(self).stack@.len() == old(self).frames@.last().stack_begin_pos + return_size,
        forall|j: int| 0 <= j < old(self).frames@.last().stack_begin_pos && j < old(self).stack@.len() ==> #[trigger] final(self).stack@[j] == old(self).stack@[j],
//@loop 0
    invariant
        zi <= return_size, clone_start_pos == self.stack.len() - return_size, frame == old(self).frames@.last(), self.stack@.len() == old(self).stack@.len(),
        return_size == 0 || frame.stack_begin_pos + return_size <= old(self).stack.len(),
        forall|j: int| 0 <= j < frame.stack_begin_pos && j < old(self).stack@.len() ==> #[trigger] self.stack@[j] == old(self).stack@[j],
        same(*old(self), *self), self.state == old(self).state, self.r1 == old(self).r1, self.index_value == old(self).index_value,
        self.frames@ == old(self).frames@.drop_last(),
    decreases return_size - zi,
//@end
#[verifier::exec_allows_no_decreases_clause]
//@fn src/polodb_core/vm/vm.rs VM::execute
//@rw the number of bytes as an offset: self.pc = self.pc.add($n); ~~> self.pc = ptr_add(&self.program.instructions, self.pc, $n); proof { lemma_step(v0, *self); }
//@rw the argument of the proof: self.ret(0); ~~> self.ret(0); proof { lemma_step(v0, *self); }
//@rw the argument of the proof: self.reset_location($n); ~~> self.reset_location($n); proof { lemma_step(v0, *self); }
//@arms op
//@ret r
//@spec
    requires vm_ok(*old(self)),
    ensures vm_ok(*final(self)), same(*old(self), *final(self)), r is Ok ==> final(self).state is HasRow || final(self).state is Halt,
//@after self.state = VmState::Running;
    proof { lemma_still(*old(self), *self); }
//@after self.r1 = None;
    proof { lemma_still(v0, *self); }
//@loop 0
    invariant running(*self), same(*old(self), *self), self.state is Running,
//@loopstart 0
    let ghost v0 = *self;
    proof { lemma_here(v0); }
//@after let op = $x;
    proof { lemma_byte(op, v0.m@[v0.pc as int].op); }
//@before return Ok(());
    proof { if !(self.state is Halt) { lemma_step(v0, *self); } }
//@end
}
/// one more value, of the type t
pub open spec fn pushed(a: VM, b: VM, t: Ty) -> bool { b.stack@ == a.stack@.push(b.stack@.last()) && ty_ok(b.stack@.last(), t) }
/// (what unit code proves of every program which was compiled)
#[verifier::opaque]
pub open spec fn compiled(p: SubProgram) -> bool { exists|write: bool| #[trigger] sound(p, write) }
proof fn lemma_start(p: SubProgram) -> (r: (bool, Code))
    requires compiled(p),
    ensures forall|v: VM| #![trigger vm_ok(v)] v.program == p && v.m@ == r.1 && v.write@ == r.0 && v.pc == 0 && v.stack@.len() == 0 && v.frames@.len() == 1 ==> vm_ok(v),
{
    reveal(running);
    reveal(made);
    reveal(compiled);
    let write = choose|write: bool| #[trigger] sound(p, write);
    let m = choose|m: Code| #[trigger] good(pool(p, write), p.instructions@, m);
    assert(good(pool(p, write), p.instructions@, m));
    (write, m)
}
