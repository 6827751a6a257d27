// C02, C08, C13, C22: what the operations of the virtual machine do to the database.
use vstd::prelude::*;
verus! {
#[derive(Debug)]
pub enum Error { NotAValidKeyType, Storage, DuplicateKey, UnexpectedType, Bson }
pub type Result<T> = std::result::Result<T, Error>;
//@trust _bson.rs
//@trust _doc.rs
//@trust _io.rs
//@trust _keyspec.rs
//@trust _keylemmas.rs
//@trust _kv.rs
//@trust _coll.rs
//@trust _index.rs
//@trust _cursor.rs

// ---- the machine, without its program counter and call frames ----
pub struct SubProgramIndexItem { pub col_name: String, pub indexes: IndexMap<String, IndexInfo> }
pub struct SubProgram { pub static_values: Vec<Bson>, pub index_infos: Vec<SubProgramIndexItem> }
pub struct Metrics { x: u8 }
impl Metrics {
    #[verifier::external_body]
    pub fn add_find_by_index_count(&self) { unimplemented!() }
}
pub struct Cell { pub v: bool }
impl Cell {
    pub fn set(&mut self, b: bool) ensures final(self).v == b, { self.v = b; }
}
pub struct VM {
    pub txn: TransactionInner,
    pub r0: i32,
    pub r1: Option<Cursor>,
    pub r2: i64,
    pub r4: i64,
    pub stack: Vec<Bson>,
    pub program: SubProgram,
    pub index_value: Option<Bson>,
    pub metrics: Metrics,
}
impl Bson {
    #[verifier::external_body]
    pub fn from(n: i64) -> (r: Bson) ensures r == Bson::Int64(n), { unimplemented!() }
    #[verifier::external_body]
    pub fn from_array(a: Vec<Bson>) -> (r: Bson) ensures r == Bson::Array(a), { unimplemented!() }
}
#[verifier::external_body]
fn clone_items(a: &Vec<Bson>) -> (r: Vec<Bson>) ensures r@ == a@, { unimplemented!() }
#[verifier::external_body]
fn drop_first(a: &mut Vec<Bson>)
    requires old(a).len() >= 1,
    ensures final(a)@ == old(a)@.skip(1),
{ unimplemented!() }
#[verifier::external_body]
fn set_at(a: &mut Vec<Bson>, i: usize, b: Bson)
    requires i < old(a).len(),
    ensures final(a)@ == old(a)@.update(i as int, b),
{ unimplemented!() }
/// the values of a key (proved in unit `keys`)
#[verifier::external_body]
fn split_stacked_keys(buffer: &[u8]) -> (r: Result<Vec<Bson>>)
    ensures forall|vs: Seq<Val>| valid(vs) && #[trigger] encs(vs) == buffer@ ==> r is Ok && vals(r->Ok_0@) == vs,
{ unimplemented!() }

/// the bytes a cursor is opened for
pub open spec fn prefix_of(b: Bson) -> Seq<u8> {
    match b { Bson::String(s) => pre1(s@), Bson::Binary(x) => x.bytes@, _ => Seq::empty() }
}
/// nothing but the cursor, the stack and the flags may differ
pub open spec fn quiet(a: &VM, b: &VM) -> bool { a.txn == b.txn && a.r2 == b.r2 && a.r4 == b.r4 && a.program == b.program }
/// the document under the cursor
pub open spec fn under(c: Cursor) -> Option<Document> {
    match c.pos() { Some(k) => if pref(c.pre(), k) { de(c.snap()[k]) } else { None }, None => None }
}
pub open spec fn inside(c: Cursor) -> bool { c.pos() is Some && pref(c.pre(), c.pos()->0) }
/// the entries of an index and nothing else
pub open spec fn index_cursor(x: Cursor, c: Seq<char>, i: Seq<char>) -> bool {
    &&& x.pre() == ipre2(c, i)
    &&& forall|k: Seq<u8>| #[trigger] x.snap().contains_key(k) && pref(ipre2(c, i), k) ==> entry_key(c, i, k)
}
pub open spec fn entry_key(c: Seq<char>, i: Seq<char>, k: Seq<u8>) -> bool {
    exists|v: Val, p: Val| wf(v) && wf(p) && k == #[trigger] ik(c, i, v, p)
}
/// the key k is an entry for v whose document was found
pub open spec fn entry_found(kv: KV, c: Seq<char>, i: Seq<char>, v: Val, k: Seq<u8>, b: Bson) -> bool {
    exists|p: Val| wf(p) && k == #[trigger] ik(c, i, v, p) && kv.contains_key(dk(c, p)) && de(kv[dk(c, p)]) is Some && b == Bson::Document(de(kv[dk(c, p)])->0)
}
pub open spec fn entry_dangling(kv: KV, c: Seq<char>, i: Seq<char>, v: Val, k: Seq<u8>) -> bool {
    exists|p: Val| wf(p) && k == #[trigger] ik(c, i, v, p) && !kv.contains_key(dk(c, p))
}
/// no entry for v lies at or behind the position
pub open spec fn no_entry_from(x: Cursor, c: Seq<char>, i: Seq<char>, v: Val) -> bool {
    x.pos() is None || !pref(ik1(c, i, v), x.pos()->0)
}
proof fn lemma_entry(c: Seq<char>, i: Seq<char>, v: Val, v2: Val, p: Val)
    requires wf(v2), wf(p), wf(v), pref(ik1(c, i, v), ik(c, i, v2, p)),
    ensures v == v2,
{ lemma_ik1_pref(c, i, v, c, i, v2, p); }

//@rule path: crate::utils::bson:: ~~>
//@rule documents by contract: let doc = bson::from_slice($x.as_ref())?; ~~> let doc = doc_from_slice($x.as_slice())?;
//@rule documents by contract: bson::to_vec($i_d)? ~~> doc_to_vec($i_d)?
//@rule iterators move: let db_iter = ~~> let mut db_iter =
//@rule comparison of bytes: $i_f.as_slice().cmp($i_k.as_slice()) != Ordering::Equal ~~> !bytes_eq($i_f.as_slice(), $i_k.as_slice())
//@rule tuple key: stacked_key(vec![$a, $b]) ~~> stacked_key2($a, $b)
//@rule the error, whatever its message: let name = format!("{}", $x); ~~>
//@rule the error, whatever its message: return Err(UnexpectedTypeForOpStruct { $m }.into()); ~~> return Err(Error::UnexpectedType);
//@rule writes go through a mutable transaction: let txn = &self.txn; ~~>
//@rule writes go through a mutable transaction: , txn)? ~~> , &mut self.txn)?
//@rule writes go through a mutable transaction: , txn,)? ~~> , &mut self.txn)?
//@rule writes go through a mutable transaction: cursor.update_current(txn, ~~> cursor.update_current(&mut self.txn,
//@rule out parameter: is_empty: &Cell<bool> ~~> is_empty: &mut Cell
//@rule first element out: $i_a.drain(0..1); ~~> drop_first($i_a);
//@rule array value: $i_a.into() ~~> Bson::from_array($i_a)
//@rule loop over the indexes as an indexed loop: for ($i_k, $i_v) in $i_m { ~~> let mut zi: usize = 0; while zi < $i_m.entries.len() { let ($i_k, $i_v) = &$i_m.entries[zi]; zi = zi + 1;

impl VM {
//@fn src/polodb_core/vm/vm.rs VM::prefix_bytes_from_bson
//@rw a value of another type is a bug of the compiler: _ => panic!($m), ~~> _ => { vstd::pervasive::unreached() }
//@ret r
//@spec
    requires val is String || val is Binary,
    ensures r is Ok, r->Ok_0@ == prefix_of(val),
//@start
    proof { assert(Seq::<u8>::empty() + prefix_of(val) =~= prefix_of(val)); if val is String { assert(self::val(val) == Val::Str(val->String_0@)); } }
//@end
//@fn src/polodb_core/vm/vm.rs VM::open_read
//@ret r
//@spec
    requires prefix is String || prefix is Binary,
    ensures
        r is Ok, quiet(old(self), final(self)), final(self).stack == old(self).stack, final(self).r0 == old(self).r0,
        final(self).r1 is Some, final(self).r1->0.pre() == prefix_of(prefix), final(self).r1->0.snap() == old(self).txn.kv(),
//@end
//@fn src/polodb_core/vm/vm.rs VM::open_write
//@ret r
//@spec
    requires prefix is String || prefix is Binary,
    ensures
        r is Ok, quiet(old(self), final(self)), final(self).stack == old(self).stack, final(self).r0 == old(self).r0,
        final(self).r1 is Some, final(self).r1->0.pre() == prefix_of(prefix), final(self).r1->0.snap() == old(self).txn.kv(),
//@end
//@fn src/polodb_core/vm/vm.rs VM::reset_cursor
//@ret r
//@spec
    requires old(self).r1 is Some,
    ensures
        quiet(old(self), final(self)), final(self).r0 == old(self).r0, final(self).r1 is Some, final(self).r1->0.same(&old(self).r1->0),
        is_first(old(self).r1->0.snap(), old(self).r1->0.pre(), final(self).r1->0.pos()),
        r is Ok ==> final(self).r1->0.ok() && final(is_empty).v == !inside(final(self).r1->0)
            && (if inside(final(self).r1->0) {
                under(final(self).r1->0) is Some && final(self).stack@ == old(self).stack@.push(Bson::Document(under(final(self).r1->0)->0))
            } else { final(self).stack == old(self).stack }),
//@end
//@fn src/polodb_core/vm/vm.rs VM::find_by_primary_key
//@ret r
//@spec
    requires old(self).r1 is Some, old(self).stack.len() >= 1,
    ensures
        quiet(old(self), final(self)), final(self).r0 == old(self).r0, final(self).r1 is Some, final(self).r1->0.same(&old(self).r1->0),
        match r {
            Ok(b) => {
                let k = old(self).r1->0.pre() + enc(val(old(self).stack@.last()));
                let kv = old(self).r1->0.snap();
                b == kv.contains_key(k) && (if b {
                    final(self).r1->0.ok() && final(self).r1->0.pos() == Some(k) && de(kv[k]) is Some
                        && final(self).stack@ == old(self).stack@.push(Bson::Document(de(kv[k])->0))
                } else { final(self).stack == old(self).stack })
            },
            Err(_) => true,
        },
//@end
//@fn src/polodb_core/vm/vm.rs VM::read_index_value_by_index_key
//@ret r
//@spec
    requires exists|c: Seq<char>, i: Seq<char>| #[trigger] entry_key(c, i, index_key@),
    ensures
        *final(self) == *old(self),
        match r {
            Ok(Some(b)) => read_as(old(self).txn.kv(), index_key@, Some(b)),
            Ok(None) => read_as(old(self).txn.kv(), index_key@, None),
            Err(e) => e is Storage || e is Bson,
        },
//@start
    let ghost (c, i) = choose|c: Seq<char>, i: Seq<char>| #[trigger] entry_key(c, i, index_key@);
    let ghost (v, p) = choose|v: Val, p: Val| wf(v) && wf(p) && index_key@ == #[trigger] ik(c, i, v, p);
    let ghost vs = seq![Val::Str("$I"@), Val::Str(c), Val::Str(i), v, p];
    proof {
        lemma_encs(vs);
        lemma_forms(c, i, v, p);
        assert(valid(vs));
        assert forall|c2: Seq<char>, i2: Seq<char>, v2: Val, p2: Val| wf(v2) && wf(p2) && index_key@ == #[trigger] ik(c2, i2, v2, p2)
            implies c2 == c && i2 == i && v2 == v && p2 == p by { lemma_ik_inj(c, i, v, p, c2, i2, v2, p2); }
    }
//@bind let $i_s = split_stacked_keys($x)?;
//@after let $i_s = split_stacked_keys($x)?;
    proof { assert(vals($i_s@) == vs); assert(vals($i_s@)[1] == val($i_s@[1])); assert(vals($i_s@)[4] == val($i_s@[4])); }
//@bind db_iter.seek($i_k.as_slice());
//@after db_iter.seek($i_k.as_slice());
    proof {
        assert($i_k@ == dk(c, p));
        lemma_le_refl($i_k@);
        if db_iter.pos() is Some { lemma_le_total(db_iter.pos()->0, $i_k@); }
    }
//@end
//@fn src/polodb_core/vm/vm.rs VM::find_by_index
//@ret r
//@spec
    requires
        old(self).r1 is Some, old(self).stack.len() >= 2,
        exists|c: Seq<char>, i: Seq<char>| #[trigger] index_cursor(old(self).r1->0, c, i),
    ensures
        quiet(old(self), final(self)), final(self).r0 == old(self).r0, final(self).r1 is Some, final(self).r1->0.same(&old(self).r1->0),
        match r {
            Ok(b) => {
                let x = final(self).r1->0;
                let q = old(self).stack@[old(self).stack.len() - 2];
                let t = old(self).r1->0.pre() + enc(val(q));
                &&& wf(val(q)) && x.ok() && final(self).index_value == Some(q) && is_first(x.snap(), t, x.pos())
                &&& found_at(old(self), final(self), t, b)
            },
            Err(_) => true,
        },
//@bind let $i_k = cursor.peek_key().expect($m);
//@after let $i_k = cursor.peek_key().expect($m);
    proof {
        let (c, i) = choose|c: Seq<char>, i: Seq<char>| #[trigger] index_cursor(old(self).r1->0, c, i);
        lemma_pref_cut(ipre2(c, i), enc(val(*query_value)), $i_k@);
        assert(entry_key(c, i, $i_k@));
    }
//@end
//@fn src/polodb_core/vm/vm.rs VM::next
//@rw a limit checked in debug builds: debug_assert!($m); ~~>
//@ret r
//@spec
    requires old(self).r1 is Some, old(self).r1->0.pos() is Some,
    ensures
        quiet(old(self), final(self)), final(self).r1 is Some, final(self).r1->0.same(&old(self).r1->0),
        is_next(old(self).r1->0.snap(), old(self).r1->0.pos()->0, final(self).r1->0.pos()),
        r is Ok ==> final(self).r1->0.ok() && (final(self).r0 != 0) == inside(final(self).r1->0)
            && (if inside(final(self).r1->0) {
                under(final(self).r1->0) is Some && final(self).stack@ == old(self).stack@.push(Bson::Document(under(final(self).r1->0)->0))
            } else { final(self).stack == old(self).stack }),
//@end
//@fn src/polodb_core/vm/vm.rs VM::next_index_value
//@ret r
//@spec
    requires
        old(self).r1 is Some, old(self).r1->0.pos() is Some, old(self).index_value is Some, wf(val(old(self).index_value->0)),
        exists|c: Seq<char>, i: Seq<char>| #[trigger] index_cursor(old(self).r1->0, c, i),
    ensures
        quiet(old(self), final(self)), final(self).r1 is Some, final(self).r1->0.same(&old(self).r1->0), final(self).index_value == old(self).index_value,
        is_next(old(self).r1->0.snap(), old(self).r1->0.pos()->0, final(self).r1->0.pos()),
        r is Ok ==> final(self).r1->0.ok() && found_at(old(self), final(self), old(self).r1->0.pre() + enc(val(old(self).index_value->0)), final(self).r0 != 0),
//@bind if !$i_k.starts_with($i_b.as_slice())
//@before let $i_o = self.read_index_value_by_index_key
    proof {
        let (c, i) = choose|c: Seq<char>, i: Seq<char>| #[trigger] index_cursor(old(self).r1->0, c, i);
        lemma_pref_cut(ipre2(c, i), enc(val(*index_value)), $i_k@);
        assert(entry_key(c, i, $i_k@));
    }
//@end
//@fn src/polodb_core/vm/vm.rs VM::unset_field
//@ret r
//@spec
    requires
        field_id < old(self).program.static_values.len(), old(self).program.static_values@[field_id as int] is String,
        old(self).stack.len() >= 1, old(self).stack@.last() is Document,
    ensures
        r is Ok, quiet(old(self), final(self)), final(self).r0 == old(self).r0, final(self).r1 == old(self).r1,
        final(self).stack.len() == old(self).stack.len(), final(self).stack@.drop_last() == old(self).stack@.drop_last(),
        final(self).stack@.last() is Document,
        dv(final(self).stack@.last()->Document_0) == d_rem(dv(old(self).stack@.last()->Document_0), old(self).program.static_values@[field_id as int]->String_0@),
//@end
//@fn src/polodb_core/vm/vm.rs VM::array_size
//@ret r
//@spec
    requires self.stack.len() >= 1,
    ensures (match self.stack@.last() { Bson::Array(a) => r == Bson::Int64(a.len() as i64), _ => r == Bson::Null }),
//@end
//@fn src/polodb_core/vm/vm.rs VM::stack_top
//@ret r
//@spec
    requires self.stack.len() >= 1,
    ensures *r == self.stack@.last(),
//@end
//@fn src/polodb_core/vm/vm.rs VM::update_current
//@ret r
//@spec
    requires
        old(self).r0 != 0 ==> old(self).stack.len() >= 1 && old(self).stack@.last() is Document && old(self).r1 is Some,
        old(self).r4 < i64::MAX,
    ensures
        final(self).r1 == old(self).r1, final(self).stack == old(self).stack, final(self).program == old(self).program, final(self).r0 == old(self).r0,
        final(self).r2 == old(self).r2,
        match r {
            Ok(_) => if old(self).r0 != 0 && old(self).r1->0.current_key is Some {
                ser(old(self).stack@.last()->Document_0) is Some
                && final(self).txn.kv() == old(self).txn.kv().insert(old(self).r1->0.current_key->0@, ser(old(self).stack@.last()->Document_0)->0)
                && final(self).r4 == old(self).r4 + 1
            } else { final(self).txn.kv() == old(self).txn.kv() && final(self).r4 == old(self).r4 },
            Err(_) => final(self).txn.kv() == old(self).txn.kv() && final(self).r4 == old(self).r4,
        },
//@end
//@fn src/polodb_core/vm/vm.rs VM::insert_index
//@ret r
//@spec
    requires item_ok(old(self), index_info_id),
    ensures indexes_done(old(self), final(self), index_info_id, IndexHelperOperation::Insert, r),
//@bind let $i_info = &self.program.index_infos[$x];
//@bind let $i_d = self.stack[$y].as_document().unwrap();
//@bind let $i_p = $i_d.get("_id").unwrap();
//@bind let $i_m = &$i_info.indexes;
//@loopstart 0
    proof { assert(items($i_info.indexes)[zi as int] == ($i_m.entries@[zi as int].0@, idx($i_m.entries@[zi as int].1))); }
//@loop 0
    invariant
        zi <= $i_m.entries.len(), *$i_m == $i_info.indexes, *$i_info == old(self).program.index_infos@[index_info_id as int],
        item_ok(old(self), index_info_id),
        *$i_d == old(self).stack@.last()->Document_0, Some(val(*$i_p)) == pk(*$i_d),
        self.program == old(self).program, self.stack == old(self).stack, self.r0 == old(self).r0, self.r1 == old(self).r1, self.r2 == old(self).r2, self.r4 == old(self).r4, self.index_value == old(self).index_value,
        ixn(old(self).txn.kv(), $i_info.col_name@, items($i_info.indexes), zi as int, *$i_d, val(*$i_p), IndexHelperOperation::Insert) == Some(self.txn.kv()),
    decreases $i_m.entries.len() - zi,
//@end
//@fn src/polodb_core/vm/vm.rs VM::delete_index
//@ret r
//@spec
    requires item_ok(old(self), index_info_id),
    ensures indexes_done(old(self), final(self), index_info_id, IndexHelperOperation::Delete, r),
//@bind let $i_info = &self.program.index_infos[$x];
//@bind let $i_d = self.stack[$y].as_document().unwrap();
//@bind let $i_p = $i_d.get("_id").unwrap();
//@bind let $i_m = &$i_info.indexes;
//@loopstart 0
    proof { assert(items($i_info.indexes)[zi as int] == ($i_m.entries@[zi as int].0@, idx($i_m.entries@[zi as int].1))); }
//@loop 0
    invariant
        zi <= $i_m.entries.len(), *$i_m == $i_info.indexes, *$i_info == old(self).program.index_infos@[index_info_id as int],
        item_ok(old(self), index_info_id),
        *$i_d == old(self).stack@.last()->Document_0, Some(val(*$i_p)) == pk(*$i_d),
        self.program == old(self).program, self.stack == old(self).stack, self.r0 == old(self).r0, self.r1 == old(self).r1, self.r2 == old(self).r2, self.r4 == old(self).r4, self.index_value == old(self).index_value,
        ixn(old(self).txn.kv(), $i_info.col_name@, items($i_info.indexes), zi as int, *$i_d, val(*$i_p), IndexHelperOperation::Delete) == Some(self.txn.kv()),
    decreases $i_m.entries.len() - zi,
//@end
}
/// what the entry at the key k leads to
pub open spec fn read_as(kv: KV, k: Seq<u8>, b: Option<Bson>) -> bool {
    forall|c: Seq<char>, i: Seq<char>, v: Val, p: Val| wf(v) && wf(p) && k == #[trigger] ik(c, i, v, p) ==> (match b {
        Some(b) => kv.contains_key(dk(c, p)) && de(kv[dk(c, p)]) is Some && b == Bson::Document(de(kv[dk(c, p)])->0),
        None => !kv.contains_key(dk(c, p)),
    })
}

pub open spec fn items(m: IndexMap<String, IndexInfo>) -> Seq<(Seq<char>, Idx)> { m.entries@.map_values(|e: (String, IndexInfo)| (e.0@, idx(e.1))) }
pub open spec fn item_ok(m: &VM, n: u32) -> bool {
    &&& n < m.program.index_infos.len()
    &&& forall|j: int| 0 <= j < m.program.index_infos@[n as int].indexes.entries@.len() ==> wf_info((#[trigger] m.program.index_infos@[n as int].indexes.entries@[j]).1)
    &&& m.stack.len() >= 1 && m.stack@.last() is Document
    &&& pk(m.stack@.last()->Document_0) is Some
}
/// the indexes of the collection were maintained for the document on top of the stack, and nothing else happened
pub open spec fn indexes_done(a: &VM, b: &VM, n: u32, op: IndexHelperOperation, r: Result<()>) -> bool {
    let it = a.program.index_infos@[n as int];
    let l = items(it.indexes);
    let d = a.stack@.last()->Document_0;
    &&& b.stack == a.stack && b.program == a.program && b.r0 == a.r0 && b.r1 == a.r1 && b.r2 == a.r2 && b.r4 == a.r4 && b.index_value == a.index_value
    &&& match r {
        Ok(_) => ixn(a.txn.kv(), it.col_name@, l, l.len() as int, d, pk(d)->0, op) == Some(b.txn.kv()),
        Err(e) => exists|n: int| n >= 0 && some(#[trigger] l[n]) && stopped(n, a.txn.kv(), it.col_name@, l, d, pk(d)->0, op, e, b.txn.kv()),
    }
}
/// the cursor's position carries the prefix t and its document was pushed, or neither
pub open spec fn found_at(a: &VM, b: &VM, t: Seq<u8>, found: bool) -> bool {
    let x = b.r1->0;
    if found {
        &&& x.pos() is Some && pref(t, x.pos()->0)
        &&& b.stack@ == a.stack@.push(b.stack@.last())
        &&& read_as(a.txn.kv(), x.pos()->0, Some(b.stack@.last()))
    } else {
        &&& b.stack == a.stack
        &&& x.pos() is None || !pref(t, x.pos()->0) || read_as(a.txn.kv(), x.pos()->0, None)
    }
}
proof fn lemma_pref_cut(a: Seq<u8>, b: Seq<u8>, k: Seq<u8>)
    requires pref(a + b, k),
    ensures pref(a, k),
{
    lemma_pref_split(a + b, k);
    cat3(a, b, k.skip((a + b).len() as int));
    lemma_pref_add(a, b + k.skip((a + b).len() as int));
}

// ---- what a scan yields (C02, C08, C13) ----
/// ks are the positions of a scan of the keys with the prefix p
pub open spec fn scan(kv: KV, p: Seq<u8>, ks: Seq<Seq<u8>>) -> bool {
    forall|j: int| 0 <= j < ks.len() ==> #[trigger] step_at(kv, p, ks, j)
}
pub open spec fn step_at(kv: KV, p: Seq<u8>, ks: Seq<Seq<u8>>, j: int) -> bool {
    pref(p, ks[j]) && (if j == 0 { is_first(kv, p, Some(ks[j])) } else { is_next(kv, ks[j - 1], Some(ks[j])) })
}
pub open spec fn ended(kv: KV, p: Seq<u8>, ks: Seq<Seq<u8>>, at: Option<Seq<u8>>) -> bool {
    &&& if ks.len() == 0 { is_first(kv, p, at) } else { is_next(kv, ks.last(), at) }
    &&& at is None || !pref(p, at->0)
}
proof fn lemma_scan(kv: KV, p: Seq<u8>, ks: Seq<Seq<u8>>, k: Seq<u8>, n: int)
    requires scan(kv, p, ks), kv.contains_key(k), pref(p, k), 0 <= n < ks.len(), forall|j: int| 0 <= j <= n ==> ks[j] != k,
    ensures lt(ks[n], k),
    decreases n,
{
    assert(step_at(kv, p, ks, n));
    if n == 0 { lemma_pref_le(p, k); } else {
        lemma_scan(kv, p, ks, k, n - 1);
        assert(step_at(kv, p, ks, n - 1));
    }
    lemma_le_total(ks[n], k);
    assert(le(ks[n], k));
}
/// every key with the prefix is visited exactly once, in order, and no other key is
proof fn c02_scan(kv: KV, p: Seq<u8>, ks: Seq<Seq<u8>>, at: Option<Seq<u8>>)
    requires scan(kv, p, ks), ended(kv, p, ks, at),
    ensures
        forall|k: Seq<u8>| #[trigger] ks.contains(k) == (kv.contains_key(k) && pref(p, k)),
        ks.no_duplicates(),
{
    assert forall|k: Seq<u8>| #[trigger] ks.contains(k) == (kv.contains_key(k) && pref(p, k)) by {
        if ks.contains(k) {
            let j = choose|j: int| 0 <= j < ks.len() && ks[j] == k;
            assert(step_at(kv, p, ks, j));
        } else if kv.contains_key(k) && pref(p, k) {
            lemma_pref_le(p, k);
            if ks.len() > 0 {
                assert forall|j: int| 0 <= j <= ks.len() - 1 implies ks[j] != k by { if ks[j] == k { assert(ks.contains(k)); } }
                lemma_scan(kv, p, ks, k, ks.len() - 1);
                assert(step_at(kv, p, ks, ks.len() - 1));
                lemma_step_prefix(kv, p, ks.last(), at, k);
            } else { lemma_seek_prefix(kv, p, at, k); }
        }
    }
    assert forall|a: int, b: int| 0 <= a < b < ks.len() implies ks[a] != ks[b] by { lemma_sorted(kv, p, ks, a, b); }
}
proof fn lemma_sorted(kv: KV, p: Seq<u8>, ks: Seq<Seq<u8>>, a: int, b: int)
    requires scan(kv, p, ks), 0 <= a < b < ks.len(),
    ensures lt(ks[a], ks[b]),
    decreases b - a,
{
    assert(step_at(kv, p, ks, b));
    if a < b - 1 {
        lemma_sorted(kv, p, ks, a, b - 1);
        lemma_lt_trans(ks[a], ks[b - 1], ks[b]);
    }
}
proof fn lemma_lt_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires lt(a, b), lt(b, c),
    ensures lt(a, c),
{
    lemma_le_trans(a, b, c);
    if a == c { lemma_le_total(a, b); }
}
/// the document behind an entry for the value v
proof fn lemma_entry_doc(kv: KV, c: Seq<char>, s: CollectionSpecification, n: int, v: Val, k: Seq<u8>) -> (p: Val)
    requires
        okname(c), inv(kv, c), spec_at(kv, c) == Some(s), 0 <= n < il(s).len(), wf(v),
        kv.contains_key(k), pref(ik1(c, il(s)[n].0, v), k),
    ensures wf(p), k == ik(c, il(s)[n].0, v, p), doc_at(kv, c, p) is Some, pathv(doc_at(kv, c, p)->0, il(s)[n].1.path) == Some(v),
{
    let l = il(s);
    cat3(ipre(c), pre1(l[n].0), enc(v));
    lemma_pref_cut(ipre(c), pre1(l[n].0) + enc(v), k);
    let (m, p) = choose|m: int, p: Val| 0 <= m < l.len() && #[trigger] is_entry(kv, c, l[m], p, k);
    lemma_ik1_pref(c, l[n].0, v, c, l[m].0, pathv(doc_at(kv, c, p)->0, l[m].1.path)->0, p);
    assert(m == n) by { if m < n { assert(l[m].0 != l[n].0); } else if n < m { assert(l[n].0 != l[m].0); } }
    p
}
pub open spec fn entry_at(kv: KV, c: Seq<char>, i: (Seq<char>, Idx), v: Val, k: Seq<u8>) -> bool {
    exists|p: Val| wf(p) && k == #[trigger] ik(c, i.0, v, p) && doc_at(kv, c, p) is Some && pathv(doc_at(kv, c, p)->0, i.1.path) == Some(v)
}
/// a full scan of a collection yields each document of the collection once, each under its own primary key, and nothing else
proof fn c02_collection_scan(kv: KV, c: Seq<char>, ks: Seq<Seq<u8>>, at: Option<Seq<u8>>)
    requires okname(c), inv(kv, c), scan(kv, pre1(c), ks), ended(kv, pre1(c), ks, at),
    ensures
        forall|j: int| 0 <= j < ks.len() ==> doc_key(kv, c, #[trigger] ks[j]),
        forall|p: Val| wf(p) && (#[trigger] doc_at(kv, c, p)) is Some ==> ks.contains(dk(c, p)),
        ks.no_duplicates(),
{
    c02_scan(kv, pre1(c), ks, at);
    assert forall|j: int| 0 <= j < ks.len() implies doc_key(kv, c, #[trigger] ks[j]) by { assert(ks.contains(ks[j])); }
    assert forall|p: Val| wf(p) && (#[trigger] doc_at(kv, c, p)) is Some implies ks.contains(dk(c, p)) by {
        lemma_pref_add(pre1(c), enc(p));
        assert(kv.contains_key(dk(c, p)));
    }
}
/// a scan of the entries of one value of an index meets each document that has the value once, and no other (C08, C13)
proof fn c08_index_scan(kv: KV, c: Seq<char>, s: CollectionSpecification, n: int, v: Val, ks: Seq<Seq<u8>>, at: Option<Seq<u8>>)
    requires
        okname(c), inv(kv, c), spec_at(kv, c) == Some(s), 0 <= n < il(s).len(), wf(v),
        scan(kv, ik1(c, il(s)[n].0, v), ks), ended(kv, ik1(c, il(s)[n].0, v), ks, at),
    ensures
        forall|j: int| 0 <= j < ks.len() ==> entry_at(kv, c, il(s)[n], v, #[trigger] ks[j]),
        forall|p: Val| wf(p) && (#[trigger] doc_at(kv, c, p)) is Some && pathv(doc_at(kv, c, p)->0, il(s)[n].1.path) == Some(v) ==> ks.contains(ik(c, il(s)[n].0, v, p)),
        ks.no_duplicates(),
{
    let l = il(s);
    c02_scan(kv, ik1(c, l[n].0, v), ks, at);
    assert forall|j: int| 0 <= j < ks.len() implies entry_at(kv, c, l[n], v, #[trigger] ks[j]) by {
        assert(ks.contains(ks[j]));
        let p = lemma_entry_doc(kv, c, s, n, v, ks[j]);
    }
    assert forall|p: Val| wf(p) && (#[trigger] doc_at(kv, c, p)) is Some && pathv(doc_at(kv, c, p)->0, l[n].1.path) == Some(v) implies ks.contains(ik(c, l[n].0, v, p)) by {
        assert(indexed(kv, c, l[n]));
        assert(has_entry(kv, c, l[n], p));
        lemma_pref_add(ik1(c, l[n].0, v), enc(p));
    }
}

} // verus!
fn main() {}
