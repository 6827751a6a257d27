// C06, C07: what the update operators do to a document.
use vstd::prelude::*;
verus! {
//@import _bson.rs
//@import _doc.rs
//@rule refused, whatever the message: return Err(CannotApplyOperationForTypes { $m }.into()); ~~> return Err(Error::Refused);
//@rule refused, whatever the message: return Err(FieldTypeUnexpectedStruct { $m }.into()); ~~> return Err(Error::Refused);
//@rule refused, whatever the message: return Err(Error::InvalidField($m)) ~~> return Err(Error::Refused)
//@rule dropped text of the error message: let name = format!($m); ~~>
//@rule error path without the crate prefix: crate::Error:: ~~> Error::
//@rule trait path: <dyn UpdateOperator>:: ~~> AnyOperator::
//@rule loop over a document as an indexed loop: for ($i_k, $i_v) in $x.iter() { ~~> let mut zi: usize = 0; while zi < $x.entries.len() { let ($i_k, $i_v) = &$x.entries[zi]; zi = zi + 1;
//@rule loop over a document as an indexed loop: for ($i_k, _) in $x.iter() { ~~> let mut zi: usize = 0; while zi < $x.entries.len() { let ($i_k, _) = &$x.entries[zi]; zi = zi + 1;
//@rule loop over a list as an indexed loop: for $i_k in &$x { ~~> let mut zi: usize = 0; while zi < $x.len() { let $i_k = &$x[zi]; zi = zi + 1;
//@rule string equality by contract: $i_k == "_id" ~~> str_eq($i_k, "_id")
//@rule checked result: $x.map(Bson::Int64).ok_or($e) ~~> match $x { Some(x) => Ok(Bson::Int64(x)), None => Err($e) }
//@rule integer to double by contract: *$i_x as f64 ~~> i2f(*$i_x as i64)
//@rule double sum by contract: Bson::Double($x + $y) ~~> Bson::Double(fadd($x, $y))
//@rule double product by contract: Bson::Double($x * $y) ~~> Bson::Double(fmul($x, $y))
//@rule generic arguments: .insert::<String, Bson>( ~~> .insert(
//@rule owned name: key.into(), ~~> key,
//@rule default of a missing value: = $x.unwrap_or(&Bson::Null) ~~> = or_null($x)

//@rule list of one: vec![$x] ~~> one($x)
fn one(a: Bson) -> (r: Vec<Bson>) ensures r@ == seq![a], { let mut v: Vec<Bson> = Vec::new(); v.push(a); proof { assert(v@ =~= seq![a]); } v }

pub enum Error { Refused, UnableToUpdatePrimaryKey, IncrementNullField, DataOverflow }
type Result<T> = core::result::Result<T, Error>;
pub struct UpdateResult { pub updated: bool }
pub struct AnyOperator;

#[verifier::external_body]
fn str_eq<K: Name + ?Sized>(a: &K, b: &str) -> (r: bool) ensures r == (a.nm() == b@), { unimplemented!() }

fn or_null<'a>(a: Option<&'a Bson>) -> (r: &'a Bson)
    ensures *r == (match a { Some(v) => *v, None => Bson::Null }),
{ match a { Some(v) => v, None => &Bson::Null } }

pub uninterp spec fn s_i2f(a: int) -> f64;
pub uninterp spec fn s_fadd(a: f64, b: f64) -> f64;
pub uninterp spec fn s_fmul(a: f64, b: f64) -> f64;
#[verifier::external_body]
fn i2f(a: i64) -> (r: f64) ensures r == s_i2f(a as int), { unimplemented!() }
#[verifier::external_body]
fn fadd(a: f64, b: f64) -> (r: f64) ensures r == s_fadd(a, b), { unimplemented!() }
#[verifier::external_body]
fn fmul(a: f64, b: f64) -> (r: f64) ensures r == s_fmul(a, b), { unimplemented!() }

// ---- the order of C03, by contract ----
#[derive(Structural, PartialEq, Eq, Clone, Copy)]
pub enum Ordering { Less, Equal, Greater }
#[derive(Structural, PartialEq, Eq, Clone, Copy)]
pub enum DbOp { Equal, Greater, GreaterEqual, Less, LessEqual, Other }
pub uninterp spec fn s_cmp(a: Bson, b: Bson) -> Option<Ordering>;
#[verifier::external_body]
fn value_cmp(a: &Bson, b: &Bson) -> (r: Result<Ordering>)
    ensures (match r { Ok(o) => s_cmp(*a, *b) == Some(o), Err(_) => s_cmp(*a, *b) is None }),
{ unimplemented!() }

pub open spec fn holds(op: DbOp, o: Ordering) -> bool {
    match op {
        DbOp::Equal => o == Ordering::Equal,
        DbOp::Greater => o == Ordering::Greater,
        DbOp::GreaterEqual => o != Ordering::Less,
        DbOp::Less => o == Ordering::Less,
        DbOp::LessEqual => o != Ordering::Greater,
        DbOp::Other => false,
    }
}

//@fn src/polodb_core/vm/op.rs generic_cmp
//@rw path: crate::utils::bson::value_cmp ~~> value_cmp
//@rw path: crate::Result ~~> Result
//@ret r
//@spec
    ensures (match r { Ok(b) => s_cmp(*val1, *val2) is Some && b == holds(op, s_cmp(*val1, *val2)->0), Err(_) => s_cmp(*val1, *val2) is None }),
//@end

// ---- $inc, $mul ----
pub open spec fn fits32(n: int) -> bool { i32::MIN <= n <= i32::MAX }
pub open spec fn fits64(n: int) -> bool { i64::MIN <= n <= i64::MAX }
pub open spec fn is_int(v: Bson) -> bool { v is Int32 || v is Int64 }
pub open spec fn ival(v: Bson) -> int { match v { Bson::Int32(i) => i as int, Bson::Int64(i) => i as int, _ => 0 } }
pub open spec fn is_num(v: Bson) -> bool { is_int(v) || v is Double }
pub open spec fn fval(v: Bson) -> f64 { match v { Bson::Double(d) => d, _ => s_i2f(ival(v)) } }

/// integers: the exact result, as int32 when both operands are and it fits, or as int64, or refused
pub open spec fn exact(a: Bson, b: Bson, n: int) -> Option<Bson> {
    if a is Int32 && b is Int32 && fits32(n) { Some(Bson::Int32(n as i32)) }
    else if fits64(n) { Some(Bson::Int64(n as i64)) }
    else { None }
}
pub open spec fn s_inc(a: Bson, b: Bson) -> Option<Bson> {
    if !is_num(a) || !is_num(b) { None }
    else if is_int(a) && is_int(b) { exact(a, b, ival(a) + ival(b)) }
    else { Some(Bson::Double(s_fadd(fval(a), fval(b)))) }
}
pub open spec fn s_mul(a: Bson, b: Bson) -> Option<Bson> {
    if !is_num(a) || !is_num(b) { None }
    else if is_int(a) && is_int(b) { exact(a, b, ival(a) * ival(b)) }
    else { Some(Bson::Double(s_fmul(fval(a), fval(b)))) }
}
pub open spec fn opt(r: Result<Bson>) -> Option<Bson> { match r { Ok(v) => Some(v), Err(_) => None } }

proof fn lemma_mul32(a: int, b: int)
    requires fits32(a), fits32(b),
    ensures fits64(a * b),
{
    assert(-0x4000_0000_0000_0000 <= a * b <= 0x4000_0000_0000_0000) by (nonlinear_arith)
        requires -0x8000_0000 <= a <= 0x7fff_ffff, -0x8000_0000 <= b <= 0x7fff_ffff;
}

pub struct IncOperator { doc: Document }
impl IncOperator {
//@fn src/polodb_core/vm/update_operators/inc_operator.rs IncOperator::add_int64
//@ret r
//@spec
    ensures (match r { Ok(v) => fits64(a + b) && v == Bson::Int64((a + b) as i64), Err(_) => !fits64(a + b) }),
//@end
//@fn src/polodb_core/vm/update_operators/inc_operator.rs IncOperator::inc_numeric
//@ret r
//@spec
    ensures opt(r) == s_inc(*a, *b),
//@end
//@fn src/polodb_core/vm/update_operators/inc_operator.rs IncOperator::inc_field
//@ret r
//@spec
    ensures
        r is Ok == (inc_step()((key@, value), dv(*old(doc)), true) is Some),
        r is Ok ==> inc_step()((key@, value), dv(*old(doc)), true) == Some((dv(*final(doc)), true)),
//@end
//@fn src/polodb_core/vm/update_operators/inc_operator.rs IncOperator::compile
//@ret r
//@spec
    ensures r is Ok ==> r->Ok_0.doc == doc && no_id(dv(doc)) && all_num(dv(doc)), r is Err ==> !(no_id(dv(doc)) && all_num(dv(doc))),
//@end
//@fn src/polodb_core/vm/update_operators/inc_operator.rs UpdateOperator for IncOperator::update
//@ret r
//@spec
    requires *old(value) is Document,
    ensures follows(r, *old(value), *final(value), dv(self.doc), inc_step()),
//@loop 0
    invariant
        zi <= self.doc.entries.len(),
        *old(value) is Document,
        fold(dv(self.doc), zi as int, dv((*old(value))->Document_0), inc_step()) == Some((dv(*doc), updated)),
    decreases self.doc.entries.len() - zi,
//@loopstart 0
    proof { lemma_fold_next(dv(self.doc), zi as int, dv((*old(value))->Document_0), inc_step()); }
//@end
}
pub open spec fn inc_step() -> spec_fn((Seq<char>, Bson), DV, bool) -> St {
    |o: (Seq<char>, Bson), d: DV, u: bool| match d_get(d, o.0) {
        None => Some((d_ins(d, o.0, o.1), true)),
        Some(old) => match s_inc(old, o.1) { Some(v) => Some((d_ins(d, o.0, v), true)), None => None },
    }
}

pub struct MulOperator { doc: Document }
impl MulOperator {
//@fn src/polodb_core/vm/update_operators/mul_operator.rs MulOperator::mul_int64
//@ret r
//@spec
    ensures (match r { Ok(v) => fits64(a * b) && v == Bson::Int64((a * b) as i64), Err(_) => !fits64(a * b) }),
//@end
//@fn src/polodb_core/vm/update_operators/mul_operator.rs MulOperator::mul_numeric
//@ret r
//@spec
    ensures opt(r) == s_mul(*a, *b),
//@start
    proof { if *a is Int32 && *b is Int32 { lemma_mul32(ival(*a), ival(*b)); } }
//@end
//@fn src/polodb_core/vm/update_operators/mul_operator.rs MulOperator::mul_field
//@ret r
//@spec
    ensures
        r is Ok == (mul_step()((key@, value), dv(*old(doc)), true) is Some),
        r is Ok ==> mul_step()((key@, value), dv(*old(doc)), true) == Some((dv(*final(doc)), true)),
//@end
//@fn src/polodb_core/vm/update_operators/mul_operator.rs MulOperator::compile
//@ret r
//@spec
    ensures r is Ok ==> r->Ok_0.doc == doc && no_id(dv(doc)) && all_num(dv(doc)), r is Err ==> !(no_id(dv(doc)) && all_num(dv(doc))),
//@end
//@fn src/polodb_core/vm/update_operators/mul_operator.rs UpdateOperator for MulOperator::update
//@ret r
//@spec
    requires *old(value) is Document,
    ensures follows(r, *old(value), *final(value), dv(self.doc), mul_step()),
//@loop 0
    invariant
        zi <= self.doc.entries.len(),
        *old(value) is Document,
        fold(dv(self.doc), zi as int, dv((*old(value))->Document_0), mul_step()) == Some((dv(*doc), updated)),
    decreases self.doc.entries.len() - zi,
//@loopstart 0
    proof { lemma_fold_next(dv(self.doc), zi as int, dv((*old(value))->Document_0), mul_step()); }
//@end
}
pub open spec fn mul_step() -> spec_fn((Seq<char>, Bson), DV, bool) -> St {
    |o: (Seq<char>, Bson), d: DV, u: bool| match d_get(d, o.0) {
        None => Some((d_ins(d, o.0, o.1), true)),
        Some(old) => match s_mul(old, o.1) { Some(v) => Some((d_ins(d, o.0, v), true)), None => None },
    }
}

// ---- the others ----
pub open spec fn no_id(s: DV) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 != "_id"@ }
pub open spec fn all_num(s: DV) -> bool { forall|i: int| 0 <= i < s.len() ==> is_num((#[trigger] s[i]).1) }

/// the result of an operator is the fold of its steps over its fields, in order
pub open spec fn follows<A>(r: Result<UpdateResult>, before: Bson, after: Bson, ops: Seq<A>, step: spec_fn(A, DV, bool) -> St) -> bool {
    let f = fold(ops, ops.len() as int, dv(before->Document_0), step);
    &&& r is Ok == f is Some
    &&& r is Ok ==> after is Document && f == Some((dv(after->Document_0), r->Ok_0.updated))
}

proof fn lemma_fold_next<A>(ops: Seq<A>, n: int, s0: DV, step: spec_fn(A, DV, bool) -> St)
    requires 0 <= n < ops.len(), fold(ops, n, s0, step) is Some,
    ensures
        fold(ops, n + 1, s0, step) == step(ops[n], (fold(ops, n, s0, step)->Some_0).0, (fold(ops, n, s0, step)->Some_0).1),
        fold(ops, n + 1, s0, step) is None ==> fold(ops, ops.len() as int, s0, step) is None,
{
    if fold(ops, n + 1, s0, step) is None { lemma_fold_none(ops, n + 1, ops.len() as int, s0, step); }
}

impl AnyOperator {
//@fn src/polodb_core/vm/update_operators/mod.rs UpdateOperator::validate_key
//@ret r
//@spec
    ensures r is Ok == no_id(dv(*doc)),
//@loop 0
    invariant zi <= doc.entries.len(), forall|i: int| 0 <= i < zi ==> (#[trigger] dv(*doc)[i]).0 != "_id"@,
    decreases doc.entries.len() - zi,
//@loopstart 0
    proof { assert(dv(*doc)[zi as int].0 == doc.entries@[zi as int].0@); }
//@end
//@fn src/polodb_core/vm/update_operators/mod.rs UpdateOperator::validate_numeric
//@ret r
//@spec
    ensures r is Ok == all_num(dv(*doc)),
//@loop 0
    invariant zi <= doc.entries.len(), forall|i: int| 0 <= i < zi ==> is_num((#[trigger] dv(*doc)[i]).1),
    decreases doc.entries.len() - zi,
//@loopstart 0
    proof { assert(dv(*doc)[zi as int].1 == doc.entries@[zi as int].1); }
//@end
}

pub struct SetOperator { doc: Document }
impl SetOperator {
//@fn src/polodb_core/vm/update_operators/set_operator.rs SetOperator::compile
//@ret r
//@spec
    ensures r is Ok == no_id(dv(doc)), r is Ok ==> r->Ok_0.doc == doc,
//@end
//@fn src/polodb_core/vm/update_operators/set_operator.rs UpdateOperator for SetOperator::update
//@ret r
//@spec
    requires *old(value) is Document,
    ensures follows(r, *old(value), *final(value), dv(self.doc), set_step()),
//@loop 0
    invariant
        zi <= self.doc.entries.len(),
        *old(value) is Document,
        fold(dv(self.doc), zi as int, dv((*old(value))->Document_0), set_step()) == Some((dv(*doc), updated)),
    decreases self.doc.entries.len() - zi,
//@loopstart 0
    proof { lemma_fold_next(dv(self.doc), zi as int, dv((*old(value))->Document_0), set_step()); }
//@end
}
pub open spec fn set_step() -> spec_fn((Seq<char>, Bson), DV, bool) -> St {
    |o: (Seq<char>, Bson), d: DV, u: bool| Some((d_ins(d, o.0, o.1), true))
}

pub struct PushOperator { doc: Document }
impl PushOperator {
//@fn src/polodb_core/vm/update_operators/push_operator.rs PushOperator::compile
//@ret r
//@spec
    ensures r is Ok == no_id(dv(doc)), r is Ok ==> r->Ok_0.doc == doc,
//@end
//@fn src/polodb_core/vm/update_operators/push_operator.rs UpdateOperator for PushOperator::update
//@ret r
//@spec
    requires *old(value) is Document,
    ensures follows(r, *old(value), *final(value), dv(self.doc), push_step()),
//@loop 0
    invariant
        zi <= self.doc.entries.len(),
        *old(value) is Document,
        fold(dv(self.doc), zi as int, dv((*old(value))->Document_0), push_step()) == Some((dv(*doc), updated)),
    decreases self.doc.entries.len() - zi,
//@loopstart 0
    broadcast use ax::ax_arr;
    proof { lemma_fold_next(dv(self.doc), zi as int, dv((*old(value))->Document_0), push_step()); }
//@end
}
/// one element is appended; a missing or null field becomes an array of it
pub open spec fn push_step() -> spec_fn((Seq<char>, Bson), DV, bool) -> St {
    |o: (Seq<char>, Bson), d: DV, u: bool| match or_null_spec(d_get(d, o.0)) {
        Bson::Array(a) => Some((d_ins(d, o.0, arr(a@.push(o.1))), true)),
        Bson::Null => Some((d_ins(d, o.0, arr(seq![o.1])), true)),
        _ => None,
    }
}
pub open spec fn or_null_spec(o: Option<Bson>) -> Bson { match o { Some(v) => v, None => Bson::Null } }

pub struct MinOperator { doc: Document }
impl MinOperator {
//@fn src/polodb_core/vm/update_operators/min_operator.rs MinOperator::compile
//@ret r
//@spec
    ensures r is Ok == no_id(dv(doc)), r is Ok ==> r->Ok_0.doc == doc,
//@end
//@fn src/polodb_core/vm/update_operators/min_operator.rs UpdateOperator for MinOperator::update
//@ret r
//@spec
    requires *old(value) is Document,
    ensures follows(r, *old(value), *final(value), dv(self.doc), min_step()),
//@loop 0
    invariant
        zi <= self.doc.entries.len(),
        *old(value) is Document,
        fold(dv(self.doc), zi as int, dv((*old(value))->Document_0), min_step()) == Some((dv(*doc), updated)),
    decreases self.doc.entries.len() - zi,
//@loopstart 0
    proof { lemma_fold_next(dv(self.doc), zi as int, dv((*old(value))->Document_0), min_step()); }
//@end
}
/// replaced only by a smaller value; a missing field counts as null
pub open spec fn min_step() -> spec_fn((Seq<char>, Bson), DV, bool) -> St {
    |o: (Seq<char>, Bson), d: DV, u: bool| match s_cmp(o.1, or_null_spec(d_get(d, o.0))) {
        Some(Ordering::Less) => Some((d_ins(d, o.0, o.1), true)),
        Some(_) => Some((d, u)),
        None => None,
    }
}

pub struct MaxOperator { doc: Document }
impl MaxOperator {
//@fn src/polodb_core/vm/update_operators/max_operator.rs MaxOperator::compile
//@ret r
//@spec
    ensures r is Ok == no_id(dv(doc)), r is Ok ==> r->Ok_0.doc == doc,
//@end
//@fn src/polodb_core/vm/update_operators/max_operator.rs UpdateOperator for MaxOperator::update
//@ret r
//@spec
    requires *old(value) is Document,
    ensures follows(r, *old(value), *final(value), dv(self.doc), max_step()),
//@loop 0
    invariant
        zi <= self.doc.entries.len(),
        *old(value) is Document,
        fold(dv(self.doc), zi as int, dv((*old(value))->Document_0), max_step()) == Some((dv(*doc), updated)),
    decreases self.doc.entries.len() - zi,
//@loopstart 0
    proof { lemma_fold_next(dv(self.doc), zi as int, dv((*old(value))->Document_0), max_step()); }
//@end
}
/// replaced only by a larger value; a missing field counts as null
pub open spec fn max_step() -> spec_fn((Seq<char>, Bson), DV, bool) -> St {
    |o: (Seq<char>, Bson), d: DV, u: bool| match s_cmp(o.1, or_null_spec(d_get(d, o.0))) {
        Some(Ordering::Greater) => Some((d_ins(d, o.0, o.1), true)),
        Some(_) => Some((d, u)),
        None => None,
    }
}

pub struct UnsetOperator { fields: Vec<String> }
pub open spec fn names(v: Vec<String>) -> Seq<Seq<char>> { v@.map_values(|k: String| k@) }
#[verifier::external_body]
fn keys_of(d: &Document) -> (r: Vec<String>) ensures names(r) == dv(*d).map_values(|e: (Seq<char>, Bson)| e.0), { unimplemented!() }
impl UnsetOperator {
//@fn src/polodb_core/vm/update_operators/unset_operator.rs UnsetOperator::compile
//@rw names of a document: doc.keys().map(|k| k.to_string()).collect() ~~> keys_of(doc)
//@ret r
//@spec
    ensures r is Ok == no_id(dv(*doc)), r is Ok ==> names(r->Ok_0.fields) == dv(*doc).map_values(|e: (Seq<char>, Bson)| e.0),
//@end
//@fn src/polodb_core/vm/update_operators/unset_operator.rs UpdateOperator for UnsetOperator::update
//@ret r
//@spec
    requires *old(value) is Document,
    ensures follows(r, *old(value), *final(value), names(self.fields), unset_step()),
//@loop 0
    invariant
        zi <= self.fields.len(),
        *old(value) is Document,
        fold(names(self.fields), zi as int, dv((*old(value))->Document_0), unset_step()) == Some((dv(*doc), updated)),
    decreases self.fields.len() - zi,
//@loopstart 0
    proof { lemma_fold_next(names(self.fields), zi as int, dv((*old(value))->Document_0), unset_step()); }
//@end
}
pub open spec fn unset_step() -> spec_fn(Seq<char>, DV, bool) -> St { |k: Seq<char>, d: DV, u: bool| Some((d_rem(d, k), true)) }

pub struct RenameOperator { doc: Document }
pub open spec fn str_of(v: Bson) -> Seq<char> { match v { Bson::String(s) => s@, _ => Seq::empty() } }
/// every value is a string, and none is "_id"
pub open spec fn new_names(s: DV) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 is String && str_of(s[i].1) != "_id"@ }
impl RenameOperator {
//@fn src/polodb_core/vm/update_operators/rename_operator.rs RenameOperator::compile
//@ret r
//@spec
    ensures
        r is Ok == (no_id(dv(doc)) && new_names(dv(doc))),
        r is Ok ==> r->Ok_0.doc == doc,
//@loop 0
    invariant
        zi <= doc.entries.len(),
        forall|i: int| 0 <= i < zi ==> (#[trigger] dv(doc)[i]).1 is String && str_of(dv(doc)[i].1) != "_id"@,
    decreases doc.entries.len() - zi,
//@loopstart 0
    proof { assert(dv(doc)[zi as int].1 == doc.entries@[zi as int].1); }
//@end
//@fn src/polodb_core/vm/update_operators/rename_operator.rs RenameOperator::rename_field
//@ret r
//@spec
    ensures ren_step()((key@, Bson::String(owned(new_key@))), dv(*old(doc)), false) == Some((dv(*final(doc)), r)),
//@start
    broadcast use ax::ax_owned;
    proof { lemma_rem_absent(dv(*doc), key@); }
//@end
//@fn src/polodb_core/vm/update_operators/rename_operator.rs UpdateOperator for RenameOperator::update
//@ret r
//@spec
    requires *old(value) is Document, new_names(dv(self.doc)),
    ensures follows(r, *old(value), *final(value), dv(self.doc), ren_step()),
//@loop 0
    invariant
        zi <= self.doc.entries.len(),
        *old(value) is Document,
        new_names(dv(self.doc)),
        fold(dv(self.doc), zi as int, dv((*old(value))->Document_0), ren_step()) == Some((dv(*doc), updated)),
    decreases self.doc.entries.len() - zi,
//@loopstart 0
    broadcast use ax::ax_owned;
    proof {
        lemma_fold_next(dv(self.doc), zi as int, dv((*old(value))->Document_0), ren_step());
        assert(dv(self.doc)[zi as int].1 == self.doc.entries@[zi as int].1);
    }
//@end
}
/// an existing field moves to its new name
pub open spec fn ren_step() -> spec_fn((Seq<char>, Bson), DV, bool) -> St {
    |o: (Seq<char>, Bson), d: DV, u: bool| match d_get(d, o.0) {
        Some(v) => Some((d_ins(d_rem(d, o.0), str_of(o.1), v), true)),
        None => Some((d, u)),
    }
}

pub struct PopMap { pub entries: Vec<(String, bool)> }
pub open spec fn pv(m: PopMap) -> Seq<(Seq<char>, bool)> { m.entries@.map_values(|e: (String, bool)| (e.0@, e.1)) }
impl PopMap {
    #[verifier::external_body]
    fn new() -> (r: PopMap) ensures pv(r) == Seq::<(Seq<char>, bool)>::empty(), { unimplemented!() }
    /// the names of a document are distinct, so every insertion appends
    #[verifier::external_body]
    fn insert(&mut self, k: String, v: bool)
        ensures (forall|i: int| 0 <= i < pv(*old(self)).len() ==> pv(*old(self))[i].0 != k@) ==> pv(*final(self)) == pv(*old(self)).push((k@, v)),
    { unimplemented!() }
}
#[verifier::external_body]
proof fn ax_distinct(d: Document)
    ensures forall|i: int, j: int| 0 <= i < j < dv(d).len() ==> dv(d)[i].0 != dv(d)[j].0,
{ unimplemented!() }
pub struct PopOperator { pop_map: PopMap }
pub open spec fn pop_dir(v: Bson) -> bool { is_int(v) && (ival(v) == 1 || ival(v) == -1) }
pub open spec fn pop_dirs(s: DV) -> bool { forall|i: int| 0 <= i < s.len() ==> pop_dir((#[trigger] s[i]).1) }
/// -1 takes the first element
pub open spec fn pop_of(s: DV) -> Seq<(Seq<char>, bool)> { s.map_values(|e: (Seq<char>, Bson)| (e.0, ival(e.1) == -1)) }
impl PopOperator {
    fn name(&self) -> &str { "pop" }
//@fn src/polodb_core/vm/update_operators/pop_operator.rs PopOperator::compile
//@rw map type: IndexMap::new() ~~> PopMap::new()
//@ret r
//@spec
    ensures
        r is Ok == (no_id(dv(doc)) && pop_dirs(dv(doc))),
        r is Ok ==> pv(r->Ok_0.pop_map) == pop_of(dv(doc)),
//@start
    proof { ax_distinct(doc); }
//@loop 0
    invariant
        zi <= doc.entries.len(),
        no_id(dv(doc)),
        forall|i: int, j: int| 0 <= i < j < dv(doc).len() ==> dv(doc)[i].0 != dv(doc)[j].0,
        forall|i: int| 0 <= i < zi ==> pop_dir((#[trigger] dv(doc)[i]).1),
        pv(pop_map) =~= pop_of(dv(doc)).take(zi as int),
    decreases doc.entries.len() - zi,
//@loopstart 0
    proof {
        assert(dv(doc)[zi as int].1 == doc.entries@[zi as int].1);
        assert(dv(doc)[zi as int].0 == doc.entries@[zi as int].0@);
        assert forall|i: int| 0 <= i < pv(pop_map).len() implies pv(pop_map)[i].0 != dv(doc)[zi as int].0 by { assert(pv(pop_map)[i].0 == dv(doc)[i].0); }
    }
//@end
//@fn src/polodb_core/vm/update_operators/pop_operator.rs UpdateOperator for PopOperator::update
//@ret r
//@spec
    requires *old(value) is Document,
    ensures follows(r, *old(value), *final(value), pv(self.pop_map), pop_step()),
//@loop 0
    invariant
        zi <= self.pop_map.entries.len(),
        *old(value) is Document,
        fold(pv(self.pop_map), zi as int, dv((*old(value))->Document_0), pop_step()) == Some((dv(*doc), updated)),
    decreases self.pop_map.entries.len() - zi,
//@loopstart 0
    broadcast use ax::ax_arr;
    proof { lemma_fold_next(pv(self.pop_map), zi as int, dv((*old(value))->Document_0), pop_step()); }
//@end
}
/// takes one element off an array; an empty array stays; a missing or null field becomes an empty array
pub open spec fn pop_step() -> spec_fn((Seq<char>, bool), DV, bool) -> St {
    |o: (Seq<char>, bool), d: DV, u: bool| match or_null_spec(d_get(d, o.0)) {
        Bson::Array(a) =>
            if a@.len() == 0 { Some((d, u)) }
            else if o.1 { Some((d_ins(d, o.0, arr(a@.remove(0))), true)) }
            else { Some((d_ins(d, o.0, arr(a@.drop_last())), true)) },
        Bson::Null => Some((d_ins(d, o.0, arr(Seq::empty())), true)),
        _ => None,
    }
}

// ---- what an operator does not name stays as it was; in particular _id ----
pub open spec fn named(s: DV, k: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
pub open spec fn after(ops: DV, d: DV, step: spec_fn((Seq<char>, Bson), DV, bool) -> St) -> St { fold(ops, ops.len() as int, d, step) }

proof fn lemma_only_named(ops: DV, d: DV, step: spec_fn((Seq<char>, Bson), DV, bool) -> St, k: Seq<char>)
    requires
        step == set_step() || step == inc_step() || step == mul_step() || step == min_step() || step == max_step() || step == push_step(),
        !named(ops, k),
    ensures after(ops, d, step) is Some ==> d_get((after(ops, d, step)->Some_0).0, k) == d_get(d, k),
{
    assert forall|i: int, e: DV, u: bool| 0 <= i < ops.len() && (#[trigger] step(ops[i], e, u)) is Some implies
        d_get((step(ops[i], e, u)->Some_0).0, k) == d_get(e, k) by {
        let o = ops[i];
        assert(o.0 != k);
        let r = step(o, e, u)->Some_0;
        if r.0 != e {
            assert(exists|v: Bson| r.0 == d_ins(e, o.0, v));
            let v = choose|v: Bson| r.0 == d_ins(e, o.0, v);
            lemma_get_ins(e, o.0, v, k);
        }
    }
    lemma_fold_frame(ops, ops.len() as int, d, step, k);
}

proof fn lemma_rename_only_named(ops: DV, d: DV, k: Seq<char>)
    requires !named(ops, k), forall|i: int| 0 <= i < ops.len() ==> str_of((#[trigger] ops[i]).1) != k,
    ensures after(ops, d, ren_step()) is Some ==> d_get((after(ops, d, ren_step())->Some_0).0, k) == d_get(d, k),
{
    let step = ren_step();
    assert forall|i: int, e: DV, u: bool| 0 <= i < ops.len() && (#[trigger] step(ops[i], e, u)) is Some implies
        d_get((step(ops[i], e, u)->Some_0).0, k) == d_get(e, k) by {
        let o = ops[i];
        lemma_get_rem(e, o.0, k);
        if d_get(e, o.0) is Some { lemma_get_ins(d_rem(e, o.0), str_of(o.1), d_get(e, o.0)->Some_0, k); }
    }
    lemma_fold_frame(ops, ops.len() as int, d, step, k);
}

proof fn lemma_unset_only_named(ops: Seq<Seq<char>>, d: DV, k: Seq<char>)
    requires forall|i: int| 0 <= i < ops.len() ==> #[trigger] ops[i] != k,
    ensures fold(ops, ops.len() as int, d, unset_step()) is Some,
        d_get((fold(ops, ops.len() as int, d, unset_step())->Some_0).0, k) == d_get(d, k),
{
    let step = unset_step();
    assert forall|i: int, e: DV, u: bool| 0 <= i < ops.len() && (#[trigger] step(ops[i], e, u)) is Some implies
        d_get((step(ops[i], e, u)->Some_0).0, k) == d_get(e, k) by { lemma_get_rem(e, ops[i], k); }
    lemma_fold_frame(ops, ops.len() as int, d, step, k);
    lemma_unset_total(ops, ops.len() as int, d);
}
proof fn lemma_unset_total(ops: Seq<Seq<char>>, n: int, d: DV)
    requires 0 <= n <= ops.len(),
    ensures fold(ops, n, d, unset_step()) is Some,
    decreases n,
{ if n > 0 { lemma_unset_total(ops, n - 1, d); } }

proof fn lemma_pop_only_named(ops: Seq<(Seq<char>, bool)>, d: DV, k: Seq<char>)
    requires forall|i: int| 0 <= i < ops.len() ==> (#[trigger] ops[i]).0 != k,
    ensures fold(ops, ops.len() as int, d, pop_step()) is Some ==>
        d_get((fold(ops, ops.len() as int, d, pop_step())->Some_0).0, k) == d_get(d, k),
{
    let step = pop_step();
    assert forall|i: int, e: DV, u: bool| 0 <= i < ops.len() && (#[trigger] step(ops[i], e, u)) is Some implies
        d_get((step(ops[i], e, u)->Some_0).0, k) == d_get(e, k) by {
        let r = step(ops[i], e, u)->Some_0;
        if r.0 != e {
            assert(exists|v: Bson| r.0 == d_ins(e, ops[i].0, v));
            let v = choose|v: Bson| r.0 == d_ins(e, ops[i].0, v);
            lemma_get_ins(e, ops[i].0, v, k);
        }
    }
    lemma_fold_frame(ops, ops.len() as int, d, step, k);
}

} // verus!
fn main() {}
