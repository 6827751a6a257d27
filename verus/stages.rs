// C14, C15, C23: the stages of a pipeline, one document at a time.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
#[derive(Debug)]
pub enum Error { InvalidField, ValidationError, UnknownAggregationOperation }
pub type Result<T> = std::result::Result<T, Error>;
//@trust _bson.rs
//@trust _doc.rs
//@trust _order.rs
//@trust _orderlemmas.rs
//@rule text of the error dropped: let invalid_err = mk_invalid_aggregate_field(paths); ~~>
//@rule text of the error dropped: Error::InvalidField(invalid_err) ~~> Error::InvalidField
//@rule text of the error dropped: Error::ValidationError($e) ~~> Error::ValidationError
//@rule text of the error dropped: Error::UnknownAggregationOperation($e) ~~> Error::UnknownAggregationOperation
//@rule error path dropped: crate::path_hint_2!(paths, $e, { $s_b }); ~~> { $s_b }
//@rule error path dropped: crate::path_hint_3!(paths, $e, { $s_b }) ~~> { $s_b }
//@rule exclusive access instead of atomics and cells: fn call(&self, args: &[Bson]) ~~> fn call(&mut self, args: &Vec<Bson>)
//@rule exclusive access instead of atomics and cells: fn sort_array(&self) ~~> fn sort_array(&mut self)
//@rule exclusive access instead of atomics and cells: let mut buffer = self.buffer.borrow_mut(); ~~> let buffer = &mut self.buffer;
//@rule exclusive access instead of atomics and cells: let buffer = self.buffer.borrow(); ~~> let buffer = &self.buffer;
//@rule exclusive access instead of atomics and cells: RefCell::new($e) ~~> $e
//@rule exclusive access instead of atomics and cells: , std::sync::atomic::Ordering::Relaxed) ~~> )
//@rule exclusive access instead of atomics and cells: , Ordering::Relaxed) ~~> )
//@rule exclusive access instead of atomics and cells: .load(std::sync::atomic::Ordering::Relaxed) ~~> .load()
//@rule exclusive access instead of atomics and cells: .load(Ordering::Relaxed) ~~> .load()
//@rule no boxing: Ok(Box::new($s_x)) ~~> Ok($s_x)
//@rule into a value: doc.into() ~~> Bson::Document(doc)
//@rule into a value: $i_b[$i_i].clone().into() ~~> Bson::Document($i_b[$i_i].clone())
//@rule into a value: doc.insert($k, $e as i64); ~~> doc.insert($k, Bson::Int64($e as i64));
//@rule loop over a document as an indexed loop: for ($i_k, $i_v) in doc.iter() { ~~> let mut zi: usize = 0; while zi < doc.entries.len() { let ($i_k, $i_v) = &doc.entries[zi]; zi = zi + 1;
//@rule loop over a list as an indexed loop: for ($i_n, $i_v) in $i_a.iter().enumerate() { ~~> let mut zi: usize = 0; while zi < $i_a.len() { let $i_v = &$i_a[zi]; let $i_n = zi; zi = zi + 1;
//@rule loop over a list as an indexed loop: for $i_k in &$x { ~~> let mut zi: usize = 0; while zi < $x.len() { let $i_k = &$x[zi]; zi = zi + 1;
//@rule loop over a map as an indexed loop: for ($i_k, $i_v) in self.order_map.iter() { ~~> let mut zi: usize = 0; while zi < order_map.entries.len() { let ($i_k, $i_v) = &order_map.entries[zi]; zi = zi + 1;
//@rule loop over a map as an indexed loop: for ($i_k, $i_v) in &self.fields { ~~> let mut zi: usize = 0; while zi < self.fields.entries.len() { let ($i_k, $i_v) = &self.fields.entries[zi]; zi = zi + 1;
//@rule path: std::cmp::Ordering ~~> Ordering
//@rule path: crate::utils::bson::value_cmp ~~> value_cmp
//@rule list of one: vec![$x] ~~> one($x)
//@rule strict path: Self::i8_to_ordering ~~> VmFuncSort::i8_to_ordering
fn one(a: String) -> (r: Vec<String>) ensures r@ == seq![a], { let mut v: Vec<String> = Vec::new(); v.push(a); proof { assert(v@ =~= seq![a]); } v }

pub enum VmExternalFuncStatus { Continue, Next(Bson) }
use VmExternalFuncStatus::*;
/// std's atomics and cells seen by the only holder
pub struct AtomicUsize { pub v: usize }
impl AtomicUsize {
    pub fn new(v: usize) -> (r: Self) ensures r.v == v, { AtomicUsize { v } }
    pub fn load(&self) -> (r: usize) ensures r == self.v, { self.v }
    pub fn store(&mut self, v: usize) ensures final(self).v == v, { self.v = v; }
    #[verifier::external_body]
    pub fn fetch_sub(&mut self, n: usize) -> (r: usize) ensures r == old(self).v, old(self).v >= n ==> final(self).v == old(self).v - n, { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_add(&mut self, n: usize) -> (r: usize) ensures r == old(self).v, old(self).v + n <= usize::MAX ==> final(self).v == old(self).v + n, { unimplemented!() }
}
pub struct AtomicU64 { pub v: u64 }
impl AtomicU64 {
    pub fn new(v: u64) -> (r: Self) ensures r.v == v, { AtomicU64 { v } }
    pub fn load(&self) -> (r: u64) ensures r == self.v, { self.v }
    pub fn store(&mut self, v: u64) ensures final(self).v == v, { self.v = v; }
    #[verifier::external_body]
    pub fn fetch_add(&mut self, n: u64) -> (r: u64) ensures r == old(self).v, old(self).v + n <= u64::MAX ==> final(self).v == old(self).v + n, { unimplemented!() }
}
pub struct AtomicBool { pub v: bool }
impl AtomicBool {
    pub fn new(v: bool) -> (r: Self) ensures r.v == v, { AtomicBool { v } }
    pub fn load(&self) -> (r: bool) ensures r == self.v, { self.v }
    pub fn store(&mut self, v: bool) ensures final(self).v == v, { self.v = v; }
}
impl Clone for VmExternalFuncStatus {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
/// a whole number that is not negative
pub open spec fn natural(b: Bson) -> Option<nat> {
    match b { Bson::Int32(v) => if v >= 0 { Some(v as nat) } else { None }, Bson::Int64(v) => if v >= 0 { Some(v as nat) } else { None }, _ => None }
}

// ---- $skip ----
pub struct VmFuncSkip { pub remain: AtomicUsize }
impl VmFuncSkip {
//@fn src/polodb_core/vm/vm_skip.rs VmFuncSkip::compile
//@rw no boxing: Box<dyn VmExternalFunc> ~~> VmFuncSkip
//@ret r
//@spec
    ensures (match r { Ok(s) => natural(*skip_val) == Some(s.remain.v as nat), Err(_) => natural(*skip_val) is None }),
//@end
//@fn src/polodb_core/vm/vm_skip.rs VmExternalFunc for VmFuncSkip::call
//@ret r
//@spec
    requires args.len() >= 1,
    ensures
        r is Ok,
        args[0] is Null ==> r->Ok_0 == Continue,
        !(args[0] is Null) && old(self).remain.v == 0 ==> r->Ok_0 == Next(args[0]) && final(self).remain.v == 0,
        !(args[0] is Null) && old(self).remain.v > 0 ==> r->Ok_0 == Continue && final(self).remain.v == old(self).remain.v - 1,
//@end
//@fn src/polodb_core/vm/vm_skip.rs VmExternalFunc for VmFuncSkip::is_completed
//@ret r
//@spec
    ensures r,
//@end
}

// ---- $limit ----
pub struct VmFuncLimit { pub remain: AtomicUsize }
impl VmFuncLimit {
//@fn src/polodb_core/vm/vm_limit.rs VmFuncLimit::compile
//@rw no boxing: Box<dyn VmExternalFunc> ~~> VmFuncLimit
//@ret r
//@spec
    ensures (match r { Ok(s) => natural(*bson) == Some(s.remain.v as nat), Err(_) => natural(*bson) is None }),
//@end
//@fn src/polodb_core/vm/vm_limit.rs VmExternalFunc for VmFuncLimit::call
//@ret r
//@spec
    requires args.len() >= 1,
    ensures
        r is Ok,
        args[0] is Null ==> r->Ok_0 == Continue,
        !(args[0] is Null) && old(self).remain.v == 0 ==> r->Ok_0 == Continue && final(self).remain.v == 0,
        !(args[0] is Null) && old(self).remain.v > 0 ==> r->Ok_0 == Next(args[0]) && final(self).remain.v == old(self).remain.v - 1,
//@end
//@fn src/polodb_core/vm/vm_limit.rs VmExternalFunc for VmFuncLimit::is_completed
//@ret r
//@spec
    ensures r,
//@end
}

// ---- $count ----
pub struct VmFuncCount { pub count_name: String, pub count: AtomicU64, pub is_completed: AtomicBool }
impl VmFuncCount {
//@fn src/polodb_core/vm/vm_count.rs VmFuncCount::new
//@ret r
//@spec
    ensures r.count_name == count_name, r.count.v == 0,
//@end
//@fn src/polodb_core/vm/vm_count.rs VmExternalFunc for VmFuncCount::call
//@ret r
//@spec
    requires args.len() >= 1, old(self).count.v < 0x7fff_ffff_ffff_ffff,
    ensures
        r is Ok, final(self).count_name == old(self).count_name,
        args[0] is Null ==> r->Ok_0 is Next && r->Ok_0->Next_0 is Document
            && dv(r->Ok_0->Next_0->Document_0) == seq![(old(self).count_name@, Bson::Int64(old(self).count.v as i64))]
            && final(self).count == old(self).count,
        !(args[0] is Null) ==> r->Ok_0 == Continue && final(self).count.v == old(self).count.v + 1,
//@end
//@fn src/polodb_core/vm/vm_count.rs VmExternalFunc for VmFuncCount::is_completed
//@name completed
//@ret r
//@spec
    ensures r,
//@end
}

// ---- $unset ----
pub struct VmFuncUnset { pub fields: Vec<String> }
pub open spec fn without(d: DV, names: Seq<String>, n: int) -> DV
    decreases n,
{ if n <= 0 { d } else { d_rem(without(d, names, n - 1), names[n - 1]@) } }
impl VmFuncUnset {
//@fn src/polodb_core/vm/vm_unset.rs VmFuncUnset::compile
//@rw no boxing: Box<dyn VmExternalFunc> ~~> VmFuncUnset
//@ret r
//@spec
    ensures
        match *val {
            Bson::String(s) => r is Ok && r->Ok_0.fields@ == seq![s],
            Bson::Array(a) => (match r {
                Ok(u) => u.fields@.len() == a@.len() && forall|i: int| 0 <= i < a@.len() ==> #[trigger] a@[i] == Bson::String(u.fields@[i]),
                Err(_) => exists|i: int| 0 <= i < a@.len() && !(#[trigger] a@[i] is String),
            }),
            _ => r is Err,
        },
//@loop 0
    invariant zi <= arr.len(), fields@.len() == zi, forall|i: int| 0 <= i < zi ==> #[trigger] arr@[i] == Bson::String(fields@[i]),
        *val == Bson::Array(*arr),
    decreases arr.len() - zi,
//@end
//@fn src/polodb_core/vm/vm_unset.rs VmExternalFunc for VmFuncUnset::call
//@ret r
//@spec
    requires args.len() >= 1,
    ensures
        final(self).fields == old(self).fields,
        match args[0] {
            Bson::Null => r == Ok::<_, Error>(Continue),
            Bson::Document(d) => r is Ok && r->Ok_0 is Next && r->Ok_0->Next_0 is Document
                && dv(r->Ok_0->Next_0->Document_0) == without(dv(d), old(self).fields@, old(self).fields@.len() as int),
            _ => r is Err,
        },
//@loop 0
    invariant zi <= self.fields.len(), self.fields == old(self).fields, args[0] is Document, dv(doc) == without(dv(args[0]->Document_0), self.fields@, zi as int),
    decreases self.fields.len() - zi,
//@end
//@fn src/polodb_core/vm/vm_unset.rs VmExternalFunc for VmFuncUnset::is_completed
//@ret r
//@spec
    ensures r,
//@end
}

// ---- $sort ----
pub struct IndexMap<V> { pub entries: Vec<(String, V)> }
impl<V> IndexMap<V> {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.entries@.len() == 0, { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.entries@.len() == 0, { unimplemented!() }
    /// a new name goes to the end
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V)
        ensures (forall|i: int| 0 <= i < old(self).entries@.len() ==> (#[trigger] old(self).entries@[i]).0@ != k@) ==> final(self).entries@ == old(self).entries@.push((k, v)),
    { unimplemented!() }
}
pub struct VmFuncSort { pub order_map: IndexMap<i8>, pub buffer: Vec<Document>, pub idx: AtomicUsize }
pub open spec fn direction(b: Bson) -> Option<i8> {
    match b {
        Bson::Int32(v) => if v == 1 { Some(1i8) } else if v == -1 { Some(-1i8) } else { None },
        Bson::Int64(v) => if v == 1 { Some(1i8) } else if v == -1 { Some(-1i8) } else { None },
        _ => None,
    }
}
pub open spec fn distinct(s: Seq<(String, Bson)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0@ != (#[trigger] s[j]).0@
}
pub open spec fn directed(o: Seq<(String, i8)>) -> bool { forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).1 == 1 || o[i].1 == -1 }
/// a document that lacks the field comes after those that have it
pub open spec fn fcmp(a: DV, b: DV, k: Seq<char>) -> int {
    match (d_get(a, k), d_get(b, k)) {
        (Some(x), Some(y)) => vcmp(x, y),
        (Some(_), None) => -1,
        (None, Some(_)) => 1,
        (None, None) => 0,
    }
}
pub open spec fn dcmp(o: Seq<(String, i8)>, a: DV, b: DV, i: int) -> int
    decreases o.len() - i,
{
    if i < 0 || i >= o.len() { 0 }
    else {
        let c = fcmp(a, b, o[i].0@);
        let d = o[i].1 as int;
        if c < 0 { -d } else if c > 0 { d } else { dcmp(o, a, b, i + 1) }
    }
}
/// `p` tells where each element comes from
pub open spec fn permutes(p: Seq<int>, n: int) -> bool {
    p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && (forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j])
}
/// a permutation in order, in which what ties keeps its order
pub open spec fn sorts(o: Seq<(String, i8)>, before: Seq<Document>, after: Seq<Document>, p: Seq<int>) -> bool {
    permutes(p, before.len() as int) && after.len() == before.len()
        && (forall|i: int| 0 <= i < after.len() ==> #[trigger] after[i] == before[p[i]])
        && (forall|i: int, j: int| 0 <= i < j < after.len() ==> ordered(o, #[trigger] after[i], #[trigger] after[j], p[i], p[j]))
}
pub open spec fn ordered(o: Seq<(String, i8)>, a: Document, b: Document, p: int, q: int) -> bool {
    dcmp(o, dv(a), dv(b), 0) < 0 || (dcmp(o, dv(a), dv(b), 0) == 0 && p < q)
}
pub open spec fn stable_sort(o: Seq<(String, i8)>, before: Seq<Document>, after: Seq<Document>) -> bool { exists|p: Seq<int>| sorts(o, before, after, p) }

/// slice::sort_by with the comparison below (std: a stable sort, which asks for a total order)
#[verifier::external_body]
fn sort_by_compare(v: &mut Vec<Document>, order_map: &IndexMap<i8>)
    requires
        directed(order_map.entries@),
        forall|a: DV, b: DV| #[trigger] dcmp(order_map.entries@, a, b, 0) == -dcmp(order_map.entries@, b, a, 0),
        forall|a: DV, b: DV, c: DV| #[trigger] dcmp(order_map.entries@, a, b, 0) <= 0 && #[trigger] dcmp(order_map.entries@, b, c, 0) <= 0 ==> dcmp(order_map.entries@, a, c, 0) <= 0,
        forall|a: Document, b: Document| call_ensures(VmFuncSort::compare, (order_map, &a, &b), Ordering::Less) ==> #[trigger] dcmp(order_map.entries@, dv(a), dv(b), 0) < 0,
    ensures stable_sort(order_map.entries@, old(v)@, final(v)@),
{ unimplemented!() }

impl VmFuncSort {
//@fn src/polodb_core/vm/vm_sort.rs VmFuncSort::compile
//@rw no boxing: Box<dyn VmExternalFunc> ~~> VmFuncSort
//@ret r
//@spec
    requires *val is Document ==> distinct(val->Document_0.entries@),
    ensures
        match r {
            Ok(s) => *val is Document && s.buffer@.len() == 0 && s.idx.v == 0 && s.order_map.entries@.len() == val->Document_0.entries@.len()
                && directed(s.order_map.entries@)
                && forall|i: int| 0 <= i < s.order_map.entries@.len() ==>
                    (#[trigger] s.order_map.entries@[i]).0 == val->Document_0.entries@[i].0 && direction(val->Document_0.entries@[i].1) == Some(s.order_map.entries@[i].1),
            Err(_) => !(*val is Document) || exists|i: int| 0 <= i < val->Document_0.entries@.len() && direction((#[trigger] val->Document_0.entries@[i]).1) is None,
        },
//@loop 0
    invariant zi <= doc.entries.len(), result.entries@.len() == zi, *val == Bson::Document(*doc), distinct(doc.entries@),
        forall|i: int| 0 <= i < zi ==> (#[trigger] result.entries@[i]).0 == doc.entries@[i].0 && direction(doc.entries@[i].1) == Some(result.entries@[i].1),
    decreases doc.entries.len() - zi,
//@end
//@fn src/polodb_core/vm/vm_sort.rs VmFuncSort::i8_to_ordering
//@ret r
//@spec
    ensures i == 1 ==> sg(r) == -1, i == -1 ==> sg(r) == 1, i != 1 && i != -1 ==> sg(r) == 0,
//@end
//@fn src/polodb_core/vm/vm_sort.rs VmFuncSort::sort_array#compare
//@sig fn compare(order_map: &IndexMap<i8>, $i_a: &Document, $i_b: &Document) -> Ordering
//@body array.sort_by(|$i_a, $i_b| { $s_body })
//@ret r
//@spec
    requires directed(order_map.entries@),
    ensures sg(r) == dcmp(order_map.entries@, dv(*$i_a), dv(*$i_b), 0),
//@loop 0
    invariant zi <= order_map.entries.len(), directed(order_map.entries@), dcmp(order_map.entries@, dv(*$i_a), dv(*$i_b), 0) == dcmp(order_map.entries@, dv(*$i_a), dv(*$i_b), zi as int),
    decreases order_map.entries.len() - zi,
//@end
//@fn src/polodb_core/vm/vm_sort.rs VmFuncSort::sort_array
//@rw the closure is the function above: let mut array = self.buffer.borrow_mut(); array.sort_by(|$i_a, $i_b| { $s_body }); ~~> sort_by_compare(&mut self.buffer, &self.order_map);
//@spec
    requires directed(old(self).order_map.entries@),
    ensures stable_sort(old(self).order_map.entries@, old(self).buffer@, final(self).buffer@), final(self).order_map == old(self).order_map, final(self).idx == old(self).idx,
//@start
    proof { order_is_total(self.order_map.entries@); }
//@end
//@fn src/polodb_core/vm/vm_sort.rs VmExternalFunc for VmFuncSort::call
//@ret r
//@spec
    requires args.len() >= 1, directed(old(self).order_map.entries@), old(self).idx.v < usize::MAX,
    ensures
        final(self).order_map == old(self).order_map,
        match args[0] {
            Bson::Document(d) => r == Ok::<_, Error>(Continue) && final(self).buffer@ == old(self).buffer@.push(d) && final(self).idx == old(self).idx,
            Bson::Null => stable_sort(old(self).order_map.entries@, old(self).buffer@, final(self).buffer@) && final(self).idx.v == old(self).idx.v + 1
                && (if old(self).idx.v < old(self).buffer@.len() { r == Ok::<_, Error>(Next(Bson::Document(final(self).buffer@[old(self).idx.v as int]))) } else { r == Ok::<_, Error>(Continue) }),
            _ => r is Err,
        },
//@end
//@fn src/polodb_core/vm/vm_sort.rs VmExternalFunc for VmFuncSort::is_completed
//@ret r
//@spec
    ensures r == (self.idx.v >= self.buffer@.len()),
//@end
}

// ---- $addFields and the operators ----
pub enum OperatorExpr { Constant(Bson), Expr(Box<VmOperator>), Alias(String) }
/// the implementations of the trait, one variant each
pub enum VmOperator { Abs(AbsOperator), Sum(SumOperator) }
pub struct AbsOperator { pub inner: OperatorExpr }
pub struct SumOperator { x: u8 }
impl VmOperator {
    fn next(&self, input: &Bson) -> (r: Bson)
        ensures op_out(*self, *input, r),
        decreases *self, 1int,
    { match self { VmOperator::Abs(a) => { let r = a.next(input); r }, VmOperator::Sum(s) => s.next(input) } }
}
impl SumOperator {
    /// counts its inputs in a cell
    #[verifier::external_body]
    fn next(&self, input: &Bson) -> (r: Bson) ensures r is Int64, { unimplemented!() }
}
pub struct OpRegistry;
impl OpRegistry {
    #[verifier::external_body]
    fn compile_doc(&self, paths: &mut Vec<String>, doc: &Document) -> (r: Result<Box<VmOperator>>) { unimplemented!() }
}
#[verifier::external_body]
fn strip_dollar(s: &String) -> (r: Option<String>)
    ensures (match r { Some(t) => s@.len() > 0 && s@[0] == '$' && t@ == s@.skip(1), None => s@.len() == 0 || s@[0] != '$' }),
{ unimplemented!() }
#[verifier::external_body]
fn field_of(d: &Document, name: &String) -> (r: Bson) ensures r == or_null(d_get(dv(*d), name@)), { unimplemented!() }
fn null_for(b: Option<Bson>) -> (r: Bson) ensures r == or_null(b), { match b { Some(b) => b, None => Bson::Null } }
#[verifier::external_body]
fn cloned(b: Option<&Bson>) -> (r: Option<Bson>) ensures r == (match b { Some(b) => Some(*b), None => None::<Bson> }), { unimplemented!() }
pub open spec fn or_null(b: Option<Bson>) -> Bson { match b { Some(b) => b, None => Bson::Null } }
pub uninterp spec fn f_of(i: int) -> f64;
pub uninterp spec fn f_abs(d: f64) -> f64;
pub trait Abs3: Sized { spec fn is_abs(self, r: Self) -> bool; spec fn has_abs(self) -> bool; fn checked_abs3(self) -> (r: Option<Self>) ensures r is Some == self.has_abs(), r is Some ==> self.is_abs(r->0); fn abs3(self) -> (r: Self) requires self.has_abs() ensures self.is_abs(r); }
pub open spec fn iabs(i: int) -> int { if i < 0 { -i } else { i } }
impl Abs3 for i32 { open spec fn is_abs(self, r: i32) -> bool { r == iabs(self as int) } open spec fn has_abs(self) -> bool { self != i32::MIN } #[verifier::external_body] fn checked_abs3(self) -> (r: Option<i32>) { unimplemented!() } #[verifier::external_body] fn abs3(self) -> (r: i32) { unimplemented!() } }
impl Abs3 for i64 { open spec fn is_abs(self, r: i64) -> bool { r == iabs(self as int) } open spec fn has_abs(self) -> bool { self != i64::MIN } #[verifier::external_body] fn checked_abs3(self) -> (r: Option<i64>) { unimplemented!() } #[verifier::external_body] fn abs3(self) -> (r: i64) { unimplemented!() } }
impl Abs3 for f64 { open spec fn is_abs(self, r: f64) -> bool { r == f_abs(self) } open spec fn has_abs(self) -> bool { true } #[verifier::external_body] fn checked_abs3(self) -> (r: Option<f64>) { unimplemented!() } #[verifier::external_body] fn abs3(self) -> (r: f64) { unimplemented!() } }
#[verifier::external_body]
fn i2f(i: i64) -> (r: f64) ensures r == f_of(i as int), { unimplemented!() }

/// absolute value: exact, widened when it does not fit
pub open spec fn babs(b: Bson) -> Bson {
    match b {
        Bson::Int32(v) => if v == i32::MIN { Bson::Int64(2147483648) } else { Bson::Int32(iabs(v as int) as i32) },
        Bson::Int64(v) => if v == i64::MIN { Bson::Double(f_abs(f_of(v as int))) } else { Bson::Int64(iabs(v as int) as i64) },
        Bson::Double(d) => Bson::Double(f_abs(d)),
        _ => b,
    }
}
pub open spec fn op_out(op: VmOperator, input: Bson, out: Bson) -> bool
    decreases op,
{
    match op {
        VmOperator::Sum(_) => out is Int64,
        VmOperator::Abs(a) => match a.inner {
            OperatorExpr::Constant(v) => out == v,
            OperatorExpr::Expr(o) => exists|x: Bson| op_out(*o, input, x) && out == #[trigger] babs(x),
            OperatorExpr::Alias(n) => out == babs(match input { Bson::Document(d) => or_null(d_get(dv(d), n@)), _ => Bson::Null }),
        },
    }
}
impl AbsOperator {
//@fn src/polodb_core/vm/operators/abs_operator.rs AbsOperator::bson_abs
//@rw absolute value by contract: .checked_abs() ~~> .checked_abs3()
//@rw integer to double by contract: (v as f64) ~~> i2f(v)
//@rw absolute value by contract: .abs() ~~> .abs3()
//@ret r
//@spec
    ensures r == babs(input),
//@end
//@fn src/polodb_core/vm/operators/abs_operator.rs VmOperator for AbsOperator::next
//@rw own path: Self:: ~~> AbsOperator::
//@rw a missing value is null: let unwrap = $s_e .unwrap_or(Bson::Null); ~~> let unwrap = null_for($s_e);
//@rw cloned by contract: doc.get($e).cloned() ~~> cloned(doc.get($e))
//@ret r
//@spec
    ensures op_out(VmOperator::Abs(*self), *input, r),
    decreases *self, 0int,
//@start
    proof { reveal_with_fuel(op_out, 2); }
//@end
}
pub struct VmFuncAddFields { pub fields: IndexMap<OperatorExpr> }
pub open spec fn added(d: DV, f: Seq<(String, OperatorExpr)>, vals: Seq<Bson>, n: int) -> DV
    decreases n,
{ if n <= 0 { d } else { d_ins(added(d, f, vals, n - 1), f[n - 1].0@, vals[n - 1]) } }
/// the value of the i-th field: a constant, a field of the document as it is by then, or an operator on the input
pub open spec fn value_for(e: OperatorExpr, input: Bson, d: DV, v: Bson) -> bool {
    match e {
        OperatorExpr::Constant(c) => v == c,
        OperatorExpr::Alias(a) => v == or_null(d_get(d, a@)),
        OperatorExpr::Expr(o) => op_out(*o, input, v),
    }
}
pub open spec fn adds(d: Document, f: Seq<(String, OperatorExpr)>, vals: Seq<Bson>, n: int) -> bool {
    vals.len() == n && forall|i: int| 0 <= i < n ==> value_for(f[i].1, Bson::Document(d), added(dv(d), f, vals, i), #[trigger] vals[i])
}
proof fn lemma_added_push(d: DV, f: Seq<(String, OperatorExpr)>, vals: Seq<Bson>, v: Bson, n: int)
    requires n <= vals.len(),
    ensures added(d, f, vals.push(v), n) == added(d, f, vals, n),
    decreases n,
{ if n > 0 { lemma_added_push(d, f, vals, v, n - 1); } }
/// what the expression written in the stage means
pub open spec fn written(v: Bson, e: OperatorExpr) -> bool {
    match v {
        Bson::Document(_) => e is Expr,
        Bson::String(s) => if s@.len() > 0 && s@[0] == '$' { e is Alias && e->Alias_0@ == s@.skip(1) } else { e == OperatorExpr::Constant(v) },
        _ => e == OperatorExpr::Constant(v),
    }
}
impl VmFuncAddFields {
//@fn src/polodb_core/vm/vm_add_fields.rs VmFuncAddFields::compile
//@rw no boxing: Box<dyn VmExternalFunc> ~~> VmFuncAddFields
//@rw prefix by contract: field_name.strip_prefix("$") ~~> strip_dollar(field_name)
//@rw owned already: stripped_field_name.to_string() ~~> stripped_field_name
//@rw field name is the string: Bson::String(field_name.clone()) ~~> v.clone()
//@ret r
//@spec
    requires *value is Document ==> distinct(value->Document_0.entries@),
    ensures
        r is Ok ==> *value is Document && r->Ok_0.fields.entries@.len() == value->Document_0.entries@.len()
            && forall|i: int| 0 <= i < r->Ok_0.fields.entries@.len() ==>
                (#[trigger] r->Ok_0.fields.entries@[i]).0 == value->Document_0.entries@[i].0 && written(value->Document_0.entries@[i].1, r->Ok_0.fields.entries@[i].1),
//@loop 0
    invariant zi <= doc.entries.len(), fields.entries@.len() == zi, *value == Bson::Document(*doc), distinct(doc.entries@),
        forall|i: int| 0 <= i < zi ==> (#[trigger] fields.entries@[i]).0 == doc.entries@[i].0 && written(doc.entries@[i].1, fields.entries@[i].1),
    decreases doc.entries.len() - zi,
//@end
//@fn src/polodb_core/vm/vm_add_fields.rs VmExternalFunc for VmFuncAddFields::call
//@rw a missing field is null: doc.get(alias).cloned().unwrap_or(Bson::Null) ~~> field_of(&doc, alias)
//@rw a string by reference: let alias = alias.as_str(); ~~>
//@ret r
//@spec
    requires args.len() >= 1,
    ensures
        final(self).fields == old(self).fields,
        match args[0] {
            Bson::Null => r == Ok::<_, Error>(Continue),
            Bson::Document(d) => r is Ok && r->Ok_0 is Next && r->Ok_0->Next_0 is Document
                && exists|vals: Seq<Bson>| #[trigger] adds(d, old(self).fields.entries@, vals, old(self).fields.entries@.len() as int)
                    && dv(r->Ok_0->Next_0->Document_0) == added(dv(d), old(self).fields.entries@, vals, old(self).fields.entries@.len() as int),
            _ => r is Err,
        },
//@beforeloop 0
    let ghost mut vals: Seq<Bson> = Seq::empty();
//@loop 0
    invariant zi <= self.fields.entries.len(), self.fields == old(self).fields, args[0] is Document, *arg0 == args[0],
        adds(args[0]->Document_0, self.fields.entries@, vals, zi as int),
        dv(doc) == added(dv(args[0]->Document_0), self.fields.entries@, vals, zi as int),
    decreases self.fields.entries.len() - zi,
//@before doc.insert(k.clone(), value);
    proof {
        let n = zi - 1;
        let f = self.fields.entries@;
        let d0 = args[0]->Document_0;
        let old_vals = vals;
        vals = old_vals.push(value);
        lemma_added_push(dv(d0), f, old_vals, value, n);
        assert forall|i: int| 0 <= i < zi implies value_for(f[i].1, Bson::Document(d0), added(dv(d0), f, vals, i), #[trigger] vals[i]) by {
            lemma_added_push(dv(d0), f, old_vals, value, i);
            if i < n { assert(vals[i] == old_vals[i]); }
        }
    }
//@end
//@fn src/polodb_core/vm/vm_add_fields.rs VmExternalFunc for VmFuncAddFields::is_completed
//@ret r
//@spec
    ensures r,
//@end
}

proof fn fcmp_antisymmetric(a: DV, b: DV, k: Seq<char>)
    ensures fcmp(a, b, k) == -fcmp(b, a, k),
{
    match (d_get(a, k), d_get(b, k)) { (Some(x), Some(y)) => vcmp_antisymmetric(x, y), _ => {} }
}
proof fn fcmp_transitive(a: DV, b: DV, c: DV, k: Seq<char>)
    requires fcmp(a, b, k) <= 0, fcmp(b, c, k) <= 0,
    ensures fcmp(a, c, k) <= 0, fcmp(a, c, k) == 0 <==> fcmp(a, b, k) == 0 && fcmp(b, c, k) == 0,
{
    match (d_get(a, k), d_get(b, k), d_get(c, k)) { (Some(x), Some(y), Some(z)) => vcmp_transitive(x, y, z), _ => {} }
}
proof fn dcmp_antisymmetric(o: Seq<(String, i8)>, a: DV, b: DV, i: int)
    requires directed(o),
    ensures dcmp(o, a, b, i) == -dcmp(o, b, a, i),
    decreases o.len() - i,
{
    if 0 <= i < o.len() { fcmp_antisymmetric(a, b, o[i].0@); dcmp_antisymmetric(o, a, b, i + 1); }
}
proof fn dcmp_transitive(o: Seq<(String, i8)>, a: DV, b: DV, c: DV, i: int)
    requires directed(o), dcmp(o, a, b, i) <= 0, dcmp(o, b, c, i) <= 0,
    ensures dcmp(o, a, c, i) <= 0, dcmp(o, a, c, i) == 0 <==> dcmp(o, a, b, i) == 0 && dcmp(o, b, c, i) == 0,
    decreases o.len() - i,
{
    if 0 <= i < o.len() {
        let k = o[i].0@;
        fcmp_antisymmetric(a, b, k);
        fcmp_antisymmetric(b, c, k);
        fcmp_antisymmetric(a, c, k);
        if o[i].1 == 1 { fcmp_transitive(a, b, c, k); } else { fcmp_transitive(c, b, a, k); }
        if fcmp(a, b, k) == 0 && fcmp(b, c, k) == 0 { dcmp_transitive(o, a, b, c, i + 1); }
    }
}
proof fn order_is_total(o: Seq<(String, i8)>)
    requires directed(o),
    ensures
        forall|a: DV, b: DV| #[trigger] dcmp(o, a, b, 0) == -dcmp(o, b, a, 0),
        forall|a: DV, b: DV, c: DV| #[trigger] dcmp(o, a, b, 0) <= 0 && #[trigger] dcmp(o, b, c, 0) <= 0 ==> dcmp(o, a, c, 0) <= 0,
{
    assert forall|a: DV, b: DV| #[trigger] dcmp(o, a, b, 0) == -dcmp(o, b, a, 0) by { dcmp_antisymmetric(o, a, b, 0); }
    assert forall|a: DV, b: DV, c: DV| #[trigger] dcmp(o, a, b, 0) <= 0 && #[trigger] dcmp(o, b, c, 0) <= 0 implies dcmp(o, a, c, 0) <= 0 by { dcmp_transitive(o, a, b, c, 0); }
}

// ---- the properties: what a stage makes of all its inputs ----
/// the states of a stage over the documents fed to it, each call as `call` promises
pub open spec fn skipping(s: Seq<VmFuncSkip>, docs: Seq<Bson>, outs: Seq<VmExternalFuncStatus>) -> bool {
    s.len() == docs.len() + 1 && outs.len() == docs.len() && forall|i: int| 0 <= i < docs.len() ==> skip_step(#[trigger] s[i], docs[i], s[i + 1], outs[i])
}
pub open spec fn skip_step(a: VmFuncSkip, doc: Bson, b: VmFuncSkip, out: VmExternalFuncStatus) -> bool {
    if doc is Null { out == Continue } else if a.remain.v == 0 { out == Next(doc) && b.remain.v == 0 } else { out == Continue && b.remain.v == a.remain.v - 1 }
}
fn c14_skip_call(f: &mut VmFuncSkip, args: &Vec<Bson>) -> (r: Result<VmExternalFuncStatus>)
    requires args.len() >= 1,
    ensures r is Ok, skip_step(*old(f), args[0], *final(f), r->Ok_0),
{ f.call(args) }
/// the documents that a stage passes on
pub open spec fn passed(outs: Seq<VmExternalFuncStatus>) -> Seq<Bson>
    decreases outs.len(),
{
    if outs.len() == 0 { Seq::empty() }
    else { match outs.last() { Next(b) => passed(outs.drop_last()).push(b), Continue => passed(outs.drop_last()) } }
}
pub open spec fn no_null(docs: Seq<Bson>) -> bool { forall|i: int| 0 <= i < docs.len() ==> !(#[trigger] docs[i] is Null) }
pub open spec fn min(a: int, b: int) -> int { if a < b { a } else { b } }
/// $skip n drops the first n
proof fn c14_skip(s: Seq<VmFuncSkip>, docs: Seq<Bson>, outs: Seq<VmExternalFuncStatus>)
    requires skipping(s, docs, outs), no_null(docs),
    ensures passed(outs) == docs.skip(min(s[0].remain.v as int, docs.len() as int)), s.last().remain.v == (if s[0].remain.v as int >= docs.len() { s[0].remain.v - docs.len() } else { 0 }),
    decreases docs.len(),
{
    let n = s[0].remain.v as int;
    if docs.len() == 0 { assert(passed(outs) =~= docs.skip(min(n, 0))); } else {
        let m = docs.len() - 1;
        let (s1, d1, o1) = (s.drop_last(), docs.drop_last(), outs.drop_last());
        assert forall|i: int| 0 <= i < d1.len() implies skip_step(#[trigger] s1[i], d1[i], s1[i + 1], o1[i]) by { assert(s1[i] == s[i]); }
        c14_skip(s1, d1, o1);
        assert(s1.last() == s[m]);
        assert(skip_step(s[m], docs[m], s[m + 1], outs[m]));
        if n > m { assert(passed(outs) =~= docs.skip(min(n, docs.len() as int))); }
        else { assert(passed(outs) =~= docs.skip(n)); }
    }
}
pub open spec fn limit_step(a: VmFuncLimit, doc: Bson, b: VmFuncLimit, out: VmExternalFuncStatus) -> bool {
    if doc is Null { out == Continue } else if a.remain.v == 0 { out == Continue && b.remain.v == 0 } else { out == Next(doc) && b.remain.v == a.remain.v - 1 }
}
fn c14_limit_call(f: &mut VmFuncLimit, args: &Vec<Bson>) -> (r: Result<VmExternalFuncStatus>)
    requires args.len() >= 1,
    ensures r is Ok, limit_step(*old(f), args[0], *final(f), r->Ok_0),
{ f.call(args) }
/// $limit n keeps the first n
proof fn c14_limit(s: Seq<VmFuncLimit>, docs: Seq<Bson>, outs: Seq<VmExternalFuncStatus>)
    requires
        s.len() == docs.len() + 1, outs.len() == docs.len(), no_null(docs),
        forall|i: int| 0 <= i < docs.len() ==> limit_step(#[trigger] s[i], docs[i], s[i + 1], outs[i]),
    ensures passed(outs) == docs.take(min(s[0].remain.v as int, docs.len() as int)), s.last().remain.v == (if s[0].remain.v as int >= docs.len() { s[0].remain.v - docs.len() } else { 0 }),
    decreases docs.len(),
{
    let n = s[0].remain.v as int;
    if docs.len() == 0 { assert(passed(outs) =~= docs.take(min(n, 0))); } else {
        let m = docs.len() - 1;
        let (s1, d1, o1) = (s.drop_last(), docs.drop_last(), outs.drop_last());
        assert forall|i: int| 0 <= i < d1.len() implies limit_step(#[trigger] s1[i], d1[i], s1[i + 1], o1[i]) by { assert(s1[i] == s[i]); }
        c14_limit(s1, d1, o1);
        assert(s1.last() == s[m]);
        assert(limit_step(s[m], docs[m], s[m + 1], outs[m]));
        if n > m { assert(passed(outs) =~= docs.take(m + 1)); }
        else { assert(passed(outs) =~= docs.take(n)); }
    }
}
/// $unset leaves every other field alone
proof fn c14_unset_frame(d: DV, names: Seq<String>, n: int, k: Seq<char>)
    requires 0 <= n <= names.len(),
    ensures
        (forall|i: int| 0 <= i < n ==> (#[trigger] names[i])@ != k) ==> d_get(without(d, names, n), k) == d_get(d, k),
        (exists|i: int| 0 <= i < n && (#[trigger] names[i])@ == k) ==> d_get(without(d, names, n), k) is None,
    decreases n,
{
    if n > 0 {
        c14_unset_frame(d, names, n - 1, k);
        lemma_get_rem(without(d, names, n - 1), names[n - 1]@, k);
        assert(names[n - 1]@ == k || names[n - 1]@ != k);
    }
}
/// $addFields leaves every other field alone
proof fn c14_add_fields_frame(d: DV, f: Seq<(String, OperatorExpr)>, vals: Seq<Bson>, n: int, k: Seq<char>)
    requires 0 <= n <= f.len(), forall|i: int| 0 <= i < n ==> (#[trigger] f[i]).0@ != k,
    ensures d_get(added(d, f, vals, n), k) == d_get(d, k),
    decreases n,
{
    if n > 0 {
        c14_add_fields_frame(d, f, vals, n - 1, k);
        lemma_get_ins(added(d, f, vals, n - 1), f[n - 1].0@, vals[n - 1], k);
    }
}
/// and sets the named ones
proof fn c14_add_fields_sets(d: DV, f: Seq<(String, OperatorExpr)>, vals: Seq<Bson>, n: int, i: int)
    requires 0 <= i < n <= f.len(), forall|i: int, j: int| 0 <= i < j < n ==> (#[trigger] f[i]).0@ != (#[trigger] f[j]).0@,
    ensures d_get(added(d, f, vals, n), f[i].0@) == Some(vals[i]),
    decreases n,
{
    lemma_get_ins(added(d, f, vals, n - 1), f[n - 1].0@, vals[n - 1], f[i].0@);
    if i < n - 1 { c14_add_fields_sets(d, f, vals, n - 1, i); }
}
/// what is in order stays as it is when sorted again: the results do not move while they are handed out
proof fn c15_sorted_again(o: Seq<(String, i8)>, a: Seq<Document>, b: Seq<Document>, c: Seq<Document>)
    requires directed(o), stable_sort(o, a, b), stable_sort(o, b, c),
    ensures c == b,
{
    let p = choose|p: Seq<int>| sorts(o, a, b, p);
    let q = choose|q: Seq<int>| sorts(o, b, c, q);
    let n = b.len() as int;
    assert forall|i: int, j: int| 0 <= i < j < n implies q[i] < q[j] by {
        assert(q[i] != q[j]);
        assert(ordered(o, c[i], c[j], q[i], q[j]));
        if q[j] < q[i] {
            // b has these two the other way round
            assert(ordered(o, b[q[j]], b[q[i]], p[q[j]], p[q[i]]));
            dcmp_antisymmetric(o, dv(c[i]), dv(c[j]), 0);
        }
    }
    lemma_increasing(q, n);
    assert(c =~= b) by { assert forall|i: int| 0 <= i < n implies c[i] == b[i] by { assert(q[i] == i); } }
}
proof fn lemma_increasing(q: Seq<int>, n: int)
    requires q.len() == n, forall|i: int| 0 <= i < n ==> 0 <= #[trigger] q[i] < n, forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] q[i] < #[trigger] q[j],
    ensures forall|i: int| 0 <= i < n ==> #[trigger] q[i] == i,
{
    assert forall|i: int| 0 <= i < n implies #[trigger] q[i] == i by { lemma_at_least(q, n, i); lemma_at_most(q, n, i); }
}
proof fn lemma_at_least(q: Seq<int>, n: int, i: int)
    requires q.len() == n, 0 <= i < n, forall|i: int| 0 <= i < n ==> 0 <= #[trigger] q[i] < n, forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] q[i] < #[trigger] q[j],
    ensures q[i] >= i,
    decreases i,
{ if i > 0 { lemma_at_least(q, n, i - 1); assert(q[i - 1] < q[i]); } }
proof fn lemma_at_most(q: Seq<int>, n: int, i: int)
    requires q.len() == n, 0 <= i < n, forall|i: int| 0 <= i < n ==> 0 <= #[trigger] q[i] < n, forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] q[i] < #[trigger] q[j],
    ensures q[i] <= i,
    decreases n - i,
{ if i < n - 1 { lemma_at_most(q, n, i + 1); assert(q[i] < q[i + 1]); } }
pub open spec fn sort_step(a: VmFuncSort, arg: Bson, b: VmFuncSort, out: VmExternalFuncStatus) -> bool {
    b.order_map == a.order_map && match arg {
        Bson::Document(d) => out == Continue && b.buffer@ == a.buffer@.push(d) && b.idx == a.idx,
        Bson::Null => stable_sort(a.order_map.entries@, a.buffer@, b.buffer@) && b.idx.v == a.idx.v + 1
            && out == (if a.idx.v < a.buffer@.len() { Next(Bson::Document(b.buffer@[a.idx.v as int])) } else { Continue }),
        _ => false,
    }
}
fn c15_call(f: &mut VmFuncSort, args: &Vec<Bson>) -> (r: Result<VmExternalFuncStatus>)
    requires args.len() >= 1, directed(old(f).order_map.entries@), old(f).idx.v < usize::MAX,
    ensures r is Ok ==> sort_step(*old(f), args[0], *final(f), r->Ok_0), args[0] is Document || args[0] is Null ==> r is Ok,
{ f.call(args) }
/// $sort takes in every document ...
proof fn c15_collects(s: Seq<VmFuncSort>, docs: Seq<Document>, outs: Seq<VmExternalFuncStatus>)
    requires
        s.len() == docs.len() + 1, outs.len() == docs.len(), s[0].buffer@.len() == 0, s[0].idx.v == 0,
        forall|i: int| 0 <= i < docs.len() ==> sort_step(#[trigger] s[i], Bson::Document(docs[i]), s[i + 1], outs[i]),
    ensures s.last().buffer@ == docs, s.last().order_map == s[0].order_map, s.last().idx.v == 0, passed(outs).len() == 0,
    decreases docs.len(),
{
    if docs.len() == 0 { assert(s.last().buffer@ =~= docs); } else {
        let m = docs.len() - 1;
        let (s1, d1, o1) = (s.drop_last(), docs.drop_last(), outs.drop_last());
        assert forall|i: int| 0 <= i < d1.len() implies sort_step(#[trigger] s1[i], Bson::Document(d1[i]), s1[i + 1], o1[i]) by { assert(s1[i] == s[i]); }
        c15_collects(s1, d1, o1);
        assert(s1.last() == s[m]);
        assert(sort_step(s[m], Bson::Document(docs[m]), s[m + 1], outs[m]));
        assert(s.last().buffer@ =~= docs);
    }
}
proof fn lemma_same_len(o: Seq<(String, i8)>, a: Seq<Document>, b: Seq<Document>)
    ensures stable_sort(o, a, b) ==> a.len() == b.len(),
{}
/// ... and hands out the sorted ones, one per call
proof fn c15_hands_out(s: Seq<VmFuncSort>, outs: Seq<VmExternalFuncStatus>, m: int)
    requires
        s.len() == m + 1, outs.len() == m, 1 <= m <= s[0].buffer@.len(), s[0].idx.v == 0, directed(s[0].order_map.entries@),
        forall|i: int| 0 <= i < m ==> sort_step(#[trigger] s[i], Bson::Null, s[i + 1], outs[i]),
    ensures
        stable_sort(s[0].order_map.entries@, s[0].buffer@, s[1].buffer@),
        forall|i: int| 0 <= i < m ==> #[trigger] outs[i] == Next(Bson::Document(s[1].buffer@[i])),
        s[m].buffer@ == s[1].buffer@, s[m].idx.v == m, s[m].order_map == s[0].order_map,
    decreases m,
{
    hide(stable_sort);
    hide(directed);
    lemma_same_len(s[0].order_map.entries@, s[0].buffer@, s[1].buffer@);
    assert(sort_step(s[m - 1], Bson::Null, s[m], outs[m - 1]));
    if m > 1 {
        let (s1, o1) = (s.drop_last(), outs.drop_last());
        assert forall|i: int| 0 <= i < m - 1 implies sort_step(#[trigger] s1[i], Bson::Null, s1[i + 1], o1[i]) by { assert(s1[i] == s[i]); }
        c15_hands_out(s1, o1, m - 1);
        assert(s1[m - 1] == s[m - 1] && s1[1] == s[1] && s1[0] == s[0]);
        let o = s[0].order_map.entries@;
        c15_sorted_again(o, s[0].buffer@, s[1].buffer@, s[m].buffer@);
        assert forall|i: int| 0 <= i < m implies #[trigger] outs[i] == Next(Bson::Document(s[1].buffer@[i])) by { if i < m - 1 { assert(o1[i] == outs[i]); } }
    }
}
/// $count counts its inputs
proof fn c14_count(s: Seq<VmFuncCount>, docs: Seq<Bson>)
    requires
        s.len() == docs.len() + 1, s[0].count.v == 0, no_null(docs), docs.len() < 0x7fff_ffff_ffff_ffff,
        forall|i: int| 0 <= i < docs.len() ==> (#[trigger] s[i]).count.v < 0x7fff_ffff_ffff_ffff ==> s[i + 1].count.v == s[i].count.v + 1,
    ensures s.last().count.v == docs.len(),
    decreases docs.len(),
{
    if docs.len() > 0 {
        let (s1, d1) = (s.drop_last(), docs.drop_last());
        assert forall|i: int| 0 <= i < d1.len() implies (#[trigger] s1[i]).count.v < 0x7fff_ffff_ffff_ffff ==> s1[i + 1].count.v == s1[i].count.v + 1 by { assert(s1[i] == s[i]); }
        c14_count(s1, d1);
        assert(s1.last() == s[docs.len() - 1]);
    }
}
/// two neighbours of the result, by the first field that tells them apart
proof fn c15_by_fields(o: Seq<(String, i8)>, a: DV, b: DV, i: int)
    requires directed(o), dcmp(o, a, b, 0) <= 0, 0 <= i < o.len(), forall|j: int| 0 <= j < i ==> fcmp(a, b, (#[trigger] o[j]).0@) == 0,
    ensures o[i].1 == 1 ==> fcmp(a, b, o[i].0@) <= 0, o[i].1 == -1 ==> fcmp(a, b, o[i].0@) >= 0,
{ lemma_tied(o, a, b, i); }
proof fn lemma_tied(o: Seq<(String, i8)>, a: DV, b: DV, i: int)
    requires 0 <= i <= o.len(), forall|j: int| 0 <= j < i ==> fcmp(a, b, (#[trigger] o[j]).0@) == 0,
    ensures dcmp(o, a, b, 0) == dcmp(o, a, b, i),
    decreases i,
{ if i > 0 { lemma_tied(o, a, b, i - 1); assert(fcmp(a, b, o[i - 1].0@) == 0); } }
} // verus!
fn main() {}
