// the order of values: utils/bson.rs value_cmp
//@rule element type number: ElementType::$i_x as u8 ~~> et(ElementType::$i_x)
//@rule element type number of a value: $i_v.element_type() as u8 ~~> et($i_v.element_type())
//@rule Ord::cmp by contract: .cmp( ~~> .cmp3(
//@rule eager then_with: $a.then_with(|| $b) ~~> then_ord($a, $b)
//@rule pairwise loop over arrays as an indexed loop: for ($i_a, $i_b) in $i_x.iter().zip($i_y.iter()) { ~~> let mut zi: usize = 0; while zi < $i_x.len() && zi < $i_y.len() { let $i_a = &$i_x[zi]; let $i_b = &$i_y[zi]; zi = zi + 1;
//@rule pairwise loop over documents as an indexed loop: for (($i_k, $i_a), ($i_l, $i_b)) in $i_x.iter().zip($i_y.iter()) { ~~> let mut zi: usize = 0; while zi < $i_x.entries.len() && zi < $i_y.entries.len() { let ($i_k, $i_a) = &$i_x.entries[zi]; let ($i_l, $i_b) = &$i_y.entries[zi]; zi = zi + 1;
//@rule text form of values without an order: $i_v.to_string() ~~> text_of($i_v)

#[derive(Structural, PartialEq, Eq, Clone, Copy)]
pub enum Ordering { Less, Equal, Greater }

pub open spec fn sg(o: Ordering) -> int {
    match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 }
}

impl Ordering {
    pub fn reverse(self) -> (r: Ordering)
        ensures sg(r) == -sg(self),
    { match self { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
}

#[derive(Debug)]
pub struct BsonError;
pub type BsonResult<T> = std::result::Result<T, BsonError>;

pub open spec fn icmp(a: int, b: int) -> int { if a < b { -1 } else if a == b { 0 } else { 1 } }

/// lexicographic order of sequences
pub open spec fn lex(a: Seq<int>, b: Seq<int>) -> int
    decreases a.len(),
{
    if a.len() == 0 && b.len() == 0 { 0 }
    else if a.len() == 0 { -1 }
    else if b.len() == 0 { 1 }
    else if a[0] != b[0] { icmp(a[0], b[0]) }
    else { lex(a.skip(1), b.skip(1)) }
}

pub open spec fn chars(s: Seq<char>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
pub open spec fn bytes(s: Seq<u8>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }

/// Ord::cmp of the types that occur, by contract (trusted: std and the bson crate).
pub trait Cmp3 { spec fn c3(&self, o: &Self) -> int; fn cmp3(&self, o: &Self) -> (r: Ordering) ensures sg(r) == self.c3(o); }
impl Cmp3 for i32 { open spec fn c3(&self, o: &Self) -> int { icmp(*self as int, *o as int) } #[verifier::external_body] fn cmp3(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
impl Cmp3 for i64 { open spec fn c3(&self, o: &Self) -> int { icmp(*self as int, *o as int) } #[verifier::external_body] fn cmp3(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
impl Cmp3 for u8 { open spec fn c3(&self, o: &Self) -> int { icmp(*self as int, *o as int) } #[verifier::external_body] fn cmp3(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
impl Cmp3 for usize { open spec fn c3(&self, o: &Self) -> int { icmp(*self as int, *o as int) } #[verifier::external_body] fn cmp3(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
impl Cmp3 for bool { open spec fn c3(&self, o: &Self) -> int { icmp(b2i(*self), b2i(*o)) } #[verifier::external_body] fn cmp3(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
impl Cmp3 for DateTime { open spec fn c3(&self, o: &Self) -> int { icmp(self.millis as int, o.millis as int) } #[verifier::external_body] fn cmp3(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
impl Cmp3 for String { open spec fn c3(&self, o: &Self) -> int { lex(chars(self@), chars(o@)) } #[verifier::external_body] fn cmp3(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
impl Cmp3 for Vec<u8> { open spec fn c3(&self, o: &Self) -> int { lex(bytes(self@), bytes(o@)) } #[verifier::external_body] fn cmp3(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
impl Cmp3 for ObjectId { open spec fn c3(&self, o: &Self) -> int { lex(bytes(self.id@), bytes(o.id@)) } #[verifier::external_body] fn cmp3(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
impl Cmp3 for [u8; 16] { open spec fn c3(&self, o: &Self) -> int { lex(bytes(self@), bytes(o@)) } #[verifier::external_body] fn cmp3(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
impl Cmp3 for (u32, u32) { open spec fn c3(&self, o: &Self) -> int { if self.0 != o.0 { icmp(self.0 as int, o.0 as int) } else { icmp(self.1 as int, o.1 as int) } } #[verifier::external_body] fn cmp3(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }

fn then_ord(a: Ordering, b: Ordering) -> (r: Ordering)
    ensures r == (if a == Ordering::Equal { b } else { a }),
{ match a { Ordering::Equal => b, _ => a } }

/// the text form of a value (Display of the bson crate)
pub uninterp spec fn text(a: Bson) -> Seq<char>;
#[verifier::external_body]
fn text_of(a: &Bson) -> (r: String) ensures r@ == text(*a), { unimplemented!() }

/// what a double denotes
pub enum Num { NaN, NegInf, Fin(real), PosInf }
pub uninterp spec fn num(d: f64) -> Num;

pub open spec fn nrank(n: Num) -> int { match n { Num::NaN => 0, Num::NegInf => 1, Num::Fin(_) => 2, Num::PosInf => 3 } }
pub open spec fn ncmp(a: Num, b: Num) -> int {
    if nrank(a) != nrank(b) { icmp(nrank(a), nrank(b)) }
    else { match (a, b) { (Num::Fin(x), Num::Fin(y)) => if x < y { -1 } else if x == y { 0 } else { 1 }, _ => 0 } }
}

// These two are proved exact for every i64 and every f64 by the Kani harnesses c03_double_cmp_is_total and
// c03_integer_double_cmp_is_exact; here only their contracts are used.
#[verifier::external_body]
fn double_cmp(a: f64, b: f64) -> (r: Ordering) ensures sg(r) == ncmp(num(a), num(b)), { unimplemented!() }
#[verifier::external_body]
fn integer_double_cmp(i: i64, d: f64) -> (r: Ordering) ensures sg(r) == ncmp(Num::Fin(i as real), num(d)), { unimplemented!() }

pub open spec fn scalar(v: Bson) -> bool {
    match v {
        Bson::Array(_) | Bson::Document(_) | Bson::JavaScriptCode(_) | Bson::JavaScriptCodeWithScope(_) | Bson::DbPointer(_)
        | Bson::RegularExpression(_) => false,
        _ => true,
    }
}

pub open spec fn is_number(v: Bson) -> bool { v is Double || v is Int32 || v is Int64 }
pub open spec fn number(v: Bson) -> Num {
    match v { Bson::Double(d) => num(d), Bson::Int32(i) => Num::Fin(i as real), Bson::Int64(i) => Num::Fin(i as real), _ => Num::NaN }
}

/// all numbers are one kind
pub open spec fn kind(v: Bson) -> int { if is_number(v) { 0x10 } else { et_spec(v.etype()) as int } }

/// the order the property speaks of
pub open spec fn scmp(a: Bson, b: Bson) -> int {
    if kind(a) != kind(b) { icmp(kind(a), kind(b)) }
    else if is_number(a) { ncmp(number(a), number(b)) }
    else {
        match (a, b) {
            (Bson::String(x), Bson::String(y)) => lex(chars(x@), chars(y@)),
            (Bson::Symbol(x), Bson::Symbol(y)) => lex(chars(x@), chars(y@)),
            (Bson::Boolean(x), Bson::Boolean(y)) => icmp(b2i(x), b2i(y)),
            (Bson::DateTime(x), Bson::DateTime(y)) => icmp(x.millis as int, y.millis as int),
            (Bson::Timestamp(x), Bson::Timestamp(y)) => if x.time != y.time { icmp(x.time as int, y.time as int) } else { icmp(x.increment as int, y.increment as int) },
            (Bson::Binary(x), Bson::Binary(y)) => lex(bytes(x.bytes@), bytes(y.bytes@)),
            (Bson::ObjectId(x), Bson::ObjectId(y)) => lex(bytes(x.id@), bytes(y.id@)),
            (Bson::Decimal128(x), Bson::Decimal128(y)) => lex(bytes(x.raw@), bytes(y.raw@)),
            _ => 0,
        }
    }
}

/// the order of all values: arrays by their elements, documents by their names and values, code by its text
pub open spec fn vcmp(a: Bson, b: Bson) -> int
    decreases a, 0int,
{
    match (a, b) {
        (Bson::Array(x), Bson::Array(y)) => alex(x@, y@, 0),
        (Bson::Document(x), Bson::Document(y)) => dlex(x.entries@, y.entries@, 0),
        (Bson::RegularExpression(x), Bson::RegularExpression(y)) => then(lex(chars(x.pattern@), chars(y.pattern@)), lex(chars(x.options@), chars(y.options@))),
        _ => if kind(a) == kind(b) && !scalar(a) { lex(chars(text(a)), chars(text(b))) } else { scmp(a, b) },
    }
}
pub open spec fn then(a: int, b: int) -> int { if a != 0 { a } else { b } }
pub open spec fn alex(x: Seq<Bson>, y: Seq<Bson>, i: int) -> int
    decreases x, x.len() - i,
{
    if i < 0 || i >= x.len() || i >= y.len() { icmp(x.len() as int, y.len() as int) }
    else { then(vcmp(x[i], y[i]), alex(x, y, i + 1)) }
}
pub open spec fn dlex(x: Seq<(String, Bson)>, y: Seq<(String, Bson)>, i: int) -> int
    decreases x, x.len() - i,
{
    if i < 0 || i >= x.len() || i >= y.len() { icmp(x.len() as int, y.len() as int) }
    else { then(then(lex(chars(x[i].0@), chars(y[i].0@)), vcmp(x[i].1, y[i].1)), dlex(x, y, i + 1)) }
}


//@fn src/polodb_core/utils/bson.rs type_rank
//@ret r
//@spec
    ensures r as int == kind(*val),
//@end

//@fn src/polodb_core/utils/bson.rs value_cmp
//@ret r
//@spec
    ensures
        r is Ok,
        sg(r->Ok_0) == vcmp(*a, *b),
    decreases *a,
//@loop 0
    invariant zi <= arr1.len(), zi <= arr2.len(), *a is Array, a->Array_0 == *arr1, *b is Array, b->Array_0 == *arr2,
        vcmp(*a, *b) == alex(arr1@, arr2@, zi as int),
    decreases arr1.len() - zi,
//@loopstart 0
    proof { assert(decreases_to!(*a => a->Array_0)); assert(decreases_to!(*arr1 => arr1@)); assert(decreases_to!(arr1@ => arr1@[zi as int])); }
//@loop 1
    invariant zi <= doc1.entries.len(), zi <= doc2.entries.len(), *a is Document, a->Document_0 == *doc1, *b is Document, b->Document_0 == *doc2,
        vcmp(*a, *b) == dlex(doc1.entries@, doc2.entries@, zi as int),
    decreases doc1.entries.len() - zi,
//@loopstart 1
    proof { assert(decreases_to!(*a => a->Document_0)); assert(decreases_to!(*doc1 => doc1.entries)); assert(decreases_to!(doc1.entries => doc1.entries@)); assert(decreases_to!(doc1.entries@ => doc1.entries@[zi as int]));
        assert(decreases_to!(doc1.entries@[zi as int] => doc1.entries@[zi as int].1)); }
//@end

