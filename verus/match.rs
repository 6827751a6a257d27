// C04, C05: values at a path, equality of values, membership and regular expressions in queries.
use vstd::prelude::*;
verus! {
#[derive(Debug)]
pub enum Error { RegexError }
pub type Result<T> = std::result::Result<T, Error>;
//@import _bson.rs
//@import _doc.rs
//@rule comparison by contract: left.code == right.code ~~> eq3(&left.code, &right.code)
//@rule comparison by contract: left.subtype == right.subtype ~~> eq3(&left.subtype, &right.subtype)
//@rule comparison by contract: left.bytes == right.bytes ~~> eq3(&left.bytes, &right.bytes)
//@rule comparison by contract: i64::from(*left) == *right ~~> eq3(&i64::from(*left), right)
//@rule comparison by contract: *left == i64::from(*right) ~~> eq3(left, &i64::from(*right))
//@rule comparison by contract: left == right ~~> eq3(left, right)
//@rule comparison by contract: left_key == right_key ~~> eq3(left_key, right_key)
//@rule not a number by contract: $i_x.is_nan() ~~> is_nan($i_x)
//@rule all over pairs of document entries as a loop: $i_x.iter().zip($i_y.iter()).all(|(($i_k, $i_a), ($i_l, $i_b))| { $s_e },) ~~> { let mut zok = true; let mut zi: usize = 0; while zok && zi < $i_x.entries.len() && zi < $i_y.entries.len() { let ($i_k, $i_a) = &$i_x.entries[zi]; let ($i_l, $i_b) = &$i_y.entries[zi]; zok = $s_e; zi = zi + 1; } zok }
//@rule all over pairs as a loop: $i_x.iter().zip($i_y.iter()).all(|($i_a, $i_b)| $e) ~~> { let mut zok = true; let mut zi: usize = 0; while zok && zi < $i_x.len() && zi < $i_y.len() { let $i_a = &$i_x[zi]; let $i_b = &$i_y[zi]; zok = $e; zi = zi + 1; } zok }
//@rule any over pairs as a loop: $i_x.iter().zip($i_y.iter()).any(|($i_a, $i_b)| $e) ~~> { let mut zok = false; let mut zi: usize = 0; while !zok && zi < $i_x.len() && zi < $i_y.len() { let $i_a = &$i_x[zi]; let $i_b = &$i_y[zi]; zok = $e; zi = zi + 1; } zok }
//@rule any as a loop: $i_x.iter().any(|$i_a| $e) ~~> { let mut zok = false; let mut zi: usize = 0; while !zok && zi < $i_x.len() { let $i_a = &$i_x[zi]; zok = $e; zi = zi + 1; } zok }
//@rule collecting results as a loop: $i_x.iter().map(|$i_a| $e).collect() ~~> { let mut zv = Vec::new(); let mut zi: usize = 0; while zi < $i_x.len() { let $i_a = &$i_x[zi]; match $e { Ok(zx) => zv.push(zx), Err(ze) => return Err(ze), } zi = zi + 1; } Ok(zv) }
//@rule option of a result: compile_regex($i_x).map(Some) ~~> (match compile_regex($i_x) { Ok(zr) => Ok(Some(zr)), Err(ze) => Err(ze) })
//@rule option test: $i_x.is_some_and(|$i_r| $e) ~~> (match $i_x { Some($i_r) => $e, None => false })
//@rule result to unit: $i_f($i_x).map(|_| ()) ~~> (match $i_f($i_x) { Ok(_) => Ok(()), Err(ze) => Err(ze) })
//@rule slices are vectors: $i_c: &[Bson] ~~> $i_c: &Vec<Bson>

/// what a double denotes
pub enum Num { NaN, NegInf, Fin(real), PosInf }
pub uninterp spec fn num(d: f64) -> Num;
pub open spec fn is_number(v: Bson) -> bool { v is Double || v is Int32 || v is Int64 }
pub open spec fn number(v: Bson) -> Num {
    match v { Bson::Double(d) => num(d), Bson::Int32(i) => Num::Fin(i as real), Bson::Int64(i) => Num::Fin(i as real), _ => Num::NaN }
}

/// equality of the types that occur, by contract (trusted: std and the bson crate)
pub trait Eq3 { spec fn e3(&self, o: &Self) -> bool; fn eq3_(&self, o: &Self) -> (r: bool) ensures r == self.e3(o); }
impl Eq3 for i32 { open spec fn e3(&self, o: &Self) -> bool { *self == *o } #[verifier::external_body] fn eq3_(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl Eq3 for i64 { open spec fn e3(&self, o: &Self) -> bool { *self == *o } #[verifier::external_body] fn eq3_(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl Eq3 for u8 { open spec fn e3(&self, o: &Self) -> bool { *self == *o } #[verifier::external_body] fn eq3_(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl Eq3 for f64 { open spec fn e3(&self, o: &Self) -> bool { !(num(*self) is NaN) && num(*self) == num(*o) } #[verifier::external_body] fn eq3_(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl Eq3 for String { open spec fn e3(&self, o: &Self) -> bool { self@ == o@ } #[verifier::external_body] fn eq3_(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl Eq3 for Vec<u8> { open spec fn e3(&self, o: &Self) -> bool { self@ == o@ } #[verifier::external_body] fn eq3_(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl Eq3 for Bson { open spec fn e3(&self, o: &Self) -> bool { plain_eq(*self, *o) } #[verifier::external_body] fn eq3_(&self, o: &Self) -> (r: bool) { unimplemented!() } }
fn eq3<T: Eq3>(a: &T, b: &T) -> (r: bool) ensures r == a.e3(b), { a.eq3_(b) }
#[verifier::external_body]
fn is_nan(d: &f64) -> (r: bool) ensures r == (num(*d) is NaN), { unimplemented!() }
/// the bson crate's own equality on values of the types that have no rule of their own
pub open spec fn plain_eq(a: Bson, b: Bson) -> bool {
    match (a, b) {
        (Bson::String(x), Bson::String(y)) => x@ == y@,
        (Bson::Symbol(x), Bson::Symbol(y)) => x@ == y@,
        (Bson::JavaScriptCode(x), Bson::JavaScriptCode(y)) => x@ == y@,
        (Bson::Boolean(x), Bson::Boolean(y)) => x == y,
        (Bson::Null, Bson::Null) => true,
        (Bson::Undefined, Bson::Undefined) => true,
        (Bson::MaxKey, Bson::MaxKey) => true,
        (Bson::MinKey, Bson::MinKey) => true,
        (Bson::RegularExpression(x), Bson::RegularExpression(y)) => x.pattern@ == y.pattern@ && x.options@ == y.options@,
        (Bson::Timestamp(x), Bson::Timestamp(y)) => x == y,
        (Bson::DateTime(x), Bson::DateTime(y)) => x == y,
        (Bson::ObjectId(x), Bson::ObjectId(y)) => x == y,
        (Bson::Decimal128(x), Bson::Decimal128(y)) => x == y,
        (Bson::DbPointer(x), Bson::DbPointer(y)) => x.namespace@ == y.namespace@,
        _ => false,
    }
}
/// the equality of the property: exact across numeric types, recursive and order-sensitive, nothing across kinds
pub open spec fn qeq(a: Bson, b: Bson) -> bool
    decreases a,
{
    match (a, b) {
        (Bson::Array(x), Bson::Array(y)) => x@.len() == y@.len() && forall|i: int| 0 <= i < x@.len() ==> qeq(#[trigger] x@[i], y@[i]),
        (Bson::Document(x), Bson::Document(y)) => deq(x, y),
        (Bson::JavaScriptCodeWithScope(x), Bson::JavaScriptCodeWithScope(y)) => x.code@ == y.code@ && deq(x.scope, y.scope),
        (Bson::Binary(x), Bson::Binary(y)) => x.subtype == y.subtype && x.bytes@ == y.bytes@,
        (Bson::String(x), Bson::Symbol(y)) => x@ == y@,
        (Bson::Symbol(x), Bson::String(y)) => x@ == y@,
        _ => if is_number(a) && is_number(b) { number(a) == number(b) } else { plain_eq(a, b) },
    }
}
pub open spec fn deq(x: Document, y: Document) -> bool
    decreases x,
{
    x.entries@.len() == y.entries@.len()
        && forall|i: int| 0 <= i < x.entries@.len() ==> (#[trigger] x.entries@[i]).0@ == y.entries@[i].0@ && qeq(x.entries@[i].1, y.entries@[i].1)
}

// proved exact for every i64 and every f64 by the Kani harness c05_integer_equals_double_is_exact
#[verifier::external_body]
fn integer_equals_double(integer: i64, double: f64) -> (r: bool) ensures r == (num(double) == Num::Fin(integer as real)), { unimplemented!() }

//@fn src/polodb_core/vm/query_matcher.rs numeric_values_equal
//@ret r
//@spec
    ensures r == (is_number(*left) && is_number(*right) && number(*left) == number(*right)),
//@end
//@fn src/polodb_core/vm/query_matcher.rs query_values_equal
//@ret r
//@spec
    ensures r == qeq(*left, *right),
    decreases *left,
//@start
    let ghost l0 = *left;
    let ghost r0 = *right;
//@bind while zok && zi < $i_a.len() && zi < $i_b.len()
//@beforeloop 0
    #[verifier::loop_isolation(false)]
//@loop 0
    invariant
        zi <= $i_a.len(), l0 is Array, l0->Array_0 == *$i_a, r0 is Array, r0->Array_0 == *$i_b, $i_a.len() == $i_b.len(),
        zok ==> forall|i: int| 0 <= i < zi ==> qeq(#[trigger] $i_a@[i], $i_b@[i]),
        !zok ==> exists|i: int| 0 <= i < zi && !qeq(#[trigger] $i_a@[i], $i_b@[i]),
    decreases $i_a.len() - zi,
//@loopstart 0
    proof { assert(decreases_to!(l0 => l0->Array_0)); assert(decreases_to!(*$i_a => $i_a@)); assert(decreases_to!($i_a@ => $i_a@[zi as int])); }
//@end
//@fn src/polodb_core/vm/query_matcher.rs documents_equal
//@ret r
//@spec
    ensures r == deq(*left, *right),
    decreases *left,
//@bind while zok && zi < $i_a.entries.len() && zi < $i_b.entries.len()
//@loop 0
    invariant
        zi <= $i_a.entries.len(), $i_a.entries.len() == $i_b.entries.len(), *$i_a == *left, *$i_b == *right,
        zok ==> forall|i: int| 0 <= i < zi ==> (#[trigger] $i_a.entries@[i]).0@ == $i_b.entries@[i].0@ && qeq($i_a.entries@[i].1, $i_b.entries@[i].1),
        !zok ==> exists|i: int| 0 <= i < zi && !((#[trigger] $i_a.entries@[i]).0@ == $i_b.entries@[i].0@ && qeq($i_a.entries@[i].1, $i_b.entries@[i].1)),
    decreases $i_a.entries.len() - zi,
//@loopstart 0
    proof { assert(decreases_to!(*left => left.entries)); assert(decreases_to!(left.entries => left.entries@)); assert(decreases_to!(left.entries@ => left.entries@[zi as int]));
        assert(decreases_to!(left.entries@[zi as int] => left.entries@[zi as int].1)); }
//@end

// ---- regular expressions (the regex crate by contract) ----
pub struct Flags { pub i: bool, pub m: bool, pub s: bool, pub u: bool, pub swap: bool, pub x: bool }
/// the matcher for a pattern under flags; None if it is not a regular expression
pub uninterp spec fn re_ok(pattern: Seq<char>, f: Flags) -> bool;
pub uninterp spec fn re_match(pattern: Seq<char>, f: Flags, text: Seq<char>) -> bool;
pub struct CompiledRegex { x: u8 }
impl CompiledRegex {
    pub uninterp spec fn pattern(&self) -> Seq<char>;
    pub uninterp spec fn flags(&self) -> Flags;
    #[verifier::external_body]
    pub fn is_match(&self, text: &String) -> (r: bool) ensures r == re_match(self.pattern(), self.flags(), text@), { unimplemented!() }
}
pub struct RegexBuilder { x: u8 }
impl RegexBuilder {
    pub uninterp spec fn pattern(&self) -> Seq<char>;
    pub uninterp spec fn flags(&self) -> Flags;
    #[verifier::external_body]
    pub fn new(p: &str) -> (r: RegexBuilder)
        ensures r.pattern() == p@, r.flags() == no_flags(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn case_insensitive(&mut self, b: bool) ensures final(self).pattern() == old(self).pattern(), final(self).flags() == (Flags { i: b, ..old(self).flags() }), { unimplemented!() }
    #[verifier::external_body]
    pub fn multi_line(&mut self, b: bool) ensures final(self).pattern() == old(self).pattern(), final(self).flags() == (Flags { m: b, ..old(self).flags() }), { unimplemented!() }
    #[verifier::external_body]
    pub fn dot_matches_new_line(&mut self, b: bool) ensures final(self).pattern() == old(self).pattern(), final(self).flags() == (Flags { s: b, ..old(self).flags() }), { unimplemented!() }
    #[verifier::external_body]
    pub fn unicode(&mut self, b: bool) ensures final(self).pattern() == old(self).pattern(), final(self).flags() == (Flags { u: b, ..old(self).flags() }), { unimplemented!() }
    #[verifier::external_body]
    pub fn swap_greed(&mut self, b: bool) ensures final(self).pattern() == old(self).pattern(), final(self).flags() == (Flags { swap: b, ..old(self).flags() }), { unimplemented!() }
    #[verifier::external_body]
    pub fn ignore_whitespace(&mut self, b: bool) ensures final(self).pattern() == old(self).pattern(), final(self).flags() == (Flags { x: b, ..old(self).flags() }), { unimplemented!() }
    #[verifier::external_body]
    pub fn build(&self) -> (r: Result<CompiledRegex>)
        ensures match r {
            Ok(c) => re_ok(self.pattern(), self.flags()) && c.pattern() == self.pattern() && c.flags() == self.flags(),
            Err(_) => !re_ok(self.pattern(), self.flags()),
        },
    { unimplemented!() }
}
/// the regex crate's defaults: only Unicode mode is on
pub open spec fn no_flags() -> Flags { Flags { i: false, m: false, s: false, u: true, swap: false, x: false } }
pub open spec fn has(o: Seq<char>, n: int, c: char) -> bool { exists|j: int| 0 <= j < n && #[trigger] o[j] == c }
pub open spec fn known(c: char) -> bool { c == 'i' || c == 'm' || c == 's' || c == 'u' || c == 'U' || c == 'x' }
/// the flags of the first n option letters
pub open spec fn flags_of(o: Seq<char>, n: int) -> Flags {
    Flags { i: has(o, n, 'i'), m: has(o, n, 'm'), s: has(o, n, 's'), u: true, swap: has(o, n, 'U'), x: has(o, n, 'x') }
}
pub open spec fn valid_regex(e: Regex) -> bool {
    (forall|j: int| 0 <= j < e.options@.len() ==> known(#[trigger] e.options@[j])) && re_ok(e.pattern@, flags_of(e.options@, e.options@.len() as int))
}
/// the expression matches the text
pub open spec fn rmatch(e: Regex, text: Seq<char>) -> bool { re_match(e.pattern@, flags_of(e.options@, e.options@.len() as int), text) }
pub open spec fn text_match(e: Regex, v: Bson) -> bool {
    match v { Bson::String(s) => rmatch(e, s@), Bson::Symbol(s) => rmatch(e, s@), _ => false }
}
/// a string, or an array with a string, that matches
pub open spec fn value_match(e: Regex, v: Bson) -> bool {
    match v { Bson::Array(a) => exists|i: int| 0 <= i < a@.len() && text_match(e, #[trigger] a@[i]), _ => text_match(e, v) }
}
pub open spec fn is_for(c: CompiledRegex, e: Regex) -> bool {
    c.pattern() == e.pattern@ && c.flags() == flags_of(e.options@, e.options@.len() as int)
}
#[verifier::external_body]
fn chars_of(s: &String) -> (r: Vec<char>) ensures r@ == s@, { unimplemented!() }
//@fn src/polodb_core/vm/query_matcher.rs compile_regex
//@rw loop over the letters as an indexed loop: for $i_o in $x.chars() { ~~> let zc = chars_of(&$x); let mut zi: usize = 0; while zi < zc.len() { let $i_o = zc[zi]; zi = zi + 1;
//@rw the error, whatever its message: return Err(Error::from(RegexError { $m })); ~~> return Err(Error::RegexError);
//@rw the error, whatever its message: builder.build().map_err(|$i_e| { $s_m }) ~~> builder.build()
//@ret r
//@spec
    ensures match r { Ok(c) => valid_regex(*expression) && is_for(c, *expression), Err(_) => !valid_regex(*expression) },
//@bind let mut $i_b = RegexBuilder::new($x);
//@loop 0
    invariant
        zc@ == expression.options@, zi <= zc.len(),
        $i_b.pattern() == expression.pattern@, $i_b.flags() == flags_of(expression.options@, zi as int),
        forall|j: int| 0 <= j < zi ==> known(#[trigger] expression.options@[j]),
    decreases zc.len() - zi,
//@loopstart 0
    let ghost z0 = zi as int;
    let ghost o = expression.options@;
    proof {
        assert forall|c: char| #[trigger] has(o, z0 + 1, c) == (has(o, z0, c) || o[z0] == c) by {
            if has(o, z0 + 1, c) { let j = choose|j: int| 0 <= j < z0 + 1 && #[trigger] o[j] == c; if j < z0 { assert(has(o, z0, c)); } }
            if has(o, z0, c) { let j = choose|j: int| 0 <= j < z0 && #[trigger] o[j] == c; assert(has(o, z0 + 1, c)); }
            if o[z0] == c { assert(has(o, z0 + 1, c)); }
        }
    }
//@end
//@fn src/polodb_core/vm/query_matcher.rs matches_compiled_regex
//@ret r
//@spec
    ensures forall|e: Regex| #[trigger] is_for(*regex, e) ==> r == value_match(e, *field_value),
//@bind while !zok && zi < $i_a.len()
//@loop 0
    invariant
        zi <= $i_a.len(), *field_value is Array, field_value->Array_0 == *$i_a,
        forall|e: Regex| #[trigger] is_for(*regex, e) ==> zok == exists|i: int| 0 <= i < zi && text_match(e, #[trigger] $i_a@[i]),
    decreases $i_a.len() - zi,
//@end
//@fn src/polodb_core/vm/query_matcher.rs matches_regex
//@ret r
//@spec
    ensures match r { Ok(b) => valid_regex(*expression) && b == value_match(*expression, *field_value), Err(_) => !valid_regex(*expression) },
//@end

// ---- membership ----
pub open spec fn bad_regex(c: Bson) -> bool { c is RegularExpression && !valid_regex(c->RegularExpression_0) }
/// the value meets the candidate: equals it, holds it, or matches it as an expression
pub open spec fn meets(v: Bson, c: Bson) -> bool {
    ||| qeq(v, c)
    ||| v is Array && exists|i: int| 0 <= i < v->Array_0@.len() && qeq(#[trigger] v->Array_0@[i], c)
    ||| c is RegularExpression && value_match(c->RegularExpression_0, v)
}
pub open spec fn compiled_as(r: Option<CompiledRegex>, c: Bson) -> bool {
    if c is RegularExpression { r is Some && is_for(r->0, c->RegularExpression_0) && !bad_regex(c) } else { r is None }
}
//@fn src/polodb_core/vm/query_matcher.rs compile_candidate_regexes
//@ret r
//@spec
    ensures match r {
        Ok(v) => v@.len() == candidates@.len() && (forall|j: int| 0 <= j < v@.len() ==> compiled_as(#[trigger] v@[j], candidates@[j]))
            && forall|j: int| 0 <= j < candidates@.len() ==> !bad_regex(#[trigger] candidates@[j]),
        Err(_) => exists|j: int| 0 <= j < candidates@.len() && bad_regex(#[trigger] candidates@[j]),
    },
//@loop 0
    invariant
        zi <= candidates.len(), zv@.len() == zi, forall|j: int| 0 <= j < zi ==> compiled_as(#[trigger] zv@[j], candidates@[j]),
    decreases candidates.len() - zi,
//@afterloop 0
    proof { assert forall|j: int| 0 <= j < candidates@.len() implies !bad_regex(#[trigger] candidates@[j]) by { assert(compiled_as(zv@[j], candidates@[j])); } }
//@end
//@fn src/polodb_core/vm/query_matcher.rs candidate_matches
//@rw a test in an array: matches!(field_value, Bson::Array($i_v) if $e) ~~> (match field_value { Bson::Array($i_v) => $e, _ => false })
//@rw optional argument: compiled_regex: Option<&CompiledRegex> ~~> compiled_regex: Option<&CompiledRegex>
//@ret r
//@spec
    ensures forall|zc: Option<CompiledRegex>| #![trigger compiled_as(zc, *candidate)] compiled_as(zc, *candidate) && zc is Some == compiled_regex is Some && (zc is Some ==> zc->0 == *compiled_regex->0)
        ==> r == meets(*field_value, *candidate),
//@bind while !zok && zi < $i_a.len()
//@loop 0
    invariant
        zi <= $i_a.len(), *field_value is Array, field_value->Array_0 == *$i_a,
        zok == exists|i: int| 0 <= i < zi && qeq(#[trigger] $i_a@[i], *candidate),
    decreases $i_a.len() - zi,
//@end
//@fn src/polodb_core/vm/query_matcher.rs matches_in
//@ret r
//@spec
    ensures match r {
        Ok(b) => b == (exists|j: int| 0 <= j < candidates@.len() && meets(*field_value, #[trigger] candidates@[j])),
        Err(_) => exists|j: int| 0 <= j < candidates@.len() && bad_regex(#[trigger] candidates@[j]),
    },
//@bind let $i_c = compile_candidate_regexes($x)?;
//@loop 0
    invariant
        zi <= candidates.len(), $i_c@.len() == candidates@.len(), forall|j: int| 0 <= j < $i_c@.len() ==> compiled_as(#[trigger] $i_c@[j], candidates@[j]),
        zok == exists|j: int| 0 <= j < zi && meets(*field_value, #[trigger] candidates@[j]),
    decreases candidates.len() - zi,
//@loopstart 0
    proof { assert(compiled_as($i_c@[zi as int], candidates@[zi as int])); }
//@end
//@fn src/polodb_core/vm/query_matcher.rs matches_all
//@ret r
//@spec
    ensures match r {
        Ok(b) => b == (candidates@.len() > 0 && forall|j: int| 0 <= j < candidates@.len() ==> meets(*field_value, #[trigger] candidates@[j])),
        Err(_) => exists|j: int| 0 <= j < candidates@.len() && bad_regex(#[trigger] candidates@[j]),
    },
//@bind let $i_c = compile_candidate_regexes($x)?;
//@loop 0
    invariant
        zi <= candidates.len(), $i_c@.len() == candidates@.len(), forall|j: int| 0 <= j < $i_c@.len() ==> compiled_as(#[trigger] $i_c@[j], candidates@[j]),
        zok ==> forall|j: int| 0 <= j < zi ==> meets(*field_value, #[trigger] candidates@[j]),
        !zok ==> exists|j: int| 0 <= j < zi && !meets(*field_value, #[trigger] candidates@[j]),
    decreases candidates.len() - zi,
//@loopstart 0
    proof { assert(compiled_as($i_c@[zi as int], candidates@[zi as int])); }
//@end
//@fn src/polodb_core/vm/query_matcher.rs validate_membership_candidates
//@ret r
//@spec
    ensures r is Err == exists|j: int| 0 <= j < candidates@.len() && bad_regex(#[trigger] candidates@[j]),
//@end

// ---- the value at a dotted path ----
pub uninterp spec fn parts(path: Seq<char>) -> Seq<Seq<char>>;
pub struct Parts<'a> { x: &'a str }
impl<'a> Parts<'a> {
    pub uninterp spec fn rest(&self) -> Seq<Seq<char>>;
    /// str::split yields at least one part
    #[verifier::external_body]
    pub fn new(s: &'a str) -> (r: Parts<'a>) ensures r.rest() == parts(s@), r.rest().len() > 0, { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures match r {
            Some(s) => old(self).rest().len() > 0 && s@ == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
        },
    { unimplemented!() }
}
/// the value found by going down the parts of the path through nested documents
pub open spec fn at_path(d: Document, ks: Seq<Seq<char>>) -> Option<Bson>
    decreases ks.len(),
{
    if ks.len() == 0 { None } else {
        match d_get(dv(d), ks[0]) {
            None => None,
            Some(v) => from_value(v, ks.skip(1)),
        }
    }
}
pub open spec fn from_value(v: Bson, ks: Seq<Seq<char>>) -> Option<Bson>
    decreases ks.len(),
{
    if ks.len() == 0 { Some(v) } else {
        match v { Bson::Document(e) => (match d_get(dv(e), ks[0]) { None => None, Some(w) => from_value(w, ks.skip(1)) }), _ => None }
    }
}
//@fn src/polodb_core/vm/query_matcher.rs field_path_value
//@rw splitting by contract: $i_p.split('.') ~~> Parts::new($i_p)
//@rw the next part: segments.next()? ~~> (match segments.next() { Some(zs) => zs, None => return None })
//@rw no value: document.get($i_f)? ~~> (match document.get($i_f) { Some(zs) => zs, None => return None })
//@rw no value: value.as_document()?.get($i_f)? ~~> (match value.as_document() { Some(zd) => (match zd.get($i_f) { Some(zs) => zs, None => return None }), None => return None })
//@rw loop over the parts: for $i_s in segments { ~~> loop { let $i_s = match segments.next() { Some(zs) => zs, None => break };
//@ret r
//@spec
    ensures r == at_path(*document, parts(path@)),
//@bind let mut $i_s = Parts::new($x);
//@bind let mut $i_v = (match document.get
//@loop 0
    invariant at_path(*document, parts(path@)) == from_value(*$i_v, $i_s.rest()),
    ensures at_path(*document, parts(path@)) == Some(*$i_v),
    decreases $i_s.rest().len(),
//@end

// ---- the laws (C05) ----
proof fn c05_reflexive(a: Bson)
    ensures qeq(a, a),
    decreases a,
{
    match a {
        Bson::Array(x) => {
            assert forall|i: int| 0 <= i < x@.len() implies qeq(#[trigger] x@[i], x@[i]) by {
                assert(decreases_to!(x => x@)); assert(decreases_to!(x@ => x@[i]));
                c05_reflexive(x@[i]);
            }
        }
        Bson::Document(x) => c05_reflexive_document(x),
        Bson::JavaScriptCodeWithScope(x) => c05_reflexive_document(x.scope),
        _ => {}
    }
}
proof fn c05_reflexive_document(x: Document)
    ensures deq(x, x),
    decreases x,
{
    assert forall|i: int| 0 <= i < x.entries@.len() implies qeq((#[trigger] x.entries@[i]).1, x.entries@[i].1) by {
        assert(decreases_to!(x.entries => x.entries@)); assert(decreases_to!(x.entries@ => x.entries@[i]));
        c05_reflexive(x.entries@[i].1);
    }
}
proof fn c05_symmetric(a: Bson, b: Bson)
    ensures qeq(a, b) == qeq(b, a),
    decreases a,
{
    match (a, b) {
        (Bson::Array(x), Bson::Array(y)) => {
            if x@.len() == y@.len() {
                assert forall|i: int| 0 <= i < x@.len() implies qeq(#[trigger] x@[i], y@[i]) == qeq(y@[i], x@[i]) by {
                    assert(decreases_to!(x => x@)); assert(decreases_to!(x@ => x@[i]));
                    c05_symmetric(x@[i], y@[i]);
                }
                if qeq(b, a) { assert forall|i: int| 0 <= i < x@.len() implies qeq(#[trigger] x@[i], y@[i]) by { assert(qeq(y@[i], x@[i])); } }
                if qeq(a, b) { assert forall|i: int| 0 <= i < x@.len() implies qeq(#[trigger] y@[i], x@[i]) by { assert(qeq(x@[i], y@[i])); } }
            }
        }
        (Bson::Document(x), Bson::Document(y)) => c05_symmetric_document(x, y),
        (Bson::JavaScriptCodeWithScope(x), Bson::JavaScriptCodeWithScope(y)) => c05_symmetric_document(x.scope, y.scope),
        _ => {}
    }
}
proof fn c05_symmetric_document(x: Document, y: Document)
    ensures deq(x, y) == deq(y, x),
    decreases x,
{
    if x.entries@.len() == y.entries@.len() {
        assert forall|i: int| 0 <= i < x.entries@.len() implies qeq((#[trigger] x.entries@[i]).1, y.entries@[i].1) == qeq(y.entries@[i].1, x.entries@[i].1) by {
            assert(decreases_to!(x.entries => x.entries@)); assert(decreases_to!(x.entries@ => x.entries@[i]));
            c05_symmetric(x.entries@[i].1, y.entries@[i].1);
        }
        if deq(y, x) { assert forall|i: int| 0 <= i < x.entries@.len() implies (#[trigger] x.entries@[i]).0@ == y.entries@[i].0@ && qeq(x.entries@[i].1, y.entries@[i].1) by { assert(y.entries@[i].0@ == x.entries@[i].0@); } }
        if deq(x, y) { assert forall|i: int| 0 <= i < x.entries@.len() implies (#[trigger] y.entries@[i]).0@ == x.entries@[i].0@ && qeq(y.entries@[i].1, x.entries@[i].1) by { assert(x.entries@[i].0@ == y.entries@[i].0@); } }
    }
}
/// values of unrelated types are never equal
pub open spec fn family(v: Bson) -> int {
    match v { Bson::Symbol(_) => 0x02, _ => if is_number(v) { 0x10 } else { et_spec(v.etype()) as int } }
}
proof fn c05_unrelated(a: Bson, b: Bson)
    requires family(a) != family(b),
    ensures !qeq(a, b),
{}
/// every value of $all on its own is what $in of that value alone says
proof fn c05_all_is_every_in(v: Bson, cs: Seq<Bson>)
    ensures
        (cs.len() > 0 && forall|j: int| 0 <= j < cs.len() ==> meets(v, #[trigger] cs[j]))
            == (cs.len() > 0 && forall|j: int| 0 <= j < cs.len() ==> (#[trigger] one_meets(v, seq![cs[j]]))),
{
    assert forall|j: int| 0 <= j < cs.len() implies meets(v, #[trigger] cs[j]) == one_meets(v, seq![cs[j]]) by {
        assert(seq![cs[j]][0] == cs[j]);
        if one_meets(v, seq![cs[j]]) { let i = choose|i: int| 0 <= i < 1 && meets(v, #[trigger] seq![cs[j]][i]); assert(i == 0); }
    }
}
pub open spec fn one_meets(v: Bson, cs: Seq<Bson>) -> bool { exists|j: int| 0 <= j < cs.len() && meets(v, #[trigger] cs[j]) }

} // verus!
fn main() {}
