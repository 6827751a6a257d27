// Conditions: the code of a query leaves everything as it found it, or leads to the label for documents which do not match.
/// what is known at a label reached from anywhere in the code of a condition
pub open spec fn exit_ok(c: Codegen, l: Label, s: At) -> bool {
    let k = l.0 as int;
    &&& c.g@.lab.contains_key(k)
    &&& all_any(c.g@.lab[k].stack) && c.g@.lab[k].stack.len() <= s.stack.len() && c.g@.lab[k].base <= s.base && c.g@.lab[k].kind == s.kind
    &&& cur_weaker(c.g@.lab[k].cur, s.cur) && c.g@.lab[k].ix == s.ix && !c.g@.lab[k].full
}
/// the document to look at is on top of the stack
pub open spec fn fit(s: At) -> bool { s.stack.len() >= 1 && !(s.kind is Stage) && !s.full && (s.kind is Main ==> s.base == 0) }
pub open spec fn now(c: Codegen) -> At { c.g@.cur->0 }
pub open spec fn asked(c: Codegen, not_found: Label) -> bool { ready(c, now(c)) && fit(now(c)) && exit_ok(c, not_found, now(c)) && c.paths@.len() > 0 }
/// code was added which leaves the state as it was
pub open spec fn through(a: Codegen, b: Codegen) -> bool { ready(b, now(a)) && more(a, b) }
pub broadcast proof fn lemma_pop(s: At, t: Ty, n: int)
    ensures n == 1 && (s.kind is Query || s.base == 0) ==> #[trigger] pop(push(s, t), n) == s, n > 1 && (s.kind is Query || s.base == 0) ==> pop(push(s, t), n) == pop(s, n - 1),
{
    if n == 1 { assert((seq![t] + s.stack).skip(1) =~= s.stack); }
    if n > 1 && n <= s.stack.len() + 1 { assert((seq![t] + s.stack).skip(n) =~= s.stack.skip(n - 1)); }
}
pub broadcast proof fn lemma_pop_none(s: At, n: int)
    ensures n == 0 && (s.kind is Query || s.base == 0) ==> #[trigger] pop(s, n) == s,
{ if n == 0 { assert(s.stack.skip(0) =~= s.stack); } }
/// a label is declared, with what will be known at it
fn declare(c: &mut Codegen, l: Label, Ghost(e): Ghost<At>)
    requires inv(*old(c)), old(c).g@.part is None, !old(c).g@.lab.contains_key(l.0 as int), old(c).program.label_slots@.len() == l.0 + 1, old(c).program.label_slots@[l.0 as int] is Empty,
    ensures
        inv(*final(c)), *final(c) == (Codegen { g: final(c).g, ..*old(c) }),
        final(c).g@ == (Gen { lab: old(c).g@.lab.insert(l.0 as int, e), open: old(c).g@.open.insert(l.0 as int), ..old(c).g@ }),
{
    let ghost before = *c;
    proof {
        c.g@ = Gen { lab: c.g@.lab.insert(l.0 as int, e), open: c.g@.open.insert(l.0 as int), ..c.g@ };
        lemma_declare(snap(before), snap(*c), l.0 as int, e);
    }
}
/// the state of a condition which is called
pub open spec fn called(s: At) -> At { At { stack: s.stack, base: 0, kind: Kind::Query, cur: Cur::Unknown, ix: false, full: false } }
pub open spec fn returned() -> At { At { stack: Seq::empty(), base: 0, kind: Kind::Query, cur: Cur::Unknown, ix: false, full: false } }

#[derive(Debug)]
pub struct FieldError { x: u8 }
#[verifier::external_body]
fn query_field(name: &str, path: String) -> FieldError { unimplemented!() }
#[verifier::external_body]
fn numbered(i: usize) -> String { unimplemented!() }
#[verifier::external_body]
fn str_bson(s: &str) -> (r: Bson) ensures r is String, { unimplemented!() }
#[verifier::external_body]
fn is_dollar(s: &str) -> bool { s.starts_with('$') }
#[verifier::external_body]
fn is_field_required(operators: &Document) -> bool { unimplemented!() }
#[verifier::external_body]
fn is_equality_query(query: &Document) -> bool { unimplemented!() }
#[verifier::external_body]
fn has_operator(values: &Vec<Bson>) -> bool { unimplemented!() }
#[verifier::external_body]
fn validate_membership_candidates(candidates: &Vec<Bson>) -> Result<()> { unimplemented!() }
pub type Array = Vec<Bson>;

//@rule macro expanded by hand: crate::path_hint!(self, $e, { $s_b }); ~~> self.paths.push($e); { $s_b } self.paths.pop();
//@rule the error, whatever its message: crate::try_unwrap_document!($e, $v) ~~> match $v { Bson::Document(doc) => doc, _ => return Err(Error::FieldType) }
//@rule the error, whatever its message: crate::try_unwrap_array!($e, $v) ~~> match $v { Bson::Array(arr) => arr, _ => return Err(Error::FieldType) }
//@rule the error, whatever its message: mk_invalid_query_field(self.last_key().into(), self.gen_path(),) ~~> query_field(self.last_key(), self.gen_path())
//@rule the error, whatever its message: mk_invalid_query_field(self.last_key().into(), self.gen_path()) ~~> query_field(self.last_key(), self.gen_path())
//@rule text by contract: format!("[{}]", $i_n) ~~> numbered($i_n)
//@rule text by contract: self.push_static($i_k.into()) ~~> self.push_static(str_bson($i_k))
//@rule text by contract: $i_k.starts_with('$') ~~> is_dollar($i_k)
//@rule loop over a document as an indexed loop: for ($i_n, ($i_k, $i_v)) in $i_d.iter().enumerate() { ~~> let mut zi: usize = 0; while zi < $i_d.entries.len() { let ($i_k, $i_v) = &$i_d.entries[zi]; let $i_n = zi; zi = zi + 1;
//@rule loop over a document as an indexed loop: for ($i_k, $i_v) in $i_d.iter() { ~~> let mut zi: usize = 0; while zi < $i_d.entries.len() { let ($i_k, $i_v) = &$i_d.entries[zi]; zi = zi + 1;
//@rule loop over an array as an indexed loop: for ($i_n, $i_v) in $i_a.iter().enumerate() { ~~> let mut zi: usize = 0; while zi < $i_a.len() { let $i_v = &$i_a[zi]; let $i_n = zi; zi = zi + 1;
//@rule loop over a vector as an indexed loop: for fun in functions { ~~> let mut zj: usize = 0; while zj < functions.len() { let fun = functions[zj]; zj = zj + 1;
//@rule the same reference: $i_a.as_ref() ~~> $i_a
//@rule a number: Bson::from($i_n) ~~> Bson::Int64($i_n)
//@rule a number: i64::from(*i) ~~> (*i as i64)

impl Codegen {
    #[verifier::external_body]
    fn gen_path(&self) -> String { unimplemented!() }
//@fn src/polodb_core/vm/codegen.rs Codegen::last_key
//@spec
    requires self.paths@.len() > 0,
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::get_field
//@ret r
//@spec
    requires asked(*old(self), get_field_failed_label),
    ensures r == 1, more(*old(self), *final(self)), ready(*final(self), push(now(*old(self)), Ty::Any)),
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::get_field_or_null
//@ret r
//@spec
    requires ready(*old(self), now(*old(self))),
    ensures r == 1, more(*old(self), *final(self)), ready(*final(self), push(now(*old(self)), Ty::Any)),
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::emit_logical
//@spec
    requires
        ready(*old(self), now(*old(self))), op is Equal || op is Greater || op is GreaterEqual || op is Less || op is LessEqual || op is Regex || op is In || op is All,
        ok(cpool(*old(self)), ins(op, now(*old(self)))),
    ensures through(*old(self), *final(self)),
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::validate_array_query_operand
//@rw the literals, whatever they are: is_literal_dollar_document: fn(&Document) -> bool, ~~>
//@rw the values, whatever they are: values.iter().any($x) ~~> has_operator(values)
//@ret r
//@spec
    requires self.paths@.len() > 0,
    ensures r is Ok ==> *value is Array,
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::validate_in_operand
//@rw the literals, whatever they are: , is_in_literal_dollar_document ~~>
//@ret r
//@spec
    requires self.paths@.len() > 0,
    ensures r is Ok ==> *value is Array,
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::validate_all_operand
//@rw the literals, whatever they are: , is_all_literal_dollar_document ~~>
//@ret r
//@spec
    requires self.paths@.len() > 0,
    ensures r is Ok ==> *value is Array,
//@end
#[verifier::exec_allows_no_decreases_clause]
#[verifier::spinoff_prover]
#[verifier::rlimit(100)]
//@fn src/polodb_core/vm/codegen.rs Codegen::emit_query_tuple_document_kv
//@ret r
//@spec
    requires asked(*old(self), not_found_label),
    ensures r is Ok ==> through(*old(self), *final(self)),
//@start
    broadcast use lemma_pop, lemma_pop_none;
//@after self.paths.pop();
    assert(self.paths@ =~= old(self).paths@);
//@end
#[verifier::exec_allows_no_decreases_clause]
//@fn src/polodb_core/vm/codegen.rs Codegen::emit_query_tuple_document
//@ret r
//@spec
    requires asked(*old(self), not_found_label),
    ensures r is Ok ==> through(*old(self), *final(self)),
//@loop 0
    invariant asked(*old(self), not_found_label), through(*old(self), *self), zi <= value.entries.len(),
    decreases value.entries.len() - zi,
//@loopend 0
    assert(self.paths@ =~= old(self).paths@);
//@end
#[verifier::exec_allows_no_decreases_clause]
//@fn src/polodb_core/vm/codegen.rs Codegen::emit_not_query_tuple_document
//@ret r
//@spec
    requires asked(*old(self), not_found_label),
    ensures r is Ok ==> through(*old(self), *final(self)),
//@start
    broadcast use lemma_pop, lemma_pop_none;
    let ghost s = now(*self);
//@after let query_label = self.new_label();
    declare(self, query_label, Ghost(called(s)));
//@after let ret_label = self.new_label();
    declare(self, ret_label, Ghost(returned()));
//@after let cmp_label = self.new_label();
    declare(self, cmp_label, Ghost(s));
//@before Ok(())
    assert(self.g@.open =~= old(self).g@.open);
//@end
#[verifier::exec_allows_no_decreases_clause]
//@fn src/polodb_core/vm/codegen.rs Codegen::emit_query_tuple
//@ret r
//@spec
    requires asked(*old(self), not_found_label),
    ensures r is Ok ==> through(*old(self), *final(self)),
//@start
    broadcast use lemma_pop, lemma_pop_none;
//@end
#[verifier::exec_allows_no_decreases_clause]
//@fn src/polodb_core/vm/codegen.rs Codegen::emit_logic_and
//@ret r
//@spec
    requires asked(*old(self), not_found_label),
    ensures r is Ok ==> through(*old(self), *final(self)),
//@loop 0
    invariant asked(*old(self), not_found_label), through(*old(self), *self), zi <= arr.len(),
    decreases arr.len() - zi,
//@loopend 0
    assert(self.paths@ =~= old(self).paths@);
//@end
#[verifier::exec_allows_no_decreases_clause]
//@fn src/polodb_core/vm/codegen.rs Codegen::emit_standard_query_doc
//@ret r
//@spec
    requires asked_any(*old(self), not_found_label),
    ensures r is Ok ==> through(*old(self), *final(self)),
//@loop 0
    invariant asked_any(*old(self), not_found_label), through(*old(self), *self), zi <= query_doc.entries.len(), len == query_doc.entries.len(),
    decreases query_doc.entries.len() - zi,
//@loopend 0
    assert(self.paths@ =~= old(self).paths@);
//@end
#[verifier::exec_allows_no_decreases_clause]
//@fn src/polodb_core/vm/codegen.rs Codegen::emit_logic_or
//@ret r
//@spec
    requires asked(*old(self), not_found_label),
    ensures r is Ok ==> through(*old(self), *final(self)),
//@start
    broadcast use lemma_pop, lemma_pop_none;
    let ghost s = now(*self);
//@after let cmp_label = self.new_label();
    declare(self, cmp_label, Ghost(s));
//@loop 0
    invariant
        asked(*old(self), not_found_label), s == now(*old(self)), zi <= arr.len(), inv(*self), self.g@.part is None, self.g@.cur is None,
        started(*old(self), *self), self.g@.open == old(self).g@.open.insert(cmp_label.0 as int), !old(self).g@.open.contains(cmp_label.0 as int),
        !old(self).g@.lab.contains_key(cmp_label.0 as int), self.g@.lab.contains_key(cmp_label.0 as int), self.g@.lab[cmp_label.0 as int] == s,
        forall|i: int| 0 <= i < functions@.len() ==> self.g@.lab.contains_key((#[trigger] functions@[i]).0 as int) && self.g@.lab[functions@[i].0 as int] == called(s),
    decreases arr.len() - zi,
//@after let query_label = self.new_label();
    declare(self, query_label, Ghost(called(s)));
//@after let ret_label = self.new_label();
    declare(self, ret_label, Ghost(returned()));
//@loopend 0
    assert(self.paths@ =~= old(self).paths@);
    assert(self.g@.open =~= old(self).g@.open.insert(cmp_label.0 as int));
//@loop 1
    invariant
        asked(*old(self), not_found_label), s == now(*old(self)), zj <= functions.len(), through(*old(self), *self),
        forall|i: int| 0 <= i < functions@.len() ==> self.g@.lab.contains_key((#[trigger] functions@[i]).0 as int) && self.g@.lab[functions@[i].0 as int] == called(s),
    decreases functions.len() - zj,
//@loopstart 1
    broadcast use lemma_pop, lemma_pop_none;
//@loopstart 2
    broadcast use lemma_pop, lemma_pop_none;
//@after self.emit_label(cmp_label);
    assert(self.g@.open =~= old(self).g@.open);
//@after let match_label = self.new_label();
    declare(self, match_label, Ghost(s));
//@loop 2
    invariant
        asked(*old(self), not_found_label), s == now(*old(self)), zj <= functions.len(), ready(*self, s), started(*old(self), *self),
        self.g@.open == old(self).g@.open.insert(match_label.0 as int), !old(self).g@.open.contains(match_label.0 as int),
        self.g@.lab.contains_key(match_label.0 as int), self.g@.lab[match_label.0 as int] == s,
        forall|i: int| 0 <= i < functions@.len() ==> self.g@.lab.contains_key((#[trigger] functions@[i]).0 as int) && self.g@.lab[functions@[i].0 as int] == called(s),
    decreases functions.len() - zj,
//@after self.emit_label(match_label);
    assert(self.g@.open =~= old(self).g@.open);
//@end
}
/// like asked, but outside of any field
pub open spec fn asked_any(c: Codegen, not_found: Label) -> bool { ready(c, now(c)) && fit(now(c)) && exit_ok(c, not_found, now(c)) }
/// code and labels were added
pub open spec fn started(a: Codegen, b: Codegen) -> bool { grown(a, b) && b.g@.ctx == a.g@.ctx }
pub open spec fn grown(a: Codegen, b: Codegen) -> bool {
    &&& b.is_write == a.is_write && b.skip_annotation == a.skip_annotation && b.paths@ == a.paths@
    &&& pool_ext(cpool(a), cpool(b)) && kept(a.g@.lab, b.g@.lab)
}
