// The frame of a program: a search, what is done with each document found, and the end.
/// a document found is on top of the stack
pub open spec fn row(s: At, write: bool) -> bool {
    &&& s.kind is Main && s.base == 0 && s.cur is On && s.stack.len() >= 1 && all_any(s.stack.skip(1))
    &&& write ==> !s.ix && s.stack[0] is Doc
}
/// c with more code
pub open spec fn later(a: Codegen, x: Codegen) -> bool { started(a, x) && (forall|l: int| #![trigger a.g@.open.contains(l)] #![trigger x.g@.open.contains(l)] a.g@.open.contains(l) ==> x.g@.open.contains(l)) }
pub open spec fn at_row(a: Codegen, x: Codegen) -> bool { later(a, x) && ready(x, now(x)) && row(now(x), a.is_write) }
pub open spec fn at_end(a: Codegen, x: Codegen) -> bool { later(a, x) && ready(x, now(x)) && now(x).kind is Main && now(x).base == 0 && now(x).stack.len() == 0 }
/// what is done with a document: the code takes it from the stack, and the labels which were open are placed
#[verifier::prophetic]
pub open spec fn row_fun<F: FnOnce(&mut Codegen) -> Result<()>>(a: Codegen, f: F) -> bool {
    &&& forall|x: &mut Codegen| #![trigger f.requires((x,))] at_row(a, *x) ==> f.requires((x,))
    &&& forall|x: &mut Codegen, q: Result<()>| #![trigger f.ensures((x,), q)] f.ensures((x,), q) && q is Ok && at_row(a, *x) ==> row_done(a, *x, *final(x))
}
pub open spec fn row_done(a: Codegen, x: Codegen, y: Codegen) -> bool { grown(x, y) && y.g@.open == x.g@.open.difference(a.g@.open) && ready(y, pop(now(x), 1)) }
/// what is done at the end
#[verifier::prophetic]
pub open spec fn close_fun<G: FnOnce(&mut Codegen) -> Result<()>>(a: Codegen, g: Option<G>) -> bool {
    g is Some ==> {
        &&& forall|x: &mut Codegen| #![trigger g->0.requires((x,))] at_end(a, *x) ==> g->0.requires((x,))
        &&& forall|x: &mut Codegen, q: Result<()>| #![trigger g->0.ensures((x,), q)] g->0.ensures((x,), q) && q is Ok && at_end(a, *x) ==> through(*x, *final(x))
    }
}
pub proof fn lemma_later<F: FnOnce(&mut Codegen) -> Result<()>, G: FnOnce(&mut Codegen) -> Result<()>>(a: Codegen, b: Codegen, f: F, g: Option<G>)
    requires row_fun(a, f), close_fun(a, g), started(a, b), b.g@.open == a.g@.open,
    ensures row_fun(b, f), close_fun(b, g),
{ }
/// the stack while documents are looked at is known in full: it does not grow from one to the next
pub open spec fn top(stack: Seq<Ty>, cur: Cur, ix: bool) -> At { At { stack, base: 0, kind: Kind::Main, cur, ix, full: !(cur is Ended) } }
pub open spec fn part(s: At) -> At { At { full: false, ..s } }
pub open spec fn opened(s: At) -> bool { s.kind is Main && s.base == 0 && s.stack.len() == 0 && s.full && (s.cur is Fresh || s.cur is Open) }
/// the program is complete
pub open spec fn finished(a: Codegen, b: Codegen) -> bool { grown(a, b) && inv(b) && b.g@.part is None && b.g@.cur is None && b.g@.open == Set::<int>::empty() }
pub open spec fn spec_ok(c: CollectionSpecification) -> bool { forall|j: int| 0 <= j < c.indexes.entries@.len() ==> wf_info((#[trigger] c.indexes.entries@[j]).1) }

impl<K, V> IndexMap<K, V> {
    pub fn len(&self) -> (r: usize) ensures r == self.entries.len(), { self.entries.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.entries.len() == 0), { self.entries.len() == 0 }
    pub fn first(&self) -> (r: &(K, V)) requires self.entries.len() > 0, ensures *r == self.entries@[0], { &self.entries[0] }
}
#[verifier::external_body]
fn can_be_key(v: &Bson) -> bool { unimplemented!() }
#[verifier::external_body]
fn index_prefix(a: &Bson, b: &Bson, c: &Bson) -> Result<Vec<u8>> { unimplemented!() }
#[verifier::external_body]
fn is_id(k: &String) -> bool { unimplemented!() }
#[verifier::external_body]
fn is_document(v: &Bson) -> (r: bool) ensures r == (*v is Document), { unimplemented!() }

//@rule what is done at the end, as a generic function: Option<BeforeClose> ~~> Option<G>
//@rule what is done at the end, as a generic function: F: FnOnce(&mut Codegen) -> Result<()>, ~~> F: FnOnce(&mut Codegen) -> Result<()>, G: FnOnce(&mut Codegen) -> Result<()>,
//@rule text by contract: self.emit_open(col_spec._id.clone().into()) ~~> self.emit_open(Bson::String(col_spec._id.clone()))
//@rule comparison by contract: key == "_id" ~~> is_id(key)
//@rule comparison by contract: id_value.element_type() != ElementType::EmbeddedDocument ~~> !is_document(id_value)
//@rule loop over a map as an indexed loop: for ($i_k, $i_v) in index_meta { ~~> let mut zi: usize = 0; while zi < index_meta.len() { let ($i_k, $i_v) = &index_meta.entries[zi]; zi = zi + 1;
//@rule the first key: index_info.keys.iter().next().unwrap() ~~> index_info.keys.first()
//@rule keys by contract: crate::utils::bson::stacked_key([query_doc]).is_ok() ~~> can_be_key(query_doc)
//@rule keys by contract: let buf: Vec<&Bson> = vec![$x]; crate::utils::bson::stacked_key(buf)? ~~> index_prefix(&b_prefix, &b_col_name, b_index_name)?
//@const src/polodb_core/index/index_helper.rs INDEX_PREFIX

impl Codegen {
//@fn src/polodb_core/vm/codegen.rs Codegen::emit_query_layout_has_pkey
//@rw what is done at the end, as a generic function: <F> ~~> <F, G>
//@ret r
//@spec
    requires
        ready(*old(self), now(*old(self))), opened(now(*old(self))), now(*old(self)).cur is Open, !now(*old(self)).ix,
        row_fun(*old(self), result_callback), close_fun(*old(self), before_close),
    ensures r is Ok ==> finished(*old(self), *final(self)),
//@start
    broadcast use lemma_pop, lemma_pop_none;
//@after let close_label = self.new_label();
    declare(self, close_label, Ghost(top(seq![Ty::Any], Cur::Ended, false)));
//@after let result_label = self.new_label();
    declare(self, result_label, Ghost(part(top(seq![Ty::Doc, Ty::Any], Cur::On, false))));
//@beforeloop 0
    assert(self.g@.open =~= old(self).g@.open);
//@loop 0
    invariant
        ready(*self, part(top(seq![Ty::Doc, Ty::Any], Cur::On, false))), later(*old(self), *self), zi <= query.entries.len(),
        self.g@.open == old(self).g@.open, self.g@.lab.contains_key(close_label.0 as int), self.g@.lab[close_label.0 as int] == top(seq![Ty::Any], Cur::Ended, false),
    decreases query.entries.len() - zi,
//@loopend 0
    assert(self.paths@ =~= old(self).paths@);
//@before Ok(())
    assert(self.g@.open =~= Set::<int>::empty());
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::indeed_emit_query_by_index
//@rw what is done at the end, as a generic function: <F> ~~> <F, G>
//@rw the kind of binary: BinarySubtype::Generic ~~> 0
//@ret r
//@spec
    requires
        ready(*old(self), now(*old(self))), opened(now(*old(self))), !old(self).is_write,
        row_fun(*old(self), result_callback), close_fun(*old(self), before_close),
    ensures r is Ok ==> finished(*old(self), *final(self)),
//@start
    broadcast use lemma_pop, lemma_pop_none;
//@after let close_label = self.new_label();
    declare(self, close_label, Ghost(top(seq![Ty::Any, Ty::Any], Cur::Ended, true)));
//@after let result_label = self.new_label();
    declare(self, result_label, Ghost(top(seq![Ty::Any, Ty::Any, Ty::Any], Cur::On, true)));
//@after let next_label = self.new_label();
    declare(self, next_label, Ghost(top(seq![Ty::Any, Ty::Any], Cur::On, true)));
//@beforeloop 0
    assert(self.g@.open =~= old(self).g@.open);
//@loop 0
    invariant
        ready(*self, top(seq![Ty::Any, Ty::Any, Ty::Any], Cur::On, true)), later(*old(self), *self), zi <= remain_query.entries.len(),
        self.g@.open == old(self).g@.open, self.g@.lab.contains_key(close_label.0 as int), self.g@.lab[close_label.0 as int] == top(seq![Ty::Any, Ty::Any], Cur::Ended, true),
        self.g@.lab.contains_key(next_label.0 as int), self.g@.lab[next_label.0 as int] == top(seq![Ty::Any, Ty::Any], Cur::On, true),
    decreases remain_query.entries.len() - zi,
//@loopstart 0
    broadcast use lemma_pop, lemma_pop_none;
//@before Ok(())
    assert(self.g@.open =~= Set::<int>::empty());
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::try_query_by_pkey
//@rw what is done at the end, as a generic function: <F> ~~> <F, G>
//@ret r
//@spec
    requires
        ready(*old(self), now(*old(self))), opened(now(*old(self))),
        row_fun(*old(self), result_callback), close_fun(*old(self), before_close),
    ensures
        r matches Ok(q) ==> match q { None => finished(*old(self), *final(self)), Some((f, g)) => *final(self) == *old(self) && f == result_callback && g == before_close },
//@after self.emit_open($x);
    proof { lemma_later(*old(self), *self, result_callback, before_close); }
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::try_query_by_index
//@rw what is done at the end, as a generic function: <F> ~~> <F, G>
//@ret r
//@spec
    requires
        ready(*old(self), now(*old(self))), opened(now(*old(self))), spec_ok(*col_spec),
        row_fun(*old(self), result_callback), close_fun(*old(self), before_close),
    ensures
        r matches Ok(q) ==> match q { None => finished(*old(self), *final(self)), Some((f, g)) => *final(self) == *old(self) && f == result_callback && g == before_close },
//@loop 0
    invariant *self == *old(self), zi <= index_meta.entries.len(), spec_ok(*col_spec), *index_meta == col_spec.indexes, !self.is_write,
        ready(*old(self), now(*old(self))), opened(now(*old(self))), row_fun(*old(self), result_callback), close_fun(*old(self), before_close),
    decreases index_meta.entries.len() - zi,
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::emit_query_layout
//@rw what is done at the end, as a generic function: <F> ~~> <F, G>
//@ret r
//@spec
    requires
        ready(*old(self), now(*old(self))), opened(now(*old(self))), spec_ok(*col_spec),
        row_fun(*old(self), result_callback), close_fun(*old(self), before_close),
    ensures r is Ok ==> finished(*old(self), *final(self)),
//@start
    broadcast use lemma_pop, lemma_pop_none;
//@after self.emit_open($x);
    proof { lemma_later(*old(self), *self, result_callback, before_close); }
//@after let compare_fun = self.new_label();
    declare(self, compare_fun, Ghost(At { base: 1, ..called(top(seq![Ty::Doc, Ty::Doc], Cur::On, false)) }));
//@after let compare_fun_clean = self.new_label();
    declare(self, compare_fun_clean, Ghost(returned()));
//@after let compare_label = self.new_label();
    declare(self, compare_label, Ghost(top(seq![Ty::Doc], Cur::On, false)));
//@after let next_label = self.new_label();
    declare(self, next_label, Ghost(top(seq![], Cur::On, false)));
//@after let result_label = self.new_label();
    declare(self, result_label, Ghost(top(seq![Ty::Doc], Cur::On, false)));
//@after let not_found_label = self.new_label();
    declare(self, not_found_label, Ghost(top(seq![Ty::Doc], Cur::On, false)));
//@after let close_label = self.new_label();
    declare(self, close_label, Ghost(top(seq![], Cur::Ended, false)));
//@after self.emit_ret(0);
    assert(self.g@.open =~= Set::<int>::empty());
//@end
}
