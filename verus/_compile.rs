// Whole programs.
/// what is known at a stage: the document (or null), or what the stage before has made of it, is on top of the stack
pub open spec fn stage_at() -> At { At { stack: seq![Ty::Any], base: 0, kind: Kind::Stage, cur: Cur::Unknown, ix: false, full: false } }
pub open spec fn item_at(c: Codegen, i: PipelineItem) -> bool { c.g@.lab.contains_key(i.next_label.0 as int) && c.g@.lab[i.next_label.0 as int] == stage_at() }
pub open spec fn items_at(c: Codegen, s: Seq<PipelineItem>) -> bool { forall|i: int| 0 <= i < s.len() ==> item_at(c, #[trigger] s[i]) }
pub open spec fn distinct(s: Seq<PipelineItem>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).next_label.0 != (#[trigger] s[j]).next_label.0 }
pub open spec fn among(s: Seq<PipelineItem>, n: int, l: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] s[i]).next_label.0 == l }
/// the labels of the first n stages
pub open spec fn labels(s: Seq<PipelineItem>, n: int) -> Set<int>
    decreases n,
{ if n <= 0 { Set::empty() } else { labels(s, n - 1).insert(s[n - 1].next_label.0 as int) } }
pub broadcast proof fn lemma_labels(s: Seq<PipelineItem>, n: int, l: int)
    ensures #[trigger] labels(s, n).contains(l) == among(s, n, l),
    decreases n,
{
    if n > 0 {
        lemma_labels(s, n - 1, l);
        if among(s, n, l) { let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]).next_label.0 == l; if i < n - 1 { assert(s[i].next_label.0 == l); } }
        if s[n - 1].next_label.0 == l { assert(among(s, n, l)); }
    }
}
pub struct AggregationCodeGenContext { pub items: Vec<PipelineItem> }
impl AggregationCodeGenContext {
    pub fn new() -> (r: AggregationCodeGenContext) ensures r.items@.len() == 0, { AggregationCodeGenContext { items: Vec::new() } }
}
/// the context shared by the two parts of an aggregation after $match: its content is part of what is known of the code
#[derive(Copy, Clone)]
pub struct SharedCtx { x: u8 }
impl SharedCtx {
    #[verifier::external_body]
    pub fn it(c: &mut Codegen) -> (r: SharedCtx)
        ensures *final(c) == (Codegen { g: final(c).g, ..*old(c) }), final(c).g@ == (Gen { ctx: Seq::<PipelineItem>::empty(), ..old(c).g@ }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, c: &Codegen) -> (r: AggregationCodeGenContext) ensures r.items@ == c.g@.ctx, { unimplemented!() }
    #[verifier::external_body]
    pub fn put(&self, c: &mut Codegen, x: AggregationCodeGenContext)
        ensures *final(c) == (Codegen { g: final(c).g, ..*old(c) }), final(c).g@ == (Gen { ctx: x.items@, ..old(c).g@ }),
    { unimplemented!() }
}
#[verifier::external_body]
fn update_op() -> Result<UpdateOp> { unimplemented!() }
#[verifier::external_body]
fn stage_func(paths: &mut Vec<String>) -> (r: Result<ExternalFunc>) ensures r is Ok ==> final(paths)@ == old(paths)@, { unimplemented!() }
#[verifier::external_body]
fn count_func(s: &String) -> ExternalFunc { unimplemented!() }
#[verifier::external_body]
fn rest_of(v: &Vec<Document>) -> (r: Vec<Document>) requires v.len() >= 1, ensures r@ == v@.skip(1), { unimplemented!() }
impl Clone for IndexInfo {
    #[verifier::external_body]
    fn clone(&self) -> (r: IndexInfo) ensures r == *self, { unimplemented!() }
}
impl<K, V> Clone for IndexMap<K, V> {
    #[verifier::external_body]
    fn clone(&self) -> (r: IndexMap<K, V>) ensures r == *self, { unimplemented!() }
}
impl CollectionSpecification {
//@fn src/polodb_core/coll/collection_info.rs CollectionSpecification::name
//@end
}

//@rule an operator by contract: let op = PopOperator::compile(doc.clone(), self.last_key().to_string(), self.gen_path(),)?; self.emit_update_operator(Box::new(op)); ~~> let zk = self.last_key(); let op = update_op()?; self.emit_update_operator(op);
//@rule an operator by contract: let op = $i_T::compile($x)?; self.emit_update_operator(Box::new(op)); ~~> let op = update_op()?; self.emit_update_operator(op);
//@rule the error, whatever its message: Error::UnknownUpdateOperation($x) ~~> Error::UnknownUpdateOperation
//@rule the error, whatever its message: Error::UnknownAggregationOperation($x) ~~> Error::UnknownAggregationOperation
//@rule the error, whatever its message: Error::InvalidAggregationStage($x) ~~> Error::InvalidAggregationStage
//@rule a stage by contract: Box::new(VmFuncCount::new(count_name.clone())) ~~> count_func(count_name)
//@rule a stage by contract: $i_T::compile(&mut self.paths, $x)? ~~> stage_func(&mut self.paths)?
//@rule a stage by contract: Box<dyn VmExternalFunc> ~~> ExternalFunc
//@rule text by contract: format!("{}", index) ~~> numbered(index)
//@rule slices as vectors: &[Document] ~~> &Vec<Document>
//@rule the first field: stage.iter().next().unwrap() ~~> &stage.entries[0]
//@rule loop over a vector as an indexed loop: for stage_doc in pipeline { ~~> let mut zi: usize = 0; while zi < pipeline.len() { let stage_doc = &pipeline[zi]; zi = zi + 1;
//@rule loop over a vector as an indexed loop: for item in &ctx.items { ~~> let mut zi: usize = 0; while zi < ctx.items.len() { let item = &ctx.items[zi]; zi = zi + 1;
//@rule loop over numbers as a while loop: for i in 0..pipeline.len() { ~~> let mut zi: usize = 0; while zi < pipeline.len() { let i = zi; zi = zi + 1;
//@rule the first item: ctx.items.first() ~~> first_of(&ctx.items)
//@rule not reached: panic!($m) ~~> vstd::pervasive::unreached::<()>()
fn first_of<T>(v: &Vec<T>) -> (r: Option<&T>) ensures (match r { Some(x) => v@.len() > 0 && *x == v@[0], None => v@.len() == 0 }), { if v.len() > 0 { Some(&v[0]) } else { None } }

impl Codegen {
//@fn src/polodb_core/vm/codegen.rs Codegen::emit_update_operation_kv
//@ret r
//@spec
    requires ready(*old(self), now(*old(self))), row(now(*old(self)), true), old(self).is_write, old(self).paths@.len() > 0,
    ensures r is Ok ==> through(*old(self), *final(self)),
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::emit_update_operation
//@ret r
//@spec
    requires ready(*old(self), now(*old(self))), row(now(*old(self)), true), old(self).is_write,
    ensures r is Ok ==> through(*old(self), *final(self)),
//@loop 0
    invariant ready(*old(self), now(*old(self))), row(now(*old(self)), true), old(self).is_write, through(*old(self), *self), zi <= update.entries.len(),
    decreases update.entries.len() - zi,
//@loopend 0
    assert(self.paths@ =~= old(self).paths@);
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::emit_external_func
//@spec
    requires
        inv(*old(self)), old(self).g@.part is None, old(self).g@.cur is None, item_at(*old(self), *stage_ctx_item), old(self).g@.open.contains(stage_ctx_item.next_label.0 as int),
        item_at(*old(self), PipelineItem { next_label: next_fun }),
    ensures
        inv(*final(self)), final(self).g@.part is None, final(self).g@.cur is None, started(*old(self), *final(self)), final(self).g@.open == old(self).g@.open.remove(stage_ctx_item.next_label.0 as int),
//@start
    let ghost e = *old(self);
//@after let go_next = self.new_label();
    declare(self, go_next, Ghost(stage_at()));
//@after let loop_next = self.new_label();
    declare(self, loop_next, Ghost(stage_at()));
//@end_of_body
    assert(self.g@.open =~= old(self).g@.open.remove(stage_ctx_item.next_label.0 as int));
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::emit_aggregation_stage
//@ret r
//@spec
    requires
        inv(*old(self)), old(self).g@.part is None, old(self).g@.cur is None, index < pipeline.len(), ctx.items@.len() == pipeline.len() + 1, items_at(*old(self), ctx.items@),
        old(self).g@.open.contains(ctx.items@[index as int].next_label.0 as int),
    ensures
        r is Ok ==> inv(*final(self)) && final(self).g@.part is None && final(self).g@.cur is None && started(*old(self), *final(self))
            && final(self).g@.open == old(self).g@.open.remove(ctx.items@[index as int].next_label.0 as int),
//@before Ok(())
    assert(self.paths@ =~= old(self).paths@);
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::emit_aggregation_before_query
//@ret r
//@spec
    requires ready(*old(self), now(*old(self))), old(ctx).items@.len() == 0,
    ensures
        r is Ok ==> ready(*final(self), now(*old(self))) && started(*old(self), *final(self)) && final(ctx).items@.len() == pipeline.len() && items_at(*final(self), final(ctx).items@) && distinct(final(ctx).items@)
            && (forall|l: int| #![trigger final(self).g@.open.contains(l)] final(self).g@.open.contains(l) <==> old(self).g@.open.contains(l) || among(final(ctx).items@, pipeline.len() as int, l))
            && (forall|l: int| among(final(ctx).items@, pipeline.len() as int, l) ==> !(#[trigger] old(self).g@.lab.contains_key(l))),
//@loop 0
    invariant
        ready(*old(self), now(*old(self))), ready(*self, now(*old(self))), started(*old(self), *self), ctx.items@.len() == zi, zi <= pipeline.len(), items_at(*self, ctx.items@), distinct(ctx.items@),
        forall|l: int| #![trigger self.g@.open.contains(l)] self.g@.open.contains(l) <==> old(self).g@.open.contains(l) || among(ctx.items@, zi as int, l),
        forall|l: int| among(ctx.items@, zi as int, l) ==> !(#[trigger] old(self).g@.lab.contains_key(l)),
    decreases pipeline.len() - zi,
//@after let label = self.new_label();
    let ghost mid = *self;
    let ghost its = ctx.items@;
    declare(self, label, Ghost(stage_at()));
//@loopend 0
    proof {
        let n = zi as int;
        assert forall|i: int| 0 <= i < n implies item_at(*self, #[trigger] ctx.items@[i]) by { if i < n - 1 { assert(item_at(mid, its[i])); } }
        assert forall|i: int, j: int| 0 <= i < j < n implies (#[trigger] ctx.items@[i]).next_label.0 != (#[trigger] ctx.items@[j]).next_label.0 by { if j == n - 1 { assert(item_at(mid, its[i])); } else { assert(its[i].next_label.0 != its[j].next_label.0); } }
        assert forall|l: int| among(ctx.items@, n, l) <==> among(its, n - 1, l) || l == label.0 by {
            if among(ctx.items@, n, l) { let i = choose|i: int| 0 <= i < n && (#[trigger] ctx.items@[i]).next_label.0 == l; if i < n - 1 { assert(its[i].next_label.0 == l); } }
            if among(its, n - 1, l) { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] its[i]).next_label.0 == l; assert(ctx.items@[i].next_label.0 == l); }
            if l == label.0 { assert(ctx.items@[n - 1].next_label.0 == l); }
        }
    }
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::emit_aggregation_before_close
//@ret r
//@spec
    requires ready(*old(self), now(*old(self))), now(*old(self)).kind is Main, now(*old(self)).base == 0, now(*old(self)).stack.len() == 0, items_at(*old(self), ctx.items@),
    ensures r is Ok ==> through(*old(self), *final(self)),
//@loop 0
    invariant
        ready(*old(self), now(*old(self))), now(*old(self)).kind is Main, now(*old(self)).base == 0, now(*old(self)).stack.len() == 0, items_at(*old(self), ctx.items@),
        through(*old(self), *self), zi <= ctx.items.len(),
    decreases ctx.items.len() - zi,
//@loopstart 0
    broadcast use lemma_pop, lemma_pop_none;
    assert(item_at(*old(self), ctx.items@[zi as int]));
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::emit_aggregation_pipeline
//@ret r
//@spec
    requires
        ready(*old(self), now(*old(self))), row(now(*old(self)), false), !old(self).is_write, old(ctx).items@.len() == pipeline.len(), items_at(*old(self), old(ctx).items@), distinct(old(ctx).items@),
        forall|l: int| #[trigger] among(old(ctx).items@, pipeline.len() as int, l) ==> old(self).g@.open.contains(l),
    ensures
        r is Ok ==> ready(*final(self), pop(now(*old(self)), 1)) && started(*old(self), *final(self)) && final(self).g@.open == old(self).g@.open.difference(labels(old(ctx).items@, pipeline.len() as int)),
//@start
    broadcast use lemma_labels;
    let ghost s = now(*self);
    let ghost its = ctx.items@;
    proof { if pipeline.len() == 0 { assert(self.g@.open.difference(labels(its, 0)) =~= self.g@.open); } }
//@after let next_label = self.new_label();
    declare(self, next_label, Ghost(pop(s, 1)));
//@after let final_result_label = self.new_label();
    declare(self, final_result_label, Ghost(stage_at()));
//@before self.emit_goto(DbOp::Goto, next_label);
    let ghost mid = *self;
    let ghost all = ctx.items@;
    proof {
        assert forall|i: int| 0 <= i < all.len() implies item_at(*self, #[trigger] all[i]) by { if i < its.len() { assert(all[i] == its[i]); assert(item_at(*old(self), its[i])); } }
    }
//@loop 0
    invariant
        ready(*old(self), now(*old(self))), s == now(*old(self)), zi <= pipeline.len(), inv(*self), self.g@.part is None, self.g@.cur is None, started(*old(self), *self),
        ctx.items@ == all, all.len() == pipeline.len() + 1, items_at(*self, all), all.take(pipeline.len() as int) =~= its, distinct(its), its.len() == pipeline.len(),
        forall|l: int| #[trigger] among(its, pipeline.len() as int, l) ==> old(self).g@.open.contains(l),
        !old(self).g@.open.contains(next_label.0 as int), !old(self).g@.open.contains(final_result_label.0 as int), next_label != final_result_label,
        self.g@.lab.contains_key(next_label.0 as int), self.g@.lab[next_label.0 as int] == pop(s, 1), self.g@.lab.contains_key(final_result_label.0 as int), self.g@.lab[final_result_label.0 as int] == stage_at(),
        self.g@.open =~= old(self).g@.open.insert(next_label.0 as int).insert(final_result_label.0 as int).difference(labels(its, zi as int)),
    decreases pipeline.len() - zi,
//@loopstart 0
    broadcast use lemma_labels;
    proof {
        let l = all[zi as int].next_label.0 as int;
        assert(all.take(pipeline.len() as int)[zi as int] == all[zi as int]);
        assert(among(its, pipeline.len() as int, l));
        assert(!among(its, zi as int, l));
    }
//@loopend 0
    proof {
        let k = zi as int - 1;
        assert(all.take(pipeline.len() as int)[k] == all[k]);
        assert forall|l: int| among(its, zi as int, l) <==> among(its, k, l) || l == all[k].next_label.0 by {
            if among(its, zi as int, l) { let i = choose|i: int| 0 <= i < zi && (#[trigger] its[i]).next_label.0 == l; assert(its[i].next_label.0 == l); }
            if l == all[k].next_label.0 { assert(its[k].next_label.0 == l); }
        }
    }
//@after let skip_result_label = self.new_label();
    declare(self, skip_result_label, Ghost(stage_at()));
//@after self.emit_label_with_name(next_label, $n);
    proof {
        assert forall|l: int| #![trigger self.g@.open.contains(l)] self.g@.open.contains(l) == old(self).g@.open.difference(labels(its, pipeline.len() as int)).contains(l) by {
            if among(its, pipeline.len() as int, l) { assert(old(self).g@.open.contains(l)); }
        }
        assert(self.g@.open =~= old(self).g@.open.difference(labels(its, pipeline.len() as int)));
    }
//@end
}
