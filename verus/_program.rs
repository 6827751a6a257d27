// Whole programs: whatever the query, the update or the pipeline, what is compiled is a program the machine can run.
#[verifier::external_body]
fn text(s: &String) -> (r: String) ensures r@ == s@, { s.to_string() }
/// no function is called at the end
fn nothing<G>() -> (r: Option<G>) ensures r is None, { None }

//@rule text by contract: emit_open(col_name.into()) ~~> emit_open(str_bson(col_name))
//@rule text by contract: emit_open(col_spec.name().into()) ~~> emit_open(str_bson(col_spec.name()))
//@rule text by contract: col_spec._id.to_string() ~~> text(&col_spec._id)
//@rule nothing is done at the end: None, $i_m, )?; ~~> { let zn = |c: &mut Codegen| -> (zr: Result<()>) { Ok(()) }; if false { Some(zn) } else { None } }, $i_m, )?;

impl SubProgram {
//@fn src/polodb_core/vm/subprogram.rs SubProgram::compile_empty_query
//@ret r
//@spec
    ensures sound(r, false),
//@end
//@fn src/polodb_core/vm/subprogram.rs SubProgram::compile_query
//@rw what is done with a document found: codegen.emit_query_layout( ~~> let ghost a = codegen; codegen.emit_query_layout(
//@rw what is done with a document found: |codegen| -> Result<()> { ~~> |codegen: &mut Codegen| -> (zr: Result<()>) requires at_row(a, *old(codegen)) ensures zr is Ok ==> row_done(a, *old(codegen), *final(codegen)) {
//@ret r
//@spec
    requires spec_ok(*col_spec),
    ensures r matches Ok(p) ==> sound(p, false),
//@before Ok(())
    assert(codegen.g@.open =~= codegen.g@.open.difference(a.g@.open));
//@end
//@fn src/polodb_core/vm/subprogram.rs SubProgram::compile_update
//@rw what is done with a document found: codegen.emit_query_layout( ~~> let ghost a = codegen; codegen.emit_query_layout(
//@rw what is done with a document found: |codegen| -> Result<()> { ~~> |codegen: &mut Codegen| -> (zr: Result<()>) requires at_row(a, *old(codegen)) ensures zr is Ok ==> row_done(a, *old(codegen), *final(codegen)) {
//@ret r
//@spec
    requires spec_ok(*col_spec),
    ensures r matches Ok(p) ==> sound(p, true),
//@before Ok(())
    assert(codegen.g@.open =~= codegen.g@.open.difference(a.g@.open));
//@end
//@fn src/polodb_core/vm/subprogram.rs SubProgram::compile_delete
//@rw what is done with a document found: codegen.emit_query_layout( ~~> let ghost a = codegen; codegen.emit_query_layout(
//@rw what is done with a document found: |codegen| -> Result<()> { ~~> |codegen: &mut Codegen| -> (zr: Result<()>) requires at_row(a, *old(codegen)) ensures zr is Ok ==> row_done(a, *old(codegen), *final(codegen)) {
//@ret r
//@spec
    requires spec_ok(*col_spec), query is Some,
    ensures r matches Ok(p) ==> sound(p, true),
//@before Ok(())
    assert(codegen.g@.open =~= codegen.g@.open.difference(a.g@.open));
//@end
//@fn src/polodb_core/vm/subprogram.rs SubProgram::compile_delete_all
//@ret r
//@spec
    requires spec_ok(*col_spec),
    ensures r matches Ok(p) ==> sound(p, true),
//@start
    broadcast use lemma_pop, lemma_pop_none;
//@after let result_label = codegen.new_label();
    declare(&mut codegen, result_label, Ghost(top(seq![Ty::Doc], Cur::On, false)));
//@after let next_label = codegen.new_label();
    declare(&mut codegen, next_label, Ghost(top(seq![], Cur::On, false)));
//@after let close_label = codegen.new_label();
    declare(&mut codegen, close_label, Ghost(top(seq![], Cur::Ended, false)));
//@before Ok(codegen.take())
    assert(codegen.g@.open =~= Set::<int>::empty());
//@end
//@fn src/polodb_core/vm/subprogram.rs SubProgram::compile_query_all
//@ret r
//@spec
    ensures r matches Ok(p) ==> sound(p, false),
//@end
//@fn src/polodb_core/vm/subprogram.rs SubProgram::compile_query_all_by_name
//@ret r
//@spec
    ensures r matches Ok(p) ==> sound(p, false),
//@start
    broadcast use lemma_pop, lemma_pop_none;
//@after let result_label = codegen.new_label();
    declare(&mut codegen, result_label, Ghost(top(seq![Ty::Doc], Cur::On, false)));
//@after let next_label = codegen.new_label();
    declare(&mut codegen, next_label, Ghost(top(seq![], Cur::On, false)));
//@after let close_label = codegen.new_label();
    declare(&mut codegen, close_label, Ghost(top(seq![], Cur::Ended, false)));
//@before Ok(codegen.take())
    assert(codegen.g@.open =~= Set::<int>::empty());
//@end
//@fn src/polodb_core/vm/subprogram.rs SubProgram::compile_aggregate
//@rw the stages, as a vector: impl IntoIterator<Item = Document> ~~> Vec<Document>
//@rw the stages, as a vector: pipeline.into_iter().collect() ~~> pipeline
//@rw the first stage: pipeline_vec.first().unwrap() ~~> &pipeline_vec[0]
//@rw an empty context: AggregationCodeGenContext::default() ~~> AggregationCodeGenContext::new()
//@ret r
//@spec
    requires spec_ok(*col_spec),
    ensures r matches Ok(p) ==> sound(p, false),
//@start
    broadcast use lemma_pop, lemma_pop_none, lemma_labels;
//@after let result_label = codegen.new_label();
    declare(&mut codegen, result_label, Ghost(top(seq![Ty::Doc], Cur::On, false)));
//@after let next_label = codegen.new_label();
    declare(&mut codegen, next_label, Ghost(top(seq![], Cur::On, false)));
//@after let close_label = codegen.new_label();
    declare(&mut codegen, close_label, Ghost(top(seq![], Cur::Ended, false)));
//@before Ok(codegen.take())
    assert(codegen.g@.open =~= Set::<int>::empty());
//@end
//@fn src/polodb_core/vm/subprogram.rs SubProgram::compile_aggregate_with_match
//@rw the first stage: pipeline_vec.first().unwrap() ~~> &pipeline_vec[0]
//@rw the error, whatever its message: t => { $s_b } ~~> _ => { return Err(Error::FieldType); }
//@rw the shared context: let ctx_ref = Rc::new(RefCell::new(AggregationCodeGenContext::default())); let ctx_ref2 = ctx_ref.clone(); { let mut ctx = ctx_ref.borrow_mut(); $s_b } ~~> let ctx_ref = SharedCtx::it(&mut codegen); let ctx_ref2 = ctx_ref; { let mut ctx = ctx_ref.get(&codegen); $s_b ctx_ref.put(&mut codegen, ctx); }
//@rw the shared context: let ctx_ref = ctx_ref.clone(); let mut ctx = ctx_ref.borrow_mut(); $s_b Ok(()) ~~> let mut ctx = ctx_ref.get(codegen); $s_b ctx_ref.put(codegen, ctx); Ok(())
//@rw the shared context: let ctx = ctx_ref2.borrow_mut(); ~~> let ctx = ctx_ref2.get(codegen);
//@rw the other stages: &pipeline_vec[1..] ~~> &rest_of(&pipeline_vec)
//@rw what is done with a document found: codegen.emit_query_layout( ~~> let ghost a = codegen; codegen.emit_query_layout(
//@rw what is done with a document found: |codegen: &mut Codegen| -> Result<()> { let mut ctx $s_b }, ~~> |codegen: &mut Codegen| -> (zr: Result<()>) requires at_row(a, *old(codegen)) ensures zr is Ok ==> row_done(a, *old(codegen), *final(codegen)) { let mut ctx $s_b },
//@rw what is done at the end: Some(Box::new(move |codegen: &mut Codegen| -> Result<()> { $s_b })) ~~> Some(|codegen: &mut Codegen| -> (zr: Result<()>) requires at_end(a, *old(codegen)) ensures zr is Ok ==> through(*old(codegen), *final(codegen)) { $s_b })
//@ret r
//@spec
    requires spec_ok(*col_spec), pipeline_vec.len() >= 1, d_has(dv(pipeline_vec@[0]), "$match"@),
    ensures r matches Ok(p) ==> sound(p, false),
//@start
    broadcast use lemma_labels;
//@after ctx_ref.put(&mut codegen, ctx);
    assert(codegen.g@.open =~= labels(codegen.g@.ctx, pipeline_vec.len() - 1));
//@end
}
