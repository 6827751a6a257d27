// find_handler.rs, get_more_handler.rs: batches of documents
//@rule logging dropped: debug!($e); ~~>
//@rule logging dropped: info!($e); ~~>
//@rule logging dropped: log::error!($e); ~~>
//@rule the type of the elements: ClientCursor<Document> ~~> ClientCursor
//@rule a value of the document: RawBson::from($e) ~~> $e
//@rule a value of the document: RawBson::Array($e) ~~> $e
//@rule a value of the document: bson::raw::RawBson::Document($e) ~~> $e
//@rule a value of the document: RawBson::Document($e) ~~> $e
//@rule a path: bson::raw::RawArrayBuf::new() ~~> RawArrayBuf::new()
//@rule bytes by contract: bson::to_vec($e)? ~~> to_vec($e)?
//@rule text by contract: format!("{}.{}", $i_a, $i_b) ~~> namespace($i_a, $i_b)
//@const src/polodb/handlers/mod.rs DEFAULT_BATCH_SIZE
pub open spec fn batch_size_of(v: RawV) -> int {
    match v { RawV::Int32(i) => i as int, RawV::Int64(i) => if i > 0x7fff_ffff { 0x7fff_ffff } else if i < -0x8000_0000 { -0x8000_0000 } else { i as int }, _ => 101 }
}
#[verifier::external_body]
fn clamp_i64(x: i64, a: i64, b: i64) -> (r: i64) requires a <= b, ensures r == (if x < a { a } else if x > b { b } else { x }), { unimplemented!() }
//@rule std by contract: i.clamp(i64::from(i32::MIN), i64::from(i32::MAX)) ~~> clamp_i64(i, i32::MIN as i64, i32::MAX as i64)
//@fn src/polodb/handlers/mod.rs batch_size_from_bson_ref
//@ret r
//@spec
    ensures r == batch_size_of(val.v()),
//@end
proof fn lemma_next(s: Seq<Seq<u8>>, n: int)
    requires 0 <= n < s.len(),
    ensures as_docs(s.take(n)).push(RawV::Doc(s.skip(n)[0])) == as_docs(s.take(n + 1)), s.skip(n).skip(1) == s.skip(n + 1),
{
    assert(as_docs(s.take(n)).push(RawV::Doc(s.skip(n)[0])) =~= as_docs(s.take(n + 1)));
    assert(s.skip(n).skip(1) =~= s.skip(n + 1));
}
/// a batch of the first n documents a cursor has yet to give
pub open spec fn batch(pre: Seq<Seq<u8>>, post: Seq<Seq<u8>>, docs: Seq<RawV>) -> bool {
    docs.len() <= pre.len() && docs == as_docs(pre.take(docs.len() as int)) && post == pre.skip(docs.len() as int)
}
pub struct FindHandler {}
pub struct GetMoreHandler {}
impl FindHandler {
//@fn src/polodb/handlers/find_handler.rs FindHandler::consume_first_batch
//@ret r
//@spec
    ensures r is Ok ==> batch(old(cursor).rest@, final(cursor).rest@, r->Ok_0.items@)
        && (batch_size >= 0 ==> r->Ok_0.items@.len() <= batch_size)
        && (batch_size < 0 ==> final(cursor).rest@.len() == 0 && r->Ok_0.items@ == as_docs(old(cursor).rest@)),
//@start
    let ghost s = cursor.rest@;
    assert(s.take(0) =~= Seq::<Seq<u8>>::empty());
    assert(as_docs(s.take(0)) =~= Seq::<RawV>::empty());
    assert(s.skip(0) =~= s);
//@loop 0
    invariant
        s == old(cursor).rest@, 0 <= count <= 0x7fff_ffff, count == raw_arr.items@.len(), batch(s, cursor.rest@, raw_arr.items@),
        batch_size >= 0 ==> count <= batch_size,
    ensures
        batch(s, cursor.rest@, raw_arr.items@), count == raw_arr.items@.len(), batch_size >= 0 ==> count <= batch_size,
        batch_size < 0 ==> cursor.rest@.len() == 0,
    decreases s.len() - count,
//@loopstart 0
    proof { lemma_next(s, count as int); }
//@afterloop 0
    assert(batch_size < 0 ==> s.take(count as int) =~= s);
//@end
//@fn src/polodb/handlers/find_handler.rs FindHandler::mk_cursor_doc
//@ret r
//@spec
    ensures r is Ok ==> exists|docs: Seq<RawV>| #[trigger] batch(old(cursor).rest@, final(cursor).rest@, docs)
        && (batch_size >= 0 ==> docs.len() <= batch_size)
        && (batch_size < 0 ==> final(cursor).rest@.len() == 0 && docs == as_docs(old(cursor).rest@))
        && (cursor_id >= 0 ==> built(r->Ok_0.bytes@, f3(("firstBatch"@, RawV::Arr(docs)), ("id"@, RawV::Int64(cursor_id)), ("ns"@, RawV::Str(db_name@ + seq!['.'] + col_name@))))),
//@end
}
impl GetMoreHandler {
//@fn src/polodb/handlers/get_more_handler.rs GetMoreHandler::mk_cursor_doc
//@ret r
//@spec
    ensures r is Ok ==> exists|docs: Seq<RawV>| #[trigger] batch(old(cursor).rest@, final(cursor).rest@, docs)
        && (batch_size >= 1 ==> docs.len() <= batch_size)
        && (!r->Ok_0.1 ==> final(cursor).rest@.len() == 0)
        && (old(cursor).rest@.len() == 0 ==> !r->Ok_0.1) && (old(cursor).rest@.len() > 0 && batch_size != 0 ==> docs.len() > 0)
        && built(r->Ok_0.0.bytes@, f3(("id"@, RawV::Int64(if r->Ok_0.1 { cursor_id } else { 0 })), ("ns"@, RawV::Str(db_name@ + seq!['.'] + col_name@)), ("nextBatch"@, RawV::Arr(docs)))),
//@start
    let ghost s = cursor.rest@;
    assert(s.take(0) =~= Seq::<Seq<u8>>::empty());
    assert(as_docs(s.take(0)) =~= Seq::<RawV>::empty());
    assert(s.skip(0) =~= s);
//@loop 0
    invariant_except_break
        batch_size >= 1 ==> count < batch_size, !has_more,
    invariant
        s == old(cursor).rest@, 0 <= count <= 0x7fff_ffff, count == next_batch_arr.items@.len(), batch(s, cursor.rest@, next_batch_arr.items@),
    ensures
        batch_size >= 1 ==> count <= batch_size, !has_more ==> cursor.rest@.len() == 0, has_more ==> count > 0,
    decreases s.len() - count,
//@loopstart 0
    proof { lemma_next(s, count as int); }
//@afterloop 0
    let ghost docs = next_batch_arr.items@;
//@before Ok((doc, has_more))
    assert(batch(old(cursor).rest@, cursor.rest@, docs));
    assert(built(doc.bytes@, f3(("id"@, RawV::Int64(if has_more { cursor_id } else { 0 })), ("ns"@, RawV::Str(db_name@ + seq!['.'] + col_name@)), ("nextBatch"@, RawV::Arr(docs)))));
//@end
}
