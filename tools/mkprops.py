#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
C="src/polodb_core/"
p("C01","Stored-key encoding is invertible, injective and prefix-free",
 "Every tuple of scalar BSON values (double, string, symbol, boolean, null, undefined, int32, int64, timestamp, object id, date, decimal) that is encoded as a storage key decodes back to exactly the same tuple, two different tuples never share a key, and one value's encoding is never a proper prefix of another value's. A value of any other type is refused with an error instead of being encoded.",
 ["inputs"],"all values of every encodable type, all tuple lengths, all string contents including NUL characters",
 "The unit test encodes one fixed tuple; injectivity and prefix-freeness quantify over all pairs of keys.",
 [C+"utils/bson.rs",C+"index/index_helper.rs"],
 [("stacked_key / stacked_key_bytes",C+"utils/bson.rs"),("split_stacked_keys",C+"utils/bson.rs")],
 observe=["insert/find by _id with arbitrary keys"])
p("C02","Collections are isolated from one another",
 "An operation on one collection reads and changes only that collection's documents, index entries and catalogue entry, whatever the collection, field and index names and key values are; scanning a collection yields every one of its documents exactly once and nothing else, in key order. Collection names that contain '$', '.', a newline, a tab or a carriage return are refused, and so are empty names on creation; every other name is accepted.",
 ["inputs","histories"],"all pairs of legal collection names (including names that are prefixes of each other), all histories of operations on them",
 "Tests use a handful of short unrelated names; leakage appears only for particular name/key byte patterns.",
 [C+"cursor.rs",C+"db/db_inner.rs",C+"utils/bson.rs",C+"vm/vm.rs"],
 [("prefix-bounded cursor",C+"cursor.rs"),("validate_col_name",C+"db/db_inner.rs"),("key layout [collection, _id], ['$I', collection, index, value, _id], ['$TABLE_META', collection]",C+"db/db_inner.rs")],
 observe=["find({}) / count_documents / list_collection_names on the other collections"])
p("C03","Comparing two values is an exact total order",
 "Comparison of values is reflexive, antisymmetric and transitive over all scalar BSON values, so sorting and range queries never contradict themselves; integers and doubles compare by their exact mathematical value with no rounding (0.0 and -0.0 equal, NaN equal to NaN and below every other number), strings, dates, booleans and object ids compare naturally, and values of different kinds compare by a fixed order of kinds in which all numbers are one kind. Comparing scalar values never fails or panics.",
 ["inputs"],"all triples of scalar BSON values, including int64 beyond 2^53, NaN, infinities and signed zeros",
 "The unit test compares six int pairs; transitivity and numeric exactness quantify over all triples.",
 [C+"utils/bson.rs",C+"vm/op.rs"],
 [("value_cmp",C+"utils/bson.rs"),("generic_cmp",C+"vm/op.rs")],
 observe=["find with $gt/$gte/$lt/$lte/$eq/$ne","$sort","$min/$max"])
p("C04","find returns exactly the documents that satisfy the query",
 "For every collection content and every supported query, find yields each stored document that satisfies the query exactly once, unchanged, and no other: top-level conditions are conjoined, $and/$or combine whole sub-queries wherever they appear, field/operator conditions ($eq $ne $gt $gte $lt $lte $in $nin $all $size $regex $not) apply to the value at the dotted path, a document lacking the field satisfies no comparison, $size or $regex condition, negated or not, $ne is the negation of $eq on a present field and $not negates the conjunction of its operators. A query condition never influences the outcome of the other conditions beside it.",
 ["inputs","programs"],"all documents, all nestings and combinations of supported operators, with and without an _id condition",
 "Tests run single-operator or fixed combinations; wrong jumps or stack handling in the compiled program appear only for particular combinations and orders.",
 [C+"vm/codegen.rs",C+"vm/vm.rs",C+"vm/query_matcher.rs",C+"vm/op.rs"],
 [("emit_query_layout / emit_query_tuple*",C+"vm/codegen.rs"),("VM::execute",C+"vm/vm.rs"),("field_path_value / try_get_document_value",C+"vm/query_matcher.rs")],
 observe=["find().run() / find_one / update_many matched_count / delete_many deleted_count"])
p("C05","$in, $nin and $all follow their membership laws",
 "$in matches exactly when the field's value, or an element of it if it is an array, equals a listed value or matches a listed regular expression; $nin is exactly its complement; $all matches exactly when its list is non-empty and every listed value would match alone; a missing field counts as null. Equality here is exact across numeric types, recursive and order-sensitive for arrays and documents, and never considers values of unrelated types equal.",
 ["inputs"],"all field values (nested arrays and documents included) and all candidate lists",
 "Tests enumerate sample lists; the laws relate every value to every list.",
 [C+"vm/query_matcher.rs",C+"vm/codegen.rs"],
 [("matches_in / matches_all / candidate_matches / query_values_equal / integer_equals_double",C+"vm/query_matcher.rs")],
 observe=["find with $in/$nin/$all"])
p("C06","Update operators change exactly what they name",
 "After update_one or update_many every matched document equals its old value with the listed operators applied in order ($set assigns, $unset removes, $rename moves an existing field, $min/$max replace only by a smaller/larger value, $push appends one element, $pop removes the last element for 1 and the first for -1, $inc/$mul do arithmetic); every field not named, every unmatched document and every _id stay as they were. A request that would change _id or apply an operator to an unsuitable value fails and changes nothing, and update_one touches at most one document.",
 ["inputs","histories"],"all documents, operator combinations, operand types and orders of operators",
 "Tests apply one operator to one small document; interactions between operators and frame violations need combinations.",
 [C+"vm/update_operators/*.rs",C+"vm/codegen.rs",C+"vm/vm.rs"],
 [("UpdateOperator::update / compile",C+"vm/update_operators"),("emit_update_operation, CallUpdateOperator, UpdateCurrent",C+"vm/codegen.rs")],
 observe=["find after update_*","UpdateResult"])
p("C07","$inc and $mul are exact or refused, never wrapped",
 "For integer operands $inc and $mul store the exact mathematical sum or product: int32 results that do not fit int32 are stored as int64, and a result that does not fit int64 is refused with an error that leaves the document unchanged; with a double operand the result is the IEEE double result. No operand makes the database panic, and non-numeric operands are refused.",
 ["inputs"],"all pairs of int32/int64/double operands",
 "Tests use small integers; overflow happens at the extremes of the domain only.",
 [C+"vm/update_operators/inc_operator.rs",C+"vm/update_operators/mul_operator.rs"],
 [("inc_numeric",C+"vm/update_operators/inc_operator.rs"),("mul_numeric",C+"vm/update_operators/mul_operator.rs")],
 observe=["update_one with $inc/$mul"])
p("C08","Indexes mirror the documents and never change query results",
 "After any history of inserts, updates, deletes, index creations and index drops, each index holds exactly one entry for every stored document that has a scalar value at the indexed path, pointing at that document under that value, and no other entry. A query returns the same documents whether or not an index exists on a field it constrains.",
 ["inputs","histories"],"all histories of writes and index creation/removal, all indexed values and queries on them",
 "Tests build one index over a few documents; a stale or missing entry needs a particular write sequence and a query that hits it.",
 [C+"index/index_helper.rs",C+"index/index_builder.rs",C+"vm/vm.rs",C+"vm/codegen.rs",C+"db/db_inner.rs",C+"cursor.rs"],
 [("try_execute_with_index_info",C+"index/index_helper.rs"),("IndexBuilder::execute",C+"index/index_builder.rs"),("InsertIndex/DeleteIndex/FindByIndex/NextIndexValue",C+"vm/vm.rs"),("try_query_by_index",C+"vm/codegen.rs")],
 observe=["find({field: v}) vs find({field: {$eq: v}})","index entries in the store"],hook="reading the raw key/value pairs of the store")
p("C09","_id and unique indexes never hold duplicates",
 "No history of successful operations leaves two documents of a collection with the same _id, or two documents with the same value under a unique index: an insert, update or unique-index creation that would do so fails with a duplicate-key error. An operation is refused with that error only if a conflicting document really exists.",
 ["inputs","histories"],"all histories of insert/update/delete/create_index on a collection with unique indexes, all value types",
 "Tests try one duplicate insert; spurious or missed conflicts depend on neighbouring keys and on the history.",
 [C+"index/index_helper.rs",C+"db/db_inner.rs",C+"vm/vm.rs"],
 [("check_unique_key",C+"index/index_helper.rs"),("insert_one_with_meta",C+"db/db_inner.rs")],
 observe=["Error::DuplicateKey","find after the failing operation"])
p("C10","insert stores exactly the given documents, all or none",
 "A successful insert stores every given document unchanged under its _id (a fresh object id, different from all others, is added when _id is missing or null) and reports exactly those ids in order; reading the document back by _id gives the stored value with all fields and types intact. If any document of insert_many is refused, none of them is stored.",
 ["inputs","histories"],"all documents and batches, failing at any position",
 "Tests insert a few fixed documents; field/type loss and partial batches depend on the content and on the failing position.",
 [C+"db/db_inner.rs",C+"coll/collection.rs",C+"coll/txn_collection.rs"],
 [("fix_doc / insert_one_with_meta / insert_many_internal",C+"db/db_inner.rs"),("try_db_op!",C+"coll/collection.rs")],
 observe=["InsertOneResult / InsertManyResult","find"])
p("C11","Transactions commit all of their changes or none",
 "Writes made through a transaction are visible to reads in that transaction, become visible to everybody exactly when commit succeeds, and leave no trace (documents, index entries, collections) after rollback or when the transaction is dropped uncommitted. An operation that returns an error, inside or outside an explicit transaction, leaves the database contents as they were before that operation.",
 ["histories","fault_sequences"],"all sequences of operations inside and outside one open transaction, ending in commit, rollback or drop, with operations failing at any point",
 "Tests commit or roll back one short sequence; atomicity of a failing statement depends on where it fails.",
 [C+"transaction/transaction_inner.rs",C+"transaction/transaction.rs",C+"db/db_inner.rs",C+"db/rocksdb_transaction.rs",C+"coll/collection.rs"],
 [("auto_commit flag",C+"transaction/transaction_inner.rs"),("try_db_op!",C+"coll/collection.rs"),("rocksdb pessimistic transaction",C+"db/rocksdb_transaction.rs")],
 observe=["reads through the transaction and through the database"])
p("C12","Committed data survives a crash",
 "After a crash at any point, reopening the database shows the effect of every operation whose commit returned successfully and of no uncommitted one.",
 ["crash_points"],"all crash points in all histories",
 "Tests never crash the process; durability quantifies over every crash point.",
 [C+"db/rocksdb_transaction.rs",C+"db/rocksdb_wrapper.rs"],
 [("synchronous write option on each transaction",C+"db/rocksdb_transaction.rs")])
p("C13","delete removes exactly the matching documents and reports the count",
 "delete_many removes exactly the documents that satisfy its query (all of them for an empty query) together with their index entries, delete_one removes at most one of them, and the reported count is the number of documents removed; every other document is untouched. Deleting from a collection that does not exist reports zero.",
 ["inputs","histories"],"all contents, queries and index sets",
 "Tests delete from a few fixed documents; the frame condition covers all other documents and indexes.",
 [C+"db/db_inner.rs",C+"vm/subprogram.rs",C+"vm/vm.rs"],
 [("compile_delete / compile_delete_all",C+"vm/subprogram.rs"),("DeleteCurrent / DeleteIndex",C+"vm/vm.rs"),("internal_delete_by_query",C+"db/db_inner.rs")],
 observe=["DeleteResult","find afterwards"])
p("C14","Aggregation stages compose",
 "The result of a pipeline of $match (first), $sort, $skip, $limit, $count, $addFields and $unset stages is the composition of the stages applied in order to the collection's documents: $skip n drops the first n, $limit n keeps the first n, $count gives one document with the number of its inputs, $addFields and $unset change only the named fields. This holds for every order and repetition of stages, for empty inputs, and whatever form the $match takes; malformed stages are refused with an error.",
 ["inputs","programs"],"all pipelines over these stages, all collection contents including empty",
 "Tests run one- and two-stage pipelines; completion signals interact only in longer ones.",
 [C+"vm/codegen.rs",C+"vm/subprogram.rs",C+"vm/vm_skip.rs",C+"vm/vm_limit.rs",C+"vm/vm_count.rs",C+"vm/vm_sort.rs",C+"vm/vm_add_fields.rs",C+"vm/vm_unset.rs"],
 [("VmExternalFunc::call / is_completed",C+"vm/vm_external_func.rs"),("emit_aggregation_*",C+"vm/codegen.rs")],
 observe=["aggregate().run()"])
p("C15","Sorting yields an ordered, stable permutation",
 "Sorting (find().sort or $sort) returns a permutation of the selected documents ordered by the first sort field, ties by the second, and so on, ascending for 1 and descending for -1, documents that tie on all fields keeping their order; a document lacking a sort field comes after those that have it when ascending and before them when descending. Documents whose sort field holds an array or a document are ordered among themselves in an unspecified way. Sorting never panics, whatever the values, and directions other than 1 and -1 are refused.",
 ["inputs"],"all document sets and sort specifications, mixed types included",
 "Tests sort homogeneous small integers by one field.",
 [C+"vm/vm_sort.rs",C+"utils/bson.rs",C+"action/find.rs"],
 [("VmFuncSort",C+"vm/vm_sort.rs"),("value_cmp",C+"utils/bson.rs")],
 observe=["find().sort(..)","aggregate $sort"])
p("C16","Collection and index lifecycle is consistent",
 "The listed collection names are exactly the collections created (explicitly or by a first insert or index creation) and not dropped since, each once; creating an existing collection is refused. Dropping a collection removes its documents, its index entries and its definition, so that a collection recreated under the same name is empty and unindexed, and no other collection is affected; creating an existing index or dropping a missing index or collection changes nothing.",
 ["histories"],"all histories of create/insert/create_index/drop_index/drop over several collections",
 "Tests do one create/drop; leftovers show only after particular sequences.",
 [C+"db/db_inner.rs",C+"coll/collection_info.rs"],
 [("internal_create_collection / drop_collection_internal / delete_collection_meta",C+"db/db_inner.rs"),("create_single_index / internal_drop_index",C+"db/db_inner.rs")],
 observe=["list_collection_names","count_documents","raw store"],hook="reading the raw key/value pairs of the store")
p("C17","No request makes the engine panic or hang",
 "Every query, update, pipeline or index request ends with a result or an error. The program compiled for it only jumps to instruction boundaries inside itself, the machine never reads outside that code or the constants it names, every instruction finds the operands it takes on the stack (the clean-up pop behind a stage may find the stack empty, which does nothing) with the types it needs, no instruction touches a cursor that is not on an entry, and the stack does not grow from document to document. A request over a finite collection terminates. After a refused request the database stays usable.",
 ["inputs","programs"],"all request documents, well-formed or not, over all collection contents",
 "Tests compile about twenty programs; the program generator is recursive over arbitrary request documents and the interpreter runs them with unchecked reads.",
 [C+"vm/codegen.rs",C+"vm/subprogram.rs",C+"vm/vm.rs",C+"vm/label.rs"],
 [("labels and jump table, unify_labels",C+"vm/codegen.rs"),("VM::execute",C+"vm/vm.rs")],
 observe=["any API call"])
p("C18","Wire messages are framed and parsed exactly",
 "The server reads exactly the bytes a message's header announces, decodes exactly the header, sections and documents they contain, and refuses lengths or structures that are negative, too small, too large or inconsistent with an error instead of panicking or reading past the message; encoding a header and decoding it gives the same header, so that consecutive messages on one connection never bleed into each other.",
 ["inputs"],"all byte sequences sent by a client, all header values",
 "Tests go through a well-behaved driver; malformed and boundary lengths never occur.",
 ["src/polodb/wire/header.rs","src/polodb/wire/message.rs","src/polodb/wire/util.rs","src/polodb/bson_util.rs","src/polodb/checked.rs","src/polodb/main.rs"],
 [("Header::read_from_slice / write",  "src/polodb/wire/header.rs"),("Message::read_from_*","src/polodb/wire/message.rs"),("Checked<T>","src/polodb/checked.rs"),("read_document_bytes","src/polodb/bson_util.rs")],
 observe=["server replies and connection state over a raw socket"])
p("C19","A server cursor delivers every result exactly once",
 "The first batch and the following getMore batches together deliver every document of the result exactly once and in order, each batch within the requested size (a getMore size of 0 leaves the choice to the server); an open cursor's id is non-zero and never denotes two open cursors at a time, an exhausted or killed cursor's id is no longer usable, and a result that fits in its first batch is reported as finished or finishes on the next getMore.",
 ["inputs","histories"],"all result sizes, batch sizes and interleavings of opening, reading, killing several cursors",
 "Tests read one cursor to the end with the driver.",
 ["src/polodb/app_context.rs","src/polodb/handlers/find_handler.rs","src/polodb/handlers/get_more_handler.rs","src/polodb/handlers/kill_cursors_handler.rs"],
 [("save_cursor / get_cursor / remove_cursor","src/polodb/app_context.rs")],
 state=[("cursors map","open server cursors by id","src/polodb/app_context.rs")],
 observe=["find/getMore/killCursors replies"])
p("C20","Server replies are well-formed and answer their request",
 "Every request that can be decoded is answered by exactly one reply whose header length equals its byte length, whose responseTo is the request's id, whose flag bits are zero and whose body is one document telling success with the command's documented counts or failure with an error.",
 ["inputs"],"all commands, supported or not, with all request ids and argument values",
 "Tests see replies only through a lenient driver.",
 ["src/polodb/reply.rs","src/polodb/main.rs","src/polodb/handlers/*.rs"],
 [("Reply::write_to","src/polodb/reply.rs"),("handler dispatch","src/polodb/handlers/mod.rs")],
 observe=["raw reply bytes"])
p("C21","Server sessions scope their transactions",
 "Commands that carry the transaction's session id act inside that transaction and are invisible outside it until commitTransaction, abortTransaction discards them, and commands of other sessions or without a session are not affected by it.",
 ["histories"],"all interleavings of commands of two sessions and none",
 "Tests cover one commit and one abort through the driver.",
 ["src/polodb/session_context.rs","src/polodb/app_context.rs","src/polodb/handlers/*.rs"],
 [("SessionContext","src/polodb/session_context.rs"),("startTransaction handling","src/polodb/main.rs")],
 observe=["find/count through other sessions"])
p("C22","Upsert inserts exactly when nothing matches",
 "An update with upsert and a $set that matches no document inserts exactly one document made of the query's equality fields overlaid with the $set fields; when something matches it behaves like the plain update and inserts nothing. The new document obeys _id and unique-index rules and is indexed.",
 ["inputs","histories"],"all queries, $set documents and contents",
 "Tests upsert one document once.",
 [C+"db/db_inner.rs"],
 [("upsert / merge_query_and_update / internal_update",C+"db/db_inner.rs")],
 observe=["find after update with upsert"])
p("C23","Counts, find_one, skip and limit agree with find",
 "count_documents equals the number of stored documents, matched_count the number of documents that satisfied an update's query and modified_count the number actually rewritten; find_one returns a document that satisfies the query exactly when there is one; find with skip s and limit l returns exactly the documents from position s, at most l, of the unlimited result.",
 ["inputs","histories"],"all contents, queries, skip and limit values",
 "Tests check a few counts on fixed data.",
 [C+"db/db_inner.rs",C+"action/find.rs",C+"vm/codegen.rs",C+"vm/vm_skip.rs",C+"vm/vm_limit.rs"],
 [("count / internal_update",C+"db/db_inner.rs"),("Find::run",C+"action/find.rs")],
 observe=["count_documents, find_one, find().skip().limit()"])
p("C24","Concurrent sessions are isolated",
 "Concurrent transactions and operations from several threads behave as if executed one after the other, or fail with an error and leave no effect.",
 ["schedules"],"all interleavings of operations from several threads",
 "Tests are single-threaded; isolation quantifies over schedules.",
 [C+"db/rocksdb_transaction.rs",C+"db/db_inner.rs"],
 [("rocksdb transaction locks",C+"db/rocksdb_transaction.rs")])
p("C25","The native storage boundary is memory-safe",
 "Every pointer and buffer exchanged with the native storage engine stays valid while it is used, is released exactly once, and no handle outlives the database it belongs to.",
 ["histories"],"all histories of opening, iterating, committing and dropping handles in any order",
 "Tests do not detect leaks or use-after-free.",
 [C+"db/rocksdb_wrapper.rs",C+"db/rocksdb_transaction.rs",C+"db/rocksdb_iterator.rs"],
 [("Drop implementations and open-handle counters",C+"db")])
p("C26","Language binding conversions preserve values",
 "Converting a document from the host language to the engine and back yields an equal value of the same type, and out-of-range or unsupported values are refused.",
 ["inputs"],"all host-language values",
 "Tests convert a few values.",
 ["py-polodb/src/*.rs"],
 [("py to bson conversion","py-polodb/src")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P),"properties")
