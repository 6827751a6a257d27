"""What decides each property: Verus units, Kani harnesses, bounded suites (name, weight)."""

def P(suites, verus=(), kani=(), level="exploration", time=15, **kw):
    return dict(suites=suites, verus=list(verus), kani=list(kani), level=level, time=time, **kw)


# the unit `kv` carries several properties: each takes what its own lemmas and entry points rest on
KV_READ = ["next", "reset_by_pkey", "reset_by_index_value", "reset_by_custom_key", "peek_key", "lemma_left"]
KV_WRITE = ["insert_one", "insert_many_internal", "upsert", "create_index", "drop_index", "create_collection_internal"]
KV = {
    "C02": ["c02_isolation"] + KV_READ + KV_WRITE,
    "C08": ["c08_insert", "c08_delete", "c08_update", "c08_create_index", "lemma_inv_new"] + KV_READ + KV_WRITE,
    "C09": ["c09_conflict", "c09_create_conflict", "insert_one", "insert_many_internal", "create_index"],
    "C10": ["insert_one", "insert_many_internal"],
    "C16": ["c16_drop_index", "c16_drop_collection", "lemma_inv_new", "create_index", "drop_index", "create_collection_internal",
            "delete_collection_meta"],
    "C22": ["upsert"],
}


KV_STOP = {
    "C10": ["DatabaseInner::try_insert_index", "DatabaseInner::internal_create_collection"],
    "C22": ["DatabaseInner::insert_one_internal"],
}


VM_SCAN = ["c02_collection_scan", "VM::open_read", "VM::open_write", "VM::reset_cursor", "VM::next", "VM::find_by_primary_key"]
VM_INDEX = ["c08_index_scan", "VM::find_by_index", "VM::next_index_value", "VM::read_index_value_by_index_key"]
VM_WRITE = ["VM::update_current", "VM::insert_index", "VM::delete_index"]
VM = {
    "C02": VM_SCAN,
    "C08": VM_SCAN + VM_INDEX + VM_WRITE,
    "C09": ["VM::insert_index", "VM::delete_index"],
    "C13": VM_SCAN + VM_INDEX,
    "C16": VM_SCAN,
    "C23": VM_SCAN + ["VM::update_current"],
}


STAGE_ONE_BY_ONE = ["VmFuncSkip::compile", "VmFuncSkip::call", "VmFuncSkip::is_completed", "VmFuncLimit::compile", "VmFuncLimit::call",
                    "VmFuncLimit::is_completed", "c14_skip", "c14_skip_call", "c14_limit", "c14_limit_call"]
SORT = ["VmFuncSort::compile", "VmFuncSort::compare", "VmFuncSort::sort_array", "VmFuncSort::call", "VmFuncSort::is_completed",
        "c15_collects", "c15_hands_out", "c15_sorted_again", "c15_by_fields", "c15_call"]
STAGES = {
    "C14": STAGE_ONE_BY_ONE + SORT + ["VmFuncCount::new", "VmFuncCount::call", "VmFuncUnset::compile", "VmFuncUnset::call",
                                      "VmFuncAddFields::compile", "VmFuncAddFields::call", "c14_count", "c14_unset_frame", "c14_add_fields_frame",
                                      "c14_add_fields_sets"],
    "C15": SORT,
    "C23": STAGE_ONE_BY_ONE,
}
BATCHES = ["FindHandler::consume_first_batch", "FindHandler::mk_cursor_doc", "GetMoreHandler::mk_cursor_doc"]
CURSORS = ["c19_batches", "FindHandler::handle", "GetMoreHandler::handle", "KillCursorsHandler::handle", "AggregateHandle::handle",
           "AppContext::save_cursor", "AppContext::get_cursor", "AppContext::remove_cursor"] + BATCHES
OPS = ["update_one", "update_one_with_options", "update_many", "update_many_with_options", "delete_one", "delete_many", "create_index",
       "drop_index", "drop", "insert_one", "insert_many"]


def both(*names):
    return [c + "::" + n for c in ("Collection", "TransactionalCollection") for n in names]


# the public operations of a collection, inside and outside of a transaction
TXN = {
    "C10": both("insert_one", "insert_many"),
    "C11": both("find", "find_one", "aggregate", "count_documents", *OPS) + ["Transaction::commit", "Transaction::rollback", "Transaction::collection",
            "Database::start_transaction", "Database::create_collection", "Database::collection", "Database::list_collection_names",
            "Find::run", "Aggregate::run"],
    "C13": both("delete_one", "delete_many"),
    "C16": both("drop", "create_index", "drop_index") + ["Database::create_collection", "Database::list_collection_names"],
    "C22": both("update_one_with_options", "update_many_with_options", "update_one", "update_many"),
    "C23": both("find", "find_one", "count_documents", "update_one", "update_many") + ["Find::run", "Find::skip", "Find::limit", "Find::sort"],
}
# every way a program is made
PROGRAMS = ["SubProgram::compile_" + n for n in ("empty_query", "query", "query_all", "query_all_by_name", "update", "delete", "delete_all", "aggregate",
                                                 "aggregate_with_match")]
ORDER_KANI = [
    ("c03_integer_double_cmp_is_exact", ["integer_double_cmp (src/polodb_core/utils/bson.rs)"],
     "an integer and a double compare by their exact mathematical value"),
    ("c03_double_cmp_is_total", ["double_cmp (src/polodb_core/utils/bson.rs)"],
     "doubles compare in a total order, NaN least, zeros equal")]


def kv(p):
    return ([("kv", KV[p], KV_STOP.get(p, []))] if p in KV else []) + ([("vm", VM[p], [])] if p in VM else []) \
        + ([("stages", STAGES[p], [])] if p in STAGES else []) + ([("txn", TXN[p], [])] if p in TXN else [])


PROPS = {
    "C01": P([("keys", 1)], verus=["keys"], level="proof"),
    "C02": P([("keys", 1), ("history", 1)], verus=kv("C02"), level="proof"),
    "C03": P([("order", 1)], verus=["order"], kani=ORDER_KANI, level="proof"),
    "C04": P([("query", 1)], verus=[("match", ["field_path_value", "matches_regex", "compile_regex", "matches_compiled_regex", "query_values_equal"])],
             level="proof"),
    "C05": P([("member", 1)], verus=[("match", ["matches_in", "matches_all", "query_values_equal", "validate_membership_candidates",
                                               "c05_reflexive", "c05_symmetric", "c05_unrelated", "c05_all_is_every_in"])],
             kani=[("c05_integer_equals_double_is_exact", ["integer_equals_double (src/polodb_core/vm/query_matcher.rs)"],
                    "an integer equals a double exactly when they are the same number")], level="proof"),
    "C06": P([("update", 1)], verus=["update"], level="proof"),
    "C07": P([("arith", 1)], verus=["update"], level="proof"),
    "C08": P([("indexq", 1), ("history", 1)], verus=kv("C08"), level="proof"),
    "C09": P([("history", 1)], verus=kv("C09"), level="proof"),
    "C10": P([("history", 1)], verus=kv("C10"), level="proof"),
    "C11": P([("history", 1)], verus=kv("C11"), level="proof"),
    "C13": P([("history", 1), ("query", 1)], verus=kv("C13"), level="proof"),
    "C14": P([("aggregate", 1)], verus=kv("C14"), level="proof"),
    "C15": P([("sort", 1)], verus=kv("C15") + [("order", ["value_cmp", "vcmp_antisymmetric", "vcmp_transitive", "vcmp_scalar"])], kani=ORDER_KANI,
             level="proof"),
    "C16": P([("history", 1)], verus=kv("C16"), level="proof"),
    "C17": P([("garbage", 1)], verus=[("code", PROGRAMS), ("run", ["VM::new", "VM::execute"])], level="proof"),
    "C18": P([("wire", 1)], verus=["wire"], level="proof"),
    "C19": P([("cursor", 1)], verus=[("server", CURSORS)], level="proof"),
    "C20": P([("reply", 1)], verus=[("server", ["handle_stream", "handle_message", "make_reply", "make_handlers"]),
                                    ("wire", ["Reply::new", "Reply::write_to", "c20_reply_reads_back"])], level="proof"),
    "C21": P([("session", 1)], verus=[("server", ["make_reply", "handle_message", "c21_apart", "c21_fresh"], BATCHES)], level="proof"),
    "C22": P([("update", 1), ("history", 1)], verus=kv("C22"), level="proof"),
    "C23": P([("update", 1), ("history", 1), ("query", 1)], verus=kv("C23"), level="proof"),
}

NOT_APPLICABLE = {
    "C12": "what survives a crash is decided by RocksDB's write-ahead log and the operating system's flush order (C++ code and hardware behind the FFI); there is no Rust function whose contract could express it, and an assumed contract on rocksdb_transaction_commit would be the property itself",
    "C24": "a whole-history property of threads inside RocksDB's optimistic/pessimistic transaction manager; the installed deductive verifiers have no thread support for such code (Kani) or would need a rewrite with permission types (Verus)",
    "C25": "the boundary is raw pointers into the C++ library; neither Verus nor Kani can reason across it, and contracts on every extern function would assume the property. Leaks seen by reading are noted in DESIGN.md",
    "C26": "the conversions are PyO3 code over the CPython C API; no verifier installed reaches through it",
}
