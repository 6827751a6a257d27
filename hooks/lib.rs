// included in `pub mod verif` at the end of src/polodb_core/lib.rs under --cfg polodb_verif
pub fn dump(db: &crate::Database) -> Vec<(Vec<u8>, Vec<u8>)> {
    db.verif_dump()
}

pub fn dump_txn(txn: &crate::Transaction) -> Vec<(Vec<u8>, Vec<u8>)> {
    txn.verif_dump()
}

pub(crate) fn dump_inner(txn: &crate::transaction::TransactionInner) -> Vec<(Vec<u8>, Vec<u8>)> {
    let it = txn.rocksdb_txn.new_iterator();
    let mut out = vec![];
    it.seek_to_first();
    while it.valid() {
        out.push((it.copy_key_arc().unwrap().to_vec(), it.copy_data().unwrap()));
        it.next();
    }
    out
}
