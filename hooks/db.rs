// included at the end of src/polodb_core/db/db.rs under --cfg polodb_verif
impl Database {
    /// every key and value of the store, in key order
    #[doc(hidden)]
    pub fn verif_dump(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
        crate::verif::dump_inner(&self.inner.start_transaction().unwrap())
    }
}
