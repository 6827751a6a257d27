// included at the end of src/polodb_core/transaction/transaction.rs under --cfg polodb_verif
impl Transaction {
    /// every key and value this transaction sees, in key order
    #[doc(hidden)]
    pub fn verif_dump(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
        crate::verif::dump_inner(&self.inner)
    }
}
