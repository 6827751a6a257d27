// C11, C13, C16, C22, C23: transactions, and the public operations of a collection inside and outside of one.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub enum Error { RocksDbErr, DbIsClosed, CollectionNotFound, IllegalCollectionName, Bson, Other }
pub type Result<T> = std::result::Result<T, Error>;
impl Error {
    #[verifier::external_body]
    pub fn add(self, o: Error) -> Error { unimplemented!() }
}
//@macro src/polodb_core/coll/collection.rs try_db_op
//@macro src/polodb_core/coll/collection.rs try_multiple
//@import _world.rs
//@import _ops.rs
} // verus!
fn main() {}
