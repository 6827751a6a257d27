// C02, C08, C09, C10, C16: collections, documents and index entries in the key-value map.
use vstd::prelude::*;
verus! {
#[derive(Debug)]
pub enum Error { NotAValidKeyType, Storage, DuplicateKey, CollectionNotFound, IllegalCollectionName, IllegalIndexName, CollectionAlreadyExits, OnlySupportsAscendingOrder, UpsertError, OnlySupportSingleFieldIndexes, SetIsNotADocument, Bson }
pub type Result<T> = std::result::Result<T, Error>;
//@import _bson.rs
//@import _doc.rs
//@import _io.rs
//@import _keyspec.rs
//@import _keylemmas.rs
//@import _kv.rs
//@import _coll.rs

//@import _index.rs
//@import _cursor.rs
//@import _builder.rs
//@import _ddl.rs
//@import _db.rs

} // verus!
fn main() {}
