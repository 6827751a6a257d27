// C17: every program the compiler makes is one the machine can run.
use vstd::prelude::*;
verus! {
#[derive(Debug)]
pub enum Error { NotAValidKeyType, InvalidField(FieldError), FieldType, InvalidAggregationStage, UnknownAggregationOperation, UnknownUpdateOperation, Other }
pub type Result<T> = std::result::Result<T, Error>;
//@trust _bson.rs
//@trust _doc.rs
pub struct IndexMap<K, V> { pub entries: Vec<(K, V)> }
pub struct IndexInfo { pub keys: IndexMap<String, i8> }
pub struct CollectionSpecification { pub _id: String, pub indexes: IndexMap<String, IndexInfo> }
pub open spec fn wf_info(i: IndexInfo) -> bool { i.keys.entries@.len() == 1 }
//@import _code.rs
//@import _gen.rs
//@import _query.rs
//@import _layout.rs
//@import _compile.rs
//@import _program.rs
} // verus!
fn main() {}
