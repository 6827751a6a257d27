// C17: the machine runs a program made by the compiler without leaving it: no read outside the code, no operand missing, no panic.
use vstd::prelude::*;
verus! {
#[derive(Debug)]
pub enum Error { NotAValidKeyType, Storage, UnexpectedType, FieldType, VmIsHalt, Other }
pub type Result<T> = std::result::Result<T, Error>;
//@trust _bson.rs
//@trust _doc.rs
pub struct IndexMap<K, V> { pub entries: Vec<(K, V)> }
pub struct IndexInfo { pub keys: IndexMap<String, i8> }
pub open spec fn wf_info(i: IndexInfo) -> bool { i.keys.entries@.len() == 1 }
//@import _code.rs
//@import _machine.rs
} // verus!
fn main() {}
