// C03: value_cmp is an exact total order on scalar values.
use vstd::prelude::*;
verus! {
//@import _bson.rs
//@import _order.rs
//@import _orderlemmas.rs
} // verus!
fn main() {}
