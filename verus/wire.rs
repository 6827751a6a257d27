// C18, C20: framing and parsing of messages, and what a reply looks like on the wire.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@import _bytes.rs
//@import _wire.rs
} // verus!
fn main() {}
