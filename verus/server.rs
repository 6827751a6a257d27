// C19, C20, C21: the server's cursors, its handlers and its sessions.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@rule sequential execution of a task: task::spawn_blocking(move || -> anyhow::Result<polodb_core::results::InsertManyResult> { $s_b }).await?? ~~> insert_all(ctx.app_context, session_opt, db, collection_name, batch_insert)?
//@rule text of the error dropped: anyhow::anyhow!($e) ~~> Error
//@trust _bytes.rs
//@trust _wire.rs
//@import _rawdoc.rs
//@import _app.rs
//@import _batch.rs
//@import _handlers.rs
//@import _writes.rs
//@import _serve.rs
} // verus!
fn main() {}
