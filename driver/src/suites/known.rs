//! One case per recorded finding: succeeds when the recorded history still fails in the recorded way.
use super::*;
use crate::ctx::fail;
use polodb_core::bson::{doc, Bson};
use polodb_core::IndexModel;

pub fn case(db: &mut Db, _r: &mut Rng, i: u64) -> CaseResult {
    let name = db.fresh();
    let txn = db.txn();
    let c = txn.collection::<Document>(&name);
    let present = match i {
        // indexed equality beside another condition stops at the first index entry that fails it
        0 => {
            must(&["*"], c.create_index(IndexModel { keys: doc! {"age": 1}, options: None }), "create_index")?;
            must(&["*"], c.insert_many(vec![doc! {"_id": 1, "age": 32, "name": "x"}, doc! {"_id": 2, "age": 32, "name": "y"}]), "insert")?;
            let got = must(&["*"], find_all(&c, doc! {"age": 32, "name": "y"}), "find")?;
            got.is_empty()
        }
        // _id lookup is type-exact
        1 => {
            must(&["*"], c.insert_one(doc! {"_id": 1, "v": "x"}), "insert")?;
            let a = must(&["*"], find_all(&c, doc! {"_id": Bson::Int64(1)}), "find")?;
            let b = must(&["*"], find_all(&c, doc! {"_id": {"$eq": Bson::Int64(1)}}), "find")?;
            a.is_empty() && b.len() == 1
        }
        // indexed lookup is type-exact
        2 => {
            must(&["*"], c.create_index(IndexModel { keys: doc! {"v": 1}, options: None }), "create_index")?;
            must(&["*"], c.insert_one(doc! {"_id": 1, "v": 5}), "insert")?;
            let a = must(&["*"], find_all(&c, doc! {"v": 5.0}), "find")?;
            let b = must(&["*"], find_all(&c, doc! {"v": {"$eq": 5.0}}), "find")?;
            a.is_empty() && b.len() == 1
        }
        _ => return fail(&["*"], "no such finding"),
    };
    must(&["*"], txn.rollback(), "rollback")?;
    if present {
        fail(&["*"], format!("recorded finding {i} reproduced"))
    } else {
        Ok(())
    }
}
