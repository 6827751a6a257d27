//! C17: malformed and odd requests. Nothing may panic or hang (panics and hangs are caught in main.rs), and the
//! database must stay usable with its contents unchanged by refused requests.
use super::*;
use crate::ctx::{log, stat};
use crate::{ensure, gen};
use polodb_core::bson::{doc, Bson};
use polodb_core::{IndexModel, IndexOptions};

fn anything(r: &mut Rng, depth: usize) -> Bson {
    match r.below(12) {
        0 => Bson::RegularExpression(polodb_core::bson::Regex { pattern: r.pick(&["(", "a", "^", "[z"]).to_string(), options: r.pick(&["", "i", "q", "imsxu"]).to_string() }),
        1 => Bson::Document(Document::new()),
        2 => Bson::Array(vec![]),
        3..=5 if depth > 0 => Bson::Document(junk(r, depth - 1)),
        6..=7 if depth > 0 => Bson::Array((0..r.below(3)).map(|_| anything(r, depth - 1)).collect()),
        _ => gen::value(r, 1),
    }
}

fn junk(r: &mut Rng, depth: usize) -> Document {
    const KEYS: &[&str] = &[
        "a", "b", "d.x", "", ".", "a.", ".a", "a..b", "_id", "$and", "$or", "$not", "$eq", "$ne", "$gt", "$gte", "$lt", "$lte", "$in", "$nin", "$all", "$size", "$regex",
        "$nope", "$", "arr", "s",
    ];
    let mut d = Document::new();
    for _ in 0..r.below(4) {
        let v = anything(r, depth);
        d.insert(*r.pick(KEYS), v);
    }
    d
}

fn query(r: &mut Rng, docs: &[Document]) -> Document {
    match r.below(6) {
        0 => gen::query(r, docs, 2, true),
        1 => doc! {*r.pick(&["$and", "$or"]): []},
        2 => doc! {*r.pick(&["a", "arr", "_id"]): {"$not": anything(r, 2)}},
        3 => {
            let mut q = gen::query(r, docs, 1, true);
            q.insert("$or", vec![Bson::Document(junk(r, 2)), Bson::Document(gen::query(r, docs, 1, false))]);
            q
        }
        _ => junk(r, 3),
    }
}

fn update(r: &mut Rng) -> Document {
    const OPS: &[&str] = &["$set", "$unset", "$rename", "$inc", "$mul", "$min", "$max", "$push", "$pop", "$nope", "a", "_id", "$"];
    let mut d = Document::new();
    for _ in 0..r.below(3) {
        let arg = if r.chance(1, 6) {
            anything(r, 1)
        } else {
            let mut a = Document::new();
            for _ in 0..r.below(3) {
                let v = anything(r, 1);
                a.insert(*r.pick(&["a", "b", "arr", "s", "d", "d.x", "", "_id", "new", "$x"]), v);
            }
            Bson::Document(a)
        };
        d.insert(*r.pick(OPS), arg);
    }
    d
}

fn pipeline(r: &mut Rng, docs: &[Document]) -> Vec<Document> {
    let mut p = vec![];
    for _ in 0..r.below(4) {
        let st = match r.below(8) {
            0 => Document::new(),
            1 => junk(r, 1),
            2 => doc! {"$match": query(r, docs)},
            3 => doc! {*r.pick(&["$skip", "$limit", "$count", "$sort", "$unset", "$addFields", "$group", "$match"]): anything(r, 2)},
            4 => doc! {"$sort": {*r.pick(&["a", "c", "arr", "d"]): anything(r, 0)}},
            5 => doc! {"$addFields": {"x": {"$abs": anything(r, 1)}}},
            6 => doc! {"$group": {"_id": anything(r, 1), "n": {"$sum": anything(r, 1)}}},
            _ => super::agg::stage(r, docs.len()),
        };
        p.push(st);
    }
    p
}

pub fn case(db: &mut Db, r: &mut Rng, _i: u64) -> CaseResult {
    let nd = r.below(5);
    let mut docs = gen::docs(r, nd);
    for d in docs.iter_mut() {
        if r.chance(1, 4) {
            d.insert("a", *r.pick(&[i32::MIN, i32::MAX]));
            d.insert("b", *r.pick(&[i64::MIN, i64::MAX]));
        }
    }
    let name = db.fresh();
    log(format!("collection {name} = {}", show(&docs)));
    let txn = db.txn();
    let c = txn.collection::<Document>(&name);
    must(&["C10"], c.insert_many(docs.clone()), "insert_many")?;
    if r.chance(1, 3) {
        let f = *r.pick(&["a", "s", "d.x"]);
        let _ = c.create_index(IndexModel { keys: doc! {f: 1}, options: None });
    }
    for _ in 0..10 {
        let before = must(&["C17", "C11"], find_all(&c, doc! {}), "find {}")?;
        match r.below(8) {
            0..=2 => {
                let q = query(r, &docs);
                log(format!("find {q:?}"));
                let res = find_all(&c, q);
                stat(if res.is_ok() { "find ok" } else { "find refused" });
            }
            3 => {
                let q = query(r, &docs);
                let u = update(r);
                let up = r.chance(1, 3);
                log(format!("update upsert={up} {q:?} {u:?}"));
                let o = polodb_core::options::UpdateOptions::builder().upsert(up).build();
                let res = c.update_many_with_options(q, u, o);
                stat(if res.is_ok() { "update ok" } else { "update refused" });
                if res.is_err() {
                    let after = must(&["C17", "C11"], find_all(&c, doc! {}), "find {}")?;
                    ensure!(&["C17", "C11", "C06"], same_list(&after, &before, true), "a refused update changed {} to {}", show(&before), show(&after));
                }
            }
            4 => {
                let q = query(r, &docs);
                log(format!("delete {q:?}"));
                let res = if r.chance(1, 2) { c.delete_one(q) } else { c.delete_many(q) };
                stat(if res.is_ok() { "delete ok" } else { "delete refused" });
                if res.is_err() {
                    let after = must(&["C17", "C11"], find_all(&c, doc! {}), "find {}")?;
                    ensure!(&["C17", "C11", "C13"], same_list(&after, &before, true), "a refused delete changed {} to {}", show(&before), show(&after));
                }
            }
            5 | 6 => {
                let p = pipeline(r, &docs);
                log(format!("aggregate {p:?}"));
                let res = super::agg::run_agg(&c, p);
                stat(if res.is_ok() { "aggregate ok" } else { "aggregate refused" });
            }
            _ => {
                let mut keys = Document::new();
                for _ in 0..r.below(3) {
                    let v = if r.chance(1, 2) { Bson::Int32(1) } else { anything(r, 1) };
                    keys.insert(*r.pick(&["a", "s", "", ".", "a.b", "$x", "_id", "arr"]), v);
                }
                let m = IndexModel { keys, options: if r.chance(1, 2) { Some(IndexOptions { name: Some(r.pick(&["", "x", "$", "a.b", "i\0"]).to_string()), unique: Some(r.chance(1, 2)) }) } else { None } };
                log(format!("create_index {:?}", m.keys));
                let res = c.create_index(m);
                stat(if res.is_ok() { "index ok" } else { "index refused" });
                if r.chance(1, 3) {
                    let _ = c.drop_index(*r.pick(&["a_1", "", "x", "$"]));
                }
            }
        }
        let after = must(&["C17"], find_all(&c, doc! {}), "find {} afterwards")?;
        let n = must(&["C17", "C23"], c.count_documents(), "count")?;
        ensure!(&["C17", "C23"], n as usize == after.len(), "count {n} but {} documents", after.len());
    }
    must(&["C11"], txn.rollback(), "rollback")?;
    Ok(())
}
