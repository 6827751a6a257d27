use super::*;
use crate::ctx::{log, stat};
use crate::{ensure, gen};
use polodb_core::bson::{doc, Bson};

fn key(r: &mut Rng) -> Bson {
    match r.below(5) {
        0 => {
            let n = r.below(5);
            Bson::String((0..n).map(|_| *r.pick(&['\0', '\u{1}', '\u{2}', 'a', '\u{7f}', '\u{80}', 'é', '\u{FFFF}'])).collect())
        }
        _ => gen::scalar(r),
    }
}

/// C01/C02: arbitrary scalar _id values in collections whose names share prefixes.
pub fn case(db: &mut Db, r: &mut Rng, _i: u64) -> CaseResult {
    let stem = db.fresh();
    let names: Vec<String> = {
        let all = [stem.clone(), format!("{stem}\0"), format!("{stem}a"), format!("{stem}\0\u{10}"), format!("{stem} x"), format!("{stem}é")];
        let k = 1 + r.below(3);
        (0..k).map(|_| r.pick(&all).clone()).collect()
    };
    let txn = db.txn();
    let mut all: Vec<(String, Vec<Document>)> = vec![];
    for _ in 0..(2 + r.below(14)) {
        let name = r.pick(&names).clone();
        let k = key(r);
        if matches!(k, Bson::Null) {
            continue;
        }
        let d = doc! {"_id": k.clone(), "in": name.clone(), "n": all.len() as i32};
        if !all.iter().any(|(n, _)| *n == name) {
            all.push((name.clone(), vec![]));
        }
        let slot = all.iter_mut().find(|(n, _)| *n == name).unwrap();
        let dup = slot.1.iter().any(|x| model::same(x.get("_id").unwrap(), &k, true));
        log(format!("insert into {name:?}: {d:?}"));
        let c = txn.collection::<Document>(&name);
        match c.insert_one(d.clone()) {
            Ok(res) => {
                ensure!(&["C01", "C09"], !dup, "second document with _id {k:?} accepted in {name:?}");
                ensure!(&["C10"], model::same(&res.inserted_id, &k, true), "inserted_id {:?} for _id {k:?}", res.inserted_id);
                slot.1.push(d);
            }
            Err(e) => ensure!(&["C01", "C02", "C09"], dup, "insert of _id {k:?} into {name:?} refused: {e}; stored: {}", show(&slot.1)),
        }
        stat("inserts");
    }
    // unsupported key types are refused
    let bad = match r.below(5) {
        0 => Bson::Array(vec![Bson::Int32(1)]),
        1 => Bson::Document(doc! {"x": 1}),
        2 => Bson::MinKey,
        3 => Bson::Binary(polodb_core::bson::Binary { subtype: polodb_core::bson::spec::BinarySubtype::Generic, bytes: vec![1] }),
        _ => gen::regex_value(r),
    };
    let c = txn.collection::<Document>(&names[0]);
    log(format!("insert unsupported _id {bad:?}"));
    let res = c.insert_one(doc! {"_id": bad.clone()});
    ensure!(&["C01"], res.is_err(), "_id {bad:?} accepted");
    for name in &names {
        let c = txn.collection::<Document>(name);
        let stored = all.iter().find(|(n, _)| n == name).map(|(_, v)| v.clone()).unwrap_or_default();
        let got = must(&["C02"], find_all(&c, doc! {}), "find {}")?;
        ensure!(&["C01", "C02"], same_set(&got, &stored, true), "collection {name:?} holds {}, inserted {}", show(&got), show(&stored));
        let keys: Vec<Vec<u8>> = got.iter().map(|d| model::encode_all(&[d.get("_id").unwrap().clone()]).unwrap()).collect();
        ensure!(&["C02"], keys.windows(2).all(|w| w[0] < w[1]), "scan of {name:?} is not in key order: {}", show(&got));
        let cnt = must(&["C23", "C02"], c.count_documents(), "count")?;
        ensure!(&["C23", "C02"], cnt == stored.len() as u64, "count of {name:?} is {cnt}, stored {}", stored.len());
        for d in &stored {
            let id = d.get("_id").unwrap().clone();
            let got = must(&["C01"], find_all(&c, doc! {"_id": id.clone()}), "find by _id")?;
            stat("lookups");
            let own = got.iter().filter(|g| model::same_doc(g, d, true)).count();
            let fits = got.iter().all(|g| model::cmp(g.get("_id").unwrap(), &id) == std::cmp::Ordering::Equal);
            ensure!(&["C01", "C10"], own == 1 && fits, "find by _id {id:?} in {name:?} returned {}", show(&got));
        }
        let absent = key(r);
        if !stored.iter().any(|d| model::same(d.get("_id").unwrap(), &absent, true)) {
            let got = must(&["C01"], find_all(&c, doc! {"_id": absent.clone()}), "find by absent _id")?;
            let fits = got.iter().all(|g| model::cmp(g.get("_id").unwrap(), &absent) == std::cmp::Ordering::Equal);
                ensure!(&["C01", "C02"], fits, "find by absent _id {absent:?} returned {}", show(&got));
        }
    }
    // index keys: every tuple ($I, collection, index, value, _id) round-trips through an index lookup
    let name = r.pick(&names).clone();
    let c = txn.collection::<Document>(&name);
    if r.chance(1, 2) {
        must(&["C13"], c.delete_many(doc! {}), "delete_many")?;
        must(&["C08"], c.create_index(polodb_core::IndexModel { keys: doc! {"v": 1}, options: None }), "create_index")?;
        let mut docs = vec![];
        for i in 0..(1 + r.below(6)) {
            let d = doc! {"_id": if r.chance(1, 2) { Bson::Int32(i as i32) } else { Bson::String(format!("{}{i}", r.pick(gen::STRS))) }, "v": key(r)};
            if docs.iter().any(|x: &Document| model::same(x.get("_id").unwrap(), d.get("_id").unwrap(), true)) {
                continue;
            }
            must(&["C01", "C08"], c.insert_one(d.clone()), "insert with index")?;
            docs.push(d);
        }
        log(format!("indexed on v: {}", show(&docs)));
        for d in &docs {
            let v = d.get("v").unwrap().clone();
            if matches!(v, Bson::RegularExpression(_)) {
                continue;
            }
            let got = must(&["C01", "C08"], find_all(&c, doc! {"v": v.clone()}), "find by indexed value")?;
            let want: Vec<Document> = docs.iter().filter(|x| model::same(x.get("v").unwrap(), &v, true)).cloned().collect();
            stat("index lookups");
            let fits = got.iter().all(|g| model::cmp(g.get("v").unwrap(), &v) == std::cmp::Ordering::Equal)
                && want.iter().all(|w| got.iter().filter(|g| model::same_doc(g, w, true)).count() == 1);
            ensure!(&["C01", "C08"], fits, "find v = {v:?} through the index returned {} instead of {}", show(&got), show(&want));
        }
    }
    must(&["C11"], txn.rollback(), "rollback")?;
    // collection names
    let bad = *r.pick(&["a$b", "$", "a.b", ".", "x\n", "x\ty", "\r", "$TABLE_META", "$I"]);
    let e = db.get().create_collection(bad);
    ensure!(&["C02", "C16"], e.is_err(), "collection name {bad:?} accepted");
    let c = db.get().collection::<Document>(bad);
    ensure!(&["C02"], c.insert_one(doc! {"a": 1}).is_err(), "insert into {bad:?} accepted");
    ensure!(&["C02"], c.create_index(polodb_core::IndexModel { keys: doc! {"v": 1}, options: None }).is_err(), "create_index on {bad:?} accepted");
    ensure!(&["C02"], db.get().create_collection("").is_err(), "empty collection name accepted");
    ensure!(&["C02"], db.get().collection::<Document>("").insert_one(doc! {"a": 1}).is_err(), "insert into the empty name accepted");
    Ok(())
}
