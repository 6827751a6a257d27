use super::*;
use crate::ctx::{log, stat};
use crate::{ensure, gen};
use polodb_core::bson::{doc, Bson};
use polodb_core::{IndexModel, TransactionalCollection};

pub fn run_agg(c: &TransactionalCollection<Document>, p: Vec<Document>) -> Result<Vec<Document>> {
    let mut cur = c.aggregate(p).run()?;
    let mut out = vec![];
    while cur.advance()? {
        out.push(cur.deserialize_current()?);
    }
    Ok(out)
}

fn count_arg(r: &mut Rng, n: usize) -> Bson {
    let v = match r.below(8) {
        0 => 0,
        1 => n as i64,
        2 => n as i64 + 1,
        3 => i32::MAX as i64,
        _ => r.below(n + 2) as i64,
    };
    if r.chance(1, 2) {
        Bson::Int64(v)
    } else {
        Bson::Int32(v as i32)
    }
}

pub fn stage(r: &mut Rng, n: usize) -> Document {
    match r.below(10) {
        0 | 1 => doc! {"$sort": gen::sort_spec(r)},
        2 | 3 => doc! {"$skip": count_arg(r, n)},
        4 | 5 => doc! {"$limit": count_arg(r, n)},
        6 => doc! {"$count": *r.pick(&["total", "a", "n"])},
        7 => match r.below(3) {
            0 => doc! {"$unset": *r.pick(&["a", "s", "missing", "_id"])},
            _ => doc! {"$unset": [*r.pick(&["a", "b"]), *r.pick(&["s", "d", "arr"])]},
        },
        _ => {
            let v = match r.below(6) {
                0 => Bson::Int32(7),
                1 => Bson::String("lit".into()),
                2 => Bson::String(r.pick(&["$a", "$s", "$missing", "$_id"]).to_string()),
                3 => Bson::Document(doc! {"$abs": *r.pick(&["$a", "$b", "$n", "$missing"])}),
                4 => Bson::Document(doc! {"$abs": *r.pick(&[-4, 0, 9])}),
                _ => gen::scalar(r),
            };
            let v = match v {
                Bson::String(s) if s.starts_with('$') && !["$a", "$s", "$missing", "$_id"].contains(&s.as_str()) => Bson::String("x".into()),
                v => v,
            };
            let mut d = doc! {*r.pick(&["new", "extra", "c"]): v};
            if r.chance(1, 3) {
                d.insert("second", r.range(0, 3) as i32);
            }
            doc! {"$addFields": d}
        }
    }
}

/// Arrays and documents have no specified order (C03): such sorts are left out here.
fn sorts_unordered(base: &[Document], p: &[Document]) -> bool {
    let copies = p.iter().any(|s| s.contains_key("$addFields"));
    p.iter().filter_map(|s| s.get_document("$sort").ok()).any(|spec| {
        spec.keys().any(|k| {
            let at = |f: &str| base.iter().filter(|d| matches!(d.get(f), Some(Bson::Array(_)) | Some(Bson::Document(_)) | Some(Bson::RegularExpression(_)))).count();
            at(k) > 1 || (copies && (at("a") > 1 || at("s") > 1))
        })
    })
}

pub fn case(db: &mut Db, r: &mut Rng, _i: u64) -> CaseResult {
    let n = *r.pick(&[0usize, 1, 2, 3, 5, 8]);
    let docs = gen::docs(r, n);
    let name = db.fresh();
    log(format!("collection {name} = {}", show(&docs)));
    let txn = db.txn();
    let c = txn.collection::<Document>(&name);
    must(&["C10"], c.insert_many(docs.clone()), "insert_many")?;
    let base = must(&["C02"], find_all(&c, doc! {}), "find {}")?;
    for _ in 0..8 {
        let mut p: Vec<Document> = vec![];
        if r.chance(1, 2) {
            let q = match r.below(5) {
                0 => doc! {},
                1 if !base.is_empty() => doc! {"_id": r.pick(&base).get("_id").unwrap().clone()},
                2 => doc! {"_id": gen::id(r)},
                _ => gen::query(r, &docs, 1, true),
            };
            p.push(doc! {"$match": q});
        }
        for _ in 0..r.below(4) {
            p.push(stage(r, n));
        }
        if sorts_unordered(&base, &p) {
            continue;
        }
        log(format!("aggregate {p:?}"));
        let want = model::run_pipeline(&base, &p);
        let got = must(&["C14"], run_agg(&c, p.clone()), &format!("aggregate {p:?}"))?;
        stat("pipelines");
        for s in &p {
            stat(s.keys().next().unwrap());
        }
        let has_sort = p.iter().any(|s| s.contains_key("$sort"));
        let fields_ordered = !p.iter().any(|s| s.contains_key("$unset"));
        let tags: &[&'static str] = if has_sort && p.iter().all(|s| s.contains_key("$sort") || s.contains_key("$match")) { &["C14", "C15"] } else { &["C14"] };
        ensure!(tags, same_list(&got, &want, false), "aggregate {p:?} on {} gave {} instead of {}", show(&base), show(&got), show(&want));
        if fields_ordered && !p.iter().any(|s| s.contains_key("$addFields")) {
            ensure!(&["C14"], same_list(&got, &want, true), "aggregate {p:?} changed documents: {} instead of {}", show(&got), show(&want));
        }
    }
    // with an index behind the $match
    if r.chance(1, 3) {
        let m = doc! {"_id": {"$in": docs.iter().filter_map(|d| d.get("_id").cloned()).collect::<Vec<_>>()}};
        must(&["C13"], c.delete_many(m), "delete")?;
        let mut ds = vec![];
        for i in 0..6 {
            ds.push(doc! {"_id": i, "k": r.range(0, 2) as i32, "w": r.range(0, 3) as i32});
        }
        must(&["C08"], c.create_index(IndexModel { keys: doc! {"k": 1}, options: None }), "create_index")?;
        must(&["C10"], c.insert_many(ds.clone()), "insert_many")?;
        let base: Vec<Document> = must(&["C02"], find_all(&c, doc! {}), "find {}")?;
        for _ in 0..3 {
            let mut p = vec![doc! {"$match": {"k": r.range(0, 3) as i32}}];
            for _ in 0..(1 + r.below(3)) {
                p.push(match r.below(4) {
                    0 => doc! {"$sort": {"w": 1, "_id": -1}},
                    1 => doc! {"$skip": r.below(3) as i32},
                    2 => doc! {"$limit": r.below(4) as i32},
                    _ => doc! {"$count": "n"},
                });
            }
            log(format!("aggregate through the index {p:?} on {}", show(&base)));
            let want = model::run_pipeline(&base, &p);
            let got = must(&["C14", "C08"], run_agg(&c, p.clone()), "aggregate")?;
            stat("pipelines through an index");
            ensure!(&["C14", "C08"], same_list(&got, &want, false), "aggregate {p:?} on {} gave {} instead of {}", show(&base), show(&got), show(&want));
        }
    }
    // malformed stages are refused
    let bad = match r.below(12) {
        0 => vec![doc! {"$nope": 1}],
        1 => vec![doc! {"$skip": "x"}],
        2 => vec![doc! {"$limit": 1.5}],
        3 => vec![doc! {"$skip": -1}],
        4 => vec![doc! {"$limit": Bson::Int64(-5)}],
        5 => vec![doc! {"$sort": 1}],
        6 => vec![doc! {"$sort": {"a": *r.pick(&[0, 2, 257, -2, 255])}}],
        7 => vec![doc! {"$count": 1}],
        8 => vec![doc! {"$unset": 1}],
        9 => vec![doc! {"$skip": 1, "$limit": 1}],
        10 => vec![doc! {"$limit": 1}, doc! {}],
        _ => vec![doc! {"$match": 5}],
    };
    log(format!("malformed {bad:?}"));
    let mut p = bad.clone();
    if r.chance(1, 3) && !bad[0].contains_key("$match") {
        p.insert(0, doc! {"$match": {}});
    }
    let res = run_agg(&c, p.clone());
    stat("malformed pipelines");
    let tags: &[&'static str] = if bad[0].contains_key("$sort") { &["C14", "C15"] } else { &["C14"] };
    ensure!(tags, res.is_err(), "malformed pipeline {p:?} accepted: {}", show(&res.unwrap_or_default()));
    must(&["C11"], txn.rollback(), "rollback")?;
    Ok(())
}

/// C15 in particular.
pub fn sort_case(db: &mut Db, r: &mut Rng, _i: u64) -> CaseResult {
    let n = r.below(10);
    let mut docs = vec![];
    for i in 0..n {
        let mut d = doc! {"_id": i as i32};
        for f in ["a", "b", "c", "s"] {
            if r.chance(5, 6) {
                let v = match r.below(8) {
                    0 => gen::scalar(r),
                    1 if f == "c" => gen::value(r, 2),
                    _ => Bson::Int32(r.range(0, 2) as i32),
                };
                d.insert(f, v);
            }
        }
        docs.push(d);
    }
    let name = db.fresh();
    log(format!("collection {name} = {}", show(&docs)));
    let txn = db.txn();
    let c = txn.collection::<Document>(&name);
    must(&["C10"], c.insert_many(docs.clone()), "insert_many")?;
    for _ in 0..6 {
        let spec = gen::sort_spec(r);
        log(format!("sort {spec:?}"));
        let got = if r.chance(1, 2) {
            let mut cur = must(&["C15"], c.find(doc! {}).sort(spec.clone()).run(), "find.sort")?;
            let mut out = vec![];
            while must(&["C15"], cur.advance(), "advance")? {
                out.push(must(&["C15"], cur.deserialize_current(), "deserialize")?);
            }
            out
        } else {
            must(&["C15"], run_agg(&c, vec![doc! {"$sort": spec.clone()}]), "$sort")?
        };
        stat("sorts");
        ensure!(&["C15"], same_set(&got, &docs, true), "sort {spec:?} of {} is not a permutation: {}", show(&docs), show(&got));
        // keys without a defined order (arrays, documents) need only come out in some order
        let defined = docs.iter().all(|d| {
            spec.keys().all(|k| match d.get(k) {
                Some(v) => docs.iter().all(|e| e.get(k).map_or(true, |w| model::comparable(v, w))),
                None => true,
            })
        });
        if defined {
            let mut want = docs.clone();
            model::sort_docs(&mut want, &spec);
            stat("sorts with a defined order");
            ensure!(&["C15"], same_list(&got, &want, true), "sort {spec:?} of {} gave {} instead of {}", show(&docs), show(&got), show(&want));
        }
    }
    must(&["C11"], txn.rollback(), "rollback")?;
    Ok(())
}
