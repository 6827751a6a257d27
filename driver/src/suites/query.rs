use super::*;
use crate::ctx::{fail, log, stat, stat_n};
use crate::{ensure, gen};
use polodb_core::bson::{doc, Bson};
use polodb_core::{IndexModel, IndexOptions};
use std::cmp::Ordering;

fn has_op(q: &Document, ops: &[&str]) -> bool {
    q.iter().any(|(k, v)| {
        ops.contains(&k.as_str())
            || match v {
                Bson::Document(d) => has_op(d, ops),
                Bson::Array(xs) if k.starts_with('$') => xs.iter().any(|x| x.as_document().map_or(false, |d| has_op(d, ops))),
                _ => false,
            }
    })
}

pub fn case(db: &mut Db, r: &mut Rng, _i: u64) -> CaseResult {
    let n = *r.pick(&[0usize, 1, 2, 3, 5, 8, 12]);
    let docs = gen::docs(r, n);
    let name = db.fresh();
    log(format!("collection {name} = {}", show(&docs)));
    let txn = db.txn();
    let c = txn.collection::<Document>(&name);
    must(&["C10", "C04"], c.insert_many(docs.clone()), "insert_many")?;
    let base = must(&["C02", "C04"], find_all(&c, doc! {}), "find {}")?;
    ensure!(&["C02", "C04", "C10"], same_set(&base, &docs, true), "find {{}} returned {}", show(&base));
    for _ in 0..8 {
        let q = gen::query(r, &docs, 2, true);
        log(format!("find {q:?}"));
        let want: Vec<Document> = base.iter().filter(|d| model::matches(d, &q)).cloned().collect();
        let got = must(&["C04", "C17"], find_all(&c, q.clone()), &format!("find {q:?}"))?;
        stat("queries");
        if !want.is_empty() {
            stat("queries with results");
        }
        if has_op(&q, &["$or"]) {
            stat("queries with $or");
        }
        if has_op(&q, &["$not"]) {
            stat("queries with $not");
        }
        ensure!(&["C04"], same_list(&got, &want, true), "find {q:?} on {} returned {} instead of {}", show(&base), show(&got), show(&want));

        match r.below(6) {
            0 => {
                let one = must(&["C23", "C04"], c.find_one(q.clone()), "find_one")?;
                let ok = match &one {
                    None => want.is_empty(),
                    Some(d) => want.iter().any(|w| model::same_doc(w, d, true)),
                };
                stat("find_one");
                ensure!(&["C23", "C04"], ok, "find_one {q:?} returned {one:?}, find returns {}", show(&want));
            }
            1 | 2 => {
                let skip = if r.chance(2, 3) { Some(window(r, n)) } else { None };
                let limit = if r.chance(2, 3) { Some(window(r, n)) } else { None };
                let spec = gen::sort_spec(r);
                let defined = want.iter().all(|d| {
                    spec.keys().all(|k| match d.get(k) {
                        Some(v) => want.iter().all(|e| e.get(k).map_or(true, |w| model::comparable(v, w))),
                        None => true,
                    })
                });
                let sort = if defined && r.chance(1, 2) { Some(spec) } else { None };
                let mut ordered = want.clone();
                let mut f = c.find(q.clone());
                if let Some(spec) = &sort {
                    model::sort_docs(&mut ordered, spec);
                    f = f.sort(spec.clone());
                }
                if let Some(s) = skip {
                    f = f.skip(s);
                }
                if let Some(l) = limit {
                    f = f.limit(l);
                }
                log(format!("find sort {sort:?} skip {skip:?} limit {limit:?}"));
                let mut cur = must(&["C23"], f.run(), "find skip/limit")?;
                let mut got = vec![];
                while must(&["C23"], cur.advance(), "advance")? {
                    got.push(must(&["C23"], cur.deserialize_current(), "deserialize")?);
                }
                let want2: Vec<Document> = ordered.iter().skip(skip.unwrap_or(0).min(1 << 40) as usize).take(limit.unwrap_or(u64::MAX).min(1 << 40) as usize).cloned().collect();
                stat("skip/limit");
                ensure!(&["C23", "C14"], same_list(&got, &want2, true), "find {q:?} sort {sort:?} skip {skip:?} limit {limit:?} returned {} instead of {}", show(&got), show(&want2));
            }
            3 => {
                let n1 = must(&["C23"], c.count_documents(), "count_documents")?;
                ensure!(&["C23"], n1 == base.len() as u64, "count_documents says {n1}, stored {}", base.len());
            }
            _ => {}
        }
    }
    // what the same queries select for update and delete
    let q = gen::query(r, &docs, 2, true);
    let want: Vec<Document> = base.iter().filter(|d| model::matches(d, &q)).cloned().collect();
    if r.chance(1, 2) {
        log(format!("update_many {q:?} $set zz"));
        let res = must(&["C23", "C06", "C04"], c.update_many(q.clone(), doc! {"$set": {"zz": 77}}), "update_many")?;
        ensure!(&["C23", "C04"], res.matched_count == want.len() as u64, "update_many {q:?} matched {} documents instead of {}", res.matched_count, want.len());
        ensure!(&["C23"], res.modified_count == want.len() as u64, "update_many {q:?} modified {} documents instead of {}", res.modified_count, want.len());
        let after = must(&["C06"], find_all(&c, doc! {}), "find {}")?;
        let exp: Vec<Document> = base
            .iter()
            .map(|d| {
                let mut d = d.clone();
                if model::matches(&d, &q) {
                    d.insert("zz", 77);
                }
                d
            })
            .collect();
        stat("update_many");
        ensure!(&["C06"], same_list(&after, &exp, false), "after update_many {q:?}: {} instead of {}", show(&after), show(&exp));
    } else {
        let many = r.chance(2, 3);
        log(format!("delete many={many} {q:?}"));
        let res = if many { c.delete_many(q.clone()) } else { c.delete_one(q.clone()) };
        let res = must(&["C13"], res, "delete")?;
        let expn = if many { want.len() } else { want.len().min(1) };
        stat("delete");
        stat_n("deleted", expn as u64);
        ensure!(&["C13"], res.deleted_count == expn as u64, "delete {q:?} (many={many}) reported {} instead of {expn}", res.deleted_count);
        let after = must(&["C13"], find_all(&c, doc! {}), "find {}")?;
        let removed: Vec<Document> = base.iter().filter(|d| !after.iter().any(|a| model::same_doc(a, d, true))).cloned().collect();
        ensure!(
            &["C13"],
            after.len() + expn == base.len() && removed.len() == expn && removed.iter().all(|d| model::matches(d, &q)),
            "delete {q:?} (many={many}) removed {} from {}; matching: {}",
            show(&removed),
            show(&base),
            show(&want)
        );
    }
    must(&["C11"], txn.rollback(), "rollback")?;
    Ok(())
}

/// C05: single membership conditions, including the negated and nested forms.
pub fn member_case(db: &mut Db, r: &mut Rng, _i: u64) -> CaseResult {
    let n = 1 + r.below(6);
    let mut docs = vec![];
    for i in 0..n {
        let mut d = doc! {"_id": i as i32};
        if r.chance(9, 10) {
            d.insert("v", if r.chance(1, 12) { rare(r) } else { gen::value(r, 3) });
        }
        if r.chance(1, 2) {
            d.insert("w", doc! {"x": gen::value(r, 2)});
        }
        docs.push(d);
    }
    let name = db.fresh();
    log(format!("collection {name} = {}", show(&docs)));
    let txn = db.txn();
    let c = txn.collection::<Document>(&name);
    must(&["C10"], c.insert_many(docs.clone()), "insert_many")?;
    for _ in 0..10 {
        let p = *r.pick(&["v", "v", "v", "w.x"]);
        let list: Vec<Bson> = (0..*r.pick(&[0usize, 1, 1, 2, 3]))
            .filter_map(|_| {
                let d = r.pick(&docs);
                let v = match r.below(10) {
                    0 => gen::regex_value(r),
                    1 => Bson::Null,
                    2..=4 => model::path_value(d, p).unwrap_or(Bson::Null),
                    5..=6 => match model::path_value(d, p) {
                        Some(Bson::Array(xs)) if !xs.is_empty() => r.pick(&xs).clone(),
                        _ => gen::common(r),
                    },
                    7..=8 => recast(r, &model::path_value(d, p).unwrap_or(Bson::Null)),
                    _ => gen::value(r, 2),
                };
                match &v {
                    Bson::Document(d) if d.keys().next().map_or(false, |k| k.starts_with('$')) => None,
                    _ => Some(v),
                }
            })
            .collect();
        let op = *r.pick(&["$in", "$nin", "$all"]);
        let inner = doc! {op: list};
        let q = match r.below(5) {
            0 => doc! {p: {"$not": inner}},
            1 => doc! {"$or": [{p: inner}]},
            2 => doc! {p: inner, "_id": {"$gte": 0}},
            _ => doc! {p: inner},
        };
        log(format!("find {q:?}"));
        let want: Vec<Document> = docs.iter().filter(|d| model::matches(d, &q)).cloned().collect();
        let got = must(&["C05", "C04"], find_all(&c, q.clone()), &format!("find {q:?}"))?;
        stat(op);
        if !want.is_empty() && want.len() < docs.len() {
            stat("discriminating");
        }
        ensure!(&["C05", "C04"], same_set(&got, &want, true), "find {q:?} on {} returned {} instead of {}", show(&docs), show(&got), show(&want));
    }
    must(&["C11"], txn.rollback(), "rollback")?;
    Ok(())
}

/// Kinds of values seldom stored.
fn rare(r: &mut Rng) -> Bson {
    let code = *r.pick(&["f", "g"]);
    let v = match r.below(3) {
        0 => Bson::JavaScriptCode(code.into()),
        _ => {
            let mut scope = Document::new();
            for k in ["x", "y"] {
                if r.chance(1, 2) {
                    scope.insert(k, gen::common(r));
                }
            }
            Bson::JavaScriptCodeWithScope(polodb_core::bson::JavaScriptCodeWithScope { code: code.into(), scope })
        }
    };
    if r.chance(1, 4) { Bson::Array(vec![v]) } else { v }
}

/// The same value in a neighbouring representation: another numeric type, one step off, string/symbol, reordered fields.
fn recast(r: &mut Rng, v: &Bson) -> Bson {
    match v {
        Bson::Int32(i) => match r.below(4) {
            0 => Bson::Int64(*i as i64),
            1 => Bson::Double(*i as f64),
            2 => Bson::Int32(i.wrapping_add(1)),
            _ => Bson::Double(*i as f64 + 0.5),
        },
        Bson::Int64(i) => match r.below(4) {
            0 => Bson::Double(*i as f64),
            1 => Bson::Int64(i.wrapping_add(1)),
            2 => Bson::Int32(*i as i32),
            _ => Bson::Double((*i as f64) * 2.0),
        },
        Bson::Double(d) => match r.below(4) {
            0 => Bson::Int64(*d as i64),
            1 => Bson::Int32(*d as i32),
            2 => Bson::Double(-d),
            _ => Bson::Int64((*d as i64).wrapping_add(1)),
        },
        Bson::String(s) => {
            if r.chance(1, 2) {
                Bson::Symbol(s.clone())
            } else {
                Bson::String(format!("{s}\0"))
            }
        }
        Bson::Symbol(s) => Bson::String(s.clone()),
        Bson::Boolean(b) => Bson::Int32(*b as i32),
        Bson::Array(xs) => {
            let mut ys: Vec<Bson> = xs.clone();
            match r.below(4) {
                0 => ys.reverse(),
                1 => {
                    ys.pop();
                }
                2 if !ys.is_empty() => {
                    let k = r.below(ys.len());
                    ys[k] = recast(r, &ys[k].clone());
                }
                _ => ys.push(Bson::Null),
            }
            Bson::Array(ys)
        }
        Bson::Document(d) => {
            let mut items: Vec<(String, Bson)> = d.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            match r.below(4) {
                0 => items.reverse(),
                1 => {
                    items.pop();
                }
                2 if !items.is_empty() => {
                    let k = r.below(items.len());
                    items[k].1 = recast(r, &items[k].1.clone());
                }
                _ => items.push(("q".into(), Bson::Null)),
            }
            Bson::Document(items.into_iter().collect())
        }
        Bson::JavaScriptCodeWithScope(c) => {
            let mut c = c.clone();
            match r.below(3) {
                0 => c.code.push('x'),
                _ => {
                    if let Bson::Document(scope) = recast(r, &Bson::Document(c.scope.clone())) {
                        c.scope = scope;
                    }
                }
            }
            Bson::JavaScriptCodeWithScope(c)
        }
        Bson::Binary(b) => {
            let mut b = b.clone();
            if r.chance(1, 2) {
                b.bytes.push(0);
            } else {
                b.subtype = polodb_core::bson::spec::BinarySubtype::UserDefined(0x80);
            }
            Bson::Binary(b)
        }
        other => other.clone(),
    }
}

/// C03: comparison operators and $min/$max against the exact order, pairwise.
pub fn order_case(db: &mut Db, r: &mut Rng, _i: u64) -> CaseResult {
    let n = 6;
    let vals: Vec<Bson> = (0..n)
        .map(|_| match r.below(4) {
            0 => Bson::Int64(*r.pick(gen::I64S)),
            1 => Bson::Double(*r.pick(&gen::f64s())),
            _ => gen::scalar(r),
        })
        .collect();
    let docs: Vec<Document> = vals.iter().enumerate().map(|(i, v)| doc! {"_id": i as i32, "v": v.clone()}).collect();
    let name = db.fresh();
    log(format!("collection {name} = {}", show(&docs)));
    let txn = db.txn();
    let c = txn.collection::<Document>(&name);
    must(&["C10"], c.insert_many(docs.clone()), "insert_many")?;
    for arg in &vals {
        for op in ["$eq", "$ne", "$gt", "$gte", "$lt", "$lte"] {
            let q = doc! {"v": {op: arg.clone()}};
            let want: Vec<Document> = docs.iter().filter(|d| model::matches(d, &q)).cloned().collect();
            let got = must(&["C03", "C04"], find_all(&c, q.clone()), &format!("find {q:?}"))?;
            stat("comparisons");
            ensure!(&["C03", "C04"], same_list(&got, &want, true), "find {q:?} returned {} instead of {}", show(&got), show(&want));
        }
    }
    for dir in [1, -1] {
        let mut cur = must(&["C03", "C15"], c.find(doc! {}).sort(doc! {"v": dir}).run(), "sort")?;
        let mut got: Vec<Document> = vec![];
        while must(&["C03", "C15"], cur.advance(), "advance")? {
            got.push(must(&["C15"], cur.deserialize_current(), "deserialize")?);
        }
        let mut want = docs.clone();
        model::sort_docs(&mut want, &doc! {"v": dir});
        stat("sorts");
        ensure!(&["C03", "C15"], same_list(&got, &want, true), "sort {dir} of {} gave {}", show(&docs), show(&got));
    }
    let op = if r.chance(1, 2) { "$min" } else { "$max" };
    let arg = r.pick(&vals).clone();
    log(format!("update_many {op} v {arg:?}"));
    let res = must(&["C03", "C06"], c.update_many(doc! {}, doc! {op: {"v": arg.clone()}}), "update")?;
    let after = must(&["C06"], find_all(&c, doc! {}), "find")?;
    let mut changed = 0;
    for (d, a) in docs.iter().zip(&after) {
        let cur = d.get("v").unwrap();
        let o = model::cmp(&arg, cur);
        let replace = if op == "$min" { o == Ordering::Less } else { o == Ordering::Greater };
        let want = if replace { &arg } else { cur };
        changed += replace as u64;
        ensure!(&["C03", "C06"], model::same(a.get("v").unwrap(), want, true), "{op} {arg:?} on {cur:?} gave {:?}", a.get("v"));
    }
    stat("min/max");
    ensure!(&["C23"], res.matched_count == n as u64 && res.modified_count == changed, "{op} {arg:?} on {}: matched {} modified {}, expected {n} and {changed}", show(&docs), res.matched_count, res.modified_count);
    must(&["C11"], txn.rollback(), "rollback")?;
    Ok(())
}

fn typed(r: &mut Rng, t: usize) -> Bson {
    match t {
        0 => Bson::Int32(r.range(-2, 4) as i32),
        1 => Bson::String(r.pick(gen::STRS).to_string()),
        2 => Bson::ObjectId(gen::oid(r.below(3) as u8)),
        3 => match r.below(4) {
            0 => Bson::Null,
            1 => Bson::Boolean(r.chance(1, 2)),
            2 => Bson::String(r.pick(&["a", "ab", "a\0"]).to_string()),
            _ => Bson::Int32(r.range(0, 2) as i32),
        },
        _ => Bson::Int64(*r.pick(gen::I64S)),
    }
}

/// C08: the same queries with and without an index give the same documents.
pub fn index_case(db: &mut Db, r: &mut Rng, _i: u64) -> CaseResult {
    let n = r.below(9);
    let t = r.below(5);
    let field = *r.pick(&["a", "b", "d.x"]);
    let mut docs = vec![];
    for i in 0..n {
        let mut d = doc! {"_id": if r.chance(1, 4) { Bson::String(format!("k{i}\0")) } else { Bson::Int32(i as i32) }};
        if r.chance(5, 6) {
            let v = typed(r, t);
            match field {
                "d.x" => {
                    d.insert("d", doc! {"x": v, "y": 1});
                }
                f => {
                    d.insert(f, v);
                }
            }
        }
        d.insert("w", r.range(0, 2) as i32);
        docs.push(d);
    }
    let (na, nb) = (db.fresh(), db.fresh());
    log(format!("collection {na} (indexed on {field}) and {nb} = {}", show(&docs)));
    let txn = db.txn();
    let (a, b) = (txn.collection::<Document>(&na), txn.collection::<Document>(&nb));
    let named = r.chance(1, 3);
    let idx = || IndexModel {
        keys: doc! {field: 1},
        options: if named { Some(IndexOptions { name: Some("idx name".into()), unique: None }) } else { None },
    };
    let before = r.chance(1, 2);
    if before {
        must(&["C08", "C16"], a.create_index(idx()), "create_index")?;
    }
    must(&["C10"], a.insert_many(docs.clone()), "insert_many")?;
    must(&["C10"], b.insert_many(docs.clone()), "insert_many")?;
    if !before {
        must(&["C08", "C16"], a.create_index(idx()), "create_index")?;
    }
    log(format!("index created before insert: {before}"));
    for step in 0..12 {
        let known = docs.iter().filter_map(|d| model::path_value(d, field)).collect::<Vec<_>>();
        let v = if known.is_empty() || r.chance(1, 3) { typed(r, t) } else { r.pick(&known).clone() };
        if step % 4 == 3 {
            // change both in the same way
            let w = typed(r, t);
            match r.below(4) {
                0 => {
                    log(format!("update {{w: 1}} set {field}"));
                    let key = if field == "d.x" { "d" } else { field };
                    let val = if field == "d.x" { Bson::Document(doc! {"x": w}) } else { w };
                    for c in [&a, &b] {
                        must(&["C08", "C06"], c.update_many(doc! {"w": 1}, doc! {"$set": {key: val.clone()}}), "update")?;
                    }
                }
                1 => {
                    log("delete {w: 2}");
                    for c in [&a, &b] {
                        must(&["C08", "C13"], c.delete_many(doc! {"w": 2}), "delete")?;
                    }
                }
                2 => {
                    let key = if field == "d.x" { "d" } else { field };
                    log(format!("unset {key} on w = 0"));
                    for c in [&a, &b] {
                        must(&["C08", "C06"], c.update_many(doc! {"w": 0}, doc! {"$unset": {key: ""}}), "update")?;
                    }
                }
                _ => {
                    log(format!("delete by {field} = {v:?}"));
                    for c in [&a, &b] {
                        must(&["C08", "C13"], c.delete_many(doc! {field: v.clone()}), "delete")?;
                    }
                }
            }
            continue;
        }
        let q = match r.below(7) {
            0..=3 => doc! {field: v},
            4 => doc! {field: {"$eq": v}},
            5 => doc! {"$and": [{field: v}, {"w": 1}]},
            _ => doc! {field: {"$gte": v}},
        };
        log(format!("find {q:?}"));
        let ga = must(&["C08"], find_all(&a, q.clone()), &format!("find {q:?} with index"))?;
        let gb = must(&["C08"], find_all(&b, q.clone()), &format!("find {q:?} without index"))?;
        stat("compared queries");
        if !gb.is_empty() {
            stat("non-empty");
        }
        ensure!(&["C08"], same_set(&ga, &gb, true), "find {q:?} with an index on {field} returned {}, without {}", show(&ga), show(&gb));
        // aggregation through the index
        if r.chance(1, 3) {
            let run = |c: &polodb_core::TransactionalCollection<Document>| -> Result<Vec<Document>> {
                let mut cur = c.aggregate(vec![doc! {"$match": q.clone()}, doc! {"$sort": {"w": 1, "_id": 1}}]).run()?;
                let mut out = vec![];
                while cur.advance()? {
                    out.push(cur.deserialize_current()?);
                }
                Ok(out)
            };
            let ga = must(&["C08", "C14"], run(&a), "aggregate with index")?;
            let gb = must(&["C08", "C14"], run(&b), "aggregate without index")?;
            stat("compared aggregations");
            ensure!(&["C08", "C14"], same_list(&ga, &gb, true), "aggregate $match {q:?} $sort with an index returned {}, without {}", show(&ga), show(&gb));
        }
        if r.chance(1, 4) {
            // remaining conditions: exact, or the recorded early stop (see known findings)
            let q2 = {
                let mut q2 = doc! {};
                if r.chance(1, 2) {
                    q2.insert("w", 1);
                    q2.extend(q.clone());
                } else {
                    q2.extend(q.clone());
                    q2.insert("w", doc! {"$gt": 0});
                }
                q2
            };
            let ga2 = must(&["C08"], find_all(&a, q2.clone()), "find with index and another condition")?;
            let full: Vec<Document> = gb.iter().filter(|d| model::matches(d, &q2)).cloned().collect();
            let first: Vec<Document> = ga.iter().take_while(|d| model::matches(d, &q2)).cloned().collect();
            stat("index plus remaining conditions");
            if !(same_set(&ga2, &full, true) || same_list(&ga2, &first, true)) {
                return fail(&["C08", "C04"], format!("find {q2:?} with an index on {field} returned {}; without index {}", show(&ga2), show(&full)));
            }
        }
    }
    must(&["C11"], txn.rollback(), "rollback")?;
    Ok(())
}

/// a number of documents to skip or to return, seldom one beyond the machine integers
fn window(r: &mut Rng, n: usize) -> u64 {
    if r.chance(1, 12) {
        *r.pick(&[1 << 31, (1 << 31) + 1, 1 << 32, (1 << 32) + 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX, u64::MAX - 1])
    } else {
        r.below(n + 2) as u64
    }
}
