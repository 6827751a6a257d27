//! Histories of operations over several collections, in and out of explicit transactions, against a model of the
//! whole database; with hooks, also the raw key set of the store.
use super::*;
use crate::ctx::{fail, log, stat};
use crate::{ensure, gen};
use polodb_core::bson::{doc, Bson};
use polodb_core::options::UpdateOptions;
use polodb_core::{Error, IndexModel, IndexOptions, Transaction};
use std::collections::BTreeMap;

#[derive(Clone, Default)]
struct Coll {
    docs: BTreeMap<Vec<u8>, Document>,
    /// name -> (field, unique)
    idx: Vec<(String, String, bool)>,
}

type World = BTreeMap<String, Coll>;

#[derive(Debug, Clone, Copy, PartialEq)]
enum No {
    Dup,
    Other,
}

impl Coll {
    /// May `d` be stored under `key` beside everything but the document at `key`?
    fn admits(&self, key: &[u8], d: &Document) -> std::result::Result<(), No> {
        for (_, f, uniq) in &self.idx {
            if let Some(v) = model::path_value(d, f) {
                let Some(kv) = model::encode_all(&[v]) else { return Err(No::Other) };
                if *uniq {
                    for (k2, d2) in &self.docs {
                        if k2 == key {
                            continue;
                        }
                        if model::path_value(d2, f).and_then(|v2| model::encode_all(&[v2])) == Some(kv.clone()) {
                            return Err(No::Dup);
                        }
                    }
                }
            }
        }
        Ok(())
    }

    fn insert(&mut self, d: &Document) -> std::result::Result<(), No> {
        let Some(key) = model::encode_all(&[d.get("_id").unwrap().clone()]) else { return Err(No::Other) };
        if self.docs.contains_key(&key) {
            return Err(No::Dup);
        }
        self.admits(&key, d)?;
        self.docs.insert(key, d.clone());
        Ok(())
    }

    fn all(&self) -> Vec<Document> {
        self.docs.values().cloned().collect()
    }

    fn matching(&self, q: &Document) -> Vec<Vec<u8>> {
        self.docs.iter().filter(|(_, d)| model::matches(d, q)).map(|(k, _)| k.clone()).collect()
    }
}

fn names(stem: &str) -> Vec<String> {
    vec![stem.to_string(), format!("{stem}a"), format!("{stem}\0"), format!("{stem} é")]
}

fn idval(r: &mut Rng) -> Bson {
    match r.below(8) {
        0..=4 => Bson::Int32(r.range(0, 9) as i32),
        5 => Bson::String(r.pick(&["", "a", "a\0", "ab", "\0"]).to_string()),
        6 => Bson::ObjectId(gen::oid(r.below(3) as u8)),
        _ => match r.below(6) {
            0 => Bson::Undefined,
            1 => Bson::Double(0.5),
            2 => Bson::DateTime(polodb_core::bson::DateTime::from_millis(r.range(-2, 2))),
            3 => Bson::Timestamp(polodb_core::bson::Timestamp { time: r.below(2) as u32, increment: *r.pick(&[0u32, 1, u32::MAX]) }),
            4 => Bson::Symbol("a".into()),
            _ => Bson::Boolean(r.chance(1, 2)),
        },
    }
}

fn fieldval(r: &mut Rng, f: &str) -> Bson {
    match f {
        "a" => match r.below(12) {
            0 => Bson::Null,
            1 => Bson::Array(vec![Bson::Int32(1)]),
            _ => Bson::Int32(r.range(0, 4) as i32),
        },
        "s" => Bson::String(r.pick(&["", "x", "x\0", "xy", "y", "x\u{1}"]).to_string()),
        _ => match r.below(4) {
            0 => Bson::Boolean(true),
            1 => Bson::String("x".into()),
            _ => Bson::Int32(r.range(0, 2) as i32),
        },
    }
}

fn newdoc(r: &mut Rng) -> Document {
    let mut d = Document::new();
    match r.below(8) {
        0 => {}
        1 => {
            d.insert("_id", Bson::Null);
        }
        _ => {
            d.insert("_id", idval(r));
        }
    }
    for f in ["a", "s"] {
        if r.chance(3, 4) {
            d.insert(f, fieldval(r, f));
        }
    }
    if r.chance(1, 2) {
        d.insert("d", doc! {"x": fieldval(r, "d.x"), "y": 1});
    }
    if r.chance(1, 4) {
        d.insert("extra", gen::value(r, 2));
    }
    d
}

fn q(r: &mut Rng, c: &Coll) -> Document {
    let docs = c.all();
    match r.below(8) {
        0 => doc! {},
        1 => doc! {"_id": if docs.is_empty() || r.chance(1, 4) { idval(r) } else { r.pick(&docs).get("_id").unwrap().clone() }},
        2 => doc! {"_id": idval(r), "a": fieldval(r, "s")},
        3 => doc! {"a": {"$gte": r.range(0, 4) as i32}},
        4 => doc! {"a": {"$in": [r.range(0, 4) as i32, Bson::Null]}},
        5 => doc! {"$or": [{"a": r.range(0, 4) as i32}, {"s": fieldval(r, "s")}]},
        6 => doc! {"s": {"$gt": fieldval(r, "s")}, "a": {"$lt": 3}},
        _ => doc! {"d.x": {"$eq": r.range(0, 2) as i32}},
    }
}

/// conditions of every form on several fields, most of which match nothing
fn upsert_query(r: &mut Rng) -> Document {
    let mut d = Document::new();
    for _ in 0..1 + r.below(3) {
        let f = *r.pick(&["a", "s", "t", "_id", "u"]);
        let v = match f {
            "a" | "s" => fieldval(r, f),
            "_id" => idval(r),
            _ => Bson::Int32(r.range(0, 9) as i32),
        };
        let v = if f == "a" && !matches!(v, Bson::Int32(_)) { Bson::Int32(7) } else { v };
        let cond = match r.below(8) {
            0 | 1 => v,
            2 | 3 => doc! {"$eq": v}.into(),
            4 => doc! {"$eq": v.clone(), "$gte": v}.into(),
            5 => doc! {"$in": [v.clone()], "$eq": v}.into(),
            6 => doc! {"$gt": v}.into(),
            _ => doc! {"$in": [v]}.into(),
        };
        d.insert(f, cond);
    }
    if r.chance(1, 6) {
        d.insert("$and", vec![doc! {"u": {"$eq": 77}}]);
    }
    d
}

fn upsert_update(r: &mut Rng) -> Document {
    let mut d = Document::new();
    for _ in 0..1 + r.below(3) {
        let f = *r.pick(&["a", "s", "t", "u", "w"]);
        let v = if matches!(f, "a" | "s") { fieldval(r, f) } else { Bson::Int32(r.range(0, 9) as i32) };
        d.insert(f, v);
    }
    let mut u = doc! {"$set": d};
    if r.chance(1, 6) {
        u.insert("$inc", doc! {"cnt": 1});
    }
    u
}

fn upd(r: &mut Rng) -> Document {
    match r.below(10) {
        0 | 1 => doc! {"$set": {"a": fieldval(r, "a")}},
        2 => doc! {"$set": {"s": fieldval(r, "s"), "t": 1}},
        3 => doc! {"$set": {"d": {"x": fieldval(r, "d.x")}}},
        4 => doc! {"$unset": {"a": ""}},
        5 => doc! {"$inc": {"a": 1}},
        6 => doc! {"$rename": {"s": "s2"}},
        7 => doc! {"$unset": {"d": ""}},
        8 => doc! {"$push": {"l": r.range(0, 3) as i32}},
        _ => doc! {"$set": {"a": r.range(0, 4) as i32}, "$inc": {"cnt": 1}},
    }
}

enum At<'a> {
    Db(&'a Db),
    Txn(&'a Transaction),
}

macro_rules! with {
    ($at:expr, $name:expr, $c:ident, $e:expr) => {
        match $at {
            At::Db(db) => {
                let $c = db.get().collection::<Document>($name);
                $e
            }
            At::Txn(t) => {
                let $c = t.collection::<Document>($name);
                $e
            }
        }
    };
}

fn is_dup(e: &Error) -> bool {
    matches!(e, Error::DuplicateKey(_))
}

fn view(at: &At, name: &str) -> Result<(Vec<Document>, u64)> {
    with!(at, name, c, {
        let d = find_all(&c, doc! {})?;
        let n = c.count_documents()?;
        Ok((d, n))
    })
}

fn check_coll(at: &At, name: &str, w: &World, tags: &[&'static str], after: &str) -> CaseResult {
    let (got, n) = must(tags, view(at, name), &format!("find {{}} in {name:?} after {after}"))?;
    let want = w.get(name).map(|c| c.all()).unwrap_or_default();
    let mut t: Vec<&'static str> = tags.to_vec();
    t.push("C02");
    if !same_list(&got, &want, false) {
        return fail(&t, format!("after {after}: {name:?} holds {} instead of {}", show(&got), show(&want)));
    }
    let mut t: Vec<&'static str> = tags.to_vec();
    t.push("C23");
    ensure!(&t, n == want.len() as u64, "after {after}: count_documents of {name:?} is {n}, stored {}", want.len());
    Ok(())
}

#[cfg(feature = "hooks")]
fn raw_check(dump: Vec<(Vec<u8>, Vec<u8>)>, w: &World, mine: &[String], tags: &[&'static str], after: &str) -> CaseResult {
    use polodb_core::bson;
    let s = |x: &str| Bson::String(x.to_string());
    let mut want: BTreeMap<Vec<u8>, Option<Document>> = BTreeMap::new();
    for (name, c) in w {
        want.insert(model::encode_all(&[s("$TABLE_META"), s(name)]).unwrap(), None);
        for (k, d) in &c.docs {
            let mut key = model::encode_all(&[s(name)]).unwrap();
            key.extend_from_slice(k);
            want.insert(key, Some(d.clone()));
            for (iname, f, _) in &c.idx {
                if let Some(v) = model::path_value(d, f) {
                    let key = model::encode_all(&[s("$I"), s(name), s(iname), v, d.get("_id").unwrap().clone()]);
                    if let Some(key) = key {
                        want.insert(key, None);
                    }
                }
            }
        }
    }
    // only this case's collections
    let prefixes: Vec<Vec<u8>> = mine
        .iter()
        .flat_map(|n| [model::encode_all(&[s("$TABLE_META"), s(n)]).unwrap(), model::encode_all(&[s(n)]).unwrap(), model::encode_all(&[s("$I"), s(n)]).unwrap()])
        .collect();
    let mut seen = 0;
    for (k, v) in &dump {
        if !prefixes.iter().any(|p| k.starts_with(p)) {
            continue;
        }
        seen += 1;
        match want.get(k) {
            None => return fail(tags, format!("after {after}: the store holds an entry it should not: {k:02x?}")),
            Some(None) => {}
            Some(Some(d)) => {
                let got = bson::from_slice::<Document>(v).map_err(|e| crate::ctx::Failure { tags: tags.to_vec(), what: format!("after {after}: undecodable document: {e}") })?;
                ensure!(tags, model::same_doc(&got, d, false), "after {after}: the store holds {got:?} instead of {d:?}");
            }
        }
    }
    stat("raw store checks");
    if seen != want.len() {
        let missing: Vec<_> = want.keys().filter(|k| !dump.iter().any(|(x, _)| x == *k)).collect();
        return fail(tags, format!("after {after}: the store lacks entries: {missing:02x?}"));
    }
    Ok(())
}

#[cfg(not(feature = "hooks"))]
fn raw_check(_dump: (), _w: &World, _mine: &[String], _tags: &[&'static str], _after: &str) -> CaseResult {
    Ok(())
}

#[cfg(feature = "hooks")]
fn dump(at: &At) -> Vec<(Vec<u8>, Vec<u8>)> {
    match at {
        At::Db(db) => polodb_core::verif::dump(db.get()),
        At::Txn(t) => polodb_core::verif::dump_txn(t),
    }
}

#[cfg(not(feature = "hooks"))]
fn dump(_at: &At) {}

pub fn case(db: &mut Db, r: &mut Rng, _i: u64) -> CaseResult {
    let stem = db.fresh();
    let ns = {
        let all = names(&stem);
        all[..1 + r.below(all.len())].to_vec()
    };
    let foreign = must(&["C16"], db.get().list_collection_names(), "list")?.into_iter().filter(|n| !ns.contains(n)).count();
    let mut w: World = World::new();
    let mut txn: Option<(Transaction, World)> = None;
    let steps = 6 + r.below(14);
    for _ in 0..steps {
        // transaction control
        if txn.is_none() && r.chance(1, 6) {
            log("start_transaction");
            txn = Some((db.txn(), w.clone()));
            stat("transactions");
            continue;
        }
        if txn.is_some() && r.chance(1, 6) {
            let (t, tw) = txn.take().unwrap();
            let what = match r.below(3) {
                0 => {
                    must(&["C11"], t.commit(), "commit")?;
                    w = tw;
                    "commit"
                }
                1 => {
                    must(&["C11"], t.rollback(), "rollback")?;
                    "rollback"
                }
                _ => "drop of the transaction",
            };
            log(what);
            drop(t);
            stat(what);
            for n in &ns {
                check_coll(&At::Db(db), n, &w, &["C11"], what)?;
            }
            raw_check(dump(&At::Db(db)), &w, &ns, &["C11", "C08"], what)?;
            list_check(db, &ns, &w, foreign, &["C11", "C16"], what)?;
            continue;
        }
        if txn.is_none() && r.chance(1, 40) {
            log("reopen");
            db.reopen();
            stat("reopen");
            for n in &ns {
                check_coll(&At::Db(db), n, &w, &["C11"], "reopen")?;
            }
            continue;
        }
        let name = r.pick(&ns).clone();
        let in_txn = txn.is_some();
        let mut cw = match &txn {
            Some((_, tw)) => tw.clone(),
            None => w.clone(),
        };
        let at = match &txn {
            Some((t, _)) => At::Txn(t),
            None => At::Db(db),
        };
        let (desc, tags) = step(r, &at, &name, &mut cw)?;
        log(desc.clone());
        check_coll(&at, &name, &cw, tags, &desc)?;
        let mut rt: Vec<&'static str> = tags.to_vec();
        rt.push("C08");
        raw_check(dump(&at), &cw, &ns, &rt, &desc)?;
        if r.chance(1, 4) {
            for n in &ns {
                check_coll(&at, n, &cw, tags, &desc)?;
            }
        }
        if in_txn {
            // nobody else sees it yet
            let n = r.pick(&ns).clone();
            check_coll(&At::Db(db), &n, &w, &["C11"], "an uncommitted operation (seen from outside)")?;
            txn.as_mut().unwrap().1 = cw;
        } else {
            w = cw;
            list_check(db, &ns, &w, foreign, &["C16"], &desc)?;
        }
    }
    drop(txn);
    for n in &ns {
        check_coll(&At::Db(db), n, &w, &["C11"], "the last step")?;
    }
    // every document can be read back by its id
    for (n, c) in &w {
        for d in c.docs.values() {
            let id = d.get("_id").unwrap().clone();
            let got = must(&["C10"], find_all(&db.get().collection::<Document>(n), doc! {"_id": id.clone()}), "find by _id")?;
            ensure!(&["C10"], same_list(&got, std::slice::from_ref(d), false), "find by _id {id:?} returned {}", show(&got));
        }
    }
    Ok(())
}

fn list_check(db: &Db, ns: &[String], w: &World, foreign: usize, tags: &[&'static str], after: &str) -> CaseResult {
    let got = must(tags, db.get().list_collection_names(), "list_collection_names")?;
    let mut mine: Vec<String> = got.iter().filter(|n| ns.contains(n)).cloned().collect();
    mine.sort();
    let want: Vec<String> = w.keys().cloned().collect();
    ensure!(tags, mine == want, "after {after}: collections listed {mine:?} instead of {want:?}");
    ensure!(tags, got.len() == mine.len() + foreign, "after {after}: other collections appeared or vanished: {got:?}");
    Ok(())
}

type Step = std::result::Result<(String, &'static [&'static str]), crate::ctx::Failure>;

fn step(r: &mut Rng, at: &At, name: &str, w: &mut World) -> Step {
    let exists = w.contains_key(name);
    let cur = w.get(name).cloned().unwrap_or_default();
    let mut kind = r.below(24);
    if r.chance(1, 3) {
        // more of what the property is about
        kind = match crate::ctx::wanted().as_str() {
            "C06" | "C22" => 9 + r.below(4),
            "C09" => r.below(13),
            "C10" => r.below(9),
            "C13" => 13 + r.below(3),
            "C16" => 16 + r.below(6),
            _ => kind,
        };
    }
    match kind {
        0..=5 => {
            let d = newdoc(r);
            let desc = format!("insert_one into {name:?}: {d:?}");
            let tags: &[&str] = &["C10", "C09", "C11"];
            let res = with!(at, name, c, c.insert_one(d.clone()));
            stat("insert_one");
            let mut next = cur.clone();
            match res {
                Ok(x) => {
                    let mut stored = d.clone();
                    if matches!(d.get("_id"), None | Some(Bson::Null)) {
                        ensure!(&["C10"], matches!(x.inserted_id, Bson::ObjectId(_)), "{desc}: inserted_id {:?}", x.inserted_id);
                        stored.insert("_id", x.inserted_id.clone());
                    } else {
                        ensure!(&["C10"], model::same(&x.inserted_id, d.get("_id").unwrap(), true), "{desc}: inserted_id {:?}", x.inserted_id);
                    }
                    if let Err(e) = next.insert(&stored) {
                        return fail(&["C09", "C08"], format!("{desc} accepted, expected refusal ({e:?}); stored: {}", show(&cur.all())));
                    }
                    // byte-exact, field order included
                    let got = must(tags, with!(at, name, c, find_all(&c, doc! {"_id": x.inserted_id.clone()})), "find by _id")?;
                    ensure!(&["C10"], same_list(&got, &[stored.clone()], true), "{desc}: read back {}", show(&got));
                    w.insert(name.to_string(), next);
                }
                Err(e) => {
                    stat("refused insert");
                    let mut stored = d.clone();
                    if matches!(d.get("_id"), None | Some(Bson::Null)) {
                        stored.insert("_id", Bson::String("a fresh object id".into()));
                    }
                    match next.insert(&stored) {
                        Ok(()) => return fail(&["C09", "C10"], format!("{desc} refused: {e}; stored: {}", show(&cur.all()))),
                        Err(No::Dup) => ensure!(&["C09"], is_dup(&e), "{desc}: expected a duplicate-key error, got {e}"),
                        Err(No::Other) => {}
                    }
                }
            }
            Ok((desc, tags))
        }
        6..=8 => {
            let docs: Vec<Document> = (0..r.below(4)).map(|_| newdoc(r)).collect();
            let desc = format!("insert_many into {name:?}: {}", show(&docs));
            let res = with!(at, name, c, c.insert_many(docs.clone()));
            stat("insert_many");
            let mut next = cur.clone();
            let mut refused = None;
            let ids = res.as_ref().ok().map(|x| x.inserted_ids.clone());
            if let Some(ids) = &ids {
                ensure!(&["C10"], ids.len() == docs.len(), "{desc}: reported {} ids", ids.len());
            }
            for (i, d) in docs.iter().enumerate() {
                let mut stored = d.clone();
                if matches!(d.get("_id"), None | Some(Bson::Null)) {
                    stored.insert("_id", Bson::String(format!("fresh {i}")));
                    if let Some(ids) = &ids {
                        match ids.get(&i) {
                            Some(b @ Bson::ObjectId(_)) => {
                                stored.insert("_id", b.clone());
                            }
                            other => return fail(&["C10"], format!("{desc}: id {i} is {other:?}")),
                        }
                    }
                } else if let Some(ids) = &ids {
                    ensure!(&["C10"], ids.get(&i).map_or(false, |x| model::same(x, d.get("_id").unwrap(), true)), "{desc}: id {i} is {:?}", ids.get(&i));
                }
                if let Err(e) = next.insert(&stored) {
                    refused = Some(e);
                    break;
                }
            }
            match (&res, refused) {
                (Ok(_), None) => {
                    w.insert(name.to_string(), next);
                }
                (Ok(_), Some(e)) => return fail(&["C09", "C10", "C08"], format!("{desc} accepted, expected refusal ({e:?}); stored: {}", show(&cur.all()))),
                (Err(e), None) => return fail(&["C09", "C10"], format!("{desc} refused: {e}; stored: {}", show(&cur.all()))),
                (Err(e), Some(no)) => {
                    stat("refused insert");
                    ensure!(&["C09"], no != No::Dup || is_dup(e), "{desc}: expected a duplicate-key error, got {e}");
                }
            }
            Ok((desc, &["C10", "C11"]))
        }
        9..=12 => {
            let many = r.chance(1, 2);
            let upsert = r.chance(1, 3);
            let (mut query, mut u) = if upsert && r.chance(1, 2) { (upsert_query(r), upsert_update(r)) } else { (q(r, &cur), upd(r)) };
            let all = cur.all();
            if !all.is_empty() && r.chance(1, 6) {
                // an update that finds the document and changes nothing
                let d = r.pick(&all);
                if r.chance(1, 2) {
                    query = doc! {"_id": d.get("_id").unwrap().clone()};
                }
                u = match (r.below(3), d.get("a")) {
                    (0, Some(v @ Bson::Int32(_))) => doc! {"$max": {"a": v.clone()}},
                    (1, _) => doc! {"$unset": {"nowhere": ""}},
                    (_, Some(v)) => doc! {"$set": {"a": v.clone()}},
                    _ => doc! {"$set": {}},
                };
            }
            let desc = format!("update {name:?} many={many} upsert={upsert} {query:?} {u:?}");
            let opts = || UpdateOptions::builder().upsert(upsert).build();
            let res = with!(at, name, c, {
                match (many, upsert) {
                    (true, false) => c.update_many(query.clone(), u.clone()),
                    (false, false) => c.update_one(query.clone(), u.clone()),
                    (true, true) => c.update_many_with_options(query.clone(), u.clone(), opts()),
                    (false, true) => c.update_one_with_options(query.clone(), u.clone(), opts()),
                }
            });
            stat(if upsert { "update with upsert" } else { "update" });
            let keys = cur.matching(&query);
            let mut refused = None;
            let mut next = cur.clone();
            if many {
                for k in &keys {
                    match one_update(&mut next, k, &u) {
                        Ok(()) => {}
                        Err(e) => {
                            refused = Some(e);
                            break;
                        }
                    }
                }
            }
            if keys.is_empty() {
                if upsert && u.contains_key("$set") {
                    return upsert_check(at, name, w, &cur, &query, &u, res, desc);
                }
                let x = must(&["C22", "C06"], res, &desc)?;
                ensure!(&["C22", "C23"], x.matched_count == 0 && x.modified_count == 0, "{desc}: matched {} modified {}", x.matched_count, x.modified_count);
                return Ok((desc, &["C22", "C06"]));
            }
            if many {
                match (&res, refused) {
                    (Ok(x), None) => {
                        ensure!(&["C23"], x.matched_count == keys.len() as u64, "{desc}: matched {} instead of {}", x.matched_count, keys.len());
                        w.insert(name.to_string(), next);
                    }
                    (Ok(_), Some(e)) => return fail(&["C09", "C06", "C08"], format!("{desc} accepted, expected refusal ({e:?}) on {}", show(&cur.all()))),
                    (Err(e), None) => return fail(&["C06", "C09"], format!("{desc} refused: {e} on {}", show(&cur.all()))),
                    (Err(e), Some(no)) => {
                        stat("refused update");
                        ensure!(&["C09"], no != No::Dup || is_dup(e), "{desc}: expected a duplicate-key error, got {e}");
                    }
                }
                return Ok((desc, &["C06", "C11", "C22"]));
            }
            // update_one: some one of the matching documents
            let options: Vec<std::result::Result<Coll, No>> = keys
                .iter()
                .map(|k| {
                    let mut n = cur.clone();
                    one_update(&mut n, k, &u).map(|_| n)
                })
                .collect();
            match res {
                Err(e) => {
                    stat("refused update");
                    ensure!(&["C06", "C09"], options.iter().any(|o| o.is_err()), "{desc} refused: {e} on {}", show(&cur.all()));
                    ensure!(&["C09"], !is_dup(&e) || options.iter().any(|o| matches!(o, Err(No::Dup))), "{desc}: duplicate-key error without a duplicate");
                }
                Ok(x) => {
                    ensure!(&["C23"], x.matched_count == 1, "{desc}: matched {}", x.matched_count);
                    let (got, _) = must(&["C06"], view(at, name), "find")?;
                    match options.into_iter().flatten().find(|n| same_list(&n.all(), &got, false)) {
                        Some(n) => {
                            w.insert(name.to_string(), n);
                        }
                        None => return fail(&["C06", "C09"], format!("{desc} turned {} into {}", show(&cur.all()), show(&got))),
                    }
                }
            }
            Ok((desc, &["C06", "C11", "C22"]))
        }
        13..=15 => {
            let query = q(r, &cur);
            let many = r.chance(1, 2);
            let desc = format!("delete {name:?} many={many} {query:?}");
            let res = with!(at, name, c, if many { c.delete_many(query.clone()) } else { c.delete_one(query.clone()) });
            let x = must(&["C13"], res, &desc)?;
            stat("delete");
            let keys = cur.matching(&query);
            let expn = if many { keys.len() } else { keys.len().min(1) };
            ensure!(&["C13"], x.deleted_count == expn as u64, "{desc}: deleted_count {} instead of {expn} on {}", x.deleted_count, show(&cur.all()));
            if exists {
                let mut next = cur.clone();
                if many {
                    for k in keys {
                        next.docs.remove(&k);
                    }
                } else if expn == 1 {
                    let (got, _) = must(&["C13"], view(at, name), "find")?;
                    let gone: Vec<Vec<u8>> = keys.iter().filter(|k| !got.iter().any(|g| model::same(g.get("_id").unwrap(), cur.docs[*k].get("_id").unwrap(), true))).cloned().collect();
                    ensure!(&["C13"], gone.len() == 1, "{desc}: left {} of {}", show(&got), show(&cur.all()));
                    next.docs.remove(&gone[0]);
                }
                w.insert(name.to_string(), next);
            }
            Ok((desc, &["C13"]))
        }
        16..=18 => {
            let f = *r.pick(&["a", "s", "d.x"]);
            let uniq = r.chance(1, 3);
            let iname = if r.chance(1, 3) { Some(r.pick(&["i", "i2", "i i", "a_1"]).to_string()) } else { None };
            let desc = format!("create_index {name:?} {f} unique={uniq} name={iname:?}");
            let m = IndexModel { keys: doc! {f: 1}, options: if uniq || iname.is_some() { Some(IndexOptions { name: iname.clone(), unique: if uniq { Some(true) } else { None } }) } else { None } };
            let res = with!(at, name, c, c.create_index(m));
            stat("create_index");
            let full = iname.unwrap_or_else(|| format!("{}_1", f.replace('.', "_")));
            let mut next = cur.clone();
            let mut refused = None;
            if !next.idx.iter().any(|(n, _, _)| *n == full) {
                next.idx.push((full, f.to_string(), uniq));
                for (k, d) in &next.docs {
                    if let Err(e) = next.admits(k, d) {
                        refused = Some(e);
                        if e == No::Dup {
                            break;
                        }
                    }
                }
            }
            match (&res, refused) {
                (Ok(()), None) => {
                    w.insert(name.to_string(), next);
                }
                (Ok(()), Some(e)) => return fail(&["C09", "C08"], format!("{desc} accepted, expected refusal ({e:?}) on {}", show(&cur.all()))),
                (Err(e), None) => return fail(&["C08", "C09", "C16"], format!("{desc} refused: {e} on {}", show(&cur.all()))),
                (Err(e), Some(_)) => {
                    stat("refused create_index");
                    let any_dup = next.docs.iter().any(|(k, d)| next.admits(k, d) == Err(No::Dup));
                    ensure!(&["C09"], !is_dup(e) || any_dup, "{desc}: duplicate-key error without a duplicate");
                }
            }
            Ok((desc, &["C08", "C11", "C16"]))
        }
        19 => {
            let iname = if cur.idx.is_empty() || r.chance(1, 4) { "missing_1".to_string() } else { r.pick(&cur.idx).0.clone() };
            let desc = format!("drop_index {name:?} {iname:?}");
            must(&["C16"], with!(at, name, c, c.drop_index(&iname)), &desc)?;
            stat("drop_index");
            if exists {
                let mut next = cur.clone();
                next.idx.retain(|(n, _, _)| *n != iname);
                w.insert(name.to_string(), next);
            }
            Ok((desc, &["C16", "C08"]))
        }
        20 => {
            let desc = format!("drop {name:?}");
            must(&["C16"], with!(at, name, c, c.drop()), &desc)?;
            stat("drop");
            w.remove(name);
            Ok((desc, &["C16"]))
        }
        21 => {
            let desc = format!("create_collection {name:?}");
            if let At::Db(db) = at {
                let res = db.get().create_collection(name);
                stat("create_collection");
                ensure!(&["C16"], res.is_ok() != exists, "{desc}: {res:?} but it exists: {exists}");
                if !exists {
                    w.insert(name.to_string(), Coll::default());
                }
            }
            Ok((desc, &["C16"]))
        }
        _ => {
            // an indexed lookup, checked against the model
            let f = *r.pick(&["a", "s", "d.x"]);
            let v = loop {
                let v = fieldval(r, f);
                if !matches!(v, Bson::Array(_)) {
                    break v;
                }
            };
            let query = doc! {f: v};
            let desc = format!("find {name:?} {query:?}");
            let got = must(&["C08", "C04"], with!(at, name, c, find_all(&c, query.clone())), &desc)?;
            let want: Vec<Document> = cur.docs.values().filter(|d| model::matches(d, &query)).cloned().collect();
            stat("find");
            ensure!(&["C08", "C04"], same_set(&got, &want, false), "{desc} returned {} instead of {}", show(&got), show(&want));
            Ok((desc, &["C08"]))
        }
    }
}

fn one_update(c: &mut Coll, k: &[u8], u: &Document) -> std::result::Result<(), No> {
    let d = c.docs.get(k).unwrap().clone();
    // deleting an index entry of a value that cannot be indexed is never needed: such documents are not admitted
    let (n, _) = model::apply(&d, u).map_err(|_| No::Other)?;
    c.admits(k, &n)?;
    c.docs.insert(k.to_vec(), n);
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn upsert_check(at: &At, name: &str, w: &mut World, cur: &Coll, query: &Document, u: &Document, res: Result<polodb_core::results::UpdateResult>, desc: String) -> Step {
    stat("upsert of nothing");
    let mut d = Document::new();
    for (k, v) in query.iter() {
        if k.starts_with('$') {
            continue;
        }
        match v {
            Bson::Document(ops) => {
                if let Some(x) = ops.get("$eq") {
                    d.insert(k.clone(), x.clone());
                }
            }
            v => {
                d.insert(k.clone(), v.clone());
            }
        }
    }
    let set = u.get_document("$set").unwrap();
    let refused_form = set.values().any(|v| v.as_document().is_some()) || set.keys().any(|k| k.contains('$') || k.contains('.')) || d.keys().any(|k| k.contains('.'));
    for (k, v) in set.iter() {
        d.insert(k.clone(), v.clone());
    }
    let fresh = !d.contains_key("_id");
    let mut probe = d.clone();
    if fresh {
        probe.insert("_id", "fresh");
    }
    let mut next = cur.clone();
    let admitted = next.insert(&probe);
    match res {
        Err(e) => {
            ensure!(&["C22"], refused_form || admitted.is_err(), "{desc} refused: {e} on {}", show(&cur.all()));
            ensure!(&["C22", "C09"], !is_dup(&e) || admitted == Err(No::Dup), "{desc}: duplicate-key error without a duplicate on {}", show(&cur.all()));
        }
        Ok(x) => {
            if admitted.is_err() {
                return fail(&["C22", "C09"], format!("{desc} accepted, expected refusal ({admitted:?}) on {}", show(&cur.all())));
            }
            ensure!(&["C22", "C23"], x.matched_count == 0 && x.modified_count == 0, "{desc}: matched {} modified {}", x.matched_count, x.modified_count);
            let (got, _) = must(&["C22"], view(at, name), "find")?;
            let new: Vec<&Document> = got.iter().filter(|g| !cur.docs.values().any(|o| model::same_doc(o, g, false))).collect();
            ensure!(&["C22"], got.len() == cur.docs.len() + 1 && new.len() == 1, "{desc} turned {} into {}", show(&cur.all()), show(&got));
            let mut stripped = new[0].clone();
            if fresh {
                ensure!(&["C22"], matches!(stripped.remove("_id"), Some(Bson::ObjectId(_))), "{desc} inserted {:?}", new[0]);
            }
            if refused_form {
                // nested targets: only that exactly one document appeared
                let mut n = cur.clone();
                let _ = n.insert(new[0]);
                w.insert(name.to_string(), n);
                return Ok((desc, &["C22"]));
            }
            ensure!(&["C22"], model::same_doc(&stripped, &d, false), "{desc} inserted {:?} instead of {d:?}", new[0]);
            let mut n = cur.clone();
            if n.insert(new[0]).is_err() {
                return fail(&["C22"], format!("{desc} inserted {:?}", new[0]));
            }
            w.insert(name.to_string(), n);
        }
    }
    Ok((desc, &["C22", "C08"]))
}
