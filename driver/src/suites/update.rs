use super::*;
use crate::ctx::{fail, log, stat};
use crate::{ensure, gen};
use polodb_core::bson::{doc, Bson};

fn field(r: &mut Rng) -> &'static str {
    *r.pick(&["a", "b", "c", "s", "arr", "n", "new"])
}

/// A request no document may accept, or one that mentions _id.
fn bad_update(r: &mut Rng) -> Document {
    match r.below(14) {
        0 => doc! {"$set": {"_id": 5}},
        1 => doc! {"$set": {"a": 1, "_id": 5}},
        2 => doc! {"$unset": {"_id": ""}},
        3 => doc! {"$rename": {"_id": "a"}},
        4 => doc! {"$rename": {"a": "_id"}},
        5 => doc! {"$inc": {"_id": 1}},
        6 => doc! {"$mul": {"_id": 2}},
        7 => doc! {"$min": {"_id": 0}},
        8 => doc! {"$max": {"_id": 1000}},
        9 => doc! {"$push": {"_id": 1}},
        10 => doc! {"$pop": {"_id": 1}},
        11 => doc! {"$set": {"a": 9}, "$unset": {"_id": ""}},
        12 => doc! {"$nope": {"a": 1}},
        _ => doc! {"$pop": {"arr": 2}},
    }
}

fn good_update(r: &mut Rng, docs: &[Document]) -> Document {
    let mut u = Document::new();
    for _ in 0..*r.pick(&[1usize, 1, 1, 2, 2, 3]) {
        let op = *r.pick(&["$set", "$set", "$unset", "$rename", "$inc", "$mul", "$min", "$max", "$push", "$pop"]);
        if u.contains_key(op) {
            continue;
        }
        let mut arg = Document::new();
        for _ in 0..(1 + r.below(2)) {
            let mut f = field(r);
            let v = match op {
                "$set" => gen::value(r, 2),
                "$unset" => Bson::String(String::new()),
                "$rename" => Bson::String(loop {
                    let t = *r.pick(&["a", "b", "renamed", "new"]);
                    if t != f {
                        break t;
                    }
                }.to_string()),
                "$inc" | "$mul" => {
                    if r.chance(4, 5) {
                        f = "n";
                    }
                    match r.below(8) {
                        0..=2 => Bson::Int32(r.range(-3, 9) as i32),
                        3 => Bson::Int32(*r.pick(gen::I32S)),
                        4 => Bson::Int64(*r.pick(gen::I64S)),
                        5 => Bson::Double(*r.pick(&gen::f64s())),
                        6 => Bson::Int64(r.range(-3, 9)),
                        _ => Bson::Double(0.5),
                    }
                }
                "$min" | "$max" => gen::cmp_arg(r, docs, f),
                "$push" => {
                    f = *r.pick(&["arr", "arr", "arr", "new", "a"]);
                    gen::value(r, 1)
                }
                _ => {
                    f = *r.pick(&["arr", "arr", "arr", "a"]);
                    Bson::Int32(if r.chance(1, 2) { 1 } else { -1 })
                }
            };
            arg.insert(f, v);
        }
        u.insert(op, arg);
    }
    u
}

/// Combinations whose outcome the property leaves open (null targets of $push/$pop, $min/$max on a missing field, non-scalar $min/$max targets).
fn open_outcome(d: &Document, u: &Document) -> bool {
    let mut cur = d.clone();
    for (op, arg) in u.iter() {
        let Some(arg) = arg.as_document() else { return false };
        for (k, v) in arg.iter() {
            let t = cur.get(k);
            match op.as_str() {
                "$push" if matches!(t, Some(Bson::Null)) => return true,
                "$pop" if matches!(t, None | Some(Bson::Null)) => return true,
                "$min" | "$max" => match t {
                    None => return true,
                    Some(t) => {
                        if !model::comparable(t, v) {
                            return true;
                        }
                    }
                },
                _ => {}
            }
            let mut one = Document::new();
            let mut a1 = Document::new();
            a1.insert(k.clone(), v.clone());
            one.insert(op.clone(), a1);
            match model::apply(&cur, &one) {
                Ok((n, _)) => cur = n,
                Err(_) => return false,
            }
        }
    }
    false
}

pub fn case(db: &mut Db, r: &mut Rng, _i: u64) -> CaseResult {
    let n = 1 + r.below(6);
    let mut docs = gen::docs(r, n);
    for d in docs.iter_mut() {
        if r.chance(4, 5) {
            let v = match r.below(6) {
                0 => Bson::Int32(*r.pick(gen::I32S)),
                1 => Bson::Int64(*r.pick(gen::I64S)),
                2 => Bson::Double(*r.pick(&gen::f64s())),
                _ => Bson::Int32(r.range(-9, 9) as i32),
            };
            d.insert("n", v);
        }
    }
    let name = db.fresh();
    log(format!("collection {name} = {}", show(&docs)));
    let txn = db.txn();
    let c = txn.collection::<Document>(&name);
    must(&["C10"], c.insert_many(docs.clone()), "insert_many")?;
    let mut base = must(&["C02"], find_all(&c, doc! {}), "find {}")?;
    for step in 0..5 {
        let bad = r.chance(1, 6);
        let mut u = if bad { bad_update(r) } else { good_update(r, &base) };
        if u.is_empty() {
            continue;
        }
        if !bad && r.chance(1, 25) {
            u.insert("$inc", doc! {"n": r.pick(&["x", ""]).to_string()});
        }
        let static_bad = u.get_document("$inc").map_or(false, |d| d.values().any(|v| !model::is_num(v)));
        let q = match r.below(4) {
            0 => doc! {},
            1 => doc! {"_id": r.pick(&base).get("_id").unwrap().clone()},
            _ => gen::query(r, &base, 1, true),
        };
        let many = r.chance(2, 3);
        let matched: Vec<usize> = (0..base.len()).filter(|i| model::matches(&base[*i], &q)).collect();
        if matched.iter().any(|i| open_outcome(&base[*i], &u)) {
            continue;
        }
        log(format!("step {step} update many={many} {q:?} {u:?}"));
        let outcomes: Vec<std::result::Result<(Document, bool), model::Refused>> = matched.iter().map(|i| model::apply(&base[*i], &u)).collect();
        let res = if many { c.update_many(q.clone(), u.clone()) } else { c.update_one(q.clone(), u.clone()) };
        let after = must(&["C06"], find_all(&c, doc! {}), "find {}")?;
        stat(if bad { "refused forms" } else { "updates" });
        for k in u.keys() {
            stat(k);
        }
        let arith = if u.contains_key("$inc") || u.contains_key("$mul") { vec!["C06", "C07"] } else { vec!["C06"] };
        let tags: &[&'static str] = &arith;
        if bad && outcomes.is_empty() {
            ensure!(&["C11", "C06"], same_list(&after, &base, true), "update {u:?} matching nothing changed {} to {}", show(&base), show(&after));
            continue;
        }
        match res {
            Err(e) => {
                let may_fail = if many { outcomes.iter().any(|o| o.is_err()) } else { outcomes.iter().any(|o| o.is_err()) };
                ensure!(tags, may_fail || bad || static_bad, "update {u:?} on {} refused: {e}", show(&base));
                ensure!(&["C11", "C06", "C07"], same_list(&after, &base, true), "refused update {u:?} ({e}) changed {} to {}", show(&base), show(&after));
                stat("refused");
            }
            Ok(res) => {
                ensure!(tags, after.len() == base.len(), "update {u:?} changed the number of documents: {}", show(&after));
                ensure!(&["C23", "C06"], res.modified_count <= res.matched_count, "modified {} > matched {}", res.modified_count, res.matched_count);
                if many {
                    ensure!(tags, outcomes.iter().all(|o| o.is_ok()), "update {u:?} accepted on {}, giving {}", show(&base), show(&after));
                    ensure!(&["C23"], res.matched_count == matched.len() as u64, "matched_count {} instead of {}", res.matched_count, matched.len());
                    let mut want = base.clone();
                    let mut changed = 0;
                    for (i, o) in matched.iter().zip(&outcomes) {
                        let (d, ch) = o.as_ref().unwrap();
                        want[*i] = d.clone();
                        changed += *ch as u64;
                    }
                    ensure!(tags, same_list(&after, &want, false), "update_many {q:?} {u:?} on {} gave {} instead of {}", show(&base), show(&after), show(&want));
                    ensure!(&["C23"], res.modified_count >= changed, "modified_count {} but {changed} documents changed", res.modified_count);
                    if u.keys().all(|k| k == "$min" || k == "$max") && u.len() == 1 {
                        // a $min/$max that replaces nothing rewrites nothing
                        let rewritten = matched
                            .iter()
                            .filter(|i| {
                                let (k, arg) = u.iter().next().unwrap();
                                arg.as_document().unwrap().iter().any(|(f, v)| {
                                    let o = model::cmp(v, base[**i].get(f).unwrap());
                                    if k == "$min" { o.is_lt() } else { o.is_gt() }
                                })
                            })
                            .count() as u64;
                        ensure!(&["C23"], res.modified_count == rewritten, "{u:?} on {} reported {} modified instead of {rewritten}", show(&base), res.modified_count);
                    }
                    for (i, d) in after.iter().enumerate() {
                        if !matched.contains(&i) {
                            ensure!(tags, model::same_doc(d, &base[i], true), "unmatched document {:?} became {d:?}", base[i]);
                        }
                    }
                } else {
                    ensure!(&["C23", "C06"], res.matched_count == matched.len().min(1) as u64, "update_one matched_count {} with {} matching", res.matched_count, matched.len());
                    let diff: Vec<usize> = (0..after.len()).filter(|i| !model::same_doc(&after[*i], &base[*i], false)).collect();
                    ensure!(tags, diff.len() <= 1, "update_one changed {} documents", diff.len());
                    let explained = if let Some(k) = diff.first() {
                        matched.iter().position(|m| m == k).map_or(false, |p| matches!(&outcomes[p], Ok((d, _)) if model::same_doc(d, &after[*k], false)))
                    } else {
                        matched.is_empty() || outcomes.iter().any(|o| matches!(o, Ok((_, false))) || matches!(o, Ok((d, true)) if base.iter().any(|b| model::same_doc(b, d, false))))
                    };
                    ensure!(tags, explained, "update_one {q:?} {u:?} on {} gave {}", show(&base), show(&after));
                    ensure!(&["C23"], res.modified_count as usize >= diff.len(), "modified_count {} but {} changed", res.modified_count, diff.len());
                }
                for (a, b) in after.iter().zip(&base) {
                    if !model::same(a.get("_id").unwrap_or(&Bson::Null), b.get("_id").unwrap(), true) {
                        return fail(&["C06", "C09"], format!("update {u:?} changed _id: {b:?} became {a:?}"));
                    }
                }
            }
        }
        base = after;
    }
    must(&["C11"], txn.rollback(), "rollback")?;
    Ok(())
}

/// C07: one document, one $inc or $mul, extreme operands.
pub fn arith_case(db: &mut Db, r: &mut Rng, _i: u64) -> CaseResult {
    let name = db.fresh();
    let txn = db.txn();
    let c = txn.collection::<Document>(&name);
    for k in 0..12 {
        let num = |r: &mut Rng| match r.below(7) {
            0 | 1 => Bson::Int32(*r.pick(gen::I32S)),
            2 | 3 => Bson::Int64(*r.pick(gen::I64S)),
            4 => Bson::Double(*r.pick(&gen::f64s())),
            5 => Bson::Int64(r.u64() as i64 >> r.below(40)),
            _ => gen::scalar(r),
        };
        let (x, y) = (num(r), num(r));
        let op = if r.chance(1, 2) { "$inc" } else { "$mul" };
        let d = doc! {"_id": k, "n": x.clone(), "keep": "me"};
        log(format!("{op} {y:?} on {x:?}"));
        must(&["C10"], c.insert_one(d.clone()), "insert")?;
        let want = model::apply(&d, &doc! {op: {"n": y.clone()}});
        let res = c.update_one(doc! {"_id": k}, doc! {op: {"n": y.clone()}});
        let got = must(&["C07"], find_all(&c, doc! {"_id": k}), "find")?;
        stat(op);
        match (&want, &res) {
            (Ok((w, _)), Ok(_)) => ensure!(&["C07", "C06"], same_list(&got, std::slice::from_ref(w), false), "{op} {y:?} on {x:?} gave {} instead of {w:?}", show(&got)),
            (Err(_), Err(_)) => {
                stat("refused");
                ensure!(&["C07", "C11"], same_list(&got, &[d.clone()], true), "refused {op} {y:?} on {x:?} left {}", show(&got))
            }
            (Ok(_), Err(e)) => return fail(&["C07", "C06"], format!("{op} {y:?} on {x:?} refused: {e}")),
            (Err(_), Ok(_)) => return fail(&["C07"], format!("{op} {y:?} on {x:?} accepted, giving {}", show(&got))),
        }
    }
    must(&["C11"], txn.rollback(), "rollback")?;
    Ok(())
}
