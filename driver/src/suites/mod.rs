use crate::ctx::{CaseResult, Db};
use crate::rng::Rng;

mod agg;
mod garbage;
mod history;
mod keys;
pub mod known;
mod query;
mod server;
mod update;

pub type Case = fn(&mut Db, &mut Rng, u64) -> CaseResult;

const SUITES: &[(&str, Case)] = &[
    ("keys", keys::case),
    ("query", query::case),
    ("member", query::member_case),
    ("order", query::order_case),
    ("indexq", query::index_case),
    ("update", update::case),
    ("arith", update::arith_case),
    ("history", history::case),
    ("aggregate", agg::case),
    ("sort", agg::sort_case),
    ("garbage", garbage::case),
    ("known", known::case),
    ("wire", server::wire_case),
    ("cursor", server::cursor_case),
    ("reply", server::reply_case),
    ("session", server::session_case),
];

pub fn find(name: &str) -> Option<Case> {
    SUITES.iter().find(|(n, _)| *n == name).map(|(_, c)| *c)
}

pub fn names() -> Vec<&'static str> {
    SUITES.iter().map(|(n, _)| *n).collect()
}

use crate::ctx::{fail, Failure};
use crate::model;
use polodb_core::bson::Document;
use polodb_core::{CollectionT, Result};

pub fn show(d: &[Document]) -> String {
    let mut s = String::from("[");
    for (i, x) in d.iter().enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        s.push_str(&format!("{x:?}"));
    }
    s.push(']');
    s
}

pub fn must<T>(tags: &[&'static str], r: Result<T>, what: &str) -> std::result::Result<T, Failure> {
    match r {
        Ok(v) => Ok(v),
        Err(e) => fail(tags, format!("{what}: unexpected error: {e}")),
    }
}

pub fn find_all<C: CollectionT<Document>>(c: &C, q: Document) -> Result<Vec<Document>> {
    let mut cur = c.find(q).run()?;
    let mut out = vec![];
    while cur.advance()? {
        out.push(cur.deserialize_current()?);
    }
    Ok(out)
}

pub fn same_list(a: &[Document], b: &[Document], ordered_fields: bool) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| model::same_doc(x, y, ordered_fields))
}

/// Equal as multisets.
pub fn same_set(a: &[Document], b: &[Document], ordered_fields: bool) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut used = vec![false; b.len()];
    'o: for x in a {
        for (i, y) in b.iter().enumerate() {
            if !used[i] && model::same_doc(x, y, ordered_fields) {
                used[i] = true;
                continue 'o;
            }
        }
        return false;
    }
    true
}
