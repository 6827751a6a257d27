//! Generators. Values come from small pools so that equalities, prefixes and extremes actually occur.
use crate::model;
use crate::rng::Rng;
use polodb_core::bson::{self, doc, oid::ObjectId, spec::BinarySubtype, Binary, Bson, DateTime, Decimal128, Document, Timestamp};

pub const I32S: &[i32] = &[0, 1, -1, 2, 3, 5, 7, 10, 100, 255, 256, 65536, 0x61, i32::MAX, i32::MAX - 1, i32::MIN, i32::MIN + 1];
pub const I64S: &[i64] = &[
    0, 1, -1, 2, 3, 5, 1 << 31, -(1 << 31) - 1, 1 << 32, 1 << 53, (1 << 53) + 1, -(1 << 53) - 1, (1 << 62) + 1,
    i64::MAX, i64::MAX - 1, i64::MAX - 511, i64::MIN, i64::MIN + 1,
];
pub fn f64s() -> Vec<f64> {
    vec![
        0.0, -0.0, 1.0, -1.0, 0.5, 1.5, -2.5, 3.0, 5.0, 9007199254740992.0, 9007199254740994.0, -9007199254740992.0,
        9223372036854775808.0, -9223372036854775808.0, 9223372036854774784.0, 4611686018427387904.0, 1e300, -1e300,
        f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 2147483648.0, -2147483649.0,
    ]
}
pub const STRS: &[&str] = &[
    "", "a", "b", "ab", "abc", "A", "Abc", "a b", "\0", "a\0", "a\0b", "\0\0", "\u{1}", "é", "日本", "a.b", "$x", "zz", "hello world",
    "x\ny", "\u{80}", "\u{10FFFF}", "line1\nline2",
];

pub fn oid(n: u8) -> ObjectId {
    ObjectId::from_bytes([n, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, n])
}

/// Any scalar, all types and extremes.
pub fn scalar(r: &mut Rng) -> Bson {
    match r.below(26) {
        0..=4 => Bson::Int32(*r.pick(I32S)),
        5..=7 => Bson::Int64(*r.pick(I64S)),
        8..=11 => Bson::Double(*r.pick(&f64s())),
        12..=16 => Bson::String(r.pick(STRS).to_string()),
        17 => Bson::Boolean(r.chance(1, 2)),
        18 => Bson::Null,
        19 => Bson::ObjectId(oid(*r.pick(&[0u8, 1, 2, 127, 128, 255]))),
        20 => Bson::DateTime(DateTime::from_millis(*r.pick(&[0i64, 1, -1, 1_600_000_000_000, i64::MAX / 1000, i64::MIN / 1000]))),
        21 => Bson::Timestamp(Timestamp { time: *r.pick(&[0u32, 1, 256, u32::MAX]), increment: *r.pick(&[0u32, 1, 255, 256, u32::MAX]) }),
        22 => Bson::Symbol(r.pick(STRS).to_string()),
        23 => Bson::Undefined,
        24 => Bson::Decimal128(Decimal128::from_bytes([*r.pick(&[0u8, 1]); 16])),
        _ => Bson::Int32(r.range(-5, 5) as i32),
    }
}

/// Scalars of the everyday kinds (query arguments, sort keys).
pub fn common(r: &mut Rng) -> Bson {
    match r.below(12) {
        0..=3 => Bson::Int32(r.range(-2, 6) as i32),
        4 => Bson::Int64(r.range(-2, 6)),
        5..=6 => Bson::Double(*r.pick(&[0.0, -0.0, 0.5, 1.0, 2.0, 2.5, 5.0, f64::NAN, f64::INFINITY])),
        7..=9 => Bson::String(r.pick(STRS).to_string()),
        10 => Bson::Boolean(r.chance(1, 2)),
        _ => Bson::Null,
    }
}

pub fn value(r: &mut Rng, depth: usize) -> Bson {
    match r.below(if depth == 0 { 14 } else { 20 }) {
        0..=7 => common(r),
        8..=12 => scalar(r),
        13 => match r.below(5) {
            0 => Bson::MinKey,
            1 => Bson::MaxKey,
            2 => Bson::JavaScriptCode("f()".into()),
            _ => Bson::Binary(Binary {
                subtype: if r.chance(1, 2) { BinarySubtype::Generic } else { BinarySubtype::Uuid },
                bytes: (0..r.below(4)).map(|_| *r.pick(&[0u8, 1, 255])).collect(),
            }),
        },
        14..=17 => Bson::Array((0..r.below(4)).map(|_| value(r, depth - 1)).collect()),
        _ => Bson::Document(small_doc(r, depth - 1)),
    }
}

pub fn small_doc(r: &mut Rng, depth: usize) -> Document {
    let mut d = Document::new();
    for _ in 0..r.below(4) {
        let k = *r.pick(&["x", "y", "z", "a", "k.dot"]);
        let v = value(r, depth);
        d.insert(k, v);
    }
    d
}

pub const FIELDS: &[&str] = &["a", "b", "c", "s", "arr", "d"];

/// A document body without _id.
pub fn body(r: &mut Rng) -> Document {
    let mut d = Document::new();
    let mut order: Vec<&str> = FIELDS.to_vec();
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i + 1));
    }
    for f in order {
        if r.chance(1, 4) {
            continue;
        }
        let v = match f {
            "a" | "b" => common(r),
            "s" => {
                if r.chance(4, 5) {
                    Bson::String(r.pick(STRS).to_string())
                } else {
                    value(r, 1)
                }
            }
            "arr" => {
                if r.chance(4, 5) {
                    Bson::Array((0..r.below(4)).map(|_| if r.chance(4, 5) { common(r) } else { value(r, 1) }).collect())
                } else {
                    value(r, 1)
                }
            }
            "d" => {
                if r.chance(4, 5) {
                    Bson::Document(small_doc(r, 2))
                } else {
                    value(r, 1)
                }
            }
            _ => value(r, 2),
        };
        d.insert(f, v);
    }
    d
}

/// Key values usable as _id without meeting the recorded finding (numeric ids are Int32 only).
pub fn id(r: &mut Rng) -> Bson {
    match r.below(16) {
        0..=7 => Bson::Int32(if r.chance(3, 4) { r.range(-3, 20) as i32 } else { *r.pick(I32S) }),
        8..=11 => Bson::String(r.pick(STRS).to_string()),
        12 => Bson::ObjectId(oid(r.below(256) as u8)),
        13 => Bson::Boolean(r.chance(1, 2)),
        14 => Bson::DateTime(DateTime::from_millis(r.range(-3, 3))),
        15 if r.chance(1, 3) => Bson::Undefined,
        _ => Bson::Timestamp(Timestamp { time: r.below(3) as u32, increment: r.below(3) as u32 }),
    }
}

/// `n` documents with distinct ids.
pub fn docs(r: &mut Rng, n: usize) -> Vec<Document> {
    let mut out: Vec<Document> = vec![];
    while out.len() < n {
        let i = id(r);
        if out.iter().any(|d| model::same(d.get("_id").unwrap(), &i, true)) {
            continue;
        }
        let b = body(r);
        let mut d = Document::new();
        if r.chance(7, 8) {
            d.insert("_id", i);
            d.extend(b);
        } else {
            d.extend(b);
            d.insert("_id", i);
        }
        out.push(d);
    }
    out
}

pub const PATHS: &[&str] = &["a", "b", "c", "s", "arr", "d", "d.x", "d.y", "d.x.y", "d.z.a", "missing", "a.x", "d.missing"];

pub fn path(r: &mut Rng) -> &'static str {
    if r.chance(1, 2) {
        *r.pick(&["a", "b", "s", "arr"])
    } else {
        *r.pick(PATHS)
    }
}

/// An argument for a comparison: often a value that really occurs at that path.
pub fn cmp_arg(r: &mut Rng, docs: &[Document], p: &str) -> Bson {
    for _ in 0..3 {
        if docs.is_empty() || r.chance(1, 3) {
            break;
        }
        let d = r.pick(docs);
        if let Some(v) = model::path_value(d, p) {
            if model::is_scalar(&v) || matches!(v, Bson::Binary(_)) {
                return v;
            }
        }
    }
    if r.chance(3, 4) { common(r) } else { scalar(r) }
}

fn member_list(r: &mut Rng, docs: &[Document], p: &str) -> Bson {
    let n = r.below(4);
    let mut xs = vec![];
    for _ in 0..n {
        let v = match r.below(8) {
            0 => regex_value(r),
            1 => Bson::Null,
            2..=4 if !docs.is_empty() => {
                let d = r.pick(docs);
                match model::path_value(d, p) {
                    Some(Bson::Array(ys)) if !ys.is_empty() && r.chance(2, 3) => r.pick(&ys).clone(),
                    Some(v) => v,
                    None => common(r),
                }
            }
            _ => value(r, 1),
        };
        // a document whose first key starts with '$' is an operator expression, not a literal
        if let Bson::Document(d) = &v {
            if d.keys().next().map_or(false, |k| k.starts_with('$')) {
                continue;
            }
        }
        xs.push(v);
    }
    Bson::Array(xs)
}

pub fn regex_value(r: &mut Rng) -> Bson {
    let (p, o) = *r.pick(&[
        ("^a", ""), ("b$", ""), ("A", "i"), ("^$", ""), (".", ""), ("a.b", "s"), ("^line2$", "m"), ("l o", ""), ("a b", "x"), ("[0-9]", ""), ("^Abc$", ""), ("\"", ""),
    ]);
    Bson::RegularExpression(bson::Regex { pattern: p.into(), options: o.into() })
}

fn op(r: &mut Rng, docs: &[Document], p: &str, depth: usize) -> (&'static str, Bson) {
    loop {
        return match r.below(if depth == 0 { 15 } else { 18 }) {
            0..=1 => ("$eq", cmp_arg(r, docs, p)),
            2 => ("$ne", cmp_arg(r, docs, p)),
            3 => ("$gt", cmp_arg(r, docs, p)),
            4 => ("$gte", cmp_arg(r, docs, p)),
            5 => ("$lt", cmp_arg(r, docs, p)),
            6 => ("$lte", cmp_arg(r, docs, p)),
            7..=8 => ("$in", member_list(r, docs, p)),
            9..=10 => ("$nin", member_list(r, docs, p)),
            11..=12 => ("$all", member_list(r, docs, p)),
            13 => ("$size", if r.chance(1, 2) { Bson::Int64(r.range(0, 3)) } else { Bson::Int32(r.range(0, 3) as i32) }),
            14 => ("$regex", regex_value(r)),
            _ => {
                let mut d = Document::new();
                let n = 1 + r.below(2);
                for _ in 0..n {
                    let (k, v) = op(r, docs, p, depth - 1);
                    d.insert(k, v);
                }
                ("$not", Bson::Document(d))
            }
        };
    }
}

pub fn ops_doc(r: &mut Rng, docs: &[Document], p: &str) -> Document {
    let mut d = Document::new();
    let n = if r.chance(2, 3) { 1 } else { 1 + r.below(3) };
    for _ in 0..n {
        let (k, v) = op(r, docs, p, 2);
        d.insert(k, v);
    }
    d
}

/// `with_id`: may constrain _id at the top level. `avoid`: fields that must not appear as plain equalities (they are indexed).
pub fn query(r: &mut Rng, docs: &[Document], depth: usize, with_id: bool) -> Document {
    let mut q = Document::new();
    let n = if depth == 2 { *r.pick(&[0usize, 1, 1, 1, 2, 2, 3]) } else { 1 + r.below(2) };
    for _ in 0..n {
        if depth > 0 && r.chance(1, 4) {
            let k = if r.chance(1, 2) { "$and" } else { "$or" };
            let m = if r.chance(1, 10) { 0 } else { 1 + r.below(3) };
            let xs: Vec<Bson> = (0..m)
                .map(|_| Bson::Document(if r.chance(1, 12) { Document::new() } else { query(r, docs, depth - 1, with_id) }))
                .collect();
            q.insert(k, xs);
            continue;
        }
        if with_id && r.chance(1, 8) {
            let v = if docs.is_empty() || r.chance(1, 3) { id(r) } else { r.pick(docs).get("_id").unwrap().clone() };
            if r.chance(1, 2) {
                q.insert("_id", v);
            } else {
                let k = *r.pick(&["$eq", "$ne", "$gt", "$lte"]);
                q.insert("_id", doc! { k: v });
            }
            continue;
        }
        let p = path(r);
        if r.chance(1, 3) {
            q.insert(p, cmp_arg(r, docs, p));
        } else {
            q.insert(p, ops_doc(r, docs, p));
        }
    }
    q
}

pub fn sort_spec(r: &mut Rng) -> Document {
    let mut d = Document::new();
    let n = 1 + r.below(3);
    for _ in 0..n {
        let f = *r.pick(&["a", "b", "s", "_id", "c", "missing"]);
        let dir = if r.chance(1, 2) { 1 } else { -1 };
        d.insert(f, if r.chance(1, 2) { Bson::Int32(dir) } else { Bson::Int64(dir as i64) });
    }
    d
}
