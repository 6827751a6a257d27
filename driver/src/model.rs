//! Reference semantics, written from the property statements (not from the engine's code).
use polodb_core::bson::{Bson, Document};
use std::cmp::Ordering;

// ---------------------------------------------------------------- value order (C03)

/// Kind order. All numbers are one kind.
pub fn kind(b: &Bson) -> u8 {
    match b {
        Bson::Int32(_) | Bson::Int64(_) | Bson::Double(_) => 0x10,
        other => other.element_type() as u8,
    }
}

pub fn cmp_int_double(i: i64, d: f64) -> Ordering {
    if d.is_nan() {
        return Ordering::Greater; // NaN is below every number
    }
    if d >= 9223372036854775808.0 {
        return Ordering::Less;
    }
    if d < -9223372036854775808.0 {
        return Ordering::Greater;
    }
    let t = d.trunc();
    let ti = t as i64;
    match i.cmp(&ti) {
        Ordering::Equal => {
            if d > t {
                Ordering::Less
            } else if d < t {
                Ordering::Greater
            } else {
                Ordering::Equal
            }
        }
        o => o,
    }
}

fn cmp_double(a: f64, b: f64) -> Ordering {
    match (a.is_nan(), b.is_nan()) {
        (true, true) => Ordering::Equal,
        (true, false) => Ordering::Less,
        (false, true) => Ordering::Greater,
        _ => a.partial_cmp(&b).unwrap(),
    }
}

fn as_int(b: &Bson) -> Option<i64> {
    match b {
        Bson::Int32(i) => Some(*i as i64),
        Bson::Int64(i) => Some(*i),
        _ => None,
    }
}

pub fn is_num(b: &Bson) -> bool {
    matches!(b, Bson::Int32(_) | Bson::Int64(_) | Bson::Double(_))
}

pub fn cmp_num(a: &Bson, b: &Bson) -> Ordering {
    match (as_int(a), as_int(b)) {
        (Some(x), Some(y)) => x.cmp(&y),
        (Some(x), None) => cmp_int_double(x, b.as_f64().unwrap()),
        (None, Some(y)) => cmp_int_double(y, a.as_f64().unwrap()).reverse(),
        (None, None) => cmp_double(a.as_f64().unwrap(), b.as_f64().unwrap()),
    }
}

pub fn is_scalar(b: &Bson) -> bool {
    matches!(
        b,
        Bson::Int32(_) | Bson::Int64(_) | Bson::Double(_) | Bson::String(_) | Bson::Boolean(_)
            | Bson::Null | Bson::Undefined | Bson::ObjectId(_) | Bson::DateTime(_) | Bson::Timestamp(_)
            | Bson::Symbol(_) | Bson::Decimal128(_)
    )
}

/// Is `cmp` defined by the property for this pair?
pub fn comparable(a: &Bson, b: &Bson) -> bool {
    kind(a) != kind(b) || (is_scalar(a) && is_scalar(b)) || matches!(a, Bson::Binary(_))
}

pub fn cmp(a: &Bson, b: &Bson) -> Ordering {
    let (ka, kb) = (kind(a), kind(b));
    if ka != kb {
        return ka.cmp(&kb);
    }
    match (a, b) {
        _ if is_num(a) => cmp_num(a, b),
        (Bson::String(x), Bson::String(y)) | (Bson::Symbol(x), Bson::Symbol(y)) => x.as_bytes().cmp(y.as_bytes()),
        (Bson::Boolean(x), Bson::Boolean(y)) => x.cmp(y),
        (Bson::DateTime(x), Bson::DateTime(y)) => x.timestamp_millis().cmp(&y.timestamp_millis()),
        (Bson::ObjectId(x), Bson::ObjectId(y)) => x.bytes().cmp(&y.bytes()),
        (Bson::Timestamp(x), Bson::Timestamp(y)) => (x.time, x.increment).cmp(&(y.time, y.increment)),
        (Bson::Decimal128(x), Bson::Decimal128(y)) => x.bytes().cmp(&y.bytes()),
        (Bson::Binary(x), Bson::Binary(y)) => x.bytes.cmp(&y.bytes),
        _ => Ordering::Equal,
    }
}

// ---------------------------------------------------------------- equality helpers

/// Bit-exact equality of stored values (types included, NaN equal to itself); field order ignored when `ordered` is false.
pub fn same(a: &Bson, b: &Bson, ordered: bool) -> bool {
    match (a, b) {
        (Bson::Double(x), Bson::Double(y)) => x.to_bits() == y.to_bits(),
        (Bson::JavaScriptCodeWithScope(x), Bson::JavaScriptCodeWithScope(y)) => x.code == y.code && same_doc(&x.scope, &y.scope, ordered),
        (Bson::Array(x), Bson::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q, ordered)),
        (Bson::Document(x), Bson::Document(y)) => same_doc(x, y, ordered),
        _ => a.element_type() == b.element_type() && a == b,
    }
}

pub fn same_doc(a: &Document, b: &Document, ordered: bool) -> bool {
    if a.len() != b.len() {
        return false;
    }
    if ordered {
        a.iter().zip(b.iter()).all(|((k1, v1), (k2, v2))| k1 == k2 && same(v1, v2, ordered))
    } else {
        a.iter().all(|(k, v)| b.get(k).map_or(false, |w| same(v, w, ordered)))
    }
}

/// Query equality of C05: exact across numeric types, recursive, order-sensitive.
pub fn query_eq(a: &Bson, b: &Bson) -> bool {
    if is_num(a) && is_num(b) {
        return cmp_num(a, b) == Ordering::Equal;
    }
    match (a, b) {
        (Bson::Array(x), Bson::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| query_eq(p, q)),
        (Bson::Document(x), Bson::Document(y)) => {
            x.len() == y.len() && x.iter().zip(y.iter()).all(|((k1, v1), (k2, v2))| k1 == k2 && query_eq(v1, v2))
        }
        (Bson::String(x), Bson::Symbol(y)) | (Bson::Symbol(x), Bson::String(y)) => x == y,
        (Bson::Binary(x), Bson::Binary(y)) => x.subtype == y.subtype && x.bytes == y.bytes,
        (Bson::JavaScriptCodeWithScope(x), Bson::JavaScriptCodeWithScope(y)) => {
            x.code == y.code && query_eq(&Bson::Document(x.scope.clone()), &Bson::Document(y.scope.clone()))
        }
        _ => a.element_type() == b.element_type() && a == b,
    }
}

// ---------------------------------------------------------------- queries (C04, C05)

pub fn path_value(doc: &Document, path: &str) -> Option<Bson> {
    let mut cur: Option<Bson> = None;
    for (i, seg) in path.split('.').enumerate() {
        let next = if i == 0 {
            doc.get(seg).cloned()
        } else {
            match &cur {
                Some(Bson::Document(d)) => d.get(seg).cloned(),
                _ => None,
            }
        };
        cur = Some(next?);
    }
    cur
}

fn regex_of(r: &polodb_core::bson::Regex) -> regex::Regex {
    let mut b = regex::RegexBuilder::new(&r.pattern);
    for o in r.options.chars() {
        match o {
            'i' => { b.case_insensitive(true); }
            'm' => { b.multi_line(true); }
            's' => { b.dot_matches_new_line(true); }
            'x' => { b.ignore_whitespace(true); }
            _ => {}
        }
    }
    b.build().unwrap()
}

fn regex_matches(v: &Bson, r: &polodb_core::bson::Regex) -> bool {
    let re = regex_of(r);
    let one = |v: &Bson| match v {
        Bson::String(s) | Bson::Symbol(s) => re.is_match(s),
        _ => false,
    };
    match v {
        Bson::Array(xs) => xs.iter().any(one),
        v => one(v),
    }
}

pub fn member(v: &Bson, cand: &Bson) -> bool {
    query_eq(v, cand)
        || matches!(v, Bson::Array(xs) if xs.iter().any(|x| query_eq(x, cand)))
        || matches!(cand, Bson::RegularExpression(r) if regex_matches(v, r))
}

fn needs_presence(ops: &Document) -> bool {
    ops.iter().any(|(k, v)| match k.as_str() {
        "$in" | "$nin" | "$all" => false,
        "$not" => v.as_document().map_or(false, needs_presence),
        _ => true,
    })
}

fn eval_ops(v: &Bson, ops: &Document) -> bool {
    ops.iter().all(|(k, arg)| match k.as_str() {
        "$eq" => cmp(v, arg) == Ordering::Equal,
        "$ne" => cmp(v, arg) != Ordering::Equal,
        "$gt" => cmp(v, arg) == Ordering::Greater,
        "$gte" => cmp(v, arg) != Ordering::Less,
        "$lt" => cmp(v, arg) == Ordering::Less,
        "$lte" => cmp(v, arg) != Ordering::Greater,
        "$in" => arg.as_array().unwrap().iter().any(|c| member(v, c)),
        "$nin" => !arg.as_array().unwrap().iter().any(|c| member(v, c)),
        "$all" => {
            let xs = arg.as_array().unwrap();
            !xs.is_empty() && xs.iter().all(|c| member(v, c))
        }
        "$size" => match v {
            Bson::Array(xs) => xs.len() as i64 == as_int(arg).unwrap(),
            _ => false,
        },
        "$regex" => match arg {
            Bson::RegularExpression(r) => regex_matches(v, r),
            _ => unreachable!(),
        },
        "$not" => !eval_ops(v, arg.as_document().unwrap()),
        _ => unreachable!("{k}"),
    })
}

pub fn matches(doc: &Document, query: &Document) -> bool {
    query.iter().all(|(k, v)| match (k.as_str(), v) {
        ("$and", Bson::Array(xs)) => xs.iter().all(|q| matches(doc, q.as_document().unwrap())),
        ("$or", Bson::Array(xs)) => xs.iter().any(|q| matches(doc, q.as_document().unwrap())),
        (path, Bson::Document(ops)) => match path_value(doc, path) {
            Some(val) => eval_ops(&val, ops),
            None => !needs_presence(ops) && eval_ops(&Bson::Null, ops),
        },
        (path, v) => match path_value(doc, path) {
            Some(val) => cmp(&val, v) == Ordering::Equal,
            None => false,
        },
    })
}

// ---------------------------------------------------------------- updates (C06, C07)

#[derive(Debug, Clone, PartialEq)]
pub struct Refused;

fn arith(a: &Bson, b: &Bson, mul: bool) -> Result<Bson, Refused> {
    if let (Some(x), Some(y)) = (as_int(a), as_int(b)) {
        let r: i128 = if mul { x as i128 * y as i128 } else { x as i128 + y as i128 };
        let both32 = matches!((a, b), (Bson::Int32(_), Bson::Int32(_)));
        if both32 && r >= i32::MIN as i128 && r <= i32::MAX as i128 {
            return Ok(Bson::Int32(r as i32));
        }
        if r >= i64::MIN as i128 && r <= i64::MAX as i128 {
            return Ok(Bson::Int64(r as i64));
        }
        return Err(Refused);
    }
    if !is_num(a) || !is_num(b) {
        return Err(Refused);
    }
    let f = |v: &Bson| match v {
        Bson::Double(d) => *d,
        other => as_int(other).unwrap() as f64,
    };
    Ok(Bson::Double(if mul { f(a) * f(b) } else { f(a) + f(b) }))
}

/// Applies the update to one document. Ok((new document, must the engine count it as modified?)).
pub fn apply(doc: &Document, update: &Document) -> Result<(Document, bool), Refused> {
    let mut d = doc.clone();
    for (op, arg) in update.iter() {
        let arg = arg.as_document().ok_or(Refused)?;
        for (k, v) in arg.iter() {
            if k == "_id" {
                return Err(Refused);
            }
            match op.as_str() {
                "$set" => {
                    d.insert(k.clone(), v.clone());
                }
                "$unset" => {
                    d.remove(k);
                }
                "$rename" => {
                    let to = v.as_str().ok_or(Refused)?;
                    if to == "_id" {
                        return Err(Refused);
                    }
                    if let Some(x) = d.remove(k) {
                        d.insert(to.to_string(), x);
                    }
                }
                "$inc" => match d.get(k) {
                    Some(cur) => {
                        let r = arith(cur, v, false)?;
                        d.insert(k.clone(), r);
                    }
                    None => {
                        if !is_num(v) {
                            return Err(Refused);
                        }
                        d.insert(k.clone(), v.clone());
                    }
                },
                "$mul" => match d.get(k) {
                    Some(cur) => {
                        let r = arith(cur, v, true)?;
                        d.insert(k.clone(), r);
                    }
                    None => {
                        if !is_num(v) {
                            return Err(Refused);
                        }
                        d.insert(k.clone(), v.clone());
                    }
                },
                "$min" | "$max" => {
                    // generated only for fields that are present
                    let cur = d.get(k).cloned().unwrap_or(Bson::Null);
                    let want = if op == "$min" { Ordering::Less } else { Ordering::Greater };
                    if cmp(v, &cur) == want {
                        d.insert(k.clone(), v.clone());
                    }
                }
                "$push" => match d.get_mut(k) {
                    Some(Bson::Array(xs)) => xs.push(v.clone()),
                    None => {
                        d.insert(k.clone(), Bson::Array(vec![v.clone()]));
                    }
                    _ => return Err(Refused),
                },
                "$pop" => {
                    let n = as_int(v).ok_or(Refused)?;
                    if n != 1 && n != -1 {
                        return Err(Refused);
                    }
                    match d.get_mut(k) {
                        Some(Bson::Array(xs)) => {
                            if !xs.is_empty() {
                                if n == 1 {
                                    xs.pop();
                                } else {
                                    xs.remove(0);
                                }
                            }
                        }
                        None => {}
                        _ => return Err(Refused),
                    }
                }
                _ => return Err(Refused),
            }
        }
    }
    let changed = !same_doc(&d, doc, true);
    Ok((d, changed))
}

// ---------------------------------------------------------------- pipelines (C14, C15)

pub fn sort_docs(docs: &mut [Document], spec: &Document) {
    docs.sort_by(|a, b| {
        for (k, dir) in spec.iter() {
            let asc = as_int(dir).unwrap() == 1;
            let o = match (a.get(k), b.get(k)) {
                (Some(x), Some(y)) => cmp(x, y),
                (Some(_), None) => Ordering::Less,
                (None, Some(_)) => Ordering::Greater,
                (None, None) => Ordering::Equal,
            };
            let o = if asc { o } else { o.reverse() };
            if o != Ordering::Equal {
                return o;
            }
        }
        Ordering::Equal
    });
}

pub fn run_pipeline(docs: &[Document], stages: &[Document]) -> Vec<Document> {
    let mut cur: Vec<Document> = docs.to_vec();
    for st in stages {
        let (name, arg) = st.iter().next().unwrap();
        match name.as_str() {
            "$match" => cur.retain(|d| matches(d, arg.as_document().unwrap())),
            "$sort" => sort_docs(&mut cur, arg.as_document().unwrap()),
            "$skip" => {
                let n = (as_int(arg).unwrap() as usize).min(cur.len());
                cur.drain(0..n);
            }
            "$limit" => cur.truncate(as_int(arg).unwrap().max(0) as usize),
            "$count" => {
                let n = cur.len() as i64;
                let mut d = Document::new();
                d.insert(arg.as_str().unwrap(), n);
                cur = vec![d];
            }
            "$unset" => {
                let fields: Vec<String> = match arg {
                    Bson::String(s) => vec![s.clone()],
                    Bson::Array(xs) => xs.iter().map(|x| x.as_str().unwrap().to_string()).collect(),
                    _ => unreachable!(),
                };
                for d in cur.iter_mut() {
                    for f in &fields {
                        d.remove(f);
                    }
                }
            }
            "$addFields" => {
                for d in cur.iter_mut() {
                    let orig = d.clone();
                    for (k, v) in arg.as_document().unwrap().iter() {
                        let val = add_field_value(&orig, v);
                        d.insert(k.clone(), val);
                    }
                }
            }
            _ => unreachable!(),
        }
    }
    cur
}

fn add_field_value(doc: &Document, v: &Bson) -> Bson {
    match v {
        Bson::String(s) => match s.strip_prefix('$') {
            Some(f) => doc.get(f).cloned().unwrap_or(Bson::Null),
            None => v.clone(),
        },
        Bson::Document(d) if d.contains_key("$abs") => {
            let inner = match d.get("$abs").unwrap() {
                Bson::String(s) => doc.get(&s[1..]).cloned().unwrap_or(Bson::Null),
                other => other.clone(),
            };
            match inner {
                Bson::Int32(i) if i == i32::MIN => Bson::Int64(-(i as i64)),
                Bson::Int32(i) => Bson::Int32(i.abs()),
                Bson::Int64(i) => Bson::Int64(i.abs()),
                Bson::Double(d) => Bson::Double(d.abs()),
                other => other,
            }
        }
        other => other.clone(),
    }
}

// ---------------------------------------------------------------- key encoding (C01), used for raw-store checks

pub fn encode(out: &mut Vec<u8>, v: &Bson) -> bool {
    out.push(v.element_type() as u8);
    let cstr = |out: &mut Vec<u8>, s: &str| {
        for b in s.bytes() {
            if b == 0 {
                out.extend_from_slice(&[0xC0, 0x80]);
            } else {
                out.push(b);
            }
        }
        out.push(0);
    };
    match v {
        Bson::Double(d) => out.extend_from_slice(&d.to_be_bytes()),
        Bson::String(s) | Bson::Symbol(s) => cstr(out, s),
        Bson::Boolean(b) => out.push(*b as u8),
        Bson::Null | Bson::Undefined => {}
        Bson::Int32(i) => out.extend_from_slice(&i.to_be_bytes()),
        Bson::Int64(i) => out.extend_from_slice(&i.to_be_bytes()),
        Bson::Timestamp(t) => {
            out.extend_from_slice(&t.time.to_be_bytes());
            out.extend_from_slice(&t.increment.to_be_bytes());
        }
        Bson::ObjectId(o) => out.extend_from_slice(&o.bytes()),
        Bson::DateTime(d) => out.extend_from_slice(&d.timestamp_millis().to_be_bytes()),
        Bson::Decimal128(d) => out.extend_from_slice(&d.bytes()),
        _ => return false,
    }
    true
}

pub fn encode_all(vs: &[Bson]) -> Option<Vec<u8>> {
    let mut out = Vec::new();
    for v in vs {
        if !encode(&mut out, v) {
            return None;
        }
    }
    Some(out)
}
