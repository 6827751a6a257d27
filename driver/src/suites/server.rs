//! Suites against the running server (C18 wire, C19 cursor, C20 reply, C21 session).
//! The server (built from /repo's current source) is started by bin/check; its address is in
//! POLODB_SERVER_ADDR and its standard error is collected in the file POLODB_SERVER_STDERR.
use super::*;
use crate::ctx::{log, stat};
use crate::{ensure, gen};
use polodb_core::bson::{self, doc, spec::BinarySubtype, Binary, Bson};
use std::io::{Read, Write};
use std::net::TcpStream;
use std::os::fd::AsRawFd;

extern "C" {
    fn setsockopt(fd: i32, level: i32, name: i32, val: *const std::ffi::c_void, len: u32) -> i32;
}

/// The server writes a reply in two pieces: acknowledge the first at once, or
/// every reply waits for the delayed acknowledgement.
fn quick_ack(s: &TcpStream) {
    let one: i32 = 1;
    unsafe { setsockopt(s.as_raw_fd(), 6, 12, &one as *const i32 as *const std::ffi::c_void, 4) };
}

use std::time::Duration;

type R<T> = std::result::Result<T, Failure>;

const OP_MSG: i32 = 2013;

struct Conn {
    s: TcpStream,
}

struct Frame {
    header: [i32; 4],
    body: Vec<u8>,
}

fn stderr_panics() -> Option<String> {
    let p = std::env::var("POLODB_SERVER_STDERR").ok()?;
    let t = std::fs::read_to_string(p).ok()?;
    let i = t.find("panicked at")?;
    Some(t[i..].chars().take(400).collect())
}

fn connect() -> R<Conn> {
    let a = std::env::var("POLODB_SERVER_ADDR").expect("POLODB_SERVER_ADDR");
    for _ in 0..50 {
        if let Ok(s) = TcpStream::connect(&a) {
            s.set_nodelay(true).ok();
            s.set_read_timeout(Some(Duration::from_secs(15))).unwrap();
            return Ok(Conn { s });
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    fail(&["C18", "C19", "C20", "C21"], "the server accepts no connection")
}

enum Got {
    Frame(Frame),
    Closed,
    Silent,
}

impl Conn {
    fn send(&mut self, b: &[u8]) -> bool {
        self.s.write_all(b).is_ok() && self.s.flush().is_ok()
    }

    fn recv(&mut self) -> Got {
        let mut h = [0u8; 16];
        let mut n = 0;
        while n < 16 {
            quick_ack(&self.s);
            match self.s.read(&mut h[n..]) {
                Ok(0) => return Got::Closed,
                Ok(k) => n += k,
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => return Got::Silent,
                Err(_) => return Got::Closed,
            }
        }
        let w = |i: usize| i32::from_le_bytes([h[i], h[i + 1], h[i + 2], h[i + 3]]);
        let header = [w(0), w(4), w(8), w(12)];
        let mut body = vec![0u8; (header[0].max(16) - 16).min(64 << 20) as usize];
        quick_ack(&self.s);
        match self.s.read_exact(&mut body) {
            Ok(()) => Got::Frame(Frame { header, body }),
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => Got::Silent,
            Err(_) => Got::Closed,
        }
    }

    /// The reply to request `id`: checks its whole form (C20).
    fn reply(&mut self, id: i32, what: &str) -> R<Document> {
        let f = match self.recv() {
            Got::Frame(f) => f,
            Got::Closed => {
                return fail(&["C20"], format!("{what}: the connection was closed instead of a reply{}", stderr_panics().map(|p| format!(" ({p})")).unwrap_or_default()))
            }
            Got::Silent => return fail(&["C20", "C18"], format!("{what}: no complete reply within 15 s")),
        };
        ensure!(&["C20"], f.header[3] == OP_MSG, "{what}: reply has opcode {}", f.header[3]);
        ensure!(&["C20"], f.header[2] == id, "{what}: reply to request {id} has responseTo {}", f.header[2]);
        ensure!(&["C20"], f.body.len() >= 10, "{what}: reply body of {} bytes", f.body.len());
        ensure!(&["C20"], f.body[0..4] == [0, 0, 0, 0], "{what}: reply flag bits are {:02x?}", &f.body[0..4]);
        ensure!(&["C20"], f.body[4] == 0, "{what}: reply section kind is {}", f.body[4]);
        let n = i32::from_le_bytes([f.body[5], f.body[6], f.body[7], f.body[8]]);
        ensure!(&["C20"], n as usize == f.body.len() - 5, "{what}: reply document of {n} bytes in a body of {} bytes", f.body.len());
        let d: Document = match bson::from_slice(&f.body[5..]) {
            Ok(d) => d,
            Err(e) => return fail(&["C20"], format!("{what}: reply body is no document: {e}")),
        };
        let ok = int(d.get("ok"));
        ensure!(&["C20"], ok == Some(1) || (ok == Some(0) && d.get_str("errmsg").is_ok()), "{what}: reply tells neither success nor failure: {d:?}");
        stat("replies");
        Ok(d)
    }

    fn call(&mut self, r: &mut Rng, cmd: &Document, seqs: &[(&str, Vec<Document>)], tags: &[&'static str]) -> R<Document> {
        let id = r.u64() as i32;
        log(format!("{cmd:?} {seqs:?}"));
        let m = msg(id, &sections(r, cmd, seqs), OP_MSG);
        if !self.send(&m) {
            return fail(tags, format!("{cmd:?}: the server closed the connection"));
        }
        self.reply(id, &format!("{cmd:?}"))
    }

    fn ok(&mut self, r: &mut Rng, cmd: &Document, seqs: &[(&str, Vec<Document>)], tags: &[&'static str]) -> R<Document> {
        let d = self.call(r, cmd, seqs, tags)?;
        ensure!(tags, int(d.get("ok")) == Some(1), "{cmd:?} refused: {}", short(&d));
        Ok(d)
    }
}

fn short(d: &Document) -> String {
    format!("{d:?}").chars().take(300).collect()
}

fn int(b: Option<&Bson>) -> Option<i64> {
    match b {
        Some(Bson::Int32(i)) => Some(*i as i64),
        Some(Bson::Int64(i)) => Some(*i),
        Some(Bson::Double(d)) => Some(*d as i64),
        _ => None,
    }
}

fn raw(d: &Document) -> Vec<u8> {
    bson::to_vec(d).unwrap()
}

fn sequence(name: &str, ds: &[Document]) -> Vec<u8> {
    let mut inner = name.as_bytes().to_vec();
    inner.push(0);
    for d in ds {
        inner.extend(raw(d));
    }
    let mut o = vec![1u8];
    o.extend(((inner.len() + 4) as i32).to_le_bytes());
    o.extend(inner);
    o
}

/// flags, then the payload document and the sequences in some order
fn sections(r: &mut Rng, cmd: &Document, seqs: &[(&str, Vec<Document>)]) -> Vec<u8> {
    let mut parts: Vec<Vec<u8>> = vec![{
        let mut p = vec![0u8];
        p.extend(raw(cmd));
        p
    }];
    for (n, ds) in seqs {
        let s = sequence(n, ds);
        if r.chance(1, 3) {
            parts.insert(0, s);
        } else {
            parts.push(s);
        }
    }
    let mut o = vec![0u8; 4];
    if r.chance(1, 6) {
        o[0] = 1;
        parts.push(vec![0xde, 0xad, 0xbe, 0xef]); // checksum
    }
    for p in parts {
        o.extend(p);
    }
    o
}

fn msg(id: i32, body: &[u8], op: i32) -> Vec<u8> {
    let mut o = ((body.len() + 16) as i32).to_le_bytes().to_vec();
    o.extend(id.to_le_bytes());
    o.extend(0x7777i32.to_le_bytes());
    o.extend(op.to_le_bytes());
    o.extend_from_slice(body);
    o
}

fn compressed(id: i32, body: &[u8]) -> Vec<u8> {
    let mut o = OP_MSG.to_le_bytes().to_vec();
    o.extend((body.len() as i32).to_le_bytes());
    o.push(0);
    o.extend_from_slice(body);
    msg(id, &o, 2012)
}

fn op_query(id: i32, q: &Document) -> Vec<u8> {
    let mut o = vec![0u8; 4];
    o.extend(b"admin.$cmd\0");
    o.extend(0i32.to_le_bytes());
    o.extend((-1i32).to_le_bytes());
    o.extend(raw(q));
    msg(id, &o, 2004)
}

fn coll(db: &mut Db, r: &mut Rng) -> String {
    format!("{}x{:x}", db.fresh(), r.u64())
}

fn sdocs(r: &mut Rng, n: usize) -> Vec<Document> {
    (0..n as i32)
        .map(|i| {
            let mut d = doc! {"_id": i};
            d.extend(gen::body(r).into_iter().filter(|(k, _)| k != "_id"));
            d
        })
        .collect()
}

fn all(c: &mut Conn, r: &mut Rng, name: &str, lsid: Option<&Document>, tags: &[&'static str]) -> R<Vec<Document>> {
    let mut cmd = doc! {"find": name, "filter": {}, "batchSize": 100000, "$db": "t"};
    if let Some(l) = lsid {
        cmd.insert("lsid", l.clone());
    }
    let d = c.ok(r, &cmd, &[], tags)?;
    let cur = match d.get_document("cursor") {
        Ok(x) => x,
        Err(_) => return fail(&["C20"], format!("{cmd:?}: no cursor in {}", short(&d))),
    };
    if let Some(id) = int(cur.get("id")).filter(|i| *i != 0) {
        c.call(r, &doc! {"killCursors": name, "cursors": [id], "$db": "t"}, &[], tags)?;
    }
    Ok(batch(cur, "firstBatch"))
}

fn batch(cur: &Document, k: &str) -> Vec<Document> {
    cur.get_array(k).map(|a| a.iter().filter_map(|x| x.as_document().cloned()).collect()).unwrap_or_default()
}

fn alive(tags: &[&'static str], what: &str, r: &mut Rng) -> CaseResult {
    if let Some(p) = stderr_panics() {
        return fail(&["C18", "C19", "C20", "C21", "*"], format!("{what}: the server panicked: {p}"));
    }
    let mut c = connect()?;
    c.ok(r, &doc! {"ping": 1, "$db": "t"}, &[], tags)?;
    Ok(())
}

// ------------------------------------------------------------------ C18

pub fn wire_case(db: &mut Db, r: &mut Rng, i: u64) -> CaseResult {
    if i % 2 == 0 {
        valid_messages(db, r)
    } else {
        broken_messages(db, r)
    }
}

/// Several valid messages in one stream, delivered in arbitrary pieces: each is answered, in order, and stores exactly its documents.
fn valid_messages(db: &mut Db, r: &mut Rng) -> CaseResult {
    let t: &[&'static str] = &["C18"];
    let mut c = connect()?;
    let name = coll(db, r);
    let mut stream = vec![];
    let mut want: Vec<Document> = vec![];
    let mut ids = vec![];
    let n = 1 + r.below(6);
    for _ in 0..n {
        let id = *r.pick(&[0, 1, -1, i32::MAX, i32::MIN, 0x01020304, 257, 65536]);
        ids.push(id);
        match r.below(7) {
            0 => stream.extend(op_query(id, &doc! {"isMaster": 1, "helloOk": true})),
            1 => {
                let b = sections(r, &doc! {"ping": 1, "$db": "t"}, &[]);
                stream.extend(compressed(id, &b));
            }
            2 => {
                let pad = "x".repeat(r.below(3000));
                stream.extend(msg(id, &sections(r, &doc! {"ping": 1, "$db": "t", "pad": pad}, &[]), OP_MSG));
            }
            k => {
                let base = want.len() as i32;
                let m = 1 + r.below(4);
                let mut ds = sdocs(r, m);
                for (j, d) in ds.iter_mut().enumerate() {
                    d.insert("_id", base + j as i32);
                }
                want.extend(ds.clone());
                let cmd = doc! {"insert": &name, "$db": "t"};
                let b = match k {
                    3 if m > 1 => {
                        let tail = ds.split_off(1);
                        sections(r, &cmd, &[("documents", ds), ("documents", tail)])
                    }
                    4 => {
                        let mut cmd = cmd.clone();
                        cmd.insert("documents", Bson::Array(ds.into_iter().map(Bson::Document).collect()));
                        sections(r, &cmd, &[])
                    }
                    _ => sections(r, &cmd, &[("documents", ds)]),
                };
                if k == 5 {
                    stream.extend(compressed(id, &b));
                } else {
                    stream.extend(msg(id, &b, OP_MSG));
                }
                stat("inserts over the wire");
            }
        }
    }
    log(format!("stream {:02x?}", stream));
    let mut at = 0;
    while at < stream.len() {
        let k = if r.chance(1, 3) { stream.len() - at } else { (1 + r.below(400)).min(stream.len() - at) };
        if !c.send(&stream[at..at + k]) {
            return fail(t, "the server closed the connection during valid messages");
        }
        at += k;
    }
    for id in ids {
        let d = match c.reply(id, "a message of the stream") {
            Ok(d) => d,
            Err(mut f) => {
                f.tags.push("C18");
                return Err(f);
            }
        };
        ensure!(t, int(d.get("ok")) == Some(1), "valid message refused: {}", short(&d));
    }
    stat("streams");
    let mut got = all(&mut c, r, &name, None, t)?;
    got.sort_by_key(|d| int(d.get("_id")));
    want.sort_by_key(|d| int(d.get("_id")));
    ensure!(t, same_list(&got, &want, true), "the messages stored {} instead of {}", show(&got), show(&want));
    alive(t, "valid messages", r)
}

/// A broken message is refused: no success reply, nothing stored, the server lives on.
fn broken_messages(db: &mut Db, r: &mut Rng) -> CaseResult {
    let t: &[&'static str] = &["C18"];
    let name = coll(db, r);
    for _ in 0..4 {
        let cmd = doc! {"insert": &name, "$db": "t"};
        let d = sdocs(r, 1).remove(0);
        let payload = {
            let mut p = vec![0u8];
            p.extend(raw(&cmd));
            p
        };
        let seq = sequence("documents", &[d.clone()]);
        let body = |parts: &[&[u8]], flags: u8| {
            let mut o = vec![flags, 0, 0, 0];
            for p in parts {
                o.extend_from_slice(p);
            }
            o
        };
        let put = |v: &mut Vec<u8>, at: usize, x: i32| v[at..at + 4].copy_from_slice(&x.to_le_bytes());
        let bad_len = |r: &mut Rng, right: i32| loop {
            let x = match r.below(8) {
                0 => -1,
                1 => i32::MIN,
                2 => i32::MAX,
                3 => r.range(0, 4) as i32,
                4 => right - 1,
                5 => right + 1,
                6 => right + r.range(1, 40) as i32,
                _ => r.u64() as i32,
            };
            if x != right {
                return x;
            }
        };
        let id = r.u64() as i32;
        let kind = r.below(16);
        // (bytes, may the server wait for more bytes?)
        let (m, waits): (Vec<u8>, bool) = match kind {
            0 => {
                // the length of the payload document is wrong
                let mut p = payload.clone();
                let right = (p.len() - 1) as i32;
                let x = bad_len(r, right);
                put(&mut p, 1, x);
                (msg(id, &body(&[&seq, &p], 0), OP_MSG), false)
            }
            1 => {
                // the length of a sequence is wrong
                let mut s = seq.clone();
                let right = (s.len() - 1) as i32;
                let x = bad_len(r, right);
                put(&mut s, 1, x);
                (msg(id, &body(&[&payload, &s], 0), OP_MSG), false)
            }
            2 => {
                // the length of a document in a sequence is wrong
                let mut s = seq.clone();
                let at = 1 + 4 + "documents".len() + 1;
                let right = (s.len() - at) as i32;
                let x = bad_len(r, right);
                put(&mut s, at, x);
                (msg(id, &body(&[&payload, &s], 0), OP_MSG), false)
            }
            3 => (msg(id, &body(&[&seq], 0), OP_MSG), false),
            4 => (msg(id, &body(&[&payload, &payload, &seq], 0), OP_MSG), false),
            5 => {
                // bytes after the last section
                let junk = vec![0u8; 1 + r.below(4)];
                (msg(id, &body(&[&payload, &seq, &junk], 0), OP_MSG), false)
            }
            6 => {
                // part of a checksum only
                let junk = vec![0u8; 1 + r.below(3)];
                (msg(id, &body(&[&payload, &seq, &junk], 1), OP_MSG), false)
            }
            7 => {
                // header length below the header's own size
                let mut m = msg(id, &body(&[&payload, &seq], 0), OP_MSG);
                put(&mut m, 0, *r.pick(&[0, 1, 15, -1, -16, i32::MIN, 16, 17, 19]));
                (m, false)
            }
            8 => {
                // header length above the maximum
                let mut m = msg(id, &body(&[&payload, &seq], 0), OP_MSG);
                put(&mut m, 0, *r.pick(&[i32::MAX, 16 * 1024 * 1024 + 1, 64 << 20]));
                (m, false)
            }
            9 => (msg(id, &body(&[&payload, &seq], 0), *r.pick(&[0, 1, -1, 2002, 2010, 2011, 2014])), false),
            10 => {
                // truncated message, then the end of the stream
                let mut m = msg(id, &body(&[&payload, &seq], 0), OP_MSG);
                let k = r.below(m.len() - 1) + 1;
                m.truncate(k);
                (m, true)
            }
            11 => {
                // wrong uncompressed size
                let mut m = compressed(id, &body(&[&payload, &seq], 0));
                let right = (m.len() - 16 - 9) as i32;
                let x = bad_len(r, right);
                put(&mut m, 20, x);
                (m, false)
            }
            12 => {
                let mut m = compressed(id, &body(&[&payload, &seq], 0));
                match r.below(2) {
                    0 => put(&mut m, 16, *r.pick(&[0, 1, 2012, 2004, -1])),
                    _ => m[24] = *r.pick(&[4u8, 9, 255]),
                }
                (m, false)
            }
            13 => {
                // an identifier without its terminator
                let mut s = vec![1u8];
                s.extend(13i32.to_le_bytes());
                s.extend(b"documents");
                (msg(id, &body(&[&payload, &s], 0), OP_MSG), false)
            }
            14 => {
                // a query that asks for more than one document
                let mut m = op_query(id, &doc! {"insert": &name, "documents": [d.clone()], "$db": "t"});
                let at = 16 + 4 + 11;
                put(&mut m, at + 4 * r.below(2), *r.pick(&[1, 5, -2, i32::MIN]));
                (m, false)
            }
            _ => {
                // a document whose elements run past its end
                let mut p = payload.clone();
                let at = p.len() - 1;
                p[at] = *r.pick(&[1u8, 2, 255]);
                (msg(id, &body(&[&seq, &p], 0), OP_MSG), false)
            }
        };
        log(format!("broken message of kind {kind}: {:02x?}", m));
        stat("broken messages");
        let mut c = connect()?;
        let _ = c.send(&m);
        if waits {
            let _ = c.s.shutdown(std::net::Shutdown::Write);
        } else {
            // a valid message behind the broken one must not be taken for a part of it
            c.s.set_read_timeout(Some(Duration::from_millis(3000))).unwrap();
        }
        match c.recv() {
            Got::Closed => stat("refused by closing"),
            Got::Frame(f) => {
                let d: Document = f.body.get(5..).and_then(|b| bson::from_slice(b).ok()).unwrap_or_default();
                ensure!(t, int(d.get("ok")) != Some(1), "a broken message (kind {kind}) was answered with success: {}", short(&d));
                stat("refused by a reply");
            }
            Got::Silent => return fail(t, format!("the server went on waiting after a broken message (kind {kind})")),
        }
    }
    let mut c = connect()?;
    let got = all(&mut c, r, &name, None, t)?;
    ensure!(t, got.is_empty(), "broken messages stored {}", show(&got));
    alive(t, "broken messages", r)
}

// ------------------------------------------------------------------ C19

struct Open {
    name: String,
    id: i64,
    want: Vec<Document>,
    at: usize,
}

pub fn cursor_case(db: &mut Db, r: &mut Rng, _i: u64) -> CaseResult {
    let t: &[&'static str] = &["C19"];
    let mut c = connect()?;
    let mut colls: Vec<(String, Vec<Document>)> = vec![];
    for _ in 0..2 {
        let name = coll(db, r);
        let n = *r.pick(&[0usize, 1, 2, 3, 5, 9, 17]);
        let ds: Vec<Document> = (0..n as i32).map(|i| doc! {"_id": i, "v": (i % 3), "c": &name}).collect();
        if !ds.is_empty() {
            c.ok(r, &doc! {"insert": &name, "$db": "t"}, &[("documents", ds.clone())], t)?;
        }
        colls.push((name, ds));
    }
    let mut open: Vec<Open> = vec![];
    let mut dead: Vec<i64> = vec![];
    // sometimes many cursors are open together: a table of cursors that is bounded, or whose
    // ids are short, shows only then
    let crowd = if r.chance(1, 6) { *r.pick(&[12usize, 40, 40, 80, 150]) } else { 0 };
    for turn in 0..(crowd + 6 + r.below(14)) {
        if r.chance(1, 8) {
            c = connect()?;
        }
        match if turn < crowd { 0 } else { r.below(10) } {
            0..=3 => {
                let (name, ds) = r.pick(&colls).clone();
                let mut want = ds.clone();
                let mut cmd = doc! {"find": &name, "$db": "t"};
                if r.chance(1, 3) {
                    cmd.insert("filter", doc! {"v": 1});
                    want.retain(|d| int(d.get("v")) == Some(1));
                }
                if r.chance(1, 4) {
                    let k = r.below(4);
                    cmd.insert("skip", k as i32);
                    want.drain(0..k.min(want.len()));
                }
                if r.chance(1, 4) {
                    let k = 1 + r.below(6);
                    cmd.insert("limit", k as i64);
                    want.truncate(k);
                }
                let mut size = usize::MAX;
                if r.chance(5, 6) {
                    size = *r.pick(&[0usize, 1, 2, 3, 5, 9, 100]);
                    cmd.insert("batchSize", if r.chance(1, 2) { Bson::Int32(size as i32) } else { Bson::Int64(size as i64) });
                }
                let single = r.chance(1, 10);
                if single {
                    cmd.insert("singleBatch", true);
                }
                let d = c.ok(r, &cmd, &[], t)?;
                let cur = d.get_document("cursor").cloned().unwrap_or_default();
                let got = batch(&cur, "firstBatch");
                let id = int(cur.get("id"));
                stat("finds");
                let Some(id) = id else { return fail(t, format!("{cmd:?}: no cursor id in {}", short(&d))) };
                ensure!(t, single || got.len() <= size, "{cmd:?}: first batch of {} documents", got.len());
                ensure!(t, got.len() <= want.len() && same_list(&got, &want[..got.len()], true), "{cmd:?}: first batch {} of {}", show(&got), show(&want));
                ensure!(t, id != 0 || got.len() == want.len() || (single && got.len() <= want.len()), "{cmd:?}: cursor finished after {} of {} documents", got.len(), want.len());
                ensure!(t, !single || id == 0, "{cmd:?}: a single batch left cursor {id} open");
                ensure!(t, !open.iter().any(|o| o.id == id), "{cmd:?}: id {id} denotes two open cursors");
                if id != 0 {
                    dead.retain(|x| *x != id);
                    let at = got.len();
                    open.push(Open { name, id, want, at });
                }
            }
            4..=7 if !open.is_empty() => {
                let k = r.below(open.len());
                let mut cmd = doc! {"getMore": open[k].id, "collection": &open[k].name, "$db": "t"};
                let mut size = usize::MAX;
                if r.chance(5, 6) {
                    size = *r.pick(&[1usize, 2, 3, 5, 100]);
                    cmd.insert("batchSize", if r.chance(1, 2) { Bson::Int32(size as i32) } else { Bson::Int64(size as i64) });
                }
                let d = c.ok(r, &cmd, &[], t)?;
                let cur = d.get_document("cursor").cloned().unwrap_or_default();
                let got = batch(&cur, "nextBatch");
                stat("getMores");
                let rest = &open[k].want[open[k].at..];
                ensure!(t, got.len() <= size, "{cmd:?}: batch of {} documents", got.len());
                ensure!(t, got.len() <= rest.len() && same_list(&got, &rest[..got.len()], true), "{cmd:?}: batch {} instead of the beginning of {}", show(&got), show(rest));
                let id = int(cur.get("id")).unwrap_or(-1);
                if id == 0 {
                    ensure!(t, got.len() == rest.len(), "{cmd:?}: cursor finished with {} documents undelivered", rest.len() - got.len());
                    dead.push(open[k].id);
                    open.remove(k);
                    stat("exhausted");
                } else {
                    ensure!(t, id == open[k].id, "{cmd:?}: cursor became {id}");
                    ensure!(t, !got.is_empty(), "{cmd:?}: an open cursor delivers nothing");
                    open[k].at += got.len();
                }
            }
            8 if !open.is_empty() => {
                let k = r.below(open.len());
                let mut ids = vec![Bson::Int64(open[k].id)];
                if let Some(x) = dead.last() {
                    ids.push(Bson::Int64(*x));
                }
                c.ok(r, &doc! {"killCursors": &open[k].name, "cursors": ids, "$db": "t"}, &[], t)?;
                dead.push(open[k].id);
                open.remove(k);
                stat("killed");
            }
            9 => {
                if let Some(x) = dead.last().copied() {
                    let d = c.call(r, &doc! {"getMore": x, "collection": &colls[0].0, "$db": "t"}, &[], t)?;
                    ensure!(t, int(d.get("ok")) == Some(0), "cursor {x} is still usable: {}", short(&d));
                    stat("dead cursors");
                }
            }
            _ => {
                let (name, ds) = r.pick(&colls).clone();
                let d = c.ok(r, &doc! {"aggregate": &name, "pipeline": [{"$match": {"v": 1}}, {"$skip": 1}], "cursor": {}, "$db": "t"}, &[], t)?;
                let cur = d.get_document("cursor").cloned().unwrap_or_default();
                let mut got = batch(&cur, "firstBatch");
                let mut id = int(cur.get("id")).unwrap_or(0);
                let want: Vec<Document> = ds.into_iter().filter(|d| int(d.get("v")) == Some(1)).skip(1).collect();
                let mut turns = 0;
                while id != 0 {
                    ensure!(t, !open.iter().any(|o| o.id == id), "aggregate: id {id} denotes two open cursors");
                    let d = c.ok(r, &doc! {"getMore": id, "collection": &name, "$db": "t"}, &[], t)?;
                    let cur = d.get_document("cursor").cloned().unwrap_or_default();
                    got.extend(batch(&cur, "nextBatch"));
                    id = int(cur.get("id")).unwrap_or(0);
                    turns += 1;
                    ensure!(t, turns <= 3, "aggregate: the cursor does not finish");
                }
                ensure!(t, same_list(&got, &want, true), "aggregate delivered {} instead of {}", show(&got), show(&want));
                stat("aggregates");
            }
        }
    }
    // drain everything
    while let Some(o) = open.pop() {
        let mut at = o.at;
        let mut turns = 0;
        loop {
            let d = c.ok(r, &doc! {"getMore": o.id, "collection": &o.name, "batchSize": 4, "$db": "t"}, &[], t)?;
            let cur = d.get_document("cursor").cloned().unwrap_or_default();
            let got = batch(&cur, "nextBatch");
            ensure!(t, at + got.len() <= o.want.len() && same_list(&got, &o.want[at..at + got.len()], true), "cursor {} of {}: batch {} at position {at} of {}", o.id, o.name, show(&got), show(&o.want));
            at += got.len();
            turns += 1;
            if int(cur.get("id")) == Some(0) {
                break;
            }
            ensure!(t, turns < 40, "cursor {} does not finish", o.id);
        }
        ensure!(t, at == o.want.len(), "cursor {} of {} delivered {at} of {} documents", o.id, o.name, o.want.len());
        stat("exhausted");
    }
    alive(t, "cursors", r)
}

// ------------------------------------------------------------------ C20

fn set_doc(r: &mut Rng) -> Document {
    let f = *r.pick(&["v", "w", "z"]);
    match r.below(8) {
        0 => doc! {"$max": {f: r.range(0, 3) as i32}},
        1 => doc! {"$unset": {*r.pick(&["w", "z"]): ""}},
        2 => doc! {"$min": {f: r.range(0, 3) as i32}},
        _ => doc! {"$set": {f: r.range(0, 3) as i32}},
    }
}

fn filter(r: &mut Rng) -> Document {
    match r.below(5) {
        0 => doc! {},
        1 => doc! {"_id": r.range(0, 7) as i32},
        2 => doc! {"v": {"$gte": r.range(0, 3) as i32}},
        _ => doc! {"v": r.range(0, 3) as i32},
    }
}

/// the number in one of the numeric types
fn number(r: &mut Rng, n: i64) -> Bson {
    match r.below(4) {
        0 => Bson::Int64(n),
        1 => Bson::Double(n as f64),
        _ => Bson::Int32(n as i32),
    }
}

fn with_session(mut cmd: Document, l: Option<&Document>) -> Document {
    if let Some(l) = l {
        cmd.insert("lsid", l.clone());
        cmd.insert("autocommit", false);
    }
    cmd
}

/// One write command; checks its counts against `docs` and applies it to `docs`.
fn write(c: &mut Conn, r: &mut Rng, name: &str, docs: &mut Vec<Document>, l: Option<&Document>, start: bool, ids: std::ops::Range<i32>, t: &[&'static str]) -> CaseResult {
    let start_flag = if r.chance(2, 3) { Bson::Boolean(true) } else { r.pick(&[Bson::Int32(1), Bson::Int64(1)]).clone() };
    let bare = !start && r.chance(1, 4);
    let extra = |mut d: Document| {
        if start {
            d.insert("startTransaction", start_flag.clone());
        }
        let mut d = with_session(d, l);
        if bare {
            // the session id alone names the transaction
            d.remove("autocommit");
        }
        d
    };
    let mine = |d: &Document| int(d.get("_id")).map_or(false, |i| ids.contains(&(i as i32)));
    let own = |q: Document| if l.is_some() || ids.end < 1000 { doc! {"$and": [q, {"_id": {"$gte": ids.start}}, {"_id": {"$lt": ids.end}}]} } else { q };
    match r.below(6) {
        0 | 1 => {
            let n = 1 + r.below(3);
            let mut ds = vec![];
            for _ in 0..n {
                let free: Vec<i32> = ids.clone().take(if start { 100 } else { 12 }).filter(|i| !docs.iter().chain(ds.iter()).any(|d: &Document| int(d.get("_id")) == Some(*i as i64))).collect();
                if free.is_empty() {
                    break;
                }
                ds.push(doc! {"_id": *r.pick(&free), "v": r.range(0, 3) as i32});
            }
            if ds.is_empty() {
                return Ok(());
            }
            let d = if r.chance(1, 3) {
                let cmd = extra(doc! {"insert": name, "documents": ds.clone(), "$db": "t"});
                c.ok(r, &cmd, &[], t)?
            } else if ds.len() > 1 && r.chance(1, 3) {
                // in two sequences
                let cmd = extra(doc! {"insert": name, "$db": "t"});
                c.ok(r, &cmd, &[("documents", ds[..1].to_vec()), ("documents", ds[1..].to_vec())], t)?
            } else {
                let cmd = extra(doc! {"insert": name, "$db": "t"});
                c.ok(r, &cmd, &[("documents", ds.clone())], t)?
            };
            ensure!(&["C20"], int(d.get("n")) == Some(ds.len() as i64), "insert of {} documents reports n = {:?}", ds.len(), d.get("n"));
            docs.extend(ds);
            docs.sort_by_key(|d| int(d.get("_id")));
            stat("insert");
        }
        2..=3 => {
            let mut ups = vec![];
            let (mut n, mut m) = (0, 0);
            for _ in 0..(1 + r.below(2)) {
                let q = own(filter(r));
                let u = set_doc(r);
                let multi = r.chance(2, 3);
                let mut e = doc! {"q": q.clone(), "u": u.clone()};
                if multi || r.chance(1, 2) {
                    e.insert("multi", multi);
                }
                ups.push(Bson::Document(e));
                for d in docs.iter_mut() {
                    if mine(d) && model::matches(d, &q) {
                        n += 1;
                        let (x, changed) = model::apply(d, &u).unwrap();
                        if changed {
                            m += 1;
                        }
                        *d = x;
                        if !multi {
                            break;
                        }
                    }
                }
            }
            let cmd = extra(doc! {"update": name, "updates": ups, "$db": "t"});
            let d = c.ok(r, &cmd, &[], t)?;
            ensure!(&["C20"], int(d.get("n")) == Some(n), "{cmd:?} reports n = {:?} instead of {n}", d.get("n"));
            // rewriting a document with what it already contains may count as modified
            ensure!(&["C20"], int(d.get("nModified")).map_or(false, |x| x >= m && x <= n), "{cmd:?} reports nModified = {:?}, {m} of {n} matched documents changed", d.get("nModified"));
            stat("update");
        }
        4 => {
            let mut dels = vec![];
            let mut n = 0;
            for _ in 0..(1 + r.below(2)) {
                let q = own(filter(r));
                let one = r.chance(1, 2);
                dels.push(Bson::Document(doc! {"q": q.clone(), "limit": number(r, one as i64)}));
                let mut hit = 0;
                docs.retain(|d| {
                    let gone = mine(d) && model::matches(d, &q) && !(one && hit > 0);
                    if gone {
                        hit += 1;
                    }
                    !gone
                });
                n += hit;
            }
            let cmd = extra(doc! {"delete": name, "deletes": dels, "$db": "t"});
            let d = c.ok(r, &cmd, &[], t)?;
            ensure!(&["C20"], int(d.get("n")) == Some(n), "{cmd:?} reports n = {:?} instead of {n}", d.get("n"));
            stat("delete");
        }
        _ => {
            let q = filter(r);
            let cmd = extra(doc! {"find": name, "filter": q.clone(), "batchSize": 1000, "$db": "t"});
            let d = c.ok(r, &cmd, &[], t)?;
            let cur = d.get_document("cursor").cloned().unwrap_or_default();
            let got = batch(&cur, "firstBatch");
            let want: Vec<Document> = docs.iter().filter(|d| model::matches(d, &q)).cloned().collect();
            ensure!(t, same_list(&got, &want, false), "{cmd:?} gave {} instead of {}", show(&got), show(&want));
            if let Some(id) = int(cur.get("id")).filter(|i| *i != 0) {
                c.ok(r, &doc! {"killCursors": name, "cursors": [id], "$db": "t"}, &[], t)?;
            }
            stat("find");
        }
    }
    Ok(())
}

pub fn reply_case(db: &mut Db, r: &mut Rng, _i: u64) -> CaseResult {
    let t: &[&'static str] = &["C20"];
    let mut c = connect()?;
    let name = coll(db, r);
    let mut docs: Vec<Document> = vec![];
    for _ in 0..(4 + r.below(10)) {
        if r.chance(3, 5) {
            write(&mut c, r, &name, &mut docs, None, false, 0..i32::MAX, t)?;
            continue;
        }
        // commands that must fail, and still get their reply
        let lsid = doc! {"id": Bson::Binary(Binary { subtype: BinarySubtype::Uuid, bytes: (0..16).map(|_| r.u64() as u8).collect() })};
        let bad = match r.below(22) {
            0 => doc! {"nonsense": 1},
            1 => doc! {"find": 5, "$db": "t"},
            2 => doc! {"find": &name},
            3 => doc! {"find": &name, "filter": 3, "$db": "t"},
            4 => doc! {"find": &name, "filter": {"a": {"$nope": 1}}, "$db": "t"},
            5 => doc! {"find": "a.b", "$db": "t"},
            6 => doc! {"getMore": 987654321i64, "collection": &name, "$db": "t"},
            7 => doc! {"getMore": "x", "collection": &name, "$db": "t"},
            8 => doc! {"update": &name, "$db": "t"},
            9 => doc! {"update": &name, "updates": [{"q": {}}], "$db": "t"},
            10 => doc! {"update": &name, "updates": [{"q": {}, "u": {"$nope": {"a": 1}}, "multi": true}], "$db": "t"},
            11 => doc! {"delete": &name, "$db": "t"},
            12 => doc! {"delete": &name, "deletes": [{"limit": 0}], "$db": "t"},
            13 => doc! {"delete": &name, "deletes": 1, "$db": "t"},
            14 => doc! {"aggregate": &name, "pipeline": [{"$nope": 1}], "$db": "t"},
            15 => doc! {"aggregate": &name, "pipeline": [1], "$db": "t"},
            16 => doc! {"aggregate": &name, "$db": "t"},
            17 => doc! {"commitTransaction": 1, "$db": "t"},
            18 => doc! {"commitTransaction": 1, "lsid": lsid, "$db": "t"},
            19 => doc! {"abortTransaction": 1i64, "lsid": lsid, "$db": "t"},
            20 => doc! {"find": &name, "startTransaction": true, "$db": "t"},
            _ => doc! {"killCursors": &name, "cursors": ["x"], "$db": "t"},
        };
        // some of these only fail when they meet a collection or a document
        let d = c.call(r, &bad, &[], t)?;
        let needs_docs = bad.contains_key("update") || bad.get_document("filter").is_ok() || bad.contains_key("aggregate");
        ensure!(t, int(d.get("ok")) == Some(0) || needs_docs, "{bad:?} was answered with success: {}", short(&d));
        stat("failing commands");
        if r.chance(1, 3) {
            // a duplicate _id
            if let Some(x) = docs.first().cloned() {
                let nid = 5000 + r.range(0, 1000) as i32;
                let d = c.call(r, &doc! {"insert": &name, "$db": "t"}, &[("documents", vec![doc! {"_id": nid, "v": 9}, x])], t)?;
                ensure!(t, int(d.get("ok")) == Some(0), "a duplicate insert was answered with success: {}", short(&d));
            }
        }
        if r.chance(1, 4) {
            let cmd = *r.pick(&["ping", "isMaster", "ismaster"]);
            let d = c.ok(r, &doc! {cmd: 1, "$db": "t"}, &[], t)?;
            ensure!(t, int(d.get("ok")) == Some(1), "{d:?}");
        }
    }
    let got = all(&mut c, r, &name, None, t)?;
    ensure!(t, same_list(&got, &docs, false), "the commands left {} instead of {}", show(&got), show(&docs));
    alive(t, "commands", r)
}

// ------------------------------------------------------------------ C21

struct Sess {
    lsid: Document,
    ids: std::ops::Range<i32>,
    /// what the transaction sees, while one is open
    txn: bool,
    touched: bool,
    own: Vec<Document>,
}

pub fn session_case(db: &mut Db, r: &mut Rng, _i: u64) -> CaseResult {
    let t: &[&'static str] = &["C21"];
    let mut conns = vec![connect()?, connect()?];
    let name = coll(db, r);
    // `committed` is the state everybody sees; every session writes a range of _id of its own
    let mut committed: Vec<Document> = vec![doc! {"_id": 900, "v": 1}, doc! {"_id": 901, "v": 2}];
    for k in 0..3 {
        for j in 0..2 {
            committed.push(doc! {"_id": k * 100 + j, "v": j});
        }
    }
    committed.sort_by_key(|d| int(d.get("_id")));
    conns[0].ok(r, &doc! {"insert": &name, "$db": "t"}, &[("documents", committed.clone())], t)?;
    // mostly two sessions, sometimes many transactions are open together
    let many = if r.chance(1, 8) { *r.pick(&[5i32, 12, 40]) } else { 2 };
    let mut ss: Vec<Sess> = (0..many)
        .map(|k| Sess {
            lsid: doc! {"id": Bson::Binary(Binary { subtype: BinarySubtype::Uuid, bytes: (0..16).map(|_| r.u64() as u8).collect() })},
            ids: if k < 2 { k * 100..(k + 1) * 100 } else { 1000 + k * 100..1100 + k * 100 },
            txn: false,
            touched: false,
            own: vec![],
        })
        .collect();
    let part = |all: &[Document], ids: &std::ops::Range<i32>| -> Vec<Document> { all.iter().filter(|d| ids.contains(&(int(d.get("_id")).unwrap() as i32))).cloned().collect() };
    let view = |committed: &[Document], s: &Sess| -> Vec<Document> {
        if !s.txn {
            return committed.to_vec();
        }
        let mut v: Vec<Document> = committed.iter().filter(|d| !s.ids.contains(&(int(d.get("_id")).unwrap() as i32))).cloned().collect();
        v.extend(s.own.clone());
        v.sort_by_key(|d| int(d.get("_id")));
        v
    };
    let many = many as usize;
    let crowd = if many > 2 { many } else { 0 };
    for turn in 0..(crowd + 8 + r.below(16)) {
        let ci = r.below(2);
        let k = if turn < crowd { turn } else { r.below(many) };
        match if turn < crowd { 0 } else { r.below(12) } {
            0..=5 => {
                // a command of a session
                let start = !ss[k].txn && r.chance(2, 3);
                if start {
                    ss[k].txn = true;
                    ss[k].own = part(&committed, &ss[k].ids);
                    stat("transactions");
                }
                let mut seen = view(&committed, &ss[k]);
                let (lsid, ids) = (ss[k].lsid.clone(), ss[k].ids.clone());
                write(&mut conns[ci], r, &name, &mut seen, Some(&lsid), start, ids.clone(), t)?;
                ss[k].touched = ss[k].txn;
                if ss[k].txn {
                    ss[k].own = part(&seen, &ids);
                } else {
                    committed = seen;
                    stat("session commands outside a transaction");
                }
                if start {
                    // make sure that the transaction really began
                    let mut cmd = doc! {"find": &name, "filter": {"_id": -1}, "$db": "t", "lsid": lsid, "autocommit": false};
                    cmd.insert("batchSize", 10);
                    let d = conns[ci].ok(r, &cmd, &[], t)?;
                    if let Some(id) = d.get_document("cursor").ok().and_then(|c| int(c.get("id"))).filter(|i| *i != 0) {
                        conns[ci].ok(r, &doc! {"killCursors": &name, "cursors": [id], "$db": "t"}, &[], t)?;
                    }
                }
            }
            6 | 7 => {
                // somebody without a session
                let ids = 200..300;
                write(&mut conns[ci], r, &name, &mut committed, None, false, ids, t)?;
                stat("commands without a session");
            }
            8 | 9 => {
                // what everybody sees
                let seen = all(&mut conns[ci], r, &name, None, t)?;
                ensure!(t, same_list(&seen, &committed, false), "outside the transactions one sees {} instead of {}", show(&seen), show(&committed));
                let lsid = ss[k].lsid.clone();
                let seen = all(&mut conns[ci], r, &name, Some(&lsid), t)?;
                let want = view(&committed, &ss[k]);
                ensure!(t, same_list(&seen, &want, false), "session {k} (in a transaction: {}) sees {} instead of {}", ss[k].txn, show(&seen), show(&want));
                // count through an aggregation inside the session
                let d = conns[ci].ok(r, &doc! {"aggregate": &name, "pipeline": [{"$count": "n"}], "cursor": {}, "lsid": lsid, "$db": "t"}, &[], t)?;
                let cur = d.get_document("cursor").cloned().unwrap_or_default();
                let n = batch(&cur, "firstBatch").first().and_then(|d| int(d.get("n")));
                ensure!(t, n == Some(want.len() as i64), "session {k} counts {n:?} instead of {}", want.len());
                if let Some(id) = int(cur.get("id")).filter(|i| *i != 0) {
                    conns[ci].ok(r, &doc! {"killCursors": &name, "cursors": [id], "$db": "t"}, &[], t)?;
                }
            }
            10 if ss[k].txn => {
                let cmd = doc! {"commitTransaction": 1, "lsid": ss[k].lsid.clone(), "autocommit": false, "$db": "admin"};
                conns[ci].ok(r, &cmd, &[], t)?;
                let ids = ss[k].ids.clone();
                committed.retain(|d| !ids.contains(&(int(d.get("_id")).unwrap() as i32)));
                committed.extend(ss[k].own.drain(..));
                committed.sort_by_key(|d| int(d.get("_id")));
                ss[k].txn = false;
                stat("commits");
            }
            _ if ss[k].txn => {
                let v = if r.chance(1, 2) { Bson::Int32(1) } else { Bson::Int64(1) };
                let cmd = doc! {"abortTransaction": v, "lsid": ss[k].lsid.clone(), "autocommit": false, "$db": "admin"};
                conns[ci].ok(r, &cmd, &[], t)?;
                ss[k].own.clear();
                ss[k].txn = false;
                stat("aborts");
            }
            _ => {}
        }
    }
    for k in 0..many {
        if ss[k].txn {
            let cmd = doc! {"abortTransaction": 1, "lsid": ss[k].lsid.clone(), "autocommit": false, "$db": "admin"};
            conns[0].ok(r, &cmd, &[], t)?;
        }
    }
    let seen = all(&mut conns[0], r, &name, None, t)?;
    ensure!(t, same_list(&seen, &committed, false), "at the end there is {} instead of {}", show(&seen), show(&committed));
    alive(t, "sessions", r)
}
