// the messages and replies of the wire protocol
//@rule sequential execution of one connection: .await ~~>
//@rule sequential execution of one connection: pub(crate) async fn ~~> fn
//@rule sequential execution of one connection: async fn ~~> fn
//@rule one stream type: <T: AsyncRead + Unpin + Send>(mut reader: T, ~~> (reader: &mut Stream,
//@rule one stream type: <R: tokio::io::AsyncRead + Unpin + Send>(reader: &mut R,) ~~> (reader: &mut Stream)
//@rule one stream type: <W: AsyncWrite + Unpin>(&self, stream: &mut W) ~~> (&self, stream: &mut Stream)
//@rule the result type: anyhow::Result ~~> Result
//@rule one stream type: Header::read_from(&mut reader) ~~> Header::read_from(reader)
//@rule bytes by contract: .to_le_bytes() ~~> .to_le_bytes4()
//@rule text of the error dropped: anyhow!($e) ~~> Error
//@rule checked arithmetic by contract: Checked::<usize>::try_from($e)? ~~> Checked::of_i32($e)?
//@rule checked arithmetic by contract: length - Header::LENGTH ~~> length.minus(Header::LENGTH)
//@rule checked arithmetic by contract: length_remaining - count_reader.bytes_read() ~~> length_remaining.minus(count_reader.bytes_read())
//@rule checked arithmetic by contract: size - std::mem::size_of::<i32>() ~~> size.minus(4)
//@rule checked arithmetic by contract: length_remaining -= $e; ~~> length_remaining = length_remaining.minus($e);
//@rule size of a number: std::mem::size_of::<u32>() ~~> 4
//@rule a zeroed buffer: vec![0u8; $e] ~~> zeroes($e)
//@rule a slice as a reader: let reader = $i_b.as_slice(); ~~> let reader = Bytes::of(&$i_b);
//@rule a slice as a reader: let mut $i_c = $i_b.as_slice(); ~~> let mut $i_c = Bytes::of(&$i_b);
//@rule a slice as a reader: mut reader: &[u8] ~~> reader0: Bytes
//@rule take and read to the end: $i_r.by_ref().take($e).read_to_end(&mut $i_b)? ~~> $i_r.take_to_end($e, &mut $i_b)?
//@rule take and read to the end: $i_r.take($e).read_to_end(&mut $i_b)? ~~> $i_r.take_to_end($e, &mut $i_b)?

pub struct Checked { pub v: Option<usize> }
/// checked.rs: macro-generated checked arithmetic, None when an operation overflowed (assumed)
impl Checked {
    pub fn new(x: usize) -> (r: Checked) ensures r.v == Some(x), { Checked { v: Some(x) } }
    pub fn of_i32(x: i32) -> (r: Result<Checked>)
        ensures (match r { Ok(c) => x >= 0 && c.v == Some(x as usize), Err(_) => x < 0 }),
    { if x >= 0 { Ok(Checked { v: Some(x as usize) }) } else { Err(Error) } }
    pub fn get(&self) -> (r: Result<usize>)
        ensures (match r { Ok(x) => self.v == Some(x), Err(_) => self.v is None }),
    { match self.v { Some(x) => Ok(x), None => Err(Error) } }
    pub fn minus(&self, n: usize) -> (r: Checked)
        ensures r.v == (match self.v { Some(x) => if x >= n { Some((x - n) as usize) } else { None }, None => None }),
    { match self.v { Some(x) => if x >= n { Checked { v: Some(x - n) } } else { Checked { v: None } }, None => Checked { v: None } } }
}
impl Clone for Checked { fn clone(&self) -> (r: Self) ensures r == *self, { Checked { v: self.v } } }
impl Copy for Checked {}
#[verifier::external_body]
fn zeroes(n: usize) -> (r: Vec<u8>) ensures r.len() == n, { unimplemented!() }

// ---- documents as bytes (bson crate) ----
/// the crate's structural check of a raw document: among others, the length it starts with is its own
pub uninterp spec fn valid_doc(b: Seq<u8>) -> bool;
pub struct RawDocumentBuf { pub bytes: Vec<u8> }
impl RawDocumentBuf {
    #[verifier::external_body]
    pub fn from_bytes(b: Vec<u8>) -> (r: Result<RawDocumentBuf>)
        ensures r is Ok <==> valid_doc(b@), r is Ok ==> r->Ok_0.bytes@ == b@ && b@.len() >= 5 && le_i32(b@.take(4)) == b@.len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes@, { unimplemented!() }
}
pub uninterp spec fn valid_utf8(b: Seq<u8>) -> bool;
pub uninterp spec fn utf8(s: String) -> Seq<u8>;
#[verifier::external_body]
fn string_from_utf8(b: Vec<u8>) -> (r: Result<String>) ensures r is Ok <==> valid_utf8(b@), r is Ok ==> utf8(r->Ok_0) == b@, { unimplemented!() }

// ---- header ----
#[derive(Structural, PartialEq, Eq, Clone, Copy)]
pub enum OpCode { Reply, Query, Message, Compressed }
pub open spec fn op(c: OpCode) -> int { match c { OpCode::Reply => 1, OpCode::Query => 2004, OpCode::Message => 2013, OpCode::Compressed => 2012 } }
//@discriminants src/polodb/wire/header.rs OpCode op_number r == op(x)
impl OpCode {
//@fn src/polodb/wire/header.rs OpCode::from_i32
//@ret r
//@spec
    ensures (match r { Ok(c) => op(c) == i, Err(_) => i != 1 && i != 2004 && i != 2012 && i != 2013 }),
//@end
}
pub struct Header { pub length: i32, pub request_id: i32, pub response_to: i32, pub op_code: OpCode }
/// the sixteen bytes of a header
pub open spec fn is_header(h: Header, b: Seq<u8>) -> bool {
    b.len() == 16 && le_i32(b.take(4)) == h.length && le_i32(b.subrange(4, 8)) == h.request_id && le_i32(b.subrange(8, 12)) == h.response_to
        && le_i32(b.subrange(12, 16)) == op(h.op_code)
}
impl Header {
    pub const LENGTH: usize = 16;
//@fn src/polodb/wire/header.rs Header::write_to
//@rw the number of an operation: (self.op_code as i32) ~~> op_number(self.op_code)
//@ret r
//@spec
    ensures
        final(stream).rest == old(stream).rest,
        r is Ok ==> final(stream).sent@.len() == old(stream).sent@.len() + 16 && final(stream).sent@.take(old(stream).sent@.len() as int) == old(stream).sent@
            && is_header(*self, final(stream).sent@.skip(old(stream).sent@.len() as int)),
//@start
    let ghost sent0 = stream.sent@;
//@before Ok(())
    proof {
        let b = stream.sent@.skip(sent0.len() as int);
        assert(stream.sent@.take(sent0.len() as int) =~= sent0);
        lemma_four(sent0, stream.sent@);
    }
//@end
//@fn src/polodb/wire/header.rs Header::read_from
//@ret r
//@spec
    ensures
        final(reader).sent == old(reader).sent,
        (match r {
            Ok(h) => old(reader).rest@.len() >= 16 && is_header(h, old(reader).rest@.take(16)) && final(reader).rest@ == old(reader).rest@.skip(16),
            Err(_) => final(reader).failed@ || (old(reader).rest@.len() >= 16 && forall|h: Header| !is_header(h, old(reader).rest@.take(16))),
        }),
//@start
    let ghost s = reader.rest@;
//@before let op_code
    proof { if s.len() >= 16 {
        assert(s.skip(4).take(4) =~= s.take(16).subrange(4, 8));
        assert(s.skip(4).skip(4).take(4) =~= s.take(16).subrange(8, 12));
        assert(s.skip(4).skip(4).skip(4).take(4) =~= s.take(16).subrange(12, 16));
        assert(s.take(4) =~= s.take(16).take(4));
        assert(s.skip(4).skip(4).skip(4).skip(4) =~= s.skip(16));
    } }
//@end
}
/// the parts of what was appended
proof fn lemma_four(a: Seq<u8>, b: Seq<u8>)
    requires b.len() == a.len() + 16, forall|i: int| 0 <= i < a.len() ==> a[i] == b[i],
    ensures
        b.skip(a.len() as int).take(4) =~= b.subrange(a.len() as int, a.len() as int + 4),
        b.skip(a.len() as int).subrange(4, 8) =~= b.subrange(a.len() as int + 4, a.len() as int + 8),
        b.skip(a.len() as int).subrange(8, 12) =~= b.subrange(a.len() as int + 8, a.len() as int + 12),
        b.skip(a.len() as int).subrange(12, 16) =~= b.subrange(a.len() as int + 12, a.len() as int + 16),
{}
/// encoding a header and decoding it gives the same header
proof fn c18_header_round_trip(a: Header, b: Header, s: Seq<u8>)
    requires is_header(a, s), is_header(b, s),
    ensures a == b,
{}

// ---- documents and sections ----
/// a document at the start of s, and what follows it
pub open spec fn doc_at(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    if s.len() < 4 { None } else {
        let n = le_i32(s.take(4));
        if n < 5 || s.len() < n || !valid_doc(s.take(n)) { None } else { Some((s.take(n), s.skip(n))) }
    }
}
pub trait VecWrite { spec fn bytes_of(&self) -> Seq<u8>; fn write_all(&mut self, b: &[u8]) -> (r: Result<()>) ensures r is Ok, final(self).bytes_of() == old(self).bytes_of() + b@; }
impl VecWrite for Vec<u8> { open spec fn bytes_of(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn write_all(&mut self, b: &[u8]) -> (r: Result<()>) { unimplemented!() } }
//@rule one reader type: fn read_document_bytes<R: Read>(mut reader: R) ~~> fn read_document_bytes<R: Read>(reader: &mut R)
//@rule a module: bson_util::read_document_bytes ~~> read_document_bytes
//@rule a vector as a writer: bytes.write_all(&length.to_le_bytes4())? ~~> VecWrite::write_all(&mut bytes, &length.to_le_bytes4())?
//@fn src/polodb/bson_util.rs read_document_bytes
//@ret r
//@spec
    requires old(reader).ok(),
    ensures
        (match r {
            Ok(b) => ({
                let s = old(reader).rest();
                let n = least(le_i32(s.take(4)), s.len() as int);
                s.len() >= 4 && le_i32(s.take(4)) >= 5 && b@ == s.take(n) && R::after(*old(reader), *final(reader), n)
            }),
            Err(_) => old(reader).rest().len() < 4 || le_i32(old(reader).rest().take(4)) < 5,
        }),
//@start
    let ghost r0 = *reader;
    let ghost s = reader.rest();
//@before let mut bytes = Vec::new();
    let ghost r1 = *reader;
    proof { R::after_facts(r0, r1, 4); }
//@before Ok(bytes)
    proof {
        let k = least(length - 4, s.len() - 4);
        R::after_facts(r1, *reader, k);
        R::after_trans(r0, r1, *reader, 4, k);
        let n = least(length as int, s.len() as int);
        lemma_le_unique(bytes@.take(4), s.take(4));
        assert(bytes@ =~= s.take(n));
    }
//@end

pub struct SeqV { pub identifier: Seq<u8>, pub documents: Seq<Seq<u8>> }
pub enum SecV { Document(Seq<u8>), Sequence(SeqV) }
/// the identifier ends before the first zero byte
pub open spec fn ends_at(s: Seq<u8>, i: int) -> bool { 0 <= i < s.len() && s[i] == 0 && (forall|j: int| 0 <= j < i ==> s[j] != 0) }
pub open spec fn docs_from(s: Seq<u8>, acc: Seq<Seq<u8>>) -> Option<Seq<Seq<u8>>> decreases s.len() {
    if s.len() == 0 { Some(acc) } else {
        match doc_at(s) {
            Some((d, tail)) => if tail.len() < s.len() { docs_from(tail, acc.push(d)) } else { None },
            None => None,
        }
    }
}
pub open spec fn sequence_of(s: Seq<u8>) -> Option<SeqV> {
    if exists|i: int| ends_at(s, i) {
        let i = choose|i: int| ends_at(s, i);
        match docs_from(s.skip(i + 1), Seq::empty()) {
            Some(documents) => if valid_utf8(s.take(i)) { Some(SeqV { identifier: s.take(i), documents }) } else { None },
            None => None,
        }
    } else { None }
}
/// one section at the start of s, and what follows it
pub open spec fn section(s: Seq<u8>) -> Option<(SecV, Seq<u8>)> {
    if s.len() < 1 { None }
    else if s[0] == 0 {
        match doc_at(s.skip(1)) { Some((d, tail)) => Some((SecV::Document(d), tail)), None => None }
    }
    else if s.len() < 5 { None }
    else {
        let size = le_i32(s.skip(1).take(4));
        if size < 4 || s.len() - 5 < size - 4 { None }
        else { match sequence_of(s.skip(5).take(size - 4)) { Some(q) => Some((SecV::Sequence(q), s.skip(5).skip(size - 4))), None => None } }
    }
}
pub struct DocumentSequence { pub identifier: String, pub documents: Vec<RawDocumentBuf> }
pub open spec fn docs_view(v: Seq<RawDocumentBuf>) -> Seq<Seq<u8>> { v.map_values(|d: RawDocumentBuf| d.bytes@) }
impl DocumentSequence {
    pub open spec fn view(&self) -> SeqV { SeqV { identifier: utf8(self.identifier), documents: docs_view(self.documents@) } }
}
pub enum MessageSection { Document(RawDocumentBuf), Sequence(DocumentSequence) }
impl MessageSection {
    pub open spec fn view(&self) -> SecV {
        match *self { MessageSection::Document(d) => SecV::Document(d.bytes@), MessageSection::Sequence(q) => SecV::Sequence(q.view()) }
    }
}
proof fn lemma_ends_unique(s: Seq<u8>, i: int, j: int)
    requires ends_at(s, i), ends_at(s, j),
    ensures i == j,
{ if i < j { assert(s[i] != 0); } else if j < i { assert(s[j] != 0); } }
proof fn lemma_docs_view_push(v: Seq<RawDocumentBuf>, d: RawDocumentBuf)
    ensures docs_view(v.push(d)) == docs_view(v).push(d.bytes@),
{ assert(docs_view(v.push(d)) =~= docs_view(v).push(d.bytes@)); }
//@rule text by contract: String::from_utf8($e)? ~~> string_from_utf8($e)?
//@rule checked arithmetic by contract: Checked::<usize>::try_from($e)? ~~> Checked::of_i32($e)?
//@rule the type of the elements: let mut remain_buffer = Vec::new(); ~~> let mut remain_buffer: Vec<u8> = Vec::new();
//@rule the type of the elements: let mut documents = Vec::new(); ~~> let mut documents: Vec<RawDocumentBuf> = Vec::new();
//@rule the name of the parameter: fn read<R: Read>(reader: &mut R) ~~> fn read<R: Read>(src: &mut R)
impl MessageSection {
//@fn src/polodb/wire/message.rs MessageSection::read
//@ret r
//@spec
    requires old(src).ok(),
    ensures
        (match r {
            Ok(m) => section(old(src).rest()) == Some((m.view(), final(src).rest()))
                && R::after(*old(src), *final(src), old(src).rest().len() - final(src).rest().len())
                && final(src).rest().len() < old(src).rest().len(),
            Err(_) => section(old(src).rest()) is None,
        }),
//@start
    let reader = src;
    let ghost r0 = *reader;
    let ghost s = reader.rest();
//@before if payload_type == 0
    let ghost r1 = *reader;
    proof { R::after_facts(r0, r1, 1); assert(s.skip(1) == r1.rest()); }
//@before let document = RawDocumentBuf::from_bytes(bytes)?;
    proof {
        let t = r1.rest();
        let n = least(le_i32(t.take(4)), t.len() as int);
        R::after_facts(r1, *reader, n);
        R::after_trans(r0, r1, *reader, 1, n);
        assert(t.take(n).take(4) =~= t.take(4));
    }
//@before let mut length_remaining = size.minus(4);
    let ghost r2 = *reader;
    proof { R::after_facts(r1, r2, 4); R::after_trans(r0, r1, r2, 1, 4); assert(s.skip(1).skip(4) =~= s.skip(5)); }
//@before if remain_buffer.len() != length_remaining.get()?
    let ghost size0 = le_i32(s.skip(1).take(4));
    let ghost r3 = *reader;
    proof {
        let k = least(size0 - 4, s.len() - 5);
        R::after_facts(r2, r3, k);
        R::after_trans(r0, r2, r3, 5, k);
        assert(remain_buffer@ =~= s.skip(5).take(k));
    }
//@before let mut buf_slice = Bytes::of(&remain_buffer);
    let ghost q = remain_buffer@;
    assert(q == s.skip(5).take(size0 - 4));
    assert(q.skip(0) =~= q);
    assert(q.take(0) =~= Seq::<u8>::empty());
    assert(docs_view(Seq::<RawDocumentBuf>::empty()) =~= Seq::<Seq<u8>>::empty());
    assert(r3.rest() == s.skip(5).skip(size0 - 4));
    assert(section(s) == (match sequence_of(q) { Some(x) => Some((SecV::Sequence(x), r3.rest())), None => None }));
//@loop 0
    invariant_except_break
        identifier@.len() <= q.len(), identifier@ == q.take(identifier@.len() as int),
        forall|j: int| 0 <= j < identifier@.len() ==> q[j] != 0,
        reader.data@ == q.skip(identifier@.len() as int),
        length_remaining.v == Some((q.len() - identifier@.len()) as usize),
    invariant
        s == old(src).rest(), q.len() <= usize::MAX,
        section(s) == (match sequence_of(q) { Some(x) => Some((SecV::Sequence(x), r3.rest())), None => None }),
    ensures
        identifier@.len() < q.len(), identifier@ == q.take(identifier@.len() as int), ends_at(q, identifier@.len() as int),
        reader.data@ == q.skip((identifier@.len() + 1) as int),
        length_remaining.v == Some((q.len() - identifier@.len() - 1) as usize),
    decreases q.len() - identifier@.len(),
//@loopstart 0
    let ghost n0 = identifier@.len() as int;
    proof {
        if n0 == q.len() { assert(!(exists|i: int| ends_at(q, i))) by { if exists|i: int| ends_at(q, i) { let i = choose|i: int| ends_at(q, i); assert(q[i] != 0); } } }
        if n0 < q.len() { assert(q.skip(n0).skip(1) =~= q.skip(n0 + 1)); assert(q.take(n0).push(q[n0]) =~= q.take(n0 + 1)); }
    }
//@afterloop 0
    let ghost ni = identifier@.len() as int;
    let ghost tail0 = q.skip(ni + 1);
    proof {
        assert(exists|i: int| ends_at(q, i));
        lemma_ends_unique(q, ni, choose|i: int| ends_at(q, i));
    }
//@loop 1
    invariant
        s == old(src).rest(), length_remaining.v == Some(tail0.len() as usize), tail0.len() <= usize::MAX,
        count_reader.ok(), count_reader.bytes_read + count_reader.rest().len() == tail0.len(),
        docs_from(tail0, Seq::empty()) == docs_from(count_reader.rest(), docs_view(documents@)),
        section(s) == (match sequence_of(q) { Some(x) => Some((SecV::Sequence(x), r3.rest())), None => None }),
        sequence_of(q) == (match docs_from(tail0, Seq::empty()) { Some(ds) => if valid_utf8(q.take(ni)) { Some(SeqV { identifier: q.take(ni), documents: ds }) } else { None }, None => None }),
    decreases count_reader.rest().len(),
//@loopstart 1
    let ghost c0 = count_reader;
    let ghost t0 = count_reader.rest();
    let ghost ds0 = documents@;
//@before let document = RawDocumentBuf::from_bytes(bytes)?; documents
    proof {
        let n = least(le_i32(t0.take(4)), t0.len() as int);
        assert(t0.take(n).take(4) =~= t0.take(4));
    }
//@before documents.push(document);
    proof { lemma_docs_view_push(ds0, document); assert(count_reader.rest() == t0.skip(le_i32(t0.take(4)))); }
//@before if length_remaining.get()? != count_reader.bytes_read()
    proof { assert(count_reader.rest().len() == 0); }
//@end
}

// ---- messages ----
pub struct MessageFlags { pub bits: u32 }
/// bitflags, by contract
impl MessageFlags {
    pub const CHECKSUM_PRESENT: MessageFlags = MessageFlags { bits: 1 };
    #[verifier::external_body]
    pub fn from_bits_truncate(b: u32) -> (r: MessageFlags) ensures r.bits % 2 == b % 2, { unimplemented!() }
    #[verifier::external_body]
    pub fn empty() -> (r: MessageFlags) ensures r.bits == 0, { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, other: MessageFlags) -> (r: bool) requires other.bits == 1, ensures r == (self.bits % 2 == 1), { unimplemented!() }
}
pub struct Message {
    pub document_payload: RawDocumentBuf, pub document_sequences: Vec<DocumentSequence>, pub response_to: i32, pub flags: MessageFlags,
    pub checksum: Option<u32>, pub request_id: Option<i32>,
}
pub struct MsgV { pub payload: Seq<u8>, pub seqs: Seq<SeqV>, pub checksum: Option<int> }
pub open spec fn seqs_view(v: Seq<DocumentSequence>) -> Seq<SeqV> { v.map_values(|q: DocumentSequence| q.view()) }
impl Message {
    pub open spec fn view(&self) -> MsgV {
        MsgV { payload: self.document_payload.bytes@, seqs: seqs_view(self.document_sequences@), checksum: match self.checksum { Some(c) => Some(c as int), None => None } }
    }
}
proof fn lemma_seqs_view_push(v: Seq<DocumentSequence>, d: DocumentSequence)
    ensures seqs_view(v.push(d)) == seqs_view(v).push(d.view()),
{ assert(seqs_view(v.push(d)) =~= seqs_view(v).push(d.view())); }
/// the sections up to the last four bytes or fewer
pub open spec fn secs_from(s: Seq<u8>, payload: Option<Seq<u8>>, seqs: Seq<SeqV>) -> Option<(Option<Seq<u8>>, Seq<SeqV>, Seq<u8>)> decreases s.len() {
    if s.len() <= 4 { Some((payload, seqs, s)) } else {
        match section(s) {
            None => None,
            Some((sec, tail)) => if tail.len() >= s.len() { None } else {
                match sec {
                    SecV::Document(d) => if payload is Some { None } else { secs_from(tail, Some(d), seqs) },
                    SecV::Sequence(q) => secs_from(tail, payload, seqs.push(q)),
                }
            },
        }
    }
}
/// flags, sections with exactly one document among them, checksum if announced, and nothing else
pub open spec fn op_msg(s: Seq<u8>) -> Option<MsgV> {
    if s.len() < 4 { None } else {
        match secs_from(s.skip(4), None, Seq::empty()) {
            Some((Some(payload), seqs, tail)) =>
                if tail.len() == 4 && le_u32(s.take(4)) % 2 == 1 { Some(MsgV { payload, seqs, checksum: Some(le_u32(tail)) }) }
                else if tail.len() == 0 { Some(MsgV { payload, seqs, checksum: None }) }
                else { None },
            _ => None,
        }
    }
}
pub open spec fn op_compressed(s: Seq<u8>) -> Option<MsgV> {
    if s.len() < 9 || le_i32(s.take(4)) != 2013 || s[8] != 0 || le_i32(s.skip(4).take(4)) != s.len() - 9 { None } else { op_msg(s.skip(9)) }
}
pub open spec fn op_query(s: Seq<u8>) -> Option<MsgV> {
    if s.len() < 4 || !(exists|i: int| ends_at(s.skip(4), i)) { None } else {
        let i = choose|i: int| ends_at(s.skip(4), i);
        let t = s.skip(4).skip(i + 1);
        if t.len() < 8 || le_i32(t.take(4)) != 0 || le_i32(t.skip(4).take(4)) != -1 { None } else {
            match doc_at(t.skip(8)) { Some((d, _)) => Some(MsgV { payload: d, seqs: Seq::empty(), checksum: None }), None => None }
        }
    }
}
/// what the bytes after a header say
pub open spec fn body(c: OpCode, s: Seq<u8>) -> Option<MsgV> {
    match c { OpCode::Message => op_msg(s), OpCode::Compressed => op_compressed(s), OpCode::Query => op_query(s), OpCode::Reply => None }
}
pub open spec fn of_header(m: Message, h: Header) -> bool { m.request_id == Some(h.request_id) && m.response_to == h.response_to }
/// a message read from a stream took the bytes its header announced, no more and no less
pub open spec fn reads(h: Header, c: OpCode, pre: Stream, post: Stream, r: Result<Message>) -> bool {
    post.sent == pre.sent && (match r {
        Ok(m) => 16 <= h.length && pre.rest@.len() >= h.length - 16 && post.rest@ == pre.rest@.skip(h.length - 16)
            && body(c, pre.rest@.take(h.length - 16)) == Some(m.view()) && of_header(m, h),
        Err(_) => post.failed@ || h.length < 16 || (pre.rest@.len() >= h.length - 16 && body(c, pre.rest@.take(h.length - 16)) is None),
    })
}
//@rule one compressor: super::NOOP_COMPRESSOR_ID ~~> NOOP_COMPRESSOR_ID
//@rule a slice as a vector: message.into() ~~> message.to_vec()
//@const src/polodb/compression/mod.rs NOOP_COMPRESSOR_ID
//@fn src/polodb/compression/decompress.rs decompress_message
//@rw a reader over the bytes: message: &[u8] ~~> message: Bytes
//@ret r
//@spec
    ensures (match r { Ok(v) => compressor_id == 0 && v@ == message.data@, Err(_) => compressor_id != 0 }),
//@end
//@const src/polodb/wire/message.rs DEFAULT_MAX_MESSAGE_SIZE_BYTES
//@rule the error of an option: document_payload.ok_or_else(||$e)? ~~> document_payload.ok_or(Error)?
//@rule the number of an operation: OpCode::Message as i32 ~~> op_number(OpCode::Message)
//@rule the type of the elements: let mut document_payload = None; ~~> let mut document_payload: Option<RawDocumentBuf> = None;
//@rule the type of the elements: let mut document_sequences = Vec::new(); ~~> let mut document_sequences: Vec<DocumentSequence> = Vec::new();
impl Message {
//@fn src/polodb/wire/message.rs Message::read_op_common
//@ret r
//@spec
    requires length_remaining == reader0.data@.len(),
    ensures (match r { Ok(m) => op_msg(reader0.data@) == Some(m.view()) && of_header(m, *header), Err(_) => header.length < 0 || op_msg(reader0.data@) is None }),
//@start
    let mut reader = reader0;
    let ghost s = reader.data@;
//@loop 0
    invariant
        count_reader.ok(), count_reader.bytes_read + count_reader.rest().len() == s.len() - 4,
        length_remaining.v == Some((s.len() - 4) as usize), 4 <= s.len() <= usize::MAX,
        s == reader0.data@, after_borrow(reader) == *final(count_reader.reader),
        secs_from(s.skip(4), None, Seq::empty()) == secs_from(count_reader.rest(), (match document_payload { Some(d) => Some(d.bytes@), None => None }), seqs_view(document_sequences@)),
    decreases count_reader.rest().len(),
//@loopstart 0
    let ghost t0 = count_reader.rest();
    let ghost q0 = document_sequences@;
//@beforeloop 0
    assert(seqs_view(Seq::<DocumentSequence>::empty()) =~= Seq::<SeqV>::empty());
//@before document_sequences.push(document_sequence)
    proof { lemma_seqs_view_push(q0, document_sequence); }
//@end
//@fn src/polodb/wire/message.rs Message::read_from_op_msg
//@ret r
//@spec
    ensures reads(*header, OpCode::Message, *old(reader), *final(reader), r),
//@end
//@fn src/polodb/wire/message.rs Message::read_from_op_query
//@ret r
//@spec
    ensures reads(*header, OpCode::Query, *old(reader), *final(reader), r),
//@before buf.read_u32_sync()?
    let ghost s = buf.data@;
    assert(reader.rest@ == old(reader).rest@.skip(header.length - 16) && s == old(reader).rest@.take(header.length - 16) && 16 <= header.length);
    let ghost q = s.skip(4);
//@beforeloop 0
    assert(q.skip(0) =~= q);
    assert(q.take(0) =~= Seq::<u8>::empty());
//@loop 0
    invariant_except_break
        full_collection_name@.len() <= q.len(), full_collection_name@ == q.take(full_collection_name@.len() as int),
        forall|j: int| 0 <= j < full_collection_name@.len() ==> q[j] != 0,
        buf.data@ == q.skip(full_collection_name@.len() as int),
    invariant
        buf.ok(), q == s.skip(4), s.len() >= 4, reader.sent == old(reader).sent, old(reader).rest@.len() >= header.length - 16,
        reader.rest@ == old(reader).rest@.skip(header.length - 16) && s == old(reader).rest@.take(header.length - 16) && 16 <= header.length,
    ensures
        1 <= full_collection_name@.len() <= q.len(), ends_at(q, full_collection_name@.len() - 1),
        buf.data@ == q.skip(full_collection_name@.len() as int), buf.ok(),
    decreases q.len() - full_collection_name@.len(),
//@loopstart 0
    let ghost n0 = full_collection_name@.len() as int;
    proof {
        if n0 == q.len() { assert(!(exists|i: int| ends_at(q, i))) by { if exists|i: int| ends_at(q, i) { let i = choose|i: int| ends_at(q, i); assert(q[i] != 0); } } }
        if n0 < q.len() { assert(q.skip(n0).skip(1) =~= q.skip(n0 + 1)); assert(q.take(n0).push(q[n0]) =~= q.take(n0 + 1)); }
    }
//@afterloop 0
    let ghost ni = full_collection_name@.len() - 1;
    proof {
        assert(exists|i: int| ends_at(q, i));
        lemma_ends_unique(q, ni, choose|i: int| ends_at(q, i));
        let t = q.skip(ni + 1);
        if t.len() >= 8 { assert(t.skip(4).skip(4) =~= t.skip(8)); }
        assert(seqs_view(Seq::<DocumentSequence>::empty()) =~= Seq::<SeqV>::empty());
    }
    let ghost t8 = q.skip(ni + 1).skip(8);
//@before Ok(Message {
    proof { let n = least(le_i32(t8.take(4)), t8.len() as int); assert(t8.take(n).take(4) =~= t8.take(4)); }
//@end
//@fn src/polodb/wire/message.rs Message::read_op_compressed_from
//@ret r
//@spec
    ensures reads(*header, OpCode::Compressed, *old(reader), *final(reader), r),
//@before let original_opcode
    let ghost s = compressed.data@;
    proof {
        assert(s == old(reader).rest@.take(header.length - 16));
        if s.len() >= 9 {
            assert(s.skip(4).skip(4) =~= s.skip(8));
            assert(s.skip(8).skip(1) =~= s.skip(9));
        }
    }
//@end
//@fn src/polodb/wire/message.rs Message::read_from
//@ret r
//@spec
    ensures
        final(reader).sent == old(reader).sent,
        (match r {
            Ok(m) => exists|h: Header| #[trigger] is_message(h, max_len(max_message_size_bytes), old(reader).rest@) && of_header(m, h)
                && final(reader).rest@ == old(reader).rest@.skip(h.length as int)
                && body(h.op_code, old(reader).rest@.subrange(16, h.length as int)) == Some(m.view()),
            Err(_) => final(reader).failed@ || !(exists|h: Header| #[trigger] is_message(h, max_len(max_message_size_bytes), old(reader).rest@)
                && body(h.op_code, old(reader).rest@.subrange(16, h.length as int)) is Some),
        }),
//@start
    let ghost s = reader.rest@;
    proof {
        assert forall|h1: Header, h2: Header| #![trigger is_header(h1, s.take(16)), is_header(h2, s.take(16))] is_header(h1, s.take(16)) && is_header(h2, s.take(16)) implies h1 == h2 by {
            c18_header_round_trip(h1, h2, s.take(16));
        }
        assert forall|n: int| 16 <= n && n <= s.len() implies #[trigger] s.subrange(16, n) == s.skip(16).take(n - 16) by {
            assert(s.subrange(16, n) =~= s.skip(16).take(n - 16));
        }
        assert forall|n: int| 16 <= n && n <= s.len() implies #[trigger] s.skip(16).skip(n - 16) == s.skip(n) by { assert(s.skip(16).skip(n - 16) =~= s.skip(n)); }
    }
//@before let max_len =
    assert(header.length <= max_len(max_message_size_bytes) && 16 <= header.length && header.length <= s.len() ==> is_message(header, max_len(max_message_size_bytes), s));
//@end
}
pub open spec fn max_len(o: Option<i32>) -> int { match o { Some(n) => n as int, None => 50331648int } }
/// the stream starts with a whole message of an allowed length
pub open spec fn is_message(h: Header, max: int, s: Seq<u8>) -> bool {
    16 <= h.length <= max && h.length <= s.len() && is_header(h, s.take(16))
}
/// consecutive messages never bleed into each other: the second starts where the first one's header says
proof fn c18_consecutive(h1: Header, h2: Header, max: int, s: Seq<u8>)
    requires is_message(h1, max, s), is_message(h2, max, s.skip(h1.length as int)),
    ensures h1.length + h2.length <= s.len(), is_header(h2, s.subrange(h1.length as int, h1.length + 16)),
{ assert(s.skip(h1.length as int).take(16) =~= s.subrange(h1.length as int, h1.length + 16)); }

// ---- replies ----
pub struct Reply { pub response_to: i32, pub doc: RawDocumentBuf, pub payload: Vec<u8> }
impl Reply {
    /// flag bits zero, then one section with one document
    pub open spec fn wf(&self) -> bool { self.payload@ == seq![0u8, 0u8, 0u8, 0u8, 0u8] + self.doc.bytes@ }
//@rule a vector as a writer: std::io::Write::write_all(&mut payload, $e).unwrap() ~~> VecWrite::write_all(&mut payload, $e).unwrap()
//@fn src/polodb/reply.rs Reply::new
//@rw a number as bytes: FLAG_BITS.to_le_bytes4().as_slice() ~~> &FLAG_BITS.to_le_bytes4()
//@rw a number as bytes: [SINGLE_DOC_KIND].as_slice() ~~> &[SINGLE_DOC_KIND]
//@ret r
//@spec
    requires doc.bytes@.len() <= 0x7fff_ffff,
    ensures r.wf(), r.response_to == response_to, r.doc == doc,
//@before Reply {
    proof {
        assert(le_u32(seq![0u8, 0u8, 0u8, 0u8]) == 0);
        assert(payload@ =~= seq![0u8, 0u8, 0u8, 0u8, 0u8] + doc.bytes@);
    }
//@end
//@fn src/polodb/reply.rs Reply::write_to
//@ret r
//@spec
    requires self.payload@.len() + 16 <= 0x7fff_ffff,
    ensures
        r is Ok ==> exists|h: Seq<u8>| #[trigger] is_header(Header { length: (16 + self.payload@.len()) as i32, request_id: 0, response_to: self.response_to, op_code: OpCode::Message }, h)
            && final(stream).sent@ == old(stream).sent@ + h + self.payload@,
        final(stream).rest == old(stream).rest,
//@start
    let ghost sent0 = stream.sent@;
//@before stream.write_all
    let ghost h = stream.sent@.skip(sent0.len() as int);
    assert(is_header(header, h));
    assert(stream.sent@ =~= sent0 + h);
//@end
}
/// a reply is a message whose header announces its length, and reads as the one document it was made of
proof fn c20_reply_reads_back(r: Reply, h: Seq<u8>, hd: Header)
    requires
        r.wf(), is_header(hd, h), hd.length == 16 + r.payload@.len(), hd.op_code is Message,
        valid_doc(r.doc.bytes@), r.doc.bytes@.len() >= 5, le_i32(r.doc.bytes@.take(4)) == r.doc.bytes@.len(),
    ensures
        (h + r.payload@).len() == hd.length,
        body(hd.op_code, (h + r.payload@).subrange(16, hd.length as int)) == Some(MsgV { payload: r.doc.bytes@, seqs: Seq::empty(), checksum: None }),
{
    let s = r.payload@;
    let d = r.doc.bytes@;
    assert((h + s).subrange(16, hd.length as int) =~= s);
    assert(s.take(4) =~= seq![0u8, 0u8, 0u8, 0u8]);
    let t = s.skip(4);
    assert(t.skip(1) =~= d);
    assert(d.take(d.len() as int) =~= d);
    assert(d.skip(d.len() as int) =~= Seq::<u8>::empty());
    assert(doc_at(d) == Some((d, Seq::<u8>::empty())));
    assert(section(t) == Some((SecV::Document(d), Seq::<u8>::empty())));
    reveal_with_fuel(secs_from, 3);
    assert(secs_from(t, None, Seq::empty()) == Some((Some(d), Seq::<SeqV>::empty(), Seq::<u8>::empty())));
}
