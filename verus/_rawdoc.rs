// raw and owned documents (bson crate), by contract
/// a value of a document, as far as the handlers look
pub enum RawV { Int32(i32), Int64(i64), Boolean(bool), Str(Seq<char>), Doc(Seq<u8>), Arr(Seq<RawV>), Other }
/// what reading a field of these bytes gives: an error if they are malformed there
pub uninterp spec fn get_of(doc: Seq<u8>, key: Seq<char>) -> std::result::Result<Option<RawV>, ()>;
/// the elements of an array, each of which may turn out malformed
pub enum RawBsonRef<'a> { Int32(i32), Int64(i64), Boolean(bool), String(&'a str), Document(&'a RawDocument), Array(&'a RawArray), Other }
pub struct RawDocument { pub bytes: Vec<u8> }
pub struct RawArray { pub items: Ghost<Seq<RawV>> }
impl<'a> RawBsonRef<'a> {
    pub open spec fn v(&self) -> RawV {
        match *self {
            RawBsonRef::Int32(i) => RawV::Int32(i), RawBsonRef::Int64(i) => RawV::Int64(i), RawBsonRef::Boolean(b) => RawV::Boolean(b),
            RawBsonRef::String(s) => RawV::Str(s@), RawBsonRef::Document(d) => RawV::Doc(d.bytes@), RawBsonRef::Array(a) => RawV::Arr(a.items@), RawBsonRef::Other => RawV::Other,
        }
    }
    pub fn as_str(&self) -> (r: Option<&'a str>)
        ensures (match r { Some(s) => self.v() == RawV::Str(s@), None => !(self.v() is Str) }),
    { match *self { RawBsonRef::String(s) => Some(s), _ => None } }
    pub fn as_document(&self) -> (r: Option<&'a RawDocument>)
        ensures (match r { Some(d) => self.v() == RawV::Doc(d.bytes@), None => !(self.v() is Doc) }),
    { match *self { RawBsonRef::Document(d) => Some(d), _ => None } }
    pub fn as_array(&self) -> (r: Option<&'a RawArray>)
        ensures (match r { Some(a) => self.v() == RawV::Arr(a.items@), None => !(self.v() is Arr) }),
    { match *self { RawBsonRef::Array(a) => Some(a), _ => None } }
    pub fn as_i64(&self) -> (r: Option<i64>)
        ensures (match r { Some(i) => self.v() == RawV::Int64(i), None => !(self.v() is Int64) }),
    { match *self { RawBsonRef::Int64(i) => Some(i), _ => None } }
    pub fn as_bool(&self) -> (r: Option<bool>)
        ensures (match r { Some(i) => self.v() == RawV::Boolean(i), None => !(self.v() is Boolean) }),
    { match *self { RawBsonRef::Boolean(i) => Some(i), _ => None } }
}
/// the value of an optional field
pub open spec fn field(doc: Seq<u8>, key: Seq<char>) -> Option<RawV> { match get_of(doc, key) { Ok(o) => o, Err(_) => None } }
pub open spec fn same_field(r: Result<Option<RawBsonRef>>, doc: Seq<u8>, key: Seq<char>) -> bool {
    match r { Ok(Some(v)) => get_of(doc, key) == Ok::<Option<RawV>, ()>(Some(v.v())), Ok(None) => get_of(doc, key) == Ok::<Option<RawV>, ()>(None), Err(_) => get_of(doc, key) is Err }
}
impl RawArray {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.items@.len(), r <= 0x7fff_ffff, { unimplemented!() }
    #[verifier::external_body]
    pub fn item<'a>(&'a self, i: usize) -> (r: Result<RawBsonRef<'a>>)
        requires i < self.items@.len(),
        ensures r is Ok ==> r->Ok_0.v() == self.items@[i as int],
    { unimplemented!() }
}
impl RawDocument {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes@, { unimplemented!() }
}
impl RawDocumentBuf {
    #[verifier::external_body]
    pub fn get<'a>(&'a self, key: &str) -> (r: Result<Option<RawBsonRef<'a>>>) ensures same_field(r, self.bytes@, key@), { unimplemented!() }
    #[verifier::external_body]
    pub fn get_document<'a>(&'a self, key: &str) -> (r: Result<&'a RawDocument>) ensures r is Ok ==> field(self.bytes@, key@) == Some(RawV::Doc(r->Ok_0.bytes@)), { unimplemented!() }
    #[verifier::external_body]
    pub fn get_array<'a>(&'a self, key: &str) -> (r: Result<&'a RawArray>) ensures r is Ok ==> field(self.bytes@, key@) == Some(RawV::Arr(r->Ok_0.items@)), { unimplemented!() }
    #[verifier::external_body]
    pub fn get_str<'a>(&'a self, key: &str) -> (r: Result<&'a str>) ensures r is Ok ==> field(self.bytes@, key@) == Some(RawV::Str(r->Ok_0@)), { unimplemented!() }
    /// bson's append, on a document built here
    #[verifier::external_body]
    pub fn append<T: ToRaw>(&mut self, key: &str, v: T)
        ensures forall|f: Seq<(Seq<char>, RawV)>| #[trigger] built(old(self).bytes@, f) ==> built(final(self).bytes@, f.push((key@, v.raw()))),
            final(self).bytes@.len() <= 0x7fff_ff00,
    { unimplemented!() }
}
/// these are the bytes of the document with exactly these fields in this order
pub uninterp spec fn built(doc: Seq<u8>, fields: Seq<(Seq<char>, RawV)>) -> bool;
pub type F = (Seq<char>, RawV);
pub open spec fn f1(a: F) -> Seq<F> { Seq::<F>::empty().push(a) }
pub open spec fn f2(a: F, b: F) -> Seq<F> { f1(a).push(b) }
pub open spec fn f3(a: F, b: F, c: F) -> Seq<F> { f2(a, b).push(c) }
pub open spec fn f4(a: F, b: F, c: F, d: F) -> Seq<F> { f3(a, b, c).push(d) }
pub trait ToRaw { spec fn raw(&self) -> RawV; }
impl ToRaw for i32 { open spec fn raw(&self) -> RawV { RawV::Int32(*self) } }
impl ToRaw for i64 { open spec fn raw(&self) -> RawV { RawV::Int64(*self) } }
impl ToRaw for bool { open spec fn raw(&self) -> RawV { RawV::Boolean(*self) } }
impl ToRaw for String { open spec fn raw(&self) -> RawV { RawV::Str(self@) } }
impl<'a> ToRaw for &'a str { open spec fn raw(&self) -> RawV { RawV::Str(self@) } }
impl ToRaw for RawDocumentBuf { open spec fn raw(&self) -> RawV { RawV::Doc(self.bytes@) } }
impl ToRaw for RawArrayBuf { open spec fn raw(&self) -> RawV { RawV::Arr(self.items@) } }
/// rawdoc!: a document built field by field; a document of 2 GiB cannot be built (its length is an i32)
pub struct RawDoc { pub fields: Ghost<Seq<(Seq<char>, RawV)>> }
impl RawDoc {
    pub fn empty() -> (r: RawDoc) ensures r.fields@ == Seq::<(Seq<char>, RawV)>::empty(), { RawDoc { fields: Ghost(Seq::empty()) } }
    #[verifier::external_body]
    pub fn add<T: ToRaw>(self, key: &str, v: T) -> (r: RawDoc) ensures r.fields@ == self.fields@.push((key@, v.raw())), { unimplemented!() }
    #[verifier::external_body]
    pub fn done(self) -> (r: RawDocumentBuf) ensures built(r.bytes@, self.fields@), r.bytes@.len() <= 0x7fff_ff00, { unimplemented!() }
}
pub struct RawArrayBuf { pub items: Ghost<Seq<RawV>> }
impl RawArrayBuf {
    #[verifier::external_body]
    pub fn new() -> (r: RawArrayBuf) ensures r.items@ == Seq::<RawV>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn push<T: ToRaw>(&mut self, v: T) ensures final(self).items@ == old(self).items@.push(v.raw()), final(self).items@.len() <= 0x7fff_ffff, { unimplemented!() }
}
/// an owned document, known by its bytes
pub struct Document { pub bytes: Ghost<Seq<u8>> }
pub enum Bson { Binary(Binary), Document(Document), Other }
pub struct Binary { pub bytes: Vec<u8> }
pub uninterp spec fn bget(doc: Seq<u8>, key: Seq<char>) -> Option<Bson>;
pub uninterp spec fn empty_doc() -> Seq<u8>;
impl Document {
    #[verifier::external_body]
    pub fn new() -> (r: Document) ensures r.bytes@ == empty_doc(), { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, key: &str) -> (r: Option<&'a Bson>)
        ensures (match r { Some(b) => bget(self.bytes@, key@) == Some(*b), None => bget(self.bytes@, key@) is None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_document<'a>(&'a self, key: &str) -> (r: Result<&'a Document>)
        ensures (match r { Ok(d) => bget(self.bytes@, key@) == Some(Bson::Document(*d)), Err(_) => !(bget(self.bytes@, key@) is Some && bget(self.bytes@, key@)->Some_0 is Document) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_bool(&self, key: &str) -> (r: Result<bool>) ensures r is Ok ==> flag(self.bytes@, key@) == r->Ok_0, r is Err ==> !flag(self.bytes@, key@), { unimplemented!() }
}
impl Bson {
    pub fn as_document(&self) -> (r: Option<&Document>)
        ensures (match r { Some(d) => *self == Bson::Document(*d), None => !(*self is Document) }),
    { match self { Bson::Document(d) => Some(d), _ => None } }
}
impl Clone for Document { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
/// a boolean field which is true
pub uninterp spec fn flag(doc: Seq<u8>, key: Seq<char>) -> bool;
#[verifier::external_body]
pub fn from_slice(b: &[u8]) -> (r: Result<Document>) ensures r is Ok ==> r->Ok_0.bytes@ == b@, { unimplemented!() }
#[verifier::external_body]
pub fn to_vec(d: &Document) -> (r: Result<Vec<u8>>) ensures r is Ok ==> r->Ok_0@ == d.bytes@, { unimplemented!() }
pub open spec fn as_docs(s: Seq<Seq<u8>>) -> Seq<RawV> { s.map_values(|d: Seq<u8>| RawV::Doc(d)) }
#[verifier::external_body]
pub fn namespace(db: &str, coll: &str) -> (r: String) ensures r@ == db@ + seq!['.'] + coll@, { unimplemented!() }
