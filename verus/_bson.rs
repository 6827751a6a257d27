// Mirror of the bson crate's value type (bson 2.x `Bson`): same variants, payloads reduced to what the
// verified functions use. Part of the trusted base.
pub enum Bson {
    Double(f64),
    String(String),
    Array(Vec<Bson>),
    Document(Document),
    Boolean(bool),
    Null,
    RegularExpression(Regex),
    JavaScriptCode(String),
    JavaScriptCodeWithScope(JavaScriptCodeWithScope),
    Int32(i32),
    Int64(i64),
    Timestamp(Timestamp),
    Binary(Binary),
    ObjectId(ObjectId),
    DateTime(DateTime),
    Symbol(String),
    Decimal128(Decimal128),
    Undefined,
    MaxKey,
    MinKey,
    DbPointer(DbPointer),
}

pub struct Document {
    pub entries: Vec<(String, Bson)>,
}
impl Document {
    pub fn len(&self) -> (r: usize) ensures r == self.entries@.len(), { self.entries.len() }
}

pub struct Regex {
    pub pattern: String,
    pub options: String,
}

pub struct JavaScriptCodeWithScope {
    pub code: String,
    pub scope: Document,
}

pub struct Timestamp {
    pub time: u32,
    pub increment: u32,
}

pub struct Binary {
    pub subtype: u8,
    pub bytes: Vec<u8>,
}

pub struct DbPointer {
    pub namespace: String,
}

pub struct ObjectId {
    pub id: [u8; 12],
}

pub struct Decimal128 {
    pub raw: [u8; 16],
}

pub struct DateTime {
    pub millis: i64,
}

impl ObjectId {
    pub fn bytes(&self) -> (r: [u8; 12])
        ensures r == self.id,
    { self.id }

    pub fn from_bytes(b: [u8; 12]) -> (r: ObjectId)
        ensures r.id == b,
    { ObjectId { id: b } }
}

impl Decimal128 {
    pub fn bytes(&self) -> (r: [u8; 16])
        ensures r == self.raw,
    { self.raw }

    pub fn from_bytes(b: [u8; 16]) -> (r: Decimal128)
        ensures r.raw == b,
    { Decimal128 { raw: b } }
}

impl DateTime {
    pub fn timestamp_millis(&self) -> (r: i64)
        ensures r == self.millis,
    { self.millis }

    pub fn from_millis(m: i64) -> (r: DateTime)
        ensures r.millis == m,
    { DateTime { millis: m } }
}

// BSON element types (http://bsonspec.org), as bson::spec::ElementType
#[derive(Structural, PartialEq, Eq, Clone, Copy)]
pub enum ElementType {
    Double, String, EmbeddedDocument, Array, Binary, Undefined, ObjectId, Boolean, DateTime, Null,
    RegularExpression, DbPointer, JavaScriptCode, Symbol, JavaScriptCodeWithScope, Int32, Timestamp,
    Int64, Decimal128, MaxKey, MinKey,
}

pub open spec fn et_spec(t: ElementType) -> u8 {
    match t {
        ElementType::Double => 0x01,
        ElementType::String => 0x02,
        ElementType::EmbeddedDocument => 0x03,
        ElementType::Array => 0x04,
        ElementType::Binary => 0x05,
        ElementType::Undefined => 0x06,
        ElementType::ObjectId => 0x07,
        ElementType::Boolean => 0x08,
        ElementType::DateTime => 0x09,
        ElementType::Null => 0x0A,
        ElementType::RegularExpression => 0x0B,
        ElementType::DbPointer => 0x0C,
        ElementType::JavaScriptCode => 0x0D,
        ElementType::Symbol => 0x0E,
        ElementType::JavaScriptCodeWithScope => 0x0F,
        ElementType::Int32 => 0x10,
        ElementType::Timestamp => 0x11,
        ElementType::Int64 => 0x12,
        ElementType::Decimal128 => 0x13,
        ElementType::MaxKey => 0x7F,
        ElementType::MinKey => 0xFF,
    }
}

/// `t as u8`
#[verifier::when_used_as_spec(et_spec)]
pub fn et(t: ElementType) -> (r: u8)
    ensures r == et_spec(t),
{
    match t {
        ElementType::Double => 0x01,
        ElementType::String => 0x02,
        ElementType::EmbeddedDocument => 0x03,
        ElementType::Array => 0x04,
        ElementType::Binary => 0x05,
        ElementType::Undefined => 0x06,
        ElementType::ObjectId => 0x07,
        ElementType::Boolean => 0x08,
        ElementType::DateTime => 0x09,
        ElementType::Null => 0x0A,
        ElementType::RegularExpression => 0x0B,
        ElementType::DbPointer => 0x0C,
        ElementType::JavaScriptCode => 0x0D,
        ElementType::Symbol => 0x0E,
        ElementType::JavaScriptCodeWithScope => 0x0F,
        ElementType::Int32 => 0x10,
        ElementType::Timestamp => 0x11,
        ElementType::Int64 => 0x12,
        ElementType::Decimal128 => 0x13,
        ElementType::MaxKey => 0x7F,
        ElementType::MinKey => 0xFF,
    }
}

impl Bson {
    pub open spec fn etype(&self) -> ElementType {
        match self {
            Bson::Double(_) => ElementType::Double,
            Bson::String(_) => ElementType::String,
            Bson::Array(_) => ElementType::Array,
            Bson::Document(_) => ElementType::EmbeddedDocument,
            Bson::Boolean(_) => ElementType::Boolean,
            Bson::Null => ElementType::Null,
            Bson::RegularExpression(_) => ElementType::RegularExpression,
            Bson::JavaScriptCode(_) => ElementType::JavaScriptCode,
            Bson::JavaScriptCodeWithScope(_) => ElementType::JavaScriptCodeWithScope,
            Bson::Int32(_) => ElementType::Int32,
            Bson::Int64(_) => ElementType::Int64,
            Bson::Timestamp(_) => ElementType::Timestamp,
            Bson::Binary(_) => ElementType::Binary,
            Bson::ObjectId(_) => ElementType::ObjectId,
            Bson::DateTime(_) => ElementType::DateTime,
            Bson::Symbol(_) => ElementType::Symbol,
            Bson::Decimal128(_) => ElementType::Decimal128,
            Bson::Undefined => ElementType::Undefined,
            Bson::MaxKey => ElementType::MaxKey,
            Bson::MinKey => ElementType::MinKey,
            Bson::DbPointer(_) => ElementType::DbPointer,
        }
    }

    #[verifier::external_body]
    pub fn element_type(&self) -> (r: ElementType)
        ensures r == self.etype(),
    { unimplemented!() }
}
