// What an encoded key is (specification).
pub enum Val {
    Double(f64), Str(Seq<char>), Bool(bool), Null, I32(i32), I64(i64), Ts(u32, u32), Oid(Seq<u8>), Dt(i64), Sym(Seq<char>),
    Dec(Seq<u8>), Undef, Other,
}

pub open spec fn val(b: Bson) -> Val {
    match b {
        Bson::Double(d) => Val::Double(d),
        Bson::String(s) => Val::Str(s@),
        Bson::Boolean(x) => Val::Bool(x),
        Bson::Null => Val::Null,
        Bson::Int32(x) => Val::I32(x),
        Bson::Int64(x) => Val::I64(x),
        Bson::Timestamp(t) => Val::Ts(t.time, t.increment),
        Bson::ObjectId(o) => Val::Oid(o.id@),
        Bson::DateTime(d) => Val::Dt(d.millis),
        Bson::Symbol(s) => Val::Sym(s@),
        Bson::Decimal128(d) => Val::Dec(d.raw@),
        Bson::Undefined => Val::Undef,
        _ => Val::Other,
    }
}

pub open spec fn wf(v: Val) -> bool {
    match v { Val::Oid(s) => s.len() == 12, Val::Dec(s) => s.len() == 16, Val::Other => false, _ => true }
}

pub open spec fn esc1(b: u8) -> Seq<u8> { if b == 0 { seq![0xC0u8, 0x80u8] } else { seq![b] } }
pub open spec fn esc(b: Seq<u8>) -> Seq<u8>
    decreases b.len(),
{ if b.len() == 0 { Seq::empty() } else { esc1(b[0]) + esc(b.skip(1)) } }

pub open spec fn unesc(b: Seq<u8>) -> Seq<u8>
    decreases b.len(),
{
    if b.len() == 0 { Seq::empty() }
    else if b[0] == 0xC0 && b.len() > 1 && b[1] == 0x80 { seq![0u8] + unesc(b.skip(2)) }
    else { seq![b[0]] + unesc(b.skip(1)) }
}

pub open spec fn tag(v: Val) -> u8 {
    match v {
        Val::Double(_) => 1, Val::Str(_) => 2, Val::Undef => 6, Val::Oid(_) => 7, Val::Bool(_) => 8, Val::Dt(_) => 9, Val::Null => 10,
        Val::Sym(_) => 14, Val::I32(_) => 16, Val::Ts(_, _) => 17, Val::I64(_) => 18, Val::Dec(_) => 19, Val::Other => 0,
    }
}

pub open spec fn payload(v: Val) -> Seq<u8> {
    match v {
        Val::Double(d) => be(8, f64_bits(d)),
        Val::Str(s) => esc(utf8(s)).push(0),
        Val::Sym(s) => esc(utf8(s)).push(0),
        Val::Bool(b) => seq![if b { 1u8 } else { 0u8 }],
        Val::I32(x) => be(4, u32_of(x)),
        Val::I64(x) => be(8, u64_of(x)),
        Val::Dt(x) => be(8, u64_of(x)),
        Val::Ts(t, i) => be(8, t as int * 0x1_0000_0000 + i as int),
        Val::Oid(s) => s,
        Val::Dec(s) => s,
        _ => Seq::empty(),
    }
}

/// the key of one value
pub open spec fn enc(v: Val) -> Seq<u8> { seq![tag(v)] + payload(v) }

/// the key of a tuple
pub open spec fn encs(vs: Seq<Val>) -> Seq<u8>
    decreases vs.len(),
{ if vs.len() == 0 { Seq::empty() } else { enc(vs[0]) + encs(vs.skip(1)) } }

pub open spec fn valid(vs: Seq<Val>) -> bool { forall|i: int| 0 <= i < vs.len() ==> wf(#[trigger] vs[i]) }

pub open spec fn vals(s: Seq<Bson>) -> Seq<Val> { Seq::new(s.len(), |i: int| val(s[i])) }
