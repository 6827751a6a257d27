// ---- the order is total, exact on numbers ----


proof fn lex_reflexive(a: Seq<int>)
    ensures lex(a, a) == 0,
    decreases a.len(),
{ if a.len() > 0 { lex_reflexive(a.skip(1)); } }

proof fn lex_antisymmetric(a: Seq<int>, b: Seq<int>)
    ensures lex(a, b) == -lex(b, a),
    decreases a.len(),
{ if a.len() > 0 && b.len() > 0 { lex_antisymmetric(a.skip(1), b.skip(1)); } }

proof fn lex_transitive(a: Seq<int>, b: Seq<int>, c: Seq<int>)
    requires lex(a, b) <= 0, lex(b, c) <= 0,
    ensures lex(a, c) <= 0, lex(a, b) == 0 && lex(b, c) == 0 ==> lex(a, c) == 0,
    decreases a.len(),
{ if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { lex_transitive(a.skip(1), b.skip(1), c.skip(1)); } }

proof fn lex_equal(a: Seq<int>, b: Seq<int>)
    requires lex(a, b) == 0,
    ensures a =~= b,
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 {
        lex_equal(a.skip(1), b.skip(1));
        assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
            if i > 0 { assert(a.skip(1)[i - 1] == b.skip(1)[i - 1]); }
        }
    }
}

pub open spec fn seqs(v: Bson) -> Seq<int> {
    match v {
        Bson::String(x) => chars(x@),
        Bson::Symbol(x) => chars(x@),
        Bson::Binary(x) => bytes(x.bytes@),
        Bson::ObjectId(x) => bytes(x.id@),
        Bson::Decimal128(x) => bytes(x.raw@),
        _ => Seq::empty(),
    }
}

proof fn c03_reflexive(a: Bson)
    requires scalar(a),
    ensures scmp(a, a) == 0,
{ lex_reflexive(seqs(a)); }

proof fn c03_antisymmetric(a: Bson, b: Bson)
    requires scalar(a), scalar(b),
    ensures scmp(a, b) == -scmp(b, a),
{ lex_antisymmetric(seqs(a), seqs(b)); }

proof fn c03_transitive(a: Bson, b: Bson, c: Bson)
    requires scalar(a), scalar(b), scalar(c), scmp(a, b) <= 0, scmp(b, c) <= 0,
    ensures scmp(a, c) <= 0, scmp(a, b) == 0 && scmp(b, c) == 0 ==> scmp(a, c) == 0,
{
    if kind(a) == kind(b) && kind(b) == kind(c) && lex(seqs(a), seqs(b)) <= 0 && lex(seqs(b), seqs(c)) <= 0 {
        lex_transitive(seqs(a), seqs(b), seqs(c));
    }
}

proof fn c03_integers_and_doubles_are_exact(i: i64, d: f64, x: real)
    requires num(d) == Num::Fin(x),
    ensures
        scmp(Bson::Int64(i), Bson::Double(d)) == (if (i as real) < x { -1int } else if (i as real) == x { 0 } else { 1 }),
{}

proof fn c03_strings_compare_naturally(a: String, b: String)
    ensures
        scmp(Bson::String(a), Bson::String(b)) == 0 ==> chars(a@) =~= chars(b@),
{
    if scmp(Bson::String(a), Bson::String(b)) == 0 { lex_equal(chars(a@), chars(b@)); }
}

proof fn c03_kinds_are_fixed(a: Bson, b: Bson)
    requires kind(a) != kind(b),
    ensures scmp(a, b) == icmp(kind(a), kind(b)),
{}

// ---- and total on all values, which sorting rests on ----

pub proof fn vcmp_scalar(a: Bson, b: Bson)
    requires scalar(a), scalar(b),
    ensures vcmp(a, b) == scmp(a, b),
{}

pub proof fn vcmp_antisymmetric(a: Bson, b: Bson)
    ensures vcmp(a, b) == -vcmp(b, a),
    decreases a, 0int,
{
    match (a, b) {
        (Bson::Array(x), Bson::Array(y)) => alex_antisymmetric(x@, y@, 0),
        (Bson::Document(x), Bson::Document(y)) => dlex_antisymmetric(x.entries@, y.entries@, 0),
        (Bson::RegularExpression(x), Bson::RegularExpression(y)) => {
            lex_antisymmetric(chars(x.pattern@), chars(y.pattern@));
            lex_antisymmetric(chars(x.options@), chars(y.options@));
        },
        _ => {
            lex_antisymmetric(chars(text(a)), chars(text(b)));
            lex_antisymmetric(seqs(a), seqs(b));
        },
    }
}
proof fn alex_antisymmetric(x: Seq<Bson>, y: Seq<Bson>, i: int)
    ensures alex(x, y, i) == -alex(y, x, i),
    decreases x, x.len() - i,
{
    if 0 <= i < x.len() && i < y.len() { vcmp_antisymmetric(x[i], y[i]); alex_antisymmetric(x, y, i + 1); }
}
proof fn dlex_antisymmetric(x: Seq<(String, Bson)>, y: Seq<(String, Bson)>, i: int)
    ensures dlex(x, y, i) == -dlex(y, x, i),
    decreases x, x.len() - i,
{
    if 0 <= i < x.len() && i < y.len() {
        lex_antisymmetric(chars(x[i].0@), chars(y[i].0@));
        assert(decreases_to!(x[i] => x[i].1));
        vcmp_antisymmetric(x[i].1, y[i].1);
        dlex_antisymmetric(x, y, i + 1);
    }
}

pub proof fn vcmp_transitive(a: Bson, b: Bson, c: Bson)
    requires vcmp(a, b) <= 0, vcmp(b, c) <= 0,
    ensures vcmp(a, c) <= 0, vcmp(a, b) == 0 && vcmp(b, c) == 0 ==> vcmp(a, c) == 0,
            vcmp(a, c) == 0 ==> vcmp(a, b) == 0 && vcmp(b, c) == 0,
    decreases a, 0int,
{
    if kind(a) == kind(b) && kind(b) == kind(c) {
        match (a, b, c) {
            (Bson::Array(x), Bson::Array(y), Bson::Array(z)) => alex_transitive(x@, y@, z@, 0),
            (Bson::Document(x), Bson::Document(y), Bson::Document(z)) => dlex_transitive(x.entries@, y.entries@, z.entries@, 0),
            (Bson::RegularExpression(x), Bson::RegularExpression(y), Bson::RegularExpression(z)) => {
                lex_order(chars(x.pattern@), chars(y.pattern@), chars(z.pattern@));
                lex_order(chars(x.options@), chars(y.options@), chars(z.options@));
            },
            _ => {
                lex_order(chars(text(a)), chars(text(b)), chars(text(c)));
                lex_order(seqs(a), seqs(b), seqs(c));
            },
        }
    }
}
pub proof fn lex_order(a: Seq<int>, b: Seq<int>, c: Seq<int>)
    ensures lex(a, b) <= 0 && lex(b, c) <= 0 ==> lex(a, c) <= 0 && (lex(a, c) == 0 <==> lex(a, b) == 0 && lex(b, c) == 0),
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 { lex_order(a.skip(1), b.skip(1), c.skip(1)); }
}
proof fn alex_transitive(x: Seq<Bson>, y: Seq<Bson>, z: Seq<Bson>, i: int)
    requires alex(x, y, i) <= 0, alex(y, z, i) <= 0, 0 <= i,
    ensures alex(x, z, i) <= 0, (alex(x, z, i) == 0 <==> alex(x, y, i) == 0 && alex(y, z, i) == 0),
    decreases x, x.len() - i,
{
    if i < x.len() && i < y.len() && i < z.len() {
        vcmp_transitive(x[i], y[i], z[i]);
        if vcmp(x[i], y[i]) == 0 && vcmp(y[i], z[i]) == 0 { alex_transitive(x, y, z, i + 1); }
    }
}
proof fn dlex_transitive(x: Seq<(String, Bson)>, y: Seq<(String, Bson)>, z: Seq<(String, Bson)>, i: int)
    requires dlex(x, y, i) <= 0, dlex(y, z, i) <= 0, 0 <= i,
    ensures dlex(x, z, i) <= 0, (dlex(x, z, i) == 0 <==> dlex(x, y, i) == 0 && dlex(y, z, i) == 0),
    decreases x, x.len() - i,
{
    if i < x.len() && i < y.len() && i < z.len() {
        lex_order(chars(x[i].0@), chars(y[i].0@), chars(z[i].0@));
        if lex(chars(x[i].0@), chars(y[i].0@)) == 0 && lex(chars(y[i].0@), chars(z[i].0@)) == 0 {
            assert(decreases_to!(x[i] => x[i].1));
            vcmp_transitive(x[i].1, y[i].1, z[i].1);
            if vcmp(x[i].1, y[i].1) == 0 && vcmp(y[i].1, z[i].1) == 0 { dlex_transitive(x, y, z, i + 1); }
        }
    }
}
pub proof fn vcmp_reflexive(a: Bson) ensures vcmp(a, a) == 0, { vcmp_antisymmetric(a, a); }
