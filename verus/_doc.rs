// bson::Document as a sequence of (name, value) pairs in insertion order, names distinct. The contracts of its methods are
// assumed (bson crate, IndexMap inside).
pub type DV = Seq<(Seq<char>, Bson)>;

pub open spec fn dv(d: Document) -> DV { d.entries@.map_values(|e: (String, Bson)| (e.0@, e.1)) }

pub open spec fn d_get(s: DV, k: Seq<char>) -> Option<Bson>
    decreases s.len(),
{
    if s.len() == 0 { None } else if s[0].0 == k { Some(s[0].1) } else { d_get(s.skip(1), k) }
}

/// the value is replaced in place, a new name goes to the end
pub open spec fn d_ins(s: DV, k: Seq<char>, v: Bson) -> DV
    decreases s.len(),
{
    if s.len() == 0 { seq![(k, v)] } else if s[0].0 == k { seq![(k, v)] + s.skip(1) } else { seq![s[0]] + d_ins(s.skip(1), k, v) }
}

pub open spec fn d_rem(s: DV, k: Seq<char>) -> DV
    decreases s.len(),
{
    if s.len() == 0 { s } else if s[0].0 == k { d_rem(s.skip(1), k) } else { seq![s[0]] + d_rem(s.skip(1), k) }
}

pub open spec fn d_has(s: DV, k: Seq<char>) -> bool { d_get(s, k) is Some }

pub proof fn lemma_get_ins(s: DV, k: Seq<char>, v: Bson, k2: Seq<char>)
    ensures d_get(d_ins(s, k, v), k2) == (if k2 == k { Some(v) } else { d_get(s, k2) }),
    decreases s.len(),
{
    reveal_with_fuel(d_get, 2);
    if s.len() > 0 {
        let t = d_ins(s, k, v);
        if s[0].0 == k {
            assert(t.skip(1) =~= s.skip(1));
        } else {
            lemma_get_ins(s.skip(1), k, v, k2);
            assert(t.skip(1) =~= d_ins(s.skip(1), k, v));
        }
    } else {
        assert(d_ins(s, k, v).skip(1) =~= s);
    }
}

pub proof fn lemma_get_rem(s: DV, k: Seq<char>, k2: Seq<char>)
    ensures d_get(d_rem(s, k), k2) == (if k2 == k { None } else { d_get(s, k2) }),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_get_rem(s.skip(1), k, k2);
        if s[0].0 != k {
            assert(d_rem(s, k).skip(1) =~= d_rem(s.skip(1), k));
        }
    }
}

pub proof fn lemma_rem_absent(s: DV, k: Seq<char>)
    ensures d_get(s, k) is None ==> d_rem(s, k) == s,
    decreases s.len(),
{
    if s.len() > 0 && s[0].0 != k {
        lemma_rem_absent(s.skip(1), k);
        if d_get(s, k) is None { assert(seq![s[0]] + s.skip(1) =~= s); }
    }
}

pub proof fn lemma_get_index(s: DV, i: int)
    requires 0 <= i < s.len(),
    ensures d_has(s, s[i].0),
    decreases s.len(),
{
    if i > 0 && s[0].0 != s[i].0 {
        assert(s.skip(1)[i - 1] == s[i]);
        lemma_get_index(s.skip(1), i - 1);
    }
}

pub proof fn lemma_has_index(s: DV, k: Seq<char>) -> (i: int)
    requires d_has(s, k),
    ensures 0 <= i < s.len() && s[i].0 == k && d_get(s, k) == Some(s[i].1),
    decreases s.len(),
{
    if s[0].0 == k { 0 } else {
        let j = lemma_has_index(s.skip(1), k);
        assert(s.skip(1)[j] == s[j + 1]);
        j + 1
    }
}

/// what can be a field name argument: &str, &String (shared), String (owned)
pub trait Name { spec fn nm(&self) -> Seq<char>; }
impl Name for str { open spec fn nm(&self) -> Seq<char> { self@ } }
impl Name for String { open spec fn nm(&self) -> Seq<char> { self@ } }
pub trait OwnName: Sized { spec fn onm(&self) -> Seq<char>; }
impl OwnName for &str { open spec fn onm(&self) -> Seq<char> { self@ } }
impl OwnName for &String { open spec fn onm(&self) -> Seq<char> { self@ } }
impl OwnName for String { open spec fn onm(&self) -> Seq<char> { self@ } }

impl Document {
    #[verifier::external_body]
    pub fn new() -> (r: Document) ensures dv(r) == Seq::<(Seq<char>, Bson)>::empty(), { unimplemented!() }

    #[verifier::external_body]
    pub fn get<K: Name + ?Sized>(&self, k: &K) -> (r: Option<&Bson>)
        ensures d_get(dv(*self), k.nm()) == (match r { Some(v) => Some(*v), None => None::<Bson> }),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn contains_key<K: Name + ?Sized>(&self, k: &K) -> (r: bool)
        ensures r == d_has(dv(*self), k.nm()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn insert<K: OwnName>(&mut self, k: K, v: Bson) -> (r: Option<Bson>)
        ensures dv(*final(self)) == d_ins(dv(*old(self)), k.onm(), v), r == d_get(dv(*old(self)), k.onm()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn remove<K: Name + ?Sized>(&mut self, k: &K) -> (r: Option<Bson>)
        ensures dv(*final(self)) == d_rem(dv(*old(self)), k.nm()), r == d_get(dv(*old(self)), k.nm()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (dv(*self).len() == 0), { unimplemented!() }

    #[verifier::external_body]
    pub fn get_mut<K: Name + ?Sized>(&mut self, k: &K) -> (r: Option<&mut Bson>)
        ensures match d_get(dv(*old(self)), k.nm()) {
            Some(v) => r is Some && *r->0 == v && dv(*final(self)) == d_ins(dv(*old(self)), k.nm(), *final(r->0)),
            None => r is None && *final(self) == *old(self),
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_str<K: Name + ?Sized>(&self, k: &K) -> (r: std::result::Result<&str, ValueAccessError>)
        ensures match d_get(dv(*self), k.nm()) { Some(Bson::String(s)) => r is Ok && r->Ok_0@ == s@, _ => r is Err },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_document<K: Name + ?Sized>(&self, k: &K) -> (r: std::result::Result<&Document, ValueAccessError>)
        ensures match d_get(dv(*self), k.nm()) { Some(Bson::Document(s)) => r is Ok && *r->Ok_0 == s, _ => r is Err },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_array<K: Name + ?Sized>(&self, k: &K) -> (r: std::result::Result<&Vec<Bson>, ValueAccessError>)
        ensures match d_get(dv(*self), k.nm()) { Some(Bson::Array(s)) => r is Ok && *r->Ok_0 == s, _ => r is Err },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_bool<K: Name + ?Sized>(&self, k: &K) -> (r: std::result::Result<bool, ValueAccessError>)
        ensures match d_get(dv(*self), k.nm()) { Some(Bson::Boolean(s)) => r == Ok::<bool, ValueAccessError>(s), _ => r is Err },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_i32<K: Name + ?Sized>(&self, k: &K) -> (r: std::result::Result<i32, ValueAccessError>)
        ensures match d_get(dv(*self), k.nm()) { Some(Bson::Int32(s)) => r == Ok::<i32, ValueAccessError>(s), _ => r is Err },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_i64<K: Name + ?Sized>(&self, k: &K) -> (r: std::result::Result<i64, ValueAccessError>)
        ensures match d_get(dv(*self), k.nm()) { Some(Bson::Int64(s)) => r == Ok::<i64, ValueAccessError>(s), _ => r is Err },
    { unimplemented!() }
    pub fn clear(&mut self) ensures dv(*final(self)) =~= Seq::<(Seq<char>, Bson)>::empty(), { self.entries = Vec::new(); }
}
pub struct ValueAccessError { x: u8 }

impl Clone for Bson {
    #[verifier::external_body]
    fn clone(&self) -> (r: Bson) ensures r == *self, { unimplemented!() }
}
impl Clone for Document {
    #[verifier::external_body]
    fn clone(&self) -> (r: Document) ensures r == *self, { unimplemented!() }
}

impl Bson {
    pub fn as_document_mut(&mut self) -> (r: Option<&mut Document>)
        ensures match *old(self) {
            Bson::Document(d) => r is Some && *r->0 == d && *final(self) == Bson::Document(*final(r->0)),
            _ => r is None && *final(self) == *old(self),
        },
    { match self { Bson::Document(d) => Some(d), _ => None } }

    pub fn as_document(&self) -> (r: Option<&Document>)
        ensures (match r { Some(d) => *self == Bson::Document(*d), None => !(*self is Document) }),
    { match self { Bson::Document(d) => Some(d), _ => None } }

    pub fn as_array(&self) -> (r: Option<&Vec<Bson>>)
        ensures (match r { Some(d) => *self == Bson::Array(*d), None => !(*self is Array) }),
    { match self { Bson::Array(d) => Some(d), _ => None } }

    pub fn as_array_mut(&mut self) -> (r: Option<&mut Vec<Bson>>)
        ensures match *old(self) {
            Bson::Array(d) => r is Some && *r->0 == d && *final(self) == Bson::Array(*final(r->0)),
            _ => r is None && *final(self) == *old(self),
        },
    { match self { Bson::Array(d) => Some(d), _ => None } }

    pub fn as_str(&self) -> (r: Option<&str>)
        ensures (match r { Some(s) => *self is String && s@ == self->String_0@, None => !(*self is String) }),
    { match self { Bson::String(s) => Some(s.as_str()), _ => None } }

    pub fn as_bool(&self) -> (r: Option<bool>)
        ensures (match r { Some(b) => *self == Bson::Boolean(b), None => !(*self is Boolean) }),
    { match self { Bson::Boolean(b) => Some(*b), _ => None } }

    pub fn as_i32(&self) -> (r: Option<i32>)
        ensures (match r { Some(n) => *self == Bson::Int32(n), None => !(*self is Int32) }),
    { match self { Bson::Int32(n) => Some(*n), _ => None } }

    pub fn as_i64(&self) -> (r: Option<i64>)
        ensures (match r { Some(n) => *self == Bson::Int64(n), None => !(*self is Int64) }),
    { match self { Bson::Int64(n) => Some(*n), _ => None } }

    pub fn as_f64(&self) -> (r: Option<f64>)
        ensures (match r { Some(n) => *self == Bson::Double(n), None => !(*self is Double) }),
    { match self { Bson::Double(n) => Some(*n), _ => None } }

    pub fn as_null(&self) -> (r: Option<()>)
        ensures r is Some == (*self is Null),
    { match self { Bson::Null => Some(()), _ => None } }
}

// vectors and strings are what they contain
pub uninterp spec fn arr(s: Seq<Bson>) -> Bson;
pub uninterp spec fn owned(s: Seq<char>) -> String;
pub mod ax {
    use super::*;
    pub broadcast axiom fn ax_arr(v: Vec<Bson>) ensures Bson::Array(v) == arr(#[trigger] v@);
    pub broadcast axiom fn ax_owned(s: Seq<char>) ensures (#[trigger] owned(s))@ == s;
}

// one operator after the other: the state is the document and whether it was touched; None is a refusal
pub type St = Option<(DV, bool)>;
pub open spec fn fold<A>(ops: Seq<A>, n: int, s0: DV, step: spec_fn(A, DV, bool) -> St) -> St
    decreases n,
{
    if n <= 0 { Some((s0, false)) }
    else { match fold(ops, n - 1, s0, step) { None => None, Some((d, u)) => step(ops[n - 1], d, u) } }
}

/// a name that no step touches keeps its value
pub proof fn lemma_fold_frame<A>(ops: Seq<A>, n: int, s0: DV, step: spec_fn(A, DV, bool) -> St, k: Seq<char>)
    requires
        0 <= n <= ops.len(),
        forall|i: int, d: DV, u: bool| 0 <= i < ops.len() && (#[trigger] step(ops[i], d, u)) is Some ==>
            d_get((step(ops[i], d, u)->Some_0).0, k) == d_get(d, k),
    ensures
        fold(ops, n, s0, step) is Some ==> d_get((fold(ops, n, s0, step)->Some_0).0, k) == d_get(s0, k),
    decreases n,
{
    if n > 0 { lemma_fold_frame(ops, n - 1, s0, step, k); }
}

/// once refused, always refused
pub proof fn lemma_fold_none<A>(ops: Seq<A>, n: int, m: int, s0: DV, step: spec_fn(A, DV, bool) -> St)
    requires fold(ops, n, s0, step) is None, n <= m,
    ensures fold(ops, m, s0, step) is None,
    decreases m - n,
{
    if n < m { lemma_fold_none(ops, n, m - 1, s0, step); }
}
