// Contracts of std::io / byteorder as the key encoding uses them (trusted base).
pub open spec fn be(n: nat, x: int) -> Seq<u8>
    decreases n,
{
    if n == 0 { Seq::empty() } else { be((n - 1) as nat, x / 256).push((x % 256) as u8) }
}

pub uninterp spec fn f64_bits(d: f64) -> int;
pub broadcast axiom fn f64_bits_injective(a: f64, b: f64)
    requires #[trigger] f64_bits(a) == #[trigger] f64_bits(b)
    ensures a == b;
pub broadcast axiom fn f64_bits_range(a: f64)
    ensures 0 <= #[trigger] f64_bits(a) < 0x1_0000_0000_0000_0000;

pub open spec fn u32_of(x: i32) -> int { if x >= 0 { x as int } else { x as int + 0x1_0000_0000 } }
pub open spec fn u64_of(x: i64) -> int { if x >= 0 { x as int } else { x as int + 0x1_0000_0000_0000_0000 } }

pub struct BigEndian;

/// std::io::Write into memory (every caller passes a Vec<u8>): always succeeds
pub trait Write {
    spec fn out(&self) -> Seq<u8>;
    fn write_u8(&mut self, b: u8) -> (r: Result<()>)
        ensures r is Ok, final(self).out() == old(self).out().push(b);
    fn write_all(&mut self, b: &[u8]) -> (r: Result<()>)
        ensures r is Ok, final(self).out() == old(self).out() + b@;
    fn write_f64<B>(&mut self, x: f64) -> (r: Result<()>)
        ensures r is Ok, final(self).out() == old(self).out() + be(8, f64_bits(x));
    fn write_i32<B>(&mut self, x: i32) -> (r: Result<()>)
        ensures r is Ok, final(self).out() == old(self).out() + be(4, u32_of(x));
    fn write_i64<B>(&mut self, x: i64) -> (r: Result<()>)
        ensures r is Ok, final(self).out() == old(self).out() + be(8, u64_of(x));
    fn write_u64<B>(&mut self, x: u64) -> (r: Result<()>)
        ensures r is Ok, final(self).out() == old(self).out() + be(8, x as int);
}

impl Write for Vec<u8> {
    open spec fn out(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn write_u8(&mut self, b: u8) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn write_all(&mut self, b: &[u8]) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn write_f64<B>(&mut self, x: f64) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn write_i32<B>(&mut self, x: i32) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn write_i64<B>(&mut self, x: i64) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn write_u64<B>(&mut self, x: u64) -> (r: Result<()>) { unimplemented!() }
}

pub struct Reader<'a> { pub b: &'a [u8] }

/// where the first zero byte is, or the length
pub open spec fn zero_at(s: Seq<u8>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else if s[0] == 0 { 0 } else { 1 + zero_at(s.skip(1)) }
}

impl<'a> Reader<'a> {
    pub uninterp spec fn rest(&self) -> Seq<u8>;

    #[verifier::external_body]
    pub fn new(b: &'a [u8]) -> (r: Reader<'a>) ensures r.rest() == b@, { unimplemented!() }

    #[verifier::external_body]
    pub fn read_u8(&mut self) -> (r: Result<u8>)
        ensures
            old(self).rest().len() >= 1 ==> r is Ok && r->Ok_0 == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
            old(self).rest().len() < 1 ==> r is Err && final(self).rest() == old(self).rest(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn read_f64<B>(&mut self) -> (r: Result<f64>)
        ensures
            old(self).rest().len() >= 8 ==> r is Ok && be(8, f64_bits(r->Ok_0)) == old(self).rest().take(8) && final(self).rest() == old(self).rest().skip(8),
            old(self).rest().len() < 8 ==> r is Err,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn read_i32<B>(&mut self) -> (r: Result<i32>)
        ensures
            old(self).rest().len() >= 4 ==> r is Ok && be(4, u32_of(r->Ok_0)) == old(self).rest().take(4) && final(self).rest() == old(self).rest().skip(4),
            old(self).rest().len() < 4 ==> r is Err,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn read_i64<B>(&mut self) -> (r: Result<i64>)
        ensures
            old(self).rest().len() >= 8 ==> r is Ok && be(8, u64_of(r->Ok_0)) == old(self).rest().take(8) && final(self).rest() == old(self).rest().skip(8),
            old(self).rest().len() < 8 ==> r is Err,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn read_u64<B>(&mut self) -> (r: Result<u64>)
        ensures
            old(self).rest().len() >= 8 ==> r is Ok && be(8, r->Ok_0 as int) == old(self).rest().take(8) && final(self).rest() == old(self).rest().skip(8),
            old(self).rest().len() < 8 ==> r is Err,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn read_exact<const N: usize>(&mut self, out: &mut [u8; N]) -> (r: Result<()>)
        ensures
            old(self).rest().len() >= N ==> r is Ok && final(out)@ == old(self).rest().take(N as int) && final(self).rest() == old(self).rest().skip(N as int),
            old(self).rest().len() < N ==> r is Err,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn read_until(&mut self, d: u8, out: &mut Vec<u8>) -> (r: Result<usize>)
        requires d == 0,
        ensures
            r is Ok,
            final(self).rest().len() <= old(self).rest().len(),
            zero_at(old(self).rest()) < old(self).rest().len() ==>
                final(out)@ == old(out)@ + old(self).rest().take(zero_at(old(self).rest()) + 1)
                && final(self).rest() == old(self).rest().skip(zero_at(old(self).rest()) + 1),
            zero_at(old(self).rest()) >= old(self).rest().len() ==>
                final(out)@ == old(out)@ + old(self).rest() && final(self).rest().len() == 0,
    { unimplemented!() }
}

/// UTF-8 as std guarantees it (trusted): decodable, and no byte 0xC0 in it
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub axiom fn utf8_axiom(s: Seq<char>)
    ensures forall|i: int| 0 <= i < utf8(s).len() ==> utf8(s)[i] != 0xC0;
pub axiom fn utf8_injective(s: Seq<char>, t: Seq<char>)
    requires utf8(s) == utf8(t),
    ensures s == t;

#[verifier::external_body]
pub fn str_bytes(s: &str) -> (r: &[u8]) ensures r@ == utf8(s@), { unimplemented!() }

#[verifier::external_body]
pub fn string_from_utf8(b: Vec<u8>) -> (r: Result<String>)
    ensures
        r is Ok ==> utf8(r->Ok_0@) == b@,
        r is Err ==> forall|s: Seq<char>| #[trigger] utf8(s) != b@,
{ unimplemented!() }
