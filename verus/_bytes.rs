// little-endian numbers, sequential streams and in-memory readers (std::io, tokio::io), by contract
#[derive(Debug)]
pub struct Error;
pub type Result<T> = std::result::Result<T, Error>;
pub open spec fn le_u32(s: Seq<u8>) -> int { s[0] + 256 * s[1] + 65536 * s[2] + 16777216 * s[3] }
pub open spec fn le_i32(s: Seq<u8>) -> int { if le_u32(s) >= 0x8000_0000 { le_u32(s) - 0x1_0000_0000 } else { le_u32(s) } }
pub proof fn lemma_le_unique(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == 4, b.len() == 4, le_i32(a) == le_i32(b),
    ensures a == b,
{
    assert(le_u32(a) == le_u32(b));
    assert(a[3] == b[3] && a[2] == b[2] && a[1] == b[1] && a[0] == b[0]);
    assert(a =~= b);
}
pub trait ToLe { spec fn le_of(&self, b: Seq<u8>) -> bool; fn to_le_bytes4(&self) -> (r: [u8; 4]) ensures self.le_of(r@); }
impl ToLe for i32 { open spec fn le_of(&self, b: Seq<u8>) -> bool { le_i32(b) == *self } #[verifier::external_body] fn to_le_bytes4(&self) -> (r: [u8; 4]) { unimplemented!() } }
impl ToLe for u32 { open spec fn le_of(&self, b: Seq<u8>) -> bool { le_u32(b) == *self } #[verifier::external_body] fn to_le_bytes4(&self) -> (r: [u8; 4]) { unimplemented!() } }

/// what a peer sends, in order, and what it is sent
/// (failed: the connection is closed or broken)
pub struct Stream { pub rest: Ghost<Seq<u8>>, pub sent: Ghost<Seq<u8>>, pub failed: Ghost<bool> }
impl Stream {
    #[verifier::external_body]
    pub fn read_i32_le(&mut self) -> (r: Result<i32>)
        ensures final(self).sent == old(self).sent, (match r { Ok(v) => old(self).rest@.len() >= 4 && v == le_i32(old(self).rest@.take(4)) && final(self).rest@ == old(self).rest@.skip(4), Err(_) => final(self).failed@ }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize>)
        ensures
            final(self).sent == old(self).sent, final(buf).len() == old(buf).len(),
            (match r { Ok(_) => old(self).rest@.len() >= old(buf).len() && final(buf)@ == old(self).rest@.take(old(buf).len() as int) && final(self).rest@ == old(self).rest@.skip(old(buf).len() as int), Err(_) => final(self).failed@ }),
    { unimplemented!() }
    /// also what a failed write leaves is a part of the bytes
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: Result<()>)
        ensures final(self).rest == old(self).rest, r is Ok ==> final(self).sent@ == old(self).sent@ + b@,
    { unimplemented!() }
}

/// std::io::Read over bytes in memory
pub trait Read: Sized {
    spec fn rest(&self) -> Seq<u8>;
    /// what is read fits the counters of what is read
    spec fn ok(&self) -> bool;
    /// `new` is `old` after n bytes
    #[verifier::prophetic] spec fn after(old: Self, new: Self, n: int) -> bool;
    proof fn after_facts(old: Self, new: Self, n: int)
        requires Self::after(old, new, n), 0 <= n <= old.rest().len(), old.ok(),
        ensures new.rest() == old.rest().skip(n), new.ok();
    proof fn after_trans(a: Self, b: Self, c: Self, n: int, m: int)
        requires Self::after(a, b, n), Self::after(b, c, m), 0 <= n, 0 <= m, n + m <= a.rest().len(),
        ensures Self::after(a, c, n + m);
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
        requires old(self).ok(),
        ensures r is Ok ==> r->Ok_0 <= old(self).rest().len() && Self::after(*old(self), *final(self), r->Ok_0 as int);
    /// provided by std on top of `read`: a reader over memory has the bytes or it does not
    fn read_exact<const N: usize>(&mut self, buf: &mut [u8; N]) -> (r: Result<()>)
        requires old(self).ok(),
        ensures
            r is Ok <==> old(self).rest().len() >= N,
            r is Ok ==> final(buf)@ == old(self).rest().take(N as int) && Self::after(*old(self), *final(self), N as int);
    /// take(n).read_to_end(out)
    fn take_to_end(&mut self, n: u64, out: &mut Vec<u8>) -> (r: Result<usize>)
        requires old(self).ok(),
        ensures r is Ok, final(out)@ == old(out)@ + old(self).rest().take(least(n as int, old(self).rest().len() as int)),
            Self::after(*old(self), *final(self), least(n as int, old(self).rest().len() as int));
}
pub open spec fn least(a: int, b: int) -> int { if a < b { a } else { b } }
#[verifier::external_body]
pub fn i32_from_le(b: [u8; 4]) -> (r: i32) ensures r == le_i32(b@), { unimplemented!() }
#[verifier::external_body]
pub fn u32_from_le(b: [u8; 4]) -> (r: u32) ensures r == le_u32(b@), { unimplemented!() }
pub trait SyncLittleEndianRead: Read {
    fn read_u8_sync(&mut self) -> (r: Result<u8>)
        requires old(self).ok(),
        ensures r is Ok <==> old(self).rest().len() >= 1, r is Ok ==> r->Ok_0 == old(self).rest()[0] && Self::after(*old(self), *final(self), 1);
    fn read_i32_sync(&mut self) -> (r: Result<i32>)
        requires old(self).ok(),
        ensures r is Ok <==> old(self).rest().len() >= 4, r is Ok ==> r->Ok_0 == le_i32(old(self).rest().take(4)) && Self::after(*old(self), *final(self), 4);
    fn read_u32_sync(&mut self) -> (r: Result<u32>)
        requires old(self).ok(),
        ensures r is Ok <==> old(self).rest().len() >= 4, r is Ok ==> r->Ok_0 == le_u32(old(self).rest().take(4)) && Self::after(*old(self), *final(self), 4);
}
//@rule little endian by contract: i32::from_le_bytes($e) ~~> i32_from_le($e)
//@rule little endian by contract: u32::from_le_bytes($e) ~~> u32_from_le($e)
impl<R: Read> SyncLittleEndianRead for R {
//@fn src/polodb/sync_read_ext.rs SyncLittleEndianRead::read_u8_sync
//@end
//@fn src/polodb/sync_read_ext.rs SyncLittleEndianRead::read_i32_sync
//@end
//@fn src/polodb/sync_read_ext.rs SyncLittleEndianRead::read_u32_sync
//@end
}
pub struct Bytes { pub data: Ghost<Seq<u8>> }
impl Bytes {
    #[verifier::external_body]
    pub fn of(v: &Vec<u8>) -> (r: Bytes) ensures r.data@ == v@, v.len() <= usize::MAX, { unimplemented!() }
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.data@, { unimplemented!() }
}
impl Read for Bytes {
    open spec fn rest(&self) -> Seq<u8> { self.data@ }
    open spec fn ok(&self) -> bool { self.data@.len() <= usize::MAX }
    #[verifier::prophetic] open spec fn after(old: Self, new: Self, n: int) -> bool { new.data@ == old.data@.skip(n) }
    proof fn after_facts(old: Self, new: Self, n: int) {}
    proof fn after_trans(a: Self, b: Self, c: Self, n: int, m: int) { assert(a.data@.skip(n).skip(m) =~= a.data@.skip(n + m)); }
    #[verifier::external_body] fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { unimplemented!() }
    #[verifier::external_body] fn read_exact<const N: usize>(&mut self, buf: &mut [u8; N]) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn take_to_end(&mut self, n: u64, out: &mut Vec<u8>) -> (r: Result<usize>) { unimplemented!() }
}
/// util.rs: a reader that counts
pub struct SyncCountReader<'a> { pub reader: &'a mut Bytes, pub bytes_read: usize }
//@rule one reader type: fn new(reader: R) -> Self ~~> fn new(reader: &'a mut Bytes) -> Self
//@rule the result type of std: std::io::Result<usize> ~~> Result<usize>
impl<'a> SyncCountReader<'a> {
//@fn src/polodb/wire/util.rs SyncCountReader::new
//@ret r
//@spec
    requires old(reader).ok(),
    ensures r.bytes_read == 0, *r.reader == *old(reader), *final(r.reader) == *final(reader), r.ok(),
//@end
//@fn src/polodb/wire/util.rs SyncCountReader::bytes_read
//@ret r
//@spec
    ensures r == self.bytes_read,
//@end
}
impl<'a> Read for SyncCountReader<'a> {
    open spec fn rest(&self) -> Seq<u8> { self.reader.data@ }
    open spec fn ok(&self) -> bool { self.bytes_read + self.reader.data@.len() <= usize::MAX }
    #[verifier::prophetic] open spec fn after(old: Self, new: Self, n: int) -> bool {
        new.reader.data@ == old.reader.data@.skip(n) && new.bytes_read == old.bytes_read + n && *final(new.reader) == *final(old.reader)
    }
    proof fn after_facts(old: Self, new: Self, n: int) {}
    proof fn after_trans(a: Self, b: Self, c: Self, n: int, m: int) { assert(a.reader.data@.skip(n).skip(m) =~= a.reader.data@.skip(n + m)); }
//@fn src/polodb/wire/util.rs Read for SyncCountReader::read
//@end
    #[verifier::external_body] fn read_exact<const N: usize>(&mut self, buf: &mut [u8; N]) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn take_to_end(&mut self, n: u64, out: &mut Vec<u8>) -> (r: Result<usize>) { unimplemented!() }
}
