// C01: the key encoding is invertible, injective and prefix-free.
use vstd::prelude::*;
verus! {
#[derive(Debug)]
pub enum Error { NotAValidKeyType(String), UnknownBsonElementType(u8), Io, Utf8 }
pub type Result<T> = std::result::Result<T, Error>;
//@import _bson.rs
//@import _io.rs
//@import _keyspec.rs
//@import _keylemmas.rs
//@rule element type number: ElementType::$i_x as u8 ~~> et(ElementType::$i_x)
//@rule bytes of a string: $i_s.as_bytes() ~~> str_bytes($i_s)
//@rule for over a byte slice as an indexed loop: for $i_b in str_bytes($i_s) { ~~> let sb = str_bytes($i_s); let mut si: usize = 0; while si < sb.len() { let $i_b = &sb[si]; si = si + 1;
//@rule debug text of a refused value: format!("{:?}", $i_k) ~~> debug_text($i_k)
//@rule checked UTF-8 decoding: String::from_utf8( ~~> string_from_utf8(
//@rule the byte slice as a reader: let mut reader = buffer; ~~> let mut reader = Reader::new(buffer);

#[verifier::external_body]
fn debug_text(b: &Bson) -> String { unimplemented!() }

//@fn src/polodb_core/utils/bson.rs write_str_bytes
//@ret r
//@bind let sb = str_bytes($i_str)
//@spec
    ensures r is Ok, final(writer).out() == old(writer).out() + esc(utf8(str@)).push(0),
//@loop 0
    invariant
        si <= sb.len(),
        sb@ == utf8($i_str@),
        writer.out() + esc(sb@.skip(si as int)) == old(writer).out() + esc(sb@),
    decreases sb.len() - si,
//@loopstart 0
    let ghost out0 = writer.out();
    let ghost si0 = si as int;
//@loopend 0
    proof {
        assert(sb@.skip(si0).skip(1) == sb@.skip(si0 + 1));
        assert(sb@.skip(si0)[0] == sb@[si0]);
        assert(writer.out() == out0 + esc1(sb@[si0]));
        assert(writer.out() + esc(sb@.skip(si0 + 1)) == out0 + (esc1(sb@[si0]) + esc(sb@.skip(si0 + 1))));
    }
//@afterloop 0
    proof {
        assert(sb@.skip(sb.len() as int) =~= Seq::<u8>::empty());
        assert(writer.out() =~= old(writer).out() + esc(sb@));
        assert((old(writer).out() + esc(sb@)).push(0) =~= old(writer).out() + esc(sb@).push(0));
    }
//@start
    proof { assert(utf8(str@).skip(0) =~= utf8(str@)); }
//@end

//@fn src/polodb_core/utils/bson.rs unescape_str_bytes
//@ret r
//@bind let mut $i_res = Vec::<u8>::with_capacity
//@bind while $i_i < $i_bytes.len()
//@spec
    ensures r@ == unesc(bytes@),
//@loop 0
    invariant $i_i <= $i_bytes.len(), $i_res@ + unesc($i_bytes@.skip($i_i as int)) == unesc($i_bytes@),
    decreases $i_bytes.len() - $i_i,
//@loopstart 0
    let ghost i0 = $i_i as int;
    let ghost res0 = $i_res@;
//@loopend 0
    proof {
        let t = $i_bytes@.skip(i0);
        assert(t[0] == $i_bytes@[i0]);
        assert(t.skip(1) == $i_bytes@.skip(i0 + 1));
        if i0 + 1 < $i_bytes.len() { assert(t[1] == $i_bytes@[i0 + 1]); assert(t.skip(2) == $i_bytes@.skip(i0 + 2)); }
        assert($i_res@ + unesc($i_bytes@.skip($i_i as int)) =~= res0 + unesc(t));
    }
//@afterloop 0
    proof { assert($i_bytes@.skip($i_bytes.len() as int) =~= Seq::<u8>::empty()); assert($i_res@ =~= unesc($i_bytes@)); }
//@start
    proof { assert(bytes@.skip(0) =~= bytes@); }
//@end

//@fn src/polodb_core/utils/bson.rs stacked_key_bytes
//@ret r
//@spec
    ensures
        wf(val(*key)) ==> r is Ok && final(writer).out() == old(writer).out() + enc(val(*key)),
        !wf(val(*key)) ==> r is Err,
//@start
    proof {
        ts_pack();
        let v = val(*key);
        assert(forall|o: Seq<u8>, t: u8| #[trigger] o.push(t) =~= o + seq![t]);
        assert forall|o: Seq<u8>, t: u8, p: Seq<u8>| #[trigger] (o.push(t) + p) =~= o + (seq![t] + p) by {}
        assert forall|o: Seq<u8>, t: u8, p: u8| #[trigger] o.push(t).push(p) =~= o + (seq![t] + seq![p]) by {}
        assert forall|o: Seq<u8>, t: u8| #[trigger] o.push(t) =~= o + (seq![t] + Seq::<u8>::empty()) by {}
    }
//@end

//@fn src/polodb_core/utils/bson.rs stacked_key
//@ret r
//@rw any collection of references as a vector of references: fn stacked_key<'a, T: IntoIterator<Item = &'a Bson>>(keys: T) ~~> fn stacked_key(keys: &Vec<&Bson>)
//@rw for over the values as an indexed loop: for $i_k in $i_ks { ~~> let mut ki: usize = 0; while ki < $i_ks.len() { let $i_k = $i_ks[ki]; ki = ki + 1;
//@bind let mut $i_res = Vec::<u8>::new()
//@spec
    ensures
        valid(rvals(keys@)) ==> r is Ok && r->Ok_0@ == encs(rvals(keys@)),
        !valid(rvals(keys@)) ==> r is Err,
//@loop 0
    invariant
        ki <= keys.len(),
        forall|i: int| 0 <= i < ki ==> wf(#[trigger] rvals(keys@)[i]),
        $i_res@ + encs(rvals(keys@).skip(ki as int)) == encs(rvals(keys@)),
    decreases keys.len() - ki,
//@loopstart 0
    let ghost res0 = $i_res@;
    let ghost k0 = ki as int;
    proof { assert(rvals(keys@)[k0] == val(*keys@[k0])); }
//@loopend 0
    proof {
        let vs = rvals(keys@);
        assert(vs.skip(k0)[0] == vs[k0]);
        assert(vs.skip(k0).skip(1) =~= vs.skip(k0 + 1));
        assert($i_res@ + encs(vs.skip(k0 + 1)) =~= res0 + encs(vs.skip(k0)));
    }
//@afterloop 0
    proof { assert(rvals(keys@).skip(keys.len() as int) =~= Seq::<Val>::empty()); assert($i_res@ =~= encs(rvals(keys@))); }
//@start
    proof { assert(rvals(keys@).skip(0) =~= rvals(keys@)); }
//@end

//@fn src/polodb_core/utils/bson.rs split_stacked_keys
//@ret r
//@bind let mut $i_res = Vec::<Bson>::new()
//@spec
    ensures
        forall|vs: Seq<Val>| valid(vs) && #[trigger] encs(vs) == buffer@ ==> r is Ok && vals(r->Ok_0@) == vs,
//@loop 0
    invariant
        forall|vs: Seq<Val>| valid(vs) && #[trigger] encs(vs) == buffer@ ==> $i_res.len() <= vs.len()
            && vals($i_res@) == vs.take($i_res.len() as int) && reader.rest() == encs(vs.skip($i_res.len() as int)),
    ensures reader.rest().len() == 0,
    decreases reader.rest().len(),
//@loopstart 0
    let ghost rest0 = reader.rest();
    let ghost res0 = $i_res@;
    proof {
        ts_unpack();
        reveal_with_fuel(be, 1);
        assert forall|vs: Seq<Val>| valid(vs) && #[trigger] encs(vs) == buffer@ && rest0.len() > 0 implies
            res0.len() < vs.len() && headed(vs[res0.len() as int], rest0, encs(vs.skip(res0.len() as int + 1))) by {
            let w = vs.skip(res0.len() as int);
            assert(w.len() > 0);
            assert(w[0] == vs[res0.len() as int]);
            assert(w.skip(1) =~= vs.skip(res0.len() as int + 1));
            lemma_headed(w[0], encs(w.skip(1)));
        }
        lemma_all_unesc();
        lemma_all_be();
        broadcast use f64_bits_injective, f64_bits_range;
    }
//@loopend 0
    proof {
        assert forall|vs: Seq<Val>| valid(vs) && #[trigger] encs(vs) == buffer@ implies $i_res.len() <= vs.len()
            && vals($i_res@) == vs.take($i_res.len() as int) && reader.rest() == encs(vs.skip($i_res.len() as int)) by {
            let v = vs[res0.len() as int];
            assert(headed(v, rest0, encs(vs.skip(res0.len() as int + 1))));
            assert($i_res@.len() == res0.len() as int + 1);
            assert(val($i_res@[res0.len() as int]) == v);
            assert(vals($i_res@) =~= vs.take(res0.len() as int + 1));
        }
    }
//@afterloop 0
    proof {
        assert forall|vs: Seq<Val>| valid(vs) && #[trigger] encs(vs) == buffer@ implies vals($i_res@) == vs by {
            let w = vs.skip($i_res.len() as int);
            if w.len() > 0 { assert(enc(w[0]).len() > 0); }
            assert(vs.take($i_res.len() as int) =~= vs);
        }
    }
//@start
    proof {
        assert forall|vs: Seq<Val>| #[trigger] encs(vs) == buffer@ implies vs.skip(0) == vs by { assert(vs.skip(0) =~= vs); }
        assert forall|vs: Seq<Val>| #[trigger] encs(vs) == buffer@ implies vs.take(0) == Seq::<Val>::empty() by { assert(vs.take(0) =~= Seq::<Val>::empty()); }
        assert(vals(Seq::<Bson>::empty()) =~= Seq::<Val>::empty());
    }
//@end

/// what is encoded decodes to exactly the same tuple (over the contracts of the two functions)
fn c01_round_trip(keys: &Vec<&Bson>) -> (r: Result<Vec<Bson>>)
    requires valid(rvals(keys@)),
    ensures r is Ok, vals(r->Ok_0@) == rvals(keys@),
{
    let b = stacked_key(keys)?;
    let s = b.as_slice();
    assert(s@ == encs(rvals(keys@)));
    split_stacked_keys(s)
}

} // verus!
fn main() {}
