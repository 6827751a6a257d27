// The code generator, with what is known of the code so far (ghost).
pub struct PipelineItem { pub next_label: Label }
pub struct OpRegistry { x: u8 }
#[derive(Copy, Clone)]
pub struct Label(pub u32);
pub struct JumpTableRecord { pub begin_loc: u32, pub offset: u32, pub label_id: u32 }
/// what a code generator has: the instructions so far, what is known at the current location (none: it is not reached), the labels
/// with what is known at each, those not yet placed, and an instruction begun
pub struct Snap { pub code: Seq<u8>, pub jt: Seq<JumpTableRecord>, pub slots: Seq<LabelSlot>, pub p: Pool, pub m: Code, pub cur: Option<At>, pub lab: Map<int, At>, pub open: Set<int> }
pub struct Gen { pub m: Code, pub cur: Option<At>, pub lab: Map<int, At>, pub open: Set<int>, pub part: Option<(Ins, Snap)>, pub got: int, pub ctx: Seq<PipelineItem> }
/// (program: behind a Box in the source)
pub struct Codegen {
    pub program: SubProgram,
    pub jump_table: Vec<JumpTableRecord>,
    pub skip_annotation: bool,
    pub is_write: bool,
    pub paths: Vec<String>,
    pub op_registry: OpRegistry,
    pub g: Ghost<Gen>,
}
pub open spec fn gen0() -> Gen { Gen { m: Map::empty(), cur: Some(start()), lab: Map::empty(), open: Set::empty(), part: None, got: 0, ctx: Seq::empty() } }
pub open spec fn cpool(c: Codegen) -> Pool { pool(c.program, c.is_write) }
pub open spec fn snap(c: Codegen) -> Snap {
    Snap { code: c.program.instructions@, jt: c.jump_table@, slots: c.program.label_slots@, p: cpool(c), m: c.g@.m, cur: c.g@.cur, lab: c.g@.lab, open: c.g@.open }
}
pub open spec fn at_of(l: LabelSlot) -> int { match l { LabelSlot::Empty => -1, LabelSlot::UnnamedLabel(p) => p as int, LabelSlot::LabelWithString(p, _) => p as int } }
pub open spec fn placed(s: Snap, l: int) -> bool { 0 <= l < s.slots.len() && !(s.slots[l] is Empty) }
pub open spec fn record_for(j: JumpTableRecord, q: int, i: Ins) -> bool { j.begin_loc == q && j.offset == slot(i.op) && j.label_id == i.to }
/// the location of the instruction is in place, or will be
pub open spec fn linked(s: Snap, q: int, i: Ins) -> bool {
    ||| placed(s, i.to) && le4(s.code, q + slot(i.op)) == at_of(s.slots[i.to])
    ||| exists|r: int| 0 <= r < s.jt.len() && record_for(#[trigger] s.jt[r], q, i)
}
pub open spec fn known(s: Snap, q: int) -> bool {
    let i = s.m[q];
    &&& 0 <= q && q + width(i.op) <= s.code.len()
    &&& coded(s.code, q, i) && ok(s.p, i)
    &&& falls(i.op) ==> leads(s.m, s.p, q) || (q + width(i.op) == s.code.len() && s.cur is Some && weaker(s.cur->0, after(s.p, i)))
    &&& jumps(i.op) ==> s.lab.contains_key(i.to) && target_ok(i, s.lab[i.to]) && linked(s, q, i)
}
pub open spec fn label_ok(s: Snap, l: int) -> bool {
    &&& 0 <= l < s.slots.len() && s.open.contains(l) == (s.slots[l] is Empty)
    &&& !(s.slots[l] is Empty) ==> s.m.contains_key(at_of(s.slots[l])) && s.m[at_of(s.slots[l])].s == s.lab[l]
}
pub open spec fn record_ok(s: Snap, r: int) -> bool { s.m.contains_key(s.jt[r].begin_loc as int) && jumps(s.m[s.jt[r].begin_loc as int].op) && record_for(s.jt[r], s.jt[r].begin_loc as int, s.m[s.jt[r].begin_loc as int]) }
/// no instruction lies in another
#[verifier::opaque]
pub open spec fn apart(m: Code) -> bool { forall|a: int, b: int| #[trigger] m.contains_key(a) && #[trigger] m.contains_key(b) && a < b ==> a + width(m[a].op) <= b }
#[verifier::opaque]
pub open spec fn inv0(s: Snap) -> bool {
    &&& s.code.len() <= u32::MAX
    &&& (s.code.len() == 0 && s.cur is Some && weaker(s.cur->0, start())) || (s.m.contains_key(0) && weaker(s.m[0].s, start()))
    &&& forall|q: int| #[trigger] s.m.contains_key(q) ==> known(s, q)
    &&& apart(s.m)
    &&& forall|r: int| 0 <= r < s.jt.len() ==> record_ok(s, r)
    &&& forall|l: int| #[trigger] s.lab.contains_key(l) ==> label_ok(s, l)
    &&& forall|l: int| #[trigger] s.open.contains(l) ==> s.lab.contains_key(l)
}
/// the bytes of an instruction begun
pub open spec fn begun(c: Codegen, i: Ins, s0: Snap) -> bool {
    let q = s0.code.len() as int;
    let code = c.program.instructions@;
    let got = c.g@.got;
    &&& inv0(s0) && s0.cur == Some(i.s) && 0 <= got && 1 + got < width(i.op)
    &&& code.len() == q + 1 + got && code.take(q) =~= s0.code && code[q] == byte(i.op)
    &&& got == 4 && has_a(i.op) ==> le4(code, q + 1) == i.a
    &&& snap(c).slots == s0.slots && snap(c).p == s0.p && c.g@.m == s0.m && c.g@.cur == s0.cur && c.g@.lab == s0.lab && c.g@.open == s0.open
    &&& if jumps(i.op) && got == 4 {
        &&& s0.lab.contains_key(i.to)
        &&& (c.jump_table@ == s0.jt && placed(s0, i.to) && le4(code, q + 1) == at_of(s0.slots[i.to]))
            || (c.jump_table@.len() == s0.jt.len() + 1 && c.jump_table@.take(s0.jt.len() as int) =~= s0.jt && record_for(c.jump_table@.last(), q, i))
    } else { c.jump_table@ == s0.jt }
}
pub open spec fn inv(c: Codegen) -> bool {
    match c.g@.part { None => c.g@.got == 0 && inv0(snap(c)), Some((i, s0)) => begun(c, i, s0) }
}

/// nothing but code was added
pub open spec fn quiet(a: Codegen, b: Codegen) -> bool {
    &&& b.is_write == a.is_write && b.skip_annotation == a.skip_annotation && b.paths == a.paths
    &&& b.program.static_values == a.program.static_values && b.program.index_infos == a.program.index_infos && b.program.label_slots == a.program.label_slots
    &&& b.program.external_funcs == a.program.external_funcs && b.program.update_operators == a.program.update_operators && b.program.global_variables == a.program.global_variables
    &&& b.g@.lab == a.g@.lab && b.g@.open == a.g@.open && b.g@.ctx == a.g@.ctx
}
pub open spec fn next(p: Pool, i: Ins) -> Option<At> { if falls(i.op) { Some(after(p, i)) } else { None } }
pub open spec fn ins(op: DbOp, s: At) -> Ins { Ins { op, a: 0, b: 0, to: -1, s } }
/// the instruction i was added
pub open spec fn added(a: Codegen, b: Codegen, i: Ins) -> bool { inv(b) && quiet(a, b) && b.g@.part is None && b.g@.cur == next(cpool(a), i) }
/// nothing is begun, and the current location is reached with s known
pub open spec fn ready(c: Codegen, s: At) -> bool { inv(c) && c.g@.part is None && c.g@.cur == Some(s) }

pub open spec fn operand(i: Ins, got: int, x: int) -> Ins { if got == 0 { Ins { a: x, ..i } } else { Ins { b: x, ..i } } }
/// the label is placed here
pub open spec fn labelled(a: Codegen, b: Codegen, l: Label) -> bool {
    &&& inv(b) && b.g@.part is None && b.g@.cur == Some(a.g@.lab[l.0 as int]) && b.g@.lab == a.g@.lab && b.g@.open == a.g@.open.remove(l.0 as int)
    &&& b.g@.ctx == a.g@.ctx && cpool(b) == cpool(a) && b.paths == a.paths && b.is_write == a.is_write && b.skip_annotation == a.skip_annotation
    &&& b.program.static_values == a.program.static_values
}
proof fn lemma_weaker(a: At, b: At, c: At)
    requires weaker(a, b), weaker(b, c),
    ensures weaker(a, c),
{ }
proof fn lemma_known_on(s: Snap, t: Snap, i: Ins, q: int)
    requires
        s.m.contains_key(q), known(s, q), !s.m.contains_key(s.code.len() as int), s.code.len() <= t.code.len(), forall|k: int| 0 <= k < s.code.len() ==> t.code[k] == #[trigger] s.code[k],
        s.jt.len() <= t.jt.len(), forall|r: int| 0 <= r < s.jt.len() ==> t.jt[r] == #[trigger] s.jt[r],
        t.slots == s.slots, t.p == s.p, t.lab == s.lab, s.cur == Some(i.s), t.m == s.m.insert(s.code.len() as int, i),
    ensures known(t, q),
{
    let j = s.m[q];
    if jumps(j.op) && !(placed(s, j.to) && le4(s.code, q + slot(j.op)) == at_of(s.slots[j.to])) {
        let r = choose|r: int| 0 <= r < s.jt.len() && record_for(#[trigger] s.jt[r], q, j);
        assert(record_for(t.jt[r], q, j));
    }
}
/// an instruction is complete
#[verifier::spinoff_prover]
#[verifier::rlimit(50)]
proof fn lemma_append(s: Snap, t: Snap, i: Ins)
    requires
        inv0(s), s.cur == Some(i.s), ok(s.p, i), t.code.len() <= u32::MAX,
        t.code.len() == s.code.len() + width(i.op), t.code.take(s.code.len() as int) =~= s.code, coded(t.code, s.code.len() as int, i),
        t.slots == s.slots, t.p == s.p, t.lab == s.lab, t.open == s.open,
        t.m == s.m.insert(s.code.len() as int, i), t.cur == next(s.p, i),
        jumps(i.op) ==> s.lab.contains_key(i.to) && target_ok(i, s.lab[i.to]) && (
            (t.jt == s.jt && placed(s, i.to) && le4(t.code, s.code.len() + slot(i.op)) == at_of(s.slots[i.to]))
            || (t.jt.len() == s.jt.len() + 1 && t.jt.take(s.jt.len() as int) =~= s.jt && record_for(t.jt.last(), s.code.len() as int, i))),
        !jumps(i.op) ==> t.jt == s.jt,
    ensures inv0(t),
{
    reveal(inv0);
    let n = s.code.len() as int;
    if s.m.contains_key(n) { assert(known(s, n)); }
    assert forall|k: int| 0 <= k < n implies t.code[k] == #[trigger] s.code[k] by { assert(t.code.take(n)[k] == t.code[k]); }
    assert forall|r: int| 0 <= r < s.jt.len() implies t.jt[r] == #[trigger] s.jt[r] by { if t.jt != s.jt { assert(t.jt.take(s.jt.len() as int)[r] == t.jt[r]); } }
    assert forall|q: int| #[trigger] t.m.contains_key(q) implies known(t, q) by {
        if q == n {
            if jumps(i.op) && t.jt != s.jt { assert(record_for(t.jt[t.jt.len() - 1], q, i)); }
        } else {
            lemma_known_on(s, t, i, q);
        }
    }
    assert(apart(t.m)) by {
        reveal(apart);
        assert forall|a: int, b: int| #[trigger] t.m.contains_key(a) && #[trigger] t.m.contains_key(b) && a < b implies a + width(t.m[a].op) <= b by {
            if a != n { assert(s.m.contains_key(a)); assert(known(s, a)); }
            if b != n { assert(s.m.contains_key(b)); assert(known(s, b)); }
        }
    }
    assert forall|r: int| 0 <= r < t.jt.len() implies record_ok(t, r) by {
        if r < s.jt.len() { assert(record_ok(s, r)); assert(s.m.contains_key(s.jt[r].begin_loc as int)); assert(known(s, s.jt[r].begin_loc as int)); }
    }
    assert forall|l: int| #[trigger] t.lab.contains_key(l) implies label_ok(t, l) by {
        assert(label_ok(s, l));
        if !(s.slots[l] is Empty) { assert(known(s, at_of(s.slots[l]))); }
    }
    if s.code.len() > 0 { assert(known(s, 0)); }
}
/// the current location is known for less
proof fn lemma_enter(s: Snap, t: Snap, e: At)
    requires inv0(s), t == (Snap { cur: Some(e), ..s }), s.cur is Some ==> weaker(e, s.cur->0),
    ensures inv0(t),
{
    reveal(inv0);
    if s.m.contains_key(0) { assert(known(s, 0)); }
    assert forall|q: int| #[trigger] t.m.contains_key(q) implies known(t, q) by { assert(known(s, q)); }
    assert forall|r: int| 0 <= r < t.jt.len() implies record_ok(t, r) by { assert(record_ok(s, r)); }
    assert forall|l: int| #[trigger] t.lab.contains_key(l) implies label_ok(t, l) by { assert(label_ok(s, l)); }
}
/// a label is declared
proof fn lemma_declare(s: Snap, t: Snap, l: int, e: At)
    requires inv0(s), !s.lab.contains_key(l), 0 <= l < s.slots.len(), s.slots[l] is Empty, t == (Snap { lab: s.lab.insert(l, e), open: s.open.insert(l), ..s }),
    ensures inv0(t),
{
    reveal(inv0);
    assert forall|q: int| #[trigger] t.m.contains_key(q) implies known(t, q) by { assert(known(s, q)); }
    assert forall|r: int| 0 <= r < t.jt.len() implies record_ok(t, r) by { assert(record_ok(s, r)); }
    assert forall|k: int| #[trigger] t.lab.contains_key(k) implies label_ok(t, k) by { if k != l { assert(s.lab.contains_key(k)); assert(label_ok(s, k)); } }
}
/// a label is placed
proof fn lemma_place(s: Snap, t: Snap, l: int)
    requires
        inv0(s), s.open.contains(l), t.slots.len() == s.slots.len(), forall|k: int| 0 <= k < s.slots.len() && k != l ==> #[trigger] t.slots[k] == s.slots[k],
        0 <= l < s.slots.len(), !(t.slots[l] is Empty), s.m.contains_key(at_of(t.slots[l])), s.m[at_of(t.slots[l])].s == s.lab[l],
        t == (Snap { slots: t.slots, open: s.open.remove(l), ..s }),
    ensures inv0(t),
{
    reveal(inv0);
    assert(label_ok(s, l));
    assert forall|q: int| #[trigger] t.m.contains_key(q) implies known(t, q) by {
        assert(known(s, q));
        let j = s.m[q];
        if jumps(j.op) && !(placed(s, j.to) && le4(s.code, q + slot(j.op)) == at_of(s.slots[j.to])) {
            let r = choose|r: int| 0 <= r < s.jt.len() && record_for(#[trigger] s.jt[r], q, j);
            assert(record_for(t.jt[r], q, j));
        }
    }
    assert forall|r: int| 0 <= r < t.jt.len() implies record_ok(t, r) by { assert(record_ok(s, r)); }
    assert forall|k: int| #[trigger] t.lab.contains_key(k) implies label_ok(t, k) by { assert(label_ok(s, k)); }
}
/// a label is created
proof fn lemma_label(s: Snap, t: Snap)
    requires inv0(s), t == (Snap { slots: t.slots, ..s }), t.slots.len() == s.slots.len() + 1, forall|k: int| 0 <= k < s.slots.len() ==> #[trigger] t.slots[k] == s.slots[k],
    ensures inv0(t), !s.lab.contains_key(s.slots.len() as int), !s.open.contains(s.slots.len() as int),
{
    reveal(inv0);
    if s.lab.contains_key(s.slots.len() as int) { assert(label_ok(s, s.slots.len() as int)); }
    assert forall|k: int| #[trigger] t.lab.contains_key(k) implies label_ok(t, k) by { assert(label_ok(s, k)); }
    assert forall|q: int| #[trigger] t.m.contains_key(q) implies known(t, q) by {
        assert(known(s, q));
        let j = s.m[q];
        if jumps(j.op) {
            assert(label_ok(s, j.to));
            if !(placed(s, j.to) && le4(s.code, q + slot(j.op)) == at_of(s.slots[j.to])) {
                let r = choose|r: int| 0 <= r < s.jt.len() && record_for(#[trigger] s.jt[r], q, j);
                assert(record_for(t.jt[r], q, j));
            }
        }
    }
    assert forall|r: int| 0 <= r < t.jt.len() implies record_ok(t, r) by { assert(record_ok(s, r)); }
}
proof fn lemma_ok_more(p: Pool, t: Pool, i: Ins)
    requires ok(p, i), pool_ext(p, t),
    ensures ok(t, i), after(t, i) == after(p, i),
{
    if 0 <= i.a < p.statics.len() { assert(t.statics[i.a] == p.statics[i.a]); }
    if 0 <= i.a < p.infos.len() { assert(t.infos[i.a] == p.infos[i.a]); }
}
/// the program has more for operands to name
proof fn lemma_pool(s: Snap, t: Snap)
    requires inv0(s), t == (Snap { p: t.p, ..s }), pool_ext(s.p, t.p),
    ensures inv0(t),
{
    reveal(inv0);
    assert forall|q: int| #[trigger] t.m.contains_key(q) implies known(t, q) by {
        assert(known(s, q));
        lemma_ok_more(s.p, t.p, s.m[q]);
    }
    assert forall|r: int| 0 <= r < t.jt.len() implies record_ok(t, r) by { assert(record_ok(s, r)); }
    assert forall|k: int| #[trigger] t.lab.contains_key(k) implies label_ok(t, k) by { assert(label_ok(s, k)); }
}
proof fn lemma_open(s: Snap, l: int)
    requires inv0(s), s.lab.contains_key(l),
    ensures 0 <= l < s.slots.len(), s.open.contains(l) == (s.slots[l] is Empty), !(s.slots[l] is Empty) ==> 0 <= at_of(s.slots[l]) < s.code.len(),
{
    reveal(inv0);
    assert(label_ok(s, l));
    if !(s.slots[l] is Empty) { assert(known(s, at_of(s.slots[l]))); }
}

/// a program, its constants and its labels are counted by 32 bits
#[verifier::external_body]
fn small(c: &Codegen)
    ensures
        c.program.instructions@.len() + 16 <= u32::MAX, c.program.static_values@.len() < u32::MAX, c.program.label_slots@.len() < u32::MAX,
        c.program.external_funcs@.len() < u32::MAX, c.program.update_operators@.len() < u32::MAX, c.program.index_infos@.len() < u32::MAX, c.program.global_variables@.len() < u32::MAX,
{ unimplemented!() }
#[verifier::external_body]
fn u32_le(x: u32) -> (r: [u8; 4]) ensures le_u32(r@) == x, { x.to_le_bytes() }
#[verifier::external_body]
fn i32_le(x: i32) -> (r: [u8; 4]) { x.to_le_bytes() }
#[verifier::external_body]
fn extend(v: &mut Vec<u8>, b: &[u8; 4]) ensures final(v)@ == old(v)@ + b@, { v.extend_from_slice(b) }
#[verifier::external_body]
fn put4(v: &mut Vec<u8>, i: usize, b: &[u8; 4])
    requires i + 4 <= old(v).len(),
    ensures final(v).len() == old(v).len(), forall|k: int| 0 <= k < old(v).len() ==> final(v)@[k] == (if i <= k < i + 4 { b@[k - i] } else { old(v)@[k] }),
{ v[i..i + 4].copy_from_slice(b) }
fn op_byte(op: DbOp) -> (r: u8) ensures r == byte(op), { byte_of(op) }
#[verifier::external_body]
fn byte_of(op: DbOp) -> (r: u8) ensures r == byte(op), { op as u8 }

//@rule the number of an instruction: op as u8 ~~> op_byte(op)
//@rule little endian by contract: (-1_i32).to_le_bytes() ~~> i32_le(-1_i32)
//@rule little endian by contract: $i_x.to_le_bytes() ~~> u32_le($i_x)
//@rule bytes by contract: $i_s.program.instructions.extend_from_slice(&$i_b) ~~> extend(&mut $i_s.program.instructions, &$i_b)
//@rule bytes by contract: $i_s.program.instructions[pos..pos + 4].copy_from_slice(&$i_b) ~~> put4(&mut $i_s.program.instructions, pos, &$i_b)
//@rule the program is not boxed: Box::new(SubProgram::new()) ~~> SubProgram::new()
//@rule the program is not boxed: *self.program ~~> self.program

//@const src/polodb_core/vm/codegen.rs JUMP_TABLE_DEFAULT_SIZE
//@const src/polodb_core/vm/codegen.rs PATH_DEFAULT_SIZE
impl Label {
//@fn src/polodb_core/vm/label.rs Label::new
//@ret r
//@spec
    ensures r.0 == pos,
//@end
//@fn src/polodb_core/vm/label.rs Label::pos
//@ret r
//@spec
    ensures r == self.0,
//@end
//@fn src/polodb_core/vm/label.rs Label::u_pos
//@ret r
//@spec
    ensures r == self.0,
//@end
}
impl JumpTableRecord {
//@fn src/polodb_core/vm/label.rs JumpTableRecord::new
//@ret r
//@spec
    ensures r.begin_loc == begin_loc, r.offset == offset, r.label_id == label_id,
//@end
}
impl LabelSlot {
//@fn src/polodb_core/vm/label.rs LabelSlot::position
//@rw a bug elsewhere: unreachable!() ~~> vstd::pervasive::unreached()
//@ret r
//@spec
    requires !(*self is Empty),
    ensures r == at_of(*self),
//@end
//@fn src/polodb_core/vm/label.rs LabelSlot::is_empty
//@ret r
//@spec
    ensures r == (*self is Empty),
//@end
}
impl Codegen {
//@fn src/polodb_core/vm/codegen.rs Codegen::new_label
//@ret r
//@spec
    requires inv(*old(self)), old(self).g@.part is None,
    ensures
        inv(*final(self)), final(self).g == old(self).g, final(self).jump_table == old(self).jump_table,
        cpool(*final(self)) == cpool(*old(self)), final(self).paths == old(self).paths, final(self).is_write == old(self).is_write, final(self).skip_annotation == old(self).skip_annotation,
        final(self).program.static_values == old(self).program.static_values,
        !old(self).g@.lab.contains_key(r.0 as int), !old(self).g@.open.contains(r.0 as int), final(self).program.label_slots@.len() == r.0 + 1, final(self).program.label_slots@[r.0 as int] is Empty,
//@start
    small(self);
    let ghost before = snap(*self);
//@after self.program.label_slots.push(LabelSlot::Empty);
    proof { lemma_label(before, snap(*self)); }
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::current_location
//@ret r
//@spec
    ensures r == self.program.instructions@.len(),
//@start
    small(self);
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::emit
//@spec
    requires inv(*old(self)), old(self).g@.part is None, old(self).g@.cur is Some, width(op) == 1 ==> ok(cpool(*old(self)), ins(op, old(self).g@.cur->0)),
    ensures
        width(op) == 1 ==> added(*old(self), *final(self), ins(op, old(self).g@.cur->0)),
        width(op) != 1 ==> inv(*final(self)) && quiet(*old(self), *final(self)) && final(self).g@ == (Gen { part: Some((ins(op, old(self).g@.cur->0), snap(*old(self)))), ..old(self).g@ })
            && final(self).jump_table == old(self).jump_table,
        final(self).program.instructions@ == old(self).program.instructions@.push(byte(op)),
//@start
    let ghost before = *self;
    let ghost i = ins(op, self.g@.cur->0);
    small(self);
//@after self.program.instructions.push($x);
    proof {
        assert(self.program.instructions@.take(before.program.instructions@.len() as int) =~= before.program.instructions@);
        if width(op) == 1 {
            self.g@ = Gen { m: before.g@.m.insert(before.program.instructions@.len() as int, i), cur: next(cpool(before), i), ..before.g@ };
            lemma_append(snap(before), snap(*self), i);
        } else {
            self.g@ = Gen { part: Some((i, snap(before))), ..before.g@ };
        }
    }
//@end

//@fn src/polodb_core/vm/codegen.rs Codegen::emit_u8
//@spec
    requires inv(*old(self)), old(self).g@.part is Some, (old(self).g@.part->0).0.op is StoreR0_2,
    ensures inv(*final(self)), quiet(*old(self), *final(self)), final(self).g@.part is None, final(self).g@.cur == old(self).g@.cur,
//@start
    let ghost before = *self;
    let ghost (i, s0) = self.g@.part->0;
    small(self);
//@after self.program.instructions.push($x);
    proof {
        assert(self.program.instructions@.take(s0.code.len() as int) =~= s0.code) by { assert(before.program.instructions@.take(s0.code.len() as int) =~= s0.code); }
        self.g@ = Gen { m: s0.m.insert(s0.code.len() as int, i), cur: next(s0.p, i), part: None, got: 0, ..before.g@ };
        lemma_append(s0, snap(*self), i);
    }
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::emit_u32
//@spec
    requires
        inv(*old(self)), old(self).g@.part is Some, ({
            let (i, s0) = old(self).g@.part->0;
            let j = operand(i, old(self).g@.got, op as int);
            &&& if old(self).g@.got == 0 { has_a(i.op) && !(i.op is GetField) } else { old(self).g@.got == 4 && has_b(i.op) }
            &&& width(i.op) == old(self).g@.got + 5 ==> ok(s0.p, j) && (i.op is Call ==> target_ok(j, s0.lab[j.to]))
        }),
    ensures
        inv(*final(self)), quiet(*old(self), *final(self)), ({
            let (i, s0) = old(self).g@.part->0;
            let j = operand(i, old(self).g@.got, op as int);
            if width(i.op) == old(self).g@.got + 5 { final(self).g@.part is None && final(self).g@.cur == next(s0.p, j) && final(self).g@.m == s0.m.insert(s0.code.len() as int, j) }
            else { final(self).g@ == (Gen { part: Some((j, s0)), got: 4, ..old(self).g@ }) }
        }),
//@start
    let ghost before = *self;
    let ghost (i, s0) = self.g@.part->0;
    let ghost j = operand(i, self.g@.got, op as int);
    small(self);
//@bind extend($x, &$i_b);
//@after extend($x, &$i_b);
    proof {
        let n = s0.code.len() as int;
        let code = self.program.instructions@;
        assert forall|k: int| 0 <= k < before.program.instructions@.len() implies code[k] == #[trigger] before.program.instructions@[k] by { }
        assert forall|k: int| 0 <= k < n implies code[k] == #[trigger] s0.code[k] by { assert(before.program.instructions@.take(n)[k] == before.program.instructions@[k]); }
        assert(code.take(n) =~= s0.code);
        assert(le4(code, n + 1 + before.g@.got) == le_u32($i_b@));
        if width(i.op) == before.g@.got + 5 {
            self.g@ = Gen { m: s0.m.insert(n, j), cur: next(s0.p, j), part: None, got: 0, ..before.g@ };
            lemma_append(s0, snap(*self), j);
        } else {
            self.g@ = Gen { part: Some((j, s0)), got: 4, ..before.g@ };
        }
    }
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::emit_push_value
//@spec
    requires inv(*old(self)), old(self).g@.part is None, old(self).g@.cur is Some, static_id < old(self).program.static_values@.len(),
    ensures added(*old(self), *final(self), Ins { a: static_id as int, ..ins(DbOp::PushValue, old(self).g@.cur->0) }),
//@bind extend($x, &$i_b);
//@start
    let ghost before = *self;
    let ghost j = Ins { a: static_id as int, ..ins(DbOp::PushValue, self.g@.cur->0) };
//@before extend($x, &$i_b);
    let ghost mid = *self;
    small(self);
//@after extend($x, &$i_b);
    proof {
        let n = before.program.instructions@.len() as int;
        let code = self.program.instructions@;
        assert(code.take(n) =~= before.program.instructions@);
        assert(le4(code, n + 1) == le_u32($i_b@));
        self.g@ = Gen { m: before.g@.m.insert(n, j), cur: next(cpool(before), j), ..before.g@ };
        lemma_append(snap(before), snap(*self), j);
    }
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::emit_goto
//@spec
    requires
        inv(*old(self)), old(self).g@.part is None, old(self).g@.cur is Some, jumps(op), !(op is GetField), old(self).g@.lab.contains_key(label.0 as int),
        !(op is Call) ==> ({
            let i = Ins { to: label.0 as int, ..ins(op, old(self).g@.cur->0) };
            ok(cpool(*old(self)), i) && target_ok(i, old(self).g@.lab[label.0 as int])
        }),
    ensures
        ({
            let i = Ins { to: label.0 as int, ..ins(op, old(self).g@.cur->0) };
            if op is Call {
                inv(*final(self)) && quiet(*old(self), *final(self)) && final(self).g@ == (Gen { part: Some((i, snap(*old(self)))), got: 4, ..old(self).g@ })
            } else { added(*old(self), *final(self), i) }
        }),
//@start
    let ghost before = *self;
    let ghost i = Ins { to: label.0 as int, ..ins(op, self.g@.cur->0) };
    small(self);
    proof { lemma_open(snap(*self), label.0 as int); }
//@bind extend($x, &$i_b); return;
//@before return;
    proof {
        let n = before.program.instructions@.len() as int;
        let code = self.program.instructions@;
        assert(code.take(n) =~= before.program.instructions@);
        assert(le4(code, n + 1) == le_u32($i_b@));
        if op is Call {
            self.g@ = Gen { part: Some((i, snap(before))), got: 4, ..before.g@ };
        } else {
            self.g@ = Gen { m: before.g@.m.insert(n, i), cur: next(cpool(before), i), ..before.g@ };
            lemma_append(snap(before), snap(*self), i);
        }
    }
//@after self.jump_table .push(JumpTableRecord::new(record_loc, $o, label.pos()));
    proof {
        let n = before.program.instructions@.len() as int;
        let code = self.program.instructions@;
        assert(code.take(n) =~= before.program.instructions@);
        assert(self.jump_table@.take(before.jump_table@.len() as int) =~= before.jump_table@);
        assert(record_for(self.jump_table@.last(), n, i));
        if op is Call {
            self.g@ = Gen { part: Some((i, snap(before))), got: 4, ..before.g@ };
        } else {
            self.g@ = Gen { m: before.g@.m.insert(n, i), cur: next(cpool(before), i), ..before.g@ };
            lemma_append(snap(before), snap(*self), i);
        }
    }
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::emit_goto2
//@spec
    requires
        inv(*old(self)), old(self).g@.part is None, old(self).g@.cur is Some, op is GetField, old(self).g@.lab.contains_key(label.0 as int),
        ({
            let i = Ins { a: op1 as int, to: label.0 as int, ..ins(op, old(self).g@.cur->0) };
            ok(cpool(*old(self)), i) && target_ok(i, old(self).g@.lab[label.0 as int])
        }),
    ensures added(*old(self), *final(self), Ins { a: op1 as int, to: label.0 as int, ..ins(op, old(self).g@.cur->0) }),
//@start
    let ghost before = *self;
    let ghost i = Ins { a: op1 as int, to: label.0 as int, ..ins(op, self.g@.cur->0) };
    small(self);
    proof { lemma_open(snap(*self), label.0 as int); }
//@bind extend($x, &$i_a); let slot
//@bind extend($x, &$i_b); return;
//@before return;
    proof {
        let n = before.program.instructions@.len() as int;
        let code = self.program.instructions@;
        assert(code.take(n) =~= before.program.instructions@);
        assert(le4(code, n + 5) == le_u32($i_b@));
        self.g@ = Gen { m: before.g@.m.insert(n, i), cur: next(cpool(before), i), ..before.g@ };
        lemma_append(snap(before), snap(*self), i);
    }
//@after self.jump_table .push(JumpTableRecord::new(record_loc, $o, label.pos()));
    proof {
        let n = before.program.instructions@.len() as int;
        let code = self.program.instructions@;
        assert(code.take(n) =~= before.program.instructions@);
        assert(self.jump_table@.take(before.jump_table@.len() as int) =~= before.jump_table@);
        assert(record_for(self.jump_table@.last(), n, i));
        self.g@ = Gen { m: before.g@.m.insert(n, i), cur: next(cpool(before), i), ..before.g@ };
        lemma_append(snap(before), snap(*self), i);
    }
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::emit_label
//@rw a bug elsewhere: unreachable!($m) ~~> vstd::pervasive::unreached::<()>()
//@spec
    requires
        inv(*old(self)), old(self).g@.part is None, old(self).g@.lab.contains_key(label.0 as int), old(self).g@.open.contains(label.0 as int),
        old(self).g@.cur is Some ==> weaker(old(self).g@.lab[label.0 as int], old(self).g@.cur->0),
    ensures
        labelled(*old(self), *final(self), label),
//@start
    let ghost before = *self;
    let ghost e = self.g@.lab[label.0 as int];
    proof {
        lemma_open(snap(*self), label.0 as int);
        self.g@ = Gen { cur: Some(e), ..self.g@ };
        lemma_enter(snap(before), snap(*self), e);
    }
//@before self.program.label_slots[$l] = $v;
    let ghost mid = *self;
//@after self.program.label_slots[$l] = $v;
    proof {
        self.g@ = Gen { open: self.g@.open.remove(label.0 as int), ..self.g@ };
        lemma_place(snap(mid), snap(*self), label.0 as int);
    }
//@end

//@fn src/polodb_core/vm/codegen.rs Codegen::emit_label_with_name
//@rw a bug elsewhere: unreachable!($m) ~~> vstd::pervasive::unreached::<()>()
//@rw a name: name.into() ~~> boxed(name)
//@rw a name: <T: Into<Box<str>>> ~~>
//@rw a name: name: T ~~> name: &str
//@spec
    requires
        inv(*old(self)), old(self).g@.part is None, old(self).g@.lab.contains_key(label.0 as int), old(self).g@.open.contains(label.0 as int),
        old(self).g@.cur is Some ==> weaker(old(self).g@.lab[label.0 as int], old(self).g@.cur->0),
    ensures
        labelled(*old(self), *final(self), label),
//@start
    let ghost before = *self;
    let ghost e = self.g@.lab[label.0 as int];
    proof {
        lemma_open(snap(*self), label.0 as int);
        self.g@ = Gen { cur: Some(e), ..self.g@ };
        lemma_enter(snap(before), snap(*self), e);
    }
//@before if self.skip_annotation
    let ghost mid = *self;
//@end_of_body
    proof {
        self.g@ = Gen { open: self.g@.open.remove(label.0 as int), ..self.g@ };
        lemma_place(snap(mid), snap(*self), label.0 as int);
    }
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::push_static
//@ret r
//@spec
    requires inv(*old(self)), old(self).g@.part is None || (old(self).g@.part->0).0.op is OpenRead || (old(self).g@.part->0).0.op is OpenWrite, 
    ensures
        inv(*final(self)), r == old(self).program.static_values@.len(),
        final(self).program.static_values@ == old(self).program.static_values@.push(value),
        more(*old(self), *final(self)),
        final(self).g@.cur == old(self).g@.cur,
        match old(self).g@.part { None => final(self).g@ == old(self).g@, Some((i, s0)) => final(self).g@ == (Gen { part: Some((i, Snap { p: cpool(*final(self)), ..s0 })), ..old(self).g@ }) },
//@start
    let ghost before = *self;
    small(self);
//@after self.program.static_values.push(value);
    proof {
        let t = cpool(*self);
        match before.g@.part {
            None => { lemma_pool(snap(before), snap(*self)); },
            Some((i, s0)) => {
                lemma_pool(s0, Snap { p: t, ..s0 });
                self.g@ = Gen { part: Some((i, Snap { p: t, ..s0 })), ..before.g@ };
            },
        }
    }
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::push_external_func
//@rw a stage by contract: Box<dyn VmExternalFunc> ~~> ExternalFunc
//@ret r
//@spec
    requires inv(*old(self)), old(self).g@.part is None,
    ensures
        inv(*final(self)), r == old(self).program.external_funcs@.len(), final(self).program.external_funcs@.len() == r + 1,
        more(*old(self), *final(self)), final(self).g@ == old(self).g@,
//@start
    let ghost before = *self;
    small(self);
//@after self.program.external_funcs.push(func);
    proof { lemma_pool(snap(before), snap(*self)); }
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::push_index_info
//@ret r
//@spec
    requires inv(*old(self)), old(self).g@.part is None,
    ensures
        inv(*final(self)), r == old(self).program.index_infos@.len(), final(self).program.index_infos@ == old(self).program.index_infos@.push(index_item),
        more(*old(self), *final(self)), final(self).g@ == old(self).g@,
//@start
    let ghost before = *self;
    small(self);
//@after self.program.index_infos.push(index_item);
    proof { lemma_pool(snap(before), snap(*self)); }
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::push_update_operator
//@rw an operator by contract: Box<dyn UpdateOperator> ~~> UpdateOp
//@ret r
//@spec
    requires inv(*old(self)), old(self).g@.part is None,
    ensures
        inv(*final(self)), r == old(self).program.update_operators@.len(), final(self).program.update_operators@.len() == r + 1, r < u32::MAX,
        more(*old(self), *final(self)), final(self).g@ == old(self).g@,
//@start
    let ghost before = *self;
    small(self);
//@after self.program.update_operators.push(operator);
    proof { lemma_pool(snap(before), snap(*self)); }
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::emit_update_operator
//@rw an operator by contract: Box<dyn UpdateOperator> ~~> UpdateOp
//@spec
    requires
        inv(*old(self)), old(self).g@.part is None, old(self).g@.cur is Some, ({
            let s = old(self).g@.cur->0;
            old(self).is_write && s.kind is Main && s.stack.len() >= 1 && s.stack[0] is Doc
        }),
    ensures ready(*final(self), old(self).g@.cur->0), more(*old(self), *final(self)),
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::emit_open
//@spec
    requires
        inv(*old(self)), old(self).g@.part is None, old(self).g@.cur is Some, ({
            let s = old(self).g@.cur->0;
            s.kind is Main && (s.cur is Fresh || s.cur is Open) && (prefix is String || (prefix is Binary && !old(self).is_write))
        }),
    ensures ready(*final(self), At { cur: Cur::Open, ix: prefix is Binary, ..old(self).g@.cur->0 }), more(*old(self), *final(self)),
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::emit_ret
//@spec
    requires inv(*old(self)), old(self).g@.part is None, old(self).g@.cur is Some, !(old(self).g@.cur->0.kind is Main), return_size == 0,
    ensures inv(*final(self)), quiet(*old(self), *final(self)), final(self).g@.part is None, final(self).g@.cur is None,
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::emit_delete_operation
//@spec
    requires
        inv(*old(self)), old(self).g@.part is None, old(self).g@.cur is Some, ({
            let s = old(self).g@.cur->0;
            old(self).is_write && s.kind is Main && s.cur is On && !s.ix
        }),
    ensures inv(*final(self)), quiet(*old(self), *final(self)), ready(*final(self), old(self).g@.cur->0),
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::emit_call_external_func_id
//@spec
    requires
        inv(*old(self)), old(self).g@.part is None, old(self).g@.cur is Some, ({
            let s = old(self).g@.cur->0;
            s.kind is Stage && external_func_id < old(self).program.external_funcs@.len() && param_size <= s.stack.len() && param_size <= u32::MAX
        }),
    ensures quiet(*old(self), *final(self)), ready(*final(self), push(pop(old(self).g@.cur->0, param_size as int), Ty::Any)),
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::new
//@rw what is known: op_registry: OpRegistry, ~~> op_registry: OpRegistry::it(), g: Ghost(gen0()),
//@ret r
//@spec
    ensures
        ready(r, start()), r.is_write == is_write, r.paths@.len() == 0, r.g@.open == Set::<int>::empty(), r.g@.lab == Map::<int, At>::empty(), r.program.index_infos@.len() == 0,
//@start
    proof { lemma_new(); }
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::unify_labels
//@rw loop over the records as an indexed loop: for record in &self.jump_table { ~~> let mut zi: usize = 0; while zi < self.jump_table.len() { let record = &self.jump_table[zi]; zi = zi + 1;
//@spec
    requires inv(*old(self)), old(self).g@.part is None, old(self).g@.cur is None, old(self).g@.open == Set::<int>::empty(),
    ensures
        final(self).program.static_values == old(self).program.static_values, final(self).is_write == old(self).is_write, cpool(*final(self)) == cpool(*old(self)),
        good(cpool(*final(self)), final(self).program.instructions@, old(self).g@.m),
//@start
    let ghost s = snap(*self);
    proof { lemma_half(s); }
//@loop 0
    invariant
        inv0(s), s.open == Set::<int>::empty(), s.cur is None, zi <= self.jump_table.len(), self.jump_table@ == s.jt, self.program.label_slots@ == s.slots, cpool(*self) == s.p,
        self.program.static_values == old(self).program.static_values, self.is_write == old(self).is_write,
        half(s, self.program.instructions@, zi as int),
    decreases self.jump_table.len() - zi,
//@loopstart 0
    let ghost code = self.program.instructions@;
    proof { lemma_record(s, zi as int); }
//@loopend 0
    proof { lemma_resolve(s, code, self.program.instructions@, zi as int - 1); }
//@end_of_body
    proof { lemma_good(s, self.program.instructions@); }
//@end
//@fn src/polodb_core/vm/codegen.rs Codegen::take
//@rw by value: take(mut self) ~~> take(self)
//@rw by value: self.unify_labels(); *self.program ~~> let ghost m = self.g@.m; let mut zs = self; zs.unify_labels(); proof { assert(good(cpool(zs), zs.program.instructions@, m)); } zs.program
//@ret r
//@spec
    requires inv(self), self.g@.part is None, self.g@.cur is None, self.g@.open == Set::<int>::empty(),
    ensures sound(r, self.is_write), pool(r, self.is_write) == cpool(self),
//@end
}
#[verifier::external_body]
fn boxed(name: &str) -> Box<str> { name.into() }
impl OpRegistry {
    #[verifier::external_body]
    pub fn it() -> OpRegistry { unimplemented!() }
}
pub open spec fn kept(a: Map<int, At>, b: Map<int, At>) -> bool { forall|l: int| #![trigger a.contains_key(l)] #![trigger b.contains_key(l)] #![trigger b[l]] a.contains_key(l) ==> b.contains_key(l) && b[l] == a[l] }
/// the same generator, with more code, constants, labels, stages or operators
pub open spec fn more(a: Codegen, b: Codegen) -> bool {
    &&& b.is_write == a.is_write && b.skip_annotation == a.skip_annotation && b.paths@ == a.paths@
    &&& pool_ext(cpool(a), cpool(b))
    &&& kept(a.g@.lab, b.g@.lab) && b.g@.open == a.g@.open && b.g@.ctx == a.g@.ctx
}
proof fn lemma_new()
    ensures forall|c: Codegen| #![trigger inv(c)] c.g@ == gen0() && c.program.instructions@.len() == 0 && c.jump_table@.len() == 0 ==> inv(c),
{ reveal(inv0); reveal(apart); }
/// the records from k on are still to be resolved
pub open spec fn half(s: Snap, code: Seq<u8>, k: int) -> bool {
    &&& code.len() == s.code.len()
    &&& forall|q: int| #[trigger] s.m.contains_key(q) ==> half_at(s, code, k, q)
}
pub open spec fn half_at(s: Snap, code: Seq<u8>, k: int, q: int) -> bool {
    let i = s.m[q];
    &&& coded(code, q, i)
    &&& jumps(i.op) ==> le4(code, q + slot(i.op)) == at_of(s.slots[i.to]) || exists|r: int| k <= r < s.jt.len() && record_for(#[trigger] s.jt[r], q, i)
}
proof fn lemma_half(s: Snap)
    requires inv0(s),
    ensures half(s, s.code, 0),
{
    reveal(inv0);
    assert forall|q: int| #[trigger] s.m.contains_key(q) implies half_at(s, s.code, 0, q) by { assert(known(s, q)); }
}
proof fn lemma_record(s: Snap, k: int)
    requires inv0(s), s.open == Set::<int>::empty(), 0 <= k < s.jt.len(),
    ensures s.jt[k].begin_loc + s.jt[k].offset + 4 <= s.code.len(), s.code.len() <= u32::MAX, s.jt[k].label_id < s.slots.len(), !(s.slots[s.jt[k].label_id as int] is Empty),
{
    reveal(inv0);
    assert(record_ok(s, k));
    let q = s.jt[k].begin_loc as int;
    assert(s.m.contains_key(q));
    assert(known(s, q));
    assert(s.lab.contains_key(s.m[q].to));
    assert(label_ok(s, s.m[q].to));
}
proof fn lemma_resolve(s: Snap, code: Seq<u8>, code2: Seq<u8>, k: int)
    requires
        inv0(s), 0 <= k < s.jt.len(), half(s, code, k), code2.len() == code.len(), ({
            let p = s.jt[k].begin_loc + s.jt[k].offset;
            &&& le4(code2, p) == at_of(s.slots[s.jt[k].label_id as int])
            &&& forall|x: int| 0 <= x < code.len() && !(p <= x < p + 4) ==> #[trigger] code2[x] == code[x]
        }),
    ensures half(s, code2, k + 1),
{
    reveal(inv0);
    assert(record_ok(s, k));
    let q0 = s.jt[k].begin_loc as int;
    assert(s.m.contains_key(q0));
    assert(known(s, q0));
    assert forall|q: int| #[trigger] s.m.contains_key(q) implies half_at(s, code2, k + 1, q) by {
        assert(known(s, q));
        assert(half_at(s, code, k, q));
        let i = s.m[q];
        if q != q0 {
            assert(q + width(i.op) <= q0 || q0 + width(s.m[q0].op) <= q) by { reveal(apart); }
            if jumps(i.op) && le4(code, q + slot(i.op)) != at_of(s.slots[i.to]) {
                let r = choose|r: int| k <= r < s.jt.len() && record_for(#[trigger] s.jt[r], q, i);
                assert(r != k);
                assert(record_for(s.jt[r], q, i));
            }
        }
    }
}
proof fn lemma_good(s: Snap, code: Seq<u8>)
    requires inv0(s), s.cur is None, s.open == Set::<int>::empty(), half(s, code, s.jt.len() as int),
    ensures good(s.p, code, s.m),
{
    reveal(inv0);
    assert forall|q: int| #[trigger] s.m.contains_key(q) implies node(s.p, code, s.m, q) by {
        assert(known(s, q));
        assert(half_at(s, code, s.jt.len() as int, q));
        if jumps(s.m[q].op) { assert(label_ok(s, s.m[q].to)); }
    }
}
impl SubProgram {
//@fn src/polodb_core/vm/subprogram.rs SubProgram::new
//@ret r
//@spec
    ensures
        r.static_values@.len() == 0, r.instructions@.len() == 0, r.label_slots@.len() == 0, r.index_infos@.len() == 0, r.external_funcs@.len() == 0, r.update_operators@.len() == 0,
//@end
}
