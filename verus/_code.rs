// The instruction set of the virtual machine, and what a program must be for the machine never to leave it: every instruction lies
// inside the code, every jump leads to an instruction, every operand names something the program has, and no instruction finds
// its stack, its cursor or its operands' types other than it needs them.
//@enum src/polodb_core/vm/op.rs DbOp
pub open spec fn byte(op: DbOp) -> u8 { number_of_dbop(op) as u8 }
pub proof fn lemma_byte(a: DbOp, b: DbOp)
    requires byte(a) == byte(b),
    ensures a == b,
{ }
pub open spec fn le_u32(s: Seq<u8>) -> int { s[0] + 256 * s[1] + 65536 * s[2] + 16777216 * s[3] }
pub open spec fn le4(code: Seq<u8>, i: int) -> int { code[i] + 256 * code[i + 1] + 65536 * code[i + 2] + 16777216 * code[i + 3] }

/// what is known of a value on the stack: a stored document (it has an _id), an array, or nothing
pub enum Ty { Any, Doc, Arr }
/// where the machine is: at the top level, in a condition of a query, in a stage of a pipeline
pub enum Kind { Main, Query, Stage }
/// what is known of the cursor: nothing was done yet, just opened, on an entry, opened, nothing
pub enum Cur { Fresh, Open, On, Ended, Unknown }
/// what is known before an instruction: the topmost values of the stack (the top first), how many of them belong to the current call
/// of a condition, and the cursor (ix: over an index); full: there is nothing else
/// on the stack
pub struct At { pub stack: Seq<Ty>, pub base: nat, pub kind: Kind, pub cur: Cur, pub ix: bool, pub full: bool }
pub open spec fn ty_weaker(w: Seq<Ty>, s: Seq<Ty>) -> bool {
    w.len() <= s.len() && (forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] is Any || w[i] == s[i])
}
pub open spec fn cur_weaker(w: Cur, s: Cur) -> bool { w == s || w is Unknown || (w is Ended && (s is On || s is Open)) }
/// s implies w
pub open spec fn weaker(w: At, s: At) -> bool {
    ty_weaker(w.stack, s.stack) && w.base <= s.base && w.kind == s.kind && cur_weaker(w.cur, s.cur) && w.ix == s.ix
        && (w.full ==> s.full && w.stack.len() == s.stack.len())
}
pub open spec fn start() -> At { At { stack: Seq::empty(), base: 0, kind: Kind::Main, cur: Cur::Fresh, ix: false, full: true } }
pub open spec fn all_any(s: Seq<Ty>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is Any }

pub open spec fn push(s: At, t: Ty) -> At { At { stack: seq![t] + s.stack, base: if s.kind is Query { s.base + 1 } else { 0 }, ..s } }
pub open spec fn can_pop(s: At, n: int) -> bool {
    match s.kind { Kind::Main => n <= s.stack.len(), Kind::Query => n <= s.base && n <= s.stack.len(), Kind::Stage => n <= s.stack.len() || n == 1 }
}
pub open spec fn pop(s: At, n: int) -> At {
    At { stack: if n <= s.stack.len() { s.stack.skip(n) } else { Seq::empty() }, base: if s.kind is Query && n <= s.base { (s.base - n) as nat } else { 0 }, ..s }
}
pub open spec fn cursor_at(s: At, c: Cur) -> At { At { cur: c, ..s } }

/// an instruction with its operands (to: the label it jumps to) and what is known before it
pub struct Ins { pub op: DbOp, pub a: int, pub b: int, pub to: int, pub s: At }
pub open spec fn width(op: DbOp) -> int {
    match op {
        DbOp::StoreR0_2 => 2,
        DbOp::GetField | DbOp::Call | DbOp::CallExternal => 9,
        DbOp::Label | DbOp::Goto | DbOp::IfTrue | DbOp::IfFalse | DbOp::Rewind | DbOp::FindByPrimaryKey | DbOp::FindByIndex | DbOp::Next | DbOp::NextIndexValue
        | DbOp::PushValue | DbOp::GetFieldOrNull | DbOp::UnsetField | DbOp::SetField | DbOp::InsertIndex | DbOp::DeleteIndex | DbOp::Pop2 | DbOp::OpenRead | DbOp::OpenWrite
        | DbOp::CallUpdateOperator | DbOp::ExternalIsCompleted | DbOp::Ret | DbOp::IfFalseRet | DbOp::LoadGlobal | DbOp::StoreGlobal => 5,
        _ => 1,
    }
}
pub open spec fn jumps(op: DbOp) -> bool {
    match op {
        DbOp::Goto | DbOp::IfTrue | DbOp::IfFalse | DbOp::Rewind | DbOp::FindByPrimaryKey | DbOp::FindByIndex | DbOp::Next | DbOp::NextIndexValue | DbOp::GetField | DbOp::Call => true,
        _ => false,
    }
}
pub open spec fn falls(op: DbOp) -> bool { !(op is Goto || op is Halt || op is _EOF || op is Ret0 || op is Ret) }
/// where the location lies in the instruction
pub open spec fn slot(op: DbOp) -> int { if op is GetField { 5 } else { 1 } }
/// the instruction's own operand, beside a location
pub open spec fn has_a(op: DbOp) -> bool { width(op) >= 5 && (!jumps(op) || op is GetField) }
pub open spec fn has_b(op: DbOp) -> bool { op is Call || op is CallExternal }

pub struct SubProgramIndexItem { pub col_name: String, pub indexes: IndexMap<String, IndexInfo> }
pub struct GlobalVariableSlot { pub pos: u32, pub init_value: Bson, pub name: Option<Box<str>> }
pub enum LabelSlot { Empty, UnnamedLabel(u32), LabelWithString(u32, Box<str>) }
pub struct SubProgram {
    pub static_values: Vec<Bson>,
    pub instructions: Vec<u8>,
    pub global_variables: Vec<GlobalVariableSlot>,
    pub label_slots: Vec<LabelSlot>,
    pub index_infos: Vec<SubProgramIndexItem>,
    pub external_funcs: Vec<ExternalFunc>,
    pub update_operators: Vec<UpdateOp>,
}
/// Box<dyn VmExternalFunc> and Box<dyn UpdateOperator>
pub struct ExternalFunc { x: u8 }
pub struct UpdateOp { x: u8 }
/// what the operands of instructions name
pub struct Pool { pub statics: Seq<Bson>, pub infos: Seq<SubProgramIndexItem>, pub funcs: nat, pub ops: nat, pub write: bool }
pub open spec fn pool(p: SubProgram, write: bool) -> Pool {
    Pool { statics: p.static_values@, infos: p.index_infos@, funcs: p.external_funcs@.len(), ops: p.update_operators@.len(), write }
}
pub open spec fn infos_ok(i: SubProgramIndexItem) -> bool {
    forall|j: int| 0 <= j < i.indexes.entries@.len() ==> wf_info((#[trigger] i.indexes.entries@[j]).1)
}
/// p2 has all that p has
pub open spec fn pool_ext(p: Pool, p2: Pool) -> bool {
    &&& p.write == p2.write && p.funcs <= p2.funcs && p.ops <= p2.ops
    &&& p.statics.len() <= p2.statics.len() && (forall|i: int| 0 <= i < p.statics.len() ==> #[trigger] p2.statics[i] == p.statics[i])
    &&& p.infos.len() <= p2.infos.len() && (forall|i: int| 0 <= i < p.infos.len() ==> #[trigger] p2.infos[i] == p.infos[i])
}

/// the instruction finds what it needs
pub open spec fn ok(p: Pool, i: Ins) -> bool {
    let s = i.s;
    let n = s.stack.len();
    match i.op {
        DbOp::Label | DbOp::Goto | DbOp::IfTrue | DbOp::IfFalse | DbOp::StoreR0_2 | DbOp::PushNull | DbOp::PushTrue | DbOp::PushFalse | DbOp::PushDocument | DbOp::PushR0
        | DbOp::IncR2 | DbOp::Not | DbOp::Halt => true,
        DbOp::Rewind => s.kind is Main && s.cur is Open && !s.ix,
        DbOp::FindByPrimaryKey => s.kind is Main && s.cur is Open && !s.ix && n >= 1,
        DbOp::FindByIndex => s.kind is Main && s.cur is Open && s.ix && n >= 2,
        DbOp::Next => s.kind is Main && s.cur is On && !s.ix,
        DbOp::NextIndexValue => s.kind is Main && s.cur is On && s.ix,
        DbOp::PushValue => 0 <= i.a < p.statics.len(),
        DbOp::GetField => 0 <= i.a < p.statics.len() && p.statics[i.a] is String && n >= 1,
        DbOp::GetFieldOrNull => 0 <= i.a < p.statics.len() && p.statics[i.a] is String,
        DbOp::ArraySize | DbOp::Dup | DbOp::EqualNull | DbOp::ResultRow => n >= 1,
        DbOp::UpdateCurrent => s.kind is Main && p.write && s.cur is On && !s.ix && n >= 1 && s.stack[0] is Doc,
        DbOp::DeleteCurrent => s.kind is Main && p.write && s.cur is On && !s.ix,
        DbOp::InsertIndex | DbOp::DeleteIndex => s.kind is Main && p.write && s.cur is On && !s.ix && 0 <= i.a < p.infos.len() && infos_ok(p.infos[i.a]) && n >= 1 && s.stack[0] is Doc,
        DbOp::CallUpdateOperator => s.kind is Main && p.write && 0 <= i.a < p.ops && n >= 1 && s.stack[0] is Doc,
        DbOp::Pop => can_pop(s, 1),
        DbOp::Pop2 => 0 <= i.a <= n && can_pop(s, i.a),
        DbOp::Equal | DbOp::Greater | DbOp::GreaterEqual | DbOp::Less | DbOp::LessEqual | DbOp::Regex => n >= 2,
        DbOp::In | DbOp::All => n >= 2 && s.stack[0] is Arr,
        DbOp::OpenRead => s.kind is Main && (s.cur is Fresh || s.cur is Open) && 0 <= i.a < p.statics.len() && !p.write && (p.statics[i.a] is String || p.statics[i.a] is Binary),
        DbOp::OpenWrite => s.kind is Main && (s.cur is Fresh || s.cur is Open) && 0 <= i.a < p.statics.len() && p.write && p.statics[i.a] is String,
        DbOp::Close => s.kind is Main,
        DbOp::Call => 0 <= i.b <= n && can_pop(s, i.b),
        DbOp::CallExternal => s.kind is Stage && 0 <= i.a < p.funcs && 0 <= i.b <= n,
        DbOp::ExternalIsCompleted => 0 <= i.a < p.funcs,
        DbOp::Ret0 => !(s.kind is Main),
        _ => false,
    }
}
/// what is known behind the instruction
pub open spec fn after(p: Pool, i: Ins) -> At {
    let s = i.s;
    match i.op {
        DbOp::Rewind | DbOp::FindByPrimaryKey => push(cursor_at(s, Cur::On), Ty::Doc),
        DbOp::FindByIndex => push(cursor_at(s, Cur::On), Ty::Any),
        DbOp::Next | DbOp::NextIndexValue => cursor_at(s, Cur::Ended),
        DbOp::PushValue => push(s, if 0 <= i.a < p.statics.len() && p.statics[i.a] is Array { Ty::Arr } else { Ty::Any }),
        DbOp::PushNull | DbOp::PushTrue | DbOp::PushFalse | DbOp::PushDocument | DbOp::PushR0 | DbOp::GetField | DbOp::GetFieldOrNull | DbOp::ArraySize => push(s, Ty::Any),
        DbOp::Dup => push(s, s.stack[0]),
        DbOp::Pop => pop(s, 1),
        DbOp::Pop2 => pop(s, i.a),
        DbOp::OpenRead | DbOp::OpenWrite => At { cur: Cur::Open, ix: 0 <= i.a < p.statics.len() && p.statics[i.a] is Binary, ..s },
        DbOp::Close => cursor_at(s, Cur::Unknown),
        DbOp::Call => pop(s, i.b),
        DbOp::CallExternal => push(pop(s, i.b), Ty::Any),
        _ => s,
    }
}
/// what is known where the instruction jumps to
pub open spec fn taken(i: Ins) -> At {
    match i.op {
        DbOp::Rewind | DbOp::FindByPrimaryKey | DbOp::FindByIndex => cursor_at(i.s, Cur::Ended),
        DbOp::Next => push(i.s, Ty::Doc),
        DbOp::NextIndexValue => push(i.s, Ty::Any),
        _ => i.s,
    }
}
/// e may be known where the instruction jumps to
pub open spec fn target_ok(i: Ins, e: At) -> bool {
    if i.op is Call {
        &&& e.cur is Unknown && !e.ix && !e.full && ty_weaker(e.stack, i.s.stack)
        &&& match e.kind {
            Kind::Main => false,
            Kind::Query => !(i.s.kind is Stage) && e.base <= i.b,
            Kind::Stage => !(i.s.kind is Query) && all_any(pop(i.s, i.b).stack),
        }
    } else { weaker(e, taken(i)) }
}

/// the instructions of a program by their locations, with what is known before each
pub type Code = Map<int, Ins>;
/// the bytes of the instruction at q, but for its location
pub open spec fn coded(code: Seq<u8>, q: int, i: Ins) -> bool {
    &&& code[q] == byte(i.op)
    &&& has_a(i.op) ==> le4(code, q + 1) == i.a
    &&& has_b(i.op) ==> le4(code, q + 5) == i.b
}
pub open spec fn leads(m: Code, p: Pool, q: int) -> bool { m.contains_key(q + width(m[q].op)) && weaker(m[q + width(m[q].op)].s, after(p, m[q])) }
pub open spec fn node(p: Pool, code: Seq<u8>, m: Code, q: int) -> bool {
    let i = m[q];
    &&& 0 <= q && q + width(i.op) <= code.len()
    &&& coded(code, q, i) && ok(p, i)
    &&& falls(i.op) ==> leads(m, p, q)
    &&& jumps(i.op) ==> m.contains_key(le4(code, q + slot(i.op))) && target_ok(i, m[le4(code, q + slot(i.op))].s)
}
/// the program is what the machine needs it to be
pub open spec fn good(p: Pool, code: Seq<u8>, m: Code) -> bool {
    &&& code.len() <= u32::MAX
    &&& m.contains_key(0) && weaker(m[0].s, start())
    &&& forall|q: int| #[trigger] m.contains_key(q) ==> node(p, code, m, q)
}
pub open spec fn sound(p: SubProgram, write: bool) -> bool { exists|m: Code| #[trigger] good(pool(p, write), p.instructions@, m) }
