"""Verus units: contracts attached to functions that are extracted from /repo's source on every run.

A unit (verus/<name>.rs) is a Verus file whose //@ directives are replaced by the current text of the named functions.
What the extraction does, and all it does:
  - comments, attributes and visibility/async qualifiers in front of the function are dropped;
  - the declared rewrite rules (//@rule, //@rw) are applied to the token sequence; every use is counted and reported;
  - contracts, loop invariants and proof blocks are inserted between tokens.
"""
import json, os, re, time
from . import rustlex as R
from .common import VERIF, REPO, env, run, log

UNITS = os.path.join(VERIF, "verus")
OBLIGATION_ERRORS = (
    "postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
    "possible arithmetic", "possible division by zero", "possible bit shift", "decreases not satisfied", "loop ensures",
    "cannot show", "recommendation not met", "may be unreachable", "index out of bounds", "assert_by", "split assertion",
    "unable to prove", "failed", "not satisfied", "could not prove", "termination",
)


def parse_unit(path):
    """[(kind, payload)] with kind 'text' or 'fn' or 'const' or 'item'; unit-wide rules."""
    parts, rules, cur, sec, buf = [], [], None, None, []
    for raw in open(path):
        s = raw.strip()
        if s.startswith("//@"):
            d, _, arg = s[3:].partition(" ")
            arg = arg.strip()
            if d in ("rule", "rw", "rw!"):
                name, _, rest = arg.partition(": ")
                if d == "rw!":
                    name = "!" + name
                pat, _, rep = rest.partition("~~>")
                (cur["rw"] if cur is not None else rules).append((name, pat.strip(), rep.strip()))
                continue
            if d == "macro":
                rules.append(("@macro",) + tuple(arg.split(" ")))
                continue
            if d in ("import", "trust"):
                # trust: the contracts and lemmas of a file that another unit discharges
                sub, r2 = parse_unit(os.path.join(UNITS, arg))
                if d == "trust":
                    for k, x in enumerate(sub):
                        if x[0] == "fn":
                            x[1]["trusted"] = True
                        elif x[0] == "text":
                            sub[k] = ("text", re.sub(r"(?m)^((?:pub )?(?:broadcast )?proof fn )", r"#[verifier::external_body] /*discharged elsewhere*/ \1", x[1]))
                parts += sub
                rules += r2
                continue
            if d == "fn":
                f, sel = arg.split(" ", 1)
                cur = {"file": f, "sel": sel, "rw": [], "ret": None, "binds": [], "ins": [], "name": None, "spec": "", "sub": []}
                parts.append(("fn", cur))
                sec = None
                continue
            if d == "discriminants":
                parts.append(("discriminants", arg.split(" ", 3)))
                continue
            if d == "enum":
                parts.append(("enum", arg.split(" ")))
                continue
            if d == "const":
                f, n = arg.split(" ")
                parts.append(("const", (f, n)))
                continue
            if cur is None:
                raise R.Lost("directive outside //@fn: " + s)
            if d == "end":
                cur, sec = None, None
            elif d == "ret":
                cur["ret"] = arg
            elif d == "name":
                cur["name"] = arg
            elif d in ("body", "sig", "arms"):
                cur[d] = arg
            elif d == "bind":
                cur["binds"].append(arg)
            elif d == "spec":
                sec = ["spec", None, ""]
                cur["ins"].append(sec)
            elif d in ("loop", "loopstart", "loopend", "afterloop", "beforeloop", "before", "after", "start", "end_of_body", "attr"):
                sec = [d, arg, ""]
                cur["ins"].append(sec)
            else:
                raise R.Lost("unknown directive " + d)
            continue
        if cur is not None:
            if sec is not None:
                sec[2] += raw
        else:
            if parts and parts[-1][0] == "text":
                parts[-1] = ("text", parts[-1][1] + raw)
            else:
                parts.append(("text", raw))
    return parts, rules


_files = {}


def tokens(rel):
    if rel not in _files:
        p = os.path.join(REPO, rel)
        if not os.path.exists(p):
            raise R.Lost("no file " + rel)
        _files[rel] = R.lex(open(p).read())
    return _files[rel]


LOOPS = ("while", "for", "loop")


def loops_of(ts):
    """[(keyword index, body open index, body close index)] in order of appearance; `for<'a>` and labels are skipped."""
    out = []
    for i, t in enumerate(ts):
        if t.k == "id" and t.t in LOOPS and not (i and ts[i - 1].t == "."):
            if t.t == "for" and i + 1 < len(ts) and ts[i + 1].t == "<":
                continue
            j = i + 1
            while j < len(ts) and ts[j].t != "{":
                if ts[j].t in ("(", "["):
                    j = R.match_close(ts, j)
                j += 1
            if j < len(ts):
                out.append((i, j, R.match_close(ts, j)))
    return out


def expand_docs(ts):
    """`rawdoc! { "k": v, .. }` becomes `RawDoc::empty().add("k", v)...done()`, field by field, nothing dropped."""
    out, i = [], 0
    while i < len(ts):
        if ts[i].t == "rawdoc" and i + 2 < len(ts) and ts[i + 1].t == "!" and ts[i + 2].t == "{":
            e = R.match_close(ts, i + 2)
            out += R.lex("RawDoc::empty()")
            j = i + 3
            while j < e:
                if ts[j + 1].t != ":":
                    raise R.Lost("rawdoc! field")
                k, v = ts[j], []
                j += 2
                while j < e and ts[j].t != ",":
                    n = R.match_close(ts, j) + 1 if ts[j].t in ("(", "[", "{") else j + 1
                    v += ts[j:n]
                    j = n
                out += R.lex(".add(") + [k] + R.lex(",") + expand_docs(v) + R.lex(")")
                j += 1
            out += R.lex(".done()")
            i = e + 1
        else:
            out.append(ts[i])
            i += 1
    return out


def expand_macro(ts, rel, name):
    """`NAME!(a, b)` becomes `{ transcriber }` of its one-armed macro_rules over expressions, in the file it is declared in."""
    src = tokens(rel)
    for i in range(len(src) - 3):
        if src[i].t == "macro_rules" and src[i + 1].t == "!" and src[i + 2].t == name:
            break
    else:
        raise R.Lost("macro " + name)
    a = i + 4
    b = R.match_close(src, a)
    pat, j = src[a + 1:b], b + 1
    while src[j].t not in ("{", "("):
        j += 1
    e = R.match_close(src, j)
    body = src[j + 1:e]
    rest = [t for t in src[e + 1:R.match_close(src, i + 3)] if t.t != ";"]
    params = [t.t for t in pat if t.k == "meta"]
    if rest or R.norm(pat).replace(" ", "").replace(":ident", ":expr") != ",".join(q + ":expr" for q in params):
        raise R.Lost("macro %s is not one arm over expressions" % name)
    out, i, n = [], 0, 0
    while i < len(ts):
        if ts[i].t == name and i + 2 < len(ts) and ts[i + 1].t == "!" and ts[i + 2].t in ("(", "{", "["):
            e = R.match_close(ts, i + 2)
            inner, m = expand_macro(ts[i + 3:e], rel, name)
            n += m
            args, cur, j = [], [], 0
            while j < len(inner):
                k = R.match_close(inner, j) + 1 if inner[j].t in ("(", "[", "{") else j + 1
                if inner[j].t == ",":
                    args.append(cur)
                    cur = []
                else:
                    cur += inner[j:k]
                j = k
            if cur:
                args.append(cur)
            if len(args) != len(params):
                raise R.Lost("arguments of macro " + name)
            out += R.lex("{")
            for t in body:
                if t.k == "meta":
                    g = args[params.index(t.t)]
                    out += g if len(g) == 1 else R.lex("(") + g + R.lex(")")
                else:
                    out.append(t)
            out += R.lex("}")
            n += 1
            i = e + 1
        else:
            out.append(ts[i])
            i += 1
    return out, n


def build_fn(f, rules, used, vac, stub=False):
    """Text of an extracted function with its contract; records facts about it in `f`.

    stub: the contract alone (the body could not be brought within reach; its own obligation is then undecided).
    """
    fn = R.find_fn(tokens(f["file"]), f["sel"].split("#")[0])
    ts = list(fn.sig) + list(fn.body)
    caps = {}
    if "body" in f:
        # a closure inside the function becomes a function of its own: its text and the signature it is given
        pat = R.lex(f["body"])
        for i in range(len(ts)):
            r = R.match_at(pat, ts, i)
            if r:
                sg = re.sub(r"\$[A-Za-z_]\w*", lambda m: R.text(r[1][m.group(0)]), f["sig"])
                ts = R.lex(sg) + R.lex("{") + list(r[1]["$s_body"]) + R.lex("}")
                caps.update(r[1])
                break
        else:
            if not stub:
                raise R.Lost("closure `%s` in %s" % (f["body"], f["sel"]))
            ts = R.lex(f["sig"].replace("$i_", "")) + R.lex("{ }")
    # attributes inside bodies
    out, i = [], 0
    while i < len(ts):
        if ts[i].t == "#" and i + 1 < len(ts) and ts[i + 1].t == "[":
            e = R.match_close(ts, i + 1) + 1
            attr = R.norm(ts[i + 2:e - 1])
            i = e
            if re.match(r"cfg \( feature = \S+ \)$", attr):
                # no feature is on by default: the statement is not compiled
                if ts[i].t != "if":
                    raise R.Lost("#[%s] in %s" % (attr, f["sel"]))
                while ts[i].t != "{":
                    i = R.match_close(ts, i) + 1 if ts[i].t in ("(", "[") else i + 1
                i = R.match_close(ts, i) + 1
                if ts[i].t == "else":
                    raise R.Lost("#[%s] in %s" % (attr, f["sel"]))
            elif attr.startswith("cfg"):
                raise R.Lost("#[%s] in %s" % (attr, f["sel"]))
            continue
        out.append(ts[i])
        i += 1
    ts = expand_docs(out)
    f["loops_src"] = [R.norm(ts[a:b]) for a, b, _ in loops_of(ts)]
    for name, pat, rep in f["rw"] + rules:
        ts, n = expand_macro(ts, pat, rep) if name == "@macro" else R.rewrite(ts, pat, rep)
        if name == "@macro":
            name = "macro %s expanded" % rep
        if name.startswith("!") and not n and not stub and {t.t for t in R.lex(pat) if t.k == "id"} & {t.t for t in ts}:
            raise R.Lost("text for `%s` in %s" % (name[1:], f["sel"]))
        if n:
            used[name.lstrip("!")] = used.get(name.lstrip("!"), 0) + n
    # split the signature from the body again
    j = 0
    while ts[j].t != "{":
        if ts[j].t in ("(", "["):
            j = R.match_close(ts, j)
        j += 1
    sig, body = ts[:j], ts[j:]
    if f["name"]:
        sig[1] = R.Tok("id", f["name"])
    for b in f["binds"]:
        pat = R.lex(b)
        for i in range(len(body)):
            r = R.match_at(pat, body, i)
            if r:
                caps.update(r[1])
                break
        else:
            if not stub:
                raise R.Lost("binding `%s` in %s" % (b, f["sel"]))

    def inst(s):
        return re.sub(r"\$[A-Za-z_]\w*", lambda m: R.text(caps[m.group(0)]) if m.group(0) in caps else m.group(0), s)

    # signature: name the result
    if f["ret"]:
        d = 0
        for i, t in enumerate(sig):
            if t.t == "->" and d == 0:
                e = i + 1
                while e < len(sig) and sig[e].t != "where":
                    e += 1
                sig = sig[:i + 1] + R.lex("(" + f["ret"] + ":") + sig[i + 1:e] + R.lex(")") + sig[e:]
                break
            if t.t in ("(", "["):
                d += 1
            if t.t in (")", "]"):
                d -= 1
        else:
            sig = sig + R.lex("-> (" + f["ret"] + ": ())")
    if stub:
        f["nloops"] = 0
        return "#[verifier::external_body] " + R.text(sig) + "\n" + "".join(t for k, _, t in f["ins"] if k == "spec") + \
            "\n{ unimplemented!() }\n"
    ins_at = {}  # body token index -> text inserted before it

    def ins(i, s, front=False):
        ins_at[i] = (s + ins_at.get(i, "")) if front else (ins_at.get(i, "") + s)

    spec = ""
    lp = loops_of(body)
    for kind, arg, txt in f["ins"]:
        txt = inst(txt)
        if kind == "spec":
            spec += txt
        elif kind == "start":
            ins(1, "\n" + txt)
        elif kind == "end_of_body":
            ins(len(body) - 1, "\n" + txt)
        elif kind in ("loop", "loopstart", "loopend", "afterloop", "beforeloop"):
            n = int(arg)
            if n >= len(lp):
                raise R.Lost("loop %d of %s" % (n, f["sel"]))
            a, b, c = lp[n]
            if kind == "loop":
                ins(b, "\n" + txt)
            elif kind == "loopstart":
                ins(b + 1, "\n" + txt)
            elif kind == "loopend":
                ins(c, "\n" + txt)
            elif kind == "afterloop":
                ins(c + 1, "\n" + txt)
            else:
                ins(a, "\n" + txt)
        elif kind in ("before", "after"):
            which = 0
            m = re.match(r"#(\d+) (.*)", arg)
            if m:
                which, arg = int(m.group(1)), m.group(2)
            pat = R.lex(arg)
            hits = []
            for i in range(len(body)):
                r = R.match_at(pat, body, i)
                if r:
                    hits.append((i, r[0]))
            if which >= len(hits):
                raise R.Lost("anchor `%s` in %s" % (arg, f["sel"]))
            i, e = hits[which]
            if kind == "before":
                ins(i, "\n" + txt)
            else:
                # an anchor ends with its own `;` or `}` or the text goes right behind the match
                ins(e, "\n" + txt)
    if vac:
        ins(1, "\n/*VAC %s start*/ proof { if vac_choice(-1) { assert(false); } }\n" % f["sel"], True)
        for n, (a, b, c) in enumerate(lp):
            ins(b + 1, "\n/*VAC %s loop %d*/ proof { if vac_choice(%d) { assert(false); } }\n" % (f["sel"], n, n), True)
    f["nloops"] = len(lp)

    def whole(at):
        chunks, seg = [], []
        for i, t in enumerate(body):
            if i in at:
                chunks.append(R.text(seg))
                chunks.append(at[i])
                seg = []
            seg.append(t)
        chunks.append(R.text(seg))
        return R.text(sig) + "\n" + spec + "\n" + "\n".join(chunks) + "\n"

    if "arms" not in f:
        return whole(ins_at)
    # a large match is verified arm by arm: one copy of the function for each, in which the other arms are cut off; together
    # they cover every path (an execution of the enclosing loop's body takes one arm)
    arms = match_arms(body, f["arms"])
    if not arms:
        raise R.Lost("match %s in %s" % (f["arms"], f["sel"]))
    name = sig[[t.t for t in sig].index("fn") + 1]
    plain, out = name.t, []
    attr = "#[verifier::exec_allows_no_decreases_clause] "
    if not vac:
        out.append("#[verifier::external_body] /*discharged elsewhere*/ " + R.text(sig) + "\n" + spec + "\n{ unimplemented!() }\n")
    for k, (label, a, b) in enumerate(arms):
        at = dict(ins_at)
        for j, (_, x, y) in enumerate(arms):
            if j != k:
                at[x] = "\n{ " + CUT + "\n" + at.get(x, "")
                at[y] = at.get(y, "") + "\n}\n"
        name.t = "%s_arm_%s" % (plain, label) if not vac else plain
        out.append((attr if out else "") + whole(at))
        if vac:
            break
    name.t = plain
    return "".join(out)


CUT = "assume(false); /*another arm*/"


def match_arms(ts, what):
    """[(label, first token of the arm's expression, token behind it)] of `match what {`"""
    pat = R.lex("match %s {" % what)
    for i in range(len(ts)):
        r = R.match_at(pat, ts, i)
        if r:
            break
    else:
        return []
    i = r[0] - 1
    end, out, k = R.match_close(ts, i), [], i + 1
    while k < end:
        a = k
        while ts[k].t != "=>":
            k = R.match_close(ts, k) + 1 if ts[k].t in ("(", "[", "{") else k + 1
        ids = [t.t for t in ts[a:k] if t.k == "id"]
        label = (ids[1] if len(ids) > 1 else ids[0] if ids else "other").strip("_") or "other"
        k += 1
        a = k
        if ts[k].t == "{":
            k = R.match_close(ts, k) + 1
            b = k
            if ts[k].t == ",":
                k += 1
        else:
            while k < end and ts[k].t != ",":
                k = R.match_close(ts, k) + 1 if ts[k].t in ("(", "[", "{") else k + 1
            b = k
            k += 1
        out.append((label, a, b))
    return out


def generate(unit, vac=False, stubs=None):
    """Text of the unit. stubs: {selector: reason} of functions that are left with their contract only; a function whose
    proof text no longer fits its source joins them."""
    stubs = {} if stubs is None else stubs
    parts, rules = parse_unit(os.path.join(UNITS, unit + ".rs"))
    out, used, fns, line = [], {}, [], 1
    for kind, p in parts:
        if kind == "text":
            s = p
            if vac and "verus! {" in s:
                s = s.replace("verus! {", "verus! {\nuninterp spec fn vac_choice(n: int) -> bool;", 1)
        elif kind == "discriminants":
            # the numbers of a C-like enum, as a function with the contract given
            f, en, name, spec = p
            ts = tokens(f)
            i = next((i for i in range(len(ts) - 2) if ts[i].t == "enum" and ts[i + 1].t == en), None)
            if i is None:
                raise R.Lost("enum %s" % en)
            a = i + 2
            b = R.match_close(ts, a)
            arms, j = [], a + 1
            while j < b:
                if ts[j].k == "id" and ts[j + 1].t == "=":
                    arms.append("%s::%s => %s," % (en, ts[j].t, ts[j + 2].t))
                    j += 3
                else:
                    j += 1
            s = "fn %s(x: %s) -> (r: i32) ensures %s, { match x { %s } }\n" % (name, en, spec, " ".join(arms))
        elif kind == "enum":
            # a C-like enum: the names of its variants, and a number for each
            f, en = p
            ts = tokens(f)
            i = next((i for i in range(len(ts) - 2) if ts[i].t == "enum" and ts[i + 1].t == en), None)
            if i is None:
                raise R.Lost("enum %s" % en)
            a = i + 2
            b = R.match_close(ts, a)
            names = [ts[j].t for j in range(a + 1, b) if ts[j].k == "id" and ts[j - 1].t in ("{", ",")]
            s = "#[derive(Clone, Copy)]\npub enum %s { %s }\n" % (en, ", ".join(names))
            s += "pub open spec fn number_of_%s(x: %s) -> int { match x { %s } }\n" % (
                en.lower(), en, " ".join("%s::%s => %d," % (en, n, k) for k, n in enumerate(names)))
        elif kind == "const":
            s = re.sub(r"^static\b", "const", re.sub(r":\s*&\s*str\b", ": &'static str", R.text(R.find_const(tokens(p[0]), p[1])))) + "\n"
        else:
            if p.get("trusted"):
                s = build_fn(p, rules, used, vac, True).replace("external_body]", "external_body] /*discharged elsewhere*/", 1)
                out.append(s)
                line += s.count("\n")
                continue
            if p["sel"] not in stubs:
                try:
                    s = build_fn(p, rules, used, vac)
                except R.Lost as e:
                    stubs[p["sel"]] = "extraction: %s" % e
            if p["sel"] in stubs:
                s = build_fn(p, rules, used, vac, True)
            p["lines"] = (line, line + s.count("\n"))
            fns.append(p)
        out.append(s)
        line += s.count("\n")
    return "".join(out), used, fns


def reachable(src, roots, stop=()):
    """Names of the functions that the roots use, transitively (methods by name, hence an over-approximation).

    roots: `name` or `Type::name`. Returns (set of `name` for free functions and `Type::name` for methods, missing roots)."""
    ts = R.lex(src)
    defs, bodies, types, n = {}, {}, set(), len(ts)

    def walk(i, end, ty):
        while i < end:
            t = ts[i]
            if t.k == "id" and t.t in ("impl", "trait"):
                j = i
                while ts[j].t not in ("{", ";"):
                    j += 1
                head = [x.t for x in ts[i + 1:j]]
                # the last plain name before generics of the implementing type
                if "for" in head and t.t == "impl" and head[head.index("for") + 1] != "<":
                    head = head[head.index("for") + 1:]
                elif head and head[0] == "<":
                    d = 0
                    for k, x in enumerate(head):
                        d += (x == "<") - (x == ">")
                        if d == 0:
                            head = head[k + 1:]
                            break
                name = next((x for x in head if re.match(r"[A-Za-z_]\w*$", x) and x not in ("mut", "dyn")), "")
                types.add(name)
                if ts[j].t == "{":
                    c = R.match_close(ts, j)
                    walk(j + 1, c, name)
                    i = c + 1
                else:
                    i = j + 1
                continue
            if t.k == "id" and t.t == "fn" and ts[i + 1].k == "id":
                j = i + 2
                while j < end and not (ts[j].k == "id" and ts[j].t in ("fn", "impl", "trait")):
                    j += 1
                nm = ts[i + 1].t.partition("_arm_")[0]
                q = (ty + "::" if ty else "") + nm
                defs.setdefault(nm, set()).add(q)
                bodies.setdefault(q, []).append((i + 2, j, ty))
                i = j
                continue
            i += 1

    walk(0, n, "")

    def uses(q):
        for a, b, ty in bodies[q]:
            for k in range(a, b):
                if ts[k].k != "id" or ts[k].t not in defs:
                    continue
                nm, prev = ts[k].t, ts[k - 1].t
                if prev == ".":
                    yield from (d for d in defs[nm] if "::" in d)
                elif prev == "::":
                    own = ts[k - 2].t
                    own = ty if own == "Self" else own
                    if own in types:
                        if own + "::" + nm in bodies:
                            yield own + "::" + nm
                    else:
                        yield from defs[nm]
                else:
                    yield from (d for d in defs[nm] if "::" not in d)

    todo, seen, missing = [], set(), []
    for r in roots:
        c = [r] if "::" in r else list(defs.get(r, ()))
        if not all(x in bodies for x in c) or not c:
            missing.append(r)
        else:
            todo += c
    while todo:
        q = todo.pop()
        if q not in seen and q not in stop:
            seen.add(q)
            todo += uses(q)
    return seen, missing


def in_keep(keep, name):
    """name: as Verus prints it (`Type::fn` for inherent methods, `fn` or a path otherwise)."""
    if keep is None:
        return True
    parts = name.partition("_arm_")[0].split("::")
    if len(parts) > 1 and any(k.startswith(parts[-2] + "::") for k in keep):
        return "::".join(parts[-2:]) in keep
    return any(k.rpartition("::")[2] == parts[-1] for k in keep)


def scan_trusted(src):
    """Names of everything that is assumed rather than proved."""
    out = []
    lines = src.split("\n")
    for i, l in enumerate(lines):
        code = l.split("//")[0]
        if "/*discharged elsewhere*/" in code or CUT in code:
            continue
        m = None
        if re.search(r"\b(assume|admit)\s*\(", code):
            out.append("assume: " + code.strip()[:160])
        elif "assume_specification" in code:
            out.append(code.strip()[:200])
        elif "external_body" in code or "external_type_specification" in code or re.search(r"\baxiom\b", code):
            rest = " ".join(x.strip() for x in lines[i:i + 4])
            m = re.search(r"(fn|struct|enum)\s+\w+", rest)
            out.append("assumed contract: " + (m.group(0) if m else code.strip()[:100]))
    return sorted(set(out))


# units with many large functions: one solver process per function, so that no query carries what another left behind
SPINOFF = ("code", "run")


def run_file(path, rlimit, timeout, wdir):
    own = ["-V", "spinoff-all"] if os.path.basename(path).split(".")[0].split("_vac")[0] in SPINOFF else []
    rc, o, to = run(["verus", path] + own + ["--output-json", "--time", "--multiple-errors", "8", "--rlimit", str(rlimit),
                     "--num-threads", "6", "--", "--error-format=json"], timeout, env(), cwd=wdir)
    diags, js, rest = [], None, []
    dec = json.JSONDecoder()
    i = o.find("{")
    while i >= 0 and i < len(o):
        try:
            v, j = dec.raw_decode(o, i)
        except ValueError:
            i = o.find("{", i + 1)
            continue
        if isinstance(v, dict):
            if v.get("$message_type") == "diagnostic":
                diags.append(v)
            elif "verification-results" in v:
                js = v
        i = o.find("{", j)
    return rc, diags, js, to, o


def run_unit(unit, tier, wdir, vacuity=True, roots=None, stop=()):
    t0 = time.time()
    res = {"obligations": [], "errors": [], "assumptions": []}

    def whole(why, fns=()):
        res["obligations"].append({"name": "verus:%s" % unit, "backend": "verus/z3", "status": "undecided",
                                   "functions": list(fns), "detail": why, "seconds": time.time() - t0})
        return res

    path = os.path.join(wdir, unit + ".rs")
    stubs = {}
    for attempt in range(8):
        try:
            src, used, fns = generate(unit, stubs=stubs)
        except R.Lost as e:
            return whole("extraction: %s" % e)
        open(path, "w").write(src)
        vac = None
        if vacuity and attempt == 0:
            from concurrent.futures import ThreadPoolExecutor
            pool = ThreadPoolExecutor(1)
            vac = pool.submit(check_vacuity, unit, wdir, dict(stubs))
        rc, diags, js, to, o = run_file(path, 30 if tier == "quick" else 120, 400, wdir)
        fns_names = ["%s (%s)" % (f["sel"], f["file"]) for f in fns]
        errors = [d for d in diags if d["level"] == "error" and not d["message"].startswith("aborting")]
        ran = js is not None and not js["verification-results"]["encountered-vir-error"] and \
            js["verification-results"]["verified"] + js["verification-results"]["errors"] > 0
        hard = [d for d in errors if not any(w in d["message"] for w in OBLIGATION_ERRORS) and "rlimit" not in d["message"]
                and "Resource limit" not in d["message"]]
        if ran and not to and not hard:
            break
        why = "; ".join(d["message"] + (" @ line %d" % d["spans"][0]["line_start"] if d["spans"] else "") for d in (hard or errors)[:4]) or o[-400:]
        # the functions whose own text is the reason lose their body and keep their contract; the others are still decided
        bad = {}
        for d in hard or errors:
            for f in fns:
                lo, hi = f["lines"]
                if f["sel"] not in stubs and any(sp["is_primary"] and lo <= sp["line_start"] <= hi for sp in d["spans"]):
                    bad[f["sel"]] = "not verified (unsupported or unresolved text): " + d["message"]
        if to or not bad or attempt == 7:
            return whole("not verified (unsupported or unresolved text): " + why, fns_names)
        stubs.update(bad)
    res["assumptions"] = ["%s: %s" % (unit, a) for a in scan_trusted(src)]
    res["assumptions"].append("%s: extraction rewrites: %s" % (
        unit, ", ".join("%s x%d" % kv for kv in sorted(used.items())) or "none"))
    base = anchors().get(unit, {})
    brk = [x for m in js["times-ms"]["smt"]["smt-run-module-times"] for x in m.get("function-breakdown", [])]
    by = {}
    for x in brk:
        n = x["function"].split("::", 1)[1] if "::" in x["function"] else x["function"]
        e = by.setdefault(n, {"ok": True, "t": 0.0, "mode": x.get("mode:")})
        e["ok"] &= x["success"]
        e["t"] += x.get("time-micros", 0) / 1e6
    for f in fns:
        short = f["name"] or f["sel"].rpartition("::")[2]
        lo, hi = f["lines"]
        mine = [d for d in errors if any(s["is_primary"] and lo <= s["line_start"] <= hi or
                                         (lo <= s["line_start"] <= hi) for s in d["spans"])]
        f["diags"] = mine
        key = [n for n in by if n.rpartition("::")[2].partition("_arm_")[0] == short]
        f["keys"] = key
    keep = None
    if roots:
        keep, missing = reachable(src, roots, stop)
        if missing:
            return whole("no function %s" % missing)
    for f in fns:
        if f["sel"] in stubs and in_keep(keep, f["name"] or f["sel"]):
            res["obligations"].append({"name": "verus:%s::%s" % (unit, f["sel"]), "backend": "verus/z3", "status": "undecided",
                                       "functions": ["%s (%s)" % (f["sel"], f["file"])], "detail": stubs[f["sel"]], "seconds": 0})
    vacuous = vac.result() if vac and not stubs else []
    for n, e in sorted(by.items()):
        if not in_keep(keep, n):
            continue
        owners = [f for f in fns if n in f["keys"]]
        # a method name can appear in several impls: attribute by diagnostics when it failed
        owner = next((f for f in owners if f["diags"]), owners[0] if owners else None)
        if e["ok"] and owner and owner["sel"] in stubs and len(owners) == 1:
            continue
        o_ = {"name": "verus:%s::%s" % (unit, n), "backend": "verus/z3", "seconds": round(e["t"], 3),
              "functions": ["%s (%s)" % (f["sel"], f["file"]) for f in owners if f["sel"] not in stubs]}
        if e["ok"]:
            o_["status"], o_["detail"] = "discharged", ""
            v = [x for x in vacuous if owner and x[0] == owner["sel"]]
            if v:
                o_["status"], o_["detail"] = "undecided", "vacuous: assert(false) is provable at " + v[0][1]
        else:
            ds = owner["diags"] if owner and owner["diags"] else errors
            msg = " | ".join(d["rendered"].strip() for d in ds[:4])
            limit = any("rlimit" in d["message"] or "Resource limit" in d["message"] for d in ds) and not \
                any(any(w in d["message"] for w in OBLIGATION_ERRORS) for d in ds)
            changed = owner is not None and base.get(owner["sel"]) is not None and base.get(owner["sel"]) != owner["loops_src"]
            if limit:
                o_["status"] = "undecided"
                o_["detail"] = "resource limit: " + msg
            elif changed:
                o_["status"] = "undecided"
                o_["detail"] = "the loops of this function are not those its invariants were written for: " + msg
            else:
                o_["status"] = "failed"
                o_["detail"] = msg
        res["obligations"].append(o_)
    res["errors"] += ["vacuity: %s %s" % x for x in vacuous]
    return res


_anchors = None


def anchors():
    global _anchors
    if _anchors is None:
        try:
            _anchors = json.load(open(os.path.join(UNITS, "anchors.json")))
        except OSError:
            _anchors = {}
    return _anchors


def check_vacuity(unit, wdir, stubs=None):
    """Every `assert(false)` planted behind the preconditions and loop invariants has to fail: [(selector, place)] of
    those that do not."""
    src, _, fns = generate(unit, vac=True, stubs=stubs)
    path = os.path.join(wdir, unit + "_vacuity.rs")
    open(path, "w").write(src)
    want = {i + 1: re.search(r"/\*VAC (.*?) (start|loop \d+)\*/", l) for i, l in enumerate(src.split("\n")) if "/*VAC " in l}
    if not want:
        return []
    rc, diags, js, to, o = run_file(path, 30, 400, wdir)
    if js is None or js["verification-results"]["encountered-vir-error"]:
        return []
    got = {s["line_start"] for d in diags if d["level"] == "error" for s in d["spans"]}
    # a function for which the solver gave up proved nothing false
    gave_up = {s["line_start"] for d in diags if d["level"] == "error" and ("rlimit" in d["message"] or "Resource limit" in d["message"]) for s in d["spans"]}
    tired = {f["sel"] for f in fns if any(f["lines"][0] <= n <= f["lines"][1] for n in gave_up)}
    return [(m.group(1), m.group(2)) for n, m in want.items() if n not in got and m.group(1) not in tired]


def run_units(units, tier, wdir):
    """units: names, or (name, [functions and lemmas the property rests on], [functions decided by another property])."""
    from concurrent.futures import ThreadPoolExecutor
    out = {"obligations": [], "errors": [], "assumptions": []}
    us = [(u, None, ()) if isinstance(u, str) else (u[0], u[1], u[2] if len(u) > 2 else ()) for u in units]
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda u: run_unit(u[0], tier, wdir, roots=u[1], stop=u[2]), us):
            for k in out:
                out[k] += r[k]
    return out


def write_anchors():
    a = {}
    for f in sorted(os.listdir(UNITS)):
        if f.endswith(".rs") and not f.startswith("_"):
            u = f[:-3]
            _, _, fns = generate(u)
            a[u] = {x["sel"]: x["loops_src"] for x in fns}
    json.dump(a, open(os.path.join(UNITS, "anchors.json"), "w"), indent=1, sort_keys=True)


if __name__ == "__main__":
    import sys
    if sys.argv[1] == "anchors":
        write_anchors()
    else:
        w = "/tmp/vw"
        os.makedirs(w, exist_ok=True)
        for u in sys.argv[1:]:
            r = run_unit(u, "quick", w)
            for o in r["obligations"]:
                print(o["status"], o["name"], o["seconds"], o["detail"][:3000] if o["status"] != "discharged" else "")
            for e in r["errors"]:
                print("ERR", e)
            if "-v" in os.environ.get("V", ""):
                print("\n".join(r["assumptions"]))
