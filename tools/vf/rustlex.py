"""A small Rust lexer: finds functions in /repo's source and rewrites token sequences.

Nothing here looks at layout or comments: white space and comments never matter.
"""
import re


class Lost(Exception):
    """An anchor was not found in the current source."""


class Tok:
    __slots__ = ("k", "t", "g")

    def __init__(self, k, t):
        self.k, self.t, self.g = k, t, False  # g: the next token follows without a gap

    def __repr__(self):
        return self.t


TOK = re.compile(r"""
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<raw>b?r(?P<h>\#*)"(?:.|\n)*?"(?P=h))
 |(?P<str>b?"(?:\\(?:.|\n)|[^"\\])*")
 |(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^'\\\n])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<num>\d[\w]*(?:\.\d[\w]*)?(?:[eE][+-]?\d+)?)
 |(?P<id>(?:r\#)?[A-Za-z_]\w*)
 |(?P<meta>\$[A-Za-z_]\w*)
 |(?P<p>::|->|=>|\.\.=|\.\.|==|!=|<=|>=|&&|\|\||[-+*/%^&|!<>=.,;:\#?@~$(){}\[\]])
""", re.X)


def lex(src):
    out, i, n, last = [], 0, len(src), -1
    while i < n:
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith("/*", j):
                    d, j = d + 1, j + 2
                elif src.startswith("*/", j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            i = j
            continue
        m = TOK.match(src, i)
        if not m:
            raise Lost("cannot read the source at %r" % src[i:i + 30])
        k = m.lastgroup
        if k == "h":
            k = "raw"
        if k not in ("ws", "lc"):
            if out and i == last:
                out[-1].g = True
            out.append(Tok(k, m.group()))
            last = m.end()
        i = m.end()
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = set(OPEN.values())


def match_close(ts, i):
    """Index of the bracket closing the one at i."""
    d = 0
    for j in range(i, len(ts)):
        if ts[j].t in OPEN and ts[j].k == "p":
            d += 1
        elif ts[j].t in CLOSE and ts[j].k == "p":
            d -= 1
            if d == 0:
                return j
    raise Lost("unbalanced brackets")


def text(ts):
    """Source text of tokens without the original layout."""
    out = []
    for i, t in enumerate(ts):
        out.append(t.t)
        if i + 1 == len(ts):
            break
        n = ts[i + 1]
        if t.g and not (t.k in ("id", "num") and n.k in ("id", "num")):
            continue
        out.append("\n" if t.t in (";", "{", "}") else " ")
    return "".join(out)


def norm(ts):
    return " ".join(t.t for t in ts)


class Fn:
    def __init__(self, container, name, sig, body):
        self.container, self.name, self.sig, self.body = container, name, sig, body


def functions(ts):
    """All functions outside `mod tests` / #[cfg(...)] modules, with the header of the enclosing impl or trait."""
    out = []

    def walk(i, end, cont):
        while i < end:
            t = ts[i].t
            if t in ("impl", "trait", "mod") and ts[i].k == "id":
                j = i
                while j < end and ts[j].t not in ("{", ";"):
                    j += 1
                if j < end and ts[j].t == "{":
                    c = match_close(ts, j)
                    head = norm(ts[i:j])
                    if not (t == "mod" and ts[i + 1].t in ("tests", "test")):
                        walk(j + 1, c, cont if t == "mod" else head)
                    i = c + 1
                    continue
                i = j + 1
                continue
            if t == "fn" and ts[i].k == "id" and ts[i + 1].k == "id":
                j = i
                while ts[j].t not in ("{", ";"):
                    if ts[j].t in ("(", "["):
                        j = match_close(ts, j)
                    j += 1
                if ts[j].t == ";":
                    i = j + 1
                    continue
                c = match_close(ts, j)
                out.append(Fn(cont, ts[i + 1].t, ts[i:j], ts[j:c + 1]))
                i = c + 1
                continue
            if t == "{":
                i = match_close(ts, i) + 1
                continue
            i += 1

    walk(0, len(ts), "")
    return out


def find_fn(ts, sel):
    """sel: `name`, `Type::name` or `Trait for Type::name`."""
    cont, _, name = sel.rpartition("::")
    c = []
    for f in functions(ts):
        if f.name != name:
            continue
        head = f.container.split(" ")
        if cont == "":
            ok = f.container == ""
        elif " for " in cont:
            tr, ty = cont.split(" for ")
            ok = head[0] == "impl" and "for" in head and tr in head[:head.index("for")] and ty in head[head.index("for"):]
        else:
            ok = head[0] in ("impl", "trait") and "for" not in head and cont in head
        if ok:
            c.append(f)
    if len(c) != 1:
        raise Lost("%d functions match %s" % (len(c), sel))
    return c[0]


def find_const(ts, name):
    """Tokens of `const NAME: T = value;` or a static."""
    for i in range(len(ts) - 1):
        if ts[i].t in ("const", "static") and ts[i + 1].t == name:
            j = i
            while ts[j].t != ";":
                j += 1
            return ts[i:j + 1]
    raise Lost("constant %s" % name)


# ---- token patterns: `$x` stands for a non-empty balanced run of tokens without ; at top level ----

def match_at(pat, ts, i):
    """(end index, captures) or None."""
    return _m(pat, 0, ts, i, {})


def _m(pat, pi, ts, i, caps):
    if pi == len(pat):
        return i, caps
    p = pat[pi]
    if p.k == "meta":
        name = p.t
        if name in caps:
            c = caps[name]
            if [t.t for t in ts[i:i + len(c)]] == [t.t for t in c]:
                return _m(pat, pi + 1, ts, i + len(c), caps)
            return None
        j = i
        while j < len(ts):
            t = ts[j]
            if t.k == "p" and t.t in CLOSE:
                return None
            if t.k == "p" and t.t == ";" and not name.startswith("$s_"):
                return None
            if t.k == "p" and t.t in OPEN:
                j = match_close(ts, j)
            j += 1
            if name.startswith("$i_") and (j - i != 1 or ts[i].k != "id"):
                return None
            c2 = dict(caps)
            c2[name] = ts[i:j]
            r = _m(pat, pi + 1, ts, j, c2)
            if r is not None:
                return r
        return None
    if i < len(ts) and ts[i].t == p.t:
        return _m(pat, pi + 1, ts, i + 1, caps)
    return None


def subst(repl, caps):
    def f(m):
        n = m.group(0)
        if n not in caps:
            return n
        return " " + text(caps[n]) + " "
    return re.sub(r"\$[A-Za-z_]\w*", f, repl)


def rewrite(ts, pat, repl):
    """Replaces every (non-overlapping, outermost first) match; returns (tokens, count). Repeats inside captures."""
    p = lex(pat)
    if not p:
        raise Lost("empty pattern")
    out, i, n = [], 0, 0
    while i < len(ts):
        r = match_at(p, ts, i)
        if r is not None:
            e, caps = r
            caps2 = {}
            for k, v in caps.items():
                v2, m = rewrite(v, pat, repl)
                n += m
                caps2[k] = v2
            out += lex(subst(repl, caps2))
            n += 1
            i = e
        else:
            out.append(ts[i])
            i += 1
    return out, n
