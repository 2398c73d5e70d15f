#!/usr/bin/env python3
"""Mechanical extraction of functions from /repo/src and weaving of Verus contracts.

A *unit* (verus/units/*.vrs) is a Verus source file in which block comments of the form

    /*@fn <file>.rs :: [container ::] name
    subst T=F64
    lit f64
    ret r
    spec:
        requires ... ensures ...
    loop 1 [iter it]:
        invariant ... decreases ...
    start: / tail: / loop 1 start: / loop 1 end: / after [k] "tokens": / before [k] "tokens":
        <proof code>
    closure 1:
        |x: &F64| -> (r: F64) ensures ...
    */
    /*@struct <file>.rs :: Name */      (also enum, const)

are replaced by the text of that item, read from the *current* working tree of /repo, after a
fixed list of rewrites (see REWRITES in DESIGN.md).  Nothing else of the function is touched.
Anything that cannot be located raises Anchor (lost anchor), never an alarm.
"""
import re, sys, os, json, hashlib

REPO = os.environ.get("FORUST_REPO", "/repo")


class Anchor(Exception):
    pass


# ----------------------------------------------------------------------------- lexer
class Tok:
    __slots__ = ("k", "t", "line")

    def __init__(self, k, t, line):
        self.k, self.t, self.line = k, t, line

    def __repr__(self):
        return f"{self.k}:{self.t!r}"


PUNCT = ["<<=", ">>=", "...", "..=", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=",
         "-=", "*=", "/=", "%=", "^=", "&=", "|=", ".."]
# note: '<<' and '>>' are left as single characters (generics)


def lex(s):
    out, i, n, line = [], 0, len(s), 1
    def add(k, j):
        nonlocal i, line
        t = s[i:j]
        out.append(Tok(k, t, line))
        line += t.count("\n")
        i = j
    while i < n:
        c = s[i]
        if c.isspace():
            j = i
            while j < n and s[j].isspace():
                j += 1
            add("ws", j)
        elif s.startswith("//", i):
            j = s.find("\n", i)
            j = n if j < 0 else j
            add("com", j)
        elif s.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if s.startswith("/*", j):
                    d += 1; j += 2
                elif s.startswith("*/", j):
                    d -= 1; j += 2
                else:
                    j += 1
            add("com", j)
        elif c == '"' or (c in "br" and re.match(r'b?r?#*"', s[i:i + 8]) and not re.match(r'[A-Za-z0-9_]*[A-Za-z0-9_]"', "")):
            m = re.match(r'(b?r)(#*)"', s[i:])
            if m:
                end = '"' + m.group(2)
                j = s.index(end, i + m.end()) + len(end)
            else:
                j = s.index('"', i) + 1
                while s[j] != '"':
                    j += 2 if s[j] == "\\" else 1
                j += 1
            add("str", j)
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^'\\])'", s[i:])
            if m:
                add("char", i + m.end())
            else:
                m = re.match(r"'[A-Za-z_]\w*", s[i:])
                add("life", i + m.end())
        elif c.isalpha() or c == "_":
            m = re.match(r"[A-Za-z_]\w*", s[i:])
            add("id", i + m.end())
        elif c.isdigit():
            m = re.match(r"0[xob][0-9a-fA-F_]+(?:[iu]\w+)?", s[i:])
            if not m:
                m = re.match(r"\d[\d_]*(?:\.\d[\d_]*|\.(?![\.\w]))?(?:[eE][+-]?\d+)?(?:_?(?:f32|f64|[iu](?:8|16|32|64|128|size)))?", s[i:])
            t = m.group(0)
            isf = not t.startswith("0x") and ("." in t or re.search(r"f(32|64)$", t) or re.search(r"\d[eE][+-]?\d", t))
            prev = next((o for o in reversed(out) if o.k not in ("ws", "com")), None)
            if isf and prev and prev.t == "." and "." in t:  # tuple index a.0.1
                m = re.match(r"\d+", s[i:]); isf = False
            add("flt" if isf else "int", i + m.end())
        else:
            for p in PUNCT:
                if s.startswith(p, i):
                    add("p", i + len(p))
                    break
            else:
                add("p", i + 1)
    return out


MACRO = "($var: expr) => {let var_name = stringify!($var).split(\".\").nth(1).unwrap(); crate::utils::validate_positive_float_parameter($var, var_name)?};"


def macro_as_pinned():
    """the definition of validate_positive_float_field! in src/utils.rs is the one whose expansion R23 writes out"""
    toks = lex(open(os.path.join(REPO, "src/utils.rs")).read())
    s = sig(toks)
    for n, i in enumerate(s[:-3]):
        if toks[i].t == "macro_rules" and toks[s[n + 2]].t == "validate_positive_float_field":
            body = [t.t for t in toks[s[n + 3] + 1:match(toks, s[n + 3])] if t.k not in ("ws", "com")]
            want = [t.t for t in lex(MACRO) if t.k not in ("ws", "com")]
            return body == want
    return False


def sig(toks):
    return [i for i, t in enumerate(toks) if t.k not in ("ws", "com")]


def text(toks):
    return "".join(t.t for t in toks)


OPEN, CLOSE = {"(": ")", "[": "]", "{": "}"}, {")", "]", "}"}


def match(toks, i):
    """index of the bracket closing toks[i]"""
    d = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t.k == "p":
            if t.t in OPEN:
                d += 1
            elif t.t in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise Anchor("unbalanced bracket")


def rmatch(toks, i):
    d = 0
    for j in range(i, -1, -1):
        t = toks[j]
        if t.k == "p":
            if t.t in CLOSE:
                d += 1
            elif t.t in OPEN:
                d -= 1
                if d == 0:
                    return j
    raise Anchor("unbalanced bracket")


def nxt(toks, i):
    i += 1
    while i < len(toks) and toks[i].k in ("ws", "com"):
        i += 1
    return i


def prv(toks, i):
    i -= 1
    while i >= 0 and toks[i].k in ("ws", "com"):
        i -= 1
    return i


def skip_generics(toks, i):
    """toks[i] == '<' ; index after matching '>'"""
    d = 0
    while i < len(toks):
        t = toks[i].t
        if t == "<":
            d += 1
        elif t == ">":
            d -= 1
            if d == 0:
                return nxt(toks, i)
        elif t in OPEN:
            i = match(toks, i)
        i += 1
    raise Anchor("generics")


# ----------------------------------------------------------------------------- items
class Item:
    def __init__(self, kind, name, cont, toks, body=None, contbounds=""):
        self.kind, self.name, self.cont, self.toks, self.body = kind, name, cont, toks, body
        self.contbounds = contbounds


def items(toks, cont=""):
    out = []
    i = 0
    n = len(toks)
    i = nxt(toks, -1)
    while i < n:
        start = i
        test = False
        while i < n and toks[i].t == "#":
            j = nxt(toks, i)
            if toks[j].t == "!":
                j = nxt(toks, j)
            e = match(toks, j)
            if "cfg" in text(toks[j:e]) and "test" in text(toks[j:e]):
                test = True
            i = nxt(toks, e)
        if i >= n:
            break
        s0 = i
        if toks[i].t == "pub":
            i = nxt(toks, i)
            if toks[i].t == "(":
                i = nxt(toks, match(toks, i))
        while toks[i].t in ("unsafe", "async", "extern", "default") or (toks[i].t == "const" and toks[nxt(toks, i)].t in ("fn", "unsafe")):
            i = nxt(toks, i)
        kw = toks[i].t
        if kw == "macro_rules":
            j = i
            while toks[j].t not in ("{", "("):
                j += 1
            e = match(toks, j)
            i = nxt(toks, e)
            continue
        if kw in ("fn", "struct", "enum", "mod", "trait"):
            name = toks[nxt(toks, i)].t
        elif kw in ("const", "static", "type"):
            name = toks[nxt(toks, i)].t
        else:
            name = ""
        # find end
        j = i
        while j < n:
            t = toks[j].t
            if t in ("(", "["):
                j = match(toks, j)
            elif t == "{":
                break
            elif t == ";":
                break
            j += 1
        if j >= n:
            break
        if kw in ("use", "const", "static", "type") or toks[j].t == ";":
            while toks[j].t != ";":
                if toks[j].t in OPEN:
                    j = match(toks, j)
                j += 1
            if not test:
                out.append(Item(kw, name, cont, toks[s0:j + 1]))
            i = nxt(toks, j)
            continue
        e = match(toks, j)
        if not test:
            if kw == "fn":
                out.append(Item("fn", name, cont, toks[s0:e + 1], body=j - s0))
            elif kw in ("struct", "enum"):
                out.append(Item(kw, name, cont, toks[start:e + 1]))
            elif kw in ("impl", "trait", "mod"):
                h = i
                if kw == "impl":
                    h = nxt(toks, i)
                    if toks[h].t == "<":
                        h = skip_generics(toks, h)
                    # header path(s)
                    hdr = []
                    k = h
                    while k < j and toks[k].t != "where":
                        if toks[k].t == "<":
                            k2 = skip_generics(toks, k)
                            if toks[h].t and hdr and toks[prv(toks, k)].t in ("VecDeque", "BinaryHeap", "Bin"):
                                hdr.append(re.sub(r"\s", "", text(toks[k:k2])))
                            k = k2
                            continue
                        if toks[k].k not in ("ws", "com"):
                            hdr.append(toks[k].t)
                        k += 1
                    c = " ".join(hdr)
                elif kw == "trait":
                    c = "trait " + name
                else:
                    c = cont
                out.extend(items(toks[j + 1:e], c))
                out.append(Item(kw, name or c, cont, toks[s0:e + 1], body=j - s0))
        i = nxt(toks, e)
    return out


_cache = {}


def file_items(f):
    if f not in _cache:
        p = os.path.join(REPO, "src", f)
        try:
            src = open(p).read()
        except OSError as ex:
            raise Anchor(f"cannot read {p}: {ex}")
        _cache[f] = items(lex(src))
    return _cache[f]


def find(f, kind, cont, name):
    c = [it for it in file_items(f) if it.kind == kind and it.name == name and (it.cont == cont)]
    if not c:
        raise Anchor(f"{kind} {cont + ' :: ' if cont else ''}{name} not found in src/{f}")
    return c[0]


# ----------------------------------------------------------------------------- rewrites
def T(s):
    return lex(s)


def ins(toks, i, s):
    toks[i:i] = lex(s)


def operand_start(toks, i):
    """start index of the postfix expression that ends just before token index i"""
    j = prv(toks, i)
    while True:
        t = toks[j]
        if t.k == "p" and t.t in (")", "]"):
            j = rmatch(toks, j)
            p = prv(toks, j)
            if p >= 0 and (toks[p].k in ("id", "int") and toks[p].t not in KEYWORDS or toks[p].t in (")", "]", "?")):
                j = p
                continue
            if p >= 0 and toks[p].t == ">":   # turbofish f::<T>(..)
                d, q = 0, p
                while q >= 0:
                    if toks[q].t == ">":
                        d += 1
                    elif toks[q].t == "<":
                        d -= 1
                        if d == 0:
                            break
                    q -= 1
                q = prv(toks, q)
                if toks[q].t == "::":
                    j = prv(toks, q)
                    continue
        elif t.t == "}":
            j = rmatch(toks, j)
        elif t.t == "?":
            j = prv(toks, j)
            continue
        p = prv(toks, j)
        if p >= 0 and toks[p].t in (".", "::"):
            j = prv(toks, p)
            continue
        break
    # unary prefixes bind tighter than `as` / looser than postfix
    return j


KEYWORDS = set("as break const continue else enum fn for if impl in let loop match mod move mut pub ref return "
               "static struct trait type unsafe use where while dyn".split())


def unary_start(toks, j):
    while True:
        p = prv(toks, j)
        if p < 0 or toks[p].t not in ("*", "&", "-", "!", "mut"):
            return j
        q = prv(toks, p)
        if toks[p].t == "mut":
            if q >= 0 and toks[q].t == "&":
                j = q
                continue
            return j
        if q >= 0 and (toks[q].k in ("int", "flt", "str") or toks[q].t in (")", "]", "}") or (toks[q].k == "id" and toks[q].t not in KEYWORDS)):
            return j   # binary operator
        j = p


FLOATS = {"f32": "F32", "f64": "F64"}


def rewrite(toks, opts, log):
    toks = list(toks)
    # R0 attributes on statements/params
    i = 0
    while i < len(toks):
        if toks[i].t == "#" and toks[nxt(toks, i)].t == "[":
            e = match(toks, nxt(toks, i))
            del toks[i:e + 1]
            log.add("R0 attributes dropped")
        else:
            i += 1
    # R11 panic messages
    for i, t in enumerate(toks):
        if t.t == "panic" and toks[nxt(toks, i)].t == "!":
            o = nxt(toks, nxt(toks, i))
            e = match(toks, o)
            if e > o + 1:
                toks[o + 1:e] = lex('"panic"')
                log.add("R11 panic!(message) -> panic!(): the message is dropped, reaching it is an obligation")
    # R23 text of messages
    i = 0
    while i < len(toks):
        if toks[i].t in ("format", "info", "validate_positive_float_field") and toks[i].k == "id" and toks[nxt(toks, i)].t == "!":
            o = nxt(toks, nxt(toks, i))
            e = match(toks, o)
            if toks[i].t == "format":
                toks[i:e + 1] = lex("vx_text()")
                log.add("R23 format!(..) -> an arbitrary string")
            elif toks[i].t == "info":
                toks[i:e + 1] = lex("()")
                log.add("R23 info!(..) dropped (log output)")
            else:
                if not macro_as_pinned():
                    raise Anchor("macro validate_positive_float_field! is not the one R23 expands")
                toks[i:e + 1] = lex("validate_positive_float_parameter(" + text(toks[o + 1:e]) + ", vx_str())?")
                log.add("R23 validate_positive_float_field!(E) -> validate_positive_float_parameter(E, <text>)?, the macro's expansion")
        i += 1
    # R17 assert_eq!(a, b) -> assert!(a == b)
    i = 0
    while i < len(toks):
        if toks[i].t == "assert_eq" and toks[nxt(toks, i)].t == "!":
            o = nxt(toks, nxt(toks, i))
            e = match(toks, o)
            k, parts, st = o + 1, [], o + 1
            while k < e:
                if toks[k].t in OPEN:
                    k = match(toks, k)
                elif toks[k].t == ",":
                    parts.append(text(toks[st:k]).strip())
                    st = k + 1
                k += 1
            parts.append(text(toks[st:e]).strip())
            toks[i:e + 1] = lex(f"assert!({parts[0]} == {parts[1]})")
            log.add("R17 assert_eq!(a, b) -> assert!(a == b)")
        i += 1
    # R25 function values -> tags of an enum, their calls -> a function that dispatches on the tag
    for old, new in opts.get("defun", {}).items():
        seq = [x.t for x in lex(old)]
        i = 0
        while i < len(toks):
            k, m = i, 0
            while m < len(seq) and k < len(toks) and toks[k].t == seq[m]:
                m, k = m + 1, nxt(toks, k)
            if m == len(seq) and not (i and toks[prv(toks, i)].t == "::") and toks[k].t != "(":
                toks[i:k] = lex(new)
                log.add(f"R25 function value {old} -> {new}")
            i += 1
    for i, t in enumerate(toks):
        if t.k == "id" and t.t in opts.get("calls", {}) and toks[nxt(toks, i)].t == "(" and toks[prv(toks, i)].t != ".":
            toks[nxt(toks, i)] = Tok("p", f"({t.t}, ", t.line)
            toks[i] = Tok("id", opts["calls"][t.t], t.line)
            log.add(f"R25 call of the function value {t.t} -> {toks[i].t}({t.t}, ..)")
    for i in range(len(toks) - 1, -1, -1):
        t = toks[i]
        if t.k == "id" and t.t + "()" in opts.get("calls", {}) and toks[nxt(toks, i)].t == "(":
            e = match(toks, nxt(toks, i))
            o = nxt(toks, e)
            if o < len(toks) and toks[o].t == "(":
                new = opts["calls"][t.t + "()"]
                toks[i:o + 1] = lex(f"{new}({text(toks[i:e + 1])}, ")
                log.add(f"R25 call of the function value {t.t}(..) -> {new}({t.t}(..), ..)")
    # R26 for (i, (a, .., z)) in E.iter_mut().enumerate() -> positions; the last component by mutable reference, the others by value
    if "itermut" in opts:
        for i, t in enumerate(toks):
            if t.t != "for" or t.k != "id":
                continue
            k = i
            while toks[k].t != "in":
                k += 1
            pat = text(toks[i + 1:k]).strip()
            b = k
            while toks[b].t != "{":
                b = match(toks, b) + 1 if toks[b].t in OPEN else b + 1
            m = re.fullmatch(r"(\w+)\.iter_mut\(\)\.enumerate\(\)", re.sub(r"\s+", "", text(toks[k + 1:b])))
            q = re.fullmatch(r"\(\s*(\w+)\s*,\s*\(([^()]*)\)\s*\)", pat)
            if m and q:
                E, names = m.group(1), [z.strip() for z in q.group(2).split(",")]
                parts = [f"{E}[{q.group(1)}].{n}" for n in range(len(names) - 1)] + [f"&mut {E}[{q.group(1)}].{len(names) - 1}"]
                toks[b:b + 1] = lex("{ let (" + ", ".join(names) + ") = (" + ", ".join(parts) + ");")
                toks[i:b] = lex(f"for {q.group(1)} in 0..{E}.len() ")
                log.add("R26 for (i, (a, .., z)) in E.iter_mut().enumerate() -> for i in 0..E.len(), z = &mut E[i].n, the others E[i].k (copies of references)")
                break
    # R12 standard library methods without a vstd specification -> contracted stand-ins
    for i, t in enumerate(toks):
        if t.k == "id" and t.t in opts.get("std", ()) and i and toks[prv(toks, i)].t == ".":
            toks[i] = Tok("id", opts.get("stdas", {}).get(t.t, "vx_" + t.t), t.line)
            log.add(f"R12 std method .{t.t}() -> .vx_{t.t}() with an assumed contract")
            j = nxt(toks, i)
            if t.t == "collect" and toks[j].t == "::":
                k = j
                while toks[k].t != "(":
                    toks[k] = Tok("ws", "", t.line)
                    k += 1
        elif t.k == "id" and "::" + t.t in opts.get("std", ()) and toks[nxt(toks, i)].t == "(":
            toks[i] = Tok("id", "vx_" + t.t, t.line)
            log.add(f"R12 std function {t.t} -> vx_{t.t} with an assumed contract")
    # R1 monomorphise
    sub = opts.get("subst", {})
    for t in toks:
        if t.k == "id" and t.t in sub:
            t2 = sub[t.t]
            toks[toks.index(t)] = Tok("id", t2, t.line)
            log.add(f"R1 type parameter {t.t} := {t2}")
    # R5 rayon
    for i, t in enumerate(toks):
        if t.k == "id" and t.t in ("par_iter", "into_par_iter", "par_iter_mut", "par_chunks_mut"):
            toks[i] = Tok("id", t.t.replace("par_", ""), t.line)
            log.add("R5 rayon parallel iterator -> sequential iterator of the same name")
    # R10 tuple-destructuring assignment  (a, b) = E;
    i = 0
    while i < len(toks):
        if toks[i].t == "(" and (i == 0 or toks[prv(toks, i)].t in ("{", "}", ";")):
            e = match(toks, i)
            q = nxt(toks, e)
            if q < len(toks) and toks[q].t == "=":
                names = [x for x in re.sub(r"\s", "", text(toks[i + 1:e])).split(",") if x]
                k = q
                while toks[k].t != ";":
                    if toks[k].t in OPEN:
                        k = match(toks, k)
                    k += 1
                tmp = ", ".join("d__" + re.sub(r"\W", "_", x) for x in names)
                new = f"let ({tmp}) = " + text(toks[q + 1:k]).strip() + "; " + " ".join(
                    f"{x} = d__{re.sub(chr(92)+'W', '_', x)};" for x in names)
                toks[i:k + 1] = lex(new)
                log.add("R10 destructuring assignment -> let + assignments")
        i += 1
    # R15 &mut E[a..b]
    i = 0
    while i < len(toks):
        if toks[i].t == "[" and i and (toks[prv(toks, i)].k == "id" and toks[prv(toks, i)].t not in KEYWORDS or toks[prv(toks, i)].t in (")", "]")):
            e = match(toks, i)
            k, dd = i + 1, None
            while k < e:
                if toks[k].t in OPEN:
                    k = match(toks, k)
                elif toks[k].t == "..":
                    dd = k
                k += 1
            if dd is not None:
                st = operand_start(toks, e + 1)
                m = prv(toks, st)
                if m > 0 and toks[m].t == "mut" and toks[prv(toks, m)].t == "&":
                    a = text(toks[i + 1:dd]).strip() or "0"
                    b = text(toks[dd + 1:e]).strip()
                    recv = text(toks[st:i]).strip()
                    if b:
                        toks[prv(toks, m):e + 1] = lex(f"{recv}.vx_range_mut({a}, {b})")
                        log.add("R15 &mut E[a..b] -> E.vx_range_mut(a, b) with an assumed contract")
                        i = m
        i += 1
    # R8 for_each -> for
    changed = True
    while changed:
        changed = False
        for i, t in enumerate(toks):
            if t.t == "for_each" and toks[prv(toks, i)].t == "." and toks[nxt(toks, i)].t == "(":
                o = nxt(toks, i)
                e = match(toks, o)
                b = nxt(toks, o)
                if toks[b].t != "|":
                    continue
                c = nxt(toks, b)
                d = c
                while toks[d].t != "|":
                    if toks[d].t in OPEN:
                        d = match(toks, d)
                    d += 1
                pat = text(toks[c:d]).strip()
                body = text(toks[d + 1:e]).strip()
                st = unary_start(toks, operand_start(toks, prv(toks, i)))
                recv = text(toks[st:prv(toks, i)]).strip()
                if not body.startswith("{"):
                    body = "{ " + body + "; }"
                q = nxt(toks, e)
                end = q if q < len(toks) and toks[q].t == ";" else e
                toks[st:end + 1] = lex(f"for {pat} in {recv} {body}")
                log.add("R8 E.for_each(|p| B) -> for p in E { B }")
                changed = True
                break
    # R24 M.entry(K).and_modify(|p| B).or_insert(E) -> look up, change or insert
    for i in range(len(toks) - 1, -1, -1):
        t = toks[i]
        if t.t == "entry" and i and toks[prv(toks, i)].t == "." and toks[nxt(toks, i)].t == "(":
            st = unary_start(toks, operand_start(toks, prv(toks, i)))
            recv = text(toks[st:prv(toks, i)]).strip()
            o = nxt(toks, i)
            e = match(toks, o)
            key = text(toks[o + 1:e]).strip()
            q = nxt(toks, e)
            if toks[q].t != "." or toks[nxt(toks, q)].t != "and_modify":
                continue
            o = nxt(toks, nxt(toks, q))
            e = match(toks, o)
            b = nxt(toks, o)
            if toks[b].t != "|":
                continue
            c = nxt(toks, b)
            d = c
            while toks[d].t != "|":
                if toks[d].t in OPEN:
                    d = match(toks, d)
                d += 1
            pat = text(toks[c:d]).strip()
            body = text(toks[d + 1:e]).strip()
            q = nxt(toks, e)
            if toks[q].t != "." or toks[nxt(toks, q)].t != "or_insert":
                continue
            o = nxt(toks, nxt(toks, q))
            e = match(toks, o)
            dflt = text(toks[o + 1:e]).strip()
            q = nxt(toks, e)
            end = q if q < len(toks) and toks[q].t == ";" else e
            toks[st:end + 1] = lex(f"{{ let vx_k = {key}; let vx_d = {dflt}; if {recv}.contains_key(&vx_k) {{ let mut vx_e = *{recv}.get(&vx_k).unwrap(); {{ let {pat} = &mut vx_e; {body} }} {recv}.insert(vx_k, vx_e); }} else {{ {recv}.insert(vx_k, vx_d); }} }}")
            log.add("R24 M.entry(K).and_modify(|p| B).or_insert(E) -> if M.contains_key(&K) { e = *M.get(&K); B on e; M.insert(K, e) } else { M.insert(K, E) }")
    # R9 fold -> loop
    changed = True
    while changed:
        changed = False
        for i, t in enumerate(toks):
            if t.t == "fold" and toks[prv(toks, i)].t == "." and toks[nxt(toks, i)].t == "(":
                o = nxt(toks, i)
                e = match(toks, o)
                k = o + 1
                while toks[k].t != ",":
                    if toks[k].t in OPEN:
                        k = match(toks, k)
                    k += 1
                init = text(toks[o + 1:k]).strip()
                b = nxt(toks, k)
                if toks[b].t != "|":
                    continue
                d = b + 1
                while toks[d].t != "|":
                    if toks[d].t in OPEN:
                        d = match(toks, d)
                    d += 1
                params = text(toks[b + 1:d])
                acc, x = [z.strip() for z in params.split(",", 1)]
                body = text(toks[d + 1:e]).strip().rstrip(",")
                acc_n = acc.replace("mut ", "").strip()
                st = unary_start(toks, operand_start(toks, prv(toks, i)))
                recv = text(toks[st:prv(toks, i)]).strip()
                toks[st:e + 1] = lex(f"{{ let mut {acc_n} = {init}; for {x} in {recv} {{ {acc_n} = {body}; }} {acc_n} }}")
                log.add("R9 E.fold(A, |acc, x| B) -> { let mut acc = A; for x in E { acc = B; } acc }")
                changed = True
                break
    # R18 E.map(|p| B).collect() / .sum(): the closure may change captured variables, so it becomes a loop
    changed = bool(opts.get("maploop"))
    while changed:
        changed = False
        for i, t in enumerate(toks):
            if t.t == "map" and i and toks[prv(toks, i)].t == "." and toks[nxt(toks, i)].t == "(":
                o = nxt(toks, i)
                e = match(toks, o)
                b = nxt(toks, o)
                if toks[b].t != "|":
                    continue
                d = b + 1
                while toks[d].t != "|":
                    if toks[d].t in OPEN:
                        d = match(toks, d)
                    d += 1
                pat = text(toks[b + 1:d]).strip()
                body = text(toks[d + 1:e]).strip().rstrip(",")
                st = unary_start(toks, operand_start(toks, prv(toks, i)))
                recv = text(toks[st:prv(toks, i)]).strip()
                q = nxt(toks, nxt(toks, e))          # the consumer
                if toks[nxt(toks, e)].t != "." or toks[q].t not in ("sum", "collect", "vx_fsum"):
                    continue
                end = nxt(toks, q)
                if toks[end].t == "::":
                    end = skip_generics(toks, nxt(toks, end))
                end = match(toks, end)
                new = f"{{ let mut vx_acc: Vec<{opts["maploop"]}> = Vec::new(); for {pat} in {recv} {{ let vx_item = {body}; vx_acc.push(vx_item); }} vx_acc }}"
                if toks[q].t != "collect":
                    new = f"{{ let mut vx_acc: Vec<{opts["maploop"]}> = Vec::new(); for {pat} in {recv} {{ let vx_item = {body}; vx_acc.push(vx_item); }} vx_acc.vx_fsum() }}"
                toks[st:end + 1] = lex(new)
                log.add("R18 E.map(|p| B).collect() / .sum() -> loop that pushes B (then adds up) in order")
                changed = True
                break
    # R22 V.extend(I) -> V.vx_extend(I.collect()): appending the items of an iterator
    if opts.get("extendcollect"):
        for i in range(len(toks) - 1, -1, -1):
            if toks[i].t == "extend" and i and toks[prv(toks, i)].t == "." and toks[nxt(toks, i)].t == "(":
                e = match(toks, nxt(toks, i))
                toks[e:e] = lex(".collect()")
                toks[i] = Tok("id", "vx_extend", toks[i].line)
                log.add("R22 V.extend(I) -> V.vx_extend(I.collect()), appending a vector with an assumed contract")
    # R20 E.flat_map(|p| B).collect(): loop that appends the items of B
    changed = bool(opts.get("flatloop"))
    while changed:
        changed = False
        for i, t in enumerate(toks):
            if t.t in ("flat_map", "scan") and i and toks[prv(toks, i)].t == "." and toks[nxt(toks, i)].t == "(":
                o = nxt(toks, i)
                e = match(toks, o)
                b = nxt(toks, o)
                init = None
                if t.t == "scan":
                    k = o + 1
                    while toks[k].t != ",":
                        if toks[k].t in OPEN:
                            k = match(toks, k)
                        k += 1
                    init = text(toks[o + 1:k]).strip()
                    b = nxt(toks, k)
                if toks[b].t != "|":
                    continue
                d = b + 1
                while toks[d].t != "|":
                    if toks[d].t in OPEN:
                        d = match(toks, d)
                    d += 1
                pat = text(toks[b + 1:d]).strip()
                body = text(toks[d + 1:e]).strip().rstrip(",")
                st = unary_start(toks, operand_start(toks, prv(toks, i)))
                recv = text(toks[st:prv(toks, i)]).strip()
                q = nxt(toks, nxt(toks, e))
                if toks[nxt(toks, e)].t != "." or toks[q].t != "collect":
                    continue
                end = nxt(toks, q)
                if toks[end].t == "::":
                    end = skip_generics(toks, nxt(toks, end))
                end = match(toks, end)
                if init is None:
                    new = f"{{ let mut vx_acc: Vec<{opts['flatloop']}> = Vec::new(); for {pat} in {recv} {{ let vx_item = {body}; vx_acc.vx_extend(vx_item); }} vx_acc }}"
                    log.add("R20 E.flat_map(|p| B).collect() -> loop that appends the items of B in order")
                else:
                    stp, pat = [z.strip() for z in pat.split(",", 1)]
                    new = f"{{ let mut vx_acc = Vec::new(); let mut vx_state = {init}; for {pat} in {recv} {{ let vx_item = {{ let {stp} = &mut vx_state; {body} }}; match vx_item {{ Some(vx_x) => vx_acc.push(vx_x), None => break }} }} vx_acc }}"
                    log.add("R21 E.scan(A, |state, p| B).collect() -> loop with the state as a variable")
                toks[st:end + 1] = lex(new)
                changed = True
                break
    # R19 a for loop with `continue` over the items of a slice -> while over the positions (the verifier's for has no continue)
    changed, cnt = True, 0
    while changed:
        changed = False
        for i, t in enumerate(toks):
            if t.t != "for" or t.k != "id":
                continue
            k = i
            while toks[k].t != "in":
                if toks[k].t in OPEN:
                    k = match(toks, k)
                k += 1
            o = k
            while toks[o].t != "{":
                if toks[o].t in OPEN:
                    o = match(toks, o)
                o += 1
            c = match(toks, o)
            has = False
            q = o + 1
            while q < c:
                if toks[q].t in ("for", "while", "loop"):
                    while toks[q].t != "{":
                        if toks[q].t in OPEN:
                            q = match(toks, q)
                        q += 1
                    q = match(toks, q)
                elif toks[q].t == "continue":
                    has = True
                q += 1
            if not has:
                continue
            pat = text(toks[i + 1:k]).strip()
            E = "".join(x.t for x in toks[k + 1:o] if x.k != "com").strip()
            E = re.sub(r"\s+", " ", E)
            m = re.fullmatch(r"(.*?)\s*\.\s*iter\(\)\s*(\.\s*enumerate\(\))?", E)
            if not m:
                continue
            cnt += 1
            S = m.group(1).strip()
            pre = ""
            if not re.fullmatch(r"\w+", S):
                pre = f"let vx_s{cnt} = &{S}; "
                S = f"vx_s{cnt}"
            if m.group(2):
                pm = re.fullmatch(r"\(\s*(\w+)\s*,\s*([&\w]+)\s*\)", pat)
                if not pm:
                    continue
                ip, vp = pm.group(1), pm.group(2)
                bind = f"let {ip} = vx_i{cnt}; "
            else:
                vp, bind = pat, ""
            bind += f"let {vp[1:]} = {S}[vx_i{cnt}]; " if vp.startswith("&") else f"let {vp} = &{S}[vx_i{cnt}]; "
            new = lex(f"{{ {pre}let mut vx_i{cnt}: usize = 0; while vx_i{cnt} < {S}.len() {{ {bind}vx_i{cnt} += 1; ") + toks[o + 1:c] + lex(" } }")
            toks[i:c + 1] = new
            log.add("R19 `for p in S.iter()[.enumerate()]` with `continue` in its body -> while over the positions of S")
            changed = True
            break
    # R6 enumerate
    changed = True
    while changed:
        changed = False
        for i, t in enumerate(toks):
            if t.t == "enumerate" and toks[prv(toks, i)].t == "." and toks[nxt(toks, i)].t == "(":
                dot = prv(toks, i)
                st = operand_start(toks, dot)
                e = match(toks, nxt(toks, i))
                recv = text(toks[st:dot]).strip()
                toks[st:e + 1] = lex(f"(0usize..usize::MAX).zip({recv})")
                log.add("R6 E.enumerate() -> (0usize..usize::MAX).zip(E)")
                changed = True
                break
    # R3 casts to float
    changed = True
    while changed:
        changed = False
        for i, t in enumerate(toks):
            if t.t == "as" and t.k == "id":
                ty = toks[nxt(toks, i)].t
                if ty in ("f32", "f64", "F32", "F64"):
                    st = unary_start(toks, operand_start(toks, i))
                    e = nxt(toks, i)
                    toks[st:e + 1] = lex(f"cvt{ty[1:]}({text(toks[st:i]).strip()})")
                    log.add("R3 `E as f32/f64` -> cvt32(E)/cvt64(E)")
                    changed = True
                    break
                if opts.get("fcast") and ty in ("usize", "i64") and re.sub(r"\s+", "", text(toks[unary_start(toks, operand_start(toks, i)):i])) in opts["fcast"]:
                    st = unary_start(toks, operand_start(toks, i))
                    e = nxt(toks, i)
                    toks[st:e + 1] = lex(f"ftrunc({text(toks[st:i]).strip()})")
                    log.add("R3b float `E as usize` -> ftrunc(E)")
                    changed = True
                    break
    # R2 types, constants, literals
    for i, t in enumerate(toks):
        if t.k == "id" and t.t in FLOATS:
            toks[i] = Tok("id", FLOATS[t.t], t.line)
            log.add("R2 f32/f64 -> opaque F32/F64 with contracted operators")
    i = 0
    lit = opts.get("lit")
    while i < len(toks):
        t = toks[i]
        if t.k == "id" and t.t in ("F32", "F64"):
            a = nxt(toks, i)
            if a < len(toks) and toks[a].t == "::":
                b = nxt(toks, a)
                nm = toks[b].t
                nn = nxt(toks, b)
                if nm.isupper() and nm.isidentifier() and not (nn < len(toks) and toks[nn].t == "("):
                    ins(toks, b + 1, "()")
                elif nm == "from":
                    toks[i:b + 1] = lex("cvt" + t.t[1:])
                elif nm in ("from_u16", "from_usize"):
                    toks[i:b + 1] = lex("cvt" + t.t[1:])
        elif t.k == "flt":
            v = re.sub(r"_?f(32|64)$", "", t.t).replace("_", "")
            m = re.search(r"f(32|64)$", t.t)
            ty = "F" + m.group(1) if m else ({"f32": "F32", "f64": "F64"}[lit] if lit else None)
            from fractions import Fraction
            fr = Fraction(v if not v.endswith(".") else v + "0")
            call = f"flit{ty[1:] if ty else ''}({fr.numerator}, {fr.denominator})"
            toks[i:i + 1] = lex(call)
            log.add("R2 float literal -> flit(num, den)")
        i += 1
    return toks


# ----------------------------------------------------------------------------- weaving
def norm(s):
    return [t.t for t in lex(s) if t.k not in ("ws", "com")]


def find_seq(toks, pat, k):
    p = norm(pat)
    idx = sig(toks)
    seen = 0
    for a in range(len(idx) - len(p) + 1):
        if all(toks[idx[a + q]].t == p[q] for q in range(len(p))):
            seen += 1
            if seen == k:
                return idx[a], idx[a + len(p) - 1]
    raise Anchor(f"anchor text not found: {pat!r} (occurrence {k})")


def loops(toks):
    """list of (kw index, open brace index, close brace index)"""
    out = []
    for i, t in enumerate(toks):
        if t.k == "id" and t.t in ("for", "while", "loop"):
            n = nxt(toks, i)
            if t.t == "for" and toks[n].t == "<":
                continue
            j = n
            while toks[j].t != "{":
                if toks[j].t in ("(", "["):
                    j = match(toks, j)
                j += 1
            out.append((i, j, match(toks, j)))
    return out


def closures(toks):
    out = []
    i = 0
    for i, t in enumerate(toks):
        if t.t in ("|", "||") and t.k == "p":
            p = prv(toks, i)
            if p >= 0 and (toks[p].t in ("(", ",", "=", "=>", "{", ";", "return", "&", "move")):
                # exclude or-patterns: `|` right after `(`/`,` in a pattern is not used in this code base
                d = i
                if t.t == "|":
                    d = i + 1
                    while toks[d].t != "|":
                        if toks[d].t in OPEN:
                            d = match(toks, d)
                        d += 1
                b = nxt(toks, d)
                if toks[b].t == "->":
                    while toks[b].t != "{":
                        b += 1
                if toks[b].t == "{":
                    e = match(toks, b)
                    out.append((i, d, b, e, True))
                else:
                    e = b
                    while e < len(toks) and toks[e].t not in (",", ";") and toks[e].t not in CLOSE:
                        if toks[e].t in OPEN:
                            e = match(toks, e)
                        e += 1
                    e = prv(toks, e)
                    out.append((i, d, b, e, False))
    return out


def tail_start(toks, o, c):
    """start of the tail expression of block toks[o]=='{' .. toks[c]=='}'"""
    last = o
    i = o + 1
    while i < c:
        if toks[i].t in OPEN:
            i = match(toks, i)
        elif toks[i].t == ";":
            last = i
        i += 1
    i = nxt(toks, last)
    while i < c:
        if toks[i].t in ("for", "while", "loop", "if", "match", "unsafe", "{", "proof"):
            j = i
            while toks[j].t != "{":
                if toks[j].t in ("(", "["):
                    j = match(toks, j)
                j += 1
            e = match(toks, j)
            n = nxt(toks, e)
            while n < c and toks[n].t == "else":
                j = n
                while toks[j].t != "{":
                    if toks[j].t in ("(", "["):
                        j = match(toks, j)
                    j += 1
                e = match(toks, j)
                n = nxt(toks, e)
            if n >= c or toks[n].t in (".", "?", "+", "-", "*", "/", "as", "=="):
                return i
            i = n
        else:
            return i
    raise Anchor("no tail expression")


SEC = re.compile(r'^(spec|start|tail|header|loop \d+(?: hoist \w+)?(?: iter \w+)?|loop \d+ (?:start|end)|(?:after|before)(?: \d+)? ".*"|replace(?: \d+)? ".*"|closure \d+|addret(?: \d+)?):\s*(.*)$')


def parse_block(txt):
    head, *rest = txt.strip().split("\n")
    opts, secs, cur = {"subst": {}}, [], None
    for ln in rest:
        s = ln.strip()
        m = SEC.match(s)
        if m:
            cur = [m.group(1), [m.group(2)] if m.group(2) else []]
            secs.append(cur)
            continue
        if cur is None:
            if not s:
                continue
            w = s.split()
            if w[0] == "subst":
                for a in w[1:]:
                    k, v = a.split("=")
                    opts["subst"][k] = v
            elif w[0] == "lit":
                opts["lit"] = w[1]
            elif w[0] == "ret":
                opts["ret"] = w[1]
            elif w[0] == "rename":
                opts["rename"] = w[1]
            elif w[0] == "retty":
                opts["retty"] = s[5:].strip()
            elif w[0] == "fcast":
                opts["fcast"] = set(re.sub(r"\s+", "", z) for z in s[5:].split(";"))
            elif w[0] == "std":
                opts.setdefault("std", set()).update(x.split("=")[0] for x in w[1:])
                opts.setdefault("stdas", {}).update(x.split("=") for x in w[1:] if "=" in x)
            elif w[0] == "attr":
                opts.setdefault("attr", []).append(s[5:])
            elif w[0] == "generics":
                opts["generics"] = s[9:]
            elif w[0] == "dropstmt":
                opts.setdefault("dropstmt", []).append(s[9:].strip())
            elif w[0] == "maploop":
                opts["maploop"] = s[7:].strip() or "_"
            elif w[0] == "flatloop":
                opts["flatloop"] = s[8:].strip() or "_"
            elif w[0] == "extendcollect":
                opts["extendcollect"] = True
            elif w[0] in ("defun", "calls"):
                opts.setdefault(w[0], {}).update(z.split("=", 1) for z in w[1:])
            elif w[0] == "itermut":
                opts["itermut"] = True
            elif w[0] == "external":
                opts["external"] = True
            else:
                raise Exception("bad directive: " + s)
        else:
            cur[1].append(ln)
    return head.strip(), opts, [(a, "\n".join(b)) for a, b in secs]


class Weaver:
    def __init__(self, vacuity=False):
        self.vacuity, self.vac = vacuity, []
        self.log = set()
        self.funcs = []        # (qualified name, file, src hash, nloops)
        self.fp = {}
        self.assumed = []      # contracts used here, proved in another unit

    def fn(self, spec):
        head, opts, secs = parse_block(spec)
        parts = [p.strip() for p in head.split(" :: ")]
        f, name = parts[0], parts[-1]
        cont = parts[1] if len(parts) == 3 else ""
        it = find(f, "fn", cont, name)
        src = it.toks
        qn = f"{f}::{cont + '::' if cont else ''}{name}"
        log = set()
        # split: signature / body
        sigt, body = src[:it.body], src[it.body:] if it.body is not None else None
        # drop visibility
        s = nxt(sigt, -1)
        while sigt[s].t != "fn":
            if sigt[s].t == "pub":
                e = s
                if sigt[nxt(sigt, s)].t == "(":
                    e = match(sigt, nxt(sigt, s))
                del sigt[s:e + 1]
                s = nxt(sigt, s - 1)
            else:
                s = nxt(sigt, s)
        # generics
        nm = nxt(sigt, s)
        g = nxt(sigt, nm)
        if sigt[g].t == "<" and (opts["subst"] or "generics" in opts):
            e = skip_generics(sigt, g)
            gtxt = text(sigt[g:e])
            sigt[g:e] = lex(opts.get("generics", ""))
        if opts["subst"]:
            # where clause
            for i, t in enumerate(sigt):
                if t.t == "where":
                    del sigt[i:]
                    break
        for d in opts.get("dropstmt", []):
            a, b = find_seq(body, d, 1)
            # extend to end of statement
            k = a
            while body[k].t != ";":
                if body[k].t in OPEN:
                    k = match(body, k)
                k += 1
            del body[a:k + 1]
            log.add(f"DROP statement starting `{d}`")
        sigt = rewrite(sigt, opts, log)
        nm = nxt(sigt, next(i for i, t in enumerate(sigt) if t.t == "fn"))
        if "rename" in opts:
            sigt[nm] = Tok("id", opts["rename"], 0)
        # return name
        ret = opts.get("ret", "r")
        # find parameter list close
        i = nxt(sigt, nm)
        if sigt[i].t == "<":
            i = skip_generics(sigt, i)
        pe = match(sigt, i)
        a = nxt(sigt, pe)
        if a < len(sigt) and sigt[a].t == "->":
            b = nxt(sigt, a)
            end = len(sigt)
            for k in range(b, len(sigt)):
                if sigt[k].t == "where":
                    end = k
                    break
            ty = opts.get("retty") or text(sigt[b:end]).strip()
            if "retty" in opts:
                log.add(f"R14 {name}: iterator value -> vector of its items ({ty})")
            sigt[b:end] = lex(f"({ret}: {ty}) ")
        body = rewrite(body, opts, log)
        if not opts.get("external"):
          self.fp[qn] = {
            "hash": hashlib.sha256(" ".join(norm(text(src))).encode()).hexdigest()[:16],
            "loops": [" ".join(norm(text(body[a:b]))) for a, b, c in loops(body)],
            "calls": sorted({body[i].t for i in range(len(body)) if body[i].k == "id" and nxt(body, i) < len(body) and body[nxt(body, i)].t == "(" and body[i].t not in KEYWORDS}),
        }
        edits = []  # (token index, text)   inserted before token index
        L = loops(body)
        C = closures(body)
        spec_txt = ""
        repl = []
        for sec, t in secs:
            if opts.get("external") and sec != "spec":
                continue
            if sec == "spec":
                spec_txt = t
            elif sec == "start":
                edits.append((1, "\n" + t + "\n"))
            elif sec == "tail" and "ret" not in opts and not any(x.t == "->" for x in sigt):
                edits.append((len(body) - 1, f"\n{t}\n"))
            elif sec == "tail":
                ts = tail_start(body, 0, len(body) - 1)
                edits.append((ts, f"let {ret}__ = {{ "))
                edits.append((len(body) - 1, f" }};\n let ghost {ret} = {ret}__;\n{t}\n {ret}__ "))
            elif sec.startswith("loop"):
                w = sec.split()
                n = int(w[1])
                if n > len(L):
                    raise Anchor(f"{qn}: loop {n} not found")
                kw, o, c = L[n - 1]
                if "hoist" in w:
                    z = w[w.index("hoist") + 1]
                    k = kw
                    while body[k].t != "in":
                        if body[k].t in OPEN:
                            k = match(body, k)
                        k += 1
                    ex = nxt(body, k)
                    E = text(body[ex:o]).strip()
                    edits.append((kw, f"let {z} = {E};\nlet ghost {z}_s = vstd::std_specs::iter::IteratorSpec::remaining(&{z});\n"))
                    repl.append((ex, o - 1, f"{w[w.index('iter') + 1]}: {z} "))
                    edits.append((o, "\n" + t + "\n"))
                    log.add("R13 `for p in E` -> `let z = E; for p in z` (name the iterator)")
                elif len(w) == 3:
                    if w[2] == "start":
                        edits.append((o + 1, "\n" + t + "\n"))
                    else:
                        p = prv(body, c)
                        semi = "" if body[p].t in (";", "}", "{") else ";"
                        edits.append((c, semi + "\n" + t + "\n"))
                else:
                    if len(w) == 4:
                        k = kw
                        while body[k].t != "in":
                            if body[k].t in OPEN:
                                k = match(body, k)
                            k += 1
                        edits.append((nxt(body, k), f"{w[3]}: "))
                    edits.append((o, "\n" + t + "\n"))
            elif sec.startswith("after") or sec.startswith("before") or sec.startswith("replace"):
                m = re.match(r'(after|before|replace)(?: (\d+))? "(.*)"$', sec)
                a, b = find_seq(body, m.group(3), int(m.group(2) or 1))
                if m.group(1) == "replace":
                    repl.append((a, b, t))
                    log.add(f"WEAVE replace `{m.group(3)}` by `{t.strip()}`")
                else:
                    edits.append((b + 1 if m.group(1) == "after" else a, "\n" + t + "\n"))
            elif sec.startswith("closure"):
                n = int(sec.split()[1])
                if n > len(C):
                    raise Anchor(f"{qn}: closure {n} not found")
                a, d, b, e, blk = C[n - 1]
                src_ids = [x.t for x in body[a:d] if x.k == "id" and x.t not in ("mut", "ref", "F64", "F32")]
                new_ids = [x.t for x in lex(t) if x.k == "id"]
                let = ""
                if new_ids and re.fullmatch(r"p\d*__", new_ids[0]):
                    pats, st = [], a + 1
                    k = a + 1
                    while k < d:
                        if body[k].t in OPEN:
                            k = match(body, k)
                        elif body[k].t == ",":
                            pats.append(text(body[st:k]).strip()); st = k + 1
                        k += 1
                    pats.append(text(body[st:d]).strip())
                    ns = [x for x in new_ids if re.fullmatch(r"p\d*__", x)]
                    ns = list(dict.fromkeys(ns))
                    if len(ns) != len(pats):
                        raise Anchor(f"{qn}: closure {n} has {len(pats)} parameters")
                    for pt, nn in zip(pats, ns):
                        let += f"let {pt[1:]} = *{nn}; " if re.fullmatch(r"&\w+", pt) else f"let {pt} = {nn}; "
                    log.add("R16 closure parameter pattern |(a, b)| -> |p| { let (a, b) = p; .. }")
                else:
                    for x in src_ids:
                        if x not in new_ids:
                            raise Anchor(f"{qn}: closure {n} parameter {x} not covered by its contract")
                if blk and let:
                    repl.append((a, b, t + " { " + let))
                else:
                    repl.append((a, b - 1, t + " " + ("" if blk else "{ " + let)))
                if not blk:
                    edits.append((e + 1, " }"))
        # apply replacements as edits on token list
        out = []
        rep = {a: (b, t) for a, b, t in repl}
        ed = {}
        for i, t in edits:
            ed.setdefault(i, []).append(t)
        i = 0
        while i < len(body):
            for t in ed.get(i, []):
                out.append(t)
            if i in rep:
                b, t = rep[i]
                out.append(t)
                i = b + 1
                continue
            out.append(body[i].t)
            i += 1
        for t in ed.get(len(body), []):
            out.append(t)
        if not opts.get("external") and body:
            self.vac.append(qn)
            if self.vacuity:
                out = ["{ proof { assert(false); } vx_diverge() }"]
        self.log |= log
        attrs = "".join(a + "\n" for a in opts.get("attr", []))
        return qn, attrs + text(sigt).rstrip() + "\n" + spec_txt + "\n" + ("{ unimplemented!() }" if opts.get("external") else "".join(out)) + "\n"

    def typ(self, kind, spec):
        head, opts, secs = parse_block(spec)
        parts = [p.strip() for p in head.split(" :: ")]
        it = find(parts[0], kind, "", parts[1])
        toks = list(it.toks)
        derives = [d for d in re.findall(r"derive\(([^)]*)\)", text(toks))]
        keep = [d for d in ("Clone", "Copy") if any(d in x for x in derives)]
        toks = rewrite(toks, opts, self.log)
        t = text(toks)
        t = re.sub(r"\bpub\s*(\([^)]*\))?\s*", "", t)
        if kind == "struct" and "{" in t:
            h, b = t.split("{", 1)
            b = re.sub(r"(?m)^(\s*)([A-Za-z_]\w*\s*:)", r"\1pub \2", b)
            t = h + "{" + b
        elif kind == "struct":
            t = re.sub(r"\(", "(pub ", t)
        self.log.add("R0 attributes, visibility, derives (except Clone/Copy) and doc comments dropped")
        d = f"#[derive({', '.join(keep)})]\n" if keep and not opts.get("noderive") and "noderive" not in opts.get("attr", []) else ""
        return f"{parts[0]}::{parts[1]}", d + "pub " + t.strip() + "\n"


def prelude():
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "verus")
    p = open(os.path.join(d, "prelude.rs")).read()
    # instantiate the float block for both widths
    m = re.search(r"//@FLOAT-BEGIN\n(.*?)//@FLOAT-END\n", p, re.S)
    blk = m.group(1)
    return p.replace(m.group(0), blk.replace("FXX", "F32").replace("fXX", "f32").replace("@W@", "32") + blk.replace("FXX", "F64").replace("fXX", "f64").replace("@W@", "64"))


def weave(unit_path, vacuity=False):
    """returns (text, weaver, [(first line, last line, qualified name)])"""
    d = os.path.dirname(os.path.abspath(unit_path))
    src = open(unit_path).read()
    lemmas = []
    def inc(m):
        return open(os.path.join(d, m.group(1).strip())).read()
    def assume(m):
        # functions proved in another unit of the same property: their contracts are used, their bodies are not checked again
        t = inc(m)
        for _ in range(4):
            t = re.sub(r"/\*@include ([^*]*)\*/", inc, t)
        t = re.sub(r"(/\*@fn [^\n*]*)\*/", r"\1\n*/", t)
        t = re.sub(r"(/\*@fn [^\n]*\n)", r"\1external\nattr #[verifier::external_body ]\n", t)
        lemmas.extend(re.findall(r"(?m)^\s*(?:pub )?(?:broadcast )?proof fn (\w+)", t))
        return re.sub(r"(?m)^(\s*)((?:pub )?(?:broadcast )?proof fn )", r"\1#[verifier::external_body ] \2", t)
    for _ in range(4):
        src = re.sub(r"/\*@assume ([^*]*)\*/", assume, src)
        src = re.sub(r"/\*@include ([^*]*)\*/", inc, src)
    w = Weaver(vacuity)
    w.assumed_lemmas = sorted(set(lemmas))
    src = src.replace("/*@prelude*/", prelude())
    out, pos, spans = "", 0, []
    for m in re.finditer(r"/\*@(fn|struct|enum|const|type) (.*?)\*/", src, re.S):
        out += src[pos:m.start()]
        pos = m.end()
        if m.group(1) == "fn":
            qn, t = w.fn(m.group(2))
            a = out.count("\n") + 1
            out += t
            if qn in w.fp:
                spans.append((a, out.count("\n") + 1, qn))
                w.funcs.append(qn)
            else:
                w.assumed.append(qn)
        else:
            qn, t = w.typ(m.group(1), m.group(2))
            out += t
    out += src[pos:]
    if vacuity:
        # only reachability of the entries is asked here: the lemmas are not proved again
        out = re.sub(r"(?m)^(\s*)((?:pub )?(?:broadcast )?proof fn )", r"\1#[verifier::external_body] \2", out)
    return out, w, spans


if __name__ == "__main__":
    t, w, spans = weave(sys.argv[1])
    if len(sys.argv) > 2:
        open(sys.argv[2], "w").write(t)
    else:
        print(t)
    for l in sorted(w.log):
        print("//", l, file=sys.stderr)
