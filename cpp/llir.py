"""Parser for the textual LLVM IR (opaque pointers) that clang 18 emits at -O0."""
import re

TOK = re.compile(r'''\s*(?:(c"(?:[^"\\]|\\.)*")|([%@$](?:"(?:[^"\\]|\\.)*"|[-\w.$]+))|("(?:[^"\\]|\\.)*")|(![\w.]*)|(\#\d+)|(-?\d+\.\d+(?:e[+-]?\d+)?|0x[KMLHR]?[0-9A-Fa-f]+|-?\d+)|([A-Za-z_][\w.]*)|(\.\.\.|<\{|\}>|[\[\]{}()<>,=*:|]))''')

def tokens(line):
    out, i, n = [], 0, len(line)
    while i < n:
        m = TOK.match(line, i)
        if not m or m.end() == i:
            if line[i:].strip() == "" or line[i:].lstrip().startswith(";"):
                break
            raise SyntaxError(f"cannot tokenize: {line[i:i+60]!r}")
        out.append(m.group(m.lastindex))
        i = m.end()
        if out[-1].startswith(";"):
            break
    return out

def unq(s):
    return s[0] + unesc(s[2:-1]) if len(s) > 1 and s[1] == '"' else s

def unesc(s):
    return re.sub(r"\\([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), s)

# ---- types ---------------------------------------------------------------------------------------------------
# ("i",n) ("ptr",) ("void",) ("f",bits) ("arr",n,t) ("st",(t..),packed) ("named",name) ("vec",n,t) ("fn",) ("label",) ("metadata",)
class P:
    def __init__(s, toks):
        s.t, s.i = toks, 0
    def peek(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else None
    def next(s):
        s.i += 1
        return s.t[s.i - 1]
    def eat(s, x):
        if s.peek() == x:
            s.i += 1
            return True
        return False
    def need(s, x):
        if not s.eat(x):
            raise SyntaxError(f"expected {x!r}, got {s.peek()!r} in {' '.join(s.t)[:400]}")
    def skip_parens(s):
        s.need("(")
        d = 1
        while d:
            x = s.next()
            d += (x == "(") - (x == ")")

FL = {"float": 32, "double": 64, "half": 16, "x86_fp80": 80}
def ptype(p):
    x = p.next()
    if x == "ptr":
        t = ("ptr",)
        if p.peek() == "addrspace":
            p.next(); p.skip_parens()
    elif x == "void": t = ("void",)
    elif x == "label": t = ("label",)
    elif x == "metadata": t = ("metadata",)
    elif x == "token": t = ("token",)
    elif x in FL: t = ("f", FL[x])
    elif x[0] == "i" and x[1:].isdigit(): t = ("i", int(x[1:]))
    elif x[0] == "%": t = ("named", unq(x))
    elif x == "[":
        n = int(p.next()); p.need("x"); e = ptype(p); p.need("]"); t = ("arr", n, e)
    elif x == "<":
        n = int(p.next()); p.need("x"); e = ptype(p); p.need(">"); t = ("vec", n, e)
    elif x in ("{", "<{"):
        end = "}" if x == "{" else "}>"
        es = []
        if not p.eat(end):
            while True:
                es.append(ptype(p))
                if not p.eat(","): break
            p.need(end)
        t = ("st", tuple(es), x == "<{")
    elif x == "opaque": t = ("opaque",)
    else:
        raise SyntaxError(f"type {x!r} in {' '.join(p.t)[:200]}")
    while p.peek() == "(":      # function type
        p.skip_parens()
        t = ("fn", t)
    return t

ATTRW = {"noundef", "nonnull", "signext", "zeroext", "inreg", "noalias", "nocapture", "returned", "readonly", "writeonly", "readnone", "immarg",
         "nest", "swiftself", "dead_on_unwind", "writable", "allocalign", "allocptr", "nofree", "noreturn", "unnamed_addr", "local_unnamed_addr", "dso_local",
         "fastcc", "ccc", "coldcc", "hidden", "nofpclass", "inrange"}
ATTRP = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "elementtype", "captures", "inalloca", "preallocated", "range", "addrspace", "nofpclass", "initializes"}
def attrs(p):
    got = {}
    while True:
        x = p.peek()
        if x in ATTRW:
            p.next()
            got[x] = True
            if x == "inrange" and p.peek() == "(":
                p.skip_parens()
        elif x in ATTRP:
            p.next()
            if p.peek() == "(":
                if x in ("byval", "sret"):
                    p.need("("); got[x] = ptype(p); p.need(")")
                else:
                    p.skip_parens(); got[x] = True
            elif x == "align":
                p.next()
        elif x and x[0] == '"':   # string attribute
            p.next()
            if p.eat("="): p.next()
        else:
            return got

CONSTBIN = {"add", "sub", "mul", "xor", "and", "or", "shl", "lshr", "ashr"}
def pvalue(p, t):
    """value of type t"""
    x = p.next()
    if x[0] == "%": return ("l", unq(x))
    if x[0] == "@": return ("g", unq(x))
    if x in ("null", "false"): return ("c", 0)
    if x == "true": return ("c", 1)
    if x == "none": return ("c", 0)
    if x == "zeroinitializer": return ("zero", t)
    if x in ("undef", "poison"): return ("undef", t)
    if x[:2] == 'c"':
        return ("bytes", unesc(x[2:-1]).encode("latin-1"))
    if x in ("getelementptr",):
        while p.peek() in ("inbounds", "nuw", "nusw", "inrange"):
            if p.next() == "inrange" and p.peek() == "(": p.skip_parens()
        p.need("(")
        st = ptype(p); p.need(",")
        bt = ptype(p); base = pvalue(p, bt)
        idx = []
        while p.eat(","):
            attrs(p)
            it = ptype(p); idx.append((it, pvalue(p, it)))
        p.need(")")
        return ("cgep", st, base, idx)
    if x in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "sext"):
        p.need("("); ft = ptype(p); v = pvalue(p, ft); p.need("to"); tt = ptype(p); p.need(")")
        return ("ccast", x, ft, v, tt)
    if x in CONSTBIN:
        while p.peek() in ("nuw", "nsw", "exact"): p.next()
        p.need("("); a_t = ptype(p); a = pvalue(p, a_t); p.need(","); b_t = ptype(p); b = pvalue(p, b_t); p.need(")")
        return ("cbin", x, a_t, a, b)
    if x in ("{", "<{", "["):
        end = {"{": "}", "<{": "}>", "[": "]"}[x]
        vs = []
        if not p.eat(end):
            while True:
                et = ptype(p); vs.append((et, pvalue(p, et)))
                if not p.eat(","): break
            p.need(end)
        return ("agg", vs)
    if t[0] == "f":
        import struct
        if x.startswith("0x"):
            bits = int(x[2:], 16)
            if t[1] == 32:
                return ("c", struct.unpack("<I", struct.pack("<f", struct.unpack("<d", struct.pack("<Q", bits))[0]))[0])
            return ("c", bits)
        return ("c", struct.unpack("<Q" if t[1] == 64 else "<I", struct.pack("<d" if t[1] == 64 else "<f", float(x)))[0])
    if re.fullmatch(r"-?\d+", x):
        return ("c", int(x) & ((1 << (t[1] if t[0] == "i" else 64)) - 1))
    if x == "blockaddress" or x == "dso_local_equivalent":
        raise SyntaxError(x)
    raise SyntaxError(f"value {x!r} in {' '.join(p.t)[:300]}")

class Fn:
    __slots__ = ("name", "ret", "params", "blocks", "entry", "attrs", "varargs", "text", "order")

class Module:
    def __init__(s):
        s.types, s.globals, s.fns, s.decls, s.attrs, s.alias = {}, {}, {}, {}, {}, {}
        s.szcache = {}
    def res(s, t):
        while t[0] == "named":
            t = s.types[t[1]]
        return t
    def size_align(s, t):
        r = s.szcache.get(t)
        if r is None:
            r = s.szcache[t] = s._sa(t)
        return r
    def _sa(s, t):
        t = s.res(t)
        k = t[0]
        if k == "i":
            b = 1
            while b * 8 < t[1]: b *= 2
            return (b, min(b, 16))
        if k == "ptr" or k == "fn": return (8, 8)
        if k == "f":
            return {16: (2, 2), 32: (4, 4), 64: (8, 8), 80: (16, 16)}[t[1]]
        if k == "arr":
            z, a = s.size_align(t[2]); return (z * t[1], a)
        if k == "vec":
            z, a = s.size_align(t[2]); return (z * t[1], z * t[1])
        if k == "st":
            o, al = 0, 1
            for e in t[1]:
                z, a = s.size_align(e)
                if t[2]: a = 1
                o = -(-o // a) * a + z
                al = max(al, a)
            return (-(-o // al) * al, al)
        if k == "opaque": return (64, 8)
        raise TypeError(t)
    def size(s, t): return s.size_align(t)[0]
    def field(s, t, i):
        """offset and type of element i of aggregate type t"""
        t = s.res(t)
        if t[0] in ("arr", "vec"): return s.size(t[2]) * i, t[2]
        o = 0
        for k, e in enumerate(t[1]):
            z, a = s.size_align(e)
            if t[2]: a = 1
            o = -(-o // a) * a
            if k == i: return o, e
            o += z
        raise IndexError(i)
    def count(s, t):
        t = s.res(t)
        return t[1] if t[0] in ("arr", "vec") else len(t[1])

LINK = {"private", "internal", "available_externally", "linkonce", "weak", "common", "appending", "extern_weak", "linkonce_odr", "weak_odr", "external",
        "dso_local", "hidden", "default", "protected", "unnamed_addr", "local_unnamed_addr", "thread_local", "constant", "global", "externally_initialized"}

def parse(text):
    m = Module()
    lines = text.split("\n")
    i, n = 0, len(lines)
    while i < n:
        L = lines[i]
        i += 1
        if not L or L[0] in ";!$" or L.startswith(("source_filename", "target ", "module asm")):
            continue
        if L[0] == "%":
            p = P(tokens(L)); name = unq(p.next()); p.need("="); p.need("type")
            m.types[name] = ptype(p)
        elif L[0] == "@":
            p = P(tokens(L)); name = unq(p.next()); p.need("=")
            kinds = set()
            while p.peek() in LINK:
                w = p.next(); kinds.add(w)
                if w == "thread_local" and p.peek() == "(": p.skip_parens()
                if w in ("constant", "global"): break
            if p.peek() == "alias":
                p.next(); ptype(p); p.need(","); t = ptype(p); v = pvalue(p, t)
                m.alias[name] = v[1]
                continue
            t = ptype(p)
            init = None
            if "external" not in kinds and "extern_weak" not in kinds:
                init = pvalue(p, t)
            m.globals[name] = (t, init, "constant" in kinds, "external" in kinds or "extern_weak" in kinds)
        elif L.startswith("attributes"):
            mm = re.match(r"attributes (#\d+) = \{(.*)\}", L)
            m.attrs[mm.group(1)] = mm.group(2).split()
        elif L.startswith("declare"):
            f = phead(P(tokens(L[7:])))
            m.decls[f.name] = f
        elif L.startswith("define"):
            f = phead(P(tokens(L[6:])))
            body = []
            while lines[i] != "}":
                if lines[i] and not lines[i].lstrip().startswith(";"):
                    body.append(lines[i])
                i += 1
            i += 1
            f.text = body
            f.blocks = None
            m.fns[f.name] = f
    return m

def phead(p):
    f = Fn()
    f.attrs = []
    while p.peek() in LINK or p.peek() in ATTRW or p.peek() in ATTRP or p.peek()[0] == '"':
        if p.peek() in LINK: p.next()
        else: attrs(p)
    f.ret = ptype_nofn(p)
    f.name = unq(p.next())
    p.need("(")
    f.params, f.varargs = [], False
    while not p.eat(")"):
        if p.eat("..."):
            f.varargs = True
            continue
        t = ptype(p); a = attrs(p)
        nm = unq(p.next()) if p.peek() and p.peek()[0] == "%" else None
        f.params.append((t, nm, a))
        p.eat(",")
    while p.peek():
        x = p.next()
        if x[0] == "#": f.attrs.append(x)
        if x == "personality": break
    return f

def ptype_nofn(p):
    """a return type: stop before the callee name"""
    return ptype(p)

def body(m, f):
    """parse lazily"""
    if f.blocks is not None:
        return
    # join continuation lines
    joined = []
    for L in f.text:
        if joined and (L.startswith("          ") or joined[-1].count("[") > joined[-1].count("]") and joined[-1].lstrip().startswith("switch")):
            joined[-1] += " " + L.strip()
        else:
            joined.append(L)
    f.blocks, cur, f.order = {}, None, []
    for L in joined:
        lm = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):', L)
        if lm:
            nm = "%" + lm.group(1).strip('"')
            cur = f.blocks[nm] = []
            f.order.append(nm)
            continue
        if cur is None:
            # unnamed entry block: numbered after the parameters
            k = sum(1 for (_, nm, _) in f.params if nm is None or nm[1:].isdigit())
            cur = f.blocks["%%%d" % k] = []
            f.order.append("%%%d" % k)
        cur.append(pinst(P(tokens(re.sub(r", !\w.*$", "", L)))))
    f.entry = f.order[0]
    # unnamed parameters
    k = 0
    ps = []
    for t, nm, a in f.params:
        if nm is None:
            nm = "%%%d" % k
            k += 1
        elif nm[1:].isdigit():
            k = int(nm[1:]) + 1
        ps.append((t, nm, a))
    f.params = ps

FLAGS = {"nsw", "nuw", "exact", "disjoint", "nneg", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "inbounds", "volatile", "atomic", "samesign", "nusw"}
BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui"}
def tv(p):
    t = ptype(p)
    attrs(p)
    return (t, pvalue(p, t))

def pinst(p):
    dst = None
    if p.peek(1) == "=":
        dst = unq(p.next()); p.next()
    op = p.next()
    if op in ("tail", "musttail", "notail"): op = p.next()
    fl = set()
    if op == "ret":
        t = ptype(p)
        return ("ret", None if t[0] == "void" else (t, pvalue(p, t)))
    if op == "br":
        if p.peek() == "label":
            p.next(); return ("br", unq(p.next()))
        c = tv(p); p.need(","); p.need("label"); a = unq(p.next()); p.need(","); p.need("label"); b = unq(p.next())
        return ("cbr", c, a, b)
    if op == "switch":
        c = tv(p); p.need(","); p.need("label"); d = unq(p.next()); p.need("[")
        cs = []
        while not p.eat("]"):
            t = ptype(p); v = pvalue(p, t); p.need(","); p.need("label"); cs.append((v[1], unq(p.next())))
        return ("switch", c, d, cs)
    if op == "unreachable": return ("unreachable",)
    if op == "resume": return ("resume", tv(p))
    while p.peek() in FLAGS: fl.add(p.next())
    if op in BIN:
        t = ptype(p); a = pvalue(p, t); p.need(","); b = pvalue(p, t)
        return ("bin", dst, op, fl, t, a, b)
    if op == "fneg":
        return ("fneg", dst, tv(p))
    if op in ("icmp", "fcmp"):
        pred = p.next(); t = ptype(p); a = pvalue(p, t); p.need(","); b = pvalue(p, t)
        return (op, dst, pred, t, a, b)
    if op in CAST:
        t = ptype(p); v = pvalue(p, t); p.need("to"); t2 = ptype(p)
        return ("cast", dst, op, t, v, t2)
    if op == "alloca":
        if p.peek() == "inalloca": p.next()
        t = ptype(p); cnt = None
        if p.eat(","):
            if p.peek() != "align":
                cnt = tv(p)
        return ("alloca", dst, t, cnt)
    if op == "load":
        t = ptype(p); p.need(","); a = tv(p)
        return ("load", dst, t, a[1])
    if op == "store":
        v = tv(p); p.need(","); a = tv(p)
        return ("store", v, a[1])
    if op == "getelementptr":
        t = ptype(p); p.need(","); b = tv(p); idx = []
        while p.eat(","): idx.append(tv(p))
        return ("gep", dst, t, b[1], idx)
    if op == "phi":
        t = ptype(p); arms = []
        while True:
            p.need("["); v = pvalue(p, t); p.need(","); l = unq(p.next()); p.need("]"); arms.append((v, l))
            if not p.eat(","): break
        return ("phi", dst, t, arms)
    if op == "select":
        c = tv(p); p.need(","); a = tv(p); p.need(","); b = tv(p)
        return ("select", dst, c, a, b)
    if op == "extractvalue":
        a = tv(p); idx = []
        while p.eat(","): idx.append(int(p.next()))
        return ("extractvalue", dst, a, idx)
    if op == "insertvalue":
        a = tv(p); p.need(","); b = tv(p); idx = []
        while p.eat(","): idx.append(int(p.next()))
        return ("insertvalue", dst, a, b, idx)
    if op == "freeze":
        return ("freeze", dst, tv(p))
    if op == "landingpad":
        ptype(p); cl = []
        cleanup = False
        while p.peek():
            x = p.next()
            if x == "cleanup": cleanup = True
            elif x == "catch": cl.append(("catch", tv(p)[1]))
            elif x == "filter":
                t = ptype(p); cl.append(("filter", pvalue(p, t)))
            else: raise SyntaxError(x)
        return ("landingpad", dst, cleanup, cl)
    if op in ("call", "invoke"):
        attrs(p)
        rt = ptype(p)
        if rt[0] == "fn": rt = rt[1]
        callee = pvalue(p, ("ptr",))
        p.need("(")
        args = []
        while not p.eat(")"):
            t = ptype(p)
            if t[0] == "metadata":
                while p.peek() not in (",", ")"): p.next()
                args.append((t, ("c", 0), {}))
            else:
                a = attrs(p); args.append((t, pvalue(p, t), a))
            p.eat(",")
        at = []
        normal = unwind = None
        while p.peek():
            x = p.next()
            if x[0] == "#": at.append(x)
            elif x == "to": p.need("label"); normal = unq(p.next())
            elif x == "unwind": p.need("label"); unwind = unq(p.next())
        return ("call", dst, rt, callee, args, at, normal, unwind)
    if op == "atomicrmw":
        o = p.next(); a = tv(p); p.need(","); v = tv(p)
        return ("atomicrmw", dst, o, a[1], v)
    if op == "cmpxchg":
        if p.peek() == "weak": p.next()
        a = tv(p); p.need(","); e = tv(p); p.need(","); v = tv(p)
        return ("cmpxchg", dst, a[1], e, v)
    if op == "fence": return ("nop",)
    if op in ("extractelement", "insertelement", "shufflevector"):
        return ("unsupported", op)
    raise SyntaxError(f"instruction {op!r}: {' '.join(p.t)[:200]}")
