"""Verification-condition generator for LLVM IR: explores every path of a contract
harness symbolically and discharges each obligation with Z3.

Obligations: every vassert, every memory access (inside a live object), no `unreachable`,
no failed C++ assert(), no escaping exception / std::terminate, no double or invalid free.
Loops have no invariants: a loop whose trip count is symbolic is explored until infeasible,
and a harness which exceeds the step or fork limits is reported as not discharged."""
import bisect, time, z3
import llir

M64 = (1 << 64) - 1
class Violation(Exception):
    def __init__(s, msg, model=None, state=None):
        s.msg, s.model, s.state = msg, model, state
class Limit(Exception): pass
class PathEnd(Exception): pass

def isc(v): return type(v) is int
def bv(v, w):
    if type(v) is int: return z3.BitVecVal(v, w)
    if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v
def tobool(v):
    if type(v) is int: return bool(v & 1)
    if z3.is_bool(v): return v
    return v == z3.BitVecVal(1, v.size())
def simp(v):
    if type(v) is int: return v
    v = z3.simplify(v)
    if z3.is_bv_value(v): return v.as_long()
    if z3.is_true(v): return 1
    if z3.is_false(v): return 0
    return v
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v

class Obj:
    __slots__ = ("base", "size", "cells", "own", "arr", "kind", "gen", "name", "ro")
    def __init__(s, base, size, kind, gen, name):
        s.base, s.size, s.kind, s.gen, s.name = base, size, kind, gen, name
        s.cells, s.own, s.arr, s.ro = {}, {}, None, False
    def clone(s, gen):
        o = Obj(s.base, s.size, s.kind, gen, s.name)
        o.cells, o.own, o.arr, o.ro = dict(s.cells), dict(s.own), s.arr, s.ro
        return o

class Frame:
    __slots__ = ("fn", "block", "prev", "ip", "regs", "allocas", "dst", "normal", "unwind", "rt", "nounwind")
    def clone(s):
        f = Frame()
        for k in Frame.__slots__: setattr(f, k, getattr(s, k))
        f.regs, f.allocas = dict(s.regs), list(s.allocas)
        return f

class State:
    __slots__ = ("frames", "objs", "bases", "next", "pc", "gen", "exc", "excobjs", "nondets", "expect_term", "trace", "selector", "uncaught", "model", "steps", "ghost")

GEN = [0]
def newgen():
    GEN[0] += 1
    return GEN[0]

EXT_TI = {"@_ZTISt12out_of_range": "@_ZTISt11logic_error", "@_ZTISt16invalid_argument": "@_ZTISt11logic_error", "@_ZTISt12length_error": "@_ZTISt11logic_error",
          "@_ZTISt11logic_error": "@_ZTISt9exception", "@_ZTISt13runtime_error": "@_ZTISt9exception", "@_ZTISt9bad_alloc": "@_ZTISt9exception",
          "@_ZTISt12bad_weak_ptr": "@_ZTISt9exception", "@_ZTISt20bad_array_new_length": "@_ZTISt9bad_alloc"}

class Exec:
    def __init__(s, mod, max_steps=400000, max_paths=4000, deadline=None):
        s.m = mod
        s.solver = z3.Solver()
        s.solver.set("timeout", 60000)
        s.faddr, s.addrf, s.gaddr = {}, {}, {}
        s.max_steps, s.max_paths, s.deadline = max_steps, max_paths, deadline
        s.stats = dict(paths=0, steps=0, asserts=0, accesses=0, queries=0, solver_s=0.0, fns=set(), covers=set(), stubs=set(), nounwind=0)
        s.fresh_n = 0
        s.contracts = {n[len("@contract$"):]: n for n in mod.fns if n.startswith("@contract$")}

    # ---- solver ----
    def check(s, st, *extra):
        """sat? with a model kept"""
        if s.deadline and time.time() > s.deadline: raise Limit("time budget exhausted")
        s.stats["queries"] += 1
        t = time.time()
        s.solver.push()
        for c in st.pc: s.solver.add(c)
        for c in extra: s.solver.add(c)
        r = s.solver.check()
        model = s.solver.model() if r == z3.sat else None
        s.solver.pop()
        s.stats["solver_s"] += time.time() - t
        if r == z3.unknown: raise Limit("solver gave no verdict")
        return model
    def feasible(s, st, c):
        if st.model is not None and z3.is_true(st.model.eval(c, model_completion=True)):
            return st.model
        return s.check(st, c)
    def assume(s, st, c):
        c = simp(tobool(c)) if not isc(c) else c
        if isc(c):
            if not c: raise PathEnd()
            return
        m = s.feasible(st, c)
        if m is None: raise PathEnd()
        st.pc = st.pc + (c,)
        st.model = m
    def prove(s, st, c, msg):
        c = simp(tobool(c)) if not isc(c) else c
        if isc(c):
            if not c: raise Violation(msg, s.check(st), st)
            return
        m = s.check(st, z3.Not(c))
        if m is not None: raise Violation(msg, m, st)
        st.pc = st.pc + (c,)
    def fresh(s, w, name="v"):
        s.fresh_n += 1
        return z3.BitVec(f"{name}!{s.fresh_n}", w)

    # ---- memory ----
    def alloc(s, st, size, kind, name=""):
        base = (st.next + 0x10f) & ~0xff
        o = Obj(base, size, kind, st.gen, name)
        if not isc(size):
            s.fresh_n += 1
            o.arr = (z3.Array(f"mem!{s.fresh_n}", z3.BitVecSort(64), z3.BitVecSort(8)), ())
            st.next = base + (1 << 40)
        else:
            st.next = base + max(size, 1)
        st.objs = dict(st.objs); st.objs[base] = o
        st.bases = st.bases + [base] if not st.bases or base > st.bases[-1] else sorted(st.bases + [base])
        return o
    def free(s, st, base):
        st.objs = dict(st.objs); del st.objs[base]
        st.bases = [b for b in st.bases if b != base]
    def writable(s, st, o):
        if o.gen != st.gen:
            o = o.clone(st.gen)
            st.objs = dict(st.objs); st.objs[o.base] = o
        return o
    def at(s, st, addr):
        """object whose base is the greatest <= addr"""
        k = bisect.bisect_right(st.bases, addr) - 1
        return st.objs[st.bases[k]] if k >= 0 else None
    def resolve(s, st, addr, n, what):
        """-> (obj, offset) with the access proved inside the object; offset may be symbolic only for array objects"""
        s.stats["accesses"] += 1
        addr = simp(addr)
        if not isc(addr):
            # unique value under the path condition?
            model = st.model or s.check(st)
            v = model.eval(addr, model_completion=True).as_long()
            o = s.at(st, v)
            if o is None or (isc(o.size) and v + n > o.base + o.size):
                raise Violation(f"{what}: access of {n} bytes outside every live object", model, st)
            off = simp(addr - z3.BitVecVal(o.base, 64))
            if isc(o.size):
                inb = z3.And(z3.UGE(addr, o.base), z3.ULE(addr, o.base + o.size - n)) if o.size >= n else z3.BoolVal(False)
            else:
                inb = z3.And(z3.ULE(off, o.size), z3.ULE(z3.BitVecVal(n, 64), o.size - off))
            if not z3.is_true(model.eval(inb, model_completion=True)):
                raise Violation(f"{what}: access of {n} bytes outside every live object", model, st)
            if s.check(st, z3.Not(inb)) is not None:
                # may be elsewhere: split on this object / the rest
                raise Fork([inb, z3.Not(inb)])
            if o.arr is not None:
                return o, off
            if s.check(st, addr != v) is None:
                st.pc = st.pc + (addr == v,)
                return o, v - o.base
            raise Fork([addr == v, addr != v])
        o = s.at(st, addr)
        if o is None: raise Violation(f"{what}: invalid address {addr:#x}", s.check(st), st)
        off = addr - o.base
        if isc(o.size):
            if off + n > o.size:
                raise Violation(f"{what}: {n} bytes at {addr:#x}: outside {o.kind} object {o.name} [{o.base:#x},+{o.size}]", s.check(st), st)
        else:
            s.prove(st, z3.And(z3.ULE(off, o.size), z3.ULE(n, o.size - off)), f"{what}: inside the allocation of {o.name}")
        return o, off
    def load_off(s, st, o, off, n):
        if o.arr is not None: return s.aload(st, o.arr, off, n)
        c = o.cells.get(off)
        if c is not None and c[0] == n: return c[1]
        bs = []
        w = None
        for i in range(off, off + n):
            k = o.own.get(i)
            if k is None:
                if w is None: w = s.writable(st, o); o = w
                v = s.fresh(8, "uninit")
                o.cells[i] = (1, v); o.own[i] = i
                bs.append(v)
                continue
            m, v = o.cells[k]
            if isc(v): bs.append((v >> (8 * (i - k))) & 255)
            else: bs.append(z3.Extract(8 * (i - k) + 7, 8 * (i - k), v))
        if all(isc(b) for b in bs):
            return sum(b << (8 * i) for i, b in enumerate(bs))
        if n == 1: return simp(bs[0])
        return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))
    def both(s, st, c):
        """(can c hold, can it fail) on this path"""
        c = simp(c)
        if isc(c): return bool(c), not c
        if z3.is_true(c): return True, False
        if z3.is_false(c): return False, True
        return s.feasible(st, c) is not None, s.feasible(st, z3.Not(c)) is not None
    def aload(s, st, mem, off, n):
        """load from an object of symbolic size: its log of writes, newest first; paths split where a write may or may not be the one read"""
        base, log = mem
        off = bv(off, 64)
        for e in reversed(log):
            if e[0] == "st":
                _, eo, en, v = e
                d = simp(off - bv(eo, 64))
                if not isc(d):
                    disj = z3.And(z3.UGE(d, en), z3.ULE(d, M64 + 1 - n if n > 1 else M64))
                    y, no = s.both(st, disj)
                    if y and no: raise Fork([disj, z3.Not(disj)])
                    if y: continue
                    x = (st.model or s.check(st)).eval(d, model_completion=True).as_long()
                    if s.both(st, d == x)[1]: raise Fork([d == x, d != x])
                    d = x
                d = sgn(d, 64)
                if d >= en or d <= -n: continue
                if d < 0 or d + n > en: return s.abytes(st, mem, off, n)
                if d == 0 and n == en: return v
                return (v >> (8 * d)) & ((1 << (8 * n)) - 1) if isc(v) else simp(z3.Extract(8 * (d + n) - 1, 8 * d, v))
            _, do, src, so, ln = e
            ln = bv(ln, 64)
            d = simp(off - bv(do, 64)); db = bv(d, 64)
            inside = z3.And(z3.ULE(db, ln), z3.ULE(z3.BitVecVal(n, 64), ln - db))
            disj = z3.Or(ln == 0, z3.And(z3.UGE(db, ln), z3.ULE(db, M64 + 1 - n if n > 1 else M64)))
            y, no = s.both(st, inside)
            if y and no: raise Fork([inside, z3.Not(inside)])
            if y: return s.aload(st, src, simp(bv(so, 64) + db), n)
            y, no = s.both(st, disj)
            if y and no: raise Fork([disj, z3.Not(disj)])
            if not y: return s.abytes(st, mem, off, n)
        bs = [z3.Select(base, off + i) for i in range(n)]
        return simp(z3.Concat(*reversed(bs)) if n > 1 else bs[0])
    def abytes(s, st, mem, off, n):
        bs = [bv(s.aload(st, mem, simp(off + i), 1), 8) for i in range(n)]
        return simp(z3.Concat(*reversed(bs)))
    def store_off(s, st, o, off, n, v):
        if o.ro: raise Violation(f"write to constant object {o.name}", s.check(st), st)
        o = s.writable(st, o)
        if o.arr is not None:
            o.arr = (o.arr[0], o.arr[1] + (("st", off, n, v),))
            return
        hit = {o.own[i] for i in range(off, off + n) if i in o.own}
        for k in hit:
            m, old = o.cells.pop(k)
            for j in range(k, k + m): del o.own[j]
            for j in range(k, k + m):      # bytes that survive
                if not off <= j < off + n:
                    o.cells[j] = (1, (old >> (8 * (j - k))) & 255 if isc(old) else simp(z3.Extract(8 * (j - k) + 7, 8 * (j - k), old)))
                    o.own[j] = j
        o.cells[off] = (n, v)
        for i in range(off, off + n): o.own[i] = off
    def bits(s, t):
        t = s.m.res(t)
        if t[0] == "i": return t[1]
        if t[0] in ("ptr", "fn"): return 64
        if t[0] == "f": return t[1]
        raise TypeError(t)
    def load(s, st, t, addr, what="load"):
        t = s.m.res(t)
        if t[0] in ("st", "arr", "vec"):
            out = []
            for i in range(s.m.count(t)):
                off, e = s.m.field(t, i)
                out.append(s.load(st, e, addr + off, what))
            return tuple(out)
        w = s.bits(t); n = s.m.size(t)
        o, off = s.resolve(st, addr, n, what)
        v = s.load_off(st, o, off, n)
        if w < 8 * n:
            v = v & ((1 << w) - 1) if isc(v) else simp(z3.Extract(w - 1, 0, v))
        return v
    def store(s, st, t, v, addr, what="store"):
        t = s.m.res(t)
        if t[0] in ("st", "arr", "vec"):
            for i in range(s.m.count(t)):
                off, e = s.m.field(t, i)
                s.store(st, e, v[i], addr + off, what)
            return
        w = s.bits(t); n = s.m.size(t)
        o, off = s.resolve(st, addr, n, what)
        if not isc(v):
            v = bv(v, w) if z3.is_bool(v) else v
            if v.size() < 8 * n: v = z3.ZeroExt(8 * n - v.size(), v)
            v = simp(v)
        s.store_off(st, o, off, n, v)
    def copy(s, st, d, a, n, what):
        n = simp(n)
        if not isc(n):
            # symbolic length: array objects copy as a whole, otherwise enumerate
            oa, fa = s.base_of(st, a, n, what + " source")
            od, fd = s.base_of(st, d, n, what + " destination")
            if oa is not None and od is not None and od.arr is None and od.kind in ("new", "new[]", "malloc") and od.size >= 16:
                od = s.writable(st, od)      # from here on this object is a log of writes
                s.fresh_n += 1
                od.arr = (z3.Array(f"mem!{s.fresh_n}", z3.BitVecSort(64), z3.BitVecSort(8)), tuple(("st", k, c[0], c[1]) for k, c in sorted(od.cells.items())))
                od.cells, od.own = {}, {}
                oa = st.objs[oa.base]
            if oa is not None and od is not None and od.arr is not None:
                src = oa.arr if oa.arr is not None else (s.as_array(st, oa), ())
                od = s.writable(st, st.objs[od.base])
                od.arr = (od.arr[0], od.arr[1] + (("cp", fd, src, fa, n),))
                return
            model = st.model or s.check(st)
            v = model.eval(n, model_completion=True).as_long()
            if s.check(st, n != v) is None:
                st.pc = st.pc + (n == v,)
                n = v
            else:
                raise Fork([n == v, n != v])
        if n == 0: return
        o, off = s.resolve(st, a, n, what + " source")
        p, poff = s.resolve(st, d, n, what + " destination")
        if isc(off) and isc(poff) and o.arr is None and p.arr is None:
            vals, i = [], 0
            while i < n:
                c = o.cells.get(off + i)
                if c is not None and i + c[0] <= n:
                    vals.append((i, c[0], c[1])); i += c[0]
                elif o.own.get(off + i) is None:
                    # uninitialised: stays uninitialised in the destination
                    vals.append((i, 1, None)); i += 1
                else:
                    vals.append((i, 1, s.load_off(st, o, off + i, 1))); i += 1
            for i, m, v in vals:
                p = st.objs[p.base]
                s.store_off(st, p, poff + i, m, v if v is not None else s.fresh(8 * m, "uninit"))
        elif o.arr is not None and p.arr is not None and n > 8:
            src = o.arr
            p = s.writable(st, st.objs[p.base])
            p.arr = (p.arr[0], p.arr[1] + (("cp", poff, src, off, n),))
        else:
            vals, i = [], 0
            while i < n:
                m = 8 if n - i >= 8 else 4 if n - i >= 4 else 2 if n - i >= 2 else 1
                vals.append((i, m, s.load_off(st, st.objs[o.base], off + i, m))); i += m
            for i, m, v in vals:
                s.store_off(st, st.objs[p.base], poff + i, m, v)
    def as_array(s, st, o):
        arr = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8))
        for i in range(o.size):
            arr = z3.Store(arr, z3.BitVecVal(i, 64), bv(s.load_off(st, st.objs[o.base], i, 1), 8))
        return arr
    def base_of(s, st, addr, n, what):
        addr = simp(addr)
        if isc(addr):
            o = s.at(st, addr)
            if o is None:
                s.prove(st, n == 0, f"{what}: invalid address")
                return None, None
            off = addr - o.base
        else:
            model = st.model or s.check(st)
            v = model.eval(addr, model_completion=True).as_long()
            o = s.at(st, v)
            if o is None:
                if s.check(st, n != 0) is None: return None, None
                raise Violation(f"{what}: outside every object", model, st)
            off = simp(addr - o.base)
        size = bv(o.size, 64)
        if isc(off) and isc(o.size) and off > o.size: 
            s.prove(st, n == 0, f"{what}: invalid address")
            return None, None
        s.prove(st, z3.Or(n == 0, z3.And(z3.ULE(bv(off, 64), size), z3.ULE(n, size - bv(off, 64)))), f"{what}: inside the object {o.name}")
        return o, off
    def cstr(s, st, addr, cap=4096):
        o, off = s.resolve(st, addr, 1, "string")
        out = []
        while True:
            v = s.load_off(st, st.objs[o.base], off, 1)
            if not isc(v): return None
            if v == 0: return bytes(out).decode("latin-1")
            out.append(v); off += 1

    # ---- globals ----
    def init(s):
        st = State()
        st.frames, st.objs, st.bases, st.pc, st.gen = [], {}, [], (), newgen()
        st.exc, st.excobjs, st.nondets, st.expect_term, st.trace, st.selector, st.model, st.steps, st.uncaught, st.ghost = None, {}, (), False, (), 0, None, 0, 0, {}
        st.next = 0x10000000
        for k, n in enumerate(list(s.m.fns) + list(s.m.decls)):
            s.faddr[n] = 0x400000 + 16 * k
            s.addrf[0x400000 + 16 * k] = n
        for n, (t, init, const, ext) in s.m.globals.items():
            size = max(s.m.size(t), 64 if ext else 1)
            o = s.alloc(st, size, "global", n)
            s.gaddr[n] = o.base
        for n, (t, init, const, ext) in s.m.globals.items():
            if init is not None and not n.startswith("@llvm."):
                s.ginit(st, t, init, s.gaddr[n])
                st.objs[s.gaddr[n]].ro = const
        for n, (t, init, const, ext) in s.m.globals.items():
            if const and init is not None: st.objs[s.gaddr[n]].ro = True
        return st
    def ginit(s, st, t, v, addr):
        t = s.m.res(t)
        k = v[0]
        if k == "agg":
            for i, (et, ev) in enumerate(v[1]):
                off, e = s.m.field(t, i)
                s.ginit(st, et, ev, addr + off)
        elif k == "bytes":
            for i, b in enumerate(v[1]):
                o, off = s.resolve(st, addr + i, 1, "init")
                s.store_off(st, o, off, 1, b)
        elif k == "zero":
            o, off = s.resolve(st, addr, s.m.size(t), "init") if s.m.size(t) else (None, 0)
            n = s.m.size(t); i = 0
            while i + 8 <= n: s.store_off(st, o, off + i, 8, 0); i += 8
            while i < n: s.store_off(st, o, off + i, 1, 0); i += 1
        elif k == "undef": pass
        else:
            s.store(st, t, s.const(v, t), addr, "init")
    def gaddr_of(s, n):
        while n in s.m.alias: n = s.m.alias[n]
        if n in s.gaddr: return s.gaddr[n]
        if n in s.faddr: return s.faddr[n]
        raise KeyError(n)
    def const(s, v, t):
        k = v[0]
        if k == "c": return v[1]
        if k == "g": return s.gaddr_of(v[1])
        if k == "cgep":
            base = s.const(v[2], ("ptr",))
            return s.gep(v[1], base, [(it, s.const(iv, it)) for it, iv in v[3]])
        if k == "ccast":
            x = s.const(v[3], v[2])
            w = s.bits(v[4])
            if v[1] == "sext": x = sgn(x, s.bits(v[2]))
            return x & ((1 << w) - 1)
        if k == "cbin":
            w = s.bits(v[2])
            return s.binop(None, v[1], w, s.const(v[3], v[2]), s.const(v[4], v[2]))
        t = s.m.res(t)
        if k == "zero":
            if t[0] in ("st", "arr", "vec"):
                return tuple(s.const(("zero", s.m.field(t, i)[1]), s.m.field(t, i)[1]) for i in range(s.m.count(t)))
            return 0
        if k == "undef":
            if t[0] in ("st", "arr", "vec"):
                return tuple(s.const(("undef", s.m.field(t, i)[1]), s.m.field(t, i)[1]) for i in range(s.m.count(t)))
            return s.fresh(s.bits(t), "undef")
        if k == "agg": return tuple(s.const(ev, et) for et, ev in v[1])
        if k == "bytes": return tuple(v[1])
        raise TypeError(v)
    def gep(s, t, base, idx):
        addr = base
        first = True
        for it, iv in idx:
            w = s.bits(it)
            if first:
                z = s.m.size(t); first = False
                if isc(iv): addr = addr + sgn(iv, w) * z if isc(addr) else addr + z3.BitVecVal((sgn(iv, w) * z) & M64, 64)
                else:
                    e = z3.SignExt(64 - w, iv) if w < 64 else iv
                    addr = bv(addr, 64) + e * z
            else:
                rt = s.m.res(t)
                if rt[0] == "st":
                    off, t = s.m.field(rt, iv)
                    addr = addr + off
                else:
                    t = rt[2]; z = s.m.size(t)
                    if isc(iv): addr = addr + sgn(iv, w) * z
                    else:
                        e = z3.SignExt(64 - w, iv) if w < 64 else iv
                        addr = bv(addr, 64) + e * z
        return addr & M64 if isc(addr) else simp(addr)

    # ---- operations ----
    def binop(s, st, op, w, a, b, fl=()):
        if isc(a) and isc(b):
            mask = (1 << w) - 1
            if op == "add": return (a + b) & mask
            if op == "sub": return (a - b) & mask
            if op == "mul": return (a * b) & mask
            if op == "and": return a & b
            if op == "or": return a | b
            if op == "xor": return a ^ b
            if op == "shl": return (a << b) & mask if b < w else 0
            if op == "lshr": return a >> b if b < w else 0
            if op == "ashr": return (sgn(a, w) >> min(b, w - 1)) & mask
            if op in ("udiv", "urem", "sdiv", "srem"):
                if b == 0: raise Violation("division by zero", s.check(st), st)
                if op == "udiv": return a // b
                if op == "urem": return a % b
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return (q if op == "sdiv" else x - q * y) & mask
            raise Limit(f"operation {op}")
        if w == 1:
            if op == "xor": return z3.Xor(tobool(a) if not isc(a) else z3.BoolVal(bool(a)), tobool(b) if not isc(b) else z3.BoolVal(bool(b)))
            if op == "and": return z3.And(tobool(a), tobool(b))
            if op == "or": return z3.Or(tobool(a), tobool(b))
        a, b = bv(a, w), bv(b, w)
        if op in ("udiv", "urem", "sdiv", "srem"):
            s.prove(st, b != 0, "division by zero")
        if op in ("sdiv", "udiv") and z3.is_bv_value(b):
            q = s.halve(st, op, w, simp(a), b.as_long())
            if q is not None: return q
        f = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b,
             "shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b, "udiv": lambda: z3.UDiv(a, b), "urem": lambda: z3.URem(a, b),
             "sdiv": lambda: a / b, "srem": lambda: z3.SRem(a, b)}.get(op)
        if f is None: raise Limit(f"operation {op} on symbolic values")
        return simp(f())
    def halve(s, st, op, w, a, d):
        """division by a power of two of something visibly divisible by it"""
        if isc(a) or d & (d - 1) or d < 2: return None
        k = d.bit_length() - 1
        if not (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONCAT): return None
        tail = a.arg(a.num_args() - 1)
        if not (z3.is_bv_value(tail) and tail.size() >= k and tail.as_long() == 0): return None
        head = simp(z3.Extract(w - 1, k, a))
        if isc(head): return None
        if op == "udiv": return simp(z3.ZeroExt(k, head))
        if z3.is_app(head) and head.decl().kind() == z3.Z3_OP_EXTRACT and head.decl().params() == [w - 1 - k, 0]:
            x = head.arg(0)
            if x.size() == w and s.check(st, z3.UGE(x, z3.BitVecVal(1 << (w - 1 - k), w))) is None: return x
        return simp(z3.SignExt(k, head))
    def icmp(s, pred, w, a, b):
        if isc(a) and isc(b):
            if pred[0] == "s": a, b = sgn(a, w), sgn(b, w)
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[pred[1:] if pred not in ("eq", "ne") else pred])
        a, b = bv(a, w), bv(b, w)
        r = {"eq": lambda: a == b, "ne": lambda: a != b, "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b), "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b),
             "slt": lambda: a < b, "sle": lambda: a <= b, "sgt": lambda: a > b, "sge": lambda: a >= b}[pred]()
        return simp(r)
    def cast(s, op, t, v, t2):
        if op in ("ptrtoint", "inttoptr", "trunc", "zext"):
            w2, w = s.bits(t2), s.bits(t)
            if isc(v): return v & ((1 << w2) - 1)
            if z3.is_bool(v): return v if w2 == 1 else z3.If(v, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
            if w2 < w: return simp(z3.Extract(w2 - 1, 0, v))
            if w2 > w: return simp(z3.ZeroExt(w2 - w, v))
            return v
        if op == "sext":
            w2, w = s.bits(t2), s.bits(t)
            if isc(v): return sgn(v, w) & ((1 << w2) - 1)
            if z3.is_bool(v): return z3.If(v, z3.BitVecVal((1 << w2) - 1, w2), z3.BitVecVal(0, w2))
            return simp(z3.SignExt(w2 - w, v))
        if op == "bitcast": return v
        raise Limit(f"cast {op}")

    # ---- running ----
    def run(s, name):
        st = s.init()
        s.push(st, s.m.fns["@" + name], [], None, ("void",), None, None)
        work = [st]
        while work:
            st = work.pop()
            try:
                while True:
                    s.step(st)
            except PathEnd:
                s.stats["paths"] += 1
                if s.stats["paths"] > s.max_paths: raise Limit("path limit")
            except Fork as f:
                for idx, c in enumerate(f.conds):
                    c = simp(c)
                    if isc(c):
                        if not c: continue
                        n = s.clone(st)
                    else:
                        m = s.feasible(st, c)
                        if m is None: continue
                        n = s.clone(st)
                        n.pc = n.pc + (c,); n.model = m
                    f.apply(n, idx, c)
                    work.append(n)
        return s.stats
    def clone(s, st):
        n = State()
        for k in State.__slots__: setattr(n, k, getattr(st, k))
        n.frames = [f.clone() for f in st.frames]
        n.gen = newgen(); st.gen = newgen()
        n.excobjs, n.ghost = dict(st.excobjs), dict(st.ghost)
        return n
    def push(s, st, fn, args, dst, rt, normal, unwind, byval=()):
        llir.body(s.m, fn)
        s.stats["fns"].add(fn.name)
        f = Frame()
        f.fn, f.block, f.prev, f.ip, f.regs, f.allocas = fn, fn.entry, None, 0, {}, []
        f.dst, f.normal, f.unwind, f.rt = dst, normal, unwind, rt
        f.nounwind = any("nounwind" in s.m.attrs.get(a, ()) for a in fn.attrs)
        for (t, nm, at), v in zip(fn.params, args):
            if "byval" in at:
                o = s.alloc(st, s.m.size(at["byval"]), "stack", "byval")
                f.allocas.append(o.base)
                s.copy(st, o.base, v, s.m.size(at["byval"]), "byval")
                v = o.base
            f.regs[nm] = v
        if len(st.frames) > 200: raise Limit("call depth")
        st.frames.append(f)
    def val(s, st, t, v):
        if v[0] == "l": return st.frames[-1].regs[v[1]]
        return s.const(v, t)
    def pop(s, st):
        f = st.frames.pop()
        if f.allocas:
            dead = set(f.allocas)
            st.objs = {b: o for b, o in st.objs.items() if b not in dead}
            st.bases = [b for b in st.bases if b not in dead]
        return f
    def finish_call(s, st, f, v):
        """return v from the call described by frame-like f"""
        if not st.frames:
            raise PathEnd()
        c = st.frames[-1]
        if f.dst is not None: c.regs[f.dst] = v
        if f.normal is not None: s.jump(c, f.normal)
    def jump(s, f, label):
        f.prev, f.block, f.ip = f.block, label, 0
    def step(s, st):
        st.steps += 1
        s.stats["steps"] += 1
        if st.steps > s.max_steps: raise Limit("step limit on one path")
        if s.deadline and st.steps % 2000 == 0 and time.time() > s.deadline: raise Limit("time budget exhausted")
        f = st.frames[-1]
        I = f.fn.blocks[f.block][f.ip]
        op = I[0]
        R = f.regs
        if op == "phi":
            # parallel evaluation of all phis in the block
            B = f.fn.blocks[f.block]; new = {}
            while B[f.ip][0] == "phi":
                _, dst, t, arms = B[f.ip]
                for v, l in arms:
                    if l == f.prev:
                        new[dst] = s.val(st, t, v)
                        break
                else: raise Limit("phi without arm")
                f.ip += 1
            R.update(new)
            return
        f.ip += 1
        try:
            s.exec(st, f, I, op, R)
        except Fork:
            f.ip -= 1       # re-executed on each side unless the fork says otherwise
            raise
    def exec(s, st, f, I, op, R):
        if op == "load":
            R[I[1]] = s.load(st, I[2], s.val(st, ("ptr",), I[3]), f"load in {s.where(st)}")
        elif op == "store":
            s.store(st, I[1][0], s.val(st, *I[1]), s.val(st, ("ptr",), I[2]), f"store in {s.where(st)}")
        elif op == "alloca":
            cnt = s.val(st, *I[3]) if I[3] else 1
            o = s.alloc(st, s.m.size(I[2]) * cnt, "stack", I[1])
            f.allocas.append(o.base)
            R[I[1]] = o.base
        elif op == "gep":
            R[I[1]] = s.gep(I[2], s.val(st, ("ptr",), I[3]), [(t, s.val(st, t, v)) for t, v in I[4]])
        elif op == "br": s.jump(f, I[1])
        elif op == "cbr":
            c = s.val(st, *I[1])
            if not isc(c): c = simp(tobool(c))
            if isc(c): s.jump(f, I[2] if c & 1 else I[3]); return
            a, b = s.feasible(st, c), s.feasible(st, z3.Not(c))
            if a is None and b is None: raise PathEnd()
            if b is None: st.pc += (c,); st.model = a; s.jump(f, I[2]); return
            if a is None: st.pc += (z3.Not(c),); st.model = b; s.jump(f, I[3]); return
            fk = Fork([c, z3.Not(c)])
            fk.apply = lambda ns, idx, cond: s.jump(ns.frames[-1], I[2 + idx])
            raise fk
        elif op == "switch":
            v = s.val(st, *I[1])
            w = s.bits(I[1][0])
            if isc(v):
                for c, l in I[3]:
                    if c == v:
                        s.jump(f, l); return
                s.jump(f, I[2]); return
            fk = Fork([v == z3.BitVecVal(c, w) for c, _ in I[3]] + [z3.And(*[v != z3.BitVecVal(c, w) for c, _ in I[3]])])
            labels = [l for _, l in I[3]] + [I[2]]
            fk.apply = lambda ns, idx, cond: s.jump(ns.frames[-1], labels[idx])
            raise fk
        elif op == "bin":
            _, d, o, fl, t, a, b = I
            R[d] = s.binop(st, o, s.bits(t), s.val(st, t, a), s.val(st, t, b), fl)
        elif op == "icmp":
            _, d, pred, t, a, b = I
            R[d] = s.icmp(pred, s.bits(t), s.val(st, t, a), s.val(st, t, b))
        elif op == "cast":
            _, d, o, t, v, t2 = I
            R[d] = s.cast(o, t, s.val(st, t, v), t2)
        elif op == "select":
            _, d, c, a, b = I
            c = s.val(st, *c)
            if not isc(c): c = simp(tobool(c))
            x, y = s.val(st, *a), s.val(st, *b)
            if isc(c): R[d] = x if c & 1 else y
            elif isinstance(x, tuple): raise Fork([c, z3.Not(c)])
            else: R[d] = simp(z3.If(c, bv(x, s.bits(a[0])), bv(y, s.bits(a[0])))) if s.bits(a[0]) > 1 else simp(z3.If(c, tobool(x) if not isc(x) else z3.BoolVal(bool(x)), tobool(y) if not isc(y) else z3.BoolVal(bool(y))))
        elif op == "extractvalue":
            v = s.val(st, *I[2])
            for i in I[3]: v = v[i]
            R[I[1]] = v
        elif op == "insertvalue":
            R[I[1]] = s.insert(s.val(st, *I[2]), I[4], s.val(st, *I[3]))
        elif op == "freeze": R[I[1]] = s.val(st, *I[2])
        elif op == "ret":
            v = s.val(st, *I[1]) if I[1] else None
            s.finish_call(st, s.pop(st), v)
        elif op == "call": s.call(st, f, I)
        elif op == "landingpad": raise Limit("landingpad reached normally")
        elif op == "resume":
            v = s.val(st, *I[1])
            st.exc = v[0]
            s.unwind(st)
        elif op == "unreachable":
            raise Violation(f"unreachable point reached in {s.where(st)}", s.check(st), st)
        elif op == "atomicrmw":
            _, d, o, a, v = I
            addr, x = s.val(st, ("ptr",), a), s.val(st, *v)
            old = s.load(st, v[0], addr)
            w = s.bits(v[0])
            new = x if o == "xchg" else s.binop(st, o, w, old, x)
            s.store(st, v[0], new, addr)
            R[d] = old
        elif op == "cmpxchg":
            _, d, a, e, v = I
            addr = s.val(st, ("ptr",), a)
            old = s.load(st, e[0], addr)
            eq = s.icmp("eq", s.bits(e[0]), old, s.val(st, *e))
            if not isc(eq):
                if s.feasible(st, eq) is not None and s.feasible(st, z3.Not(eq)) is not None: raise Fork([eq, z3.Not(eq)])
                eq = 1 if s.feasible(st, eq) is not None else 0
            if eq: s.store(st, v[0], s.val(st, *v), addr)
            R[d] = (old, eq)
        elif op == "nop": pass
        elif op == "fneg":
            v = s.val(st, *I[2]); w = s.bits(I[2][0])
            R[I[1]] = s.binop(st, "xor", w, v, 1 << (w - 1))
        else: raise Limit(f"instruction {op}")
    def insert(s, agg, idx, v):
        l = list(agg)
        l[idx[0]] = v if len(idx) == 1 else s.insert(l[idx[0]], idx[1:], v)
        return tuple(l)
    def where(s, st):
        return " < ".join(f.fn.name[1:] for f in reversed(st.frames[-4:]))

    # ---- exceptions ----
    def tis(s, ti):
        """type infos the thrown type can be caught as"""
        inv = {a: n for n, a in s.gaddr.items()}
        n = inv.get(ti)
        out = [ti]
        while n:
            g = s.m.globals.get(n)
            if g is not None and g[1] is not None and g[1][0] == "agg" and len(g[1][1]) == 3 and g[1][1][2][1][0] == "g":
                n = g[1][1][2][1][1]
            else:
                n = EXT_TI.get(n)
            if n:
                if n in s.gaddr: out.append(s.gaddr[n])
                else: out.append(n)
        return out
    def unwind(s, st):
        """propagate st.exc from the current frame (its current instruction threw or resumed)"""
        # the current frame is the one containing the resume: leave it
        while True:
            fr = s.pop(st)
            if not st.frames: raise Violation("an exception escapes the harness", s.check(st), st)
            if fr.nounwind: return s.terminate(st, f"an exception leaves the noexcept function {fr.fn.name[1:]}")
            if fr.unwind is not None and s.land(st, fr.unwind): return
    def raise_at_call(s, st, unwind):
        """the current instruction of the top frame (a call or invoke) throws"""
        if unwind is not None and s.land(st, unwind): return
        s.unwind(st)
    def land(s, st, label):
        f = st.frames[-1]
        B = f.fn.blocks[label]
        k = 0
        while B[k][0] == "phi": k += 1
        _, dst, cleanup, clauses = B[k]
        ti, _ = st.excobjs[st.exc][:2]
        types = s.tis(ti)
        sel = None
        for kind, v in clauses:
            if kind == "catch":
                c = s.const(v, ("ptr",))
                if c == 0 or c in types: sel = c if c else 0x7fffffff; break
            else:
                listed = [s.const(ev, et) for et, ev in v[1]] if v[0] == "agg" else []
                if not any(c in types for c in listed): sel = (1 << 32) - 1; break
        if sel is None:
            if not cleanup: return False
            sel = 0
        f.prev, f.block, f.ip = f.block, label, k
        if k:
            raise Limit("phi before landingpad")
        f.ip = k + 1
        f.regs[dst] = (st.exc, sel & 0xffffffff)
        return True
    def terminate(s, st, why):
        if st.expect_term:
            s.stats["covers"].add("terminate")
            raise PathEnd()
        raise Violation(f"std::terminate: {why}", s.check(st), st)

    # ---- calls ----
    def call(s, st, f, I):
        _, dst, rt, callee, args, at, normal, unwind = I
        if callee[0] == "g":
            name = callee[1]
        else:
            a = simp(s.val(st, ("ptr",), callee))
            if not isc(a): raise Violation(f"call through a symbolic function pointer in {s.where(st)}", s.check(st), st)
            name = s.addrf.get(a)
            if name is None: raise Violation(f"call through an invalid function pointer {a:#x} in {s.where(st)}", s.check(st), st)
        while name in s.m.alias: name = s.m.alias[name]
        n = name[1:]
        if n.startswith("llvm.") or n in BUILTIN and not (n in s.contracts and st.frames[-1].fn.name != s.contracts[n]):
            vals = [s.val(st, t, v) for t, v, _ in args]
            if n.startswith("llvm."): r = s.intrinsic(st, n, vals, args, rt)
            else: r = BUILTIN[n](s, st, vals, unwind)
            if r is THROWN: return
            if dst is not None: f.regs[dst] = r
            if normal is not None: s.jump(f, normal)
            return
        vals = [s.val(st, t, v) for t, v, _ in args]
        c = s.contracts.get(n)
        if c is not None and st.frames[-1].fn.name != c:
            s.stats["stubs"].add(n)
            fn = s.m.fns[c]
        elif name in s.m.fns:
            fn = s.m.fns[name]
        else:
            raise Limit(f"call of {n}, for which there is neither code nor contract, in {s.where(st)}")
        want = [s.shape(t) for t, _, _ in fn.params]
        got = [s.shape(t) for t, _, _ in args]
        if got[:len(want)] != want or len(got) > len(want) and not getattr(fn, "vararg", False) or s.shape(rt) != s.shape(fn.ret) and dst is not None:
            raise Violation(f"call of {n} does not match its signature (arguments {got} for {want}, result {s.shape(rt)} for {s.shape(fn.ret)}) in {s.where(st)}", s.check(st), st)
        s.push(st, fn, vals, dst, rt, normal, unwind)
    def shape(s, t):
        if t[0] in ("void", "ptr", "float", "double"): return t[0]
        return (t[0], s.m.size(t))
    def intrinsic(s, st, n, v, args, rt):
        p = n.split(".")
        k = p[1]
        if k in ("memcpy", "memmove"):
            s.copy(st, v[0], v[1], v[2], f"{k} in {s.where(st)}"); return None
        if k == "memset":
            s.memset(st, v[0], v[1], v[2]); return None
        if k in ("lifetime", "dbg", "assume", "donothing", "experimental", "invariant", "prefetch"): return None
        if k == "expect": return v[0]
        if k == "eh" and p[2] == "typeid": return v[0] & 0xffffffff
        if k in ("trap", "ubsantrap"): raise Violation("trap", s.check(st), st)
        if k in ("umul", "uadd", "usub", "smul", "sadd", "ssub") and p[2] == "with":
            w = s.bits(args[0][0]); o = k[1:]
            r = s.binop(st, o, w, v[0], v[1])
            a, b = bv(v[0], 2 * w) if isc(v[0]) else (z3.ZeroExt(w, v[0]) if k[0] == "u" else z3.SignExt(w, v[0])), None
            ext = (lambda x: z3.ZeroExt(w, bv(x, w))) if k[0] == "u" else (lambda x: z3.SignExt(w, bv(x, w)))
            wide = {"mul": lambda: ext(v[0]) * ext(v[1]), "add": lambda: ext(v[0]) + ext(v[1]), "sub": lambda: ext(v[0]) - ext(v[1])}[o]()
            return (r, simp(wide != ext(r)))
        if k in ("umax", "umin", "smax", "smin"):
            w = s.bits(args[0][0])
            c = s.icmp({"umax": "ugt", "umin": "ult", "smax": "sgt", "smin": "slt"}[k], w, v[0], v[1])
            if isc(c): return v[0] if c else v[1]
            return simp(z3.If(c, bv(v[0], w), bv(v[1], w)))
        if k in ("launder", "strip", "ptrmask"): return v[0]
        if k == "is" and p[2] == "constant": return 0
        if k == "objectsize": return M64
        if k == "abs":
            w = s.bits(args[0][0]); c = s.icmp("slt", w, v[0], 0)
            return simp(z3.If(tobool(c) if not isc(c) else z3.BoolVal(bool(c)), -bv(v[0], w), bv(v[0], w)))
        raise Limit(f"intrinsic {n}")
    def memset(s, st, d, v, n):
        n = simp(n)
        if not isc(n): raise Limit("memset of symbolic length")
        for i in range(n):
            s.store(st, ("i", 8), v, d + i)

class Fork(Exception):
    """explore each alternative; the current instruction is executed again unless `apply` moves on"""
    def __init__(s, conds):
        s.conds = conds
    def apply(s, st, idx, c): pass

THROWN = object()

# ---- library contracts ---------------------------------------------------------------------------------------
def malloc(s, st, v, u, kind="malloc"):
    return s.alloc(st, simp(v[0]), kind, kind).base
def freeer(kind):
    def go(s, st, v, u):
        a = simp(v[0])
        if not isc(a):
            model = st.model or s.check(st)
            x = model.eval(a, model_completion=True).as_long()
            if s.check(st, a != x) is not None: raise Fork([a == x, a != x])
            a = x
        if a == 0: return None
        o = st.objs.get(a)
        if o is None: raise Violation(f"{kind}: {a:#x} is not a live allocation (double or invalid free) in {s.where(st)}", s.check(st), st)
        if o.kind != kind: raise Violation(f"{o.kind} object released with {kind} in {s.where(st)}", s.check(st), st)
        s.free(st, a)
        return None
    return go
def strlen(s, st, v, u):
    a = v[0]
    k = 0
    while True:
        b = s.load(st, ("i", 8), (a + k) & M64 if isc(a) else a + k, "strlen")
        if isc(b):
            if b == 0: return k
        else:
            z, nz = s.feasible(st, b == 0), s.feasible(st, b != 0)
            if z is not None and nz is not None: raise Fork([b == 0, b != 0])
            if z is not None: return k
        k += 1
def memcmp(s, st, v, u):
    n = simp(v[2])
    if not isc(n):
        model = st.model or s.check(st)
        x = model.eval(n, model_completion=True).as_long()
        if s.check(st, n != x) is not None: raise Fork([n == x, n != x])
        n = x
    if n > 64: raise Limit("memcmp length")
    r = z3.BitVecVal(0, 32)
    neg, pos = s.fresh(32, "memcmp"), s.fresh(32, "memcmp")
    st.pc = st.pc + (neg < 0, pos > 0)
    st.model = None
    for i in reversed(range(n)):
        a, b = (bv(s.load(st, ("i", 8), x + i, "memcmp"), 8) for x in (v[0], v[1]))
        r = z3.If(a == b, r, z3.If(z3.ULT(a, b), neg, pos))
    return simp(r)
def memcpy(s, st, v, u):
    s.copy(st, v[0], v[1], v[2], f"memcpy in {s.where(st)}")
    return v[0]
def exc_alloc(s, st, v, u): return s.alloc(st, simp(v[0]), "exception", "exception").base
def throw(s, st, v, u):
    st.excobjs[v[0]] = (v[1], v[2], 0)
    st.exc = v[0]
    s.raise_at_call(st, u)
    return THROWN
def begin_catch(s, st, v, u):
    ti, d, n = st.excobjs[v[0]]
    st.excobjs[v[0]] = (ti, d, n + 1)
    st.ghost["caught"] = st.ghost.get("caught", ()) + (v[0],)
    return v[0]
def end_catch(s, st, v, u):
    c = st.ghost.get("caught", ())
    e = c[-1]
    st.ghost["caught"] = c[:-1]
    ti, d, n = st.excobjs[e]
    n -= 1
    st.excobjs[e] = (ti, d, n)
    if n == 0 and st.exc != ("rethrown", e):
        # destroy the exception object: run its destructor, then free it
        del st.excobjs[e]
        if d:
            fn = s.addrf[d]
            while fn in s.m.alias: fn = s.m.alias[fn]
            nm = fn[1:]
            c = s.contracts.get(nm)
            target = s.m.fns.get(c) if c else s.m.fns.get(fn)
            if target is not None:
                # continue after the call; the object itself stays allocated until then
                f = st.frames[-1]
                I = f.fn.blocks[f.block][f.ip - 1]
                s.push(st, target, [e], None, ("void",), I[6], None)
                return THROWN
        if e in st.objs: s.free(st, e)
    return None
def rethrow(s, st, v, u):
    e = st.ghost["caught"][-1]
    ti, d, n = st.excobjs[e]
    st.excobjs[e] = (ti, d, n + 1)
    st.exc = e
    s.raise_at_call(st, u)
    return THROWN
def term(s, st, v, u): s.terminate(st, f"called in {s.where(st)}")
def assert_fail(s, st, v, u):
    raise Violation(f"assert({s.cstr(st, v[0])}) fails in {s.where(st)}", s.check(st), st)
# harness vocabulary
def nondet(w):
    def go(s, st, v, u):
        x = s.fresh(w, "in")
        st.nondets = st.nondets + ((w, x),)
        return x if w > 1 else x == 1
    return go
def vassume(s, st, v, u):
    s.assume(st, v[0]); return None
def vassert(s, st, v, u):
    s.stats["asserts"] += 1
    msg = s.cstr(st, v[1])
    s.stats.setdefault("sites", set()).add(msg)
    s.prove(st, v[0], msg)
    return None
def vcover(s, st, v, u):
    s.stats["covers"].add(s.cstr(st, v[0])); return None
def symobj(s, st, v, u):
    """an object of the given (possibly symbolic) size with arbitrary contents"""
    n = simp(v[0])
    o = s.alloc(st, n, "object", "symbolic object")
    if isc(n):
        w = s.writable(st, o)
        for i in range(n):
            x = s.fresh(8, "byte")
            w.cells[i] = (1, x); w.own[i] = i
            st.nondets = st.nondets + ((8, x),)
    else:
        st.nondets = st.nondets + (("arr", n, o.arr),)
    return o.base
def heap_live(s, st, v, u):
    return sum(1 for o in st.objs.values() if o.kind in ("malloc", "new", "new[]"))
def exc_live(s, st, v, u):
    return len(st.excobjs)
def expect_term(s, st, v, u):
    st.expect_term = bool(v[0]); return None
def is_live(s, st, v, u):
    a = simp(v[0])
    return int(isc(a) and a in st.objs)
def forget(s, st, v, u):
    """the given object dies here: any later access is a violation"""
    a = simp(v[0])
    s.free(st, a)
    return None
def concretize(s, st, v, u):
    n = simp(v[0])
    if isc(n): return n
    model = st.model or s.check(st)
    x = model.eval(n, model_completion=True).as_long()
    if s.check(st, n != x) is not None: raise Fork([n == x, n != x])
    st.pc = st.pc + (n == x,)
    return x
def ext_exc_ctor(s, st, v, u):
    st.ghost["what"] = v[1]
    return None
def last_what(s, st, v, u): return st.ghost.get("what", 0)

BUILTIN = {
    "malloc": malloc, "_Znwm": lambda s, st, v, u: malloc(s, st, v, u, "new"), "_Znam": lambda s, st, v, u: malloc(s, st, v, u, "new[]"),
    "free": freeer("malloc"), "_ZdlPv": freeer("new"), "_ZdlPvm": freeer("new"), "_ZdaPv": freeer("new[]"),
    "strlen": strlen, "memcmp": memcmp, "memcpy": memcpy, "memmove": memcpy,
    "__cxa_allocate_exception": exc_alloc, "__cxa_free_exception": lambda s, st, v, u: s.free(st, v[0]), "__cxa_throw": throw,
    "__cxa_begin_catch": begin_catch, "__cxa_end_catch": end_catch, "__cxa_rethrow": rethrow,
    "_ZSt9terminatev": term, "__clang_call_terminate": term, "abort": term, "__assert_fail": assert_fail, "__cxa_pure_virtual": term,
    "_ZNSt12out_of_rangeC1EPKc": ext_exc_ctor, "_ZNSt16invalid_argumentC1EPKc": ext_exc_ctor,
    "_ZNSt12out_of_rangeD1Ev": lambda *a: None, "_ZNSt16invalid_argumentD1Ev": lambda *a: None, "_ZNSt9exceptionD2Ev": lambda *a: None, "_ZNSt9exceptionD1Ev": lambda *a: None,
    "nondet_u8": nondet(8), "nondet_u16": nondet(16), "nondet_u32": nondet(32), "nondet_u64": nondet(64), "nondet_bool": nondet(1), "nondet_f64": nondet(64), "nondet_f32": nondet(32),
    "vassume": vassume, "vassert": vassert, "vcover": vcover, "symobj": symobj, "heap_live": heap_live, "exc_live": exc_live,
    "expect_terminate": expect_term, "is_live": is_live, "forget": forget, "concretize": concretize, "last_what": last_what,
    "__cxa_guard_acquire": lambda s, st, v, u: 1, "__cxa_guard_release": lambda *a: None, "__cxa_atexit": lambda *a: 0,
}
