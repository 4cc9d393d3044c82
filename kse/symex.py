"""Symbolic executor for LLVM IR.

Every function is translated (lazily) into Python code, one Python function per
basic block; doubles are DAG nodes, integers are Python ints (or z3 bit-vectors
when a harness asks for symbolic integers), pointers are concrete addresses
(object id << 32 | offset).  A branch on a symbolic condition is a decision of
the current path; `explore` enumerates decision sequences depth first by
re-execution, asking a feasibility oracle before following a side.
"""
import re, struct, sys, math
from fractions import Fraction
import dag
from dag import Node, const, cmp as dcmp
ONE_ = const(1)
from ir import P, tokenize, Module, _lay, FASTMATH, PATTR, Ty
try:
    import z3
except ImportError:                                           # pragma: no cover
    z3 = None

class Unsupported(Exception): pass
class Bound(Exception):
    """a loop/size/enumeration bound of the analysis was reached on this path"""
class Infeasible(Exception): pass
class Restart(Exception):
    """run the same path again (a root search assumed to repeat an earlier one does not)"""
class SymThrow(Exception):
    def __init__(s, ti, addr): s.ti = ti; s.addr = addr
class _Undef:
    def __repr__(s): return "undef"
UNDEF = _Undef()

BASES = {  # std exception hierarchy (typeinfo names)
    "_ZTISt12domain_error": "_ZTISt11logic_error", "_ZTISt16invalid_argument": "_ZTISt11logic_error",
    "_ZTISt12length_error": "_ZTISt11logic_error", "_ZTISt12out_of_range": "_ZTISt11logic_error",
    "_ZTISt11logic_error": "_ZTISt9exception", "_ZTISt13runtime_error": "_ZTISt9exception",
    "_ZTISt11range_error": "_ZTISt13runtime_error", "_ZTISt14overflow_error": "_ZTISt13runtime_error",
    "_ZTISt15underflow_error": "_ZTISt13runtime_error", "_ZTISt9bad_alloc": "_ZTISt9exception",
    "_ZTISt20bad_array_new_length": "_ZTISt9bad_alloc",
}

class Obj:
    __slots__ = ("size", "data", "name", "freed")
    def __init__(s, size, name): s.size = size; s.data = {}; s.name = name; s.freed = False

def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v

isint = int

class Engine:
    def __init__(self, modules, max_steps=3_000_000, int_bound=8, feasible=None):
        self.mods = modules
        for i, m in enumerate(modules): m.idx = i
        self.sym = {}
        for m in modules:
            for n, f in m.fns.items():
                if not f.internal and n not in self.sym: self.sym[n] = f
            for n, t in m.aliases.items():
                if t in m.fns and n not in self.sym: self.sym[n] = m.fns[t]
        self.models = {}
        self.max_steps = max_steps; self.int_bound = int_bound
        self.feasible = feasible
        self.calls_seen = {}
        self.stub_used = set()
        self._reset_mem()
        self.snap = None
        self.model_cache = {}
        self.prefix = []
        self.decision_nodes = []
        self.fresh = 0

    # ---- memory ------------------------------------------------------------
    def _reset_mem(self):
        self.objs = [Obj(0, "null")]; self.gaddr = {}; self.faddr = {}; self.addrf = {}
        self.steps = 0
    def alloc(self, size, name=""):
        if not isinstance(size, int): size = self.concretize(size)
        if size > 1 << 26: raise Unsupported("huge allocation")
        self.objs.append(Obj(size, name)); return (len(self.objs) - 1) << 32
    def obj(self, addr):
        if not isinstance(addr, int): raise Unsupported("symbolic pointer")
        i = addr >> 32
        if i <= 0 or i >= len(self.objs): raise Unsupported("bad pointer %x" % addr)
        return self.objs[i], addr & 0xffffffff
    def raw_store(self, addr, size, val):
        o, off = self.obj(addr)
        if off + size > o.size and o.size: raise Unsupported("out-of-bounds store to %s off %d size %d/%d" % (o.name, off, size, o.size))
        d = o.data
        e = d.get(off)
        if e is not None and e[0] == size:
            d[off] = (size, val); return
        self.clear(o, off, size)
        d[off] = (size, val)
    def clear(self, o, off, size):
        d = o.data
        for k in range(off - 15, off + size):
            e = d.get(k)
            if e is None: continue
            if k + e[0] <= off or k >= off + size: continue
            del d[k]
            if k < off or k + e[0] > off + size:    # partial overlap: split bytes
                v = e[1]
                if not isinstance(v, int):
                    v = self.tobits(v, e[0])
                for j in range(e[0]):
                    if not (off <= k + j < off + size): d[k + j] = (1, (v >> (8 * j)) & 255)
    def tobits(self, v, size):
        if isinstance(v, Node) and v.op == "const":
            f = float(v.val)
            return struct.unpack("<Q", struct.pack("<d", f))[0]
        if isinstance(v, Node) and v is dag.NAN: return 0x7ff8000000000000
        if isinstance(v, int): return v
        if v is UNDEF: return 0
        raise Unsupported("bytes of symbolic value")
    def raw_load(self, addr, size):
        o, off = self.obj(addr)
        if o.size and off + size > o.size: raise Unsupported("out-of-bounds load from %s off %d size %d/%d" % (o.name, off, size, o.size))
        e = o.data.get(off)
        if e is not None and e[0] == size: return e[1]
        if e is not None and size < e[0] and not isinstance(e[1], (int, Node, _Undef)) and z3 is not None:
            return z3.Extract(size * 8 - 1, 0, e[1])
        # assemble bytes
        v = 0; got = False; k = off
        d = o.data
        for j in range(size):
            b = None
            for back in range(0, 16):
                e = d.get(off + j - back)
                if e is not None:
                    if e[0] > back:
                        ev = e[1]
                        if not isinstance(ev, int):
                            if ev is UNDEF: b = 0; break
                            ev = self.tobits(ev, e[0])
                        b = (ev >> (8 * back)) & 255
                    break
            if b is None:
                if o.name.startswith("ext:"): b = 0
                else: continue
            else: got = True
            v |= b << (8 * j)
        if not got and not o.name.startswith("ext:"): return UNDEF
        return v
    def load_d(self, addr, size=8):
        v = self.raw_load(addr, size)
        if isinstance(v, Node): return v
        if v is UNDEF:
            self.fresh += 1
            return dag.var("undef%d" % self.fresh)
        if isinstance(v, int):
            if size == 4: return const(struct.unpack("<f", struct.pack("<I", v))[0])
            if size == 16: raise Unsupported("fp80 bits")
            return const(struct.unpack("<d", struct.pack("<Q", v))[0])
        raise Unsupported("double load of symbolic int")
    def load_i(self, addr, w):
        size = (w + 7) // 8
        v = self.raw_load(addr, size)
        if v is UNDEF: return UNDEF
        if isinstance(v, int): return v & ((1 << w) - 1)
        if w == 1 and z3 is not None and isinstance(v, z3.BitVecRef): return z3.Extract(0, 0, v) == 1
        return v
    def load(self, addr, ty):
        k = ty.k
        if k == "double": return self.load_d(addr)
        if k == "i": return self.load_i(addr, ty.w)
        if k == "ptr":
            v = self.raw_load(addr, 8)
            return v
        if k == "float": return self.load_d(addr, 4)
        if k == "x86_fp80": return self.load_d(addr, 16)
        _lay(ty)
        if k in ("arr", "vec"): return [self.load(addr + i * ty.el.size, ty.el) for i in range(ty.n)]
        if k == "struct": return [self.load(addr + o, e) for o, e in zip(ty.offs, ty.el)]
        raise Unsupported("load " + k)
    def store(self, addr, ty, v):
        k = ty.k
        if k == "double": return self.raw_store(addr, 8, v)
        if k == "i":
            if isinstance(v, Node) and ty.w <= 8: v = self.decide(v)
            if ty.w == 1 and z3 is not None and isinstance(v, z3.BoolRef): v = self.decide(v)
            return self.raw_store(addr, (ty.w + 7) // 8, v)
        if k == "ptr": return self.raw_store(addr, 8, v)
        if k == "float": return self.raw_store(addr, 4, v)
        if k == "x86_fp80": return self.raw_store(addr, 16, v)
        _lay(ty)
        if v is UNDEF: return
        if k in ("arr", "vec"):
            for i in range(ty.n): self.store(addr + i * ty.el.size, ty.el, v[i])
            return
        if k == "struct":
            for o, e, x in zip(ty.offs, ty.el, v): self.store(addr + o, e, x)
            return
        raise Unsupported("store " + k)
    def memcpy(self, dst, src, n):
        n = self.concretize(n)
        if n == 0: return
        so, soff = self.obj(src); do, doff = self.obj(dst)
        if do.size and doff + n > do.size or so.size and soff + n > so.size: raise Unsupported("memcpy out of bounds")
        items = []
        sd = so.data
        if len(sd) < n:
            ks = [k for k in sd if soff - 15 <= k < soff + n]
        else:
            ks = [k for k in range(soff - 15, soff + n) if k in sd]
        for k in ks:
            sz, v = sd[k]
            if k >= soff and k + sz <= soff + n: items.append((k - soff, sz, v))
            elif k + sz > soff and k < soff + n:
                b = self.tobits(v, sz)
                for j in range(sz):
                    if soff <= k + j < soff + n: items.append((k + j - soff, 1, (b >> (8 * j)) & 255))
        self.clear(do, doff, n)
        for o, sz, v in items: do.data[doff + o] = (sz, v)
        if so.name.startswith("ext:") and not items:
            self.memset(dst, 0, n)
    def memset(self, dst, val, n):
        n = self.concretize(n); val = self.concretize(val)
        if n == 0: return
        o, off = self.obj(dst)
        self.clear(o, off, n)
        v8 = int.from_bytes(bytes([val & 255]) * 8, "little")
        i = 0
        while i < n:
            if (off + i) % 8 == 0 and n - i >= 8: o.data[off + i] = (8, v8); i += 8
            else: o.data[off + i] = (1, val & 255); i += 1
    def cstr(self, addr):
        out = []
        while True:
            b = self.raw_load(addr, 1)
            if not isinstance(b, int) or b == 0: break
            out.append(b); addr += 1
        return bytes(out).decode("latin1")

    # ---- globals / functions -----------------------------------------------
    def gaddress(self, mod, name):
        name = name[1:].strip('"') if name[0] == "@" else name
        key = (mod.idx, name)
        a = self.gaddr.get(key)
        if a is not None: return a
        if name in mod.fns or name in self.sym or name in mod.decls or name in mod.aliases and mod.aliases[name] in mod.fns:
            f = mod.fns.get(name) or self.sym.get(name)
            ident = ("fn", f.mod.idx, f.name) if f else ("ext", name)
            a = self.faddr.get(ident)
            if a is None:
                a = self.alloc(1, "fn:" + name); self.faddr[ident] = a; self.addrf[a] = f if f else name
            self.gaddr[key] = a
            return a
        if name in mod.aliases: return self.gaddress(mod, mod.aliases[name])
        body = mod.globals.get(name)
        if body is None: raise Unsupported("global " + name)
        private = re.match(r"(private|internal)\b", body)
        if not private:
            a = self.gaddr.get(("g", name))
            if a is not None:
                self.gaddr[key] = a; return a
            # prefer a module that defines it
            ty, init = mod.global_init(name)
            if init is None:
                for m in self.mods:
                    if name in m.globals and m is not mod:
                        t2, i2 = m.global_init(name)
                        if i2 is not None: mod2, ty, init = m, t2, i2; break
                else: mod2 = mod
            else: mod2 = mod
        else:
            ty, init = mod.global_init(name); mod2 = mod
        _lay(ty)
        a = self.alloc(max(ty.size, 1) if init is not None else 0, ("" if init is not None else "ext:") + name)
        self.gaddr[key] = a
        if not private: self.gaddr[("g", name)] = a
        if init is not None: self.init_const(a, ty, init, mod2)
        return a
    def init_const(self, a, ty, v, mod):
        if v[0] == "zero" or v[0] == "undef":
            self.memset(a, 0, _lay(ty).size); return
        _lay(ty)
        if v[0] == "agg":
            if ty.k in ("arr", "vec"):
                for i, x in enumerate(v[1]): self.init_const(a + i * ty.el.size, ty.el, x, mod)
            else:
                for o, e, x in zip(ty.offs, ty.el, v[1]): self.init_const(a + o, e, x, mod)
            return
        self.store(a, ty, self.cval(ty, v, mod))
    def cval(self, ty, v, mod):
        k = v[0]
        if k == "i": return v[1]
        if k == "f": return const(v[1])
        if k == "f80":
            h = v[1][3:]
            e = int(h[:4], 16); man = int(h[4:], 16); s = -1 if e & 0x8000 else 1; e &= 0x7fff
            return const(s * Fraction(man) * (Fraction(2) ** (e - 16383 - 63))) if e != 0x7fff else (dag.INF if s > 0 else dag.NINF)
        if k == "undef":
            if ty.k in ("arr", "vec"): return [self.cval(ty.el, v, mod) for _ in range(ty.n)]
            if ty.k == "struct": return [self.cval(e, v, mod) for e in ty.el]
            if ty.k in ("double", "float"):
                return const(0)
            return UNDEF if ty.k != "i" else 0
        if k == "zero":
            if ty.k in ("arr", "vec"): return [self.cval(ty.el, v, mod) for _ in range(ty.n)]
            if ty.k == "struct": return [self.cval(e, v, mod) for e in ty.el]
            if ty.k in ("double", "float", "x86_fp80"): return const(0)
            return 0
        if k == "agg":
            el = ty.el if ty.k == "struct" else [ty.el] * ty.n
            return [self.cval(e, x, mod) for e, x in zip(el, v[1])]
        if k == "g": return self.gaddress(mod, v[1])
        if k == "cgep":
            base = self.cval(v[2][0][0], v[2][0][1], mod)
            return base + self.gepoff(v[1], [self.cval(t, x, mod) if x[0] != "i" else sx(x[1], t.w) for t, x in v[2][1:]])
        if k == "ccast":
            x = self.cval(v[2], v[3], mod)
            if v[1] in ("inttoptr", "ptrtoint", "addrspacecast"): return x
            if v[1] == "trunc": return x & ((1 << v[4].w) - 1)
            if v[1] == "zext": return x
            if v[1] == "bitcast": return x
            raise Unsupported("ccast " + v[1])
        if k == "cbin":
            a = self.cval(v[2], v[3], mod); b = self.cval(v[2], v[4], mod)
            m = (1 << v[2].w) - 1
            return {"add": a + b, "sub": a - b, "xor": a ^ b, "and": a & b, "or": a | b, "mul": a * b}[v[1]] & m
        if k == "cicmp":
            a = self.cval(v[2], v[3], mod); b = self.cval(v[2], v[4], mod)
            return self.icmp(v[1], a, b, 64)
        raise Unsupported("const " + k)
    @staticmethod
    def gepoff(ty, idx):
        _lay(ty)
        off = idx[0] * ty.size
        t = ty
        for i in idx[1:]:
            _lay(t)
            if t.k == "struct": off += t.offs[i]; t = t.el[i]
            else: _lay(t.el); off += i * t.el.size; t = t.el
        return off

    # ---- decisions ---------------------------------------------------------
    def decide(self, c):
        """concrete 0/1 for the boolean c on the current path"""
        if isinstance(c, int): return 1 if c else 0
        if c is UNDEF: return 0
        if isinstance(c, Node):
            if c.op == "bnot": return 1 - self.decide(c.args[0])
            if c.op == "band": return self.decide(c.args[1]) if self.decide(c.args[0]) else 0
            if c.op == "bor": return 1 if self.decide(c.args[0]) else self.decide(c.args[1])
            if c.op not in ("lt", "le", "eq"): raise Unsupported("decide on " + c.op)
            known = self.known.get(c.id)
            if known is not None: return known
            key = c
        else:
            c = z3.simplify(c) if z3 is not None else c
            if isinstance(c, z3.BitVecRef): c = z3.simplify(c == 1)
            if z3.is_true(c): return 1
            if z3.is_false(c): return 0
            key = c
            kk = ("z", c.get_id())
            if kk in self.known: return self.known[kk]
            f = self.zforced(c)
            if f is not None:
                self.known[kk] = f; self.keep.append(c); return f
        i = len(self.trail)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = None
            if self.feasible is not None:
                for cand in (1, 0):
                    if self.feasible(self, self.trail + [(key, cand)]):
                        if d is None: d = cand
                        else: self.alts.append(i)
                if d is None: raise Infeasible()
            else:
                d = 1; self.alts.append(i)
        self.trail.append((key, d))
        if isinstance(key, Node): self.known[key.id] = d; self._imply(key, d)
        else: self.known[kk] = d; self.keep.append(key)
        return d
    def zforced(self, c):
        """value of a pure bit-vector condition if the path determines it"""
        zc = self.zfacts + [k if d else z3.Not(k) for k, d in self.trail if not isinstance(k, Node)]
        s = z3.Solver(); s.set("timeout", 5000); s.add(*zc)
        s.push(); s.add(c); a = s.check(); s.pop()
        s.push(); s.add(z3.Not(c)); b = s.check(); s.pop()
        if a == z3.unsat and b == z3.unsat: raise Infeasible()
        if a == z3.unsat: return 0
        if b == z3.unsat: return 1
        return None
    def _imply(self, c, d):
        # a<b true  => a<=b true, b<a false, b<=a false, a==b false ...
        a, b = c.args
        def put(op, x, y, v):
            n = dcmp(op, x, y)
            if isinstance(n, Node): self.known.setdefault(n.id, v)
        if c.op == "lt":
            if d: put("le", a, b, 1); put("lt", b, a, 0); put("le", b, a, 0); put("eq", a, b, 0)
            else: put("le", b, a, 1)
        elif c.op == "le":
            if d: put("lt", b, a, 0)
            else: put("lt", b, a, 1); put("lt", a, b, 0); put("eq", a, b, 0); put("le", b, a, 1)
        elif d:
            put("le", a, b, 1); put("le", b, a, 1); put("lt", a, b, 0); put("lt", b, a, 0)
    def assume(self, c):
        if not self.decide(c): raise Infeasible()
    def concretize(self, v):
        if isinstance(v, int): return v
        if isinstance(v, Node) and v.op == "const": return self.tobits(v, 8)
        if v is UNDEF: return 0
        if z3 is not None and isinstance(v, z3.BitVecRef):
            s = z3.Solver(); s.set("timeout", 5000)
            s.add(*(self.zfacts + [k if d else z3.Not(k) for k, d in self.trail if not isinstance(k, Node)]))
            if s.check() == z3.sat:
                k = s.model().eval(v, model_completion=True)
                s.add(v != k)
                if s.check() == z3.unsat: return k.as_long()
            for k in range(self.int_bound + 1):
                if self.decide(v == k): return k
            raise Bound("symbolic integer beyond %d: %s" % (self.int_bound, str(v)[:200]))
        raise Unsupported("concretize %r" % (v,))
    def dtoi(self, v, w, signed):
        """fptoui/fptosi: enumerate the integer value within the bound"""
        if v.op == "const":
            x = int(v.val)
            return x & ((1 << w) - 1)
        if dag.special(v): raise Unsupported("fptoint of nan/inf")
        h = self.dtoi_hook
        if h is not None:
            r = h(self, v, w, signed)
            if r is not None: return r
        one = const(1)
        if self.decide(dcmp("lt", v, one)):
            if signed:
                if self.decide(dcmp("lt", v, const(0))):
                    for k in range(0, self.int_bound + 1):
                        if self.decide(dcmp("lt", const(-k - 1), v)): return (-k) & ((1 << w) - 1)
                    raise Bound("fptosi below -%d" % self.int_bound)
                return 0
            if self.decide(dcmp("le", v, const(-1))):
                raise Unsupported("fptoui of a negative value (undefined behaviour)")
            return 0
        for k in range(1, self.int_bound + 1):
            if self.decide(dcmp("lt", v, const(k + 1))): return k
        raise Bound("fptoui beyond %d" % self.int_bound)
    dtoi_hook = None; share_roots = False; noshare = frozenset()
    itod_hook = None
    def truncated(self, v):
        """the integer obtained by dropping the fraction of v, with its defining bounds on the path"""
        n = dag.un("trunc", v)
        if n.op == "const": return intn(n)
        key = ("tr", n.id)
        if key not in self.known:
            self.known[key] = 1
            if self.decide(dcmp("lt", v, const(0))): f = [dcmp("le", v, n), dcmp("lt", dag.sub(n, ONE_), v), dcmp("le", n, const(0))]
            else: f = [dcmp("le", n, v), dcmp("lt", v, dag.add(n, ONE_)), dcmp("le", const(0), n)]
            for c in f:
                if isinstance(c, Node) and c.id not in self.known: self.trail.append((c, 1)); self.known[c.id] = 1
        return IntN(n)
    def itod(self, v, w, signed):
        if isinstance(v, IntN): return v.n
        if isinstance(v, int): return const(sx(v, w) if signed else v)
        if self.itod_hook: return self.itod_hook(self, v, w, signed)
        if isinstance(v, Node): v = self.decide(v); return const(v)
        if z3 is not None and isinstance(v, z3.BoolRef): return const(self.decide(v))
        if z3 is not None and isinstance(v, z3.BitVecRef):
            v = self.concretize(v); return const(sx(v, w) if signed else v)
        raise Unsupported("int to double of symbolic int")

    # ---- integer ops ---------------------------------------------------------
    def _in(self, x, w):
        if isinstance(x, IntN): return x.n
        if isinstance(x, int): return const(sx(x, w))
        raise Unsupported("mixed symbolic integers")
    def icmp(self, p, a, b, w):
        if isinstance(a, IntN) or isinstance(b, IntN):
            if a is UNDEF or b is UNDEF: return 0
            x = self._in(a, w); y = self._in(b, w)
            if p == "ult" and isinstance(b, int) and sx(b, w) > 0:
                return 1 if not self.decide(dcmp("lt", x, const(0))) and self.decide(dcmp("lt", x, y)) else 0
            if p == "ugt" and isinstance(b, int) and sx(b, w) >= 0:
                return 1 if self.decide(dcmp("lt", x, const(0))) or self.decide(dcmp("lt", y, x)) else 0
            if p == "eq": return dcmp("eq", x, y)
            if p == "ne":
                r = dcmp("eq", x, y); return (0 if r else 1) if not isinstance(r, Node) else dag.mk("bnot", (r,))
            if p[0] == "u": raise Unsupported("unsigned comparison of a symbolic integer")
            return self.fcmp("o" + p[1:], x, y)
        if isinstance(a, int) and isinstance(b, int):
            if p == "eq": return 1 if a == b else 0
            if p == "ne": return 1 if a != b else 0
            if p[0] == "s": a = sx(a, w); b = sx(b, w)
            q = p[1:]
            return 1 if (a < b if q == "lt" else a <= b if q == "le" else a > b if q == "gt" else a >= b) else 0
        if a is UNDEF or b is UNDEF: return 0
        if isinstance(a, Node) or isinstance(b, Node):
            if isinstance(a, Node) and a.op in ("lt", "le", "eq", "band", "bor", "bnot") or isinstance(b, Node) and b.op in ("lt", "le", "eq", "band", "bor", "bnot"):
                a = self.decide(a); b = self.decide(b)
                return self.icmp(p, a, b, w)
            a = self.tobits(a, 8) if isinstance(a, Node) and a.op == "const" else a
            b = self.tobits(b, 8) if isinstance(b, Node) and b.op == "const" else b
            if isinstance(a, int) and isinstance(b, int): return self.icmp(p, a, b, w)
            raise Unsupported("integer comparison of double bits")
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            a = self.decide(a); b = self.decide(b); return self.icmp(p, a, b, w)
        if p == "eq": return a == b
        if p == "ne": return a != b
        f = {"slt": lambda x, y: x < y, "sle": lambda x, y: x <= y, "sgt": lambda x, y: x > y, "sge": lambda x, y: x >= y,
             "ult": z3.ULT, "ule": z3.ULE, "ugt": z3.UGT, "uge": z3.UGE}[p]
        if isinstance(a, int): a = z3.BitVecVal(a, w)
        return f(a, b)
    def fcmp(self, p, a, b):
        if p == "true": return 1
        if p == "false": return 0
        if a is dag.NAN or b is dag.NAN:
            return 1 if p[0] == "u" else 0
        if p == "ord" or p == "uno":
            return 1 if p == "ord" else 0
        q = p[1:]
        if q == "lt": r = dcmp("lt", a, b)
        elif q == "le": r = dcmp("le", a, b)
        elif q == "gt": r = dcmp("lt", b, a)
        elif q == "ge": r = dcmp("le", b, a)
        elif q == "eq": r = dcmp("eq", a, b)
        elif q == "ne":
            r = dcmp("eq", a, b)
            return (0 if r else 1) if not isinstance(r, Node) else dag.mk("bnot", (r,))
        else: raise Unsupported("fcmp " + p)
        # canonical polarity: express a>=b... via lt where possible so that a
        # condition and its complement share one decision
        if isinstance(r, Node) and r.op == "le":
            x, y = r.args
            return dag.mk("bnot", (dcmp("lt", y, x),))
        return r if isinstance(r, Node) else (1 if r else 0)
    def ibin(self, op, a, b, w):
        m = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == "add": return (a + b) & m
            if op == "sub": return (a - b) & m
            if op == "mul": return (a * b) & m
            if op == "and": return a & b
            if op == "or": return a | b
            if op == "xor": return a ^ b
            if op == "shl": return (a << b) & m if b < w else 0
            if op == "lshr": return a >> b
            if op == "ashr": return (sx(a, w) >> b) & m
            if op == "udiv": return a // b
            if op == "urem": return a % b
            a = sx(a, w); b = sx(b, w)
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0): q = -q
            if op == "sdiv": return q & m
            if op == "srem": return (a - q * b) & m
            raise Unsupported(op)
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, IntN) or isinstance(b, IntN):
            if op == "shl" and isinstance(b, int): return intn(dag.mul(a.n, const(1 << b)))
            if op == "or" and 0: pass
            x = self._in(a, w); y = self._in(b, w)
            if op == "add": return intn(dag.add(x, y))
            if op == "sub": return intn(dag.sub(x, y))
            if op == "mul": return intn(dag.mul(x, y))
            if op in ("sdiv", "srem") and isinstance(b, int) and sx(b, w) > 0:
                q = self.truncated(dag.div(x, y))
                return q if op == "sdiv" else intn(dag.sub(x, dag.mul(q.n, y)))
            raise Unsupported("%s of a symbolic integer" % op)
        if w == 1:
            if op in ("and", "or", "xor"): return self.bbin(op, a, b)
        if isinstance(a, Node) or isinstance(b, Node):
            if isinstance(a, Node) and isinstance(b, int):
                if op == "xor" and b == 1 << 63: return dag.neg(a)
                if op == "and" and b == (1 << 63) - 1: return self.fabs(a)
            return self.ibin(op, self.concretize(a), self.concretize(b), w)
        if isinstance(a, z3.BoolRef): a = z3.If(a, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if isinstance(b, z3.BoolRef): b = z3.If(b, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if isinstance(a, int): a = z3.BitVecVal(a, w)
        if isinstance(b, int): b = z3.BitVecVal(b, w)
        r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b,
             "xor": lambda: a ^ b, "shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b,
             "udiv": lambda: z3.UDiv(a, b), "urem": lambda: z3.URem(a, b), "sdiv": lambda: a / b, "srem": lambda: z3.SRem(a, b)}[op]()
        r = z3.simplify(r)
        return r.as_long() if z3.is_bv_value(r) else r
    def bbin(self, op, a, b):
        if isinstance(a, int): a, b = b, a
        if isinstance(b, int):
            if op == "and": return a if b else 0
            if op == "or": return 1 if b else a
            return self.bnot(a) if b else a
        if isinstance(a, Node) and isinstance(b, Node):
            if op == "xor": return self.decide(a) ^ self.decide(b)
            return dag.mk("band" if op == "and" else "bor", (a, b))
        if isinstance(a, Node) or isinstance(b, Node):
            x = self.decide(a); y = self.decide(b)
            return {"and": x & y, "or": x | y, "xor": x ^ y}[op]
        return {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op](a, b)
    def bnot(self, a):
        if isinstance(a, int): return 1 - a
        if isinstance(a, Node): return a.args[0] if a.op == "bnot" else dag.mk("bnot", (a,))
        return z3.Not(a)
    def zext(self, v, f, t):
        if isinstance(v, int): return v
        if isinstance(v, IntN): raise Unsupported("zext of a symbolic integer")
        if v is UNDEF: return UNDEF
        if f == 1: 
            if isinstance(v, Node): return self.decide(v)
            return z3.If(v, z3.BitVecVal(1, t), z3.BitVecVal(0, t))
        if isinstance(v, Node): raise Unsupported("zext of double bits")
        return z3.ZeroExt(t - f, v)
    def sext(self, v, f, t):
        if isinstance(v, int): return sx(v, f) & ((1 << t) - 1)
        if isinstance(v, IntN): return v
        if v is UNDEF: return UNDEF
        if f == 1:
            if isinstance(v, Node): return ((1 << t) - 1) if self.decide(v) else 0
            return z3.If(v, z3.BitVecVal(-1, t), z3.BitVecVal(0, t))
        return z3.SignExt(t - f, v)
    def trunc(self, v, f, t):
        if isinstance(v, int): return v & ((1 << t) - 1)
        if v is UNDEF: return UNDEF
        if isinstance(v, IntN): raise Unsupported("narrowing of a symbolic integer")
        if isinstance(v, Node): raise Unsupported("trunc of double bits")
        if isinstance(v, z3.BoolRef): return self.decide(v)
        if t == 1: return z3.Extract(0, 0, v) == 1
        return z3.Extract(t - 1, 0, v)
    def select(self, c, a, b):
        if isinstance(c, int): return a if c else b
        if isinstance(c, list): return [self.select(x, y, z) for x, y, z in zip(c, a, b)]
        if a is b: return a
        if not isinstance(c, Node) and c is not UNDEF and isinstance(a, (int, z3.BitVecRef)) and isinstance(b, (int, z3.BitVecRef)) and (isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef)):
            w = a.size() if not isinstance(a, int) else b.size()
            aa = z3.BitVecVal(a, w) if isinstance(a, int) else a
            bb = z3.BitVecVal(b, w) if isinstance(b, int) else b
            return z3.simplify(z3.If(c, aa, bb))
        # boolean select: and/or of conditions
        if isinstance(c, Node) and isinstance(b, int) and b == 0 and isinstance(a, Node) and a.op in ("lt", "eq", "le", "bnot", "band", "bor"):
            return dag.mk("band", (c, a))
        if isinstance(c, Node) and isinstance(a, int) and a == 1 and isinstance(b, Node) and b.op in ("lt", "eq", "le", "bnot", "band", "bor"):
            return dag.mk("bor", (c, b))
        return a if self.decide(c) else b
    # ---- double ops -----------------------------------------------------------
    def fabs(self, a):
        if a.op == "const": return const(abs(a.val))
        if a.op in ("sqrt", "abs", "exp", "cosh"): return a
        if dag.special(a): return dag.INF if a is not dag.NAN else a
        if a.op == "neg": a = a.args[0]
        if self.lazy_abs: return dag.un("abs", a)
        return dag.neg(a) if self.decide(dcmp("lt", a, const(0))) else a
    lazy_abs = False
    def fmin(self, a, b): return a if self.decide(self.fcmp("olt", a, b)) else b
    def fmax(self, a, b): return b if self.decide(self.fcmp("olt", a, b)) else a
    def math(self, name, args):
        a = args[0]
        for x in args:
            if not isinstance(x, Node): raise Unsupported("math on non-double")
        if name in ("sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh",
                    "atanh", "exp", "log", "cbrt", "expm1", "log1p"):
            if dag.special(a):
                if a is dag.INF and name in ("sqrt", "exp", "log", "cosh", "sinh", "asinh"): return dag.INF
                return dag.NAN
            if name == "cbrt": return dag.pow_(a, const(Fraction(1, 3)))
            if name == "expm1": return dag.sub(dag.exp(a), dag.ONE)
            if name == "log1p": return dag.log(dag.add(a, dag.ONE))
            return dag.un(name, a)
        if name == "log10": return dag.div(dag.log(a), dag.log(const(10)))
        if name == "log2": return dag.div(dag.log(a), dag.log(const(2)))
        if name == "exp2": return dag.pow_(const(2), a)
        if name == "fabs": return self.fabs(a)
        if name == "atan2": return dag.atan2(args[0], args[1])
        if name == "hypot": return dag.sqrt(dag.add(dag.mul(a, a), dag.mul(args[1], args[1])))
        if name == "pow":
            b = args[1]
            if b.op == "const" and b.val.denominator not in (1, 2):
                # 1.5, 2/3, 1/3 ... : keep as pow with rationalised exponent
                from alg import rationalize
                r = rationalize(b.val)
                b = const(r if isinstance(r, Fraction) else b.val)
            return dag.pow_(a, b)
        if name == "fma" or name == "fmuladd": return dag.add(dag.mul(a, args[1]), args[2])
        if name in ("fmin", "minnum", "minimum"): return self.fmin(a, args[1])
        if name in ("fmax", "maxnum", "maximum"): return self.fmax(a, args[1])
        if name == "fmod":
            if a.op == "const" and args[1].op == "const":
                return const(math.fmod(float(a.val), float(args[1].val)))
            return dag.mk("fmod", (a, args[1]))
        if name == "copysign":
            s = args[1]
            r = self.fabs(a)
            return dag.neg(r) if self.decide(dcmp("lt", s, const(0))) else r
        if name in ("floor", "ceil", "trunc"):
            if a.op == "const": return dag.un(name, a)
            return dag.mk(name, (a,))
        if name in ("round", "rint", "nearbyint"):
            if a.op == "const": return const(Fraction(math.floor(a.val + Fraction(1, 2))))
            return dag.mk("floor", (dag.add(a, dag.HALF),))
        if name == "ldexp" or name == "scalbn": raise Unsupported("ldexp")
        raise Unsupported("math " + name)
    def vec2(self, f, a, b):
        if isinstance(a, list): return [f(x, y) for x, y in zip(a, b)]
        return f(a, b)

    # ---- calls ----------------------------------------------------------------
    def callptr(self, addr, args):
        if not isinstance(addr, int): raise Unsupported("symbolic function pointer")
        f = self.addrf.get(addr)
        if f is None: raise Unsupported("call through bad pointer %x" % addr)
        if isinstance(f, str): return self.call_ext(f, args)
        return self.run(f, args)
    def call(self, mod, name, args):
        m = self.models.get(name)
        if m is not None: return m(self, args)
        f = mod.fns.get(name)
        if f is None or not f.internal:
            f = self.sym.get(name)
        if f is None:
            return self.call_ext(name, args)
        return self.run(f, args)
    def call_ext(self, name, args):
        m = self.models.get(name)
        if m is None:
            import extmodels
            m = self.model_cache.get(name)
            if m is None:
                m = extmodels.lookup(name)
                if m is None: raise Unsupported("external " + name)
                self.model_cache[name] = m
        return m(self, args)
    def run(self, f, args):
        if f.name in self.models: return self.models[f.name](self, args)
        code = f.code
        if code is None:
            import codegen
            code = f.code = codegen.compile_fn(self, f)
            self.calls_seen[f.name] = code.nlines
        elif f.name not in self.calls_seen: self.calls_seen[f.name] = code.nlines
        R = [None] * code.nregs
        for i, r in enumerate(code.params):
            R[r] = args[i]
        self.depth += 1
        if self.depth > 400: raise Unsupported("recursion too deep")
        b = 0
        blocks = code.blocks
        try:
            while True:
                self.steps += 1
                if self.steps > self.max_steps: raise Bound("step limit")
                b = blocks[b](R, self)
                if b.__class__ is tuple: return b[0]
        finally:
            self.depth -= 1
    # exceptions
    def typeid(self, name):
        return 1 + (hash(name) & 0x3fffffff)
    def ti_name(self, addr):
        if addr == 0: return None
        o, _ = self.obj(addr)
        return o.name[4:] if o.name.startswith("ext:") else o.name
    def ti_bases(self, name):
        if name in BASES: return [BASES[name]]
        # classes defined in a module: __si_class_type_info {vtable, name, base}
        for m in self.mods:
            if name in m.globals:
                refs = re.findall(r'@(_ZTI[\w]+)', m.globals[name])
                return [r for r in refs if r != name]
        return []
    def ti_match(self, clause, thrown):
        if clause is None: return True
        todo = [thrown]; seen = set()
        while todo:
            t = todo.pop()
            if t == clause: return True
            if t in seen: continue
            seen.add(t); todo += self.ti_bases(t)
        return False
    def landing(self, ex, clauses, cleanup, mod):
        """(stop here?, selector)"""
        for kind, v in clauses:
            if kind == "catch":
                ti = None if v == ("i", 0) else v[1][1:].strip('"')
                if self.ti_match(ti, ex.ti): return True, (self.typeid(ti) if ti else 1)
            else: return True, 0
        return cleanup, 0

    # ---- exploration ------------------------------------------------------------
    def begin_path(self, prefix):
        dag.DROP.clear()
        self.prefix = prefix; self.trail = []; self.alts = []; self.known = {}; self.keep = []
        self.depth = 0; self.fresh = 0; self.exc_stack = []
        self.events = []; self.root_count = 0; self.facts = []; self.zfacts = []
        if self.snap is not None:
            objs, gaddr, faddr, addrf = self.snap
            self.objs = []
            for o in objs:
                n = Obj(o.size, o.name); n.data = dict(o.data); self.objs.append(n)
            self.gaddr = dict(gaddr); self.faddr = dict(faddr); self.addrf = dict(addrf)
        self.steps = 0
    def init_globals(self):
        self._reset_mem(); self.begin_path([]); self.init_failed = []
        for m in self.mods:
            if "llvm.global_ctors" in m.globals:
                for fn in re.findall(r'@([\w.]+)', m.globals["llvm.global_ctors"]):
                    f = m.fns.get(fn)
                    if not f: continue
                    try: self.run(f, []); continue
                    except (Unsupported, Bound, SymThrow, Infeasible, KeyError) as e: self.init_failed.append("%s: %s" % (fn, e))
                    for l in f.lines:                     # piecewise
                        c = re.search(r'call [^@]*@("[^"]*"|[\w.$]+)\(', l)
                        if c and "__cxx_global_var_init" in c.group(1):
                            try: self.run(m.fns[c.group(1).strip('"')], [])
                            except (Unsupported, Bound, SymThrow, Infeasible, KeyError): pass
        self.snap = (self.objs, self.gaddr, self.faddr, self.addrf)
        calls = self.calls_seen; self.calls_seen = {}
        return calls
    def explore(self, thunk, max_paths=200, time_limit=None):
        """thunk(engine) -> result ; yields Path objects"""
        import time
        t0 = time.time()
        if self.snap is None: self.init_globals()
        work = [[]]; n = 0
        while work:
            prefix = work.pop()
            if n >= max_paths or (time_limit and time.time() - t0 > time_limit):
                yield Path("cutoff", None, [], self, note="path/time budget: %d unexplored prefixes" % (len(work) + 1))
                return
            self.begin_path(list(prefix))
            try:
                r = thunk(self); out = ("ok", r)
            except SymThrow as e: out = ("throw", e.ti)
            except Infeasible: out = ("infeasible", None)
            except Restart: work.append(prefix); continue
            except Bound as e: out = ("bound", str(e))
            except Unsupported as e: out = ("unsupported", str(e))
            except RecursionError: out = ("unsupported", "recursion")
            except (z3.Z3Exception, TypeError, AttributeError, KeyError, IndexError, NotImplementedError, SyntaxError, ZeroDivisionError, ValueError) as e:
                if getattr(self, "debug", False): raise
                out = ("unsupported", "%s: %s" % (type(e).__name__, e))
            for i in reversed(self.alts):
                if i >= len(prefix):
                    work.append([d for _, d in self.trail[:i]] + [1 - self.trail[i][1]])
            n += 1
            if out[0] == "infeasible": continue
            yield Path(out[0], out[1], list(self.trail), self)

class IntN:
    """symbolic 32/64 bit integer as an integer-valued real expression (no overflow: stated assumption)"""
    __slots__ = ("n",)
    def __init__(s, n): s.n = n
def intn(n):
    if n.op == "const" and Fraction(n.val).denominator == 1: return int(n.val) & ((1 << 64) - 1)
    return IntN(n)

class Path:
    def __init__(s, kind, res, trail, eng, note=""):
        s.kind = kind; s.res = res; s.trail = trail; s.note = note
        s.events = list(getattr(eng, "events", [])); s.facts = list(getattr(eng, "facts", []))
        s.memo = {}; s.dropped = list(dag.DROP.values())
