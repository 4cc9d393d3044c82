"""IR function -> Python code (one Python function per basic block)."""
import re
from fractions import Fraction
import dag
from ir import P, tokenize, _lay, FASTMATH, PATTR, Ty
import symex as X

class Code: pass

def compile_fn(E, fn):
    mod = fn.mod
    params = mod.parse_head(fn)
    # split into blocks
    blocks = []; cur = None; lines = fn.lines
    i = 0; n = len(lines)
    nparam = len(params)
    first = str(nparam)
    while i < n:
        l = lines[i]; i += 1
        if not l.strip(): continue
        if l[0] != " ":
            m = re.match(r'("[^"]*"|[-\w$.]+):', l)
            if m:
                cur = ["%" + m.group(1), []]; blocks.append(cur); continue
            continue
        if cur is None:
            cur = ["%" + first, []]; blocks.append(cur)
        s = l.strip()
        if s.startswith(";"): continue
        if s.startswith("switch") :
            while "]" not in s:
                s += " " + lines[i].strip(); i += 1
        elif " invoke " in " " + s:
            s += " " + lines[i].strip(); i += 1
        elif "landingpad" in s:
            while i < n and re.match(r"\s+(cleanup|catch|filter)\b", lines[i]):
                s += " " + lines[i].strip(); i += 1
        cur[1].append(s)
    regs = {}
    def reg(name):
        r = regs.get(name)
        if r is None: r = regs[name] = len(regs)
        return r
    pr = [reg(nm) for _, nm in params]
    bidx = {}
    for k, b in enumerate(blocks):
        nm = b[0]; bidx[nm] = k
        if nm[1] == '"': bidx["%" + nm[2:-1]] = k
        else: bidx['%"' + nm[1:] + '"'] = k
    # pre-scan phis
    phis = [[] for _ in blocks]
    pads = {}
    parsed = []
    consts = {}
    env = {"dag": dag, "X": X, "SymThrow": X.SymThrow}
    cn = [0]
    def K(obj):
        nm = "K%d" % cn[0]; cn[0] += 1; env[nm] = obj; return nm
    M = K(mod)
    def val(ty, v):
        k = v[0]
        if k == "r": return "R[%d]" % reg(v[1])
        if k == "i": return str(v[1])
        if k == "f": return K(dag.const(v[1]))
        if k == "g": return "E.gaddress(%s,%r)" % (M, v[1])
        if k == "undef":
            if ty.k == "ptr": return "0"
            if ty.k == "i": return "0"
        return "E.cval(%s,%s,%s)" % (K(ty), K(v), M)
    for bi, (nm, ins) in enumerate(blocks):
        lst = []
        for s in ins:
            s = strip_meta(s)
            dst = None
            m = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = (.*)$', s)
            if m: dst = m.group(1); s = m.group(2)
            lst.append((dst, s))
            if s.startswith("phi "):
                p = P(mod, tokenize(s)); p.next()
                while p.peek() in FASTMATH: p.next()
                ty = p.type(); inc = {}
                while True:
                    p.expect("["); v = p.value(ty); p.expect(","); lb = p.next(); p.expect("]")
                    inc[bidx[lb]] = v
                    if not p.accept(","): break
                phis[bi].append((reg(dst), ty, inc))
            elif s.startswith("landingpad"):
                p = P(mod, tokenize(s)); p.next(); p.type()
                cl = []; cleanup = False
                while p.peek():
                    w = p.next()
                    if w == "cleanup": cleanup = True
                    elif w in ("catch", "filter"):
                        t = p.type(); cl.append((w, p.value(t)))
                pads[bi] = (cl, cleanup)
        parsed.append(lst)
    src = []
    def edge(frm, to, ind):
        ph = phis[to]
        if ph:
            ls = ",".join("R[%d]" % r for r, _, _ in ph); rs = ",".join(val(t, inc[frm]) for _, t, inc in ph)
            src.append(ind + ls + " = " + rs)
        src.append(ind + "return %d" % to)
    nl = 0
    for bi, (nm, _) in enumerate(blocks):
        src.append("def b%d(R,E):" % bi)
        ind = "  "
        nb = len(src)
        for dst, s in parsed[bi]:
            nl += 1
            gen(E, mod, s, dst, reg, val, K, M, src, ind, bi, bidx, edge, pads)
        if len(src) == nb: src.append("  return (None,)")
    text = "\n".join(src)
    exec(compile(text, "ir:" + fn.name, "exec"), env)
    c = Code(); c.blocks = [env["b%d" % k] for k in range(len(blocks))]; c.nregs = len(regs); c.params = pr; c.nlines = nl
    c.src = text
    return c

def strip_meta(s):
    # cut at the first ", !" outside quotes
    if ", !" in s:
        i = 0; q = False
        while i < len(s):
            ch = s[i]
            if ch == '"': q = not q
            elif not q and s.startswith(", !", i): return s[:i]
            i += 1
    return s

MATHRE = re.compile(r"llvm\.(\w+)\.(f64|f32|f80)$")
MATHI = {"sqrt", "sin", "cos", "exp", "log", "pow", "fabs", "floor", "ceil", "trunc", "fma", "fmuladd", "minnum",
         "maxnum", "copysign", "round", "rint", "nearbyint", "log10", "log2", "exp2", "minimum", "maximum", "tan"}

def gen(E, mod, s, dst, reg, val, K, M, src, ind, bi, bidx, edge, pads):
    toks = tokenize(s)
    p = P(mod, toks)
    op = p.next()
    D = "R[%d] = " % reg(dst) if dst else ""
    def out(x): src.append(ind + x)
    if op in ("tail", "musttail", "notail"): op = p.next()
    if op == "phi": return
    if op in ("fadd", "fsub", "fmul", "fdiv"):
        while p.peek() in FASTMATH: p.next()
        ty = p.type(); a = p.value(ty); p.expect(","); b = p.value(ty)
        f = {"fadd": "dag.add", "fsub": "dag.sub", "fmul": "dag.mul", "fdiv": "dag.div"}[op]
        if ty.k == "vec": out("%sE.vec2(%s,%s,%s)" % (D, f, val(ty, a), val(ty, b)))
        else: out("%s%s(%s,%s)" % (D, f, val(ty, a), val(ty, b)))
    elif op == "fneg":
        while p.peek() in FASTMATH: p.next()
        ty = p.type(); a = p.value(ty)
        if ty.k == "vec": out("%s[dag.neg(x) for x in %s]" % (D, val(ty, a)))
        else: out("%sdag.neg(%s)" % (D, val(ty, a)))
    elif op == "frem":
        ty = p.type(); a = p.value(ty); p.expect(","); b = p.value(ty)
        out("%sE.math('fmod',[%s,%s])" % (D, val(ty, a), val(ty, b)))
    elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
        while p.peek() in ("nuw", "nsw", "exact", "disjoint"): p.next()
        ty = p.type(); a = p.value(ty); p.expect(","); b = p.value(ty)
        if ty.k == "vec":
            out("%s[E.ibin(%r,x,y,%d) for x,y in zip(%s,%s)]" % (D, op, ty.el.w, val(ty, a), val(ty, b)))
        else: out("%sE.ibin(%r,%s,%s,%d)" % (D, op, val(ty, a), val(ty, b), ty.w))
    elif op == "icmp":
        if p.peek() == "samesign": p.next()
        pr = p.next(); ty = p.type(); a = p.value(ty); p.expect(","); b = p.value(ty)
        if ty.k == "vec":
            out("%s[E.icmp(%r,x,y,%d) for x,y in zip(%s,%s)]" % (D, pr, ty.el.w or 64, val(ty, a), val(ty, b)))
        else: out("%sE.icmp(%r,%s,%s,%d)" % (D, pr, val(ty, a), val(ty, b), ty.w or 64))
    elif op == "fcmp":
        while p.peek() in FASTMATH: p.next()
        pr = p.next(); ty = p.type(); a = p.value(ty); p.expect(","); b = p.value(ty)
        if ty.k == "vec": out("%s[E.fcmp(%r,x,y) for x,y in zip(%s,%s)]" % (D, pr, val(ty, a), val(ty, b)))
        else: out("%sE.fcmp(%r,%s,%s)" % (D, pr, val(ty, a), val(ty, b)))
    elif op == "load":
        while p.peek() in ("volatile", "atomic"): p.next()
        ty = p.type(); p.expect(","); pt = p.type(); a = p.value(pt)
        if ty.k == "double": out("%sE.load_d(%s)" % (D, val(pt, a)))
        elif ty.k == "i": out("%sE.load_i(%s,%d)" % (D, val(pt, a), ty.w))
        elif ty.k == "ptr": out("%sE.raw_load(%s,8)" % (D, val(pt, a)))
        else: out("%sE.load(%s,%s)" % (D, val(pt, a), K(ty)))
    elif op == "store":
        while p.peek() in ("volatile", "atomic"): p.next()
        ty = p.type(); v = p.value(ty); p.expect(","); pt = p.type(); a = p.value(pt)
        if ty.k in ("double", "ptr"): out("E.raw_store(%s,8,%s)" % (val(pt, a), val(ty, v)))
        else: out("E.store(%s,%s,%s)" % (val(pt, a), K(ty), val(ty, v)))
    elif op == "getelementptr":
        while p.peek() in ("inbounds", "nuw", "nusw"): p.next()
        ty = p.type(); p.expect(","); pt = p.type(); base = p.value(pt)
        idx = []
        while p.accept(","):
            it = p.type(); idx.append((it, p.value(it)))
        # static part
        _lay(ty)
        off = 0; terms = []
        t = ty
        for k, (it, v) in enumerate(idx):
            if k == 0: sz = ty.size
            else:
                _lay(t)
                if t.k == "struct":
                    off += t.offs[v[1]]; t = t.el[v[1]]; continue
                _lay(t.el); sz = t.el.size; t = t.el
            if v[0] == "i": off += sz * X.sx(v[1], it.w)
            else:
                terms.append("E.sidx(%s,%d)*%d" % (val(it, v), it.w, sz))
        e = val(pt, base)
        if terms: e = e + " + " + " + ".join(terms)
        if off: e = e + (" + %d" % off)
        out("%sE.padd(%s)" % (D, e) if terms else "%s%s" % (D, e))
    elif op == "alloca":
        if p.peek() == "inalloca": p.next()
        ty = p.type(); _lay(ty); n = "1"
        if p.accept(","):
            if p.peek() != "align":
                it = p.type(); n = val(it, p.value(it))
        out("%sE.alloc(%s*%d,'alloca')" % (D, n, max(ty.size, 1)))
    elif op == "br":
        if p.peek() == "label":
            p.next(); edge(bi, bidx[p.next()], ind)
        else:
            ty = p.type(); c = p.value(ty); p.expect(","); p.expect("label"); a = bidx[p.next()]; p.expect(","); p.expect("label"); b = bidx[p.next()]
            out("c = %s" % val(ty, c)); out("if c.__class__ is not int: c = E.decide(c)")
            out("if c:"); edge(bi, a, ind + "  "); edge(bi, b, ind)
    elif op == "switch":
        ty = p.type(); v = p.value(ty); p.expect(","); p.expect("label"); dfl = bidx[p.next()]
        p.expect("[")
        out("c = %s" % val(ty, v))
        while not p.accept("]"):
            t2 = p.type(); cv = p.value(t2); p.expect(","); p.expect("label"); lb = bidx[p.next()]
            out("if E.sweq(c,%d,%d):" % (cv[1], ty.w)); edge(bi, lb, ind + "  ")
        edge(bi, dfl, ind)
    elif op == "ret":
        if p.peek() == "void": out("return (None,)")
        else:
            ty = p.type(); out("return (%s,)" % val(ty, p.value(ty)))
    elif op == "unreachable": out("raise X.Unsupported('unreachable executed')")
    elif op == "select":
        while p.peek() in FASTMATH: p.next()
        ct = p.type(); c = p.value(ct); p.expect(","); t1 = p.type(); a = p.value(t1); p.expect(","); t2 = p.type(); b = p.value(t2)
        out("%sE.select(%s,%s,%s)" % (D, val(ct, c), val(t1, a), val(t2, b)))
    elif op in ("zext", "sext", "trunc"):
        while p.peek() in ("nneg", "nuw", "nsw"): p.next()
        ty = p.type(); v = p.value(ty); p.expect("to"); t2 = p.type()
        if ty.k == "vec": out("%s[E.%s(x,%d,%d) for x in %s]" % (D, op, ty.el.w, t2.el.w, val(ty, v)))
        else: out("%sE.%s(%s,%d,%d)" % (D, op, val(ty, v), ty.w, t2.w))
    elif op in ("fptoui", "fptosi"):
        ty = p.type(); v = p.value(ty); p.expect("to"); t2 = p.type()
        out("%sE.dtoi(%s,%d,%r)" % (D, val(ty, v), t2.w, op == "fptosi"))
    elif op in ("uitofp", "sitofp"):
        while p.peek() in ("nneg",): p.next()
        ty = p.type(); v = p.value(ty); p.expect("to"); t2 = p.type()
        out("%sE.itod(%s,%d,%r)" % (D, val(ty, v), ty.w, op == "sitofp"))
    elif op in ("fpext", "fptrunc"):
        while p.peek() in FASTMATH: p.next()
        ty = p.type(); v = p.value(ty); p.expect("to"); t2 = p.type(); out("%s%s" % (D, val(ty, v)))
    elif op == "bitcast":
        ty = p.type(); v = p.value(ty); p.expect("to"); t2 = p.type()
        if ty.k == "i" and t2.k == "double": out("%sE.bits2d(%s)" % (D, val(ty, v)))
        elif ty.k == "double" and t2.k == "i": out("%sE.d2bits(%s)" % (D, val(ty, v)))
        elif ty.k == t2.k and ty.k != "vec": out("%s%s" % (D, val(ty, v)))
        else: out("raise X.Unsupported('bitcast')")
    elif op in ("ptrtoint", "inttoptr", "addrspacecast"):
        ty = p.type(); v = p.value(ty); p.expect("to"); t2 = p.type()
        out("%s%s" % (D, val(ty, v)))
    elif op == "freeze":
        ty = p.type(); v = p.value(ty); out("%s%s" % (D, val(ty, v)))
    elif op == "extractvalue":
        ty = p.type(); v = p.value(ty); e = val(ty, v)
        while p.accept(","): e += "[%s]" % p.next()
        out("%s%s" % (D, e))
    elif op == "insertvalue":
        ty = p.type(); v = p.value(ty); p.expect(","); t2 = p.type(); x = p.value(t2); idx = []
        while p.accept(","): idx.append(int(p.next()))
        out("%sE.insertv(%s,%s,%r)" % (D, val(ty, v), val(t2, x), idx))
    elif op == "extractelement":
        ty = p.type(); v = p.value(ty); p.expect(","); t2 = p.type(); i = p.value(t2)
        out("%s%s[%s]" % (D, val(ty, v), val(t2, i)))
    elif op == "insertelement":
        ty = p.type(); v = p.value(ty); p.expect(","); t1 = p.type(); x = p.value(t1); p.expect(","); t2 = p.type(); i = p.value(t2)
        out("%sE.insertv(%s,%s,[%s])" % (D, val(ty, v), val(t1, x), val(t2, i)))
    elif op == "shufflevector":
        ty = p.type(); a = p.value(ty); p.expect(","); t2 = p.type(); b = p.value(t2); p.expect(","); t3 = p.type(); m = p.value(t3)
        if m[0] == "agg": mask = [x[1] if x[0] == "i" else 0 for x in m[1]]
        else: mask = [0] * t3.n
        out("t = list(%s) + list(%s)" % (val(ty, a), val(t2, b)))
        out("%s[t[k] for k in %r]" % (D, mask))
    elif op == "landingpad":
        out("%sE.cur_lp" % D)
    elif op == "resume":
        ty = p.type(); v = p.value(ty); out("E.resume(%s)" % val(ty, v))
    elif op == "fence": pass
    elif op == "atomicrmw":
        if p.peek() == "volatile": p.next()
        kind = p.next(); pt = p.type(); a = p.value(pt); p.expect(","); ty = p.type(); v = p.value(ty)
        out("%sE.armw(%r,%s,%s,%s)" % (D, kind, val(pt, a), val(ty, v), K(ty)))
    elif op == "cmpxchg":
        while p.peek() in ("weak", "volatile"): p.next()
        pt = p.type(); a = p.value(pt); p.expect(","); ty = p.type(); c = p.value(ty); p.expect(","); t2 = p.type(); nv = p.value(t2)
        out("%sE.cmpx(%s,%s,%s,%s)" % (D, val(pt, a), val(ty, c), val(t2, nv), K(ty)))
    elif op in ("call", "invoke"):
        gen_call(E, mod, p, op, D, reg, val, K, M, src, ind, bi, bidx, edge, pads)
    else:
        out("raise X.Unsupported(%r)" % ("instruction " + op))

CC = {"fastcc", "ccc", "coldcc", "tailcc", "swiftcc"}

def gen_call(E, mod, p, op, D, reg, val, K, M, src, ind, bi, bidx, edge, pads):
    def out(x): src.append(ind + x)
    while p.peek() in FASTMATH or p.peek() in CC or p.peek() in PATTR or p.peek() in ("align", "dereferenceable", "dereferenceable_or_null", "range", "nofpclass"):
        if p.peek() in ("align", "dereferenceable", "dereferenceable_or_null", "range", "nofpclass"): p.attrs()
        else: p.next()
    rt = p.type()
    callee = p.value(Ty("ptr"))
    if callee[0] == "asm":
        while p.peek() != "(": p.next()
    p.expect("(")
    args = []
    if not p.accept(")"):
        while True:
            if p.peek() == "metadata":
                # swallow
                d = 0
                while not (d == 0 and p.peek() in (",", ")")):
                    x = p.next()
                    if x in "([{": d += 1
                    if x in ")]}": d -= 1
                args.append("0")
            else:
                t = p.type(); bv = None
                while True:
                    if p.peek() == "byval":
                        p.next(); p.expect("("); bv = p.type(); p.expect(")"); continue
                    i0 = p.i; 
                    x = p.peek()
                    if x in PATTR: p.next(); continue
                    if x in ("align", "dereferenceable", "dereferenceable_or_null", "range", "nofpclass", "captures"):
                        p.next()
                        if p.peek() == "(": p.skip_paren()
                        else: p.next()
                        continue
                    if x in ("sret", "elementtype", "inalloca", "byref", "preallocated"):
                        p.next(); p.skip_paren(); continue
                    break
                v = val(t, p.value(t))
                if bv is not None: v = "E.byval(%s,%d)" % (v, _lay(bv).size)
                args.append(v)
            if p.accept(")"): break
            p.expect(",")
    lab = None
    if op == "invoke":
        while p.peek() != "to": p.next()
        p.next(); p.expect("label"); ok = bidx[p.next()]; p.expect("unwind"); p.expect("label"); lp = bidx[p.next()]
    A = "[" + ",".join(args) + "]"
    expr = None
    if callee[0] == "g":
        nm = callee[1][1:].strip('"')
        if nm.startswith("llvm."):
            m = MATHRE.match(nm)
            if m and m.group(1) in MATHI:
                expr = "E.math(%r,%s)" % (m.group(1), A)
            else:
                expr = "E.intrin(%r,%s)" % (nm, A)
                if nm.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental.noalias", "llvm.invariant", "llvm.prefetch", "llvm.donothing")): expr = "None"
        else: expr = "E.call(%s,%r,%s)" % (M, nm, A)
    elif callee[0] == "asm": expr = "E.intrin('asm',[])"
    else: expr = "E.callptr(%s,%s)" % (val(Ty("ptr"), callee), A)
    if op == "call":
        if expr != "None" or D: out(D + expr)
    else:
        cl, cleanup = pads.get(lp, ([], True))
        out("try:"); out("  " + D + expr)
        out("except SymThrow as ex:")
        out("  st, sel = E.landing(ex,%s,%r,%s)" % (K(cl), cleanup, M))
        out("  if not st: raise")
        out("  E.cur_lp = [ex.addr, sel]; E.inflight[ex.addr] = ex")
        edge(bi, lp, ind + "  ")
        edge(bi, ok, ind)
