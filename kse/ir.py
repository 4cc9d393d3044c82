"""Parser for textual LLVM IR (the subset clang 18 emits for C++), producing a
lightweight in-memory form.  Function bodies are parsed lazily."""
import re, struct

class Ty:
    __slots__ = ("k", "w", "el", "n", "packed", "size", "align", "offs")
    def __init__(s, k, w=0, el=None, n=0, packed=False):
        s.k = k; s.w = w; s.el = el; s.n = n; s.packed = packed; s.size = None; s.align = None; s.offs = None
    def __repr__(s): return "%s%s" % (s.k, s.w or "")

def _lay(t):
    if t.size is not None: return t
    if t.k == "i":
        b = (t.w + 7) // 8
        a = 1
        while a < b: a *= 2
        t.align = min(a, 16); t.size = (b + t.align - 1) // t.align * t.align
    elif t.k == "double": t.size = t.align = 8
    elif t.k == "float": t.size = t.align = 4
    elif t.k == "x86_fp80": t.size = t.align = 16
    elif t.k == "ptr": t.size = t.align = 8
    elif t.k == "arr":
        _lay(t.el); t.size = t.el.size * t.n; t.align = t.el.align
    elif t.k == "vec":
        _lay(t.el); t.size = max(1, t.el.size * t.n); t.align = t.size
    elif t.k == "struct":
        o = 0; al = 1; t.offs = []
        for e in t.el:
            _lay(e)
            a = 1 if t.packed else e.align
            o = (o + a - 1) // a * a
            t.offs.append(o); o += e.size; al = max(al, a)
        t.size = (o + al - 1) // al * al; t.align = al
    elif t.k in ("void", "opaque", "label", "metadata", "fn"): t.size = 0; t.align = 1
    else: raise NotImplementedError("layout " + t.k)
    return t

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<id>[%@](?:"[^"]*"|[-\w$.]+))
 |(?P<num>0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d*(?:[eE][-+]?\d+)?|-?\d+)
 |(?P<meta>!(?:"[^"]*"|[\w.]+)?)
 |(?P<attr>\#\d+)
 |(?P<word>[A-Za-z_$][\w.$]*)
 |(?P<dots>\.\.\.)
 |(?P<p>[][(){}<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"): break
            raise SyntaxError("tok: " + s[i:i + 60])
        i = m.end()
        g = m.lastgroup
        out.append((g, m.group(g)))
    return out

FASTMATH = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"}
PATTR = {"noundef", "nonnull", "nocapture", "readonly", "readnone", "writeonly", "noalias", "returned", "zeroext",
         "signext", "inreg", "nofree", "nest", "swiftself", "immarg", "dead_on_unwind", "writable", "noreturn",
         "dead_on_return", "allocptr", "allocalign", "noext"}
LINK = {"private", "internal", "linkonce", "linkonce_odr", "weak", "weak_odr", "external", "dso_local", "hidden",
        "protected", "default", "unnamed_addr", "local_unnamed_addr", "available_externally", "common", "appending",
        "extern_weak", "thread_local", "constant", "global", "externally_initialized", "dllimport", "dllexport"}

class P:
    """token cursor with type/value parsing"""
    def __init__(s, mod, toks): s.m = mod; s.t = toks; s.i = 0
    def peek(s): return s.t[s.i][1] if s.i < len(s.t) else None
    def kind(s): return s.t[s.i][0] if s.i < len(s.t) else None
    def next(s):
        v = s.t[s.i][1]; s.i += 1; return v
    def accept(s, v):
        if s.peek() == v and s.kind() not in ("str",): s.i += 1; return True
        return False
    def expect(s, v):
        x = s.next()
        if x != v: raise SyntaxError("expected %r got %r in %s" % (v, x, " ".join(t[1] for t in s.t)[:300]))
    def type(s):
        x = s.next()
        if re.fullmatch(r"i\d+", x): t = s.m.ity(int(x[1:]))
        elif x in ("double", "float", "x86_fp80", "void", "ptr", "label", "metadata"): t = s.m.sty(x)
        elif x == "opaque": t = s.m.sty("opaque")
        elif x == "[":
            n = int(s.next()); s.expect("x"); e = s.type(); s.expect("]"); t = Ty("arr", el=e, n=n)
        elif x == "<":
            if s.peek() == "{":
                s.next(); t = Ty("struct", el=s.tylist("}"), packed=True); s.expect(">")
            else:
                n = int(s.next()); s.expect("x"); e = s.type(); s.expect(">"); t = Ty("vec", el=e, n=n)
        elif x == "{": t = Ty("struct", el=s.tylist("}"))
        elif x[0] == "%": t = s.m.named(x)
        else: raise SyntaxError("type? %r in %s" % (x, " ".join(t[1] for t in s.t)[:200]))
        while True:
            if s.peek() == "addrspace": s.next(); s.expect("("); s.next(); s.expect(")")
            elif s.peek() == "*": s.next(); t = s.m.sty("ptr")
            elif s.peek() == "(":   # function type
                s.next(); s.tylist(")"); t = Ty("fn", el=t)
            else: break
        return t
    def tylist(s, end):
        out = []
        if s.accept(end): return out
        while True:
            if s.accept("..."): pass
            else: out.append(s.type())
            s.attrs()
            if s.accept(end): return out
            s.expect(",")
    def attrs(s):
        while True:
            x = s.peek()
            if x is None: return
            if x in PATTR: s.next()
            elif x in ("align", "dereferenceable", "dereferenceable_or_null", "allocsize", "memory", "range",
                       "captures", "initializes", "nofpclass"):
                s.next()
                if s.peek() == "(": s.skip_paren()
                else: s.next()
            elif x in ("sret", "byval", "byref", "inalloca", "preallocated", "elementtype"):
                s.next(); s.skip_paren()
            elif s.kind() == "str" and s.i + 1 < len(s.t): s.next(); s.accept("=") and s.next()
            else: return
    def skip_paren(s):
        s.expect("("); d = 1
        while d:
            x = s.next()
            if x == "(": d += 1
            elif x == ")": d -= 1
    def value(s, ty):
        """returns ('r',name) or ('c', constant descriptor)"""
        k = s.kind(); x = s.next()
        if k == "id":
            return ("r", x) if x[0] == "%" else ("g", x)
        if k == "num":
            if ty.k in ("double", "float"):
                if x.startswith("0x"): return ("f", struct.unpack(">d", bytes.fromhex(x[2:].rjust(16, "0")))[0])
                return ("f", float(x))
            if ty.k == "x86_fp80": return ("f80", x)
            return ("i", int(x) & ((1 << ty.w) - 1))
        if x == "true": return ("i", 1)
        if x == "false": return ("i", 0)
        if x in ("null",): return ("i", 0)
        if x in ("undef", "poison"): return ("undef", ty)
        if x == "zeroinitializer": return ("zero", ty)
        if x == "none": return ("i", 0)
        if k == "str":
            body = x[2:-1]; out = []; i = 0
            while i < len(body):
                if body[i] == "\\":
                    if body[i + 1] == "\\": out.append(92); i += 2
                    else: out.append(int(body[i + 1:i + 3], 16)); i += 3
                else: out.append(ord(body[i])); i += 1
            return ("agg", [("i", b) for b in out])
        if x == "[":
            return ("agg", s.vlist("]"))
        if x == "{": return ("agg", s.vlist("}"))
        if x == "<":
            if s.peek() == "{":
                s.next(); r = s.vlist("}"); s.expect(">"); return ("agg", r)
            return ("agg", s.vlist(">"))
        if x == "getelementptr":
            while s.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                if s.next() == "inrange" and s.peek() == "(": s.skip_paren()
            s.expect("("); t = s.type(); s.expect(",")
            ops = []
            while True:
                s.accept("inrange")
                et = s.type(); ops.append((et, s.value(et)))
                if s.accept(")"): break
                s.expect(",")
            return ("cgep", t, ops)
        if x in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
            s.expect("("); et = s.type(); v = s.value(et); s.expect("to"); tt = s.type(); s.expect(")")
            return ("ccast", x, et, v, tt)
        if x in ("add", "sub", "xor", "and", "or", "mul", "shl", "lshr"):
            while s.peek() in ("nuw", "nsw", "exact", "disjoint"): s.next()
            s.expect("("); et = s.type(); a = s.value(et); s.expect(","); et2 = s.type(); b = s.value(et2); s.expect(")")
            return ("cbin", x, et, a, b)
        if x == "dso_local_equivalent" or x == "no_cfi":
            return ("g", s.next())
        if x == "asm":
            return ("asm",)
        if x == "icmp":
            p = s.next(); s.expect("("); et = s.type(); a = s.value(et); s.expect(","); et2 = s.type(); b = s.value(et2); s.expect(")")
            return ("cicmp", p, et, a, b)
        raise SyntaxError("value? %r %r" % (x, " ".join(t[1] for t in s.t)[:200]))
    def vlist(s, end):
        out = []
        if s.accept(end): return out
        while True:
            t = s.type(); out.append(s.value(t))
            if s.accept(end): return out
            s.expect(",")
    def tv(s):
        t = s.type(); s.attrs(); return t, s.value(t)

class Fn:
    def __init__(s, name, ret, params, lines, mod): s.name = name; s.ret = ret; s.params = params; s.lines = lines; s.mod = mod; s.code = None

class Module:
    def __init__(s, text, path=""):
        s.path = path; s.types = {}; s._named = {}; s._i = {}; s._s = {}
        s.globals = {}; s.fns = {}; s.decls = set(); s.aliases = {}
        s._scan(text)
    def ity(s, w):
        t = s._i.get(w)
        if t is None: t = s._i[w] = _lay(Ty("i", w))
        return t
    def sty(s, k):
        t = s._s.get(k)
        if t is None: t = s._s[k] = _lay(Ty(k))
        return t
    def named(s, n):
        t = s._named.get(n)
        if t is None:
            t = s._named[n] = Ty("struct", el=[])
            body = s.types.get(n, "opaque")
            if body.strip() != "opaque":
                b = P(s, tokenize(body)).type()
                t.k = b.k; t.w = b.w; t.el = b.el; t.n = b.n; t.packed = b.packed
            else: t.k = "opaque"
        return t
    def _scan(s, text):
        lines = text.split("\n"); i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("define"):
                j = i + 1
                while lines[j] != "}": j += 1
                s._def(l, lines[i + 1:j]); i = j + 1; continue
            if l.startswith("declare"):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\s*\(', l)
                if m: s.decls.add(m.group(1).strip('"'))
            elif l.startswith("%"):
                m = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = type (.*)$', l)
                if m: s.types[m.group(1)] = m.group(2)
            elif l.startswith("@"):
                m = re.match(r'@("[^"]*"|[-\w$.]+) = (.*)$', l)
                if m:
                    name = m.group(1).strip('"'); body = m.group(2)
                    if re.search(r'\balias\b', body.split("(")[0]):
                        a = re.findall(r'@("[^"]*"|[-\w$.]+)', body)
                        s.aliases[name] = a[-1].strip('"')
                    else: s.globals[name] = body
            i += 1
    def _def(s, head, body):
        m = re.search(r'@("[^"]*"|[-\w$.]+)\s*\(', head)
        name = m.group(1).strip('"')
        s.fns[name] = Fn(name, None, head, body, s)
        s.fns[name].internal = bool(re.match(r'define\s+(?:dso_local\s+)?(internal|private)\b', head))
    def parse_head(s, fn):
        head = fn.params
        i = head.index("@")
        t = P(s, tokenize(head[i:].split(" #")[0] if False else head[i:]))
        t.next(); t.expect("(")
        params = []
        k = 0
        if not t.accept(")"):
            while True:
                if t.accept("..."): pass
                else:
                    ty = t.type(); t.attrs()
                    if t.kind() == "id": nm = t.next()
                    else: nm = "%" + str(k)
                    k += 1
                    params.append((ty, nm))
                if t.accept(")"): break
                t.expect(",")
        return params
    def global_init(s, name):
        body = s.globals[name]
        p = P(s, tokenize(re.sub(r", comdat.*$|, align \d+.*$|, section .*$|, !.*$", "", body)))
        ext = False
        while p.peek() in LINK or p.peek() == "thread_local":
            x = p.next()
            if x == "external" or x == "extern_weak": ext = True
            if x == "thread_local" and p.peek() == "(": p.skip_paren()
        if p.peek() == "addrspace": p.next(); p.skip_paren()
        # linkage 'external' (no initializer)
        ty = p.type()
        if ext or p.peek() is None: return ty, None
        return ty, p.value(ty)
