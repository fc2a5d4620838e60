"""A compiler from the Lua 5.1 subset used in Redis scripts to Python functions.

Lua strings are Python bytes, numbers are int/float, nil is None.  Every Lua function is a Python function that takes
positional values and returns a list of values.
"""
import re, math
from functools import lru_cache


class LuaError(Exception):
    def __init__(self, value):
        self.value = value
        super().__init__(value if not isinstance(value, bytes) else value.decode("utf-8", "replace"))


class Table:
    __slots__ = ("a", "h")

    def __init__(self, seq=None):
        self.a = list(seq) if seq is not None else []
        self.h = {}

    def get(self, k):
        if type(k) is int:
            if 1 <= k <= len(self.a):
                return self.a[k - 1]
            return self.h.get(k)
        if type(k) is float and k.is_integer():
            return self.get(int(k))
        if k is True or k is False:
            return self.h.get(("b", k))
        return self.h.get(k)

    def set(self, k, v):
        if type(k) is float and k.is_integer():
            k = int(k)
        if type(k) is int:
            n = len(self.a)
            if 1 <= k <= n:
                if v is None and k == n:
                    self.a.pop()
                    while self.a and self.a[-1] is None:
                        self.a.pop()
                else:
                    self.a[k - 1] = v
                return
            if k == n + 1:
                if v is not None:
                    self.a.append(v)
                    while self.h and (n := len(self.a) + 1) in self.h:
                        self.a.append(self.h.pop(n))
                return
        elif k is None:
            raise LuaError(b"index is nil")
        elif k is True or k is False:
            k = ("b", k)
        if v is None:
            self.h.pop(k, None)
        else:
            self.h[k] = v

    def length(self):
        return len(self.a)

    def items(self):
        for i, v in enumerate(self.a):
            if v is not None:
                yield i + 1, v
        for k, v in list(self.h.items()):
            yield (k[1] if type(k) is tuple else k), v


TOK = re.compile(rb"""
 (?P<ws>\s+)
|(?P<lcomment>--\[(?P<eq>=*)\[.*?\](?P=eq)\])
|(?P<comment>--[^\n]*)
|(?P<num>0[xX][0-9a-fA-F]+|\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)
|(?P<name>[A-Za-z_][A-Za-z0-9_]*)
|(?P<lstr>\[(?P<eq2>=*)\[.*?\](?P=eq2)\])
|(?P<str>"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')
|(?P<op>\.\.\.|\.\.|==|~=|<=|>=|[-+*/%^\#<>=(){}\[\];:,.])
""", re.X | re.S)
KEYWORDS = set("and break do else elseif end false for function if in local nil not or repeat return then true until while".split())
ESC = {b"n": b"\n", b"t": b"\t", b"r": b"\r", b"a": b"\a", b"b": b"\b", b"f": b"\f", b"v": b"\v", b"\\": b"\\",
       b'"': b'"', b"'": b"'", b"\n": b"\n"}


def unescape(s):
    return re.sub(rb"\\(\d{1,3}|.)", lambda m: bytes([int(m[1])]) if m[1].isdigit() else ESC.get(m[1], m[1]), s, flags=re.S)


def tokenize(src):
    pos, out, line = 0, [], 1
    while pos < len(src):
        m = TOK.match(src, pos)
        if not m:
            raise LuaError(b"lexical error near " + src[pos:pos + 20])
        k = m.lastgroup
        if m["num"]:
            t = m["num"]
            out.append(("num", int(t, 16) if t[:2].lower() == b"0x" else (int(t) if t.isdigit() else float(t))))
        elif m["name"]:
            n = m["name"].decode()
            out.append(("kw" if n in KEYWORDS else "name", n))
        elif m["lstr"]:
            e = len(m["eq2"]) + 2
            b = m["lstr"][e:-e]
            out.append(("str", b[1:] if b[:1] == b"\n" else b))
        elif m["str"]:
            out.append(("str", unescape(m["str"][1:-1])))
        elif m["op"]:
            out.append(("op", m["op"].decode()))
        pos = m.end()
    out.append(("eof", None))
    return out


BIN = {"or": (1, 1), "and": (2, 2), "<": (3, 3), ">": (3, 3), "<=": (3, 3), ">=": (3, 3), "~=": (3, 3), "==": (3, 3),
       "..": (5, 4), "+": (6, 6), "-": (6, 6), "*": (7, 7), "/": (7, 7), "%": (7, 7), "^": (10, 9)}
UNARY = 8


class Compiler:
    def __init__(self, src):
        self.t = tokenize(src)
        self.p = 0
        self.n = 0
        self.scopes = []      # list of dicts name -> (pyname, funcdepth)
        self.depth = 0
        self.nonlocals = [set()]
        self.vararg = [False]

    def peek(self, v=None):
        tok = self.t[self.p]
        return tok if v is None else (tok[0] in ("kw", "op") and tok[1] == v)

    def next(self):
        self.p += 1
        return self.t[self.p - 1]

    def accept(self, v):
        if self.peek(v):
            self.p += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise LuaError(f"expected {v} near {self.t[self.p]}".encode())

    def name(self):
        k, v = self.next()
        if k != "name":
            raise LuaError(f"expected name near {v}".encode())
        return v

    def fresh(self, base="t"):
        self.n += 1
        return f"v{self.n}_{base}"

    def declare(self, name):
        py = self.fresh(name)
        self.scopes[-1][name] = (py, self.depth)
        return py

    def lookup(self, name):
        for s in reversed(self.scopes):
            if name in s:
                return s[name]
        return None

    # ---- statements
    def block(self, ind, ends):
        self.scopes.append({})
        out = self.block_noscope(ind, ends)
        self.scopes.pop()
        return out

    def block_noscope(self, ind, ends):
        out = []
        while True:
            tok = self.peek()
            if tok[0] == "eof" or (tok[0] == "kw" and tok[1] in ends):
                break
            if self.accept(";"):
                continue
            if self.peek("return"):
                self.next()
                tok = self.peek()
                if tok[0] == "eof" or (tok[0] == "kw" and tok[1] in ends) or self.peek(";"):
                    out.append(f"{ind}return []")
                else:
                    out.append(f"{ind}return {self.explist()}")
                self.accept(";")
                break
            out += self.stat(ind)
        return out or [f"{ind}pass"]

    def stat(self, ind):
        i2 = ind + " "
        if self.accept("local"):
            if self.accept("function"):
                n = self.name()
                py = self.declare(n)
                return self.funcbody(ind, py)
            names = [self.name()]
            while self.accept(","):
                names.append(self.name())
            if self.accept("="):
                exps = self.explist_raw()
                if len(names) == 1 and len(exps) == 1:
                    e = self.single(exps[0])
                    return [f"{ind}{self.declare(names[0])} = {e}"]
                src = self.join(exps)
                pys = [self.declare(n) for n in names]
                return [f"{ind}{', '.join(pys)}, = _adj({src}, {len(pys)})"]
            return [f"{ind}{self.declare(n)} = None" for n in names]
        if self.accept("if"):
            out = [f"{ind}if {self.cond()}:"]
            self.expect("then")
            out += self.block(i2, ("elseif", "else", "end"))
            nest = ind
            while True:
                if self.accept("elseif"):
                    # nested else keeps temporaries simple
                    out.append(f"{nest}else:")
                    nest += " "
                    out.append(f"{nest}if {self.cond()}:")
                    self.expect("then")
                    out += self.block(nest + " ", ("elseif", "else", "end"))
                elif self.accept("else"):
                    out.append(f"{nest}else:")
                    out += self.block(nest + " ", ("end",))
                    self.expect("end")
                    return out
                else:
                    self.expect("end")
                    return out
        if self.accept("while"):
            out = [f"{ind}while {self.cond()}:"]
            self.expect("do")
            out += self.block(i2, ("end",))
            self.expect("end")
            return out
        if self.accept("repeat"):
            self.scopes.append({})
            body = self.block_noscope(i2, ("until",))
            self.expect("until")
            c = self.cond()
            self.scopes.pop()
            return [f"{ind}while True:"] + body + [f"{i2}if {c}: break"]
        if self.accept("do"):
            out = self.block(ind, ("end",))
            self.expect("end")
            return out
        if self.accept("for"):
            names = [self.name()]
            if self.accept("="):
                a = self.single(self.exp())
                self.expect(",")
                b = self.single(self.exp())
                c = self.single(self.exp()) if self.accept(",") else "1"
                self.expect("do")
                self.scopes.append({})
                v = self.declare(names[0])
                body = self.block(i2, ("end",))
                self.scopes.pop()
                self.expect("end")
                return [f"{ind}for {v} in _range({a}, {b}, {c}):"] + body
            while self.accept(","):
                names.append(self.name())
            self.expect("in")
            src = self.join(self.explist_raw())
            self.expect("do")
            self.scopes.append({})
            pys = [self.declare(n) for n in names]
            body = self.block(i2, ("end",))
            self.scopes.pop()
            self.expect("end")
            tmp = self.fresh("it")
            return [f"{ind}for {tmp} in _iter({src}):", f"{i2}{', '.join(pys)}, = _adj({tmp}, {len(pys)})"] + body
        if self.accept("break"):
            return [f"{ind}break"]
        if self.accept("function"):
            n = self.name()
            ref = self.lookup(n)
            if ref is None:
                tmp = self.fresh(n)
                return self.funcbody(ind, tmp) + [f"{ind}_G[{n!r}] = {tmp}"]
            if ref[1] != self.depth:
                self.nonlocals[-1].add(ref[0])
            return self.funcbody(ind, ref[0])
        # assignment or call
        e = self.suffixed()
        if self.peek("=") or self.peek(","):
            targets = [e]
            while self.accept(","):
                targets.append(self.suffixed())
            self.expect("=")
            exps = self.explist_raw()
            if len(targets) == 1 and len(exps) == 1:
                return [ind + self.assign(targets[0], self.single(exps[0]))]
            tmps = [self.fresh("a") for _ in targets]
            return [f"{ind}{', '.join(tmps)}, = _adj({self.join(exps)}, {len(tmps)})"] + \
                   [ind + self.assign(t, v) for t, v in zip(targets, tmps)]
        if e[0] != "call":
            raise LuaError(b"syntax error: expression statement")
        return [ind + e[1]]

    def assign(self, target, value):
        if target[0] == "var":
            ref = self.lookup(target[2])
            if ref is None:
                return f"_G[{target[2]!r}] = {value}"
            if ref[1] != self.depth:
                self.nonlocals[-1].add(ref[0])
            return f"{ref[0]} = {value}"
        if target[0] == "index":
            return f"_setindex({target[2]}, {target[3]}, {value})"
        raise LuaError(b"cannot assign")

    def funcbody(self, ind, py):
        self.expect("(")
        self.depth += 1
        self.scopes.append({})
        self.nonlocals.append(set())
        params, va = [], False
        if not self.peek(")"):
            while True:
                if self.accept("..."):
                    va = True
                    break
                params.append(self.declare(self.name()))
                if not self.accept(","):
                    break
        self.expect(")")
        self.vararg.append(va)
        body = self.block(ind + " ", ("end",))
        self.expect("end")
        self.vararg.pop()
        nl = self.nonlocals.pop()
        self.scopes.pop()
        self.depth -= 1
        sig = "".join(f"{q}=None, " for q in params) + "*_va"
        out = [f"{ind}def {py}({sig}):"]
        # a nonlocal may belong further out; Python resolves it to the nearest enclosing binding, names are unique
        if nl:
            out.append(f"{ind} nonlocal {', '.join(sorted(nl))}")
        return out + body + [f"{ind} return []"]

    # ---- expressions: (kind, pycode, ...) where kind 'call'/'va' are multi-valued (code yields a list)
    def single(self, e):
        if e[0] in ("call", "va"):
            return f"_first({e[1]})"
        return e[1]

    def cond(self):
        e = self.exp()
        return self.single(e) if e[0] == "bool" else f"_t({self.single(e)})"

    def explist_raw(self):
        out = [self.exp()]
        while self.accept(","):
            out.append(self.exp())
        return out

    def join(self, exps):
        if not exps:
            return "[]"
        if exps[-1][0] in ("call", "va"):
            if len(exps) == 1:
                return exps[0][1]
            return "[" + ", ".join(self.single(e) for e in exps[:-1]) + f", *{exps[-1][1]}]"
        return "[" + ", ".join(self.single(e) for e in exps) + "]"

    def explist(self):
        return self.join(self.explist_raw())

    def args(self):
        tok = self.peek()
        if tok[0] == "str":
            self.next()
            return repr(tok[1])
        if self.peek("{"):
            return self.single(self.table())
        self.expect("(")
        if self.accept(")"):
            return ""
        exps = self.explist_raw()
        self.expect(")")
        out = [self.single(e) for e in exps[:-1]]
        last = exps[-1]
        out.append("*" + last[1] if last[0] in ("call", "va") else self.single(last))
        return ", ".join(out)

    def suffixed(self):
        if self.accept("("):
            e = self.exp()
            self.expect(")")
            e = ("val", f"({self.single(e)})")
        else:
            n = self.name()
            ref = self.lookup(n)
            e = ("var", ref[0] if ref else f"_G.get({n!r})", n)
        while True:
            tok = self.peek()
            if self.accept("."):
                k = repr(self.name().encode())
                o = self.single(e)
                e = ("index", f"_index({o}, {k})", o, k)
            elif self.accept("["):
                k = self.single(self.exp())
                self.expect("]")
                o = self.single(e)
                e = ("index", f"_index({o}, {k})", o, k)
            elif self.accept(":"):
                k = repr(self.name().encode())
                a = self.args()
                e = ("call", f"_method({self.single(e)}, {k}{', ' + a if a else ''})")
            elif tok[0] == "str" or self.peek("(") or self.peek("{"):
                a = self.args()
                e = ("call", f"_call({self.single(e)}{', ' + a if a else ''})")
            else:
                return e

    def table(self):
        self.expect("{")
        pos, named = [], []
        while not self.peek("}"):
            if self.accept("["):
                k = self.single(self.exp())
                self.expect("]")
                self.expect("=")
                named.append((k, self.single(self.exp())))
            elif self.peek()[0] == "name" and self.t[self.p + 1] == ("op", "="):
                k = repr(self.name().encode())
                self.next()
                named.append((k, self.single(self.exp())))
            else:
                pos.append(self.exp())
            if not (self.accept(",") or self.accept(";")):
                break
        self.expect("}")
        return ("val", f"_table({self.join(pos)}, [" + ", ".join(f"({k}, {v})" for k, v in named) + "])")

    def exp(self, limit=0):
        k, v = self.peek()
        if (k, v) == ("kw", "not"):
            self.next()
            e = ("bool", f"(not _t({self.single(self.exp(UNARY))}))")
        elif (k, v) == ("op", "-"):
            self.next()
            e = ("val", f"(-_num({self.single(self.exp(UNARY))}))")
        elif (k, v) == ("op", "#"):
            self.next()
            e = ("val", f"_len({self.single(self.exp(UNARY))})")
        elif k in ("num", "str"):
            self.next()
            e = ("val", repr(v))
        elif (k, v) == ("kw", "nil"):
            self.next()
            e = ("val", "None")
        elif (k, v) in (("kw", "true"), ("kw", "false")):
            self.next()
            e = ("bool", "True" if v == "true" else "False")
        elif (k, v) == ("op", "..."):
            self.next()
            e = ("va", "list(_va)")
        elif (k, v) == ("op", "{"):
            e = self.table()
        elif (k, v) == ("kw", "function"):
            self.next()
            e = self.lambda_()
        else:
            e = self.suffixed()
        while True:
            k, op = self.peek()
            if k not in ("op", "kw") or op not in BIN or BIN[op][0] <= limit:
                return e
            self.next()
            r = self.exp(BIN[op][1])
            a, b = self.single(e), self.single(r)
            if op == "and":
                t = self.fresh("w")
                if e[0] == "bool" and r[0] == "bool":
                    e = ("bool", f"({a} and {b})")
                else:
                    e = ("val", f"({b} if _t({t} := {a}) else {t})")
            elif op == "or":
                t = self.fresh("w")
                if e[0] == "bool" and r[0] == "bool":
                    e = ("bool", f"({a} or {b})")
                else:
                    e = ("val", f"({t} if _t({t} := {a}) else {b})")
            elif op == "==":
                e = ("bool", f"_eq({a}, {b})")
            elif op == "~=":
                e = ("bool", f"(not _eq({a}, {b}))")
            elif op in ("<", "<=", ">", ">="):
                e = ("bool", f"(_cmp({a}, {b}) {op} 0)")
            elif op == "..":
                e = ("val", f"(_str({a}) + _str({b}))")
            elif op == "/":
                e = ("val", f"_div({a}, {b})")
            elif op == "^":
                e = ("val", f"(float(_num({a})) ** _num({b}))")
            elif op == "%":
                e = ("val", f"_mod({a}, {b})")
            else:
                e = ("val", f"(_num({a}) {op} _num({b}))")

    def lambda_(self):
        py = self.fresh("fn")
        self.pending.append(self.funcbody(self.ind, py))
        return ("val", py)

    pending: list
    ind = " "

    def compile(self):
        # Anonymous functions are hoisted to just before the statement that contains them.
        self.pending = []
        orig = self.stat

        def stat(ind):
            saved, self.pending = self.pending, []
            old, self.ind = self.ind, ind
            out = orig(ind)
            pre = [l for f in self.pending for l in f]
            self.pending, self.ind = saved, old
            return pre + out
        self.stat = stat
        body = self.block(" ", ())
        if self.peek()[0] != "eof":
            raise LuaError(f"unexpected {self.peek()}".encode())
        return "def _main(_G):\n" + "\n".join(body) + "\n return []\n"


# ---- runtime
def _t(v):
    return v is not None and v is not False


def _first(l):
    return l[0] if l else None


def _adj(l, n):
    l = list(l)
    return l[:n] + [None] * (n - len(l))


def typename(v):
    if v is None: return b"nil"
    if v is True or v is False: return b"boolean"
    if isinstance(v, (int, float)): return b"number"
    if isinstance(v, bytes): return b"string"
    if isinstance(v, Table): return b"table"
    return b"function"


def fmtnum(v):
    if isinstance(v, int):
        if abs(v) < 10 ** 15:
            return b"%d" % v
        v = float(v)
    if v != v: return b"nan" if math.copysign(1, v) > 0 else b"-nan"
    if v in (math.inf, -math.inf): return b"inf" if v > 0 else b"-inf"
    return ("%.14g" % v).encode()


def _str(v):
    if isinstance(v, bytes): return v
    if isinstance(v, (int, float)) and v is not True and v is not False: return fmtnum(v)
    raise LuaError(b"attempt to concatenate a " + typename(v) + b" value")


def tonum(v, base=None):
    if base is not None and base != 10:
        try:
            return int(_str(v), int(base))
        except ValueError:
            return None
    if isinstance(v, bool): return None
    if isinstance(v, (int, float)): return v
    if isinstance(v, bytes):
        s = v.strip()
        try:
            if s[:2].lower() == b"0x": return int(s, 16)
            if b"_" in s: return None
            f = float(s)
            if re.fullmatch(rb"[+-]?\d{1,15}", s): return int(s)
            return f
        except ValueError:
            return None
    return None


def _num(v):
    n = tonum(v)
    if n is None:
        raise LuaError(b"attempt to perform arithmetic on a " + typename(v) + b" value")
    return n


def _norm(x):
    return int(x) if isinstance(x, float) and x.is_integer() and abs(x) < 2 ** 53 else x


def _div(a, b):
    a, b = _num(a), _num(b)
    if b == 0:
        return math.nan if a == 0 else math.copysign(math.inf, a)
    return _norm(a / b)


def _mod(a, b):
    a, b = _num(a), _num(b)
    return math.nan if b == 0 else a - math.floor(a / b) * b


def _eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, Table) or isinstance(b, Table):
        return a is b
    return a == b


def _cmp(a, b):
    na = isinstance(a, (int, float)) and not isinstance(a, bool)
    nb = isinstance(b, (int, float)) and not isinstance(b, bool)
    if (na and nb) or (isinstance(a, bytes) and isinstance(b, bytes)):
        return (a > b) - (a < b)
    raise LuaError(b"attempt to compare " + typename(a) + b" with " + typename(b))


def _len(v):
    if isinstance(v, bytes): return len(v)
    if isinstance(v, Table): return v.length()
    raise LuaError(b"attempt to get length of a " + typename(v) + b" value")


def _index(o, k):
    if isinstance(o, Table): return o.get(k)
    if isinstance(o, bytes): return STRING.get(k)
    raise LuaError(b"attempt to index a " + typename(o) + b" value")


def _setindex(o, k, v):
    if not isinstance(o, Table):
        raise LuaError(b"attempt to index a " + typename(o) + b" value")
    o.set(k, v)


def _call(f, *a):
    if not callable(f):
        raise LuaError(b"attempt to call a " + typename(f) + b" value")
    return f(*a)


def _method(o, k, *a):
    return _call(_index(o, k), o, *a)


def _table(pos, named):
    t = Table()
    for i, v in enumerate(pos):
        t.set(i + 1, v)
    for k, v in named:
        t.set(k, v)
    return t


def _range(a, b, c):
    a, b, c = _num(a), _num(b), _num(c)
    if c == 0:
        raise LuaError(b"'for' step is zero")
    while (a <= b) if c > 0 else (a >= b):
        yield a
        a += c


def _iter(triple):
    f, s, c = _adj(triple, 3)
    if isinstance(f, _PyIter):
        yield from f.gen
        return
    while True:
        vals = _call(f, s, c)
        if not vals or vals[0] is None:
            return
        c = vals[0]
        yield vals


class _PyIter:
    def __init__(self, gen):
        self.gen = gen

    def __call__(self, *a):
        return next(self.gen, [None])


def _ipairs(t, *a):
    def g():
        i = 1
        while (v := t.get(i)) is not None:
            yield [i, v]
            i += 1
    return [_PyIter(g())]


def _pairs(t, *a):
    return [_PyIter(iter([[k, v] for k, v in t.items()]))]


def lua_pattern(p):
    """Lua pattern -> Python regex (bytes)."""
    cls = {b"a": rb"a-zA-Z", b"d": rb"0-9", b"l": rb"a-z", b"s": rb" \t\n\r\f\v", b"u": rb"A-Z", b"w": rb"a-zA-Z0-9",
           b"x": rb"0-9a-fA-F", b"c": rb"\x00-\x1f\x7f", b"p": rb"!-/:-@\[-`{-~"}
    out, i = b"", 0
    if p[:1] == b"^":
        out, i = rb"\A", 1
    while i < len(p):
        c = p[i:i + 1]
        if c == b"%":
            d = p[i + 1:i + 2]
            i += 2
            if d.lower() in cls:
                item = b"[" + (b"^" if d.isupper() else b"") + cls[d.lower()] + b"]"
            else:
                item = re.escape(d)
        elif c == b"[":
            j = i + 1
            body = b"["
            if p[j:j + 1] == b"^":
                body += b"^"
                j += 1
            first = True
            while p[j:j + 1] != b"]" or first:
                first = False
                if p[j:j + 1] == b"%":
                    d = p[j + 1:j + 2]
                    body += cls[d.lower()] if d in cls else re.escape(d)
                    j += 2
                elif p[j + 1:j + 2] == b"-" and p[j + 2:j + 3] not in (b"]", b""):
                    body += re.escape(p[j:j + 1]) + b"-" + re.escape(p[j + 2:j + 3])
                    j += 3
                else:
                    body += re.escape(p[j:j + 1])
                    j += 1
            item = body + b"]"
            i = j + 1
        elif c == b".":
            item, i = rb"[\s\S]", i + 1
        elif c in b"()":
            out += c
            i += 1
            continue
        elif c == b"$" and i == len(p) - 1:
            out += rb"\Z"
            i += 1
            continue
        else:
            item, i = re.escape(c), i + 1
        q = p[i:i + 1]
        if q in (b"*", b"+", b"?"):
            item += q
            i += 1
        elif q == b"-":
            item += b"*?"
            i += 1
        out += item
    return re.compile(out)


def _gsub(s, pat, repl, n=None):
    s = _str(s)
    rx = lua_pattern(_str(pat))

    def sub(m):
        whole = m.group(0)
        cap = m.group(1) if rx.groups else whole
        if isinstance(repl, (bytes, int, float)):
            return re.sub(rb"%(.)", lambda x: (whole if x[1] == b"0" else (m.group(int(x[1])) if rx.groups else whole))
                          if x[1].isdigit() else x[1], _str(repl), flags=re.S)
        v = repl.get(cap) if isinstance(repl, Table) else _first(repl(*(m.groups() or (whole,))))
        return whole if not _t(v) else _str(v)
    out, cnt = rx.subn(sub, s, count=int(n) if n is not None else 0)
    return [out, cnt]


def _sub(s, i=1, j=-1):
    s = _str(s)
    n = len(s)
    i, j = int(i), int(-1 if j is None else j)
    if i < 0: i = max(n + i + 1, 1)
    elif i == 0: i = 1
    if j < 0: j = n + j + 1
    elif j > n: j = n
    return [s[i - 1:j] if i <= j else b""]


def _find(s, pat, init=1, plain=False):
    s = _str(s)
    init = int(init or 1)
    if init < 0: init = max(len(s) + init + 1, 1)
    if _t(plain):
        k = s.find(pat, init - 1)
        return [None] if k < 0 else [k + 1, k + len(pat)]
    m = lua_pattern(pat).search(s, init - 1)
    return [None] if not m else [m.start() + 1, m.end(), *m.groups()]


def _match(s, pat, init=1):
    m = lua_pattern(pat).search(_str(s), int(init or 1) - 1)
    return [None] if not m else list(m.groups() or (m.group(0),))


def _gmatch(s, pat):
    return [_PyIter(iter([list(m.groups() or (m.group(0),)) for m in lua_pattern(pat).finditer(_str(s))]))]


def _format(f, *a):
    a = list(a)

    def one(m):
        spec = m[0]
        if spec == b"%%": return b"%"
        v = a.pop(0)
        k = spec[-1:]
        if k in b"di": return (spec[:-1].decode() + "d").encode().decode().__mod__(int(_num(v))).encode()
        if k in b"eEfgGxXo": return (spec.decode() % (_num(v) if k in b"eEfgG" else int(_num(v)))).encode()
        if k == b"c": return bytes([int(v)])
        if k == b"q": return b'"' + _tostring(v)[0].replace(b"\\", b"\\\\").replace(b'"', b'\\"') + b'"'
        return spec[:-1] + b"s" and (spec.decode() % _tostring(v)[0].decode("latin-1")).encode("latin-1")
    return [re.sub(rb"%[-+ #0]*\d*(?:\.\d+)?[a-zA-Z%]", one, f)]


def _tostring(v=None, *a):
    if v is None: return [b"nil"]
    if v is True: return [b"true"]
    if v is False: return [b"false"]
    if isinstance(v, bytes): return [v]
    if isinstance(v, (int, float)): return [fmtnum(v)]
    return [typename(v) + b": 0x0"]


STRING = {b"gsub": _gsub, b"sub": _sub, b"len": lambda s: [len(_str(s))], b"upper": lambda s: [_str(s).upper()],
          b"lower": lambda s: [_str(s).lower()], b"rep": lambda s, n, *a: [_str(s) * max(0, int(n))],
          b"find": _find, b"match": _match, b"gmatch": _gmatch, b"format": _format, b"reverse": lambda s: [s[::-1]],
          b"byte": lambda s, i=1, j=None: list(_sub(s, i, j if j is not None else i)[0]),
          b"char": lambda *a: [bytes(int(x) for x in a)]}


def _tinsert(t, a, *b):
    if b:
        t.a.insert(int(a) - 1, b[0])
    else:
        t.set(t.length() + 1, a)
    return []


def _tremove(t, i=None):
    if not t.a: return [None]
    return [t.a.pop() if i is None else t.a.pop(int(i) - 1)]


def _tconcat(t, sep=b"", i=1, j=None):
    j = t.length() if j is None else int(j)
    return [_str(sep or b"").join(_str(t.get(k)) for k in range(int(i), j + 1))]


def _tsort(t, f=None):
    import functools
    if f is None:
        t.a.sort(key=functools.cmp_to_key(_cmp))
    else:
        t.a.sort(key=functools.cmp_to_key(lambda x, y: -1 if _t(_first(f(x, y))) else (1 if _t(_first(f(y, x))) else 0)))
    return []


def _lib(d):
    t = Table()
    t.h.update(d)
    return t


def _error(v=None, *a):
    raise LuaError(v)


def _assert(v=None, msg=b"assertion failed!", *a):
    if not _t(v):
        raise LuaError(msg)
    return [v, msg, *a]


def _pcall(f, *a):
    try:
        return [True, *_call(f, *a)]
    except LuaError as e:
        return [False, e.value]


def _select(n, *a):
    if n == b"#": return [len(a)]
    return list(a[int(n) - 1:]) if n > 0 else list(a[int(n):])


def _unpack(t, i=1, j=None):
    j = t.length() if j is None else int(j)
    return [t.get(k) for k in range(int(i), j + 1)]


def base_env():
    m = {b"floor": lambda x: [math.floor(_num(x))], b"ceil": lambda x: [math.ceil(_num(x))],
         b"max": lambda *a: [max(map(_num, a))], b"min": lambda *a: [min(map(_num, a))],
         b"abs": lambda x: [abs(_num(x))], b"huge": math.inf, b"sqrt": lambda x: [_norm(math.sqrt(_num(x)))],
         b"fmod": lambda a, b: [_norm(math.fmod(_num(a), _num(b)))], b"pow": lambda a, b: [_norm(float(a) ** b)],
         b"log": lambda a, *b: [math.log(_num(a))], b"exp": lambda a: [math.exp(_num(a))]}
    return {"string": _lib(STRING), "math": _lib(m),
            "table": _lib({b"insert": _tinsert, b"remove": _tremove, b"concat": _tconcat, b"sort": _tsort,
                           b"getn": lambda t: [t.length()]}),
            "tonumber": lambda v=None, b=None: [tonum(v, b)], "tostring": _tostring, "type": lambda v=None: [typename(v)],
            "ipairs": _ipairs, "pairs": _pairs, "unpack": _unpack, "next": lambda t, k=None: _first_pair(t, k),
            "select": _select, "error": _error, "assert": _assert, "pcall": _pcall}


def _first_pair(t, k):
    it = iter(t.items())
    if k is None:
        return list(next(it, (None,)))
    for kk, _ in it:
        if _eq(kk, k):
            return list(next(it, (None,)))
    return [None]


RUNTIME = {n: globals()[n] for n in ("_t _first _adj _str _num _div _mod _eq _cmp _len _index _setindex _call _method "
                                     "_table _range _iter").split()}


@lru_cache(maxsize=512)
def compile_lua(src: bytes):
    code = Compiler(src).compile()
    ns = dict(RUNTIME)
    exec(compile(code, "<lua>", "exec"), ns)
    return ns["_main"]
