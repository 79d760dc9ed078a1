"""Parses the Rust layer (the subset of the language it uses) and lowers it to Python syntax trees,
so that the same abstract interpreter can follow a call from Python into the native kernels.

Types, lifetimes, generics and attributes are skipped; `?`, `&`, `*`, `as f64`, `Ok`, `Some` are transparent;
`Err(..)` ends the path like a raise. A function that uses syntax outside the subset becomes opaque and is listed
in `Crate.opaque` (counted in the evidence), it never aborts the analysis.
"""
import ast
import os
import re

TOK = re.compile(r"""
  (?P<ws>\s+|//[^\n]*)
 |(?P<raw>b?r(?P<h>\#*)".*?"(?P=h))
 |(?P<str>b?"(?:\\.|[^"\\])*")
 |(?P<char>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F]+\}|.)|[^'\\])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<num>0x[0-9a-fA-F_]+\w*|0b[01_]+\w*|\d[\d_]*(?:\.(?!\.|[A-Za-z_])[\d_]*)?(?:[eE][+-]?[\d_]+)?(?:_?(?:f64|f32|usize|isize|[iu](?:8|16|32|64|128)))?)
 |(?P<id>r\#[A-Za-z_]\w*|[A-Za-z_]\w*)
 |(?P<op><<=|>>=|\.\.\.|\.\.=|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|>>|\.\.|[-+*/%^!&|=<>@.,;:\#$?~(){}\[\]])
""", re.X | re.S)


class RustSyntax(Exception):
    pass


class T:
    __slots__ = ("k", "v", "line")

    def __init__(self, k, v, line):
        self.k, self.v, self.line = k, v, line

    def __repr__(self):
        return f"{self.v}@{self.line}"


def strip_block_comments(src):
    out, i, n, depth = [], 0, len(src), 0
    while i < n:
        if depth == 0 and src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            i = j
            continue
        if depth == 0 and src[i] == '"':
            m = re.compile(r'"(?:\\.|[^"\\])*"', re.S).match(src, i)
            if m:
                out.append(m.group())
                i = m.end()
                continue
        if src.startswith("/*", i):
            depth += 1
            i += 2
            continue
        if depth and src.startswith("*/", i):
            depth -= 1
            i += 2
            continue
        if depth:
            if src[i] == "\n":
                out.append("\n")
            i += 1
            continue
        out.append(src[i])
        i += 1
    return "".join(out)


def lex(src):
    src = strip_block_comments(src)
    out, i, line = [], 0, 1
    while i < len(src):
        m = TOK.match(src, i)
        if not m:
            raise RustSyntax(f"line {line}: {src[i:i+20]!r}")
        k = m.lastgroup if m.lastgroup != "h" else "raw"
        s = m.group()
        if k != "ws":
            out.append(T(k, s, line))
        line += s.count("\n")
        i = m.end()
    return out


def N(node, line, **kw):
    node.lineno = node.end_lineno = line
    node.col_offset = node.end_col_offset = 0
    return node


def name(n, line):
    return N(ast.Name(n, ast.Load()), line)


def const(v, line):
    return N(ast.Constant(v), line)


def callf(f, args, line, kw=None):
    return N(ast.Call(name(f, line) if isinstance(f, str) else f, list(args), [ast.keyword(k, v) for k, v in (kw or {}).items()]), line)


def npf(fn, args, line):
    return callf(N(ast.Attribute(name("__np__", line), fn, ast.Load()), line), args, line)


BIN = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "%": ast.Mod, "^": ast.BitXor, "&": ast.BitAnd, "|": ast.BitOr, "<<": ast.LShift, ">>": ast.RShift}
CMP = {"==": ast.Eq, "!=": ast.NotEq, "<": ast.Lt, ">": ast.Gt, "<=": ast.LtE, ">=": ast.GtE}
PREC = [("||",), ("&&",), ("==", "!=", "<", ">", "<=", ">="), ("|",), ("^",), ("&",), ("<<", ">>"), ("+", "-"), ("*", "/", "%")]
M1 = {"sqrt": "sqrt", "exp": "exp", "ln": "log", "log10": "log10", "log2": "log2", "abs": "abs", "sin": "sin", "cos": "cos", "tan": "tan", "sinh": "sinh", "cosh": "cosh", "tanh": "tanh",
      "asin": "arcsin", "acos": "arccos", "atan": "arctan", "asinh": "arcsinh", "acosh": "arccosh", "atanh": "arctanh", "exp_m1": "expm1", "ln_1p": "log1p", "cbrt": "cbrt", "floor": "floor",
      "ceil": "ceil", "round": "round", "is_nan": "isnan", "is_finite": "isfinite", "is_infinite": "isinf", "signum": "sign", "is_sign_negative": "signbit"}
IDENT = {"iter", "into_iter", "copied", "cloned", "clone", "as_array", "to_vec", "collect", "map_err", "unwrap", "expect", "as_slice", "as_ref", "to_owned", "to_string", "as_str", "into", "iter_mut",
         "as_any", "into_any", "unbind", "borrow", "unwrap_or_default", "as_deref", "into_boxed_slice", "as_mut", "by_ref", "peekable", "ok", "view", "to_f64", "try_into"}


class Parser:
    def __init__(self, toks, modname, crate):
        self.t, self.i = toks, 0
        self.modname = modname
        self.crate = crate
        self.tmp = 0
        self.pre = None      # current prelude list
        self.selfty = None

    # ---- token helpers
    def peek(self, k=0):
        j = self.i + k
        return self.t[j].v if j < len(self.t) else ""

    def kind(self, k=0):
        j = self.i + k
        return self.t[j].k if j < len(self.t) else ""

    @property
    def line(self):
        return self.t[min(self.i, len(self.t) - 1)].line if self.t else 0

    def next(self):
        t = self.t[self.i]
        self.i += 1
        return t.v

    def eat(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def need(self, v):
        if not self.eat(v):
            raise RustSyntax(f"{self.modname}: line {self.line}: expected {v!r}, got {self.peek()!r}")

    def fresh(self):
        self.tmp += 1
        return f"__t{self.tmp}"

    def split_gt(self):
        """Split '>>', '>=', '>>=' when closing generics."""
        v = self.peek()
        if v in (">>", ">=", ">>="):
            l = self.t[self.i].line
            self.t[self.i:self.i + 1] = [T("op", ">", l), T("op", v[1:], l)]

    def skip_generics(self):
        if self.peek() == "<":
            d = 0
            while True:
                v = self.peek()
                if v == "<":
                    d += 1
                elif v in (">", ">>", ">=", ">>="):
                    self.split_gt()
                    d -= 1
                elif v == "->":
                    pass
                elif v == "":
                    raise RustSyntax("generics")
                self.i += 1
                if d == 0:
                    return

    def skip_tree(self):
        """Skip one balanced token tree; returns the tokens inside."""
        o = self.next()
        c = {"(": ")", "[": "]", "{": "}"}[o]
        s = self.i
        d = 1
        while d:
            v = self.next()
            if v in "([{" and len(v) == 1:
                d += 1
            elif v in ")]}" and len(v) == 1:
                d -= 1
        return self.t[s:self.i - 1]

    def type_text(self):
        s = self.i
        self.skip_type()
        return "".join(t.v for t in self.t[s:self.i])

    def skip_type(self):
        v = self.peek()
        if v in ("&", "&&"):
            self.i += 1
            if self.kind() == "life":
                self.i += 1
            self.eat("mut")
            self.skip_type()
        elif v == "*":
            self.i += 2
            self.skip_type()
        elif v in ("(", "["):
            self.skip_tree()
        elif v in ("impl", "dyn"):
            self.i += 1
            self.skip_type()
        elif v in ("fn", "unsafe", "extern"):
            while self.peek() != "fn":
                self.i += 1
            self.i += 1
            self.skip_tree()
            if self.eat("->"):
                self.skip_type()
        elif v == "!":
            self.i += 1
        elif v == "for":
            self.i += 1
            self.skip_generics()
            self.skip_type()
        elif self.kind() == "life":
            self.i += 1
        elif v == "?":
            self.i += 1
            self.skip_type()
        else:
            if v == "<":
                self.skip_generics()
            while True:
                if self.kind() == "id":
                    self.i += 1
                if self.peek() == "<":
                    self.skip_generics()
                if self.peek() == "(" and self.t[self.i - 1].v in ("Fn", "FnMut", "FnOnce"):
                    self.skip_tree()
                    if self.eat("->"):
                        self.skip_type()
                if self.peek() == "::":
                    self.i += 1
                    if self.peek() == "<":
                        self.skip_generics()
                    continue
                break
        while self.peek() == "+":
            self.i += 1
            self.skip_type()

    def attrs(self):
        out = []
        while self.peek() == "#":
            self.i += 1
            self.eat("!")
            out.append("".join(t.v for t in self.skip_tree()))
        return out

    # ---- items
    def items(self, end=None):
        body = []
        while self.i < len(self.t) and self.peek() != end:
            at = self.attrs()
            if self.i >= len(self.t) or self.peek() == end:
                break
            start = self.i
            test = any(a.replace(" ", "").startswith("cfg(test)") or a == "test" for a in at)
            try:
                r = self.item(at)
            except RustSyntax as ex:
                self.crate.opaque.append((self.modname, self.t[start].line, str(ex)))
                self.i = start
                self.skip_item()
                r = []
            if not test:
                body += r
        return body

    def skip_item(self):
        while self.i < len(self.t):
            v = self.peek()
            if v == ";":
                self.i += 1
                return
            if v == "{":
                self.skip_tree()
                return
            if v in ("(", "["):
                self.skip_tree()
                continue
            self.i += 1

    def vis(self):
        if self.eat("pub") and self.peek() == "(":
            self.skip_tree()

    def item(self, at=()):
        self.vis()
        line = self.line
        while self.peek() in ("unsafe", "async", "default") or (self.peek() == "const" and self.peek(1) in ("fn", "unsafe")) or (self.peek() == "extern" and self.kind(1) == "str"):
            self.i += 2 if self.peek() == "extern" else 1
        v = self.peek()
        if v == "use":
            self.i += 1
            out = []
            self.use_tree([], out)
            self.need(";")
            return [N(ast.ImportFrom(m, [ast.alias(n, a)], 0), line) for m, n, a in out]
        if v == "mod":
            self.i += 1
            n = self.next()
            if self.eat(";"):
                return []
            self.need("{")
            sub = Parser(self.t, self.modname + "." + n, self.crate)
            sub.i = self.i
            body = sub.items("}")
            self.i = sub.i
            self.need("}")
            self.crate.inline_modules.append((self.modname + "." + n, body, at))
            return []
        if v in ("const", "static"):
            self.i += 1
            self.eat("mut")
            n = self.next()
            self.need(":")
            self.skip_type()
            if self.eat(";"):
                return []
            self.need("=")
            pre = []
            e = self.with_pre(pre)
            self.need(";")
            return pre + [N(ast.Assign([N(ast.Name(n, ast.Store()), line)], e), line)]
        if v == "fn":
            return self.fn(at)
        if v == "struct":
            self.i += 1
            n = self.next()
            self.skip_generics()
            fields = []
            if self.peek() == "(":
                toks = self.skip_tree()
                d, cnt = 0, 1 if toks else 0
                for t in toks:
                    if t.v in ("(", "[", "<"):
                        d += 1
                    elif t.v in (")", "]", ">"):
                        d -= 1
                    elif t.v == "," and d == 0:
                        cnt += 1
                if toks and toks[-1].v == ",":
                    cnt -= 1
                fields = [f"_{i}" for i in range(cnt)]
                self.eat(";")
            elif self.peek() == "where":
                while self.peek() != "{":
                    self.i += 1
            if self.peek() == "{":
                self.need("{")
                while self.peek() != "}":
                    self.attrs()
                    self.vis()
                    fields.append(self.next())
                    self.need(":")
                    self.skip_type()
                    self.eat(",")
                self.need("}")
            else:
                self.eat(";")
            self.crate.structs.setdefault((self.modname, n), [fields, [], line])[0] = fields
            return [("struct", n, line)]
        if v == "enum":
            self.i += 1
            n = self.next()
            self.skip_generics()
            toks = self.skip_tree()
            return [N(ast.Assign([N(ast.Name(n, ast.Store()), line)], callf("__rust_enum__", [const(n, line)], line)), line)]
        if v == "impl":
            self.i += 1
            self.skip_generics()
            s = self.i
            self.skip_type()
            ty = [t.v for t in self.t[s:self.i]]
            if self.eat("for"):
                s = self.i
                self.skip_type()
                ty = [t.v for t in self.t[s:self.i]]
            while self.peek() != "{":
                self.i += 1
            self.need("{")
            tn = next((x for x in ty if re.match(r"[A-Za-z_]", x) and x not in ("mut", "dyn")), "?")
            body = []
            while self.peek() != "}":
                a2 = self.attrs()
                st = self.i
                if self.peek() == "}":
                    break
                try:
                    body += self.item(a2)
                except RustSyntax as ex:
                    self.crate.opaque.append((self.modname, self.t[st].line, str(ex)))
                    self.i = st
                    self.skip_item()
            self.need("}")
            self.crate.structs.setdefault((self.modname, tn), [[], [], line])[1].extend(body)
            return []
        if v in ("trait", "union"):
            self.skip_item()
            return []
        if v == "type":
            while self.next() != ";":
                pass
            return []
        if v == "macro_rules":
            self.skip_item()
            return []
        if v == "extern":
            while self.next() != ";":
                pass
            return []
        if self.kind() == "id" and self.peek(1) == "!":
            self.i += 2
            self.skip_tree()
            self.eat(";")
            return []
        raise RustSyntax(f"item {v!r} line {line}")

    def use_tree(self, prefix, out):
        if self.peek() == "::":
            self.i += 1
        path = list(prefix)
        while True:
            if self.peek() == "{":
                self.need("{")
                while self.peek() != "}":
                    self.use_tree(path, out)
                    self.eat(",")
                self.need("}")
                return
            if self.peek() == "*":
                self.i += 1
                out.append((self.modpath(path), "*", None))
                return
            path.append(self.next())
            if not self.eat("::"):
                break
        alias = None
        if self.eat("as"):
            alias = self.next()
        if path[-1] == "self":
            path = path[:-1]
        if len(path) == 1:
            return
        out.append((self.modpath(path[:-1]), path[-1], alias))

    def modpath(self, p):
        p = list(p)
        if p and p[0] == "crate":
            return ".".join(["rust"] + p[1:])
        if p and p[0] in ("self", "super"):
            base = self.modname.split(".")
            while p and p[0] in ("self", "super"):
                if p.pop(0) == "super":
                    base = base[:-1]
            return ".".join(base + p)
        if p and p[0] in self.crate.rootmods and False:
            return ".".join(["rust"] + p)
        return "rustext." + ".".join(p)

    def fn(self, at):
        line = self.line
        self.need("fn")
        n = self.next()
        self.skip_generics()
        self.need("(")
        params, types = [], []
        pats = []
        while self.peek() != ")":
            self.attrs()
            if self.peek() in ("&", "self", "mut") and "self" in [self.peek(k) for k in range(0, 4)][:4]:
                s = self.i
                while self.peek() not in ("self", ",", ")", ":"):
                    self.i += 1
                if self.peek() == "self":
                    self.i += 1
                    params.append("self")
                    types.append("Self")
                    if self.eat(":"):
                        self.skip_type()
                    self.eat(",")
                    continue
                self.i = s
            p = self.pattern()
            self.need(":")
            types.append(self.type_text())
            if p[0] == "bind":
                params.append(p[1])
            else:
                q = self.fresh()
                params.append(q)
                pats.append((q, p))
            self.eat(",")
        self.need(")")
        ret = None
        if self.eat("->"):
            ret = self.type_text()
        if self.peek() == "where":
            while self.peek() not in ("{", ";"):
                if self.peek() in ("(", "["):
                    self.skip_tree()
                else:
                    self.i += 1
        if self.eat(";"):
            return []
        old = self.pre
        start = self.i
        try:
            self.pre = None
            body = self.block_stmts(tail="return")
            ok = True
        except RustSyntax as ex:
            self.crate.opaque.append((self.modname, line, f"{n}: {ex}"))
            self.i = start
            self.skip_tree()
            body = [N(ast.Return(callf("__rust_opaque__", [name(p, line) for p in params], line)), line)]
        finally:
            self.pre = old
        pb = []
        for q, p in pats:
            pb += self.bind(p, name(q, line), line)
        fd = N(ast.FunctionDef(n, ast.arguments([], [ast.arg(p, None) for p in params], None, [], [], None, []), pb + body or [N(ast.Pass(), line)], [], None), line)
        fd.rust_types = types
        fd.rust_ret = ret
        fd.rust_attrs = list(at)
        return [fd]

    # ---- statements
    def block_stmts(self, tail="value"):
        """Parse { ... }. tail='return': tail expression returned; 'drop': ignored; otherwise (stmts, value)."""
        self.need("{")
        out = []
        val = None
        while self.peek() != "}":
            at = self.attrs()
            if self.peek() == "}":
                break
            line = self.line
            v = self.peek()
            if v == ";":
                self.i += 1
                continue
            if v == "let":
                out += self.let()
                continue
            if v in ("fn", "use", "struct", "enum", "impl", "static", "mod", "trait", "type") or (v == "const" and self.peek(1) != "{"):
                r = self.item(at)
                out += [x for x in r if not isinstance(x, tuple)]
                continue
            pre = []
            block_like = v in ("if", "match", "for", "while", "loop", "unsafe", "{") or self.kind() == "life"
            if block_like:
                save = self.i
                # statement position: a block-like expression ends the statement unless it is the tail or continued
                self_pre, self.pre = self.pre, pre
                e = self.block_like(want_value=self.block_is_tail())
                if self.peek() in (".", "?"):
                    e = self.postfix(e if e is not None else const(None, line))
                    e = self.binary_rest(e)
                self.pre = self_pre
                out += pre
                if self.eat(";"):
                    if e is not None:
                        out.append(N(ast.Expr(e), line))
                elif self.peek() == "}":
                    val = e
                elif e is not None:
                    out.append(N(ast.Expr(e), line))
                continue
            e = self.with_pre(pre)
            if isinstance(e, ast.stmt):
                out += pre + [e]
                self.eat(";")
                continue
            out += pre
            if self.eat(";"):
                out.append(N(ast.Expr(e), line))
            else:
                val = e
                if self.peek() != "}":
                    raise RustSyntax(f"{self.modname}: line {self.line}: expected ; or }} got {self.peek()!r}")
        line = self.line
        self.need("}")
        if tail == "return":
            if val is not None:
                out.append(N(ast.Return(val), line if val is None else getattr(val, "lineno", line)))
            return out
        if tail == "drop":
            if val is not None:
                out.append(N(ast.Expr(val), line))
            return out
        return out, val

    def block_is_tail(self):
        """Is the block-like expression starting here the last thing of its block (so its value is wanted)?"""
        j, d = self.i, 0
        # skip over the whole construct: find matching end(s)
        k = self.i
        save = self.i
        try:
            self.skip_block_like()
            r = self.peek() in ("}", ".", "?")
        except (RustSyntax, IndexError, KeyError):
            r = False
        self.i = save
        return r

    def skip_block_like(self):
        if self.kind() == "life":
            self.i += 2
        v = self.next()
        if v == "{":
            self.i -= 1
            self.skip_tree()
            return
        if v == "unsafe" or v == "loop":
            self.skip_tree()
            return
        while self.peek() != "{":
            if self.peek() in ("(", "["):
                self.skip_tree()
            else:
                self.i += 1
        self.skip_tree()
        if v == "if":
            while self.eat("else"):
                if self.peek() == "if":
                    self.i += 1
                    while self.peek() != "{":
                        if self.peek() in ("(", "["):
                            self.skip_tree()
                        else:
                            self.i += 1
                self.skip_tree()

    def let(self):
        line = self.line
        self.need("let")
        p = self.pattern()
        if self.eat(":"):
            self.skip_type()
        if self.eat(";"):
            return []
        self.need("=")
        pre = []
        e = self.with_pre(pre)
        els = None
        if self.eat("else"):
            els = self.block_stmts("drop")
        self.need(";")
        if els is not None:
            t = self.fresh()
            out = pre + [N(ast.Assign([N(ast.Name(t, ast.Store()), line)], e), line)]
            test = self.test(p, name(t, line), line)
            out.append(N(ast.If(N(ast.UnaryOp(ast.Not(), test), line), els or [N(ast.Pass(), line)], []), line))
            return out + self.bind(p, name(t, line), line)
        return pre + self.bind(p, e, line)

    # ---- patterns: ('bind',n) ('wild',) ('tuple',[...]) ('lit',expr) ('path',expr,[subs]) ('or',[...]) ('struct',..)
    def pattern(self):
        self.eat("|")
        p = self.pattern1()
        if self.peek() == "|":
            ps = [p]
            while self.eat("|"):
                ps.append(self.pattern1())
            return ("or", ps)
        return p

    def pattern1(self):
        v = self.peek()
        line = self.line
        if v in ("&", "&&"):
            self.i += 1
            self.eat("mut")
            return self.pattern1()
        if v in ("mut", "ref"):
            self.i += 1
            return self.pattern1()
        if v == "_":
            self.i += 1
            return ("wild",)
        if v == "..":
            self.i += 1
            return ("rest",)
        if v in ("(", "["):
            c = ")" if v == "(" else "]"
            self.i += 1
            ps = []
            while self.peek() != c:
                ps.append(self.pattern())
                self.eat(",")
            self.need(c)
            if v == "(" and len(ps) == 1 and self.t[self.i - 2].v != ",":
                return ps[0]
            return ("tuple", ps)
        if self.kind() in ("num", "str", "char", "raw") or v == "-" or v in ("true", "false"):
            e = self.literal_pat()
            if self.peek() in ("..=", ".."):
                self.i += 1
                hi = None
                if self.kind() in ("num", "char") or self.peek() == "-":
                    hi = self.literal_pat()
                return ("range", e, hi)
            return ("lit", e)
        if self.kind() == "id":
            path = [self.next()]
            while self.peek() == "::":
                self.i += 1
                if self.peek() == "<":
                    self.skip_generics()
                    continue
                path.append(self.next())
            if self.peek() == "(":
                self.i += 1
                subs = []
                while self.peek() != ")":
                    subs.append(self.pattern())
                    self.eat(",")
                self.need(")")
                return ("path", path, subs, line)
            if self.peek() == "{":
                self.i += 1
                fs = []
                while self.peek() != "}":
                    if self.eat(".."):
                        continue
                    self.eat("ref")
                    self.eat("mut")
                    n = self.next()
                    p = ("bind", n)
                    if self.eat(":"):
                        p = self.pattern()
                    fs.append((n, p))
                    self.eat(",")
                self.need("}")
                return ("struct", path, fs)
            if len(path) == 1 and (path[0][0].islower() or path[0][0] == "_"):
                if self.eat("@"):
                    sub = self.pattern1()
                    return ("as", path[0], sub)
                return ("bind", path[0])
            return ("path", path, None, line)
        raise RustSyntax(f"pattern {v!r} line {line}")

    def literal_pat(self):
        line = self.line
        neg = self.eat("-")
        e = self.primary()
        return N(ast.UnaryOp(ast.USub(), e), line) if neg else e

    def bind(self, p, e, line):
        k = p[0]
        if k == "wild":
            return [N(ast.Expr(e), line)]
        if k == "bind":
            return [N(ast.Assign([N(ast.Name(p[1], ast.Store()), line)], e), line)]
        if k == "as":
            return [N(ast.Assign([N(ast.Name(p[1], ast.Store()), line)], e), line)] + self.bind(p[2], name(p[1], line), line)
        if k == "tuple":
            t = self.fresh()
            out = [N(ast.Assign([N(ast.Name(t, ast.Store()), line)], e), line)]
            for i, q in enumerate(p[1]):
                if q[0] in ("wild", "rest"):
                    continue
                out += self.bind(q, N(ast.Subscript(name(t, line), const(i, line), ast.Load()), line), line)
            return out
        if k == "path" and p[2]:
            if p[1][-1] in ("Some", "Ok", "Err") and len(p[2]) == 1:
                return self.bind(p[2][0], e if p[1][-1] != "Err" else callf("__rust_opaque__", [], line), line)
            out = []
            for i, q in enumerate(p[2]):
                out += self.bind(q, callf("__rust_opaque__", [e], line), line)
            return out
        if k == "struct":
            out = []
            t = self.fresh()
            out.append(N(ast.Assign([N(ast.Name(t, ast.Store()), line)], e), line))
            for n, q in p[2]:
                out += self.bind(q, N(ast.Attribute(name(t, line), n, ast.Load()), line), line)
            return out
        if k == "or":
            return self.bind(p[1][0], e, line)
        return []

    def test(self, p, e, line):
        k = p[0]
        if k == "struct" and len(p[1]) >= 2:
            return N(ast.Compare(e, [ast.Eq()], [self.path_expr(p[1], line)]), line)
        if k in ("wild", "bind", "rest", "struct"):
            return const(True, line)
        if k == "as":
            return self.test(p[2], e, line)
        if k == "lit":
            return N(ast.Compare(e, [ast.Eq()], [p[1]]), line)
        if k == "range":
            parts = [N(ast.Compare(e, [ast.GtE()], [p[1]]), line)]
            if p[2] is not None:
                parts.append(N(ast.Compare(e, [ast.LtE()], [p[2]]), line))
            return N(ast.BoolOp(ast.And(), parts), line) if len(parts) > 1 else parts[0]
        if k == "or":
            return N(ast.BoolOp(ast.Or(), [self.test(q, e, line) for q in p[1]]), line)
        if k == "tuple":
            parts = [self.test(q, N(ast.Subscript(e, const(i, line), ast.Load()), line), line) for i, q in enumerate(p[1]) if q[0] not in ("wild", "bind", "rest")]
            if not parts:
                return const(True, line)
            return N(ast.BoolOp(ast.And(), parts), line) if len(parts) > 1 else parts[0]
        if k == "path":
            last = p[1][-1]
            if last in ("Some", "Ok"):
                t = N(ast.Compare(e, [ast.IsNot()], [const(None, line)]), line)
                if p[2] and p[2][0][0] not in ("bind", "wild"):
                    return N(ast.BoolOp(ast.And(), [t, self.test(p[2][0], e, line)]), line)
                return t
            if last == "None":
                return N(ast.Compare(e, [ast.Is()], [const(None, line)]), line)
            if last == "Err":
                return callf("__rust_opaque__", [], line)
            if p[2] is None:
                return N(ast.Compare(e, [ast.Eq()], [self.path_expr(p[1], line)]), line)
            return callf("__rust_opaque__", [e], line)
        return callf("__rust_opaque__", [e], line)

    # ---- expressions
    def with_pre(self, pre):
        old, self.pre = self.pre, pre
        try:
            return self.expr()
        finally:
            self.pre = old

    nostruct = False

    def expr(self, nostruct=False):
        old, self.nostruct = self.nostruct, nostruct
        try:
            return self.assignment()
        finally:
            self.nostruct = old

    def assignment(self):
        line = self.line
        v = self.peek()
        if v == "return":
            self.i += 1
            if self.peek() in (";", "}", ",", ")"):
                self.pre.append(N(ast.Return(const(None, line)), line))
            else:
                e = self.assignment()
                self.pre.append(N(ast.Return(e), line))
            return const(None, line)
        if v in ("break", "continue"):
            self.i += 1
            if self.kind() == "life":
                self.i += 1
            if v == "break" and self.peek() not in (";", "}", ",", ")"):
                e = self.assignment()
                if getattr(self, "breakvar", None):
                    self.pre.append(N(ast.Assign([N(ast.Name(self.breakvar, ast.Store()), line)], e), line))
            self.pre.append(N(ast.Break() if v == "break" else ast.Continue(), line))
            return const(None, line)
        l = self.range_expr()
        v = self.peek()
        if v == "=":
            self.i += 1
            r = self.assignment()
            self.pre.append(N(ast.Assign([self.store(l)], r), line))
            return const(None, line)
        if v in ("+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<=", ">>="):
            self.i += 1
            r = self.assignment()
            self.pre.append(N(ast.AugAssign(self.store(l), BIN[v[:-1]](), r), line))
            return const(None, line)
        return l

    def store(self, e):
        if isinstance(e, ast.Name):
            return N(ast.Name(e.id, ast.Store()), e.lineno)
        if isinstance(e, ast.Subscript):
            return N(ast.Subscript(e.value, e.slice, ast.Store()), e.lineno)
        if isinstance(e, ast.Attribute):
            return N(ast.Attribute(e.value, e.attr, ast.Store()), e.lineno)
        if isinstance(e, ast.Tuple):
            return N(ast.Tuple([self.store(x) for x in e.elts], ast.Store()), e.lineno)
        return N(ast.Name("__drop", ast.Store()), e.lineno)

    def range_expr(self):
        line = self.line
        if self.peek() in ("..", "..="):
            self.i += 1
            hi = None
            if self.peek() not in ("]", ")", "{", ";", ","):
                hi = self.binary(0)
            return N(ast.Slice(None, hi, None), line)
        l = self.binary(0)
        if self.peek() in ("..", "..="):
            inc = self.next() == "..="
            hi = None
            if self.peek() not in ("]", ")", "{", ";", ",", "}"):
                hi = self.binary(0)
            if hi is not None and inc:
                hi = N(ast.BinOp(hi, ast.Add(), const(1, line)), line)
            s = N(ast.Slice(l, hi, None), line)
            return s
        return l

    def binary_rest(self, left):
        # continue a binary expression whose left operand is already parsed (statement-position blocks)
        return self.binary(0, left)

    def binary(self, level, left=None):
        if level == len(PREC):
            return left if left is not None else self.cast()
        l = self.binary(level + 1, left)
        while self.peek() in PREC[level] and self.kind() == "op":
            op = self.next()
            line = self.line
            if op in ("||", "&&"):
                r = self.binary(level + 1)
                l = N(ast.BoolOp(ast.Or() if op == "||" else ast.And(), [l, r]), line)
            elif op in CMP:
                r = self.binary(level + 1)
                l = N(ast.Compare(l, [CMP[op]()], [r]), line)
            else:
                r = self.binary(level + 1)
                l = N(ast.BinOp(l, BIN[op](), r), line)
        return l

    def cast(self):
        e = self.unary()
        while self.peek() == "as":
            self.i += 1
            self.skip_type()
        return e

    def unary(self):
        line = self.line
        v = self.peek()
        if v == "-":
            self.i += 1
            return N(ast.UnaryOp(ast.USub(), self.unary()), line)
        if v == "!":
            self.i += 1
            return N(ast.UnaryOp(ast.Not(), self.unary()), line)
        if v in ("&", "&&"):
            self.i += 1
            self.eat("mut")
            return self.unary()
        if v == "*":
            self.i += 1
            return self.unary()
        if v in ("|", "||") or (v == "move" and self.peek(1) in ("|", "||")):
            return self.closure()
        return self.postfix(self.primary())

    def closure(self):
        line = self.line
        self.eat("move")
        pats = []
        if not self.eat("||"):
            self.need("|")
            while self.peek() != "|":
                pats.append(self.pattern1())
                if self.eat(":"):
                    self.skip_type()
                self.eat(",")
            self.need("|")
        if self.eat("->"):
            self.skip_type()
        pre = []
        params, pb = [], []
        for p in pats:
            if p[0] == "bind":
                params.append(p[1])
            else:
                q = self.fresh()
                params.append(q)
                pb += self.bind(p, name(q, line), line)
        args = ast.arguments([], [ast.arg(p, None) for p in params], None, [], [], None, [])
        old, self.pre = self.pre, pre
        try:
            if self.peek() == "{":
                stmts, val = self.block_stmts("value")
                stmts = pre + stmts
            else:
                val = self.assignment()
                stmts = pre
        finally:
            self.pre = old
        if not stmts and not pb and val is not None:
            return N(ast.Lambda(args, val), line)
        f = "__closure" + self.fresh()
        body = pb + stmts + ([N(ast.Return(val), line)] if val is not None else [])
        self.pre.append(N(ast.FunctionDef(f, args, body or [N(ast.Pass(), line)], [], None), line))
        return name(f, line)

    def block_value(self, stmts_val, var, line):
        stmts, val = stmts_val
        if val is not None and var is not None:
            stmts = stmts + [N(ast.Assign([N(ast.Name(var, ast.Store()), line)], val), getattr(val, "lineno", line))]
        elif val is not None:
            stmts = stmts + [N(ast.Expr(val), line)]
        return stmts or [N(ast.Pass(), line)]

    def block_like(self, want_value=True):
        line = self.line
        if self.kind() == "life":
            self.i += 1
            self.need(":")
        v = self.peek()
        if v == "unsafe":
            self.i += 1
            v = self.peek()
        if v == "{":
            stmts, val = self.block_stmts("value")
            self.pre.extend(stmts)
            return val
        if v == "if":
            return self.if_expr(want_value)
        if v == "match":
            return self.match_expr(want_value)
        if v == "for":
            self.i += 1
            p = self.pattern()
            self.need("in")
            it = self.expr(nostruct=True)
            if isinstance(it, ast.Slice):
                it = callf("range", [it.lower or const(0, line), it.upper] if it.upper is not None else [it.lower], line)
            body = self.block_stmts("drop")
            if p[0] == "bind":
                tgt, pb = N(ast.Name(p[1], ast.Store()), line), []
            else:
                q = self.fresh()
                tgt, pb = N(ast.Name(q, ast.Store()), line), self.bind(p, name(q, line), line)
            self.pre.append(N(ast.For(tgt, it, pb + body or [N(ast.Pass(), line)], []), line))
            return None
        if v == "while":
            self.i += 1
            if self.peek() == "let":
                self.i += 1
                p = self.pattern()
                self.need("=")
                pre = []
                old, self.pre = self.pre, pre
                e = self.expr(nostruct=True)
                self.pre = old
                body = self.block_stmts("drop")
                t = self.fresh()
                inner = pre + [N(ast.Assign([N(ast.Name(t, ast.Store()), line)], e), line), N(ast.If(N(ast.UnaryOp(ast.Not(), self.test(p, name(t, line), line)), line), [N(ast.Break(), line)], []), line)]
                self.pre.append(N(ast.While(const(True, line), inner + self.bind(p, name(t, line), line) + body, []), line))
                return None
            pre = []
            old, self.pre = self.pre, pre
            c = self.expr(nostruct=True)
            self.pre = old
            body = self.block_stmts("drop")
            if pre:
                self.pre.append(N(ast.While(const(True, line), pre + [N(ast.If(c, [N(ast.Pass(), line)], [N(ast.Break(), line)]), line)] + body, []), line))
            else:
                self.pre.append(N(ast.While(c, body or [N(ast.Pass(), line)], []), line))
            return None
        if v == "loop":
            self.i += 1
            var = self.fresh()
            oldb, self.breakvar = getattr(self, "breakvar", None), var
            body = self.block_stmts("drop")
            self.breakvar = oldb
            self.pre.append(N(ast.While(const(True, line), body or [N(ast.Pass(), line)], []), line))
            return name(var, line) if want_value and any(isinstance(n, ast.Name) and n.id == var for s in body for n in ast.walk(s)) else None
        raise RustSyntax(f"block {v!r}")

    def if_expr(self, want=True):
        line = self.line
        var = self.fresh() if want else None
        node, any_val = self.if_node(var)
        self.pre.append(node) if not isinstance(node, list) else self.pre.extend(node)
        return name(var, line) if var is not None and any_val else None

    def if_cond(self):
        """Condition, possibly with let chains: returns (pre, test, binds)."""
        line = self.line
        pre = []
        old, self.pre = self.pre, pre
        tests, binds = [], []
        try:
            while True:
                if self.eat("let"):
                    p = self.pattern()
                    self.need("=")
                    oldn, self.nostruct = self.nostruct, True
                    e = self.binary(2)
                    self.nostruct = oldn
                    t = self.fresh()
                    pre.append(N(ast.Assign([N(ast.Name(t, ast.Store()), line)], e), line))
                    tests.append(self.test(p, name(t, line), line))
                    binds += self.bind(p, name(t, line), line)
                    if self.eat("&&"):
                        continue
                    break
                e = self.expr(nostruct=True)
                tests.append(e)
                break
        finally:
            self.pre = old
        t = tests[0] if len(tests) == 1 else N(ast.BoolOp(ast.And(), tests), line)
        return pre, t, binds

    def if_node(self, var):
        line = self.line
        self.need("if")
        pre, test, binds = self.if_cond()
        stmts, val = self.block_stmts("value")
        body = binds + self.block_value((stmts, val), var, line)
        anyv = val is not None
        orelse = []
        if self.eat("else"):
            if self.peek() == "if":
                n, a = self.if_node(var)
                orelse = n if isinstance(n, list) else [n]
                anyv = anyv or a
            else:
                s2, v2 = self.block_stmts("value")
                orelse = self.block_value((s2, v2), var, line)
                anyv = anyv or v2 is not None
        node = N(ast.If(test, body, orelse), line)
        return (pre + [node] if pre else node), anyv

    def match_expr(self, want=True):
        line = self.line
        self.need("match")
        e = self.expr(nostruct=True)
        subj = self.fresh()
        self.pre.append(N(ast.Assign([N(ast.Name(subj, ast.Store()), line)], e), line))
        var = self.fresh() if want else None
        self.need("{")
        arms = []
        anyv = False
        while self.peek() != "}":
            self.attrs()
            aline = self.line
            p = self.pattern()
            guard = None
            gpre = []
            if self.eat("if"):
                old, self.pre = self.pre, gpre
                guard = self.expr(nostruct=True)
                self.pre = old
            self.need("=>")
            binds = self.bind(p, name(subj, aline), aline) if p[0] not in ("wild", "lit", "range") and not (p[0] == "path" and p[2] is None) and not (p[0] == "or" and all(q[0] in ("lit", "wild", "range") or (q[0] == "path" and q[2] is None) for q in p[1])) else []
            if self.peek() == "{":
                stmts, val = self.block_stmts("value")
                if self.peek() in (".", "?"):
                    pre = []
                    old, self.pre = self.pre, pre
                    val = self.postfix(val)
                    self.pre = old
                    stmts += pre
                self.eat(",")
            else:
                pre = []
                old, self.pre = self.pre, pre
                val = self.assignment()
                self.pre = old
                stmts = pre
                if self.peek() != "}":
                    self.need(",")
            if val is not None:
                anyv = True
            body = self.block_value((stmts, val), var, aline)
            arms.append((self.test(p, name(subj, aline), aline), binds, guard, gpre, body, aline))
        self.need("}")
        # build from the end
        chain = []
        for test, binds, guard, gpre, body, aline in reversed(arms):
            if guard is not None:
                # if test: binds; if guard: body else: chain  else: chain
                inner = binds + gpre + [N(ast.If(guard, body, list(chain)), aline)]
                chain = [N(ast.If(test, inner, list(chain)), aline)]
            elif isinstance(test, ast.Constant) and test.value is True:
                chain = binds + body
            else:
                chain = [N(ast.If(test, binds + body, list(chain)), aline)]
        self.pre.extend(chain)
        return name(var, line) if var is not None and anyv else None

    def path_expr(self, path, line):
        full = "::".join(path)
        m = re.match(r"^(?:std|core)::f64::consts::(\w+)$", full)
        K = {"PI": 3.141592653589793, "E": 2.718281828459045, "LN_2": 0.6931471805599453, "SQRT_2": 1.4142135623730951, "FRAC_PI_2": 1.5707963267948966, "TAU": 6.283185307179586, "LN_10": 2.302585092994046, "FRAC_1_SQRT_2": 0.7071067811865476, "FRAC_PI_4": 0.7853981633974483}
        if m and m.group(1) in K:
            return const(K[m.group(1)], line)
        if len(path) >= 2 and path[-2] == "f64":
            F = {"EPSILON": 2.220446049250313e-16, "INFINITY": float("inf"), "NEG_INFINITY": float("-inf"), "NAN": float("nan"), "MAX": 1.7976931348623157e308, "MIN_POSITIVE": 2.2250738585072014e-308, "MIN": -1.7976931348623157e308}
            if path[-1] in F:
                return const(F[path[-1]], line)
            if path[-1] in M1:
                return N(ast.Attribute(name("__np__", line), M1[path[-1]], ast.Load()), line)
            if path[-1] in ("powf", "powi"):
                return N(ast.Attribute(name("__np__", line), "power", ast.Load()), line)
            if path[-1] in ("max", "min"):
                return N(ast.Attribute(name("__np__", line), {"max": "maximum", "min": "minimum"}[path[-1]], ast.Load()), line)
        if path[0] in ("crate", "self", "super") and len(path) > 1:
            mp = self.modpath(path[:-1])
            e = callf("__rust_mod__", [const(mp, line), const(path[-1], line)], line)
            return e
        if path[0] in ("std", "core"):
            return N(ast.Attribute(name("__rustext__", line), full.replace("::", "."), ast.Load()), line)
        if path[0] == "Self":
            path = [self.selfname or "Self"] + list(path[1:])
        e = name(path[0], line)
        for p in path[1:]:
            e = N(ast.Attribute(e, p, ast.Load()), line)
        return e

    selfname = None

    def primary(self):
        line = self.line
        k, v = self.kind(), self.peek()
        if k == "num":
            self.i += 1
            s = re.sub(r"_?(f64|f32|usize|isize|[iu](8|16|32|64|128))$", "", v).replace("_", "")
            if s.startswith("0x") or s.startswith("0b"):
                return const(int(s, 0), line)
            if re.fullmatch(r"\d+", s) and not re.search(r"f(32|64)$", v):
                return const(int(s), line)
            return const(float(s), line)
        if k in ("str", "raw"):
            self.i += 1
            m = re.match(r'b?r?#*"(.*)"#*$', v, re.S)
            return const(m.group(1) if m else v, line)
        if k == "char":
            self.i += 1
            return const(v.strip("b'"), line)
        if k == "life" or v in ("if", "match", "loop", "unsafe", "for", "while", "{"):
            e = self.block_like(True)
            return e if e is not None else const(None, line)
        if v == "(":
            self.i += 1
            old, self.nostruct = self.nostruct, False
            elts = []
            trailing = False
            while self.peek() != ")":
                elts.append(self.assignment())
                trailing = self.eat(",")
            self.need(")")
            self.nostruct = old
            if len(elts) == 1 and not trailing:
                return elts[0]
            return N(ast.Tuple(elts, ast.Load()), line)
        if v == "[":
            self.i += 1
            old, self.nostruct = self.nostruct, False
            elts = []
            rep = None
            while self.peek() != "]":
                elts.append(self.assignment())
                if self.eat(";"):
                    rep = self.assignment()
                self.eat(",")
            self.need("]")
            self.nostruct = old
            l = N(ast.List(elts, ast.Load()), line)
            if rep is not None:
                return N(ast.BinOp(l, ast.Mult(), rep), line)
            return l
        if v == "true" or v == "false":
            self.i += 1
            return const(v == "true", line)
        if v in ("return", "break", "continue"):
            return self.assignment()
        if v == "<":
            self.skip_generics()
            self.eat("::")
        if self.kind() == "id":
            path = [self.next()]
            while self.peek() == "::":
                self.i += 1
                if self.peek() == "<":
                    self.skip_generics()
                    continue
                path.append(self.next())
            if self.peek() == "!" and self.peek(1) in ("(", "[", "{"):
                return self.macro(path[-1], line)
            if self.peek() == "{" and not self.nostruct and (path[-1][0].isupper()):
                return self.struct_lit(path, line)
            if path == ["None"]:
                return const(None, line)
            return self.path_expr(path, line)
        raise RustSyntax(f"{self.modname}: line {line}: expression at {v!r}")

    def struct_lit(self, path, line):
        self.need("{")
        kw = {}
        rest = None
        while self.peek() != "}":
            if self.eat(".."):
                rest = self.expr()
                continue
            n = self.next()
            if self.eat(":"):
                kw[n] = self.expr()
            else:
                kw[n] = name(n, line)
            self.eat(",")
        self.need("}")
        if rest is not None:
            return callf("__rust_update__", [self.path_expr(path, line), rest], line, kw)
        return callf(self.path_expr(path, line), [], line, kw)

    def macro(self, m, line):
        self.need("!")
        o = self.peek()
        if m == "vec":
            self.i += 1
            c = {"(": ")", "[": "]", "{": "}"}[o]
            elts, rep = [], None
            while self.peek() != c:
                elts.append(self.expr())
                if self.eat(";"):
                    rep = self.expr()
                self.eat(",")
            self.need(c)
            l = N(ast.List(elts, ast.Load()), line)
            return N(ast.BinOp(l, ast.Mult(), rep), line) if rep is not None else l
        if m == "wrap_pyfunction":
            toks = self.skip_tree()
            return callf("__wrap__", [const("".join(t.v for t in toks if t.v != ",").split("module")[0].split("parent")[0].split("m)")[0], line), const("".join(t.v for t in toks).split(",")[0], line)], line)
        toks = self.skip_tree()
        if m in ("include_str", "include_bytes"):
            ss = [t.v for t in toks if t.v[:1] == '"']
            return callf("__rust_include__", [const(ss[0].strip('"') if ss else None, line)], line)
        if m in ("panic", "unreachable", "todo", "unimplemented"):
            return callf("__rust_panic__", [], line)
        if m == "matches":
            return callf("__rust_opaque__", [], line)
        return const(None, line)

    def postfix(self, e):
        while True:
            line = self.line
            v = self.peek()
            if v == "?":
                self.i += 1
                continue
            if v == "(":
                args = self.args()
                e = self.call(e, args, line)
                continue
            if v == "[":
                self.i += 1
                old, self.nostruct = self.nostruct, False
                ix = self.assignment()
                self.nostruct = old
                self.need("]")
                e = N(ast.Subscript(e, ix, ast.Load()), line)
                continue
            if v == ".":
                self.i += 1
                if self.kind() == "num":
                    n = self.next()
                    for d in n.split("."):
                        e = N(ast.Subscript(e, const(int(d), line), ast.Load()), line)
                    continue
                n = self.next()
                if self.peek() == "::":
                    self.i += 1
                    self.skip_generics()
                if self.peek() == "(":
                    args = self.args()
                    e = self.method(e, n, args, line)
                else:
                    e = N(ast.Attribute(e, n, ast.Load()), line)
                continue
            return e

    def args(self):
        self.need("(")
        old, self.nostruct = self.nostruct, False
        out = []
        while self.peek() != ")":
            out.append(self.assignment())
            self.eat(",")
        self.need(")")
        self.nostruct = old
        return out

    def call(self, f, args, line):
        if isinstance(f, ast.Name):
            if f.id in ("Ok", "Some", "Box"):
                return args[0] if args else const(None, line)
            if f.id == "Err":
                return callf("__rust_err__", args, line)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            if f.value.id in ("Vec", "String", "HashMap", "BTreeMap") and f.attr in ("new", "with_capacity", "default"):
                return N(ast.List([], ast.Load()), line)
            if f.value.id in ("Box", "Rc", "Arc", "Some", "Ok") and f.attr == "new":
                return args[0]
            if f.attr == "from" and f.value.id in ("f64", "i64", "usize", "u64", "i32", "String", "Vec") and len(args) == 1:
                return args[0]
        return N(ast.Call(f, args, []), line)

    def method(self, o, n, args, line):
        if n in M1 and not args:
            return npf(M1[n], [o], line)
        if n in ("powf", "powi") and len(args) == 1:
            return N(ast.BinOp(o, ast.Pow(), args[0]), line)
        if n == "mul_add" and len(args) == 2:
            return N(ast.BinOp(N(ast.BinOp(o, ast.Mult(), args[0]), line), ast.Add(), args[1]), line)
        if n in ("max", "min") and len(args) == 1:
            return npf({"max": "maximum", "min": "minimum"}[n], [o, args[0]], line)
        if n == "clamp" and len(args) == 2:
            return npf("clip", [o] + args, line)
        if n == "recip" and not args:
            return N(ast.BinOp(const(1.0, line), ast.Div(), o), line)
        if n in ("hypot", "atan2") and len(args) == 1:
            return npf({"hypot": "hypot", "atan2": "arctan2"}[n], [o] + args, line)
        if n == "copysign":
            return o
        if n in IDENT:
            return o
        if n == "len" and not args:
            return callf("len", [o], line)
        if n == "is_empty" and not args:
            return N(ast.Compare(callf("len", [o], line), [ast.Eq()], [const(0, line)]), line)
        if n == "map" and len(args) == 1:
            return callf("__rust_map__", [args[0], o], line)
        if n == "and_then" and len(args) == 1:
            return N(ast.Call(args[0], [o], []), line)
        if n in ("sum", "product") and not args:
            return callf("sum", [o], line) if n == "sum" else npf("prod", [o], line)
        if n == "enumerate" and not args:
            return callf("enumerate", [o], line)
        if n == "zip" and len(args) == 1:
            return callf("zip", [o] + args, line)
        if n == "rev" and not args:
            return callf("reversed", [o], line)
        if n == "fold" and len(args) == 2:
            return callf("__rust_fold__", [o] + args, line)
        if n == "push" and len(args) == 1:
            return N(ast.Call(N(ast.Attribute(o, "append", ast.Load()), line), args, []), line)
        if n in ("unwrap_or",) and len(args) == 1:
            return N(ast.IfExp(N(ast.Compare(o, [ast.IsNot()], [const(None, line)]), line), o, args[0]), line)
        return N(ast.Call(N(ast.Attribute(o, n, ast.Load()), line), args, []), line)


class Crate:
    def __init__(self, root):
        self.root = root
        self.src = os.path.join(root, "rust", "src")
        self.opaque = []
        self.structs = {}
        self.inline_modules = []
        self.rootmods = set()
        self.modules = {}   # name -> (path, rel, ast.Module, src)
        self.tokens = {}
        files = []
        for d, dirs, fs in os.walk(self.src):
            dirs.sort()
            for f in sorted(fs):
                if f.endswith(".rs"):
                    files.append(os.path.join(d, f))
        for p in files:
            rel = os.path.relpath(p, self.src)[:-3]
            parts = rel.split(os.sep)
            if parts[-1] in ("mod", "lib"):
                parts = parts[:-1]
            self.rootmods.add(parts[0] if parts else "")
            nm = ".".join(["rust"] + parts)
            with open(p, encoding="utf-8") as fh:
                src = fh.read()
            try:
                toks = lex(src)
            except RustSyntax as ex:
                self.opaque.append((nm, 0, "lex: " + str(ex)))
                continue
            self.tokens[nm] = toks
            ps = Parser(list(toks), nm, self)
            try:
                body = ps.items()
            except (RustSyntax, IndexError, KeyError) as ex:
                self.opaque.append((nm, ps.line, "module: " + str(ex)))
                body = []
            self.modules[nm] = [p, os.path.relpath(p, root), body, src]
        for nm, body, at in self.inline_modules:
            if any("cfg(test)" in a.replace(" ", "") for a in at):
                continue
            par = nm.rpartition(".")[0]
            while par and par not in self.modules:
                par = par.rpartition(".")[0]
            p, rel, _, src = self.modules[par]
            self.modules[nm] = [p, rel, body, src]
        for nm, m in self.modules.items():
            out = []
            for x in m[2]:
                if isinstance(x, tuple):
                    out += self.classdef(nm, x[1], x[2])
                else:
                    out.append(x)
            m[2] = ast.Module(out, [])

    def classdef(self, mod, n, line):
        fields, body, _ = self.structs[(mod, n)]
        b, later = [], []
        for f in fields:
            b.append(N(ast.AnnAssign(N(ast.Name(f, ast.Store()), line), name("object", line), None, 1), line))
        for x in body:
            if isinstance(x, ast.FunctionDef):
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and y.id == "Self":
                        y.id = n
                if not x.args.args or x.args.args[0].arg != "self":
                    x.decorator_list = [name("staticmethod", line)]
                b.append(x)
            elif isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name):
                # an associated constant: assigned after the class exists, since it may be made of the class itself
                for y in ast.walk(x.value):
                    if isinstance(y, ast.Name) and y.id == "Self":
                        y.id = n
                later.append(N(ast.Assign([N(ast.Attribute(name(n, line), x.targets[0].id, ast.Store()), line)], x.value), line))
            elif isinstance(x, ast.stmt):
                b.append(x)
        return [N(ast.ClassDef(n, [], [], b or [N(ast.Pass(), line)], [name("__dataclass__", line)]), line)] + later
