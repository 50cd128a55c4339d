"""Readers of the DOT, LaTeX and MathML outputs: each gives back a function of the independents."""
import math, re
import xml.etree.ElementTree as ET
import oracle
from oracle import D, CMP


class ReadError(Exception):
    """the output cannot be read back"""


FUN = {"abs": abs, "sgn": lambda v: float((v > 0) - (v < 0)), "sign": lambda v: float((v > 0) - (v < 0)), "sin": math.sin, "cos": math.cos, "tan": math.tan,
       "asin": math.asin, "acos": math.acos, "atan": math.atan, "arcsin": math.asin, "arccos": math.acos, "arctan": math.atan, "sinh": math.sinh,
       "cosh": math.cosh, "tanh": math.tanh, "asinh": math.asinh, "acosh": math.acosh, "atanh": math.atanh, "arcsinh": math.asinh, "arccosh": math.acosh,
       "arctanh": math.atanh, "exp": math.exp, "expm1": math.expm1, "log": math.log, "ln": math.log, "log1p": math.log1p, "log10": math.log10,
       "sqrt": math.sqrt, "erf": math.erf, "erfc": math.erfc}
NUM = r"(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][-+]?\d+)?"


def var_of(name):
    """('x', k) | ('y', k) | ('t', name)"""
    m = re.fullmatch(r"([xqyd])(?:_\{?|\[)?(\d+)[\]}]?", name.strip())
    if m: return ("x" if m.group(1) in "xq" else "y", int(m.group(2)))
    return ("t", name.strip())


# ------------------------------------------------------------------ DOT
def dot_function(text):
    tok = re.findall(r'//[^\n]*|"(?:[^"\\]|\\.)*"|->|[\[\]{}=,;\n]|[^\s"\[\]{}=,;>-]+(?:-(?!>)[^\s"\[\]{}=,;>-]+)*', text)
    tok = [t for t in tok if not t.startswith("//") and t != "\n"]
    label, edges, shape = {}, [], {}
    i = 0
    def unq(t): return t[1:-1] if t.startswith('"') else t
    def attrs(i):
        a = {}
        if i < len(tok) and tok[i] == "[":
            i += 1
            while tok[i] != "]":
                if tok[i] == ",": i += 1; continue
                if tok[i + 1] != "=": raise ReadError("attribute list near %r" % tok[i:i + 4])
                a[tok[i]] = unq(tok[i + 2]); i += 3
            i += 1
        return a, i
    depth = 0
    if not tok or tok[0] != "digraph": raise ReadError("no digraph")
    i = 1
    while i < len(tok):
        t = tok[i]
        if t == "{": depth += 1; i += 1
        elif t == "}": depth -= 1; i += 1
        elif t == ";": i += 1
        elif t == "subgraph": i += 2
        elif i + 1 < len(tok) and tok[i + 1] == "=": i += 3
        elif i + 1 < len(tok) and tok[i + 1] == "->":
            a, b = unq(t), unq(tok[i + 2]); q = t.startswith('"')
            at, i = attrs(i + 3)
            edges.append((("c" if q else "n", a), b, at.get("label")))
        else:
            at, j = attrs(i + 1)
            if t not in ("node", "edge", "graph"):
                if "label" in at: label[unq(t)] = at["label"]
            i = j
    if depth: raise ReadError("unbalanced braces")
    into = {}
    for a, b, l in edges: into.setdefault(b, []).append((a, l))

    def f(x):
        memo = {}
        import sys
        sys.setrecursionlimit(100000)
        def value(n):
            if n in memo: return memo[n]
            kind, name = n
            if kind == "c": r = float(name)
            elif name not in label: raise ReadError("node %s is used but never described" % name)
            else:
                l = label[name]
                ins = into.get(name, [])
                vk = var_of(l)
                if not ins:
                    if vk[0] == "x": r = x[vk[1]]
                    elif re.fullmatch("-?" + NUM, l): r = float(l)
                    else: raise ReadError("node %s (%s) has no arguments" % (name, l))
                else: r = apply(l, ins)
            memo[n] = r
            return r
        def apply(l, ins):
            def arg(*names):
                for a, el in ins:
                    if el in names: return value(a)
                raise ReadError("missing edge %s of %s" % (names, l))
            if l in ("+", "$1 + $2", "×", "*", "$1 * $2"):
                if len(ins) != 2: raise ReadError("%s with %d arguments" % (l, len(ins)))
                a, b = value(ins[0][0]), value(ins[1][0])
                return a + b if "+" in l else a * b
            if l == "$1 - $2": return arg("$1") - arg("$2")
            if l == "$1 / $2": return arg("$1") / arg("$2")
            if l == "pow($1, $2)": return arg("$1") ** arg("$2")
            m = re.fullmatch(r"result = \(\$1 (\S+) \$2\)\? \$3 : \$4", l)
            if m:
                t = CMP[{"<": "lt", "<=": "le", "==": "eq", ">=": "ge", ">": "gt", "!=": "ne"}[m.group(1)]](arg("left", "$1"), arg("right", "$2"))
                return arg("true", "$3") if t else arg("false", "$4")
            if len(ins) != 1: raise ReadError("%s with %d arguments" % (l, len(ins)))
            a = value(ins[0][0])
            if l in ("-($1)", "-"): return -a
            if l.startswith(("alias", "print")): return a
            l = l.split("(")[0]
            if l in FUN: return FUN[l](a)
            raise ReadError("unknown operation %r" % l)
        out = {}
        for b in into:
            m = re.fullmatch(r"y(\d+)", b)
            if not m: continue
            vs = [value(a) for a, _ in into[b]]
            if any(v != vs[0] for v in vs): raise ReadError("different values reach %s" % b)
            out[int(m.group(1))] = vs[0]
        return out
    return f


# ------------------------------------------------------------------ expressions: token lists [(kind, value)]
# kinds: num, var, op (+ - * / ^), grp (token list), fun name (applies to next grp), frac (num toks, den toks), call (name, toks), sup (base toks, exp toks)
class Expr:
    def __init__(self, toks): self.t, self.i = toks, 0
    def peek(self): return self.t[self.i] if self.i < len(self.t) else (None, None)
    def parse(self):
        if not self.t: raise ReadError("empty expression")
        e = self.sum()
        if self.i != len(self.t): raise ReadError("trailing tokens %r" % (self.t[self.i:],))
        return e
    def sum(self):
        e = self.term()
        while self.peek() in (("op", "+"), ("op", "-")):
            o = self.t[self.i][1]; self.i += 1
            r = self.term()
            e = ("bin", o, e, r)
        return e
    def term(self):
        k = self.peek()
        if k == ("op", "-"): self.i += 1; return ("neg", self.term())
        if k == ("op", "+"): self.i += 1; return self.term()
        e = self.power()
        while True:
            k = self.peek()
            if k in (("op", "*"), ("op", "/")):
                self.i += 1
                e = ("bin", k[1], e, self.power())
            elif k[0] in ("num", "var", "grp", "fun", "frac", "call", "sup"):
                e = ("bin", "*", e, self.power())
            else: return e
    def power(self):
        e = self.atom()
        while self.peek() == ("op", "^"):
            self.i += 1
            e = ("bin", "^", e, self.atom())
        return e
    def atom(self):
        k, v = self.peek()
        self.i += 1
        if k == "num": return ("num", v)
        if k == "var": return ("var", v)
        if k == "grp": return Expr(v).parse()
        if k == "frac": return ("bin", "/", Expr(v[0]).parse(), Expr(v[1]).parse())
        if k == "sup": return ("bin", "^", Expr(v[0]).parse(), Expr(v[1]).parse())
        if k == "call": return ("fun", v[0], Expr(v[1]).parse())
        if k == "fun":
            g, a = self.peek(); self.i += 1
            if g != "grp": raise ReadError("function %s without an argument" % v)
            return ("fun", v, Expr(a).parse())
        if k == "op" and v == "-": return ("neg", self.atom())
        raise ReadError("unexpected token %r" % ((k, v),))


def ev(e, env):
    k = e[0]
    if k == "num": return e[1]
    if k == "var":
        if e[1] not in env: raise ReadError("%s is used before it is assigned" % (e[1],))
        return env[e[1]]
    if k == "neg": return -ev(e[1], env)
    if k == "fun":
        if e[1] not in FUN: raise ReadError("unknown function %r" % e[1])
        return FUN[e[1]](ev(e[2], env))
    a, b = ev(e[2], env), ev(e[3], env)
    return a + b if e[1] == "+" else a - b if e[1] == "-" else a * b if e[1] == "*" else a / b if e[1] == "/" else a ** b


REL = {"<": "lt", "\\lt": "lt", "<=": "le", "≤": "le", "\\le": "le", "\\leq": "le", "==": "eq", "=": "eq", "≥": "ge", ">=": "ge", "\\ge": "ge", "\\geq": "ge",
       ">": "gt", "\\gt": "gt", "≠": "ne", "!=": "ne", "\\ne": "ne", "\\neq": "ne"}


def program(stmts):
    """stmts: ("set", var, expr) | ("if", [(cond|None, stmts)])"""
    def execute(ss, env):
        for s in ss:
            if s[0] == "set":
                v = ev(s[2], env)
                if s[1][0] == "x": raise ReadError("assignment to an independent")
                env[s[1]] = v
            else:
                for c, body in s[1]:
                    if c is None or CMP[c[0]](ev(c[1], env), ev(c[2], env)):
                        execute(body, env); break
    def f(x):
        env = {("x", i): v for i, v in enumerate(x)}
        execute(stmts, env)
        return {k[1]: v for k, v in env.items() if k[0] == "y"}
    return f


def split_relation(toks):
    r = [i for i, t in enumerate(toks) if t[0] == "rel"]
    if len(r) != 1: raise ReadError("condition without exactly one comparison")
    return (toks[r[0]][1], Expr(toks[:r[0]]).parse(), Expr(toks[r[0] + 1:]).parse())


# ------------------------------------------------------------------ LaTeX
VAR_ENVS = ("CGVar", "CGIndVar", "CGDepVar")
def latex_function(text):
    text = re.sub(r"(?<!\\)%[^\n]*", "", text)
    tok = re.findall(r"\\begin\{\w+\}|\\end\{\w+\}|\\operatorname\{\w+\}|\\mathopen\{\}|\\mathclose\{\}|\\left\(|\\right\)|\\[a-zA-Z]+|\\.|%s|<=|>=|==|!=|[^\s]" % NUM, text)
    # variables: raw text of an environment
    pos = [0]
    def peek(): return tok[pos[0]] if pos[0] < len(tok) else None
    def take(t=None):
        v = peek(); pos[0] += 1
        if t is not None and v != t: raise ReadError("expected %r, found %r" % (t, v))
        return v
    def toks(stop):
        out = []
        while True:
            t = peek()
            if t is None: raise ReadError("missing " + str(stop))
            if t in stop: return out
            m = re.fullmatch(r"\\begin\{(\w+)\}", t)
            if m:
                if m.group(1) not in VAR_ENVS: raise ReadError("unexpected " + t)
                take(); name = ""
                while peek() != "\\end{%s}" % m.group(1): name += take() or (_ for _ in ()).throw(ReadError("unterminated variable"))
                take(); out.append(("var", var_of(name)))
            elif re.fullmatch(NUM, t): take(); out.append(("num", float(t)))
            elif t == "{": take(); g = toks(("}",)); take("}"); out.append(("grp", g))
            elif t == "\\left(": take(); g = toks(("\\right)",)); take(); out.append(("grp", g))
            elif t == "(": take(); g = toks((")",)); take(); out.append(("grp", g))
            elif t == "\\frac":
                take(); take("{"); a = toks(("}",)); take(); take("{"); b = toks(("}",)); take(); out.append(("frac", (a, b)))
            elif t in ("\\abs", "\\sqrt"): take(); take("{"); a = toks(("}",)); take(); out.append(("call", (t[1:], a)))
            elif t in ("\\mathopen{}", "\\mathclose{}", "\\,", "\\;", "\\ "): take()
            elif t in ("\\times", "\\cdot", "*"): take(); out.append(("op", "*"))
            elif t in "+-/^": take(); out.append(("op", t))
            elif t in REL: take(); out.append(("rel", REL[t]))
            elif t.startswith("\\operatorname{"): take(); out.append(("fun", t[14:-1]))
            elif t.startswith("\\") and t[1:] in FUN: take(); out.append(("fun", t[1:]))
            else: raise ReadError("unexpected %r" % t)
    def assignment():
        left = toks(("=",)); take("=")
        if len(left) != 1 or left[0][0] != "var": raise ReadError("assignment to %r" % left)
        right = toks(("\\end{CGEq}",))
        return ("set", left[0][1], Expr(right).parse())
    def block(stop):
        out = []
        while True:
            t = peek()
            if t is None and stop is None: return out
            if t is None: raise ReadError("missing " + stop)
            if t == stop: take(); return out
            take()
            if t in ("\\begin{CGEqBlock}", "\\begin{CGAlgFile}", "\\begin{CGLine}"): out += block(t.replace("begin", "end"))
            elif t == "\\begin{CGEq}": out.append(assignment()); take("\\end{CGEq}")
            elif t in ("\\begin{CGIf}", "\\begin{CGElseIf}"):
                take("\\begin{CGCond}"); c = split_relation(toks(("\\end{CGCond}",))); take()
                b = block(t.replace("begin", "end"))
                if t == "\\begin{CGIf}": out.append(("if", [(c, b)]))
                else:
                    if not out or out[-1][0] != "if": raise ReadError("else without if")
                    out[-1][1].append((c, b))
            elif t == "\\begin{CGElse}":
                b = block("\\end{CGElse}")
                if not out or out[-1][0] != "if": raise ReadError("else without if")
                out[-1][1].append((None, b))
            else: raise ReadError("unexpected %r" % t)
    return program(block(None))


# ------------------------------------------------------------------ MathML
def mathml_function(text):
    m = re.search(r"<div id='algorithm'>.*</div>(?=\s*</body>)", text, re.S)
    if not m: raise ReadError("no algorithm")
    s = m.group(0)
    ents = {"it": "\u2062", "InvisibleTimes": "\u2062", "times": "×", "ApplyFunction": "\u2061", "le": "≤", "ge": "≥", "ne": "≠", "minus": "-", "af": "\u2061"}
    s = re.sub(r"&(\w+);", lambda m: ents.get(m.group(1), m.group(0)), s)
    try: root = ET.fromstring("<r>%s</r>" % s)
    except ET.ParseError as e: raise ReadError("not well formed: %s" % e)
    def toks(els):
        out = []
        for e in els:
            t = (e.text or "").strip()
            if e.tag == "mrow":
                if e.get("class") in ("tmp", "indep", "dep"):
                    out.append(("var", var_of("_".join(x.strip() for x in e.itertext() if x.strip()))))
                else: out += toks(list(e))
            elif e.tag == "mfenced": out.append(("grp", toks(list(e))))
            elif e.tag == "mn":
                if not re.fullmatch("-?" + NUM, t): raise ReadError("number %r" % t)
                if t[0] == "-": out += [("op", "-"), ("num", float(t[1:]))]
                else: out.append(("num", float(t)))
            elif e.tag == "mfrac": out.append(("frac", (toks([e[0]]), toks([e[1]]))))
            elif e.tag == "msup": out.append(("sup", (toks([e[0]]), toks([e[1]]))))
            elif e.tag == "msqrt": out.append(("call", ("sqrt", toks(list(e)))))
            elif e.tag == "mi": out.append(("fun", t))
            elif e.tag == "mo":
                if t in ("\u2062", "×"): out.append(("op", "*"))
                elif t in ("+", "-", "/"): out.append(("op", t))
                elif t == "\u2061": pass
                elif t in REL and t != "=": out.append(("rel", REL[t]))
                elif t == "=": out.append(("eq", None))
                else: raise ReadError("operator %r" % t)
            else: raise ReadError("element %s" % e.tag)
        return out
    def body(el):
        out = []
        for e in el:
            cl = e.get("class")
            if e.tag == "math":
                t = toks(list(e))
                if len(t) < 3 or t[0][0] != "var" or t[1][0] != "eq": raise ReadError("equation %r" % (t[:3],))
                out.append(("set", t[0][1], Expr(t[2:]).parse()))
            elif cl in ("condIf", "condElseIf", "condElse"):
                head = toks(list(e[0]))
                bodies = [b for b in e if b.get("class") == "condBody"]
                if len(bodies) != 1: raise ReadError("conditional without a body")
                b = body(bodies[0])
                c = None
                if cl != "condElse":
                    g = [t for t in head if t[0] == "grp"]
                    if len(g) != 1: raise ReadError("condition")
                    c = split_relation(g[0][1])
                if cl == "condIf": out.append(("if", [(c, b)]))
                else:
                    if not out or out[-1][0] != "if": raise ReadError("else without if")
                    out[-1][1].append((c, b))
            elif e.tag == "div": out += body(e)
            else: raise ReadError("element %s" % e.tag)
        return out
    return program(body(root[0]))


READ = {"dot": dot_function, "latex": latex_function, "mathml": mathml_function}
