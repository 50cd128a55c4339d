"""Floating-point interpreter of the recording machine (spec/Graph.tla), used at generic points; it must agree with the
specification's exact values at the specification's own point (checked for every program: `check_exact`)."""
import math, random, fractions

BAD = (0, -1)   # spec: Bad; Unk is any pair with denominator 0
def known(q): return isinstance(q, (list, tuple)) and q[1] > 0
def qf(q): return q[0] / q[1]

EPS = 2.3e-16


class Reject(Exception):
    """the point is not usable (domain, conditioning, undecided comparison)"""


class D:
    """value, gradient, Hessian (lower triangle), error bound on value"""
    __slots__ = ("v", "g", "h", "e", "x")
    def __init__(s, v, g, h, e, x=False): s.v, s.g, s.h, s.e, s.x = v, g, h, e, x


def _chain(u, f, f1, f2, n, order):
    g = h = None
    if order >= 1: g = [f1 * a for a in u.g]
    if order >= 2: h = [[f1 * u.h[i][j] + f2 * u.g[i] * u.g[j] for j in range(i + 1)] for i in range(n)]
    return D(f, g, h, abs(f1) * u.e + 8 * EPS * abs(f))


SQ = math.sqrt
def _un(op, v):
    """f, f', f'' """
    if op == "sin": return math.sin(v), math.cos(v), -math.sin(v)
    if op == "cos": return math.cos(v), -math.sin(v), -math.cos(v)
    if op == "tan":
        if abs(v) > 1.4: raise Reject("tan")
        t = math.tan(v); return t, 1 + t * t, 2 * t * (1 + t * t)
    if op in ("asin", "acos"):
        if abs(v) > 0.95: raise Reject(op)
        w = 1 - v * v; s = 1 / SQ(w)
        return (math.asin(v), s, v * s / w) if op == "asin" else (math.acos(v), -s, -v * s / w)
    if op == "atan": w = 1 + v * v; return math.atan(v), 1 / w, -2 * v / (w * w)
    if op in ("sinh", "cosh", "exp", "expm1") and abs(v) > 6: raise Reject(op)
    if op == "sinh": return math.sinh(v), math.cosh(v), math.sinh(v)
    if op == "cosh": return math.cosh(v), math.sinh(v), math.cosh(v)
    if op == "tanh": t = math.tanh(v); d = 1 - t * t; return t, d, -2 * t * d
    if op == "asinh": w = 1 + v * v; return math.asinh(v), w ** -.5, -v * w ** -1.5
    if op == "acosh":
        if v < 1.05: raise Reject(op)
        w = v * v - 1; return math.acosh(v), w ** -.5, -v * w ** -1.5
    if op == "atanh":
        if abs(v) > 0.95: raise Reject(op)
        w = 1 - v * v; return math.atanh(v), 1 / w, 2 * v / (w * w)
    if op == "exp": e = math.exp(v); return e, e, e
    if op == "expm1": e = math.exp(v); return math.expm1(v), e, e
    if op == "log":
        if v < 0.02: raise Reject(op)
        return math.log(v), 1 / v, -1 / (v * v)
    if op == "log10":
        if v < 0.02: raise Reject(op)
        c = 1 / math.log(10); return math.log10(v), c / v, -c / (v * v)
    if op == "log1p":
        if v < -0.95: raise Reject(op)
        w = 1 + v; return math.log1p(v), 1 / w, -1 / (w * w)
    if op == "sqrt":
        if v < 0.02: raise Reject(op)
        r = SQ(v); return r, .5 / r, -.25 / (r * v)
    if op in ("erf", "erfc"):
        c = 2 / SQ(math.pi) * math.exp(-v * v)
        return (math.erf(v), c, -2 * v * c) if op == "erf" else (math.erfc(v), -c, 2 * v * c)
    raise KeyError(op)


CMP = {"lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "eq": lambda a, b: a == b, "ge": lambda a, b: a >= b, "gt": lambda a, b: a > b,
       "ne": lambda a, b: a != b}


def evaluate(nodes, x, order=0, exactx=False, upto=None, extra=None):
    """nodes: [[op, args..]] with 1-based node numbers; x: independents. Raises Reject at unusable points.
    extra: {op: function(node, values, n, order) -> D} for further node kinds."""
    n = len(x); vs = []
    zg = [0.0] * n
    zh = [[0.0] * (i + 1) for i in range(n)]
    for nd in (nodes if upto is None else nodes[:upto]):
        op = nd[0]
        if extra and op in extra:
            r = extra[op](nd, vs, n, order)
        elif op == "indep":
            k = nd[1] - 1
            r = D(x[k], [1.0 if i == k else 0.0 for i in range(n)], zh, 0.0, True)
        elif op == "const":
            v = nd[1][0] / nd[1][1]
            r = D(v, zg, zh, 5e-15 * abs(v) if nd[1][1] & (nd[1][1] - 1) else 0.0, not (nd[1][1] & (nd[1][1] - 1)))
        elif op in ("add", "sub"):
            a, b = vs[nd[1] - 1], vs[nd[2] - 1]; s = 1.0 if op == "add" else -1.0
            v = a.v + s * b.v
            r = D(v, [p + s * q for p, q in zip(a.g, b.g)] if order >= 1 else None,
                  [[p + s * q for p, q in zip(P, Q)] for P, Q in zip(a.h, b.h)] if order >= 2 else None, a.e + b.e + EPS * abs(v), a.x and b.x)
        elif op == "mul":
            a, b = vs[nd[1] - 1], vs[nd[2] - 1]
            r = _mul(a, b, n, order)
        elif op == "div":
            a, b = vs[nd[1] - 1], vs[nd[2] - 1]
            if abs(b.v) < 0.02: raise Reject("div")
            i = 1 / b.v
            r = _mul(a, _chain(b, i, -i * i, 2 * i * i * i, n, order), n, order)
        elif op == "pow":
            a, b = vs[nd[1] - 1], vs[nd[2] - 1]
            if a.v < 0.02 or abs(b.v) > 8: raise Reject("pow")
            f = a.v ** b.v; L = math.log(a.v)
            fu, fw = b.v * a.v ** (b.v - 1), f * L
            fuu, fww, fuw = b.v * (b.v - 1) * a.v ** (b.v - 2), f * L * L, a.v ** (b.v - 1) * (1 + b.v * L)
            g = h = None
            if order >= 1: g = [fu * p + fw * q for p, q in zip(a.g, b.g)]
            if order >= 2:
                h = [[fu * a.h[i][j] + fw * b.h[i][j] + fuu * a.g[i] * a.g[j] + fww * b.g[i] * b.g[j]
                      + fuw * (a.g[i] * b.g[j] + a.g[j] * b.g[i]) for j in range(i + 1)] for i in range(n)]
            r = D(f, g, h, abs(fu) * a.e + abs(fw) * b.e + 8 * EPS * abs(f))
        elif op == "neg":
            a = vs[nd[1] - 1]; r = D(-a.v, [-p for p in a.g] if order >= 1 else None, [[-p for p in P] for P in a.h] if order >= 2 else None, a.e, a.x)
        elif op == "abs":
            a = vs[nd[1] - 1]
            if order and abs(a.v) <= 1e-6 + 100 * a.e: raise Reject("abs")
            s = -1.0 if a.v < 0 else 1.0
            r = D(abs(a.v), [s * p for p in a.g] if order >= 1 else None, [[s * p for p in P] for P in a.h] if order >= 2 else None, a.e, a.x)
        elif op == "sign":
            a = vs[nd[1] - 1]
            if abs(a.v) <= 1e-6 + 100 * a.e and (order or not (a.x and a.v == 0 and exactx)): raise Reject("sign")
            r = D(float((a.v > 0) - (a.v < 0)), zg, zh, 0.0, True)
        elif op == "call":
            r = _call(nd[1], nd[2], [vs[k - 1] for k in nd[3:]], n, order)
        elif op == "cond":
            l, rr, t, f = (vs[k - 1] for k in nd[2:6])
            if abs(l.v - rr.v) <= 1e-9 + 1000 * (l.e + rr.e):
                if not (l is rr or l.e == rr.e == 0 or (exactx and l.x and rr.x and l.v == rr.v)): raise Reject("cond")
            if order and l.v == rr.v and l is not rr and (any(l.g) or any(rr.g)): raise Reject("cond")
            r = t if CMP[nd[1]](l.v, rr.v) else f
        else:
            a = vs[nd[1] - 1]
            if not -1e6 < a.v < 1e6: raise Reject("range")
            f, f1, f2 = _un(op, a.v)
            r = _chain(a, f, f1, f2, n, order)
        if not abs(r.v) < 1e5: raise Reject("range")
        if r.e > 1e-9: raise Reject("conditioning")
        if order >= 1 and any(not abs(p) < 1e5 for p in r.g): raise Reject("range")
        if order >= 2 and any(not abs(p) < 1e6 for P in r.h for p in P): raise Reject("range")
        vs.append(r)
    return vs


def _add(a, b, s, order):
    return D(a.v + s * b.v, [p + s * q for p, q in zip(a.g, b.g)] if order >= 1 else None,
             [[p + s * q for p, q in zip(P, Q)] for P, Q in zip(a.h, b.h)] if order >= 2 else None, a.e + b.e + EPS * abs(a.v + s * b.v), a.x and b.x)


def _call(f, k, a, n, order):
    if f == 1: return _mul(a[0], a[1], n, order) if k == 1 else _add(a[0], a[1], 1.0, order)
    if f == 2: return _add(_mul(a[0], a[0], n, order), D(1.0, [0.0] * n, [[0.0] * (i + 1) for i in range(n)], 0.0, True), 1.0, order)
    if f == 3: return _mul(_mul(a[0], a[1], n, order), a[2], n, order) if k == 1 else _add(a[0], a[2], -1.0, order) if k == 2 else a[1]
    if not abs(a[0].v) < 1e6: raise Reject("range")
    return _mul(_chain(a[0], *_un("sin", a[0].v), n, order), a[1], n, order)


def _mul(a, b, n, order):
    v = a.v * b.v; g = h = None
    if order >= 1: g = [p * b.v + a.v * q for p, q in zip(a.g, b.g)]
    if order >= 2:
        h = [[a.h[i][j] * b.v + a.v * b.h[i][j] + a.g[i] * b.g[j] + a.g[j] * b.g[i] for j in range(i + 1)] for i in range(n)]
    return D(v, g, h, a.e * abs(b.v) + b.e * abs(a.v) + EPS * abs(v), a.x and b.x)


def hget(d, i, j): return d.h[i][j] if j <= i else d.h[j][i]


def exact_point(vals, nodes):
    """the spec's point, from the values of the indep nodes"""
    return [qf(vals[i][0]) for i, nd in enumerate(nodes) if nd[0] == "indep"]


def check_exact(nodes, vals, vs):
    """the interpreter agrees with the exact values of the specification"""
    for i, (q, d) in enumerate(zip(vals, vs)):
        if known(q[0]) and abs(qf(q[0]) - d.v) > 10 * d.e + 1e-12 * (1 + abs(d.v)):
            raise AssertionError("oracle disagrees with the specification at node %d %r: %r vs %r" % (i + 1, nodes[i], q, d.v))


def points(nodes, x0, rng, count, order=0, tries=60, extra=None):
    """count usable generic points near/away from x0: [(x, node values)]"""
    out = []
    for t in range(tries):
        if len(out) >= count: break
        sc = rng.choice([0.05, 0.3, 1.0])
        x = [round(a + rng.uniform(-sc, sc), 6) for a in x0]
        try: out.append((x, evaluate(nodes, x, order, extra=extra)))
        except (Reject, OverflowError, ZeroDivisionError, ValueError): pass
    return out


def close(got, want, err, scale=1.0):
    if got != got or math.isinf(got): return False
    return abs(got - want) <= 1e3 * err + 1e-11 * (abs(want) + scale * 1e-2)
