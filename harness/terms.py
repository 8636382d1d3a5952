"""Generic evaluator of the specification's terms (spec/Terms.tla).

Every tag is mapped to the function of that name; nothing about the library is
encoded here.  evaluate() returns (value, err): err is a first-order bound on
the rounding error of the evaluation, used only to widen the comparison
tolerance where the documented formula itself is ill-conditioned.
"""
import math
from fractions import Fraction
from scipy.special import digamma, polygamma, gammaln, gamma
from scipy.integrate import quad

EPS = 2.3e-16
NAN = float("nan")


class TermError(Exception):
    pass


def _psi_err(x, ex):
    return abs(float(polygamma(1, x))) * ex if x > 0 and ex else 0.0


_LA = {}


def _linalg(m):
    """Exact determinant and inverse of a small integer matrix."""
    key = tuple(map(tuple, m))
    if key not in _LA:
        n = len(m)
        a = [[Fraction(x) for x in r] + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(m)]
        det = Fraction(1)
        for c in range(n):
            p = next((r for r in range(c, n) if a[r][c] != 0), None)
            if p is None:
                det = Fraction(0)
                break
            if p != c:
                a[p], a[c] = a[c], a[p]
                det = -det
            det *= a[c][c]
            a[c] = [x / a[c][c] for x in a[c]]
            for r in range(n):
                if r != c and a[r][c] != 0:
                    f = a[r][c]
                    a[r] = [x - f * y for x, y in zip(a[r], a[c])]
        _LA[key] = (det, [r[n:] for r in a])
    return _LA[key]


def ev(t, env, args):
    tag = t[0]
    if tag == "q":
        v = t[1] / t[2]
        return v, abs(v) * EPS if t[2] != 1 else 0.0
    if tag == "add":
        s, e, m = 0.0, 0.0, 0.0
        for x in t[1]:
            a, b = ev(x, env, args)
            s += a
            e += b
            if abs(s) > m:
                m = abs(s)
        return s, e + m * EPS * (1 + 0.1 * len(t[1]))
    if tag == "mul":
        p, e = 1.0, 0.0
        for x in t[1]:
            a, b = ev(x, env, args)
            e = abs(p) * b + abs(a) * e
            p *= a
            e += abs(p) * EPS
        return p, e
    if tag == "neg":
        a, b = ev(t[1], env, args)
        return -a, b
    if tag == "sub":
        a, b = ev(t[1], env, args)
        c, d = ev(t[2], env, args)
        return a - c, b + d + max(abs(a), abs(c)) * EPS
    if tag == "div":
        a, b = ev(t[1], env, args)
        c, d = ev(t[2], env, args)
        if c == 0:
            return NAN, 0.0
        v = a / c
        return v, b / abs(c) + abs(v) * (d / abs(c) + EPS)
    if tag == "ln":
        a, b = ev(t[1], env, args)
        if a != a or a < 0:
            return NAN, 0.0
        if a == 0:
            return -math.inf, 0.0
        v = math.log(a)
        return v, b / a + abs(v) * EPS
    if tag == "psi":
        a, b = ev(t[1], env, args)
        v = float(digamma(a))
        return v, _psi_err(a, b) + abs(v) * EPS
    if tag == "psi1":
        a, b = ev(t[1], env, args)
        v = float(polygamma(1, a))
        return v, abs(v) * EPS
    if tag == "lngamma":
        a, b = ev(t[1], env, args)
        v = float(gammaln(a))
        return v, abs(v) * EPS + abs(float(digamma(a))) * b
    if tag == "gamma":
        a, b = ev(t[1], env, args)
        v = float(gamma(a))
        return v, abs(v) * 4 * EPS
    if tag == "exp":
        a, b = ev(t[1], env, args)
        try:
            v = math.exp(a)
        except OverflowError:
            v = math.inf
        return v, v * (b + EPS)
    if tag == "sqrt":
        a, b = ev(t[1], env, args)
        if a < 0:
            return NAN, 0.0
        v = math.sqrt(a)
        return v, (b / (2 * v) if v else 0.0) + v * EPS
    if tag == "pow":
        a, b = ev(t[1], env, args)
        c, d = ev(t[2], env, args)
        try:
            v = a ** c
            if isinstance(v, complex):
                return NAN, 0.0
        except (ZeroDivisionError, OverflowError):
            return NAN, 0.0
        e = abs(v) * EPS
        if a:
            e += abs(v * c / a) * b
            if d and a > 0:
                e += abs(v * math.log(a)) * d
        return v, e
    if tag == "max":
        return max((ev(x, env, args) for x in t[1]), key=lambda p: p[0])
    if tag == "min":
        return min((ev(x, env, args) for x in t[1]), key=lambda p: p[0])
    if tag == "pi":
        return math.pi, 0.0
    if tag == "euler":
        return 0.5772156649015329, 0.0
    if tag == "nan":
        return NAN, 0.0
    if tag == "inf":
        return math.inf, 0.0
    if tag == "var":
        return env[t[1]], 0.0
    if tag == "arg":
        return float(args[t[1] - 1]), 0.0
    if tag in ("sumover", "prodover"):
        lo = round(ev(t[2], env, args)[0])
        hi = round(ev(t[3], env, args)[0])
        s, e = (0.0, 0.0) if tag == "sumover" else (1.0, 0.0)
        if tag == "prodover":       # partial products from the same start are kept
            key = (id(t), lo, tuple((v, env[v]) for v in _free(t[4]) if v != t[1]))
            if _PREFIX.get("root") is not env.get("#root"):
                _PREFIX.clear()
                _PREFIX["root"] = env.get("#root")
            pre = _PREFIX.setdefault(key, [(1.0, 0.0)])
            en = dict(env)
            for i in range(lo + len(pre) - 1, hi + 1):
                en[t[1]] = float(i)
                a, b = ev(t[4], en, args)
                s, e = pre[-1]
                e = abs(s) * b + abs(a) * e
                s *= a
                pre.append((s, e + abs(s) * EPS))
            return pre[max(0, hi - lo + 1)]
        en = dict(env)
        for i in range(lo, hi + 1):
            en[t[1]] = float(i)
            a, b = ev(t[4], en, args)
            s += a
            e += b + abs(s) * EPS
        return s, e
    if tag == "integral":
        lo = ev(t[2], env, args)[0]
        hi = ev(t[3], env, args)[0]
        en = dict(env)

        def f(x):
            en[t[1]] = x
            return ev(t[4], en, args)[0]

        v, e = quad(f, lo, hi, limit=100)
        return v, abs(e) + 1e-8 * abs(v)
    if tag == "det":
        return float(_linalg(t[1])[0]), 0.0
    if tag == "quadinv":
        det, inv = _linalg(t[1])
        u = t[2]
        if det == 0:
            return NAN, 0.0
        v = float(sum(inv[i][j] * u[i] * u[j] for i in range(len(u)) for j in range(len(u))))
        # conditioning: the code inverts the matrix in floating point
        mx = max(abs(x) for r in t[1] for x in r)
        mi = max(abs(x) for r in inv for x in r)
        return v, 64 * EPS * float(mx * mi) * abs(v)
    raise TermError(f"unknown term {tag!r}")


_PREFIX = {}


def _free(t):
    """Variables occurring in a term."""
    if not isinstance(t, list) or not t:
        return ()
    if t[0] == "var":
        return (t[1],)
    return tuple(sorted({v for x in t for v in _free(x)}))


def evaluate(t, args=()):
    return ev(t, {"#root": object()}, args)
