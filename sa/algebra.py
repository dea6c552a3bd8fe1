"""Random interpretation of extracted formulas.

A formula the abstract interpreter extracted (a term over pixel, channel and parameter leaves) is compared with the
specified one by evaluating both terms on fixed sample values of the leaves: equal terms agree on every sample, and a
sample on which they differ is a counterexample to their equality.  Operators the evaluator does not interpret raise
NoEval (the comparison is then given up) unless `opaque` allows treating them as uninterpreted functions."""
from fractions import Fraction
import math
import re
import zlib
from terms import *


class NoEval(Exception):
    pass


def real(f, dom=None):
    def g(x):
        x = float(x)
        if dom and not dom(x):
            raise NoEval('domain')
        return f(x)
    return g


def trunc(x):
    return Fraction(math.trunc(x))


FN = {
    'sin': real(math.sin), 'cos': real(math.cos), 'tan': real(math.tan), 'asin': real(math.asin, lambda x: abs(x) <= 1),
    'acos': real(math.acos, lambda x: abs(x) <= 1), 'atan': real(math.atan), 'sinh': real(math.sinh), 'cosh': real(math.cosh),
    'tanh': real(math.tanh), 'asinh': real(math.asinh), 'acosh': real(math.acosh, lambda x: x >= 1), 'atanh': real(math.atanh, lambda x: abs(x) < 1),
    'exp': real(math.exp, lambda x: x < 600), 'exp2': real(lambda x: 2.0 ** x), 'expm1': real(math.expm1), 'log': real(math.log, lambda x: x > 0), 'log2': real(math.log2, lambda x: x > 0),
    'log10': real(math.log10, lambda x: x > 0), 'log1p': real(math.log1p, lambda x: x > -1), 'sqrt': real(math.sqrt, lambda x: x >= 0), 'cbrt': real(lambda x: math.copysign(abs(x) ** (1 / 3), x)),
    'floor': lambda x: Fraction(math.floor(x)), 'ceil': lambda x: Fraction(math.ceil(x)), 'trunc': trunc, 'itrunc': trunc, 'round': lambda x: Fraction(math.floor(abs(x) + Fraction(1, 2))) * (1 if x >= 0 else -1),
    'abs': abs, 'fabs': abs, 'generic_abs': abs, 'erf': real(math.erf), 'erfc': real(math.erfc), 'tgamma': real(math.gamma, lambda x: 0 < x < 100), 'lgamma': real(math.lgamma, lambda x: x > 0),
    'norm': lambda x: x * x, 'conj': lambda x: x, 'real': lambda x: x, 'flt': lambda x: x, 'double': lambda x: x, 'ctor:complex': lambda x: x, 'ctor:double': lambda x: x,
    'move': lambda x: x, 'forward': lambda x: x, 'as_const': lambda x: x, 'deg2rad': None,
}


def recip(f):
    def g(x):
        y = FN[f](x)
        if y == 0:
            raise NoEval('domain')
        return 1 / y
    return g


FN.update({'cot': recip('tan'), 'sec': recip('cos'), 'csc': recip('sin')})


def pw(a, b):
    if a < 0 and b != int(b) or a == 0 and b < 0:
        raise NoEval('domain')
    return Fraction(a) ** int(b) if isinstance(a, (int, Fraction)) and b == int(b) and abs(b) < 30 else float(a) ** float(b)


FN2 = {'pow': pw, 'max': max, 'min': min, 'fmax': max, 'fmin': min, 'atan2': lambda a, b: math.atan2(a, b), 'hypot': lambda a, b: math.hypot(a, b),
       'fmod': lambda a, b: math.fmod(a, b) if b else NotImplemented, 'complex': None}
FUNCTOR = {'plus': lambda a, b: a + b, 'minus': lambda a, b: a - b, 'multiplies': lambda a, b: a * b,
           'less': lambda a, b: Fraction(a < b), 'greater': lambda a, b: Fraction(a > b), 'equal_to': lambda a, b: Fraction(a == b)}


class Eval:
    wrap = False
    division = None

    def __init__(self, leaf, cx=None, opaque=False):
        self.leaf = leaf          # leaf term -> number or None
        self.cx = cx or {}
        self.opaque = opaque
        self.memo = {}

    def num(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._num(t)
        return r

    def _num(self, t):
        if t is TRUE:
            return Fraction(1)
        if t is FALSE:
            return Fraction(0)
        k = t.k
        if k == 'poly':
            r = Fraction(0)
            for m, c in t.a[0]:
                x = c
                for a, e in m:
                    x = x * self.num(a) ** e
                r = r + x
            return r
        x = self.leaf(t)
        if x is not None:
            return x
        if k == 'ite':
            return self.num(t.a[1] if self.truth(t.a[0]) else t.a[2])
        if k in ('quot', 'fdiv', 'mod'):
            a, b = self.num(t.a[0]), self.num(t.a[1])
            if b == 0:
                raise NoEval('division by zero')
            if k == 'fdiv':
                return a / b
            if a < 0 or b < 0:
                raise NoEval('negative division')
            if k == 'quot':
                q = a / b
                if q != int(q):
                    if self.division in ('int', 'mixed') and a == int(a) and b == int(b):
                        return trunc(q)
                    if self.division not in ('real', 'mixed'):
                        raise NoEval('inexact division')
                return q
            if a != int(a) or b != int(b):
                raise NoEval('fraction')
            return a % b
        if k in ('le0', 'flt_le', 'eq0', 'ne0', 'and', 'or', 'not', 'cx'):
            return Fraction(self.truth(t))
        if k == 'app':
            nm = str(t.a[0]).split('::')[-1] if not str(t.a[0]).startswith('ctor:') else t.a[0]
            a = [x for x in t.a[1] if x.k != 'policy']
            if nm == 'u8' and len(a) == 1:
                x = trunc(self.num(a[0]))
                if not 0 <= x <= 255:
                    if not self.wrap:
                        raise NoEval('out of range')
                    return x % 256
                return x
            if nm == 'call' and a:
                f = a[0]
                fn = re.sub(r'<.*', '', str(f.a[-1] if f.k in ('defval', 'uninitv') else f.a[0])).split('::')[-1].replace('ctor:', '') if f.k in ('app', 'defval', 'struct', 'uninitv') else None
                if fn == 'negate' and len(a) == 2:
                    return -self.num(a[1])
                if fn in FUNCTOR and len(a) == 3:
                    return FUNCTOR[fn](self.num(a[1]), self.num(a[2]))
            if FN.get(nm) and len(a) == 1:
                return FN[nm](self.num(a[0]))
            if nm == 'ctor:complex' and len(a) == 2 and a[1].k in ('defval', 'uninitv'):
                return self.num(a[0])
            if FN2.get(nm) and len(a) == 2:
                return FN2[nm](self.num(a[0]), self.num(a[1]))
            if nm == 'clamp' and len(a) == 3:
                x, lo, hi = (self.num(y) for y in a)
                return min(max(x, lo), hi)
        if k in ('max', 'min'):
            xs = [self.num(x) for x in (t.a[0] if isinstance(t.a[0], tuple) else t.a)]
            return max(xs) if k == 'max' else min(xs)
        if k == 'elem' and t.a[0].k in ('vec', 'tuple'):
            i = self.num(t.a[1])
            if i == int(i) and 0 <= i < len(t.a[0].a[0]):
                return self.num(t.a[0].a[0][int(i)])
        if k == 'defval' or k == 'app' and str(t.a[0]).startswith('ctor:') and not t.a[1] and self.opaque:
            return Fraction(0)
        if self.opaque is True or self.opaque and k == 'app' and t.a[0] == 'call' and t.a[1][0].k in ('sym', 'opq'):
            return self.hashed(t)
        if self.opaque and k in ('get', 'fld') and t.a[1] in (0, 1, 'first', 'second'):
            return self.hashed(mk('get', t.a[0], {'first': 0, 'second': 1}.get(t.a[1], t.a[1])))
        raise NoEval('operator %s' % (k if k != 'app' else t.a[0]))

    def hashed(self, t):
        def go(x):
            if isinstance(x, T):
                if x.k == 'policy':
                    return 'p'
                try:
                    v = self.num(x) if x.k not in ('lam', 'opq', 'fnref', 'defval', 'uninitv', 'enum', 'sym', 'str') else None
                except NoEval:
                    v = None
                return '%.9g' % float(v) if v is not None else show(x)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        return Fraction(1 + zlib.crc32(repr((t.k,) + tuple(go(x) for x in t.a)).encode()) % 997, 7)

    def truth(self, t):
        k = t.k
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if k == 'and':
            return all(self.truth(x) for x in t.a[0])
        if k == 'or':
            return any(self.truth(x) for x in t.a[0])
        if k == 'not':
            return not self.truth(t.a[0])
        if k in ('le0', 'flt_le'):
            return self.num(t.a[0]) <= 0
        if k == 'eq0':
            return self.num(t.a[0]) == 0
        if k == 'ne0':
            return self.num(t.a[0]) != 0
        if k == 'cx':
            if t in self.cx:
                return self.cx[t]
            raise NoEval('type condition')
        if self.opaque:
            return self.num(t) > 70
        raise NoEval('condition %s' % k)


def sample(seed, name, lo, hi):
    return Fraction(lo + zlib.crc32(('%s|%s' % (seed, name)).encode()) % (hi - lo + 1))


def close(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a == b
    a, b = float(a), float(b)
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
