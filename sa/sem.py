"""Comparison of extracted image summaries with a specification.

A summary is the closed form the abstract interpreter computed for a function's result: extents and, per pixel,
a stack of layers (loop nest, written coordinates, written value, condition).  The summary is instantiated on a grid
of shapes and parameter values and compared, pixel by pixel, with the specified index map.  Anything the summary does
not determine raises Unk: the comparison is then given up, never guessed."""
from fractions import Fraction
import itertools
import math
from terms import *


class Unk(Exception):
    pass


class Undef(Exception):
    """the summary addresses a pixel outside an image"""

    def __init__(self, why, negative=False):
        Exception.__init__(self, why)
        self.negative = negative


MAXW = 20000

_IVS = {}


def ivset(t):
    r = _IVS.get(t)
    if r is None:
        if t.k == 'iv':
            r = frozenset((t,))
            for x in t.a[1:]:
                if isinstance(x, T):
                    r |= ivset(x)
        elif t.k == 'poly':
            r = frozenset()
            for m, c in t.a[0]:
                for a, e in m:
                    r |= ivset(a)
        else:
            r = frozenset()
            st = list(t.a)
            while st:
                x = st.pop()
                if isinstance(x, T):
                    r |= ivset(x)
                elif isinstance(x, tuple):
                    st.extend(x)
        _IVS[t] = r
    return r


def memo(fn):
    name = fn.__name__

    def g(self, t, iv):
        if t.k in ('iv', 'sym', 'var', 'imgp'):
            return fn(self, t, iv)
        fv = ivset(t)
        key = (name, t, tuple((v, iv[v]) for v in iv if v in fv) if iv else ())
        r = self.memo.get(key)
        if r is None:
            try:
                r = (0, fn(self, t, iv))
            except (Unk, Undef) as ex:
                r = (1, ex)
            self.memo[key] = r
        if r[0]:
            raise r[1]
        return r[1]
    return g



class Model:
    def __init__(self, shapes, vals, elems=None):
        self.shapes = shapes          # image name -> (w, h)
        self.vals = vals              # scalar name -> int
        self.elems = elems or {}
        self.memo = {}
        self.steps = 0

    # ---------------------------------------------------------------- numbers
    @memo
    def num(self, t, iv):
        if t.k == 'poly':
            r = Fraction(0)
            for m, c in t.a[0]:
                x = c
                for a, e in m:
                    x = x * self.num(a, iv) ** e
                r += x
            return r
        k = t.k
        if t is TRUE:
            return Fraction(1)
        if t is FALSE:
            return Fraction(0)
        if k == 'iv':
            if t in iv:
                return Fraction(iv[t])
            raise Unk('free loop variable')
        if k in ('sym', 'var'):
            if t.a[0] in self.vals:
                return Fraction(self.vals[t.a[0]])
            raise Unk('symbol %s' % t.a[0])
        if k == 'sz':
            s = self.shape(t.a[0], iv)
            i = self.num(t.a[1], iv) if isinstance(t.a[1], T) else t.a[1]
            if not 0 <= i < len(s):
                raise Undef('extent %s' % i)
            return Fraction(s[int(i)])
        if k == 'dim':
            return Fraction(len(self.shape(t.a[0], iv)))
        if k == 'count':
            r = 1
            for x in self.shape(t.a[0], iv):
                r *= x
            return Fraction(r)
        if k == 'quot' or k == 'mod':
            a, b = self.num(t.a[0], iv), self.num(t.a[1], iv)
            if b == 0:
                raise Undef('division by zero')
            if a.denominator != 1 or b.denominator != 1:
                raise Unk('fraction')
            if a < 0 or b < 0:
                raise Undef('negative quotient', True)
            return Fraction(a // b if k == 'quot' else a % b)
        if k == 'fdiv':
            b = self.num(t.a[1], iv)
            if b == 0:
                raise Unk('float division')
            return self.num(t.a[0], iv) / b
        if k == 'ite':
            return self.num(t.a[1] if self.truth(t.a[0], iv) else t.a[2], iv)
        if k == 'len':
            return Fraction(self.length(t.a[0], iv))
        if k == 'elem':
            return self.num(*self.elem(t, iv))
        if k == 'fold':
            r = self.value(t, iv)
            return cval(r) if cval(r) is not None else self.num(r, iv)
        if k == 'sum':
            r = Fraction(0)
            for i in range(self.int(t.a[1], iv)):
                r += self.num(t.a[2], {**iv, t.a[0]: i})
            return r
        if k == 'prod':
            r = Fraction(1)
            for i in range(self.length(t.a[0], iv)):
                r *= self.num(*self.at(t.a[0], i, iv))
            return r
        if k == 'app' and t.a[0] in ('trunc', 'floor', 'itrunc', 'ceil') and len(t.a[1]) == 1:
            x = self.num(t.a[1][0], iv)
            if x < 0 and t.a[0] == 'trunc':
                raise Undef('negative', True)
            return Fraction(math.floor(x) if t.a[0] == 'floor' else math.ceil(x) if t.a[0] == 'ceil' else math.trunc(x))
        if k == 'app' and t.a[0] in ('&', '|', '^', '<<', '>>') and len(t.a[1]) == 2:
            a, b = self.int(t.a[1][0], iv), self.int(t.a[1][1], iv)
            if t.a[0] in ('<<', '>>') and not 0 <= b < 64:
                raise Unk('shift')
            return Fraction(a & b if t.a[0] == '&' else a | b if t.a[0] == '|' else a ^ b if t.a[0] == '^' else a << b if t.a[0] == '<<' else a >> b)
        if k == 'app' and t.a[0] == 'u8' and len(t.a[1]) == 1:
            return Fraction(self.int(t.a[1][0], iv) % 256)
        if k == 'app' and t.a[0] in ('abs', 'std::abs') and len(t.a[1]) == 1:
            return abs(self.num(t.a[1][0], iv))
        if k == 'app' and t.a[0] in ('fmod', 'std::fmod') and len(t.a[1]) == 2:
            a, b = self.num(t.a[1][0], iv), self.num(t.a[1][1], iv)
            if b == 0:
                raise Unk('fmod')
            q = abs(a) / abs(b)
            r = abs(a) - abs(b) * (q.numerator // q.denominator)
            return r if a >= 0 else -r
        if k == 'app' and t.a[0] == 'u8' and len(t.a[1]) == 1:
            return self.num(t.a[1][0], iv)
        if k in ('max', 'min') or (k == 'app' and t.a[0] in ('max', 'min', 'std::max', 'std::min')):
            xs = [self.num(x, iv) for x in (t.a[1] if k == 'app' else t.a if not isinstance(t.a[0], tuple) else t.a[0])]
            return max(xs) if 'max' in (k if k != 'app' else t.a[0]) else min(xs)
        if k == 'app':
            import algebra
            nm = str(t.a[0]).split('::')[-1]
            a = [x for x in t.a[1] if x.k != 'policy']
            if nm == 'epsilon' and not a:
                return Fraction(1, 2 ** 52)
            r = self.opaque(t, nm, a, iv)
            if r is not None:
                return r
            try:
                if algebra.FN.get(nm) and len(a) == 1:
                    return Fraction(algebra.FN[nm](self.num(a[0], iv)))
                if algebra.FN2.get(nm) and len(a) == 2:
                    return Fraction(algebra.FN2[nm](self.num(a[0], iv), self.num(a[1], iv)))
            except (algebra.NoEval, ArithmeticError, ValueError, TypeError):
                pass
        raise Unk('number %s' % (k if k != 'app' else t.a[0]))

    def int(self, t, iv):
        x = self.num(t, iv)
        if x.denominator != 1:
            raise Unk('fraction')
        return int(x)

    def vec(self, t, iv):
        if t.k in ('vec', 'tuple'):
            return t.a[0]
        if t.k in ('vmap', 'vlay', 'store', 'iota', 'vpush'):
            out = []
            for i in range(self.length(t, iv)):
                x, e = self.at(t, i, iv)
                out.append(x if e is iv else self.value(x, e))
            return tuple(out)
        if t.k == 'sizevec':
            return tuple(const(x) for x in self.shape(t.a[0], iv))
        if t.k == 'ite':
            return self.vec(t.a[1] if self.truth(t.a[0], iv) else t.a[2], iv)
        raise Unk('vector %s' % t.k)

    def opaque(self, t, nm, a, iv):
        return None

    def length(self, v, iv):
        k = v.k
        if k in ('vec', 'tuple'):
            return len(v.a[0])
        if k in ('vecn', 'vmap'):
            return self.int(v.a[1], iv)
        if k in ('store', 'vlay'):
            return self.length(v.a[0], iv)
        if k == 'vpush':
            return self.length(v.a[0], iv) + 1
        if k == 'sizevec':
            return len(self.shape(v.a[0], iv))
        if k == 'data':
            r = 1
            for x in self.shape(v.a[0], iv):
                r *= x
            return r
        if k == 'iota':
            return self.int(sub(v.a[1], v.a[0]), iv)
        if k == 'ite':
            return self.length(v.a[1] if self.truth(v.a[0], iv) else v.a[2], iv)
        if k in ('sym', 'var') and v.a[0] in self.elems:
            return self.elems[v.a[0]]
        raise Unk('length of %s' % k)

    def at(self, v, i, iv):
        """(term, environment) of element i of a vector term, unevaluated"""
        k = v.k
        if k in ('vec', 'tuple', 'sizevec', 'vecn', 'vmap', 'data', 'iota', 'vlay', 'store', 'vpush') or (k in ('sym', 'var') and v.a[0] in self.elems):
            n = self.length(v, iv)
            if not 0 <= i < n:
                raise Undef('element %d of %d' % (i, n), i < 0)
        if k in ('vec', 'tuple'):
            return v.a[0][i], iv
        if k == 'sizevec':
            return const(self.shape(v.a[0], iv)[i]), iv
        if k == 'vecn':
            if v.a[2] is None and not isinstance(v.a[0], tuple):
                raise Unk('elements of unknown value')
            return (mk('UNINIT') if v.a[2] is None else v.a[2]), iv
        if k == 'vmap':
            if v.a[2] is None:
                raise Unk('vmap')
            return v.a[2], {**iv, v.a[0]: i}
        if k == 'iota':
            return add(v.a[0], const(i)), iv
        if k == 'data':
            return mk('px', v.a[0], tuple(const(x) for x in self.unlin(i, self.shape(v.a[0], iv)))), iv
        if k == 'store':
            if self.int(v.a[1], iv) == i:
                return v.a[2], iv
            return self.at(v.a[0], i, iv)
        if k == 'vlay':
            fv = ivset(v)
            kk = ('vl', v, tuple((x, iv[x]) for x in iv if x in fv))
            w = self.memo.get(kk)
            if w is None:
                w = self.memo[kk] = self.vwrites(v, iv)
            if i in w:
                return v.a[3], w[i]
            return self.at(v.a[0], i, iv)
        if k == 'vpush':
            n = self.length(v.a[0], iv)
            return (v.a[1], iv) if i == n else self.at(v.a[0], i, iv)
        if k == 'ite':
            return self.at(v.a[1] if self.truth(v.a[0], iv) else v.a[2], i, iv)
        if k in ('sym', 'var') and v.a[0] in self.elems:
            return mk('EL', v.a[0], i), iv
        raise Unk('element of %s' % k)

    def iterate(self, ivs, iv, body):
        n = [0]

        def go(i, env):
            n[0] += 1
            if n[0] > MAXW:
                raise Unk('too many iterations')
            if i == len(ivs):
                return body(env)
            v = ivs[i]
            if v in env:
                return go(i + 1, env)
            lo = self.int(v.a[1], env) if isinstance(v.a[1], T) else 0
            hi = self.num(v.a[2], env)
            hi = -((-hi.numerator) // hi.denominator)
            for x in range(lo, hi):
                go(i + 1, {**env, v: x})
        go(0, iv)

    def vwrites(self, v, iv):
        prev, ivs, idx, val, cond = v.a
        w = {}
        n = self.length(prev, iv)

        def body(env):
            if self.truth(cond, env):
                i = self.int(idx, env)
                if not 0 <= i < n:
                    raise Undef('writes element %d of %d' % (i, n), i < 0)
                w[i] = env
        self.iterate(ivs, iv, body)
        return w

    def elem(self, t, iv):
        return self.at(t.a[0], self.int(t.a[1], iv), iv)

    # ---------------------------------------------------------------- truth
    @memo
    def truth(self, t, iv):
        k = t.k
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if k == 'le0':
            return self.num(t.a[0], iv) <= 0
        if k == 'flt_le':
            return self.num(t.a[0], iv) <= 0
        if k == 'eq0':
            return self.num(t.a[0], iv) == 0
        if k == 'ne0':
            return self.num(t.a[0], iv) != 0
        if k == 'and':
            u = None
            for x in t.a[0]:
                try:
                    if not self.truth(x, iv):
                        return False
                except Unk as ex:
                    u = ex
            if u:
                raise u
            return True
        if k == 'or':
            u = None
            for x in t.a[0]:
                try:
                    if self.truth(x, iv):
                        return True
                except Unk as ex:
                    u = ex
            if u:
                raise u
            return False
        if k == 'not':
            return not self.truth(t.a[0], iv)
        if k == 'ite':
            return self.truth(t.a[1] if self.truth(t.a[0], iv) else t.a[2], iv)
        if k == 'eqv':
            return [self.num(x, iv) for x in self.vec(t.a[0], iv)] == [self.num(x, iv) for x in self.vec(t.a[1], iv)]
        if k in ('sym', 'var') and t.a[0] in self.vals:
            return bool(self.vals[t.a[0]])
        if k in ('forall', 'exists'):
            n = self.int(t.a[0].a[2], iv)
            r = [self.truth(t.a[1], {**iv, t.a[0]: i}) for i in range(n)]
            return all(r) if k == 'forall' else any(r)
        raise Unk('condition %s' % k)

    # ---------------------------------------------------------------- images
    @memo
    def shape(self, im, iv):
        if im.k == 'imgp':
            if im.a[0] in self.shapes:
                return self.shapes[im.a[0]]
            raise Unk('image %s' % (im.a[0],))
        if im.k == 'img':
            s = im.a[1]
            if isinstance(s, T):
                if s.k in ('vec', 'tuple', 'sizevec', 'ite'):
                    return tuple(self.int(x, iv) for x in self.vec(s, iv))
                raise Unk('extents %s' % s.k)
            return tuple(self.int(x, iv) for x in s)
        if im.k == 'ite':
            return self.shape(im.a[1] if self.truth(im.a[0], iv) else im.a[2], iv)
        if im.k == 'elem':
            return self.shape(*self.elem(im, iv))
        if im.k == 'copy':
            return self.shape(im.a[0], iv)
        if im.k in ('sym', 'var') and im.a[0] in self.shapes:
            return self.shapes[im.a[0]]
        raise Unk('shape of %s' % im.k)

    def pixel(self, im, co, iv):
        """value of a pixel as a term over IN(name, x, y)"""
        self.steps += 1
        if self.steps > 400000:
            raise Unk('budget')
        s = self.shape(im, iv)
        if len(co) != len(s):
            raise Unk('coordinates')
        if any(c < 0 for c in co):
            raise Undef('negative coordinate', True)
        if any(c >= n for c, n in zip(co, s)):
            raise Undef('coordinate %s outside %s' % (co, s))
        if im.k == 'ite':
            return self.pixel(im.a[1] if self.truth(im.a[0], iv) else im.a[2], co, iv)
        if im.k == 'elem':
            im, iv = self.elem(im, iv)
            return self.pixel(im, co, iv)
        if im.k == 'copy':
            return self.pixel(im.a[0], co, iv)
        if im.k in ('imgp', 'sym', 'var'):
            return mk('IN', im.a[0], *co)
        return self.content(im.a[2], s, co, iv)

    def content(self, c, s, co, iv):
        if not isinstance(c, T):
            raise Unk('content')
        if c.k == 'layer':
            prev, ivs, coords, path, val, cond = c.a
            fv = ivset(c)
            kk = (c, s, tuple((v, iv[v]) for v in iv if v in fv) if iv else ())
            w = self.memo.get(kk)
            if w is None:
                w = self.memo[kk] = self.writes(c, s, iv)
            if co in w:
                ivx = w[co]
                if prev.k == 'layer':
                    common = [x for x in ivs if x in prev.a[1] and x not in iv]
                    if common:
                        fv = ivset(prev)
                        kp = (prev, s, tuple((v, iv[v]) for v in iv if v in fv) if iv else ())
                        wp = self.memo.get(kp)
                        if wp is None:
                            wp = self.memo[kp] = self.writes(prev, s, iv)
                        if co in wp and any(wp[co].get(x) != ivx.get(x) for x in common):
                            raise Unk('writes of different iterations overlap')
                if path:
                    base = self.content(prev, s, co, iv)
                    return mk('UPD', base, tuple(self.value(p, ivx) if isinstance(p, T) else p for p in path), self.value(val, ivx))
                return self.value(val, ivx)
            return self.content(prev, s, co, iv)
        if c.k == 'copy':
            return self.pixel(c.a[0], co, iv)
        if c.k == 'uninit':
            return mk('UNINIT')
        if c.k == 'fill':
            return self.value(c.a[0], iv)
        if c.k == 'dataof':
            v = c.a[0]
            return self.datav(v, s, co, iv)
        if c.k == 'ite':
            return self.content(c.a[1] if self.truth(c.a[0], iv) else c.a[2], s, co, iv)
        raise Unk('content %s' % c.k)

    def datav(self, v, s, co, iv):
        lin, st = 0, 1
        for x, n in zip(co, s):
            lin += x * st
            st *= n
        return self.value(*self.at(v, lin, iv))

    def unlin(self, p, s):
        if p < 0:
            raise Undef('negative position', True)
        out = []
        for n in s[:-1]:
            if n == 0:
                raise Undef('empty')
            out.append(p % n)
            p //= n
        out.append(p)
        return tuple(out)

    def writes(self, c, s, iv):
        prev, ivs, coords, path, val, cond = c.a
        w = {}

        def body(env):
            if not self.truth(cond, env):
                return
            co = []
            for x in coords:
                if x.k == 'lin':
                    co += list(self.unlin(self.int(x.a[0], env), s))
                elif x.k == 'vidx':
                    co += [self.int(y, env) for y in self.vec(x.a[0], env)]
                else:
                    co.append(self.int(x, env))
            if len(co) == len(s) and all(0 <= a < b for a, b in zip(co, s)):
                w[tuple(co)] = env
            elif any(a < 0 for a in co):
                raise Undef('writes at a negative coordinate', True)
            else:
                raise Undef('writes outside the image at %s of %s' % (tuple(co), s))
        self.iterate(ivs, iv, body)
        return w

    # ---------------------------------------------------------------- values
    @memo
    def value(self, t, iv):
        if t.k == 'poly':
            r = ZERO
            for m, c in t.a[0]:
                x = const(c)
                for a, e in m:
                    y = self.value(a, iv)
                    for _ in range(e):
                        x = mul(x, y)
                r = add(r, x)
            return r
        k = t.k
        if k == 'px':
            co = []
            sh = self.shape(t.a[0], iv)
            for x in t.a[1]:
                if x.k == 'lin':
                    co += list(self.unlin(self.int(x.a[0], iv), sh))
                elif x.k == 'vidx':
                    co += [self.int(y, iv) for y in self.vec(x.a[0], iv)]
                else:
                    co.append(self.int(x, iv))
            return self.pixel(t.a[0], tuple(co), iv)
        if k == 'ite':
            try:
                c = self.truth(t.a[0], iv)
            except Unk:
                c = None
            if c is None:
                # condition on pixel values: keep it, evaluated
                cond = self.cond(t.a[0], iv)
                return ite(cond, self.value(t.a[1], iv), self.value(t.a[2], iv))
            return self.value(t.a[1] if c else t.a[2], iv)
        if k in ('sz', 'dim', 'count', 'quot', 'mod', 'iv', 'len', 'prod'):
            try:
                return const(self.num(t, iv))
            except Unk:
                pass
        if k in ('sym', 'var'):
            if t.a[0] in self.vals:
                return const(self.vals[t.a[0]])
            if isinstance(t.a[0], str) and '#' in t.a[0]:
                raise Unk('value %s' % t.a[0])
            return t
        if k == 'elem':
            try:
                b = t.a[0] if t.a[0].k not in ('px', 'elem', 'fld', 'poly') else None
                if b is not None:
                    return self.value(*self.elem(t, iv))
            except Unk:
                pass
            b = self.value(t.a[0], iv)
            i = const(self.num(t.a[1], iv))
            return rebuild('elem', (b, i, None)) if b.k in ('vec', 'tuple') else mk('elem', b, i, None)
        if k == 'fold':
            acc, init, v, n, c = t.a
            r = ZERO if init.k == 'defval' or init.k == 'app' and str(init.a[0]).startswith('ctor:') and not init.a[1] else self.value(init, iv)
            for i in range(self.int(n, iv)):
                r = self.value(subst(c, {acc: r}), {**iv, v: i})
            return r
        if k == 'sum':
            r = ZERO
            for i in range(self.int(t.a[1], iv)):
                r = add(r, self.value(t.a[2], {**iv, t.a[0]: i}))
            return r
        if k == 'UNINIT':
            return t
        if k == 'fld':
            b = self.value(t.a[0], iv)
            if b.k == 'struct':
                for n, v in b.a[1]:
                    if n == t.a[1]:
                        return v
            return mk('fld', b, *t.a[1:])
        if k in ('lam', 'UNK', 'unk'):
            raise Unk('value %s' % k)

        def go(x):
            if isinstance(x, T):
                return self.value(x, iv)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        if t is TRUE or t is FALSE or not t.a:
            return t
        if k == 'imgp':
            return t
        if k in ('img', 'layer'):
            raise Unk('image as a value')
        return rebuild(k, tuple(go(x) for x in t.a))

    def cond(self, t, iv):
        if t.k in ('and', 'or'):
            return (t_and if t.k == 'and' else t_or)(*[self.cond(x, iv) for x in t.a[0]])
        if t.k == 'not':
            return t_not(self.cond(t.a[0], iv))
        try:
            return TRUE if self.truth(t, iv) else FALSE
        except Unk:
            return self.value(t, iv)

    # ---------------------------------------------------------------- exits
    def exit_of(self, fr):
        """the exit taken in this model; None when every exit is excluded (the function throws)"""
        for x in fr.exits:
            pc = t_and(*x['pc']) if x['pc'] else TRUE
            if self.truth(pc, {}):
                return x
        return None


def image_of(m, im):
    """(shape, {coord: value}) of an image term in model m"""
    s = m.shape(im, {})
    px = {}
    for co in itertools.product(*[range(n) for n in s]):
        try:
            px[co] = m.pixel(im, co, {})
        except Undef as ex:
            px[co] = ex
    return s, px
