"""Hash-consed value terms, integer-polynomial normal form and predicate entailment.

A term is an interned `T(k, a)`.  Numeric expressions are kept as multivariate polynomials with
rational coefficients over atoms, so that `W-1-x`, `(W-x)-1` and `-(x+1)+W` are one term.
Predicates are normalised to  le0(p): p<=0,  eq0(p): p==0,  ne0(p)  over the integers.
Nothing here enumerates values or calls a solver.
"""
from fractions import Fraction


class T:
    __slots__ = ('k', 'a', 'n', '_h', 'depth')
    tab = {}
    cnt = 0

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.n < o.n


def mk(k, *a):
    key = (k, a)
    t = T.tab.get(key)
    if t is None:
        t = T.__new__(T)
        t.k = k
        t.a = a
        T.cnt += 1
        t.n = T.cnt
        t._h = hash((k, T.cnt))
        d = 0
        for x in a:
            if isinstance(x, T):
                d = max(d, x.depth)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T):
                        d = max(d, y.depth)
        t.depth = d + 1
        T.tab[key] = t
    return t


TRUE = mk('true')
FALSE = mk('false')
UNK = mk('unk')
VOID = mk('void')
_fresh = [0]


def fresh(tag='u', kind=None):
    _fresh[0] += 1
    return mk('sym', '%s#%d' % (tag, _fresh[0]), kind)


# ---------------------------------------------------------------- polynomials
def const(c):
    c = Fraction(c)
    return mk('poly', ((((), c)),) if c != 0 else ())


ZERO = const(0)
ONE = const(1)


def poly_of(t):
    """term -> dict mono->coeff"""
    if t.k == 'poly':
        return dict(t.a[0])
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    return {((t, 1),): Fraction(1)}


def from_poly(p):
    items = [(m, c) for m, c in p.items() if c != 0]
    if len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1 and items[0][0][0][1] == 1:
        return items[0][0][0][0]
    items.sort(key=lambda mc: tuple((a.n, e) for a, e in mc[0]))
    return mk('poly', tuple(items))


def is_const(t):
    return t.k == 'poly' and (not t.a[0] or (len(t.a[0]) == 1 and t.a[0][0][0] == ()))


def cval(t):
    if t.k == 'poly':
        if not t.a[0]:
            return Fraction(0)
        if len(t.a[0]) == 1 and t.a[0][0][0] == ():
            return t.a[0][0][1]
    return None


def add(a, b):
    p = poly_of(a)
    for m, c in poly_of(b).items():
        p[m] = p.get(m, 0) + c
    return from_poly(p)


def neg(a):
    return from_poly({m: -c for m, c in poly_of(a).items()})


def sub(a, b):
    return add(a, neg(b))


def mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].n))


def mul(a, b):
    p, q = poly_of(a), poly_of(b)
    if len(p) * len(q) > 64:
        return mk('app', '*', (a, b) if a.n <= b.n else (b, a))
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return from_poly(r)


def atoms(t, out=None):
    """numeric atoms of a term's polynomial"""
    s = set()
    for m, _ in poly_of(t).items():
        for a, _e in m:
            s.add(a)
    return s


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return seen
    seen.add(t)

    def go(x):
        if isinstance(x, T):
            subterms(x, seen)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    for x in t.a:
        go(x)
    return seen


def contains(t, pred):
    return any(pred(s) for s in subterms(t))


def subst(t, m, memo=None):
    """substitute terms (dict T->T) bottom-up, renormalising"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if t.k == 'poly':
        r = ZERO
        for mono, c in t.a[0]:
            x = const(c)
            for a, e in mono:
                y = subst(a, m, memo)
                for _ in range(e):
                    x = mul(x, y)
            r = add(r, x)
    else:
        def go(x):
            if isinstance(x, T):
                return subst(x, m, memo)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        na = tuple(go(x) for x in t.a)
        r = t if na == t.a else rebuild(t.k, na)
    memo[t] = r
    return r


def rebuild(k, a):
    if k == 'elem' and a[0].k in ('vec', 'tuple') and cval(a[1]) is not None and cval(a[1]).denominator == 1 and 0 <= cval(a[1]) < len(a[0].a[0]):
        return a[0].a[0][int(cval(a[1]))]
    if k == 'le0':
        return le0(a[0])
    if k == 'eq0':
        return eq0(a[0])
    if k == 'ne0':
        return ne0(a[0])
    if k == 'and':
        return t_and(*a[0])
    if k == 'or':
        return t_or(*a[0])
    if k == 'not':
        return t_not(a[0])
    if k == 'ite':
        return ite(*a)
    if k == 'quot':
        return quot(*a)
    if k == 'mod':
        return mod(*a)
    if k == 'fdiv':
        return fdiv(*a)
    return mk(k, *a)


# ---------------------------------------------------------------- int division
def quot(a, b):
    ca, cb = cval(a), cval(b)
    if cb == 1:
        return a
    if ca is not None and cb is not None and cb != 0 and ca.denominator == 1 and cb.denominator == 1:
        q = abs(int(ca)) // abs(int(cb))
        return const(q if (ca >= 0) == (cb > 0) else -q)
    return mk('quot', a, b)


def mod(a, b):
    ca, cb = cval(a), cval(b)
    if cb == 1:
        return ZERO
    if ca is not None and cb is not None and cb != 0 and ca >= 0 and cb > 0 and ca.denominator == 1 and cb.denominator == 1:
        return const(int(ca) % int(cb))
    return mk('mod', a, b)


def fdiv(a, b):
    cb = cval(b)
    if cb is not None and cb != 0:
        return mul(a, const(1 / cb))
    return mk('fdiv', a, b)


# ---------------------------------------------------------------- predicates
def _norm_sign(p):
    """canonical +/- orientation for eq/ne"""
    items = sorted(p.items(), key=lambda mc: tuple((a.n, e) for a, e in mc[0]))
    for m, c in items:
        if m != ():
            lead = c
            return {mm: cc / lead for mm, cc in p.items()}
    return p


def eq0(p):
    d = poly_of(p)
    c = cval(from_poly(dict(d)))
    if c is not None:
        return TRUE if c == 0 else FALSE
    return mk('eq0', from_poly(_norm_sign(d)))


def ne0(p):
    e = eq0(p)
    if e is TRUE:
        return FALSE
    if e is FALSE:
        return TRUE
    return mk('ne0', e.a[0])


def le0(p):
    c = cval(p)
    if c is not None:
        return TRUE if c <= 0 else FALSE
    return mk('le0', p)


def lt(a, b):
    return le0(add(sub(a, b), ONE))


def le(a, b):
    return le0(sub(a, b))


def t_not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    k = c.k
    if k == 'not':
        return c.a[0]
    if k == 'eq0':
        return mk('ne0', c.a[0])
    if k == 'ne0':
        return mk('eq0', c.a[0])
    if k == 'le0':
        return le0(sub(ONE, c.a[0]))
    if k == 'and':
        return t_or(*[t_not(x) for x in c.a[0]])
    if k == 'or':
        return t_and(*[t_not(x) for x in c.a[0]])
    if k == 'ite':
        return ite(c.a[0], t_not(c.a[1]), t_not(c.a[2]))
    return mk('not', c)


def t_and(*xs):
    s = []
    for x in xs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.k == 'and':
            for y in x.a[0]:
                if y not in s:
                    s.append(y)
        elif x not in s:
            s.append(x)
    for y in s:
        if t_not_simple(y) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return mk('and', tuple(sorted(s)))


def t_or(*xs):
    s = []
    for x in xs:
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x.k == 'or':
            for y in x.a[0]:
                if y not in s:
                    s.append(y)
        elif x not in s:
            s.append(x)
    for y in s:
        if t_not_simple(y) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    return mk('or', tuple(sorted(s)))


def t_not_simple(y):
    if y.k in ('and', 'or', 'ite'):
        return mk('not', y)
    return t_not(y)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a in (TRUE, FALSE) or b in (TRUE, FALSE):
        isb = lambda x: x in (TRUE, FALSE) or x.k in ('eq0', 'ne0', 'le0', 'and', 'or', 'not', 'exists', 'forall', 'app', 'sym', 'fld')
        if isb(a) and isb(b):
            return t_or(t_and(c, a), t_and(t_not(c), b))
    return mk('ite', c, a, b)


def show(t, d=0):
    if d > 7:
        return '..'
    if t.k == 'poly':
        s = []
        for m, c in t.a[0]:
            x = '*'.join((show(a, d + 1) + ('^%d' % e if e > 1 else '')) for a, e in m)
            if not x:
                x = str(c)
            elif c == -1:
                x = '-' + x
            elif c != 1:
                x = '%s*%s' % (c, x)
            s.append(x)
        return ('+'.join(s) or '0').replace('+-', '-')
    if t.k == 'sym':
        return str(t.a[0])
    if t.k in ('true', 'false', 'unk', 'void'):
        return t.k
    if t.k == 'eq0':
        return '(%s == 0)' % show(t.a[0], d + 1)
    if t.k == 'ne0':
        return '(%s != 0)' % show(t.a[0], d + 1)
    if t.k == 'le0':
        return '(%s <= 0)' % show(t.a[0], d + 1)
    if t.k == 'str':
        return repr(t.a[0])

    def go(x):
        if isinstance(x, T):
            return show(x, d + 1)
        if isinstance(x, tuple):
            return '[' + ','.join(go(y) for y in x) + ']'
        return str(x)
    return '%s(%s)' % (t.k, ','.join(go(x) for x in t.a))


# ---------------------------------------------------------------- entailment
NONNEG = ('W', 'H', 'dim', 'sz', 'len', 'count', 'quotnn', 'iv')


def nonneg_atom(a, facts):
    if a.k in ('sz', 'dim', 'len', 'count', 'mod'):
        return True
    if a.k == 'iv':
        lo = cval(a.a[1]) if isinstance(a.a[1], T) else None
        return lo is not None and lo >= 0
    if a.k in ('sym', 'var') and a.a[1] == 'size':
        return True
    if a.k == 'quot':
        return nonneg_term(a.a[0], facts) and nonneg_term(a.a[1], facts)
    return False


def nonneg_term(t, facts):
    p = poly_of(t)
    return all(c >= 0 and all(e % 2 == 0 or nonneg_atom(a, facts) for a, e in m) for m, c in p.items())


def entails(facts, goal, depth=0):
    """sound, incomplete: does the conjunction `facts` imply `goal`?"""
    if goal is TRUE:
        return True
    if goal in facts:
        return True
    if FALSE in facts:
        return True
    k = goal.k
    if k == 'and':
        return all(entails(facts, g, depth) for g in goal.a[0])
    if k == 'or':
        if any(entails(facts, g, depth) for g in goal.a[0]):
            return True
    if k == 'eq0':
        p = goal.a[0]
        return _eq_closure(facts, p)
    if k == 'ne0':
        p = goal.a[0]
        return entails(facts, le0(add(p, ONE)), depth + 1) or entails(facts, le0(sub(ONE, p)), depth + 1)
    if k == 'le0':
        if _le_prove(facts, goal.a[0], 0):
            return True
    if k == 'ite':
        return (entails(facts | {goal.a[0]}, goal.a[1], depth + 1) and entails(facts | {t_not(goal.a[0])}, goal.a[2], depth + 1)) if depth < 3 else False
    if depth < 2:
        # case split on disjunctive facts
        for f in facts:
            if f.k == 'or':
                rest = facts - {f}
                if all(entails(frozenset(rest | set(conj(x))), goal, depth + 1) for x in f.a[0]):
                    return True
    return False


def conj(x):
    return x.a[0] if x.k == 'and' else (x,)


def _eqs(facts):
    return [f.a[0] for f in facts if f.k == 'eq0']


def _eq_closure(facts, p):
    """is p==0 implied by linear combination of equality facts (Gaussian elimination)"""
    basis = []

    def lead(d):
        ms = [m for m in d if m != ()]
        if not ms:
            return None
        return max(ms, key=lambda m: tuple((a.n, e) for a, e in m))

    def reduce(d):
        d = dict(d)
        for lm, b in basis:
            c = d.get(lm)
            if c:
                for m, x in b.items():
                    d[m] = d.get(m, 0) - c * x
        return {m: c for m, c in d.items() if c != 0}
    for q in _eqs(facts):
        d = reduce(poly_of(q))
        lm = lead(d)
        if lm is None:
            continue
        c = d[lm]
        d = {m: x / c for m, x in d.items()}
        nb = []
        for l2, b in basis:
            x = b.get(lm)
            if x:
                b = {m: b.get(m, 0) - x * d.get(m, 0) for m in set(b) | set(d)}
                b = {m: v for m, v in b.items() if v != 0}
            nb.append((l2, b))
        basis = nb + [(lm, d)]
    r = reduce(poly_of(p))
    return not r


def _le_prove(facts, g, depth):
    """g <= 0 ?"""
    p = poly_of(g)
    # all monomials non-positive?
    if all((m == () and c <= 0) or (m != () and c <= 0 and all(e % 2 == 0 or nonneg_atom(a, facts) for a, e in m)) for m, c in p.items()):
        return True
    if depth > 4:
        return False
    # rewrite with equalities
    if depth == 0:
        for q in _eqs(facts):
            for m, c in poly_of(q).items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0] in atoms(g):
                    a = m[0][0]
                    rep = from_poly({mm: -cc / c for mm, cc in poly_of(q).items() if mm != m})
                    if a in atoms(rep):
                        continue
                    if _le_prove(facts, subst_atom(g, a, rep), 1):
                        return True
    # eliminate a positive monomial with an upper bound fact
    for f in facts:
        if f.k != 'le0':
            continue
        q = poly_of(f.a[0])
        for m, c in p.items():
            if m == () or c <= 0:
                continue
            # find fact monomial dividing m with positive coeff
            for fm, fc in q.items():
                if fm == () or fc <= 0:
                    continue
                rem = _mono_div(m, fm)
                if rem is None:
                    continue
                if not all(e % 2 == 0 or nonneg_atom(a, facts) for a, e in rem):
                    continue
                k = c / fc
                # g - k*rem*q  : need <=0
                ng = dict(p)
                for qm, qc in q.items():
                    mm = mono_mul(qm, rem)
                    ng[mm] = ng.get(mm, 0) - k * qc
                if _le_prove(facts, from_poly(ng), depth + 1):
                    return True
    # iv bounds
    for m, c in p.items():
        for a, e in m:
            if a.k == 'iv' and e == 1:
                rest = _mono_div(m, ((a, 1),))
                if not all(ee % 2 == 0 or nonneg_atom(x, facts) for x, ee in rest):
                    continue
                b = a.a[2] if c > 0 else a.a[1]
                if not isinstance(b, T) or b is UNK:
                    continue
                if c > 0:
                    b = sub(b, ONE)
                ng = dict(p)
                del ng[m]
                repl = mul(b, from_poly({rest: c}))
                ng2 = from_poly(ng)
                if _le_prove(facts, add(ng2, repl), depth + 1):
                    return True
    return False


def _mono_div(m, d):
    r = dict(m)
    for a, e in d:
        if r.get(a, 0) < e:
            return None
        r[a] -= e
    return tuple(sorted(((a, e) for a, e in r.items() if e), key=lambda x: x[0].n))


def subst_atom(t, a, r):
    out = ZERO
    for m, c in poly_of(t).items():
        x = const(c)
        for b, e in m:
            y = r if b is a else b
            for _ in range(e):
                x = mul(x, y)
        out = add(out, x)
    return out
