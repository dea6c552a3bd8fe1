"""Flow of command-line arguments: an abstract interpreter for the command-line program.

It follows lists of strings (command arguments, token lists, argv) through locals, filtered copies, closures, helper functions and
the generic handler classes.  The domain is, per path, an interval of every list's length, the relation of integer variables to
those lengths, and the list position a string value came from.  A state set is kept per program point (bounded; states that have
to be merged poison the lists on which they differ).  Nothing is executed: branch conditions on lengths split the states, all
other conditions are taken both ways.
"""
import re
from lib import *
from lifetime import dp, strip

INF = 10 ** 9
CAP = 48
LIST = re.compile(r'(span|vector|deque|list|array)<\s*(const )?(std::)?(basic_)?string(_view)?\b')
SIZEF = ('std::ranges::size', 'std::size', 'std::ranges::ssize', 'std::ssize', 'std::ranges::distance')
EMPTYF = ('std::ranges::empty', 'std::empty')
PASSF = ('std::forward', 'std::move', 'std::as_const', 'std::ref', 'std::cref')
MUT_MIN0 = ('erase', 'assign', 'swap', 'remove', 'remove_if', 'unique')


class St:
    __slots__ = ('v', 'mn', 'mx', 'rel', 'p', 'said', 'used', 'note')

    def __init__(self, o=None):
        if o is None:
            self.v, self.mn, self.mx, self.rel, self.p, self.said, self.used, self.note = {}, {}, {}, {}, frozenset(), False, False, frozenset()
        else:
            self.v, self.mn, self.mx, self.rel, self.p, self.said, self.used, self.note = dict(o.v), dict(o.mn), dict(o.mx), dict(o.rel), o.p, o.said, o.used, o.note

    def lo(self, k):
        r = self.mn.get(k, 0)
        if isinstance(k, tuple) and len(k) == 2 and k[1] in ('back', 'front') and isinstance(k[0], tuple) and k[0][0] == 'var':
            r = max(r, self.mn.get(('elem', k[0][1]), 0))
        return r

    def hi(self, k):
        return self.mx.get(k, INF)

    def key(self):
        return (frozenset((i, vkey(x)) for i, x in self.v.items() if x is not None), frozenset(x for x in self.mn.items() if x[1]), frozenset(x for x in self.mx.items() if x[1] < INF),
                frozenset(self.rel.items()), self.p, self.said, self.used, self.note)

    def bound(self, k, lo=None, hi=None):
        """this state with lo <= |k| <= hi; None when that is impossible"""
        a, b = max(self.lo(k), lo if lo is not None else 0), min(self.hi(k), hi if hi is not None else INF)
        if a > b:
            return None
        if a == self.lo(k) and b == self.hi(k):
            return self
        s = St(self)
        s.mn[k], s.mx[k] = a, b
        return s

    def setlen(self, k, a, b):
        s = St(self)
        s.mn[k], s.mx[k] = a, b
        s.rel = {x: o for x, o in s.rel.items() if x[1] != k}
        s.p = s.p - {k}
        s.v = {i: (None if x is not None and x[0] == 'size' and x[1] == k else x) for i, x in s.v.items()}
        return s

    def poison(self, ks):
        ks = frozenset(ks)
        if not ks - self.p:
            return self
        s = St(self)
        s.p = s.p | ks
        return s


def vkey(x):
    if x is None:
        return None
    if x[0] in ('lam', 'fn'):
        return (x[0], id(x[1]))
    if x[0] == 'obj':
        return ('obj', x[1], tuple(sorted(x[2].items())), tuple(sorted((k, vkey(v)) for k, v in x[3].items())))
    return x


def merge(a, b):
    s = St()
    for i in a.v.keys() & b.v.keys():
        if vkey(a.v[i]) == vkey(b.v[i]):
            s.v[i] = a.v[i]
    bad = set(a.p | b.p)
    for k in set(a.mn) | set(b.mn) | set(a.mx) | set(b.mx):
        s.mn[k], s.mx[k] = min(a.lo(k), b.lo(k)), max(a.hi(k), b.hi(k))
        if a.lo(k) != b.lo(k):
            bad.add(k)
    s.rel = {x: min(a.rel[x], b.rel[x]) for x in a.rel.keys() & b.rel.keys()}
    s.p = frozenset(bad)
    s.said, s.used, s.note = a.said or b.said, a.used or b.used, a.note | b.note
    return s


def norm(sts):
    seen, out = set(), []
    for s in sts:
        if s is None:
            continue
        k = s.key()
        if k not in seen:
            seen.add(k)
            out.append(s)
    if len(out) > CAP:
        m = out[0]
        for s in out[1:]:
            m = merge(m, s)
        out = [m]
    return out


_ids = {}


def ids(n):
    """ids of the variables mentioned below n"""
    if isinstance(n, list):
        r = frozenset()
        for x in n:
            r |= ids(x)
        return r
    if not isinstance(n, dict):
        return frozenset()
    h = id(n)
    if h in _ids:
        return _ids[h][1]
    r = set()
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if x.get('k') in ('ref', 'mem') and x.get('id') is not None:
                r.add(x['id'])
            if x.get('k') == 'this':
                r.add('this')
            stack.extend(x.values())
        elif isinstance(x, list):
            stack.extend(x)
    r = frozenset(r)
    _ids[h] = (n, r)
    return r


def unwrap(e):
    while e is not None:
        if e['k'] in ('paren',):
            e = e['e']
        elif e['k'] == 'cast':
            e = e['e']
        elif e['k'] == 'ctor' and len(e.get('a') or []) == 1 and e.get('k') == 'ctor':
            return e
        else:
            return e
    return e


class ArgFlow:
    def __init__(self, P):
        self.P = P
        self.events = []       # (kind, data...)
        self.access = {}       # (file, line, text) -> 'ok' | 'bad' | 'unknown', detail
        self.visited = set()   # functions walked (inlined or as root)
        self.failed = set()    # names of functions a call to which could not be followed
        self.rets, self.brk, self.cont = [], [], []
        self.frames = []
        self.depth = 0
        self.hooks = {}
        self.steps = 0

    # ---------------------------------------------------------------- types
    def ty(self, v, tu):
        t = strip(tu.t(v['t'])) if v.get('t') is not None else ''
        c = strip(tu.t(v['ct'])) if v.get('ct') is not None else ''
        return t, c

    def listy(self, v, f):
        t, c = self.ty(v, f.tu)
        if any(LIST.match(re.sub(r'^(const |volatile |std::)+', '', x)) for x in (t, c)):
            return True
        b = re.sub(r'\b(const|volatile)\b|[&\s]|\.\.\.', '', t)
        if re.fullmatch(r'[A-Z]\w*', b):
            if b == 'ArgsContainer':
                return True
            req = f.req() or ''
            tp = [x for x in (f.d.get('tps') or []) if x['n'] == b]
            s = req + ' ' + ' '.join(x.get('s') or '' for x in tp)
            return b in s and 'string' in req and bool(re.search(r'range_value_t<\s*%s\b|range_value_t<std::remove_cvref_t<%s' % (b, b), req))
        return False

    def nested(self, v, f):
        return any(re.match(r'(vector|deque|list)<\s*(std::)?(vector|deque|list)<\s*(std::)?(basic_)?string(_view)?\b', re.sub(r'^(const |volatile |std::)+', '', x)) for x in self.ty(v, f.tu))

    # ---------------------------------------------------------------- values
    def key_of(self, e, st):
        """length key of a list expression"""
        e = unwrap(e)
        if e is None:
            return None
        k = e['k']
        if k in ('ref',) and e.get('id') is not None:
            x = st.v.get(e['id'])
            return x[1] if x is not None and x[0] == 'cont' else None
        if k == 'call' and e.get('f') is not None:
            f = e['f']
            if (f.get('q') or '') in PASSF and e['a']:
                return self.key_of(e['a'][0], st)
            if f['k'] == 'mem' and f.get('n') in ('back', 'front') and not e['a']:
                b = self.path(f.get('b'), st)
                x = st.v.get(b[1]) if b is not None and b[0] == 'var' else None
                return (('var', x[1]), f['n']) if x is not None and x[0] == 'nest' else None
        if k == 'mem' and e.get('dk') != 'func':
            b = self.path(e.get('b'), st)
            if b is not None:
                kk = (b, e['n'])
                if kk in st.mn or kk in st.p or self.path_list(e):
                    return kk
        if k == 'ctor' and len(e.get('a') or []) == 1:
            return self.key_of(e['a'][0], st)
        return None

    def path_list(self, e):
        return False

    def path(self, e, st):
        e = unwrap(e)
        if e is None:
            return None
        if e['k'] == 'ref' and e.get('id') is not None:
            return ('var', e['id'])
        if e['k'] == 'mem' and e.get('dk') != 'func':
            b = self.path(e.get('b'), st)
            return (b, e['n']) if b is not None else None
        if e['k'] == 'un' and e['op'] in ('*', '->'):
            return self.path(e['e'], st)
        return None

    def num(self, e, st):
        """('c', n) | ('size', key, off) | ('vp', id, off) | None"""
        e = unwrap(e)
        if e is None:
            return None
        k = e['k']
        if k == 'int':
            try:
                return ('c', int(str(e['v']), 0))
            except ValueError:
                return None
        if k == 'bool':
            return ('c', 1 if e['v'] in (True, 'true', 1) else 0)
        if k == 'ref':
            if e.get('dk') == 'nttp':
                for fr in reversed(self.frames):
                    if e['n'] in fr['nttp']:
                        return ('c', fr['nttp'][e['n']])
                return None
            x = st.v.get(e.get('id'))
            if x is not None and x[0] in ('c', 'size'):
                return x
            if x is not None:
                return None
            if e.get('dk') == 'gvar':
                g = self.gvar(e)
                return self.num(g, St()) if g is not None else None
            return ('vp', e['id'], 0) if e.get('id') is not None else None
        if k == 'mem':
            x = self.field(e, st)
            return x if x is not None and x[0] in ('c', 'size') else None
        if k in ('ctor', 'init') and len(e.get('a') or []) == 1:
            return self.num(e['a'][0], st)
        if k == 'un' and e['op'] == '-':
            x = self.num(e['e'], st)
            return ('c', -x[1]) if x is not None and x[0] == 'c' else None
        if k == 'bin' and e['op'] in ('+', '-', '*'):
            a, b = self.num(e['lh'], st), self.num(e['rh'], st)
            if a is None or b is None:
                return None
            if e['op'] == '*':
                return ('c', a[1] * b[1]) if a[0] == b[0] == 'c' else None
            s = 1 if e['op'] == '+' else -1
            if b[0] == 'c':
                return ('c', a[1] + s * b[1]) if a[0] == 'c' else (a[0], a[1], a[2] + s * b[1])
            if a[0] == 'c' and s == 1:
                return (b[0], b[1], b[2] + a[1])
            return None
        if k == 'call' and e.get('f') is not None:
            f = e['f']
            if (f.get('q') or '') in SIZEF and len(e['a']) == 1:
                kk = self.key_of(e['a'][0], st)
                return ('size', kk, 0) if kk is not None else None
            if f['k'] == 'mem' and f.get('n') in ('size', 'ssize', 'length') and not e['a']:
                kk = self.key_of(f.get('b'), st)
                return ('size', kk, 0) if kk is not None else None
        return None

    def gvar(self, e):
        c = [g for (fl, ln, n), (g, tu) in self.P.gvars.items() if n == e['n'] and (g.get('const') or g.get('constexpr')) and g.get('init') is not None]
        return c[0]['init'] if len(c) == 1 else None

    def field(self, e, st):
        if e.get('b') is not None and unwrap(e['b'])['k'] == 'this':
            for fr in reversed(self.frames):
                if fr.get('this') is not None:
                    return fr['this'][3].get(e['n'])
        return None

    def val(self, e, st):
        """abstract value of an expression (no side effects)"""
        e = unwrap(e)
        if e is None:
            return None
        k = e['k']
        x = self.num(e, st)
        if x is not None and x[0] in ('c', 'size'):
            return x
        kk = self.key_of(e, st)
        if kk is not None and k != 'ctor':
            return ('cont', kk)
        if k == 'ref':
            if e.get('id') in st.v:
                return st.v[e['id']]
            if e.get('dk') in ('ovl', 'func'):
                return ('fn', e)
            if e.get('dk') == 'gvar' and e.get('n') == 'nullopt':
                return ('null',)
            return None
        if k == 'lambda':
            return ('lam', e, self.frames[-1]['f'] if self.frames else None)
        if k == 'mem':
            return self.field(e, st)
        if k == 'null':
            return ('null',)
        if k == 'idx':
            kk = self.key_of(e['b'], st)
            if kk is not None:
                n = self.num(e['i'], st)
                return ('arg', kk, n[1] if n is not None and n[0] == 'c' else None)
            b = self.val(e['b'], st)
            if b is not None and b[0] == 'nest':
                return ('elem', b[1])
            return None
        if k == 'cond':
            a, b = self.val(e['x'], st), self.val(e['y'], st)
            return a if vkey(a) == vkey(b) else (a if b is None and a is not None and a[0] == 'arg' else b if a is None and b is not None and b[0] == 'arg' else None)
        if k == 'call' and e.get('f') is not None:
            f = e['f']
            q = f.get('q') or f.get('n') or ''
            if q in PASSF and e['a']:
                return self.val(e['a'][0], st)
            if f['k'] == 'mem' and f.get('n') in ('substr', 'at', 'front', 'back', 'data', 'c_str', 'str', 'value', 'get'):
                kk = self.key_of(f.get('b'), st)
                if kk is not None:
                    if f['n'] == 'at' and e['a']:
                        n = self.num(e['a'][0], st)
                        return ('arg', kk, n[1] if n is not None and n[0] == 'c' else None)
                    if f['n'] == 'front':
                        return ('arg', kk, 0)
                    return None
                b = self.val(f.get('b'), st)
                return b if b is not None and b[0] == 'arg' and f['n'] != 'at' else None
            if f['k'] == 'mem' and (f.get('n') or '').startswith('operator ') and not e['a']:
                return self.val(f.get('b'), st)
            if e['a'] and q.split('::')[-1] in ('sanitize_string_view', 'string', 'string_view', 'path', 'trim'):
                b = self.val(e['a'][0], st)
                return b if b is not None and b[0] == 'arg' else None
            return self.objval(e, st)
        if k in ('ctor', 'init'):
            a = e.get('a') or []
            o = self.objval(e, st)
            if o is not None:
                return o
            if len(a) == 1:
                b = self.val(a[0], st)
                return b if b is not None and b[0] in ('arg', 'c', 'null', 'lam', 'obj', 'fn') else None
            return None
        return None

    # ------------------------------------------------- objects of the generic handler classes
    def callee(self, e):
        """candidate functions of a call"""
        f = e.get('f')
        r = []
        if e.get('fk'):
            g = self.P.bykey.get(e['fk'])
            if g:
                r.append(g)
        if f is not None:
            if f.get('fk') and self.P.bykey.get(f['fk']):
                r.append(self.P.bykey[f['fk']])
            for c in f.get('cands') or []:
                g = self.P.bykey.get(c)
                if g:
                    r.append(g)
        out = []
        for g in r:
            for h in (g if isinstance(g, list) else [g]):
                if h.body is not None and h not in out:
                    out.append(h)
        n = len(e.get('a') or [])
        ok = [g for g in out if any(p.get('pack') for p in g.params) or (len(g.params) >= n and sum(1 for p in g.params if p.get('def') is None) <= n)]
        return ok

    def targs(self, e, g):
        ta = (e.get('f') or {}).get('ta') or []
        r = {}
        for t, a in zip(g.d.get('tps') or [], ta):
            if t['k'] == 'nttp':
                n = self.intarg(a)
                if n is not None:
                    r[t['n']] = n
        return r

    def intarg(self, a):
        a = str(a).strip()
        if re.fullmatch(r'\d+[uUlLzZ]*', a):
            return int(re.match(r'\d+', a).group())
        for fr in reversed(self.frames):
            if a in fr['nttp']:
                return fr['nttp'][a]
        c = [g for (fl, ln, n), (g, tu) in self.P.gvars.items() if n == a and g.get('init') is not None]
        if len(c) == 1:
            x = self.num(c[0]['init'], St())
            if x is not None and x[0] == 'c':
                return x[1]
        return None

    def objval(self, e, st):
        """value of an expression constructing an object of a class with a call operator"""
        if e['k'] == 'call':
            gs = self.callee(e)
            if len(gs) != 1:
                return None
            g = gs[0]
            s = g.body.get('s') or []
            if len(s) != 1 or s[0]['k'] != 'return' or s[0].get('e') is None:
                return None
            r = unwrap(s[0]['e'])
            if r['k'] not in ('ctor', 'init', 'call') or len(self.frames) > 12:
                return None
            if r['k'] == 'call' and not self.callee(r):
                return None
            st2 = St(st)
            for p, a in zip(g.params, e['a']):
                x = self.val(a, st)
                if x is not None and 'id' in p:
                    st2.v[p['id']] = x
            self.frames.append({'nttp': self.targs(e, g), 'f': g})
            try:
                return self.objval(r, st2)
            finally:
                self.frames.pop()
        f = self.frames[-1]['f'] if self.frames else None
        t = None
        for key in ('tt', 't'):
            if e.get(key) is not None and f is not None:
                x = strip(f.tu.t(e[key]))
                if x and x != '<dependent type>':
                    t = x
                    break
        if t is None:
            return None
        m = re.match(r'(?:const )?(?:\w+::)*(\w+)\s*(?:<(.*)>)?$', t)
        if not m or m.group(1) not in self.P.recs:
            return None
        cls = m.group(1)
        rec, tu = self.P.recs[cls]
        if not [g for g in self.P.funcs if g.name == 'operator()' and g.d.get('cls') == cls]:
            return None
        a = e.get('a') or []
        if len(a) == 1 and a[0]['k'] == 'init':
            a = a[0]['a']
        fl = {}
        for x, y in zip(rec['fields'], a):
            fl[x['n']] = self.val(y, st)
        nt = {}
        if m.group(2):
            first = re.split(r',', m.group(2))[0]
            n = self.intarg(first)
            if n is not None:
                nt['*'] = n
        return ('obj', cls, nt, fl)

    # ---------------------------------------------------------------- conditions
    def cond(self, e, sts):
        """-> (states where e holds, states where it does not)"""
        T, F = [], []
        for st in sts:
            t, f = self.cond1(e, st)
            T += t
            F += f
        return norm(T), norm(F)

    def cond1(self, e, st):
        e0 = e
        e = unwrap(e)
        if e is None:
            return [st], []
        k = e['k']
        if k == 'un' and e['op'] == '!':
            t, f = self.cond1(e['e'], st)
            return f, t
        if k == 'bin' and e['op'] in ('&&', 'and'):
            t, f = self.cond([e['lh']][0], [st])
            t2, f2 = self.cond(e['rh'], t)
            return t2, f + f2
        if k == 'bin' and e['op'] in ('||', 'or'):
            t, f = self.cond(e['lh'], [st])
            t2, f2 = self.cond(e['rh'], f)
            return t + t2, f2
        if k == 'bool':
            v = e['v'] in (True, 'true', 1)
            return ([st], []) if v else ([], [st])
        if k == 'bin' and e['op'] in ('<', '>', '<=', '>=', '==', '!='):
            sts = self.expr(e['lh'], [st])
            sts = self.expr(e['rh'], sts)
            T, F = [], []
            for s in sts:
                t, f = self.compare(e['op'], e['lh'], e['rh'], s)
                T += t
                F += f
            return T, F
        if k == 'call' and e.get('f') is not None:
            f = e['f']
            if (f.get('q') or '') in EMPTYF and len(e['a']) == 1:
                kk = self.key_of(e['a'][0], st)
                if kk is not None:
                    return self.opt(st.bound(kk, hi=0)), self.opt(st.bound(kk, lo=1))
            if f['k'] == 'mem' and f.get('n') == 'empty' and not e['a']:
                kk = self.key_of(f.get('b'), st)
                if kk is not None:
                    return self.opt(st.bound(kk, hi=0)), self.opt(st.bound(kk, lo=1))
            if f['k'] == 'mem' and f.get('n') == 'has_value':
                return self.truth(f.get('b'), st)
            T, F = [], []
            for s, rv in self.call(e, st, True):
                if rv is not None and rv[0] == 'c':
                    (T if rv[1] else F).append(s)
                elif rv is not None and rv[0] == 'null':
                    F.append(s)
                elif rv is not None and rv[0] in ('some', 'cont'):
                    T.append(s)
                else:
                    T.append(s)
                    F.append(s)
            return T, F
        n = self.num(e, st)
        if n is not None:
            if n[0] == 'c':
                return ([st], []) if n[1] else ([], [st])
            if n[0] == 'size':
                return self.opt(st.bound(n[1], lo=1 - n[2])), self.opt(st.bound(n[1], hi=-n[2]))
            return self.truth(e, st)
        if k in ('ref', 'un', 'mem'):
            return self.truth(e, st)
        sts = self.expr(e, [st])
        sts = [self.uncertain(e, s) for s in sts]
        return sts, sts

    def opt(self, s):
        return [s] if s is not None else []

    def truth(self, e, st):
        e = unwrap(e)
        x = self.val(e, st) if e is not None else None
        if x is not None:
            if x[0] == 'c':
                return ([st], []) if x[1] else ([], [st])
            if x[0] == 'null':
                return [], [st]
            if x[0] in ('some', 'lam', 'fn', 'obj'):
                return [st], []
            if x[0] == 'about':
                s = st.poison(x[1])
                return [s], [s]
        s = self.uncertain(e, st)
        return [s], [s]

    def uncertain(self, e, st):
        """a condition the domain cannot read: lists whose length it may depend on become undecided"""
        ks = set()
        for i in ids(e):
            x = st.v.get(i)
            if x is None:
                continue
            if x[0] in ('cont', 'size'):
                ks.add(x[1])
            if x[0] == 'about':
                ks |= x[1]
        # element reads (args[0] == "x") say nothing about the length beyond the access itself
        if ks:
            ks -= self.only_elements(e, st)
        return st.poison(ks) if ks else st

    def only_elements(self, e, st):
        bare = set()
        elem = set()

        def go(n):
            if isinstance(n, list):
                for x in n:
                    go(x)
                return
            if not isinstance(n, dict):
                return
            if n.get('k') == 'idx':
                kk = self.key_of(n['b'], st)
                if kk is not None:
                    elem.add(kk)
                    go(n['i'])
                    return
            if n.get('k') == 'ref' and n.get('id') is not None:
                x = st.v.get(n['id'])
                if x is not None and x[0] in ('cont', 'size'):
                    bare.add(x[1])
                return
            for v in n.values():
                go(v)
        go(e)
        return elem - bare

    def compare(self, op, l, r, st):
        a, b = self.num(l, st), self.num(r, st)
        if a is not None and b is not None:
            if a[0] == 'c' and b[0] == 'c':
                v = {'<': a[1] < b[1], '>': a[1] > b[1], '<=': a[1] <= b[1], '>=': a[1] >= b[1], '==': a[1] == b[1], '!=': a[1] != b[1]}[op]
                return ([st], []) if v else ([], [st])
            if b[0] == 'size' and a[0] != 'size':
                a, b = b, a
                op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            if a[0] == 'size' and b[0] == 'c':
                k, n = a[1], b[1] - a[2]
                if op == '<':
                    return self.opt(st.bound(k, hi=n - 1)), self.opt(st.bound(k, lo=n))
                if op == '<=':
                    return self.opt(st.bound(k, hi=n)), self.opt(st.bound(k, lo=n + 1))
                if op == '>':
                    return self.opt(st.bound(k, lo=n + 1)), self.opt(st.bound(k, hi=n))
                if op == '>=':
                    return self.opt(st.bound(k, lo=n)), self.opt(st.bound(k, hi=n - 1))
                eq = self.opt(st.bound(k, lo=n, hi=n))
                ne = []
                if st.lo(k) == n:
                    ne = self.opt(st.bound(k, lo=n + 1))
                elif st.hi(k) == n:
                    ne = self.opt(st.bound(k, hi=n - 1))
                else:
                    ne = self.opt(st.bound(k, hi=n - 1)) + self.opt(st.bound(k, lo=n + 1))
                return (eq, ne) if op == '==' else (ne, eq)
            if a[0] == 'size' and b[0] == 'vp':
                # size + c  op  i + d
                k, i, d = a[1], b[1], b[2] - a[2]
                if op in ('>', '<='):
                    t = St(st)
                    t.rel[(i, k)] = d
                    t.mn[k] = max(t.lo(k), 1) if d >= 0 else t.lo(k)
                    return ([t], [st]) if op == '>' else ([st], [t])
                if op in ('>=', '<'):
                    t = St(st)
                    t.rel[(i, k)] = d - 1
                    return ([t], [st]) if op == '>=' else ([st], [t])
                if op in ('==', '!='):
                    # i == size: on the other side of a counting loop i stays below the size
                    t = St(st)
                    if d == 0:
                        t.rel[(i, k)] = 0
                    s = st
                    return ([s], [t]) if op == '==' else ([t], [s])
            if a[0] == 'size' and b[0] == 'size' and a[1] == b[1]:
                return self.compare(op, {'k': 'int', 'v': str(a[2])}, {'k': 'int', 'v': str(b[2])}, st)
        # comparison of an optional or pointer with null, of a status value with a constant
        for x, y in ((l, r), (r, l)):
            yv = self.val(y, st)
            xv = self.val(x, st)
            if op in ('==', '!=') and yv is not None and yv[0] == 'null' and xv is not None and xv[0] in ('null', 'some'):
                eq = xv[0] == 'null'
                return ([st], []) if eq == (op == '==') else ([], [st])
        s = self.uncertain({'k': 'bin', 'lh': l, 'rh': r, 'op': op}, st)
        return [s], [s]

    # ---------------------------------------------------------------- expressions
    def interesting(self, n, st):
        for i in ids(n):
            if i == 'this':
                if any(fr.get('this') is not None for fr in self.frames):
                    return True
            elif st.v.get(i) is not None:
                return True
        return False

    def expr(self, e, sts):
        if e is None:
            return sts
        out = []
        for s in sts:
            out += self.expr1(e, s)
        return norm(out)

    def expr1(self, e, st):
        if isinstance(e, list):
            r = [st]
            for x in e:
                r = self.expr(x, r)
            return r
        if not isinstance(e, dict) or 'k' not in e:
            return [st]
        k = e['k']
        if k in ('int', 'str', 'bool', 'ref', 'this', 'null', 'char', 'float'):
            return [st]
        self.steps += 1
        if k in ('paren', 'cast'):
            return self.expr1(e['e'], st)
        h = self.hooks.get('node')
        if h is not None:
            r = h(e, st)
            if r is not None:
                return r
        if k == 'lambda':
            return self.closure(e, st)
        if k in ('bin',) and e['op'] in ('&&', '||', 'and', 'or'):
            t, f = self.cond1(e, st)
            return norm(t + f)
        if k == 'cond':
            t, f = self.cond1(e['c'], st)
            return norm(self.expr(e['x'], t) + self.expr(e['y'], f))
        if k == 'bin' and e['op'] == '<<':
            r = self.expr(e['lh'], [st])
            r = self.expr(e['rh'], r)
            if self.stream(e):
                r2 = []
                for s in r:
                    if not s.said:
                        s = St(s)
                        s.said = True
                    r2.append(s)
                r = r2
            return r
        if k == 'bin' and e['op'] in ('=', '+=', '-=', '*=', '/='):
            r = self.expr(e['rh'], self.expr(e['lh'] if unwrap(e['lh'])['k'] != 'ref' else None, [st]))
            return [self.assign(e['lh'], e['op'], e['rh'], s) for s in r]
        if k == 'un' and e['op'] in ('++', '--', 'post++', 'post--', 'p++', 'p--') or k == 'un' and e.get('op', '').strip('post').strip('p') in ('++', '--'):
            r = self.expr(e['e'], [st])
            d = 1 if '+' in e['op'] else -1
            return [self.bump(e['e'], d, s) for s in r]
        if k == 'idx':
            r = self.expr(e['i'], self.expr(e['b'] if unwrap(e['b'])['k'] != 'ref' else None, [st]))
            return [self.index(e, e['b'], e['i'], s) for s in r]
        if k == 'un' and e['op'] == '*':
            b = unwrap(e['e'])
            if b['k'] == 'call' and b.get('f') is not None and (b['f'].get('n') in ('begin', 'cbegin')):
                src = b['f'].get('b') if b['f']['k'] == 'mem' else (b['a'][0] if b['a'] else None)
                if self.key_of(src, st) is not None:
                    return [self.index(e, src, {'k': 'int', 'v': '0'}, st)]
            return self.expr1(e['e'], st)
        if k == 'call':
            if not self.interesting(e, st) and not self.must(e):
                return [self.mark(e, st)]
            return norm([s for s, _ in self.call(e, st, False)])
        if k == 'throw':
            self.expr1(e.get('e'), st) if e.get('e') else None
            return []
        # generic
        r = [st]
        for key in ('b', 'f', 'lh', 'rh', 'e', 'a', 'i', 'c', 'x', 'y'):
            if key in e and e[key] is not None and isinstance(e[key], (dict, list)):
                r = self.expr(e[key], r)
        return r

    def stream(self, e):
        while e is not None and e['k'] == 'bin' and e['op'] == '<<':
            e = unwrap(e['lh'])
        if e is None or e['k'] not in ('ref', 'mem', 'call', 'un'):
            return False
        if (e.get('q') or '') in ('std::cout', 'std::cerr', 'std::clog'):
            return True
        f = self.frames[-1]['f'] if self.frames else None
        t = strip(f.tu.t(e['t'])) if f is not None and e.get('t') is not None else ''
        return 'ostream' in t or e.get('n') in ('os', 'out', 'err')

    def isstream(self, a):
        a = unwrap(a)
        return a is not None and a['k'] in ('ref', 'mem') and self.stream(a)

    def mark(self, e, st):
        """a call that may print"""
        if not st.said and any(self.isstream(a) for a in e.get('a') or []) or not st.said and e.get('f') is not None and re.search(r'::(print|println|printf|puts)$|^(printf|puts)$', e['f'].get('q') or e['f'].get('n') or ''):
            s = St(st)
            s.said = True
            return s
        return st

    def assign(self, l, op, r, st):
        l = unwrap(l)
        if l['k'] == 'ref' and l.get('id') is not None:
            i = l['id']
            x = st.v.get(i)
            s = St(st)
            s.rel = {a: o for a, o in s.rel.items() if a[0] != i}
            if x is not None and x[0] == 'cont':
                src = self.key_of(r, st) if op == '=' else None
                s = s.setlen(x[1], st.lo(src) if src is not None else 0, st.hi(src) if src is not None else INF)
                if src is None:
                    n = self.listlen(r, st)
                    s = s.setlen(x[1], n[0], n[1]) if n is not None else s.poison([x[1]])
                elif src in st.p:
                    s = s.poison([x[1]])
                return s
            if op == '=':
                v = self.val(r, st)
                if v is None:
                    ks = self.about(r, st)
                    v = ('about', frozenset(ks)) if ks else None
                s.v[i] = v
                n = self.num(r, st)
                if n is not None and n[0] == 'vp':
                    for (j, kk), o in st.rel.items():
                        if j == n[1]:
                            s.rel[(i, kk)] = o - n[2]
            else:
                n = self.num(r, st)
                if x is not None and x[0] == 'c' and n is not None and n[0] == 'c' and op in ('+=', '-='):
                    s.v[i] = ('c', x[1] + (n[1] if op == '+=' else -n[1]))
                else:
                    s.v[i] = None
            return s
        return st

    def about(self, e, st):
        ks = set()
        for i in ids(e):
            x = st.v.get(i)
            if x is not None and x[0] in ('cont', 'size'):
                ks.add(x[1])
            if x is not None and x[0] == 'about':
                ks |= x[1]
        return ks - self.only_elements(e, st) if ks else ks

    def bump(self, e, d, st):
        e = unwrap(e)
        if e['k'] == 'ref' and e.get('id') is not None:
            i = e['id']
            s = St(st)
            x = s.v.get(i)
            if x is not None and x[0] == 'c':
                s.v[i] = ('c', x[1] + d)
            elif x is not None and x[0] == 'size':
                s.v[i] = ('size', x[1], x[2] + d)
            s.rel = {a: (o - d if a[0] == i else o) for a, o in s.rel.items()}
            return s
        return st

    # ---------------------------------------------------------------- accesses
    def index(self, node, b, i, st):
        kk = self.key_of(b, st)
        if kk is None:
            return st
        n = self.num(i, st)
        f = self.frames[-1]['f']
        name = (unwrap(b).get('n') or '?')
        if n is not None and n[0] == 'c':
            txt = '%s[%d]' % (name, n[1])
            if n[1] < st.lo(kk):
                self.note(f, node, txt, 'ok', None)
            elif n[1] < 0:
                self.note(f, node, txt, 'unknown', None)
            elif kk in st.p:
                self.note(f, node, txt, 'unknown', None)
            else:
                self.note(f, node, txt, 'bad', 'uses `%s` although the list may hold only %d element%s here' % (txt, min(st.lo(kk), n[1]), '' if st.lo(kk) == 1 else 's'))
            # afterwards the element exists (the report was made)
            s = st.bound(kk, lo=n[1] + 1) or st
        elif n is not None and n[0] == 'size':
            txt = '%s[size%+d]' % (name, n[2])
            if n[1] == kk:
                if n[2] >= 0:
                    self.note(f, node, txt, 'bad', 'uses `%s[size%+d]`, which is past the end' % (name, n[2]))
                elif st.lo(kk) >= -n[2]:
                    self.note(f, node, txt, 'ok', None)
                elif kk in st.p:
                    self.note(f, node, txt, 'unknown', None)
                else:
                    self.note(f, node, txt, 'bad', 'uses `%s[size%+d]` although the list may hold only %d elements here' % (name, n[2], st.lo(kk)))
            else:
                self.note(f, node, txt, 'unknown', None)
            s = st
        elif n is not None and n[0] == 'vp':
            o = st.rel.get((n[1], kk))
            txt = '%s[var%+d]' % (name, n[2])
            if o is not None and o >= n[2]:
                self.note(f, node, txt, 'ok', None)
            elif o is not None and kk not in st.p and st.note and ('counter', n[1]) in st.note:
                self.note(f, node, txt, 'bad', 'uses `%s[i%+d]` where only i%+d is known to be inside the list' % (name, n[2], o))
            else:
                self.note(f, node, txt, 'unknown', None)
            s = st
        else:
            self.note(f, node, '%s[?]' % name, 'unknown', None)
            s = st
        if not s.used:
            s = St(s)
            s.used = True
        return s

    def note(self, f, node, txt, verdict, msg):
        k = (f.file, node.get('l') or f.line, txt, f.name)
        o = self.access.get(k)
        rank = {'ok': 0, 'unknown': 1, 'bad': 2}
        if o is None or rank[verdict] > rank[o[0]]:
            self.access[k] = (verdict, msg, f)

    # ---------------------------------------------------------------- closures and calls
    def closure(self, e, st):
        """the body of a lambda may run with this state (or later): its accesses are checked here too, unless it takes the list as a parameter"""
        f = self.frames[-1]['f']
        if any(self.listy(p, f) for p in e.get('params') or []):
            return [st]
        if not self.interesting(e.get('body'), st):
            return [st]
        s = St(st)
        # the counters of enclosing loops may have moved on
        for p in e.get('params') or []:
            s.v.pop(p.get('id'), None)
        self.rets.append([])
        self.brk.append([])
        self.cont.append([])
        self.block(e.get('body'), [s])
        self.rets.pop()
        self.brk.pop()
        self.cont.pop()
        return [st]

    def call(self, e, st, cond):
        """-> [(state, return value)]"""
        f = e.get('f')
        a = e.get('a') or []
        if f is None:
            r = self.expr(a, [st])
            return [(s, None) for s in r]
        q = f.get('q') or f.get('n') or ''
        h = self.hooks.get('call')
        if h is not None:
            h(e, st)
        # list members
        if f['k'] == 'mem':
            kk = self.key_of(f.get('b'), st)
            if kk is not None:
                r = self.expr(a, [st])
                return [(self.member(e, f, kk, a, s), self.val(e, s)) for s in r]
            b = self.val(f.get('b'), st) if f.get('b') is not None else None
            if b is not None and b[0] == 'nest':
                out = []
                pre = [self.key_of(x, st) for x in a]
                pre = [st.lo(x) if x not in st.p else None for x in pre if x is not None]
                for s in self.expr(a, [st]):
                    if f.get('n') in self.GROW:
                        s = St(s)
                        n = self.listlen(a[-1], s) if a and not pre else None
                        ek = ('elem', b[1])
                        if pre and None not in pre:
                            s.mn[ek] = min(s.mn.get(ek, INF), min(pre))
                        elif n is not None:
                            s.mn[ek] = min(s.mn.get(ek, INF), n[0])
                        else:
                            s.p = s.p | {ek}
                    elif f.get('n') not in ('pop_back', 'pop_front', 'clear', 'erase', 'size', 'empty', 'back', 'front', 'reserve', 'begin', 'end', 'cbegin', 'cend'):
                        s = s.poison([('elem', b[1])])
                    out.append((s, None))
                return out
        # evaluate the arguments (lambdas passed along are visited as closures)
        target = None
        if f['k'] == 'ref' and f.get('id') is not None and st.v.get(f['id']) is not None:
            target = st.v[f['id']]
        elif f['k'] == 'mem':
            target = self.field(f, st)
        elif f['k'] in ('lambda', 'paren', 'ctor', 'init', 'call'):
            target = self.val(f, st)
        r = [st]
        for x in a:
            r = self.expr(x, r)
        if f['k'] == 'mem' and f.get('b') is not None and target is None:
            r = self.expr(f['b'], r)
        out = []
        many = self.table(f, len(a)) if target is None and f['k'] == 'mem' and f.get('n') == 'second' else []
        for s in r:
            if many:
                # a callable taken from a table of closures: any of them
                for lam in many:
                    out += self.invoke(e, ('lam', lam, self.frames[-1]['f']), a, s)
            else:
                out += self.invoke(e, target, a, s)
        return out

    def table(self, f, n):
        fr = self.frames[-1]
        h = ('tab', id(fr.get('body')), n)
        if h not in _ids:
            r = []
            for x in walk(fr.get('body')) if fr.get('body') is not None else ():
                if x['k'] == 'decl':
                    for v in x['v']:
                        if v.get('init') is not None and 'map' in ' '.join(self.ty(v, fr['f'].tu)):
                            r += [y for y in walk(v['init']) if y['k'] == 'lambda' and len(y.get('params') or []) == n]
            _ids[h] = (fr.get('body'), r[:40])
        return _ids[h][1]

    def invoke(self, e, target, a, s):
        vals = [self.val(x, s) for x in a]
        if target is not None and target[0] == 'lam':
            return self.enter(target[2] or self.frames[-1]['f'], target[1].get('params') or [], target[1]['body'], vals, a, s, {}, None, e)
        if target is not None and target[0] == 'obj':
            gs = [g for g in self.P.funcs if g.name == 'operator()' and g.d.get('cls') == target[1] and g.body is not None]
            gs = [g for g in gs if len(g.params) >= len(a) and sum(1 for p in g.params if p.get('def') is None) <= len(a)]
            out = []
            for g in gs:
                out += self.enter(g, g.params, g.body, vals, a, s, dict(target[2]), target, e)
            if gs:
                return out
        if target is not None and target[0] == 'fn':
            e = {'k': 'call', 'f': target[1], 'a': a}
        gs = self.callee(e)
        f = e.get('f') or {}
        lists = [x[1] for x in vals if x is not None and x[0] == 'cont']
        relevant = lists or any(x is not None and x[0] in ('lam', 'obj', 'fn') for x in vals) or any(x is not None and x[0] == 'arg' for x in vals)
        if gs and relevant and self.depth < 7 and len(gs) <= 3:
            if lists or self.small(gs):
                out = []
                for g in gs:
                    out += self.enter(g, g.params, g.body, vals, a, s, self.targs(e, g), None, e)
                return out
        s = self.mark(e, s)
        if lists:
            q = f.get('q') or f.get('n') or ''
            if not q.startswith('std::'):
                self.failed.add(f.get('n'))
                # may throw for short lists, may change a list handed by reference
                s = s.poison(lists)
                return [(s, None)]
            if q.split('::')[-1] in ('erase', 'erase_if', 'swap', 'exchange', 'move'):
                for kk in lists:
                    s = s.setlen(kk, 0, INF)
            return [(s, ('about', frozenset(lists)))]
        return [(s, None)]

    def must(self, e):
        return False

    def small(self, gs):
        return False

    def enter(self, g, params, body, vals, a, st, nttp, this, e):
        """walk a callee with its parameters bound"""
        if any(fr.get('body') is body for fr in self.frames) or self.depth > 9:
            s = st.poison([x[1] for x in vals if x is not None and x[0] == 'cont'])
            return [(self.mark(e, s), None)]
        self.visited.add(id(body))
        s = St(st)
        nt = dict(nttp)
        if '*' in nt:
            n = nt.pop('*')
            for x in walk(body):
                if x['k'] == 'ref' and x.get('dk') == 'nttp' and x['n'] not in {t['n'] for t in g.d.get('tps') or []}:
                    nt[x['n']] = n
        for j, p in enumerate(params):
            if 'id' not in p:
                continue
            v = vals[j] if j < len(vals) and not p.get('pack') else None
            if v is None and j >= len(vals) and p.get('def') is not None:
                v = self.val(p['def'], St())
            if v is not None and v[0] == 'cont' and re.search(r'\b(vector|ArgsContainer|deque|list)\b', self.ty(p, g.tu)[0]) and '&' not in self.ty(p, g.tu)[0]:
                nk = ('L', p['id'])     # by value: a copy
                s = s.setlen(nk, st.lo(v[1]), st.hi(v[1]))
                if v[1] in st.p:
                    s = s.poison([nk])
                s.note = s.note | {('from', nk, self.origin(v[1], s))}
                v = ('cont', nk)
            if v is None and self.listy(p, g):
                nk = ('L', p['id'])
                s = s.setlen(nk, 0, INF).poison([nk])
                v = ('cont', nk)
            s.v[p['id']] = v
        self.frames.append({'nttp': nt, 'f': g, 'body': body, 'this': this})
        self.depth += 1
        self.rets.append([])
        self.brk.append([])
        self.cont.append([])
        r = self.block(body, [s])
        rets = self.rets.pop()
        self.brk.pop()
        self.cont.pop()
        self.depth -= 1
        self.frames.pop()
        out = [(x, None) for x in r] + rets
        seen, o2 = set(), []
        for x, v in out:
            kx = (x.key(), vkey(v))
            if kx not in seen:
                seen.add(kx)
                o2.append((x, v))
        if len(o2) > CAP:
            by = {}
            for x, v in o2:
                by.setdefault(vkey(v), []).append((x, v))
            o2 = []
            for xs in by.values():
                m = xs[0][0]
                for y, _ in xs[1:]:
                    m = merge(m, y)
                o2.append((m, xs[0][1]))
        return o2

    def origin(self, k, st):
        for n in st.note:
            if n[0] == 'from' and n[1] == k:
                return n[2]
        return k

    def member(self, e, f, kk, a, st):
        n = f.get('n')
        if n in ('front', 'back'):
            return self.index(e, f['b'], {'k': 'int', 'v': '0'}, st)
        if n == 'operator[]' and a:
            return self.index(e, f['b'], a[0], st)
        if n == 'at':
            self.note(self.frames[-1]['f'], e, 'at()', 'ok', None)
            return st
        if n in ('push_back', 'emplace_back', 'emplace', 'insert', 'push_front', 'emplace_front'):
            x = self.val(a[0], st) if n in ('push_back', 'emplace_back') and len(a) == 1 else None
            if x is not None and x[0] == 'arg' and x[2] == 'each':
                st = St(st)
                st.note = st.note | {('from', kk, self.origin(x[1], st))}
            elif not (n == 'insert'):
                st = St(st)
                st.note = st.note | {('mixed', kk)}
            return st.setlen(kk, st.lo(kk) + (1 if n != 'insert' else 0), st.hi(kk) + 1 if st.hi(kk) < INF and n != 'insert' else INF) if kk not in st.p else st
        if n in ('pop_back', 'pop_front'):
            if st.lo(kk) < 1 and kk not in st.p:
                self.note(self.frames[-1]['f'], e, '%s()' % n, 'bad', 'removes an element of a list that may be empty here')
            p = kk in st.p
            s = st.setlen(kk, max(st.lo(kk) - 1, 0), st.hi(kk) - 1 if st.hi(kk) < INF else INF)
            return s.poison([kk]) if p else s
        if n == 'clear':
            return st.setlen(kk, 0, 0)
        if n == 'resize' and a:
            x = self.num(a[0], st)
            return st.setlen(kk, x[1], x[1]) if x is not None and x[0] == 'c' else st.setlen(kk, 0, INF).poison([kk])
        if n in MUT_MIN0:
            return st.setlen(kk, 0, INF).poison([kk])
        if n in ('subspan', 'first', 'last') and a:
            x = self.num(a[0], st)
            if x is not None and x[0] == 'c':
                if x[1] <= st.lo(kk):
                    self.note(self.frames[-1]['f'], e, '%s(%d)' % (n, x[1]), 'ok', None)
                elif kk in st.p:
                    self.note(self.frames[-1]['f'], e, '%s(%d)' % (n, x[1]), 'unknown', None)
                else:
                    self.note(self.frames[-1]['f'], e, '%s(%d)' % (n, x[1]), 'bad', 'takes `%s(%d)` of a list that may hold only %d elements here' % (n, x[1], st.lo(kk)))
        return st

    # ---------------------------------------------------------------- lists made by an initialiser
    def listlen(self, e, st):
        """(lo, hi) of a newly made list, None when unknown"""
        e = unwrap(e)
        if e is None:
            return (0, 0)
        kk = self.key_of(e, st)
        if kk is not None:
            return (st.lo(kk), st.hi(kk)) if kk not in st.p else None
        if e['k'] in ('init',):
            return (len(e['a']), len(e['a']))
        if e['k'] == 'ctor':
            a = e.get('a') or []
            if not a:
                return (0, 0)
            if len(a) == 1 and a[0]['k'] == 'init':
                return (len(a[0]['a']), len(a[0]['a']))
            if e.get('list'):
                return (len(a), len(a)) if all(unwrap(x)['k'] in ('str', 'ref', 'idx', 'call') for x in a) and len(a) != 2 else None
            n = self.num(a[0], st)
            if n is not None and n[0] == 'c':
                return (n[1], n[1])
            if len(a) == 2:
                x, y = unwrap(a[0]), unwrap(a[1])

                def off(z, nm):
                    o = 0
                    if z['k'] == 'bin' and z['op'] in ('+', '-'):
                        c = self.num(z['rh'], st)
                        if c is None or c[0] != 'c':
                            return None
                        o = c[1] if z['op'] == '+' else -c[1]
                        z = unwrap(z['lh'])
                    if z['k'] == 'call' and z.get('f') is not None and z['f'].get('n') in nm:
                        src = z['f'].get('b') if z['f']['k'] == 'mem' else (z['a'][0] if z['a'] else None)
                        k2 = self.key_of(src, st)
                        return (k2, o) if k2 is not None else None
                    return None
                p, q2 = off(x, ('begin', 'cbegin')), off(y, ('end', 'cend'))
                if p is not None and q2 is not None and p[0] == q2[0] and p[0] not in st.p:
                    d = p[1] - q2[1]
                    if d > st.lo(p[0]):
                        self.note(self.frames[-1]['f'], e, 'range', 'bad', 'skips %d elements of a list that may hold only %d here' % (d, st.lo(p[0])))
                    return (max(st.lo(p[0]) - d, 0), st.hi(p[0]) - d if st.hi(p[0]) < INF else INF)
                if len(a) == 2 and self.key_of(a[0], st):
                    return None
            return None
        if e['k'] == 'call' and e.get('f') is not None and e['f']['k'] == 'mem' and e['f'].get('n') in ('subspan', 'first', 'last'):
            kk = self.key_of(e['f'].get('b'), st)
            if kk is not None and kk not in st.p and e['a']:
                x = self.num(e['a'][0], st)
                if x is not None and x[0] == 'c':
                    if e['f']['n'] != 'subspan':
                        return (x[1], x[1])
                    if len(e['a']) > 1:
                        y = self.num(e['a'][1], st)
                        return (y[1], y[1]) if y is not None and y[0] == 'c' else None
                    return (max(st.lo(kk) - x[1], 0), st.hi(kk) - x[1] if st.hi(kk) < INF else INF)
        return None

    # ---------------------------------------------------------------- statements
    def block(self, n, sts):
        if n is None or not sts:
            return sts
        k = n['k']
        f = self.frames[-1]['f']
        if k == 'block':
            for s in n['s']:
                sts = self.block(s, sts)
                if not sts:
                    return []
            return sts
        if k == 'decl':
            for v in n['v']:
                sts = self.declare(v, f, sts)
            return sts
        if k == 'if':
            if n.get('init') is not None:
                sts = self.block(n['init'], sts)
            if isinstance(n.get('v'), dict):
                sts = self.block(n['v'], sts)
            if n.get('cx'):
                # a compile-time branch: both sides are possible instantiations
                return norm(self.block(n.get('x'), sts) + (self.block(n['y'], sts) if n.get('y') is not None else sts))
            t, e = self.cond(n['c'], sts)
            a = self.block(n.get('x'), t)
            b = self.block(n['y'], e) if n.get('y') is not None else e
            return norm(a + b)
        if k in ('for', 'while', 'do', 'rfor'):
            return self.loop(n, sts)
        if k == 'switch':
            return self.switch(n, sts)
        if k == 'try':
            entry = sts
            r = self.block(n.get('body'), sts)
            out = list(r)
            for h in n.get('h') or []:
                b = h.get('body') if isinstance(h, dict) and h.get('body') is not None else h
                if isinstance(b, dict):
                    out += self.block(b, [self.havoc(n.get('body'), s) for s in entry])
            return norm(out)
        if k == 'return':
            if n.get('e') is None:
                self.rets[-1] += [(s, None) for s in sts]
                return []
            self.ret(n['e'], sts)
            return []
        if k == 'throw':
            if n.get('e') is not None:
                self.expr(n['e'], sts)
            return []
        if k == 'break':
            if self.brk:
                self.brk[-1] += sts
            return []
        if k == 'continue':
            if self.cont:
                self.cont[-1] += sts
            return []
        if k in ('omp',):
            return self.block(n.get('body'), sts)
        if k in ('case', 'default', 'label', 'attr'):
            b = n.get('body') or n.get('s') or n.get('e')
            return self.block(b, sts) if isinstance(b, dict) else sts
        if k == 'call' and n.get('f') is not None and (n['f'].get('q') or n['f'].get('n') or '') in ('std::exit', 'exit', 'std::abort', 'abort', 'std::terminate', 'std::quick_exit', '_Exit'):
            return []
        return self.expr(n, sts)

    def ret(self, e, sts):
        u = unwrap(e)
        out = []
        for s in sts:
            v = self.val(e, s)
            if v is not None and v[0] in ('c', 'null', 'cont', 'arg', 'size', 'obj', 'lam'):
                if u['k'] == 'lambda':
                    self.closure(u, s)
                for x in (self.expr1(u, s) if u['k'] not in ('ref', 'lambda') else [s]):
                    out.append((x, v))
                continue
            if u['k'] == 'cond':
                t, f = self.cond1(u['c'], s)
                self.ret(u['x'], t)
                self.ret(u['y'], f)
                continue
            isb = u['k'] == 'bin' and u['op'] in ('<', '>', '<=', '>=', '==', '!=', '&&', '||', 'and', 'or') or u['k'] == 'un' and u['op'] == '!' or u['k'] == 'call' and u.get('f') is not None and (u['f'].get('n') == 'empty' or u['f'].get('n') == 'has_value')
            if isb:
                t, f = self.cond1(u, s)
                out += [(x, ('c', 1)) for x in t] + [(x, ('c', 0)) for x in f]
                continue
            if u['k'] == 'call':
                for x, rv in self.call(u, s, False):
                    out.append((x, rv))
                continue
            if u['k'] in ('ctor', 'init') and not u.get('a'):
                out.append((s, ('null',)))
                continue
            for x in self.expr1(u, s):
                out.append((x, ('some',)))
        self.rets[-1] += out

    def havoc(self, body, st):
        """after an unknown part of body ran"""
        i = ids(body)
        s = St(st)
        changed = self.assigned(body)
        for j in changed:
            x = s.v.get(j)
            if x is not None and x[0] == 'cont':
                s = s.setlen(x[1], 0, INF).poison([x[1]])
            elif x is not None and x[0] == 'nest':
                s = s.poison([('elem', x[1])])
            elif j in s.v:
                s.v[j] = None
        s.rel = {a: o for a, o in s.rel.items() if a[0] not in changed}
        if any(n['k'] == 'bin' and n['op'] == '<<' for n in walk(body)):
            pass
        return s

    def assigned(self, n):
        """(cached) ids of variables assigned, incremented or changed through a member below n"""
        h = ('as', id(n))
        if h in _ids:
            return _ids[h][1]
        r = set()
        for x in walk(n):
            k = x['k']
            t = None
            if k == 'bin' and x['op'] in ('=', '+=', '-=', '*=', '/=', '%=', '>>='):
                t = unwrap(x['lh'])
            elif k == 'un' and ('++' in x['op'] or '--' in x['op']):
                t = unwrap(x['e'])
            elif k == 'call' and x.get('f') is not None and x['f']['k'] == 'mem' and x['f'].get('n') in ('push_back', 'emplace_back', 'pop_back', 'clear', 'erase', 'resize', 'insert', 'assign', 'emplace', 'swap', 'pop_front', 'push_front'):
                t = unwrap(x['f'].get('b'))
            elif k == 'call' and x.get('f') is not None and (x['f'].get('q') or '').split('::')[-1] in ('getline', 'move', 'swap', 'exchange', 'ref'):
                for y in x.get('a') or []:
                    y = unwrap(y)
                    if y is not None and y['k'] == 'ref' and y.get('id') is not None:
                        r.add(y['id'])
            if t is not None and t['k'] == 'ref' and t.get('id') is not None:
                r.add(t['id'])
        _ids[h] = (n, frozenset(r))
        return _ids[h][1]

    GROW = ('push_back', 'emplace_back', 'insert', 'emplace', 'push_front', 'emplace_front')

    def widen(self, parts, st):
        s = St(st)
        ch = set()
        for p in parts:
            if p is not None:
                ch |= self.assigned(p)
        for j in ch:
            x = s.v.get(j)
            if x is not None and x[0] == 'cont':
                kk = x[1]
                shrink = False
                for p in parts:
                    for n in walk(p) if p is not None else ():
                        if n['k'] == 'call' and n.get('f') is not None and n['f']['k'] == 'mem' and n['f'].get('n') not in self.GROW and self.key_of(n['f'].get('b'), s) == kk and n['f'].get('n') in ('pop_back', 'clear', 'erase', 'resize', 'assign', 'swap', 'pop_front'):
                            shrink = True
                        if n['k'] == 'bin' and n['op'] == '=' and self.key_of(n['lh'], s) == kk:
                            shrink = True
                if shrink:
                    s = s.setlen(kk, 0, INF).poison([kk])
                else:
                    p0 = kk in s.p
                    s = s.setlen(kk, s.lo(kk), INF)
                    if p0:
                        s = s.poison([kk])
            elif j in s.v and not (x is not None and x[0] == 'nest'):
                s.v[j] = None
        s.rel = {a: o for a, o in s.rel.items() if a[0] not in ch}
        return s

    def loop(self, n, sts):
        k = n['k']
        if k == 'for' and n.get('init') is not None:
            sts = self.block(n['init'], sts)
        if k == 'rfor':
            sts = self.expr(n.get('range'), sts)
        parts = [n.get('body'), n.get('inc'), n.get('c')]
        counters = set()
        if n.get('inc') is not None:
            for x in walk(n['inc']):
                if x['k'] == 'un' and '++' in x['op'] and unwrap(x['e'])['k'] == 'ref':
                    counters.add(unwrap(x['e'])['id'])
        w = []
        for s in sts:
            s = self.widen(parts, s)
            if counters:
                s = St(s)
                s.note = s.note | {('counter', c) for c in counters}
            w.append(s)
        w = norm(w)
        self.brk.append([])
        self.cont.append([])
        if k == 'do':
            r = self.block(n.get('body'), w)
            r = norm(r + self.cont.pop())
            if n.get('c') is not None:
                t, f = self.cond(n['c'], r)
            else:
                t, f = r, r
            out = f + self.brk.pop()
            return norm([self.widen(parts[:1], s) if False else s for s in out])
        if k == 'rfor':
            t, f = w, w
            kk = {self.key_of(n.get('range'), s) for s in w}
            if len(kk) == 1 and None not in kk:
                kk = kk.pop()
                t = [s for s in (s.bound(kk, lo=1) for s in w) if s is not None]
            if n.get('var') is not None:
                t2 = []
                for s in t:
                    s = St(s)
                    key = self.key_of(n.get('range'), s)
                    s.v[n['var'].get('id')] = ('arg', key, 'each') if key is not None else None
                    b = self.val(n.get('range'), s)
                    if b is not None and b[0] == 'nest':
                        nk = ('L', n['var'].get('id'))
                        s = s.setlen(nk, s.mn.get(('elem', b[1]), 0), INF)
                        if ('elem', b[1]) in s.p:
                            s = s.poison([nk])
                        s.v[n['var'].get('id')] = ('cont', nk)
                    t2.append(s)
                t = t2
        elif n.get('c') is not None:
            t, f = self.cond(n['c'], w)
        else:
            t, f = w, []
        r = self.block(n.get('body'), t)
        r = norm(r + self.cont.pop())
        if n.get('inc') is not None:
            r = self.expr(n['inc'], r)
        # the loop body is seen once with widened lists; what it prints holds for later iterations as well
        return norm(f + self.brk.pop() + [x for x in ([] if k != 'rfor' else r)] + ([] if n.get('c') is None or k == 'rfor' else self.exit_after(n, r)))

    def exit_after(self, n, r):
        t, f = self.cond(n['c'], r)
        return f

    def switch(self, n, sts):
        sts = self.expr(n.get('c'), sts) if n.get('c') is not None else sts
        c = n.get('c')
        body = n.get('body')
        items = []      # (labels, stmt)

        def flat(s):
            labels = []
            while s is not None and s['k'] in ('case', 'default'):
                labels.append(s.get('e') if s['k'] == 'case' else None)
                nx = s.get('body') if s.get('body') is not None else s.get('s')
                s = nx if isinstance(nx, dict) else None
            return labels, s
        for s in (body.get('s') if body is not None and body['k'] == 'block' else [body]):
            if s is not None:
                items.append(flat(s))
        self.brk.append([])
        cur = []
        rest = list(sts)
        allv = []
        for labels, s in items:
            for lb in labels:
                if lb is not None:
                    allv.append(lb)
        out = []
        for labels, s in items:
            if labels:
                for lb in labels:
                    if lb is None:
                        e = list(sts)
                        for o in allv:
                            e = [y for x in e for y in self.compare('==', c, o, x)[1]]
                        cur = norm(cur + e)
                    else:
                        cur = norm(cur + [y for x in sts for y in self.compare('==', c, lb, x)[0]])
            cur = self.block(s, cur) if s is not None else cur
        out = cur
        if not any(lb is None for labels, _ in items for lb in labels):
            e = list(sts)
            for o in allv:
                e = [y for x in e for y in self.compare('==', c, o, x)[1]]
            out = out + e
        return norm(out + self.brk.pop())

    def declare(self, v, f, sts):
        out = []
        init = v.get('init')
        for st in sts:
            if 'id' not in v:
                out += self.expr(init, [st]) if init is not None else [st]
                continue
            i = v['id']
            islist = self.listy(v, f)
            if self.nested(v, f) and '&' not in self.ty(v, f.tu)[0]:
                un = unwrap(init) if init is not None else None
                for s in (self.expr(init, [st]) if init is not None else [st]):
                    s = St(s)
                    s.v[i] = ('nest', i)
                    s.mn[('elem', i)] = INF
                    if un is not None and (un['k'] not in ('ctor', 'init') or un.get('a')):
                        s.p = s.p | {('elem', i)}
                        s.mn[('elem', i)] = 0
                    else:
                        s.p = s.p - {('elem', i)}
                    out.append(s)
                continue
            u = unwrap(init) if init is not None else None
            if u is not None and u['k'] == 'ctor' and len(u.get('a') or []) == 1 and unwrap(u['a'][0])['k'] == 'call':
                u2 = unwrap(u['a'][0])
            else:
                u2 = u
            # calls: follow them for their return value
            if u2 is not None and u2['k'] == 'call' and self.interesting(u2, st) and self.val(u2, st) is None:
                for s, rv in self.call(u2, st, False):
                    s = St(s)
                    if rv is not None and rv[0] == 'cont' and islist or rv is not None and rv[0] == 'cont':
                        nk = ('L', i)
                        lo, hi, p = s.lo(rv[1]), s.hi(rv[1]), rv[1] in s.p
                        org = self.origin(rv[1], s)
                        s = s.setlen(nk, lo, hi)
                        if p:
                            s = s.poison([nk])
                        s.note = s.note | {('from', nk, org)}
                        s.v[i] = ('cont', nk)
                    elif islist:
                        nk = ('L', i)
                        n = self.listlen(u2, s)
                        s = s.setlen(nk, *(n or (0, INF)))
                        if n is None:
                            s = s.poison([nk])
                        s.v[i] = ('cont', nk)
                    else:
                        s.v[i] = rv
                    s.rel = {a: o for a, o in s.rel.items() if a[0] != i}
                    out.append(s)
                continue
            r = self.expr(init, [st]) if init is not None and u['k'] != 'lambda' else ([st] if init is None else self.closure(u, st))
            for s in r:
                s = St(s)
                s.rel = {a: o for a, o in s.rel.items() if a[0] != i}
                v0 = self.val(init, s) if init is not None else None
                isref = '&' in self.ty(v, f.tu)[0]
                if v0 is not None and v0[0] == 'elem':
                    nk = ('L', i)
                    s = s.setlen(nk, s.mn.get(v0, 0), INF)
                    if v0 in s.p:
                        s = s.poison([nk])
                    s.v[i] = ('cont', nk)
                elif v0 is not None and v0[0] == 'cont' and isref:
                    s.v[i] = v0
                elif islist or v0 is not None and v0[0] == 'cont':
                    nk = ('L', i)
                    n = self.listlen(init, s)
                    s = s.setlen(nk, *(n or (0, INF)))
                    if n is None:
                        s = s.poison([nk])
                    if v0 is not None and v0[0] == 'cont':
                        s.note = s.note | {('from', nk, self.origin(v0[1], s))}
                    s.v[i] = ('cont', nk)
                else:
                    if v0 is None and init is not None:
                        if u['k'] in ('bin', 'un', 'call', 'cond'):
                            # a flag or number computed from lengths: decided again where it is tested
                            isb = u['k'] == 'bin' and u['op'] in ('<', '>', '<=', '>=', '==', '!=', '&&', '||', 'and', 'or') or u['k'] == 'un' and u['op'] == '!' or u['k'] == 'call' and u.get('f') is not None and u['f'].get('n') == 'empty'
                            if isb and self.interesting(u, s):
                                t, e = self.cond1(u, s)
                                for x in t:
                                    x = St(x)
                                    x.v[i] = ('c', 1)
                                    out.append(x)
                                for x in e:
                                    x = St(x)
                                    x.v[i] = ('c', 0)
                                    out.append(x)
                                continue
                            if u['k'] == 'cond' and self.interesting(u['c'], s):
                                t, e = self.cond1(u['c'], s)
                                for br, xs in ((u['x'], t), (u['y'], e)):
                                    for x in xs:
                                        x = St(x)
                                        x.v[i] = self.val(br, x)
                                        out.append(x)
                                continue
                            ks = self.about(u, s)
                            v0 = ('about', frozenset(ks)) if ks else None
                    n = self.num(init, s) if init is not None else None
                    if n is not None and n[0] == 'vp':
                        for (j, kk), o in list(s.rel.items()):
                            if j == n[1]:
                                s.rel[(i, kk)] = o - n[2]
                    s.v[i] = v0
                out.append(s)
        return norm(out)
