"""Every declared mode is honoured: what each enumerator selects, and that a requested mode reaches the selecting function."""
from lib import *
from sem import *
from algebra import *
from rules import c10

TUS = ['lib']
MIN = {'select': 6, 'propagate': 6}
FILES = ('image_operations.h', 'cube_operations.h', 'histogram.h', 'image.h')


class Rec(Interp):
    """records every call made by the analysed function itself (lambdas included) to a function with a mode parameter"""

    def invoke_with(self, c, args, lvs, e, fr, st, nm, wantlv=False, this=None, thislv=None):
        if c and len(self.stack) <= 1:
            self.calls.append((tuple(c), tuple(args), e, tuple(st.pc)))
        return Interp.invoke_with(self, c, args, lvs, e, fr, st, nm, wantlv, this, thislv)


class Shallow(Rec):
    def invoke_with(self, c, args, lvs, e, fr, st, nm, wantlv=False, this=None, thislv=None):
        if c and len(self.stack) <= 1 and all(modes(self.prog, h) for h in c):
            self.calls.append((tuple(c), tuple(args), e, tuple(st.pc)))
            return mk('app', 'OPAQUE', (), None)
        return Rec.invoke_with(self, c, args, lvs, e, fr, st, nm, wantlv, this, thislv)


def modes(P, f):
    """(index, enumeration) of the parameters whose type is an enumeration of the library"""
    ns = {e['n']: e for e in P.enums.values()}
    r = []
    for i, p in enumerate(f.params):
        t = strip_type(f.ptype(i)).split('::')[-1]
        if t in ns:
            r.append((i, ns[t]))
    return r


def run(P, R):
    R.rule('select', 'interpreted with each enumerator in turn, the selecting function returns that mode\'s own result (padding of that kind; scoring of that kind)')
    R.rule('propagate', 'a function with a mode parameter passes that parameter, not a constant and not the default, to every function it calls that takes the same kind of mode')
    I = Interp(P)
    I.unroll = 4
    for f in P.funcs:
        if f.body and f.file in FILES and modes(P, f):
            c10.padding_modes(I, f, c10.operands(f), R, 'select')
            estimator(P, R, f)
            propagate(P, R, f)


def propagate(P, R, f):
    ms = modes(P, f)
    J = Rec(P)
    J.calls, J.each, J.maxalts = [], True, 8
    try:
        fr = J.run(f)
    except RecursionError:
        fr = None
    if fr is None:
        # too large to interpret with everything it calls: leave the calls of interest opaque
        J = Shallow(P)
        J.prog = P
        J.calls, J.each, J.maxalts = [], True, 8
        try:
            J.run(f)
        except RecursionError:
            pass
    seen = set()
    for c, args, e, pc in J.calls:
        for i, en in ms:
            g = [h for h in c if any(x[1]['n'] == en['n'] for x in modes(P, h))]
            if not g or len(g) < len(c):
                continue
            w = '%s:%d %s calls %s at line %s' % (f.file, f.line, f.sig(), g[0].name, e.get('l'))
            if w in seen:
                continue
            seen.add(w)
            vs = []
            for h in g:
                j = [x[0] for x in modes(P, h) if x[1]['n'] == en['n']][0]
                a = args[j] if j < len(args) else None
                if isinstance(a, T) and (cval(a) is not None or a.k in ('sym', 'var') and any(p['n'] == a.a[0] and strip_type(f.ptype(k)).split('::')[-1] != en['n'] for k, p in enumerate(f.params))):
                    continue        # this overload cannot be the one called
                vs.append(a)
            if not vs:
                continue
            if any(isinstance(a, T) and depends(a, f.params[i]['n']) for a in vs):
                R.ok('propagate', w)
            elif any(depends(x, f.params[i]['n']) for x in pc if isinstance(x, T)):
                R.unknown('propagate', w + ' (selected by the mode)')
            elif all(a is None for a in vs):
                R.bad('propagate', '%s|%s|%s' % (fkey(f), g[0].name, en['n']), f.file, e.get('l') or f.line, f.sig(), 'calls %s without the requested %s (%s)' % (g[0].name, en['n'], f.params[i]['n']))
            elif all(a is None or isinstance(a, T) and a.k == 'enum' for a in vs):
                a = [a for a in vs if a is not None][0]
                R.bad('propagate', '%s|%s|%s' % (fkey(f), g[0].name, en['n']), f.file, e.get('l') or f.line, f.sig(), 'calls %s with %s instead of the requested %s (%s)' % (g[0].name, show(a), en['n'], f.params[i]['n']))
            else:
                R.unknown('propagate', w)


def depends(t, n):
    return any(x.k in ('sym', 'var') and x.a and x.a[0] == n for x in subterms(t))


SCORES = {'RANSAC': lambda d, t: 0 if d < t else 1, 'MSAC': lambda d, t: min(d, t)}


def estimator(P, R, f):
    """the cost function used with each robust estimation method"""
    ms = [(i, e) for i, e in modes(P, f) if e['n'] == 'RobustEstimatorMethod']
    if len(ms) != 1:
        return
    i, en = ms[0]
    for name in en['e']:
        w = '%s:%d %s (%s)' % (f.file, f.line, f.sig(), name)
        sc = set()

        class Stop(Rec):
            def invoke_with(self, c, args, lvs, e, fr, st, nm, wantlv=False, this=None, thislv=None):
                s = {a.a[0] if a.k == 'struct' else re.sub(r'<.*', '', str(a.a[-1] if a.k in ('defval', 'uninitv') else a.a[0]).replace('ctor:', '')).split('::')[-1]
                     for a in args if isinstance(a, T) and a.k in ('struct', 'defval', 'uninitv', 'app') and a.a}
                s = {x for x in s if x in P.recs and any(g.name == 'operator()' and g.cls == x and len(g.params) == 2 for g in P.funcs)}
                if s and len(self.stack) <= 1:
                    sc.update(s)
                    return mk('app', 'ESTIMATE', (), None)
                return Interp.invoke_with(self, c, args, lvs, e, fr, st, nm, wantlv, this, thislv)
        J = Stop(P)
        J.calls = []
        try:
            fr = J.run(f, args={f.params[i]['n']: mk('enum', name)})
        except RecursionError:
            fr = None
        if fr is None or len(sc) != 1 or name not in SCORES:
            if sc or fr is None:
                R.unknown('select', w + ' (%s)' % sorted(sc))
            continue
        cls = next(iter(sc))
        g = [h for h in P.funcs if h.name == 'operator()' and h.cls == cls and h.body]
        if len(g) != 1:
            R.unknown('select', w)
            continue
        g = g[0]
        K = Interp(P)
        K.unroll = 2
        fr = K.run(g, args={p['n']: mk('sym', p['n'], 'flt') for p in g.params})
        v = score(fr, g, SCORES[name])
        if v is None:
            R.ok('select', w)
        elif v is False:
            R.unknown('select', w + ' (formula)')
        else:
            R.bad('select', fkey(f) + '|' + name, g.file, g.line, f.sig(), '%s uses %s, whose cost for squared distance %s and squared threshold %s is %s instead of %s' % ((name, cls) + v))


def score(fr, g, want):
    """None: agrees on every sample; False: not evaluated; otherwise the disagreement"""
    if fr is None or len(g.params) != 2:
        return False
    n1, n2 = g.params[0]['n'], g.params[1]['n']
    for d, t in ((1, 4), (4, 1), (3, 3), (0, 2), (Fraction(7, 2), 4), (5, Fraction(9, 2))):
        val = {n1: Fraction(d), n2: Fraction(t)}

        def leaf(x):
            return val.get(x.a[0]) if x.k in ('sym', 'var') else None
        got = None
        try:
            for x in fr.exits:
                e = Eval(leaf)
                if all(e.truth(c) for c in x['pc']):
                    got = e.num(x['val'])
                    break
        except NoEval:
            return False
        if got is None:
            return False
        if not close(got, want(Fraction(d), Fraction(t))):
            return str(d), str(t), str(got), str(want(d, t))
    return None
