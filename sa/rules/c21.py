"""Named elementwise operations apply exactly the named operation."""
from lib import *
from sem import *
from algebra import *
from rules.c10 import operands
from rules.c11 import M as CM, branches, SH, norm

TUS = ['lib']
MIN = {'formula': 60}
NC = 3


def div(a, b):
    if b == 0:
        raise NoEval('zero')
    return a / b


def rec(f):
    return lambda x: 1 / FN[f](x)


UN = {n: FN[n] for n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'exp', 'exp2', 'expm1', 'log', 'log2', 'log10',
                         'log1p', 'sqrt', 'cbrt', 'floor', 'ceil', 'trunc', 'round', 'abs', 'erf', 'erfc', 'tgamma', 'lgamma')}
UN.update({'cot': rec('tan'), 'sec': rec('cos'), 'csc': rec('sin'), 'negate': lambda x: -x})
STDONLY = ('rint', 'nearbyint', 'isnan', 'isinf', 'isfinite', 'isnormal', 'ilogb', 'logb', 'fpclassify', 'signbit')
BIN = {'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b, 'pixelwise_multiplies': lambda a, b: a * b, 'multiplies': lambda a, b: a * b, 'divides': div,
       'modulus': lambda a, b: a % b, 'difference': lambda a, b: abs(a - b), 'pow': pw}
OPS = {'operator+=': BIN['add'], 'operator-=': BIN['subtract'], 'operator*=': BIN['multiplies'], 'operator/=': div,
       'operator+': BIN['add'], 'operator-': BIN['subtract'], 'operator*': BIN['multiplies']}
DOM = {n: (Fraction(-9, 10), Fraction(1, 3), Fraction(4, 5), Fraction(1, 7)) for n in ('asin', 'acos', 'atanh', 'erf', 'erfc')}
DOM.update({n: (Fraction(-5, 2), Fraction(7, 3), Fraction(29, 4), Fraction(4), Fraction(-11, 3)) for n in ('floor', 'ceil', 'trunc', 'round')})
DOM.update({n: (Fraction(1), Fraction(9, 4), Fraction(10), Fraction(17, 3)) for n in ('acosh', 'log', 'log2', 'log10', 'sqrt', 'cbrt', 'tgamma', 'lgamma', 'log1p')})
ANY = (Fraction(2), Fraction(-3), Fraction(5), Fraction(-1), Fraction(7))


def sampler(name, i, seed, unsigned):
    """value of the i-th operand"""
    if name in DOM:
        v = DOM[name]
        return v[(seed + 3 * i) % len(v)]
    if name in ('divides', 'operator/=', 'modulus'):
        return Fraction(((12, 30, 42, 70)[seed % 4], (2, 5, 7, 10)[seed % 4], 1)[min(i, 2)]) if name != 'modulus' else Fraction(((17, 30, 44, 70)[seed % 4], (5, 7, 9, 11)[seed % 4])[min(i, 1)])
    if name == 'pow':
        return Fraction((2, 3, 5, 7)[seed % 4] if i == 0 else (3, 2, 1, 4)[seed % 4])
    if unsigned:
        return Fraction((200 if i == 0 else 20) + (7 * seed) % 13)
    v = ANY[(seed * 2 + i * (seed + 1)) % len(ANY)]
    return v + i * 11


def chan_of(m, v, k):
    if v.k in ('IN', 'sym', 'EL'):
        return mk('CH', v, k)
    if v.k == 'fstore':
        return chan_of(m, v.a[2], k) if v.a[1] == 'channels' else chan_of(m, v.a[0], k)
    if v.k == 'struct':
        d = dict(v.a[1])
        if set(d) != {'channels'}:
            raise Unk('structure')
        return chan_of(m, d['channels'], k)
    if v.k == 'store':
        c = cval(v.a[1])
        if c is None:
            raise Unk('store')
        return v.a[2] if c == k else chan_of(m, v.a[0], k)
    if v.k in ('vec', 'tuple') or v.k == 'app' and str(v.a[0]).startswith('ctor:'):
        a = v.a[0] if v.k != 'app' else v.a[1]
        if k >= len(a):
            raise Unk('channels')
        return a[k]
    if v.k in ('vmap', 'vlay', 'vecn'):
        return m.value(*m.at(v, k, {}))
    raise Unk('pixel value %s' % v.k)


def ischan(v):
    return v.k in ('fstore', 'struct', 'store', 'vec') or (v.k == 'app' and str(v.a[0]).startswith('ctor:') and v.a[0] != 'ctor:complex')


def leafnorm(t):
    return norm(t) if t.k == 'elem' else t


class Ver:
    def __init__(self):
        self.n, self.unk, self.bad = 0, None, None


def value_check(v, got, name, spec, leaves, cx, where, unsigned, stdname=None):
    """got: formula over leaves; leaves: [leaf term per operand]"""
    if stdname:
        if got.k == 'app' and got.a[0].split('::')[-1] == stdname and [norm(x) for x in got.a[1] if x.k != 'policy'] == leaves:
            v.n += 1
        elif got.k == 'app' and got.a[0].split('::')[-1] in STDONLY + tuple(UN) and [norm(x) for x in got.a[1]] == leaves:
            v.bad = v.bad or '%s is %s of the operand' % (where, got.a[0])
        else:
            v.unk = 'value %s' % got.k
        return
    done = 0
    for seed in range(6):
        vals = [sampler(name, i, seed, unsigned) for i in range(len(leaves))]
        used = set()

        def leaf(t):
            t = leafnorm(t)
            for x, y in zip(leaves, vals):
                if t is x:
                    return y
            if t.k in ('IN', 'CH', 'UNINIT'):
                # another pixel, channel or element than the corresponding one
                used.add(t)
                return sample(seed, show(t), 300, 900)
            return None
        try:
            if unsigned == 'sat':
                if seed % 2:
                    vals.reverse()
                spec = lambda a, b: max(Fraction(0), a - b)
            want = spec(vals[0]) if len(vals) == 1 else spec(vals[0], vals[1]) if len(vals) == 2 else fold(spec, name, vals)
            ev = Eval(leaf, cx)
            ev.wrap = unsigned == 'sat'
            try:
                r = ev.num(got)
            except NoEval as ex:
                if str(ex) != 'inexact division':
                    raise
                # an operand type that decides between integer and real division: wrong under both readings
                rs = []
                for d in ('int', 'real'):
                    ev = Eval(leaf, cx)
                    ev.division = d
                    rs.append(ev.num(got))
                if any(close(x, want) for x in rs):
                    continue
                r = rs[1]
        except NoEval as ex:
            err = str(ex)
            continue
        except (ZeroDivisionError, OverflowError, ValueError):
            continue
        done += 1
        if not close(r, want):
            v.bad = v.bad or '%s is %s where the operands are %s (expected %s)%s' % (
                where, num(r), ', '.join(num(x) for x in vals), num(want), '; it uses ' + ', '.join(sorted(show(x) for x in used))[:90] if used else '')
            return
    if done:
        v.n += 1
    else:
        v.unk = 'formula not evaluated (%s)' % err


def fold(spec, name, vals):
    r = vals[0]
    for x in vals[1:]:
        r = spec(r, x)
    return r


def num(x):
    return str(x) if isinstance(x, Fraction) and x.denominator == 1 else '%.6g' % float(x)


COMM = ('add', 'multiplies', 'pixelwise_multiplies', 'difference', 'operator+', 'operator*', 'operator+=', 'operator*=')
ALIAS = {'operator+': 'add', 'operator-': 'subtract', 'operator*': 'multiplies', 'operator+=': 'add', 'operator-=': 'subtract', 'operator*=': 'multiplies', 'operator/=': 'divides',
         'pixelwise_multiplies': 'multiplies'}


def delegated(v, r, name, ops, where):
    """the result is a call of a named operation on the same operands: that overload is judged on its own"""
    if r.k != 'app':
        return False
    nm = str(r.a[0]).split('::')[-1]
    a = [x for x in r.a[1] if x.k != 'policy']
    o = [x[1] for x in ops]
    if nm not in UN and nm not in BIN and nm not in OPS and nm not in STDONLY or not any(x[0] == 'img' for x in ops):
        return False
    same = a == o
    perm = sorted(map(id, a)) == sorted(map(id, o))
    if not perm:
        return False
    x, y = ALIAS.get(nm, nm), ALIAS.get(name, name)
    if x != y:
        v.bad = v.bad or '%sit is %s of the operands' % (where, nm)
    elif not same and name not in COMM:
        v.bad = v.bad or '%sit is %s of the operands in another order' % (where, nm)
    else:
        v.n += 1
    return True


def result(v, m, r, name, spec, ops, cx, unsigned, where='', stdname=None):
    """ops: operand descriptors ('img', name) / ('val', term)"""
    if r.k == 'each':
        n = len(r.a[0])
        if any(x is not o[1] for x, o in zip(r.a[0], ops)):
            raise Unk('operands of the per-channel operation')
        m.shapes.update({'plane%d' % i: SH for i in range(n)})
        o2 = [('img', mk('imgp', 'plane%d' % i)) if o[0] == 'img' else ('val', mk('sym', 'chan%d' % i, None)) for i, o in enumerate(ops[:n])] + ops[n:]
        return result(v, m, r.a[1], name, spec, o2, cx, unsigned, where + 'on each channel, ', stdname)
    if delegated(v, r, name, ops, where):
        return
    if r.k == 'ite' and tkind(r) == 'img' or r.k == 'ite' and any(x.k == 'each' for x in r.a[1:]):
        return result(v, m, r.a[1] if m.truth(r.a[0], {}) else r.a[2], name, spec, ops, cx, unsigned, where, stdname)
    if tkind(r) == 'img':
        s, px = image_of(m, r)
        if tuple(s) != SH:
            v.bad = v.bad or 'the result is %s for operands of %s' % ('x'.join(map(str, s)), 'x'.join(map(str, SH)))
            return
        for co, p in sorted(px.items()):
            if isinstance(p, Undef):
                if p.negative:
                    raise Unk(str(p))
                v.bad = v.bad or str(p)
                return
            lv = [mk('IN', o[1].a[0], *co) if o[0] == 'img' else o[1] for o in ops]
            if ischan(p):
                for k in range(NC):
                    value_check(v, chan_of(m, p, k), name, spec, [mk('CH', x, k) if x.k == 'IN' else x for x in lv], cx, where + 'channel %d of pixel (%d,%d)' % ((k,) + co), unsigned, stdname)
            else:
                value_check(v, p, name, spec, lv, cx, where + 'pixel (%d,%d)' % co, unsigned, stdname)
        return
    if tkind(r) == 'vec' and ops[0][0] == 'vec':
        n = m.length(r, {})
        if n != len(ops[0][1].a[0]):
            v.bad = v.bad or 'the result has %d elements for %d' % (n, len(ops[0][1].a[0]))
            return
        for i in range(n):
            t, env = m.at(r, i, {})
            if env:
                t = subst(t, {k: const(x) for k, x in env.items()})
            o2 = [('img' if tkind(o[1].a[0][i]) == 'img' else 'val', o[1].a[0][i]) if o[0] == 'vec' else o for o in ops]
            result(v, m, t, name, spec, o2, cx, unsigned, where + 'element %d, ' % i, stdname)
        return
    p = m.value(r, {})
    if any(o[0] != 'val' for o in ops):
        raise Unk('result %s' % r.k)
    lv = [o[1] for o in ops]
    if ischan(p):
        for k in range(NC):
            value_check(v, chan_of(m, p, k), name, spec, [mk('CH', lv[0], k)] + lv[1:], cx, where + 'channel %d' % k, unsigned, stdname)
    else:
        value_check(v, p, name, spec, lv, cx, where + 'the result', unsigned, stdname)


def is_unsigned(cx, f):
    if f.name == 'subtract' and re.fullmatch(r'.*\((const )?Image<RGB> &, (const )?Image<RGB> &\)', f.sig()):
        return 'sat'
    return any(b and re.search(r'unsigned|bool', str(t.a[0])) for t, b in cx.items()) or bool(re.search(r'Image<(RGB|GrayScale)>', f.sig()))


def run(P, R):
    R.rule('formula', 'the formula extracted for every pixel and channel of the result is the named operation on the corresponding operands, in operand order')
    for f in P.funcs:
        if not f.body or f.file not in ('image_operations.h', 'basic_functions.h', 'image.h'):
            continue
        o = operands(f)
        req = f.req()
        if f.file == 'image.h':
            if f.name in OPS and (f.cls == 'Image' or f.kind in ('func', 'friend')) and 1 <= len(f.params) <= 2:
                method(P, R, f, o)
            continue
        if f.kind != 'func' or f.name not in UN and f.name not in BIN and f.name not in STDONLY:
            continue
        ps = [(p, f.ptype(i)) for i, p in enumerate(f.params) if kind_of_type(f.ptype(i), req) != 'policy']
        unary = f.name in UN or f.name in STDONLY
        pack = [p for p, _ in ps if p.get('pack')]
        if unary and len(ps) != 1 or not unary and (len(ps) < 2 and not (f.name == 'add' and len(ps) == 1)):
            continue
        args, ops, shapes, ok = {}, [], {}, True
        vecs = any(kind_of_type(t, req) == 'vec' for _, t in ps)
        for p, t in ps:
            k = kind_of_type(t, req)
            n = p['n']

            def operand(n, k):
                if vecs and (k == 'vec' or p.get('pack')):
                    im = 'Image' in ps[0][1]
                    x = mk('vec', tuple(mk('imgp', '%s.%d' % (n, i)) if im else mk('sym', '%s.%d' % (n, i), None) for i in range(2)))
                    shapes.update({'%s.%d' % (n, i): SH for i in range(2)} if im else {})
                    return ('vec', x)
                if k == 'img' or p.get('pack'):
                    shapes[n] = SH
                    return ('img', mk('imgp', n))
                return ('val', mk('sym', n, None))
            if p.get('pack'):
                xs = [operand('%s%d' % (n, i), k) for i in range(2)]
                ops += xs
                args[n] = tuple(x[1] for x in xs)
            else:
                ops.append(operand(n, k))
                args[n] = ops[-1][1]
        I = Interp(P)
        I.unroll = 4
        I.each = True
        I.nchan = NC
        I.maxalts = 6
        v = Ver()
        spec = UN.get(f.name) or BIN.get(f.name)
        drive(I, f, R, v, args, ops, shapes, spec)


def drive(I, f, R, v, args, ops, shapes, spec, run=None, pick=None):
    w = '%s:%d %s' % (f.file, f.line, f.sig())
    fr = run() if run else I.run(f, args=args)
    if fr is None:
        return R.unknown('formula', w + ' (budget)')
    if len(ops) == 1 and f.name in BIN:
        spec = lambda a: a
    for cx in branches(fr):
        m = CM(dict(shapes), {}, cx)
        try:
            x = m.exit_of(fr)
            if x is None:
                v.bad = v.bad or 'throws although the operands are valid'
                continue
            r = pick(x) if pick else x['val']
            if r is VOID:
                continue
            result(v, m, r, f.name, spec, ops, cx, is_unsigned(cx, f), '', f.name if f.name in STDONLY else None)
        except Undef as ex:
            if ex.negative:
                v.unk = str(ex)
            else:
                v.bad = v.bad or str(ex)
        except Unk as ex:
            v.unk = str(ex)
    if v.bad:
        R.bad('formula', fkey(f), f.file, f.line, f.sig(), v.bad)
    elif v.unk or not v.n:
        R.unknown('formula', w + ' (%s)' % (v.unk or 'nothing compared'))
    else:
        R.ok('formula', w + ' (%d formulas)' % v.n)


def method(P, R, f, o):
    I = Interp(P)
    I.unroll = 4
    I.maxalts = 6
    v = Ver()
    spec = OPS[f.name]
    if f.kind == 'method' and f.name.endswith('=') and len(o['img']) == 1:
        b = o['img'][0]
        this = mk('imgp', 'self')
        # the object is tracked as a mutable image
        obj = mk('img', 'self', (mk('sz', this, ZERO), mk('sz', this, ONE)), mk('copy', this))
        try:
            fr = I.run(f, thisobj=obj)
        except Exception as ex:
            return R.unknown('formula', '%s:%d %s (%s)' % (f.file, f.line, f.sig(), ex))
        drive(I, f, R, v, None, [('img', this), ('img', mk('imgp', b))], {'self': SH, b: SH}, spec, run=lambda: fr, pick=lambda x: x['st'].env.get(('thisobj', 0)))
    elif len(f.params) == 2:
        ops, shapes = [], {}
        for i, p in enumerate(f.params):
            if kind_of_type(f.ptype(i), f.req()) == 'img':
                ops.append(('img', mk('imgp', p['n'])))
                shapes[p['n']] = SH
            else:
                ops.append(('val', mk('sym', p['n'], None)))
        drive(I, f, R, v, None, ops, shapes, spec)
