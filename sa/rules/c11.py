"""Channels keep their identity through extraction, assembly and per-channel application."""
import itertools
from lib import *
from sem import *
from rules.c10 import operands

TUS = ['lib']
MIN = {'extract': 4, 'assemble': 4, 'per-channel': 4, 'absent': 2, 'componentwise': 4}
PLANES = {'R': 0, 'H': 0, 'G': 1, 'S': 1, 'B': 2, 'V': 2}
SH = (2, 3)


class M(Model):
    def __init__(self, shapes, vals, cx):
        Model.__init__(self, shapes, vals)
        self.cx = cx

    def truth(self, t, iv):
        if t.k == 'cx':
            if t in self.cx:
                return self.cx[t]
            raise Unk('type condition')
        if t.k == 'eqv':
            return True         # operands of equal extents
        return Model.truth(self, t, iv)

    def content(self, c, s, co, iv):
        if isinstance(c, T) and c.k == 'applied':
            return mk('AP', c, co, tuple(sorted((v.a[0], n) for v, n in iv.items() if v in ivset(c))))
        return Model.content(self, c, s, co, iv)


class NoChan(Exception):
    pass


def norm(v):
    """channel value in the form CH(owner, k)"""
    if v.k == 'app' and v.a[0] in ('u8', 'trunc', 'flt', 'double') and len(v.a[1]) == 1:
        return norm(v.a[1][0])
    if v.k == 'elem' and v.a[0].k == 'fld' and v.a[0].a[1] == 'channels':
        k = cval(v.a[1])
        if k is not None:
            return mk('CH', v.a[0].a[0], int(k))
    if v.k == 'elem' and v.a[0].k in ('vec', 'tuple'):
        k = cval(v.a[1])
        if k is not None and 0 <= k < len(v.a[0].a[0]):
            return norm(v.a[0].a[0][int(k)])
    return v


def chan(m, v, k):
    if v.k == 'ite':
        raise Unk('conditional pixel')
    if v.k in ('IN', 'EL'):
        return mk('CH', v, k)
    if v.k == 'struct':
        d = dict(v.a[1])
        if set(d) == {'channels'}:
            return chan(m, d['channels'], k)
        raise Unk('structure')
    if v.k in ('vmap', 'store', 'vlay', 'vecn'):
        n = m.length(v, {})
        if k >= n:
            raise NoChan(n)
        return norm(m.value(*m.at(v, k, {})))
    a = None
    if v.k == 'app' and str(v.a[0]).startswith('ctor:'):
        a = v.a[1]
    elif v.k in ('vec', 'tuple'):
        a = v.a[0]
    if a is None:
        raise Unk('pixel value %s' % v.k)
    if k >= len(a):
        raise NoChan(len(a))
    return norm(a[k])


def width(m, v):
    if v.k == 'struct':
        return width(m, dict(v.a[1]).get('channels', v))
    if v.k == 'app' and str(v.a[0]).startswith('ctor:'):
        return len(v.a[1])
    if v.k in ('vec', 'tuple'):
        return len(v.a[0])
    try:
        return m.length(v, {})
    except (Unk, Undef):
        return None


def branches(fr):
    cx = []
    for x in fr.exits:
        for t in list(x['pc']) + [x['val']]:
            for s in subterms(t):
                if s.k == 'cx' and s not in cx:
                    cx.append(s)
    if len(cx) > 4:
        cx = cx[:4]
    return [dict(zip(cx, b)) for b in itertools.product((True, False), repeat=len(cx))]


def desc(v):
    if v.k == 'CH':
        o = v.a[0]
        return 'channel %d of %s' % (v.a[1], o.a[0] if o.k in ('IN', 'sym', 'EL') else o.k)
    if v.k == 'IN':
        return '%s(%s)' % (v.a[0], ','.join(map(str, v.a[1:])))
    return {'UNINIT': 'an unset element'}.get(v.k, show(v)[:80])


KNOWN = ('CH', 'IN', 'UNINIT')


class V:
    """verdict of one function"""

    def __init__(self):
        self.n = 0
        self.unk = None
        self.bad = None

    def emit(self, R, rule, f, what=''):
        w = '%s:%d %s%s' % (f.file, f.line, f.sig(), what)
        if self.bad:
            R.bad(rule, fkey(f), f.file, f.line, f.sig(), self.bad)
        elif self.unk:
            R.unknown(rule, w + ' (%s)' % self.unk)
        elif not self.n:
            R.unknown(rule, w + ' (nothing compared)')
        else:
            R.ok(rule, w + ' (%d comparisons)' % self.n)


def every(fr, shapes, vals, v, body):
    """body(model, result) on every branch of type-dependent code"""
    if fr is None:
        v.unk = 'budget'
        return
    for cx in branches(fr):
        m = M(shapes, vals, cx)
        try:
            x = m.exit_of(fr)
            if x is None:
                v.bad = v.bad or 'throws although the operands are valid'
                return
            body(m, x['val'])
        except Undef as ex:
            if ex.negative:
                v.unk = str(ex)
            else:
                v.bad = v.bad or str(ex)
        except Unk as ex:
            v.unk = str(ex)


def eq(v, got, want, where):
    v.n += 1
    if got is want or v.bad:
        return
    if got.k in KNOWN and want.k in KNOWN:
        v.bad = '%s is %s instead of %s' % (where, desc(got), desc(want))
    else:
        v.unk = 'value %s' % got.k


def pixels(m, im, v, body):
    s, px = image_of(m, im)
    if tuple(s) != SH:
        v.unk = 'extents'
        return
    for co, p in sorted(px.items()):
        if isinstance(p, Undef):
            if p.negative:
                v.unk = str(p)
            else:
                v.bad = v.bad or str(p)
            return
        body(co, p)


def plane_of(m, im, name):
    """k such that the image is channel k of the named operand"""
    s, px = image_of(m, im)
    ks = set()
    for co, p in px.items():
        if isinstance(p, Undef):
            return None
        p = norm(p)
        if p.k == 'CH' and p.a[0] is mk('IN', name, *co):
            ks.add(p.a[1])
        elif p.k in ('CH', 'IN'):
            ks.add('other')
        else:
            return None
    return ks.pop() if len(ks) == 1 else 'mixed'


def applied(m, c, names, k, extra, v, where, env=None):
    """the operation received plane k of every operand, then the extra arguments"""
    args = c.a[1]
    if env:
        args = tuple(subst(a, env) for a in args)
    ims = [a for a in args if tkind(a) == 'img']
    oth = [a for a in args if tkind(a) != 'img']
    if len(ims) != len(names):
        v.bad = v.bad or '%s: the operation receives %d planes instead of %d' % (where, len(ims), len(names))
        return
    for i, n in zip(ims, names):
        p = plane_of(m, i, n)
        v.n += 1
        if p is None:
            v.unk = 'plane'
        elif p != k:
            v.bad = v.bad or '%s is the result for channel %s of %s instead of channel %d' % (where, p, n, k)
    v.n += 1
    if oth != extra:
        v.unk = 'arguments'
        if all(a.k == 'sym' for a in oth):
            v.bad = v.bad or '%s: the operation receives the extra arguments (%s) instead of (%s)' % (where, ', '.join(show(a) for a in oth), ', '.join(show(a) for a in extra))


def run(P, R):
    R.rule('extract', 'every pixel of the extracted plane is the requested channel of the same pixel')
    R.rule('absent', 'a channel index beyond the pixel type leaves no normal exit')
    R.rule('assemble', 'channel k of every assembled pixel comes from the k-th source, unmixed')
    R.rule('per-channel', 'channel k of the result is the result of the operation on channel k (of every operand)')
    R.rule('componentwise', 'channel k of a sum or difference of pixels combines channel k of the two operands, in order')

    def interp(n):
        I = Interp(P)
        I.unroll = 4
        I.nchan = n
        I.tvals = {'channel_count': const(n), 'Channels': const(n)}
        return I

    for f in P.funcs:
        if not f.body:
            continue
        if f.file == 'base_types.h' and f.name in ('operator+', 'operator-') and f.kind == 'method' and len(f.params) == 1 and f.cls in ('RGB', 'RGB_DOUBLE', 'HSV', 'MultiChannel'):
            componentwise(interp, f, R)
            continue
        if f.file not in LIBH or f.kind != 'func':
            continue
        o = operands(f)
        el = [image_elem(f.ptype(i)) or '' for i in range(len(f.params)) if kind_of_type(f.ptype(i), f.req()) == 'img']
        multi = any(re.match(r'MultiChannel<\w+, [A-Za-z]', e) for e in el)
        ns = (2, 3, 4) if multi else (3,)
        if f.name == 'getPlane' and len(o['img']) == 1 and len(o['int']) == 1:
            v, a = V(), V()
            for n in ns:
                fr = interp(n).run(f)
                for k in range(n):
                    every(fr, {o['img'][0]: SH}, {o['int'][0]: k}, v, lambda m, r: pixels(m, r, v, lambda co, p: eq(
                        v, norm(p), mk('CH', mk('IN', o['img'][0], *co), k), 'pixel (%d,%d) of plane %d' % (co + (k,)))))
                if fr is None:
                    a.unk = 'budget'
                    continue
                for k in (n, n + 1, n + 7, 2 ** 40):
                    for cx in branches(fr):
                        try:
                            a.n += 1
                            if M({o['img'][0]: SH}, {o['int'][0]: k}, cx).exit_of(fr) is not None:
                                a.bad = a.bad or 'returns for channel %d of a pixel with %d channels' % (k, n)
                        except (Unk, Undef) as ex:
                            a.unk = str(ex)
            v.emit(R, 'extract', f)
            a.emit(R, 'absent', f)
        elif re.fullmatch(r'get([RGBHSV])plane', f.name) and len(o['img']) == 1:
            k = PLANES[f.name[3]]
            v = V()
            every(interp(3).run(f), {o['img'][0]: SH}, {}, v, lambda m, r: pixels(m, r, v, lambda co, p: eq(
                v, norm(p), mk('CH', mk('IN', o['img'][0], *co), k), 'pixel (%d,%d)' % co)))
            v.emit(R, 'extract', f)
        elif f.name in ('constructRGB', 'constructRGBDOUBLE', 'constructHSV', 'constructMultiChannel') and o['img'] and not o['int']:
            v = V()
            n = len(o['img'])
            for pk in ((1, 2) if o['other'] else (0,)):
                I = interp(3)
                if not o['other']:
                    I.tvals = {'channel_count': const(n)}
                names = o['img'] + ['%s%d' % (o['other'][0], i) for i in range(pk)]
                every(I.run(f, packn=pk), {x: SH for x in names}, {}, v, lambda m, r: pixels(m, r, v, lambda co, p: assembled(
                    m, v, p, [mk('IN', x, *co) for x in names], 'of pixel (%d,%d)' % co)))
            v.emit(R, 'assemble', f)
        elif f.name == 'addChannel' and len(o['img']) == 2:
            v = V()
            for n in (1, 2, 3):
                for pk in ((1, 2) if o['other'] else (0,)):
                    names = o['img'] + ['%s%d' % (o['other'][0], i) for i in range(pk)]
                    every(interp(n).run(f, packn=pk), {x: SH for x in names}, {}, v, lambda m, r: pixels(m, r, v, lambda co, p: assembled(
                        m, v, p, [mk('CH', mk('IN', names[0], *co), i) for i in range(n)] + [mk('IN', x, *co) for x in names[1:]], 'of pixel (%d,%d)' % co)))
            v.emit(R, 'assemble', f)
        elif f.name == 'addChannel' and not o['img'] and not o['vec'] and len(f.params) == 2:
            v = V()
            a, b = (mk('sym', p['n'], None) for p in f.params)
            for n in (1, 2, 3):
                every(interp(n).run(f), {}, {}, v, lambda m, r: assembled(m, v, m.value(r, {}), [mk('CH', a, i) for i in range(n)] + [b], 'of the pixel'))
            v.emit(R, 'assemble', f)
        elif f.name == 'convert_image' and len(o['img']) == 1:
            v = V()
            every(interp(3).run(f), {o['img'][0]: SH}, {}, v, lambda m, r: pixels(m, r, v, lambda co, p: assembled(
                m, v, p, [mk('CH', mk('IN', o['img'][0], *co), i) for i in range(3)], 'of pixel (%d,%d)' % co)))
            v.emit(R, 'assemble', f)
        elif f.name == 'apply_each' and o['img']:
            v = V()
            op = next((p['n'] for i, p in enumerate(f.params) if not p.get('pack') and p['n'] not in o['img']), None)
            pack = next((p['n'] for p in f.params if p.get('pack')), None)
            for n in ns:
                fr = interp(n).run(f, args={op: mk('opq', op)})
                extra = [mk('sym', '%s%d' % (pack, i), None) for i in range(2)] if pack else []

                def px(m, co, p):
                    w = width(m, p)
                    if w is not None and w != n:
                        v.bad = v.bad or 'the result has %d channels instead of %d' % (w, n)
                        return
                    for k in range(n):
                        c = chan(m, p, k)
                        if c.k != 'AP':
                            v.unk = 'value %s' % c.k
                            if c.k in KNOWN:
                                v.bad = v.bad or 'channel %d of the result is %s, not the result of the operation' % (k, desc(c))
                            continue
                        if c.a[1] != co:
                            v.bad = v.bad or 'channel %d of pixel %s comes from pixel %s of the result' % (k, co, c.a[1])
                        if co == (0, 0):
                            applied(m, c.a[0], o['img'], k, extra, v, 'channel %d of the result' % k)
                every(fr, {x: SH for x in o['img']}, {}, v, lambda m, r: pixels(m, r, v, lambda co, p: px(m, co, p)))
            v.emit(R, 'per-channel', f)
        elif f.name == 'apply_each_single_output' and o['img'] and len(o['int']) == 1:
            v = V()
            op = next((p['n'] for i, p in enumerate(f.params) if not p.get('pack') and p['n'] not in o['img'] + o['int']), None)
            pack = next((p['n'] for p in f.params if p.get('pack')), None)
            extra = [mk('sym', '%s%d' % (pack, i), None) for i in range(2)] if pack else []
            for n in (1, 2, 3):
                fr = interp(3).run(f, args={op: mk('opq', op)})

                def body(m, r):
                    if m.length(r, {}) != n:
                        v.bad = v.bad or '%d results for %d channels' % (m.length(r, {}), n)
                        return
                    for k in range(n):
                        t, env = m.at(r, k, {})
                        if t.k != 'img' or t.a[2].k != 'applied':
                            raise Unk('element %s' % t.k)
                        applied(m, t.a[2], o['img'], k, extra, v, 'element %d of the result' % k, {i: const(x) for i, x in env.items()})
                every(fr, {x: SH for x in o['img']}, {o['int'][0]: n}, v, body)
            v.emit(R, 'per-channel', f)
        elif f.name == 'apply_multichannel' and len(f.params) >= 3:
            v = V()
            ps = [p for i, p in enumerate(f.params) if kind_of_type(f.ptype(i), f.req()) != 'policy']
            a, op = mk('sym', ps[0]['n'], None), mk('opq', ps[1]['n'])
            for n in (2, 3) if 'MultiChannel' in f.sig() else (3,):
                fr = interp(n).run(f, args={ps[1]['n']: op})

                def body(m, r):
                    for k in range(n):
                        c = chan(m, r, k)
                        if c.k != 'app' or c.a[0] != 'call' or c.a[1][0] is not op:
                            v.unk = 'value %s' % c.k
                            if c.k in KNOWN:
                                v.bad = v.bad or 'channel %d of the result is %s, not the result of the operation' % (k, desc(c))
                            continue
                        eq(v, norm(c.a[1][1]), mk('CH', a, k), 'the operand for channel %d' % k)
                        v.n += 1
                        if [show(x) for x in c.a[1][2:]] != [ps[2]['n'] + '0', ps[2]['n'] + '1']:
                            v.unk = 'arguments'
                every(fr, {}, {}, v, body)
            v.emit(R, 'per-channel', f)


def assembled(m, v, p, want, where):
    w = width(m, p)
    if w is not None and w != len(want):
        v.bad = v.bad or 'the pixel has %d channels instead of %d' % (w, len(want))
        return
    for k, e in enumerate(want):
        try:
            c = chan(m, p, k)
        except NoChan as ex:
            v.bad = v.bad or 'channel %d %s is missing' % (k, where)
            return
        eq(v, c, e, 'channel %d %s' % (k, where))


def componentwise(interp, f, R):
    v = V()
    a, b = mk('sym', 'this', None), mk('sym', f.params[0]['n'], None)
    for n in (2, 3, 4) if f.cls == 'MultiChannel' else (3,):
        fr = interp(n).run(f, this=a)

        def body(m, r):
            ch = dict(r.a[1]).get('channels') if r.k == 'struct' else r
            if ch is None or m.length(ch, {}) != n:
                raise Unk('result')
            for k in range(n):
                t, env = m.at(ch, k, {})
                if t.k == 'UNINIT':
                    v.bad = v.bad or 'channel %d of the result is never set' % k
                    return
                if t.k == 'app' and t.a[0] == 'u8':
                    t = t.a[1][0]
                t = m.value(t, env)
                x, y = (mk('elem', mk('fld', z, 'channels', None), const(k), None) for z in (a, b))
                v.n += 1
                if t is not (add(x, y) if f.name == 'operator+' else sub(x, y)):
                    if t.k in ('poly', 'elem') and all(s.k in ('poly', 'elem', 'fld', 'sym', 'const') for s in subterms(t)):
                        v.bad = v.bad or 'channel %d of the result is %s' % (k, show(t)[:200])
                    else:
                        v.unk = 'value %s' % t.k
        every(fr, {}, {}, v, body)
    v.emit(R, 'componentwise', f)
