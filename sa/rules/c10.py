"""Geometric rearrangements put exactly the specified source pixel at every output position."""
import itertools
from lib import *
from sem import *

TUS = ['lib']
MIN = {'index-map': 20, 'region': 0}

PI = Fraction(884279719003555, 281474976710656)


def IN(n, x, y):
    return mk('IN', n, x, y)


SH = [(1, 1), (2, 3), (3, 2), (4, 3), (3, 5)]
SHM = [(2, 3), (4, 3), (3, 5)]


def one(ints=((),), shapes=SH):
    return [((s,), i) for s in shapes for i in ints]


# name -> (cases, spec).  cases: [(shapes of the image operands, values of the integer operands)];
# spec(names, shapes, ints, d) -> (extents, pixel function), d = the fill element
def sp_flip(fx, fy):
    def spec(nm, sh, it, d):
        w, h = sh[0]
        return (w, h), lambda x, y: IN(nm[0], w - 1 - x if fx else x, h - 1 - y if fy else y)
    return spec


def sp_transpose(nm, sh, it, d):
    return (sh[0][1], sh[0][0]), lambda x, y: IN(nm[0], y, x)


def sp_rot90(nm, sh, it, d):
    w, h = sh[0]
    return (h, w), lambda x, y: IN(nm[0], y, h - 1 - x)


def sp_quarter(k):
    def spec(nm, sh, it, d):
        w, h = sh[0]

        def px(x, y):
            W, H = (h, w) if k % 2 else (w, h)
            for _ in range(k):
                x, y = y, W - 1 - x
                W, H = H, W
            return IN(nm[0], x, y)
        return ((h, w) if k % 2 else (w, h)), px
    return spec


def sp_sub2(nm, sh, it, d):
    a, b, c, e = it
    return (b - a + 1, e - c + 1), lambda x, y: IN(nm[0], a + x, c + y)


def sp_sub(nm, sh, it, d):
    w, h, xc, yc = it

    def px(x, y):
        x, y = xc - w // 2 + x, yc - h // 2 + y
        return IN(nm[0], x, y) if 0 <= x < sh[0][0] and 0 <= y < sh[0][1] else d
    return (w, h), px


def sp_paste(nm, sh, it, d):
    (bw, bh), (tw, th) = sh
    X, Y = it

    def px(x, y):
        if X <= x < X + tw and Y <= y < Y + th:
            return IN(nm[1], x - X, y - Y)
        return IN(nm[0], x, y) if x < bw and y < bh else d
    return (max(bw, X + tw), max(bh, Y + th)), px


def sp_pad(mode):
    def spec(nm, sh, it, d):
        w, h = sh[0]
        ew, eh = it

        def ax(v, e, n):
            v -= e
            if 0 <= v < n:
                return v
            if mode == 'constant':
                return None
            if mode == 'mirror':
                return -v if v < 0 else 2 * (n - 1) - v
            return 0 if v < 0 else n - 1

        def px(x, y):
            x, y = ax(x, ew, w), ax(y, eh, h)
            return d if x is None or y is None else IN(nm[0], x, y)
        return (w + 2 * ew, h + 2 * eh), px
    return spec


def sp_cat(axis):
    def spec(nm, sh, it, d):
        def px(x, y):
            o = 0
            for n, s in zip(nm, sh):
                v = x if axis == 0 else y
                if v < o + s[axis]:
                    return IN(n, x - o if axis == 0 else x, y - o if axis else y)
                o += s[axis]
        e = [sh[0][0], sh[0][1]]
        e[axis] = sum(s[axis] for s in sh)
        return tuple(e), px
    return spec


SUBC = [((s,), i) for s in SHM for i in ((1, 1, 0, 0), (2, 2, 1, 1), (3, 3, 1, 1), (2, 3, 2, 1), (3, 2, s[0] - 1, s[1] - 1), (4, 5, 3, 2), (3, 3, 2, 2))]
SUB2C = [((s,), i) for s in SHM for i in ((0, 0, 0, 0), (0, s[0] - 1, 0, s[1] - 1), (1, 1, 0, 2), (0, 1, 1, 2), (s[0] - 1, s[0] - 1, s[1] - 1, s[1] - 1))]
PASTE = [((b, t), i) for b in ((3, 4), (5, 2)) for t in ((1, 1), (2, 3), (4, 2)) for i in ((0, 0), (1, 0), (0, 1), (2, 1), (4, 3), (3, 0), (0, 3), (6, 6))]
PAD = one(((0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2)))
PADM = [c for c in PAD if c[1][0] < c[0][0][0] and c[1][1] < c[0][0][1]]
SPECS = {
    'flip_horizontal': (one(), sp_flip(1, 0)), 'flip_vertical': (one(), sp_flip(0, 1)), 'flip_horizontal_vertical': (one(), sp_flip(1, 1)),
    'transpose': (one(), sp_transpose), 'subimage2': (SUB2C, sp_sub2), 'subimage': (SUBC, sp_sub), 'paste2D': (PASTE, sp_paste),
    'generate_constant_padding_image': (PAD, sp_pad('constant')), 'generate_mirror_padding_image': (PADM, sp_pad('mirror')),
    'generate_replicate_padding_image': (PAD, sp_pad('replicate')),
    'concat_horizontal': ([((a, b), ()) for a, b in (((1, 2), (3, 2)), ((2, 3), (2, 3)), ((4, 1), (1, 1)))], sp_cat(0)),
    'concat_vertical': ([((a, b), ()) for a, b in (((2, 1), (2, 3)), ((3, 2), (3, 2)), ((1, 4), (1, 1)))], sp_cat(1)),
    'rotate_detail': (one(), sp_rot90), 'rotate_detail_shear_transformation': (one(), sp_rot90),
}


def operands(f):
    """(image names, integer names, element names, vector names, float names) by declared type"""
    o = {'img': [], 'int': [], 'elem': [], 'vec': [], 'flt': [], 'other': []}
    req = f.req()
    for i, p in enumerate(f.params):
        t = f.ptype(i)
        k = kind_of_type(t, req)
        if k == 'policy':
            continue
        if p.get('pack'):
            o['other'].append(p['n'])
        elif k == 'img':
            o['img'].append(p['n'])
        elif k in ('size', 'int'):
            o['int'].append(p['n'])
        elif k == 'vec':
            o['vec'].append(p['n'])
        elif k == 'flt' or strip_type(t) == 'FloatingType':
            o['flt'].append(p['n'])
        elif k is None and re.fullmatch(r'[A-Z]\w*', strip_type(t)) and any(strip_type(t) == image_elem(f.ptype(j)) for j in range(len(f.params)) if kind_of_type(f.ptype(j), req) == 'img'):
            o['elem'].append(p['n'])
        else:
            o['other'].append(p['n'])
    return o


def fits(o, ni, nn, flt=0):
    return len(o['img']) == ni and len(o['int']) == nn and len(o['elem']) <= 1 and not o['vec'] and len(o['flt']) == flt


def show_px(v):
    if isinstance(v, Undef):
        return 'a pixel outside an image (%s)' % v
    if v.k == 'IN':
        return '%s(%d,%d)' % v.a
    return {'UNINIT': 'an unset element'}.get(v.k, show(v)[:80])


def compare(fr, cases, spec, names, ints, elem, R, rule, f, what='', fixed=None, get=None):
    """one verdict per function: ok / unknown / bad with the first differing pixel"""
    w = '%s:%d %s%s' % (f.file, f.line, f.sig(), what)
    if fr is None:
        return R.unknown(rule, w + ' (budget)')
    d = mk('sym', elem, None) if elem else None
    npx = 0
    for sh, it in cases:
        vals = dict(zip(ints, it))
        vals.update(fixed or {})
        m = Model(dict(zip(names, sh)), vals)
        eff = ', '.join(['%s is %dx%d' % (n, s[0], s[1]) for n, s in zip(names, sh)] + ['%s=%s' % x for x in zip(ints, it)])
        try:
            x = m.exit_of(fr)
        except Unk as ex:
            return R.unknown(rule, w + ' (%s)' % ex)
        except Undef as ex:
            return R.unknown(rule, w + ' (%s)' % ex)
        if x is None:
            return R.bad(rule, fkey(f) + what.replace(' ', ''), f.file, f.line, f.sig(), 'throws although the operands are valid (%s)' % eff)
        es, ep = spec(names, sh, it, d)
        try:
            im = x['val'] if get is None else get(m, x['val'])
            s, px = image_of(m, im)
        except Unk as ex:
            return R.unknown(rule, w + ' (%s)' % ex)
        except Undef as ex:
            if ex.negative:
                return R.unknown(rule, w + ' (%s)' % ex)
            return R.bad(rule, fkey(f) + what.replace(' ', ''), f.file, f.line, f.sig(), 'where %s: %s' % (eff, ex))
        if tuple(s) != tuple(es):
            return R.bad(rule, fkey(f) + what.replace(' ', ''), f.file, f.line, f.sig(), 'result is %s instead of %s where %s' % ('x'.join(map(str, s)), 'x'.join(map(str, es)), eff))
        for co, v in sorted(px.items()):
            if isinstance(v, Undef) and v.negative:
                continue
            e = ep(*co)
            npx += 1
            if e is None:
                e = v if not isinstance(v, Undef) and v.k not in ('IN', 'UNINIT') else mk('sym', 'the fill element', None)
            if v is not e:
                if not isinstance(v, Undef) and v.k not in ('IN', 'UNINIT', 'poly', 'UPD') and v is not d:
                    return R.unknown(rule, w + ' (value %s)' % v.k)
                return R.bad(rule, fkey(f) + what.replace(' ', ''), f.file, f.line, f.sig(), 'output pixel (%s) is %s instead of %s where %s' % (
                    ','.join(map(str, co)), show_px(v), show_px(e), eff))
    R.ok(rule, w + ' (%d shapes, %d pixels)' % (len(cases), npx))


class Buf:
    """collects the verdict of one comparison"""

    def __init__(self):
        self.v = []

    def ok(self, *a):
        self.v.append(('ok', a))

    def unknown(self, *a):
        self.v.append(('unknown', a))

    def bad(self, *a):
        self.v.append(('bad', a))


def literal(names, sh, args):
    """operands with the given extents and opaque pixels"""
    m = {mk('imgp', n): mk('img', 'arg:' + n, tuple(const(x) for x in s), mk('copy', mk('imgp', n))) for n, s in zip(names, sh)}

    def go(t):
        if t in m:
            return m[t]
        return mk('vec', tuple(go(x) for x in t.a[0])) if t.k == 'vec' else t
    a = {n: go(v) for n, v in (args or {}).items()}
    for n in names:
        if not any(mk('imgp', n) in subterms(v) for v in (args or {}).values()):
            a[n] = m[mk('imgp', n)]
    return a


def decide(I, f, o, cases, spec, R, rule, what='', args=None, get=None, names=None):
    """symbolic summary first; where it is not closed, summaries specialised to each case's extents and integers"""
    names = names or o['img']
    elem = (o['elem'] or [None])[0]
    ints = o['int'] if args is None else [n for n in o['int'] if n not in args]
    b = Buf()
    compare(I.run(f, args=args), cases, spec, names, ints, elem, b, rule, f, what, get=get)
    if b.v[-1][0] == 'unknown':
        un = I.unroll
        I.unroll = 12
        done = []
        try:
            for sh, it in cases[::max(1, len(cases) // 6)]:
                a = literal(names, sh, args)
                a.update({n: const(x) for n, x in zip(ints, it)})
                c = Buf()
                compare(I.run(f, args=a), [(sh, it)], spec, names, ints, elem, c, rule, f, what, get=get)
                done.append(c.v[-1])
        finally:
            I.unroll = un
        bad = [x for x in done if x[0] == 'bad']
        if bad:
            b = Buf()
            b.v = bad[:1]
        elif done and all(x[0] == 'ok' for x in done):
            b = Buf()
            b.v = [('ok', (rule, '%s:%d %s%s (specialised to %d cases)' % (f.file, f.line, f.sig(), what, len(done))))]
        elif done:
            b.v = [x for x in done if x[0] == 'unknown'][:1]
    k, a = b.v[-1]
    getattr(R, k)(*a)


def vget(i, j=None):
    def g(m, v):
        for x in ([i] if j is None else [i, j]):
            l = m.vec(v, {})
            if not 0 <= x < len(l):
                raise Undef('only %d blocks' % len(l))
            v = l[x]
        return v
    return g


def sp_split(nx, ny, i, j, ext=0, mode='constant'):
    """block (i, j); with ext, extended on every side over the padded image"""
    def spec(nm, sh, it, d):
        w, h = sh[0]
        bx, by = w // nx, h // ny
        ex, ey = it if ext else (0, 0)
        s, pad = sp_pad(mode)(nm, sh, (ex, ey), d)
        return (bx + 2 * ex, by + 2 * ey), lambda x, y: pad(i * bx + x, j * by + y)
    return spec


def run(P, R):
    R.rule('index-map', 'the closed-form summary of the result (extents; per pixel, the source coordinates as a function of the position) '
                        'agrees with the specified index map; operands within the precondition do not raise')
    R.rule('region', 'a region that is inverted or reaches beyond the image leaves no normal exit')
    I = Interp(P)
    I.unroll = 4
    A, B, C, D = (mk('imgp', n) for n in ('first', 'second', 'third', 'fourth'))
    for f in P.funcs:
        if not f.body or f.file != 'image_operations.h':
            continue
        o = operands(f)
        rule = 'index-map'
        if f.name in SPECS:
            cases, spec = SPECS[f.name]
            ni, nn = len(cases[0][0]), len(cases[0][1])
            if f.name.startswith('rotate'):
                if fits(o, 1, 0, 1):
                    I.gvals = {'std::numbers::pi_v': const(PI)}
                    decide(I, f, o, cases, spec, R, rule, ' (quarter turn)', args={o['flt'][0]: const(PI / 2)})
                    I.gvals = {}
                continue
            if fits(o, ni, nn):
                decide(I, f, o, cases, spec, R, rule)
                if f.name == 'subimage2':
                    outside(I, f, o, R)
                continue
        if f.name == 'rotate' and fits(o, 1, 0, 1) and not o['other']:
            I.gvals = {'std::numbers::pi_v': const(PI)}
            for k in (0, 1, 2, 3):
                decide(I, f, o, one(), sp_quarter(k), R, rule, ' (%d quarter turns)' % k, args={o['flt'][0]: const(k * PI / 2)})
            I.gvals = {}
            continue
        if f.name in ('concat_horizontal', 'concat_vertical') and len(o['vec']) == 1 and not o['img'] and not o['int']:
            ax = 1 if f.name == 'concat_vertical' else 0
            cs = [tuple((a, 2) if ax == 0 else (2, a) for a in t) for t in ((1, 2, 3), (2, 2, 1), (3, 1, 1))]
            decide(I, f, o, [(c, ()) for c in cs], sp_cat(ax), R, rule, ' (three images)', args={o['vec'][0]: mk('vec', (A, B, C))}, names=['first', 'second', 'third'])
            decide(I, f, o, [(c[:1], ()) for c in cs], sp_cat(ax), R, rule, ' (one image)', args={o['vec'][0]: mk('vec', (A,))}, names=['first'])
        elif f.name == 'concat' and len(o['vec']) == 1 and not o['img'] and not o['int']:
            def spec(nm, sh, it, d):
                (w0, h0), (w1, _), (_, h1), _ = sh
                return (w0 + w1, h0 + h1), lambda x, y: IN(nm[(x >= w0) + 2 * (y >= h0)], x - w0 * (x >= w0), y - h0 * (y >= h0))
            cs = [(((a, c), (b, c), (a, e), (b, e)), ()) for a, b, c, e in ((1, 2, 2, 3), (3, 1, 1, 2), (2, 2, 2, 2))]
            decide(I, f, o, cs, spec, R, rule, ' (two by two)', args={o['vec'][0]: mk('vec', (mk('vec', (A, B)), mk('vec', (C, D))))}, names=['first', 'second', 'third', 'fourth'])
        elif f.name == 'subimage' and len(o['img']) == 1 and len(o['vec']) == 2 and not o['int']:
            v = [mk('sym', n, 'size') for n in ('w', 'h', 'xc', 'yc')]
            o = dict(o, int=['w', 'h', 'xc', 'yc'])
            args = {o['vec'][0]: mk('vec', (v[0], v[1])), o['vec'][1]: mk('vec', (v[2], v[3]))}
            decide_nd(I, f, o, R, rule, args)
        elif f.name == 'split' and fits(o, 1, 2):
            for nx, ny in ((1, 1), (2, 3), (3, 2)):
                for i, j in itertools.product(range(nx), range(ny)):
                    decide(I, f, o, [(((a, b),), ()) for a, b in ((6, 6), (4, 7), (3, 3))], sp_split(nx, ny, i, j), R, rule, ' (block %d,%d of %dx%d)' % (i, j, nx, ny),
                           args={o['int'][0]: const(nx), o['int'][1]: const(ny)}, get=vget(j, i))
        elif padding_modes(I, f, o, R, rule):
            pass


def padding_modes(I, f, o, R, rule):
    """operations that take a boundary condition: each condition selects its own padding"""
    if f.name not in ('split_overlap', 'generate_padded_image') or len(o['img']) != 1 or o['vec'] or len(o['other']) != 1:
        return False
    for mode in ('constant', 'mirror', 'replicate'):
        a = {o['other'][0]: mk('enum', mode)}
        if f.name == 'generate_padded_image' and len(o['int']) == 2:
            decide(I, f, o, PADM, sp_pad(mode), R, rule, ' (%s)' % mode, args=a)
        elif f.name == 'split_overlap' and len(o['int']) == 4:
            for i, j in ((0, 0), (1, 0), (0, 1), (1, 1)):
                b = dict(a)
                b.update({o['int'][0]: const(2), o['int'][1]: const(2)})
                decide(I, f, o, [((s,), e) for s in ((6, 6), (4, 7)) for e in ((1, 1), (0, 0), (2, 1))], sp_split(2, 2, i, j, 1, mode), R, rule,
                       ' (block %d,%d of 2x2, %s)' % (i, j, mode), args=b, get=vget(j, i))
    return True


def outside(I, f, o, R):
    """regions reaching beyond the image leave no normal exit"""
    fr = I.run(f)
    w = '%s:%d %s' % (f.file, f.line, f.sig())
    if fr is None:
        return R.unknown('region', w)
    for it in ((0, 4, 0, 2), (0, 3, 0, 3), (1, 0, 0, 0), (0, 0, 2, 1), (4, 4, 0, 0), (0, 0, 3, 3), (5, 7, 0, 1), (0, 1, 9, 9)):
        m = Model({o['img'][0]: (4, 3)}, dict(zip(o['int'], it)))
        try:
            x = m.exit_of(fr)
        except (Unk, Undef) as ex:
            return R.unknown('region', w + ' (%s)' % ex)
        if x is not None:
            try:
                s, px = image_of(m, x['val'])
                if all(not isinstance(v, Undef) for v in px.values()) and s:
                    return R.unknown('region', w + ' (returns an image without reading outside)')
            except Unk as ex:
                return R.unknown('region', w + ' (%s)' % ex)
            except Undef:
                pass
            return R.bad('region', fkey(f), f.file, f.line, f.sig(), 'the region %s of a 4x3 image is read although it lies outside the image' % (it,))
    R.ok('region', w)


def decide_nd(I, f, o, R, rule, args):
    b = Buf()
    n = 0
    for sh, it in SUBC[:8]:
        a = {k: mk('vec', tuple(const(it[o['int'].index(x.a[0])]) for x in v.a[0])) for k, v in args.items()}
        un = I.unroll
        I.unroll = 32
        try:
            a.update(literal(o['img'], sh, None))
            fr = I.run(f, args=a)
        finally:
            I.unroll = un
        compare(fr, [(sh, it)], sp_sub, o['img'], o['int'], (o['elem'] or [None])[0], b, rule, f, ' (two dimensions)')
    bad = [x for x in b.v if x[0] == 'bad'] or [x for x in b.v if x[0] == 'unknown'] or b.v
    getattr(R, bad[0][0])(*bad[0][1])
