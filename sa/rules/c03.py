"""All ways of addressing a pixel name the same storage location."""
from lib import *
from rules.imgclass import *

TUS = ['lib']
MIN = {'layout': 20, 'stride': 4, 'walk': 2}


def run(P, R):
    R.rule('layout', 'every accessor, interpreted with 1..4 coordinates, returns the pixel stored at sum(coordinate_k * product of the extents before k)')
    R.rule('stride', 'the stride of dimension k is the product of the extents before k; linear access uses the index itself')
    R.rule('walk', 'the coordinate iterators start at (0,0) and step x fastest, wrapping at the width into the next row, in step with the storage position')
    I = Interp(P)
    I.unroll = 5
    this = mk('imgp', 'this')
    for f in image_methods(P, 'at', 'at_without_boundary_check', 'operator[]', 'calculateIndex', 'tuple_location_to_index', 'set'):
        for n in N:
            args, cs = coords(f, n)
            if args is None:
                continue
            fr = I.run(f, this=this, args=args)
            w = '%s:%d %s, %d coordinates' % (f.file, f.line, f.sig(), n)
            if fr is None:
                R.unknown('layout', w)
                continue
            want = layout(I, this, cs)
            if f.name == 'set':
                got = [e['idx'] for e in I.events if e['k'] == 'welem']
            elif f.name in ('calculateIndex', 'tuple_location_to_index'):
                got = [x['val'] for x in fr.exits]
            else:
                got = [place(x['val'], this) for x in fr.exits]
            if got and all(g is want for g in got):
                R.ok('layout', w)
                continue
            b = next((g for g in got if g is not None and g is not want and interpretable(g)), None)
            if b is None:
                R.unknown('layout', w)
            else:
                R.bad('layout', fkey(f) + ('|const' if f.d.get('const') else ''), f.file, f.line, f.sig(),
                      'with %d coordinates it addresses position %s instead of %s' % (n, show(b), show(want)))
    for f in image_methods(P, 'getStride'):
        for k in range(0, 5):
            fr = I.run(f, this=this, args={f.params[0]['n']: const(k)})
            w = '%s:%d %s index %d' % (f.file, f.line, f.sig(), k)
            if fr is None:
                R.unknown('stride', w)
                continue
            want = I.product(mk('vec', tuple(I.sz(this, j) for j in range(k)))) if k else ONE
            got = [x['val'] for x in fr.exits]
            if got and all(g is want for g in got):
                R.ok('stride', w)
            elif any(interpretable(g) and g is not want for g in got):
                R.bad('stride', fkey(f), f.file, f.line, f.sig(), 'the stride of dimension %d is %s instead of %s' % (k, show(got[0]), show(want)))
            else:
                R.unknown('stride', w)
    for f in image_methods(P, 'get', 'set'):
        if coords(f, 1)[0] is not None or not f.params:
            continue
        idx = mk('var', 'index', 'size')
        fr = I.run(f, this=this, args={f.params[0]['n']: idx})
        w = '%s:%d %s' % (f.file, f.line, f.sig())
        if fr is None:
            R.unknown('stride', w)
            continue
        got = [place(x['val'], this) for x in fr.exits]
        if got and all(g is idx for g in got):
            R.ok('stride', w)
        elif any(g is not None and g is not idx and interpretable(g) for g in got):
            R.bad('stride', fkey(f), f.file, f.line, f.sig(), 'linear access does not use the given index')
        else:
            R.unknown('stride', w)
    walkers(P, R, I)


def walkers(P, R, I):
    for f in P.funcs:
        if f.cls not in ('pixel_iterator', 'const_pixel_iterator', 'Image::pixel_iterator', 'Image::const_pixel_iterator') or not f.body:
            continue
        if f.name == 'operator++' and not f.params:
            flds = [q['n'] for q in fields(P, f)]
            it = [n for n in flds if 'iter' in n or n == 'it' or 'ptr' in n]
            xs, ys, ws = pick(flds, 'px', 'x'), pick(flds, 'py', 'y'), pick(flds, 'image_width', 'width', 'w')
            w = '%s:%d %s' % (f.file, f.line, f.sig())
            if not (xs and ys and ws):
                R.unknown('walk', w)
                continue
            vx, vy, vw = (mk('var', n, 'size') for n in ('x', 'y', 'w'))
            obj = mk('struct', f.cls, tuple((n, {xs: vx, ys: vy, ws: vw}.get(n, mk('var', n, 'size'))) for n in flds))
            fr = I.run(f, thisobj=obj)
            if fr is None:
                R.unknown('walk', w)
                continue
            ok, bad = True, None
            for wrap in (False, True):
                cond = eq0(sub(add(vx, ONE), vw)) if wrap else ne0(sub(add(vx, ONE), vw))
                cfacts = frozenset([cond, lt(vx, vw)])
                for x in fr.exits:
                    if any(q.k in ('eq0', 'ne0', 'le0') and entails(cfacts, t_not(q)) for q in x['st'].facts):
                        continue
                    o = x['st'].env[('thisobj', 0)]
                    gx, gy = I.field(o, xs), I.field(o, ys)
                    gx, gy = resolve(I, gx, cfacts), resolve(I, gy, cfacts)
                    wx, wy = (ZERO, add(vy, ONE)) if wrap else (add(vx, ONE), vy)
                    # x+1 == w: both spellings of the wrapped x are equal
                    if not (gx is wx and gy is wy):
                        ok = False
                        if interpretable(gx) and interpretable(gy) and not contains(gx, lambda t: t.k == 'ite') and not contains(gy, lambda t: t.k == 'ite'):
                            bad = 'after x=%s the walk continues at (%s,%s)' % ('width-1' if wrap else 'inside a row', show(gx), show(gy))
                    for n in it:
                        gi = I.field(o, n)
                        if gi is mk('var', n, 'size'):
                            bad = 'the storage position does not advance with the coordinates'
            if ok and not bad:
                R.ok('walk', w)
            elif bad:
                R.bad('walk', fkey(f), f.file, f.line, f.sig(), bad)
            else:
                R.unknown('walk', w)


def resolve(I, t, facts):
    while t.k == 'ite':
        c = I.simplify(t.a[0], facts)
        if c is TRUE:
            t = t.a[1]
        elif c is FALSE:
            t = t.a[2]
        else:
            break
    return t


def pick(flds, *names):
    for n in names:
        if n in flds:
            return n
    return None


def fields(P, f):
    r = P.recs.get(f.cls.split('::')[-1])
    return r[0]['fields'] if r else []
