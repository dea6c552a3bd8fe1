"""Memory safety of pixel access: an access the library does not check lies inside the image or buffer it indexes."""
import itertools
import json
import math
import os
import traceback
import zlib
from collections import defaultdict
from core import CheckError
from lib import *
from sem import *
from rules.c11 import M as CM
from rules.c22 import prepare, canon, opq

TUS = ['lib']
MIN = {'inside': 400}
FILES = ('image_operations.h', 'basic_functions.h', 'image_io.h', 'image_io.cpp', 'histogram.h')
SHAPES = [(3, 2), (2, 3), (1, 4), (4, 1), (5, 3), (1, 1), (2, 7), (6, 6)]
INTS = [0, 1, 2, 3, 5, 9]
FLOATS = [Fraction(1, 2), Fraction(2), Fraction(13, 4), Fraction(-1, 3)]
MAXEV = 400
PX = ('px', 'pptr')


class SM(CM):
    """one assignment of extents and scalars; equality facts are decided, not assumed"""
    I = None
    seed = 0
    frac = False

    def num(self, t, iv):
        # integers inside the arguments are arbitrary
        if t.k == 'EL' and t.a[0] in self.elems:
            return Fraction(INTS[(zlib.crc32(repr(t.a).encode()) + self.seed) % len(INTS)])
        if t.k == 'elem' and t.a[0].k == 'fld' and t.a[0].a[0].k in ('sym', 'var') and t.a[0].a[0].a[0] in self.elems:
            return Fraction(INTS[(zlib.crc32(repr((t.a[0].a[0].a[0], t.a[0].a[1], self.int(t.a[1], iv))).encode()) + self.seed) % len(INTS)])
        return Model.num(self, t, iv)

    def truth(self, t, iv):
        if t.k == 'eqv':
            return Model.truth(self, t, iv)
        return CM.truth(self, t, iv)

    def opaque(self, t, nm, a, iv):
        if nm in ('stoull', 'stoul', 'stoi', 'stol') and a:
            return Fraction(INTS[(zlib.crc32(show(t).encode()) + self.seed) % len(INTS)])
        # a value computed by a callable argument is arbitrary
        if a and opq(t):
            try:
                ob = canon(a[0])
            except Unk:
                ob = None
            k = (nm, ob, [show(x) if x.k in ('sym', 'var') else str(self.num(x, iv)) for x in a[1:]])
            return Fraction(zlib.crc32(repr((k, self.seed)).encode()) % 37, 4)
        return None

    def shape(self, im, iv):
        if im.k == 'imgp' and im.a[0] not in self.shapes and im in self.I.shape0:
            return self.shape(self.I.shape0[im], iv)
        return Model.shape(self, im, iv)

    def length(self, v, iv):
        if v.k in ('sym', 'var') and v in self.I.shape0 and v.a[0] not in self.elems:
            return self.length(self.I.shape0[v], iv)
        if v.k == 'uninitv' and len(v.a) > 1:
            x = re.search(r'\[(\d+)\]$', str(v.a[1]).strip())
            if x:
                return int(x.group(1))
        return Model.length(self, v, iv)


def index(m, t, env):
    """a real-valued index is truncated by the conversion to the index type"""
    x = m.num(t, env)
    if x.denominator == 1:
        return int(x)
    if x < 0:
        raise Unk('negative fraction')
    m.frac = True
    return math.floor(x)


def coords(m, e, env):
    """(index tuple, extent tuple) of the access"""
    if e['k'] in PX:
        s = m.shape(e['img'], env)
        co = e['coords']
        if len(co) == 1 and co[0].k == 'lin':
            n = 1
            for x in s:
                n *= x
            return (index(m, co[0].a[0], env),), (n,)
        if len(co) == 1 and co[0].k == 'vidx':
            co = m.vec(co[0].a[0], env)
        if len(co) == 1 and len(s) != 1:
            # operator[]: a linear position
            n = 1
            for x in s:
                n *= x
            return (index(m, co[0], env),), (n,)
        c = tuple(index(m, x, env) for x in co)
        if len(c) != len(s):
            raise Unk('number of coordinates')
        return c, tuple(s)
    return (index(m, e['idx'], env),), (m.length(e['base'], env),)


def local(I, v):
    """a buffer the operation created itself, or the data of an image"""
    n = 0
    while n < 50:
        n += 1
        if v.k in ('store', 'vlay', 'vpush'):
            v = v.a[0]
        elif v in I.shape0:
            v = I.shape0[v]
        elif v.k == 'ite':
            return local(I, v.a[1]) and local(I, v.a[2])
        else:
            break
    return v.k in ('vecn', 'vmap', 'data', 'vec', 'iota', 'uninitv', 'sizevec')


def contract(I, e, ints):
    """an element of a fixed aggregate selected by an argument: the caller's choice"""
    return e['k'] not in PX and e['base'].k == 'vec' and contains(e['idx'], lambda t: t.k in ('sym', 'var') and t.a[0] in ints)


def atoms_of(t):
    return {s for s in subterms(t) if s.k in ('sz', 'sym', 'var', 'len', 'count')}


def guarded(e, c):
    """a check on the path compares a quantity the negative coordinate is made of: unsigned wrap-around decides it"""
    ts = [x for x, v in zip(terms(e), c) if v < 0] if e['k'] in PX and len(terms(e)) == len(c) else terms(e)
    mine = set()
    for t in ts:
        mine |= atoms_of(t)
    for f in list(e['pc']) + list(e['facts'] or ()):
        if f.k == 'le0' and any(x.k == 'iv' for x in atoms(f.a[0])) and len(conj(f)) == 1 and onlybound(f, e):
            continue
        if f.k == 'eq0' and all(x.k == 'dim' for x in atoms(f.a[0])):
            continue
        if atoms_of(f) & mine:
            return True
    return False


def unrelated(f, e):
    if contains(f, lambda t: t.k in ('iv', 'sz', 'dim', 'count', 'len', 'px', 'elem', 'sizevec', 'data')):
        return False
    mine = set()
    for t in terms(e) + [l.iv.a[2] for l in e['loops'] if l.iv is not None and isinstance(l.iv.a[2], T)]:
        mine |= atoms_of(t)
    return not (atoms_of(f) & mine)


def onlybound(f, e):
    """the fact is the bound of an enclosing loop"""
    for l in e['loops']:
        if l.iv is None:
            continue
        if f is le0(neg(l.iv)) or isinstance(l.iv.a[2], T) and f is le0(add(sub(l.iv, l.iv.a[2]), ONE)):
            return True
    return False


def terms(e):
    if e['k'] not in PX:
        return [e['idx']]
    return [c.a[0] if c.k in ('lin', 'vidx') else c for c in e['coords']]


def judge(m, e, out):
    ivs = [l.iv for l in e['loops'] if l.iv is not None]
    facts = [f for f in e['facts'] or ()]
    pc = list(e['pc'])

    def body(env):
        m.frac = False
        try:
            c, s = coords(m, e, env)
        except Undef as ex:
            # a negative value converted to an unsigned index
            out['skip'] = str(ex)
            return
        if all(0 <= x < n for x, n in zip(c, s)):
            out['n'] += 1
            return
        if m.frac:
            raise Unk('fraction')
        for f in pc + facts:
            try:
                if not m.truth(f, env):
                    return
            except Undef as ex:
                # a derived equation between extents that do not exist says nothing
                if f in pc or not str(ex).startswith('extent'):
                    raise
            except Unk:
                # a condition on other objects (a stream, a string) can hold for any extents
                if unrelated(f, e):
                    continue
                raise
        if min(c) < 0 and guarded(e, c):
            raise Unk('wrap-around')
        out['bad'] = (c, s, dict(env))
        raise StopIteration
    m.iterate(ivs, {}, body)


def wraps(m, evs, e):
    """an unsigned quantity wraps around somewhere in this model: the checks may see another value"""
    bad = [False]
    for x in evs:
        if x is e:
            continue
        n = [0]

        def body(env):
            n[0] += 1
            if n[0] > 50:
                raise StopIteration
            c, s = coords(m, x, env)
            if min(c, default=0) < 0 or min(s, default=0) < 0:
                bad[0] = True
                raise StopIteration
        try:
            m.iterate([l.iv for l in x['loops'] if l.iv is not None], {}, body)
        except StopIteration:
            if bad[0]:
                return True
        except (Unk, Undef):
            pass
    return False


def prep(P, f):
    I = prepare(P)
    args, shapes, ints, vecs, floats = {}, [], [], [], []
    I.tvals = {t['n']: const(3) for t in f.d.get('tps', []) if re.search(r'\bsize_t\b', t['s'])}
    for i, p in enumerate(f.params):
        ty, n = f.ptype(i), p['n']
        k = kind_of_type(ty, f.req())
        if p.get('pack'):
            t = tuple(I.symbolic('%s%d' % (n, j), ty.replace('...', ''), f.req()) for j in range(2))
            if k == 'img':
                shapes += [n + '0', n + '1']
            elif k in ('size', 'int'):
                ints += [n + '0', n + '1']
        else:
            t = I.symbolic(n, ty, f.req())
            if k == 'img':
                shapes.append(n)
            elif k in ('size', 'int') or strip_type(ty) == 'bool':
                ints.append(n)
            elif k == 'vec' or k is None and t.k == 'sym':
                vecs.append(n)
            if k in ('flt', 'num') or re.search(r'^(double|float|\w*(Sigma|Floating|Float)\w*)$', strip_type(ty)):
                floats.append(n)
        args[n] = t
    I.floats = floats
    return I, args, shapes, ints, vecs


def models(shapes, ints, vecs):
    """a spread of shapes, the same and different, and of scalar arguments"""
    for q, sh in enumerate(SHAPES):
        for d in (0, 1, 2):
            if d and len(shapes) < 2 and not ints and not vecs:
                continue
            S = {n: SHAPES[(q + d * i) % len(SHAPES)] for i, n in enumerate(shapes)}
            for r in range(len(INTS) if ints else 1):
                V = {n: INTS[(r + i * (1 + d) + q * (i > 0)) % len(INTS)] for i, n in enumerate(ints)}
                yield S, V, {n: (q + d) % 4 + 1 for n in vecs}


def public(f):
    return f.body and f.file in FILES and not f.cls and not re.search(r'(_detail|_impl|_helper)\b', f.name)


def run(P, R):
    R.rule('inside', 'every unchecked pixel access and every element access of a buffer is inside its extents, whenever the checks before it passed')
    fs = [f for f in P.funcs if public(f)]
    n = max(1, min(8, os.cpu_count() or 1))
    pipes = []
    for i in range(n):
        # the functions are independent of each other
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                L = Log()
                for j in range(i, len(fs), n):
                    L.i = j
                    analyse(P, L, fs[j])
                with os.fdopen(w, 'w') as fh:
                    json.dump(L.out, fh)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        pipes.append((pid, r))
    out, failed = [], False
    for pid, r in pipes:
        with os.fdopen(r) as fh:
            txt = fh.read()
        failed |= os.waitpid(pid, 0)[1] != 0
        if not failed:
            out += json.loads(txt)
    if failed:
        raise CheckError('the analysis of a function failed')
    for i, how, a in sorted(out, key=lambda x: x[0]):
        getattr(R, how)(*a)


class Log:
    def __init__(self):
        self.out, self.i = [], 0

    def ok(self, *a):
        self.out.append((self.i, 'ok', a))

    def unknown(self, *a):
        self.out.append((self.i, 'unknown', a))

    def bad(self, *a):
        self.out.append((self.i, 'bad', a))


def analyse(P, R, f):
    I, args, shapes, ints, vecs = prep(P, f)
    try:
        fr = I.run(f, args=args)
    except RecursionError:
        fr = None
    if fr is None:
        R.unknown('inside', '%s:%d %s (budget)' % (f.file, f.line, f.sig()))
        return
    evs = [e for e in I.events if e['k'] in ('relem', 'welem') and local(I, e['base']) and not contract(I, e, ints) or e['k'] in PX and not e.get('checked')]
    sites = defaultdict(dict)
    for e in evs:
        key = (e['k'] in PX, e.get('img') or e.get('base'), tuple(terms(e)), tuple(e['pc']), e['facts'], tuple(l.iv for l in e['loops']))
        sites[(e['file'], e['l'])].setdefault(key, e)
    for (file, line), es in sites.items():
        w = '%s:%d in %s:%d %s' % (file, line, f.file, f.line, f.sig())
        n, unk = 0, None
        for e in list(es.values())[:MAXEV]:
            r = access(I, e, evs, shapes, ints, vecs)
            if isinstance(r, tuple):
                c, s, S, V = r
                what = 'pixel' if e['k'] in PX else 'element'
                R.bad('inside', fkey(f) + '|' + what + '|' + 'x'.join(map(str, s)) + '|' + ','.join(map(str, c)), file, line, f.sig(),
                      '%s (%s) of %s with extents %s is accessed without a check, for %s' % (what, ','.join(map(str, c)), 'an image' if what == 'pixel' else 'a buffer', 'x'.join(map(str, s)),
                      ', '.join(['%s %s' % (k, 'x'.join(map(str, v))) for k, v in S.items()] + ['%s=%d' % z for z in V.items()]) or 'any arguments'))
                return
            if r:
                unk = unk or r
            else:
                n += 1
        if unk:
            R.unknown('inside', w + ' (%s)' % unk)
        elif n:
            R.ok('inside', w)


def access(I, e, evs, shapes, ints, vecs):
    """None: inside in every model; text: undecided; tuple: outside"""
    out = {'n': 0, 'bad': None, 'skip': None}
    if any(not getattr(l, 'exact', True) or getattr(l, 'brk', False) for l in e['loops']):
        return 'loop bound'
    u, tested = None, 0
    cxs = [t for t in {s for x in list(e['pc']) + list(e['facts'] or ()) for s in subterms(x) if s.k == 'cx'}][:3]
    for q, (S, V, L) in enumerate(models(shapes, ints, vecs)):
        for b in itertools.product((True, False), repeat=len(cxs)):
            m = SM(S, V, dict(zip(cxs, b)))
            m.I = I
            m.elems.update(L)
            m.seed = q
            m.vals = {**V, **{n: FLOATS[(q + i) % len(FLOATS)] for i, n in enumerate(I.floats)}}
            try:
                judge(m, e, out)
                tested += 1
            except Unk as ex:
                u = str(ex)
            except Undef:
                pass
            except StopIteration:
                if wraps(m, evs, e):
                    u = 'wrap-around'
                    continue
                c, s, env = out['bad']
                return c, s, S, V
        if u and u not in ('wrap-around', 'fraction'):
            break
    return u or out['skip'] or (None if tested else 'no model')
