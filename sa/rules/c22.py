"""An execution policy never changes the result: the policy overload and the sequential overload have the same closed form."""
import itertools
import math
import zlib
from collections import defaultdict
from lib import *
from sem import *
from algebra import *
from rules.c11 import M as CM, branches

TUS = ['lib']
MIN = {'same': 50}
NC = 3
FILES = ('image_operations.h', 'basic_functions.h', 'image.h', 'cube_operations.h', 'linear_algebra.h', 'histogram.h')
MODELS = [((3, 2), 0), ((2, 3), 1), ((1, 4), 2), ((4, 1), 3), ((3, 3), 4)]


def signature(f):
    """parameter types without the policy, template parameters renamed; plus the constraint"""
    tps = [t['n'] for t in f.d.get('tps', [])]
    mp, out = {}, []
    for i, p in enumerate(f.params):
        t = f.ptype(i)
        if kind_of_type(t, f.req()) == 'policy':
            continue
        t = short(t)
        for n in tps:
            if re.search(r'\b%s\b' % n, t):
                mp.setdefault(n, '$%d' % len(mp))
                t = re.sub(r'\b%s\b' % n, mp[n], t)
        t = re.sub(r'^const (\$\d+|size_t|int|bool|double|float)$', r'\1', t)
        out.append(t + ('...' if p.get('pack') else ''))
    req = f.d.get('req', '')
    for n, v in mp.items():
        req = re.sub(r'\b%s\b' % n, v, req)
    req = re.sub(r'[\s()]+', '', req)
    req = re.sub(r'(std::)?is_execution_policy_v<(std::)?remove_cvref_t<\w+>>', '', req)
    req = re.sub(r'^(&&|and)+|(&&|and)+$', '', req)
    return tuple(out), req, mp


def haspolicy(f):
    return any(kind_of_type(f.ptype(i), f.req()) == 'policy' for i in range(len(f.params)))


def pairs(P):
    D = defaultdict(lambda: ([], []))
    for f in P.funcs:
        if f.body and f.file in FILES:
            s, r, mp = signature(f)
            D[(f.file, f.cls, f.name, s)][haspolicy(f)].append((f, r))
    for k, (a, b) in D.items():
        if not a or not b:
            continue
        if len(a) == 1 and len(b) == 1:
            yield a[0][0], b[0][0]
            continue
        for f, r in b:
            c = [g for g, s in a if s == r]
            if len(c) == 1:
                yield c[0], f


def canon(t):
    """identities of loop variables, images and policies renamed in order of occurrence"""
    ids, memo = {}, {}

    def iv(x):
        return ids.setdefault(x.a[0], len(ids))

    def go(x):
        if isinstance(x, T):
            if x in memo:
                return memo[x]
            if x.k == 'policy':
                r = 'P'
            elif x.k == 'iv':
                r = ('iv', iv(x), go(x.a[1]), go(x.a[2]))
            elif x.k == 'img':
                r = ('img',) + tuple(go(y) for y in x.a[1:])
            elif x.k == 'vecn' and isinstance(x.a[0], (int, tuple)):
                if x.a[2] is None and not (isinstance(x.a[0], tuple) and x.a[0][0] == 'new'):
                    raise Unk('contents of a vector')
                r = ('vecn', go(x.a[1]), go(x.a[2]))
            elif x.k == 'app':
                nm = str(x.a[0]).split('::')[-1]
                r = ('app', nm) + tuple(go(y) for y in x.a[1] if not (isinstance(y, T) and y.k == 'policy'))
            elif x.k == 'lam':
                raise Unk('closure')
            elif x.k in ('sym', 'var') and isinstance(x.a[0], str) and '#' in x.a[0]:
                raise Unk('unknown value')
            elif x.k in ('unk', 'UNK', 'lost'):
                raise Unk('unknown value')
            else:
                r = (x.k,) + tuple(go(y) for y in x.a)
            memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x if not (isinstance(y, T) and y.k == 'policy'))
        return x
    return go(t)


class PM(CM):
    """the two forms are evaluated in the same model: calls on the same opaque object with equal arguments have the same (arbitrary) value"""
    allow = False

    def opaque(self, t, nm, a, iv):
        if not self.allow or not a or not opq(t):
            return None
        vs = [self.num(x, iv) if x.k not in ('sym', 'opq', 'fnref', 'enum', 'str', 'imgp') else None for x in a[1:]]
        try:
            ob = canon(a[0])
        except Unk:
            return None
        key = (nm, ob, tuple('%.9g' % float(v) if v is not None else show(x) for v, x in zip(vs, a[1:])))
        return Fraction(1 + zlib.crc32(repr(key).encode()) % 97, 23)


def opq(t):
    return t.k == 'app' and (str(t.a[0]).startswith('.') or t.a[0] == 'call') and len(t.a[1]) > 0 and t.a[1][0].k in ('sym', 'opq', 'imgp', 'app', 'fld', 'struct')


def key(t):
    try:
        return canon(t)
    except Unk:
        return t


def opnames(fr):
    r = set()
    for x in fr.exits:
        for t in list(x['pc']) + [x['val']]:
            if isinstance(t, T):
                r |= {(s.a[0], key(s.a[1][0])) for s in subterms(t) if opq(s)}
    return r


class V:
    def __init__(self):
        self.n, self.unk, self.bad = 0, None, None


LEAF = ('IN', 'CH', 'sym', 'EL', 'UNINIT')


def scalar(v, m, a, b, where):
    if a is b:
        v.n += 1
        return
    try:
        if canon(a) == canon(b):
            v.n += 1
            return
    except Unk as ex:
        v.unk = str(ex)
        return
    if a.k in ('struct', 'vec', 'tuple') and a.k == b.k and (a.k == 'struct') <= (a.a[0] == b.a[0]):
        xs, ys = (a.a[0], b.a[0]) if a.k != 'struct' else ([y for _, y in a.a[1]], [y for _, y in b.a[1]])
        if len(xs) == len(ys):
            for i, (x, y) in enumerate(zip(xs, ys)):
                scalar(v, m, x, y, where + ' component %d' % i)
            return
    done = 0
    for seed in range(5):
        def leaf(t):
            if t.k in LEAF:
                return sample(seed, show(t), 1, 40) / (1 if t.k == 'sym' and len(t.a) > 1 and t.a[1] in ('size', 'int') else 3)
            if t.k == 'elem' and t.a[0].k == 'fld':
                return sample(seed, show(t), 1, 40)
            return None
        try:
            # a division whose operand types depend on the instantiation is exact or truncating
            same = []
            for mode in ('real', 'mixed'):
                e1, e2 = Eval(leaf, m.cx, 'call'), Eval(leaf, m.cx, 'call')
                e1.division = e2.division = mode
                same.append(close(e1.num(a), e2.num(b)))
        except NoEval as ex:
            v.unk = 'formula (%s)' % ex
            return
        except (ZeroDivisionError, OverflowError, ValueError):
            continue
        done += 1
        if same[0] != same[1]:
            v.unk = 'formula (division)'
            return
        if not same[0]:
            v.bad = v.bad or '%s is %s sequentially but %s with a policy' % (where, show(a)[:110], show(b)[:110])
            return
    if done:
        v.n += 1
    else:
        v.unk = 'formula not evaluated'


def flat(t):
    """a channel is a plain value: an operation on each of its channels is the operation itself"""
    while t.k == 'each' and t.a[1].k == 'each' and all(x.k == 'sym' and str(x.a[0]).startswith('chan') for x in t.a[1].a[0]):
        t = mk('each', t.a[0], t.a[1].a[1])
    return t


def compare(v, m, a, b, where='the result', depth=0):
    a, b = (flat(x) if isinstance(x, T) else x for x in (a, b))
    if a is b:
        v.n += 1
        return
    if a is VOID or b is VOID:
        if a is not b:
            raise Unk('void')
        return
    try:
        if canon(a) == canon(b):
            v.n += 1
            return
    except Unk:
        pass
    if depth < 3:
        for x in (a, b):
            if x.k == 'ite':
                c = m.truth(x.a[0], {})
                y = x.a[1] if c else x.a[2]
                return compare(v, m, y if x is a else a, y if x is b else b, where, depth + 1)
    if a.k == 'each' and b.k == 'each':
        if [canon(x) for x in a.a[0]] != [canon(x) for x in b.a[0]]:
            raise Unk('operands of the per-channel operation')
        m.shapes.update({'plane%d' % i: m.shape(x, {}) for i, x in enumerate(a.a[0]) if tkind(x) == 'img'})
        return compare(v, m, a.a[1], b.a[1], where + ' (each channel)', depth + 1)
    if a.k == 'each' or b.k == 'each':
        raise Unk('per-channel operation in one form only')
    ka, kb = tkind(a), tkind(b)
    if ka == 'img' or kb == 'img':
        sa, pa = image_of(m, a)
        sb, pb = image_of(m, b)
        if tuple(sa) != tuple(sb):
            v.bad = v.bad or '%s is %s sequentially but %s with a policy' % (where, 'x'.join(map(str, sa)), 'x'.join(map(str, sb)))
            return
        for co in sorted(pa):
            x, y = pa[co], pb[co]
            if isinstance(x, Undef) or isinstance(y, Undef):
                if isinstance(x, Undef) and isinstance(y, Undef):
                    continue
                raise Unk('undefined pixel in one form (%s)' % (x if isinstance(x, Undef) else y))
            scalar(v, m, x, y, 'pixel (%s)' % ','.join(map(str, co)))
            if v.bad or v.unk:
                return
        return
    if ka == 'vec' and kb == 'vec' and depth < 3:
        n, k = m.length(a, {}), m.length(b, {})
        if n != k:
            v.bad = v.bad or '%s has %d elements sequentially but %d with a policy' % (where, n, k)
            return
        for i in range(min(n, 6)):
            x, ex = m.at(a, i, {})
            y, ey = m.at(b, i, {})
            x = subst(x, {q: const(z) for q, z in ex.items()}) if ex else x
            y = subst(y, {q: const(z) for q, z in ey.items()}) if ey else y
            compare(v, m, x, y, '%s, element %d' % (where, i), depth + 1)
            if v.bad or v.unk:
                return
        return
    scalar(v, m, m.value(a, {}), m.value(b, {}), where)


# a matrix argument is a generic invertible 3x3 matrix
MATRIX = mk('struct', 'Matrix', (('rows_', const(3)), ('cols_', const(3)), ('data_', mk('vec', tuple(const(Fraction(x)) for x in (2, 1, 3, 1, 3, 2, Fraction(1, 8), Fraction(1, 5), 1))))))


def prepare(P):
    I = Interp(P)
    I.unroll = 4
    I.each = True
    I.nchan = NC
    I.maxalts = 6
    I.gvals = {'std::numbers::pi_v': const(Fraction(math.pi)), 'std::numbers::pi': const(Fraction(math.pi)), 'M_PI': const(Fraction(math.pi))}
    return I


def bools(f):
    """assignments of the boolean parameters"""
    ns = [p['n'] for i, p in enumerate(f.params) if strip_type(f.ptype(i)) == 'bool']
    return [dict(zip(ns, c)) for c in itertools.product((TRUE, FALSE), repeat=len(ns))] if len(ns) <= 2 else [{}]


def run(P, R):
    R.rule('same', 'the policy overload and the sequential overload of an operation have the same exits and the same result formula for every output element')
    for f, g in pairs(P):
        v = V()
        w = '%s:%d/%d %s' % (f.file, f.line, g.line, f.sig())
        for b in bools(f):
            judge(P, v, f, g, b)
            if (v.unk or '').startswith('shape of EL'):
                # a range of images
                v.unk = None
                judge(P, v, f, g, b, True)
            if v.bad:
                break
        if v.bad:
            R.bad('same', fkey(f) + '|' + ','.join(re.findall(r'(?<![\w.#])-?\d+(?:/\d+)?', v.bad)), f.file, g.line, g.sig(), v.bad)
        elif v.unk or not v.n:
            R.unknown('same', w + ' (%s)' % (v.unk or 'nothing compared'))
        else:
            R.ok('same', w)


def delegates(P, f, g, args, want):
    """f only calls g, with its own arguments in order"""
    I = prepare(P)
    I.stops = (g,)
    try:
        fr = I.run(f, args=args)
    except RecursionError:
        return False
    if fr is None or len(fr.exits) != 1 or fr.exits[0]['pc']:
        return False
    x = fr.exits[0]['val']
    if not (isinstance(x, T) and x.k == 'app' and x.a[0] == 'STOP'):
        return False
    return [a for a in x.a[1] if not (isinstance(a, T) and a.k == 'policy')] == want


def judge(P, v, f, g, fixed, images=False):
    I, J = prepare(P), prepare(P)
    J.uid0 = 1000000     # the identities of the two forms never coincide
    fp = f.params
    gp = [p for i, p in enumerate(g.params) if kind_of_type(g.ptype(i), g.req()) != 'policy']
    a1, a2, shapes, ints, vecs = {}, {}, [], [], []
    tv = {t['n']: const(3) for h in (f, g) for t in h.d.get('tps', []) if re.search(r'\bsize_t\b', t['s'])}
    I.tvals = J.tvals = tv
    for i, (p, q) in enumerate(zip(fp, gp)):
        ty = f.ptype(i)
        n = p['n']
        if n in fixed:
            t = fixed[n]
        elif p.get('pack'):
            t = tuple(I.symbolic('%s%d' % (n, j), ty.replace('...', ''), f.req()) for j in range(2))
        else:
            t = I.symbolic(n, ty, f.req())
            J.symbolic(n, ty, f.req())
            k = kind_of_type(ty, f.req())
            tn = strip_type(ty)
            ma = re.match(r'^(?:std::)?array<.*,\s*(\w+)>$', tn)
            if ma and ma.group(1) in tv:
                t = mk('vec', tuple(mk('sym', '%s[%d]' % (n, j), None) for j in range(3)))
            if k is None and (tn == 'Container' or re.search(r'input_range(<\s*%s\s*>|\s+%s\b)' % (tn, tn), f.req() + g.req())):
                t = mk('sym', n, 'vec')
            if re.search(r'\bMatrix<', ty) and f.file == 'image_operations.h':
                t = MATRIX
            if k == 'img':
                shapes.append(n)
            elif k in ('size', 'int'):
                ints.append(n)
            elif images and (k == 'vec' or k is None and t.k == 'sym'):
                t = mk('vec', tuple(I.symbolic('%s%d' % (n, j), 'Image<ElementT>', f.req()) for j in range(2)))
                [J.symbolic('%s%d' % (n, j), 'Image<ElementT>', f.req()) for j in range(2)]
                shapes += [n + '0', n + '1']
            elif k == 'vec' or k is None and t.k == 'sym':
                vecs.append(n)
        a1[n], a2[q['n']] = t, t
    if not fixed and (delegates(P, f, g, a1, [a1[p['n']] for p in fp]) or delegates(P, g, f, a2, [a2[q['n']] for q in gp])):
        v.n += 1
        return
    # template parameters of the policy form are renamed to those of the sequential form
    try:
        fa, fb = I.run(f, args=a1), J.run(g, args=a2)
    except RecursionError:
        fa = None
    if fa is None or fb is None:
        v.unk = 'budget'
        return
    sa, _, ma = signature(f)
    sb, _, mb = signature(g)
    inv = {x: n for n, x in ma.items()}
    ren = {n: inv[x] for n, x in mb.items() if x in inv and inv[x] != n}

    def rename(t):
        if not ren:
            return t
        s = str(t.a[0])
        s = re.sub(r'\b(%s)\b' % '|'.join(map(re.escape, ren)), lambda m: ren[m.group(1)], s)
        return mk('cx', s, *t.a[1:])
    allow = opnames(fa) == opnames(fb)
    for cxa in branches(fa):
        # type conditions of the policy form that the sequential form does not test stay undetermined
        cxb = {}
        for c in branches(fb)[0]:
            for t, b in cxa.items():
                if re.sub(r'\s', '', str(rename(c).a[0])) == re.sub(r'\s', '', str(t.a[0])):
                    cxb[c] = b
        for sh, seed in MODELS:
            vals = {n: (1 + seed + 2 * i) % 5 for i, n in enumerate(ints)}
            m1 = PM({n: sh for n in shapes}, vals, {**cxa, **cxb})
            m1.allow = allow
            m1.elems.update({n: 1 + seed % 4 for n in vecs})
            try:
                x, y = m1.exit_of(fa), m1.exit_of(fb)
                if (x is None) != (y is None):
                    v.bad = v.bad or 'for %s the %s form throws and the other does not' % (', '.join(['%s %s' % (n, 'x'.join(map(str, sh))) for n in shapes] + ['%s=%d' % z for z in vals.items()]) or 'the same arguments',
                                                                                       'sequential' if x is None else 'policy')
                    break
                if x is None:
                    continue
                compare(v, m1, x['val'], y['val'])
            except Undef as ex:
                continue
            except Unk as ex:
                v.unk = str(ex)
            if v.bad:
                break
        if v.bad:
            break
