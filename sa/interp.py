"""Structured abstract interpreter over extracted function trees.

Domain: value terms (terms.py) per variable, a conjunction of must-facts, image values carrying
their shape and a symbolic description of what was written where.  Branches are joined, loops are
summarised by one pass over their body with an iteration counter (basic induction variables become
affine in it, other loop-modified variables become unknown), repository callees and lambdas are
inlined to a bounded depth.  No concrete or symbolic execution of paths, no solver.
"""
from terms import *
from prog import walk, kind_of_type, strip_type, image_elem
import re

MUTM = {'push_back', 'emplace_back', 'insert', 'resize', 'clear', 'pop_back', 'erase', 'assign', 'emplace', 'insert_or_assign', 'swap', 'push', 'pop', 'append', 'push_front', 'emplace_front', 'reserve', 'shrink_to_fit', 'merge', 'extract', 'splice', 'append_range', 'try_emplace', 'sort', 'remove', 'reset', 'release'}
MUTF = {'std::swap', 'std::iota', 'std::sort', 'std::fill', 'std::fill_n', 'std::ranges::sort', 'std::ranges::fill', 'std::ranges::iota', 'std::getline', 'std::exchange', 'std::reverse', 'std::ranges::reverse', 'std::stable_sort', 'std::shuffle', 'std::ranges::shuffle', 'std::partial_sort', 'std::nth_element', 'std::generate', 'std::ranges::generate', 'std::copy', 'std::ranges::copy', 'std::transform', 'std::copy_n', 'std::erase', 'std::erase_if', 'std::replace'}
NORETURN = {'exit', 'abort', 'std::exit', 'std::abort', 'std::terminate', 'terminate', '_Exit', 'quick_exit', 'std::quick_exit', 'std::_Exit', 'std::rethrow_exception'}
POLICY_RE = re.compile(r'(^|::)execution::(seq|par|par_unseq|unseq)$|^(seq|par|par_unseq|unseq)$')


class Budget(Exception):
    pass


class Frame:
    n = 0

    def __init__(self, fn, parent=None, this=None, tu=None):
        Frame.n += 1
        self.id = Frame.n
        self.fn = fn
        self.parent = parent
        self.this = this if this is not None else (parent.this if parent else None)
        self.thislv = parent.thislv if parent else None
        self.exits = []
        self.loopdepth = 0
        self.tu = tu
        self.packs = {}
        self.pc0 = 0


class State:
    __slots__ = ('env', 'facts', 'pc')

    def __init__(self, env=None, facts=frozenset(), pc=()):
        self.env = env if env is not None else {}
        self.facts = facts
        self.pc = pc

    def copy(self):
        return State(dict(self.env), self.facts, self.pc)


class Ref:
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv

    def __eq__(self, o):
        return isinstance(o, Ref) and o.lv == self.lv

    def __hash__(self):
        return hash(self.lv)


class Loop:
    def __init__(self, iv, line, kind, region=None):
        self.iv = iv
        self.line = line
        self.kind = kind
        self.region = region
        self.exact = True


class Region:
    def __init__(self, kind, line, fn):
        self.kind = kind      # omp / par / async
        self.line = line
        self.fn = fn
        self.ivs = []
        self.private = set()
        self.reduction = set()
        self.depth = 0
        self.mustpar = kind == 'omp'


def tkind(t):
    """coarse kind of a value"""
    k = t.k
    if k in ('imgp', 'img'):
        return 'img'
    if k in ('vec', 'vecn', 'vmap', 'data', 'sizevec', 'iota', 'store', 'slice', 'vlay', 'vpush'):
        return 'vec'
    if k == 'lam':
        return 'lam'
    if k == 'policy':
        return 'policy'
    if k in ('poly', 'sz', 'dim', 'len', 'count', 'iv', 'quot', 'mod'):
        return 'size'
    if k in ('true', 'false', 'eq0', 'ne0', 'le0', 'and', 'or', 'not', 'exists', 'forall'):
        return 'bool'
    if k == 'str':
        return 'str'
    if k == 'tuple':
        return 'tuple'
    if k == 'struct':
        return 'struct'
    if k in ('sym', 'var'):
        return t.a[1]
    if k == 'app':
        return t.a[2] if len(t.a) > 2 else None
    if k == 'elem':
        return t.a[2]
    if k == 'ite':
        a, b = tkind(t.a[1]), tkind(t.a[2])
        return a if a == b else (a or b)
    if k == 'fdiv' or k == 'flt':
        return 'flt'
    if k == 'fld':
        return t.a[2] if len(t.a) > 2 else None
    if k == 'px':
        return None
    return None


READERS = set('distance count count_if find find_if find_if_not equal mismatch accumulate reduce transform_reduce inner_product min_element max_element minmax_element lexicographical_compare '
              'all_of any_of none_of is_sorted binary_search lower_bound upper_bound size ssize empty begin end cbegin cend rbegin rend next prev get to_string make_tuple make_pair adjacent_find search'.split())
WRITERS = set('shuffle sort stable_sort partial_sort nth_element reverse rotate unique remove remove_if partition stable_partition iota replace replace_if generate generate_n fill fill_n swap_ranges '
              'partial_sum inclusive_scan exclusive_scan adjacent_difference transform for_each for_each_n copy copy_n copy_backward move move_backward inplace_merge random_shuffle'.split())


class Interp:
    def __init__(self, prog, budget=60000, depth=7):
        self.p = prog
        self.budget0 = budget
        self.maxdepth = depth
        self.reset()

    unroll = 0
    gvals = {}
    tvals = {}             # non-type template parameters bound for the run
    each = False           # apply_each / apply_multichannel as "the operation on one plane"
    nchan = None           # number of channels of opaque pixels
    pxr = ()
    pxw = ()

    def reset(self):
        self.steps = 0
        self.events = []
        self.loops = []
        self.regions = []
        self.crit = 0
        self.stack = []
        self.lams = {}
        self.refs = {}
        self.decl_region = {}
        self.shape0 = {}       # term of a loop-modified container -> term with the same extents
        self.elt = {}          # image term -> element type text
        self.vty = {}          # vector term -> type text
        self.mute = 0
        self.tryctx = []
        self.opaque = []       # opaque calls seen
        self.throws = []
        self.uid = self.uid0
        self.ctype = {}

    # ------------------------------------------------------------ helpers
    def ev(self, kind, node, st, **kw):
        if self.mute:
            return None
        e = dict(k=kind, l=(node or {}).get('l', 0), file=self.curfile(), fn=self.curfn(), facts=st.facts, pc=st.pc,
                 loops=tuple(self.loops), regions=tuple(self.regions), crit=self.crit, top=self.stack[0] if self.stack else None, depth=len(self.stack))
        e.update(kw)
        self.events.append(e)
        return e

    def curfn(self):
        return self.stack[-1] if self.stack else None

    def curfile(self):
        return self.stack[-1].file if self.stack else ''

    def tick(self):
        self.steps += 1
        if self.steps > self.budget0:
            raise Budget()

    def nid(self):
        self.uid += 1
        return self.uid

    # ------------------------------------------------------------ shapes
    def dims(self, t):
        if t.k == 'img':
            return t.a[1]
        return None

    def sz(self, t, i):
        if isinstance(i, int):
            i = const(i)
        d = self.dims(t)
        c = cval(i)
        if d is not None and c is not None:
            if isinstance(d, tuple):
                return d[int(c)] if int(c) < len(d) else mk('sz', t, i)
            if isinstance(d, T):
                return self.index(d, i)
        if d is not None and isinstance(d, T):
            return self.index(d, i)
        if t.k == 'ite':
            return ite(t.a[0], self.sz(t.a[1], i), self.sz(t.a[2], i))
        return mk('sz', self.shapeof(t), i)

    def shapeof(self, t):
        """representative term for the shape of an image"""
        if t.k == 'img' and isinstance(t.a[1], T) and t.a[1].k == 'sizevec':
            return t.a[1].a[0]
        if t.k == 'imgs':
            return t.a[0]
        return t

    def dim(self, t):
        d = self.dims(t)
        if isinstance(d, tuple):
            return const(len(d))
        if isinstance(d, T):
            return self.length(d)
        if t.k == 'ite':
            return ite(t.a[0], self.dim(t.a[1]), self.dim(t.a[2]))
        return mk('dim', self.shapeof(t))

    def sizevec(self, t):
        d = self.dims(t)
        if isinstance(d, tuple):
            return mk('vec', d)
        if isinstance(d, T):
            return d
        return mk('sizevec', self.shapeof(t))

    def product(self, t):
        """product of the elements of a vector term"""
        if t.k == 'vec':
            r = ONE
            for x in t.a[0]:
                r = mul(r, x)
            return r
        if t.k == 'sizevec':
            return mk('count', t.a[0])
        if t.k == 'vmap' and t.a[2].k == 'elem' and t.a[2].a[1] is t.a[0] and self.length(t.a[2].a[0]) is t.a[1]:
            return self.product(t.a[2].a[0])
        if t.k == 'vmap' and t.a[2].k == 'sz' and t.a[2].a[1] is t.a[0]:
            return mk('count', t.a[2].a[0])
        return mk('prod', t)

    def count(self, t):
        return self.product(self.sizevec(t))

    def length(self, t):
        if t.k == 'vec':
            return const(len(t.a[0]))
        if t.k == 'vecn':
            return t.a[1]
        if t.k == 'vmap':
            return t.a[1]
        if t.k == 'sizevec':
            return mk('dim', t.a[0])
        if t.k == 'data':
            return self.count(t.a[0])
        if t.k == 'iota':
            return sub(t.a[1], t.a[0])
        if t.k in ('store', 'vlay'):
            return self.length(t.a[0])
        if t.k == 'vpush':
            return add(self.length(t.a[0]), ONE)
        if t.k == 'tuple':
            return const(len(t.a[0]))
        if t.k == 'str':
            return const(len(t.a[0]))
        if t.k == 'ite':
            return ite(t.a[0], self.length(t.a[1]), self.length(t.a[2]))
        return mk('len', t)

    def elkind(self, base):
        ty = self.vty.get(base)
        if ty:
            m = re.match(r'^(?:std::)?(?:vector|array|span|list|initializer_list)<(.*)>$', strip_type(ty).strip())
            if m:
                inner = m.group(1)
                if strip_type(ty).replace('std::', '').startswith('array<'):
                    inner = inner.rsplit(',', 1)[0].strip()
                return kind_of_type(inner), inner
        return None, None

    def index(self, base, i):
        if base.k in ('vec', 'tuple'):
            c = cval(i)
            if c is not None and c.denominator == 1 and 0 <= c < len(base.a[0]):
                return base.a[0][int(c)]
            return mk('elem', base, i, None)
        if base.k == 'sizevec':
            return mk('sz', base.a[0], i)
        if base.k == 'vmap':
            return subst(base.a[2], {base.a[0]: i})
        if base.k == 'iota':
            return add(base.a[0], i)
        if base.k == 'data':
            return self.mkpx(base.a[0], (mk('lin', i),))
        if base.k == 'store':
            if base.a[1] is i:
                return base.a[2]
            d = cval(sub(base.a[1], i))
            if d is not None and d != 0:
                return self.index(base.a[0], i)
            return mk('elem', base, i, self.elkind(base)[0])
        if base.k == 'vecn':
            if base.a[2] is not None:
                return base.a[2]
            ek, inner = self.elkind(base)
            r = mk('elem', base, i, ek)
            return r
        if base.k == 'ite':
            return ite(base.a[0], self.index(base.a[1], i), self.index(base.a[2], i))
        ek, inner = self.elkind(base)
        r = mk('elem', base, i, ek)
        if ek == 'img' and inner:
            self.elt[r] = image_elem(inner)
        if ek == 'vec' and inner:
            self.vty[r] = inner
        return r

    def mkpx(self, img, coords):
        # read-through of uniform contents
        if img.k == 'img':
            c = img.a[2]
            if isinstance(c, T) and c.k == 'fill':
                return c.a[0]
            if isinstance(c, T) and c.k == 'dataof':
                v = c.a[0]
                if len(coords) == 1 and coords[0].k == 'lin':
                    return self.index(v, coords[0].a[0])
            if isinstance(c, T) and c.k == 'copy':
                return self.mkpx(c.a[0], coords)
        return mk('px', img, tuple(coords))

    # ------------------------------------------------------------ env / lvalues
    def key(self, fr, did):
        f = fr
        while f is not None:
            yield (f.id, did)
            f = f.parent

    def find(self, fr, did, st):
        f = fr
        while f is not None:
            k = (f.id, did)
            if k in st.env:
                return k
            f = f.parent
        return None

    def read(self, lv, st):
        k = lv[0]
        if k == 'var':
            v = st.env.get(lv[1], UNK)
            if isinstance(v, Ref):
                return self.read(v.lv, st)
            return v
        if k == 'tmp':
            return lv[1]
        if k == 'fld':
            v = self.field(self.read(lv[1], st), lv[2])
            if v.k == 'refv':
                return self.read(self.refs[v.a[0]], st)
            return v
        if k == 'elem':
            return self.index(self.read(lv[1], st), lv[2])
        if k == 'px':
            if self.unroll and self.loops:
                self.pxr.append((self.root(lv[1], st)[0], tuple(lv[2])))
            return self.mkpx(self.read(lv[1], st), lv[2])
        if k == 'data':
            b = self.read(lv[1], st)
            if self.unroll and self.loops:
                self.pxr.append((self.root(lv[1], st)[0], None))
            return self.dataterm(b)
        if k == 'this':
            return lv[1]
        return UNK

    def dataterm(self, b):
        if b.k == 'img' and isinstance(b.a[2], T) and b.a[2].k == 'dataof':
            return b.a[2].a[0]
        if b.k == 'img' and isinstance(b.a[2], T) and b.a[2].k == 'copy' and b.a[2].a[0].k == 'imgp':
            return mk('data', b.a[2].a[0])
        return mk('data', b)

    def root(self, lv, st):
        """follow refs; return (root key or None, normalised lv)"""
        k = lv[0]
        if k == 'var':
            v = st.env.get(lv[1])
            if isinstance(v, Ref):
                return self.root(v.lv, st)
            return lv[1], lv
        if k == 'fld':
            b = self.read(lv[1], st)
            if b.k == 'struct':
                for n, v in b.a[1]:
                    if n == lv[2] and v.k == 'refv':
                        return self.root(self.refs[v.a[0]], st)
        if k in ('fld', 'elem', 'px', 'data'):
            r, l = self.root(lv[1], st)
            return r, (k, l) + tuple(lv[2:])
        return None, lv

    def field(self, b, name, kind=None):
        if b.k == 'struct':
            for n, v in b.a[1]:
                if n == name:
                    return v
        if b.k == 'fstore':
            if b.a[1] == name:
                return b.a[2]
            return self.field(b.a[0], name, kind)
        if b.k == 'tuple' and name in ('first', 'second') and len(b.a[0]) == 2:
            return b.a[0][0 if name == 'first' else 1]
        if name == 'image_data' and tkind(b) == 'img':
            return self.dataterm(b)
        if name == 'size' and tkind(b) == 'img':
            return self.sizevec(b)
        if b.k == 'ite':
            return ite(b.a[0], self.field(b.a[1], name, kind), self.field(b.a[2], name, kind))
        if self.nchan and name == 'channels':
            if b.k == 'vec':
                return b
            if b.k == 'app' and str(b.a[0]).startswith('ctor:'):
                return mk('vec', b.a[1])
            f = mk('fld', b, name, kind)
            return mk('vec', tuple(mk('elem', f, const(i), None) for i in range(self.nchan)))
        return mk('fld', b, name, kind)

    def write(self, lv, val, st, node, compound=None):
        rk, l = self.root(lv, st)
        self._write(l, val, st, node, rk, ())

    def _write(self, l, val, st, node, rk, path):
        k = l[0]
        if k == 'var':
            self.ev('wvar', node, st, key=l[1], val=val, old=st.env.get(l[1]), decl=self.decl_region.get(l[1], 0))
            st.env[l[1]] = val
        elif k == 'fld':
            b = self.read(l[1], st)
            if l[1][0] == 'px' or self._under_px(l[1]):
                self._write_px(l, val, st, node, rk)
                return
            if b.k == 'struct' and any(n == l[2] for n, _ in b.a[1]):
                nb = mk('struct', b.a[0], tuple((n, val if n == l[2] else v) for n, v in b.a[1]))
            else:
                nb = mk('fstore', b if b.k != 'fstore' or b.a[1] != l[2] else b.a[0], l[2], val)
            self._write(l[1], nb, st, node, rk, path + (l[2],))
        elif k == 'elem':
            if self._under_px(l[1]):
                self._write_px(l, val, st, node, rk)
                return
            b = self.read(l[1], st)
            self.ev('welem', node, st, root=rk, base=b, idx=l[2], val=val, lv=l, decl=self.decl_region.get(rk, 0))
            if l[1][0] == 'data' or self.unroll and l[1][0] == 'fld' and l[1][2] == 'image_data' and l[1][1][0] == 'var' and tkind(self.read(l[1][1], st)) == 'img':
                self._write(('px', l[1][1], (mk('lin', l[2]),)), val, st, node, rk, path)
                return
            c = cval(l[2])
            if b.k in ('vec', 'tuple') and c is not None and 0 <= c < len(b.a[0]):
                xs = list(b.a[0])
                xs[int(c)] = val
                nb = mk(b.k, tuple(xs))
            else:
                if b.depth > 40:
                    nb = mk('vecn', self.nid(), self.length(b), None)
                else:
                    nb = mk('store', b, l[2], val)
                if b in self.vty:
                    self.vty[nb] = self.vty[b]
            self.mute += 1
            self._write(l[1], nb, st, node, rk, path)
            self.mute -= 1
        elif k == 'px':
            self._write_px(l, val, st, node, rk)
        elif k == 'data':
            b = self.read(l[1], st)
            self.ev('wdata', node, st, root=rk, val=val, old=b, decl=self.decl_region.get(rk, 0))
            if tkind(b) == 'img':
                nb = mk('img', self.nid(), self.dims(b) if self.dims(b) is not None else mk('sizevec', self.shapeof(b)), mk('dataof', val))
                if b in self.elt:
                    self.elt[nb] = self.elt[b]
                self.mute += 1
                self._write(l[1], nb, st, node, rk, path)
                self.mute -= 1
        elif k == 'this':
            pass

    def _under_px(self, l):
        while True:
            if l[0] == 'px':
                return True
            if l[0] in ('fld', 'elem'):
                l = l[1]
            else:
                return False

    def _write_px(self, l, val, st, node, rk):
        path = []
        while l[0] != 'px':
            path.append(l[2])
            l = l[1]
        path = tuple(reversed(path))
        b = self.read(l[1], st)
        if self.unroll and self.loops:
            self.pxw.append((rk, tuple(l[2])))
        self.ev('pxw', node, st, root=rk, img=b, coords=l[2], val=val, path=path, decl=self.decl_region.get(rk, 0))
        if tkind(b) == 'img' and l[1][0] == 'var':
            ivs = tuple(x.iv for x in self.loops if x.iv is not None)
            prev = b.a[2] if b.k == 'img' else mk('copy', b)
            if not isinstance(prev, T) or prev.depth > (400 if self.unroll else 60):
                prev = mk('lost')
            lay = mk('layer', prev, ivs, tuple(l[2]), tuple(path), val, t_and(*st.pc))
            d = self.dims(b)
            nb = mk('img', self.nid(), d if d is not None else mk('sizevec', self.shapeof(b)), lay)
            if b in self.elt:
                self.elt[nb] = self.elt[b]
            st.env[l[1][1]] = nb

    # ------------------------------------------------------------ types / kinds
    def tstr(self, fr, i):
        return fr.tu.t(i)

    def symbolic(self, name, tystr, req, fnm=None, pack=False):
        k = kind_of_type(tystr, req)
        if k == 'img':
            t = mk('imgp', name)
            self.elt[t] = image_elem(tystr)
            return t
        if k == 'policy':
            return mk('policy', name)
        t = mk('sym', name, k or ('lam?' if False else None))
        if k == 'vec':
            self.vty[t] = strip_type(tystr)
        return t

    # ------------------------------------------------------------ run an entry function
    def run(self, fn, args=None, this=None, facts=frozenset(), packn=2, thisobj=None):
        self.reset()
        self.pxr, self.pxw = [], []
        fr = Frame(fn, None, this, fn.tu)
        st = State({}, frozenset(facts), ())
        if thisobj is not None:
            # a mutable object whose fields are tracked
            kk = ('thisobj', 0)
            st.env[kk] = thisobj
            self.decl_region[kk] = 0
            fr.thislv = ('var', kk)
            fr.this = this = thisobj
        req = fn.req()
        self.stack.append(fn)
        self.params = {}
        try:
            for i, p in enumerate(fn.params):
                if args is not None and p['n'] in args:
                    v = args[p['n']]
                elif p.get('pack'):
                    v = tuple(self.symbolic('%s%d' % (p['n'], j), fn.ptype(i).replace('...', '').strip(), req) for j in range(packn))
                else:
                    v = self.symbolic(p['n'] or '_%d' % i, fn.ptype(i), req)
                    if kind_of_type(fn.ptype(i), req) == 'vec':
                        self.vty[v] = strip_type(fn.ptype(i))
                self.params[p['n']] = v
                self.bind(fr, p, v, st)
            if this is not None:
                fr.this = this
            self.entry = fr
            end = self.exec_body(fn, fr, st)
        except Budget:
            self.over = True
            self.stack = []
            return None
        except RecursionError:
            self.over = True
            self.stack = []
            return None
        self.over = False
        self.stack.pop()
        if end is not None:
            fr.exits.append(dict(val=VOID, st=end, pc=end.pc, inloop=None, l=fn.d.get('end', 0)))
        return fr

    def exec_body(self, fn, fr, st):
        if fn.kind == 'ctor':
            for ini in fn.d.get('inits', []):
                self.ctor_init(ini, fr, st)
        return self.exec(fn.body, fr, st)

    def ctor_init(self, ini, fr, st):
        if 'n' in ini:
            e = ini['e']
            v = None
            ft = self.field_type(fr, ini['n'])
            if e is not None:
                v = self.construct(ft, e, fr, st)
            lv = ('fld', fr.thislv, ini['n']) if fr.thislv else None
            if lv:
                self.write(lv, v if v is not None else UNK, st, {'l': ini['l']})
        elif ini.get('e') is not None:
            self.eval(ini['e'], fr, st)

    def field_type(self, fr, name):
        r = self.p.recs.get(fr.fn.cls or '')
        if r:
            for f in r[0]['fields']:
                if f['n'] == name:
                    return r[1].t(f['t'])
        return ''

    def bind(self, fr, p, v, st):
        k = (fr.id, p['id'])
        st.env[k] = v if isinstance(v, (T, Ref)) else mk('packv', tuple(v))
        self.decl_region[k] = len(self.regions)
        ts = fr.tu.t(p['t'])
        self.ctype[k] = ts

    # ------------------------------------------------------------ statements
    def exec(self, s, fr, st):
        """returns resulting state or None when no fall-through"""
        if s is None or st is None:
            return st
        self.tick()
        k = s['k']
        m = getattr(self, 'x_' + k, None)
        if m:
            return m(s, fr, st)
        # expression statement
        self.eval(s, fr, st)
        if self.dead(st):
            return None
        return st

    def dead(self, st):
        return st.facts is None

    def kill(self, st):
        st.facts = None

    def x_block(self, s, fr, st):
        c0 = self.crit
        try:
            for x in s['s']:
                st = self.exec(x, fr, st)
                if st is None:
                    return None
            return st
        finally:
            self.crit = c0

    def x_nop(self, s, fr, st):
        return st

    x_fallthrough = x_nop

    def x_decl(self, s, fr, st):
        for v in s['v']:
            self.declare(v, fr, st)
            if self.dead(st):
                return None
        return st

    def declare(self, v, fr, st):
        ts = fr.tu.t(v['t'])
        if v['k'] == 'decomp':
            init = v.get('init')
            lv = self.lval(init, fr, st) if init else None
            val = self.read(lv, st) if lv else (self.eval(init, fr, st) if init else UNK)
            isref = '&' in ts
            for i, b in enumerate(v['b']):
                kk = (fr.id, b['id'])
                self.decl_region[kk] = len(self.regions)
                if val.k in ('tuple', 'vec') and i < len(val.a[0]):
                    st.env[kk] = val.a[0][i]
                elif val.k == 'struct' and i < len(val.a[1]):
                    st.env[kk] = val.a[1][i][1]
                else:
                    st.env[kk] = mk('get', val, i)
            return
        kk = (fr.id, v['id'])
        self.decl_region[kk] = len(self.regions)
        self.ctype[kk] = ts
        if v.get('static') and not v.get('constexpr') and not v.get('const'):
            self.decl_region[kk] = -1
        init = v.get('init')
        if re.match(r'^(const )?std::(lock_guard|scoped_lock|unique_lock)\b', ts) and self.shared_mutex(init, fr, st):
            self.crit += 1
        if ts.rstrip().endswith('&') and init is not None:
            lv = self.lval(init, fr, st)
            if lv is not None and lv[0] != 'tmp':
                rk, l = self.root(lv, st)
                st.env[kk] = Ref(l)
                return
            st.env[kk] = lv[1] if lv else self.eval(init, fr, st)
            return
        val = self.construct(ts, init, fr, st)
        if self.dead(st):
            return
        st.env[kk] = self.copyval(val)
        self.ev('decl', v, st, key=kk, val=val, ty=ts)

    def shared_mutex(self, init, fr, st):
        """a lock on a mutex that every iteration creates for itself protects nothing"""
        if not self.regions or init is None:
            return True
        for a in (init.get('a') or []):
            if a and a['k'] in ('ref', 'mem'):
                rk, _ = self.root(self.lval(a, fr, st), st)
                if rk is not None and 0 <= self.decl_region.get(rk, 0) and self.decl_region.get(rk, 0) >= len(self.regions):
                    return False
        return True

    def copyval(self, v):
        """value copy of an image keeps shape+content; nothing to do for immutable terms"""
        return v

    def construct(self, ts, init, fr, st):
        """value of `ts name(init)`"""
        kd = kind_of_type(ts, fr.fn.req() if fr.fn else '')
        if init is None:
            if kd == 'img':
                return mk('img', self.nid(), (), mk('uninit'))
            if kd == 'vec':
                m = re.match(r'^(?:std::)?array<(.*),\s*([^,]+)>$', strip_type(ts))
                if m:
                    n = m.group(2).strip()
                    t = mk('vecn', ('new', self.nid()), const(int(n)) if n.isdigit() else st.env.get(('nttp', n)) or self.tvals.get(n) or mk('sym', n, 'size'), None)
                else:
                    t = mk('vec', ())
                self.vty[t] = strip_type(ts)
                return t
            return self.default_struct(ts, fr, st)
        k = init['k']
        if k in ('init', 'plist', 'ctor') and self.refrec(ts if k != 'ctor' else (fr.tu.t(init.get('tt')) or ts)):
            lvs, args = self.lvargs(self.ctor_args(init, fr), fr, st)
            if self.dead(st):
                return UNK
            return self.ctor(ts if k != 'ctor' else (fr.tu.t(init.get('tt')) or ts), args, init, fr, st, True, lvs)
        if k in ('plist',) or (k in ('init',) and kd in ('img', 'vec')) or (k == 'ctor' and self.same_type(ts, fr.tu.t(init.get('tt')))):
            args = self.evargs(self.ctor_args(init, fr), fr, st)
            if self.dead(st):
                return UNK
            aslist = k == 'init' or init.get('list')
            m = re.match(r'(?:std::)?tuple_size<(.*)>$', strip_type(fr.tu.t(init.get('tt')) or '')) if k == 'ctor' and not args else None
            if m:
                return self.tuple_size(m.group(1), fr, st)
            if k == 'ctor' and not args:
                return self.construct(fr.tu.t(init.get('tt')) if 'auto' in ts else ts, None, fr, st)
            t = ts if k != 'ctor' else (fr.tu.t(init.get('tt')) or ts)
            return self.ctor(t, args, init, fr, st, aslist)
        v = self.eval(init, fr, st)
        if kd == 'vec' and v.k in ('sym', 'app') and v not in self.vty:
            self.vty[v] = strip_type(ts)
        return v

    def same_type(self, a, b):
        return True

    def default_struct(self, ts, fr, st):
        name = re.sub(r'<.*', '', strip_type(ts)).split('::')[-1]
        r = self.p.recs.get(name)
        if r and name not in ('Image',):
            fs = []
            for f in r[0]['fields']:
                fs.append((f['n'], self.construct(r[1].t(f['t']), None, fr, st) if not f.get('init') else self.lit(f['init'])))
            return mk('struct', name, tuple(fs))
        return mk('uninitv', self.nid(), ts)

    def lit(self, e):
        if e and e['k'] == 'int':
            return const(int(e['v']))
        if e and e['k'] == 'init' and len(e['a']) == 1:
            return self.lit(e['a'][0])
        if e and e['k'] == 'bool':
            return TRUE if e['v'] else FALSE
        return fresh('fld')

    def x_if(self, s, fr, st):
        if s.get('init'):
            st = self.exec(s['init'], fr, st)
            if st is None:
                return None
        if s.get('cv'):
            self.declare(s['cv'], fr, st)
            if self.dead(st):
                return None
        if s.get('cx'):
            c = mk('cx', re.sub(r'\s+', ' ', s.get('cs', '?')))
            try:
                cc = s['c']
                if cc and cc['k'] == 'bool':
                    c = TRUE if cc['v'] else FALSE
                elif cc and cc['k'] in ('bin',):
                    q = self.eval(cc, fr, st)
                    if q in (TRUE, FALSE):
                        c = q
            except Budget:
                raise
        else:
            c = self.eval(s['c'], fr, st)
            if self.dead(st):
                return None
        return self.branch(c, s, lambda x: self.exec(s['x'], fr, x), lambda x: self.exec(s.get('y'), fr, x), st)

    def branch(self, c, node, then, els, st):
        c = self.simplify(c, st.facts)
        pc = st.pc
        if c is TRUE:
            return then(st)
        if c is FALSE:
            return els(st)
        a = self.assume(st.copy(), c)
        b = self.assume(st.copy(), t_not(c))
        n0 = len(self.events)
        ra = then(a) if a else None
        rb = els(b) if b else None
        if ra is None and rb is None:
            return None
        if ra is None:
            return rb
        if rb is None:
            return ra
        return self.join(c, ra, rb, st, pc)

    def simplify(self, c, facts):
        if c in (TRUE, FALSE):
            return c
        if c in facts:
            return TRUE
        n = t_not(c)
        if n in facts:
            return FALSE
        if c.k in ('eq0', 'le0', 'ne0') and len(facts) < 200:
            if entails(facts, c):
                return TRUE
            if entails(facts, n):
                return FALSE
        return c

    def assume(self, st, c):
        if c is FALSE:
            return None
        st.pc = st.pc + (c,)
        st.facts = self.add_fact(st.facts, c)
        if FALSE in st.facts:
            return None
        for k, v in st.env.items():
            if isinstance(v, T) and v.k == 'ite' and v.depth < 30:
                while v.k == 'ite' and (v.a[0] in st.facts or t_not(v.a[0]) in st.facts):
                    v = v.a[1] if v.a[0] in st.facts else v.a[2]
                if v is not st.env[k]:
                    st.env[k] = v
        return st

    def add_fact(self, facts, c):
        if c is TRUE:
            return facts
        new = set(facts)
        work = [c]
        while work:
            x = work.pop()
            if x is TRUE:
                continue
            if x.k == 'and':
                work.extend(x.a[0])
            elif x.k == 'not' and x.a[0].k == 'exists':
                work.append(mk('forall', x.a[0].a[0], t_not(x.a[0].a[1])))
            elif x.k == 'or':
                # drop disjuncts already refuted
                ys = [y for y in x.a[0] if t_not(y) not in new]
                if len(ys) == 1:
                    work.append(ys[0])
                elif ys:
                    new.add(t_or(*ys))
                    new.add(x)
                else:
                    new.add(FALSE)
            elif x.k == 'forall':
                new.add(x)
            elif x.k == 'eqv':
                new.add(x)
                a, b = x.a
                # vector equality => componentwise equality of the first dims and length
                work.append(eq0(sub(self.length(a), self.length(b))))
                for i in range(4):
                    work.append(eq0(sub(self.index(a, const(i)), self.index(b, const(i)))))
            else:
                new.add(x)
        return frozenset(new)

    def join(self, c, a, b, st0, pc):
        env = {}
        for k in a.env.keys() | b.env.keys():
            x, y = a.env.get(k), b.env.get(k)
            if x is None or y is None:
                env[k] = x if x is not None else y
                continue
            if x is y or x == y:
                env[k] = x
            elif isinstance(x, Ref) or isinstance(y, Ref):
                env[k] = x if isinstance(x, Ref) else y
            else:
                env[k] = self.joinval(c, x, y)
        fa, fb = a.facts, b.facts
        facts = fa & fb
        onlya = [f for f in fa - fb if f is not c and f not in conj(c)]
        onlyb = [f for f in fb - fa if f is not t_not(c)]
        extra = set()
        if c is not None:
            nc = t_not(c)
            if len(onlya) <= 12:
                for f in onlya:
                    if f.k in ('eq0', 'le0', 'ne0', 'eqv', 'forall'):
                        extra.add(t_or(nc, f))
            if len(onlyb) <= 12:
                for f in onlyb:
                    if f.k in ('eq0', 'le0', 'ne0', 'eqv', 'forall') and f not in conj(nc):
                        extra.add(t_or(c, f))
        extra.discard(TRUE)
        return State(env, facts | frozenset(extra), pc)

    def joinval(self, c, x, y):
        if x.k == 'img' and y.k == 'img':
            cx, cy = x.a[2], y.a[2]
            if self.dims(x) == self.dims(y):
                if self.extends(cx, cy):
                    return x
                if self.extends(cy, cx):
                    return y
                m = self.mergelayers(cx, cy)
                if m is not None:
                    r = mk('img', self.nid(), x.a[1], m)
                    if x in self.elt:
                        self.elt[r] = self.elt[x]
                    return r
        if x.k == 'img' and y.k == 'imgp' and self.extends(x.a[2], mk('copy', y)):
            return x
        if y.k == 'img' and x.k == 'imgp' and self.extends(y.a[2], mk('copy', x)):
            return y
        r = ite(c, x, y) if c is not None else fresh('phi', tkind(x) if tkind(x) == tkind(y) else None)
        for d in (self.elt, self.vty):
            if x in d:
                d.setdefault(r, d[x])
        if r.depth > 60:
            r2 = fresh('deep', tkind(r))
            for d in (self.elt, self.vty):
                if r in d:
                    d[r2] = d[r]
            return r2
        return r

    def extends(self, cx, cy):
        n = 0
        while isinstance(cx, T) and n < 60:
            if cx is cy:
                return True
            if cx.k != 'layer':
                return False
            cx = cx.a[0]
            n += 1
        return False

    def mergelayers(self, cx, cy):
        xs, ys = [], []
        a = cx
        while isinstance(a, T) and a.k == 'layer':
            xs.append(a)
            a = a.a[0]
        b = cy
        while isinstance(b, T) and b.k == 'layer':
            ys.append(b)
            b = b.a[0]
        if a is not b:
            return None
        common = [l for l in xs if l in ys]
        base = common[0] if common else a
        newx = xs[:xs.index(common[0])] if common else xs
        newy = ys[:ys.index(common[0])] if common else ys
        r = base
        for l in reversed(newx):
            r = mk('layer', r, *l.a[1:])
        for l in reversed(newy):
            r = mk('layer', r, *l.a[1:])
        return r

    def x_return(self, s, fr, st):
        v = VOID
        e = s.get('e')
        if e is not None:
            lv = None
            if e['k'] in ('ref', 'idx', 'mem', 'call', 'un') and self.want_ref(fr):
                lv = self.lval(e, fr, st)
            if lv is not None and lv[0] != 'tmp':
                rk, l = self.root(lv, st)
                v = self.read(lv, st)
                if self.dead(st):
                    return None
                fr.exits.append(dict(val=v, lv=l, st=st, pc=st.pc, inloop=self.inner_loops(fr), l=s['l'], node=s))
                return None
            if e['k'] in ('init',):
                v = self.construct(fr.fn.ret() if fr.fn and not getattr(fr, 'islam', False) else '', e, fr, st)
            elif lv is not None:
                v = lv[1]
            else:
                v = self.eval(e, fr, st)
        if self.dead(st):
            return None
        fr.exits.append(dict(val=v, st=st, pc=st.pc, inloop=self.inner_loops(fr), l=s['l'], node=s))
        return None

    def want_ref(self, fr):
        return True

    def inner_loops(self, fr):
        return tuple(self.loops[fr.loopdepth:])

    def x_break(self, s, fr, st):
        if self.lctx:
            self.lctx[-1]['brk'].append(st)
        return None

    def x_continue(self, s, fr, st):
        for c in reversed(self.lctx):
            if c['kind'] == 'loop':
                c['cont'].append(st)
                break
        return None

    lctx = []

    def x_label(self, s, fr, st):
        return self.exec(s['s'], fr, st)

    def x_goto(self, s, fr, st):
        raise Budget()

    def x_case(self, s, fr, st):
        return self.exec(s['s'], fr, st)

    def x_default(self, s, fr, st):
        return self.exec(s['s'], fr, st)

    def x_switch(self, s, fr, st):
        c = self.eval(s['c'], fr, st)
        if self.dead(st):
            return None
        # flatten body into (labels, stmt) list
        items = s['body']['s'] if s['body'] and s['body']['k'] == 'block' else [s['body']]
        seq = []
        for it in items:
            labs = []
            while it is not None and it['k'] in ('case', 'default'):
                labs.append(it)
                it = it['s']
            seq.append((labs, it))
        self.lctx = self.lctx + [dict(kind='switch', brk=[], cont=[])]
        ctx = self.lctx[-1]
        conds = []
        hasdef = False
        for labs, _ in seq:
            for lb in labs:
                if lb['k'] == 'case':
                    v = self.eval(lb['e'], fr, st.copy())
                    conds.append(self.eqterm(c, v))
                else:
                    hasdef = True
        other = t_and(*[t_not(x) for x in conds])
        cur = None
        base = st
        i = 0
        ends = []
        for labs, stmt in seq:
            for lb in labs:
                if lb['k'] == 'case':
                    q = conds[i]
                    i += 1
                else:
                    q = other
                n = self.assume(base.copy(), q)
                if n is not None:
                    cur = n if cur is None else self.join(q, n, cur, base, base.pc)
            if cur is not None:
                cur = self.exec(stmt, fr, cur)
        if cur is not None:
            ends.append(cur)
        if not hasdef:
            n = self.assume(base.copy(), other)
            if n is not None:
                ends.append(n)
        ends += ctx['brk']
        self.lctx = self.lctx[:-1]
        if not ends:
            return None
        r = ends[0]
        for x in ends[1:]:
            r = self.join(fresh('sw', 'bool'), r, x, base, base.pc)
        r.pc = st.pc
        return r

    def x_try(self, s, fr, st):
        entry = st.copy()
        self.tryctx.append([])
        r = self.exec(s['body'], fr, st)
        thrown = self.tryctx.pop()
        mod = self.modified(s['body'], fr, entry)
        outs = [r] if r is not None else []
        for h in s['h']:
            hs = entry.copy()
            for kk in mod:
                hs.env[kk] = fresh('caught', tkind(hs.env[kk]) if isinstance(hs.env.get(kk), T) else None) if not isinstance(hs.env.get(kk), Ref) else hs.env[kk]
            if 'id' in h:
                hs.env[(fr.id, h['id'])] = fresh('exc')
            hs.pc = entry.pc + (mk('caught', self.nid()),)
            o = self.exec(h['body'], fr, hs)
            if o is not None:
                outs.append(o)
        if not outs:
            return None
        x = outs[0]
        for y in outs[1:]:
            x = self.join(fresh('exc', 'bool'), x, y, entry, entry.pc)
        return x

    # ------------------------------------------------------------ loops
    def modified(self, node, fr, st, seen=None):
        """keys of variables (visible in st) possibly modified by executing node"""
        if seen is None:
            seen = set()
        out = set()

        def root_of(e):
            while e is not None:
                if e['k'] == 'ref':
                    return e.get('id')
                if e['k'] in ('mem', 'idx'):
                    e = e['b']
                elif e['k'] == 'un' and e['op'] in ('*',):
                    e = e['e']
                elif e['k'] == 'call':
                    f = e['f']
                    if f and f['k'] == 'mem':
                        e = f['b']
                    elif f and f.get('n') in ('get', 'forward', 'move', 'as_const', 'ref') and e['a']:
                        e = e['a'][-1]
                    else:
                        return None
                elif e['k'] == 'cast':
                    e = e['e']
                else:
                    return None
            return None

        def addroot(e, isimgpx=False):
            i = root_of(e)
            if i is None:
                return
            k = self.find(fr, i, st)
            if k is None:
                return
            v = st.env.get(k)
            if isinstance(v, Ref):
                rk, l = self.root(v.lv, st)
                if rk is None:
                    return
                k = rk
                v = st.env.get(k)
            # writing through a pixel access does not change the variable's shape
            if isinstance(v, T) and tkind(v) == 'img' and not (e['k'] == 'ref'):
                return
            out.add(k)
        for n in walk(node):
            k = n['k']
            if k == 'bin' and n['op'] in ('=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<=', '>>='):
                addroot(n['lh'])
            elif k == 'bin' and n['op'] == '>>' and n.get('ov'):
                addroot(n['rh'])
            elif k == 'un' and n['op'] in ('++', '--'):
                addroot(n['e'])
            elif k == 'call':
                f = n['f']
                if f is None:
                    continue
                if f['k'] == 'mem' and f['n'] in MUTM:
                    addroot(f['b'])
                elif f['k'] == 'ref' and f.get('q') in MUTF:
                    for a in n['a']:
                        a2 = a
                        if a2 and a2['k'] == 'call' and a2['f'] and a2['f'].get('n') in ('begin', 'end', 'data'):
                            if a2['a']:
                                a2 = a2['a'][0]
                            elif a2['f']['k'] == 'mem':
                                a2 = a2['f']['b']
                        if a2:
                            addroot(a2)
                else:
                    for key in ([n['fk']] if n.get('fk') else f.get('cands') or ([f['fk']] if f.get('fk') else [])):
                        g = self.p.bykey.get(key)
                        if not g:
                            continue
                        for i, p in enumerate(g.params):
                            ts = g.ptype(i)
                            if ts.rstrip().endswith('&') and not ts.rstrip().endswith('&&') and 'const' not in ts and i < len(n['a']) and n['a'][i]:
                                addroot(n['a'][i])
                # calls of local lambdas
                if f['k'] == 'ref' and f.get('id') is not None:
                    kk = self.find(fr, f['id'], st)
                    v = st.env.get(kk) if kk else None
                    if isinstance(v, T) and v.k == 'lam' and v not in seen:
                        seen.add(v)
                        node2, fr2 = self.lams[v]
                        out |= self.modified(node2['body'], fr2, st, seen)
            elif k == 'ref' and n.get('dk') == 'var':
                kk = self.find(fr, n['id'], st)
                v = st.env.get(kk) if kk else None
                if isinstance(v, T) and v.k == 'lam' and v not in seen:
                    seen.add(v)
                    node2, fr2 = self.lams[v]
                    out |= self.modified(node2['body'], fr2, st, seen)
        return out

    def induction(self, keys, s, fr, st):
        """basic induction variables: key -> step (int)"""
        res = {}
        parts = [s.get('c'), s.get('inc')]
        body = s.get('body')
        top = []
        if body is not None:
            top = body['s'] if body['k'] == 'block' else [body]
        hascont = any(n['k'] == 'continue' for n in walk(body)) if s['k'] != 'for' else False
        for k in keys:
            mods = []

            def scan(node, where):
                if node is None:
                    return
                for n in walk(node):
                    tgt = None
                    if n['k'] == 'bin' and n['op'] in ('=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<=', '>>='):
                        tgt = n['lh']
                    elif n['k'] == 'un' and n['op'] in ('++', '--'):
                        tgt = n['e']
                    if tgt is not None and tgt['k'] == 'ref' and self.find(fr, tgt.get('id'), st) == k:
                        mods.append((where, n))
                    elif tgt is not None and tgt['k'] != 'ref':
                        pass
            for p in parts:
                scan(p, ('hdr', p))
            for t in top:
                scan(t, ('top', t))
            if len(mods) != 1:
                continue
            (wk, wn), n = mods[0]
            if wk == 'top':
                if wn is not n or hascont:
                    continue
            elif wk == 'hdr':
                # must be unconditional part of header expression
                if not self.uncond(wn, n):
                    continue
            if n['k'] == 'un':
                step = 1 if n['op'] == '++' else -1
            elif n['op'] in ('+=', '-=') and n['rh'] and n['rh']['k'] == 'int':
                step = int(n['rh']['v']) * (1 if n['op'] == '+=' else -1)
            elif n['op'] == '=' and n['rh'] and n['rh']['k'] == 'bin' and n['rh']['op'] in ('+', '-'):
                r = n['rh']
                if r['lh'] and r['lh']['k'] == 'ref' and self.find(fr, r['lh'].get('id'), st) == k and r['rh'] and self.litint(r['rh']) is not None:
                    step = self.litint(r['rh']) * (1 if r['op'] == '+' else -1)
                elif r['op'] == '+' and r['rh'] and r['rh']['k'] == 'ref' and self.find(fr, r['rh'].get('id'), st) == k and self.litint(r['lh']) is not None:
                    step = self.litint(r['lh'])
                else:
                    continue
            else:
                continue
            v0 = st.env.get(k)
            if not isinstance(v0, T) or tkind(v0) in ('img', 'vec', 'struct', 'str', 'lam'):
                continue
            res[k] = step
        return res

    def litint(self, e):
        if e and e['k'] == 'int':
            return int(e['v'])
        if e and e['k'] in ('init', 'ctor') and len(e['a']) == 1:
            return self.litint(e['a'][0])
        if e and e['k'] == 'cast':
            return self.litint(e['e'])
        return None

    def uncond(self, hdr, n):
        if hdr is n:
            return True
        if hdr['k'] == 'bin':
            if hdr['op'] in ('&&', '||'):
                return hdr['lh'] is not None and self.uncond(hdr['lh'], n)
            return any(x is not None and self.uncond(x, n) for x in (hdr['lh'], hdr['rh']))
        if hdr['k'] in ('un', 'cast'):
            return hdr['e'] is not None and self.uncond(hdr['e'], n)
        return False

    def shift(self, v, d):
        return mk('it', v.a[0], v.a[1], add(v.a[2], d)) if v.k == 'it' else add(v, d)

    def havoc(self, k, st, tag='phi'):
        v = st.env.get(k)
        if isinstance(v, Ref):
            return
        if isinstance(v, T) and v.k == 'it':
            st.env[k] = mk('it', v.a[0], v.a[1], fresh(tag, 'size'))
            return
        kd = tkind(v) if isinstance(v, T) else None
        if v is not None and v.k == 'poly':
            kd = 'num'
        if kd in ('img',):
            n = mk('imgp', '%s#%d' % (tag, self.nid()))
            if v in self.elt:
                self.elt[n] = self.elt[v]
        else:
            n = fresh(tag, kd)
            if v in self.vty:
                self.vty[n] = self.vty[v]
        st.env[k] = n

    def bound(self, c, k0):
        """from predicate c (conjunction) over counter k0 derive exclusive upper bound N, exact?"""
        exact = True
        N = None
        cs = conj(c)
        for x in cs:
            if x.k == 'le0' and k0 in atoms(x.a[0]):
                p = poly_of(x.a[0])
                ck = p.get(((k0, 1),))
                if ck is not None and ck > 0 and not any(k0 in [a for a, _ in m] and m != ((k0, 1),) for m in p):
                    rest = from_poly({m: -v / ck for m, v in p.items() if m != ((k0, 1),)})
                    if contains(rest, lambda t: t is k0):
                        continue
                    n = add(rest, ONE) if ck == 1 else mk('app', 'ceilbound', (rest,), 'size')
                    N = n if N is None else N
                    continue
            if x.k == 'ne0' and k0 in atoms(x.a[0]):
                p = poly_of(x.a[0])
                ck = p.get(((k0, 1),))
                if ck is not None and abs(ck) == 1:
                    n = from_poly({m: -v / ck for m, v in p.items() if m != ((k0, 1),)})
                    N = n if N is None else N
                    continue
            exact = False
        return N, exact

    def x_for(self, s, fr, st):
        if s.get('init'):
            st = self.exec(s['init'], fr, st)
            if st is None:
                return None
        return self.loop(s, fr, st, s.get('c'), s.get('inc'), s.get('body'))

    def x_while(self, s, fr, st):
        return self.loop(s, fr, st, s.get('c'), None, s.get('body'))

    def x_do(self, s, fr, st):
        return self.loop(s, fr, st, s.get('c'), None, s.get('body'), isdo=True)

    def loop(self, s, fr, st, cond, inc, body, isdo=False, region=None, setup=None, N=None, unroll=None):
        mod = set()
        for n in (cond, inc, body):
            if n is not None:
                mod |= self.modified(n, fr, st)
        mod = {k for k in mod if not isinstance(st.env.get(k), Ref)}
        ind = self.induction(mod, s, fr, st) if setup is None or s['k'] in ('rfor',) else {}
        v0 = {k: st.env.get(k) for k in mod}

        def enter(kterm):
            x = st.copy()
            for k in mod:
                if k in ind:
                    x.env[k] = self.shift(v0[k], mul(const(ind[k]), kterm))
                else:
                    self.havoc(k, x)
            return x
        exact = True
        if N is None:
            k0 = fresh('k', 'size')
            if cond is not None and not isdo:
                x = enter(k0)
                self.mute += 1
                c = self.eval(cond, fr, x)
                self.mute -= 1
                if self.dead(x):
                    return None
                N, exact = self.bound(c, k0)
            else:
                N, exact = None, False
            if self.unroll and region is None and N is not None and exact and self.cv(N, st) is not None and 0 <= self.cv(N, st) <= self.unroll and not (inc is not None and fr is None):
                r = self.unrolled(s, fr, st, inc, body, int(self.cv(N, st)))
                if r is not NotImplemented:
                    return r
            elif self.unroll and region is None and setup is None and cond is not None and not isdo and not exact and s['k'] in ('while', 'for'):
                r = self.peeled(s, fr, st, cond, inc, body)
                if r is not NotImplemented:
                    return r
        iv = mk('iv', self.nid(), ZERO, N if N is not None else UNK)
        lp = Loop(iv, s.get('l', 0), s['k'], region)
        lp.exact = exact
        if region is not None:
            region.ivs.append(iv)
        self.loops.append(lp)
        self.lctx = self.lctx + [dict(kind='loop', brk=[], cont=[])]
        ctx = self.lctx[-1]
        x = enter(iv)
        base_facts = x.facts
        if N is not None:
            x.facts = self.add_fact(x.facts, le0(add(sub(iv, N), ONE)))
            x.facts = self.add_fact(x.facts, le0(neg(iv)))
        hv = {k: x.env.get(k) for k in mod}
        exitc = None
        inner_pc = x.pc
        if cond is not None and not isdo:
            c = self.eval(cond, fr, x)
            exitc = t_not(c)
            y = self.assume(x, c)
            x = y
            if x is not None:
                x.pc = inner_pc
        if setup is not None and x is not None:
            setup(x, iv)
        nexits = len(fr.exits)
        r0, w0 = len(self.pxr), len(self.pxw)
        e = self.exec(body, fr, x) if x is not None else None
        ends = ([e] if e is not None else []) + ctx['cont']
        endst = None
        for y in ends:
            endst = y if endst is None else self.join(fresh('it', 'bool'), endst, y, st, st.pc)
        if endst is not None and inc is not None:
            self.eval(inc, fr, endst)
        brk = ctx['brk']
        self.lctx = self.lctx[:-1]
        self.loops.pop()
        lp.brk = bool(brk)
        lp.ret = len(fr.exits) > nexits
        # post-state
        out = st.copy()
        for k in mod:
            if k in ind and not brk and N is not None and exact:
                # for '<'-style loops entered at least zero times: value after is v0+step*N when N>=0
                if self.nonneg(N, st.facts):
                    out.env[k] = self.shift(v0[k], mul(const(ind[k]), N))
                elif v0[k].k == 'it':
                    self.havoc(k, out, 'after')
                else:
                    out.env[k] = fresh('after', 'size')
            else:
                cf = None
                if endst is not None and N is not None and exact and not brk and isinstance(v0[k], T):
                    cf = self.closed(k, v0[k], hv.get(k), endst.env.get(k), iv, N, endst.facts, mod)
                if cf is not None:
                    out.env[k] = cf
                else:
                    self.havoc(k, out, 'after')
        self.keepshape(mod, v0, hv, ([endst] if endst is not None else []) + brk, out)
        # image contents written inside the loop persist as bulk updates
        for src in ([endst] if endst is not None else []) + brk:
            for k, v in src.env.items():
                o = out.env.get(k)
                if o is not None and k not in mod and isinstance(v, T) and isinstance(o, T) and v is not o and tkind(v) == 'img':
                    if self.unroll and v.k == 'img' and self.carried(k, iv, self.pxr[r0:], self.pxw[w0:]):
                        v2 = mk('img', self.nid(), v.a[1], mk('lost'))
                        if v in self.elt:
                            self.elt[v2] = self.elt[v]
                        v = v2
                    out.env[k] = v
        facts = out.facts
        if endst is not None and not brk:
            for f in endst.facts - base_facts:
                if f.k in ('eq0', 'le0', 'ne0', 'eqv', 'or', 'not') and contains(f, lambda t: t is iv) and not self.trivial_iv(f, iv):
                    facts = facts | {mk('forall', iv, f)}
        # facts not mentioning the iteration survive when the loop always runs at least once: not assumed
        out.facts = facts
        if not brk and exitc is not None and not isdo:
            pass
        if brk:
            for b in brk:
                out.facts = out.facts & b.facts if False else out.facts
        if cond is None and not brk and not isdo and setup is None:
            return None
        return out

    def sameshape(self, v, p):
        for _ in range(20):
            if v is p:
                return True
            if v.k == 'ite':
                return self.sameshape(v.a[1], p) and self.sameshape(v.a[2], p)
            w = self.shapeof(v)
            if w is v and v.k == 'copy':
                w = v.a[0]
            if w is v and v in self.shape0:
                w = self.shape0[v]
            if w is v:
                return False
            v = w
        return False

    def keepshape(self, mod, v0, hv, ends, out):
        """containers whose elements change in the loop but whose extents do not"""
        for k in mod:
            p, o = hv.get(k), out.env.get(k)
            if not isinstance(p, T) or not isinstance(v0[k], T) or v0[k].k in ('it', 'poly'):
                continue
            kd = tkind(p)
            vs = [y.env.get(k) for y in ends]
            if kd == 'vec':
                same = all(isinstance(v, T) and (v is p or self.length(v) is self.length(p)) for v in vs)
            elif kd == 'img':
                same = all(isinstance(v, T) and self.sameshape(v, p) for v in vs)
            else:
                continue
            if same:
                self.shape0[p] = v0[k]
                if isinstance(o, T) and o is not p and o.k in ('sym', 'var', 'imgp'):
                    self.shape0[o] = v0[k]

    def carried(self, k, iv, rd, wr):
        """iterations of the loop may read pixels of k that other iterations wrote"""
        rs = {c for r, c in rd if r == k}
        ws = {c for r, c in wr if r == k}
        if not rs:
            return False
        if len(ws) != 1 or rs - ws or None in rs:
            return True
        return not any(contains(x, lambda t: t is iv) for c in ws for x in c)

    def relcond(self, y, pc0):
        """condition under which y was reached from a state with path condition pc0"""
        if y.pc[:len(pc0)] == pc0:
            return t_and(*y.pc[len(pc0):])
        return fresh('it', 'bool')

    def unrolled(self, s, fr, st, inc, body, n):
        cur = st.copy()
        pc0 = st.pc
        outs = []
        for _ in range(n):
            self.lctx = self.lctx + [dict(kind='loop', brk=[], cont=[])]
            ctx = self.lctx[-1]
            e = self.exec(body, fr, cur)
            self.lctx = self.lctx[:-1]
            outs += ctx['brk']
            ends = ctx['cont'] + ([e] if e is not None else [])
            if not ends:
                cur = None
                break
            cur = ends[-1]
            for y in reversed(ends[:-1]):
                c = self.relcond(y, pc0)
                pc = cur.pc if cur.pc[:len(pc0)] == pc0 and False else pc0
                cur = self.join(c, y, cur, st, pc)
            if inc is not None:
                self.eval(inc, fr, cur)
        for y in reversed(outs):
            cur = y if cur is None else self.join(self.relcond(y, pc0), y, cur, st, pc0)
        if cur is not None and cur.pc != pc0:
            cur = State(cur.env, cur.facts, pc0)
        return cur

    def peeled(self, s, fr, st, cond, inc, body):
        """a loop whose condition is constant at every iteration, executed iteration by iteration"""
        cur = st.copy()
        outs = []
        pc0 = st.pc
        for _ in range(self.unroll + 1):
            self.mute += 1
            c = self.eval(cond, fr, cur.copy())
            self.mute -= 1
            if c is FALSE:
                break
            if c is not TRUE:
                return NotImplemented
            self.lctx = self.lctx + [dict(kind='loop', brk=[], cont=[])]
            ctx = self.lctx[-1]
            cur = self.exec(body, fr, cur)
            self.lctx = self.lctx[:-1]
            if ctx['brk'] or ctx['cont'] or cur is None:
                return NotImplemented
            if inc is not None:
                self.eval(inc, fr, cur)
        else:
            return NotImplemented
        return cur

    def cv(self, t, st):
        """constant value of t under the facts of st"""
        c = cval(t)
        if c is not None or st.facts is None:
            return c
        at = atoms(t)
        m = {}
        for f in st.facts:
            if f.k == 'eq0':
                p = poly_of(f.a[0])
                ms = [k for k in p if k]
                if len(ms) == 1 and len(ms[0]) == 1:
                    a = ms[0][0]
                    a = a[0] if isinstance(a, tuple) and isinstance(a[0], T) and a[1] == 1 else a
                    if isinstance(a, T) and a in at:
                        m[a] = const(-p.get((), 0) / p[ms[0]])
        return cval(subst(t, m)) if m else None

    def trivial_iv(self, f, iv):
        if f.k == 'le0':
            p = poly_of(f.a[0])
            return set(atoms(f.a[0])) == {iv} or f is le0(add(sub(iv, iv.a[2]), ONE)) if isinstance(iv.a[2], T) else True
        return False

    def nonneg(self, N, facts):
        return nonneg_term(N, facts)

    def closed(self, k, v0, phi, vend, iv, N, facts, mod):
        """closed form of an accumulator: vend = phi + c (c iteration-invariant) -> v0 + N*c"""
        if phi is None or vend is None or not isinstance(phi, T) or not isinstance(vend, T):
            return None
        if self.unroll and tkind(vend) == 'vec' and vend is not phi:
            r = self.vec_closed(v0, phi, vend, iv, N, facts)
            if r is not None:
                return r
        if phi.k == 'sym' and vend.k == 'vecn' or vend.k == 'vmap':
            # vector whose length grows
            lp_, le_ = mk('len', phi), self.length(vend)
            c = sub(le_, lp_)
            c = self.rewrite_eq(c, facts)
            if contains(c, lambda t: t is iv or t is phi or t is lp_):
                return None
            r = mk('vecn', self.nid(), add(self.length(v0), mul(N, c)), None)
            if v0 in self.vty:
                self.vty[r] = self.vty[v0]
            return r
        if self.unroll and tkind(vend) not in ('vec', 'img', 'str', 'lam') and phi.k in ('sym', 'var') and vend is not phi and vend.depth < 60:
            c = sub(vend, phi) if tkind(vend) not in ('struct',) else phi
            if contains(c, lambda t: t is phi or t.k in ('sym', 'var') and '#' in str(t.a[0])):
                acc = mk('sym', 'acc!L%d' % len(self.loops), phi.a[1])
                return mk('fold', acc, v0, iv, N, subst(vend, {phi: acc}))
        if tkind(vend) in ('vec', 'img', 'str', 'struct'):
            return None
        c = sub(vend, phi)
        if contains(c, lambda t: t is phi):
            return None
        c = self.rewrite_eq(c, facts)
        if self.unroll and contains(c, lambda t: t is iv) and not contains(c, lambda t: t.k == 'sym' and '#' in str(t.a[0])):
            return add(v0, mk('sum', iv, N, c))
        if contains(c, lambda t: t is iv or (t.k == 'sym' and '#' in str(t.a[0]))):
            return None
        return add(v0, mul(N, c))

    def vec_closed(self, v0, phi, vend, iv, N, facts):
        """contents of a vector whose elements are assigned in a loop"""
        def strip(t):
            if t is phi:
                return []
            if t.k == 'store':
                b = strip(t.a[0])
                return None if b is None else b + [((), t.a[1], t.a[2], TRUE)]
            if t.k == 'vlay':
                b = strip(t.a[0])
                return None if b is None else b + [t.a[1:]]
            if t.k == 'ite':
                a, b = strip(t.a[1]), strip(t.a[2])
                if a is None or b is None:
                    return None
                return [(x[0], x[1], x[2], t_and(t.a[0], x[3])) for x in a] + [(x[0], x[1], x[2], t_and(t_not(t.a[0]), x[3])) for x in b]
            return None
        if vend.k == 'vpush' and vend.a[0] is phi and not contains(vend.a[1], lambda t: t is phi) and v0.k == 'vec' and not v0.a[0]:
            r = mk('vmap', iv, N, vend.a[1])
        else:
            ls = strip(vend)
            if not ls or any(contains(x, lambda t: t is phi) for l in ls for x in l[1:] if isinstance(x, T)):
                return None
            if len(ls) == 1 and not ls[0][0] and ls[0][1] is iv and ls[0][3] is TRUE and (sub(self.length(v0), N) is ZERO or entails(facts, eq0(sub(self.length(v0), N)))):
                r = mk('vmap', iv, N, ls[0][2])
            else:
                r = v0
                for ivs, i, v, c in ls:
                    r = mk('vlay', r, (iv,) + tuple(ivs), i, v, c)
        if v0 in self.vty:
            self.vty[r] = self.vty[v0]
        return r

    def rewrite_eq(self, t, facts):
        """rewrite atoms using equality facts towards loop-invariant representatives"""
        for f in facts:
            if f.k == 'eq0':
                p = poly_of(f.a[0])
                ms = [m for m in p if m != () and len(m) == 1 and m[0][1] == 1]
                for m in ms:
                    a = m[0][0]
                    if a in atoms(t) and contains(a, lambda x: x.k == 'iv'):
                        rep = from_poly({mm: -cc / p[m] for mm, cc in p.items() if mm != m})
                        if not contains(rep, lambda x: x.k == 'iv'):
                            t = subst_atom(t, a, rep)
        return t

    def x_rfor(self, s, fr, st):
        if s.get('init'):
            st = self.exec(s['init'], fr, st)
            if st is None:
                return None
        rng = s['range']
        lv = self.lval(rng, fr, st)
        if self.dead(st):
            return None
        rv = self.read(lv, st)
        var = s['var']
        if rv.k in ('vec', 'tuple') and len(rv.a[0]) <= 8:
            # known length: unroll
            cur = st
            for i, el in enumerate(rv.a[0]):
                self.lctx = self.lctx + [dict(kind='loop', brk=[], cont=[])]
                ctx = self.lctx[-1]
                self.bind_loopvar(var, ('elem', lv, const(i)), el, fr, cur)
                e = self.exec(s['body'], fr, cur)
                self.lctx = self.lctx[:-1]
                ends = ([e] if e is not None else []) + ctx['cont']
                if ctx['brk']:
                    raise Budget()
                if not ends:
                    return None
                cur = ends[0]
                for y in ends[1:]:
                    cur = self.join(fresh('it', 'bool'), cur, y, st, st.pc)
            return cur
        N = self.rlen(rv)

        def setup(x, iv):
            el = self.relem(rv, iv)
            l2 = ('elem', lv, iv) if tkind(rv) == 'vec' and lv[0] != 'tmp' else ('tmp', el)
            self.bind_loopvar(var, l2, el, fr, x)
        return self.loop(s, fr, st, None, None, s['body'], setup=setup, N=N)

    def rlen(self, rv):
        if rv.k == 'pixels':
            return self.count(rv.a[0])
        return self.length(rv)

    def relem(self, rv, iv):
        if rv.k == 'pixels':
            im = rv.a[0]
            w = self.sz(im, 0)
            return mk('tuple', (mk('pxref', im, mod(iv, w), quot(iv, w)), mod(iv, w), quot(iv, w)))
        return self.index(rv, iv)

    def bind_loopvar(self, var, lv, el, fr, st):
        if var is None:
            return
        ts = fr.tu.t(var['t'])
        if var['k'] == 'decomp':
            for i, b in enumerate(var['b']):
                kk = (fr.id, b['id'])
                self.decl_region[kk] = len(self.regions)
                if el.k in ('tuple', 'vec') and i < len(el.a[0]):
                    st.env[kk] = el.a[0][i]
                    if el.a[0][i].k == 'pxref':
                        p = el.a[0][i]
                        st.env[kk] = self.mkpx(p.a[0], (p.a[1], p.a[2]))
                else:
                    st.env[kk] = mk('get', el, i)
            return
        kk = (fr.id, var['id'])
        self.decl_region[kk] = len(self.regions)
        self.ctype[kk] = ts
        if '&' in ts and lv[0] != 'tmp':
            rk, l = self.root(lv, st)
            st.env[kk] = Ref(l)
        else:
            st.env[kk] = el

    # ------------------------------------------------------------ omp
    def x_omp(self, s, fr, st):
        d = s['d']
        if d in ('critical', 'atomic', 'ordered', 'master', 'masked', 'single'):
            self.crit += 1
            r = self.exec(s['body'], fr, st)
            self.crit -= 1
            return r
        if d in ('simd', 'barrier', 'taskwait', 'flush'):
            return self.exec(s['body'], fr, st) if s.get('body') else st
        r = Region('omp', s['l'], self.curfn())
        collapse = 1
        for c in s['cl']:
            if c['c'] == 'collapse':
                v = c['v'][0] if c['v'] else None
                if v and v.get('k') == 'int':
                    collapse = int(v['v'])
            if c['c'] in ('private', 'firstprivate', 'lastprivate', 'linear'):
                r.private |= {x['id'] for x in c['v'] if 'id' in x}
            if c['c'] in ('reduction',):
                r.reduction |= {x['id'] for x in c['v'] if 'id' in x}
            if c['c'] == 'num_threads' and c['v'] and c['v'][0].get('k') == 'int' and int(c['v'][0]['v']) == 1:
                r.mustpar = False
        r.collapse = collapse
        r.frame = fr
        r.dir = d
        r.node = s
        self.regions.append(r)
        r.depth = len(self.regions)
        nl = len(self.loops)
        r.loop0 = nl
        body = s.get('body')
        out = self.exec(body, fr, st)
        self.regions.pop()
        return out

    # ------------------------------------------------------------ expressions
    def evargs(self, args, fr, st):
        out = []
        for a in args:
            if a is None:
                continue
            if a['k'] == 'pack':
                out.extend(self.expand(a['e'], fr, st))
            else:
                out.append(self.eval(a, fr, st))
            if self.dead(st):
                return out
        return out

    def packs_in(self, e, fr, st):
        r = []

        def outer(n):
            # packs expanded by an inner ellipsis are not expanded by this one
            if isinstance(n, list):
                for x in n:
                    yield from outer(x)
            elif isinstance(n, dict) and (n is e or n.get('k') != 'pack'):
                if 'k' in n:
                    yield n
                for x in n.values():
                    if isinstance(x, (dict, list)):
                        yield from outer(x)
        for n in outer(e):
            if n['k'] == 'ref' and n.get('id') is not None and n.get('dk') != 'nttp':
                k = self.find(fr, n['id'], st)
                v = st.env.get(k) if k else None
                if isinstance(v, T) and v.k == 'packv':
                    r.append((k, v))
            elif n['k'] == 'ref' and n.get('dk') == 'nttp':
                v = st.env.get(('nttp', n['n']))
                if isinstance(v, T) and v.k == 'packv':
                    r.append((('nttp', n['n']), v))
        return r

    def expand(self, e, fr, st):
        ps = self.packs_in(e, fr, st)
        if not ps:
            return [mk('packu', self.nid())] if False else []
        n = min(len(v.a[0]) for _, v in ps)
        out = []
        for i in range(n):
            saved = {k: st.env[k] for k, _ in ps}
            for k, v in ps:
                st.env[k] = v.a[0][i]
            out.append(self.eval(e, fr, st))
            if self.dead(st):
                return out
            for k, v in saved.items():
                st.env[k] = v
        return out

    def eval(self, e, fr, st):
        if e is None:
            return UNK
        self.tick()
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            return fresh('e_' + e['k'])
        r = m(e, fr, st)
        if r is None:
            r = UNK
        return r

    def e_int(self, e, fr, st):
        return const(int(e['v']))

    def e_flt(self, e, fr, st):
        try:
            from fractions import Fraction
            return const(Fraction(e['v']))
        except Exception:
            return mk('sym', e['v'], 'flt')

    def e_bool(self, e, fr, st):
        return TRUE if e['v'] else FALSE

    def e_chr(self, e, fr, st):
        return const(int(e['v']))

    def e_str(self, e, fr, st):
        return mk('str', e['v'])

    def e_udl(self, e, fr, st):
        for a in e['a']:
            self.eval(a, fr, st)
        return fresh('udl')

    def e_null(self, e, fr, st):
        return mk('null')

    def e_zero(self, e, fr, st):
        m = re.search(r'\[(\d+)\]$', (fr.tu.t(e.get('tt')) or '').strip()) if e.get('tt') is not None else None
        if m and int(m.group(1)) <= 64:
            return mk('vec', (ZERO,) * int(m.group(1)))
        return ZERO

    def e_this(self, e, fr, st):
        if fr.thislv is not None:
            return self.read(fr.thislv, st)
        return fr.this if fr.this is not None else mk('sym', 'this', None)

    def e_sizeof(self, e, fr, st):
        return const(e['v']) if 'v' in e else mk('sym', re.sub(r'\s+', '', e['s']), 'size')

    def e_sizeofpack(self, e, fr, st):
        f = fr
        while f is not None:
            if f.fn is not None:
                for p in f.fn.params:
                    if p.get('pack'):
                        ts = f.tu.t(p['t'])
                        if e['n'] == p['n'] or re.search(r'\b%s\b' % re.escape(e['n']), ts):
                            k = self.find(f, p['id'], st)
                            v = st.env.get(k) if k else None
                            if isinstance(v, T) and v.k == 'packv':
                                return const(len(v.a[0]))
            f = f.parent
        return mk('sym', 'sizeof...(%s)' % e['n'], 'size')

    def e_trait(self, e, fr, st):
        return mk('cx', re.sub(r'\s+', ' ', e['s']))

    e_requires = e_trait

    def e_lambda(self, e, fr, st):
        t = mk('lam', fr.id, e['l'], id(e))
        self.lams[t] = (e, fr)
        for c in e['caps']:
            if c.get('init') is not None and 'id' in c:
                st.env[(fr.id, c['id'])] = self.eval(c['init'], fr, st)
        return t

    def e_ref(self, e, fr, st):
        dk = e.get('dk')
        if dk in ('var', 'parm', 'bind', 'other') or (dk == 'gvar' and False):
            k = self.find(fr, e['id'], st)
            if k is not None:
                v = st.env[k]
                if isinstance(v, Ref):
                    return self.read(v.lv, st)
                self.ev('rvar', e, st, key=k, decl=self.decl_region.get(k, 0)) if self.regions else None
                return v
            return mk('sym', e['n'], None)
        if dk == 'enum':
            return mk('enum', (e.get('q') or e['n']).split('::')[-1])
        if dk in ('func', 'ovl', 'dep'):
            q = e.get('q') or e['n']
            if POLICY_RE.search(q) and 'execution' in q:
                return mk('policy', q.split('::')[-1])
            if q.startswith('std::numbers::') or q.startswith('numbers::'):
                return mk('sym', q.split('::')[-1], 'flt')
            if dk == 'dep' or (dk == 'ovl' and e.get('ta') is not None and not e.get('cands') and 'f' not in e):
                if q.split('::')[-1] in ('tuple_size_v', 'value') and e.get('ta'):
                    return self.tuple_size(str(e['ta'][0] if isinstance(e['ta'], list) else e['ta']), fr, st)
                return mk('sym', q + (str(e.get('ta')) if e.get('ta') else ''), None)
            return mk('fnref', q)
        if dk == 'gvar':
            q = e.get('q') or e['n']
            if POLICY_RE.search(q) and 'execution' in q:
                return mk('policy', q.split('::')[-1])
            if q in self.gvals:
                return self.gvals[q]
            return mk('gvar', q)
        if dk == 'nttp':
            v = st.env.get(('nttp', e['n']))
            if v is None:
                v = self.tvals.get(e['n'])
            return v if v is not None else mk('sym', e['n'], 'size')
        return mk('sym', e['n'], None)

    def e_paren(self, e, fr, st):
        return self.eval(e['e'], fr, st)

    def e_mem(self, e, fr, st):
        lv = self.lval(e, fr, st)
        v = self.read(lv, st)
        return v

    def e_idx(self, e, fr, st):
        lv = self.lval(e, fr, st)
        return self.read(lv, st)

    # lvalues
    def lval(self, e, fr, st):
        if e is None:
            return ('tmp', UNK)
        k = e['k']
        if k == 'ref' and e.get('dk') in ('var', 'parm', 'bind', 'other'):
            kk = self.find(fr, e['id'], st)
            if kk is not None:
                return ('var', kk)
            return ('tmp', mk('sym', e['n'], None))
        if k == 'mem':
            if e.get('dk') == 'func':
                return ('tmp', mk('fnref', e['n']))
            b = e['b']
            if b and b['k'] == 'this':
                if fr.thislv is not None:
                    return ('fld', fr.thislv, e['n'])
                th = self.eval(b, fr, st)
                return ('fld', ('tmp', th), e['n'])
            lv = self.lval(b, fr, st)
            return ('fld', lv, e['n'])
        if k == 'idx':
            lv = self.lval(e['b'], fr, st)
            i = self.eval(e['i'], fr, st)
            if self.dead(st):
                return ('tmp', UNK)
            if self.unroll and lv[0] == 'fld' and lv[2] == 'image_data' and lv[1][0] != 'tmp' and tkind(self.read(lv[1], st)) == 'img':
                lv = ('data', lv[1])
            n0 = len(self.pxr)
            bv = self.read(lv, st)
            if lv[0] == 'data' and self.unroll:
                del self.pxr[n0:]
            if tkind(bv) == 'img':
                self.access(e, st, bv, (i,), False, lv)
                return ('px', lv, (i,))
            if self.unroll and bv.k == 'addr' and isinstance(bv.a[0], tuple) and bv.a[0][0] == 'px':
                # pointer to a pixel: consecutive pixels of the row-major data
                il, co = bv.a[0][1], bv.a[0][2]
                im = self.read(il, st)
                p = None
                if tkind(im) == 'img' and len(co) == 2:
                    p = add(add(co[0], mul(co[1], self.sz(im, 0))), i)
                elif tkind(im) == 'img' and len(co) == 1 and co[0].k == 'lin':
                    p = add(co[0].a[0], i)
                if p is not None:
                    self.ev('pptr', e, st, img=im, coords=(mk('lin', p),))
                    return ('px', il, (mk('lin', p),))
            if bv.k == 'data' or (lv[0] == 'data'):
                self.ev('rdata', e, st, img=bv, idx=i, lv=lv)
                if lv[0] == 'data':
                    return ('px', lv[1], (mk('lin', i),))
            self.ev('relem', e, st, base=bv, idx=i, root=self.root(lv, st)[0], decl=self.decl_region.get(self.root(lv, st)[0], 0))
            return ('elem', lv, i)
        if k == 'un' and e['op'] == '*':
            if e['e'] and e['e']['k'] == 'this':
                return fr.thislv if fr.thislv is not None else ('tmp', self.eval(e['e'], fr, st))
            v = self.eval(e['e'], fr, st)
            if v.k == 'it' and v.a[1] is not None:
                base = v.a[1]
                if base[0] == 'data':
                    return ('px', base[1], (mk('lin', v.a[2]),))
                return ('elem', base, v.a[2])
            if v.k == 'it':
                return ('tmp', self.index(v.a[0], v.a[2]))
            if v.k == 'addr':
                return v.a[0]
            return ('tmp', mk('deref', v))
        if k == 'call':
            r = self.call(e, fr, st, wantlv=True)
            if isinstance(r, tuple):
                return r
            return ('tmp', r)
        if k == 'cond':
            return ('tmp', self.eval(e, fr, st))
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            self.eval(e, fr, st)
            return self.lval(e['e'], fr, st)
        if k == 'bin' and e['op'] in ('=', '+=', '-=', '*=', '/='):
            self.eval(e, fr, st)
            return self.lval(e['lh'], fr, st) if e['lh']['k'] == 'ref' else ('tmp', UNK)
        if k == 'cast' and e.get('ck') in ('static', 'const', 'c') and '&' in fr.tu.t(e.get('tt')):
            return self.lval(e['e'], fr, st)
        return ('tmp', self.eval(e, fr, st))

    def access(self, e, st, img, coords, checked, lv):
        """a pixel access; checked ones also establish range facts"""
        self.ev('px', e, st, img=img, coords=coords, checked=checked, root=self.root(lv, st)[0] if lv else None,
                decl=self.decl_region.get(self.root(lv, st)[0], 0) if lv else 0)
        if st.facts is None:
            return
        n = len(coords)
        f = st.facts
        f = self.add_fact(f, eq0(sub(self.dim(img), const(n))))
        if checked:
            for i, c in enumerate(coords):
                f = self.add_fact(f, lt(c, self.sz(img, i)))
        st.facts = f

    def e_un(self, e, fr, st):
        op = e['op']
        if op in ('++', '--'):
            lv = self.lval(e['e'], fr, st)
            v = self.read(lv, st)
            if v.k == 'it':
                nv = mk('it', v.a[0], v.a[1], add(v.a[2], ONE if op == '++' else const(-1)))
            else:
                nv = add(v, ONE if op == '++' else const(-1))
            if lv[0] != 'tmp':
                self.write(lv, nv, st, e)
            return v if e.get('post') else nv
        if op == '*':
            lv = self.lval(e, fr, st)
            return self.read(lv, st)
        if op == '&':
            lv = self.lval(e['e'], fr, st)
            return mk('addr', self.root(lv, st)[1]) if lv[0] != 'tmp' else mk('app', '&', (lv[1],), None)
        v = self.eval(e['e'], fr, st)
        if op == '!':
            return t_not(self.tobool(v))
        if op == '-':
            return neg(v)
        if op == '+':
            return v
        return mk('app', 'un' + op, (v,), None)

    def tobool(self, v):
        c = cval(v)
        if c is not None:
            return FALSE if c == 0 else TRUE
        return v

    def eqterm(self, a, b):
        if a is b:
            return TRUE
        ka, kb = tkind(a), tkind(b)
        if a.k in ('str', 'enum', 'null') or b.k in ('str', 'enum', 'null'):
            if a.k == b.k:
                return TRUE if a is b else FALSE
            return mk('eqs', *sorted((a, b)))
        if a.k == 'it' and b.k == 'it':
            return eq0(sub(a.a[2], b.a[2]))
        if ka == 'vec' or kb == 'vec' or ka == 'tuple' or kb == 'tuple':
            if a.k in ('vec', 'tuple') and b.k == a.k:
                if len(a.a[0]) != len(b.a[0]):
                    return FALSE
                return t_and(*[self.eqterm(x, y) for x, y in zip(a.a[0], b.a[0])])
            return mk('eqv', *sorted((a, b)))
        if ka in ('img', 'struct', 'lam') or kb in ('img', 'struct', 'lam'):
            return mk('eqo', *sorted((a, b)))
        if a in (TRUE, FALSE) or b in (TRUE, FALSE):
            x, y = (a, b) if a in (TRUE, FALSE) else (b, a)
            if tkind(y) == 'bool':
                return y if x is TRUE else t_not(y)
        if ka == 'bool' and kb == 'bool':
            return mk('eqb', *sorted((a, b)))
        return eq0(sub(a, b))

    def isflt(self, e, fr):
        t = e.get('t')
        if t is not None:
            s = strip_type(fr.tu.t(t))
            if s in ('double', 'float', 'long double'):
                return True
            return False
        return None

    def e_bin(self, e, fr, st):
        op = e['op']
        if op in ('=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<=', '>>='):
            return self.assign(e, fr, st)
        if op in ('&&', '||'):
            a = self.tobool(self.eval(e['lh'], fr, st))
            if self.dead(st):
                return UNK
            st2 = self.assume(st.copy(), a if op == '&&' else t_not(a))
            if st2 is None:
                return FALSE if op == '&&' else TRUE
            b = self.tobool(self.eval(e['rh'], fr, st2))
            # side effects of rhs on env are joined in
            if st2.facts is not None and st2.env != st.env:
                for k in st2.env:
                    if k in st.env and st.env[k] is not st2.env[k] and not isinstance(st2.env[k], Ref):
                        st.env[k] = self.joinval(a if op == '&&' else t_not(a), st2.env[k], st.env[k])
            if st2.facts is None:
                b = fresh('dead', 'bool')
            return t_and(a, b) if op == '&&' else t_or(a, b)
        if op == ',':
            self.eval(e['lh'], fr, st)
            if self.dead(st):
                return UNK
            return self.eval(e['rh'], fr, st)
        if op in ('<<', '>>') and self.regions and e['lh'] and e['lh']['k'] in ('ref', 'mem'):
            rk, l = self.root(self.lval(e['lh'], fr, st), st)
            if rk is not None and 'stream' in self.ctype.get(rk, ''):
                self.ev('cmut', e, st, name='operator' + op, root=rk, base=UNK, args=(), decl=self.decl_region.get(rk, 0), lv=l)
        a = self.eval(e['lh'], fr, st)
        if self.dead(st):
            return UNK
        b = self.eval(e['rh'], fr, st)
        if self.dead(st):
            return UNK
        if e.get('ov') and (op in ('<<', '>>')):
            self.ev('stream', e, st, op=op, a=a, b=b)
            if op == '>>':
                lv = self.lval(e['rh'], fr, st)
                if lv[0] == 'var':
                    self.mute += 1
                    self.write(lv, fresh('in'), st, e)
                    self.mute -= 1
            return a
        if op == '|' and (tkind(a) == 'vec' or e.get('ov')):
            return fresh('view', 'vec')
        return self.binop(op, a, b, e, fr, st)

    def binop(self, op, a, b, e, fr, st):
        ka, kb = tkind(a), tkind(b)
        if (ka == 'img' or kb == 'img') and op in ('+', '-', '*', '/', '=='):
            r = self.img_operator(op, a, b, e, fr, st)
            if r is not None:
                return r
        if a.k == 'it' and op in ('+', '-'):
            if b.k == 'it':
                return sub(a.a[2], b.a[2])
            return mk('it', a.a[0], a.a[1], add(a.a[2], b) if op == '+' else sub(a.a[2], b))
        if op == '+':
            if ka == 'str' or kb == 'str':
                return mk('app', 'strcat', (a, b), 'str')
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op in ('/', '%'):
            self.ev('div', e, st, op=op, a=a, b=b)
        if op == '/':
            fl = self.isflt(e, fr)
            if fl is None:
                fl = self.fltish(e['lh'], fr, st) or self.fltish(e['rh'], fr, st) or ka == 'flt' or kb == 'flt'
            return fdiv(a, b) if fl else quot(a, b)
        if op == '%':
            return mod(a, b)
        if op == '<':
            return self.cmp(a, b, True, e, fr)
        if op == '>':
            return self.cmp(b, a, True, e, fr)
        if op == '<=':
            return self.cmp(a, b, False, e, fr)
        if op == '>=':
            return self.cmp(b, a, False, e, fr)
        if op == '==':
            return self.eqterm(a, b)
        if op == '!=':
            return t_not(self.eqterm(a, b))
        return mk('app', op, (a, b), None)

    def fltish(self, e, fr, st):
        if e is None:
            return False
        k = e['k']
        if k == 'flt':
            return True
        if k == 'cast':
            ts = strip_type(fr.tu.t(e.get('tt')))
            if ts in ('double', 'float', 'long double') or 'Floating' in ts:
                return True
            if ts in ('std::size_t', 'int', 'size_t', 'long', 'std::ptrdiff_t'):
                return False
            return None
        if k == 'bin' and e['op'] in ('+', '-', '*', '/'):
            return bool(self.fltish(e['lh'], fr, st) or self.fltish(e['rh'], fr, st))
        if k == 'un':
            return self.fltish(e['e'], fr, st)
        if k == 'ref':
            if e.get('dk') in ('var', 'parm', 'bind'):
                kk = self.find(fr, e['id'], st)
                ts = strip_type(self.ctype.get(kk, ''))
                if ts in ('double', 'float', 'long double') or 'Floating' in ts:
                    return True
        if k == 'call' and e.get('f') and e['f'].get('q', '').split('::')[-1] in ('sqrt', 'sin', 'cos', 'floor', 'ceil', 'exp', 'pow', 'log', 'round'):
            return True
        return False

    def cmp(self, a, b, strict, e, fr):
        d = sub(a, b)
        hasf = any(c.denominator != 1 for c in poly_of(d).values()) or contains(d, lambda t: t.k in ('fdiv', 'px', 'gvar') or (t.k in ('sym', 'var') and t.a[1] == 'flt') or (t.k == 'app' and len(t.a) > 2 and t.a[2] == 'flt'))
        if a.k == 'it' and b.k == 'it':
            return lt(a.a[2], b.a[2]) if strict else le(a.a[2], b.a[2])
        if hasf and cval(d) is not None:
            return TRUE if (cval(d) < 0 or not strict and cval(d) == 0) else FALSE
        if hasf:
            if strict:
                return mk('not', mk('flt_le', neg(d)))
            return mk('flt_le', d)
        return lt(a, b) if strict else le(a, b)

    def assign(self, e, fr, st):
        op = e['op']
        rhs = None
        if e['rh'] is not None:
            if e['rh']['k'] == 'init':
                lvt = ''
                if e['lh']['k'] == 'ref':
                    kk = self.find(fr, e['lh'].get('id'), st)
                    lvt = self.ctype.get(kk, '')
                lvt = lvt or fr.tu.t(e['lh'].get('t')) or ''
                rhs = self.construct(lvt, e['rh'], fr, st)
            else:
                rhs = self.eval(e['rh'], fr, st)
        if self.dead(st):
            return UNK
        lv = self.lval(e['lh'], fr, st)
        if self.dead(st):
            return UNK
        if op == '=':
            val = rhs
        else:
            old = self.read(lv, st)
            if tkind(old) == 'img':
                r = self.img_operator(op, old, rhs, e, fr, st, lv)
                return r if r is not None else UNK
            if op == '/=' and not (self.isflt(e, fr) or self.fltish(e['rh'], fr, st) or tkind(rhs) == 'flt'):
                self.ev('div', e, st, op='/', a=old, b=rhs)
            val = self.binop(op[:-1], old, rhs, {'k': 'bin', 'op': op[:-1], 'lh': e['lh'], 'rh': e['rh'], 'l': e['l'], 't': e.get('t')} if op != '/=' else {'k': 'bin', 'lh': e['lh'], 'rh': e['rh'], 'l': e['l'], 't': e.get('t')}, fr, st)
        if lv[0] != 'tmp':
            self.write(lv, val, st, e)
        else:
            self.ev('wtmp', e, st, val=val, base=lv[1])
        return val

    def img_operator(self, op, a, b, e, fr, st, lv=None):
        nm = 'operator' + op
        cands = [f for f in self.p.byname.get(nm, []) if f.file == 'image.h' and f.body]
        cands = [f for f in cands if len(f.params) == (1 if f.kind == 'method' else 2)]
        res = []
        for f in cands:
            ks = [kind_of_type(f.ptype(i), f.req()) for i in range(len(f.params))]
            ak = [tkind(b)] if f.kind == 'method' else [tkind(a), tkind(b)]
            if all((x == 'img') == (y == 'img') for x, y in zip(ks, ak)):
                res.append(f)
        if len(res) != 1:
            return mk('app', 'imgop' + op, (a, b), 'img') if op != '==' else None
        f = res[0]
        if f.kind == 'method':
            return self.inline(f, [b], None, fr, st, e, this=a, thislv=lv if lv is not None and lv[0] != 'tmp' else None)
        return self.inline(f, [a, b], None, fr, st, e)

    def e_cond(self, e, fr, st):
        c = self.tobool(self.eval(e['c'], fr, st))
        if self.dead(st):
            return UNK
        c = self.simplify(c, st.facts)
        if c is TRUE:
            return self.eval(e['x'], fr, st)
        if c is FALSE:
            return self.eval(e['y'], fr, st)
        sa = self.assume(st.copy(), c)
        sb = self.assume(st.copy(), t_not(c))
        a = self.eval(e['x'], fr, sa) if sa else None
        b = self.eval(e['y'], fr, sb) if sb else None
        da = sa is None or self.dead(sa)
        db = sb is None or self.dead(sb)
        if da and db:
            self.kill(st)
            return UNK
        if da or db:
            g = sb if da else sa
            st.env, st.facts = g.env, g.facts
            return b if da else a
        if sa.env != sb.env:
            j = self.join(c, sa, sb, st, st.pc)
            st.env = j.env
        r = ite(c, a, b)
        for d in (self.elt, self.vty):
            if a in d:
                d.setdefault(r, d[a])
        return r

    def e_cast(self, e, fr, st):
        ts = strip_type(fr.tu.t(e.get('tt')))
        v = self.eval(e['e'], fr, st)
        if e.get('ck') == 'const':
            self.ev('constcast', e, st, ty=fr.tu.t(e.get('tt')))
        ints = ('std::size_t', 'int', 'size_t', 'long', 'std::ptrdiff_t', 'unsigned int', 'std::uint8_t', 'unsigned char', 'long long', 'std::int64_t', 'GrayScale')
        if ts.replace('TinyDIP::', '') in ints:
            if v.k in ('fdiv', 'flt') or (v.k == 'poly' and any(c.denominator != 1 for c in poly_of(v).values())) or tkind(v) == 'flt':
                if self.unroll and ts in ('int', 'long', 'std::ptrdiff_t', 'long long', 'std::int64_t'):
                    return mk('app', 'itrunc', (v,), 'int')
                return mk('app', 'trunc', (v,), 'size')
            if ts.replace('TinyDIP::', '') in ('std::uint8_t', 'unsigned char', 'GrayScale') and not is_const(v):
                return mk('app', 'u8', (v,), 'size')
            return v
        return v

    def ctor_args(self, e, fr):
        aa = e['a']
        if e['k'] == 'ctor' and e.get('list') and len(aa) == 1 and aa[0]['k'] == 'init' and (strip_type(fr.tu.t(aa[0].get('t')) or '') == 'void' or re.search(r'\[\d*\]$', (fr.tu.t(aa[0].get('t')) or '').strip())):
            return aa[0]['a']
        return aa

    def e_ctor(self, e, fr, st):
        ts = fr.tu.t(e.get('tt'))
        if self.refrec(ts):
            lvs, args = self.lvargs(self.ctor_args(e, fr), fr, st)
            return UNK if self.dead(st) else self.ctor(ts, args, e, fr, st, True, lvs)
        args = self.evargs(self.ctor_args(e, fr), fr, st)
        if self.dead(st):
            return UNK
        m = re.match(r'(?:std::)?tuple_size<(.*)>$', strip_type(ts))
        if m and not args:
            return self.tuple_size(m.group(1), fr, st)
        m = re.match(r'(?:std::)?make_index_sequence<(\w+)>$', strip_type(ts))
        if m and not args:
            v = const(int(m.group(1))) if m.group(1).isdigit() else st.env.get(('nttp', m.group(1))) or self.tvals.get(m.group(1))
            return mk('iseq', v) if v is not None else fresh('iseq')
        if not args:
            if kind_of_type(ts, fr.fn.req() if fr.fn else '') in ('img', 'vec'):
                return self.construct(ts, None, fr, st)
            if kind_of_type(ts, '') in ('size', 'int', 'flt'):
                return ZERO
            if kind_of_type(ts, '') == 'bool':
                return FALSE
            r = self.default_struct(ts, fr, st)
            if r.k == 'uninitv':
                return mk('defval', ts)
            return r
        return self.ctor(ts, args, e, fr, st, e.get('list'))

    def e_init(self, e, fr, st):
        args = self.evargs(e['a'], fr, st)
        if e.get('t') is not None:
            ts = strip_type(fr.tu.t(e['t']))
            if kind_of_type(ts) in ('size', 'int', 'flt', 'bool') and len(args) <= 1:
                return args[0] if args else ZERO
            if re.search(r'\[\d*\]$', ts.strip()):
                return mk('vec', tuple(args))
            return self.ctor(ts, args, e, fr, st, True)
        if len(args) == 1 and False:
            return args[0]
        return mk('vec', tuple(args))

    def e_plist(self, e, fr, st):
        args = self.evargs(e['a'], fr, st)
        return args[0] if len(args) == 1 else mk('tuple', tuple(args))

    def e_desig(self, e, fr, st):
        return self.eval(e['e'], fr, st)

    def e_pack(self, e, fr, st):
        xs = self.expand(e['e'], fr, st)
        return mk('tuple', tuple(xs))

    def e_throw(self, e, fr, st):
        if e.get('e') is not None:
            self.mute += 1
            try:
                self.eval(e['e'], fr, st.copy())
            except Budget:
                pass
            finally:
                self.mute -= 1
        self.x_throw(e, fr, st)
        self.kill(st)
        return UNK

    def x_throw(self, s, fr, st):
        self.ev('throw', s, st, ty=fr.tu.t(s.get('tt')) if s.get('tt') is not None else '')
        return None

    def e_new(self, e, fr, st):
        if e.get('n'):
            self.eval(e['n'], fr, st)
        if e.get('e'):
            self.eval(e['e'], fr, st)
        return fresh('new')

    def e_delete(self, e, fr, st):
        self.eval(e['e'], fr, st)
        return VOID

    def e_typeid(self, e, fr, st):
        return mk('sym', 'typeid', None)

    def e_recovery(self, e, fr, st):
        for a in e['a']:
            self.eval(a, fr, st)
        return fresh('recovery')

    def e_unk(self, e, fr, st):
        return fresh('unk')

    def e_decl(self, e, fr, st):
        return UNK

    def e_fold(self, e, fr, st):
        op = e['op']
        lh, rh = e.get('lh'), e.get('rh')
        pat, init = None, None
        if lh is not None and self.packs_in(lh, fr, st):
            pat, init = lh, rh
        elif rh is not None and self.packs_in(rh, fr, st):
            pat, init = rh, lh
        if pat is None:
            return fresh('fold')
        if op in ('&&', '||'):
            # short-circuit, sequential
            ps = self.packs_in(pat, fr, st)
            n = min(len(v.a[0]) for _, v in ps)
            acc = TRUE if op == '&&' else FALSE
            cur = st
            saved = {k: st.env[k] for k, _ in ps}
            vals = []
            c2 = st
            for i in range(n):
                for k, v in ps:
                    c2.env[k] = v.a[0][i]
                b = self.tobool(self.eval(pat, fr, c2))
                vals.append(b)
                if self.dead(c2):
                    break
                nx = self.assume(c2.copy(), b if op == '&&' else t_not(b))
                if nx is None:
                    break
                c2 = nx
            for k, v in saved.items():
                st.env[k] = v
            return t_and(*vals) if op == '&&' else t_or(*vals)
        vals = self.expand(pat, fr, st)
        if self.dead(st):
            return UNK
        if op == ',':
            return vals[-1] if vals else VOID
        iv = self.eval(init, fr, st) if init is not None else None
        if iv is not None:
            vals = [iv] + vals
        if not vals:
            return {'*': ONE, '+': ZERO, '&&': TRUE, '||': FALSE}.get(op, UNK)
        r = vals[0]
        for v in vals[1:]:
            r = self.binop(op, r, v, e, fr, st)
        return r

    # ------------------------------------------------------------ constructors
    def refrec(self, ts):
        """the record of an aggregate type that has reference members"""
        name = re.sub(r'<.*', '', strip_type(ts or '')).split('::')[-1]
        r = self.p.recs.get(name)
        return r if r and any((r[1].t(f['t']) or '').rstrip().endswith('&') for f in r[0]['fields']) else None

    def ctor(self, ts, args, e, fr, st, aslist=False, lvs=None):
        s = strip_type(ts)
        s1 = s.replace('TinyDIP::', '')
        kd = kind_of_type(s, fr.fn.req() if fr.fn else '')
        if s1 in ('std::vector',) or s1.startswith('std::vector<auto'):
            kd = 'vec'
        if kd == 'img':
            return self.img_ctor(s, args, e, fr, st)
        if kd == 'vec':
            return self.vec_ctor(s, args, e, fr, st, aslist)
        if kd == 'tuple' or s1.startswith(('std::tuple', 'std::pair')):
            return mk('tuple', tuple(args))
        if kd in ('size', 'int', 'flt', 'bool'):
            return args[0] if args else ZERO
        if kd == 'str':
            return args[0] if len(args) == 1 else mk('app', 'str', tuple(args), 'str')
        if s1.startswith('std::ranges::iota_view') or s1.startswith('std::views::iota'):
            return mk('iota', args[0], args[1]) if len(args) == 2 else fresh('iota', 'vec')
        m = re.match(r'(?:std::)?tuple_size<(.*)>$', s1)
        if m and not args:
            return self.tuple_size(m.group(1), fr, st)
        name = re.sub(r'<.*', '', s1).split('::')[-1]
        r = self.p.recs.get(name)
        if r:
            cs = [f for f in self.p.byname.get(name, []) if f.kind == 'ctor' and len(f.params) == len(args)]
            if self.nchan and not cs and args and len(r[0]['fields']) == 1 and (aslist or e.get('k') == 'init') and \
                    not (len(args) == 1 and tkind(args[0]) in ('vec', 'struct')):
                # brace elision: the list initialises the elements of the only member
                if re.search(r'\[\w*\]$|array<', r[1].t(r[0]['fields'][0]['t']) or ''):
                    return mk('struct', name, ((r[0]['fields'][0]['n'], mk('vec', tuple(args))),))
            if not cs and len(args) <= len(r[0]['fields']):
                fs = []
                for i, f in enumerate(r[0]['fields']):
                    v = args[i] if i < len(args) else fresh('dflt')
                    if lvs and i < len(lvs) and lvs[i] is not None and (r[1].t(f['t']) or '').rstrip().endswith('&'):
                        rk, l = self.root(lvs[i], st)
                        if rk is not None:
                            v = mk('refv', self.nid())
                            self.refs[v.a[0]] = l
                    fs.append((f['n'], v))
                return mk('struct', name, tuple(fs))
            if len(args) == 1 and tkind(args[0]) == 'struct':
                return args[0]
            if len(cs) == 1 and len(self.stack) < self.maxdepth:
                obj = self.default_struct(ts, fr, st)
                kk = ('obj', self.nid())
                st.env[kk] = obj
                self.inline(cs[0], args, None, fr, st, e, this=obj, thislv=('var', kk))
                if self.dead(st):
                    return UNK
                return st.env.get(kk, obj)
        if len(args) == 1 and name in ('', 'auto'):
            return args[0]
        if len(args) == 1 and re.fullmatch(r'[A-Za-z_]\w*', s1):
            return args[0]          # conversion to a template parameter type
        if e.get('k') == 'init' or aslist:
            return mk('vec', tuple(args)) if name in ('', 'auto') else mk('app', 'ctor:' + name, tuple(args), None)
        return mk('app', 'ctor:' + name, tuple(args), None)

    def tuple_size(self, ty, fr, st):
        f = fr
        ty = strip_type(ty)
        while f is not None:
            if f.fn is not None:
                for p in f.fn.params:
                    if strip_type(f.tu.t(p['t'])) == ty:
                        k = self.find(f, p['id'], st)
                        v = st.env.get(k) if k else None
                        if isinstance(v, Ref):
                            v = self.read(v.lv, st)
                        if isinstance(v, T) and v.k == 'tuple':
                            return const(len(v.a[0]))
            f = f.parent
        return mk('sym', 'tuple_size<%s>' % ty, 'size')

    def img_ctor(self, s, args, e, fr, st):
        if any(not isinstance(a, T) for a in args):
            return fresh('img', 'img')
        if not args:
            return mk('img', self.nid(), (), mk('uninit'))
        a0 = args[0]
        if len(args) == 1 and tkind(a0) == 'img':
            return a0
        t = None
        if tkind(a0) == 'vec' or a0.k == 'app' and tkind(a0) is None:
            if len(args) == 1:
                if a0.k == 'vec' and all(tkind(x) in ('size', 'int', None) for x in a0.a[0]) and self.elkind(a0)[0] != 'vec':
                    t = mk('img', self.nid(), a0.a[0], mk('uninit'))
                elif self.elkind(a0)[0] == 'vec':
                    t = mk('img', self.nid(), (mk('len', self.index(a0, ZERO)), self.length(a0)), mk('dataof', mk('app', 'flatten', (a0,), 'vec')))
                else:
                    t = mk('img', self.nid(), a0, mk('uninit'))
            elif len(args) == 2 and tkind(args[1]) in ('vec',):
                d = args[1]
                t = mk('img', self.nid(), d.a[0] if d.k == 'vec' else d, mk('dataof', a0))
                # the constructor throws when data length and size disagree
                st.facts = self.add_fact(st.facts, eq0(sub(self.length(a0), self.product(d))))
            elif len(args) >= 2:
                dd = tuple(args[1:])
                t = mk('img', self.nid(), dd, mk('dataof', a0))
                st.facts = self.add_fact(st.facts, eq0(sub(self.length(a0), self.product(mk('vec', dd)))))
            self.ev('imgctor', e, st, img=t, args=tuple(args), data=a0)
        else:
            t = mk('img', self.nid(), tuple(args), mk('uninit'))
            self.ev('imgctor', e, st, img=t, args=tuple(args), data=None)
        el = image_elem(s)
        if el:
            self.elt[t] = el
        return t

    def vec_ctor(self, s, args, e, fr, st, aslist):
        t = None
        if not args:
            if re.match(r'^(?:std::)?array<', s):
                return self.construct(s, None, fr, st)
            t = mk('vec', ())
        elif aslist and not (len(args) == 1 and tkind(args[0]) == 'vec' and False):
            if len(args) == 1 and args[0].k == 'vec' and e.get('k') != 'init':
                t = args[0]
            else:
                t = mk('vec', tuple(args))
        elif len(args) == 1 and tkind(args[0]) == 'vec':
            t = args[0]
        elif len(args) >= 2 and args[0].k == 'it' and args[1].k == 'it':
            b, f, l = args[0].a[0], args[0].a[2], args[1].a[2]
            if f is ZERO and sub(l, self.length(b)) is ZERO:
                t = b if b.k != 'data' else mk('vmap', self.newiv(l), l, None) if False else b
            else:
                t = mk('slice', b, f, l)
        elif len(args) >= 2 and args[0].k in ('fnref', 'gvar') and 'from_range' in str(args[0].a[0]):
            t = args[1]
        elif self.unroll and len(args) in (1, 2) and tkind(args[0]) in ('size', 'int', 'num', None) and self.cv(args[0], st) is not None and 0 < self.cv(args[0], st) <= self.unroll:
            t = mk('vec', (args[1] if len(args) == 2 else self.elem0(s),) * int(self.cv(args[0], st)))
        elif len(args) == 1:
            t = mk('vecn', ('new', self.nid()), args[0], None)
        else:
            if tkind(args[0]) in ('size', 'int', 'num', None):
                t = mk('vecn', self.nid(), args[0], args[1])
            else:
                t = fresh('vec', 'vec')
        if re.search(r'<', s):
            self.vty.setdefault(t, s)
        return t

    def elem0(self, s):
        m = re.match(r'^(?:std::)?vector<(.*)>$', s)
        k = kind_of_type(m.group(1)) if m else None
        return ZERO if k in ('size', 'int', 'flt') else fresh('e0')

    def newiv(self, n):
        return mk('iv', self.nid(), ZERO, n)

    # ------------------------------------------------------------ calls
    def e_call(self, e, fr, st):
        r = self.call(e, fr, st)
        if isinstance(r, tuple):
            return self.read(r, st)
        return r

    def call(self, e, fr, st, wantlv=False):
        f = e['f']
        if f is None:
            for a in e['a']:
                self.eval(a, fr, st)
            return fresh('call')
        if f['k'] == 'mem':
            return self.method(e, f, fr, st, wantlv)
        if f['k'] == 'ref' and f.get('dk') in ('func', 'ovl', 'dep') or (f['k'] == 'ref' and f.get('dk') == 'gvar'):
            q = f.get('q') or f['n']
            nm = f['n']
            h = self.std(q, nm, e, fr, st, wantlv)
            if h is not NotImplemented:
                return h
            args = None
            lvs = None
            cands = self.candidates(e, f)
            if cands:
                return self.invoke(cands, e, fr, st, nm, wantlv)
            args = self.evargs(e['a'], fr, st)
            if self.dead(st):
                return UNK
            return self.opaque_call(q, args, e, fr, st)
        # callee is a value: lambda / functor
        v = self.eval(f, fr, st)
        if self.dead(st):
            return UNK
        lvs, args = self.lvargs(e['a'], fr, st)
        if self.dead(st):
            return UNK
        return self.apply(v, args, lvs, e, fr, st, wantlv)

    def lvargs(self, aa, fr, st):
        lvs, args = [], []
        for a in aa:
            if a is None:
                continue
            if a['k'] == 'pack':
                xs = self.expand(a['e'], fr, st)
                args += xs
                # forwarding of packs by reference
                lvs += [None] * len(xs)
                continue
            lv = None
            if a['k'] in ('ref', 'mem', 'idx') or (a['k'] == 'un' and a['op'] == '*') or a['k'] == 'call' and (a['f'] or {}).get('n') in ('forward', 'move', 'getImageData', 'ref', 'at_without_boundary_check', 'at', 'set'):
                lv = self.lval(a, fr, st)
                if self.dead(st):
                    return lvs, args
                args.append(self.read(lv, st))
                lvs.append(lv if lv[0] != 'tmp' else None)
            else:
                args.append(self.eval(a, fr, st))
                lvs.append(None)
            if self.dead(st):
                return lvs, args
        return lvs, args

    def apply(self, v, args, lvs, e, fr, st, wantlv=False):
        if v.k == 'lam' and v in self.lams:
            node, dfr = self.lams[v]
            return self.inline_lambda(node, dfr, args, lvs, fr, st, e, wantlv)
        if v.k == 'fnref':
            q = v.a[0]
            cands = [g for g in self.p.byname.get(q.split('::')[-1], []) if g.body]
            if cands:
                c = self.filter(cands, args)
                if c:
                    return self.invoke_with(c, args, lvs, e, fr, st, q, wantlv)
            return self.opaque_call(q, args, e, fr, st)
        if v.k in ('struct', 'defval', 'uninitv') or (v.k == 'app' and str(v.a[0]).startswith('ctor:')):
            name = v.a[0] if v.k == 'struct' else (v.a[0][5:] if v.k == 'app' else re.sub(r'<.*', '', strip_type(v.a[-1])).split('::')[-1])
            stdop = {'plus': '+', 'minus': '-', 'multiplies': '*', 'divides': '/', 'modulus': '%', 'less': '<', 'greater': '>', 'equal_to': '==', 'not_equal_to': '!=', 'negate': 'neg'}.get(name)
            if stdop and len(args) == 2:
                return self.binop(stdop, args[0], args[1], {'k': 'bin', 'lh': None, 'rh': None, 'l': e.get('l')}, fr, st)
            ms = [g for g in self.p.byname.get('operator()', []) if g.cls == name and g.body]
            ms = self.filter(ms, args) if ms else []
            if ms:
                return self.invoke_with(ms, args, lvs, e, fr, st, name, wantlv, this=v)
        if v.k == 'opq' and any(tkind(a) == 'img' for a in args):
            # an opaque image operation that keeps the extents of its first image
            im = next(a for a in args if tkind(a) == 'img')
            return mk('img', self.nid(), self.dims(im) if self.dims(im) is not None else self.sizevec(im), mk('applied', v, tuple(args)))
        return mk('app', 'call', (v,) + tuple(args), None)

    def std_functor(self, name, args, e, fr, st):
        return None

    def candidates(self, e, f):
        ks = []
        if e.get('fk'):
            ks = [e['fk']]
        elif f.get('fk'):
            ks = [f['fk']]
        else:
            ks = f.get('cands') or []
        r = []
        for k in ks:
            g = self.p.bykey.get(k)
            if g is not None and g.body is not None:
                r.append(g)
        if (f.get('dk') in ('ovl', 'dep')) and not e.get('fk'):
            q = f.get('q') or ''
            if not q.startswith('std::'):
                # later overloads of the same name are found at instantiation (ADL)
                for g in self.p.byname.get(f['n'], []):
                    if g.body is not None and g not in r and g.kind in ('func', 'method') and (r or not q.startswith('std')):
                        if g.kind == 'func' and (not r or any(x.q == g.q for x in r)):
                            r.append(g)
        return r

    def filter(self, cands, args, elts=True):
        out = []
        n = len(args)
        for g in cands:
            req = g.req()
            ps = g.params
            haspack = any(p.get('pack') for p in ps)
            need = sum(1 for p in ps if 'def' not in p and not p.get('pack'))
            if n < need or (not haspack and n > len(ps)):
                continue
            ok = True
            for i in range(n):
                pi = min(i, len(ps) - 1) if haspack and ps and ps[-1].get('pack') else i
                if pi >= len(ps):
                    break
                ts = g.ptype(pi).replace('...', '').strip()
                kd = kind_of_type(ts, req)
                ak = tkind(args[i]) if isinstance(args[i], T) else None
                if kd == 'policy' and ak != 'policy':
                    ok = False
                if ak == 'policy' and kd != 'policy':
                    if not (kd is None and re.fullmatch(r'(const )?\w+( &&| &|)', ts.strip()) and 'policy' in req):
                        ok = False
                if kd == 'img' and ak in ('vec', 'size', 'int', 'flt', 'bool', 'lam', 'policy', 'str', 'tuple', 'struct'):
                    ok = False
                if ak == 'img' and kd not in ('img', None):
                    ok = False
                if ak == 'img' and kd is None and not re.fullmatch(r'\w+', strip_type(ts).replace('TinyDIP::', '')):
                    ok = False
                if ak == 'vec' and kd in ('size', 'int', 'flt', 'bool', 'lam'):
                    ok = False
                if self.unroll and ok and isinstance(args[i], T):
                    if args[i].k in ('px', 'IN') and kd in ('vec', 'img'):
                        ok = False
                    if ((ak in ('vec', 'img') and not (self.nchan and args[i].k == 'vec')) or args[i].k == 'iseq') and re.search(r'\bMultiChannel<', strip_type(ts)) and kd is None:
                        ok = False
                if ak == 'lam' and kd in ('vec', 'img', 'size', 'int', 'flt', 'bool', 'str', 'tuple'):
                    ok = False
                if kd == 'vec' and ak in ('size', 'int', 'flt', 'bool', 'img', 'lam', 'policy', 'struct'):
                    ok = False
                if kd == 'lam' and ak in ('size', 'int', 'flt', 'bool', 'img', 'vec'):
                    ok = False
                tn = strip_type(ts).replace('TinyDIP::', '')
                if ok and re.fullmatch(r'\w+', tn):
                    if ak in ('size', 'int', 'flt', 'bool') and re.search(r'range_value_t<\s*%s\s*>|input_range\s+%s\b|is_tuple<\s*%s\s*>' % (tn, tn, tn), req):
                        ok = False
                    if ak == 'img' and any(j != i and re.search(r'\bImage<%s>' % tn, g.ptype(j)) for j in range(len(ps))):
                        ok = False
                    if ak in ('vec', 'tuple', 'img') and re.search(r'\bintegral\s*(\.\.\.)?\s*%s\b' % tn, req):
                        ok = False
                if not ok:
                    break
            if ok:
                out.append(g)
        if len(out) > 1 and elts:
            # partial ordering: Image<T> is more specialised than T
            def bare(g, i):
                ps = g.params
                pi = min(i, len(ps) - 1) if ps and ps[-1].get('pack') else i
                return pi < len(ps) and kind_of_type(g.ptype(pi).replace('...', '').strip(), g.req()) is None
            im = [i for i in range(n) if isinstance(args[i], T) and tkind(args[i]) == 'img']
            best = [g for g in out if im and not any(bare(g, i) for i in im) and re.fullmatch(r'\s*((typename|class)[^,]*\s*)*', g.req())]
            if best and not any(p.get('pack') for g in best for p in g.params):
                o2 = [g for g in out if not all(bare(g, i) for i in im)]
                out = o2 or out
        if len(out) > 1 and elts:
            # element type of the image arguments
            sc = []
            for g in out:
                s = 0
                bad = False
                for i in range(min(n, len(g.params))):
                    if isinstance(args[i], T) and tkind(args[i]) == 'img':
                        el = self.elt.get(args[i])
                        pe = image_elem(g.ptype(i))
                        if el is None or pe is None:
                            continue
                        if el == pe:
                            s += 3 if not self.is_tparam(g, pe) else 1
                        elif self.is_tparam(g, pe):
                            s += 1
                        elif self.is_tparam_any(el):
                            s += 0
                        elif re.sub(r'<.*', '', el) == re.sub(r'<.*', '', pe):
                            s += 2
                        else:
                            bad = True
                sc.append((s, bad))
            good = [(s, g) for (s, b), g in zip(sc, out) if not b]
            if good:
                m = max(s for s, _ in good)
                out = [g for s, g in good if s == m]
        if len(out) > 1:
            # prefer non-variadic, fewer defaulted
            nv = [g for g in out if not any(p.get('pack') for p in g.params)]
            if nv and len(nv) < len(out):
                out = nv
        return out

    def is_tparam(self, g, name):
        return any(t['n'] == name for t in g.d.get('tps', []))

    def is_tparam_any(self, el):
        return bool(re.fullmatch(r'[A-Z]\w*T\d?|InputT\d?|T\d?|type-parameter.*', el or ''))

    def invoke(self, cands, e, fr, st, nm, wantlv):
        lvs, args = self.lvargs(e['a'], fr, st)
        if self.dead(st):
            return UNK
        c = self.filter(cands, args)
        if not c:
            self.havoc_refs(cands, args, lvs, st)
            return self.opaque_call(nm, args, e, fr, st)
        return self.invoke_with(c, args, lvs, e, fr, st, nm, wantlv)

    maxalts = 3

    stops = ()

    def invoke_with(self, c, args, lvs, e, fr, st, nm, wantlv=False, this=None, thislv=None):
        if self.stops and len(c) == 1 and c[0] in self.stops:
            return mk('app', 'STOP', tuple(args), None)
        c = [g for g in c if self.stack.count(g) < (4 if g.params and g.params[-1].get('pack') else 1)]
        if not c or len(self.stack) >= self.maxdepth:
            self.havoc_refs(c, args, lvs, st)
            return self.opaque_call(nm, args, e, fr, st, depth=True)
        if self.each and nm.split('::')[-1] in ('apply_each', 'apply_multichannel'):
            r = self.per_plane(nm.split('::')[-1], args, e, fr, st)
            if r is not None:
                return r
        if len(c) == 1:
            return self.inline(c[0], args, lvs, fr, st, e, this=this, thislv=thislv, wantlv=wantlv)
        if len(c) > self.maxalts:
            self.havoc_refs(c, args, lvs, st)
            return self.opaque_call(nm, args, e, fr, st)
        outs = []
        for g in c:
            s2 = st.copy()
            r = self.inline(g, args, lvs, fr, s2, e, this=this, thislv=thislv)
            if not self.dead(s2):
                outs.append((s2, r))
        if not outs:
            self.kill(st)
            return UNK
        j, v = outs[0]
        same = True
        for s2, r in outs[1:]:
            j = self.join(fresh('ovl', 'bool'), j, s2, st, st.pc)
            same = same and (r is v)
        st.env, st.facts = j.env, j.facts
        if same:
            return v
        rr = mk('app', nm, tuple(args), tkind(v))
        vals = [r for _, r in outs]
        if all(isinstance(x, T) and tkind(x) == 'img' for x in vals):
            ds = {self.dims(x) for x in vals}
            if len(ds) == 1 and self.dims(vals[0]) is not None:
                t = mk('img', self.nid(), self.dims(vals[0]), mk('opaque', rr))
                return t
        return rr

    def per_plane(self, nm, args, e, fr, st):
        """the operation applied to one (arbitrary) plane or channel of each operand"""
        a = [x for x in args if tkind(x) != 'policy']
        i = 0
        while i < len(a) and a[i].k != 'lam' and a[i].k not in ('opq', 'fnref', 'struct', 'defval'):
            i += 1
        if not 0 < i < len(a):
            return None
        ops = a[:i]
        if nm == 'apply_each':
            if any(tkind(x) != 'img' for x in ops):
                return None
            pl = [mk('imgp', 'plane%d' % j) for j in range(i)]
        else:
            pl = [mk('sym', 'chan%d' % j, None) for j in range(i)]
        s2 = st.copy()
        r = self.apply(a[i], pl + a[i + 1:], None, e, fr, s2)
        if self.dead(s2):
            return None
        if isinstance(r, tuple):
            r = self.read(r, s2)
        return mk('each', tuple(ops), r)

    def havoc_refs(self, c, args, lvs, st):
        if not lvs:
            return
        for g in c or []:
            for i, p in enumerate(g.params):
                if i < len(lvs) and lvs[i] is not None:
                    ts = g.ptype(i)
                    if ts.rstrip().endswith('&') and not ts.rstrip().endswith('&&') and 'const' not in ts:
                        rk, l = self.root(lvs[i], st)
                        if rk is not None and isinstance(st.env.get(rk), T):
                            self.havoc(rk, st, 'out')

    def fold(self, nm, w, e, fr, st, pol):
        """left fold over a range in closed form: fold(acc, init, iv, N, value of one step)"""
        if not w or w[0].k != 'it' or len(w) < 2 or w[1].k != 'it':
            return None
        N = sub(w[1].a[2], w[0].a[2])
        rest = list(w[2:])
        seqs = [w[0]]
        if nm in ('inner_product', 'transform_reduce') and rest and rest[0].k == 'it':
            seqs.append(rest.pop(0))
        elif nm == 'inner_product':
            return None
        init = rest.pop(0) if rest else mk('defval', 'value')
        if nm in ('reduce', 'accumulate') and len(rest) > 1 or nm == 'transform_reduce' and len(rest) not in (0, 2) or len(rest) > 2:
            return None
        if nm == 'transform_reduce' and len(seqs) == 1 and len(rest) != 2:
            return None
        reg = self.push_region('par', e, pol) if pol is not None else None
        iv = mk('iv', self.nid(), ZERO, N)
        self.loops.append(Loop(iv, e['l'], 'alg', reg))
        if reg is not None:
            reg.ivs.append(iv)
        acc = mk('sym', 'acc!%d' % self.folds, None)
        self.folds += 1
        s2 = st.copy()
        els = [self.index(x.a[0], add(x.a[2], iv)) for x in seqs]

        def app(fn, a):
            r = self.apply(fn, a, None, e, fr, s2)
            return self.read(r, s2) if isinstance(r, tuple) else r
        if nm in ('inner_product', 'transform_reduce'):
            el = app(rest[1], els) if rest else mul(els[0], els[1])
            c = app(rest[0], [acc, el]) if rest else add(acc, el)
        else:
            c = app(rest[0], [acc, els[0]]) if rest else add(acc, els[0])
        self.folds -= 1
        self.loops.pop()
        if reg is not None:
            self.regions.pop()
        if not isinstance(c, T) or c is UNK:
            return None
        return mk('fold', acc, init, iv, N, c)

    folds = 0
    uid0 = 0

    def escape(self, args, st):
        """a function object handed to code that is not interpreted may modify what it refers to"""
        for a in args:
            if not isinstance(a, T):
                continue
            if a.k == 'struct':
                rec = self.p.recs.get(a.a[0])
                konst = {f['n'] for f in rec[0]['fields'] if 'const' in (rec[1].t(f['t']) or '')} if rec else ()
                for n, v in a.a[1]:
                    if isinstance(v, T) and v.k == 'refv' and n not in konst:
                        self.clobber(self.refs[v.a[0]], st)
            elif a.k == 'lam' and a in self.lams:
                node, dfr = self.lams[a]
                for k in self.modified(node['body'], dfr, st):
                    if isinstance(st.env.get(k), T):
                        self.havoc(k, st, 'esc')
                for n in walk(node['body']):
                    x = n['lh'] if n['k'] == 'bin' and n['op'] in ('=', '+=', '-=', '*=', '/=') else n['e'] if n['k'] == 'un' and n.get('op') in ('++', '--') else None
                    for y in walk(x) if x is not None else ():
                        if y['k'] == 'ref' and y.get('dk') in ('var', 'parm'):
                            k = self.find(dfr, y.get('id'), st)
                            v = st.env.get(k) if k is not None else None
                            if isinstance(v, Ref):
                                self.clobber(v.lv, st)
                            elif isinstance(v, T) and tkind(v) in ('img', 'vec'):
                                self.clobber(('var', k), st)

    def clobber(self, lv, st):
        """the elements of the container become unknown, its length does not"""
        rk, l = self.root(lv, st)
        v = st.env.get(rk) if rk is not None else None
        if not isinstance(v, T):
            return
        if v.k in ('img', 'imgp'):
            n = mk('img', self.nid(), self.dims(v) if self.dims(v) is not None else mk('sizevec', self.shapeof(v)), mk('lost'))
        elif tkind(v) == 'vec' and l[0] == 'var':
            n = mk('vecn', self.nid(), self.length(v), None)
        else:
            return self.havoc(rk, st, 'clob')
        if v in self.elt:
            self.elt[n] = self.elt[v]
        if v in self.vty:
            self.vty[n] = self.vty[v]
        st.env[rk] = n

    def opaque_call(self, q, args, e, fr, st, depth=False):
        if q in NORETURN:
            self.ev('exit', e, st, fnname=q)
            self.kill(st)
            return UNK
        self.ev('call', e, st, q=q, args=tuple(args), repo=depth)
        self.escape(args, st)
        kd = None
        nm = q.split('::')[-1]
        if any(isinstance(a, T) and tkind(a) == 'img' for a in args) and depth:
            kd = None
        return mk('app', q, tuple(args), kd)

    def inline(self, g, args, lvs, fr, st, e, this=None, thislv=None, wantlv=False):
        nf = Frame(g, None, this, g.tu)
        nf.thislv = thislv
        nf.loopdepth = len(self.loops)
        saved_l = self.lctx
        self.lctx = []
        self.stack.append(g)
        pc0 = st.pc
        body = st
        # bind params
        i = 0
        for p in g.params:
            ts = g.tu.t(p['t'])
            if p.get('pack'):
                # trailing params after a pack are rare
                rest = len(g.params) - g.params.index(p) - 1
                n = max(0, len(args) - i - rest)
                vs = tuple(args[i:i + n])
                self.bind(nf, p, mk('packv', vs), body)
                i += n
                continue
            if i < len(args):
                if lvs and i < len(lvs) and lvs[i] is not None and '&' in ts and ('const' not in ts.split('&')[0] or True):
                    rk, l = self.root(lvs[i], body)
                    body.env[(nf.id, p['id'])] = Ref(l) if rk is not None else args[i]
                    self.decl_region[(nf.id, p['id'])] = len(self.regions)
                    self.ctype[(nf.id, p['id'])] = ts
                else:
                    v = args[i]
                    self.bind(nf, p, v, body)
                    if v.k == 'iseq':
                        m = re.search(r'index_sequence<(\w+)\.\.\.>', ts)
                        c = cval(v.a[0])
                        if m and c is not None:
                            body.env[('nttp', m.group(1))] = mk('packv', tuple(const(x) for x in range(int(c))))
                    elif self.tvals or self.nchan:
                        m = re.search(r'array<\w+, (\w+)>', ts)
                        if m and v.k == 'vec' and any(t['n'] == m.group(1) for t in g.d.get('tps', [])):
                            body.env[('nttp', m.group(1))] = const(len(v.a[0]))
                    if tkind(v) == 'vec' and v not in self.vty and '<' in ts:
                        self.vty[v] = strip_type(ts)
                i += 1
            elif 'def' in p:
                self.bind(nf, p, self.eval(p['def'], nf, body), body)
            else:
                self.bind(nf, p, fresh(p['n']), body)
        end = self.exec_body(g, nf, body)
        self.stack.pop()
        self.lctx = saved_l
        if end is not None:
            nf.exits.append(dict(val=VOID, st=end, pc=end.pc, inloop=(), l=0))
        return self.finish(nf, st, pc0, wantlv)

    def inline_lambda(self, node, dfr, args, lvs, fr, st, e, wantlv=False):
        if len(self.lamstack) > 12:
            return fresh('lamdeep')
        nf = Frame(dfr.fn, dfr, None, dfr.tu)
        nf.islam = True
        nf.loopdepth = len(self.loops)
        saved_l = self.lctx
        self.lctx = []
        self.lamstack.append(node)
        pc0 = st.pc
        i = 0
        for p in node['params']:
            ts = dfr.tu.t(p['t'])
            if p.get('pack'):
                self.bind(nf, p, mk('packv', tuple(args[i:])), st)
                i = len(args)
                continue
            if i < len(args):
                if lvs and i < len(lvs) and lvs[i] is not None and '&' in ts:
                    rk, l = self.root(lvs[i], st)
                    st.env[(nf.id, p['id'])] = Ref(l) if rk is not None else args[i]
                    self.decl_region[(nf.id, p['id'])] = len(self.regions)
                    self.ctype[(nf.id, p['id'])] = ts
                else:
                    self.bind(nf, p, args[i], st)
            elif 'def' in p:
                self.bind(nf, p, self.eval(p['def'], nf, st), st)
            else:
                self.bind(nf, p, fresh(p['n']), st)
            i += 1
        end = self.exec(node['body'], nf, st)
        self.lamstack.pop()
        self.lctx = saved_l
        if end is not None:
            nf.exits.append(dict(val=VOID, st=end, pc=end.pc, inloop=(), l=0))
        return self.finish(nf, st, pc0, wantlv)

    lamstack = []

    def finish(self, nf, st, pc0, wantlv):
        ex = nf.exits
        if not ex:
            self.kill(st)
            return UNK
        if len(ex) == 1 and not ex[0]['inloop']:
            x = ex[0]
            st.env, st.facts, st.pc = x['st'].env, x['st'].facts, pc0
            if wantlv and x.get('lv') is not None:
                return x['lv']
            return x['val']
        # value
        val = ex[-1]['val']
        env = ex[-1]['st'].env
        facts = ex[-1]['st'].facts
        s = State(env, facts, pc0)
        for x in reversed(ex[:-1]):
            c = t_and(*x['pc'][len(pc0):])
            if x['inloop']:
                for lp in reversed(x['inloop']):
                    c = mk('exists', lp.iv, c) if c is not TRUE else fresh('ret', 'bool')
            s = self.join(c, x['st'], s, st, pc0)
            val = self.joinval(c, x['val'], val) if x['val'] is not val else val
        st.env, st.facts, st.pc = s.env, s.facts, pc0
        return val

    # ------------------------------------------------------------ methods
    def method(self, e, f, fr, st, wantlv):
        nm = f['n']
        b = f['b']
        if b is not None and b['k'] == 'this':
            # call of own method
            return self.this_method(e, f, fr, st, wantlv)
        lv = self.lval(b, fr, st) if b is not None else ('tmp', UNK)
        if self.dead(st):
            return UNK
        bv = self.read(lv, st)
        if f.get('arrow') and bv.k == 'addr':
            lv = bv.a[0]
            bv = self.read(lv, st)
        kd = tkind(bv)
        if nm == 'operator()':
            lvs, args = self.lvargs(e['a'], fr, st)
            return self.apply(bv, args, lvs, e, fr, st, wantlv)
        if kd == 'img' or nm in ('at_without_boundary_check', 'getWidth', 'getHeight', 'getDimensionality', 'getImageData'):
            r = self.img_method(nm, bv, lv, e, fr, st, wantlv)
            if r is not NotImplemented:
                return r
        lvs, args = self.lvargs(e['a'], fr, st)
        if self.dead(st):
            return UNK
        if nm in ('lock', 'unlock') and not args:
            rk, _ = self.root(lv, st)
            if re.search(r'mutex|unique_lock', self.ctype.get(rk, '')):
                if nm == 'lock' and not (rk is not None and self.regions and self.decl_region.get(rk, 0) >= len(self.regions) and 'mutex' in self.ctype.get(rk, '')):
                    self.crit += 1
                elif nm == 'unlock' and self.crit:
                    self.crit -= 1
                return VOID
        if nm == 'get' and not args and bv.k == 'future' and isinstance(bv.a[0], T) and tkind(bv.a[0]) == 'img':
            return bv.a[0]
        if bv.k == 'ite' and not wantlv and self.unroll and bv.a[1].k == bv.a[2].k == 'struct' and bv.a[1].a[0] == bv.a[2].a[0]:
            cands = [g for g in self.filter([g for g in self.p.byname.get(nm, []) if g.cls == bv.a[1].a[0] and g.body], args) if g.d.get('const')]
            if len(cands) == 1:
                x, y = (self.invoke_with(cands, args, lvs, e, fr, st, nm, False, this=v, thislv=None) for v in bv.a[1:3])
                return ite(bv.a[0], x, y)
        own = bv.k == 'struct' and any(g.cls == bv.a[0] and g.body for g in self.p.byname.get(nm, []))
        r = NotImplemented if own else self.container_method(nm, bv, lv, args, lvs, e, fr, st, wantlv)
        if r is not NotImplemented:
            return r
        # repository class method
        cands = self.candidates(e, f)
        if not cands and bv.k == 'struct':
            cands = [g for g in self.p.byname.get(nm, []) if g.cls == bv.a[0] and g.body]
        if not cands and bv.k in ('defval', 'uninitv'):
            cn = re.sub(r'<.*', '', strip_type(bv.a[-1])).split('::')[-1]
            cands = [g for g in self.p.byname.get(nm, []) if g.cls == cn and g.body]
        cands = self.filter(cands, args) if cands else []
        if cands:
            return self.invoke_with(cands[:1] if len({c.cls for c in cands}) == 1 and len(cands) > 1 and self.same_but_const(cands) else cands, args, lvs, e, fr, st, nm, wantlv, this=bv, thislv=lv if lv[0] != 'tmp' else None)
        self.ev('mcall', e, st, name=nm, base=bv, args=tuple(args), root=self.root(lv, st)[0], decl=self.decl_region.get(self.root(lv, st)[0], 0))
        return mk('app', '.' + nm, (bv,) + tuple(args), None)

    def same_but_const(self, cands):
        return len({tuple(c.ptype(i) for i in range(len(c.params))) for c in cands}) == 1

    def this_method(self, e, f, fr, st, wantlv):
        lvs, args = self.lvargs(e['a'], fr, st)
        if self.dead(st):
            return UNK
        th = self.e_this({}, fr, st)
        cands = self.candidates(e, f)
        if not cands:
            cls = fr.fn.cls
            cands = [g for g in self.p.byname.get(f['n'], []) if g.cls == cls and g.body]
        cands = self.filter(cands, args)
        if len(cands) > 1:
            # const overload pairs
            con = [g for g in cands if bool(g.d.get('const')) == bool(fr.fn.d.get('const'))]
            if con:
                cands = con
        if cands:
            return self.invoke_with(cands, args, lvs, e, fr, st, f['n'], wantlv, this=th, thislv=fr.thislv)
        self.ev('mcall', e, st, name=f['n'], base=th, args=tuple(args), root=None, decl=0)
        return mk('app', '.' + f['n'], (th,) + tuple(args), None)

    def img_method(self, nm, bv, lv, e, fr, st, wantlv):
        if nm == 'getWidth':
            return self.sz(bv, 0)
        if nm == 'getHeight':
            return self.sz(bv, 1)
        if nm == 'getDimensionality':
            return self.dim(bv)
        if nm == 'getSize':
            args = self.evargs(e['a'], fr, st)
            if args:
                return self.sz(bv, args[0])
            return self.sizevec(bv)
        if nm == 'getStride':
            args = self.evargs(e['a'], fr, st)
            if args and cval(args[0]) is not None:
                r = ONE
                for i in range(int(cval(args[0]))):
                    r = mul(r, self.sz(bv, i))
                return r
            return mk('app', 'stride', (bv,) + tuple(args), 'size')
        if nm == 'count':
            self.evargs(e['a'], fr, st)
            return self.count(bv)
        if nm in ('at', 'at_without_boundary_check'):
            args = tuple(self.evargs(e['a'], fr, st))
            if self.dead(st):
                return UNK
            coords = args
            if len(args) == 1 and tkind(args[0]) == 'vec':
                coords = args[0].a[0] if args[0].k == 'vec' else (mk('vidx', args[0]),)
            if len(coords) == 1 and coords[0].k == 'vidx':
                self.ev('px', e, st, img=bv, coords=coords, checked=nm == 'at', root=self.root(lv, st)[0], decl=self.decl_region.get(self.root(lv, st)[0], 0), vec=True)
            else:
                self.access(e, st, bv, coords, nm == 'at', lv)
            return ('px', lv, tuple(coords)) if wantlv else self.mkpx(bv, tuple(coords))
        if nm == 'get':
            args = self.evargs(e['a'], fr, st)
            if not args:
                return NotImplemented
            self.ev('px', e, st, img=bv, coords=(mk('lin', args[0]),), checked=False, root=self.root(lv, st)[0], decl=0, lin=True)
            return self.mkpx(bv, (mk('lin', args[0]),))
        if nm == 'set':
            args = self.evargs(e['a'], fr, st)
            if self.dead(st):
                return UNK
            if len(args) >= 2 and (args[0].k == 'tuple' or tkind(args[0]) == 'tuple' or args[0].k in ('app',)):
                co = args[0].a[0] if args[0].k == 'tuple' else (mk('get', args[0], 0), mk('get', args[0], 1))
                self.ev('px', e, st, img=bv, coords=co, checked=True, soft=True, root=self.root(lv, st)[0], decl=self.decl_region.get(self.root(lv, st)[0], 0))
                c = t_and(*[lt(x, self.sz(bv, i)) for i, x in enumerate(co)])
                s2 = self.assume(st.copy(), c)
                if s2 is not None:
                    self._write_px(self.root(('px', lv, co), st)[1] if lv[0] == 'var' else ('px', lv, co), args[1], s2, e, self.root(lv, st)[0])
                    rk = self.root(lv, st)[0]
                    if rk is not None and rk in s2.env:
                        st.env[rk] = s2.env[rk]
                return fresh('setok', 'bool')
            self.ev('px', e, st, img=bv, coords=(mk('lin', args[0]),), checked=True, root=self.root(lv, st)[0], decl=self.decl_region.get(self.root(lv, st)[0], 0), lin=True)
            st.facts = self.add_fact(st.facts, lt(args[0], self.count(bv)))
            return ('px', lv, (mk('lin', args[0]),)) if wantlv else self.mkpx(bv, (mk('lin', args[0]),))
        if nm == 'getImageData':
            if lv[0] != 'tmp' and wantlv:
                return ('data', lv)
            return self.dataterm(bv)
        if nm == 'setAllValue':
            args = self.evargs(e['a'], fr, st)
            if self.dead(st):
                return UNK
            d = self.dims(bv)
            n = mk('img', self.nid(), d if d is not None else mk('sizevec', self.shapeof(bv)), mk('fill', args[-1]))
            if bv in self.elt:
                self.elt[n] = self.elt[bv]
            if lv[0] != 'tmp':
                self.write(lv, n, st, e)
                return lv if wantlv else n
            return n
        if nm == 'cast':
            d = self.dims(bv)
            n = mk('img', self.nid(), d if d is not None else mk('sizevec', self.shapeof(bv)), mk('copy', bv))
            ta = (e['f'] or {}).get('ta')
            if ta:
                self.elt[n] = ta[0].replace('TinyDIP::', '')
            return n
        if nm == 'pixels_with_coordinates':
            st.facts = self.add_fact(st.facts, eq0(sub(self.dim(bv), const(2))))
            return mk('pixels', bv)
        return NotImplemented

    def container_method(self, nm, bv, lv, args, lvs, e, fr, st, wantlv):
        kd = tkind(bv)
        if nm == 'size' and not args and kd in ('vec', 'tuple', 'str', None) or nm == 'length' and not args:
            return self.length(bv)
        if nm == 'empty' and not args:
            return eq0(self.length(bv))
        if nm in ('begin', 'cbegin', 'end', 'cend') and not args:
            off = ZERO if 'begin' in nm else self.length(bv)
            return mk('it', bv, self.root(lv, st)[1] if lv[0] != 'tmp' else None, off)
        if kd not in ('vec', None, 'str') and bv.k not in ('sym', 'app', 'elem', 'fld'):
            return NotImplemented
        if nm in ('back', 'front') and not args:
            i = sub(self.length(bv), ONE) if nm == 'back' else ZERO
            return ('elem', lv, i) if wantlv and lv[0] != 'tmp' else self.index(bv, i)
        if nm == 'at' and len(args) == 1:
            return ('elem', lv, args[0]) if wantlv and lv[0] != 'tmp' else self.index(bv, args[0])
        if nm == 'data' and not args:
            return mk('it', bv, self.root(lv, st)[1] if lv[0] != 'tmp' else None, ZERO)
        if nm in MUTM and lv[0] != 'tmp' and kd == 'vec':
            rk, l = self.root(lv, st)
            self.ev('cmut', e, st, name=nm, root=rk, base=bv, args=tuple(args), decl=self.decl_region.get(rk, 0), lv=l)
            nv = None
            if nm in ('push_back', 'emplace_back'):
                v = args[0] if len(args) == 1 else mk('app', 'emplaced', tuple(args), None)
                if bv.k == 'vec' and not self.loops_since(rk):
                    nv = mk('vec', bv.a[0] + (v,))
                elif self.unroll:
                    nv = mk('vpush', bv, v)
                else:
                    nv = mk('vecn', self.nid(), add(self.length(bv), ONE), None)
            elif nm == 'resize' and args:
                nv = mk('vecn', ('new', self.nid()) if self.length(bv) is ZERO else self.nid(), args[0], args[1] if len(args) > 1 and self.length(bv) is ZERO else None)
            elif nm in ('clear',):
                nv = mk('vec', ())
            elif nm == 'reserve' or nm == 'shrink_to_fit':
                return VOID
            elif nm == 'insert' and len(args) == 3 and args[1].k == 'it' and args[2].k == 'it':
                nv = mk('vecn', self.nid(), add(self.length(bv), sub(args[2].a[2], args[1].a[2])), None)
            elif nm == 'append_range' and len(args) == 1:
                nv = mk('vecn', self.nid(), add(self.length(bv), self.length(args[0])), None)
            elif nm == 'assign' and len(args) == 2 and args[0].k != 'it':
                nv = mk('vecn', self.nid(), args[0], args[1])
            if nv is None:
                nv = fresh('mut', 'vec')
            if bv in self.vty:
                self.vty.setdefault(nv, self.vty[bv])
            self.mute += 1
            self.write(lv, nv, st, e)
            self.mute -= 1
            return VOID
        if nm in MUTM and lv[0] != 'tmp':
            rk, l = self.root(lv, st)
            self.ev('cmut', e, st, name=nm, root=rk, base=bv, args=tuple(args), decl=self.decl_region.get(rk, 0), lv=l)
            if rk is not None and l[0] == 'var' and nm not in ('reserve',):
                self.havoc(rk, st, 'mut')
            return fresh('mutret')
        return NotImplemented

    def loops_since(self, key):
        return False

    # ------------------------------------------------------------ std library model
    def std(self, q, nm, e, fr, st, wantlv):
        A = e['a']
        if q in ('floor', 'ceil', 'round', 'abs', 'sqrt', 'sin', 'cos', 'tan', 'exp', 'log', 'pow', 'atan2', 'hypot', 'trunc', 'fabs', 'asin', 'acos', 'atan', 'fmod'):
            q = 'std::' + q
        isstd = q.startswith('std::') or q.startswith('ranges::') or q.startswith('views::')
        if nm in ('forward', 'move', 'as_const', 'ref', 'cref', 'to_underlying') and isstd and len(A) == 1:
            if A[0] and A[0]['k'] == 'pack':
                return NotImplemented
            if wantlv:
                return self.lval(A[0], fr, st)
            return self.eval(A[0], fr, st)
        if q in NORETURN:
            self.evargs(A, fr, st)
            self.ev('exit', e, st, fnname=q)
            self.kill(st)
            return UNK
        if nm in ('__assert_fail', '__assert_perror_fail', '__assert', '_wassert'):
            return NotImplemented
        if not isstd:
            if nm == 'recursive_transform':
                return self.rec_transform(e, fr, st)
            if nm == 'first_of' and A:
                vs = self.evargs(A, fr, st)
                return vs[0] if vs else UNK
            return NotImplemented
        if nm in ('size', 'ssize') and len(A) == 1:
            v = self.eval(A[0], fr, st)
            return self.rlen(v) if v.k == 'pixels' else self.length(v)
        if nm == 'empty' and len(A) == 1:
            return eq0(self.length(self.eval(A[0], fr, st)))
        if nm in ('begin', 'cbegin', 'end', 'cend', 'data') and len(A) == 1:
            lv = self.lval(A[0], fr, st)
            v = self.read(lv, st)
            off = self.length(v) if 'end' in nm else ZERO
            return mk('it', v, self.root(lv, st)[1] if lv[0] != 'tmp' else None, off)
        if nm in ('next', 'prev', 'advance') and A:
            v = self.evargs(A, fr, st)
            if v[0].k == 'it':
                d = v[1] if len(v) > 1 else ONE
                return mk('it', v[0].a[0], v[0].a[1], add(v[0].a[2], d) if nm == 'next' else sub(v[0].a[2], d))
            return fresh('it')
        if nm == 'distance' and len(A) == 1:
            return self.length(self.evargs(A, fr, st)[0])
        if nm == 'distance' and len(A) == 2:
            v = self.evargs(A, fr, st)
            if v[0].k == 'it' and v[1].k == 'it':
                return sub(v[1].a[2], v[0].a[2])
            return fresh('dist', 'size')
        if q == 'std::ranges::iota' and len(A) == 2:
            v = self.evargs(A, fr, st)
            lv = self.lval(A[0], fr, st)
            n = self.length(v[0])
            if lv is not None:
                self.write(lv, mk('iota', v[1], add(v[1], n)), st, e)
            return VOID
        if nm == 'iota' and ('views' in q or len(A) == 2 and 'std::iota' != q):
            v = self.evargs(A, fr, st)
            return mk('iota', v[0], v[1]) if len(v) == 2 else fresh('iota', 'vec')
        if q == 'std::iota' and len(A) == 3:
            v = self.evargs(A, fr, st)
            if v[0].k == 'it' and v[0].a[1] is not None and v[0].a[2] is ZERO:
                n = self.length(v[0].a[0])
                self.write(v[0].a[1], mk('iota', v[2], add(v[2], n)), st, e)
            return VOID
        if nm in ('make_pair', 'make_tuple', 'tie', 'forward_as_tuple'):
            return mk('tuple', tuple(self.evargs(A, fr, st)))
        if nm == 'get' and len(A) == 1:
            ta = e['f'].get('ta') or []
            v = self.eval(A[0], fr, st)
            if ta and ta[0].isdigit() and v.k in ('tuple', 'vec') and int(ta[0]) < len(v.a[0]):
                return v.a[0][int(ta[0])]
            return mk('get', v, int(ta[0]) if ta and ta[0].isdigit() else str(ta))
        if nm == 'apply' and len(A) == 2:
            fv = self.eval(A[0], fr, st)
            tv = self.eval(A[1], fr, st)
            if tv.k == 'tuple':
                return self.apply(fv, list(tv.a[0]), None, e, fr, st)
            if tkind(tv) == 'tuple' and self.tuple_n:
                return self.apply(fv, [mk('get', tv, i) for i in range(self.tuple_n)], None, e, fr, st)
            return fresh('apply')
        if nm in ('invoke',) and A:
            fv = self.eval(A[0], fr, st)
            lvs, args = self.lvargs(A[1:], fr, st)
            return self.apply(fv, args, lvs, e, fr, st, wantlv)
        if nm in ('cmp_less', 'cmp_greater', 'cmp_less_equal', 'cmp_greater_equal', 'cmp_equal', 'cmp_not_equal') and len(A) == 2:
            v = self.evargs(A, fr, st)
            a, b = v
            return {'cmp_less': lambda: lt(a, b), 'cmp_greater': lambda: lt(b, a), 'cmp_less_equal': lambda: le(a, b), 'cmp_greater_equal': lambda: le(b, a), 'cmp_equal': lambda: eq0(sub(a, b)), 'cmp_not_equal': lambda: ne0(sub(a, b))}[nm]()
        if nm in ('equal',) and len(A) in (2, 3, 4):
            v = self.evargs(A, fr, st)
            if len(v) == 2 and all(tkind(x) == 'vec' for x in v):
                return self.eqterm(v[0], v[1])
            if v[0].k == 'it' and len(v) >= 3 and v[2].k == 'it':
                return self.eqterm(v[0].a[0], v[2].a[0])
            return mk('app', 'equal', tuple(v), 'bool')
        if nm == 'max' and len(A) == 2:
            a, b = self.evargs(A, fr, st)
            return ite(le(a, b), b, a)
        if nm == 'min' and len(A) == 2:
            a, b = self.evargs(A, fr, st)
            return ite(le(a, b), a, b)
        if nm in ('reduce', 'accumulate', 'fold_left', 'transform_reduce', 'inner_product'):
            lvs, v = self.lvargs(A, fr, st)
            if self.dead(st):
                return UNK
            self.ev('reduce', e, st, name=nm, args=tuple(v), enode=e)
            par = bool(v) and tkind(v[0]) == 'policy'
            w = v[1:] if par else v
            if nm in ('reduce', 'accumulate') and len(w) == 4 and w[0].k == 'it' and w[1].k == 'it' and w[0].a[0] is w[1].a[0]:
                op = w[3]
                nmop = op.a[0] if op.k in ('app', 'struct') else (str(op.a[-1]) if op.k in ('defval', 'uninitv') else '')
                if 'multiplies' in str(nmop) and w[0].a[2] is ZERO and w[1].a[2] is self.length(w[1].a[0]):
                    return mul(w[2], self.product(w[0].a[0]))
                lo, hi = cval(w[0].a[2]), cval(w[1].a[2])
                if ('multiplies' in str(nmop) or 'plus' in str(nmop)) and w[0].a[0].k in ('vec', 'tuple') and lo is not None and hi is not None and 0 <= lo <= hi <= len(w[0].a[0].a[0]):
                    r = w[2]
                    for x in w[0].a[0].a[0][int(lo):int(hi)]:
                        r = mul(r, x) if 'multiplies' in str(nmop) else add(r, x)
                    return r
            if self.unroll:
                r = self.fold(nm, w, e, fr, st, v[0] if par else None)
                if r is not None:
                    return r
            # evaluate lambdas once for their events
            its = [x for x in w if isinstance(x, T) and x.k == 'it']
            for fnv in [x for x in w if isinstance(x, T) and x.k == 'lam']:
                node, dfr = self.lams[fnv]
                n = len(node['params'])
                base = its[0].a[0] if its else None
                if par:
                    self.push_region('par', e, v[0])
                iv = self.newiv(self.length(base) if base is not None else UNK)
                self.loops.append(Loop(iv, e['l'], 'alg', self.regions[-1] if par else None))
                if par:
                    self.regions[-1].ivs.append(iv)
                el = self.index(base, iv) if base is not None else fresh('el')
                aa = [el] if n == 1 else [fresh('acc'), el]
                s2 = st.copy()
                self.apply(fnv, aa[:n], None, e, fr, s2)
                self.loops.pop()
                if par:
                    self.regions.pop()
            return mk('app', nm, tuple(x for x in v if isinstance(x, T)), None)
        if nm in ('for_each', 'for_each_n'):
            return self.alg_for_each(nm, e, fr, st)
        if nm == 'transform':
            return self.alg_transform(e, fr, st)
        if nm in ('fill', 'fill_n', 'generate', 'copy', 'copy_n'):
            return self.alg_fill(nm, e, fr, st)
        if nm == 'async':
            return self.alg_async(e, fr, st)
        if nm == 'swap' and len(A) == 2:
            la, lb = self.lval(A[0], fr, st), self.lval(A[1], fr, st)
            a, b = self.read(la, st), self.read(lb, st)
            if la[0] != 'tmp':
                self.write(la, b, st, e)
            if lb[0] != 'tmp':
                self.write(lb, a, st, e)
            return VOID
        if nm in ('all_of', 'any_of', 'none_of'):
            lvs, v = self.lvargs(A, fr, st)
            par = bool(v) and tkind(v[0]) == 'policy'
            w = v[1:] if par else v
            base = None
            if len(w) == 3 and w[0].k == 'it':
                base, fnv = w[0].a[0], w[2]
            elif len(w) == 2:
                base, fnv = w[0], w[1]
            if base is not None and fnv.k == 'lam':
                if base.k in ('vec', 'tuple') and len(base.a[0]) <= 8:
                    cs = [self.tobool(self.apply(fnv, [x], None, e, fr, st)) for x in base.a[0]]
                    return t_and(*cs) if nm == 'all_of' else (t_or(*cs) if nm == 'any_of' else t_not(t_or(*cs)))
                iv = self.newiv(self.length(base))
                self.loops.append(Loop(iv, e['l'], 'alg'))
                s2 = st.copy()
                c = self.tobool(self.apply(fnv, [self.index(base, iv)], None, e, fr, s2))
                self.loops.pop()
                if self.dead(s2):
                    return fresh('q', 'bool')
                if nm == 'all_of':
                    return mk('not', mk('exists', iv, t_not(c)))
                if nm == 'any_of':
                    return mk('exists', iv, c)
                return mk('not', mk('exists', iv, c))
            return mk('app', q, tuple(v), 'bool')
        if nm in ('floor', 'ceil', 'round', 'abs', 'sqrt', 'sin', 'cos', 'tan', 'exp', 'log', 'pow', 'atan2', 'hypot', 'trunc', 'fabs', 'asin', 'acos', 'atan', 'clamp', 'isnan', 'fmod', 'lerp', 'real', 'imag', 'conj', 'norm', 'arg', 'polar'):
            v = self.evargs(A, fr, st)
            if nm == 'fmod' and len(v) == 2 and cval(v[0]) is not None and cval(v[1]):
                a, b = cval(v[0]), abs(cval(v[1]))
                k = abs(a) // b
                return const((abs(a) - k * b) * (1 if a >= 0 else -1))
            if self.dead(st):
                return UNK
            if nm == 'clamp' and len(v) == 3:
                return ite(lt(v[0], v[1]), v[1], ite(lt(v[2], v[0]), v[2], v[0]))
            if nm == 'floor' and len(v) == 1 and v[0].k == 'poly':
                # floor(n/2) of an integer n is integer division
                p = poly_of(v[0])
                den = 1
                for c in p.values():
                    den = max(den, c.denominator)
                if den > 1 and all((c * den).denominator == 1 for c in p.values()) and all(nonneg_atom(a, st.facts) or (a.k in ('sym', 'var') and a.a[1] == 'size') for m in p for a, _ in m):
                    return quot(mul(v[0], const(den)), const(den))
            return mk('app', nm, tuple(v), 'flt' if nm not in ('abs', 'real', 'imag', 'conj', 'norm') else None)
        if nm in ('vector', 'array'):
            return NotImplemented
        # default: opaque std call; evaluate args; lambdas are walked once so that their accesses are seen
        lvs, v = self.lvargs(A, fr, st)
        if self.dead(st):
            return UNK
        self.ev('call', e, st, q=q, args=tuple(v), repo=False)
        if self.unroll and nm == 'reverse':
            x, lv = (v[0], lvs[0]) if len(v) == 1 else (None, None)
            if len(v) == 2 and all(y.k == 'it' for y in v) and v[0].a[2] is ZERO and v[1].a[2] is self.length(v[0].a[0]) and v[0].a[1] is not None:
                x, lv = v[0].a[0], v[0].a[1]
            if x is not None and lv is not None and tkind(x) == 'vec' and lv[0] != 'tmp':
                n = self.length(x)
                iv = mk('iv', self.nid(), ZERO, n)
                r = mk('vmap', iv, n, self.index(x, sub(sub(n, ONE), iv)))
                if x in self.vty:
                    self.vty[r] = self.vty[x]
                self.write(lv, r, st, e)
                return VOID
        if self.unroll and nm not in READERS:
            for lv, x in zip(lvs, v):
                if isinstance(x, T) and x.k == 'it' and x.a[1] is not None:
                    self.clobber(x.a[1], st)
                elif lv is not None and nm in WRITERS and isinstance(x, T) and tkind(x) in ('vec', 'img', None):
                    self.clobber(lv, st)
        if q in MUTF or nm in ('shuffle', 'sort', 'reverse', 'getline'):
            for lv, x in zip(lvs, v):
                if lv is not None and x.k != 'it':
                    rk, l = self.root(lv, st)
                    if rk is not None and l[0] == 'var' and tkind(x) in ('vec', 'str', None) and nm in ('getline', 'sort', 'reverse', 'shuffle'):
                        self.havoc(rk, st, 'mut')
                if isinstance(x, T) and x.k == 'it' and x.a[1] is not None:
                    rk, l = self.root(x.a[1], st)
                    if rk is not None and l[0] == 'var':
                        old = st.env.get(rk)
                        if isinstance(old, T) and tkind(old) == 'vec':
                            n2 = mk('vecn', self.nid(), self.length(old), None)
                            if old in self.vty:
                                self.vty[n2] = self.vty[old]
                            st.env[rk] = n2
        for x in v:
            if isinstance(x, T) and x.k == 'lam':
                node, dfr = self.lams[x]
                s2 = st.copy()
                self.loops.append(Loop(self.newiv(UNK), e['l'], 'alg'))
                self.apply(x, [fresh('arg') for _ in node['params']], None, e, fr, s2)
                self.loops.pop()
        return mk('app', q, tuple(x for x in v), None)

    tuple_n = 2

    def push_region(self, kind, e, pol):
        r = Region(kind, e['l'], self.curfn())
        r.policy = pol
        r.mustpar = False
        r.seq = pol is not None and pol.k == 'policy' and pol.a[0] == 'seq'
        r.collapse = 1
        r.frame = None
        r.dir = kind
        self.regions.append(r)
        r.depth = len(self.regions)
        r.loop0 = len(self.loops)
        return r

    def alg_for_each(self, nm, e, fr, st):
        lvs, v = self.lvargs(e['a'], fr, st)
        if self.dead(st):
            return UNK
        par = bool(v) and tkind(v[0]) == 'policy'
        w = v[1:] if par else v
        wl = lvs[1:] if par else lvs
        lo = ZERO
        lv = None
        if len(w) == 3 and w[0].k == 'it' and (w[1].k == 'it' or nm == 'for_each_n'):
            base, lv, fnv = w[0].a[0], w[0].a[1], w[2]
            lo = w[0].a[2]
            N = sub(w[1].a[2], lo) if w[1].k == 'it' else w[1]
        elif len(w) == 2:
            base, fnv = w[0], w[1]
            lv = wl[0]
            N = self.length(base)
        else:
            return fresh('fe')
        reg = None
        if par:
            reg = self.push_region('par', e, v[0])
        el_lv = None
        if fnv.k == 'lam':
            node, dfr = self.lams[fnv]

            def setup(x, iv):
                pass
            body = {'k': '_apply', 'l': e['l'], 'fn': fnv, 'base': base, 'lv': lv, 'lo': lo, 'e': e}
            # modified variables: those of the lambda body
            out = self.loop_apply(node, dfr, fnv, base, lv, lo, N, e, fr, st, reg)
        elif fnv.k == 'struct' and [g for g in self.p.byname.get('operator()', []) if g.cls == fnv.a[0] and g.body]:
            g = [g for g in self.p.byname.get('operator()', []) if g.cls == fnv.a[0] and g.body][0]
            dfr = Frame(g, None, fnv, g.tu)
            extra = set()
            rec = self.p.recs.get(fnv.a[0])
            konst = {f['n'] for f in rec[0]['fields'] if 'const' in (rec[1].t(f['t']) or '')} if rec else ()
            for _n, v in fnv.a[1]:
                if isinstance(v, T) and v.k == 'refv' and _n not in konst:
                    rk = self.root(self.refs[v.a[0]], st)[0]
                    o = st.env.get(rk)
                    if isinstance(o, T) and tkind(o) not in ('img', 'vec'):
                        extra.add(rk)
            out = self.loop_apply({'body': g.body}, dfr, fnv, base, lv, lo, N, e, fr, st, reg, extra)
        else:
            out = st
        if par:
            self.regions.pop()
        if out is None:
            self.kill(st)
            return UNK
        st.env, st.facts = out.env, out.facts
        return fresh('fe')

    def loop_apply(self, node, dfr, fnv, base, lv, lo, N, e, fr, st, reg, extra=()):
        iv = mk('iv', self.nid(), ZERO, N)
        lp = Loop(iv, e['l'], 'alg', reg)
        if reg is not None:
            reg.ivs.append(iv)
        mod = self.modified(node['body'], dfr, st) | set(extra)
        x = st.copy()
        for k in mod:
            if not isinstance(x.env.get(k), Ref):
                self.havoc(k, x)
        v0, hv = ({k: y.env.get(k) for k in mod if not isinstance(y.env.get(k), Ref)} for y in (st, x))
        base_facts = x.facts
        x.facts = self.add_fact(x.facts, le0(add(sub(iv, N), ONE)))
        self.loops.append(lp)
        idx = add(lo, iv)
        el = self.index(base, idx)
        l2 = ('elem', lv, idx) if lv is not None and tkind(base) == 'vec' and base.k not in ('iota',) else None
        if lv is not None and lv[0] == 'data':
            l2 = ('px', lv[1], (mk('lin', idx),))
        pc = x.pc
        self.apply(fnv, [el], [l2], e, fr, x)
        self.loops.pop()
        out = st.copy()
        for k in mod:
            if not isinstance(out.env.get(k), Ref):
                self.havoc(k, out, 'after')
        self.keepshape(v0, v0, hv, [] if self.dead(x) else [x], out)
        if not self.dead(x):
            for k, v in x.env.items():
                o = out.env.get(k)
                if o is not None and k not in mod and isinstance(v, T) and isinstance(o, T) and v is not o and tkind(v) == 'img':
                    out.env[k] = v
                elif o is not None and k not in mod and isinstance(v, T) and isinstance(o, T) and v is not o and tkind(v) == 'vec':
                    if v.k == 'store' and v.a[0] is o and v.a[1] is iv and self.length(o) is N:
                        out.env[k] = mk('vmap', iv, N, v.a[2])
                    else:
                        n2 = mk('vecn', self.nid(), self.length(o), None)
                        if o in self.vty:
                            self.vty[n2] = self.vty[o]
                        out.env[k] = n2
            for f in x.facts - base_facts:
                if f.k in ('eq0', 'le0', 'ne0', 'eqv', 'or', 'not') and contains(f, lambda t: t is iv) and not self.trivial_iv(f, iv):
                    out.facts = out.facts | {mk('forall', iv, f)}
        return out

    def alg_transform(self, e, fr, st):
        lvs, v = self.lvargs(e['a'], fr, st)
        if self.dead(st):
            return UNK
        par = bool(v) and tkind(v[0]) == 'policy'
        w = v[1:] if par else v
        ins, out, fnv = [], None, None
        rest = [x for x in w if x.k == 'it']
        if len(w) == 4 and w[0].k == 'it':
            ins, out, fnv = [w[0]], w[2], w[3]
            N = sub(w[1].a[2], w[0].a[2]) if w[1].k == 'it' else UNK
        elif len(w) == 5 and w[0].k == 'it':
            ins, out, fnv = [w[0], w[2]], w[3], w[4]
            N = sub(w[1].a[2], w[0].a[2]) if w[1].k == 'it' else UNK
        elif len(w) == 3 and tkind(w[0]) == 'vec':
            ins, out, fnv = [mk('it', w[0], None, ZERO)], w[1], w[2]
            N = self.length(w[0])
        elif len(w) == 4 and tkind(w[0]) == 'vec' and tkind(w[1]) == 'vec' and w[2].k == 'it':
            ins, out, fnv = [mk('it', w[0], None, ZERO), mk('it', w[1], None, ZERO)], w[2], w[3]
            N = self.length(w[0])
        else:
            for x in w:
                if x.k == 'lam':
                    node, dfr = self.lams[x]
                    self.apply(x, [fresh('arg') for _ in node['params']], None, e, fr, st.copy())
                if self.unroll and x.k == 'it' and x.a[1] is not None:
                    self.clobber(x.a[1], st)
            return fresh('tr')
        reg = self.push_region('par', e, v[0]) if par else None
        iv = mk('iv', self.nid(), ZERO, N)
        lp = Loop(iv, e['l'], 'alg', reg)
        if reg is not None:
            reg.ivs.append(iv)
        self.loops.append(lp)
        els = []
        for it in ins:
            if it.k == 'it':
                els.append(self.index(it.a[0], add(it.a[2], iv)))
            else:
                els.append(fresh('el'))
        x = st.copy()
        self.ev('transform', e, st, ins=tuple(ins), out=out, n=N, iv=iv)
        r = self.apply(fnv, els, None, e, fr, x)
        if isinstance(r, tuple):
            r = self.read(r, x)
        self.loops.pop()
        if reg is not None:
            self.regions.pop()
        if self.dead(x):
            r = fresh('tr')
        if out is not None and out.k == 'it' and out.a[1] is not None:
            rk, l = self.root(out.a[1], st)
            ob = out.a[0]
            if out.a[2] is ZERO:
                ln = self.length(ob)
                same = sub(ln, N) is ZERO or entails(st.facts, eq0(sub(ln, N)))
                nv = mk('vmap', iv, N, r) if same else mk('vecn', self.nid(), ln, None)
                if ob in self.vty:
                    self.vty[nv] = self.vty[ob]
                if l[0] == 'data' or (l[0] == 'fld' and l[2] == 'image_data'):
                    self.write(('data', l[1]), nv, st, e)
                else:
                    self.ev('trwrite', e, st, root=rk, n=N, len=ln, decl=self.decl_region.get(rk, 0))
                    self.mute += 1
                    self.write(out.a[1], nv, st, e)
                    self.mute -= 1
            else:
                if l[0] == 'var':
                    nv = mk('vecn', self.nid(), self.length(ob), None)
                    if ob in self.vty:
                        self.vty[nv] = self.vty[ob]
                    st.env[l[1]] = nv
        elif out is not None and out.k == 'app' and 'inserter' in str(out.a[0]):
            tgt = e['a'][-2]
            if tgt and tgt['k'] == 'call' and tgt['a']:
                lv = self.lval(tgt['a'][0], fr, st)
                if lv[0] != 'tmp':
                    old = self.read(lv, st)
                    nv = mk('vmap', iv, N, r) if old.k == 'vec' and not old.a[0] else mk('vecn', self.nid(), add(self.length(old), N), None)
                    if old in self.vty:
                        self.vty[nv] = self.vty[old]
                    self.write(lv, nv, st, e)
        return fresh('tr')

    def rec_transform(self, e, fr, st):
        """recursive_transform<1>(op, v1, v2...): element-wise application (the definition itself is checked separately)"""
        ta = e['f'].get('ta') or []
        lvs, v = self.lvargs(e['a'], fr, st)
        if self.dead(st):
            return UNK
        par = bool(v) and tkind(v[0]) == 'policy'
        w = v[1:] if par else v
        lvl = ta[0] if ta else '1'
        if lvl == 'unwrap_level':
            # default of the enclosing template's own unwrap_level parameter
            lvl = '1'
        if lvl != '1' or len(w) < 2:
            for x in w:
                if x.k == 'lam':
                    node, _d = self.lams[x]
                    self.apply(x, [fresh('arg') for _ in node['params']], None, e, fr, st.copy())
            return fresh('rectr', 'vec')
        op, vs = w[0], w[1:]
        N = self.length(vs[0])
        if self.unroll and vs[0].k == 'vec' and len(vs[0].a[0]) <= self.unroll and all(y.k == 'vec' and len(y.a[0]) == len(vs[0].a[0]) for y in vs):
            out = []
            for i in range(len(vs[0].a[0])):
                r = self.apply(op, [y.a[0][i] for y in vs], None, e, fr, st)
                out.append(self.read(r, st) if isinstance(r, tuple) else r)
            return mk('vec', tuple(out))
        iv = self.newiv(N)
        self.loops.append(Loop(iv, e['l'], 'alg'))
        x = st.copy()
        self.ev('transform', e, st, ins=tuple(mk('it', y, None, ZERO) for y in vs), out=None, n=N, iv=iv)
        self.crit += 1
        r = self.apply(op, [self.index(y, iv) for y in vs], None, e, fr, x)
        self.crit -= 1
        if isinstance(r, tuple):
            r = self.read(r, x)
        self.loops.pop()
        if self.dead(x):
            r = fresh('tr')
        return mk('vmap', iv, N, r)

    def alg_fill(self, nm, e, fr, st):
        lvs, v = self.lvargs(e['a'], fr, st)
        if self.dead(st):
            return UNK
        par = bool(v) and tkind(v[0]) == 'policy'
        w = v[1:] if par else v
        if nm == 'fill' and len(w) == 3 and w[0].k == 'it' and w[0].a[1] is not None:
            rk, l = self.root(w[0].a[1], st)
            ob = w[0].a[0]
            full = w[0].a[2] is ZERO and w[1].k == 'it' and w[1].a[2] is self.length(ob)
            nv = mk('vecn', self.nid(), self.length(ob), w[2] if full else None)
            if ob in self.vty:
                self.vty[nv] = self.vty[ob]
            if l[0] == 'data' or (l[0] == 'fld' and l[2] == 'image_data'):
                self.write(('data', l[1]), nv, st, e)
            elif l[0] == 'var':
                st.env[l[1]] = nv
            return VOID
        if nm == 'copy' and len(w) == 3 and all(x.k == 'it' for x in w) and w[2].a[1] is not None:
            rk, l = self.root(w[2].a[1], st)
            ob = w[2].a[0]
            N = sub(w[1].a[2], w[0].a[2])
            self.ev('copyalg', e, st, src=w[0], dst=w[2], n=N)
            iv = self.newiv(N)
            if w[2].a[2] is ZERO and (self.length(ob) is N or entails(st.facts, eq0(sub(self.length(ob), N)))):
                nv = mk('vmap', iv, N, self.index(w[0].a[0], add(w[0].a[2], iv)))
            else:
                nv = mk('vecn', self.nid(), self.length(ob), None)
            if ob in self.vty:
                self.vty[nv] = self.vty[ob]
            if l[0] == 'data' or (l[0] == 'fld' and l[2] == 'image_data'):
                self.write(('data', l[1]), nv, st, e)
            elif l[0] == 'var':
                st.env[l[1]] = nv
            return VOID
        for x in w:
            if isinstance(x, T) and x.k == 'lam':
                node, dfr = self.lams[x]
                self.apply(x, [fresh('arg') for _ in node['params']], None, e, fr, st.copy())
            if isinstance(x, T) and x.k == 'it' and x.a[1] is not None:
                rk, l = self.root(x.a[1], st)
                if l[0] == 'var':
                    old = st.env.get(l[1])
                    if isinstance(old, T) and tkind(old) == 'vec':
                        n2 = mk('vecn', self.nid(), self.length(old), None)
                        if old in self.vty:
                            self.vty[n2] = self.vty[old]
                        st.env[l[1]] = n2
        return fresh(nm)

    def alg_async(self, e, fr, st):
        lvs, v = self.lvargs(e['a'], fr, st)
        if self.dead(st):
            return UNK
        fnv = next((x for x in v if isinstance(x, T) and x.k == 'lam'), None)
        if fnv is None:
            return mk('app', 'std::async', tuple(v), None)
        rest = v[v.index(fnv) + 1:]
        r = self.push_region('async', e, None)
        x = st.copy()
        val = self.apply(fnv, rest, None, e, fr, x)
        self.regions.pop()
        if isinstance(val, tuple):
            val = self.read(val, x)
        return mk('future', val)
