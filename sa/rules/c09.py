"""Each file format is written and read with one layout.

Writer and reader are interpreted abstractly; files and heap buffers are abstract objects.  The writer yields the closed
form of the bytes and elements it puts into the file, the reader the closed form of the image it builds from the elements
of a file.  For every width class (all row paddings) the reader's form is composed with the writer's: reading pixel (x, y)
must give the element the writer took from pixel (x, y)."""
from lib import *
from sem import *
from algebra import *
import math

TUS = ['lib']
MIN = {'raw': 3, 'text': 2}


class IO(Interp):
    """files and heap buffers as abstract objects; every operation succeeds (failures are the subject of C07 and C08)"""

    def reset(self):
        Interp.reset(self)
        self.writes = []
        self.files = []
        self.lost = False

    def heap(self, content):
        k = ('heap', self.nid())
        return k, mk('heap', k)

    def lval(self, e, fr, st):
        if e is not None and e['k'] in ('idx', 'un') and (e['k'] == 'idx' or e.get('op') == '*'):
            b = e['b'] if e['k'] == 'idx' else e['e']
            if b is not None:
                bv = self.heapval(b, fr, st)
                if bv is not None:
                    i = self.eval(e['i'], fr, st) if e['k'] == 'idx' else ZERO
                    if bv[1] is not None:
                        i = add(i, bv[1])
                    return ('elem', ('var', bv[0].a[0]), i)
        return Interp.lval(self, e, fr, st)

    def eval(self, e, fr, st):
        if e is not None and e['k'] == 'idx' and e.get('b') is not None:
            x = e['b']
            while x is not None and x['k'] in ('paren', 'cast'):
                x = x['e']
            if x is not None and x['k'] in ('ref', 'mem') and x.get('dk') != 'func':
                v = Interp.eval(self, x, fr, st)
                if v.k == 'ite' and any(t.k == 'heap' for t in subterms(v)):
                    return self.through(v, self.eval(e['i'], fr, st), st)
        return Interp.eval(self, e, fr, st)

    def e_bin(self, e, fr, st):
        if e.get('op', '').endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
            x = e['lh']
            while x['k'] == 'paren':
                x = x['e']
            if x['k'] == 'idx' or x['k'] == 'un' and x.get('op') == '*':
                b = x['b'] if x['k'] == 'idx' else x['e']
                if b is not None and '*' in (fr.tu.t(b.get('t')) or '') and self.heapval(b, fr, st) is None:
                    self.lost = True
        return Interp.e_bin(self, e, fr, st)

    def through(self, v, i, st):
        if v.k == 'ite':
            return ite(v.a[0], self.through(v.a[1], i, st), self.through(v.a[2], i, st))
        if v.k == 'heap':
            return self.read(('elem', ('var', v.a[0]), i), st)
        return mk('wild')

    def heapval(self, b, fr, st):
        """(heap object, offset) a pointer expression denotes"""
        x = b
        while x is not None and x['k'] in ('paren', 'cast'):
            x = x['e']
        if x is None:
            return None
        if x['k'] == 'bin' and x['op'] == '+':
            r = self.heapval(x['lh'], fr, st)
            if r is not None:
                i = self.eval(x['rh'], fr, st)
                return (r[0], add(r[1], i) if r[1] is not None else i)
        if x['k'] in ('ref', 'mem'):
            if x.get('dk') == 'func':
                return None
            v = self.eval(x, fr, st)
            if v.k == 'heap':
                return (v, None)
            if v.k == 'poly':
                hs = [m for m, c in v.a[0] if len(m) == 1 and m[0][0].k == 'heap' and m[0][1] == 1 and c == 1]
                if len(hs) == 1 and sum(1 for t in subterms(v) if t.k == 'heap') == 1:
                    h = hs[0][0][0]
                    return (h, sub(v, h))
        if x['k'] == 'call' and x.get('f') and x['f'].get('k') == 'mem' and x['f'].get('n') in ('data', 'get'):
            v = self.eval(x, fr, st)
            if v.k == 'heap':
                return (v, None)
        return None

    def modified(self, node, fr, st, seen=None):
        """writing through a pointer modifies the buffer, not the pointer"""
        mod = Interp.modified(self, node, fr, st, seen)
        direct = set()
        allheaps = False
        for n in walk(node) if node else ():
            x = None
            if n['k'] == 'bin' and n.get('op', '').endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                x = n['lh']
            elif n['k'] == 'un' and n.get('op') in ('++', '--'):
                x = n['e']
            while x is not None and x.get('k') in ('paren', 'mem'):
                x = x.get('e') if x['k'] == 'paren' else x.get('b')
            if x is not None and x.get('k') == 'ref':
                direct.add(x.get('id'))
            if x is not None and (x.get('k') == 'idx' or x.get('k') == 'un' and x.get('op') == '*'):
                b = x['b'] if x['k'] == 'idx' else x['e']
                rs = [y for y in walk(b) if y['k'] == 'ref' and '*' in (fr.tu.t(y.get('t')) or '')] if b is not None else []
                if any(self.find(fr, y.get('id'), st) is None for y in rs):
                    allheaps = True
        out = {k for k in st.env if k[0] == 'heap'} if allheaps else set()
        for k in mod:
            v = st.env.get(k)
            hs = {x.a[0] for x in subterms(v) if x.k == 'heap'} if isinstance(v, T) else set()
            if hs:
                out |= hs
                if k[1] not in direct:
                    continue
            out.add(k)
        return out

    def eqterm(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.k in ('heap', 'file', 'sym') and (y.k == 'null' or y is ZERO and x.k != 'sym'):
                return FALSE
        return Interp.eqterm(self, a, b)

    def tobool(self, v):
        if v.k in ('heap', 'file'):
            return TRUE
        return Interp.tobool(self, v)

    def target(self, a, fr, st):
        """storage a pointer argument denotes"""
        x = a
        while x is not None and x['k'] in ('paren', 'cast'):
            x = x['e']
        if x['k'] == 'un' and x.get('op') == '&':
            x = x['e']
            if x['k'] == 'idx' and x['i'].get('k') == 'int' and int(x['i']['v']) == 0:
                x = x['b']
        r = self.heapval(x, fr, st)
        if r is not None:
            return ('var', r[0].a[0]) if r[1] is None else None
        if x['k'] == 'call' and x.get('f') and x['f'].get('k') == 'mem' and x['f'].get('n') == 'data':
            x = x['f']['b']
        lv = self.lval(x, fr, st)
        return lv if lv[0] != 'tmp' else None

    def std(self, q, nm, e, fr, st, wantlv):
        A = e['a']
        base = q.replace('std::', '')
        if base in ('malloc', 'calloc'):
            n = self.evargs(A, fr, st)
            k, h = self.heap(None)
            st.env[k] = mk('heapv', k[1])
            self.decl_region[k] = 0
            return h
        if base in ('free', 'printf', 'puts', 'fflush', 'system', 'perror'):
            self.evargs(A, fr, st)
            return ZERO
        if base == 'memset':
            lv = self.target(A[0], fr, st)
            if lv is not None:
                self.write(lv, mk('memset', self.nid(), self.eval(A[1], fr, st)), st, e)
            return ZERO
        if base == 'fopen':
            a = self.evargs(A, fr, st)
            f = mk('file', self.nid())
            st.env[('fpos', f.a[0])] = ZERO
            self.files.append((f, a))
            return f
        if base == 'fclose':
            self.evargs(A, fr, st)
            return ZERO
        if base == 'fseek':
            f, off = self.eval(A[0], fr, st), self.eval(A[1], fr, st)
            wh = A[2]
            ok = f.k == 'file' and (wh.get('k') == 'int' and int(wh['v']) == 0 or wh.get('n') == 'SEEK_SET')
            if f.k == 'file':
                st.env[('fpos', f.a[0])] = off if ok else fresh('pos')
            return ZERO
        if base == 'fread' and len(A) == 4:
            f = self.eval(A[3], fr, st)
            sz, n = self.eval(A[1], fr, st), self.eval(A[2], fr, st)
            lv = self.target(A[0], fr, st)
            if lv is not None:
                pos = st.env.get(('fpos', f.a[0])) if f.k == 'file' else None
                self.write(lv, mk('fdata', pos if pos is not None else UNK, sz, n, None if lv[0] == 'var' else 0) if pos is not None else fresh('file'), st, e)
                if pos is not None:
                    st.env[('fpos', f.a[0])] = add(pos, mul(sz, n))
            return n
        if base == 'fwrite' and len(A) == 4:
            f = self.eval(A[3], fr, st)
            sz, n = self.eval(A[1], fr, st), self.eval(A[2], fr, st)
            lv = self.target(A[0], fr, st)
            v = self.read(lv, st) if lv is not None else self.eval(A[0], fr, st)
            self.writes.append((f, v, sz, n, tuple(st.pc), len(self.loops)))
            return n
        return Interp.std(self, q, nm, e, fr, st, wantlv)


class Text(IO):
    """text files: the writer's insertions are recorded in order with the loops around them, the reader's tokens are numbered"""
    TPOS = ('tpos', 0)

    def reset(self):
        IO.reset(self)
        self.ins = []

    def sroot(self, e):
        while e is not None and (e['k'] == 'paren' or e['k'] == 'bin' and e['op'] == '<<'):
            e = e['e'] if e['k'] == 'paren' else e['lh']
        return e

    def eval(self, e, fr, st):
        if e is not None and e['k'] == 'bin' and e['op'] == '<<':
            r = self.sroot(e)
            if r is not None and r['k'] == 'ref' and 'ofstream' in (fr.tu.t(r.get('t')) or ''):
                if e['lh']['k'] == 'bin':
                    self.eval(e['lh'], fr, st)
                if not self.mute:
                    x = e['rh']
                    sep = self.issep(x)
                    v = None if sep else IO.eval(self, x, fr, st)
                    ty = strip_type(fr.tu.t(x.get('t')) or '').replace('std::', '').replace('TinyDIP::', '')
                    self.ins.append((v, tuple(l.iv for l in self.loops), tuple(st.pc), e['l'], '?' if not sep and (ty in ('char', 'signed char', 'int8_t') or 'char *' in ty or ty == '') and x['k'] not in ('str', 'chr') else not sep and ty in ('unsigned char', 'uint8_t', 'GrayScale')))
                return self.eval(r, fr, st)
        return IO.eval(self, e, fr, st)

    def std(self, q, nm, e, fr, st, wantlv):
        if q.replace('std::', '') in ('stoi', 'stol', 'stoll', 'stoul', 'stoull') and e['a']:
            v = self.evargs(e['a'], fr, st)[0]
            if v.k == 'tok':
                return mk('app', 'tokn', (v.a[0],), 'size')
            return mk('app', q, (v,), 'size')
        if q.replace('std::', '') in ('log2', 'log', 'log10') and len(e['a']) == 1:
            return mk('app', 'log2' if q.endswith('log2') else q, tuple(self.evargs(e['a'], fr, st)), 'flt')
        return IO.std(self, q, nm, e, fr, st, wantlv)

    def issep(self, x):
        while x['k'] in ('paren', 'cast'):
            x = x['e']
        if x['k'] == 'cond':
            return self.issep(x['x']) and self.issep(x['y'])
        return x['k'] == 'chr' and x['v'] in (32, 10, 9, 13) or x['k'] == 'str' and x.get('v', 'x').strip() == '' or x['k'] == 'ref' and x.get('n') == 'endl'

    def tokcalls(self, node):
        return [n for n in walk(node) if n['k'] == 'call' and n.get('fk') and self.istok(self.p.bykey.get(n['fk']))] if node else []

    def istok(self, f):
        return f is not None and len(f.params) == 1 and 'ifstream' in f.ptype(0) and 'string' in f.ret()

    def modified(self, node, fr, st, seen=None):
        m = IO.modified(self, node, fr, st, seen)
        if self.tokcalls(node):
            m = m | {self.TPOS}
        return m

    def induction(self, keys, s, fr, st):
        r = IO.induction(self, keys, s, fr, st)
        if self.TPOS in keys:
            body = s.get('body')
            top = body['s'] if body is not None and body['k'] == 'block' else [body]
            calls = self.tokcalls(body)
            simple = [n for t in top if t is not None and t['k'] not in ('if', 'for', 'while', 'do', 'rfor', 'switch', 'try') for n in self.tokcalls(t)]
            if calls and len(calls) == len(simple) and not self.tokcalls(s.get('c')) and not self.tokcalls(s.get('inc')) and not any(n['k'] in ('continue', 'cond', 'lambda') or n['k'] == 'bin' and n['op'] in ('&&', '||') and self.tokcalls(n) for n in walk(body)):
                r[self.TPOS] = len(calls)
        return r

    def invoke_with(self, c, args, lvs, e, fr, st, nm, wantlv=False, this=None, thislv=None):
        if c and all(self.istok(f) for f in c):
            p = st.env.get(self.TPOS)
            if p is None:
                p = ZERO
            st.env[self.TPOS] = add(p, ONE)
            return mk('tok', p)
        return IO.invoke_with(self, c, args, lvs, e, fr, st, nm, wantlv, this, thislv)


class File(Model):
    """evaluates reader terms against a file whose bytes and elements are known"""

    def __init__(self, shapes, vals, header, data, off):
        Model.__init__(self, shapes, vals)
        self.header = header        # byte values
        self.data = data            # element index -> (term, env) of the writer
        self.off = off              # (byte offset of the elements, element size)

    def at(self, v, i, iv):
        if v.k == 'fdata':
            pos, sz = self.int(v.a[0], iv), self.int(v.a[1], iv)
            n = self.int(v.a[2], iv)
            if not 0 <= i < n:
                raise Undef('element %d of the %d read' % (i, n))
            b = pos + sz * i
            if b < len(self.header):
                if sz != 1:
                    raise Unk('wide read from the header')
                return const(self.header[b]), iv
            o, w = self.off
            if sz != w or (b - o) % w:
                return mk('WRONG', 'an element is read with width %d at byte %d' % (sz, b)), iv
            return mk('FE', (b - o) // w), iv
        if v.k in ('memset', 'heapv'):
            return mk('UNINIT'), iv
        return Model.at(self, v, i, iv)

    def length(self, v, iv):
        if v.k in ('fdata', 'memset', 'heapv'):
            return 1 << 40
        return Model.length(self, v, iv)

    def truth(self, t, iv):
        if t.k == 'eqs' and 'null' in (t.a[0].k, t.a[1].k) and t.a[0].k in ('var', 'sym', 'null') and t.a[1].k in ('var', 'sym', 'null'):
            return False        # the caller passes a file name
        return Model.truth(self, t, iv)


class Mem(Model):
    """evaluates writer terms: contents of buffers"""

    def at(self, v, i, iv):
        if v.k == 'heapv':
            return mk('UNINIT'), iv
        return Model.at(self, v, i, iv)

    def length(self, v, iv):
        if v.k in ('heapv', 'memset'):
            return 1 << 40
        return Model.length(self, v, iv)


FORMATS = [
    ('bmp', 'TinyDIP::bmp_write', 'TinyDIP::bmp_read', 'RGB', 3),
    ('dbmp', 'TinyDIP::double_image::write', 'TinyDIP::double_image::read', 'double', 0),
    ('hsv', 'TinyDIP::hsv_write', 'TinyDIP::hsv_read', 'HSV', 3),
]
GRID = [(1, 1), (2, 3), (3, 2), (4, 2), (5, 3), (6, 1), (7, 2), (8, 2), (9, 2), (11, 1), (260, 1), (1, 260), (70000, 3), (3, 70000), (20000000, 1), (1, 20000000)]


def run(P, R):
    R.rule('raw', 'composing the reader\'s closed form with the writer\'s gives every pixel and channel back, for every row padding class')
    R.rule('text', 'the token sequence the writer emits, read by the reader, gives every pixel and channel back')
    for name, w, r, el, nch in FORMATS:
        raw(P, R, name, w, r, el, nch)
    text(P, R)


class Tokens(Model):
    """evaluates reader terms against a known token sequence"""

    def __init__(self, toks):
        Model.__init__(self, {}, {'outbits': 8})
        self.toks = toks

    def tok(self, i):
        if not 0 <= i < len(self.toks):
            raise Undef('token %d of %d' % (i, len(self.toks)))
        return self.toks[i]

    def num(self, t, iv):
        if t.k == 'app' and t.a[0] == 'tokn':
            v = self.tok(self.int(t.a[1][0], iv))
            if isinstance(v, (int, Fraction)):
                return Fraction(v)
            raise Unk('pixel value')
        if t.k == 'app' and t.a[0] in ('log2', 'std::log2') and len(t.a[1]) == 1:
            x = self.int(t.a[1][0], iv)
            if x > 0 and x & (x - 1) == 0:
                return Fraction(x.bit_length() - 1)
            if x > 0:
                return Fraction(math.log2(x))
            raise Unk('log2')
        return Model.num(self, t, iv)

    def truth(self, t, iv):
        if t.k == 'eqs':
            a, b = (self.toks[self.int(x.a[0], iv)] if x.k == 'tok' else x.a[0] if x.k == 'str' else None for x in t.a[:2])
            if isinstance(a, str) and isinstance(b, str):
                return a == b
        if t.k == 'app' and 'is_open' in str(t.a[0]):
            return True
        if t.k == 'empty' or t.k == 'app' and str(t.a[0]).endswith('.empty'):
            return False
        return Model.truth(self, t, iv)


def expand(m, ins, depth, iv):
    """the items the recorded insertions put into the file, in order"""
    out = []
    i = 0
    while i < len(ins):
        v, ivs, pc, l, ch = ins[i]
        if len(ivs) <= depth:
            if all(m.truth(c, iv) for c in pc):
                out.append((v, dict(iv), ch))
            i += 1
            continue
        j = i
        while j < len(ins) and len(ins[j][1]) > depth and ins[j][1][depth] is ivs[depth]:
            j += 1
        x = ivs[depth]
        if x is None or x.k != 'iv' or x.a[2] is UNK:
            raise Unk('a loop of unknown length writes')
        for k in range(m.int(x.a[1], iv), m.int(x.a[2], iv)):
            out += expand(m, ins[i:j], depth + 1, {**iv, x: k})
        i = j
    return out


class Wmod(Mem):
    def truth(self, t, iv):
        if t.k == 'eqs':
            a, b = (self.vals.get(x.a[0]) if x.k == 'sym' else x.a[0] if x.k == 'str' else None for x in t.a[:2])
            if isinstance(a, str) and isinstance(b, str):
                return a == b
        if t.k == 'app' and ('is_open' in str(t.a[0]) or 'flush' in str(t.a[0])):
            return True
        return Mem.truth(self, t, iv)


def text(P, R):
    w = pick(P, 'TinyDIP::pnm::write', lambda f: True)
    rs = [f for f in P.funcs if f.q == 'TinyDIP::pnm::read' and f.body]
    if not w or not rs or len(w.params) < 3:
        R.unknown('text', 'pnm: writer or reader not found')
        return
    I = Text(P)
    I.unroll = 8
    I.nchan = 3
    if I.run(w) is None:
        R.unknown('text', 'pnm: writer not interpreted')
        return
    img = [p['n'] for i, p in enumerate(w.params) if 'Image<' in w.ptype(i)][0]
    mg = [p['n'] for i, p in enumerate(w.params) if 'string' in w.ptype(i)]
    mx = [p['n'] for i, p in enumerate(w.params) if strip_type(w.ptype(i)) == 'int']
    if len(mg) != 1 or len(mx) != 1:
        R.unknown('text', 'pnm: parameters of the writer')
        return
    for r in rs:
        J = Text(P)
        J.uid0 = 100000
        J.unroll = 8
        J.nchan = 3
        fj = J.run(r)
        if fj is None:
            R.unknown('text', 'pnm: %s not interpreted' % r.sig())
            continue
        for magic in ('P1', 'P2', 'P3'):
            for ww, hh in ((1, 1), (2, 3), (3, 2), (4, 1), (1, 5)):
                try:
                    bad = pnm(I.ins, img, mg[0], mx[0], fj, magic, ww, hh)
                except (Unk, Undef, RecursionError) as x:
                    R.unknown('text', '%s %s %dx%d: %s' % (r.sig(), magic, ww, hh, x))
                    continue
                if bad:
                    R.bad('text', 'pnm|%s|%s' % (magic, 'policy' if any('olicy' in r.ptype(i) for i in range(len(r.params))) else 'plain'), r.file, r.line, r.sig(), 'PNM %s, image %dx%d: %s' % (magic, ww, hh, bad))
                    break
                R.ok('text', '%s %s %dx%d' % (r.sig(), magic, ww, hh))


def pnm(ins, img, mg, mx, fj, magic, ww, hh):
    m = Wmod({img: (ww, hh)}, {mg: magic, mx: 255})
    toks = []
    glue = False
    for v, iv, ch in expand(m, ins, 0, {}):
        if v is None:
            glue = False
            continue
        if ch == '?':
            raise Unk('text of unknown form')
        if glue:
            return 'two values are written without a separator'
        if ch:
            return 'a value is written as a character, not as a number'
        glue = True
        if v.k == 'sym' and v.a[0] == mg:
            toks.append(magic)
        elif v.k == 'str':
            toks.append(v.a[0])
        else:
            try:
                toks.append(int(m.num(v, iv)))
            except (Unk, Undef):
                toks.append((v, iv))
    fm = Tokens(toks)
    ex = fm.exit_of(fj)
    shape = fm.shape(ex['val'], {})
    if tuple(shape) != (ww, hh):
        return 'it is read back as %s' % 'x'.join(str(x) for x in shape)
    for y in range(hh):
        for x in range(ww):
            for c in range(3):
                t = mk('elem', mk('fld', mk('px', ex['val'], (const(x), const(y))), 'channels', None), const(c), None)
                got = upd(fm.value(t, {}))
                want = m.value(mk('elem', mk('fld', mk('px', mk('imgp', img), (const(x), const(y))), 'channels', None), const(c if magic == 'P3' else 0), None), {})
                for val in ((0, 1) if magic == 'P1' else (0, 1, 5, 128, 255)):
                    g = gray(fm, m, got, want, val)
                    if g != val:
                        return 'pixel (%d, %d) channel %d with value %d is read back as %s' % (x, y, c, val, g)
    return None


def gray(fm, m, got, want, val):
    """value of the reader's term when the pixel `want` of the image written has the given value"""
    other = 77 if val != 77 else 78

    class V(Wmod):
        def num(self, t, iv):
            if t.k == 'elem':
                u = m.value(t, iv)
                if u is want:
                    return Fraction(val)
                if u.k == 'elem':
                    return Fraction(other)
            return Wmod.num(self, t, iv)

    class G(Tokens):
        def num(self, t, iv):
            if t.k == 'app' and t.a[0] == 'tokn':
                v = self.tok(self.int(t.a[1][0], iv))
                if isinstance(v, tuple):
                    return V(m.shapes, m.vals).num(v[0], v[1])
            return Tokens.num(self, t, iv)
    return int(G(fm.toks).num(got, {}))


def pick(P, q, pred):
    c = [f for f in P.funcs if f.q == q and f.body and pred(f)]
    return c[0] if len(c) == 1 else None


def raw(P, R, name, wq, rq, el, nch):
    w = pick(P, wq, lambda f: len(f.params) == 2 and 'char' in f.ptype(0) and 'Image<' in f.ptype(1))
    r = pick(P, rq, lambda f: 'char' in f.ptype(0) and len(f.params) == 2)
    if not w or not r:
        R.unknown('raw', '%s: writer or reader not found' % name)
        return
    I = IO(P)
    I.unroll = 8
    I.nchan = nch or None
    fr = I.run(w)
    if fr is None or I.lost:
        R.unknown('raw', '%s: writer not interpreted' % name)
        return
    writes = list(I.writes)
    img = [p['n'] for i, p in enumerate(w.params) if 'Image<' in w.ptype(i)][0]
    J = IO(P)
    J.uid0 = 100000
    J.unroll = 8
    J.nchan = nch or None
    fj = J.run(r)
    if fj is None or J.lost:
        R.unknown('raw', '%s: reader not interpreted' % name)
        return
    n = 0
    for (ww, hh) in GRID:
        try:
            bad = roundtrip(writes, img, fj, ww, hh, nch)
        except (Unk, Undef, RecursionError) as x:
            R.unknown('raw', '%s %dx%d: %s' % (name, ww, hh, x))
            continue
        if bad:
            R.bad('raw', '%s' % name, r.file, r.line, r.sig(), '%s, image %dx%d: %s' % (name, ww, hh, bad))
            return
        R.ok('raw', '%s %dx%d: %d values' % (name, ww, hh, ww * hh * max(nch, 1)))


def roundtrip(writes, img, fj, ww, hh, nch):
    m = Mem({img: (ww, hh)}, {})
    header, parts = [], []
    pos = 0
    for f, v, sz, n, pc, nl in writes:
        if nl:
            raise Unk('written inside a loop')
        s, c = m.int(sz, {}), m.int(n, {})
        if s == 1 and not parts and c <= 256 and all_numeric(m, v, c):
            for i in range(c):
                x, e = m.at(v, i, {})
                header.append(int(m.num(x, e)) & 255)
        else:
            parts.append((pos, s, c, v))
        pos += s * c
    if len(parts) != 1:
        raise Unk('%d data blocks' % len(parts))
    off, s, c, v = parts[0]
    fm = File({}, {}, header, None, (off, s))
    ex = fm.exit_of(fj)
    shape = fm.shape(ex['val'], {})
    if tuple(shape) != (ww, hh):
        return 'it is read back as %s' % 'x'.join(str(x) for x in shape)
    if ww * hh > 1000:
        return None         # only the header fields: every byte of the extents matters
    for y in range(hh):
        for x in range(ww):
            for ch in range(max(nch, 1)):
                t = mk('px', ex['val'], (const(x), const(y)))
                if nch:
                    t = mk('elem', mk('fld', t, 'channels', None), const(ch), None)
                got = upd(fm.value(t, {}))
                if got.k == 'WRONG':
                    return got.a[0]
                if got.k == 'UNINIT':
                    return 'pixel (%d, %d)%s is never read from the file' % (x, y, ' channel %d' % ch if nch else '')
                if got.k != 'FE':
                    raise Unk('pixel %s' % show(got)[:80])
                if got.a[0] >= c:
                    return 'pixel (%d, %d)%s is read from element %d, but only %d elements are written' % (x, y, ' channel %d' % ch if nch else '', got.a[0], c)
                src, env = m.at(v, got.a[0], {})
                src = upd(m.value(src, env))
                want = mk('px', mk('imgp', img), (const(x), const(y)))
                if nch:
                    want = mk('elem', mk('fld', want, 'channels', None), const(ch), None)
                want = m.value(want, {})
                if src is not want:
                    if src.k in ('UNINIT',) or cval(src) is not None or mentions(src, 'px') or mentions(src, 'IN'):
                        return 'pixel (%d, %d)%s reads back %s' % (x, y, ' channel %d' % ch if nch else '', describe(src))
                    raise Unk('element %s' % show(src)[:80])
    return None


def upd(t):
    """value of a component of a pixel that was built component by component"""
    if t.k == 'elem' and t.a[0].k == 'fld' and cval(t.a[1]) is not None:
        b, n = t.a[0].a[0], t.a[0].a[1]
        while b.k == 'UPD':
            p = b.a[1]
            if p and isinstance(p[0], str) and p[0] != n:
                b = b.a[0]
                continue
            if len(p) != 2 or cval(p[1] if isinstance(p[1], T) else const(p[1])) is None:
                return t
            if cval(p[1] if isinstance(p[1], T) else const(p[1])) == cval(t.a[1]):
                return b.a[2]
            b = b.a[0]
        if b.k == 'UNINIT':
            return b
        return mk('elem', mk('fld', b, n, None), t.a[1], None)
    return t


def describe(t):
    if t.k == 'UNINIT':
        return 'an element the writer never set'
    return show(t)[:100]


def mentions(t, k):
    return any(x.k == k for x in subterms(t))


def all_numeric(m, v, c):
    try:
        for i in range(c):
            x, e = m.at(v, i, {})
            m.num(x, e)
        return True
    except (Unk, Undef):
        return False
