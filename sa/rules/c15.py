"""C15: plugin code is never used after its library was unloaded.

handle    typestate over every special member of the library class: each opened handle is owned by exactly one object or closed once
order     objects that can hold plugin code or plugin-made values are destroyed before the libraries (declaration order of locals,
          members and statics)
exposure  code obtained from a library only runs once the library is owned by something that outlives what the code can reach
kept      nothing removes a library from its owner while commands registered from it may still be called
"""
from lib import *
from lifetime import Life, dp, strip
import re

TUS = ['main']
MIN = {'handle': 4, 'order': 2, 'exposure': 1, 'kept': 1}
OPEN = {'dlopen', 'LoadLibraryA', 'LoadLibraryW', 'LoadLibrary', 'dlmopen'}
CLOSE = {'dlclose', 'FreeLibrary'}
SYM = {'dlsym', 'GetProcAddress'}


def fname(e):
    f = e.get('f') or {}
    return (f.get('q') or f.get('n') or '').split('::')[-1]


def lib_classes(P):
    """classes one of whose fields receives the result of dlopen"""
    out = {}
    for f in P.funcs:
        c = f.d.get('cls')
        if not c or f.body is None and not f.d.get('inits'):
            continue
        for n in walk([f.body, f.d.get('inits')]):
            if n['k'] == 'bin' and n['op'] == '=' and any(x['k'] == 'call' and fname(x) in OPEN for x in walk(n['rh'])):
                l = dp(n['lh'])
                if l is not None and l['k'] == 'mem':
                    out.setdefault(c, set()).add(l['n'])
        for it in f.d.get('inits') or []:
            if it.get('e') is not None and any(x['k'] == 'call' and fname(x) in OPEN for x in walk(it['e'])):
                out.setdefault(c, set()).add(it['n'])
        # a field passed to dlclose / dlsym counts as well
        if f.body is not None:
            for n in walk(f.body):
                if n['k'] == 'call' and fname(n) in CLOSE | SYM and n['a']:
                    a = dp(n['a'][0])
                    while a is not None and a['k'] == 'cast':
                        a = dp(a['e'])
                    if a is not None and a['k'] == 'mem' and (a.get('b') is None or dp(a['b'])['k'] == 'this'):
                        out.setdefault(c, set()).add(a['n'])
    return out


# -- the handle ----------------------------------------------------------------------------------------------------------------

class Give(Exception):
    pass


class Out(Exception):
    def __init__(self, kind, v=None):
        self.kind, self.v = kind, v


class Hand:
    """evaluates a special member on every combination of null / open handles; handles are opaque tokens"""

    def __init__(self, P, f, fld, objs, alias, opened):
        self.P, self.f, self.fld = P, f, fld
        self.h = dict(objs)           # object -> handle token or None
        self.alias = alias            # parameter id -> object name
        self.closed = []
        self.opened = opened
        self.env = {}
        self.n = 0
        self.bad = None

    def obj(self, b):
        b = dp(b)
        if b is None or b['k'] == 'this':
            return 'this'
        if b['k'] == 'un' and b['op'] == '*':
            return self.obj(b['e'])
        if b['k'] == 'ref' and b.get('id') in self.alias:
            return self.alias[b['id']]
        if b['k'] == 'call' and fname(b) in ('move', 'forward') and b['a']:
            return self.obj(b['a'][0])
        raise Give()

    def stmt(self, n):
        self.n += 1
        if self.n > 300:
            raise Give()
        if n is None:
            return
        k = n['k']
        if k == 'block':
            for s in n['s']:
                self.stmt(s)
        elif k == 'decl':
            for v in n['v']:
                if v.get('k') == 'var' and v.get('init') is not None:
                    i = v['init']
                    if i['k'] in ('init', 'plist') and len(i['a']) == 1:
                        i = i['a'][0]
                    self.env[v['id']] = self.ev(i)
        elif k == 'if':
            if n.get('init') is not None:
                self.stmt(n['init'])
            c = self.truth(self.ev(n['c']))
            self.stmt(n['x'] if c else n.get('y'))
        elif k == 'return':
            raise Out('return')
        elif k == 'throw':
            raise Out('throw')
        elif k in ('for', 'while', 'do', 'rfor', 'switch', 'try'):
            if any(x['k'] == 'mem' and x.get('n') == self.fld or x['k'] == 'call' and fname(x) in CLOSE | OPEN for x in walk(n)):
                raise Give()
        else:
            self.ev(n)

    def truth(self, v):
        if v == 'opaque':
            raise Give()
        if v in (True, False):
            return v
        return v is not None

    def ev(self, e):
        e = dp(e)
        if e is None:
            return 'opaque'
        k = e['k']
        if k == 'mem' and e.get('n') == self.fld and e.get('dk') != 'func':
            return self.h[self.obj(e.get('b'))]
        if k == 'null' or k == 'int' and str(e.get('v')) == '0':
            return None
        if k == 'bool':
            return bool(e['v'])
        if k == 'ref':
            return self.env.get(e.get('id'), 'opaque')
        if k == 'cast':
            return self.ev(e['e'])
        if k == 'init':
            return self.ev(e['a'][0]) if len(e['a']) == 1 else None if not e['a'] else 'opaque'
        if k == 'un' and e['op'] == '!':
            return not self.truth(self.ev(e['e']))
        if k == 'un' and e['op'] == '&':
            a = dp(e['e'])
            if a['k'] == 'ref' and a.get('id') in self.alias:
                return ('addr', self.alias[a['id']])
            return 'opaque'
        if k == 'this':
            return ('addr', 'this')
        if k == 'bin':
            op = e['op']
            if op == '&&':
                return self.truth(self.ev(e['lh'])) and self.truth(self.ev(e['rh']))
            if op == '||':
                return self.truth(self.ev(e['lh'])) or self.truth(self.ev(e['rh']))
            if op in ('==', '!='):
                a, b = self.ev(e['lh']), self.ev(e['rh'])
                if 'opaque' in (a, b):
                    return 'opaque'
                return (a == b) if op == '==' else a != b
            if op == '=':
                v = self.ev(e['rh'])
                l = dp(e['lh'])
                if l['k'] == 'mem' and l.get('n') == self.fld:
                    self.h[self.obj(l.get('b'))] = v
                elif l['k'] == 'ref':
                    self.env[l.get('id')] = v
                return v
            self.ev(e['lh'])
            self.ev(e['rh'])
            return 'opaque'
        if k == 'cond':
            return self.ev(e['x'] if self.truth(self.ev(e['c'])) else e['y'])
        if k == 'call':
            n = fname(e)
            if n in CLOSE:
                v = self.ev(e['a'][0])
                if v == 'opaque':
                    raise Give()
                if v is None:
                    self.bad = self.bad or 'closes a null handle'
                elif v in self.closed:
                    self.bad = self.bad or 'closes a handle twice'
                else:
                    self.closed.append(v)
                return 'opaque'
            if n in OPEN:
                return self.opened
            if n == 'exchange' and len(e['a']) == 2:
                v = self.ev(e['a'][1])
                l = dp(e['a'][0])
                old = self.ev(l)
                if l['k'] == 'mem' and l.get('n') == self.fld:
                    self.h[self.obj(l.get('b'))] = v
                return old
            if n == 'swap' and len(e['a']) == 2:
                a, b = dp(e['a'][0]), dp(e['a'][1])
                if a['k'] == b['k'] == 'mem' and a['n'] == b['n'] == self.fld:
                    x, y = self.obj(a.get('b')), self.obj(b.get('b'))
                    self.h[x], self.h[y] = self.h[y], self.h[x]
                    return 'opaque'
            keys = [e.get('fk')] if e.get('fk') else ([e['f']['fk']] if e['f'].get('fk') else e['f'].get('cands') or [])
            g = self.P.bykey.get(keys[0]) if len(keys) == 1 else None
            if g is not None and g.body is not None and g.d.get('cls') == self.f.d.get('cls') and e['f']['k'] == 'mem':
                o = self.obj(e['f'].get('b'))
                return self.inline(g, o, e['a'])
            touched = any(x['k'] == 'mem' and x.get('n') == self.fld for x in walk(e['a']))
            for a in e['a']:
                if touched and n not in SYM and not (isinstance(a, dict) and a['k'] == 'str'):
                    if any(x['k'] == 'mem' and x.get('n') == self.fld for x in walk(a)) and dp(a)['k'] == 'mem':
                        raise Give()
                if a is not None:
                    try:
                        self.ev(a)
                    except Give:
                        if any(x['k'] == 'mem' and x.get('n') == self.fld for x in walk(a)):
                            raise
            return 'opaque'
        if k == 'ctor':
            if any(x['k'] == 'mem' and x.get('n') == self.fld for x in walk(e)):
                raise Give()
            return 'opaque'
        return 'opaque'

    def inline(self, g, o, args):
        """a member called on object o"""
        old = self.alias
        amap = dict(old)
        for p, a in zip(g.params, args):
            try:
                amap[p['id']] = self.obj(a)
            except Give:
                pass
        if o != 'this':
            raise Give()
        self.alias = amap
        try:
            self.stmt(g.body)
        except Out as x:
            if x.kind == 'throw':
                raise
        finally:
            self.alias = old
        return 'opaque'


def handle_rules(P, R, cls, fld):
    rec, tu = P.recs.get(cls, (None, None))
    ft = next((strip(tu.t(x['t'])) for x in rec['fields'] if x['n'] == fld), '') if rec else ''
    if 'unique_ptr' in ft or 'shared_ptr' in ft:
        R.ok('handle', '%s|%s owned by a smart pointer' % (cls, fld))
        return
    fs = [f for f in P.funcs if f.d.get('cls') == cls]
    sm = {}
    for f in fs:
        t = strip(f.tu.t(f.params[0]['t'])) if f.params else ''
        same = re.match(r'^(const )?%s\s*&+$' % re.escape(cls), re.sub(r'\w+::', '', t))
        if f.kind == 'dtor':
            sm['dtor'] = f
        elif f.kind == 'ctor' and len(f.params) == 1 and same:
            sm['copy ctor' if t.endswith('&') and not t.endswith('&&') else 'move ctor'] = f
        elif f.name == 'operator=' and same:
            sm['copy assignment' if not t.endswith('&&') else 'move assignment'] = f
        elif f.kind == 'ctor' and f.body is not None:
            sm.setdefault('ctors', []).append(f)
        elif f.body is not None and f.kind == 'method':
            sm.setdefault('methods', []).append(f)

    def init_value(H, f):
        """member initialisers, then in-class default"""
        for it in f.d.get('inits') or []:
            if it['n'] == fld and it.get('e') is not None:
                H.h['this'] = H.ev(it['e'])
                return
            if it['n'] == fld:
                H.h['this'] = None
                return
        d = next((x.get('init') for x in rec['fields'] if x['n'] == fld), None)
        H.h['this'] = H.ev(d) if d is not None else 'uninitialised'

    def check(f, what, cases):
        key = '%s|%s' % (cls, what.replace(' ', '_'))
        try:
            for objs, alias, opened, expect in cases:
                H = Hand(P, f, fld, objs, alias, opened)
                if f.kind == 'ctor':
                    init_value(H, f)
                kind = 'end'
                try:
                    H.stmt(f.body)
                except Out as x:
                    kind = x.kind
                if H.bad:
                    R.bad('handle', key, f.file, f.line, f.sig(), H.bad)
                    return
                m = expect(H, kind)
                if m:
                    R.bad('handle', key, f.file, f.line, f.sig(), m)
                    return
        except (Give, KeyError, TypeError, IndexError):
            R.unknown('handle', key)
            return
        R.ok('handle', key)

    def conserve(start, dying=()):
        """every handle is afterwards owned by exactly one live object or closed exactly once"""
        def fn(H, kind):
            if kind == 'throw':
                return None
            own = list(H.closed)
            for o, v in H.h.items():
                if o in dying:
                    continue
                if v == 'opaque':
                    raise Give()
                if v == 'uninitialised':
                    return 'leaves the handle uninitialised'
                if v is not None:
                    own.append(v)
            for x in own:
                if own.count(x) > 1:
                    return 'leaves one library handle with two owners (or owned and closed), so it is closed twice'
            for x in start:
                if x is not None and x not in own:
                    return 'loses a library handle without closing it'
            return None
        return fn

    d = sm.get('dtor')
    if d is None or d.body is None:
        if rec is not None:
            R.bad('handle', '%s|destructor' % cls, rec['file'], rec['l'], cls, 'has no destructor that closes the library')
    else:
        check(d, 'destructor', [({'this': h}, {}, None, lambda H, k, h=h: None if H.closed == ([h] if h else []) else 'does not close the open library exactly once') for h in (None, 'h1')])
    for what in ('move ctor', 'copy ctor'):
        f = sm.get(what)
        if f is None or f.d.get('deleted'):
            continue
        if f.body is None or f.d.get('defaulted'):
            R.bad('handle', '%s|%s' % (cls, what.replace(' ', '_')), f.file, f.line, f.sig(), 'duplicates the library handle, which is then closed twice')
            continue
        pid = f.params[0]['id']
        cs = []
        for h in (None, 'h2'):
            def ex(H, k, h=h):
                m = conserve([h])(H, k)
                return m or (None if k == 'throw' or H.h['this'] == h or h in H.closed else 'does not take over the library')
            cs.append(({'this': None, 'other': h}, {pid: 'other'}, None, ex))
        check(f, what, cs)
    for what in ('move assignment', 'copy assignment'):
        f = sm.get(what)
        if f is None or f.d.get('deleted'):
            continue
        if f.body is None or f.d.get('defaulted'):
            R.bad('handle', '%s|%s' % (cls, what.replace(' ', '_')), f.file, f.line, f.sig(), 'duplicates the library handle, which is then closed twice')
            continue
        pid = f.params[0]['id']
        cs = []
        for a in (None, 'h1'):
            for b in (None, 'h2'):
                cs.append(({'this': a, 'other': b}, {pid: 'other'}, None, conserve([a, b])))
            def selfm(H, k, a=a):
                return None if H.h['this'] == a and not H.closed else 'assigning a library to itself closes or loses it'
            cs.append(({'this': a}, {pid: 'this'}, None, selfm))
        check(f, what, cs)
    if sm.get('move ctor') is None and sm.get('copy ctor') is None and rec is not None:
        R.bad('handle', '%s|copy' % cls, rec['file'], rec['l'], cls, 'can be copied member by member: two objects would close the same library')
    else:
        R.ok('handle', '%s|copy' % cls)
    for i, f in enumerate(sm.get('ctors', [])):
        check(f, 'constructor%d' % i, [({'this': None}, {}, o, conserve([o])) for o in ('h1', None)])
    for f in sm.get('methods', []):
        if any(n['k'] == 'call' and fname(n) in CLOSE | OPEN for n in walk(f.body)) or any(n['k'] == 'bin' and n['op'] == '=' and dp(n['lh'])['k'] == 'mem' and dp(n['lh']).get('n') == fld for n in walk(f.body)):
            if f.name == 'release' or 'void *' in strip(f.ret() or ''):
                R.unknown('handle', '%s|%s' % (cls, f.name))
                continue
            check(f, f.name, [({'this': a}, {}, 'h3', conserve([a])) for a in (None, 'h1')])


# -- ordering ------------------------------------------------------------------------------------------------------------------

def run(P, R):
    R.rule('handle', 'constructors, destructor, moves, copies and closing members of the library class keep every opened handle with exactly one owner until it is closed once')
    R.rule('order', 'a scope (function, class, static storage) that holds both libraries and objects able to keep plugin code or values declares the libraries first, so that they are destroyed last')
    R.rule('exposure', 'no code from a library is called while the library is still owned by a shorter-lived local that is destroyed on the way out, normal or exceptional')
    R.rule('kept', 'no library is removed from the container that keeps it loaded')
    libs = lib_classes(P)
    if not libs:
        R.unknown('handle', 'no class owns a library handle')
        return
    for c, flds in sorted(libs.items()):
        for fl in sorted(flds):
            handle_rules(P, R, c, fl)
    LIB = re.compile(r'\b(%s)\b' % '|'.join(libs))
    HOLD, why = holders(P, LIB)
    # locals
    for f in P.funcs:
        if f.body is None:
            continue
        L = Life(P, f)
        if not any(LIB.search(L.ty(v) + ' ' + ctype(L, v)) for v in L.vars.values()) and not any(LIB.search(L.ty(p)) for p in f.params):
            # template parameters constrained to hold libraries
            if not any(LIB.search(x) for x in constraint(f)):
                continue
        order_locals(P, R, f, L, LIB, HOLD)
        exposure(P, R, f, L, LIB, libs)
        kept(P, R, f, L, LIB, HOLD)
    # members
    for r, tu in P.reclist:
        if r['n'] in libs or not r['file'].startswith(('main', 'plugin', 'dynamic')):
            continue
        fl = [(x['n'], strip(tu.t(x['t']))) for x in r['fields']]
        li = [i for i, (n, t) in enumerate(fl) if LIB.search(t) and owning(t)]
        ho = [i for i, (n, t) in enumerate(fl) if HOLD.search(t) and owning(t)]
        if li and ho:
            if min(ho) < max(li):
                R.bad('order', '%s|members' % r['n'], r['file'], r['l'], r['n'], 'member `%s` is declared before `%s`, so plugin code or values outlive the library' % (fl[min(ho)][0], fl[max(li)][0]))
            else:
                R.ok('order', '%s|members' % r['n'])
    for (file, line, name), (g, tu) in P.gvars.items():
        t = strip(tu.t(g['t'])) if g.get('t') is not None else ''
        if HOLD.search(t) and owning(t) and file.startswith('main'):
            R.bad('order', 'static|%s' % name, file, line, name, 'has static storage and outlives the libraries whose code it may hold')


def owning(t):
    return not t.endswith(('&', '*')) and 'weak_ptr' not in t and 'reference_wrapper' not in t and 'span' not in t


def ctype(L, v):
    return strip(L.f.tu.t(v['ct'])) if v.get('ct') is not None else ''


def constraint(f):
    return [f.d.get('req') or ''] + [str(t) for t in f.d.get('tps', [])]


def holders(P, LIB):
    """classes whose objects can hold code (std::function) or type-erased values (std::any) that a plugin may have supplied"""
    H = {}
    for r, tu in P.reclist:
        if r['file'].startswith(('main', 'dynamic')):
            for x in r['fields']:
                t = strip(tu.t(x['t']))
                if re.search(r'\b(std::)?(function|any|move_only_function)\b|CommandHandler', t):
                    H[r['n']] = x['n']
    for _ in range(3):
        for r, tu in P.reclist:
            if r['n'] in H or not r['file'].startswith(('main', 'dynamic')):
                continue
            for x in r['fields']:
                t = strip(tu.t(x['t']))
                if H and re.search(r'\b(%s)\b' % '|'.join(H), t) and owning(t):
                    H[r['n']] = x['n']
    # bundles are command descriptions that are copied into the registry; what lives on is the registry and the workspace
    for n in ('CommandBundle', 'CommandInfo', 'QueuedCommand'):
        H.pop(n, None)
    return re.compile(r'\b(%s)\b' % '|'.join(sorted(H) or ['<none>'])), H


def order_locals(P, R, f, L, LIB, HOLD):
    def scan(block, outer):
        """outer: [(kind, name, node)] of the enclosing scopes in declaration order"""
        seen = list(outer)
        for s in block.get('s') or []:
            if s is None:
                continue
            if s['k'] == 'decl':
                for v in s['v']:
                    if v.get('k') != 'var':
                        continue
                    t = L.ty(v) + ' ' + ctype(L, v)
                    if L.ty(v).endswith('&') or not owning(ctype(L, v) or L.ty(v)):
                        continue
                    st = bool(v.get('static'))
                    if LIB.search(t):
                        for k, n, w, ws in seen:
                            if k == 'hold' and not st:
                                R.bad('order', '%s|%s|%s' % (f.name, n, v['n']), f.file, v['l'], f.sig(),
                                      '`%s` is declared after `%s`, so the libraries are unloaded before the plugin code or values it may hold are destroyed' % (v['n'], n))
                            elif k == 'hold':
                                R.ok('order', '%s|%s|%s' % (f.name, n, v['n']))
                        seen.append(('lib', v['n'], v, st))
                    elif HOLD.search(t):
                        for k, n, w, ws in seen:
                            if k == 'lib':
                                if st and not ws:
                                    R.bad('order', '%s|%s|%s' % (f.name, v['n'], n), f.file, v['l'], f.sig(), '`%s` has static storage and outlives the libraries in `%s`' % (v['n'], n))
                                else:
                                    R.ok('order', '%s|%s|%s' % (f.name, v['n'], n))
                        seen.append(('hold', v['n'], v, st))
            for sub in subblocks(s):
                scan(sub, seen)
    scan(f.body, [])


def subblocks(s):
    out = []
    if s['k'] == 'block':
        out.append(s)
    for k in ('x', 'y', 'body'):
        b = s.get(k)
        if isinstance(b, dict) and b.get('k') in ('block', 'if', 'for', 'while', 'do', 'rfor', 'try'):
            out.append(b if b['k'] == 'block' else {'s': [b]})
    for h in s.get('h') or []:
        if isinstance(h, dict) and isinstance(h.get('body'), dict):
            out.append(h['body'])
    return out


def exposure(P, R, f, L, LIB, libs):
    """straight-line typestate of each local library: local -> (moved into an owner) ; calls of code obtained from it"""
    loc = {}
    for i, v in L.vars.items():
        if v.get('k') == 'var' and not v.get('static') and re.match(r'^(const )?(%s)$' % '|'.join(libs), re.sub(r'\w+::', '', ctype(L, v) or L.ty(v))) and not L.ty(v).endswith('&'):
            loc[i] = v
    fns = {}

    def source(e):
        """the local library a function pointer expression comes from"""
        for n in walk(e):
            if n['k'] == 'call' and n.get('f') and n['f']['k'] == 'mem' and n['f'].get('b') is not None:
                b = dp(n['f']['b'])
                if b['k'] == 'ref' and b.get('id') in loc:
                    g = P.bykey.get(n.get('fk') or n['f'].get('fk') or '')
                    if g is None or g.body is None or any(x['k'] == 'call' and fname(x) in SYM for x in walk(g.body)):
                        return b['id']
        return None

    moved = set()
    done = set()

    def visit(n):
        if isinstance(n, list):
            for x in n:
                visit(x)
            return
        if not isinstance(n, dict):
            return
        k = n.get('k')
        if k == 'requires':
            return
        if k == 'decl':
            for v in n['v']:
                if v.get('init') is not None:
                    visit(v['init'])
                    s = source(v['init'])
                    if s is not None:
                        fns[v['id']] = s
            return
        if k == 'if' and n.get('cx'):
            visit(n.get('init'))
            before = set(moved)
            visit(n['x'])
            a = set(moved)
            moved.clear()
            moved.update(before)
            visit(n.get('y'))
            b = set(moved)
            moved.clear()
            moved.update(a & b if n.get('y') is not None else before)
            return
        if k == 'if':
            visit(n.get('init'))
            visit(n['c'])
            before = set(moved)
            visit(n['x'])
            a = set(moved)
            moved.clear()
            moved.update(before)
            visit(n.get('y'))
            b = set(moved)
            moved.clear()
            moved.update(a & b)
            return
        if k == 'call' and n.get('f'):
            fn = dp(n['f'])
            for a in n['a']:
                visit(a)
            src = None
            if fn['k'] == 'ref' and fn.get('id') in fns:
                src = fns[fn['id']]
            elif fn['k'] == 'un' and fn['op'] == '*' and dp(fn['e'])['k'] == 'ref':
                src = fns.get(dp(fn['e']).get('id'))
            elif fn['k'] == 'call':
                src = source(fn)
            if fname(n) == 'invoke' and n['a']:
                a0 = dp(n['a'][0])
                if a0['k'] == 'ref' and a0.get('id') in fns:
                    src = fns[a0['id']]
            if src is not None:
                key = '%s|%s' % (f.name, loc[src]['n'])
                if src in moved:
                    R.ok('exposure', key)
                else:
                    # what can the called code reach? anything passed to it that outlives the library
                    reach = [a for a in n['a'] if a is not None and outlives(L, a)]
                    if reach:
                        if key not in done:
                            R.bad('exposure', key, f.file, n['l'], f.sig(),
                                  'calls code from `%s` while the library is still owned by this local: if the call throws, the library is unloaded although the code may already be reachable from its argument' % loc[src]['n'])
                        done.add(key)
                    else:
                        R.ok('exposure', key)
            visit(fn)
            # handing the library over
            for a in n['a']:
                m = dp(a) if a is not None else None
                if m is not None and m['k'] == 'call' and fname(m) in ('move', 'forward') and m['a']:
                    r = dp(m['a'][0])
                    if r['k'] == 'ref' and r.get('id') in loc and fn['k'] == 'mem' and fn.get('b') is not None and outlives(L, fn['b']):
                        moved.add(r['id'])
                    elif r['k'] == 'ref' and r.get('id') in loc:
                        moved.add(r['id'])
            return
        if k == 'return' and n.get('e') is not None:
            e = dp(n['e'])
            for x in walk(e):
                if x['k'] == 'ref' and x.get('id') in loc:
                    moved.add(x['id'])
        for x in n.values():
            if isinstance(x, (dict, list)):
                visit(x)

    if loc:
        visit(f.body)


def outlives(L, a):
    a = dp(a)
    r = L.place(a)
    return any(o[0] in ('R', 'M', 'S') for o in r)


def kept(P, R, f, L, LIB, HOLD):
    """calls that drop libraries from a container"""
    n_ok = 0
    for n in walk(f.body):
        if n['k'] == 'call' and n.get('f') and n['f']['k'] == 'mem' and n['f'].get('b') is not None:
            b = dp(n['f']['b'])
            if b['k'] != 'ref':
                continue
            v = L.vars.get(b.get('id')) or L.params.get(b.get('id'))
            if v is None:
                continue
            t = L.ty(v) + ' ' + (ctype(L, v) if v.get('ct') is not None else '')
            iscont = LIB.search(t) and re.search(r'\b(vector|deque|list|map|array|set)\b', t)
            if not iscont and v.get('id') in L.params:
                # a template parameter constrained to be a container of libraries
                tn = re.sub(r'[&\s]|const', '', L.ty(v))
                iscont = any(LIB.search(c) and tn in c for c in constraint(f)) or any(LIB.search(c) for c in constraint(f)) and tn.endswith('T') and 'Container' in tn
            if not iscont:
                continue
            key = '%s|%s|%s' % (f.sig().replace(' ', ''), v['n'], n['f']['n'])
            if n['f']['n'] in ('clear', 'pop_back', 'pop_front', 'erase', 'assign', 'swap'):
                R.bad('kept', key, f.file, n['l'], f.sig(), '%s() unloads libraries whose commands may still be registered' % n['f']['n'])
            else:
                R.ok('kept', key)
        elif n['k'] == 'bin' and n['op'] == '=':
            l = dp(n['lh'])
            if l is not None and l['k'] == 'ref':
                v = L.vars.get(l.get('id')) or L.params.get(l.get('id'))
                if v is not None and LIB.search(L.ty(v)) and re.search(r'\b(vector|deque|list|map)\b', L.ty(v)):
                    R.bad('kept', '%s|%s|=' % (f.sig().replace(' ', ''), v['n']), f.file, n['l'], f.sig(), 'replaces the libraries that are loaded')
