"""Lifetime analysis of one function body: which storage every reference, pointer, iterator, view or closure refers into, what
becomes of that storage (end of scope, end of full expression, reallocation, move) and which uses come afterwards.

Owners: ('L',id,name) automatic object, ('V',id,name) by-value parameter, ('T',) temporary, ('R',id,name) what a reference or view
parameter denotes, ('S',) static storage, ('M',) this object, ('H',) heap, ('U',) unknown."""
from lib import *
import re

U = frozenset([('U',)])
S = frozenset([('S',)])
M = frozenset([('M',)])
TMP = frozenset([('T',)])
H = frozenset([('H',)])
NONE = frozenset()
REC = frozenset([('X',)])

OWN = re.compile(r'\b(vector|basic_string|string|map|multimap|set|multiset|unordered_map|unordered_set|deque|list|array|Image|VolumetricImage|Cube|Histogram|'
                 r'Matrix|ostringstream|stringstream|istringstream|RGB|RGBA|RGB_DOUBLE|HSV|MultiChannel|complex|optional|variant|BMPIMAGE)\b')
VIEW = re.compile(r'\b(span|string_view|basic_string_view|iterator|const_iterator|reverse_iterator|reference_wrapper|initializer_list|mdspan|[a-z]\w*_view|subrange|views)\b|\*\s*(const)?$')
SCAL = re.compile(r'^(const\s+)?(std::)?(unsigned\s+)?(u?int\d*_t|size_t|ptrdiff_t|int|char|short|long|long long|bool|float|double|unsigned|auto int)(\s+const)?$')
# members of an owning object whose result is an lvalue inside it / a view into it
LMEM = set('at at_without_boundary_check front back top getImageData getData operator[] value get'.split())
VMEM = set('begin end cbegin cend rbegin rend crbegin crend data c_str find lower_bound upper_bound'.split())
LFREE = set('get forward move as_const forward_like'.split())
VFREE = set('begin end cbegin cend rbegin rend crbegin crend data addressof ref cref next prev ranges_begin make_move_iterator make_reverse_iterator find find_if '
            'min_element max_element lower_bound upper_bound'.split())
VCTOR = re.compile(r'\b(span|string_view|basic_string_view|reference_wrapper|subrange|ref_view)\b')
VALF = set('sqrt pow exp exp2 expm1 log log2 log10 sin cos tan asin acos atan atan2 sinh cosh tanh asinh acosh atanh abs fabs floor ceil round lround hypot fmod reduce '
           'transform_reduce accumulate inner_product count count_if all_of any_of none_of size ssize empty distance equal to_string isnan isinf real imag norm conj arg '
           'make_unique make_shared async midpoint lerp'.split())
GROW = set('push_back emplace_back insert emplace resize reserve clear erase assign shrink_to_fit push pop_back append swap'.split())
VECT = re.compile(r'^(const\s+)?(std::)?(vector|string|basic_string)\b')


def strip(t):
    return re.sub(r'\s+', ' ', t or '').strip()


def dp(e):
    while e is not None and e['k'] == 'paren':
        e = e['e']
    return e


class Life:
    def __init__(self, P, f, body=None, params=None, outer=None):
        self.P, self.f = P, f
        self.body = body if body is not None else f.body
        self.vars = {}
        self.params = {}
        self.own_ids = set()
        self.lams = []
        if outer is not None:
            self.vars.update(outer.vars)
            self.params.update(outer.params)
        for p in (f.params if params is None else params):
            self.params[p['id']] = p
            self.own_ids.add(p['id'])
        self.asg = {}
        self.collect(self.body)

    def ty(self, n, k='t'):
        return strip(self.f.tu.t(n.get(k))) if n is not None and n.get(k) is not None else ''

    def collect(self, n):
        """declarations and assignments of this body, not of the lambdas inside it (those are bodies of their own)"""
        if isinstance(n, list):
            for x in n:
                self.collect(x)
            return
        if not isinstance(n, dict):
            return
        k = n.get('k')
        if k == 'lambda':
            self.lams.append(n)
            for x in walk(n['body']):
                if x['k'] == 'bin' and x['op'] == '=':
                    self.assign(x)
            return
        if k == 'decl':
            for v in n['v']:
                if v.get('k') in ('var', 'decomp'):
                    self.vars[v['id']] = v
                    self.own_ids.add(v['id'])
                    for b in v.get('b') or []:
                        if isinstance(b, dict) and 'id' in b:
                            self.vars[b['id']] = dict(b, k='bind', of=v)
                            self.own_ids.add(b['id'])
        elif k == 'rfor':
            v = n['var']
            if isinstance(v, dict) and 'id' in v:
                self.vars[v['id']] = dict(v, rfor=n['range'])
                self.own_ids.add(v['id'])
                for b in v.get('b') or []:
                    if isinstance(b, dict) and 'id' in b:
                        self.vars[b['id']] = dict(b, k='bind', of=dict(v, rfor=n['range']))
                        self.own_ids.add(b['id'])
        elif k == 'bin' and n['op'] == '=':
            self.assign(n)
        for x in n.values():
            if isinstance(x, (dict, list)):
                self.collect(x)

    def assign(self, n):
        l = dp(n['lh'])
        if l is not None and l['k'] == 'ref' and l.get('id') is not None:
            self.asg.setdefault(l['id'], []).append(n['rh'])

    # -- types ------------------------------------------------------------------------------------------------------------
    def typ(self, e):
        """best-effort type text of an expression; '' when unknown"""
        e = dp(e)
        if e is None:
            return ''
        k = e['k']
        if k == 'ref':
            v = self.vars.get(e.get('id'))
            if v is not None:
                return self.vtype(v)
            p = self.params.get(e.get('id'))
            if p is not None:
                return re.sub(r'\s*&+$', '', self.ty(p))
            return ''
        if k == 'mem' and e.get('dk') == 'field':
            b = e.get('b')
            if (b is None or b['k'] == 'this') and self.f.d.get('cls'):
                r = self.P.recs.get(self.f.d['cls'])
                if r:
                    for fl in r[0]['fields']:
                        if fl['n'] == e['n']:
                            return strip(r[1].t(fl['t']))
            return ''
        if k in ('ctor', 'zero') and e.get('tt') is not None:
            return self.ty(e, 'tt')
        if k == 'cast':
            return re.sub(r'\s*&+$', '', self.ty(e, 'tt'))
        if k == 'call' and e.get('f'):
            f = e['f']
            nm = (f.get('q') or f.get('n') or '')
            if f['k'] == 'mem' and f.get('n') in ('getImageData', 'getData'):
                return 'std::vector<>'
            if nm.endswith('get') and f.get('ta'):
                return strip(f['ta'][0])
            if nm == 'std::move' or nm == 'std::forward' or nm == 'std::as_const':
                return self.typ(e['a'][0]) if e['a'] else ''
            rs = {strip(g.ret()) for g in self.callees(e)}
            if len(rs) == 1 and 'auto' not in list(rs)[0]:
                return re.sub(r'\s*&+$', '', rs.pop())
            ts = {rettype(self.P, g) for g in self.callees(e)}
            if ts and all(OWN.search(t) and not VIEW.search(t) for t in ts):
                return sorted(ts)[0]
            if len(ts) == 1:
                return ts.pop()
        if k == 'str':
            return 'const char *'
        return ''

    def vtype(self, v):
        t = self.ty(v)
        t0 = re.sub(r'\s*&+$', '', t)
        if re.search(r'\b(auto|decltype)\b', t0):
            if v.get('rfor') is not None or v.get('k') in ('bind', 'decomp'):
                return ''
            i = self.init(v)
            return self.typ(i) if i is not None else ''
        return t0

    def init(self, v):
        i = v.get('init')
        if i is not None and i['k'] in ('init', 'plist') and len(i.get('a', [])) == 1:
            i = i['a'][0]
        return i

    def callees(self, e):
        f = e['f']
        keys = [e['fk']] if e.get('fk') else ([f['fk']] if f.get('fk') else f.get('cands') or [])
        gs = [self.P.bykey.get(k) for k in keys]
        if not gs or any(g is None for g in gs):
            return []
        n = len(e['a'])
        gs = [g for g in gs if len(g.params) >= n or any('...' in (strip(g.tu.t(p['t'])) or '') for p in g.params)] or gs
        return gs

    def kind(self, v):
        """'ref' | 'view' | 'own' | '' (unknown) of a variable"""
        if v.get('k') == 'bind':
            t = self.ty(v['of'])
            return 'ref' if t.endswith('&') else ''
        t = self.ty(v)
        if t.endswith('&'):
            return 'ref'
        if re.search(r'\b(auto|decltype)\b', t) and not t.endswith('*'):
            if v.get('rfor') is not None:
                return ''
            i = self.init(v)
            if i is None:
                return ''
            if v['id'] in getattr(self, '_busy', ()):
                return ''
            self._busy = getattr(self, '_busy', ()) + (v['id'],)
            try:
                r = self.refs(i)
            finally:
                self._busy = self._busy[:-1]
            if r and r != U:
                return 'view'
            tt = self.typ(i)
            if tt and not VIEW.search(tt) and OWN.search(tt):
                return 'own'
            if tt and VIEW.search(tt):
                return 'view'
            return ''
        if VIEW.search(t):
            return 'view'
        if OWN.search(t) or SCAL.match(t):
            return 'own'
        return ''

    # -- storage ----------------------------------------------------------------------------------------------------------
    def base_storage(self, b, acc=''):
        """storage reached by calling an accessor on b: inside b when b owns, inside what b views when b is a view"""
        b = dp(b)
        if b is None or b['k'] == 'this':
            return M
        t = self.typ(b)
        if acc in ('getImageData', 'getData') and not (b['k'] == 'ref' and b.get('id') in self.vars and self.ty(self.vars[b['id']]).endswith('*')):
            return self.place(b)      # only owning classes have these
        if b['k'] == 'ref' and b.get('id') in self.vars:
            v = self.vars[b['id']]
            kd = self.kind(v)
            if kd == 'own':
                return self.place(b)
            if kd == 'view':
                return self.refs(b)
            if kd == 'ref':
                if t and VIEW.search(t):
                    return U
                r = self.place(b)
                return r if t and OWN.search(t) or all(o[0] in 'TLV' for o in r) and r else U
            return U
        if t and VIEW.search(t):
            return self.refs(b)
        if t and OWN.search(t):
            return self.place(b)
        r = self.place(b)
        return r if r in (M, S) or all(o[0] == 'R' for o in r) else U

    def place(self, e):
        """owners of the object a glvalue denotes ({T} for a prvalue)"""
        e = dp(e)
        if e is None:
            return U
        k = e['k']
        if k == 'ref':
            dk = e.get('dk')
            i = e.get('id')
            if dk in ('var', 'parm', 'bind', 'binding') or i in self.vars or i in self.params:
                v = self.vars.get(i)
                if v is not None:
                    if v.get('static'):
                        return S
                    kd = self.kind(v)
                    if kd == 'ref':
                        if v.get('k') == 'bind':
                            v = v['of']
                        src = v.get('rfor') if v.get('rfor') is not None else self.init(v)
                        if src is None:
                            return U
                        if v['id'] in getattr(self, '_pb', ()):
                            return U
                        self._pb = getattr(self, '_pb', ()) + (v['id'],)
                        try:
                            if v.get('rfor') is not None:
                                r = self.base_storage(src)
                            else:
                                r = self.place(src)
                            # a temporary bound directly to the reference lives as long as the reference
                            if r == TMP:
                                r = frozenset([('L', v['id'], v['n'])])
                        finally:
                            self._pb = self._pb[:-1]
                        return r
                    return frozenset([('L', i, v['n'])])
                p = self.params.get(i)
                if p is not None:
                    t = self.ty(p)
                    if t.endswith('&') or t.endswith('&...') or '&&' in t:
                        return frozenset([('R', i, p['n'])])
                    return frozenset([('V', i, p['n'])])
                return U
            if dk == 'gvar':
                return S
            return U
        if k == 'mem':
            if e.get('dk') == 'func':
                return U
            b = e.get('b')
            if b is None or b['k'] == 'this':
                t = self.typ(e)
                return U if t.endswith('&') else M
            if e.get('arrow'):
                return self.refs(b)
            return self.place(b)
        if k == 'idx':
            return self.base_storage(e['b'])
        if k == 'un' and e['op'] == '*':
            if dp(e['e']) is not None and dp(e['e'])['k'] == 'this':
                return M
            return self.refs(e['e'])
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            return self.place(e['e'])
        if k == 'pack':
            return self.place(e['e'])
        if k == 'cond':
            return self.place(e['x']) | self.place(e['y'])
        if k == 'bin' and e['op'] in ('=', '+=', '-=', '*=', '/='):
            return self.place(e['lh'])
        if k == 'bin' and e['op'] == ',':
            return self.place(e['rh'])
        if k == 'cast':
            t = self.ty(e, 'tt')
            return self.place(e['e']) if t.endswith('&') else TMP
        if k == 'str':
            return S
        if k in ('int', 'flt', 'bool', 'chr', 'ctor', 'zero', 'lambda', 'init', 'plist'):
            return TMP
        if k == 'bin':
            t = self.typ(e['lh'])
            return TMP if t and (SCAL.match(t) or OWN.search(t)) else U
        if k == 'call' and e.get('f'):
            f = e['f']
            nm = (f.get('q') or f.get('n') or '')
            last = nm.split('::')[-1]
            if f['k'] == 'mem':
                gs = self.callees(e)
                if gs:
                    rs = {strip(g.ret()) for g in gs}
                    if all(not r.endswith('&') and 'decltype' not in r for r in rs):
                        return TMP
                    if len(gs) == 1 and gs[0].body is not None:
                        return self.via_summary(e, gs[0], 'place')
                    if last not in LMEM:
                        return U
                if last in LMEM:
                    return self.base_storage(f.get('b'), last)
                return U
            if nm.startswith('std::') and last in LFREE and e['a']:
                return self.place(e['a'][0])
            if nm in ('std::min', 'std::max', 'std::clamp', 'std::ranges::min', 'std::ranges::max', 'std::ranges::clamp') and len(e['a']) >= 2 and 'ranges' not in nm:
                r = NONE
                for a in e['a'][:3 if last == 'clamp' else 2]:
                    r |= self.place(a)
                return r
            gs = self.callees(e)
            if gs:
                rs = {strip(g.ret()) for g in gs}
                if all(not r.endswith('&') and 'decltype' not in r for r in rs):
                    return TMP
                if len(gs) == 1 and gs[0].body is not None:
                    return self.via_summary(e, gs[0], 'place')
            return U
        return U

    def refs(self, e):
        """owners a view value (pointer, iterator, view, closure) refers into; {} for values that are no views"""
        e = dp(e)
        if e is None:
            return U
        k = e['k']
        if k == 'ref':
            i = e.get('id')
            v = self.vars.get(i)
            if v is not None:
                kd = self.kind(v)
                if kd == 'own':
                    t = self.ty(v)
                    return self.place(e) if t.endswith(']') else NONE
                if kd == 'view':
                    if i in getattr(self, '_rb', ()):
                        return NONE
                    self._rb = getattr(self, '_rb', ()) + (i,)
                    try:
                        r = NONE
                        init = self.init(v)
                        if init is not None:
                            r |= self.view_of(init, self.ty(v))
                        for a in self.asg.get(i, []):
                            r |= self.view_of(a, self.ty(v))
                    finally:
                        self._rb = self._rb[:-1]
                    return r or U
                if kd == 'ref':
                    return U
                i0 = self.init(v)
                if i0 is not None and i0['k'] == 'lambda':
                    return self.refs(i0)
                return U
            p = self.params.get(i)
            if p is not None:
                t = self.ty(p)
                if OWN.search(t) and not VIEW.search(t):
                    return NONE
                return frozenset([('R', i, p['n'])])
            return U
        if k == 'un' and e['op'] == '&':
            return self.place(e['e'])
        if k == 'this':
            return M
        if k == 'un' and e['op'] in ('++', '--'):
            return self.refs(e['e'])
        if k == 'bin' and e['op'] in ('+', '-'):
            r = self.refs(e['lh'])
            return r if r and r != U else U if r == U else NONE
        if k == 'bin' and e['op'] in ('*', '/', '%', '<', '>', '<=', '>=', '==', '!=', '&&', '||', '&', '^'):
            return NONE
        if k == 'un' and e['op'] in ('-', '+', '!', '~'):
            return NONE
        if k == 'bin' and e['op'] == '|':
            q = dp(e['rh'])
            src = ''
            for x in walk(q):
                if x['k'] == 'ref' and (x.get('q') or '').startswith('std::'):
                    src += x['q'] + ' '
            if 'views' in src or 'view' in src:
                l = dp(e['lh'])
                t = self.typ(l)
                if l['k'] == 'bin' and l['op'] == '|':
                    return self.refs(l)
                if t and OWN.search(t) and not VIEW.search(t):
                    r = self.place(l)
                    # an rvalue container is moved into the view, which then owns it
                    return NONE if r == TMP else r
                return U
            return U
        if k == 'cond':
            return self.refs(e['x']) | self.refs(e['y'])
        if k == 'cast':
            t = self.ty(e, 'tt')
            return self.view_of(e['e'], t) if VIEW.search(t) else NONE if SCAL.match(t) or OWN.search(t) or self.plain(t) else U
        if k == 'str':
            return S
        if k == 'new':
            return H
        if k in ('int', 'flt', 'bool', 'chr', 'null', 'zero'):
            return NONE
        if k == 'lambda':
            r = NONE
            for c in e.get('caps', []):
                if c.get('n') == 'this':
                    continue
                i = c.get('id')
                v = self.vars.get(i) or self.params.get(i)
                if v is None:
                    continue
                ref = {'k': 'ref', 'dk': 'var', 'id': i, 'n': c['n']}
                if c.get('ref'):
                    r |= self.place(ref)
                elif i in self.vars and self.kind(self.vars[i]) == 'view':
                    r |= self.refs(ref)
            return r
        if k in ('ctor',):
            t = self.ty(e, 'tt')
            if VIEW.search(t) or VCTOR.search(t):
                r = NONE
                for a in e['a'][:1]:
                    r |= self.view_of(a, t)
                return r or U
            if re.search(r'\b(pair|tuple)\b', t):
                r = NONE
                for a in e['a']:
                    r |= self.refs(a)
                return r
            return NONE if OWN.search(t) or self.plain(t) else U
        if k == 'init':
            r = NONE
            for a in e['a']:
                x = self.refs(a)
                r |= x - U
            return r or U
        if k == 'call' and e.get('f'):
            f = e['f']
            nm = (f.get('q') or f.get('n') or '')
            last = nm.split('::')[-1]
            if f['k'] == 'mem':
                gs = self.callees(e)
                if len(gs) == 1 and gs[0].body is not None:
                    return self.via_summary(e, gs[0], 'refs')
                if gs and all(self.byvalue(g) for g in gs) or last in ('size', 'empty', 'count', 'contains', 'length', 'str', 'rdbuf', 'substr', 'has_value', 'capacity', 'real', 'imag'):
                    return NONE
                if last in VMEM or re.match(r'operator .*(view|span)', f.get('n') or ''):
                    return self.base_storage(f.get('b'))
                return U
            if nm.startswith('std::'):
                if nm.startswith('std::views::') and e['a']:
                    t = self.typ(e['a'][0])
                    if t and OWN.search(t) and not VIEW.search(t):
                        r = self.place(e['a'][0])
                        return NONE if r == TMP else r
                    return U
                if last in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'data', 'crbegin', 'crend') and e['a']:
                    return self.base_storage(e['a'][0])
                if nm.startswith('std::ranges::') and last in VFREE and e['a'] and len(e['a']) < 3:
                    r = self.base_storage(e['a'][0])
                    return r
                if last in ('addressof', 'ref', 'cref') and e['a']:
                    return self.place(e['a'][0])
                if last in VFREE and e['a']:
                    return self.refs(e['a'][0])
                if last in ('make_pair', 'make_tuple', 'pair', 'tuple', 'subrange'):
                    r = NONE
                    for a in e['a']:
                        r |= self.refs(a)
                    return r
                if last in ('tie', 'forward_as_tuple'):
                    r = NONE
                    for a in e['a']:
                        r |= self.place(a)
                    return r
                if VCTOR.search(last) and e['a']:
                    return self.view_of(e['a'][0], last)
                if last in ('move', 'forward') and e['a']:
                    return self.refs(e['a'][0])
                return NONE if last in VALF else U
            gs = self.callees(e)
            if len(gs) == 1 and gs[0].body is not None:
                return self.via_summary(e, gs[0], 'refs')
            if gs and all(self.byvalue(g) for g in gs):
                return NONE
            return U
        return U

    def plain(self, t):
        r = self.P.recs.get(re.sub(r'<.*', '', t.replace('const ', '')).split('::')[-1].strip())
        return bool(r) and not any(strip(r[1].t(x['t'])).endswith('&') or VIEW.search(strip(r[1].t(x['t']))) for x in r[0]['fields'])

    def byvalue(self, g):
        rt = strip(g.ret() or '')
        if rt.endswith('&'):
            return False
        if (OWN.search(rt) or SCAL.match(rt) or self.plain(rt)) and not VIEW.search(rt):
            return True
        s = summary(self.P, g)
        return s is not None and s[0] in ('value', 'rec')

    def view_of(self, e, t):
        """what a view of type t made from e refers into"""
        e = dp(e)
        if e is None:
            return U
        if e['k'] in ('init', 'plist') and e.get('a'):
            e = dp(e['a'][0])
        if re.search(r'\b(span|string_view|basic_string_view|reference_wrapper|ref_view)\b', t):
            te = self.typ(e)
            if te and OWN.search(te) and not VIEW.search(te):
                return self.place(e)
        return self.refs(e)

    def via_summary(self, e, g, mode):
        s = summary(self.P, g)
        if s is None:
            return U
        kind, owners = s
        if kind == 'rec':
            return REC
        if kind == 'value':
            return TMP if mode == 'place' else NONE if not owners else U
        if kind == 'ref' and mode == 'refs' or kind == 'view' and mode == 'place':
            return U if mode == 'refs' else TMP
        r = NONE
        for o in owners:
            if o[0] == 'R':
                ix = [j for j, p in enumerate(g.params) if p['id'] == o[1]]
                if not ix or not e['a'] or ix[0] >= len(e['a']) and dp(e['a'][-1])['k'] != 'pack':
                    return U
                a = e['a'][min(ix[0], len(e['a']) - 1)]
                pt = strip(g.tu.t(g.params[ix[0]]['t']))
                r |= self.place(a) if pt.endswith('&') else self.view_of(a, pt)
            elif o[0] == 'M':
                b = e['f'].get('b') if e['f']['k'] == 'mem' else None
                r |= self.place(b) if b is not None and b['k'] != 'this' else M
            elif o[0] == 'S':
                r |= S
            else:
                return U
        return r or U

    # -- returns ----------------------------------------------------------------------------------------------------------
    def returns(self):
        out = []
        st = [self.body]
        while st:
            n = st.pop()
            if isinstance(n, list):
                st.extend(n)
            elif isinstance(n, dict):
                if n.get('k') == 'lambda':
                    continue
                if n.get('k') == 'return' and n.get('e') is not None:
                    out.append(n)
                st.extend(v for v in n.values() if isinstance(v, (dict, list)))
        return out

    def ret_owners(self, n, rt):
        """(kind, owners) of one return statement in a function with return type rt"""
        e = n['e']
        raw = e
        e = dp(e)
        rt = strip(rt)
        if rt.endswith('&'):
            return 'ref', self.place(e)
        if 'decltype' in rt:
            if e['k'] == 'ref' and raw['k'] == 'paren':
                return 'ref', self.place(e)
            if e['k'] in ('idx', 'un') and (e['k'] == 'idx' or e['op'] == '*') or (e['k'] == 'mem' and raw['k'] == 'paren'):
                return 'ref', self.place(e)
            if e['k'] == 'call':
                p = self.place(e)
                if p not in (TMP, U) and p:
                    return 'ref', p
            r = self.refs(e)
            return ('view', r) if r else ('value', NONE)
        r = self.refs(e)
        if OWN.search(rt) and not VIEW.search(rt) and e['k'] not in ('lambda',):
            return 'value', NONE
        if SCAL.match(rt) or self.plain(rt):
            return 'value', NONE
        return ('view', r) if r else ('value', NONE)


_sum = {}
_rt = {}


def rettype(P, g):
    """type text of what g returns, looking through auto"""
    k = (id(P), g.d.get('key'))
    if k not in _rt:
        _rt[k] = ''
        t = strip(g.ret() or '')
        if 'auto' in t:
            L = Life(P, g)
            ts = {L.typ(n['e']) for n in L.returns()}
            ts.discard('')
            t = ts.pop() if len(ts) == 1 else ''
        _rt[k] = re.sub(r'\s*&+$', '', t)
    return _rt[k]


def summary(P, g):
    """what the result of g refers into: ('ref'|'view'|'value', owners) or None when its returns differ or cannot be told"""
    k = (id(P), g.d.get('key'))
    if k in _sum:
        return _sum[k]
    _sum[k] = ('rec', NONE)    # a recursive return adds nothing to the other returns
    L = Life(P, g)
    rt = g.ret() or ''
    kinds, owners = set(), NONE
    for n in L.returns():
        kd, o = L.ret_owners(n, rt)
        if o == REC:
            continue
        kinds.add(kd)
        owners |= o - REC
    r = None
    if len(kinds) == 1:
        r = (kinds.pop(), owners)
    _sum[k] = r
    return r


# -- ordered uses: moves and reallocation ---------------------------------------------------------------------------------------

class Order:
    """structured forward walk; state: var id -> (status, node); statuses 'moved' / 'stale', and 'maybe' after a join"""

    def __init__(self, L, report):
        self.L, self.report = L, report
        self.said = set()
        self.brk, self.cont = [[]], [[]]
        self.reserved = set()
        self.n = 0
        # variables that are views/references into a vector variable, and which
        self.into = {}
        for i, v in L.vars.items():
            if i not in L.own_ids:
                continue
            kd = L.kind(v)
            if kd in ('ref', 'view') and v.get('rfor') is None and v.get('k') == 'var':
                src = L.init(v)
                root = self.elem_root(src, kd)
                if root is not None:
                    self.into[i] = root

    def elem_root(self, e, kd):
        """id of the vector variable whose elements e refers into (a reference to the vector itself is never stale)"""
        e = dp(e)
        if e is None:
            return None
        if kd == 'ref':
            if e['k'] == 'idx':
                b = dp(e['b'])
            elif e['k'] == 'call' and e.get('f') and e['f']['k'] == 'mem' and e['f'].get('n') in ('at', 'front', 'back', 'emplace_back'):
                b = dp(e['f'].get('b'))
            elif e['k'] == 'un' and e['op'] == '*':
                return self.elem_root(e['e'], 'view')
            elif e['k'] == 'mem' and not e.get('arrow') and e.get('dk') != 'func' and e.get('b') is not None:
                return self.elem_root(e['b'], kd)
            else:
                return None
        else:
            if e['k'] == 'un' and e['op'] == '&':
                return self.elem_root(e['e'], 'ref')
            if e['k'] == 'bin' and e['op'] in ('+', '-'):
                return self.elem_root(e['lh'], 'view')
            if e['k'] == 'call' and e.get('f') and e['f']['k'] == 'mem' and e['f'].get('n') in VMEM:
                b = dp(e['f'].get('b'))
            elif e['k'] == 'call' and e.get('f') and (e['f'].get('q') or '').startswith('std::') and e['f']['q'].split('::')[-1] in VMEM and e['a']:
                b = dp(e['a'][0])
            else:
                return None
        if b is not None and b['k'] == 'ref' and (b.get('id') in self.L.vars or b.get('id') in self.L.params):
            if VECT.match(self.L.typ(b)):
                return b['id']
        return None

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        r = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if x and y and x[0] == y[0]:
                r[k] = x
            elif x or y:
                r[k] = ('maybe', (x or y)[1])
        return r

    def run(self):
        self.stmt(self.L.body, {})

    def stmt(self, n, st):
        if n is None or st is None:
            return st
        k = n['k']
        if k == 'block':
            for s in n['s']:
                st = self.stmt(s, st)
                if st is None:
                    return None
            return st
        if k == 'omp':
            return self.stmt(n.get('body'), st)
        if k == 'decl':
            for v in n['v']:
                if v.get('init') is not None:
                    st = self.expr(v['init'], st)
                if 'id' in v:
                    st = dict(st)
                    st.pop(v['id'], None)
            return st
        if k == 'if':
            if n.get('init'):
                st = self.stmt(n['init'], st) if n['init']['k'] in ('decl', 'block') else self.expr(n['init'], st)
            if n.get('v'):
                st = self.stmt(n['v'], st) if isinstance(n['v'], dict) and n['v'].get('k') == 'decl' else st
            st = self.expr(n['c'], st)
            a = self.stmt(n.get('x'), dict(st))
            b = self.stmt(n.get('y'), dict(st)) if n.get('y') is not None else st
            return self.join(a, b)
        if k in ('for', 'while', 'do', 'rfor'):
            if n.get('init') is not None and k == 'for':
                i = n['init']
                st = self.stmt(i, st) if i['k'] in ('decl', 'block') else self.expr(i, st)
            if k == 'rfor':
                st = self.expr(n['range'], st)
            entry = st
            out = st if k != 'do' else None
            cur = st
            for _ in range(2):
                if cur is None:
                    break
                if n.get('c') is not None and k != 'do':
                    cur = self.expr(n['c'], cur)
                self.brk.append([])
                self.cont.append([])
                cur = self.stmt(n.get('body'), dict(cur))
                for s in self.cont.pop():
                    cur = self.join(cur, s)
                for s in self.brk.pop():
                    out = self.join(out, s)
                if cur is None:
                    break
                if n.get('inc') is not None:
                    cur = self.expr(n['inc'], cur)
                if k == 'do' and n.get('c') is not None:
                    cur = self.expr(n['c'], cur)
                # after the loop: what one or more iterations did holds on a feasible path; what they undid may not have happened
                o = dict(cur)
                for x, y in (out or {}).items():
                    if x not in o:
                        o[x] = ('maybe', y[1])
                    elif y[0] != 'maybe':
                        o[x] = y
                out = o
            return out
        if k == 'switch':
            st = self.expr(n['c'], st)
            self.brk.append([])
            out = None
            items = n['body']['s'] if n['body'] and n['body']['k'] == 'block' else [n['body']]
            cur = None
            for it in items:
                while it is not None and it['k'] in ('case', 'default'):
                    cur = self.join(cur, dict(st))
                    it = it['s']
                if cur is not None:
                    cur = self.stmt(it, cur)
            out = self.join(cur, st)
            for s in self.brk.pop():
                out = self.join(out, s)
            return out
        if k == 'break':
            self.brk[-1].append(st)
            return None
        if k == 'continue':
            self.cont[-1].append(st)
            return None
        if k in ('return', 'throw'):
            if n.get('e') is not None:
                self.expr(n['e'], st)
            return None
        if k == 'try':
            a = self.stmt(n['body'], dict(st))
            for h in n.get('h') or []:
                a = self.join(a, self.stmt(h['body'], {x: ('maybe', y[1]) for x, y in st.items()}))
            return a
        if k in ('label', 'goto', 'unk', 'asm'):
            return {x: ('maybe', y[1]) for x, y in st.items()}
        return self.expr(n, st)

    def expr(self, e, st):
        """uses first, then what the expression moves, assigns or reallocates"""
        if e is None:
            return st
        if e['k'] in ('bin',) and e['op'] in ('&&', '||', ','):
            st = self.expr(e['lh'], st)
            b = self.expr(e['rh'], dict(st))
            return b if e['op'] == ',' else self.join(st, b)
        if e['k'] == 'cond':
            st = self.expr(e['c'], st)
            return self.join(self.expr(e['x'], dict(st)), self.expr(e['y'], dict(st)))
        moved, killed, stale = [], set(), []
        self.scan(e, st, moved, killed, stale, False)
        st = dict(st)
        for i, n in moved:
            st[i] = ('moved', n)
        for i, n in stale:
            if i in self.reserved:
                continue
            for v, root in self.into.items():
                if root == i and v not in killed:
                    st[v] = ('stale', n)
        for i in killed:
            st.pop(i, None)
        return st

    def scan(self, e, st, moved, killed, stale, inlam):
        if isinstance(e, list):
            for x in e:
                self.scan(x, st, moved, killed, stale, inlam)
            return
        if not isinstance(e, dict):
            return
        k = e.get('k')
        if k is None:
            for x in e.values():
                if isinstance(x, (dict, list)):
                    self.scan(x, st, moved, killed, stale, inlam)
            return
        if k in ('sizeof', 'trait', 'requires'):
            return
        if k == 'lambda':
            for c in e.get('caps', []):
                if c.get('init') is not None:
                    self.scan(c['init'], st, moved, killed, stale, inlam)
                elif not c.get('ref'):
                    self.use(c.get('id'), st, e)
            return
        if k == 'bin' and e['op'] == '=':
            self.scan(e['rh'], st, moved, killed, stale, inlam)
            l = dp(e['lh'])
            if l is not None and l['k'] == 'ref' and l.get('id') is not None:
                v = self.L.vars.get(l['id'])
                if v is not None and self.L.kind(v) == 'ref':
                    self.use(l['id'], st, e)
                killed.add(l['id'])
                if VECT.match(self.L.typ(l)):
                    stale.append((l['id'], e))
            else:
                self.scan(e['lh'], st, moved, killed, stale, inlam)
            return
        if k == 'bin' and e['op'] == '>>' and dp(e['rh']) is not None and dp(e['rh'])['k'] == 'ref':
            self.scan(e['lh'], st, moved, killed, stale, inlam)
            i = dp(e['rh']).get('id')
            if (st.get(i) or ('',))[0] == 'moved':
                killed.add(i)
            else:
                self.use(i, st, e)
            return
        if k == 'call' and e.get('f'):
            f = e['f']
            q = f.get('q') or f.get('n') or ''
            if q == 'std::move' and len(e['a']) == 1:
                a = dp(e['a'][0])
                if a is not None and a['k'] == 'ref' and a.get('id') is not None:
                    self.use(a['id'], st, e)
                    if not SCAL.match(self.L.typ(a)):
                        moved.append((a['id'], e))
                    return
            if q.split('::')[-1] == 'getline' and len(e['a']) > 1 and dp(e['a'][1]) is not None and dp(e['a'][1])['k'] == 'ref':
                killed.add(dp(e['a'][1]).get('id'))
                return
            if q in ('std::exchange', 'std::swap', 'swap') and e['a']:
                a = dp(e['a'][0])
                if a is not None and a['k'] == 'ref':
                    killed.add(a.get('id'))
                    self.scan(e['a'][1:], st, moved, killed, stale, inlam)
                    return
            if f['k'] == 'mem':
                b = dp(f.get('b'))
                if b is not None and b['k'] == 'ref' and b.get('id') is not None:
                    if f['n'] == 'reserve':
                        self.reserved.add(b['id'])
                    if f['n'] in ('clear', 'assign', 'reset', 'emplace', 'swap', 'resize'):
                        s = st.get(b['id'])
                        if s is not None and s[0] == 'moved':
                            killed.add(b['id'])
                            self.scan(e['a'], st, moved, killed, stale, inlam)
                            return
                    if f['n'] in GROW and f['n'] != 'reserve' and VECT.match(self.L.typ(b)):
                        stale.append((b['id'], e))
                        if f['n'] in ('erase', 'pop_back', 'clear'):
                            pass
            # a callee that takes the moved argument by const reference or lvalue reference does not consume it
            gs = self.L.callees(e)
            if gs:
                for j, a in enumerate(e['a']):
                    a1 = dp(a)
                    mv = []
                    if a1 is not None and a1['k'] == 'call' and a1.get('f') and (a1['f'].get('q') or '') == 'std::move':
                        self.scan(a1, st, mv, killed, stale, inlam)
                        if all(j < len(g.params) and re.match(r'const\b.*[^&]&$', strip(g.tu.t(g.params[j]['t']))) for g in gs):
                            mv = []
                        moved.extend(mv)
                    else:
                        self.scan(a, st, moved, killed, stale, inlam)
                self.scan(f, st, moved, killed, stale, inlam)
                return
        if k == 'ref':
            self.use(e.get('id'), st, e)
            return
        for x in e.values():
            if isinstance(x, (dict, list)):
                self.scan(x, st, moved, killed, stale, inlam)

    def use(self, i, st, n):
        if i is None:
            return
        s = st.get(i)
        if s is None or s[0] == 'maybe':
            return
        key = (i, s[0])
        if key in self.said:
            return
        self.said.add(key)
        self.report(s[0], i, s[1], n)
