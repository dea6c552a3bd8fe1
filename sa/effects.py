"""Syntax-level effect analysis: which variables (parameters, statics, globals, fields) a function body may modify, directly
or through references, pointers, iterators and casts derived from them."""
from lib import *
import re

MUT = set('push_back emplace_back pop_back clear resize insert erase assign swap fill emplace insert_or_assign push_front pop_front '
          'reset merge extract shrink_to_fit append replace store exchange fetch_add fetch_sub try_emplace push pop seed setAllValue sort reverse'.split())
# members whose result is (a path to) storage of the object
ACC = set('at at_without_boundary_check set begin end rbegin rend data front back getImageData find value get top second first'.split())
STDM = set('swap iota sort fill fill_n stable_sort shuffle partial_sort nth_element generate generate_n reverse rotate exchange replace replace_if remove remove_if unique random_shuffle getline advance'.split())
OUTLAST = set('copy copy_n copy_if move transform partial_sum inclusive_scan exclusive_scan adjacent_difference'.split())
FWD = set('begin end cbegin cend data forward ref as_const get addressof rbegin rend span subrange next prev'.split())


def deparen(e):
    while e is not None and e['k'] in ('paren',):
        e = e['e']
    return e


class Effects:
    """mutations of one function body: list of (root, node, how); root = ('v', id) | ('f', name) | ('g', name) | ('this',)"""

    def __init__(self, P, f, node=None):
        self.P, self.f = P, f
        self.alias = {}
        self.muts = []
        self.moves = []
        self.casts = []
        node = node or f.body
        for _ in range(2):
            for n in walk(node):
                self.decl(n)
        for n in walk(node):
            self.effect(n)

    def ty(self, n, k='t'):
        return self.f.tu.t(n.get(k)) if n.get(k) is not None else ''

    def decl(self, n):
        if n['k'] == 'decl':
            for v in n['v']:
                if v.get('k') != 'var' or v.get('init') is None:
                    continue
                t = (self.ty(v) or '').strip()
                ct = self.ty(v, 'ct') or t
                if v.get('static'):
                    continue
                i = v['init']
                if i['k'] in ('init', 'plist') and len(i.get('a', [])) == 1:
                    i = i['a'][0]
                if i['k'] == 'cast' and t in ('auto', 'auto *') and i.get('tt') is not None:
                    t = (self.ty(i, 'tt') or t).strip()
                if t.endswith('&') or t.endswith('&&') or '*' in t or '*' in ct or 'iterator' in ct or 'span' in ct or 'view' in ct or self.iterish(i):
                    if re.search(r'\bconst\b', re.sub(r'\*\s*const$', '', t)) and not ('*' in t and t.rstrip().endswith('const') and t.count('const') == 1):
                        continue
                    r = self.roots(i)
                    if r:
                        self.alias.setdefault(v['id'], set()).update(r)
        elif n['k'] == 'rfor':
            v = n.get('v') or n.get('var')
            if isinstance(v, dict):
                t = (self.ty(v) or '').strip()
                if t.endswith('&') and 'const' not in t and n.get('r') is not None:
                    for x in [v] + list(v.get('b', []) if isinstance(v.get('b'), list) else []):
                        if isinstance(x, dict) and 'id' in x:
                            self.alias.setdefault(x['id'], set()).update(self.roots(n['r']))

    def iterish(self, i):
        i = deparen(i)
        if i is None or i['k'] != 'call' or not i.get('f'):
            return False
        return i['f'].get('n') in ('begin', 'end', 'data', 'rbegin', 'rend') or (i['f'].get('q') or '').split('::')[-1] in ('begin', 'end', 'data')

    def roots(self, e):
        """storage an lvalue (or pointer/iterator/view) expression may denote"""
        e = deparen(e)
        if e is None:
            return set()
        k = e['k']
        if k == 'ref':
            dk = e.get('dk')
            if dk in ('var', 'parm', 'bind'):
                a = self.alias.get(e.get('id'))
                return set(a) if a else {('v', e.get('id'))}
            if dk == 'gvar':
                return {('g', (e.get('q') or e['n']).split('::')[-1])}
            return set()
        if k == 'mem':
            b = e.get('b')
            if e.get('dk') == 'func':
                return set()
            if b is None or b['k'] == 'this':
                return {('f', e['n'])}
            return self.roots(b)
        if k == 'idx':
            return self.roots(e['b'])
        if k == 'un' and e.get('op') in ('*', '&', '++', '--'):
            return self.roots(e['e'])
        if k == 'cast':
            return self.roots(e['e'])
        if k == 'cond':
            return self.roots(e['x']) | self.roots(e['y'])
        if k == 'this':
            return {('this',)}
        if k == 'bin' and e['op'] in ('+', '-'):
            t = self.ty(e) or ''
            return self.roots(e['lh']) if ('*' in t or 'iterator' in t or self.iterish(e['lh'])) else set()
        if k == 'bin' and e['op'] in ('=', '+=', '-='):
            return self.roots(e['lh'])
        if k == 'call' and e.get('f'):
            f = e['f']
            if f['k'] == 'mem' and f.get('n') in ACC:
                b = f.get('b')
                return self.roots(b) if b is not None else {('this',)}
            nm = (f.get('q') or f.get('n') or '').split('::')[-1]
            if nm in FWD and e['a'] and e['a'][0] is not None:
                return self.roots(e['a'][0])
            if nm == 'move' and len(e['a']) == 1:
                return self.roots(e['a'][0])
        return set()

    def add(self, rs, n, how):
        for r in rs:
            self.muts.append((r, n, how))

    def effect(self, n):
        k = n['k']
        if k == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
            self.add(self.lhs(n['lh']), n, 'assigned')
        elif k == 'un' and n.get('op') in ('++', '--'):
            self.add(self.lhs(n['e']), n, 'assigned')
        elif k == 'call' and n.get('f'):
            f = n['f']
            if f['k'] == 'mem':
                b = f.get('b')
                rs = self.roots(b) if b is not None and b['k'] != 'this' else ({('this',)} if b is not None or f.get('dk') == 'func' else set())
                g = self.P.bykey.get(n.get('fk') or f.get('fk') or '')
                if f.get('n') in MUT and not (g is not None and g.d.get('const')):
                    self.add(rs, n, 'modified by %s()' % f['n'])
            else:
                nm = (f.get('q') or f.get('n') or '').split('::')[-1]
                q = f.get('q') or ''
                if q.startswith('std::') or q in STDM:
                    if nm in STDM:
                        for a in n['a']:
                            if a is not None:
                                self.add(self.ptr(a), n, 'modified by std::%s' % nm)
                    elif nm in OUTLAST and len(n['a']) >= 3:
                        for a in n['a'][2:]:
                            if a is not None:
                                self.add(self.ptr(a), n, 'written by std::%s' % nm)
                    if nm == 'move' and len(n['a']) == 1 and n['a'][0] is not None:
                        for r in self.roots(n['a'][0]):
                            self.moves.append((r, n))
                else:
                    for key in ([n['fk']] if n.get('fk') else f.get('cands') or ([f['fk']] if f.get('fk') else [])):
                        g = self.P.bykey.get(key)
                        if g is None or g.body is None:
                            continue
                        for i, p in enumerate(g.params):
                            if i < len(n['a']) and n['a'][i] is not None and i in mutated_params(self.P, g):
                                self.add(self.roots(n['a'][i]), n, 'modified by %s' % g.name)
        if k == 'cast' and n.get('ck') in ('const', 'c', 'reinterpret'):
            self.casts.append(n)

    def lhs(self, e):
        """what an assignment to e modifies: assigning to a pointer or iterator itself does not modify what it points to"""
        e = deparen(e)
        if e is not None and e['k'] == 'ref' and e.get('dk') in ('var', 'parm'):
            t = self.ty(e) or ''
            if '*' in t or 'iterator' in t or (e.get('id') in self.alias and e.get('id') in self.ptrs()):
                return {('v', e['id'])}
        return self.roots(e)

    def ptrs(self):
        if not hasattr(self, '_ptrs'):
            self._ptrs = set()
            for n in walk(self.f.body):
                if n['k'] == 'decl':
                    for v in n['v']:
                        t = (self.ty(v) or '').strip()
                        if v.get('k') == 'var' and not t.endswith('&'):
                            self._ptrs.add(v.get('id'))
        return self._ptrs

    def ptr(self, a):
        return self.roots(a)


_mp = {}


def mutated_params(P, g):
    """indices of the non-const reference parameters of g that its body modifies"""
    key = (id(P), g.key if hasattr(g, 'key') else g.d.get('key'))
    if key in _mp:
        return _mp[key]
    _mp[key] = set()
    ids = {}
    for i, p in enumerate(g.params):
        t = g.ptype(i).strip()
        if t.endswith('&') and 'const' not in t.split('&')[0].split('<')[0]:
            ids[p['id']] = i
    if not ids:
        return _mp[key]
    E = Effects(P, g)
    _mp[key] = {ids[r[1]] for r, n, h in E.muts if r[0] == 'v' and r[1] in ids}
    return _mp[key]
