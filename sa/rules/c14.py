"""C14: the interactive workspace is a table of named variables, accessed only under its mutex.

lock      lockset analysis: every access to a field of a class that carries a mutex happens while that object's mutex is held
nesting   no call made while the mutex is held acquires it again
table     abstract interpretation of the workspace operations over a finite symbolic table (every aliasing of the names, present
          and absent): each operation changes exactly the entry it names
"""
from lib import *
from lifetime import Life, dp, strip
import re

TUS = ['main']
MIN = {'lock': 8, 'nesting': 6, 'table': 10}
MUTEX = re.compile(r'\b(std::)?(recursive_|shared_|timed_)?mutex\b')
GUARD = re.compile(r'\b(lock_guard|scoped_lock|unique_lock|shared_lock)\b')


def guarded_records(P):
    out = {}
    for r, tu in P.reclist:
        if not r['file'].startswith('main'):
            continue
        ms = [f['n'] for f in r['fields'] if MUTEX.search(strip(tu.t(f['t'])))]
        if ms:
            out[r['n']] = (set(ms), {f['n'] for f in r['fields'] if f['n'] not in ms and 'atomic' not in strip(tu.t(f['t'])) and 'condition_variable' not in strip(tu.t(f['t']))})
    return out


def objkey(e):
    """the object a member expression belongs to"""
    e = dp(e)
    while e is not None and (e['k'] == 'un' and e['op'] in ('*', '->', '&') or e['k'] == 'call' and e.get('f') and e['f']['k'] == 'mem' and e['f'].get('n') in ('get', 'operator->', 'operator*')):
        e = dp(e['e']) if e['k'] == 'un' else dp(e['f'].get('b'))
    if e is None or e['k'] == 'this':
        return 'this'
    if e['k'] == 'ref' and e.get('id') is not None:
        return ('v', e['id'])
    if e['k'] == 'mem':
        b = objkey(e.get('b'))
        return (b, e['n']) if b is not None else None
    return None


class Locks:
    """structured walk with the set of objects whose mutex is held"""

    def __init__(self, P, f, recs):
        self.P, self.f, self.recs = P, f, recs
        self.cls = f.d.get('cls')
        self.acc = []      # (objkey, field, node, held)
        self.calls = []    # (objkey, callee name, node, held)
        self.acquires = []  # (objkey, node, held)
        self.names = {}
        for c, (ms, fs) in recs.items():
            for m in ms:
                self.names[m] = 'mutex'
            for x in fs:
                self.names.setdefault(x, 'field')
        self.guards = {}    # guard variable id -> objkeys
        self.views = {}     # view variable id -> objkey of the table it points into
        self.L = Life(P, f)
        self.stmt(f.body, frozenset())

    def is_rec(self, e, name):
        """is this member expression a member of a guarded record?"""
        b = dp(e.get('b'))
        if b is None or b['k'] == 'this':
            return self.cls in self.recs and name in self.recs[self.cls][0] | self.recs[self.cls][1]
        i = objkey(b)
        if isinstance(i, tuple) and i[0] == 'v':
            v = self.L.vars.get(i[1]) or self.L.params.get(i[1])
            t = strip(self.f.tu.t(v.get('ct') if v.get('ct') is not None else v.get('t'))) if v else ''
            t += ' ' + (self.L.ty(v) if v else '')
            for c, (ms, fs) in self.recs.items():
                if re.search(r'\b%s\b' % c, t):
                    return name in ms | fs
            return name in self.names and bool(re.search(r'auto|[A-Z]\w*T\b', t)) and len(name) > 3
        return False

    def mutexes(self, e):
        out = []
        for n in walk(e):
            if n['k'] == 'mem' and self.names.get(n.get('n')) == 'mutex' and self.is_rec(n, n['n']):
                out.append(objkey(n.get('b')))
        return out

    def stmt(self, n, held):
        """returns the held set after n (within the same scope)"""
        if n is None:
            return held
        k = n['k']
        if k == 'block':
            h = held
            for s in n['s']:
                h = self.stmt(s, h)
            # guards declared in the block release at its end; explicit lock()/unlock() persists
            return self.after(held, h, n)
        if k == 'decl':
            for v in n['v']:
                held = self.expr(v.get('init'), held)
                t = self.L.ty(v)
                tt = strip(self.f.tu.t(v['ct'])) if v.get('ct') is not None else ''
                if GUARD.search(t + ' ' + tt):
                    ms = self.mutexes(v.get('init')) if v.get('init') is not None else []
                    deferred = any(x['k'] == 'ref' and x.get('n') in ('defer_lock', 'try_to_lock') for x in walk(v['init'])) if v.get('init') is not None else False
                    self.guards[v['id']] = ms
                    if not deferred:
                        for m in ms:
                            self.acquires.append((m, v, held))
                            held = held | {m}
                elif v.get('init') is not None and 'id' in v:
                    self.view(v['id'], v['init'], v)
                    if v.get('k') == 'decomp':
                        for b in v.get('b') or []:
                            if isinstance(b, dict) and 'id' in b and v['id'] in self.views:
                                self.views[b['id']] = self.views[v['id']]
            return held
        if k == 'if':
            h = held
            if n.get('init') is not None:
                h = self.stmt(n['init'], h)
            h = self.expr(n['c'], h)
            a = self.stmt(n.get('x'), h)
            b = self.stmt(n.get('y'), h) if n.get('y') is not None else h
            return held & a & b | (a & b if held <= a & b else frozenset()) if not n.get('init') else held
        if k in ('for', 'while', 'do', 'rfor'):
            h = held
            if n.get('init') is not None:
                h = self.stmt(n['init'], h) if n['init']['k'] in ('decl', 'block') else self.expr(n['init'], h)
            if k == 'rfor':
                h = self.expr(n['range'], h)
                v = n['var']
                if isinstance(v, dict) and 'id' in v and strip(self.f.tu.t(v['t']) if v.get('t') is not None else '').endswith('&'):
                    self.view(v['id'], n['range'], v, True)
                    for b in v.get('b') or []:
                        if isinstance(b, dict) and 'id' in b and v['id'] in self.views:
                            self.views[b['id']] = self.views[v['id']]
            if n.get('c') is not None:
                self.expr(n['c'], h)
            self.stmt(n.get('body'), h)
            if n.get('inc') is not None:
                self.expr(n['inc'], h)
            return held
        if k == 'switch':
            h = self.expr(n['c'], held)
            self.stmt(n.get('body'), h)
            return held
        if k in ('case', 'default', 'label'):
            return self.stmt(n.get('s'), held)
        if k == 'try':
            self.stmt(n['body'], held)
            for h in n.get('h') or []:
                self.stmt(h['body'], held)
            return held
        if k == 'omp':
            return self.stmt(n.get('body'), held)
        if k in ('return', 'throw'):
            self.expr(n.get('e'), held)
            return held
        return self.expr(n, held)

    def after(self, before, inside, block):
        declared = set()
        for s in block['s']:
            if s is not None and s['k'] == 'decl':
                for v in s['v']:
                    for m in self.guards.get(v.get('id'), []):
                        declared.add(m)
        return frozenset(x for x in inside if x in before or x not in declared)

    def view(self, i, init, v, loop=False):
        """does the variable point into a guarded table?"""
        flds = [n for n in walk(init) if n['k'] == 'mem' and self.names.get(n.get('n')) == 'field' and self.is_rec(n, n['n'])]
        if not flds:
            return
        if loop or self.L.ty(v).endswith('&'):
            self.views[i] = objkey(flds[0].get('b'))
            return
        e = dp(init)
        if e['k'] == 'call' and e.get('f') and e['f']['k'] == 'mem' and e['f'].get('n') in ('find', 'begin', 'end', 'cbegin', 'lower_bound', 'upper_bound') or e['k'] == 'un' and e['op'] == '&':
            self.views[i] = objkey(flds[0].get('b'))

    def expr(self, e, held):
        if e is None:
            return held
        if e['k'] == 'lambda':
            h = held
            self.stmt(e['body'], h)
            return held
        if e['k'] == 'mem' and self.names.get(e.get('n')) == 'field' and e.get('dk') in ('field', 'dep') and self.is_rec(e, e['n']):
            self.acc.append((objkey(e.get('b')), e['n'], e, held))
        if e['k'] == 'ref' and e.get('id') in self.views:
            self.acc.append((self.views[e['id']], e['n'], e, held))
        if e['k'] == 'call' and e.get('f') and e['f']['k'] == 'mem':
            f = e['f']
            b = dp(f.get('b'))
            if b is not None and b['k'] == 'mem' and self.names.get(b.get('n')) == 'mutex' and self.is_rec(b, b['n']):
                o = objkey(b.get('b'))
                if f['n'] in ('lock', 'lock_shared'):
                    self.acquires.append((o, e, held))
                    return held | {o}
                if f['n'] in ('unlock', 'unlock_shared'):
                    return held - {o}
            if b is not None and b['k'] == 'ref' and b.get('id') in self.guards:
                if f['n'] == 'unlock':
                    return held - set(self.guards[b['id']])
                if f['n'] == 'lock':
                    for m in self.guards[b['id']]:
                        self.acquires.append((m, e, held))
                    return held | set(self.guards[b['id']])
            self.calls.append((objkey(f.get('b')), f.get('n'), e, held))
        elif e['k'] == 'call' and e.get('f'):
            self.calls.append((None, (e['f'].get('q') or e['f'].get('n') or ''), e, held))
        if e['k'] == 'bin' and e['op'] == '=':
            l = dp(e['lh'])
            if l is not None and l['k'] == 'ref' and l.get('id') is not None:
                v = self.L.vars.get(l['id'])
                if v is not None:
                    self.view(l['id'], e['rh'], v)
        for x in e.values():
            if isinstance(x, dict) and 'k' in x:
                held = self.expr(x, held) if x['k'] not in ('block', 'decl', 'if', 'for', 'while', 'return') else self.stmt(x, held)
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, dict) and 'k' in y:
                        held = self.expr(y, held)
        return held


def run(P, R):
    R.rule('lock', 'every access to a member of a class with a mutex, or through an iterator or reference into such a member, happens while the mutex of that object is held (helpers are charged to their callers)')
    R.rule('nesting', 'while the mutex is held, nothing that is called on the same object acquires it again')
    R.rule('table', 'store, retrieve, remove, rename and clear change and report exactly the entry they name, for equal and different, present and absent names, under one normalisation of names')
    recs = guarded_records(P)
    if not recs:
        R.unknown('lock', 'no class with a mutex')
        return
    info = {}
    for f in P.funcs:
        if f.body is None or not f.file.startswith('main'):
            continue
        info[f] = Locks(P, f, recs)
    # call sites by callee
    sites = {}
    for f, I in info.items():
        for o, n, e, held in I.calls:
            keys = [e.get('fk')] if e.get('fk') else ([e['f']['fk']] if e['f'].get('fk') else e['f'].get('cands') or [])
            for k in keys:
                sites.setdefault(k, []).append((f, o, e, held))
            if not keys and e['f']['k'] == 'mem':
                for g in info:
                    if g.name == n and g.d.get('cls') in recs:
                        sites.setdefault(g.d['key'], []).append((f, o, e, held))

    def objparam(f, o):
        """objkey -> 'this' / parameter index / None"""
        if o == 'this':
            return 'this'
        if isinstance(o, tuple) and o[0] == 'v':
            for i, p in enumerate(f.params):
                if p['id'] == o[1]:
                    return i
            return None
        return 'other'

    def covered(f, o, depth=0):
        """every call of f happens with the lock on the corresponding object held"""
        w = objparam(f, o)
        ss = sites.get(f.d['key'], [])
        if not ss or depth > 4 or w is None or w == 'other':
            return False
        for g, oo, e, held in ss:
            if w == 'this':
                t = oo
            else:
                t = objkey(e['a'][w]) if w < len(e['a']) and e['a'][w] is not None else None
            if t in held:
                continue
            if g is f or covered(g, t, depth + 1):
                continue
            return False
        return True

    for f, I in info.items():
        if f.kind == 'ctor' or f.name.startswith('~'):
            continue
        seen = set()
        for o, n, e, held in I.acc:
            w = objparam(f, o)
            if o is None or w is None and not borrowed(I, o):
                continue
            key = '%s|%s' % (f.sig().replace(' ', ''), n)
            if o in held:
                if key not in seen:
                    R.ok('lock', key)
                    seen.add(key)
                continue
            if covered(f, o):
                R.ok('lock', key)
                continue
            R.bad('lock', key, f.file, e['l'], f.sig(), 'accesses `%s` without holding the mutex of the object it belongs to' % n)
    # nesting
    acq = {}

    def acquires(f, depth=0):
        if f in acq:
            return acq[f]
        acq[f] = set()
        I = info.get(f)
        if I is None:
            return acq[f]
        out = {objparam(f, o) for o, n, h in I.acquires}
        for o, n, e, held in I.calls:
            for g in callees(P, info, recs, e, n):
                for w in acquires(g, depth + 1):
                    if w == 'this':
                        out.add(objparam(f, o))
                    elif isinstance(w, int) and w < len(e['a']) and e['a'][w] is not None:
                        out.add(objparam(f, objkey(e['a'][w])))
        out.discard(None)
        out.discard('other')
        acq[f] = out
        return out

    for f, I in info.items():
        for o, n, h in I.acquires:
            key = '%s|%s' % (f.sig().replace(' ', ''), 'acquire')
            if o in h:
                R.bad('nesting', key, f.file, n['l'], f.sig(), 'locks a mutex it already holds')
            else:
                R.ok('nesting', key)
        for o, n, e, held in I.calls:
            if not held:
                continue
            key = '%s|%s' % (f.sig().replace(' ', ''), n)
            for g in callees(P, info, recs, e, n):
                bad = None
                for w in acquires(g):
                    t = o if w == 'this' else objkey(e['a'][w]) if isinstance(w, int) and w < len(e['a']) and e['a'][w] is not None else None
                    if t in held:
                        bad = g
                if bad:
                    R.bad('nesting', key, f.file, e['l'], f.sig(), 'calls %s, which locks the same mutex again, while holding it' % bad.name)
                elif acquires(g):
                    R.ok('nesting', key)
    for c in recs:
        table(P, R, c, info)


def borrowed(I, o):
    """is this local a reference or pointer (to an object someone else may use), rather than an object of its own?"""
    if not (isinstance(o, tuple) and o[0] == 'v'):
        return False
    v = I.L.vars.get(o[1])
    if v is None:
        return False
    t = I.L.ty(v)
    return t.endswith('&') or t.endswith('*')


def callees(P, info, recs, e, n):
    keys = [e.get('fk')] if e.get('fk') else ([e['f']['fk']] if e['f'].get('fk') else e['f'].get('cands') or [])
    gs = [P.bykey[k] for k in keys if k in P.bykey and P.bykey[k] in info]
    if not keys and e['f']['k'] == 'mem':
        gs = [g for g in info if g.name == n and g.d.get('cls') in recs]
    return gs


# -- the table -----------------------------------------------------------------------------------------------------------------

class Give(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Tab:
    """evaluates one workspace operation on a concrete-shaped symbolic table: dict key term -> value term"""

    def __init__(self, P, f, fields, table, env, same):
        self.P, self.f, self.fields = P, f, fields
        self.table = dict(table)
        self.cls = f.d.get('cls')
        self.same = same        # canonical representative of key terms
        self.env = dict(env)
        self.steps = 0

    def is_table(self, e):
        e = dp(e)
        return e is not None and e['k'] == 'mem' and e.get('n') in self.fields and (e.get('b') is None or dp(e['b'])['k'] == 'this')

    def key(self, v):
        if not (isinstance(v, tuple) and v[0] in ('name', 'norm', 'sym')):
            raise Give()
        return self.same(v)

    def block(self, n):
        self.steps += 1
        if self.steps > 400:
            raise Give()
        if n is None:
            return
        k = n['k']
        if k == 'block':
            for s in n['s']:
                self.block(s)
        elif k == 'decl':
            for v in n['v']:
                t = strip(self.f.tu.t(v.get('t'))) if v.get('t') is not None else ''
                if GUARD.search(t) or GUARD.search(strip(self.f.tu.t(v['ct'])) if v.get('ct') is not None else ''):
                    continue
                if v.get('k') != 'var':
                    raise Give()
                i = v.get('init')
                if i is not None and i['k'] in ('init', 'plist') and len(i['a']) == 1:
                    i = i['a'][0]
                self.env[v['id']] = self.ev(i) if i is not None else ('none',)
        elif k == 'if':
            if n.get('init') is not None:
                self.block(n['init'])
            c = self.truth(self.ev(n['c']))
            self.block(n['x'] if c else n.get('y'))
        elif k == 'return':
            raise Ret(self.ev(n['e']) if n.get('e') is not None else None)
        elif k == 'throw':
            raise Ret(('throw',))
        else:
            self.ev(n)

    def truth(self, v):
        if v is True or v is False:
            return v
        if isinstance(v, tuple) and v[0] == 'ptr':
            return v[1] is not None
        raise Give()

    def ev(self, e):
        e = dp(e)
        if e is None:
            raise Give()
        k = e['k']
        if k == 'ref':
            if e.get('id') in self.env:
                return self.env[e['id']]
            if e.get('n') == 'nullopt':
                return ('nullopt',)
            raise Give()
        if k == 'bool':
            return bool(e['v'])
        if k == 'int':
            return int(e['v'])
        if k == 'null':
            return ('ptr', None)
        if k in ('ctor', 'cast'):
            a = e['a'] if k == 'ctor' else [e['e']]
            if len(a) == 1:
                return self.ev(a[0])
            if len(a) == 0:
                return ('empty',)
            raise Give()
        if k == 'init' and len(e['a']) == 1:
            return self.ev(e['a'][0])
        if k == 'mem':
            b = dp(e.get('b'))
            if e.get('n') in ('second', 'first') and b is not None:
                it = self.ev(dp(b['e']) if b['k'] == 'un' and b['op'] in ('->', '*') else b)
                if isinstance(it, tuple) and it[0] == 'it' and it[1] is not None and it[1] in self.table:
                    return ('slot', it[1]) if e['n'] == 'second' else it[1]
                if isinstance(it, tuple) and it[0] == 'pairit':
                    return ('bool', it[2]) if e['n'] == 'second' else it[1]
            raise Give()
        if k == 'un':
            if e['op'] == '!':
                return not self.truth(self.ev(e['e']))
            if e['op'] == '&':
                return ('addr', self.ev(e['e']))
            if e['op'] in ('->', '*'):
                return self.ev(e['e'])
            raise Give()
        if k == 'bin':
            op = e['op']
            if op == '&&':
                return self.truth(self.ev(e['lh'])) and self.truth(self.ev(e['rh']))
            if op == '||':
                return self.truth(self.ev(e['lh'])) or self.truth(self.ev(e['rh']))
            if op in ('==', '!=', '>', '<', '>='):
                a, b = self.ev(e['lh']), self.ev(e['rh'])
                r = self.equal(a, b, op)
                return r
            if op == '=':
                r = self.val(self.ev(e['rh']))
                l = dp(e['lh'])
                if l['k'] == 'ref' and l.get('id') in self.env and not (isinstance(self.env[l['id']], tuple) and self.env[l['id']][0] == 'slot'):
                    self.env[l['id']] = r
                    return r
                s = self.ev(l)
                if not (isinstance(s, tuple) and s[0] == 'slot'):
                    raise Give()
                self.table[s[1]] = r
                return s
            raise Give()
        if k == 'cond':
            return self.ev(e['x'] if self.truth(self.ev(e['c'])) else e['y'])
        if k == 'idx' and self.is_table(e['b']):
            kk = self.key(self.ev(e['i']))
            self.table.setdefault(kk, ('fresh',))
            return ('slot', kk)
        if k == 'typeid':
            return ('typeid', e.get('s'))
        if k == 'call' and e.get('f'):
            return self.call(e)
        raise Give()

    def val(self, v):
        """the value read from a place; moving out of a slot leaves it empty"""
        if isinstance(v, tuple) and v[0] == 'slot':
            return self.table[v[1]]
        if isinstance(v, tuple) and v[0] == 'moved':
            s = v[1]
            if isinstance(s, tuple) and s[0] == 'slot':
                r = self.table[s[1]]
                self.table[s[1]] = ('gone',)
                return r
            return self.val(s)
        return v

    def equal(self, a, b, op):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] == 'it' and b[0] == 'it':
                r = a[1] == b[1]
            elif a[0] == 'ptr' or b[0] == 'ptr':
                r = (a[1] if a[0] == 'ptr' else a) == (b[1] if b[0] == 'ptr' else b)
            elif a[0] in ('name', 'norm') and b[0] in ('name', 'norm'):
                r = self.same(a) == self.same(b)
            elif 'typeid' in (a[0], b[0]):
                r = self.type_matches
            else:
                raise Give()
            return r if op == '==' else not r if op == '!=' else self.giveup()
        if isinstance(a, int) and isinstance(b, int):
            return {'==': a == b, '!=': a != b, '>': a > b, '<': a < b, '>=': a >= b}[op]
        raise Give()

    def giveup(self):
        raise Give()

    def call(self, e):
        f = e['f']
        q = f.get('q') or f.get('n') or ''
        last = f.get('n') if f['k'] == 'mem' else q.split('::')[-1]
        if f['k'] == 'mem':
            b = f.get('b')
            if self.is_table(b):
                a = e['a']
                if last == 'find':
                    kk = self.key(self.ev(a[0]))
                    return ('it', kk if kk in self.table else None)
                if last in ('end', 'cend'):
                    return ('it', None)
                if last == 'contains':
                    return self.key(self.ev(a[0])) in self.table
                if last == 'count':
                    return 1 if self.key(self.ev(a[0])) in self.table else 0
                if last == 'erase':
                    v = self.ev(a[0])
                    if v[0] == 'it':
                        if v[1] is None or v[1] not in self.table:
                            return ('ub',)
                        del self.table[v[1]]
                        return ('it', None)
                    kk = self.key(v)
                    return 1 if self.table.pop(kk, None) is not None else 0
                if last == 'clear':
                    self.table.clear()
                    return None
                if last == 'empty':
                    return not self.table
                if last == 'size':
                    return len(self.table)
                if last == 'at':
                    kk = self.key(self.ev(a[0]))
                    if kk not in self.table:
                        raise Ret(('throw',))
                    return ('slot', kk)
                if last == 'insert_or_assign':
                    kk = self.key(self.ev(a[0]))
                    self.table[kk] = self.val(self.ev(a[1]))
                    return ('pairit', ('it', kk), True)
                if last in ('emplace', 'try_emplace') and len(a) == 2:
                    kk = self.key(self.ev(a[0]))
                    v = self.val(self.ev(a[1]))
                    new = kk not in self.table
                    if new:
                        self.table[kk] = v
                    return ('pairit', ('it', kk), new)
                if last == 'extract':
                    v = self.ev(a[0])
                    kk = v[1] if v[0] == 'it' else self.key(v)
                    return ('node', kk, self.table.pop(kk, None))
                raise Give()
            if last == 'type':
                v = self.ev(b)
                return ('type', v)
            if last == 'has_value' or last == 'empty':
                raise Give()
            if b is None or dp(b)['k'] == 'this':
                return self.inline(e)
            raise Give()
        if last in ('end', 'cend') and e['a'] and self.is_table(e['a'][0]):
            return ('it', None)
        if last == 'empty' and e['a'] and self.is_table(e['a'][0]):
            return not self.table
        if q == 'std::move':
            return ('moved', self.ev(e['a'][0]))
        if q in ('std::forward', 'std::as_const', 'std::string', 'std::string_view') and e['a']:
            return self.ev(e['a'][0])
        if q == 'std::any_cast':
            v = self.ev(e['a'][0])
            if not self.type_matches:
                return ('ptr', None)
            return ('ptr', v[1]) if v[0] == 'addr' else self.val(v)
        if q in ('std::make_optional',) and e['a']:
            return self.val(self.ev(e['a'][0]))
        if q in ('std::exchange',) and len(e['a']) == 2:
            s = self.ev(e['a'][0])
            if isinstance(s, tuple) and s[0] == 'slot':
                r = self.table[s[1]]
                self.table[s[1]] = ('gone',)
                return r
            raise Give()
        keys = [e.get('fk')] if e.get('fk') else ([f['fk']] if f.get('fk') else f.get('cands') or [])
        g = self.P.bykey.get(keys[0]) if len(keys) == 1 else None
        if g is not None and len(e['a']) == 1 and not self.touches(g):
            # a pure function of the name: one normalisation, whatever it is
            v = self.ev(e['a'][0])
            if isinstance(v, tuple) and v[0] in ('name', 'norm'):
                if 'string' not in strip(g.ret() or ''):
                    raise Give()
                try:
                    r = self.inline(e)
                    if isinstance(r, tuple) and r[0] in ('name', 'norm'):
                        return r
                except (Give, KeyError, TypeError, IndexError):
                    pass
                return ('norm', g.name, v)
        if g is not None:
            return self.inline(e)
        raise Give()

    def touches(self, g):
        return g.body is not None and any(n['k'] == 'mem' and n.get('n') in self.fields for n in walk(g.body)) or g.d.get('cls') == self.cls

    def inline(self, e):
        keys = [e.get('fk')] if e.get('fk') else ([e['f']['fk']] if e['f'].get('fk') else e['f'].get('cands') or [])
        g = self.P.bykey.get(keys[0]) if len(keys) == 1 else None
        if g is None or g.body is None or len(g.params) != len(e['a']) or getattr(self, 'deep', 0) > 3:
            raise Give()
        old, f0 = self.env, self.f
        env = {p['id']: self.ev(a) for p, a in zip(g.params, e['a'])}
        self.deep = getattr(self, 'deep', 0) + 1
        self.env, self.f = {**old, **env}, g
        try:
            self.block(g.body)
            return None
        except Ret as r:
            return r.v
        finally:
            self.env, self.f = old, f0
            self.deep -= 1


def table(P, R, cls, info):
    ops = {}
    for f in info:
        if f.d.get('cls') == cls and f.kind == 'method':
            ops.setdefault(f.name, []).append(f)
    rec, tu = P.recs[cls]
    fields = {x['n'] for x in rec['fields'] if re.search(r'\b(unordered_)?map\b', strip(tu.t(x['t'])))}
    if len(fields) != 1:
        R.unknown('table', cls)
        return
    norms = {}

    def exe(f, init, names, same, tm=True):
        T = None
        env = {}
        seen = []

        def canon(k):
            seen.append(k)
            base = k
            while base[0] == 'norm':
                base = base[2]
            return ('key', base[1] if base[1] not in same else same[base[1]])
        for p, n in zip(f.params, names):
            env[p['id']] = ('name', n) if n in 'ab' else ('item',)
        T = Tab(P, f, fields, {('key', same.get(k, k)): v for k, v in init.items()}, env, canon)
        T.type_matches = tm
        r = None
        try:
            T.block(f.body)
        except Ret as x:
            r = x.v
        norms.setdefault(f, set()).update(shape(k) for k in seen)
        return T.table, T.val(r) if r is not None else None, T

    def shape(k):
        return (k[1], shape(k[2])) if k[0] == 'norm' else 'name'

    A, B, C = ('key', 'a'), ('key', 'b'), ('key', 'c')
    va, vb, vc, it = ('va',), ('vb',), ('vc',), ('item',)

    def report(f, case, ok, msg, key):
        k = '%s|%s' % (f.sig().replace(' ', ''), key)
        if ok:
            R.ok('table', k)
        else:
            R.bad('table', k, f.file, f.line, f.sig(), '%s: %s' % (case, msg))

    def attempt(f, case, key, fn):
        try:
            ok, msg = fn()
        except (Give, KeyError, TypeError, IndexError):
            R.unknown('table', '%s|%s' % (f.sig().replace(' ', ''), key))
            return
        report(f, case, ok, msg, key)

    for f in ops.get('store', []):
        if len(f.params) != 2:
            continue
        for present in (0, 1):
            def go():
                init = {'c': vc}
                if present:
                    init['a'] = va
                t, r, T = exe(f, init, ['a', 'i'], {})
                return t == {A: it, C: vc}, 'the table ends as %s, expected the named entry to hold the item and the rest unchanged' % show_table(t)
            attempt(f, 'storing under a name that is %s' % ('taken' if present else 'free'), 'present%d' % present, go)
    for nm in ('retrieve_any', 'retrieve'):
        for f in ops.get(nm, []):
            if len(f.params) != 1:
                continue
            for present in (0, 1):
                for tm in ((True, False) if nm == 'retrieve' and present else (True,)):
                    def go():
                        init = {'c': vc}
                        if present:
                            init['a'] = va
                        t, r, T = exe(f, init, ['a'], {}, tm)
                        same_t = t == ({A: va, C: vc} if present else {C: vc})
                        if nm == 'retrieve_any':
                            good = r == (va if present else ('nullopt',)) or not present and r == ('empty',)
                        else:
                            good = r == (('ptr', ('slot', A)) if present and tm else ('ptr', None))
                        return same_t and good, 'yields %s and leaves %s' % (r, show_table(t))
                    attempt(f, 'reading a name that is %s%s' % ('present' if present else 'absent', '' if tm else ' with another type'), 'present%d%d' % (present, tm), go)
    for f in ops.get('remove', []):
        if len(f.params) != 1:
            continue
        for present in (0, 1):
            def go():
                init = {'c': vc}
                if present:
                    init['a'] = va
                t, r, T = exe(f, init, ['a'], {})
                ret = r in (True, 1) if present else r in (False, 0)
                return t == {C: vc} and (ret or r is None), 'returns %s and leaves %s' % (r, show_table(t))
            attempt(f, 'removing a name that is %s' % ('present' if present else 'absent'), 'present%d' % present, go)
    for f in ops.get('rename', []):
        if len(f.params) != 2:
            continue
        for old, new, eq in ((1, 0, 0), (1, 1, 0), (0, 0, 0), (0, 1, 0), (1, 1, 1), (0, 0, 1)):
            def go():
                init = {'c': vc}
                if old:
                    init['a'] = va
                if new and not eq:
                    init['b'] = vb
                t, r, T = exe(f, init, ['a', 'b'], {'b': 'a'} if eq else {})
                want = {C: vc}
                if old:
                    want[A if eq else B] = va
                elif new:
                    want[B] = vb
                ret = r is True if old else r is False
                return t == want and ret, 'returns %s and leaves %s' % (r, show_table(t))
            attempt(f, 'renaming a variable that is %s to %s' % ('present' if old else 'absent', 'itself' if eq else 'a name that is %s' % ('taken' if new else 'free')), 'rename%d%d%d' % (old, new, eq), go)
    for f in ops.get('clear', []):
        def go():
            t, r, T = exe(f, {'a': va, 'c': vc}, [], {})
            return t == {}, 'leaves %s' % show_table(t)
        attempt(f, 'clearing', 'clear', go)
    shapes = {f: s for f, s in norms.items() if s}
    allsh = {}
    for f, s in shapes.items():
        for x in s:
            allsh.setdefault(x, []).append(f)
    if len(allsh) > 1:
        major = max(allsh, key=lambda x: len(allsh[x]))
        for x, fs in allsh.items():
            if x != major:
                for f in fs:
                    R.bad('table', '%s|normalisation' % f.sig().replace(' ', ''), f.file, f.line, f.sig(), 'looks names up in another normal form than the other operations, so that they disagree about which variable a name means')
    elif allsh:
        R.ok('table', cls + '|normalisation')


def show_table(t):
    nm = {'va': "the old variable's value", 'vb': "the target's value", 'vc': "a third variable", 'item': 'the item', 'gone': 'a moved-from value', 'fresh': 'an empty value'}
    return '{' + ', '.join('%s: %s' % (k[1], nm.get(v[0], str(v))) for k, v in sorted(t.items())) + '}'
