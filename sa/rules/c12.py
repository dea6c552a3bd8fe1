"""C12: commands never use an argument that was not supplied.

access   every use of an element of an argument list (command arguments, filtered copies, token lists, argv) happens where the
         list is known to hold that element
usage    a command that returns because too few arguments were given, without having used any, has printed something or thrown
"""
from lib import *
from argflow import *
import re

TUS = ['main']
MIN = {'access': 60, 'usage': 25}


def fresh(st, pid):
    k = ('L', pid)
    s = st.setlen(k, 0, INF)
    s.v[pid] = ('cont', k)
    return s, k




_ut = {}


def usage_texts(body):
    if id(body) not in _ut:
        _ut[id(body)] = (body, [n['v'] for n in walk(body) if n['k'] == 'str' and isinstance(n.get('v'), str) and re.search(r'<[^<>]+>', n['v'])])
    return _ut[id(body)][1]


def is_reg(n, f):
    return n['k'] == 'call' and n.get('f') is not None and n['f'].get('n') == 'register_command' or n['k'] in ('ctor', 'init', 'cast') and 'CommandBundle' in ' '.join(strip(f.tu.t(n[k])) for k in ('tt', 't') if n.get(k) is not None)


class Cmds(ArgFlow):
    def __init__(self, P):
        ArgFlow.__init__(self, P)
        self.commands = []     # (name, schema expr, frame function, line, exits, listkey, events)
        self.hooks['node'] = self.on_node
        self.hooks['call'] = self.on_call
        self.uses = []
        self.cache = {}
        self.cur = None

    def must(self, e):
        h = ('must', id(e))
        if h not in self.cache:
            f = self.frames[-1]['f']
            self.cache[h] = any(is_reg(n, f) for n in walk(e))
        return self.cache[h]

    def handler_like(self, v):
        return v is not None and v[0] in ('lam', 'fn', 'obj')

    def on_node(self, e, st):
        if e['k'] in ('ctor', 'init', 'cast'):
            f = self.frames[-1]['f']
            t = ''
            for key in ('tt', 't'):
                if e.get(key) is not None:
                    t += ' ' + strip(f.tu.t(e[key]))
            a = e.get('a') or []
            if len(a) == 1 and a[0]['k'] == 'init':
                a = a[0]['a']
            if 'CommandBundle' in t and len(a) >= 3:
                self.register(a, e, st)
                return [st]
        return None

    def on_call(self, e, st):
        f = e.get('f')
        if f is not None and f.get('n') == 'register_command' and len(e['a']) >= 3:
            self.register(e['a'], e, st)
        if self.cur is not None and f is not None:
            self.data_use(e, f, st)

    def classify(self, e, f, fr, st):
        """(load | save | drop, expression naming the variable) of a call that moves data"""
        n = f.get('n') or ''
        a = e['a']
        if n == 'dispatch_data_operation' and a:
            return 'load', a[0]
        if f['k'] == 'mem' and n in ('retrieve', 'get', 'retrieve_any', 'store', 'set', 'store_any', 'remove') and a and self.is_workspace(f.get('b'), fr):
            return ('save' if n in ('store', 'set', 'store_any') else 'load' if n != 'remove' else 'drop'), a[0]
        if f['k'] == 'ref' and f.get('dk') in ('parm', 'var') and len(a) >= 2 and self.is_workspace(a[1], fr) and (st is None or st.v.get(f.get('id')) is None):
            # a loader (name, workspace) or a saver (name, workspace, value)
            return ('load' if len(a) == 2 else 'save'), a[0]
        return None, None

    def data_use(self, e, f, st):
        """the list position of the name through which data is loaded or stored"""
        fr = self.frames[-1]['f']
        kind, x = self.classify(e, f, fr, st)
        if kind is None:
            return
        v = self.val(x, st)
        k = None
        if v is not None and v[0] == 'arg':
            o = self.origin(v[1], st)
            if o == self.cur['key'] and ('mixed', v[1]) not in st.note:
                k = v[2]
        self.uses.append((kind, k, fr, e.get('l')))

    def enter(self, g, params, body, vals, a, st, nttp, this, e):
        if self.cur is not None:
            self.cur.setdefault('texts', []).extend(usage_texts(body))
            self.cur.setdefault('bodies', {})[id(body)] = (g, body)
        return ArgFlow.enter(self, g, params, body, vals, a, st, nttp, this, e)

    def is_workspace(self, e, f):
        e = unwrap(e)
        while e is not None and e['k'] in ('un', 'paren'):
            e = unwrap(e['e'])
        if e is None:
            return False
        t = strip(f.tu.t(e['t'])) if e.get('t') is not None else ''
        return 'Workspace' in t or e.get('n') == 'workspace'

    def register(self, a, e, st):
        name = unwrap(a[0])
        while name is not None and name['k'] in ('ctor', 'init') and len(name.get('a') or []) == 1:
            name = unwrap(name['a'][0])
        nm = name['v'] if name is not None and name['k'] == 'str' else name.get('n', '?') if name is not None else '?'
        h = self.val(a[-1], st)
        f = self.frames[-1]['f']
        if not self.handler_like(h):
            self.commands.append(dict(name=nm, schema=a[2] if len(a) > 3 else None, f=f, line=e.get('l'), exits=None, key=None, uses=[]))
            return
        s = St(st)
        s.said, s.used = False, False
        k = ('cmd', nm, e.get('l'))
        s = s.setlen(k, 0, INF)
        # the call  handler(workspace, args, os)
        ws, ar, os_ = {'k': 'ref', 'id': -11, 'n': 'workspace'}, {'k': 'ref', 'id': -12, 'n': 'args'}, {'k': 'ref', 'id': -13, 'n': 'os'}
        s.v[-12] = ('cont', k)
        fe = a[-1] if h[0] == 'fn' else {'k': 'ref', 'id': -14, 'n': 'handler'}
        s.v[-14] = h
        old = self.cur
        self.cur = dict(name=nm, schema=a[2] if len(a) > 3 else None, f=f, line=e.get('l'), exits=None, key=k, uses=[])
        n0 = len(self.uses)
        if h[0] == 'fn':
            ex = self.invoke({'k': 'call', 'f': h[1], 'a': [ws, ar, os_]}, None, [ws, ar, os_], s)
        else:
            ex = self.invoke({'k': 'call', 'f': fe, 'a': [ws, ar, os_]}, h, [ws, ar, os_], s)
        self.cur['exits'] = [x for x, _ in ex]
        self.cur['uses'] = self.uses[n0:]
        self.commands.append(self.cur)
        self.cur = old


def analyse(P):
    if getattr(P, '_cmds', None) is not None:
        return P._cmds
    C = Cmds(P)
    mains = [f for f in P.funcs if f.file.startswith('main') and f.body is not None]
    roots = []
    for f in mains:
        reg = any(is_reg(n, f) for n in walk(f.body))
        if reg or f.name == 'main':
            roots.append(f)
    for f in roots:
        run_root(C, f, False)
    # functions over lists that no registration reaches
    for f in sorted(mains, key=lambda f: f.name == 'operator()'):
        if id(f.body) in C.visited or f in roots:
            continue
        ps = [p for p in f.params if C.listy(p, f)]
        loc = [v for n in walk(f.body) if n['k'] == 'decl' for v in n['v'] if 'id' in v and C.listy(v, f)]
        if ps or loc:
            handler = any('Workspace' in f.ptype(i) for i in range(len(f.params)))
            run_root(C, f, not handler or f.name in C.failed)
    P._cmds = C
    return C


def run_root(C, f, poisoned):
    st = St()
    for p in f.params:
        if 'id' in p and C.listy(p, f):
            st, k = fresh(st, p['id'])
            if poisoned:
                st = st.poison([k])
    if f.name == 'main' and len(f.params) >= 2:
        a, b = f.params[0], f.params[1]
        k = ('argv',)
        st = st.setlen(k, 0, INF)
        st.v[a['id']] = ('size', k, 0)
        st.v[b['id']] = ('cont', k)
    C.visited.add(id(f.body))
    C.frames.append({'nttp': {}, 'f': f, 'body': f.body})
    C.rets.append([])
    C.brk.append([])
    C.cont.append([])
    C.block(f.body, [st])
    C.rets.pop()
    C.brk.pop()
    C.cont.pop()
    C.frames.pop()


def run(P, R):
    R.rule('access', 'every use of an element of an argument list happens where the list is known to hold that element')
    R.rule('usage', 'a command never returns silently because too few arguments were given')
    C = analyse(P)
    for (fl, ln, txt, fn), (v, msg, f) in sorted(C.access.items()):
        key = '%s|%s|%s' % (fn, txt.replace(' ', ''), fkey(f).replace(' ', ''))
        if v == 'ok':
            R.ok('access', '%s:%d %s %s' % (fl, ln, fn, txt))
        elif v == 'unknown':
            R.unknown('access', '%s:%d %s %s' % (fl, ln, fn, txt))
        else:
            R.bad('access', key, fl, ln, f.sig(), msg)
    for c in C.commands:
        key = 'command:%s' % str(c['name']).replace(' ', '_')
        if c['exits'] is None:
            R.unknown('usage', key)
            continue
        bad = None
        for s in c['exits']:
            few = [k for k in s.mx if s.mx[k] < INF and (k == c['key'] or C.origin(k, s) == c['key'] or isinstance(k, tuple) and k[0] == 'L')]
            if few and not s.said and not s.used and not (set(few) & s.p):
                bad = s
                break
        if bad is not None:
            R.bad('usage', key, c['f'].file, c['line'] or c['f'].line, c['f'].sig(), 'command `%s` returns without any message when it is given too few arguments' % c['name'])
        else:
            R.ok('usage', key)
