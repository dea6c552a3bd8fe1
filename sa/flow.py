"""Forward typestate dataflow over structured code.

The abstract domain is a finite set of states (powerset); each state maps variables to abstract values and resources to
their typestate.  Operations that can fail (open, allocate, read, write, close) have one successor per outcome.  Loops are
iterated to a fixpoint with every variable the loop modifies forgotten at the head.  Nothing is executed and no solver is
involved: branch conditions are evaluated in the abstract domain and followed both ways when they are not constant.

values: ('c', n) constant, ('null',), ('res', k) live handle k, ('cnt', full, site, want) count returned by a transfer,
        ('s', text) string constant, ('empty',) an image without pixels, ('obj', {field: value}) as sorted tuple,
        ('stream', k), ('addr', key), ('lam', node, frame), ('e', op, a, b) expression over unknowns, ('u', id) unknown
"""
import re
from prog import walk

ACQUIRE = {'fopen': 'file', 'std::fopen': 'file', 'malloc': 'buffer', 'std::malloc': 'buffer', 'calloc': 'buffer', 'std::calloc': 'buffer', 'dlopen': 'library', 'popen': 'file', 'tmpfile': 'file'}
RELEASE = {'fclose', 'std::fclose', 'free', 'std::free', 'dlclose', 'pclose'}
TRANSFER = {'fread': 3, 'std::fread': 3, 'fwrite': 3, 'std::fwrite': 3}
PARSE = {'stoi', 'stol', 'stoll', 'stoul', 'stoull', 'stof', 'stod', 'stold'}
STREAM = re.compile(r'^(const )?(std::)?(basic_)?(i|o)?fstream\b')


class Give(Exception):
    """analysis limit reached: no verdict for this function"""


class St:
    __slots__ = ('env', 'res', 'facts', 'fails', 'streams', 'und')

    def __init__(self, env=None, res=None, facts=None, fails=(), streams=None, und=False):
        self.env = env or {}
        self.res = res or {}
        self.facts = facts or {}
        self.fails = fails
        self.streams = streams or {}
        self.und = und

    def copy(self):
        return St(dict(self.env), dict(self.res), dict(self.facts), self.fails, dict(self.streams), self.und)

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.res.items()), frozenset(self.facts.items()), self.fails, frozenset(self.streams.items()), self.und)


class Frame:
    __slots__ = ('fn', 'tu', 'id', 'depth', 'rets', 'throws', 'brk', 'cont', 'this', 'chain')

    def __init__(self, fn, tu, id, depth, chain=()):
        self.fn = fn
        self.tu = tu
        self.id = id
        self.depth = depth
        self.rets = []
        self.throws = []
        self.brk = []
        self.cont = []
        self.this = None
        self.chain = chain


def contains(v, what):
    if v == what:
        return True
    if isinstance(v, tuple):
        return any(contains(x, what) for x in v)
    return False


def resources(v):
    out = set()

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'res':
                out.add(x[1])
            else:
                for y in x:
                    go(y)
    go(v)
    return out


class Flow:
    def __init__(self, P, inline, budget=400000, maxstates=600):
        self.P = P
        self.inline_ok = inline
        self.budget = budget
        self.maxstates = maxstates
        self.byid = {}
        self.byq = {}
        for f in P.funcs:
            if f.body:
                self.byq.setdefault(f.q, []).append(f)
        self.problems = {}
        self.sites = {}
        self.stop = frozenset()

    # ---------------------------------------------------------------- reports
    def problem(self, kind, site, fr, node, msg, st):
        if st.und:
            return
        k = (kind, site, fr.fn.key if fr.fn else None)
        self.problems.setdefault(k, (fr.fn, node.get('l', 0), msg))

    # ---------------------------------------------------------------- driver
    def run(self, fn):
        self.n = 0
        self.problems = {}
        self.exits = []
        fr = Frame(fn, fn.tu, ('r',), 0)
        fr.this = ('T',) if fn.cls else None
        st = St()
        for i, p in enumerate(fn.params):
            st.env[(fr.id, p['id'])] = ('u', ('p', p.get('n') or i))
        out = self.block(fn.body, fr, [st])
        for s in out:
            self.exits.append(('return', ('void',), s, {'l': fn.line}))
        for v, s, n in fr.rets:
            self.exits.append(('return', v, s, n))
        for s, n in fr.throws:
            self.exits.append(('throw', None, s, n))
        return self.exits

    def tick(self):
        self.n += 1
        if self.n > self.budget:
            raise Give('budget')

    def dedupe(self, sts):
        seen = {}
        for s in sts:
            seen.setdefault(s.key(), s)
        r = list(seen.values())
        if len(r) > self.maxstates:
            raise Give('states')
        return r

    # ---------------------------------------------------------------- statements
    def block(self, s, fr, sts):
        if s is None:
            return sts
        if not sts:
            return sts
        self.tick()
        k = s['k']
        m = getattr(self, 'x_' + k, None)
        if m:
            return self.dedupe(m(s, fr, sts))
        out = []
        for st in sts:
            for v, t in self.ev(s, fr, st):
                out.append(t)
        return self.dedupe(out)

    def x_block(self, s, fr, sts):
        for x in s['s']:
            sts = self.block(x, fr, sts)
        return sts

    def x_nop(self, s, fr, sts):
        return sts

    x_fallthrough = x_nop

    def x_label(self, s, fr, sts):
        return self.block(s.get('s') or s.get('body'), fr, sts)

    def x_goto(self, s, fr, sts):
        raise Give('goto')

    def x_decl(self, s, fr, sts):
        for v in s['v']:
            out = []
            for st in sts:
                out += self.declare(v, fr, st)
            sts = out
        return sts

    def declare(self, v, fr, st):
        if v['k'] == 'decomp':
            r = self.ev(v['init'], fr, st) if v.get('init') else [(None, st)]
            out = []
            for _, t in r:
                t = t.copy()
                for b in v['b']:
                    t.env[(fr.id, b['id'])] = self.fresh(t, ('d', fr.id, b['id']))
                out.append(t)
            return out
        if 'id' not in v:
            return [st]
        key = (fr.id, v['id'])
        ts = fr.tu.t(v.get('ct') if v.get('ct') is not None else v.get('t'))
        ts0 = fr.tu.t(v.get('t'))
        init = v.get('init')
        if STREAM.match(ts.replace('class ', '')):
            return self.stream_open(v, init, ts, fr, st, key)
        if init is None:
            t = st.copy()
            t.env[key] = ('obj', ()) if self.record(ts) else self.fresh(t, ('v', key))
            return [t]
        if ts0.rstrip().endswith('&') and not ts0.rstrip().endswith('&&'):
            lk = self.lkey(init, fr, st)
            if lk is not None:
                t = st.copy()
                t.env[key] = ('ref', lk)
                return [t]
        out = []
        for x, t in self.ev(init, fr, st):
            t = t.copy()
            t.env[key] = x
            if resources(x) and self.owner(ts):
                self.escape(x, t)
            out.append(t)
        return out

    def owner(self, ts):
        """class types with a destructor manage what they are given"""
        if ts.rstrip().endswith(('*', '&')) or ts.rstrip().endswith('*const') or 'auto' in ts:
            return False
        n = re.sub(r'<.*', '', re.sub(r'^(const )?(struct |class )?', '', ts)).split('::')[-1].strip()
        if not any(r.get('n') == n for r in self.recs()):
            return not re.match(r'^(void|char|int|long|unsigned|bool|short|FILE|_IO_FILE)\b', n)
        return any((f.kind == 'dtor' or f.name.startswith('~')) and (f.cls or '').split('::')[-1].split('<')[0] == n for f in self.P.funcs)

    def record(self, ts):
        n = re.sub(r'^(const )?(struct |class )?', '', ts).split('::')[-1]
        return any(isinstance(r, dict) and (r.get('n') == n) for r in self.recs()) if n else False

    def recs(self):
        if not hasattr(self, '_recs'):
            self._recs = [r for tu in self.P.tus for r in (tu.recs if isinstance(tu.recs, list) else tu.recs.values())]
        return self._recs

    def fresh(self, st, ident):
        v = ('u', ident)
        for f in [f for f in st.facts if contains(f, v)]:
            del st.facts[f]
        return v

    def x_if(self, s, fr, sts):
        out = []
        if s.get('init'):
            sts = self.block(s['init'], fr, sts)
        if s.get('cv'):
            sts = self.x_decl({'v': [s['cv']]}, fr, sts)
        for st in sts:
            if s.get('cx'):
                c = s['c']
                if c and c['k'] == 'bool':
                    br = [(bool(c['v']), st)]
                else:
                    br = [(True, st), (False, st.copy())]
            else:
                br = self.cond(s['c'], fr, st)
            for b, t in br:
                out += self.block(s['x'] if b else s.get('y'), fr, [t])
        return out

    def x_for(self, s, fr, sts):
        if s.get('init'):
            sts = self.block(s['init'], fr, sts)
        return self.loop(s, fr, sts, s.get('c'), s.get('inc'), s.get('body'))

    def x_while(self, s, fr, sts):
        return self.loop(s, fr, sts, s.get('c'), None, s.get('body'))

    def x_do(self, s, fr, sts):
        return self.loop(s, fr, sts, s.get('c'), None, s.get('body'), first=True)

    def x_rfor(self, s, fr, sts):
        if s.get('init'):
            sts = self.block(s['init'], fr, sts)
        o = []
        for st in sts:
            o += [t for _, t in self.ev(s['range'], fr, st)]
        return self.loop(s, fr, o, None, None, s.get('body'), rng=True)

    def x_omp(self, s, fr, sts):
        return self.block(s.get('body'), fr, sts)

    def assigned(self, node, fr):
        out = set()

        def pre(n):
            if n.get('k') == 'bin' and n.get('op', '').endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                x = n['lh']
                while x and x.get('k') in ('idx', 'paren'):
                    x = x.get('b') or x.get('e')
                if x and x.get('k') == 'ref' and n['lh'].get('k') != 'idx':
                    out.add(x['id'])
            if n.get('k') == 'un' and n.get('op') in ('++', '--') and n['e'].get('k') == 'ref':
                out.add(n['e'].get('id'))
            if n.get('k') == 'call':
                for a in n.get('a', []):
                    if a and a.get('k') == 'un' and a.get('op') == '&' and a['e'].get('k') == 'ref':
                        out.add(a['e'].get('id'))
        for n in (node if isinstance(node, list) else [node]):
            for x in (walk(n) if n else ()):
                pre(x)
        return out

    def loop(self, s, fr, sts, cond, inc, body, first=False, rng=False):
        mod = self.assigned([x for x in (cond, inc, body) if x], fr)
        brk0, cont0 = fr.brk, fr.cont
        fr.brk, fr.cont = [], []
        done = []
        seen = {}
        work = []
        for st in sts:
            if cond is not None and not first:
                # a condition that is false on entry keeps the loop from being entered
                q = self.quiet_cond(cond, fr, st)
                if q is False:
                    done.append(st)
                    continue
            work.append(st)
        rounds = 0
        entry = True
        while work:
            rounds += 1
            if rounds > 60:
                raise Give('loop')
            nxt = []
            for st in work:
                t = st.copy()
                for d in mod:
                    k = (fr.id, d)
                    if k in t.env and t.env[k][0] not in ('res', 'ref', 'stream', 'null', 'obj') :
                        t.env[k] = self.fresh(t, ('l', s.get('l'), k))
                kk = t.key()
                if kk in seen:
                    continue
                seen[kk] = t
                if len(seen) > self.maxstates:
                    raise Give('loop states')
                if first and entry:
                    ent = [(True, t)]
                elif cond is not None:
                    ent = self.cond(cond, fr, t)
                elif rng:
                    if s.get('var') and 'id' in s['var']:
                        t.env[(fr.id, s['var']['id'])] = self.fresh(t, ('r', fr.id, s['var']['id']))
                    ent = [(True, t.copy()), (False, t)]
                else:
                    ent = [(True, t)]
                for b, u in ent:
                    if not b:
                        done.append(u)
                        continue
                    o = self.block(body, fr, [u])
                    o = o + fr.cont
                    fr.cont = []
                    if inc:
                        o = self.block(inc, fr, self.dedupe(o))
                    nxt += o
            entry = False
            work = self.dedupe(nxt)
        done += fr.brk
        fr.brk, fr.cont = brk0, cont0
        return self.dedupe(done)

    def quiet_cond(self, c, fr, st):
        p = self.problems
        self.problems = dict(p)
        try:
            r = self.cond(c, fr, st.copy())
        finally:
            self.problems = p
        bs = {b for b, _ in r}
        return bs.pop() if len(bs) == 1 else None

    def x_break(self, s, fr, sts):
        fr.brk += sts
        return []

    def x_continue(self, s, fr, sts):
        fr.cont += sts
        return []

    def x_return(self, s, fr, sts):
        for st in sts:
            if s.get('e') is None:
                fr.rets.append((('void',), st, s))
            else:
                for v, t in self.ev(s['e'], fr, st):
                    fr.rets.append((v, t, s))
        return []

    def x_throw(self, s, fr, sts):
        for st in sts:
            fr.throws.append((st, s))
        return []

    def x_try(self, s, fr, sts):
        th0 = fr.throws
        fr.throws = []
        out = self.block(s['body'], fr, sts)
        thrown = fr.throws
        fr.throws = th0
        hs = [t for t, _ in thrown]
        # anything in the body may also throw: enter the handlers from the beginning and the end of the body
        for st in sts + out:
            t = st.copy()
            hs.append(t)
        hs = self.dedupe(hs)
        if not s['h']:
            fr.throws += thrown
        for h in s['h']:
            out = out + self.block(h['body'], fr, [t.copy() for t in hs])
        return out

    def x_switch(self, s, fr, sts):
        out = []
        items = s['body']['s'] if s['body'] and s['body']['k'] == 'block' else [s['body']]
        brk0 = fr.brk
        fr.brk = []
        for st in sts:
            for v, t in self.ev(s['c'], fr, st):
                cur = []
                pend = [t]
                hasdef = False
                for it in items:
                    enter = False
                    while it is not None and it['k'] in ('case', 'default'):
                        if it['k'] == 'default':
                            hasdef = True
                            enter = True
                        else:
                            cv = self.ev(it['e'], fr, t.copy())[0][0]
                            if v[0] == 'c' and cv[0] == 'c':
                                enter = enter or v == cv
                            else:
                                enter = True
                        it = it['s']
                    if enter:
                        cur = cur + [t.copy()]
                    if cur:
                        cur = self.block(it, fr, cur)
                out += cur
                if not hasdef:
                    out.append(t)
        out += fr.brk
        fr.brk = brk0
        return out

    # ---------------------------------------------------------------- values
    def lkey(self, e, fr, st):
        """storage an lvalue expression denotes: (frame, decl) or (frame, decl, field...)"""
        k = e['k']
        if k == 'paren':
            return self.lkey(e['e'], fr, st)
        if k == 'cast':
            return self.lkey(e['e'], fr, st)
        if k == 'ref' and 'id' in e:
            key = (fr.id, e['id'])
            if key not in st.env:
                for c in fr.chain:
                    if (c, e['id']) in st.env:
                        key = (c, e['id'])
                        break
                else:
                    return None
            v = st.env.get(key)
            if v and v[0] == 'ref':
                return v[1]
            return key
        if k == 'mem':
            b = e.get('b')
            if b is None or b.get('k') == 'this':
                return (fr.this, '.' + e['n']) if fr.this is not None else None
            if e.get('arrow'):
                for v, _ in self.ev(b, fr, st.copy()):
                    return v[1] + ('.' + e['n'],) if v[0] == 'addr' else None
            bk = self.lkey(b, fr, st)
            return bk + ('.' + e['n'],) if bk else None
        if k == 'un' and e.get('op') == '*':
            for v, _ in self.ev(e['e'], fr, st.copy()):
                if v[0] == 'addr':
                    return v[1]
        return None

    def get(self, key, st):
        if key in st.env:
            v = st.env[key]
            if v[0] == 'ref':
                return self.get(v[1], st)
            return v
        for i in range(len(key) - 1, 1, -1):
            if key[:i] in st.env:
                b = st.env[key[:i]]
                if b[0] == 'ref':
                    return self.get(b[1] + key[i:], st)
                if b[0] == 'obj':
                    d = dict(b[1])
                    f = ''.join(key[i:])
                    if f in d:
                        return d[f]
                    return ('u', ('f', key))
                return ('u', ('f', b, key[i:]))
        return ('u', ('k', key))

    def put(self, key, val, st):
        base = key[:2]
        if len(key) > 2:
            b = st.env.get(base)
            if b and b[0] == 'ref':
                return self.put(b[1] + key[2:], val, st)
            d = dict(b[1]) if b and b[0] == 'obj' else {}
            d[''.join(key[2:])] = val
            if b is None or b[0] != 'obj':
                # the object came from elsewhere: what is stored in it is reachable from there
                for r in resources(val):
                    st.res[r] = 'escaped'
                if b is not None and b[0] != 'u':
                    return
            st.env[base] = ('obj', tuple(sorted(d.items())))
            return
        b = st.env.get(base)
        if b and b[0] == 'ref' and b[1] != key:
            return self.put(b[1], val, st)
        st.env[base] = val

    def cond(self, e, fr, st):
        """[(bool, state)]"""
        k = e['k']
        if k == 'paren':
            return self.cond(e['e'], fr, st)
        if k == 'un' and e['op'] == '!' :
            return [(not b, t) for b, t in self.cond(e['e'], fr, st)]
        if k == 'bin' and e['op'] in ('&&', '||', 'and', 'or') and not e.get('ov'):
            out = []
            isand = e['op'] in ('&&', 'and')
            for b, t in self.cond(e['lh'], fr, st):
                if b != isand:
                    out.append((b, t))
                else:
                    out += self.cond(e['rh'], fr, t)
            return out
        out = []
        for v, t in self.ev(e, fr, st):
            out += self.truth(v, t)
        return out

    def truth(self, v, st):
        if v[0] == 'c':
            return [(v[1] != 0, st)]
        if v[0] == 'null':
            return [(False, st)]
        if v[0] in ('res', 'addr', 'lam', 's'):
            return [(True, st)]
        if v[0] == 'stream':
            return self.stream_check(v[1], st)
        if v[0] == 'cnt':
            if v[1]:
                return [(True, st)]
            t = st.copy()
            t.und = True
            u = st.copy()
            return [(True, t), (False, u)]
        if v[0] == 'e' and v[1] == '!':
            return [(not b, t) for b, t in self.truth(v[2], st)]
        if v in st.facts:
            return [(st.facts[v], st)]
        a, b = st.copy(), st.copy()
        a.facts[v] = True
        b.facts[v] = False
        if contains_cnt(v):
            a.und = a.und or short_in(v)
            b.und = b.und or short_in(v)
        return [(True, a), (False, b)]

    def compare(self, op, a, b, st):
        """abstract value of a comparison"""
        def res(x):
            return ('c', 1 if x else 0)
        if a[0] == 'c' and b[0] == 'c':
            return res({'==': a[1] == b[1], '!=': a[1] != b[1], '<': a[1] < b[1], '>': a[1] > b[1], '<=': a[1] <= b[1], '>=': a[1] >= b[1]}[op])
        if a[0] == 's' and b[0] == 's' and op in ('==', '!='):
            return res((a[1] == b[1]) == (op == '=='))
        nul = [x[0] == 'null' or x == ('c', 0) for x in (a, b)]
        hnd = [x[0] in ('res', 'addr') for x in (a, b)]
        if op in ('==', '!='):
            if nul[0] and nul[1]:
                return res(op == '==')
            if nul[0] and hnd[1] or nul[1] and hnd[0]:
                return res(op == '!=')
            if a == b and a[0] not in ('cnt',):
                return res(op == '==')
        flip = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}
        if b[0] == 'cnt' and a[0] != 'cnt':
            a, b, op = b, a, flip.get(op, op)
        if a[0] == 'cnt':
            full, want = a[1], a[3]
            if b == want:
                if full:
                    return res(op in ('==', '<=', '>='))
                return res(op in ('!=', '<', '<='))
            if b == ('c', 0) and full:
                return res(op in ('!=', '>', '>='))
        if op == '!=':
            return ('e', '!', ('e', '==') + tuple(sorted((a, b), key=repr)))
        if op == '==':
            return ('e', '==') + tuple(sorted((a, b), key=repr))
        if op in ('>', '<='):
            a, b, op = b, a, {'>': '<', '<=': '>='}[op]
        if op == '>=':
            return ('e', '!', ('e', '<', a, b))
        return ('e', '<', a, b)

    def ev(self, e, fr, st):
        """[(value, state)]"""
        if e is None:
            return [(('void',), st)]
        self.tick()
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m:
            return m(e, fr, st)
        return self.generic(e, fr, st)

    def generic(self, e, fr, st):
        sts = [st]
        for key, v in e.items():
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, dict) and 'k' in x and x['k'] not in ('lambda',):
                    nxt = []
                    for t in sts:
                        nxt += [u for _, u in self.ev(x, fr, t)]
                    sts = nxt
        return [(self.fresh2(t, e, fr), t) for t in sts]

    def fresh2(self, st, e, fr):
        return self.fresh(st, (fr.id, id(e)))

    def seq(self, es, fr, st):
        """[( [values], state )]"""
        out = [([], st)]
        for e in es:
            nxt = []
            for vs, t in out:
                for v, u in self.ev(e, fr, t):
                    nxt.append((vs + [v], u))
            out = nxt
            if len(out) > self.maxstates:
                raise Give('args')
        return out

    def e_int(self, e, fr, st):
        try:
            return [(('c', int(str(e['v']), 0) if isinstance(e['v'], str) else int(e['v'])), st)]
        except ValueError:
            return [(('u', ('i', str(e['v']))), st)]

    e_chr = e_int

    def e_bool(self, e, fr, st):
        return [(('c', 1 if e['v'] else 0), st)]

    def e_flt(self, e, fr, st):
        return [(('u', ('flt', str(e.get('v')))), st)]

    def e_str(self, e, fr, st):
        return [(('s', e.get('v')), st)]

    def e_null(self, e, fr, st):
        return [(('null',), st)]

    def e_zero(self, e, fr, st):
        return [(('c', 0), st)]

    def e_sizeof(self, e, fr, st):
        return [(('c', e['v']) if isinstance(e.get('v'), int) else ('u', ('sizeof', e.get('s'))), st)]

    def e_paren(self, e, fr, st):
        return self.ev(e['e'], fr, st)

    def e_cast(self, e, fr, st):
        return self.ev(e['e'], fr, st)

    def e_lambda(self, e, fr, st):
        return [(('lam', id(e), fr.id), self.note(e, fr, st))]

    def note(self, e, fr, st):
        self.lams = getattr(self, 'lams', {})
        self.lams[(id(e), fr.id)] = (e, fr)
        return st

    def e_this(self, e, fr, st):
        return [(('addr', (fr.this, 'this')) if fr.this is not None else ('u', 'this'), st)]

    def e_ref(self, e, fr, st):
        if 'id' in e:
            k = self.lkey(e, fr, st)
            if k is not None:
                return [(self.get(k, st), st)]
        if e.get('dk') in ('enum', 'econst') or e.get('dk') == 'func':
            return [(('u', ('g', e.get('q') or e.get('n'))), st)]
        return [(('u', ('g', e.get('q') or e.get('n'))), st)]

    def e_mem(self, e, fr, st):
        k = self.lkey(e, fr, st)
        if k is not None:
            return [(self.get(k, st), st)]
        out = []
        for v, t in (self.ev(e['b'], fr, st) if e.get('b') else [(('void',), st)]):
            self.use(v, e, fr, t)
            if v[0] == 'obj':
                out.append((dict(v[1]).get('.' + e['n'], ('u', ('m', e['n'], v))), t))
            else:
                out.append((('u', ('m', e.get('n'), v)), t))
        return out

    def e_idx(self, e, fr, st):
        out = []
        for vs, t in self.seq([e['b'], e['i']], fr, st):
            self.deref(vs[0], e, fr, t)
            out.append((('u', ('x', vs[0], vs[1])), t))
        return out

    def e_un(self, e, fr, st):
        op = e['op']
        if op in ('++', '--'):
            out = []
            for v, t in self.ev(e['e'], fr, st):
                t = t.copy()
                k = self.lkey(e['e'], fr, t)
                nv = ('c', v[1] + (1 if op == '++' else -1)) if v[0] == 'c' else self.fresh2(t, e, fr)
                if k is not None:
                    self.put(k, nv, t)
                out.append((v if e.get('post') else nv, t))
            return out
        if op == '&':
            k = self.lkey(e['e'], fr, st)
            return [(('addr', k) if k else ('u', ('&', id(e))), st)]
        out = []
        if op == '!':
            for b, t in self.cond(e['e'], fr, st):
                out.append((('c', 0 if b else 1), t))
            return out
        for v, t in self.ev(e['e'], fr, st):
            if op == '-':
                out.append((('c', -v[1]) if v[0] == 'c' else ('e', 'neg', v, None), t))
            elif op == '*':
                self.deref(v, e, fr, t)
                out.append((self.get(v[1], t) if v[0] == 'addr' else ('u', ('*', v)), t))
            else:
                out.append((v, t) if op == '+' else (('e', op, v, None), t))
        return out

    def e_bin(self, e, fr, st):
        op = e['op']
        if op in ('&&', '||', 'and', 'or') and not e.get('ov'):
            return [(('c', 1 if b else 0), t) for b, t in self.cond(e, fr, st)]
        if op == '=':
            return self.assign(e, fr, st)
        if op == ',':
            out = []
            for _, t in self.ev(e['lh'], fr, st):
                out += self.ev(e['rh'], fr, t)
            return out
        out = []
        for vs, t in self.seq([e['lh'], e['rh']], fr, st):
            a, b = vs
            if op in ('<<', '>>') and 'stream' in (a[0],):
                out += self.stream_io(op, a[1], b, e, fr, t)
                continue
            if op in ('==', '!=', '<', '>', '<=', '>='):
                out.append((self.compare(op, a, b, t), t))
                continue
            if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
                t = t.copy()
                k = self.lkey(e['lh'], fr, t)
                nv = self.arith(op[:-1], a, b, e, fr, t)
                if k is not None:
                    self.put(k, nv, t)
                out.append((nv, t))
                continue
            out.append((self.arith(op, a, b, e, fr, t), t))
        return out

    def arith(self, op, a, b, e, fr, st):
        if a[0] == 'c' and b[0] == 'c':
            try:
                x, y = a[1], b[1]
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: int(x / y), '%': lambda: x - y * int(x / y), '<<': lambda: x << y, '>>': lambda: x >> y, '&': lambda: x & y, '|': lambda: x | y}.get(op)
                if r:
                    return ('c', r())
            except (ZeroDivisionError, ValueError, OverflowError):
                pass
        if op == '*' and (a == ('c', 1) or b == ('c', 1)):
            return b if a == ('c', 1) else a
        if op == '*' and (a == ('c', 0) or b == ('c', 0)):
            return ('c', 0)
        if op in ('+', '*'):
            a, b = sorted((a, b), key=repr)
        v = ('e', op, a, b)
        if len(repr(v)) > 1500:
            return self.fresh2(st, e, fr)
        return v

    def assign(self, e, fr, st):
        out = []
        for v, t in self.ev(e['rh'], fr, st):
            t = t.copy()
            k = self.lkey(e['lh'], fr, t)
            if k is not None:
                self.put(k, v, t)
                out.append((v, t))
            else:
                for _, u in self.ev(e['lh'], fr, t):
                    u = u.copy()
                    for r in resources(v):
                        if u.res.get(r) == 'open':
                            u.res[r] = 'escaped'
                    out.append((v, u))
        return out

    def e_cond(self, e, fr, st):
        out = []
        for b, t in self.cond(e['c'], fr, st):
            out += self.ev(e['x'] if b else e['y'], fr, t)
        return out

    def e_throw(self, e, fr, st):
        fr.throws.append((st, e))
        return []

    def e_new(self, e, fr, st):
        return [(self.acquire('object', e, fr, t), t) for t in [st.copy()]]

    def e_delete(self, e, fr, st):
        out = []
        for v, t in self.ev(e['e'], fr, st):
            t = t.copy()
            self.release(v, e, fr, t)
            out.append((('void',), t))
        return out

    def e_init(self, e, fr, st):
        out = []
        for vs, t in self.seq(e.get('a', []), fr, st):
            t = t.copy()
            if len(vs) == 1 and len(e['a']) == 1:
                out.append((vs[0], t))
                continue
            fs = self.fields(e, fr)
            if fs and len(fs) >= len(vs):
                out.append((('obj', tuple(sorted(('.' + f, v) for f, v in zip(fs, vs)))), t))
                continue
            for v in vs:
                self.escape(v, t)
            out.append((self.fresh2(t, e, fr), t))
        return out

    e_plist = e_init

    def fields(self, e, fr):
        ts = re.sub(r'<.*', '', re.sub(r'^(const )?', '', fr.tu.t(e.get('tt') if e.get('tt') is not None else e.get('t')) or ''))
        n = ts.split('::')[-1]
        for r in self.recs():
            if isinstance(r, dict) and r.get('n') == n and r.get('fields') is not None:
                return [f['n'] for f in r['fields']]
        return None

    def e_ctor(self, e, fr, st):
        ts = fr.tu.t(e.get('tt')) or fr.tu.t(e.get('t')) or ''
        out = []
        for vs, t in self.seq(e.get('a', []), fr, st):
            t = t.copy()
            if re.search(r'(^|[ :])Image<', ts) or re.search(r'(^|[ :])Image$', ts):
                if not vs or len(vs) >= 2 and vs[0] == ('c', 0) and vs[1] == ('c', 0):
                    out.append((('empty',), t))
                    continue
                if len(vs) == 1:
                    out.append((vs[0], t))
                    continue
            if re.search(r'basic_string|(^|::)string$|filesystem::path', ts):
                if not vs:
                    out.append((('s', ''), t))
                    continue
                if len(vs) == 1:
                    if vs[0][0] == 'null':
                        # a null path is a precondition of the caller, not an input/output failure
                        t.und = True
                    out.append((vs[0], t))
                    continue
            if len(vs) == 1 and not re.search(r'_ptr|guard|Guard|handle|Handle|closer|Closer', ts) and not resources(vs[0]):
                out.append((vs[0], t))
                continue
            for v in vs:
                self.escape(v, t)
            if vs and vs[0][0] in ('res', 'null') and re.search(r'_ptr', ts):
                out.append((vs[0], t))
                continue
            out.append((self.fresh2(t, e, fr), t))
        return out

    def escape(self, v, st):
        for r in resources(v):
            if st.res.get(r) == 'open':
                st.res[r] = 'escaped'

    # ---------------------------------------------------------------- resources
    def acquire(self, kind, e, fr, st):
        k = (fr.id, id(e))
        old = st.res.get(k)
        if old == 'open' and not any(contains(v, ('res', k)) for v in st.env.values()):
            self.problem('leak', k, fr, e, '%s acquired again while the previous one was never released' % kind, st)
        st.res[k] = 'open'
        self.sites[k] = (kind, fr.fn, e.get('l', 0), e)
        return ('res', k)

    def release(self, v, e, fr, st):
        if v[0] == 'res':
            s = st.res.get(v[1])
            kind = self.sites[v[1]][0]
            if s == 'closed':
                self.problem('double', v[1], fr, e, '%s released twice' % kind, st)
            st.res[v[1]] = 'closed'
            return True
        return False

    def use(self, v, e, fr, st):
        if v[0] == 'res' and st.res.get(v[1]) == 'closed':
            self.problem('useafter', v[1], fr, e, '%s used after it was released' % self.sites[v[1]][0], st)

    def deref(self, v, e, fr, st):
        self.use(v, e, fr, st)
        if v[0] == 'null' and st.fails:
            self.problem('nulluse', st.fails[-1], fr, e, 'continues with a null pointer after %s failed' % self.failname(st.fails[-1]), st)

    def failname(self, f):
        return '%s at line %d' % (f[1], f[2])

    def fail(self, st, e, what, fr):
        if not st.fails:
            st.fails = (((fr.fn.key if fr.fn else ''), what, e.get('l', 0), id(e)),)

    # ---------------------------------------------------------------- streams
    def stream_open(self, v, init, ts, fr, st, key):
        kind = 'out' if 'ofstream' in ts else 'in' if 'ifstream' in ts else 'io'
        out = []
        args = (init or {}).get('a') or []
        for vs, t in self.seq(args, fr, st):
            if not vs:
                t = t.copy()
                k = (fr.id, v['id'])
                t.streams[k] = (kind, 'closed')
                t.env[key] = ('stream', k)
                out.append(t)
                continue
            for ok in (True, False):
                u = t.copy()
                k = (fr.id, v['id'])
                u.streams[k] = (kind, 'ok' if ok else 'unopened')
                u.env[key] = ('stream', k)
                if not ok:
                    self.fail(u, init, 'opening a file', fr)
                out.append(u)
        return out

    def stream_check(self, k, st):
        kind, s = st.streams[k]
        if s in ('failed', 'unopened'):
            return [(False, st)]
        if s == 'ok':
            return [(True, st)]
        if s in ('dirty', 'flushed'):
            a, b = st.copy(), st.copy()
            a.streams[k] = (kind, 'ok')
            if s == 'dirty':
                a.und = a.und
                a.streams[k] = (kind, 'seen')
            b.streams[k] = (kind, 'failed')
            b.fails = b.fails or (('', 'writing to the file', 0, ('w', k)),)
            return [(True, a), (False, b)]
        return [(True, st), (False, st.copy())]

    def stream_io(self, op, k, v, e, fr, st):
        kind, s = st.streams[k]
        if op == '<<':
            t = st.copy()
            if s not in ('failed', 'unopened'):
                t.streams[k] = (kind, 'flushed' if v[0] == 'u' and 'endl' in repr(v) or v == ('u', ('g', 'std::flush')) else 'dirty')
            return [(('stream', k), t)]
        # extraction: succeeds, or fails and leaves the stream failed
        if s in ('failed', 'unopened'):
            return [(('stream', k), st)]
        a, b = st.copy(), st.copy()
        key = self.lkey(e['rh'], fr, a)
        if key is not None:
            self.put(key, ('u', ('tok', fr.id, id(e))), a)
            self.fresh(a, ('tok', fr.id, id(e)))
            a.facts[('e', '==') + tuple(sorted((('u', ('tok', fr.id, id(e))), ('s', '')), key=repr))] = False
        a.streams[k] = (kind, 'ok')
        b.streams[k] = (kind, 'failed')
        self.fail(b, e, 'reading from a file', fr)
        return [(('stream', k), a), (('stream', k), b)]

    def stream_method(self, nm, k, vs, e, fr, st):
        kind, s = st.streams[k]
        if nm in ('is_open',):
            return [(('c', 0 if s in ('closed', 'unopened') else 1), st)]
        if nm in ('good', 'operator bool'):
            return [(('c', 1 if b else 0), t) for b, t in self.stream_check(k, st)]
        if nm in ('fail', 'bad', 'operator!'):
            return [(('c', 0 if b else 1), t) for b, t in self.stream_check(k, st)]
        if nm in ('flush', 'close'):
            t = st.copy()
            if s in ('dirty', 'seen'):
                t.streams[k] = (kind, 'flushed')
            return [(('stream', k), t)]
        if nm == 'open':
            out = []
            for ok in (True, False):
                u = st.copy()
                u.streams[k] = (kind, 'ok' if ok else 'unopened')
                if not ok:
                    self.fail(u, e, 'opening a file', fr)
                out.append((('void',), u))
            return out
        if nm in ('write', 'put'):
            t = st.copy()
            if s not in ('failed', 'unopened'):
                t.streams[k] = (kind, 'dirty')
            return [(('stream', k), t)]
        if nm in ('exceptions',):
            t = st.copy()
            t.streams[k] = (kind, 'excepting')
            return [(('void',), t)]
        return [(('u', ('sm', nm, id(e))), st)]

    # ---------------------------------------------------------------- calls
    def e_call(self, e, fr, st):
        f = e['f']
        if f is None:
            return self.generic(e, fr, st)
        if f['k'] == 'mem':
            return self.method(e, f, fr, st)
        if f['k'] == 'ref' and f.get('dk') in ('func', 'ovl', 'dep', 'gvar'):
            q = f.get('q') or f['n']
            return self.function(q, f, e, fr, st)
        out = []
        for v, t in self.ev(f, fr, st):
            for vs, u in self.seq(e['a'], fr, t):
                if v[0] == 'lam' and (v[1], v[2]) in getattr(self, 'lams', {}):
                    node, dfr = self.lams[(v[1], v[2])]
                    out += self.call_lambda(node, dfr, vs, e, fr, u)
                else:
                    out += self.unknown_call('', vs, e, fr, u)
        return out

    def method(self, e, f, fr, st):
        b = f.get('b')
        out = []
        nm = f['n']
        bs = self.ev(b, fr, st) if b is not None else [(('void',), st)]
        for bv, t in bs:
            for vs, u in self.seq(e['a'], fr, t):
                if bv[0] == 'stream':
                    out += self.stream_method(nm, bv[1], vs, e, fr, u)
                    continue
                self.use(bv, e, fr, u)
                if nm in ('string', 'c_str', 'data', 'native', 'u8string', 'get', 'operator bool') and not vs:
                    out.append((bv, u))
                    continue
                if nm == 'empty' and not vs:
                    if bv[0] == 's':
                        out.append((('c', 1 if bv[1] == '' else 0), u))
                    else:
                        out.append((self.compare('==', bv, ('s', ''), u), u))
                    continue
                u = u.copy()
                if nm not in ('at', 'at_without_boundary_check', 'getWidth', 'getHeight', 'size', 'count', 'getSize', 'getDimensionality', 'begin', 'end', 'get'):
                    for v in vs:
                        self.escape(v, u)
                out.append((('u', ('call', nm, bv, tuple(vs))) if len(repr((bv, vs))) < 600 else self.fresh2(u, e, fr), u))
        return out

    def function(self, q, f, e, fr, st):
        args = e['a']
        n = q.split('::')[-1]
        if q in ('std::move', 'std::forward', 'std::as_const', 'std::ref') and args:
            return self.ev(args[0], fr, st)
        if n == 'getline' and len(args) >= 2:
            return self.getline(args, e, fr, st)
        out = []
        for vs, t in self.seq(args, fr, st):
            if q in ACQUIRE:
                kind = ACQUIRE[q]
                a, b = t.copy(), t.copy()
                v = self.acquire(kind, e, fr, a)
                if kind == 'file':
                    mode = vs[1][1] if len(vs) > 1 and vs[1][0] == 's' else '?'
                    a.res[v[1] + ('mode',)] = 'w' if mode and mode[:1] in 'wa' else 'r'
                out.append((v, a))
                self.fail(b, e, {'file': 'opening a file', 'buffer': 'allocating memory', 'library': 'loading a library'}[kind], fr)
                b.res.pop(v[1], None)
                out.append((('null',), b))
                continue
            if q in RELEASE:
                t = t.copy()
                v = vs[0] if vs else ('void',)
                if v[0] == 'null' and 'fclose' in q:
                    self.deref(v, e, fr, t)
                if v[0] == 'res':
                    self.release(v, e, fr, t)
                    if t.res.get(v[1] + ('mode',)) == 'w' and 'close' in q:
                        b = t.copy()
                        self.fail(b, e, 'writing the file (fclose)', fr)
                        out.append((('c', -1), b))
                        out.append((('c', 0), t))
                        continue
                elif v[0] not in ('null',):
                    # a handle that came from the caller: remember that it was released
                    kk = ('ext', v)
                    if t.res.get(kk) == 'closed':
                        self.sites.setdefault(kk, ('handle', fr.fn, e.get('l', 0), e))
                        self.problem('double', kk, fr, e, 'handle released twice', t)
                    if v[0] == 'u' and v[1] and v[1][0] in ('p', 'k', 'f'):
                        t.res[kk] = 'closed'
                out.append((('c', 0), t))
                continue
            if q in TRANSFER and len(vs) == 4:
                h = vs[3]
                self.deref(h, e, fr, t)
                self.deref(vs[0], e, fr, t)
                wr = 'write' in q
                want = vs[2]
                if want == ('c', 0):
                    out.append((('c', 0), t))
                    continue
                a, b = t.copy(), t.copy()
                out.append((('cnt', True, id(e), want), a))
                self.fail(b, e, 'writing to a file' if wr else 'reading from a file', fr)
                out.append((('cnt', False, id(e), want), b))
                continue
            if n in PARSE and vs and vs[0] == ('s', ''):
                fr.throws.append((t, e))
                continue
            if q in ('exit', 'abort', 'std::exit', 'std::abort', 'std::terminate', 'std::quick_exit', '_exit'):
                fr.throws.append((t, e))
                continue
            gs = self.targets(q, f, e, fr)
            if len(gs) == 1 and fr.depth < 6 and self.inline_ok(gs[0]):
                out += self.call(gs[0], args, vs, e, fr, t)
                continue
            if gs and any(self.inline_ok(g) for g in gs):
                # several candidates: nothing definite
                t = t.copy()
                t.und = True
            out += self.unknown_call(q, vs, e, fr, t)
        return out

    def getline(self, args, e, fr, st):
        out = []
        for vs, t in self.seq(args, fr, st):
            t = t.copy()
            k = self.lkey(args[1], fr, t)
            if k is not None:
                self.put(k, self.fresh2(t, e, fr), t)
            out.append((self.fresh2(t, args[0], fr), t))
        return out

    def targets(self, q, f, e, fr):
        k = e.get('fk') or f.get('fk')
        gs = [self.P.bykey[k]] if k in self.P.bykey and self.P.bykey[k].body else []
        if gs:
            return gs
        if not gs:
            gs = self.byq.get(q, []) or [g for k, v in self.byq.items() if k.split('::')[-1] == q.split('::')[-1] and '::' not in q for g in v]
        n = len(e['a'])
        gs = [g for g in gs if self.arity(g, n)]
        if len(gs) > 1:
            gs = self.bytype(gs, e, fr) or gs
        return gs

    def arity(self, g, n):
        lo = len([p for p in g.params if not p.get('def') and not p.get('pack')])
        hi = len(g.params) if not any(p.get('pack') for p in g.params) else 99
        return lo <= n <= hi

    def bytype(self, gs, e, fr):
        ft = fr.tu.t(e['f'].get('t'))
        if ft and '(' in ft:
            r = []
            for g in gs:
                ps = ', '.join(re.sub(r' ?const$', '', g.ptype(i)) for i in range(len(g.params)))
                inner = ft[ft.index('(') + 1:ft.rindex(')')]
                if canon(ps) == canon(inner):
                    r.append(g)
            if r:
                return r[:1]
        return []

    def call(self, g, argn, vs, e, fr, st):
        key = fr.id + (id(e),)
        if len(key) > 8 or any(x is g for x in self.stack(fr)):
            return self.unknown_call(g.q, vs, e, fr, st)
        nf = Frame(g, g.tu, key, fr.depth + 1)
        nf.chain = ()
        nf.this = None
        self.stacks = getattr(self, 'stacks', {})
        self.stacks[key] = self.stack(fr) + [g]
        t = st.copy()
        for i, p in enumerate(g.params):
            if i < len(vs):
                pt = g.ptype(i).rstrip()
                lk = self.lkey(argn[i], fr, st) if i < len(argn) and pt.endswith('&') else None
                t.env[(key, p['id'])] = ('ref', lk) if lk is not None else vs[i]
            elif p.get('def'):
                d = p['def']
                t.env[(key, p['id'])] = self.ev(d, nf, t)[0][0] if isinstance(d, dict) else ('u', ('def', g.key, i))
            else:
                t.env[(key, p['id'])] = ('u', ('def', g.key, i))
        return self.body(g.body, nf, [t], fr, e)

    def stack(self, fr):
        return getattr(self, 'stacks', {}).get(fr.id, [fr.fn])

    def body(self, b, nf, sts, fr, e):
        outs = self.block(b, nf, sts)
        res = [(('void',), s) for s in outs] + [(v, s) for v, s, _ in nf.rets]
        for s, n in nf.throws:
            fr.throws.append((self.drop(s, nf.id), n))
        r = [(v, self.drop(s, nf.id, v)) for v, s in res]
        seen = {}
        for v, s in r:
            seen.setdefault((v, s.key()), (v, s))
        return list(seen.values())

    def drop(self, st, fid, keep=None):
        st = st.copy()
        for k in [k for k in st.env if k[0] == fid]:
            del st.env[k]
        for f in [f for f in st.facts if mentions(f, fid)]:
            del st.facts[f]
        return st

    def call_lambda(self, node, dfr, vs, e, fr, st):
        key = fr.id + (id(e), 'l')
        if len(key) > 12:
            return self.unknown_call('', vs, e, fr, st)
        nf = Frame(dfr.fn, dfr.tu, key, fr.depth + 1, (dfr.id,) + tuple(dfr.chain))
        nf.this = dfr.this
        t = st.copy()
        for i, p in enumerate(node.get('params') or []):
            t.env[(key, p['id'])] = vs[i] if i < len(vs) else ('u', ('lp', id(p)))
        return self.body(node['body'], nf, [t], fr, e)

    BORROW = re.compile(r'^(std::)?(printf|fprintf|sprintf|snprintf|puts|fputs|fseek|ftell|rewind|feof|ferror|fflush|memset|memcpy|memmove|memcmp|strlen|fgetc|fputc|getc|putc|fgets|fscanf|setvbuf|clearerr|dlsym|dlerror|copy|copy_n|fill|fill_n|abs|min|max|size|begin|end|swap|transform|for_each|print|println|format|to_string)$')

    def unknown_call(self, q, vs, e, fr, st):
        t = st.copy()
        if q in ('std::swap', 'std::exchange'):
            t.und = True
        for v in vs:
            if v[0] == 'null' and re.match(r'^(std::)?(fseek|ftell|memset|memcpy|memmove|fputs|fgets|fprintf)$', q or ''):
                self.deref(v, e, fr, t)
            self.use(v, e, fr, t)
            if not self.BORROW.match(q or '') and not self.borrows(q):
                self.escape(v, t)
            if v[0] == 'addr':
                k = v[1]
                if k in t.env or k[:2] in t.env:
                    old = self.get(k, t)
                    self.escape(old, t)
                    self.put(k, self.fresh(t, ('out', fr.id, id(e), k)), t)
            if v[0] == 'stream':
                t.streams[v[1]] = (t.streams[v[1]][0], 'given')
        if self.BORROW.match(q or '') and re.search(r'fprintf|fputs|fputc', q):
            pass
        return [(self.fresh2(t, e, fr), t)]

    def borrows(self, q):
        """functions of the library itself that are not followed: they take images and sizes"""
        return False


def canon(s):
    s = re.sub(r'\b(const|class|struct|TinyDIP::|std::)\b', '', s)
    s = re.sub(r'TinyDIP::|std::|__cxx11::', '', s)
    s = re.sub(r'basic_string<char>', 'string', s)
    return re.sub(r'\s+', '', s)


def mentions(v, fid):
    if isinstance(v, tuple):
        return v == fid or any(mentions(x, fid) for x in v)
    return False


def contains_cnt(v):
    if isinstance(v, tuple):
        if v and v[0] == 'cnt':
            return True
        return any(contains_cnt(x) for x in v)
    return False


def short_in(v):
    if isinstance(v, tuple):
        if v and v[0] == 'cnt' and v[1] is False:
            return True
        return any(short_in(x) for x in v)
    return False
