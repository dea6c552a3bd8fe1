"""Convenience overloads pass every option on: what each parameter of a delegating overload is bound to at the delegated call."""
from lib import *

TUS = ['lib']
MIN = {'used': 200, 'forward': 100}
FILES = ('image_operations.h', 'basic_functions.h', 'image.h', 'cube_operations.h', 'histogram.h', 'linear_algebra.h')


class Rec(Interp):
    """records the calls of other overloads of the analysed function; their results stay opaque"""

    def invoke_with(self, c, args, lvs, e, fr, st, nm, wantlv=False, this=None, thislv=None):
        if c and all(g.name == self.me.name and g.cls == self.me.cls for g in c):
            gs = [g for g in c if g is not self.me]
            if gs:
                self.deleg.append((tuple(gs), tuple(args), e))
                return mk('app', 'DELEGATE', tuple(x for a in args for x in (a if isinstance(a, tuple) else (a,)) if isinstance(x, T)), None)
        return Interp.invoke_with(self, c, args, lvs, e, fr, st, nm, wantlv, this, thislv)


def norm(n):
    return re.sub(r'_', '', n or '').lower()


NAMED = ('sym', 'imgp', 'var', 'policy')


def occurs(t):
    return {x.a[0] for x in subterms(t) if x.k in NAMED and x.a}


def opaque_in(t):
    return any(x.k in ('lam', 'UNK', 'unk', 'lost', 'fnref', 'uninitv') or x.k in ('sym', 'var') and '#' in str(x.a[0]) for x in subterms(t))


def live(f):
    """ids that the body uses; the initialiser of a local that is never used does not count, nor does a cast to void"""
    dead = set()
    while True:
        got, decl = set(), {}

        def go(x):
            if isinstance(x, list):
                for y in x:
                    go(y)
                return
            if not isinstance(x, dict):
                return
            if x.get('k') == 'ref' and 'id' in x:
                got.add(x['id'])
            if x.get('k') == 'cast' and strip_type(f.tu.t(x.get('tt')) or f.tu.t(x.get('t')) or '') == 'void':
                return
            if x.get('k') == 'var' and 'id' in x:
                decl[x['id']] = x
                if x['id'] in dead:
                    return
            for v in x.values():
                if isinstance(v, (dict, list)):
                    go(v)
        go(f.body)
        for i in f.d.get('inits') or []:
            go(i)
        new = {i for i in decl if i not in got} | dead
        if new == dead:
            return got
        dead = new


def policy(f, i):
    return kind_of_type(f.ptype(i), f.req()) == 'policy'


def run(P, R):
    R.rule('used', 'every named parameter of a library function is used by its body (a parameter that reaches nothing is an option that was dropped); trivial base cases and type-selecting parameters excepted')
    R.rule('forward', 'at every delegated call, parameters of the same name are not interchanged, and on no exit that returns the delegated result is an option independent of the caller\'s parameter of that name')
    for f in P.funcs:
        if not f.body or f.file not in FILES:
            continue
        I = Rec(P)
        I.me, I.deleg, I.each, I.maxalts = f, [], True, 6
        try:
            fr = I.run(f)
        except RecursionError:
            fr = None
        bad, mine = unused(R, f)
        if fr is None:
            R.unknown('forward', '%s:%d %s (budget)' % (f.file, f.line, f.sig()))
            continue
        if not I.deleg:
            continue
        judge(I, R, f, fr, bad, mine)


def base_case(f):
    """a single return without a call of a library function"""
    b = [x for x in walk(f.body) if x['k'] in ('return', 'if', 'for', 'while', 'rfor', 'decl', 'throw')]
    if len(b) != 1 or b[0]['k'] != 'return':
        return False
    return not any(x['k'] == 'call' and not str((x.get('f') or {}).get('q') or x.get('q') or '').startswith('std::') for x in walk(f.body))


def selects_type(f, i):
    """the parameter's own template parameter is used as a type in the body"""
    tp = strip_type(f.ptype(i))
    if tp not in [t['n'] for t in f.d.get('tps', [])]:
        return False
    pat = re.compile(r'\b%s\b' % re.escape(tp))
    return any(isinstance(x.get(k), int) and pat.search(f.tu.t(x[k]) or '') for x in walk(f.body) for k in ('t', 'tt', 'ct'))


def unused(R, f):
    got = live(f)
    bad = set()
    mine = {}
    for i, p in enumerate(f.params):
        if not p.get('n') or policy(f, i):
            continue
        mine[norm(p['n'])] = p['n']
        w = '%s:%d %s parameter %s' % (f.file, f.line, f.sig(), p['n'])
        if p['id'] in got:
            R.ok('used', w)
        elif base_case(f) or selects_type(f, i):
            R.unknown('used', w + ' (base case or type selector)')
        else:
            bad.add(p['n'])
            R.bad('used', fkey(f) + '|' + norm(p['n']), f.file, f.line, f.sig(), 'the parameter %s has no effect' % p['n'])
    return bad, mine


def judge(I, R, f, fr, bad, mine):
    for gs, args, e in I.deleg:
        w = '%s:%d %s delegates at line %s' % (f.file, f.line, f.sig(), e.get('l'))
        vs = [x for x in (crossing(g, args, mine, f) for g in gs) if x]
        good = [g for g in gs if consistent(g, args, mine)]
        if vs and not good:
            R.bad('forward', fkey(f) + '|' + vs[0][0], f.file, e.get('l') or f.line, f.sig(), vs[0][1])
            continue
        gs = good or gs
        v, n = None, 0
        for x in fr.exits:
            r = independent(gs, args, mine, x, e)
            if r and r[0] not in bad:
                v = r
        if v:
            R.bad('forward', fkey(f) + '|' + norm(v[0]), f.file, e.get('l') or f.line, f.sig(), v[1])
        else:
            R.ok('forward', w)


def crossing(g, args, mine, f):
    """parameters of the same name that receive one another's arguments"""
    if f.name.startswith('operator'):
        return None
    m = {}
    for j, q in enumerate(g.params):
        if q.get('pack') or j >= len(args) or norm(q.get('n')) not in mine:
            continue
        a = args[j]
        if isinstance(a, T) and a.k in NAMED and a.a and norm(a.a[0]) in mine:
            m[norm(q['n'])] = norm(a.a[0])
    for q in m:
        seen, x = [], q
        while x in m and x not in seen:
            seen.append(x)
            x = m[x]
        if x == q and len(seen) > 1:
            return '~'.join(sorted(seen)), 'passes %s to the overload at line %d' % (', '.join('%s as %s' % (mine[m[y]], mine[y]) for y in seen), g.line)
    return None


def consistent(g, args, mine):
    """every parameter of the overload that has the name of one of ours and receives one of our parameters receives that one"""
    for j, q in enumerate(g.params):
        if q.get('pack') or j >= len(args) or not q.get('n'):
            continue
        a = args[j]
        if isinstance(a, T) and a.k in NAMED and a.a and norm(a.a[0]) in mine and norm(a.a[0]) != norm(q['n']) and (norm(q['n']) in mine or norm(a.a[0]) in [norm(y.get('n')) for y in g.params]):
            return False
    return True


def independent(gs, args, mine, x, e):
    """the delegated result is returned, an option of the overload has the name of one of our parameters, and neither the result nor the condition depends on that parameter"""
    v = x['val']
    if not isinstance(v, T) or not any(t.k == 'app' and t.a[0] == 'DELEGATE' for t in subterms(v)):
        return None
    flat = tuple(y for a in args for y in (a if isinstance(a, tuple) else (a,)) if isinstance(y, T))
    if not any(t.k == 'app' and t.a[0] == 'DELEGATE' and t.a[1] == flat for t in subterms(v)):
        return None
    if opaque_in(v) or any(opaque_in(c) for c in x['pc'] if isinstance(c, T)):
        return None
    dep = set().union(occurs(v), *[occurs(c) for c in x['pc'] if isinstance(c, T)])
    dep = {norm(str(d)) for d in dep}
    for n, orig in mine.items():
        if n in dep or any(d.startswith(n) for d in dep):
            continue
        if all(any(norm(q.get('n')) == n and not q.get('pack') for q in g.params) for g in gs):
            return orig, 'the result of the delegated call does not depend on %s, although the overload has that option' % orig
    return None
