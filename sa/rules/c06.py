"""Parallel execution is free of data races."""
from lib import *

TUS = ['lib']
MIN = {'write': 40}


def par_ivs(r, e):
    """induction variables whose iterations run concurrently"""
    if r.kind == 'omp':
        ls = e['loops'][r.loop0:r.loop0 + r.collapse] if 'for' in r.dir or r.dir in ('taskloop', 'distribute') else ()
        return [l.iv for l in ls]
    if r.kind == 'async':
        # one task per iteration of the loops enclosing the launch
        return [l.iv for l in e['loops'][:r.loop0]]
    return list(r.ivs)


def concurrent(r):
    if r.kind == 'omp':
        return r.mustpar or r.dir
    if getattr(r, 'seq', False):
        return False
    return True


def private(r, key):
    return isinstance(key, tuple) and len(key) == 2 and (key[1] in r.private or key[1] in r.reduction)


def inner_ivs(e, r, pars):
    base = r.loop0
    return [l.iv for l in e['loops'][base:] if l.iv not in pars]


def affine(t, iv):
    """(coefficient, rest) when t is affine in iv with a constant coefficient, else None"""
    p = poly_of(t)
    co = 0
    for m, c in p.items():
        ks = [a for a in m]
        names = [a[0] if isinstance(a, tuple) else a for a in ks]
        if any(iv in subterms(a) for a in names):
            if len(names) == 1 and names[0] is iv and (not isinstance(ks[0], tuple) or ks[0][1] == 1):
                co = c
            else:
                return None
    return co, sub(t, mul(const(co), iv))


def symstep(t, iv):
    """(stride term, rest) when t = iv*stride + rest with neither containing iv"""
    z = subst(t, {iv: ZERO})
    o = subst(t, {iv: ONE})
    d = sub(o, z)
    if iv in subterms(d):
        return None
    if sub(t, add(z, mul(iv, d))) is ZERO:
        return d, z
    return None


def depends(t, iv):
    return iv in subterms(t)


def opaque_terms(t, pars):
    """uninterpreted terms whose value may depend on the iteration"""
    return any(s.k in ('sym', 'app', 'elem', 'get', 'fld', 'px', 'ite') and (s.k == 'sym' and '#' in str(s.a[0]) or any(p in subterms(s) for p in pars)) for s in subterms(t))


def merge_divmod(coords):
    """(E mod d, E div d) determine E: treat the pair as the single coordinate E"""
    cs = [c.a[0] if c.k == 'lin' else c for c in coords]
    for i, a in enumerate(cs):
        if a.k != 'mod':
            continue
        for j, b in enumerate(cs):
            if i != j and b.k == 'quot' and b.a[0] is a.a[0] and b.a[1] is a.a[1]:
                return merge_divmod([c for n, c in enumerate(cs) if n not in (i, j)] + [a.a[0]])
    return tuple(cs)


def classify(e, r, coords, pars, I):
    """ok / bad / unk: are the written locations of different iterations disjoint?"""
    coords = merge_divmod(coords)
    inner = inner_ivs(e, r, pars)
    missing = []
    for iv in pars:
        ok = False
        for c in coords:
            c0 = c.a[0] if c.k == 'lin' else c
            s = symstep(c0, iv)
            if s is None:
                continue
            d, rest = s
            if d is ZERO:
                continue
            others = [p for p in pars if p is not iv and depends(rest, p)]
            ins = [j for j in inner if depends(rest, j)]
            if any(s2.k == 'sym' and '#' in str(s2.a[0]) for s2 in subterms(rest)):
                continue
            if not others and not ins:
                ok = True
                break
            # block writes: stride must cover the extent of what the rest can reach
            span = ZERO
            good = True
            for v in others + ins:
                s3 = symstep(rest, v)
                if s3 is None or not isinstance(v.a[2], T):
                    good = False
                    break
                span = add(span, mul(s3[0], sub(v.a[2], ONE)))
            if good and (entails(e['facts'], lt(span, d)) or sub(d, add(span, ONE)) is ZERO):
                ok = True
                break
        if not ok:
            missing.append(iv)
    if not missing:
        return 'ok'
    if len(pars) > 1 and len(coords) == 1:
        # one linear index over several iteration variables: w*y + x
        c0 = coords[0].a[0] if coords[0].k == 'lin' else coords[0]
        st = [symstep(c0, iv) for iv in pars]
        if all(st) and not any(depends(c0, j) for j in inner):
            for big in pars:
                rest = [p for p in pars if p is not big]
                d = symstep(c0, big)[0]
                span = ZERO
                for p in rest:
                    span = add(span, mul(symstep(c0, p)[0], sub(p.a[2], ONE)))
                if isinstance(d, T) and not any(depends(d, p) for p in pars) and sub(d, add(span, ONE)) is ZERO:
                    return 'ok'
    for iv in missing:
        if not any(depends(c, iv) for c in coords) and not any(opaque_terms(c, pars) for c in coords) and not one_iteration(iv):
            return 'bad'
    # the iteration number enters only through its remainder (or quotient) by d although it runs over several times d
    for iv in missing:
        via = [s for c in coords for s in subterms(c) if s.k in ('mod', 'quot') and s.a[0] is iv]
        if not via or any(opaque_terms(c, [p for p in pars if p is not iv]) for c in coords):
            continue
        marks = {s: mk('sym', 'hole%d' % n, 'size') for n, s in enumerate(dict.fromkeys(via))}
        if any(depends(subst(c, marks), iv) for c in coords) or not isinstance(iv.a[2], T):
            continue
        if len({(s.k, s.a[1]) for s in via}) == 1 and cval(iv.a[2]) is None and not entails(e['facts'], le0(sub(iv.a[2], via[0].a[1]))) and via[0].a[1] is not iv.a[2] and \
                any(via[0].a[1] is (a[0] if isinstance(a, tuple) else a) for m in poly_of(iv.a[2]) for a in m):
            return 'bad'
        ms = [s.a[1] for s in via if s.k == 'mod']
        qs = [s.a[1] for s in via if s.k == 'quot']
        if len(ms) == 1 and len(qs) == 1 and ms[0] is not qs[0] and not entails(e['facts'], le0(sub(qs[0], ms[0]))) and cval(iv.a[2]) is None:
            return 'bad'
    # iv + j with unit steps: neighbouring iterations meet
    for iv in missing:
        for k, c in enumerate(coords):
            c0 = c.a[0] if c.k == 'lin' else c
            s = symstep(c0, iv)
            if s and cval(s[0]) in (1, -1):
                js = [j for j in inner if depends(s[1], j)]
                if js and all((lambda q: q and cval(q[0]) in (1, -1))(symstep(s[1], j)) for j in js) and not any(opaque_terms(x, pars) for x in coords) \
                        and not any(depends(x, iv) for n, x in enumerate(coords) if n != k) and not any(isinstance(j.a[2], T) and cval(j.a[2]) in (0, 1) for j in js):
                    return 'bad'
    return 'unk'


def one_iteration(iv):
    return isinstance(iv.a[2], T) and cval(iv.a[2]) in (0, 1)


def run(P, R):
    R.rule('write', 'inside a parallel loop, parallel algorithm or task, every write to a variable, container or pixel that lives outside the iteration goes to a location '
                    'no other iteration touches (injective in the parallel induction variables), is a reduction, or is protected by a critical section, lock or atomic')
    R.rule('read', 'no iteration reads a location of the same object that another iteration writes without protection')
    I = Interp(P)
    for f in P.funcs:
        if not f.body or f.file not in LIBH:
            continue
        src = list(walk(f.body))
        if not any(n['k'] in ('omp', 'call') for n in src):
            continue
        fr = I.run(f)
        if fr is None:
            if any(n['k'] == 'omp' for n in src):
                R.unknown('write', '%s:%d %s (budget)' % (f.file, f.line, f.sig()))
            continue
        judge(P, R, I, f)


def own_ids(f):
    if '_ids' not in f.d:
        f.d['_ids'] = {p['id'] for p in f.params}
        for n in walk(f.body):
            for v in n.get('v', []) if n['k'] == 'decl' else []:
                if isinstance(v, dict) and 'id' in v:
                    f.d['_ids'].add(v['id'])
                for b in v.get('b', []) if isinstance(v, dict) else []:
                    f.d['_ids'].add(b['id'])
    return f.d['_ids']


def judge(P, R, I, f):
    groups = {}
    for e in I.events:
        for r in e['regions']:
            if concurrent(r):
                groups.setdefault(id(r), (r, []))[1].append(e)
    for r, evs in groups.values():
        if r.fn is not f:
            # judged when the owning function itself is analysed, except for state captured from this caller
            mine = own_ids(f)
            evs = [e for e in evs if e.get('fn') is f or (lambda k: isinstance(k, tuple) and len(k) == 2 and k[1] in mine)(e.get('root') or e.get('key'))]
        rl = '%s:%s' % (r.fn.file if r.fn else f.file, r.line)
        own = r.fn is f
        writes = {}
        for e in evs:
            if e['k'] == 'wvar':
                key, coords = e['key'], None
            elif e['k'] in ('welem',):
                key, coords = e['root'], (e['idx'],)
                if any(x['k'] == 'pxw' and x['l'] == e['l'] and x['root'] == e['root'] for x in evs):
                    continue
            elif e['k'] == 'pxw':
                key, coords = e['root'], e['coords']
            elif e['k'] == 'cmut':
                key, coords = e['root'], None
            elif e['k'] == 'wdata':
                key, coords = e['root'], None
            else:
                continue
            if e.get('decl', 0) >= r.depth and key is not None:
                continue
            if key is None and e['k'] != 'wvar':
                pars = par_ivs(r, e)
            if private(r, key):
                continue
            ty = I.ctype.get(key, '')
            if 'atomic' in ty:
                continue
            writes.setdefault(key, []).append((e, coords))
        for key, ws in writes.items():
            where = '%s in %s (region at %s) key %s' % (f.sig(), f.file, rl, name_of(P, I, f, key))
            nm = name_of(P, I, f, key)
            for e, coords in ws:
                w = '%s line %s' % (where, e['l'])
                if e['crit']:
                    R.ok('write', w + ' protected')
                    continue
                pars = par_ivs(r, e)
                if r.kind == 'async' and not pars and coords is None:
                    # a single task writing captured state: conflicts only with concurrent users
                    R.unknown('write', w)
                    continue
                if coords is None:
                    if e['k'] == 'wvar' and key is None:
                        R.unknown('write', w)
                        continue
                    if not pars and r.kind == 'omp':
                        R.unknown('write', w)
                        continue
                    if all(one_iteration(p) for p in pars) and pars:
                        continue
                    R.bad('write', '%s|%s' % (fkey(r.fn or f), nm), e['file'], e['l'], f.sig(),
                          '%s, declared outside the parallel region at line %s, is %s by every iteration without synchronisation' %
                          (nm, r.line, 'written' if e['k'] != 'cmut' else 'modified (%s)' % e['name']))
                    continue
                if key is not None and re.search(r'vector<bool>|Image<bool>', I.ctype.get(key, '')):
                    v = classify(e, r, coords, pars, I)
                    R.bad('write', '%s|%s|bits' % (fkey(r.fn or f), nm), e['file'], e['l'], f.sig(), '%s packs bits: concurrent element writes share bytes' % nm) if v != 'unk' and not e['crit'] else R.unknown('write', w)
                    continue
                v = classify(e, r, coords, pars, I)
                if v == 'ok':
                    R.ok('write', w)
                elif v == 'unk':
                    R.unknown('write', w + ' at ' + ','.join(show(c)[:60] for c in coords))
                else:
                    R.bad('write', '%s|%s' % (fkey(r.fn or f), nm), e['file'], e['l'], f.sig(),
                          'iterations of the parallel region at line %s write %s at (%s), which is not distinct per iteration' % (r.line, nm, ','.join(show(c) for c in coords)))
            n0 = len(R.findings), len(R.unk['read'])
            reads(R, I, f, r, key, ws, evs, nm, where)
            if (len(R.findings), len(R.unk['read'])) == n0:
                R.ok('read', where)


def reads(R, I, f, r, key, ws, evs, nm, where):
    if key is None:
        return
    for e in evs:
        if e['crit']:
            continue
        if e['k'] == 'rvar' and e['key'] == key and all(c is None for _, c in ws) and any(w['crit'] for w, _ in ws) and not private(r, key):
            if any(w['k'] == 'wvar' for w, _ in ws):
                R.bad('read', '%s|%s|read' % (fkey(r.fn or f), nm), e['file'], e['l'], f.sig(),
                      '%s is read outside the critical section that other iterations of the region at line %s write it in' % (nm, r.line))
            continue
        if e['k'] == 'px' and e['root'] == key:
            co = e['coords']
        elif e['k'] == 'relem' and e['root'] == key:
            co = (e['idx'],)
        else:
            continue
        pars = par_ivs(r, e)
        for w, wc in ws:
            if wc is None or w['crit'] or len(wc) != len(co):
                continue
            if all(a is b for a, b in zip(wc, co)):
                continue
            if any(c.k == 'vidx' for c in wc + co):
                # coordinate lists: every iteration writes one place, but a nested loop of it reads many of the same object
                if len(e['loops']) > len(w['loops']) and not any(inner_ivs(w, r, par_ivs(r, w))) and e['l'] != w['l']:
                    R.bad('read', '%s|%s|read' % (fkey(r.fn or f), nm), w['file'], w['l'], f.sig(),
                          'iterations of the parallel region at line %s write %s here while a nested loop (line %s) of the other iterations reads it' % (r.line, nm, e['l']))
                else:
                    R.unknown('read', where + ' read line %s' % e['l'])
                continue
            diff = [sub(b.a[0] if b.k == 'lin' else b, a.a[0] if a.k == 'lin' else a) for a, b in zip(wc, co)]
            # definite conflict: constant non-zero offset along a parallel variable, or an inner loop sweeping over neighbours
            if any(opaque_terms(d, pars) for d in diff) or any(opaque_terms(c, pars) for c in wc + co):
                R.unknown('read', where + ' read line %s' % e['l'])
                continue
            inner = inner_ivs(e, r, pars)
            dep = [i for i, a in enumerate(wc) if any(depends(a, p) for p in pars)]
            hit = [i for i in dep if cval(diff[i]) not in (None, 0) or any(depends(diff[i], j) for j in inner) or
                   any((lambda q, z: q and cval(q[0]) not in (None, 0) and z and cval(z[0]) in (1, -1))(symstep(diff[i], p), symstep(wc[i].a[0] if wc[i].k == 'lin' else wc[i], p)) for p in pars)]
            if hit:
                R.bad('read', '%s|%s|read' % (fkey(r.fn or f), nm), e['file'], e['l'], f.sig(),
                      'an iteration of the parallel region at line %s reads %s at (%s) while other iterations write it at (%s)' % (r.line, nm, ','.join(show(c)[:80] for c in co), ','.join(show(c)[:80] for c in wc)))
            else:
                R.unknown('read', where + ' read line %s' % e['l'])


def name_of(P, I, f, key):
    if key is None:
        return 'object'
    if not hasattr(P, '_names'):
        P._names = {}
        for g in P.funcs:
            for p in g.params:
                P._names[(g.tu.name, p['id'])] = p['n']
            if g.body:
                for n in walk(g.body):
                    for v in n.get('v', []) if n['k'] == 'decl' else []:
                        if isinstance(v, dict) and 'id' in v:
                            P._names[(g.tu.name, v['id'])] = v.get('n', '')
                        for b in v.get('b', []) if isinstance(v, dict) else []:
                            P._names[(g.tu.name, b['id'])] = b['n']
    return P._names.get((f.tu.name, key[1]), 'object') if isinstance(key, tuple) else 'object'
