"""C19: nothing refers to storage that is gone.

returns       a returned reference, pointer, iterator, view or closure never points into the function's own objects
temporaries   a reference or view is never bound to part of a temporary that dies at the end of the statement
stored        a reference or view member is never bound to a constructor's own parameters or locals
reallocation  a reference, pointer or iterator into a vector is never used after the vector may have moved its elements
moved         an object is never read after its contents were moved away
"""
from lib import *
from lifetime import *

TUS = ['lib', 'main']
MIN = {'returns': 150, 'temporaries': 40, 'stored': 1, 'reallocation': 3, 'moved': 3}


def bodies(f):
    """the function body and the bodies of the lambdas in it, each with its enclosing analysis"""
    L = Life(f_P, f)
    yield L, f.ret() or '', f.line, ''
    st = [(L, x) for x in L.lams]
    n = 0
    while st:
        o, x = st.pop(0)
        n += 1
        K = Life(f_P, f, body=x['body'], params=x.get('params') or [], outer=o)
        rt = strip(f.tu.t(x['rt'])) if x.get('rt') is not None else 'auto'
        yield K, rt, x['l'], 'lambda#%d' % n
        st.extend((K, y) for y in K.lams)


def named(o):
    return {'L': 'local object', 'V': 'by-value parameter'}.get(o[0], '')


def prvalue(L, e):
    e = dp(e)
    if e is None:
        return True
    k = e['k']
    if k == 'mem' and not e.get('arrow'):
        return prvalue(L, e.get('b'))
    if k == 'call' and e.get('f'):
        q = e['f'].get('q') or e['f'].get('n') or ''
        if q.startswith('std::') and e['f']['k'] != 'mem':
            return False
        gs = L.callees(e)
        if gs and all(not strip(g.ret()).endswith('&') for g in gs):
            if all(g.ret() and 'decltype' not in g.ret() for g in gs):
                return True
            return all((summary(L.P, g) or ('ref',))[0] != 'ref' for g in gs)
        return False
    if k == 'idx':
        return False
    if k == 'cond':
        return True
    if k == 'cast':
        return not L.ty(e, 'tt').endswith('&')
    return True


def run(P, R):
    global f_P
    f_P = P
    R.rule('returns', 'a return whose value is a reference, pointer, iterator, view or closure names storage that outlives the call')
    R.rule('temporaries', 'a reference or view variable is bound to a named object or directly to a temporary whose life it extends, never to the inside of a dying temporary')
    R.rule('stored', 'reference and view members are bound to what the caller keeps alive')
    R.rule('reallocation', 'no use of a reference, pointer or iterator into a vector after an operation that may relocate its elements')
    R.rule('moved', 'no read of an object after std::move handed its contents over')
    seen = set()
    for f in P.funcs:
        if f.body is None:
            continue
        k0 = (f.file, f.line, f.name)
        if k0 in seen:
            continue
        seen.add(k0)
        for L, rt, line, tag in bodies(f):
            key = f.sig() + (('|' + tag) if tag else '')
            key = key.replace(' ', '')
            nret = 0
            for n in L.returns():
                kd, o = L.ret_owners(n, rt)
                if kd == 'value':
                    if not SCAL.match(strip(rt)) and not OWN.search(strip(rt)):
                        R.ok('returns', '%s|%d' % (key, nret))
                    nret += 1
                    continue
                bad = [x for x in o if x[0] in 'LV' and x[1] in L.own_ids]
                if o and all(x[0] in 'LVT' for x in o) and (bad or ('T',) in o) and len(bad) + (('T',) in o) == len(o):
                    w = '`%s`' % bad[0][2] if bad else 'a temporary'
                    R.bad('returns', '%s|%s' % (key, bad[0][2] if bad else 'temporary'), f.file, n['l'], f.sig(),
                          'returns a %s into %s %s, which is destroyed when the call returns' % ('reference' if kd == 'ref' else 'pointer, iterator, view or closure', named(bad[0]) if bad else '', w))
                elif o == U or not o:
                    R.unknown('returns', '%s|%d' % (key, nret))
                else:
                    R.ok('returns', '%s|%d' % (key, nret))
                nret += 1
            for i, v in L.vars.items():
                if i not in L.own_ids or v.get('k') not in ('var', 'decomp'):
                    continue
                if v.get('static'):
                    continue
                kd = L.kind(v)
                src = v.get('rfor') if v.get('rfor') is not None else L.init(v)
                if src is None:
                    continue
                k2 = '%s|%s' % (key, v.get('n') or 'binding')
                if v.get('rfor') is not None:
                    s = dp(src)
                    if s['k'] in ('ref', 'mem') or prvalue(L, s):
                        R.ok('temporaries', k2)
                    else:
                        p = L.place(s)
                        r = p if p == TMP else NONE
                        if r == TMP:
                            R.bad('temporaries', k2, f.file, v['l'], f.sig(), 'iterates over the inside of a temporary that is destroyed before the first iteration')
                        else:
                            R.ok('temporaries', k2)
                    continue
                if kd == 'ref':
                    if prvalue(L, src):
                        R.ok('temporaries', k2)
                    else:
                        p = L.place(src)
                        if p and ('T',) in p and all(x[0] == 'T' for x in p):
                            R.bad('temporaries', k2, f.file, v['l'], f.sig(), '`%s` refers to the inside of a temporary that is destroyed at the end of the statement' % v['n'])
                        elif p == U:
                            R.unknown('temporaries', k2)
                        else:
                            R.ok('temporaries', k2)
                elif kd == 'view':
                    p = L.view_of(src, L.ty(v)) if L.ty(v) else L.refs(src)
                    if p == TMP:
                        R.bad('temporaries', k2, f.file, v['l'], f.sig(), '`%s` points into a temporary that is destroyed at the end of the statement' % v['n'])
                    elif p == U or not p:
                        R.unknown('temporaries', k2)
                    else:
                        R.ok('temporaries', k2)
            hits = []
            O = Order(L, lambda s, i, n, u: hits.append((s, i, n, u)))
            nm = lambda i: (L.vars.get(i) or L.params.get(i) or {}).get('n', '?')
            O.run()
            badids = set()
            for s, i, n, u in hits:
                rule = 'moved' if s == 'moved' else 'reallocation'
                badids.add((rule, i))
                R.bad(rule, '%s|%s' % (key, nm(i)), f.file, u.get('l') or n['l'], f.sig(),
                      ('`%s` is read after its contents were moved away (line %d)' % (nm(i), n['l'])) if s == 'moved' else
                      '`%s` refers into `%s`, whose elements may have been relocated at line %d' % (nm(i), nm(O.into.get(i)), n['l']))
            for i in O.into:
                if ('reallocation', i) not in badids:
                    R.ok('reallocation', '%s|%s' % (key, nm(i)))
            mv = set()
            for x in walk(L.body):
                if x['k'] == 'call' and x.get('f') and x['f'].get('q') == 'std::move' and len(x['a']) == 1:
                    a = dp(x['a'][0])
                    if a is not None and a['k'] == 'ref':
                        mv.add(a.get('id'))
            for i in mv:
                if ('moved', i) not in badids:
                    R.ok('moved', '%s|%s' % (key, nm(i)))
        if f.kind == 'ctor':
            r = P.recs.get(f.d.get('cls'))
            if r is None:
                continue
            L = Life(P, f)
            ft = {x['n']: strip(r[1].t(x['t'])) for x in r[0]['fields']}
            for it in f.d.get('inits') or []:
                t = ft.get(it.get('n'))
                if t is None or not (t.endswith('&') or VIEW.search(t)):
                    continue
                e = it.get('e') or it.get('init')
                if isinstance(e, dict) and e['k'] in ('init', 'plist', 'ctor') and len(e.get('a', [])) == 1:
                    e = e['a'][0]
                k2 = '%s|%s' % (f.sig().replace(' ', ''), it['n'])
                o = L.place(e) if t.endswith('&') else L.view_of(e, t)
                if o and all(x[0] in 'VLT' for x in o):
                    R.bad('stored', k2, f.file, f.line, f.sig(), 'member `%s` keeps a reference into `%s`, which is destroyed when the constructor returns' % (it['n'], sorted(o)[0][2] if len(sorted(o)[0]) > 2 else 'a temporary'))
                elif o == U or not o:
                    R.unknown('stored', k2)
                else:
                    R.ok('stored', k2)
