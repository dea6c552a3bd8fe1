"""Operations leave their inputs alone and keep no state between calls: effect analysis of every library function."""
from lib import *
from effects import *

TUS = ['lib']
MIN = {'inputs': 400, 'state': 1, 'value': 5}
SYNC = re.compile(r'\b(mutex|once_flag|shared_mutex|recursive_mutex|condition_variable|lock_guard)\b')
VALUE = {'Image': 'image.h', 'Cube': 'cube.h', 'Histogram': 'histogram.h', 'Matrix': 'linear_algebra.h', 'MultiChannel': 'base_types.h',
         'RGB': 'base_types.h', 'RGB_DOUBLE': 'base_types.h', 'HSV': 'base_types.h'}
SHARE = re.compile(r'shared_ptr|weak_ptr|\*|\bspan\b|string_view|reference_wrapper|&')
NONDET = re.compile(r'(^|::)(random_device|rand|srand|random|drand48|time|clock|now|get_id|getenv|gettimeofday|rdtsc)$')


def library(f):
    return f.file.endswith('.h') and f.file not in ('main.h', 'dynamic_loader.h', 'unistd.h', 'dirent.h') or f.file == 'image_io.cpp'


def run(P, R):
    R.rule('inputs', 'no input is modified: no assignment, mutating call, move or write through a reference, pointer, iterator or const-removing cast reaches a const or forwarded parameter, or a const object')
    R.rule('state', 'no static, thread-local or namespace-scope variable carries information from one call to the next, and none is initialised from the arguments of the first call')
    R.rule('value', 'copies of images, matrices, histograms and pixels own their data: no shared or borrowed storage among the members, no member modified in const functions')
    R.rule('chance', 'only operations offered with an explicit random generator draw on the clock or on entropy')
    fs = [f for f in P.funcs if f.body and library(f)]
    muts = {}
    for f in fs:
        E = Effects(P, f)
        muts[f] = E
        inputs(P, R, f, E)
        chance(P, R, f)
    state(P, R, fs, muts)
    value(P, R, fs, muts)


def tparams(f):
    return {t['n'] for t in f.d.get('tps', [])}


def inputs(P, R, f, E):
    ids = {}
    for i, p in enumerate(f.params):
        t = f.ptype(i).strip().replace('...', '').strip()
        base = t.rstrip('& ').strip()
        if t.endswith('&&') and re.fullmatch(r'\w+', base) and base in tparams(f):
            ids[p['id']] = (p['n'], 'forwarded')
        elif t.endswith('&') and re.match(r'(const\b)', t) or t.endswith('&') and ' const' in t:
            ids[p['id']] = (p['n'], 'const')
        elif t.endswith('&') and not t.endswith('&&') and 'stream' not in t and 'rbg' not in t.lower() and f.ret() not in ('void', 'bool') and f.kind == 'func' and not returned(f, p['id']) and not t.startswith('State') and kind_of_type(t, f.req()) in ('img', 'vec'):
            ids[p['id']] = (p['n'], 'input')
    bad = False
    seen = set()
    for r, n, how in E.muts:
        if r[0] == 'v' and r[1] in ids:
            nm, kd = ids[r[1]]
            if kd == 'forwarded' and callable_param(f, nm):
                continue
            if kd == 'forwarded' and re.search(r'rbg|generator|engine|stream', f.ptype([p['id'] for p in f.params].index(r[1])).lower()):
                continue
            if kd == 'const' and not through_cast(E, f, n, r):
                continue        # the compiler rejects it (shadowed name or value copy)
            if nm in seen:
                continue
            seen.add(nm)
            bad = True
            R.bad('inputs', '%s|%s' % (f.q + sigkey(f), nm), f.file, n.get('l', f.line), f.sig(), 'the %s parameter `%s` is %s' % (kd, nm, how))
        elif r[0] in ('f', 'this') and f.d.get('const') and f.kind == 'method' and through_cast(E, f, n, r):
            if 'this' in seen:
                continue
            seen.add('this')
            bad = True
            R.bad('inputs', '%s|this' % (f.q + sigkey(f)), f.file, n.get('l', f.line), f.sig(), 'a const member function modifies its object through a cast')
    for r, n in E.moves:
        if r[0] == 'v' and r[1] in ids and ids[r[1]][1] in ('forwarded', 'input') and ids[r[1]][0] not in seen and not callable_param(f, ids[r[1]][0]):
            if n['a'][0]['k'] != 'ref':
                continue
            t = f.ptype([p['id'] for p in f.params].index(r[1]))
            if re.search(r'rbg|generator|engine|stream|olicy|ExPo', t):
                continue
            seen.add(ids[r[1]][0])
            bad = True
            R.bad('inputs', '%s|%s' % (f.q + sigkey(f), ids[r[1]][0]), f.file, n.get('l', f.line), f.sig(), 'the %s parameter `%s` is moved from: a caller\'s object is emptied' % (ids[r[1]][1], ids[r[1]][0]))
    rt = f.ret().strip()
    if f.kind == 'method' and f.d.get('const') and (rt.endswith('&') or rt.endswith('*')) and not re.match(r'const\b', rt) and ' const' not in rt:
        for n in walk(f.body):
            if n['k'] == 'return' and n.get('e') is not None and any(c is x for x in walk(n['e']) for c in E.casts if c.get('ck') == 'const'):
                bad = True
                R.bad('inputs', '%s|exposed' % (f.q + sigkey(f)), f.file, n['l'], f.sig(), 'a const member function hands out modifiable access to its object')
                break
    if not bad:
        R.ok('inputs', f.sig())


def sigkey(f):
    return '|' + re.sub(r'\s', '', ','.join(f.ptype(i) for i in range(len(f.params))))


def callable_param(f, nm):
    for i, p in enumerate(f.params):
        if p['n'] == nm and kind_of_type(f.ptype(i).replace('...', '').strip(), f.req()) in ('lam', 'policy'):
            return True
    # called like a function somewhere in the body
    return any(n['k'] == 'call' and n.get('f') and n['f']['k'] == 'ref' and n['f'].get('n') == nm for n in walk(f.body))


def returned(f, pid):
    for n in walk(f.body):
        if n['k'] == 'return' and n.get('e') is not None:
            e = n['e']
            while e is not None and e['k'] in ('paren', 'cast'):
                e = e['e']
            if e is not None and e['k'] == 'ref' and e.get('id') == pid:
                return True
    return False


def through_cast(E, f, n, r):
    """some const-removing cast of the function applies to this root"""
    for c in E.casts:
        t = f.tu.t(c.get('tt')) or ''
        if c.get('ck') in ('const', 'reinterpret') or ('*' in t or '&' in t):
            if re.match(r'const\b', t.strip()):
                continue
            if r in E.roots(c['e']):
                return True
    return False


def refs(node, vid):
    return [n for n in walk(node) if n['k'] == 'ref' and n.get('id') == vid]


def depends(f, init):
    """the initialiser reads a parameter, a member or a non-static local"""
    if init is None:
        return None
    lam = {p.get('id') for n in walk(init) if n['k'] == 'lambda' for p in n.get('params', [])}
    local = {v.get('id') for n in walk(init) if n['k'] == 'decl' for v in n['v']}
    pids = {p['id']: p['n'] for p in f.params}
    for n in walk(init):
        if n['k'] == 'ref' and n.get('dk') in ('var', 'parm', 'bind') and n.get('id') not in lam and n.get('id') not in local:
            d = decl_of(f, n.get('id'))
            if n.get('id') in pids or d is not None and not d.get('static') and not d.get('constexpr'):
                return n['n']
        if n['k'] == 'mem' and (n.get('b') is None or n['b']['k'] == 'this') and n.get('dk') == 'field':
            return n['n']
    return None


def decl_of(f, vid):
    for n in walk(f.body):
        if n['k'] == 'decl':
            for v in n['v']:
                if v.get('id') == vid:
                    return v
    return None


def state(P, R, fs, muts):
    n = 0
    for f in fs:
        for d in walk(f.body):
            if d['k'] != 'decl':
                continue
            for v in d['v']:
                if not v.get('static') or v.get('k') != 'var':
                    continue
                n += 1
                t = f.tu.t(v.get('t')) or ''
                key = '%s|%s' % (f.q + sigkey(f), v['n'])
                if v.get('constexpr'):
                    R.ok('state', '%s in %s' % (v['n'], f.sig()))
                    continue
                dep = depends(f, v.get('init'))
                if dep:
                    R.bad('state', key, f.file, v['l'], f.sig(), 'static `%s` keeps the value computed from `%s` in the first call' % (v['n'], dep))
                    continue
                if v.get('const') or SYNC.search(t):
                    R.ok('state', '%s in %s' % (v['n'], f.sig()))
                    continue
                judge(P, R, key, f, v, [(f, muts[f])], ('v', v['id']), lambda g: refs(g.body, v['id']))
    for (file, line, name), (g, tu) in sorted(P.gvars.items()):
        if not (file.endswith('.h') and file not in ('main.h', 'dynamic_loader.h', 'unistd.h', 'dirent.h') or file == 'image_io.cpp'):
            continue
        if g.get('const') or g.get('constexpr') or SYNC.search(tu.t(g.get('t')) or ''):
            R.ok('state', name)
            continue
        judge(P, R, 'global|' + name, None, g, [(f, muts[f]) for f in fs], ('g', name), lambda h: [x for x in walk(h.body) if x['k'] == 'ref' and x.get('dk') == 'gvar' and (x.get('q') or x['n']).split('::')[-1] == name])
    for r, tu in P.reclist:
        if r['file'] in ('main.h', 'main.cpp', 'dynamic_loader.h'):
            continue
        for s in r['statics']:
            if s.get('const') or s.get('constexpr'):
                R.ok('state', '%s::%s' % (r['n'], s['n']))
            else:
                judge(P, R, 'static|%s::%s' % (r['n'], s['n']), None, s, [(f, muts[f]) for f in fs], ('g', s['n']), lambda h: [x for x in walk(h.body) if x['k'] in ('ref', 'mem') and x.get('n') == s['n']])


LOOKUP = ('find', 'contains', 'count', 'at', 'try_emplace', 'emplace', 'insert', 'make_tuple', 'make_pair', 'tie', 'forward_as_tuple')


def memo(f):
    """the kept values are used only where every argument, as a whole, was compared for equality with a kept one
    (or is part of the key they were looked up with)"""
    stat = {v['id'] for n in walk(f.body) if n['k'] == 'decl' for v in n['v'] if v.get('static') and v.get('k') == 'var' and not v.get('const') and not v.get('constexpr') and 'id' in v}
    init = {v['id']: v['init'] for n in walk(f.body) if n['k'] == 'decl' for v in n['v'] if v.get('init') is not None and 'id' in v and v['id'] not in stat}
    pids = {p['id'] for i, p in enumerate(f.params) if kind_of_type(f.ptype(i), f.req()) != 'policy'}
    got = set()

    def mentions(e, depth=0):
        return any(x['k'] == 'ref' and (x.get('id') in stat or depth < 5 and x.get('id') in init and mentions(init[x['id']], depth + 1)) for x in walk(e))

    def whole(e, depth=0):
        x = deparen(e)
        while x is not None and x['k'] in ('cast', 'paren') and x.get('e') is not None:
            x = deparen(x['e'])
        if x is None:
            return
        if x['k'] == 'ref':
            if x.get('id') in pids:
                got.add(x['id'])
            elif x.get('id') in init and depth < 5:
                whole(init[x['id']], depth + 1)
        elif x['k'] in ('ctor', 'init', 'construct', 'list') or x['k'] == 'call' and ((x['f'] or {}).get('n') or '') in LOOKUP:
            for a in x.get('a') or []:
                whole(a, depth)
            if x['k'] == 'call' and x['f'].get('k') == 'mem' and x['f'].get('b') is not None and not mentions(x['f']['b']):
                whole(x['f']['b'], depth)

    def cond(e, neg):
        x = deparen(e)
        if x['k'] == 'un' and x['op'] == '!':
            return cond(x['e'], not neg)
        if x['k'] == 'bin' and x['op'] in ('&&', '||'):
            if x['op'] == ('&&' if neg else '||') and mentions(x):
                return False
            return cond(x['lh'], neg) and cond(x['rh'], neg)
        if not mentions(x):
            return True
        if x['k'] == 'bin' and x['op'] in ('==', '!='):
            whole(x['lh'])
            whole(x['rh'])
            return True
        if x['k'] == 'call' or x['k'] == 'ref':
            whole(x)
            return True
        return False
    for n in walk(f.body):
        c = n.get('c') if n['k'] in ('if', 'cond', 'while') else None
        if isinstance(c, dict) and mentions(c):
            neg = any(m['k'] == 'bin' and m['op'] == '!=' for m in walk(c)) and not any(m['k'] == 'bin' and m['op'] == '==' for m in walk(c))
            if not cond(c, neg) and not cond(c, not neg):
                return False
    return bool(stat) and bool(pids) and got >= pids


def judge(P, R, key, f, v, fns, root, find):
    """a variable that outlives the call: modified and read without being reset first"""
    written = [(g, n) for g, E in fns for r, n, h in E.muts if r == root]
    if not written:
        R.ok('state', key)
        return
    for g, E in fns:
        uses = find(g)
        if not uses:
            continue
        wn = [n for r, n, h in E.muts if r == root]
        inner = set()
        for n in wn:
            if n['k'] == 'un' and n['op'] in ('++', '--') or n['k'] == 'bin' and n['op'] != '=':
                if stmt(g.body, n):     # value of the update not used
                    for x in walk(n['e'] if n['k'] == 'un' else n['lh']):
                        inner.add(id(x))
            elif n['k'] == 'bin':
                x = deparen(n['lh'])
                if x['k'] == 'ref':
                    inner.add(id(x))
            elif n['k'] == 'call' and n['f']['k'] == 'mem' and n['f'].get('n') in ('clear', 'assign', 'fill', 'reset', 'push_back', 'emplace_back', 'resize', 'insert', 'store'):
                for x in walk(n['f'].get('b')):
                    inner.add(id(x))
        reads = [x for x in uses if id(x) not in inner]
        if not reads:
            continue
        first = uses[0]
        for n in wn:
            if n['k'] == 'bin' and n['op'] == '=' and deparen(n['lh']) is first and not any(id(x) in {id(u) for u in uses} for x in walk(n['rh'])) and straight(g.body, n):
                break
            if n['k'] == 'call' and n['f']['k'] == 'mem' and n['f'].get('n') in ('clear', 'assign', 'reset') and any(x is first for x in walk(n['f'].get('b'))) and straight(g.body, n):
                break
        else:
            if f is not None and memo(g):
                R.unknown('state', key + ' (kept with every argument it was computed from)')
                continue
            R.bad('state', key, g.file, reads[0].get('l', g.line), g.sig(), '`%s` outlives the call, is modified and is read again: results depend on earlier calls' % v['n'])
            return
    R.ok('state', key)


def stmt(body, n):
    return any(b['k'] == 'block' and any(s is n for s in b['s']) or b['k'] in ('if', 'for', 'while', 'rfor', 'omp') and any(b.get(x) is n for x in ('th', 'el', 'body', 'inc', 't', 'e')) for b in walk(body))


def straight(body, n):
    """n is evaluated on every path through the function: a statement of the outermost block"""
    return body['k'] == 'block' and any(s is n for s in body['s'])


def value(P, R, fs, muts):
    for r, tu in P.reclist:
        if VALUE.get(r['n']) == r['file']:
            for f in r['fields']:
                t = (tu.t(f['t']) or '').strip()
                if SHARE.search(t):
                    R.bad('value', '%s::%s' % (r['n'], f['n']), r['file'], f['l'], r['q'], 'member `%s` of type %s is shared between copies: writing one image changes another' % (f['n'], t))
                else:
                    R.ok('value', '%s::%s %s' % (r['n'], f['n'], t))
        if r['file'] in ('main.h', 'main.cpp', 'dynamic_loader.h'):
            continue
        for f in r['fields']:
            if f.get('mutable') and not SYNC.search(tu.t(f['t']) or ''):
                w = [g for g in fs if g.kind == 'method' and g.cls == r['n'] and g.d.get('const') and any(q == ('f', f['n']) for q, n, h in muts[g].muts)]
                rd = [g for g in fs if g.cls == r['n'] and any(x['k'] == 'mem' and x.get('n') == f['n'] for x in walk(g.body))]
                w += [g for g in fs if g.kind == 'method' and g.cls == r['n'] and g.d.get('const') and g.ret().strip().endswith('&') and 'const' not in g.ret()
                      and any(x['k'] == 'return' and x.get('e') is not None and any(y['k'] == 'mem' and y.get('n') == f['n'] for y in walk(x['e'])) for x in walk(g.body))]
                if w and rd:
                    R.bad('value', '%s::%s' % (r['n'], f['n']), r['file'], f['l'], w[0].sig(), 'mutable member `%s` is changed by a const function and read later' % f['n'])
                else:
                    R.ok('value', '%s::%s' % (r['n'], f['n']))


def chance(P, R, f):
    for n in walk(f.body):
        q = None
        if n['k'] == 'call' and n.get('f'):
            q = n['f'].get('q') or n['f'].get('n')
            if n['f']['k'] == 'mem' and n['f'].get('n') not in ('now',):
                q = None
        elif n['k'] == 'ctor':
            q = (f.tu.t(n.get('tt')) or '').strip()
        elif n['k'] == 'decl':
            q = next((f.tu.t(v.get('t')) for v in n['v'] if 'random_device' in (f.tu.t(v.get('t')) or '')), None)
            q = 'random_device' if q else None
        if not q or not NONDET.search(q) or q.startswith('TinyDIP::') or q == 'rand' and n['k'] == 'call' and n.get('fk'):
            continue
        if n['k'] == 'call' and (n['f'].get('cands') or n.get('fk') or n['f'].get('fk')):
            continue
        sib = [g for g in P.funcs if g.name == f.name and any(re.search(r'rbg|generator|engine', g.ptype(i).lower()) for i in range(len(g.params)))]
        if sib:
            R.ok('chance', f.sig())
        else:
            R.bad('chance', '%s|%s' % (f.q + sigkey(f), q.split('::')[-1]), f.file, n.get('l', f.line), f.sig(), 'the result depends on %s, and no overload lets the caller supply the generator' % q)
        return
