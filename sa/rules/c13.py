"""C13: a pipeline feeds each command its predecessor's result where it expects it.

schema    the argument positions a command is registered with are the positions at which its handler loads its input and stores its
          result (the handlers are followed by the argument-flow analysis of C12, through closures, filtered lists and the generic
          handler classes)
engine    where the pipeline inserts variables at the declared positions: the predecessor's variable at the input position, then the
          new variable at the output position, which becomes the predecessor of the next command
rewrite   the pipeline optimiser replaces commands only by ones reading the first one's input and writing the last one's output, and
          merges two commands only where the first one's output is the second one's input
"""
from lib import *
from argflow import *
from rules import c12

TUS = ['main']
MIN = {'schema': 20, 'engine': 2, 'rewrite': 3}


def schema_of(C, e, f):
    """(in, out) of a schema expression"""
    for _ in range(5):
        e = unwrap(e)
        if e is None:
            return None
        if e['k'] == 'ref' and e.get('dk') == 'gvar':
            g = C.gvar(e)
            if g is None:
                return None
            e = g
            continue
        if e['k'] in ('ctor', 'init'):
            a = e.get('a') or []
            if len(a) == 1 and unwrap(a[0])['k'] in ('init', 'ctor', 'ref'):
                e = a[0]
                continue
            if len(a) == 0:
                return (-1, -1)
            a = [C.num(x['e'] if x['k'] == 'desig' else x, St()) for x in a]
            if any(x is None or x[0] != 'c' for x in a):
                return None
            return (a[0][1], a[1][1] if len(a) > 1 else -1)
        return None
    return None


def placeholders(c):
    """placeholders of the command's usage text, execution policies left out"""
    nm = c['name']
    texts = c.get('texts') or []
    own = [t for t in texts if re.match(r'(Usage: )?%s\b' % re.escape(str(nm)), t)] or [t for t in texts if re.match(r'(Usage: )?\s*<', t)]
    if not own:
        return None
    t = own[0]
    return [x for x in re.findall(r'<[^<>]*>|\[[^\[\]]*\]', t) if 'execution_policy' not in x]


def schema_rule(P, R, C):
    for c in C.commands:
        key = 'command:%s' % str(c['name']).replace(' ', '_')
        if c['exits'] is None:
            R.unknown('schema', key)
            continue
        sc = schema_of(C, c['schema'], c['f']) if c['schema'] is not None else (-1, -1)
        if sc is None:
            R.unknown('schema', key)
            continue
        known = {}
        sites = {}
        for kind, k, fr, ln in c['uses']:
            known.setdefault((kind, fr.file, ln), set()).add(k)
        pos = {'load': set(), 'save': set()}
        open_ = {'load': False, 'save': False}
        for (kind, fl, ln), ks in known.items():
            if kind not in pos:
                continue
            ints = {k for k in ks if isinstance(k, int)}
            pos[kind] |= ints
            for k in ints:
                sites.setdefault((kind, k), (fl, ln))
            if not ints:
                open_[kind] = True
        # data calls in the functions walked for this command that the flow did not reach
        for g, body in (c.get('bodies') or {}).values():
            for n in walk(body):
                if n['k'] == 'call' and n.get('f') is not None:
                    kind, x = C.classify(n, n['f'], g, None)
                    if kind in pos and not any(kk[0] == kind and kk[2] == n.get('l') for kk in known):
                        open_[kind] = True
        bad = None
        ph = placeholders(c)
        for i, kind, word in ((sc[0], 'load', 'input'), (sc[1], 'save', 'output')):
            if i >= 0:
                if i in pos[kind]:
                    continue
                if pos[kind] and not open_[kind]:
                    w = sorted(pos[kind])
                    bad = 'is registered with %s argument %d, but its handler %s argument %s (%s:%s)' % (word, i, 'loads its data from' if kind == 'load' else 'stores its result in', ','.join(map(str, w)), *sites[(kind, w[0])])
                elif not pos[kind] and not open_[kind] and (pos['load'] or pos['save']):
                    bad = 'is registered with %s argument %d, but its handler never %s an argument' % (word, i, 'loads data named by' if kind == 'load' else 'stores a result under')
                else:
                    bad = bad or '?'
            elif sc != (-1, -1) and pos[kind] and not open_[kind] and ph is not None:
                w = min(pos[kind])
                if w < len(ph) and '$' in ph[w] and not (kind == 'load' and sc[1] == w):
                    bad = 'is registered without an %s argument, but its handler %s the variable named by argument %d' % (word, 'reads' if kind == 'load' else 'writes', w)
        if bad == '?':
            R.unknown('schema', key)
        elif bad:
            R.bad('schema', key, c['f'].file, c['line'] or c['f'].line, c['f'].sig(), 'command `%s` %s' % (c['name'], bad))
        elif sc == (-1, -1):
            R.ok('schema', key + ' (not part of pipelines)')
        else:
            R.ok('schema', '%s in=%d out=%d' % (key, sc[0], sc[1]))


# ---------------------------------------------------------------------------------------------- the pipeline engine
def fields_in(e, defs, depth=0):
    """schema fields an expression depends on, through single-assignment locals"""
    r = set()
    if e is None or depth > 4:
        return r
    for n in walk(e):
        if n['k'] == 'mem' and n.get('n') in ('in_idx', 'out_idx'):
            r.add(n['n'])
        if n['k'] == 'ref' and n.get('id') in defs:
            r |= fields_in(defs[n['id']], defs, depth + 1)
    return r


def engine_rule(P, R, C):
    for f in P.funcs:
        if not f.file.startswith('main') or f.body is None:
            continue
        ins = [n for n in walk(f.body) if n['k'] == 'call' and n.get('f') is not None and n['f']['k'] == 'mem' and n['f'].get('n') in ('insert', 'emplace') and len(n['a']) == 2]
        if not ins:
            continue
        defs = {v['id']: v['init'] for n in walk(f.body) if n['k'] == 'decl' for v in n['v'] if v.get('init') is not None and 'id' in v}
        if not any(fields_in(n['a'][0], defs) for n in ins):
            continue
        ev = []
        guards = []

        def go(n, g, top):
            if n is None:
                return
            k = n['k']
            if k == 'block':
                for s in n['s']:
                    go(s, g, top)
            elif k == 'if':
                go_e(n['c'], g)
                go(n.get('x'), g + [(n['c'], True)], False)
                go(n.get('y'), g + [(n['c'], False)], False)
            elif k in ('for', 'while', 'do', 'rfor'):
                ev.append(('loop', n, None, g))
                go(n.get('body'), [], True)
                ev.append(('endloop', n, None, g))
            elif k == 'try':
                go(n.get('body'), g, top)
            elif k == 'decl':
                for v in n['v']:
                    go_e(v.get('init'), g)
            else:
                go_e(n, g, top)

        def go_e(e, g, top=False):
            if e is None:
                return
            for n in walk(e):
                if n['k'] == 'call' and n.get('f') is not None and n['f']['k'] == 'mem' and n['f'].get('n') in ('insert', 'emplace') and len(n['a']) == 2:
                    fs = fields_in(n['a'][0], defs)
                    if len(fs) == 1:
                        ev.append(('ins', n, fs.pop(), g))
                    elif fs:
                        ev.append(('ins', n, None, g))
                elif n['k'] == 'bin' and n['op'] == '=':
                    ev.append(('set', n, top and not g, g))
        go(f.body, [], False)
        # the loop that holds the insertions
        for i, e in enumerate(ev):
            if e[0] != 'loop':
                continue
            d, j = 0, i
            while j < len(ev):
                if ev[j][0] == 'loop':
                    d += 1
                if ev[j][0] == 'endloop':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            body = ev[i + 1:j]
            depth, mine = 0, []
            for x in body:
                if x[0] == 'loop':
                    depth += 1
                elif x[0] == 'endloop':
                    depth -= 1
                elif depth == 0:
                    mine.append(x)
            inn = [(m, x) for m, x in enumerate(mine) if x[0] == 'ins']
            if not inn:
                continue
            key = '%s|pipeline' % f.name

            def vid(n):
                u = unwrap(n['a'][1])
                while u is not None and u['k'] == 'call' and u.get('f') is not None and (u['f'].get('q') or '') in PASSF and u['a']:
                    u = unwrap(u['a'][0])
                return u.get('id') if u is not None and u['k'] == 'ref' else None
            if any(x[2] is None for _, x in inn) or len(inn) != 2 or {x[2] for _, x in inn} != {'in_idx', 'out_idx'}:
                if len(inn) == 2 and None not in {x[2] for _, x in inn}:
                    x = inn[1][1]
                    R.bad('engine', key + '|positions', f.file, x[1]['l'], f.sig(), 'both pipeline variables are inserted at the %s position' % ('input' if x[2] == 'in_idx' else 'output'))
                else:
                    R.unknown('engine', key)
                continue
            pi = [(m, x) for m, x in inn if x[2] == 'in_idx'][0]
            po = [(m, x) for m, x in inn if x[2] == 'out_idx'][0]
            pv, nv = vid(pi[1][1]), vid(po[1][1])
            if pv is None or nv is None:
                R.unknown('engine', key)
                continue
            sets = [(m, x) for m, x in enumerate(mine) if x[0] == 'set' and unwrap(x[1]['lh'])['k'] == 'ref']

            def src(x):
                u = unwrap(x[1]['rh'])
                while u is not None and u['k'] == 'call' and u.get('f') is not None and (u['f'].get('q') or '') in PASSF and u['a']:
                    u = unwrap(u['a'][0])
                return u.get('id') if u is not None and u['k'] == 'ref' else None
            fw = [(m, x) for m, x in sets if unwrap(x[1]['lh']).get('id') == pv]
            bk = [(m, x) for m, x in sets if unwrap(x[1]['lh']).get('id') == nv and src(x) == pv]
            if pv == nv:
                R.bad('engine', key + '|variables', f.file, po[1][1]['l'], f.sig(), 'the same variable is inserted as input and as output')
            elif not fw and any(unwrap(x[1]['lh']).get('id') == nv for m, x in sets) and [x for m, x in sets if src(x) == pv]:
                R.bad('engine', key + '|variables', f.file, pi[1][1]['l'], f.sig(), 'the new variable is inserted at the input position and the predecessor\'s at the output position')
            elif not fw:
                R.bad('engine', key + '|carry', f.file, po[1][1]['l'], f.sig(), 'the output variable of a command never becomes the input variable of the next one')
            elif any(src(x) == nv and m > pi[0] for m, x in fw):
                R.ok('engine', key + ' carries the output variable to the next command')
            elif all(src(x) not in (None, nv) for m, x in fw):
                R.bad('engine', key + '|carry', f.file, fw[0][1][1]['l'], f.sig(), 'the next command is given another variable than the one this command was told to write')
            else:
                R.unknown('engine', key)
            pairs = {schema_of(C, c['schema'], c['f']) for c in C.commands if c['schema'] is not None}
            pairs = {p for p in pairs if p is not None and p[0] >= 0 and p[1] >= 0}
            if pi[0] > po[0] and any(p[0] <= p[1] for p in pairs):
                R.bad('engine', key + '|order', f.file, pi[1][1]['l'], f.sig(), 'the input variable is inserted after the output variable and shifts it away from its declared position')
            elif any(p[0] > p[1] for p in pairs) and pi[0] < po[0]:
                R.bad('engine', key + '|order', f.file, po[1][1]['l'], f.sig(), 'the output variable is inserted after the input variable and shifts it away from its declared position')
            else:
                R.ok('engine', key + ' inserts in the order of the positions')
            for nm, (m, x) in (('in_idx', pi), ('out_idx', po)):
                gf = set()
                for c, pol in x[3]:
                    gf |= fields_in(c, defs)
                if gf and nm not in gf:
                    R.bad('engine', key + '|guard|' + nm, f.file, x[1]['l'], f.sig(), 'the insertion at the %s position is conditional on the other position' % ('input' if nm == 'in_idx' else 'output'))
                else:
                    R.ok('engine', key + ' ' + nm + ' guarded by its own position')


# ---------------------------------------------------------------------------------------------- the optimiser
def rewrite_rule(P, R, C):
    for f in P.funcs:
        if not f.file.startswith('main') or f.body is None:
            continue
        bind = {}       # binding id -> (command variable id, 0 | 1)
        for n in walk(f.body):
            if n['k'] == 'decl':
                for v in n['v']:
                    if v.get('k') == 'decomp' and len(v.get('b') or []) == 2 and v.get('init') is not None:
                        u = unwrap(v['init'])
                        if u['k'] == 'call' and len(u['a']) == 1 and u.get('f') is not None and u['f'].get('n') == 'get_io' and unwrap(u['a'][0])['k'] == 'ref':
                            c = unwrap(u['a'][0])['id']
                            for j, b in enumerate(v['b']):
                                bind[b['id']] = (c, j)
        if not bind:
            continue

        def io(e):
            u = unwrap(e)
            while u is not None and u['k'] in ('ctor', 'init') and len(u.get('a') or []) == 1:
                u = unwrap(u['a'][0])
            while u is not None and u['k'] == 'call' and u.get('f') is not None and (u['f'].get('q') or '') in PASSF and u['a']:
                u = unwrap(u['a'][0])
            return bind.get(u.get('id')) if u is not None and u['k'] == 'ref' else None

        def conj(c, out):
            u = unwrap(c)
            if u['k'] == 'ref' and u.get('id') in defs:
                u = unwrap(defs[u['id']])
            if u['k'] == 'bin' and u['op'] in ('&&', 'and'):
                conj(u['lh'], out)
                conj(u['rh'], out)
            else:
                out.append(u)

        def linked(g, first, second):
            """some condition in force says: output of first == input of second"""
            for c, pol in g:
                if not pol:
                    # else-branch of !=
                    u = unwrap(c)
                    if u['k'] == 'bin' and u['op'] == '!=' and {io(u['lh']), io(u['rh'])} == {(first, 1), (second, 0)}:
                        return True
                    continue
                out = []
                conj(c, out)
                for u in out:
                    if u['k'] == 'bin' and u['op'] == '==' and {io(u['lh']), io(u['rh'])} == {(first, 1), (second, 0)}:
                        return True
            return False
        blocks = []

        def consumer(g, first):
            """the command known to consume first's output here, if any"""
            for other in {c for c, _ in bind.values()} - {first}:
                if linked(g, first, other):
                    return other
            return None
        names = {}
        for n in walk(f.body):
            if n['k'] == 'ref' and n.get('id') is not None:
                names[n['id']] = n['n']

        defs = {v['id']: v['init'] for n in walk(f.body) if n['k'] == 'decl' for v in n['v'] if v.get('init') is not None and 'id' in v}

        def opaque(g):
            """a condition on the names that is not a plain comparison"""
            for c, pol in g:
                out = []
                conj(c, out)
                for u in out:
                    if u['k'] == 'call' and (u.get('f') or {}).get('n') not in ('empty', 'has_value', 'find', 'starts_with') and any(io(x) is not None for x in u.get('a') or []):
                        return True
                    if u['k'] == 'ref' and u.get('id') not in defs:
                        return True
            return False

        def visit(n, g):
            if isinstance(n, list):
                for x in n:
                    visit(x, g)
                return
            if not isinstance(n, dict):
                return
            k = n.get('k')
            if k == 'if':
                visit(n['c'], g)
                visit(n.get('x'), g + [(n['c'], True)])
                visit(n.get('y'), g + [(n['c'], False)])
                return
            if k == 'block':
                blocks.append(n)
                gg = list(g)
                for s in n['s']:
                    visit(s, gg)
                    if s is not None and s['k'] == 'if' and s.get('y') is None and ends(s.get('x')):
                        gg = gg + [(s['c'], False)]
                blocks.pop()
                return
            a = None
            if k == 'bin' and n['op'] == '=' and unwrap(n['lh'])['k'] == 'mem' and unwrap(n['lh']).get('n') == 'args':
                a = unwrap(n['rh'])
            if k in ('ctor', 'init') and len(n.get('a') or []) == 2 and unwrap(n['a'][1])['k'] in ('init', 'ctor') and len(unwrap(n['a'][1]).get('a') or []) == 2:
                a = unwrap(n['a'][1])
            if a is not None and a['k'] in ('init', 'ctor'):
                if len(a.get('a') or []) == 1:
                    a = unwrap(a['a'][0])
                x = [io(y) for y in a.get('a') or []]
                if len(x) == 2 and None not in x:
                    key = '%s|copy|%s,%s' % (f.name, nm(x[0]), nm(x[1]))
                    if x[0][1] != 0 or x[1][1] != 1:
                        R.bad('rewrite', key, f.file, n['l'], f.sig(), 'the replacing command does not read the input of the replaced commands and write their output (it is given %s and %s)' % (nm(x[0]), nm(x[1])))
                    elif x[0][0] != x[1][0] and not linked(g, x[0][0], x[1][0]):
                        if opaque(g):
                            R.unknown('rewrite', key)
                        else:
                            R.bad('rewrite', key, f.file, n['l'], f.sig(), 'two commands are replaced by one although the first one\'s output need not be the second one\'s input')
                    elif x[0][0] == x[1][0] and consumer(g, x[0][0]) is not None and ends(blocks[-1]) and not any(y['k'] == 'call' and y.get('f') is not None and (y['f'].get('q') or '') in PASSF and y['a'] and unwrap(y['a'][0]).get('id') == consumer(g, x[0][0]) for y in walk(blocks[-1])):
                        R.bad('rewrite', key, f.file, n['l'], f.sig(), 'a chain of two commands is replaced by one that writes only the intermediate variable; the result of the second is lost')
                    else:
                        R.ok('rewrite', key)
                    return
            if k == 'call' and n.get('f') is not None and n['f'].get('n') in ('update_in', 'update_out') and len(n['a']) == 2:
                c, x = unwrap(n['a'][0]), io(n['a'][1])
                if c['k'] == 'ref' and x is not None:
                    key = '%s|%s|%s' % (f.name, n['f']['n'], nm(x))
                    want = 0 if n['f']['n'] == 'update_in' else 1
                    first, second = (x[0], c['id']) if want == 0 else (c['id'], x[0])
                    if x[1] != want or x[0] == c['id']:
                        R.bad('rewrite', key, f.file, n['l'], f.sig(), 'the %s of a command is replaced by the %s of %s' % ('input' if want == 0 else 'output', 'output' if x[1] else 'input', names.get(x[0])))
                    elif not linked(g, first, second):
                        if opaque(g):
                            R.unknown('rewrite', key)
                        else:
                            R.bad('rewrite', key, f.file, n['l'], f.sig(), 'a copy is skipped although its variable need not be the one the other command uses')
                    else:
                        R.ok('rewrite', key)
                    return
            for key, v in n.items():
                if isinstance(v, (dict, list)):
                    visit(v, g)

        def nm(x):
            return '%s.%s' % (names.get(x[0], '?'), 'out' if x[1] else 'in')

        def ends(s):
            if s is None:
                return False
            if s['k'] == 'block':
                return bool(s['s']) and ends(s['s'][-1])
            return s['k'] in ('return', 'continue', 'break', 'throw')
        visit(f.body, [])


def run(P, R):
    R.rule('schema', 'the argument positions a command is registered with are those at which its handler loads its input and stores its result')
    R.rule('engine', 'the pipeline inserts the predecessor\'s variable at the input position, then a new variable at the output position, which the next command is given')
    R.rule('rewrite', 'the pipeline optimiser only replaces commands by ones that read the first input and write the last output of a connected chain')
    C = c12.analyse(P)
    schema_rule(P, R, C)
    engine_rule(P, R, C)
    rewrite_rule(P, R, C)
