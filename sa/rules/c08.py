"""Input/output failures are reported (typestate dataflow with one successor per outcome of every fallible operation, see flow.py)."""
import re
from lib import *
import flow
from rules import c07

TUS = ['lib', 'main']
MIN = {'reported': 10, 'null': 10, 'status': 1}


def reported(v, good):
    """is a failing exit that returns v distinguishable from the successful exits?  True / False / None"""
    if v == ('empty',) or v == ('null',) or v[0] == 'c' and v[1] < 0:
        return True
    if v[0] == 'obj':
        # an aggregate whose buffer stayed null
        d = dict(v[1])
        if any(x == ('null',) and any(g[0] == 'obj' and dict(g[1]).get(k, ('null',)) != ('null',) for g in good) for k, x in d.items()):
            return True
    if v in good:
        return False
    if v[0] == 'c' and all(g[0] == 'c' for g in good):
        return True
    if v[0] == 's' and v[1] == '':
        return True
    return None


def run(P, R):
    R.rule('reported', 'every exit reached after an open, allocation, read, write or close failed throws or returns a value that no successful exit returns')
    R.rule('null', 'after a failed open or allocation the null pointer is not used')
    R.rule('status', 'the command-line program examines the status of every file it asks the library to write')
    fs, direct = c07.handles(P)
    seen = set()
    for f in fs:
        F = flow.Flow(P, c07.library)
        try:
            exits = F.run(f)
        except (flow.Give, RecursionError) as x:
            R.unknown('reported', '%s: %s' % (f.sig(), x))
            continue
        good = {v for k, v, st, n in exits if k == 'return' and not st.fails}
        nfail = nbad = 0
        for kind, v, st, n in exits:
            dirty = [s for s in st.streams.values() if s[1] in ('dirty', 'flushed')]
            if kind == 'return' and dirty and not st.fails and not st.und:
                nbad += 1
                k = '%s|unchecked-output' % fkey(f)
                if k not in seen:
                    seen.add(k)
                    R.bad('reported', k, f.file, n.get('l', f.line), f.sig(), 'returns normally without checking whether the output file was written')
            if not st.fails:
                continue
            nfail += 1
            if kind == 'throw':
                continue
            r = False if v == ('void',) else reported(v, good)
            if r is False and not st.und:
                fk, what, line, _ = st.fails[0]
                nbad += 1
                k = '%s|%s' % (fkey(f), re.sub(r'\W+', '-', what))
                if (k, line) in seen:
                    continue
                seen.add((k, line))
                R.bad('reported', k, f.file, n.get('l', f.line), f.sig(), 'returns as if it had succeeded although %s (line %d) failed' % (what, line))
            elif r is None or st.und:
                R.unknown('reported', '%s line %d after %s' % (f.sig(), n.get('l', 0), st.fails[0][1]))
        if not nbad:
            R.ok('reported', '%s: %d exits, %d after a failure' % (f.sig(), len(exits), nfail))
        nulls = 0
        for (kind, site, _), (fn, line, msg) in F.problems.items():
            if kind != 'nulluse':
                continue
            nulls += 1
            k = '%s|null' % fkey(fn)
            if (k, line) not in seen:
                seen.add((k, line))
                R.bad('null', k, fn.file, line, fn.sig(), msg)
        if not nulls:
            R.ok('null', f.sig())
    status(P, R, {g.q for g in P.funcs if g.file.startswith('image_io') and g.body and re.match(r'^(int|char|bool|long)$', g.ret().strip()) and any(g is f for f in fs)})


def status(P, R, names):
    last = {q.split('::')[-1] for q in names if q.split('::')[-1] != 'write'}
    known = {g.q for g in P.funcs}

    def writer(e):
        while e and e.get('k') in ('paren', 'cast'):
            e = e.get('e')
        if not e or e.get('k') != 'call' or not e.get('f') or e['f'].get('k') != 'ref':
            return None
        q = e['f'].get('q') or e['f'].get('n') or ''
        if q in names or q not in known and q.split('::')[-1] in last:
            return q
        return None

    for f in P.funcs:
        if not f.body or f.file != 'main.h':
            continue
        used = {n['id'] for n in walk(f.body) if n['k'] == 'ref' and 'id' in n}
        void = set()
        bad, good = [], 0
        stm = []
        for n in walk(f.body):
            if n['k'] == 'block':
                stm += n['s']
            elif n['k'] == 'if':
                stm += [n.get('x'), n.get('y')]
            elif n['k'] in ('for', 'while', 'rfor', 'do'):
                stm += [n.get('body'), n.get('inc')]
            elif n['k'] in ('case', 'default'):
                stm.append(n.get('s'))
            elif n['k'] == 'cast' and strip_type(f.tu.t(n.get('tt')) or '') == 'void' and n['e'].get('k') == 'ref':
                void.add(n['e'].get('id'))
        dropped = {id(x) for x in stm if x}
        for x in stm:
            q = writer(x) if x else None
            if q:
                bad.append((x, q))
        refs = {}
        for n in walk(f.body):
            if n['k'] == 'ref' and 'id' in n:
                refs[n['id']] = refs.get(n['id'], 0) + 1
        for n in walk(f.body):
            if n['k'] == 'var' and n.get('init') and writer(n['init']):
                c = refs.get(n.get('id'), 0)
                if c == 0 or c == 1 and n['id'] in void:
                    bad.append((n, writer(n['init'])))
            if n['k'] == 'call' and writer(n):
                good += 1
        for x, q in bad:
            R.bad('status', '%s|%s' % (fkey(f), q.split('::')[-1]), f.file, x.get('l', f.line), f.sig(), 'the status returned by %s is ignored: a file that could not be written is reported as saved' % q)
        if good and not bad:
            R.ok('status', '%s: %d calls' % (f.sig(), good))
