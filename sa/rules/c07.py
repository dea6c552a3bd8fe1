"""Files and buffers are released exactly once on every path (typestate dataflow, see flow.py)."""
import re
from lib import *
import flow

TUS = ['lib', 'main']
MIN = {'released': 10, 'once': 10, 'valid': 10}
CALLS = set(flow.ACQUIRE) | set(flow.RELEASE)


def handles(P):
    """functions that acquire or release a handle or buffer, directly or through another function of the library"""
    direct, calls = set(), {}
    for f in P.funcs:
        if not f.body:
            continue
        cs = set()
        for n in walk(f.body):
            if n['k'] == 'call' and n.get('f') and n['f'].get('k') == 'ref':
                q = n['f'].get('q') or n['f'].get('n') or ''
                cs.add(q.split('::')[-1])
                if q in CALLS or q in flow.TRANSFER:
                    direct.add(f.key)
            if n['k'] in ('new', 'delete'):
                direct.add(f.key)
            if n['k'] == 'var' and flow.STREAM.match(f.tu.t(n.get('ct') if n.get('ct') is not None else n.get('t')) or ''):
                direct.add(f.key)
        calls[f.key] = cs
    byname = {}
    for f in P.funcs:
        if f.body:
            byname.setdefault(f.name, []).append(f)
    rel = set(direct)
    names = {f.name for f in P.funcs if f.body and f.key in rel}
    for _ in range(6):
        add = {f.key for f in P.funcs if f.body and f.key not in rel and calls[f.key] & names and f.file.startswith('image_io')}
        if not add:
            break
        rel |= add
        names |= {f.name for f in P.funcs if f.key in add}
    return [f for f in P.funcs if f.body and f.key in rel], direct


def library(g):
    return g.file.startswith('image_io') or g.name.startswith(('read_', 'write_', 'close_', 'open_')) or g.file not in ('image.h', 'image_operations.h', 'basic_functions.h')


def exitkey(f, fn):
    return fkey(fn or f)


def run(P, R):
    R.rule('released', 'on every path, every file or buffer the function acquired is released, or handed to the caller, before the function is left')
    R.rule('once', 'no path releases a file or buffer twice')
    R.rule('valid', 'no path uses a file or buffer after releasing it')
    fs, direct = handles(P)
    seen = set()
    for f in fs:
        F = flow.Flow(P, library)
        try:
            exits = F.run(f)
        except (flow.Give, RecursionError) as x:
            R.unknown('released', '%s: %s' % (f.sig(), x))
            continue
        leaks = {}
        for kind, v, st, n in exits:
            keep = flow.resources(v) if kind == 'return' and v else set()
            for i, p in enumerate(f.params):
                if f.ptype(i).rstrip().endswith('&'):
                    keep |= flow.resources(st.env.get((('r',), p['id'])) or ())
            for kk, vv in st.env.items():
                if kk[0] == ('T',):
                    keep |= flow.resources(vv)
            for r, s in st.res.items():
                if s == 'open' and r in F.sites and r not in keep and not st.und:
                    leaks.setdefault(r, (kind, n, st))
        for r, (kind, n, st) in leaks.items():
            what, fn, line, node = F.sites[r]
            k = '%s|%s|leak' % (fkey(fn), what)
            if (k, line) in seen:
                continue
            seen.add((k, line))
            R.bad('released', k, fn.file, line, fn.sig(), '%s acquired here is never released on the path that leaves %s by %s at line %d%s' % (what, f.name, kind, n.get('l', 0), ' (after %s failed)' % F.failname(st.fails[-1]) if st.fails else ''))
        bad = {'leak': 0, 'double': 0, 'useafter': 0}
        for (kind, site, _), (fn, line, msg) in F.problems.items():
            if kind not in bad:
                continue
            bad[kind] += 1
            rule = {'leak': 'released', 'double': 'once', 'useafter': 'valid'}[kind]
            k = '%s|%s|%s' % (fkey(fn), F.sites[site][0] if site in F.sites else 'handle', kind)
            if (k, line) in seen:
                continue
            seen.add((k, line))
            R.bad(rule, k, fn.file, line, fn.sig(), msg)
        nsites = len([r for r in F.sites])
        what = '%s: %d exits, %d acquisition sites' % (f.sig(), len(exits), nsites)
        if not leaks and not bad['leak']:
            R.ok('released', what)
        if not bad['double']:
            R.ok('once', what)
        if not bad['useafter']:
            R.ok('valid', what)
