"""Pixelwise combination rejects operands of different size."""
from lib import *

TUS = ['lib']
MIN = {'pairing': 20}

# operations documented as combining their image operands position by position
NAMED = {'operator+', 'operator-', 'operator*', 'operator/', 'operator+=', 'operator-=', 'operator*=', 'operator/=', 'add', 'subtract',
         'pixelwise_multiplies', 'divides', 'modulus', 'difference', 'manhattan_distance', 'euclidean_distance', 'generate_complex_image',
         'constructRGB', 'constructRGBDOUBLE', 'constructHSV', 'constructMultiChannel', 'addChannel', 'find_local_extrema', 'check_size_same', 'pixelwise_transform'}


def run(P, R):
    R.rule('pairing', 'abstract interpretation of every function taking two or more images: wherever two different operands are read at the same position, '
                      'or on every normal exit of a position-by-position operation, the facts established by throwing checks must entail equal shapes')
    I = Interp(P)
    for f in P.funcs:
        if not f.body or f.file not in ('image.h', 'image_operations.h', 'linear_algebra.h'):
            continue
        if internal(f) and f.name not in ('find_local_extrema',):
            continue
        args = None
        ops = image_params(f)
        this = None
        if f.cls == 'Image' and f.kind == 'method' and not f.d.get('static'):
            this = mk('imgp', 'this')
            ops.append(('*this', this))
        if f.name in ('add', 'pixelwise_multiplies', 'pixelwise_transform', 'addChannel', 'constructMultiChannel'):
            # generic trailing packs stand for images as well
            args = {}
            for i, p in enumerate(f.params):
                if p.get('pack') and kind_of_type(f.ptype(i).replace('...', '').strip(), f.req()) != 'img' and any(o for o in ops) | (f.name == 'pixelwise_transform'):
                    ts = tuple(mk('imgp', '%s%d' % (p['n'], j)) for j in range(2))
                    args[p['n']] = mk('packv', ts)
                    ops += [('%s[%d]' % (p['n'], j), t) for j, t in enumerate(ts)]
        seen = []
        ops = [(n, t) for n, t in ops if not (t in seen or seen.append(t))]
        if len(ops) < 2:
            continue
        where = '%s:%d %s' % (f.file, f.line, f.sig())
        fr = I.run(f, args=args, this=this)
        if fr is None:
            R.unknown('pairing', where + ' (budget)')
            continue
        pairs = {}
        terms = {t: n for n, t in ops}
        reads = {}
        for e in I.events:
            if e['k'] == 'px' and e['img'] in terms and any(contains(c, lambda t: t.k == 'iv') for c in e['coords']):
                for im, ev in reads.get(e['coords'], []):
                    if im is not e['img']:
                        # individually bounded accesses need no common shape
                        n = len(e['coords'])
                        if all(entails(e['facts'], lt(c, I.sz(e['img'], i))) for i, c in enumerate(e['coords'])) and \
                           all(entails(ev['facts'], lt(c, I.sz(im, i))) for i, c in enumerate(e['coords'])):
                            continue
                        pairs.setdefault(frozenset((im, e['img'])), []).append(e)
                reads.setdefault(e['coords'], []).append((e['img'], e))
            elif e['k'] == 'transform' and len(e['ins']) > 1:
                src = []
                for it in e['ins']:
                    b = it.a[0] if it.k == 'it' else it
                    if b.k == 'data' and b.a[0] in terms:
                        src.append(b.a[0])
                for i in range(len(src)):
                    for j in range(i + 1, len(src)):
                        if src[i] is not src[j]:
                            pairs.setdefault(frozenset((src[i], src[j])), []).append(e)
        if f.name in NAMED:
            live = [x for x in fr.exits]
            for i in range(len(ops)):
                for j in range(i + 1, len(ops)):
                    a, b = ops[i][1], ops[j][1]
                    for x in live:
                        pairs.setdefault(frozenset((a, b)), []).append(dict(facts=x['st'].facts, l=x['l'], k='exit'))
        for pr, evs in pairs.items():
            a, b = sorted(pr)
            worst = None
            for e in evs:
                if not prove_same_shape(I, e['facts'], a, b):
                    worst = e
                    break
            w = '%s operands %s,%s' % (where, terms[a], terms[b])
            if worst is None:
                R.ok('pairing', w)
                continue
            if opaque_guard(worst['facts'], a, b):
                R.unknown('pairing', w + ' (guard not interpreted)')
                continue
            # the pair was handed to a callee the analysis did not enter: that callee is judged on its own
            if any(e['k'] == 'call' and e['repo'] and a in set().union(*[subterms(x) for x in e['args'] if isinstance(x, T)] or [set()]) for e in I.events) or \
               any(e['k'] == 'call' and not e['repo'] and e['q'] in P.byname and mentions(mk('tuple', tuple(x for x in e['args'] if isinstance(x, T))), a, b) for e in I.events):
                R.unknown('pairing', w + ' (delegates to a function judged separately)')
                continue
            if worst.get('k') == 'exit' and f.name not in ('check_size_same',) and not any(True for x in fr.exits):
                continue
            R.bad('pairing', '%s|%s,%s' % (fkey(f), terms[a], terms[b]), f.file, worst['l'] or f.line, f.sig(),
                  'operands %s and %s are combined position by position without their sizes being known equal' % (terms[a], terms[b]))
