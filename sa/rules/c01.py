"""An image always stores exactly as many pixels as its shape declares."""
from lib import *
from rules.imgclass import *

TUS = ['lib']
MIN = {'construct': 8, 'mutate': 10}


def decidable(t):
    """only parameters, lengths of parameters and extents occur"""
    return not any(s.k in ('app', 'exists', 'cx', 'fresh', 'fold') or s.k == 'sym' and '#' in str(s.a[0]) for s in subterms(t))


def run(P, R):
    R.rule('construct', 'every image constructor, interpreted for 1..3 extents (or 1..3 rows): on every normal exit the number of stored elements equals the product of the recorded extents')
    R.rule('mutate', 'no image method or library function changes the length of an existing image\'s storage, or its extents, unless the two provably stay consistent')
    I = Interp(P)
    I.unroll = 4
    for f in P.funcs:
        if f.cls != 'Image' or f.kind != 'ctor' or f.file != 'image.h' or not f.body:
            continue
        variants = []
        pk = [p for p in f.params if p.get('pack')]
        if pk:
            for n in (1, 2, 3):
                variants.append(('%d extents' % n, {pk[0]['n']: mk('packv', tuple(mk('var', 'd%d' % j, 'size') for j in range(n)))}))
        elif f.params and 'vector<vector<' in f.ptype(0).replace('std::', '').replace(' ', ''):
            for n in (1, 2, 3):
                variants.append(('%d rows' % n, {f.params[0]['n']: mk('vec', tuple(mk('var', 'row%d' % j, 'vec') for j in range(n)))}))
        elif f.params:
            for n in (1, 2, 3):
                last = f.params[-1]['n']
                variants.append(('%d extents' % n, {last: mk('vec', tuple(mk('var', 'd%d' % j, 'size') for j in range(n)))}))
        else:
            variants.append(('default', {}))
        for nm, args in variants:
            for i, p in enumerate(f.params):
                if p['n'] not in args and not p.get('pack'):
                    args[p['n']] = mk('var', p['n'], 'vec')
            obj = mk('struct', 'Image', (('size', mk('vec', ())), ('image_data', mk('vec', ()))))
            fr = I.run(f, args=args, thisobj=obj)
            w = '%s:%d %s, %s' % (f.file, f.line, f.sig(), nm)
            if fr is None:
                R.unknown('construct', w)
                continue
            for x in fr.exits:
                o = x['st'].env.get(('thisobj', 0))
                if not isinstance(o, T):
                    R.unknown('construct', w)
                    continue
                ln, pr = I.length(I.field(o, 'image_data')), I.product(I.field(o, 'size'))
                if nm == 'default' and I.length(I.field(o, 'size')) is ZERO:
                    pr = ZERO
                g = eq0(sub(ln, pr))
                if entails(x['st'].facts, g):
                    R.ok('construct', w)
                elif not decidable(ln) or not decidable(pr) or opaque(x['st'].facts):
                    R.unknown('construct', w + ' (%s vs %s)' % (show(ln)[:60], show(pr)[:60]))
                else:
                    R.bad('construct', fkey(f), f.file, x['l'] or f.line, f.sig(), 'with %s the image holds %s elements but declares %s' % (nm, show(ln), show(pr)))
    mutate(P, R, I)


def opaque(facts):
    return any(f.k in ('exists', 'cx', 'app') or any(s.k == 'app' for s in subterms(f)) for f in facts)


def mutate(P, R, I):
    # methods of the class itself, on a tracked object with n extents and matching storage
    for f in image_methods(P):
        if f.d.get('const') or f.d.get('static'):
            continue
        if f.name in ('print', 'print_recursive_helper', 'getImageData', 'pixels_with_coordinates'):
            continue
        for n in (2, 3):
            dd = tuple(mk('var', 'd%d' % j, 'size') for j in range(n))
            data = mk('vecn', -7, I.product(mk('vec', dd)), None)
            obj = mk('struct', 'Image', (('size', mk('vec', dd)), ('image_data', data)))
            args, cs = coords(f, n)
            fr = I.run(f, args=args, thisobj=obj, packn=n)
            w = '%s:%d %s (%d extents)' % (f.file, f.line, f.sig(), n)
            if fr is None:
                R.unknown('mutate', w)
                continue
            st = None
            for x in fr.exits:
                o = x['st'].env.get(('thisobj', 0))
                if not isinstance(o, T):
                    st = 'unk'
                    continue
                ln, pr = I.length(I.field(o, 'image_data')), I.product(I.field(o, 'size'))
                if entails(x['st'].facts, eq0(sub(ln, pr))):
                    st = st or 'ok'
                elif decidable(ln) and decidable(pr) and not opaque(x['st'].facts):
                    st = 'bad'
                    R.bad('mutate', fkey(f), f.file, x['l'] or f.line, f.sig(), 'leaves an image that holds %s elements but declares %s' % (show(ln), show(pr)))
                    break
                else:
                    st = 'unk'
            if st == 'ok':
                R.ok('mutate', w)
            elif st == 'unk':
                R.unknown('mutate', w)
    # everything else: resizing the exposed storage
    for f in P.funcs:
        if not f.body or f.cls == 'Image' or f.file not in LIBH or f.file == 'image.h':
            continue
        if not any(n['k'] == 'call' and 'getImageData' in str(n.get('f', {}).get('n', '')) or n['k'] == 'mem' and n.get('n') in ('image_data', 'getImageData') for n in walk(f.body)):
            continue
        fr = I.run(f)
        w = '%s:%d %s' % (f.file, f.line, f.sig())
        if fr is None:
            R.unknown('mutate', w)
            continue
        st = 'ok'
        for e in I.events:
            if e['k'] == 'cmut' and e['name'] not in ('reserve', 'shrink_to_fit') and under_image(I, e.get('lv'), e):
                b = e['base']
                if e['name'] == 'resize' and e['args'] and entails(e['facts'], eq0(sub(e['args'][0], I.length(b)))):
                    continue
                st = 'bad'
                R.bad('mutate', fkey(f) + '|' + e['name'], f.file, e['l'] or f.line, f.sig(), '%s on the storage of an existing image changes its length without changing its extents' % e['name'])
            elif e['k'] == 'wdata' and isinstance(e.get('val'), T) and isinstance(e.get('old'), T):
                ln, pr = I.length(e['val']), I.count(e['old'])
                if entails(e['facts'], eq0(sub(ln, pr))):
                    continue
                if decidable(ln) and decidable(pr) and not opaque(e['facts']):
                    st = 'bad'
                    R.bad('mutate', fkey(f) + '|assign', f.file, e['l'] or f.line, f.sig(), 'replaces the storage of an image declaring %s pixels by %s elements' % (show(pr), show(ln)))
                else:
                    st = 'unk'
        if st == 'ok':
            R.ok('mutate', w)
        elif st == 'unk':
            R.unknown('mutate', w)


def under_image(I, lv, e):
    l = lv
    while isinstance(l, tuple):
        if l[0] == 'data':
            return True
        if l[0] == 'fld' and l[2] == 'image_data':
            return True
        l = l[1] if len(l) > 1 and isinstance(l[1], tuple) else None
    return False
