"""Checked pixel access never touches anything outside the image; valid coordinates are accepted."""
from lib import *
from rules.imgclass import *

TUS = ['lib']
MIN = {'reject': 12, 'accept': 12, 'linear': 3, 'setter': 3}


def contradictory(facts, extra, I):
    al = facts
    for x in extra:
        al = I.add_fact(al, x)
    if FALSE in al:
        return True
    base = frozenset(extra)
    for f in facts:
        if f.k == 'or':
            if all(entails(al, t_not(y)) for y in f.a[0]):
                return True
        elif f.k in ('eq0', 'le0', 'ne0') and (entails(al - {f}, t_not(f)) or entails(base, t_not(f))):
            return True
    return False


def run(P, R):
    R.rule('reject', 'checked accessors called with n coordinates: the facts on every normal exit entail dimensionality == n and every coordinate < its extent')
    R.rule('accept', 'no throw in an accessor is reachable when dimensionality == n and every coordinate < its extent')
    R.rule('linear', 'linear access by index: the facts on every normal exit entail index < number of stored pixels (0 for an image without extents)')
    R.rule('setter', 'the tuple setter stores only under facts entailing that the coordinates are inside, returns true only then, and stores the value at their position')
    I = Interp(P)
    I.unroll = 4
    this = mk('imgp', 'this')
    for f in image_methods(P, 'at', 'at_without_boundary_check', 'operator[]'):
        for n in N:
            args, cs = coords(f, n)
            if args is None:
                continue
            fr = I.run(f, this=this, args=args)
            w = '%s:%d %s, %d coordinates' % (f.file, f.line, f.sig(), n)
            if fr is None:
                R.unknown('reject', w)
                continue
            valid = [eq0(sub(I.dim(this), const(n)))] + [lt(c, I.sz(this, j)) for j, c in enumerate(cs)]
            if f.name == 'at':
                bad = None
                for x in fr.exits:
                    for g in valid:
                        if not entails(x['st'].facts, g):
                            bad = (x, g)
                if bad is None:
                    R.ok('reject', w)
                elif opaque_guard(bad[0]['st'].facts, this):
                    R.unknown('reject', w + ' (guard not interpreted)')
                else:
                    what = 'an image that does not have %d dimensions' % n if bad[1] is valid[0] else 'a coordinate outside the extents'
                    R.bad('reject', fkey(f) + ('|const' if f.d.get('const') else ''), f.file, bad[0]['l'] or f.line, f.sig(), 'called with %d coordinates it returns a pixel for %s instead of throwing' % (n, what))
            for e in I.events:
                if e['k'] != 'throw':
                    continue
                if contradictory(e['facts'], valid, I):
                    R.ok('accept', w + ' throw at line %s' % e['l'])
                elif any(s.k in ('sym', 'app', 'exists', 'forall', 'cx') for q in e['facts'] for s in subterms(q)):
                    R.unknown('accept', w + ' throw at line %s' % e['l'])
                else:
                    R.bad('accept', fkey(f) + ('|const' if f.d.get('const') else ''), f.file, e['l'] or f.line, f.sig(), 'throws for valid coordinates (%d coordinates)' % n)
    # ---- linear index
    zero_ok = None
    for f in image_methods(P, 'count'):
        for n in (0, 1, 2, 3):
            dd = tuple(mk('var', 'd%d' % j, 'size') for j in range(n))
            im = mk('img', -1, dd, mk('uninit'))
            fr = I.run(f, this=im)
            w = '%s:%d %s with %d extents' % (f.file, f.line, f.sig(), n)
            if fr is None:
                R.unknown('linear', w)
                continue
            want = I.product(mk('vec', dd)) if n else ZERO
            got = [x['val'] for x in fr.exits if FALSE not in x['st'].facts and not contradictory(x['st'].facts, [], I)]
            if all(g is want for g in got) and got:
                R.ok('linear', w)
            elif not all(interpretable(g) for g in got) or not got:
                R.unknown('linear', w)
            else:
                R.bad('linear', fkey(f) + '|%d' % n, f.file, f.line, f.sig(), 'reports %s stored pixels for an image with extents %s' % (show(got[0]), show(mk('vec', dd))))
    for f in image_methods(P, 'set', 'get'):
        if len(f.params) < 1 or f.name == 'get' and (f.d.get('noexcept') or True):
            continue        # get() is documented as unchecked (noexcept)
        if coords(f, 1)[0] is not None:
            continue
        idx = mk('var', 'index', 'size')
        for empty in (False, True):
            d0 = eq0(I.dim(this))
            fr = I.run(f, this=this, args={f.params[0]['n']: idx}, facts=frozenset([d0 if empty else t_not(d0)]))
            w = '%s:%d %s%s' % (f.file, f.line, f.sig(), ' (image without extents)' if empty else '')
            if fr is None:
                R.unknown('linear', w)
                continue
            g = lt(idx, ZERO if empty else I.count(this))
            live = [x for x in fr.exits if not contradictory(x['st'].facts, [], I)]
            badx = next((x for x in live if not entails(x['st'].facts, g)), None)
            if badx is None:
                R.ok('linear', w)
            elif opaque_guard(badx['st'].facts, idx):
                R.unknown('linear', w)
            else:
                R.bad('linear', fkey(f), f.file, badx['l'] or f.line, f.sig(), 'returns a pixel reference for a linear index that is not below the number of stored pixels')
            if empty:
                continue
            for e in I.events:
                if e['k'] == 'throw':
                    if contradictory(e['facts'], [g], I):
                        R.ok('accept', w + ' throw at line %s' % e['l'])
                    elif not any(s.k in ('sym', 'app') for q in e['facts'] for s in subterms(q)):
                        R.bad('accept', fkey(f), f.file, e['l'] or f.line, f.sig(), 'throws for a valid linear index')
            for x in live:
                q = place(x['val'], this)
                if q is not None and q is not idx and interpretable(q):
                    R.bad('linear', fkey(f) + '|place', f.file, x['l'] or f.line, f.sig(), 'linear access returns the pixel at %s instead of index' % show(q))
    # ---- tuple setter
    for f in image_methods(P, 'set'):
        for n in N:
            args, cs = coords(f, n)
            if args is None:
                continue
            val = mk('var', 'value', None)
            args[f.params[1]['n']] = val
            fr = I.run(f, this=this, args=args)
            w = '%s:%d %s, %d coordinates' % (f.file, f.line, f.sig(), n)
            if fr is None:
                R.unknown('setter', w)
                continue
            valid = [eq0(sub(I.dim(this), const(n)))] + [lt(c, I.sz(this, j)) for j, c in enumerate(cs)]
            pos = layout(I, this, cs)
            st = 'ok'
            msg = None
            wr = [e for e in I.events if e['k'] in ('pxw', 'welem', 'wdata', 'cmut')]
            for e in wr:
                if not all(entails(e['facts'], g) for g in valid):
                    msg = 'stores although the coordinates may lie outside the image'
                    st = 'unk' if opaque_guard(e['facts'], this) else 'bad'
                elif e['k'] == 'welem' and e['idx'] is not pos and st == 'ok':
                    st, msg = ('bad', 'stores at linear position %s instead of %s' % (show(e['idx']), show(pos))) if interpretable(e['idx']) else ('unk', None)
                elif e['k'] == 'welem' and e['val'] is not val and st == 'ok' and interpretable(e['val']):
                    st, msg = 'bad', 'stores something other than the given value'
            for x in fr.exits:
                if x['val'] is TRUE and not all(entails(x['st'].facts, g) for g in valid):
                    msg = 'reports success although the coordinates may lie outside the image'
                    st = 'unk' if opaque_guard(x['st'].facts, this) else 'bad'
                if x['val'] is FALSE and not contradictory(x['st'].facts, valid, I):
                    if not any(s.k in ('sym', 'app', 'exists', 'forall') for q in x['st'].facts for s in subterms(q)):
                        st, msg = 'bad', 'reports failure for valid coordinates'
            if not wr and st == 'ok':
                if any(x['val'] is TRUE for x in fr.exits):
                    st, msg = 'unk', None
            for e in I.events:
                if e['k'] == 'throw' and not contradictory(e['facts'], valid, I) and not any(s.k in ('sym', 'app', 'exists') for q in e['facts'] for s in subterms(q)):
                    st, msg = 'bad', 'throws for valid coordinates'
            if st == 'ok':
                R.ok('setter', w)
            elif st == 'unk':
                R.unknown('setter', w)
            else:
                R.bad('setter', fkey(f), f.file, f.line, f.sig(), msg)
