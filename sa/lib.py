"""Helpers shared by the rules: operand discovery, shape predicates, cached runs."""
import re
from terms import *
from prog import *
from interp import Interp, tkind, Budget, Ref

LIBH = ('image.h', 'image_operations.h', 'linear_algebra.h', 'cube_operations.h', 'cube.h', 'histogram.h', 'basic_functions.h', 'base_types.h', 'image_io.h', 'image_io.cpp')


def internal(f):
    """implementation helpers that are not part of the public surface"""
    return bool(re.search(r'(^|::)(impl|detail|SIFT_impl|internal)(::|$)', f.q)) or f.name.endswith(('_detail', '_impl', '_helper')) or f.d.get('acc') in ('private', 'protected')


def tainted(f):
    if getattr(f, '_t', None) is None:
        pass
    return any(n['k'] == 'recovery' for n in walk(f.body)) if f.body else True


def fkey(f):
    return ('%s|%s' % (f.q.replace('TinyDIP::', ''), ','.join(short(f.ptype(i)).replace(' ', '') + ('...' if p.get('pack') else '') for i, p in enumerate(f.params))))


def image_params(f, packn=2):
    """[(name, term)] of image operands; packs expand to packn operands"""
    out = []
    for i, p in enumerate(f.params):
        ts = f.ptype(i).replace('...', '').strip()
        if kind_of_type(ts, f.req()) == 'img':
            if p.get('pack'):
                out += [('%s[%d]' % (p['n'], j), mk('imgp', '%s%d' % (p['n'], j))) for j in range(packn)]
            else:
                out.append((p['n'], mk('imgp', p['n'])))
    return out


def same_shape(I, a, b, n=2):
    return [eq0(sub(I.dim(a), I.dim(b)))] + [eq0(sub(I.sz(a, i), I.sz(b, i))) for i in range(n)]


def prove_same_shape(I, facts, a, b):
    if a is b:
        return True
    sa, sb = I.sizevec(a), I.sizevec(b)
    if sa is sb or mk('eqv', *sorted((sa, sb))) in facts:
        return True
    return all(entails(facts, g) for g in same_shape(I, a, b))


def mentions(t, *xs):
    s = subterms(t)
    return all(x in s for x in xs)


UNINTERP = ('app', 'sym', 'cx', 'exists', 'forall', 'eqo', 'eqb')


def opaque_guard(facts, *xs):
    """a branch condition relating xs that the domain does not interpret"""
    for f in facts:
        if f.k in ('eq0', 'le0', 'ne0', 'eqv'):
            # interpretable unless it goes through an uninterpreted application of the operands
            if any(s.k == 'app' and all(x in subterms(s) for x in xs) for s in subterms(f)):
                return f
            continue
        if f.k == 'forall':
            continue
        if f.k == 'or':
            if any(opaque_guard([y], *xs) for y in f.a[0]):
                return f
            continue
        if all(x in subterms(f) for x in xs):
            return f
    return None
