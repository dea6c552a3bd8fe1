"""Shared symbolic set-ups for the methods of the image class: every method is interpreted for 1..4 coordinates / extents."""
from lib import *

N = (1, 2, 3, 4)


def coords(f, n):
    """(args, [coordinate terms]) for an accessor called with n coordinates, or None when it takes no coordinates"""
    cs = tuple(mk('var', 'i%d' % j, 'size') for j in range(n))
    for i, p in enumerate(f.params):
        ts = f.ptype(i)
        if p.get('pack'):
            return {p['n']: mk('packv', cs)}, cs
        if p['n'] and ('Tuple' in ts or is_tuple_param(f, ts)):
            return {p['n']: mk('tuple', cs)}, cs
        if p['n'] and ('Indices' in ts or is_range_param(f, ts)):
            return {p['n']: mk('vec', cs)}, cs
    return None, None


def is_tuple_param(f, ts):
    t = strip_type(ts)
    return bool(re.search(r'is_tuple<\s*%s\s*>' % re.escape(t), f.req()))


def is_range_param(f, ts):
    t = strip_type(ts)
    return bool(re.search(r'range_value_t<\s*%s\s*>' % re.escape(t), f.req()))


def layout(I, this, cs):
    """the canonical linear position"""
    r, stride = ZERO, ONE
    for j, c in enumerate(cs):
        r = add(r, mul(c, stride))
        stride = mul(stride, I.sz(this, j))
    return r


def place(v, this):
    """linear position of a pixel reference of `this`, or None"""
    if isinstance(v, T) and v.k == 'px' and v.a[0] is this and len(v.a[1]) == 1 and v.a[1][0].k == 'lin':
        return v.a[1][0].a[0]
    return None


def interpretable(t):
    return not any(s.k in ('fresh', 'app', 'sym', 'u', 'phi', 'after', 'exists', 'cx') for s in subterms(t)) if isinstance(t, T) else False


def image_methods(P, *names):
    return [f for f in P.funcs if f.cls == 'Image' and f.file == 'image.h' and f.body and f.kind == 'method' and (not names or f.name in names)]
