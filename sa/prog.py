"""Program model: loads the extractor's JSON, merges translation units, indexes functions."""
import json
import re


class Fn:
    __slots__ = ('d', 'tu', 'key', 'name', 'q', 'file', 'line', 'params', 'body', 'cls', 'kind', '_pk')

    def __init__(self, d, tu):
        self.d = d
        self.tu = tu
        self.key = d['key']
        self.name = d['n']
        self.q = d['q']
        self.file = d['file']
        self.line = d['l']
        self.params = d['params']
        self.body = d.get('body')
        self.cls = d.get('cls')
        self.kind = d['kind']
        self._pk = None

    def ptype(self, i):
        return self.tu.types[self.params[i]['t']]

    def ret(self):
        return self.tu.types[self.d['ret']] if self.d['ret'] >= 0 else ''

    def req(self):
        return self.d.get('req', '') + ' ' + ' '.join(t['s'] for t in self.d.get('tps', []))

    def __repr__(self):
        return '%s@%s:%d' % (self.q, self.file, self.line)

    def sig(self):
        return '%s(%s)' % (self.q, ', '.join(short(self.ptype(i)) + ('...' if p.get('pack') else '') for i, p in enumerate(self.params)))


def short(s):
    s = s.replace('TinyDIP::', '').replace('std::', '')
    return re.sub(r'\s+', ' ', s)


class TU:
    def __init__(self, path, name):
        d = json.load(open(path))
        self.name = name
        self.types = d['types']
        self.errors = d['errors']
        self.funcs = [Fn(f, self) for f in d['funcs']]
        self.recs = d['recs']
        self.enums = d['enums']
        self.gvars = d['gvars']

    def t(self, i):
        return self.types[i] if i is not None and i >= 0 else ''


class Program:
    def __init__(self, tus):
        self.tus = tus
        self.funcs = []
        self.bykey = {}
        self.byname = {}
        self.recs = {}
        self.reclist = []
        self.enums = {}
        self.gvars = {}
        for tu in tus:
            for f in tu.funcs:
                if f.key in self.bykey:
                    continue
                self.bykey[f.key] = f
                self.funcs.append(f)
                self.byname.setdefault(f.name, []).append(f)
            for r in tu.recs:
                if (r['file'], r['l']) in [(x['file'], x['l']) for x, _ in self.reclist]:
                    continue
                self.reclist.append((r, tu))
                self.recs.setdefault(r['n'], (r, tu))
            for e in tu.enums:
                self.enums.setdefault(e['q'], e)
            for g in tu.gvars:
                self.gvars.setdefault((g['file'], g['l'], g['n']), (g, tu))

    def fn(self, q):
        return [f for f in self.funcs if f.q == q]


def walk(n, pre=None, post=None):
    """generic pre-order walk over dict nodes"""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if 'k' in x:
                yield x
            for v in reversed(list(x.values())):
                if isinstance(v, (dict, list)):
                    stack.append(v)
        elif isinstance(x, list):
            for v in reversed(x):
                if isinstance(v, (dict, list)):
                    stack.append(v)


def strip_type(s):
    s = s.strip()
    while True:
        o = s
        s = re.sub(r'\s*(&&|&)$', '', s).strip()
        s = re.sub(r'^const\s+', '', s)
        s = re.sub(r'\s+const$', '', s)
        if s == o:
            return s


SIZE_T = {'std::size_t', 'size_t', 'unsigned long', 'unsigned int', 'std::uint8_t', 'unsigned char', 'GrayScale', 'TinyDIP::GrayScale', 'std::uint32_t', 'std::uint16_t', 'unsigned short', 'unsigned'}
INT_T = {'int', 'long', 'std::ptrdiff_t', 'ptrdiff_t', 'long long', 'short', 'std::int64_t', 'std::int32_t', 'std::streamsize', 'char'}
FLT_T = {'double', 'float', 'long double'}


def kind_of_type(s, req=''):
    s0 = strip_type(s)
    s1 = s0.replace('TinyDIP::', '')
    if s1.startswith('Image<') or s1 == 'Image':
        return 'img'
    if s1.startswith('std::vector<') or s1.startswith('vector<'):
        return 'vec'
    if s1.startswith('std::array<') or s1.startswith('std::span<') or s1.startswith('std::list<') or s1.startswith('std::initializer_list<'):
        return 'vec'
    if s1.startswith('std::tuple<') or s1.startswith('std::pair<'):
        return 'tuple'
    if s1 in SIZE_T:
        return 'size'
    if s1 in INT_T:
        return 'int'
    if s1 in FLT_T:
        return 'flt'
    if s1 == 'bool':
        return 'bool'
    if 'std::basic_string' in s1 or s1 in ('std::string', 'std::string_view') or s1.startswith('char '):
        return 'str'
    if s1.startswith('(lambda'):
        return 'lam'
    if 'execution::' in s1 and 'policy' in s1:
        return 'policy'
    if re.fullmatch(r'\w+', s1):
        if re.search(r'is_execution_policy(_v|)<\s*(std::remove_cvref_t<\s*)?%s\b' % re.escape(s1), req):
            return 'policy'
        if re.search(r'is_Image<\s*(std::remove_cvref_t<\s*)?%s\b' % re.escape(s1), req):
            return 'img'
        if re.search(r'(std::integral|std::unsigned_integral|std::same_as<std::size_t>)[ ,.<]*%s\b' % re.escape(s1), req):
            return 'size'
        if re.search(r'(std::floating_point)[ .<]*%s\b' % re.escape(s1), req):
            return 'flt'
        if re.search(r'(\b\w+_range|ranges::\w*range)[ .<]*%s\b' % re.escape(s1), req):
            return 'vec'
        if re.search(r'invocable\s*(<[^{}();&|]*>)?\s+%s\b' % re.escape(s1), req) or re.search(r'invocable<\s*%s\b' % re.escape(s1), req):
            return 'lam'
    return None


def image_elem(s):
    m = re.search(r'Image<(.*)>', strip_type(s))
    return m.group(1).replace('TinyDIP::', '').strip() if m else None
