"""Shared result/evidence handling for the rules."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class CheckError(Exception):
    pass


class Finding:
    def __init__(self, key, file, line, func, msg, rule):
        self.key, self.file, self.line, self.func, self.msg, self.rule = key, file, line, func, msg, rule

    def where(self):
        return '%s:%s %s' % (self.file, self.line, self.func)


class Result:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.findings = []
        self.inst = {}        # rule -> list of analysed instances
        self.unk = {}         # rule -> list of instances the rule could not decide (not reported)
        self.rules = {}       # rule -> text
        self.trusted = []

    def rule(self, name, text):
        self.rules[name] = text
        self.inst.setdefault(name, [])
        self.unk.setdefault(name, [])

    def ok(self, rule, what):
        self.inst[rule].append(what)

    def unknown(self, rule, what):
        self.unk[rule].append(what)

    def bad(self, rule, key, file, line, func, msg):
        self.inst[rule].append('%s:%s %s' % (file, line, func))
        if any(f.key == key and f.rule == rule for f in self.findings):
            return
        self.findings.append(Finding(key, file, line, func, msg, rule))

    def selfcheck(self, mod):
        """a rule that suddenly matches (almost) nothing has lost its anchor: that is no pass"""
        for r, least in getattr(mod, 'MIN', {}).items():
            n = len(self.inst.get(r, [])) + len(self.unk.get(r, []))
            if n < least and not self.findings:
                raise CheckError('rule %s matched %d instances, at least %d expected: the code it is anchored in was not recognised' % (r, n, least))

    def summary(self):
        return '; '.join('%s: %d decided, %d undecided' % (r, len(self.inst[r]), len(self.unk[r])) for r in self.rules)

    def write_evidence(self, wall, new, old):
        n = sum(len(v) for v in self.inst.values())
        u = sum(len(v) for v in self.unk.values())
        cov = dict(
            explanation='Static analysis of /repo\'s current sources (clang syntax trees, abstract interpretation of the extracted functions; nothing is executed). ' +
                        ' | '.join('%s: %s' % kv for kv in self.rules.items()),
            obligations=n, discharged=n - len(new) - len(old), undecided=u,
            rules={r: dict(text=self.rules[r], instances=len(self.inst[r]), undecided=len(self.unk[r]),
                           analysed=self.inst[r][:400], not_decided=self.unk[r][:200]) for r in self.rules},
            known_findings=[f.key for f in old],
            checker_cmd='python3 /verif/check.py ' + self.pid,
            trusted_base=['clang 18 front end', '/verif/tool/extract.cpp', '/verif/sa'] + self.trusted)
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov,
                  wall_s=round(wall, 2), violations=len(new))
        cov['violation_sites'] = [dict(where=f.where(), message=f.msg, rule=f.rule, key=f.key) for f in new]
        d = os.path.join(os.environ.get('VERIF_OUT', VERIF), 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)


def known_findings(pid):
    """known_findings.txt lines:  known: property=<id> key=<key> <what fails>   (fixed: lines suppress nothing)"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, what = rest.split(' ', 1)
                out[key[4:]] = what
    return out
