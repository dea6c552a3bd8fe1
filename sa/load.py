"""Builds the extractor when needed, extracts /repo's current sources and loads the program model.

Extraction parses the real translation units with the installed clang front end; nothing is compiled
to code or run.  Results are cached under /verif/build keyed by a hash of every source file of the
repository plus the extractor, so a cached entry can only be reused for byte-identical input."""
import hashlib
import json
import os
import time
import subprocess
import sys
import tempfile
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

TUS = {
    'lib': ('image_io.cpp', ['-fopenmp', '-include', 'image_operations.h', '-include', 'histogram.h', '-include', 'linear_algebra.h', '-include', 'cube_operations.h']),
    'main': ('main.cpp', []),
    'plugin_math': ('plugin_math.cpp', []),
    'plugin_math_add': ('plugin_math_add.cpp', []),
    'plugin_replace': ('plugin_replace.cpp', []),
}


class LoadError(Exception):
    pass


def sh(p):
    h = hashlib.sha256()
    with open(p, 'rb') as f:
        h.update(f.read())
    return h.hexdigest()


def build_extractor():
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    out = os.path.join(BUILD, 'extract-' + sh(src)[:16])
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    cmd = ['clang++-18', '-std=c++17', '-O1', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
           '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '-L/usr/lib/llvm-18/lib', '-lLLVM-18']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise LoadError('cannot build the extractor:\n' + r.stderr[-2000:])
    os.rename(tmp, out)
    return out


def repo_sources():
    out = []
    for base, dirs, files in os.walk(REPO):
        rel = os.path.relpath(base, REPO)
        top = rel.split(os.sep)[0]
        if top in ('.git', 'build', 'InputImages', 'OutputImages', 'test', '.github'):
            dirs[:] = []
            continue
        for f in files:
            if f.endswith(('.h', '.hpp', '.cpp', '.inl', '.cuh', '.cc', '.ipp', '.tpp')):
                out.append(os.path.join(base, f))
    return sorted(out)


def source_hash(exe):
    h = hashlib.sha256()
    h.update(os.path.basename(exe).encode())
    for p in repo_sources():
        h.update(os.path.relpath(p, REPO).encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def extract(names):
    exe = build_extractor()
    hsh = source_hash(exe)
    d = os.path.join(BUILD, 'ex')
    os.makedirs(d, exist_ok=True)
    procs = []
    res = {}
    for n in names:
        main, flags = TUS[n]
        if not os.path.exists(os.path.join(REPO, main)):
            raise LoadError('source file %s is gone' % main)
        out = os.path.join(d, '%s-%s.json' % (n, hsh))
        res[n] = out
        if os.path.exists(out):
            os.utime(out)
            continue
        tmp = out + '.%d.tmp' % os.getpid()
        cmd = [exe, REPO, tmp, os.path.join(REPO, main), '--', '-std=c++23', '-ferror-limit=0', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18'] + flags
        log = open(out + '.log', 'w')
        procs.append((n, subprocess.Popen(cmd, cwd=REPO, stdout=log, stderr=log), tmp, out))
    for n, p, tmp, out in procs:
        p.wait()
        if not os.path.exists(tmp):
            raise LoadError('extraction of %s failed (exit %s), see %s.log' % (n, p.returncode, out))
        os.rename(tmp, out)
    # prune old cache entries
    keep = set(os.path.basename(x) for x in res.values())
    def mtime(f):
        try:
            return os.path.getmtime(f)
        except OSError:
            return 0
    allf = sorted((os.path.join(d, f) for f in os.listdir(d)), key=mtime, reverse=True)
    for f in allf[80:]:
        if os.path.basename(f) in keep:
            continue
        try:
            if os.path.getmtime(f) < time.time() - 900:
                os.remove(f)
        except OSError:
            pass
    return res


def load(names):
    from prog import TU, Program
    res = extract(names)
    return Program([TU(res[n], n) for n in names])
