"""Builds the extractor and dumps the resolved syntax of /repo's translation units."""
import fcntl, hashlib, json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HZ_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
LLVM = '/usr/lib/llvm-18'
INC = ['-Isrc', '-I.', '-Iother/argparse/include', '-Iother/loguru/include', '-I' + os.path.join(VERIF, 'shim')]
CONFIGS = {
    'cpu': [],
    'ocl': ['-DHZIP_ENABLE_OPENCL', '-DCL_HPP_ENABLE_EXCEPTIONS'],
}


class AnalysisError(Exception):
    """The analysis cannot give an answer (neither pass nor violation)."""


def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def build_hzx():
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    os.makedirs(BUILD, exist_ok=True)
    key = _h(_read(src))
    out = os.path.join(BUILD, 'hzx-' + key)
    if os.path.exists(out):
        return out
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        tmp = out + '.tmp'
        cmd = [LLVM + '/bin/clang++', '-std=c++17', '-O0', '-fno-rtti', '-w', '-I' + LLVM + '/include', '-D_GNU_SOURCE',
               '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
               LLVM + '/lib/libclang-cpp.so.18.1', '-L' + LLVM + '/lib', '-lLLVM-18']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisError('extractor does not build: ' + r.stderr[-2000:])
        os.rename(tmp, out)
    return out


_tree_key = None


def tree_key():
    """Hash of everything a translation unit can include."""
    global _tree_key
    if _tree_key:
        return _tree_key
    h = hashlib.sha256()
    for root in (os.path.join(REPO, 'src'), os.path.join(VERIF, 'shim'), os.path.join(VERIF, 'drivers')):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(_read(p))
    _tree_key = h.hexdigest()[:24]
    return _tree_key


class ParseFailure(Exception):
    def __init__(self, tu, config, msg):
        super().__init__(msg)
        self.tu, self.config, self.msg = tu, config, msg


def extract(tu, config='cpu', extra=(), roots=None, std='-std=c++20'):
    """Path of the JSON dump of one translation unit (tu relative to the repository, or absolute)."""
    hzx = build_hzx()
    roots = roots or (REPO + '/src')
    key = _h(hzx, tree_key(), tu, config, ' '.join(extra), roots, std)
    out = os.path.join(BUILD, 'ast', key + '.json')
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = '%s.%d.tmp' % (out, os.getpid())
    cmd = [hzx, tmp, roots, tu, '--', std, '-w', '-resource-dir', LLVM + '/lib/clang/18'] + INC + CONFIGS[config] + list(extra)
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=REPO)
    if r.returncode != 0 or not os.path.exists(tmp):
        raise ParseFailure(tu, config, r.stderr[-4000:])
    os.rename(tmp, out)
    return out


def sources():
    r = []
    for d, ds, fs in sorted(os.walk(os.path.join(REPO, 'src'))):
        for f in sorted(fs):
            if f.endswith('.cpp'):
                r.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(r)


def extract_many(jobs):
    """jobs: list of (tu, config[, extra]). Returns list of path or ParseFailure."""
    build_hzx()
    def one(j):
        try:
            return extract(*j)
        except ParseFailure as e:
            return e
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, jobs))
