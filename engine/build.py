"""Compiles analysis units against /repo's current sources and loads the resulting IR."""
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.path.join(HERE, '.build')
CLANG = '/usr/bin/clang++' if os.path.exists('/usr/bin/clang++') else '/usr/lib/llvm-18/bin/clang++'
LVIR = os.path.join(BUILD, 'lvir')


class AnalysisBroken(Exception):
    pass


class Rejected(AnalysisBroken):
    """a unit that has to compile is rejected by a static assertion of the repository"""

    def __init__(self, where, what):
        super().__init__('%s: %s' % (where, what))
        self.where, self.what = where, what


def classify(stderr):
    for m in re.finditer(r'^(\S+?):(\d+):\d+: error: (.*)$', stderr, re.M):
        f, l, msg = m.groups()
        if f.startswith(os.path.join(REPO, 'src')) and re.match(r'static assertion failed|static_assert failed', msg):
            return '%s:%s' % (os.path.relpath(f, REPO), l), msg
    return None


def ensure_tools():
    src = os.path.join(HERE, 'tools', 'lvir.cpp')
    if not os.path.exists(LVIR) or os.path.getmtime(LVIR) < os.path.getmtime(src):
        import fcntl
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, 'lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(LVIR) or os.path.getmtime(LVIR) < os.path.getmtime(src):
                r = subprocess.run(['make', '-C', os.path.join(HERE, 'tools')], capture_output=True, text=True)
                if r.returncode:
                    raise AnalysisBroken('cannot build lvir:\n' + r.stdout + r.stderr)


def config_dir(work):
    """LvArrayConfig.hpp generated from the repository's template with every option off; options come from -D."""
    d = os.path.join(work, 'inc')
    os.makedirs(d, exist_ok=True)
    s = open(os.path.join(REPO, 'src/LvArrayConfig.hpp.in')).read()
    s = re.sub(r'#cmakedefine (\w+).*', r'/* option \1 comes from the command line */', s)
    s = re.sub(r'@LVARRAY_VERSION_\w+@', '0', s)
    p = os.path.join(d, 'LvArrayConfig.hpp')
    if not os.path.exists(p) or open(p).read() != s:
        open(p, 'w').write(s)
    return d


_tmp = None


def workdir():
    global _tmp
    if _tmp is None:
        os.makedirs(BUILD, exist_ok=True)
        _tmp = tempfile.TemporaryDirectory(prefix='vf', dir=BUILD)
    return _tmp.name


def flags(defs=(), work=None):
    work = work or workdir()
    inc = config_dir(work)
    return ['-std=c++14', '-w', '-I' + inc, '-I' + os.path.join(HERE, 'stubs'), '-I' + os.path.join(HERE, 'drivers'),
            '-I' + os.path.join(REPO, 'src')] + ['-D' + d for d in defs]


_ready = {}


def prefetch(units):
    """compile several units at once; compile_ir then returns (or raises) what each gave"""
    from concurrent.futures import ThreadPoolExecutor
    workdir()
    ensure_tools()
    config_dir(workdir())
    with ThreadPoolExecutor(8) as ex:
        for u in units:
            u = (u[0], tuple(u[1]), tuple(u[2]), tuple(u[3]), u[4])
            _ready[u] = ex.submit(_compile_ir, *u)


def compile_ir(src, defs=('NDEBUG',), lvir_args=(), extra=(), text=None):
    """-> parsed JSON of lvir"""
    u = (src, tuple(defs), tuple(lvir_args), tuple(extra), text)
    if u in _ready:
        return _ready.pop(u).result()
    return _compile_ir(*u)


def _compile_ir(src, defs, lvir_args, extra, text):
    ensure_tools()
    w = workdir()
    key = hashlib.sha1(repr((src, defs, lvir_args, extra, text)).encode()).hexdigest()[:12]
    bc = os.path.join(w, key + '.bc')
    if text is not None:
        src = os.path.join(w, key + '.cpp')
        open(src, 'w').write(text)
    else:
        src = os.path.join(HERE, 'drivers', src) if not os.path.isabs(src) else src
    cmd = [CLANG] + (['-x', 'c'] if src.endswith('.c') else []) + \
        [f for f in flags(defs) if not (src.endswith('.c') and f == '-std=c++14')] + \
        ['-g', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-fno-delete-null-pointer-checks', '-emit-llvm', '-c', src, '-o', bc] + list(extra)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        c = classify(r.stderr)
        if c:
            raise Rejected(*c)
        raise AnalysisBroken('analysis unit %s does not compile against the current tree:\n%s' % (os.path.basename(src), r.stderr[:4000]))
    r = subprocess.run([LVIR, bc] + list(lvir_args), capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('lvir failed on %s: %s' % (os.path.basename(src), r.stderr[:2000]))
    os.unlink(bc)
    return json.loads(r.stdout)
