"""Runs the analyses of one property against /repo's current sources and reports."""
import importlib
import json
import os
import re
import resource
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor
from . import build, interp, lifecycle
from .build import AnalysisBroken

HERE = build.HERE


class Result:
    """what one analysed root produced"""

    def __init__(self, root):
        self.root = root
        self.obl = {}
        self.viol = []
        self.undecided = []
        self.assumed = set()
        self.paths = 0
        self.loops = {'closed': 0, 'generic': 0}
        self.functions = set()
        self.calls = 0
        self.wall = 0


def repo_fns(fn):
    """functions of the repository whose code is part of this root (from the inlined-at chains)"""
    out = set()
    calls = 0
    for b in fn.js['blocks']:
        for i in b['insts']:
            for f, l, n in i.get('loc') or ():
                if f.startswith('src/') or '/src/' in f and not f.startswith(HERE):
                    out.add('%s: %s' % (re.sub(r'^.*?/(src/)', r'\1', f), n))
            if i['op'] == 'call':
                calls += 1
    return out, calls


_mods = {}


def _job(a):
    mod, fname, root = a
    r = None
    try:
        sys.setrecursionlimit(20000)
        r = getattr(importlib.import_module(mod), fname)(_mods['js'], root)
    except (interp.Unsupported, MemoryError, RecursionError) as e:
        r = Result(root)
        r.undecided.append(str(e) or type(e).__name__)
    except Exception as e:
        if os.environ.get('VF_DEBUG'):
            traceback.print_exc()
        r = Result(root)
        r.undecided.append('not modelled: %s: %s' % (type(e).__name__, e))
    return r


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obl = {}
        self.viol = []
        self.undecided = []
        self.assumed = set()
        self.functions = set()
        self.roots = []
        self.paths = 0
        self.calls = 0
        self.loops = {'closed': 0, 'generic': 0}
        self.notes = []
        self.samples = []
        self.extra = {}

    # -- primitive results
    def ok(self, label, n=1):
        self.obl[label] = self.obl.get(label, 0) + n

    def fail(self, label, msg, loc, trail=()):
        self.ok(label)
        if not any(v[0] == label and v[1] == msg and v[2] == loc for v in self.viol):
            self.viol.append((label, msg, loc, list(trail)))

    def check(self, cond, label, msg, loc, trail=()):
        if cond:
            self.ok(label)
        else:
            self.fail(label, msg, loc, trail)
        return cond

    def add(self, r):
        for k, n in r.obl.items():
            self.ok(k, n)
        for v in r.viol:
            if not any(w[:3] == v[:3] for w in self.viol):
                self.viol.append(v)
        self.undecided += [(r.root, u) for u in r.undecided]
        self.assumed |= r.assumed
        self.functions |= r.functions
        self.roots.append(r.root)
        self.paths += r.paths
        self.calls += r.calls
        for k in self.loops:
            self.loops[k] += r.loops.get(k, 0)

    def parallel(self, js, mod, fname, roots):
        """analyse functions of a compiled driver with an analysis of their own"""
        _mods['js'] = js
        todo = [r for r in roots if re.search(os.environ.get('VF_ONLY', ''), r)]
        if not roots:
            raise AnalysisBroken('no roots')
        if os.environ.get('VF_SERIAL'):
            res = [_job((mod, fname, r)) for r in todo]
        else:
            with ProcessPoolExecutor(8, mp_context=__import__('multiprocessing').get_context('fork')) as ex:
                res = list(ex.map(_job, [(mod, fname, r) for r in todo]))
        m = interp.Module(js)
        for r in res:
            if r.root in m.fns:
                r.functions, r.calls = repo_fns(m.fns[r.root])
            if os.environ.get('VF_DEBUG'):
                print('  [%s] obl=%d viol=%d paths=%d %.2fs %s' % (r.root, sum(r.obl.values()), len(r.viol), r.paths, r.wall, r.undecided or ''))
            self.add(r)
        return res

    def drive(self, src, handlers=None, defs=('NDEBUG',), lvir_args=(), extra=(), text=None, only=None, opts=None, setup=None, finish=None, pure=None, exclude=None, keep=None, prepare=None):
        """compile a driver against the current tree and interpret each of its roots"""
        js = build.compile_ir(src, tuple(defs), tuple(lvir_args), tuple(extra), text)
        if prepare:
            js = prepare(js)
        m = interp.Module(js)
        todo = [f for f in m.fns if (only is None or re.search(only, f)) and not (exclude and re.search(exclude, f)) and m.fns[f].js.get('root', True)]
        todo = [f for f in todo if f.startswith('vf_') and re.search(os.environ.get('VF_ONLY', ''), f)]
        if not todo and os.environ.get('VF_ONLY'):
            return []
        if not todo:
            raise AnalysisBroken('no roots in %s' % src)
        global _work
        _work = (m, handlers or lifecycle.HANDLERS, opts, setup, finish, pure)
        if len(todo) >= 4 and not os.environ.get('VF_SERIAL'):
            with ProcessPoolExecutor(8, mp_context=__import__('multiprocessing').get_context('fork')) as ex:
                res = list(ex.map(_one, todo))
        else:
            res = [_one(f) for f in todo]
        for r in res:
            if keep:
                r.obl = {k: n for k, n in r.obl.items() if keep(k)}
                r.viol = [v for v in r.viol if keep(v[0])]
            if os.environ.get('VF_DEBUG'):
                print('  [%s] obl=%d viol=%d paths=%d %.2fs %s %s' % (r.root, sum(r.obl.values()), len(r.viol), r.paths, r.wall, r.loops, r.undecided or ''))
            self.add(r)
        return res


_work = None


class OutOfTime(Exception):
    pass


def _alarm(*a):
    raise OutOfTime()


def _one(f):
    m, handlers, opts, setup, finish, pure = _work
    sys.setrecursionlimit(20000)
    if not os.environ.get('VF_SERIAL'):
        lim = 3500 << 20
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(int((opts or {}).get('root_seconds', 150)))
    r = Result(f)
    rep = lifecycle.Reporter()
    ip = interp.Interp(m, handlers, rep, pure, dict(opts or {}))
    r.functions, r.calls = repo_fns(m.fns[f])
    t = time.time()
    try:
        outs = ip.run(f, setup)
        for k, s, v in outs:
            if k == 'unreachable' and not v.get('aftercall') and not s.facts.contradictory():
                rep.fail('no path runs into undefined behaviour', 'a path ends where the program may not get', '%s | %s' % (interp.short(v.get('loc')), f), lifecycle.trailtext(s))
        r.paths = len(outs)
        if finish:
            finish(ip, f, outs, rep)
        noret = (opts or {}).get('noret')
        if isinstance(noret, str):
            noret = re.search(noret, f)
        if not any(k == 'ret' for k, _, _ in outs) and not noret:
            rep.undecided.append('no path reaches the end')
    except interp.Unsupported as e:
        rep.undecided.append(str(e))
    except RecursionError:
        rep.undecided.append('recursion depth')
    except MemoryError:
        rep.undecided.append('memory limit of the analysis')
    except OutOfTime:
        rep.undecided.append('time limit of the analysis')
    except Exception as e:
        # a construct the analysis has never met: said in the evidence, not guessed about
        if os.environ.get('VF_DEBUG'):
            traceback.print_exc()
        rep.undecided.append('not modelled: %s: %s' % (type(e).__name__, e))
    finally:
        if not os.environ.get('VF_SERIAL'):
            signal.alarm(0)
    r.wall = time.time() - t
    r.obl, r.viol, r.undecided = rep.obl, rep.viol, rep.undecided
    r.assumed = set(ip.assumed)
    r.loops = dict(ip.loopstats)
    return r


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    sys.setrecursionlimit(20000)
    mod = importlib.import_module('checks.' + pid)
    ctx = Ctx(pid, tier, seed)
    try:
        mod.run(ctx)
    except build.Rejected as e:
        ctx.fail('valid uses compile', 'a static assertion rejects a valid use: ' + e.what, e.where)
    except AnalysisBroken as e:
        print('analysis of %s could not run: %s' % (pid, e))
        return 2
    nobl = sum(ctx.obl.values())
    listed, fresh = [], []
    kf = [k for k in known_findings() if k['property'] == pid and k.get('status') == 'open']
    for v in ctx.viol:
        m = [k for k in kf if re.search(k['label'], v[0]) and re.search(k['where'], v[2]) and re.search(k['message'], v[1])]
        (listed if m else fresh).append((v, m[0] if m else None))
    print('%s [%s]: %d obligations over %d roots (%d functions of the repository, %d paths, %d loop summaries), %d undecided, %.1f s' % (
        pid, tier, nobl, len(ctx.roots), len(ctx.functions), ctx.paths, sum(ctx.loops.values()), len(ctx.undecided), time.time() - ctx.t0))
    for u in ctx.undecided:
        print('  undecided: %s: %s' % u)
    for k in kf:
        if any(m is k for _, m in listed):
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    rc = 0
    replay = os.path.join(os.environ.get('VF_NOEV') and '/tmp/w' or os.path.join(HERE, 'evidence'), pid + '.violation.txt')
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if os.path.exists(replay):
        os.unlink(replay)
    if fresh:
        with open(replay, 'w') as f:
            for (lab, msg, loc, trail), _ in fresh:
                txt = '%s\n  at %s\n  %s\n' % (lab, loc, msg) + ''.join('    path: %s\n' % t for t in trail)
                f.write(txt)
        for (lab, msg, loc, trail), _ in fresh[:12]:
            print('  violated: %s | %s | %s' % (loc, lab, msg))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        rc = 1
    elif nobl == 0:
        print('nothing could be decided')
        rc = 2
    if os.environ.get('VF_NOEV'):
        return rc
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'other'),
          'coverage': dict({'explanation': mod.EXPLANATION,
                            'obligations': nobl, 'discharged': nobl - len(ctx.viol),
                            'roots_analysed': len(ctx.roots), 'functions_analysed': len(ctx.functions), 'paths': ctx.paths,
                            'call_sites': ctx.calls, 'loop_summaries': ctx.loops,
                            'undecided': ['%s: %s' % u for u in ctx.undecided],
                            'samples': [{'obligation': k, 'times': n} for k, n in sorted(ctx.obl.items())[:60]] + ctx.samples,
                            'functions': sorted(ctx.functions)[:200]}, **ctx.extra),
          'assumptions': sorted(ctx.assumed) + list(getattr(mod, 'ASSUMPTIONS', [])),
          'wall_s': round(time.time() - ctx.t0, 3), 'violations': len(fresh)}
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    return rc


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc) if False else sys.exit(rc)
