"""Check driver: collects obligations, decides the verdict, writes evidence."""
import os, sys, time, json, random, traceback, subprocess
import build
import solver
from execu import *
from llparse import Unsupported

VERIF = build.VERIF
LEVEL = 'proof'
ENGINE = ('vc: symbolic weakest-precondition engine over clang -O0 LLVM IR (/verif/vc: execu.py, sym.py, '
          'solver.py, ghost.py), exact integer rewriting plus z3 %s' % z3.get_version_string())
TRUSTED = ['clang 18 front end (C++ to LLVM IR) and the layout it reports',
           'the IR semantics implemented by /verif/vc/execu.py',
           'z3 (unsat answers)',
           'little-endian x86-64 / i686 data model; GCC and MSVC code generation not modelled']


class Failure:
    def __init__(self, name, detail, cands=None):
        self.name, self.detail, self.cands = name, str(detail)[:4000], cands or []


class Check:
    def __init__(self, pid, title=''):
        self.pid, self.title = pid, title
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.by = {}
        self.total = self.ok = 0
        self.funcs = []
        self.fails = []
        self.notes = []
        self.bounded = []
        self.assumptions = []
        self.trusted = list(TRUSTED)
        self.solver_time = 0.0
        self.solver_checks = 0
        self.cmds = []
        self.replayers = []     # callables(check) -> list of (description, repro)
        self.samples = []
        self.extra = {}

    # -- obligations ----------------------------------------------------------
    def add(self, by, ok, n=1):
        self.total += n
        if ok:
            self.ok += n
            self.by[by] = self.by.get(by, 0) + n

    def fact(self, name, ok, how='exact evaluation', detail='', cands=None):
        """a single ground obligation"""
        self.add(how, ok)
        if not ok:
            self.fails.append(Failure(name, detail, cands))
        return ok

    def add_exec(self, ex, fn, config, paths=None, what='', cands=None):
        """take over the obligations of an executed function"""
        n = sum(ex.oblcount.values())
        bad = len(ex.failed)
        for how, k in ex.oblcount.items():
            self.by[how] = self.by.get(how, 0) + k
        self.by_fix(ex)
        self.total += n
        self.ok += n - bad
        self.funcs.append({'function': fn, 'configuration': config, 'obligations': n, 'paths': ex.paths,
                           'failed': bad, 'inlined': sorted(ex.dname(x) for x in ex.inlined)[:40]})
        for o in ex.failed:
            self.fails.append(Failure('%s [%s] %s' % (fn, config, o.name), o.info, cands))
        if n == 0:
            self.fails.append(Failure('%s [%s]: no obligation generated' % (fn, config), 'vacuous', cands))
            self.total += 1

    def by_fix(self, ex):
        for o in ex.failed:
            self.by[o.how] = self.by.get(o.how, 1) - 1

    def guard(self, name, fn, *a, **k):
        """run fn; engine limits become failed obligations"""
        try:
            return fn(*a, **k)
        except build.CompileError as e:
            self.total += 1
            self.fails.append(Failure(name + ': does not compile', e))
        except (Unsupported, Undecided) as e:
            self.total += 1
            self.fails.append(Failure(name + ': outside the verifier\'s reach', repr(e)))
        except RecursionError as e:
            self.total += 1
            self.fails.append(Failure(name + ': outside the verifier\'s reach', repr(e)))
        except Exception as e:
            self.total += 1
            self.fails.append(Failure(name + ': verifier error', traceback.format_exc()))
        return None

    # -- end --------------------------------------------------------------------
    def finish(self):
        found = []
        if self.fails:
            for r in self.replayers:
                try:
                    found += r(self) or []
                except Exception:
                    self.notes.append('replay: ' + traceback.format_exc()[-1500:])
                if found:
                    break
        lines = []
        code = 0
        if self.fails:
            os.makedirs(os.path.join(VERIF, 'out'), exist_ok=True)
            path = os.path.join(VERIF, 'out', 'replay-%s.txt' % self.pid)
            with open(path, 'w') as f:
                f.write('property %s: %s\n' % (self.pid, self.title))
                f.write('%d obligations, %d discharged, %d failed\n\n' % (self.total, self.ok, self.total - self.ok))
                if found:
                    f.write('FAILING INPUT replayed against the real code:\n')
                    for d in found[:20]:
                        f.write('  ' + d + '\n')
                    f.write('\n')
                f.write('failed obligations:\n')
                for x in self.fails[:60]:
                    f.write('- %s\n    %s\n' % (x.name, x.detail.replace('\n', '\n    ')[:1500]))
                for n in self.notes:
                    f.write('note: ' + n + '\n')
            lines.append('VIOLATION property=%s replay=%s%s' % (self.pid, path, '' if found else ' no-failing-input-found'))
            code = 1
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': LEVEL,
            'coverage': dict({
                'obligations': self.total, 'discharged': self.ok,
                'checker_cmd': 'python3-vt vc/run.py %s' % self.pid,
                'trusted_base': self.trusted + [ENGINE],
                'discharged_by': self.by,
                'functions_under_contract': self.funcs,
                'solver_time_s': round(self.solver_time + solver.STATS['time'], 2),
                'solver_queries': self.solver_checks + solver.STATS['checks'],
                'samples': self.samples[:10],
                'bounded_not_proved': self.bounded,
            }, **self.extra),
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(self.fails),
        }
        if self.notes:
            ev['coverage']['notes'] = self.notes[:50]
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(p + '.tmp', p)
        print('%s: %d obligations, %d discharged, %d functions/units, %.1f s' %
              (self.pid, self.total, self.ok, len(self.funcs), time.time() - self.t0))
        for x in self.fails[:12]:
            print('  failed:', x.name[:300])
        for l in lines:
            print(l)
        sys.stdout.flush()
        return code


# ---- native replay -----------------------------------------------------------
NATIVE = {
    'x64': ['g++', '-m64'],
    'x64g': ['g++', '-m64'],
    'i686': ['g++', '-m32', '-msse2', '-mfpmath=sse'],
    'i686g': ['g++', '-m32', '-msse2', '-mfpmath=sse'],
}


def native_build(src, config, defs=(), extra=(), opt='-O1'):
    """src relative to /verif/native ; -> path of the executable or None"""
    out = os.path.join(build.tmpdir(), 'n-%s-%s-%d' % (os.path.basename(src), config, random.getrandbits(40)))
    cmd = NATIVE[config] + ['-std=c++17', opt, '-w', '-include', 'algorithm', '-I', build.REPO,
                            '-I', os.path.join(VERIF, 'native'), '-I', os.path.join(VERIF, 'harness')] + list(defs) + \
        [os.path.join(VERIF, 'native', src)] + list(extra) + ['-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return None
    return out
