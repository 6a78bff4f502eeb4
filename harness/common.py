"""Shared machinery of the checks: scratch space, TLC runs, verdicts, evidence.

A check is a function  run(ctx)  which
  * model-checks the design modules of its property           (ctx.mc)
  * lets TLC generate scenarios                                (ctx.gen)
  * drives the real code on them and records cases/traces      (python, harness/drive_*.py)
  * lets TLC validate every recorded case against the spec     (ctx.validate)
The verdict on every case is TLC's: python only reports it.
"""
import atexit
import contextlib
import errno
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import concurrent.futures

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
OUT = os.path.join(VERIF, 'out')
REPO = os.environ.get('CFD_REPO', '/repo')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CPUS = os.cpu_count() or 4


class MachineryError(Exception):
    """the check itself is broken (not the code under test)"""


class Deadline(Exception):
    pass


@contextlib.contextmanager
def deadline(seconds, what='case'):
    """interrupt a call of the code under test that does not come back"""

    def handler(signum, frame):
        raise Deadline(f'{what}: no answer within {seconds} s')

    old = signal.signal(signal.SIGALRM, handler)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def fbits(x):
    """float64 -> 16 hex digits (exact; TLC sees an opaque token)"""
    import struct

    return struct.pack('>d', float(x)).hex()


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != 'thorough'
        self.rng = random.Random(seed * 1000003 + sum(map(ord, pid)))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f'verif-{pid}-')
        atexit.register(shutil.rmtree, self.scratch, True)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.notes = {}
        self.violations = []  # (clause text, replay path)
        self.known = load_known(pid)
        self.known_hit = {}
        self.nrun = 0
        self.generated = 0
        self.actions = {}

    def log(self, *a):
        print(f'[{self.pid} {time.time() - self.t0:6.1f}s]', *a, flush=True)

    def path(self, *names):
        p = os.path.join(self.scratch, *names)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def subdir(self, name):
        self.nrun += 1
        p = os.path.join(self.scratch, f'{self.nrun:04d}-{name}')
        os.makedirs(p)
        return p

    # ---------------------------------------------------------------- TLC
    def _tlc(self, module, cfg, env=None, workers=CPUS, extra=(), timeout=600, mem='3g'):
        self.nrun += 1
        wd = os.path.join(self.scratch, f'tlc-{self.nrun:04d}')
        os.makedirs(wd)
        cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{mem}', '-Xss64m', '-cp', JAR, f'-DTLA-Library={SPEC}', 'tlc2.TLC',
               '-metadir', os.path.join(wd, 'meta'), '-noGenerateSpecTE', '-workers', str(workers), '-config', cfg]
        cmd += list(extra) + [os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, preexec_fn=_unlimit)
        except subprocess.TimeoutExpired as x:
            raise MachineryError(f'TLC timeout on {module} ({timeout}s)') from x
        out = p.stdout.decode('utf8', 'replace')
        shutil.rmtree(os.path.join(wd, 'meta'), True)
        gen = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        st = (int(gen.group(2)), int(gen.group(1))) if gen else (0, 0)
        return p.returncode, out, st

    def mc(self, module, cfg=None, env=None, timeout=600, need_actions=True, extra=(), simulate=None, dead_ok=()):
        """model-check a design module; every invariant must hold and every action be taken"""
        cfg = os.path.join(SPEC, (cfg or module) + '.cfg')
        ex = ['-coverage', '1'] if simulate is None else ['-simulate', simulate]
        rc, out, (st, tr) = self._tlc(module, cfg, env, extra=ex + list(extra), timeout=timeout)
        if simulate is not None:
            m = re.search(r'The number of states generated: (\d+)', out)
            st = tr = int(m.group(1)) if m else 0
        if rc != 0:
            sys.stdout.write(out[-6000:])
            raise MachineryError(f'design check of {module} failed (rc={rc})')
        if st == 0:
            sys.stdout.write(out[-3000:])
            raise MachineryError(f'design check of {module} explored nothing')
        acts = {}
        for m in re.finditer(r'^<(\w+) line \d+.*?>: (\d+):(\d+)', out, re.M):
            acts[m.group(1)] = max(acts.get(m.group(1), 0), int(m.group(3)))
        dead = [a for a, n in acts.items() if n == 0 and a not in ('Init',) and a not in dead_ok]
        if need_actions and simulate is None and dead:
            raise MachineryError(f'{module}: actions never taken: {dead}')
        self.actions.setdefault(module, {}).update(acts)
        self.states += st
        self.transitions += tr
        self.log(f'design {os.path.basename(cfg)[:-4]}: {st} states, {tr} transitions, no violation')
        return out

    def gen(self, module, cfg=None, env=None, simulate=None, timeout=300, workers=1, dedup=True):
        """let TLC enumerate (or simulate) scenarios: every line  @@<json>  printed by the module"""
        cfg = os.path.join(SPEC, (cfg or module) + '.cfg')
        ex = []
        if simulate:
            ex = ['-simulate', f'num={simulate[0]}', '-depth', str(simulate[1]), '-seed', str(self.seed)]
        rc, out, (st, tr) = self._tlc(module, cfg, env, workers=workers, extra=ex, timeout=timeout)
        if rc != 0:
            sys.stdout.write(out[-6000:])
            raise MachineryError(f'scenario generation {module} failed (rc={rc})')
        res, seen = [], set()
        for line in out.splitlines():
            if line.startswith('"@@') and line.endswith('"'):
                txt = json.loads(line)[2:]
                if dedup and txt in seen:
                    continue
                seen.add(txt)
                res.append(json.loads(txt))
        if not res:
            sys.stdout.write(out[-3000:])
            raise MachineryError(f'{module} generated no scenario')
        if simulate:
            m = re.search(r'The number of states generated: (\d+)', out)
            st = tr = int(m.group(1)) if m else 0
        self.states += st
        self.transitions += tr
        self.generated += len(res)
        self.log(f'{module}: {len(res)} scenarios generated ({st} states)')
        return res

    def validate(self, module, cases, cfg=None, chunk=None, timeout=800, env=None, mem='3g'):
        """TLC validates each case (dict with id, ...) as a behaviour of the trace module.

        The trace module prints  <<"FAIL", case, line, {clauses}>>  or  <<"DONE", case, events>>.
        """
        if not cases:
            if CRASHES:
                return {}
            raise MachineryError(f'{module}: no cases to validate')
        cfg = os.path.join(SPEC, (cfg or module) + '.cfg')
        ids = [c['id'] for c in cases]
        if len(set(ids)) != len(ids):
            raise MachineryError('duplicate case ids')
        by = {c['id']: c for c in cases}
        todo = list(cases)
        fails, done = {}, {}
        rounds = 0
        while todo and rounds < 12:
            rounds += 1
            f = self.path(f'cases-{self.nrun}-{rounds}.ndjson')
            with open(f, 'w') as fid:
                for c in todo:
                    fid.write(json.dumps(c, allow_nan=False) + '\n')
            ee = {'CASES': f}
            ee.update(env or {})
            rc, out, (st, tr) = self._tlc(module, cfg, ee, timeout=timeout, mem=mem)
            self.states += st
            self.transitions += tr
            for m in re.finditer(r'<<\s*"FAIL",\s*"([^"]+)",\s*(\d+),\s*(\{.*?\})\s*>>', out, re.S):
                fails.setdefault(m.group(1), []).append((int(m.group(2)), re.findall(r'"([^"]*)"', m.group(3))))
            for m in re.finditer(r'<<\s*"DONE",\s*"([^"]+)",\s*(\d+)\s*>>', out):
                done[m.group(1)] = int(m.group(2))
            left = [c for c in todo if c['id'] not in fails and c['id'] not in done]
            if rc == 0 and not left:
                break
            if rc == 0:
                raise MachineryError(f'{module}: no verdict on {[c["id"] for c in left][:5]}\n' + out[-2000:])
            # evaluation error: a recorded value the specification cannot even evaluate
            m = re.findall(r'^/?\\?\s*/\\ c = (\d+)', out, re.M) or re.findall(r'\bc = (\d+)', out)
            bad = todo[int(m[-1]) - 1]['id'] if m else None
            if bad is None or bad in done or bad in fails:
                if len(left) == 1:
                    bad = left[0]['id']
                elif m is None or not left or bad is None:
                    sys.stdout.write(out[-4000:])
                    raise MachineryError(f'{module}: TLC failed (rc={rc}) outside a case')
                else:
                    bad = left[0]['id']
            msg = re.search(r'Error: (.*?)(?:\n\n|Error: The behavior)', out, re.S)
            self.notes.setdefault('unexplainable', []).append(bad)
            if os.environ.get('VERIF_DEBUG'):
                sys.stdout.write(out[-4000:])
            fails.setdefault(bad, []).append((0, ['unexplainable']))
            by[bad].setdefault('_tlc', (msg.group(1) if msg else out[-500:])[:600])
            todo = [c for c in left if c['id'] != bad]
            if len(fails) > 20:
                break
        self.traces += len(done) + len(fails)
        self.events += sum(done.values())
        self.log(f'{module}: {len(done) + len(fails)} recorded cases validated, {sum(done.values())} steps, {len(fails)} rejected')
        for cid in list(done)[:1] + list(done)[-1:]:
            if len(self.samples) < 6:
                self.samples.append(clip({k: v for k, v in by[cid].items()}))
        for cid, lst in fails.items():
            for line, clauses in lst:
                self.report(by[cid], module, line, clauses)
        return fails

    def report(self, case, module, line, clauses):
        for k in self.known:
            if known_matches(k, case, clauses):
                self.known_hit.setdefault(k['id'], (k, case))
                return
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, f'{self.pid}-{re.sub("[^A-Za-z0-9_.-]", "_", str(case["id"]))[:80]}.json')
        with open(path, 'w') as f:
            json.dump({'property': self.pid, 'module': module, 'step': line, 'clauses': clauses, 'case': case}, f, indent=1)
        self.violations.append((f'{case["id"]} step {line}: {", ".join(clauses)}', path))

    def observed(self):
        """cases that could not be observed are behaviours too: the specification has none of them"""
        if CRASHES:
            seen = {}
            for c, t in CRASHES:
                seen.setdefault(t, c)
            self.notes['not_observed'] = len(CRASHES)
            self.validate('Observed', [{'id': f'crash-{c}-{i}', 'ev': [{'op': 'observe', 'exc': t}]} for i, (t, c) in enumerate(list(seen.items())[:10])])

    # ---------------------------------------------------------------- verdict
    def finish(self, level='model_checking', assumptions=()):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'trace_steps': self.events,
               'scenarios_generated_by_tlc': self.generated,
               'design_actions_taken': self.actions,
               'samples': self.samples or [{'note': 'no accepted case'}]}
        cov.update(self.notes)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for kid, (k, case) in self.known_hit.items():
            print(f'KNOWN-FINDING: property={self.pid} {k["what"]}')
        if self.violations:
            for txt, path in self.violations[:10]:
                print(f'  violated: {txt}')
            print(f'VIOLATION property={self.pid} replay={self.violations[0][1]}')
            return 1
        print(f'OK property={self.pid} states={self.states} traces={self.traces} wall={time.time() - self.t0:.1f}s')
        return 0


def _unlimit():
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


def clip(o, n=12):
    """a sample small enough to be read"""
    if isinstance(o, dict):
        return {k: clip(v, n) for k, v in list(o.items())[:20]}
    if isinstance(o, (list, tuple)):
        r = [clip(v, n) for v in o[:n]]
        return r + [f'... {len(o) - n} more'] if len(o) > n else r
    if isinstance(o, str) and len(o) > 200:
        return o[:200] + '...'
    return o


def load_known(pid):
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))['findings'] if k['property'] == pid]


def known_matches(k, case, clauses):
    """a finding is identified by the exact failing call and clause, never by the property alone"""
    return case.get('finding') == k['id'] and set(clauses) <= set(k['clauses'])


def outcome(f, *a, **kw):
    """call the code under test; (ok, value) or (not ok, exception name)"""
    try:
        with deadline(60, getattr(f, '__name__', 'call')):
            return True, f(*a, **kw)
    except Deadline as e:
        return False, e
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # SystemExit of argparse included
        return False, e


def errtxt(e):
    return f'{type(e).__name__}: {e}'[:300]


CRASHES = []  # cases that ended in the middle: what the code gave could not be observed


class Guard:
    """a case whose results cannot be observed (an object that contradicts itself, a file nobody can decode) is
    recorded as such; errors of the machine (memory, disk) are not"""

    def __init__(self, f):
        self.f = f

    def __call__(self, item):
        try:
            return None, self.f(item)
        except (MachineryError, MemoryError, KeyboardInterrupt):
            raise
        except OSError as e:
            if e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.EROFS, errno.EDQUOT, errno.EIO):
                raise
            return self.crash(item, e)
        except Exception as e:
            return self.crash(item, e)

    def crash(self, item, e):
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
        last = traceback.extract_tb(e.__traceback__)[-1]
        cid = item[0] if isinstance(item, tuple) and isinstance(item[0], str) else repr(item)[:40]
        return cid, f'{errtxt(e)} ({os.path.basename(last.filename)} {last.name})'


def pmap(f, items, procs=CPUS, safe=True):
    """run f over items in forked workers (code under test + projection), results in order;
    safe: cases that cannot be observed are left out and listed in CRASHES"""
    items = list(items)
    g = Guard(f) if safe else f
    if len(items) <= 2 or procs == 1:
        res = [g(i) for i in items]
    else:
        import multiprocessing as mp

        ctx = mp.get_context('fork')
        with concurrent.futures.ProcessPoolExecutor(min(procs, len(items)), mp_context=ctx) as ex:
            res = list(ex.map(g, items, chunksize=max(1, len(items) // (procs * 4))))
    if not safe:
        return res
    for c, r in res:
        if c is not None:
            CRASHES.append((c, r))
    return [r for c, r in res if c is None]
