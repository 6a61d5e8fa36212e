"""Runs a check: generates cases in parallel, judges them, watches for hangs,
shrinks the first failure to a replay file and writes the evidence.

A check is an object with
  id        property id
  rule      the stated rule for non-trivial cases
  phases(tier) -> list of Phase
Phase: name, count, gen(ch, i) -> Case (or None: nothing to do), judge(case, env) -> None or message.
Generation uses only the choice sequence ch and the index i; judging uses only the
case and the scratch directory, so every case can be replayed on its own."""
import base64
import collections
import gc
import hashlib
import json
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import mmap as _mmap
import struct

from . import choices, harvest

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HANG_CPU = 40.0         # seconds of CPU time for one case (typical cases take milliseconds)
HANG_WALL = 400.0
SOFT_END = 560.0        # a quick run on a slow machine stops after this many seconds and says so
deadline = None
MEM = 6 << 30


class Case:
    """files: list of (name, bytes); par: JSON-able parameters."""

    def __init__(self, files, par=None, nontrivial=True, label='', key=None):
        self.files, self.par, self.nontrivial, self.label = files, par or {}, nontrivial, label
        self.key = key

    def digest(self):
        h = hashlib.blake2b(digest_size=8)
        for n, d in self.files:
            h.update(repr(n).encode())
            h.update(d)
        h.update(json.dumps(self.par, sort_keys=True, default=str).encode())
        return int.from_bytes(h.digest(), 'big')

    def sample(self):
        out = {'label': self.label, 'par': {k: v for k, v in self.par.items() if len(repr(v)) < 300}}
        out['files'] = [{'name': repr(n), 'size': len(d), 'head': d[:48].hex()} for n, d in self.files[:3]]
        return out

    def to_json(self):
        return {'files': [[n if isinstance(n, str) else n.decode('latin-1'), base64.b64encode(d).decode()]
                          for n, d in self.files],
                'par': self.par, 'label': self.label}

    @staticmethod
    def from_json(j):
        return Case([(n, base64.b64decode(d)) for n, d in j['files']], j['par'], True, j.get('label', ''))


class Phase:
    def __init__(self, name, count, gen, judge):
        self.name, self.count, self.gen, self.judge = name, count, gen, judge


class Env:
    """Scratch directory of a worker."""

    def __init__(self, tmp):
        self.tmp = tmp
        self.n = 0

    def put(self, data, name='f.jp2'):
        p = os.path.join(self.tmp, name)
        with open(p, 'wb') as f:
            f.write(data)
        return p

    def fresh(self):
        """New empty directory; the previous one is removed."""
        old = os.path.join(self.tmp, 'd%d' % self.n)
        wipe(old)
        self.n += 1
        p = os.path.join(self.tmp, 'd%d' % self.n)
        os.mkdir(p)
        return p


def wipe(p):
    if os.path.isdir(p):
        for d, ds, _ in os.walk(p):
            for x in ds:
                q = os.path.join(d, x)
                if not os.path.islink(q):
                    try:
                        os.chmod(q, 0o700)
                    except OSError:
                        pass
        shutil.rmtree(p, ignore_errors=True)


def scratch():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    return tempfile.mkdtemp(prefix='jv-', dir=base)


def make_choices(check, phase, i, seed, prefix=None):
    dic = harvest.ints()
    if prefix is not None:
        return choices.Choices(prefix=prefix, dic=dic)
    return choices.Choices(rng=random.Random('%s:%s:%s:%d' % (seed, check.id, phase.name, i)), dic=dic)


class Skip(Exception):
    """The case is outside the domain of the property."""


def run_case(check, phase, i, seed, env, prefix=None):
    """(choices, case or None, message or None)"""
    ch = make_choices(check, phase, i, seed, prefix)
    case = phase.gen(ch, i)
    if case is None:
        return ch, None, None
    try:
        msg = phase.judge(case, env)
    except Skip:
        return ch, None, None
    return ch, case, msg


# ------------------------------------------------------------------ workers

SLOT = struct.Struct('<qqd')      # phase, index, start (monotonic)


class Worker:
    def __init__(self, pid, rfd, k):
        self.pid, self.rfd, self.k, self.buf = pid, rfd, k, b''
        self.done = False


def cpu_of(pid):
    try:
        with open('/proc/%d/stat' % pid, 'rb') as f:
            s = f.read()
        p = s[s.rindex(b')') + 2:].split()
        return (int(p[11]) + int(p[12]) + int(p[13]) + int(p[14])) / os.sysconf('SC_CLK_TCK')
    except (OSError, ValueError, IndexError):
        return 0.0


def limit_memory(soft=None):
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (MEM if soft is None else hard, hard))


def worker_main(check, phases, seed, blocks, k, nw, wfd, shm, top, skip):
    limit_memory()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    gc.freeze()
    gc.set_threshold(200000, 20, 20)
    out = os.fdopen(wfd, 'wb', buffering=0)
    tmp = os.path.join(top, 'w%d' % k)
    os.makedirs(tmp, exist_ok=True)
    env = Env(tmp)
    history = []
    stats = collections.Counter()

    def send(obj):
        d = json.dumps(obj).encode()
        out.write(struct.pack('<I', len(d)) + d)

    dig = []
    samples = []
    try:
        for b, (pi, lo, hi) in enumerate(blocks):
            if b % nw != k:
                continue
            phase = phases[pi]
            for i in range(lo, hi):
                if (pi, i) in skip:
                    continue
                if deadline is not None and time.monotonic() > deadline:
                    stats['not run'] += 1
                    continue
                SLOT.pack_into(shm, k * SLOT.size, pi, i, time.monotonic())
                ch, case, msg = run_case(check, phase, i, seed, env)
                if case is None:
                    stats['outside'] += 1
                    continue
                stats['eval'] += 1
                stats['phase:' + phase.name] += 1
                if case.label:
                    stats['label:' + case.label.split(' ')[0]] += 1
                if case.nontrivial:
                    dig.append(case.digest() if case.key is None else case.key)
                    if len(samples) < 2 or (i % 97 == 0 and len(samples) < 4):
                        samples.append(dict(case.sample(), phase=phase.name, index=i))
                if msg is not None:
                    send({'fail': [pi, i, msg, ch.rec, history[-3000:]]})
                history.append((pi, i))
            if len(dig) > 4000:
                send({'dig': dig})
                dig = []
        SLOT.pack_into(shm, k * SLOT.size, -1, -1, 0.0)
        send({'dig': dig, 'stats': dict(stats), 'samples': samples, 'end': True})
    except BaseException:
        send({'harness': traceback.format_exc()[-4000:]})
    finally:
        try:
            out.close()
        finally:
            os._exit(0)


def spawn(check, phases, seed, blocks, k, nw, shm, top, skip):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.setpgid(0, 0)
        worker_main(check, phases, seed, blocks, k, nw, w, shm, top, skip)
    os.close(w)
    os.set_blocking(r, False)
    return Worker(pid, r, k)


class Outcome:
    def __init__(self):
        self.stats = collections.Counter()
        self.digests = set()
        self.samples = []
        self.fails = []
        self.hangs = []
        self.harness = None


def kill_group(pid):
    for f in (os.killpg, os.kill):
        try:
            f(pid, signal.SIGKILL)
        except OSError:
            pass


def run_all(check, phases, seed, top, max_fail=3, nw=None):
    nw = nw or max(1, min(16, len(os.sched_getaffinity(0))))
    total = sum(p.count for p in phases)
    size = max(1, min(64, total // (nw * 6) or 1))
    blocks = []
    for pi, p in enumerate(phases):
        for lo in range(0, p.count, size):
            blocks.append((pi, lo, min(p.count, lo + size)))
    # spread the phases over the workers
    random.Random(7).shuffle(blocks)
    shm = _mmap.mmap(-1, max(4096, SLOT.size * nw))
    oc = Outcome()
    skip = set()
    ws = [spawn(check, phases, seed, blocks, k, nw, shm, top, skip) for k in range(nw)]
    last = {k: (None, 0.0, 0.0) for k in range(nw)}
    try:
        while ws:
            for w in list(ws):
                while True:
                    try:
                        d = os.read(w.rfd, 1 << 20)
                    except BlockingIOError:
                        break
                    if not d:
                        w.done = True
                        break
                    w.buf += d
                while len(w.buf) >= 4:
                    n = struct.unpack('<I', w.buf[:4])[0]
                    if len(w.buf) < 4 + n:
                        break
                    m = json.loads(w.buf[4:4 + n])
                    w.buf = w.buf[4 + n:]
                    oc.digests.update(m.get('dig', ()))
                    oc.stats.update(m.get('stats', {}))
                    oc.samples += m.get('samples', [])
                    if 'fail' in m:
                        oc.fails.append(m['fail'])
                    if 'harness' in m:
                        oc.harness = m['harness']
                    if m.get('end'):
                        w.ended = True
                if w.done:
                    os.close(w.rfd)
                    _, st = os.waitpid(w.pid, 0)
                    ws.remove(w)
                    pi, i, _t = SLOT.unpack_from(shm, w.k * SLOT.size)
                    if not getattr(w, 'ended', False) and oc.harness is None:
                        # worker died inside a case
                        if pi < 0 or (pi, i) in skip:
                            oc.harness = 'worker died (status %s)' % st
                        else:
                            oc.hangs.append((pi, i, 'the analysis killed the process (wait status %d)' % st))
                            oc.stats['died'] += 1
                    continue
                pi, i, t0 = SLOT.unpack_from(shm, w.k * SLOT.size)
                if pi < 0:
                    continue
                key, c0, w0 = last[w.k]
                now, cpu = time.monotonic(), cpu_of(w.pid)
                if key != (pi, i, t0):
                    last[w.k] = ((pi, i, t0), cpu, now)
                elif cpu - c0 > HANG_CPU or now - w0 > HANG_WALL:
                    oc.hangs.append((pi, i, 'the analysis did not finish (more than %d s of CPU time)' % HANG_CPU))
                    kill_group(w.pid)
            if oc.harness or len(oc.fails) >= max_fail or oc.hangs:
                for w in ws:
                    kill_group(w.pid)
                    os.close(w.rfd)
                    os.waitpid(w.pid, 0)
                ws = []
                break
            time.sleep(0.02)
    finally:
        for w in ws:
            kill_group(w.pid)
    return oc


# ------------------------------------------------------------------ shrinking

def in_child(fn, cpu=60, wall=240):
    """Run fn() in a fresh forked process; ('ok', result) or ('hang'|'died', None)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            limit_memory()
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            res = json.dumps({'r': fn()}).encode()
        except BaseException:
            res = json.dumps({'x': traceback.format_exc()[-2000:]}).encode()
        with os.fdopen(w, 'wb') as f:
            f.write(res)
        os._exit(0)
    os.close(w)
    os.set_blocking(r, False)
    buf, t0, state = b'', time.monotonic(), 'ok'
    while True:
        try:
            d = os.read(r, 1 << 20)
            if not d:
                break
            buf += d
        except BlockingIOError:
            time.sleep(0.003)
            if cpu_of(pid) > cpu or time.monotonic() - t0 > wall:
                state = 'hang'
                break
    kill_group(pid)
    os.close(r)
    os.waitpid(pid, 0)
    if state == 'ok':
        try:
            j = json.loads(buf)
        except ValueError:
            return 'died', None
        if 'x' in j:
            return 'harness', j['x']
        return 'ok', j['r']
    return state, None


def shrink_fail(check, phases, seed, top, pi, i, rec, budget, limit):
    """Smaller choice sequence that still fails; (rec, message) or None if it does not fail alone."""
    phase = phases[pi]
    env = Env(os.path.join(top, 'shrink'))
    os.makedirs(env.tmp, exist_ok=True)

    def msg_of(prefix):
        ch, case, msg = run_case(check, phase, i, seed, env, prefix)
        return [ch.rec, msg]

    st, r = in_child(lambda: msg_of(rec))
    if st != 'ok':
        return (rec, None) if st in ('hang', 'died') else None
    if r[1] is None:
        return None
    best = [list(rec), r[1]]
    t_end = time.monotonic() + limit

    def batch():
        def fails(p):
            if time.monotonic() > t_end:
                return False
            try:
                ch, case, msg = run_case(check, phase, i, seed, env, p)
            except Exception:
                return False
            if msg is not None:
                best[0], best[1] = p, msg
                return True
            return False
        choices.shrink(rec, fails, budget)
        return best

    st, r = in_child(batch, cpu=limit + 90)
    if st == 'ok' and r:
        st2, r2 = in_child(lambda: msg_of(r[0]))
        if st2 == 'ok' and r2[1] is not None:
            return r[0], r2[1]
    return best[0], best[1]


def write_replay(check, phases, seed, pi, i, rec, msg, history, top):
    phase = phases[pi]
    ch = make_choices(check, phase, i, seed, rec if rec is not None else None)
    case = phase.gen(ch, i)
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s-%d.json' % (check.id, phase.name, i))
    with open(p, 'w') as f:
        json.dump({'property': check.id, 'phase': phase.name, 'index': i, 'seed': seed, 'choices': ch.rec,
                   'message': msg, 'case': case.to_json() if case else None, 'history': history}, f, indent=1)
    return p


def replay(check, path, tier):
    with open(path) as f:
        j = json.load(f)
    phases = check.phases(tier)
    top = scratch()
    try:
        ph = [p for p in phases if p.name == j['phase']]
        if not ph:
            ph = [p for p in check.phases('thorough') if p.name == j['phase']]
        phase = ph[0]
        env = Env(top)

        def one():
            for pi, i in j.get('history') or []:
                run_case(check, phases[pi], i, j['seed'], env)
            case = Case.from_json(j['case'])
            return phase.judge(case, env)
        st, r = in_child(one)
        if st == 'ok' and r is None:
            print('replay: the property holds on this case')
            return 0
        print('VIOLATION property=%s replay=%s' % (check.id, path))
        print(r if st == 'ok' else st)
        return 1
    finally:
        wipe(top)


def main(check, tier, seed):
    global deadline
    t0 = time.time()
    if tier == 'quick':
        deadline = time.monotonic() + SOFT_END
    # read the dictionary once, before the workers are forked
    harvest.ints()
    phases = check.phases(tier)
    top = scratch()
    lines = []
    rc = 0
    violations = []
    try:
        if hasattr(check, 'prepare'):
            check.prepare()
        oc = run_all(check, phases, seed, top)
        if oc.harness:
            print('HARNESS ERROR\n' + oc.harness)
            rc = 2
        else:
            known = []
            if oc.hangs:
                pi, i, msg = oc.hangs[0]
                p = write_replay(check, phases, seed, pi, i, None, msg, None, top)
                violations.append((p, msg))
            for pi, i, msg, rec, hist in oc.fails[:1]:
                s = shrink_fail(check, phases, seed, top, pi, i, rec, check_budget(check), 40)
                if s is None:
                    # depends on the cases that went before it
                    p = write_replay(check, phases, seed, pi, i, rec, msg, hist, top)
                    violations.append((p, msg + ' [only after the cases in history]'))
                else:
                    p = write_replay(check, phases, seed, pi, i, s[0], s[1] or msg, None, top)
                    violations.append((p, s[1] or msg))
            for p, msg in violations:
                lines.append('VIOLATION property=%s replay=%s' % (check.id, p))
                lines.append(msg[:2000])
                rc = 1
            if not rc and hasattr(check, 'known'):
                for st, text in check.known(Env(top)):
                    lines.append(text)
                    if st:
                        rc = 1
                        violations.append(('', text))
        ev = {
            'property': check.id, 'tier': tier, 'seed': int(seed), 'level': check.level,
            'coverage': {
                'evaluations': oc.stats['eval'],
                'distinct_nontrivial': len(oc.digests),
                'rule': check.rule,
                'samples': (sorted(oc.samples, key=lambda s: (s.get('phase', ''), s.get('index', 0)))[:8]
                            or [{'none': 'run stopped before samples were returned'}]),
                'phases': {p.name: oc.stats['phase:' + p.name] for p in phases},
                'labels': {k[6:]: v for k, v in sorted(oc.stats.items()) if k.startswith('label:')},
                'outside_domain': oc.stats['outside'],
                'not_run_for_lack_of_time': oc.stats['not run'],
                'dictionary_integers': len(harvest.ints()),
            },
            'wall_s': round(time.time() - t0, 2),
            'violations': len(violations),
            'assumptions': check.assumptions,
        }
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', check.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    finally:
        wipe(top)
    for ln in lines:
        print(ln)
    print('%s %s seed=%s: %d cases, %d distinct non-trivial, %d outside, %.1f s, exit %d'
          % (check.id, tier, seed, oc.stats['eval'], len(oc.digests), oc.stats['outside'], time.time() - t0, rc))
    return rc


def check_budget(check):
    return getattr(check, 'shrink_budget', 250)
