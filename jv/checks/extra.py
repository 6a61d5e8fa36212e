"""Concurrent analyses (C26) and independence of the way the tool is started (C27)."""
import collections
import contextlib
import io
import json
import os
import re
import select
import subprocess
import sys
import threading
import time
import tty

from .. import gen, harvest, sut, templates as tp
from ..ast import Box, Mark, R, TP, walk
from ..engine import Case, Phase, Skip, in_child
from .common import BASE_ASSUMPTIONS, FMTS, SCALE, Broken, Check, guarded, run
from . import model, single
from .batch import GOODNAMES, NS, cli_guard, document, layout, runner
from .model import Small
from .single import OPTS, any_file, first_diff, light, textdiff, view


# ---------------------------------------------------------------- C26

class Scheduler:
    """Runs functions in threads of which exactly one proceeds at a time. Control passes on at lines of
    the tool's own code, as told by a list of numbers, so that a schedule can be repeated exactly."""

    def __init__(self, where, slices):
        self.where, self.slices = where, slices
        self.k = 0
        self.left = 0
        self.switches = 0
        self.steps = 0
        self.free = False

    def run(self, fns):
        n = len(fns)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = [True] * n
        self.ids = {}
        out = [None] * n
        self.next_slice()

        def body(t):
            self.ids[threading.get_ident()] = t
            self.wait(t)
            sys.settrace(self.trace)
            try:
                out[t] = fns[t]()
            except BaseException as e:      # reported by the caller
                out[t] = ['raised %s: %s' % (type(e).__name__, e)]
            finally:
                sys.settrace(None)
                self.alive[t] = False
                self.give(t, 0)
        ts = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(n)]
        for t in ts:
            t.start()
        self.sem[0].release()
        for t in ts:
            t.join()
        return out

    def next_slice(self):
        if self.slices and self.switches < 4000:
            self.left, self.jump = self.slices[self.k % len(self.slices)]
            self.k += 1
        else:
            self.left, self.jump = 1 << 60, 1

    def wait(self, t):
        seen = self.steps
        while not self.sem[t].acquire(timeout=0.1):
            if self.free:
                return
            if self.steps == seen:
                # the thread whose turn it is waits for something another one holds
                self.free = True
                return
            seen = self.steps

    def give(self, t, jump):
        others = [x for x in range(len(self.alive)) if self.alive[x] and x != t]
        if not others:
            return False
        x = others[jump % len(others)]
        self.sem[x].release()
        return True

    def trace(self, frame, event, arg):
        if self.where in frame.f_code.co_filename and frame.f_code.co_name != '<module>':
            return self.line
        return None

    def line(self, frame, event, arg):
        if event != 'line' or self.free:
            return self.line
        self.steps += 1
        self.left -= 1
        if self.left <= 0:
            t = self.ids[threading.get_ident()]
            jump = self.jump
            self.next_slice()
            if self.give(t, jump):
                self.switches += 1
                self.wait(t)
        return self.line


def plain(path, fmt, o):
    m = sut.module()
    try:
        el = m.checkOneFile(path, fmt, o['verbose'], o['pm'], o['nullxml'], o['mix'])
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)
    return repr(sut.conv(el).flat())


def quiet():
    """Warnings go nowhere."""
    sys.stderr = io.StringIO()


def judge_c26(case, env):
    par = case.par
    d = env.fresh()
    paths = []
    for n, (nm, data) in enumerate(case.files):
        p = os.path.join(d, nm)
        with open(p, 'wb') as f:
            f.write(data)
        os.utime(p, (1000000000 + n * 86400, 1000000000 + n * 86400))
        paths.append(p)
    work = par['work']      # per thread: list of [file, format, options]

    def alone():
        quiet()
        out, t0 = {}, time.process_time()
        for w in work:
            for fi, fmt, o in w:
                k = json.dumps([fi, fmt, o], sort_keys=True)
                if k not in out:
                    out[k] = plain(paths[fi], fmt, o)
        return [out, time.process_time() - t0]
    st, r = in_child(alone)
    if st != 'ok':
        raise Broken('the analysis did not finish: %s %s' % (st, r))
    want, cost = r
    if cost > 1.0:
        raise Skip          # files with huge counts take seconds, and far longer under the scheduler

    def together():
        quiet()
        fns = [lambda w=w: [plain(paths[fi], fmt, o) for fi, fmt, o in w] for w in work]
        if par['free']:
            sys.setswitchinterval(1e-6)
            out = [None] * len(fns)

            def body(t):
                out[t] = fns[t]()
            ts = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(len(fns))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            return [out, 1]
        where = os.path.join(os.path.realpath(sut.REPO), 'jpylyzer') + os.sep
        if par.get('focus') is not None:
            # the turn passes on only within one of the modules
            mods = sorted(x for x in os.listdir(where) if x.endswith('.py'))
            if par['focus'] < 0:
                mods = [x for x in mods if 'mix' in x] or mods
            where += mods[par['focus'] % len(mods)]
        s = Scheduler(where, par['slices'])
        out = s.run(fns)
        return [out, s.switches]
    st, r = in_child(together, cpu=120)
    if st == 'harness':
        raise RuntimeError(r)
    if st != 'ok':
        raise Broken('concurrent analyses did not finish: %s' % st)
    out, switches = r
    for t, w in enumerate(work):
        if out[t] is None or len(out[t]) != len(w):
            return 'thread %d ended with %r' % (t, out[t])
        for got, (fi, fmt, o) in zip(out[t], w):
            exp = want[json.dumps([fi, fmt, o], sort_keys=True)]
            if got != exp:
                return 'report on file %d (%s, %s) differs when %d analyses run at the same time: %s' % (fi, fmt, o, len(work), textdiff(exp, got))
    if not switches:
        raise Skip
    return None


class C26(Check):
    id = 'C26'
    rule = 'distinct (files, options, schedule) with at least one switch between the analyses'
    assumptions = BASE_ASSUMPTIONS + ['threads of one CPython process; control passes between lines of the tool (seeded schedules), or freely with a very short switch interval']
    shrink_budget = 120

    def phases(self, tier):
        k = SCALE[tier]
        j = guarded(judge_c26)

        def files_of(ch, nf):
            files, fm = [], []
            for n in range(nf):
                if n and ch.p(25):
                    b = bytearray(files[-1][1])
                    if b:
                        b[ch.n(len(b))] ^= 1 << ch.n(8)
                    files.append(('f%d.jp2' % n, bytes(b)))
                    fm.append(fm[-1])
                    continue
                d, fmt, label = any_file(ch, ch.n(4), only=light)
                files.append(('f%d.jp2' % n, d[:60000]))
                fm.append(fmt)
            return files, fm

        def g(ch, i, free=False):
            nt = 2 + (ch.n(3) if ch.p(30) else 0)
            files, fm = files_of(ch, nt)
            work = []
            for t in range(nt):
                w = []
                for _ in range(ch.pick([1, 1, 1, 2, 3]) if not free else 4):
                    fi = t if ch.p(80) else ch.n(nt)
                    w.append((fi, fm[fi] if ch.p(85) else ch.pick(FMTS), ch.pick(OPTS)))
                work.append(w)
            style = ch.n(4)
            slices = []
            for _ in range(ch.pick([1, 2, 5, 20])):
                ln = [lambda: 1, lambda: 1 + ch.n(5), lambda: 1 + ch.n(60), lambda: 1 + ch.n(1000)][style]()
                slices.append((ln, ch.n(max(1, nt - 1))))
            return Case(files, {'work': work, 'slices': slices, 'free': free}, True, 'free' if free else 'scheduled')

        def gp(ch, i):
            # one switch: the first analysis stops after n lines, the second runs completely, then the first goes on
            files, fm = files_of(ch, 2)
            work = [[(t, fm[t], ch.pick(OPTS))] for t in range(2)]
            return Case(files, {'work': work, 'slices': [(1 + ch.n(3000), 0), (1 << 40, 0)], 'free': False}, True, 'preempted')
        def go(ch, i):
            # the same conforming file, or two, analysed with options of which exactly one differs
            nf = 1 + ch.n(2)
            which = (i // 4) % 5
            fmt = FMTS[i % 4] if which else ('jp2', 'jph')[i % 2]
            files = []
            for n in range(nf):
                files.append(('f%d.jp2' % n, gen.gen_file(ch, fmt, single.Small).ser(last=True)[:60000]))
            o = dict(ch.pick(OPTS))
            o2, fmt2 = dict(o), fmt
            if which == 0:
                o['mix'], o2['mix'] = ch.pick([(1, 2), (2, 1), (0, 1), (2, 0)])
            elif which < 4:
                key = ['verbose', 'pm', 'nullxml'][which - 1]
                o[key], o2[key] = ch.pick([(False, True), (True, False)])
            else:
                fmt2 = {'jp2': 'jph', 'jph': 'jp2', 'j2c': 'jhc', 'jhc': 'j2c'}[fmt]
            work = [[(0, fmt, o)], [(nf - 1, fmt2, o2)]]
            slices = [[(1 + ch.n(25), 0) for _ in range(30)], [(1 + ch.n(2500), 0), (1 + ch.n(2500), 0)], [(1 + ch.n(8), 0) for _ in range(60)]][ch.n(3)]
            focus = None
            if ch.p(70):
                focus = -1 if which == 0 and ch.p(60) else ch.n(32)
                slices = [(1 + ch.n(ch.pick([3, 30, 300])), 0) for _ in range(ch.pick([1, 3, 20]))]
            return Case(files, {'work': work, 'slices': slices, 'free': False, 'focus': focus}, True, 'options')
        return [Phase('options', 700 * k, go, j), Phase('scheduled', 900 * k, g, j), Phase('preempted', 500 * k, gp, j), Phase('free', 250 * k, lambda ch, i: g(ch, i, True), j)]


# ---------------------------------------------------------------- C27

ENVS = [{}, {'LC_ALL': 'C'}, {'LC_ALL': 'POSIX'}, {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, {'PYTHONIOENCODING': 'ascii'}, {'PYTHONIOENCODING': 'latin-1'},
        {'PYTHONIOENCODING': 'utf-16'}, {'PYTHONHASHSEED': '1'}, {'PYTHONHASHSEED': '12345'}, {'PYTHONHASHSEED': 'random'}, {'PYTHONOPTIMIZE': '1'}, {'PYTHONOPTIMIZE': '2'},
        {'PYTHONUNBUFFERED': '1'}, {'PYTHONUTF8': '1'}, {'LC_ALL': 'en_US.ISO-8859-1'}, {'LC_ALL': '', 'LANG': ''}, {'COLUMNS': '1'}, {'TERM': 'dumb'}, {'PYTHONDEVMODE': '1'},
        {'PYTHONWARNINGS': 'ignore'}, {'HOME': '/'}, {'PYTHONMALLOC': 'debug'}, {'PYTHONINTMAXSTRDIGITS': '0'}]
ASCII_ONLY = (1, 2, 3, 14, 15)      # in these the names of files need not be UTF-8
STARTS = ['module', 'cli', 'function', 'script']
SINKS = ['pipe', 'file', 'append', 'terminal']


def starter(how):
    if how == 'cli':
        return [os.path.join(sut.REPO, 'cli.py')]
    if how == 'function':
        return ['-c', 'import sys; from jpylyzer.jpylyzer import main; sys.exit(main())']
    if how == 'script':
        return ['-c', "import sys, importlib.metadata as m; from jpylyzer import jpylyzer; sys.argv[0] = 'jpylyzer'; jpylyzer.main()"]
    return ['-m', 'jpylyzer']


def spell(o, fmt, sp):
    """The options in one of several spellings."""
    a = []
    f = fmt.upper() if sp & 1 else fmt
    a.append([['--format', f], ['--format=' + f], ['-f', f], ['-f' + f]][(sp >> 1) & 3])
    if fmt == 'jp2' and sp & 256:
        a.pop()     # the default
    if o['verbose']:
        a.append(['--verbose'])
    if o['pm']:
        a.append(['-p' if sp & 8 else '--packetmarkers'])
    if o['nullxml']:
        a.append(['--nullxml'])
    if o['mix']:
        a.append(['--mix=%d' % o['mix']] if sp & 16 else ['--mix', str(o['mix'])])
    if o['nopretty']:
        a.append(['--nopretty'])
    if sp & 32:
        a.reverse()
    if sp & 512 and a:
        a.append(a[0])      # given twice
    return a


def run_tool(how, opts, paths, split, cwd, extra, sink, env):
    args = [x for o in opts[:split] for x in o]
    tail = [x for o in opts[split:] for x in o]
    cmd = [sut.PY] + starter(how) + args + paths + tail
    e = sut.cli_env(extra)
    if sink == 'pipe':
        p = subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
        return p.returncode, p.stdout, p.stderr
    if sink == 'terminal':
        return on_terminal(cmd, cwd, e)
    f = os.path.join(env.tmp, 'sink')
    with open(f, 'wb') as h:
        h.write(b'before' if sink == 'append' else b'')
    with open(f, 'ab' if sink == 'append' else 'wb') as h:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=h, stderr=subprocess.PIPE, timeout=200)
    with open(f, 'rb') as h:
        b = h.read()
    if sink == 'append':
        if not b.startswith(b'before'):
            raise Broken('earlier contents of the output file are lost')
        b = b[6:]
    return p.returncode, b, p.stderr


def on_terminal(cmd, cwd, e):
    """Standard output is a terminal (in raw mode, so that nothing is translated)."""
    a, b = os.openpty()
    tty.setraw(b)
    try:
        with open(os.devnull) as nul:
            p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=nul, stdout=b, stderr=subprocess.PIPE)
        err = []
        t = threading.Thread(target=lambda: err.append(p.stderr.read()), daemon=True)
        t.start()
        out, t0 = [], time.monotonic()
        while True:
            r, _, _ = select.select([a], [], [], 0.05)
            if r:
                out.append(os.read(a, 65536))
            elif p.poll() is not None:
                break
            if time.monotonic() - t0 > 200:
                p.kill()
                raise subprocess.TimeoutExpired(cmd, 200)
        t.join(5)
        return p.returncode, b''.join(out), b''.join(err)
    finally:
        os.close(a)
        os.close(b)


def new_variables():
    """Names of environment variables that look as if the code asks for them."""
    return [s for s in harvest.new_strings() if re.fullmatch(r'[A-Z_][A-Z0-9_]{2,}', s)][:8]


def judge_c27(case, env):
    par = case.par
    d = env.fresh()
    os.mkdir(os.path.join(d, 'in'))
    names = []
    for n, (nm, data) in enumerate(case.files):
        p = os.path.join(d, 'in', nm)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data)
        os.utime(p, (1500000000 + n, 1500000000 + n))
        names.append(nm)
    top = os.path.join(d, 'in')
    os.mkdir(os.path.join(d, 'elsewhere'))
    absolute = [os.path.join(top, nm) for nm in names]
    o, fmt = par['opt'], par['fmt']
    if par['bad'] is not None:
        # not a legal call: no report, and a message
        how, bad = par['how'], par['bad']
        try:
            rc, out, err = run_tool(how, [bad], absolute if bad != ['NOTHING'] else [], 1 if bad != ['NOTHING'] else 0, top, ENVS[par['env']], par['sink'], env)
        except subprocess.TimeoutExpired:
            raise Broken('the run did not finish')
        if b'<jpylyzer' in out:
            return 'a report is written although the options %r are not legal' % bad
        if not err.strip():
            return 'no message about the illegal options %r' % bad
        return None
    try:
        ref_ = run_tool('module', spell(o, fmt, 0), absolute, 99, top, {}, 'pipe', env)
        where, paths = [(top, absolute), (top, names), (top, ['./' + x for x in names]), (os.path.join(d, 'elsewhere'), ['../in/' + x for x in names]), ('/', absolute)][par['where']]
        if any(not x for _, x in case.files):
            paths = absolute        # the warning about an empty file quotes the path as given
        extra = dict(ENVS[par['env']])
        if par.get('var'):
            extra[par['var'][0]] = par['var'][1]
        got = run_tool(par['how'], spell(o, fmt, par['spell']), paths, par['split'], where, extra, par['sink'], env)
    except subprocess.TimeoutExpired:
        raise Broken('the run did not finish')
    for what, r in (('', ref_), ('other ', got)):
        if r[0] != 0:
            return '%sstart: exit status %s: %s' % (what, r[0], r[2][-400:].decode('utf-8', 'replace'))
    # the name of the tool is that of the file it was started from
    a, b = (re.sub(r'(?<=<toolName>)[^<]*', '', x[1].decode('utf-8', 'replace'), count=1) for x in (ref_, got))
    if a != b:
        return 'output depends on how the tool is started (%s, %s, %s): %s' % (par['how'], ENVS[par['env']], spell(o, fmt, par['spell']), textdiff(a, b))
    return None


ILLEGAL = [['--format', 'jpx'], ['--format', ''], ['--format=j2k'], ['-f', 'jp 2'], ['--mix', '3'], ['--mix', '0'], ['--mix=x'], ['--mix', '-1'], ['--nosuchoption'], ['--verbose=1'],
           ['-z'], ['NOTHING'], ['--format'], ['--format', 'jp2,j2c'], ['--format', 'tests']]


class C27(Check):
    id = 'C27'
    rule = 'distinct (files, options and their spelling, way of starting, environment, working directory, kind of output)'
    assumptions = BASE_ASSUMPTIONS + ['in environments whose encoding is not UTF-8 only file names in ASCII are used']
    shrink_budget = 60

    def phases(self, tier):
        k = SCALE[tier]
        j = cli_guard(judge_c27)

        def files_of(ch, fmt, ascii_):
            names = []
            for _ in range(1 + ch.n(3)):
                nm = ch.pick([x for x in GOODNAMES if not ascii_ or x.isascii()])
                if nm not in names:
                    names.append(nm)
            files = []
            for nm in names:
                if ch.p(25):
                    c = single.C14().phases('quick')[0].gen(ch, 0)
                    data = c.files[0][1] if c is not None else b''
                else:
                    data = any_file(ch, FMTS.index(fmt), only=light)[0]
                files.append((nm, data[:60000]))
            if any(model.slow(x) or b'<a><a><a><a><a><a>' in x for _, x in files):
                return None
            return files

        def g(ch, i):
            fmt = FMTS[i % 4]
            e = (i // 4) % len(ENVS) if ch.p(60) else ch.n(len(ENVS))
            files = files_of(ch, fmt, e in ASCII_ONLY)
            if files is None:
                return None
            o = dict(ch.pick(OPTS), nopretty=bool(ch.n(2)))
            nv = new_variables()
            var = (ch.pick(nv), ch.pick(['1', 'x', '0'])) if nv and ch.p(50) else None
            return Case(files, {'var': var, 'fmt': fmt, 'opt': o, 'bad': None, 'how': ch.pick(STARTS), 'env': e, 'sink': ch.pick(SINKS), 'where': ch.n(5), 'spell': ch.n(1024), 'split': ch.n(7)}, True, 'legal')

        def gb(ch, i):
            files = files_of(ch, 'jp2', True)
            if files is None:
                return None
            return Case(files, {'fmt': 'jp2', 'opt': OPTS[0], 'bad': ILLEGAL[i % len(ILLEGAL)], 'how': ch.pick(STARTS), 'env': ch.pick([0, 1, 4, 10]), 'sink': ch.pick(SINKS)}, True, 'illegal')
        return [Phase('legal', 500 * k, g, j), Phase('illegal', 60 * k, gb, j)]


# ---------------------------------------------------------------- C28

UNSUPPORTED = 'intellectualPropertyBox'       # documented as ignored with a warning


def places(r):
    """(where, box type) of each unknown or unsupported box in the properties, (where, message) of each warning."""
    out = [[], []]
    for k, top in enumerate((r.props, r.warns)):
        todo = [(c, ()) for c in reversed(top.kids)]
        while todo:
            c, path = todo.pop()
            if k == 0 and c.tag == 'unknownBox' and c.find('boxType') is not None:
                out[0].append((path, c.val('boxType')))
            elif k == 0 and c.tag == UNSUPPORTED and not c.kids:
                out[0].append((path, UNSUPPORTED))
            elif k == 1 and c.tag == 'warning':
                out[1].append((path[:-1] if path and path[-1] in ('unknownBox', UNSUPPORTED) else path, c.text or ''))
            todo.extend((x, path + (c.tag,)) for x in reversed(c.kids))
    return out


def tidy(t):
    """Box types can contain line ends, which XML parsers normalise."""
    return re.sub(r'\s+', ' ', t).strip()


def messages(err):
    """Warnings on standard error; None: something else was written."""
    parts = re.split(r'(?:^|(?<=\n))User warning:', err)
    if parts[0]:
        return None
    return [tidy(x) for x in parts[1:]]


def judge_c28(case, env):
    data, par = case.files[0][1], case.par
    fmt = par['fmt']
    path = env.put(data)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = run(path, fmt, **par['opt'])
    if out.getvalue():
        return '[%s] analysis of a single file writes to standard output: %r' % (fmt, out.getvalue()[:200])
    ms = messages(r.err)
    if ms is None:
        return '[%s] standard error has something that is not a warning: %r' % (fmt, r.err[-300:])
    boxes, warns = places(r)
    a, b = sorted(ms), sorted(tidy(w) for _, w in warns)
    if a != b:
        return '[%s] warnings on standard error %r, in the report %r' % (fmt, a[:5], b[:5])
    if not r.ok:
        return None
    if not data:
        return None if len(ms) == 1 else '[%s] empty file: warnings %r' % (fmt, ms)
    x = collections.Counter(p for p, _ in boxes)
    y = collections.Counter(p for p, _ in warns)
    if x != y:
        return '[%s] unknown or unsupported boxes at %r, warnings at %r' % (fmt, sorted(x.items())[:5], sorted(y.items())[:5])
    for p in x:
        names = [t for q, t in boxes if q == p]
        texts = [t for q, t in warns if q == p]
        for nm, tx in zip(names, texts):
            if nm not in tx:
                return '[%s] the warning about box %r says %r' % (fmt, nm, tx)
    return None


def judge_c28_batch(case, env):
    d, paths = layout(case, env)
    par = case.par
    args = [os.path.join(d, x) for x in par['args']]
    r = runner(case)(['--format', par['fmt'], '--nopretty'] + args, d)
    if r.rc != 0:
        return 'exit status %s: %r' % (r.rc, r.err[-300:])
    _, files = document(r)
    got = messages(r.err.decode('utf-8', 'replace'))
    if got is None:
        return 'standard error has something that is not a warning: %r' % r.err[-300:]
    want = []
    for f in files:
        want += [tidy(n.text or '') for n in f.find(NS + 'warnings').iter() if n.tag == NS + 'warning']
    missing = [a for a, x in zip(args, par['args']) if x not in paths]
    for a in missing:
        hit = [m for m in got if a in m]
        if len(hit) != 1:
            return 'warnings about %r: %r' % (a, hit)
        got.remove(hit[0])
    if sorted(got) != sorted(want):
        return 'warnings on standard error %r, in the report %r' % (sorted(got)[:6], sorted(want)[:6])
    return None


class C28(Check):
    id = 'C28'
    rule = 'distinct (file, format, options); files without any unknown box count as non-trivial too, because nothing may be written for them'
    shrink_budget = 150

    def phases(self, tier):
        k = SCALE[tier]
        j = guarded(judge_c28)
        jb = cli_guard(judge_c28_batch)
        sp = [x for x in single.special_files() if not model.slow(x) and len(x) < 100000]

        def put_unknown(ch, f, times):
            cont = [c for c in gen.containers(f) if c is f or isinstance(c, Box) and c.typ in (b'jp2h', b'res ', b'uinf')]
            for _ in range(times):
                c = ch.pick(cont)
                b = Box(gen.gen_unknown_type(ch), 'unknown', [R('x', ch.blob(ch.pick([0, 1, 8, 50])))])
                c.kids.insert(ch.n(len(c.kids) + 1), b)

        def g(ch, i):
            fmt = FMTS[i % 4]
            f = gen.gen_file(ch, fmt, Small)
            if fmt in ('jp2', 'jph') and ch.p(70):
                put_unknown(ch, f, 1 + ch.n(4))
            if ch.p(50):
                model.perturbed(ch, f, ['field', 'struct', 'length'], only=light, times=3)
            d = f.ser(last=True)
            if ch.p(15):
                d = gen.mutate_bytes(ch, d)
            if ch.p(4):
                d = ch.pick(sp)
            if model.slow(d):
                return None
            return Case([('a', d)], {'fmt': fmt if ch.p(90) else ch.pick(FMTS), 'opt': ch.pick(OPTS)}, True, 'random')

        def gb(ch, i, process=False):
            fmt = FMTS[i % 4]
            names = []
            for _ in range(1 + ch.n(4)):
                nm = ch.pick([x for x in GOODNAMES if x.isascii()])
                if nm not in names:
                    names.append(nm)
            files = []
            for nm in names:
                if ch.p(10):
                    files.append((nm, b''))
                    continue
                f = gen.gen_file(ch, fmt, Small)
                if fmt in ('jp2', 'jph'):
                    put_unknown(ch, f, ch.n(4))
                files.append((nm, f.ser(last=True)))
            args = list(names)
            if ch.p(40):
                args.insert(ch.n(len(args) + 1), ch.pick(['nowhere.jp2', 'no/such.jp2']))
            if any(model.slow(x) for _, x in files):
                return None
            return Case(files, {'fmt': fmt, 'args': args, 'process': process}, True, 'batch')
        return [Phase('random', 30000 * k, g, j), Phase('batch', 2500 * k, gb, jb), Phase('process', 30 * k, lambda ch, i: gb(ch, i, True), jb)]


# ---------------------------------------------------------------- C29

def no_sizes(r):
    v = view(r)
    v['properties'] = r.props.flat(lambda n: n.tag in ('compressionRatio', 'psot'))
    return v


def judge_c29(case, env):
    par = case.par
    fmt, o = par['fmt'], par['opt']
    a = run(env.put(case.files[0][1]), fmt, **o)
    for nm, d in case.files[1:]:
        b = run(env.put(d), fmt, **o)
        same = not par['resized']
        x = first_diff(view(a, drop_ratio=False), view(b, drop_ratio=False)) if same else first_diff(no_sizes(a), no_sizes(b))
        if x:
            return '[%s] other image data (%s) changes the report: %s' % (fmt, nm, x)
        if same and a.ext is not None and b.ext is not None and a.ext.flat() != b.ext.flat():
            return '[%s] other image data (%s) changes the MIX record' % (fmt, nm)
        if a.err != b.err:
            return '[%s] other image data (%s) changes the messages: %r / %r' % (fmt, nm, a.err[:200], b.err[:200])
    return None


class C29(Check):
    id = 'C29'
    rule = 'distinct pairs of files that differ in the image data of at least one tile-part'
    shrink_budget = 150

    def phases(self, tier):
        k = SCALE[tier]
        j = guarded(judge_c29)
        codestreams = {f: tp.lean_codestream(f).ser() for f in ('jp2', 'jph')}

        def payload(ch, n, free):
            """n bytes, or any number of them."""
            if free:
                n = ch.pick([0, 1, 2, 3, 4, 12, 50, 300, 5000, 70000])
            c = ch.n(8)
            if c == 0:
                return ch.blob(n)
            if c == 1:
                return bytes([ch.pick([0, 0xff, 0x80, 0x90])]) * n
            tok = [b'\xff\x90\0\x0a\0\0\0\0\0\x0e\0\1', b'\xff\x93', b'\xff\xd9', b'\xff\x4f\xff\x51', b'\xff\x52\0\x0c', b'\xff\x64\0\x06\0\1ab', b'\xff\x58\0\x05\0\1\2', b'\xff\x5c\0\4\x40',
                   b'\0\0\0\x08jp2c', b'\0\0\0\x16ihdr', b'\0\0\0\x0cjP  \r\n\x87\n', b'\0\0\0\0xml <a/>', b'\xff\x91\0\4\0\0', b'\xff\x92', b'\xff\x90', b'\xff', codestreams['jp2'], codestreams['jph']]
            tok += harvest.new_bytes()
            if c < 4:
                b = ch.pick(tok)
                return (b * (n // len(b) + 1))[:n] if b else bytes(n)
            d = bytearray(ch.blob(n))
            for _ in range(1 + ch.n(4)):
                b = ch.pick(tok)
                if n:
                    at = ch.pick([0, n - len(b), ch.n(n)])
                    at = max(0, at)
                    d[at:at + len(b)] = b[:n - at]
            return bytes(d[:n])

        def g(ch, i):
            fmt = FMTS[i % 4]
            f = gen.gen_file(ch, fmt, Small)
            if ch.p(40):
                model.perturbed(ch, f, ['field'], only=light, times=2)
            parts = [n for n, _, _ in walk(f) if isinstance(n, TP)]
            datas = [t.kids[-1] for t in parts if t.kids and isinstance(t.kids[-1], R) and len(t.kids) > 1 and isinstance(t.kids[-2], Mark)]
            if not datas:
                return None
            free = bool(ch.p(35))
            if not free:
                for x in datas:
                    if ch.p(50):
                        x.data = payload(ch, 0, True)[:6000]
            files = [('a', f.ser(last=True))]
            if model.slow(files[0][1]):
                return None
            for m in range(2):
                for x in datas:
                    if ch.p(70):
                        x.data = payload(ch, len(x.data), free)
                files.append(('variant %d' % (m + 1), f.ser(last=True)))
            return Case(files, {'fmt': fmt, 'opt': ch.pick(OPTS), 'resized': free}, files[1][1] != files[0][1] or files[2][1] != files[0][1], 'resized' if free else 'same size')
        return [Phase('random', 20000 * k, g, j)]
