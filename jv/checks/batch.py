"""Checks on the command line interface: output documents, file selection, file information, unreadable inputs."""
import base64
import calendar
import collections
import errno
import fnmatch
import mmap
import os
import re
import sys
import time

from .. import cli, engine, findings, gen, harvest, ref, sut, templates as tp
from ..ast import Box, R
from ..engine import Case, Phase, Skip, in_child, wipe
from .common import BASE_ASSUMPTIONS, BOXFMTS, CSFMTS, FMTS, SCALE, Broken, Check, guarded
from . import model, single
from .single import OPTS, any_file, light

NS = '{http://openpreservation.org/ns/jpylyzer/v2/}'
PREFIX = {'xsi': '{http://www.w3.org/2001/XMLSchema-instance}'}
_schema = None


def schema():
    global _schema
    if _schema is None:
        from lxml import etree
        _schema = etree.XMLSchema(etree.parse(os.path.join(sut.REPO, 'xsd', 'jpylyzer-v-2-2.xsd')))
    return _schema


def schema_error(data):
    from lxml import etree
    s = schema()
    doc = etree.fromstring(data, etree.XMLParser(recover=True, huge_tree=True))
    if s.validate(doc):
        return None
    for e in s.error_log:
        # libxml2 only accepts integers of up to 24 digits
        m = re.search(r"'(-?\d{20,})' is not a valid value of the atomic type 'xs:integer'", e.message)
        if not m:
            return e.message
    return None


def cli_guard(fn):
    def judge(case, env):
        try:
            return fn(case, env)
        except (Broken, cli.CliError) as e:
            return str(e)
    return judge


def opt_args(o, fmt, nopretty=False, upper=False, short=False):
    a = []
    if fmt != 'jp2' or upper:
        a += ['-f' if short else '--format', fmt.upper() if upper else fmt]
    if o.get('verbose'):
        a.append('--verbose')
    if o.get('pm'):
        a.append('-p' if short else '--packetmarkers')
    if o.get('nullxml'):
        a.append('--nullxml')
    if o.get('mix'):
        a += ['--mix', str(o['mix'])]
    if nopretty:
        a.append('--nopretty')
    return a


def runner(case):
    if case.par.get('process'):
        return lambda a, cwd: sut.cli([os.fsencode(x) if isinstance(x, str) else x for x in a], cwd)
    return cli.run_forked


def single_report(path, fmt, o, cwd):
    """Flat single-file report made in a process of its own."""
    def f():
        os.chdir(cwd)
        try:
            r = sut.analyse(path, fmt, **o)
        except sut.Raised as e:
            return ['raised', str(e)]
        return ['ok', r.root.flat()]
    st, r = in_child(f)
    if st != 'ok':
        raise Broken('single-file analysis did not finish: %s' % st)
    if r[0] != 'ok':
        raise Broken('single-file analysis raised an exception: %s' % r[1])
    return r[1]


def expected_flat(flat):
    """Single-file report as it should appear in the output document."""
    out = []
    pref = dict(PREFIX)
    for d, tag, text, attrib, tail in flat:
        at = {}
        for k, v in attrib:
            if k.startswith('xmlns:'):
                pref[k[6:]] = '{' + v + '}'
        for k, v in attrib:
            if k.startswith('xmlns:'):
                continue
            if k[0] != '{' and ':' in k and k.split(':')[0] in pref:
                a, b = k.split(':', 1)
                k = pref[a] + b
            at[k] = v
        if tag[0] != '{':
            if ':' in tag and tag.split(':')[0] in pref:
                a, b = tag.split(':', 1)
                tag = pref[a] + b
            else:
                tag = NS + tag
        out.append((d, tag, text or '', tuple(sorted(at.items())), (tail or '') if d else ''))
    return out


def norm_ws(s):
    return ' '.join(x for x in re.split('[ \t\r\n]+', s) if x)


def norm_nl(s):
    return s.replace('\r\n', '\n').replace('\r', '\n')


def cmp_flat(exp, got, pretty):
    f = norm_ws if pretty else norm_nl
    for n in range(max(len(exp), len(got))):
        a = exp[n] if n < len(exp) else None
        b = got[n] if n < len(got) else None
        if a is None or b is None:
            return 'element %r / %r' % (a, b)
        if a[0] != b[0] or a[1] != b[1]:
            return 'element %r reported as %r' % (a[:3], b[:3])
        if {k: norm_ws(v) for k, v in a[3]} != {k: norm_ws(v) for k, v in b[3]}:
            return 'attributes of %s: %r reported as %r' % (a[1], a[3], b[3])
        if f(a[2]) != f(b[2]):
            return 'text of %s: %r reported as %r' % (a[1], a[2][:200], b[2][:200])
        # white space after the outermost elements is layout
        if (f(a[4]) != f(b[4])) if n else False:
            return 'text after %s: %r reported as %r' % (a[1], a[4][:200], b[4][:200])
    return None


def document(r):
    """(toolInfo, list of file entries) of an output document."""
    root = cli.parse(r.out)
    if root.tag != NS + 'jpylyzer':
        raise cli.CliError('root element is %s' % root.tag)
    if not root.kids or root.kids[0].tag != NS + 'toolInfo':
        raise cli.CliError('no tool information')
    for k in root.kids[1:]:
        if k.tag != NS + 'file':
            raise cli.CliError('unexpected element %s' % k.tag)
    return root.kids[0], root.kids[1:]


def layout(case, env, mk=None):
    """Write the files of a case into a new directory; dict name -> path."""
    d = env.fresh()
    out = {}
    for n, (nm, data) in enumerate(case.files):
        p = os.path.join(d, nm)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data)
        os.utime(p, (1600000000 + n, 1600000000 + n))
        out[nm] = p
    return d, out


# ---------------------------------------------------------------- C18

def judge_c18(case, env):
    d, paths = layout(case, env)
    fmt, o = case.par['fmt'], dict(case.par['opt'])
    args = []
    for nm, how in case.par['args']:
        args.append(paths[nm] if how == 0 else (nm if how == 1 else './' + nm))
    so = dict(o)
    if fmt in CSFMTS:
        so['mix'] = 0
    exp = [expected_flat(single_report(a, fmt, so, d)) for a in args]
    run = runner(case)
    for nopretty in (True, False):
        oa = opt_args(o, fmt, nopretty, case.par.get('upper'), case.par.get('short'))
        r = run(oa + ['--'] + args if case.par.get('dashes') else (args + oa if case.par.get('after') else oa + args), d)
        if r.rc != 0:
            return 'exit status %s: %s' % (r.rc, r.err[-500:].decode('utf-8', 'replace'))
        what = '[%s%s] ' % (' '.join(oa), ' (new process)' if case.par.get('process') else '')
        if not r.out.startswith(b'<?xml'):
            return what + 'output starts with %r' % r.out[:40]
        info, files = document(r)
        if not (info.val(NS + 'toolName') or '').strip() or not (info.val(NS + 'toolVersion') or '').strip():
            return what + 'tool information: %r' % info.flat()
        if len(files) != len(args):
            return what + '%d file entries, %d input files' % (len(files), len(args))
        for n, f in enumerate(files):
            m = cmp_flat(exp[n], f.flat(), not nopretty)
            if m:
                return what + 'entry %d differs from the single-file analysis: %s' % (n, m)
        m = schema_error(r.out)
        if m:
            return what + 'output does not validate against the schema: %s' % m
    return None


GOODNAMES = ['a.jp2', 'b.jp2', 'image 1.jp2', 'caf\u00e9.jp2', '\u4e2d.jp2', 'a&b<c>.jp2', "q'uo\"te.jp2", '\U0001f600.jp2', 'x.JP2', 'noext', '.hidden.jp2', 'sub/a.jp2', 'sub/deep/c.jp2',
             'semi;colon.jp2', '%41.jp2', 'a=b.jp2', '[x].jp2', 'q?.jp2', '#1.jp2', 'a..b.jp2']


class C18(Check):
    id = 'C18'
    rule = 'distinct (list of files, options), each run with and without pretty-printing'
    assumptions = BASE_ASSUMPTIONS + ['embedded XML is nested at most a few hundred levels (deeper nesting is a known finding)',
                                      'most runs call the entry point in a forked process that has imported the package; a sample uses new processes']
    shrink_budget = 60

    def prepare(self):
        sut.module()
        schema()

    def phases(self, tier):
        k = SCALE[tier]
        q = tier == 'quick'
        j = cli_guard(judge_c18)
        sp = [x for x in single.special_files() if not model.slow(x) and b'<a><a><a><a><a><a>' not in x]
        cont = []
        for fmt in BOXFMTS:
            cont += model.special_boxes(fmt) + model.icc_cases(fmt) + model.box_cuts(fmt)
        for fmt in CSFMTS:
            cont += model.special_segments(fmt) + model.tile_cases(fmt) + model.seg_cuts(fmt) + model.siz_cases(fmt)
        cont = [c for c in cont if not model.slow(c[0])]

        def one(ch, i, fmt):
            x = ch.n(10)
            if x == 0:
                return ch.pick(sp)
            if x == 1:
                c = cont[ch.n(len(cont))]
                return c[0]
            if x == 2:
                # awkward metadata
                g = single.C14().phases('quick')[0].gen
                c = g(ch, 0)
                if c is not None and len(c.files[0][1]) < 60000:
                    return c.files[0][1]
            fm = FMTS.index(fmt) if ch.p(85) else ch.n(4)
            d, _, _ = any_file(ch, fm, only=light)
            return d[:150000]

        def g(ch, i, process=False):
            fmt = FMTS[i % 4]
            nf = 1 + ch.n(4)
            names = []
            for _ in range(nf):
                nm = ch.pick(GOODNAMES)
                if nm not in names:
                    names.append(nm)
            files = [(nm, one(ch, i, fmt)) for nm in names]
            if any(model.slow(d) for _, d in files):
                return None
            args = [(nm, ch.n(3)) for nm in names]
            if ch.p(15):
                args.append(ch.pick(args))
            par = {'fmt': fmt, 'opt': ch.pick(OPTS), 'args': args, 'upper': bool(ch.p(10)), 'short': bool(ch.p(20)), 'dashes': bool(ch.p(10)), 'after': bool(ch.p(20)),
                   'process': process}
            return Case(files, par, True, 'process' if process else 'forked')

        def gc(ch, i):
            c = cont[i * (15 if q else 1)]
            return Case([('a.jp2', c[0])], {'fmt': c[1], 'opt': OPTS[i % 24], 'args': [('a.jp2', 0)]}, True, 'contents')

        def gp(ch, i):
            return g(ch, i, True)
        return [Phase('random', 1600 * k, g, j), Phase('contents', len(cont) // (15 if q else 1), gc, j), Phase('process', 40 * k, gp, j)]

    def known(self, env):
        """Known finding: deeply nested XML."""
        n = 3000
        x = b'<a>' * n + b'</a>' * n
        data = tp.wrap('jp2', tp.lean_codestream('jp2'), mid=[Box(b'xml ', 'xml', [R('x', x)])]).ser(last=True)
        d = env.fresh()
        p = os.path.join(d, 'deep.jp2')
        with open(p, 'wb') as f:
            f.write(data)
        try:
            r = cli.run_forked([p], d)
            bad = r.rc != 0
        except cli.CliError:
            bad = True
        text = findings.known('C18', 'deep-xml')
        if bad and text:
            yield False, 'KNOWN-FINDING: property=C18 ' + text
        elif bad:
            with open(os.path.join(engine.ROOT, 'replays', 'C18-deep-xml.jp2'), 'wb') as f:
                f.write(data)
            yield True, 'VIOLATION property=C18 replay=' + f.name


# ---------------------------------------------------------------- C19

def build_tree(d, entries):
    """entries: list of [path, kind]."""
    for p, kind in entries:
        q = os.path.join(d, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        if kind == 'dir':
            os.makedirs(q, exist_ok=True)
        elif kind == 'file':
            with open(q, 'wb') as f:
                f.write(b'')
        elif kind == 'junk':
            with open(q, 'wb') as f:
                f.write(b'junk ' + p.encode('utf-8', 'surrogateescape'))
        elif kind == 'broken':
            os.symlink('nowhere', q)
        elif kind == 'link':
            # link to a regular file outside the tree
            os.symlink(os.path.join(os.path.dirname(d), 'target.bin'), q)
        elif kind == 'fifo':
            os.mkfifo(q)
        elif kind.startswith('to:'):
            os.symlink(kind[3:], q)     # leads to a directory: the same one, one above, or another one


def match_name(name, pat):
    """One component of a wildcard expression; * does not match a leading dot."""
    if name.startswith('.') and not pat.startswith('.'):
        return False
    return re.fullmatch(''.join('.*' if c == '*' else re.escape(c) for c in pat), name, re.S) is not None


class Tree:
    def __init__(self, entries):
        self.files, self.dirs, self.other, self.links = set(), {''}, set(), set()
        for p, kind in entries:
            parts = p.split('/')
            for n in range(1, len(parts)):
                self.dirs.add('/'.join(parts[:n]))
            if kind == 'dir':
                self.dirs.add(p)
            elif kind in ('file', 'junk', 'link'):
                self.files.add(p)
            else:
                self.other.add(p)
                if kind.startswith('to:'):
                    self.links.add(p)

    def through(self, p):
        """Is the path one that passes a link to a directory?"""
        return any(p.startswith(x + '/') for x in self.links)

    def expand(self, expr):
        """Existing things that match an expression, component by component."""
        parts = expr.split('/')
        cur = ['']
        for n, c in enumerate(parts):
            nxt = []
            for base in cur:
                for x in self.dirs | self.files | self.other:
                    if x and os.path.dirname(x) == base:
                        nm = os.path.basename(x)
                        if (match_name(nm, c) if '*' in c else nm == c) and (n == len(parts) - 1 or x in self.dirs):
                            nxt.append(x)
            cur = nxt
        return cur

    def below(self, d):
        return [f for f in self.files if d == '' or f.startswith(d + '/')]

    def subdirs(self, d):
        return [x for x in self.dirs if x and x != d and (d == '' or x.startswith(d + '/'))]

    def select(self, arg, recurse):
        """(files, warning or not); None: outside the domain."""
        if arg in self.files:
            if '*' in arg and recurse:
                return None
            return [arg], False
        if '*' in arg:
            hits = self.expand(arg)
            out = []
            if any(h in self.links for h in hits):
                return None
            if recurse and len(hits) > 1 and len([h for h in hits if h not in self.other]) == 1:
                # whether a broken link or a pipe counts beside a single directory is not settled
                return None
            if recurse and len(hits) == 1 and hits[0] in self.dirs:
                # stands for that directory
                return self.below(hits[0]), False
            out = [h for h in hits if h in self.files]
            if recurse:
                head, tail = os.path.split(arg)
                heads = self.expand(head) if '*' in head else ([head] if head in self.dirs else [])
                for h in heads:
                    if h in self.dirs:
                        for s in self.subdirs(h):
                            for f in self.files:
                                if os.path.dirname(f) == s and (match_name(os.path.basename(f), tail) if '*' in tail else os.path.basename(f) == tail):
                                    out.append(f)
            return out, False
        if arg in self.dirs or arg == '.':
            return (self.below('' if arg == '.' else arg) if recurse else []), False
        return [], True


def judge_c19(case, env):
    top = env.fresh()
    with open(os.path.join(top, 'target.bin'), 'wb') as f:
        f.write(b'target')
    d = os.path.join(top, case.par.get('root', 't'))
    os.mkdir(d)
    build_tree(d, case.par['entries'])
    t = Tree(case.par['entries'])
    rec = case.par['recurse']
    exp, warns, args = [], [], []
    fixed = []
    wild = any('*' in a for a, _ in case.par['args'])
    for a, how in case.par['args']:
        s = t.select(a, rec)
        if s is None or a in t.links:
            raise Skip
        exp += s[0]
        arg = os.path.join(d, a) if how == 0 else a
        if how == 2:
            arg = './' + a
        if how == 3 and a in t.dirs:
            arg = os.path.join(d, a) + '/'
        args.append(arg)
        if s[1]:
            warns.append(arg)
        if a in t.files:
            fixed.append(a)
    r = runner(case)((['--recurse'] if rec == 1 else ['-r'] if rec else []) + ['--nopretty'] + ['--'] + args, d)
    err = r.err.decode('utf-8', 'replace')
    for w in warns:
        if not any(w in ln for ln in err.splitlines()):
            return 'no warning about %r, which does not exist: %r' % (w, err[-300:])
    if not exp:
        if wild and t.links:
            raise Skip
        if r.rc == 0:
            return 'nothing to analyse, exit status 0'
        if r.out.strip():
            return 'nothing to analyse, but a report is written: %r' % r.out[:200]
        if 'no images to check' not in err:
            return 'nothing to analyse, but this is not said: %r' % err[-300:]
        return None
    if r.rc != 0:
        return 'exit status %s: %s' % (r.rc, err[-500:])
    _, files = document(r)
    got = []
    real = os.path.realpath(d)
    for f in files:
        p = f.val(NS + 'fileInfo', NS + 'filePath')
        if not p.startswith(real + '/'):
            return 'file outside the tree: %r' % p
        if wild and t.through(p[len(real) + 1:]):
            continue        # expressions may match through links
        got.append(p[len(real) + 1:])
    a, b = collections.Counter(exp), collections.Counter(got)
    if a != b:
        return 'args %r recurse %s: missed %s, too many %s' % (case.par['args'], bool(rec), sorted((a - b).elements())[:5], sorted((b - a).elements())[:5])
    # files named explicitly are reported in the order given
    if len(case.par['args']) == len(fixed) and got != fixed:
        return 'files reported in the order %s, given as %s' % (got[:6], fixed[:6])
    return None


DIRN = ['a', 'b', 'sub', 'x.jp2', 'd1', 'd2', '.h', 'A b', 'caf\u00e9', 'q[1]', 'e?', 'deep']
FILEN = ['a.jp2', 'b.jp2', 'c.jp2', 'a.JP2', 'a.jpx', 'b.j2c', 'noext', '.hid.jp2', 'a b.jp2', 'caf\u00e9.jp2', 'x.jp2.tmp', 'jp2', 'q[1].jp2', 'e?.jp2', 'aa.jp2', 'ab.jp2', 'sub', 'd1']
PATS = ['*', '*.jp2', 'a*', '*.j*', 'a*.jp2', '*a*', '*.JP2', 'd*', '*.nothing', 's*', '.*', '*2', 'a.*', '*.jp2*', '*b.jp2', '**', 'a*b*']


class C19(Check):
    id = 'C19'
    rule = 'distinct (directory tree, arguments); trees with at least two entries count as non-trivial'
    assumptions = BASE_ASSUMPTIONS + ['the fixed part of a wildcard expression has no other wildcard characters, and directories are not reached through links',
                                      'with the recursion option, an expression that matches a single directory and nothing else stands for that directory']
    shrink_budget = 150

    def phases(self, tier):
        k = SCALE[tier]
        j = cli_guard(judge_c19)

        def tree(ch):
            entries, used = [], set()
            dirs = ['']
            for _ in range(ch.n(7)):
                p = ch.pick(dirs)
                nm = ch.pick(DIRN) if ch.p(85) else 'n%d' % ch.n(50)
                q = (p + '/' if p else '') + nm
                if q not in used and q.count('/') < 4:
                    used.add(q)
                    dirs.append(q)
                    entries.append([q, 'dir'])
            for _ in range(ch.n(14)):
                p = ch.pick(dirs)
                nm = ch.pick(FILEN) if ch.p(85) else 'f%d.jp2' % ch.n(30)
                q = (p + '/' if p else '') + nm
                if q not in used:
                    used.add(q)
                    kind = ch.pick(['file', 'file', 'file', 'junk', 'junk', 'link', 'broken']) if not ch.p(3) else 'fifo'
                    entries.append([q, kind])
            if ch.p(15):
                for _ in range(1 + ch.n(2)):
                    p = ch.pick(dirs)
                    q = (p + '/' if p else '') + ch.pick(['ln', 'loop', 'up'])
                    if q not in used:
                        used.add(q)
                        entries.append([q, 'to:' + ch.pick(['.', '..' if p else '.', os.path.relpath(ch.pick(dirs) or '.', p or '.')])])
            return entries, dirs

        def g(ch, i, process=False):
            entries, dirs = tree(ch)
            t = Tree(entries)
            fs = sorted(t.files)
            args = []
            for _ in range(1 + (ch.n(4) if ch.p(60) else 0)):
                c = ch.n(9)
                if c <= 1 and fs:
                    a = ch.pick(fs)
                elif c == 2:
                    a = ch.pick(dirs) or '.'
                elif c == 3:
                    a = ch.pick(['nowhere', 'nowhere.jp2', 'a/nowhere.jp2', 'x[1].jp2', 'e?', 'no/such/dir'])
                elif c == 4:
                    # wildcard in the directory part
                    base = ch.pick(['*', 'a*', 'd*', 's*', '*b', 'sub*'])
                    if ch.p(30):
                        dd = [x for x in dirs if x and not re.search(r'[\[?*]', x)]
                        if dd:
                            base = ch.pick(dd) + '/' + base
                    a = base + '/' + (ch.pick(PATS) if ch.p(60) else ch.pick(FILEN))
                    if re.search(r'[\[?]', a):
                        a = base + '/*'
                else:
                    dd = [x for x in dirs if not re.search(r'[\[?*]', x)]
                    b = ch.pick(dd)
                    a = (b + '/' if b else '') + ch.pick(PATS)
                args.append((a, ch.n(4)))
            if any(kd == 'fifo' for _, kd in entries) and any(a in t.other for a, _ in args):
                return None
            return Case([], {'entries': entries, 'args': args, 'recurse': ch.n(3), 'process': process}, len(entries) > 1, 'tree')

        # small trees, all expressions
        small = []
        base = [[['a.jp2', 'file']], [['d/a.jp2', 'file']], [['a.jp2', 'file'], ['d/a.jp2', 'file']], [['a.jp2', 'file'], ['b.jp2', 'file']],
                [['d/s/a.jp2', 'file'], ['d/b.jp2', 'file']], [['d/s/u/v/a.jp2', 'junk'], ['d/s/b.txt', 'file'], ['c.jp2', 'file']], [['d', 'dir']], [],
                [['d1/a.jp2', 'file'], ['d2/a.jp2', 'file'], ['d2/s/b.jp2', 'file'], ['e.jp2', 'file']], [['d1/.a.jp2', 'file'], ['.d/a.jp2', 'file']],
                [['d/x.jp2/a.txt', 'file'], ['d/x.jp2/b.jp2', 'file']], [['d/x.jp2/b.jp2', 'file'], ['d/y.jp2', 'file']], [['d1/x.jp2', 'broken'], ['d1/y.jp2', 'link']],
                [['d1/s1/a.jp2', 'file'], ['d1/s2/b.jp2', 'file'], ['d1/s1/u/c.jp2', 'file']]]
        exprs = ['*', '*.jp2', 'd*', 'd', 'd1', 'd/*', 'd/*.jp2', 'd*/*', 'd*/*.jp2', '*/*', '*/a*', '*/*/*', 'd/s*/*', '.', 'a.jp2', 'd/a.jp2', 'd1/*', '*/*.jp2', 'd*/a.jp2', '*/a.jp2', 'd/*/b.jp2',
                 'd1/s*/*.jp2', '*a*', 'a*', '.*', 'd1/.*']
        for e in base:
            for x in exprs:
                for rec in (0, 1):
                    small.append((e, [x], rec))
            for x, y in (('*', 'a.jp2'), ('a.jp2', 'b.jp2'), ('b.jp2', 'a.jp2'), ('a.jp2', 'a.jp2'), ('d', 'd1'), ('nowhere', 'a.jp2'), ('a.jp2', 'nowhere'), ('d/*.jp2', 'd1/*.jp2')):
                for rec in (0, 1):
                    small.append((e, [x, y], rec))

        def gs(ch, i):
            e, xs, rec = small[i]
            return Case([], {'entries': e, 'args': [(x, (i + n) % 2) for n, x in enumerate(xs)], 'recurse': rec}, len(e) > 1, 'small')

        def gp(ch, i):
            return g(ch, i, True)
        return [Phase('random', 10000 * k, g, j), Phase('small', len(small), gs, j), Phase('process', 40 * k, gp, j)]


# ---------------------------------------------------------------- C22

LEGAL = re.compile('[\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')


def text_matches(want, got, ws=False):
    """got is want, up to characters that XML cannot represent."""
    if got is None:
        return False
    if ws:
        want, got = norm_nl(want), norm_nl(got)
    pat = ''.join(re.escape(c) if LEGAL.match(c) else '[^/]{0,4}' for c in want)
    return re.fullmatch(pat, got, re.S) is not None


def check_info(info, want_name, want_path, size, mtime_ns, tz, pre='', ws=False):
    g = lambda t: info.val(pre + t)
    if not text_matches(want_name, g('fileName'), ws):
        return 'file name %r reported as %r' % (want_name, g('fileName'))
    if not text_matches(want_path, g('filePath'), ws):
        return 'path %r reported as %r' % (want_path, g('filePath'))
    if g('fileSizeInBytes') != str(size):
        return 'size %d reported as %s' % (size, g('fileSizeInBytes'))
    t = g('fileLastModified')
    sec, ns = divmod(mtime_ns, 10 ** 9)
    if not -62000000000 < sec < 253300000000:
        return None
    m = re.fullmatch(r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d+)?', t or '')
    if not m:
        return 'modification time reported as %r' % t
    # in nanoseconds; the time stamp may have gone through a double
    rep = calendar.timegm(tuple(int(x) for x in m.groups()[:6])) * 10 ** 9 + int(((m.group(7) or '.')[1:] + '0' * 9)[:9])
    lt = time.localtime(sec)
    exp = calendar.timegm(lt[:6]) * 10 ** 9 + ns
    tol = 3000 if abs(sec) < 2 ** 33 else 1000000
    # rounding may move it across a change of the clock
    alt = calendar.timegm(time.localtime((mtime_ns + 500000) // 10 ** 9)[:6]) * 10 ** 9
    if abs(rep - exp) > tol and not (ns > 999000000 and abs(rep - alt) <= tol):
        return 'modification time %s (zone %s) reported as %s' % (time.strftime('%Y-%m-%dT%H:%M:%S', lt), tz, t)
    return None


def judge_c22(case, env):
    par = case.par
    top = os.path.realpath(env.fresh())
    nm = os.fsdecode(base64.b64decode(par['name']))
    dirs = [os.fsdecode(base64.b64decode(x)) for x in par['dirs']]
    d = os.path.join(top, *dirs) if dirs else top
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, nm)
    with open(p, 'wb') as f:
        f.write(case.files[0][1])
        if par.get('sparse'):
            f.truncate(par['sparse'])
    try:
        os.utime(p, ns=(par['mtime'], par['mtime']))
    except (OverflowError, OSError):
        raise Skip
    mtime = os.stat(p).st_mtime_ns
    how = par['how']
    cwd, arg = d, p
    if how == 1:
        arg = './' + nm
    elif how == 2:
        cwd, arg = top, os.path.relpath(p, top)
        if arg.startswith('-'):
            arg = './' + arg
    elif how == 3:
        arg = os.path.join(d, '..', os.path.basename(d), '.', nm)
    elif how == 4:
        cwd = os.path.join(top, 'other')
        os.makedirs(cwd, exist_ok=True)
        arg = os.path.relpath(p, cwd)
    elif how == 5:
        # reached through a link: the path as given counts
        os.symlink(d, os.path.join(top, 'lnk'))
        p = arg = os.path.join(top, 'lnk', nm)
    elif how == 6:
        # a link to the file, with a modification time of its own: size and time are those of the file
        os.makedirs(os.path.join(top, 'links'), exist_ok=True)
        lnk = os.path.join(top, 'links', nm)
        os.symlink(p, lnk)
        os.utime(lnk, ns=(10 ** 18, 10 ** 18), follow_symlinks=False)
        p = arg = lnk
    size = par.get('sparse') or len(case.files[0][1])
    tz = par['tz']
    fmt = par['fmt']

    def one():
        os.chdir(cwd)
        os.environ['TZ'] = tz
        time.tzset()
        try:
            r = sut.analyse(arg, fmt)
        except sut.Raised as e:
            return 'the analysis raised an exception: %s' % e
        if not r.ok:
            return 'the analysis failed: %s' % r.status.val('failureMessage')
        return check_info(r.info, nm, p, size, mtime, tz)
    st, m = in_child(one)
    if st != 'ok':
        return 'the analysis did not finish (%s %s)' % (st, m)
    if m:
        return 'name %r as %r: %s' % (nm, arg, m)
    if par['cli']:
        r = cli.run_forked(['--nopretty'] * (par['cli'] == 2) + ['--format', fmt, '--', arg], cwd, tz=tz)
        if r.rc != 0:
            return 'exit status %s for file name %r: %s' % (r.rc, arg, r.err[-300:])
        _, files = document(r)
        if len(files) != 1:
            return '%d entries' % len(files)
        info = files[0].find(NS + 'fileInfo')

        def two():
            os.environ['TZ'] = tz
            time.tzset()
            return check_info(info, nm, p, size, mtime, tz, NS, True)
        st, m = in_child(two)
        if m:
            return 'command line, name %r as %r: %s' % (nm, arg, m)
    return None


class C22(Check):
    id = 'C22'
    rule = 'distinct (name, directory, contents, modification time, time zone, way of naming the file)'
    assumptions = BASE_ASSUMPTIONS + ['the modification time is compared to within 3 microseconds, or 1 millisecond for years after 2242 (double precision)']

    def phases(self, tier):
        k = SCALE[tier]
        j = cli_guard(judge_c22)
        zones = ['UTC', 'Europe/Amsterdam', 'America/New_York', 'Asia/Kolkata', 'EST5EDT', 'XXX-13:45', 'UTC0', 'Pacific/Apia']

        def name(ch):
            c = ch.n(6)
            if c == 0:
                b = ch.pick(GOODNAMES).split('/')[-1].encode('utf-8')
            elif c == 1:
                b = bytes(x for x in ch.blob(ch.int(1, 30)) if x not in (0, 47))
            elif c == 2:
                b = ''.join(ch.pick(['a', '\u00e9', '\u4e2d', '\U0001f600', ' ', '\t', '\n', '\x01', '\x1f', '\x7f', '\u0085', '\ufffe', '\uffff', '&', '<', '>', '"', "'", '\\', '*', '?', '[', ']',
                                      '\u200f', '\ue000', '\r', '%', '\ufeff', '\u2028', '-', '{', '}', '.', '\u0301']) for _ in range(1 + ch.n(12))).encode('utf-8')
            elif c == 3:
                b = ('x' * ch.int(1, 240) + '.jp2').encode()
            elif c == 4:
                b = ch.pick([b'\xff.jp2', b'a\x80\xffb', b'\xc3', b'\xed\xa0\x80', b'\xe2\x28\xa1', b'\xf0\x9f\x98', b'caf\xe9.jp2', b'\xfe\xff', b'a\xc3\xa9\xff', b'-r', b'--verbose', b'a*b', b'~', b'$HOME', b' lead', b'trail '])
            else:
                b = ('file%d.%s' % (ch.n(10 ** 6), ch.pick(['jp2', 'JP2', 'jpx', 'tar.gz', '']))).encode()
            b = b[:250]
            if b in (b'', b'.', b'..'):
                b = b'x'
            return base64.b64encode(b).decode()

        def g(ch, i):
            dirs = [name(ch) for _ in range(ch.n(3))]
            # keep the total path short
            if sum(map(len, dirs)) > 1200:
                dirs = dirs[:1]
            dirs = [x for x in dirs if b'*' not in base64.b64decode(x)]
            ns = ch.pick([0, 1, 999999999, 500000000, ch.n(10 ** 9)])
            sec = ch.pick([0, 1, -1, -86400, 1600000000, 1711846799, 1711846800, 1711846801, 1729987200, 1729990799, 1729990800, 951782400, 4102444800, 2 ** 31 - 1, 2 ** 31, 2 ** 32, -2 ** 31, -2208988800,
                           2 ** 33, 253402300799, 253402300800, 2 ** 40, -62135596800, -62135596801, -10 ** 11, ch.n(2 ** 32), ch.n(2 ** 31), 2 ** 62 // 10 ** 9])
            c = ch.n(4)
            data = b'' if c == 0 else (ch.blob(ch.int(1, 300)) if c == 1 else (b'\0' * ch.int(1, 100000) if c == 2 else tp.bare('j2c', tp.lean_codestream('j2c')).ser(last=True)))
            return Case([('f', data)], {'name': name(ch), 'dirs': dirs, 'mtime': sec * 10 ** 9 + ns, 'how': ch.n(7), 'tz': ch.pick(zones), 'fmt': FMTS[i % 4], 'cli': ch.n(3)}, True, 'file')

        def gsz(ch, i):
            # sparse files: nothing of them is read beyond the first bytes (bare codestream formats)
            n = sizes[i]
            return Case([('f', b'\xff\x4f' if i % 2 else b'xx')], {'sparse': n, 'name': base64.b64encode(b'big.j2c').decode(), 'dirs': [], 'mtime': 10 ** 18, 'how': i % 5, 'tz': 'UTC',
                                                                 'fmt': 'j2c', 'cli': i % 3}, True, 'sparse')
        sizes = sorted({(1 << b) + d for b in (8, 10, 15, 16, 20, 24, 30, 31, 32) for d in (-1, 0, 1)})
        return [Phase('random', 8000 * k, g, j), Phase('sizes', len(sizes), gsz, j)]


# ---------------------------------------------------------------- C23

class Faults:
    """Faults for chosen files, installed below the tool: in open() and mmap()."""

    def __init__(self, plan, paths):
        # plan: list of [file index, kind, number]
        self.plan = {os.path.realpath(paths[i]): (kind, n) for i, kind, n in plan}
        self.at = {os.path.realpath(paths[i]): i for i, _, _ in plan}
        # one byte per file, shared with the child: the fault was met
        self.met = mmap.mmap(-1, 4096)

    def fired(self, i):
        return self.met[i] != 0

    def install(self):
        import builtins
        import io
        real_open, real_mmap, plan = builtins.open, mmap.mmap, self.plan
        at, met = self.at, self.met
        errs = {'EACCES': errno.EACCES, 'EIO': errno.EIO, 'EMFILE': errno.EMFILE, 'ENOENT': errno.ENOENT, 'ESTALE': errno.ESTALE, 'ETIMEDOUT': errno.ETIMEDOUT, 'EPERM': errno.EPERM,
                'EISDIR': errno.EISDIR, 'ELOOP': errno.ELOOP, 'ENAMETOOLONG': errno.ENAMETOOLONG, 'ENODEV': errno.ENODEV, 'EAGAIN': errno.EAGAIN, 'EINTR': errno.EINTR}

        def kind_of(path):
            try:
                return plan.get(os.path.realpath(path), (None, 0))
            except (TypeError, ValueError):
                return None, 0

        def meet(path):
            met[at[os.path.realpath(path)]] = 1

        def fake_open(file, mode='r', *a, **kw):
            if isinstance(file, (str, bytes)) or hasattr(file, '__fspath__'):
                kind, n = kind_of(os.fsdecode(file))
                if kind and kind.startswith('open-'):
                    meet(os.fsdecode(file))
                    e = errs[kind[5:]]
                    raise OSError(e, os.strerror(e), os.fsdecode(file))
                if kind == 'unlink-next' and n is not None:
                    meet(os.fsdecode(file))
                    try:
                        os.unlink(n)
                    except OSError:
                        pass
            return real_open(file, mode, *a, **kw)

        class Map(real_mmap):
            def __new__(cls, fd, *a, **kw):
                try:
                    path = os.readlink('/proc/self/fd/%d' % fd)
                except OSError:
                    path = ''
                kind, n = kind_of(path)
                if kind and kind.startswith('map-'):
                    meet(path)
                if kind and kind.startswith('map-E'):
                    e = errs[kind[4:]]
                    raise OSError(e, os.strerror(e))
                if kind == 'map-memory':
                    raise MemoryError()
                if kind == 'slice-memory':
                    m = super().__new__(cls, fd, *a, **kw)
                    m.left = n
                    return m
                return real_mmap(fd, *a, **kw)

            def __getitem__(self, k):
                if self.left <= 0:
                    for x in plan:
                        meet(x)
                    raise MemoryError()
                self.left -= 1
                return super().__getitem__(k)
        builtins.open = io.open = fake_open
        mmap.mmap = Map
        # also where the tool has its own name for them
        for nm, m in list(sys.modules.items()):
            if nm == 'jpylyzer' or nm.startswith('jpylyzer.'):
                for k, v in list(vars(m).items()):
                    if v is real_open:
                        setattr(m, k, fake_open)
                    elif v is real_mmap:
                        setattr(m, k, Map)


def expect_failure(status, valid, tests, props, warns, kind, pre=''):
    if status is None or (status.val(pre + 'success') or '').strip() != 'False':
        return 'status is success'
    msg = (status.val(pre + 'failureMessage') or '').strip()
    if kind not in msg:
        return 'failure message is %r' % msg
    if (valid.text or '').strip() != 'False':
        return 'verdict %r' % valid.text
    if tests.kids or (tests.text or '').strip():
        return 'tests are reported'
    if props.kids or (props.text or '').strip():
        return 'properties are reported'
    w = [(n.text or '').strip() for n in warns.kids]
    if w != [msg]:
        return 'warnings %r, failure message %r' % (w, msg)
    return None


IO, MEMERR = 'I/O error', 'memory error'


def bad_path(d, kind, n):
    """Create something that cannot be read; its path."""
    p = os.path.join(d, 'bad%d.jp2' % n)
    if kind == 'dir':
        os.mkdir(p)
    elif kind == 'missing':
        pass
    elif kind == 'notdir':
        with open(p, 'wb') as f:
            f.write(b'x')
        p += '/x.jp2'
    elif kind == 'long':
        p = os.path.join(d, 'y' * 300 + '.jp2')
    elif kind == 'loop':
        os.symlink(os.path.basename(p), p)
    elif kind == 'broken':
        os.symlink('nowhere', p)
    elif kind == 'pathlong':
        p = os.path.join(d, *['z' * 200] * 25)
    elif kind == 'perm':
        with open(p, 'wb') as f:
            f.write(tp.wrap('jp2', tp.lean_codestream('jp2')).ser(last=True))
        os.chmod(p, 0)
    elif kind == 'permdir':
        q = os.path.join(d, 'pd%d' % n)
        os.mkdir(q)
        p = os.path.join(q, 'a.jp2')
        with open(p, 'wb') as f:
            f.write(b'x')
        os.chmod(q, 0)
    return p


NOBODY = 65534


def judge_c23s(case, env):
    """Single-file analysis of something unreadable."""
    par = case.par
    d = env.fresh()
    os.chmod(os.path.dirname(env.tmp), 0o755)
    os.chmod(env.tmp, 0o755)
    os.chmod(d, 0o755)
    plan = []
    if par['kind'] in ('dir', 'missing', 'notdir', 'long', 'loop', 'broken', 'pathlong', 'perm', 'permdir'):
        p = bad_path(d, par['kind'], 0)
        want = IO
    else:
        p = os.path.join(d, 'f.jp2')
        with open(p, 'wb') as f:
            f.write(case.files[0][1])
        plan = [[0, par['kind'], par.get('n', 0)]]
        want = MEMERR if 'memory' in par['kind'] else IO
    uid = NOBODY if par['kind'] in ('perm', 'permdir') and os.getuid() == 0 else None

    def one():
        if uid is not None:
            os.setgroups([])
            os.setgid(uid)
            os.setuid(uid)
        faults = Faults(plan, [p])
        if plan:
            faults.install()
        try:
            r = sut.analyse(p, par['fmt'], **par['opt'])
        except sut.Raised as e:
            return 'the analysis raised an exception: %s' % e
        if plan and r.ok and not faults.fired(0):
            return 'skip'        # the file was read without meeting the fault
        m = expect_failure(r.status, r.valid, r.tests, r.props, r.warns, want)
        if m:
            return m
        if r.valid.attrib.get('format') != par['fmt']:
            return 'format of the verdict is %r' % r.valid.attrib
        if want not in r.err:
            return 'no warning on standard error: %r' % r.err
        return None
    st, m = in_child(one)
    wipe_perm(d)
    if st != 'ok':
        return 'the analysis did not finish (%s %s)' % (st, m)
    if m == 'skip':
        raise Skip
    return m and '%s (%s): %s' % (par['kind'], par['fmt'], m)


def wipe_perm(d):
    for dp, dn, fn in os.walk(d):
        for x in dn:
            q = os.path.join(dp, x)
            if not os.path.islink(q):
                os.chmod(q, 0o700)


def judge_c23b(case, env):
    """Batch in which some files fail."""
    par = case.par
    d = env.fresh()
    os.chmod(os.path.dirname(env.tmp), 0o755)
    os.chmod(env.tmp, 0o755)
    os.chmod(d, 0o755)
    paths = []
    for n, (nm, data) in enumerate(case.files):
        p = os.path.join(d, nm)
        with open(p, 'wb') as f:
            f.write(data)
        os.chmod(p, 0o644)
        os.utime(p, (1600000000, 1600000000))
        paths.append(p)
    fmt, o = par['fmt'], dict(par['opt'])
    exp = []
    fail = {i: k for i, k, _ in par['plan']}
    plan = []
    for i, k, n in par['plan']:
        if k == 'perm':
            os.chmod(paths[i], 0)
        elif k == 'vanish':
            plan.append([i - 1, 'unlink-next', paths[i]])
        else:
            plan.append([i, k, n])
    so = dict(o)
    if fmt in CSFMTS:
        so['mix'] = 0
    exp = [expected_flat(single_report(p, fmt, so, d)) if i not in fail else None for i, p in enumerate(paths)]
    uid = NOBODY if any(k == 'perm' for k in fail.values()) and os.getuid() == 0 else None
    faults = Faults(plan, paths)
    r = cli.run_forked(opt_args(o, fmt, True) + paths, d, before=faults.install if plan else None, uid=uid)
    if r.rc != 0:
        return 'exit status %s: %s' % (r.rc, r.err[-400:].decode('utf-8', 'replace'))
    _, files = document(r)
    if len(files) != len(paths):
        return '%d entries for %d files' % (len(files), len(paths))
    for i, f in enumerate(files):
        if i not in fail:
            m = cmp_flat(exp[i], f.flat(), False)
            if m:
                return 'entry %d is affected by another file (%s): %s' % (i, sorted(fail.items()), m)
            continue
        g = f.find
        if fail[i] != 'perm' and not faults.fired(i - 1 if fail[i] == 'vanish' else i) and (f.val(NS + 'statusInfo', NS + 'success') or '').strip() == 'True':
            continue        # the file was read without meeting the fault
        m = expect_failure(g(NS + 'statusInfo'), g(NS + 'isValid'), g(NS + 'tests'), g(NS + 'properties'), g(NS + 'warnings'), MEMERR if 'memory' in fail[i] else IO, NS)
        if m:
            return 'entry %d (%s): %s' % (i, fail[i], m)
    m = schema_error(r.out)
    if m:
        return 'output does not validate against the schema: %s' % m
    return None


class C23(Check):
    id = 'C23'
    level = 'fault_enumeration'
    rule = 'distinct (kind of failure, file, options, position in the batch)'
    assumptions = BASE_ASSUMPTIONS + ['errors of the operating system are injected in open() and mmap() or produced with scratch files (as an unprivileged user where permissions matter)']
    shrink_budget = 80

    def prepare(self):
        sut.module()
        schema()

    def phases(self, tier):
        k = SCALE[tier]
        js, jb = cli_guard(judge_c23s), cli_guard(judge_c23b)
        paths = ['dir', 'missing', 'notdir', 'long', 'loop', 'broken', 'pathlong', 'perm', 'permdir']
        opens = ['open-' + x for x in ('EACCES', 'EIO', 'EMFILE', 'ENOENT', 'ESTALE', 'ETIMEDOUT', 'EPERM', 'EISDIR', 'ELOOP', 'ENAMETOOLONG', 'EAGAIN', 'EINTR')]
        maps = ['map-' + x for x in ('EACCES', 'EIO', 'ENODEV', 'EAGAIN', 'EPERM')] + ['map-memory']
        kinds = paths + opens + maps

        def gs(ch, i):
            kind = kinds[i % len(kinds)]
            fmt = FMTS[(i // len(kinds)) % 4]
            data = b'' if kind in paths else (any_file(ch, FMTS.index(fmt), only=light)[0] if ch.p(60) else ch.pick([b'x', b'\0' * 50, tp.bare('j2c', tp.lean_codestream('j2c')).ser(last=True)]))
            if not data:
                data = b'x'
            return Case([('f', data)], {'kind': kind, 'fmt': fmt, 'opt': OPTS[(i // 4) % 24]}, True, kind)

        def gm(ch, i):
            fmt = FMTS[i % 4]
            data = (gen.gen_file(ch, fmt, model.Small).ser(last=True) if ch.p(80) else any_file(ch, i % 4, only=light)[0]) or b'x'
            return Case([('f', data)], {'kind': 'slice-memory', 'n': ch.n(8) if ch.p(60) else ch.n(60), 'fmt': fmt, 'opt': ch.pick(OPTS)}, True, 'slice-memory')

        def gb(ch, i):
            fmt = FMTS[i % 4]
            nf = 2 + ch.n(4)
            files = [('f%d.jp2' % n, (any_file(ch, i % 4, only=light)[0] or b'x')[:100000]) for n in range(nf)]
            plan, used = [], set()
            for _ in range(1 + ch.n(2)):
                x = ch.n(nf)
                if x in used:
                    continue
                c = ch.n(10)
                if c == 0 and x > 0 and x - 1 not in used:
                    plan.append([x, 'vanish', 0])
                    used.add(x - 1)
                elif c == 1:
                    plan.append([x, 'perm', 0])
                else:
                    plan.append([x, ch.pick(opens + maps), 0])
                used.add(x)
            if any(p[1] == 'vanish' for p in plan) and len(plan) > 1:
                plan = [p for p in plan if p[1] == 'vanish'][:1]
            return Case(files, {'fmt': fmt, 'opt': ch.pick(OPTS), 'plan': plan}, True, 'batch')
        return [Phase('single', 1500 * k, gs, js), Phase('memory', 800 * k, gm, js), Phase('batch', 1200 * k, gb, jb)]
