"""The tool under test: in-process calls of the public single-file function and
runs of the command line interface, always from the working tree of the repository."""
import contextlib
import io
import os
import subprocess
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
PY = sys.executable
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

_mod = None


def module():
    global _mod
    if _mod is None:
        from jpylyzer import jpylyzer as m
        here = os.path.realpath(m.__file__)
        if not here.startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError('wrong module: ' + here)
        _mod = m
    return _mod


_mod2 = None


def module_nommap():
    """A second instance of the package, imported while the mmap module cannot be imported."""
    global _mod2
    if _mod2 is None:
        module()
        mine = lambda: [k for k in sys.modules if k == 'jpylyzer' or k.startswith('jpylyzer.')]
        saved = {k: sys.modules.pop(k) for k in mine()}
        mm = sys.modules.get('mmap')
        sys.modules['mmap'] = None
        try:
            from jpylyzer import jpylyzer as m2
        finally:
            for k in mine():
                del sys.modules[k]
            sys.modules.update(saved)
            if mm is not None:
                sys.modules['mmap'] = mm
            else:
                del sys.modules['mmap']
        _mod2 = m2
    return _mod2


class N:
    """Plain copy of an element tree."""
    __slots__ = ('tag', 'text', 'kids', 'attrib', 'tail')

    def __init__(self, tag, text, kids, attrib, tail=None):
        self.tag, self.text, self.kids, self.attrib, self.tail = tag, text, kids, attrib, tail

    def find(self, *path):
        cur = [self]
        for p in path:
            cur = [k for c in cur for k in c.kids if k.tag == p]
        return cur[0] if cur else None

    def all(self, tag):
        return [k for k in self.kids if k.tag == tag]

    def val(self, *path):
        n = self.find(*path)
        return None if n is None else (n.text or '')

    def iter(self):
        """Document order."""
        todo = [self]
        while todo:
            n = todo.pop()
            yield n
            todo.extend(reversed(n.kids))

    def dump(self, ind=0):
        s = '  ' * ind + str(self.tag) + (' = ' + repr(self.text) if self.text is not None else '')
        return '\n'.join([s] + [k.dump(ind + 1) for k in self.kids])

    def flat(self, skip=None):
        """Comparable form: list of (depth, tag, text, attributes, tail) in document order."""
        out = []
        todo = [(0, self)]
        while todo:
            d, n = todo.pop()
            if skip is not None and skip(n):
                continue
            out.append((d, n.tag, n.text or '', tuple(sorted((n.attrib or {}).items())), n.tail or '' if d else ''))
            todo.extend((d + 1, k) for k in reversed(n.kids))
        return out


def conv(e):
    """Copy without recursion (embedded metadata can be nested deeply)."""
    root = N(e.tag, e.text, [], dict(e.attrib), e.tail)
    todo = [(e, root)]
    while todo:
        src, dst = todo.pop()
        for k in src:
            n = N(k.tag, k.text, [], dict(k.attrib), k.tail)
            dst.kids.append(n)
            todo.append((k, n))
    return root


class Report:
    """One <file> report."""

    def __init__(self, root, err=''):
        self.root, self.err = root, err
        g = root.find
        self.info, self.status, self.valid = g('fileInfo'), g('statusInfo'), g('isValid')
        self.tests, self.props, self.warns = g('tests'), g('properties'), g('warnings')
        self.ext = g('propertiesExtension')

    @property
    def ok(self):
        return self.status is not None and self.status.val('success') == 'True'

    @property
    def verdict(self):
        return self.valid.text if self.valid is not None else None

    def warnings(self):
        """All warning messages, in document order."""
        return [n.text or '' for n in self.warns.iter() if n.tag == 'warning']


class Raised(Exception):
    """The tool raised an exception."""


def analyse(path, fmt='jp2', verbose=False, pm=False, nullxml=False, mix=0, m=None):
    """Run the single-file analysis in this process."""
    m = m or module()
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err):
            el = m.checkOneFile(path, fmt, verbose, pm, nullxml, mix)
    except KeyboardInterrupt:
        raise
    except BaseException as ex:
        raise Raised('%s: %s' % (type(ex).__name__, ex)) from ex
    return Report(conv(el), err.getvalue())


def cli_env(extra=None):
    env = {'PATH': '/usr/bin:/bin', 'PYTHONPATH': REPO, 'PYTHONDONTWRITEBYTECODE': '1', 'LC_ALL': 'C.UTF-8',
           'HOME': '/nonexistent', 'PYTHONHASHSEED': '0', 'TZ': os.environ.get('TZ', '')}
    if not env['TZ']:
        del env['TZ']
    if extra:
        env.update(extra)
    return env


class CliResult:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err


def cli(args, cwd, timeout=120, env=None):
    """Run the command line tool; (exit code, stdout bytes, stderr bytes)."""
    p = subprocess.run([PY, '-m', 'jpylyzer'] + list(args), cwd=cwd, env=cli_env(env), stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return CliResult(p.returncode, p.stdout, p.stderr)
