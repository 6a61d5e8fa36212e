"""Runs of the command line tool in a forked child that has imported the package but analysed nothing,
so that each run starts from the state a new process would have (a sample of runs uses a real new process)."""
import io
import os
import resource
import sys
import traceback
import xml.parsers.expat

from . import engine, sut


class CliError(Exception):
    pass


def run_forked(args, cwd, before=None, tz=None, uid=None):
    """sut.CliResult of the tool with the given arguments; before() runs in the child first."""
    m = sut.module()
    top = cwd
    base = os.path.join(os.environ.get('JV_OUT') or '/dev/shm', 'jvo-%d' % os.getpid())
    fo, fe = base + '.out', base + '.err'
    # the files are created before privileges are dropped
    o = os.open(fo, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
    e = os.open(fe, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
    os.unlink(fo)
    os.unlink(fe)

    def child():
        os.chdir(top)
        os.dup2(o, 1)
        os.dup2(e, 2)
        sys.stdin = open(os.devnull)
        sys.stdout = io.TextIOWrapper(io.open(1, 'wb', closefd=False), encoding='utf-8')
        sys.stderr = io.TextIOWrapper(io.open(2, 'wb', closefd=False), encoding='utf-8', errors='backslashreplace', write_through=True)
        if tz is not None:
            import time
            os.environ['TZ'] = tz
            time.tzset()
        if uid is not None:
            os.setgroups([])
            os.setgid(uid)
            os.setuid(uid)
        if before is not None:
            before()
        sys.argv = ['jpylyzer'] + list(args)
        try:
            m.main()
            rc = 0
        except SystemExit as x:
            rc = x.code if isinstance(x.code, int) else (0 if x.code is None else 1)
        except BaseException:
            traceback.print_exc()
            rc = 1
        sys.stdout.flush()
        sys.stderr.flush()
        return rc
    try:
        st, rc = engine.in_child(child, cpu=60, wall=300)
        out, err = [], []
        for fd, acc in ((o, out), (e, err)):
            os.lseek(fd, 0, 0)
            while True:
                d = os.read(fd, 1 << 20)
                if not d:
                    break
                acc.append(d)
    finally:
        os.close(o)
        os.close(e)
    if st == 'ok':
        return sut.CliResult(rc, b''.join(out), b''.join(err))
    raise CliError('the run ended abnormally (%s %s)' % (st, rc or ''))


def parse(data):
    """N tree of a UTF-8 XML document, by expat with namespaces resolved; raises CliError."""
    try:
        data.decode('utf-8')
    except UnicodeDecodeError as x:
        raise CliError('the output is not UTF-8: %s' % x)
    p = xml.parsers.expat.ParserCreate(namespace_separator='}')
    p.buffer_text = True
    stack = []
    root = []

    def name(t):
        return '{' + t if '}' in t else t

    def start(tag, attrs):
        n = sut.N(name(tag), None, [], {name(k): v for k, v in attrs.items()})
        if stack:
            stack[-1].kids.append(n)
        else:
            root.append(n)
        stack.append(n)

    def end(tag):
        stack.pop()

    def text(s):
        n = stack[-1]
        if n.kids:
            n.kids[-1].tail = (n.kids[-1].tail or '') + s
        else:
            n.text = (n.text or '') + s
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, text
    try:
        p.Parse(data, True)
    except xml.parsers.expat.ExpatError as x:
        raise CliError('the output is not well-formed XML: %s' % x)
    return root[0]
