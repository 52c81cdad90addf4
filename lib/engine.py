"""Running bic, recording what can be observed, and checking recordings
against the specification with TLC."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import build
from num import num

VERIF = build.VERIF
SPEC = os.path.join(VERIF, 'spec')
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 1)


class ModelError(Exception):
    """The machinery failed, nothing has been decided."""


class Scratch:
    """A directory of its own for everything the code under test touches."""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='bicv-')
        os.makedirs(os.path.join(self.dir, 'home'))
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def write(self, name, data):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb' if isinstance(data, bytes) else 'w') as f:
            f.write(data)
        return p


class Result:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err


OUTPUT_LIMIT = 8 << 20


def run(argv, scratch, stdin=b'', timeout=10, env=None, cwd=None, mem=4 << 30):
    e = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': scratch.path('home'),
         'TERM': 'dumb', 'LANG': 'C', 'LC_ALL': 'C', 'TMPDIR': scratch.dir, 'INPUTRC': '/dev/null'}
    e.update(env or {})

    def limits():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (OUTPUT_LIMIT, OUTPUT_LIMIT))

    with tempfile.TemporaryFile(dir=scratch.dir) as fo, tempfile.TemporaryFile(dir=scratch.dir) as fe:
        p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=fo, stderr=fe,
                             cwd=cwd or scratch.dir, env=e, start_new_session=True, preexec_fn=limits)
        try:
            p.communicate(stdin, timeout)
            rc = p.returncode
            if rc < 0:
                rc = 1000 - rc
        except subprocess.TimeoutExpired:
            rc = 2000
        try:                        # whatever it left running
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        fo.seek(0)
        fe.seek(0)
        return Result(rc, fo.read().decode('latin-1'), fe.read().decode('latin-1'))


GARBAGE = [0, 0, 0, 0]
TOKEN = re.compile(r"'([^']*)'|(-?\d+\.\d+)(?=\s|$)|(-?\d+)(?=\s|$)|(-)(?=\s|$)|(\S+)")


def tokens(line):
    """The items of one line that the program printed."""
    items = []
    for m in TOKEN.finditer(line):
        s, f, i, dash, bad = m.groups()
        if s is not None:
            items.append([0, 0] + [ord(c) for c in s])
        elif f is not None:
            whole, frac = f.split('.')
            neg = whole.startswith('-')
            n = abs(int(whole)) * 10 ** len(frac) + int(frac)
            n *= 1024
            items.append([0, 1] + num((-1 if neg else 1) * (n // 10 ** len(frac)))
                         if n % 10 ** len(frac) == 0 else GARBAGE)
        elif i is not None:
            items.append(num(int(i)))
        elif dash is not None:
            continue
        else:
            items.append(GARBAGE)
    return items


def record(res):
    """The observations of an execution, as the trace the specification reads."""
    tr = []
    text = res.out
    if text and not text.endswith('\n'):
        text += '~\n'               # an incomplete line isn't a complete event
    for line in text.split('\n')[:-1]:
        tr.append(['out'] + tokens(line))
    tr.append(['exit', num(res.rc)])
    return tr


def run_script(bic, prog, scratch, name, args=(), env=None, timeout=10, unbuffered=False, wrap=()):
    opts = prog.prepare(scratch) if hasattr(prog, 'prepare') else []
    f = scratch.write(name + '.c', prog if isinstance(prog, str) else prog.text())
    return run((['stdbuf', '-o0'] if unbuffered else []) + list(wrap) + [bic] + opts + ['-s', f] + list(args), scratch, env=env, timeout=timeout)


def java(module, cfg, env=None, workers=NCPU, timeout=600, extra=(), heap='6g', stack='64m', short=True):
    """Run TLC; returns its output."""
    with Scratch() as sc:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), sc.dir)
        cfgp = sc.write('model.cfg', cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-Xss' + stack, '-Xmx' + heap, '-XX:+UseSerialGC'] + (['-XX:TieredStopAtLevel=1'] if short else []) + ['-cp', TLA, 'tlc2.TLC', '-workers', str(workers),
               '-config', 'model.cfg', '-metadir', sc.path('states'), '-noGenerateSpecTE'] + list(extra) + [module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=sc.dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ModelError('TLC did not finish within %d s' % timeout)
        return p.returncode, p.stdout.decode('utf-8', 'replace')


STATS = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def unescape(s):
    return s.replace('\\"', '"').replace('\\\\', '\\')


def tlc(module, cfg, env=None, **kw):
    """Run TLC over a model that has to complete; returns (printed, stats, out).
    printed: what the model printed in lines that start with a marker word."""
    rc, text = java(module, cfg, env, **kw)
    if 'Model checking completed. No error' not in text and 'Finished in' not in text or rc not in (0, 12, 13):
        raise ModelError('TLC failed (%d):\n%s' % (rc, text[-3000:]))
    if 'Error:' in text and rc == 0:
        raise ModelError('TLC reported an error:\n%s' % text[-3000:])
    printed = {}
    for line in text.split('\n'):
        m = re.match(r'^"([A-Z]+) (.*)"$', line)
        if m:
            printed.setdefault(m.group(1), []).append(json.loads(unescape(m.group(2))))
    st = STATS.findall(text)
    return rc, printed, (int(st[-1][0]), int(st[-1][1])) if st else (0, 0), text


CFG = '''INIT Init
NEXT Next
VIEW View
INVARIANT Verdict
INVARIANT Lifetimes
INVARIANT Cells
CHECK_DEADLOCK FALSE
'''


def validate(tables, timeout=800, cfg=CFG, module='CMachine', jvms=NCPU, least=3, short=True, var='PROGS'):
    """Check recorded executions against CMachine, with several TLCs at a time.
    Returns {id: (status, event, steps, why)} and the statistics."""
    verdicts = {}
    stats = [0, 0]
    k = max(1, min(jvms, len(tables) // least))
    chunks = [tables[i::k] for i in range(k)]

    def one(chunk):
        with Scratch() as sc:
            f = sc.write('progs.json', json.dumps(chunk))
            return tlc(module, cfg, {var: f}, timeout=timeout, workers=1 if k > 3 else 2, heap='3g', short=short)

    for rc, printed, st, text in parallel(one, chunks):
        if rc != 0:
            raise ModelError('invariant of the model violated:\n' + text[-3000:])
        stats = [stats[0] + st[0], stats[1] + st[1]]
        for v in printed.get('VERDICT', []):
            verdicts[v[0]] = tuple(v[1:])
    missing = [t['id'] for t in tables if t['id'] not in verdicts]
    if missing:
        raise ModelError('no verdict for %s' % missing[:5])
    return verdicts, stats


def parallel(f, xs):
    with ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(f, xs))
