"""Running the monitored oclint: scratch installs, sanitizer-aware process control, events."""
import json, os, shutil, signal, subprocess, sys, tempfile, atexit

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
BLD = B.B
OCLINT = os.path.join(BLD, 'bin', 'oclint')

ASAN = ('detect_odr_violation=0:detect_leaks=0:detect_container_overflow=0:exitcode=99:'
        'abort_on_error=0:allocator_may_return_null=1:handle_segv=1:symbolize=1')
UBSAN = 'print_stacktrace=1:exitcode=99:halt_on_error=1'

_scratch = None
_owner = None


def scratch():
    """Per-process-tree scratch directory, removed at exit of the process that made it."""
    global _scratch, _owner
    if _scratch is None:
        _scratch = os.path.realpath(tempfile.mkdtemp(prefix='verif-'))
        _owner = os.getpid()
        atexit.register(_clean)
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    return _scratch


def _clean():
    if _scratch and os.getpid() == _owner:
        shutil.rmtree(_scratch, ignore_errors=True)


def mkd(*parts):
    p = os.path.join(scratch(), *parts)
    os.makedirs(p, exist_ok=True)
    return p


class Prefix:
    """An install tree: bin/oclint, lib/oclint/{rules,reporters}, etc."""

    def __init__(self, name, rules='all', reporters='all', plugins=('events',)):
        self.dir = mkd('prefix-' + name)
        for d in ('bin', 'etc', 'lib/oclint/rules', 'lib/oclint/reporters'):
            os.makedirs(os.path.join(self.dir, d), exist_ok=True)
        self.bin = self._ln(OCLINT, 'bin/oclint')
        self.rules_dir = os.path.join(self.dir, 'lib/oclint/rules')
        self.reporters_dir = os.path.join(self.dir, 'lib/oclint/reporters')
        src = os.path.join(BLD, 'lib/oclint/rules')
        for f in sorted(os.listdir(src)):
            if rules == 'all' or f[3:-3] in rules:
                self._ln(os.path.join(src, f), 'lib/oclint/rules/' + f)
        src = os.path.join(BLD, 'lib/oclint/reporters')
        for f in sorted(os.listdir(src)):
            if reporters == 'all' or f[3:-3] in reporters:
                self._ln(os.path.join(src, f), 'lib/oclint/reporters/' + f)
        for p in plugins:
            where = 'reporters' if p == 'events' else 'rules'
            self._ln(os.path.join(BLD, 'plugins', p, 'lib%s.so' % p), 'lib/oclint/%s/lib%s.so' % (where, p))

    def _ln(self, src, rel):
        dst = os.path.join(self.dir, rel)
        if os.path.lexists(dst):
            os.unlink(dst)
        os.symlink(src, dst)
        return dst


class Result:
    __slots__ = ('rc', 'out', 'err', 'timeout', 'cmd', 'cwd')

    @property
    def crashed(self):
        return self.timeout or self.rc < 0 or self.rc == 99 or self.rc > 128

    def crash_text(self):
        if self.timeout:
            return 'did not finish within the time limit'
        e = self.err.decode('latin-1')
        for l in e.splitlines():
            if 'ERROR: AddressSanitizer' in l or 'runtime error:' in l or 'terminate called' in l \
                    or 'Assertion' in l:
                return l.strip()[:300]
        return 'abnormal end, status %d: %s' % (self.rc, e.strip()[-300:])

    def crash_frames(self):
        """innermost frames that lie in oclint's sources"""
        fr = []
        for l in self.err.decode('latin-1').splitlines():
            l = l.strip()
            if l.startswith('#') and '/.build/src/' in l:
                fr.append(l.split(' in ', 1)[-1].split('(')[0][:120])
        return fr[:4]


def run(prefix, args, cwd, env=None, timeout=90, stdin=b''):
    e = {'PATH': '/usr/bin:/bin', 'HOME': cwd, 'LANG': 'C', 'LC_ALL': 'C', 'TZ': 'UTC',
         'ASAN_OPTIONS': ASAN, 'UBSAN_OPTIONS': UBSAN,
         'ASAN_SYMBOLIZER_PATH': '/usr/lib/llvm-18/bin/llvm-symbolizer'}
    if env:
        e.update(env)
    r = Result()
    r.cmd, r.cwd = [prefix.bin] + list(args), cwd
    p = subprocess.Popen(r.cmd, cwd=cwd, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, start_new_session=True)
    try:
        r.out, r.err = p.communicate(stdin, timeout=timeout)
        r.timeout = False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        r.out, r.err = p.communicate()
        r.timeout = True
    r.rc = p.returncode
    return r


def run_retry(prefix, args, cwd, env=None, timeout=90):
    """A crash or timeout is only believed if it happens again."""
    r = run(prefix, args, cwd, env, timeout)
    if r.crashed:
        r = run(prefix, args, cwd, env, timeout * 2)
    return r


def events(out):
    """Parse the event reporter's document; None if there is none."""
    if isinstance(out, bytes):
        i = out.find(b'{"verif":1')
        if i < 0:
            return None
        try:
            return json.loads(out[i:].decode('latin-1'))
        except ValueError:
            return None
    return None


def violations(ev):
    for k, v in ev['q']:
        if k == 'v':
            return v
    return None


def asts(path):
    """all documents the AST dump plugin wrote"""
    s, i, out = open(path).read(), 0, []
    dec = json.JSONDecoder()
    while i < len(s):
        while i < len(s) and s[i].isspace():
            i += 1
        if i < len(s):
            d, i = dec.raw_decode(s, i)
            out.append(d)
    return out
