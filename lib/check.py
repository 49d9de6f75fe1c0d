"""Common driver of the checks: builds, runs cases in parallel, confirms, reports, evidence.

A check module calls  check.main(pid, case, plan, ...)  where
  plan(tier, seed)  yields case specifications (small, JSON-able)
  case(spec)        runs one and returns an Outcome
"""
import collections, hashlib, json, multiprocessing, multiprocessing.connection, os, random, shutil, signal, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import ocl

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Outcome:
    """What one case showed."""

    def __init__(self):
        self.viol = []          # (key, text)
        self.discard = None     # reason, if the case said nothing
        self.n = 1              # evaluations
        self.sig = []           # signatures of the non-trivial situations met
        self.stats = collections.Counter()
        self.sample = None
        self.files = {}         # name -> bytes/str, kept with a violation

    def bad(self, key, text):
        self.viol.append((key, str(text)[:2000]))

    def need(self, cond, key, text):
        if not cond:
            self.bad(key, text() if callable(text) else text)
        return bool(cond)


def h(*xs):
    return hashlib.sha1(repr(xs).encode()).hexdigest()[:12]


def rng_of(*xs):
    return random.Random(h(*xs))


_case = None


def _work(spec):
    try:
        return spec, _case(spec)
    except SystemExit:
        raise
    except BaseException:
        o = Outcome()
        o.discard = 'harness: ' + traceback.format_exc()[-1500:]
        return spec, o


def _worker(conn):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    while True:
        try:
            spec = conn.recv()
        except EOFError:
            os._exit(0)
        if spec is None:
            os._exit(0)
        conn.send(_work(spec))


class Workers:
    """Runs cases in child processes. (multiprocessing.Pool can wait for ever when it is ended early or loses a child.)"""

    def __init__(self, n):
        self.n, self.busy, self.idle = n, {}, []

    def _start(self):
        a, b = multiprocessing.Pipe()
        mine = [a] + list(self.busy) + self.idle
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            for c in mine:
                c.close()
            try:
                _worker(b)
            finally:
                os._exit(1)
        b.close()
        a.pid = pid
        return a

    def _end(self, c):
        try:
            os.kill(c.pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(c.pid, 0)
        c.close()

    def run(self, specs):
        specs = iter(specs)
        more = True
        while more or self.busy:
            while more and len(self.busy) < self.n:
                try:
                    spec = next(specs)
                except StopIteration:
                    more = False
                    break
                c = self.idle.pop() if self.idle else self._start()
                self.busy[c] = spec
                c.send(spec)
            for c in multiprocessing.connection.wait(list(self.busy)):
                spec = self.busy.pop(c)
                try:
                    r = c.recv()
                    self.idle.append(c)
                except (EOFError, OSError):
                    self._end(c)
                    o = Outcome()
                    o.discard = 'harness: the process running the case ended'
                    r = spec, o
                yield r

    def close(self):
        end = time.time() + 15
        while self.busy and time.time() < end:
            for c in multiprocessing.connection.wait(list(self.busy), 1):
                self.busy.pop(c)
                self.idle.append(c)
        for c in list(self.busy) + self.idle:
            self._end(c)
        self.busy, self.idle = {}, []


def known(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith('known: property=%s ' % pid):
                key, _, text = l.split(' ', 2)[2].strip().partition(' ')
                out.append((key[4:] if key.startswith('key=') else key, text))
    return out


def main(pid, case, plan, rule, targets=('oclint', 'rules', 'reporters', 'plugins', 'refdiag'), setup=None,
         budget=(240, 3000), level='exploration', assumptions=(), min_cases=5, after=None):
    global _case
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    replay = None
    while args:
        a = args.pop(0)
        if a == '--tier':
            tier = args.pop(0)
        elif a == '--seed':
            seed = int(args.pop(0))
        elif a == '--replay':
            replay = args.pop(0)
    t0 = time.time()
    try:
        B.build(list(targets))
    except Exception as e:
        print('build failed: %s' % e)
        sys.exit(2)
    tb = time.time() - t0
    _case = case
    if setup:
        setup()
    if replay:
        spec = json.load(open(os.path.join(replay, 'case.json')))['spec']
        o = case(spec)
        for k, t in o.viol:
            print('VIOLATED %s: %s' % (k, t))
        print('discarded: %s' % o.discard if o.discard else 'case ran')
        sys.exit(1 if o.viol else 0)
    ocl.scratch()
    deadline = time.time() + budget[tier == 'thorough']
    n = disc = ev = 0
    sigs = set()
    stats = collections.Counter()
    samples, hits, reasons = [], [], collections.Counter()
    workers = Workers(min(8, os.cpu_count() or 8))
    try:
        for spec, o in workers.run(plan(tier, seed)):
            n += 1
            if o.discard:
                disc += 1
                reasons[o.discard] += 1
            else:
                ev += o.n
                sigs.update(h(s) for s in o.sig)
                stats.update(o.stats)
                if o.sample is not None and len(samples) < 3 and (o.sig or not samples):
                    samples.append(o.sample)
            if o.viol:
                hits.append((spec, o))
                if len(hits) >= int(os.environ.get("VERIF_HITS", "12")):
                    break
            if time.time() > deadline:
                print('time budget reached after %d cases' % n)
                break
    finally:
        workers.close()
    kn = known(pid)
    seen_known, shown, flaky, nviol = set(), set(), 0, 0
    for spec, o in hits:
        for _ in range(5):
            again = case(spec)
            if again.viol:
                break
        if not again.viol:
            flaky += 1
            print('not reproduced (ignored): %s' % (o.viol[0],))
            continue
        for k, t in again.viol:
            m = [x for x in kn if x[0] == k]
            if m:
                seen_known.add(m[0])
                continue
            nviol += 1
            if k in shown or len(shown) >= int(os.environ.get("VERIF_SHOW", "5")):
                continue
            shown.add(k)
            d = os.path.join(VERIF, 'replays', pid, '%s-%s' % (tier, h(spec, k)))
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            json.dump({'property': pid, 'spec': spec, 'key': k, 'what': t}, open(d + '/case.json', 'w'), indent=1)
            for name, body in again.files.items():
                p = os.path.join(d, name.replace('/', '_'))
                open(p, 'wb').write(body if isinstance(body, bytes) else body.encode('utf-8', 'surrogateescape'))
            print('  %s: %s' % (k, t))
            print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(d, VERIF)))
    for k, t in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, t))
    extra = after() if after else {}
    cov = {'evaluations': ev, 'distinct_nontrivial': len(sigs), 'rule': rule, 'samples': samples[:3] or ['none'],
           'cases': n, 'discarded': disc, 'observed': dict(stats.most_common(150)),
           'build_s': round(tb, 1), 'not_reproduced': flaky}
    if reasons:
        cov['discard_reasons'] = [[k[:200], v] for k, v in reasons.most_common(4)]
    cov.update(extra)
    doc = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
           'assumptions': list(assumptions), 'wall_s': round(time.time() - t0, 1), 'violations': nviol}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    s = json.dumps(doc, indent=1)
    while len(s) > 60000 and samples:
        samples.pop()
        cov['samples'] = samples or ['omitted: too long']
        s = json.dumps(doc, indent=1)
    open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w').write(s)
    print('%s %s: %d cases (%d discarded), %d evaluations, %d distinct non-trivial, %.0f s (build %.0f s)' %
          (pid, tier, n, disc, ev, len(sigs), time.time() - t0, tb))
    for k, v in reasons.most_common(3):
        print('  discarded %d: %s' % (v, k[-600:]))
    if nviol:
        sys.exit(1)
    if n - disc < min_cases or not sigs or disc > 0.25 * n:
        print('too few usable cases: no answer')
        sys.exit(2)
    sys.exit(0)
