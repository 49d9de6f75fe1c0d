"""Builds a plain oclint from /repo's sources in a scratch directory (removed at the end) and runs it."""
import atexit, glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
REPO = os.getcwd()
L = '/usr/lib/llvm-20'
W = tempfile.mkdtemp(prefix='demo-')
atexit.register(lambda: shutil.rmtree(W, ignore_errors=True))
CXX = shutil.which('clang++-18') or shutil.which('clang++') or 'g++'


def overlay():
    """the driver uses three spellings newer than the installed LLVM headers"""
    def patch(rel, a, b):
        s = open(L + '/include/' + rel).read()
        assert a in s
        p = W + '/overlay/' + rel
        os.makedirs(os.path.dirname(p), exist_ok=True)
        s = open(p).read() if os.path.exists(p) else s
        open(p, 'w').write(s.replace(a, b, 1))
    patch('clang/Basic/TargetInfo.h', 'const std::shared_ptr<TargetOptions> &Opts);\n', '''const std::shared_ptr<TargetOptions> &Opts);
  static TargetInfo *CreateTargetInfo(DiagnosticsEngine &Diags, TargetOptions &Opts) {
    return CreateTargetInfo(Diags, std::shared_ptr<TargetOptions>(std::shared_ptr<void>(), &Opts)); }
''')
    patch('clang/Basic/TargetInfo.h', '  virtual void adjust(DiagnosticsEngine &Diags, LangOptions &Opts);\n', '''
  virtual void adjust(DiagnosticsEngine &Diags, LangOptions &Opts);
  void adjust(DiagnosticsEngine &Diags, LangOptions &Opts, const TargetInfo *) { adjust(Diags, Opts); }
''')
    patch('clang/Basic/Diagnostic.h', '  DiagnosticsEngine(const DiagnosticsEngine &) = delete;\n', '''
  explicit DiagnosticsEngine(IntrusiveRefCntPtr<DiagnosticIDs> Diags, DiagnosticOptions &DiagOpts,
                             DiagnosticConsumer *client = nullptr, bool ShouldOwnClient = true)
      : DiagnosticsEngine(Diags, IntrusiveRefCntPtr<DiagnosticOptions>(new DiagnosticOptions(DiagOpts)), client, ShouldOwnClient) {}
  DiagnosticsEngine(const DiagnosticsEngine &) = delete;
''')


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        sys.stderr.write(' '.join(cmd) + '\n' + p.stdout.decode('utf-8', 'replace')[-3000:])
        sys.exit(99)


def build(rules=(), reporters=('Text', 'JSON')):
    overlay()
    flags = ['-std=c++17', '-fno-rtti', '-fPIC', '-O0', '-w', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS',
             '-D__STDC_LIMIT_MACROS', '-I' + W + '/overlay', '-isystem', L + '/include'] + \
            ['-I%s/oclint-%s/include' % (REPO, m) for m in ('core', 'metrics', 'rules', 'driver')] + ['-I%s/oclint-driver' % REPO]
    g = lambda p: sorted(glob.glob(os.path.join(REPO, p), recursive=True))
    common = g('oclint-core/lib/**/*.cpp') + g('oclint-metrics/lib/**/*.cpp')
    driver = g('oclint-driver/lib/**/*.cpp') + g('oclint-driver/*.cpp')
    driver = [d for d in driver if os.path.basename(d) in ('main.cpp', 'reporters_dlfcn_port.cpp', 'rules_dlfcn_port.cpp') or '/lib/' in d]
    helpers = g('oclint-rules/lib/**/*.cpp') if rules else []
    rs = [g('oclint-rules/rules/**/%sRule.cpp' % r)[0] for r in rules]
    rp = [REPO + '/oclint-reporters/reporters/%sReporter.cpp' % r for r in reporters]
    obj = lambda s: W + '/o/' + os.path.relpath(s, REPO).replace('/', '_') + '.o'
    os.makedirs(W + '/o')
    os.makedirs(W + '/p/bin')
    os.makedirs(W + '/p/lib/oclint/rules')
    os.makedirs(W + '/p/lib/oclint/reporters')
    with ThreadPoolExecutor(os.cpu_count()) as ex:
        list(ex.map(lambda s: sh([CXX] + flags + ['-c', s, '-o', obj(s)]), driver + helpers + rs + rp + common))
    main = common + driver + helpers
    sh([CXX, '-rdynamic'] + [obj(s) for s in main] + ['-o', W + '/p/bin/oclint', '-L' + L + '/lib', '-Wl,-rpath,' + L + '/lib',
                                                       '-l:libclang-cpp.so.20.1', '-l:libLLVM.so.20.1', '-lpthread', '-ldl'])
    for s in rs:
        sh([CXX, '-shared', obj(s), '-o', W + '/p/lib/oclint/rules/lib%s.so' % os.path.basename(s)[:-4]])
    for s in rp:
        sh([CXX, '-shared', obj(s), '-o', W + '/p/lib/oclint/reporters/lib%s.so' % os.path.basename(s)[:-4]])


def put(name, text):
    p = os.path.join(W, 'w', name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, 'wb').write(text if isinstance(text, bytes) else text.encode())
    return p


def run(args, cwd=None):
    """runs oclint in the scratch directory; gives (status, stdout, stderr)"""
    os.makedirs(W + '/w', exist_ok=True)
    os.makedirs(W + '/home', exist_ok=True)
    p = subprocess.run([W + '/p/bin/oclint'] + args, cwd=cwd or W + '/w', stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                       env={'PATH': '/usr/bin:/bin', 'HOME': W + '/home', 'LC_ALL': 'C'})
    return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')


def violations(args, cwd=None):
    """[(rule, file, startLine, startColumn, endLine, endColumn, message)] from the JSON report"""
    rc, out, err = run(['-report-type', 'json'] + args, cwd)
    doc = json.loads(out)
    return [(v['rule'], os.path.basename(v['path']), v['startLine'], v['startColumn'], v.get('endLine'), v.get('endColumn'), v['message'])
            for v in doc['violation']]


def expect(got, want, what):
    if got != want:
        print('%s: got %r, expected %r' % (what, got, want))
        sys.exit(1)
