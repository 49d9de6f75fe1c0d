"""Builds the monitored binaries from /repo's current working tree.

Sources are mirrored by content into .build/src (a file is only rewritten when its
bytes differ), so that ninja's mtimes depend on what the code says and on nothing else.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
SRC = os.path.join(B, 'src')
LLVM = '/usr/lib/llvm-20'
CXX = '/usr/bin/clang++-18'

MIRROR = ['oclint-core', 'oclint-driver', 'oclint-metrics', 'oclint-reporters', 'oclint-rules']
EXT = ('.cpp', '.h', '.hpp', '.inc', '.def', '.ipp', '.cc', '.hh')


class BuildError(Exception):
    pass


def write_if_changed(path, data):
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, 'rb') as f:
            if f.read() == data:
                return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + '.tmp', 'wb') as f:
        f.write(data)
    os.replace(path + '.tmp', path)
    return True


def mirror():
    want = set()
    for top in MIRROR:
        root = os.path.join(REPO, top)
        for dp, dn, fn in os.walk(root):
            rel = os.path.relpath(dp, REPO)
            if os.path.basename(dp) in ('test', 'build', 'cmake', 'template'):
                dn[:] = []
                continue
            for f in fn:
                if f.endswith(EXT):
                    r = os.path.join(rel, f)
                    want.add(r)
                    with open(os.path.join(REPO, r), 'rb') as h:
                        write_if_changed(os.path.join(SRC, r), h.read())
    for dp, dn, fn in os.walk(SRC):
        for f in fn:
            r = os.path.relpath(os.path.join(dp, f), SRC)
            if r not in want:
                os.unlink(os.path.join(dp, f))


def overlay():
    """LLVM 20 headers with the three LLVM 21 spellings that oclint-driver uses.

    The additions are inline and non-virtual (no layout or ABI change); each forwards to
    the LLVM 20 spelling with the LLVM 21 ownership (options are borrowed, not owned).
    """
    def patch(rel, subs):
        s = open(os.path.join(LLVM, 'include', rel)).read()
        for a, b in subs:
            if a not in s:
                raise BuildError('overlay: pattern missing in ' + rel)
            s = s.replace(a, b, 1)
        write_if_changed(os.path.join(B, 'overlay', rel), s)
    # ASan-aware bump allocation must match the uninstrumented libraries
    patch('llvm/Support/Compiler.h', [('# define LLVM_ADDRESS_SANITIZER_BUILD 1',
                                       '# define LLVM_ADDRESS_SANITIZER_BUILD 0')])
    patch('clang/Basic/TargetInfo.h', [
        ('''                   const std::shared_ptr<TargetOptions> &Opts);
''', '''                   const std::shared_ptr<TargetOptions> &Opts);
  static TargetInfo *
  CreateTargetInfo(DiagnosticsEngine &Diags, TargetOptions &Opts) {
    return CreateTargetInfo(Diags,
        std::shared_ptr<TargetOptions>(std::shared_ptr<void>(), &Opts));
  }
'''),
        ('''  virtual void adjust(DiagnosticsEngine &Diags, LangOptions &Opts);
''', '''  virtual void adjust(DiagnosticsEngine &Diags, LangOptions &Opts);
  void adjust(DiagnosticsEngine &Diags, LangOptions &Opts, const TargetInfo *) {
    adjust(Diags, Opts);
  }
'''),
    ])
    patch('clang/Basic/Diagnostic.h', [
        ('''                             bool ShouldOwnClient = true);
  DiagnosticsEngine(const DiagnosticsEngine &) = delete;
''', '''                             bool ShouldOwnClient = true);
  explicit DiagnosticsEngine(IntrusiveRefCntPtr<DiagnosticIDs> Diags,
                             DiagnosticOptions &DiagOpts,
                             DiagnosticConsumer *client = nullptr,
                             bool ShouldOwnClient = true)
      : DiagnosticsEngine(Diags, IntrusiveRefCntPtr<DiagnosticOptions>(
            new DiagnosticOptions(DiagOpts)), client, ShouldOwnClient) {}
  DiagnosticsEngine(const DiagnosticsEngine &) = delete;
''')])


PCH = '''#include <algorithm>
#include <cassert>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <regex>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <clang/AST/AST.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/Attr.h>
#include <clang/AST/ParentMapContext.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/ASTMatchers/ASTMatchFinder.h>
#include <clang/ASTMatchers/ASTMatchers.h>
#include <clang/Basic/SourceManager.h>
'''

SAN = ('-fsanitize=address,undefined -fno-sanitize=vptr,function '
       '-fno-sanitize-recover=all -fsanitize-ignorelist=%s/harness/san_ignore.txt' % VERIF)
BASE = ('-std=c++17 -fno-rtti -fPIC -O1 -g1 -w -fno-omit-frame-pointer '
        '-D_GLIBCXX_ASSERTIONS -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS '
        '-D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS '
        '-I{B}/overlay -isystem {LLVM}/include '
        '-I{SRC}/oclint-core/include -I{SRC}/oclint-metrics/include '
        '-I{SRC}/oclint-rules/include -I{SRC}/oclint-driver/include '
        '-I{SRC}/oclint-driver').format(B=B, LLVM=LLVM, SRC=SRC)


PLUGINS = ('events', 'script', 'astdump', 'gates', 'optdump', 'tu', 'frame')


def gen():
    g = lambda p: sorted(glob.glob(os.path.join(SRC, p), recursive=True))
    core = g('oclint-core/lib/**/*.cpp')
    metrics = g('oclint-metrics/lib/**/*.cpp')
    ruleslib = g('oclint-rules/lib/**/*.cpp')
    rules = g('oclint-rules/rules/**/*.cpp')
    reporters = g('oclint-reporters/reporters/*.cpp')
    driver = g('oclint-driver/lib/**/*.cpp')
    if not (core and metrics and rules and reporters and driver):
        raise BuildError('sources missing')
    n = []
    w = n.append
    w('ninja_required_version = 1.3')
    w('builddir = %s' % B)
    w('cxx = %s' % CXX)
    w('flags = %s %s' % (BASE, SAN))
    w('ldflags = -fuse-ld=lld -fsanitize=address,undefined')
    w('llvm = -L%s/lib -L/usr/lib/x86_64-linux-gnu -Wl,-rpath,%s/lib -l:libclang-cpp.so.20.1 -l:libLLVM.so.20.1 -lpthread -ldl' % (LLVM, LLVM))
    w('pool link\n  depth = 3')
    w('rule pch\n  command = $cxx $flags -x c++-header -MD -MF $out.d $in -o $out\n  depfile = $out.d\n  deps = gcc')
    w('rule cxx\n  command = $cxx $flags -include-pch %s/pch.h.pch -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc' % B)
    w('rule cxxn\n  command = $cxx $flags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc')
    w('rule exe\n  command = $cxx $ldflags -rdynamic -Wl,--export-dynamic @$out.rsp -o $out $llvm\n  rspfile = $out.rsp\n  rspfile_content = $in\n  pool = link')
    w('rule so\n  command = $cxx -fuse-ld=lld -shared $in -o $out\n  pool = link')
    w('rule ar\n  command = rm -f $out && /usr/bin/ar rcs $out $in')
    w('build %s/pch.h.pch: pch %s/pch.h' % (B, B))
    objs = {}

    def obj(src, nopch=False):
        if src in objs:
            return objs[src]
        rel = os.path.relpath(src, SRC) if src.startswith(SRC) else 'verif/' + os.path.basename(src)
        o = os.path.join(B, 'obj', rel + '.o')
        objs[src] = o
        if nopch:
            w('build %s: cxxn %s' % (o, src))
        else:
            w('build %s: cxx %s | %s/pch.h.pch' % (o, src, B))
        return o
    co = [obj(s, True) for s in core]
    mo = [obj(s) for s in metrics]
    rl = [obj(s) for s in ruleslib]
    ro = [obj(s) for s in rules]
    rep = [obj(s, True) for s in reporters]
    dr = [obj(s, True) for s in driver]
    mainc = [obj(os.path.join(SRC, 'oclint-driver', f), True) for f in
             ('main.cpp', 'reporters_dlfcn_port.cpp', 'rules_dlfcn_port.cpp')]
    H = os.path.join(VERIF, 'harness')

    def exe(name, ins):
        w('build %s/bin/%s: exe %s' % (B, name, ' '.join(ins)))
        w('build %s: phony %s/bin/%s' % (name, B, name))
    def ar(name, ins):
        p = '%s/a/lib%s.a' % (B, name)
        w('build %s: ar %s' % (p, ' '.join(ins)))
        return p
    aCore, aMetric, aRules = ar('core', co), ar('metric', mo), ar('ruleslib', rl)
    # the real program; rules and reporters are plugins as shipped
    exe('oclint', mainc + dr + co)
    # the compiler by itself, uninstrumented
    rd = '%s/obj/verif/refdiag.o' % B
    w('rule ref\n  command = $cxx -std=c++17 -fno-rtti -O1 -w -I%s/overlay -isystem %s/include -D_GNU_SOURCE -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc' % (B, LLVM))
    w('rule refl\n  command = $cxx -fuse-ld=lld $in -o $out $llvm')
    w('build %s: ref %s' % (rd, os.path.join(H, 'refdiag.cpp')))
    w('build %s/bin/refdiag: refl %s' % (B, rd))
    w('build refdiag: phony %s/bin/refdiag' % B)
    plug = []
    for s, o in zip(rules, ro):
        p = '%s/lib/oclint/rules/lib%s.so' % (B, os.path.splitext(os.path.basename(s))[0])
        w('build %s: so %s %s %s %s' % (p, o, aRules, aMetric, aCore))
        plug.append(p)
    w('build rules: phony ' + ' '.join(plug))
    plugr = []
    for s, o in zip(reporters, rep):
        p = '%s/lib/oclint/reporters/lib%s.so' % (B, os.path.splitext(os.path.basename(s))[0])
        w('build %s: so %s %s' % (p, o, aCore))
        plugr.append(p)
    w('build reporters: phony ' + ' '.join(plugr))
    for name in PLUGINS:
        o = obj(os.path.join(H, 'plugin_%s.cpp' % name), name not in ('astdump', 'gates', 'tu', 'frame'))
        w('build %s/plugins/%s/lib%s.so: so %s %s' % (B, name, name, o, aRules + ' ' + aCore if name in ('gates', 'frame') else aCore))
    w('build plugins: phony ' + ' '.join('%s/plugins/%s/lib%s.so' % (B, p, p) for p in PLUGINS))
    write_if_changed(os.path.join(B, 'build.ninja'), '\n'.join(n) + '\n')
    # stale plugins of rules that no longer exist
    for d, keep in (('rules', plug), ('reporters', plugr)):
        for f in glob.glob('%s/lib/oclint/%s/*' % (B, d)):
            if f not in keep:
                os.unlink(f)


def build(targets):
    """Bring `targets` up to date with /repo's working tree. Raises BuildError."""
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        overlay()
        mirror()
        write_if_changed(os.path.join(B, 'pch.h'), PCH)
        for d in ('etc',):
            os.makedirs(os.path.join(B, d), exist_ok=True)
        gen()
        r = subprocess.run(['ninja', '--quiet', '-C', B, '-j', str(os.cpu_count() or 4)] + list(targets),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(r.stdout[-6000:])
        return r.stdout


if __name__ == '__main__':
    try:
        print(build(sys.argv[1:])[-500:])
    except BuildError as e:
        print('BUILD ERROR\n' + str(e))
        sys.exit(2)
