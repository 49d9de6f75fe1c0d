#!/usr/bin/env python3
"""mutate.py [-j WORKERS] [-n PER_FILE] [-s SEED] [-o OUT] FILE[:CHECK,...]...

Plants small changes in sources of /repo, one at a time, and runs the checks that should see them. Works in private
copy-on-write views of /repo and /verif (nothing real is touched). What no check sees is either no change of behaviour
or something the generators miss: those are printed for reading. A tool for whoever works on the checks; no check uses it.
With MUTATE_LOWER=DIR, a copy of /verif with its build is used, so that /verif may be worked on meanwhile."""
import argparse, json, os, random, re, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')

TOK = re.compile(r'R"rst\(.*?\)rst"|//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|[A-Za-z_]\w*|\d[\w.]*|->|::|<<|>>|&&|\|\||[=!<>+\-*/%|&^]=|\+\+|--|\s+|.', re.S)
SWAP = {'&&': ['||'], '||': ['&&'], '==': ['!='], '!=': ['=='], '<=': ['<', '>'], '>=': ['>', '<'], '<': ['<=', '>='], '>': ['>=', '<='],
        '++': ['--'], '--': ['++'], '+=': ['-=', '='], '-=': ['+='], '+': ['-'], '-': ['+'], 'true': ['false'], 'false': ['true'],
        'break': ['continue'], 'continue': ['break'], '*=': ['+='], '|': ['&'], '&': ['|']}
DROPCALL = ('IgnoreParenImpCasts', 'IgnoreParens', 'IgnoreImpCasts', 'IgnoreParenCasts', 'IgnoreImplicit', 'getCanonicalType', 'getCanonicalDecl', 'getUnqualifiedType',
            'getNonReferenceType', 'getMostRecentDecl', 'IgnoreImplicit', 'getDefinition')


def mutants(text):
    """[(position, end, replacement, kind)]"""
    toks = [(m.group(), m.start()) for m in TOK.finditer(text)]
    ig = [False] * len(toks)
    # leave documentation and preprocessor lines alone
    depth, out = 0, []
    doc = [(m.start(), m.end()) for m in re.finditer(r'#ifdef DOCGEN.*?#endif', text, re.S)]
    pp = [(m.start(), m.end()) for m in re.finditer(r'^[ \t]*#[^\n]*', text, re.M)]
    pp += [(m.start(), m.end()) for m in re.finditer(r'^(using|namespace|template)\b[^\n]*', text, re.M)]
    skip = lambda p: any(a <= p < b for a, b in doc + pp)
    code = [(t, p) for t, p in toks if not t.isspace() and not t.startswith('//') and not t.startswith('/*') and not skip(p)]
    sp = lambda p, t: text[p - 1:p] == ' ' and text[p + len(t):p + len(t) + 1] in (' ', '\n')

    def close(i):
        o, d = code[i][0], 0
        c = {'(': ')', '{': '}', '[': ']'}[o]
        for j in range(i, len(code)):
            if code[j][0] == o:
                d += 1
            elif code[j][0] == c:
                d -= 1
                if not d:
                    return j
        return None
    infn = [False] * len(code)
    d = 0
    stack = []
    for i, (t, p) in enumerate(code):
        if t == '{':
            prev = code[i - 1][0] if i else ''
            stack.append(prev in (')', 'const', 'override', 'else', 'try', '{', ';', '}', ':') or (stack and stack[-1]))
        elif t == '}' and stack:
            stack.pop()
        infn[i] = bool(stack and stack[-1])
    for i, (t, p) in enumerate(code):
        if not infn[i]:
            continue
        e = p + len(t)
        if t in SWAP and (t not in ('<', '>', '+', '-', '|', '&', '*') or sp(p, t)):
            if t in ('<', '>') and code[i - 1][0] in ('vector', 'map', 'set', 'template', 'isa', 'cast', 'dyn_cast'):
                continue
            for x in SWAP[t]:
                out.append((p, e, x, '%s to %s' % (t, x)))
        if t == '!' and code[i + 1][0] != '=':
            out.append((p, e, '', 'drop !'))
        if re.fullmatch(r'\d+', t):
            out.append((p, e, str(int(t) + 1), 'number + 1'))
            if int(t) > 1:
                out.append((p, e, str(int(t) - 1), 'number - 1'))
        if t[0] == '"' and code[i - 1][0] not in ('extern', 'include'):
            out.append((p, e, t[:-1] + '~"', 'text'))
            if len(t) > 2:
                out.append((p, e, '""', 'no text'))
        if t in DROPCALL and code[i - 1][0] in ('->', '.') and code[i + 1][0] == '(' and code[i + 2][0] == ')':
            out.append((code[i - 1][1], code[i + 2][1] + 1, '', 'drop ' + t))
        if t in ('if', 'while') and code[i + 1][0] == '(':
            j = close(i + 1)
            if j:
                out.append((code[i + 1][1] + 1, code[j][1], 'false' if t == 'while' else 'true', t + ' taken'))
                if t == 'if':
                    out.append((code[i + 1][1] + 1, code[j][1], 'false', 'if not taken'))
        if t in ('&&', '||'):
            # drop the operand to the right, or to the left, within the same parentheses
            j, dd = i + 1, 0
            while j < len(code):
                u = code[j][0]
                if u in '([{':
                    dd += 1
                elif u in ')]}':
                    if not dd:
                        break
                    dd -= 1
                elif not dd and u in (';', '&&', '||', ',', '?', ':'):
                    break
                j += 1
            out.append((p, code[j][1], '', 'drop right of ' + t))
            k, dd = i - 1, 0
            while k > 0:
                u = code[k][0]
                if u in ')]}':
                    dd += 1
                elif u in '([{':
                    if not dd:
                        break
                    dd -= 1
                elif not dd and u in (';', '&&', '||', ',', '?', ':', 'return', '='):
                    break
                k -= 1
            out.append((code[k + 1][1], e, '', 'drop left of ' + t))
        if t in (';', '{', '}') and i + 1 < len(code):
            # drop one simple statement
            a = i + 1
            j, dd = a, 0
            while j < len(code):
                u = code[j][0]
                if u in '([':
                    dd += 1
                elif u in ')]':
                    dd -= 1
                elif u in '{}':
                    break
                elif u == ';' and not dd:
                    break
                j += 1
            if j < len(code) and code[j][0] == ';' and j > a and code[a][0] not in ('return', 'if', 'for', 'while', 'else', 'case', 'default', 'using', 'switch', 'do',
                                                                                'public', 'private', 'virtual', 'static', 'friend'):
                st = [x for x, _ in code[a:j]]
                if '(' in st or '=' in st or st[0] in ('break', 'continue') or '++' in st:
                    # a declaration with a type name is not dropped unless it is a call or assignment
                    if not (len(st) > 2 and re.match(r'[A-Za-z_]', st[0]) and (re.match(r'[A-Za-z_*&]', st[1]) or st[1] == '<') and st[0] not in ('delete', 'throw') and '=' in st):
                        out.append((code[a][1], code[j][1] + 1, ';', 'drop statement'))
        if t == 'return' and code[i + 1][0] not in ('true', 'false', ';') and infn[i]:
            j = i + 1
            dd = 0
            while code[j][0] != ';' or dd:
                dd += (code[j][0] in '([{') - (code[j][0] in ')]}')
                j += 1
            ex = text[code[i + 1][1]:code[j][1]]
            if re.search(r'&&|\|\||==|!=|^is|^has|!|<|>', ex):
                out.append((code[i + 1][1], code[j][1], 'true', 'return true'))
                out.append((code[i + 1][1], code[j][1], 'false', 'return false'))
    seen, res = set(), []
    for m in out:
        if m[:3] not in seen:
            seen.add(m[:3])
            res.append(m)
    return res


def checks_for(path):
    import models
    rel = os.path.relpath(path, '/repo')
    m = re.search(r'/([A-Za-z0-9]+)Rule\.cpp$', path)
    if 'oclint-rules/rules' in rel and m:
        for attr, c in (('SIZE', 'C13'), ('EMPTY', 'C14'), ('CONTROL', 'C15'), ('EXPR', 'C16'), ('NAMING', 'C17'), ('CXX', 'C18'), ('OBJC', 'C19')):
            n = re.search(r'name\(\)[^{]*\{\s*return "([^"]*)"', open(path).read())
            n = ''.join(w[:1].upper() + w[1:] for w in re.split(r'[^A-Za-z0-9]+', n.group(1))) if n else ''
            n = {'BaseClassDestructorShouldBeVirtualOrProtected': 'ProblematicBaseClassDestructor', 'ObjCAssignIvarOutsideAccessors': 'AssignIvarOutsideAccessors',
                 'CoveredSwitchStatementsDontNeedDefault': 'MissingDefaultStatement', 'SwitchStatementsShouldHaveDefault': 'MissingDefaultStatement',
                 'DefaultLabelNotLastInSwitchStatement': 'MissingDefaultStatement', 'NPathComplexity': 'HighNPathComplexity'}.get(m.group(1), n)
            if {m.group(1), n} & set(getattr(models, attr)):
                return [c]
        return []
    b = os.path.basename(rel)
    if 'metrics' in rel:
        return ['C12', 'C13']
    return {'SuppressHelper.cpp': ['C07'], 'AttributeHelper.cpp': ['C07', 'C19'], 'ConfigFile.cpp': ['C06', 'C04'], 'Options.cpp': ['C06', 'C05', 'C04'],
            'Driver.cpp': ['C10', 'C11', 'C04', 'C09'], 'DiagnosticDispatcher.cpp': ['C11'], 'RulesetFilter.cpp': ['C05'], 'main.cpp': ['C04', 'C05', 'C03'],
            'UniqueResults.cpp': ['C03'], 'RawResults.cpp': ['C03'], 'AbstractResults.cpp': ['C03'], 'RuleBase.cpp': ['C20', 'C05'], 'RuleConfiguration.cpp': ['C06'],
            'RuleSet.cpp': ['C05', 'C04'], 'RuleCarrier.cpp': ['C03', 'C08', 'C09'], 'ResultCollector.cpp': ['C03', 'C11'], 'CompilerInstance.cpp': ['C10', 'C11'],
            'AbstractASTRuleBase.cpp': ['C08', 'C07'], 'ASTUtil.cpp': ['C13', 'C15', 'C17'], 'EnforceHelper.cpp': ['C19'], 'AbstractSourceCodeReaderRule.cpp': ['C13', 'C08'],
            'reporters.cpp': ['C04'], 'rules.cpp': ['C04'], 'Logger.cpp': ['C10'], 'RulesetBasedAnalyzer.cpp': ['C20', 'C09', 'C10']}.get(b) or \
        (['C01', 'C02'] if 'reporters' in rel and b.endswith('Reporter.cpp') else ['C04', 'C05', 'C06'] if 'dlfcn' in b else [])


def inner(work, tasks, out):
    repo = '/repo'
    sh = lambda *a: subprocess.check_call(a)
    os.makedirs(work + '/ru'); os.makedirs(work + '/rw'); os.makedirs(work + '/vu'); os.makedirs(work + '/vw')
    sh('mount', '-t', 'overlay', 'overlay', '-o', 'lowerdir=/repo,upperdir=%s/ru,workdir=%s/rw' % (work, work), '/repo')
    sh('mount', '-t', 'overlay', 'overlay', '-o', 'lowerdir=%s,upperdir=%s/vu,workdir=%s/vw' % (os.environ.get('MUTATE_LOWER', V), work, work), V)
    os.chdir(V)
    env = dict(os.environ, VERIF_HITS='1', VERIF_SEED='1', VERIF_TIER='quick')
    for t in tasks:
        f = t['file']
        text = open(f).read()
        a, b, rep, kind = t['m']
        open(f, 'w').write(text[:a] + rep + text[b:])
        res, t0 = 'SURVIVED', time.time()
        how = ''
        try:
            for c in t['checks']:
                try:
                    p = subprocess.run(['python3', 'checks/%s.py' % c, '--tier', 'quick'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1500)
                except subprocess.TimeoutExpired:
                    res = 'timeout'
                    break
                o = p.stdout.decode('utf-8', 'replace')
                if p.returncode == 1 and 'VIOLATION property=' in o:
                    res = c
                    how = ([l for l in o.splitlines() if l.startswith('  ')] or [''])[0][:120]
                    break
                if p.returncode:
                    res = 'nocompile' if 'error:' in o or 'ninja' in o else 'odd %d' % p.returncode
                    how = o[-300:]
                    break
        finally:
            open(f, 'w').write(text)
        ln = text.count('\n', 0, a) + 1
        lines = text.split('\n')
        new = (text[:a] + rep + text[b:]).split('\n')
        rec = {'file': os.path.relpath(f, repo), 'line': ln, 'kind': kind, 'old': text[a:b][:200], 'new': rep, 'src': lines[ln - 1].strip(), 'result': res, 'how': how, 's': round(time.time() - t0)}
        with open(out, 'a') as h:
            h.write(json.dumps(rec) + '\n')


def main():
    if os.environ.get('MUTATE_INNER'):
        spec = json.load(open(os.environ['MUTATE_INNER']))
        return inner(spec['work'], spec['tasks'], spec['out'])
    ap = argparse.ArgumentParser()
    ap.add_argument('-j', type=int, default=3)
    ap.add_argument('-n', type=int, default=8)
    ap.add_argument('-s', default='1')
    ap.add_argument('-o', default='/tmp/mutants.jsonl')
    ap.add_argument('-k', help='only kinds matching')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('files', nargs='+')
    A = ap.parse_args()
    done = set()
    if os.path.exists(A.o):
        for l in open(A.o):
            r = json.loads(l)
            done.add((r['file'], r['line'], r['old'], r['new'], r['kind']))
    per = []
    for x in A.files:
        f, _, cs = x.partition(':')
        f = os.path.abspath(f)
        cs = cs.split(',') if cs else checks_for(f)
        if not cs:
            print('no check for', f)
            continue
        text = open(f).read()
        ms = mutants(text)
        if A.k:
            ms = [m for m in ms if re.search(A.k, m[3])]
        r = random.Random('%s %s' % (A.s, f))
        if len(ms) > A.n:
            ms = sorted(r.sample(ms, A.n))
        ms = [m for m in ms if (os.path.relpath(f, '/repo'), text.count('\n', 0, m[0]) + 1, text[m[0]:m[1]][:200], m[2], m[3]) not in done]
        per.append([{'file': f, 'm': m, 'checks': cs} for m in ms])
    if A.list:
        for p in per:
            for t in p:
                text = open(t['file']).read()
                print(os.path.basename(t['file']), text.count('\n', 0, t['m'][0]) + 1, t['m'][3], repr(text[t['m'][0]:t['m'][1]]), t['checks'])
        return
    loads = [[] for _ in range(A.j)]
    for p in sorted(per, key=len, reverse=True):
        min(loads, key=len).extend(p)
    print(sum(map(len, loads)), 'mutants')
    ps, dirs = [], []
    for l in loads:
        if not l:
            continue
        w = tempfile.mkdtemp(prefix='mutate-')
        dirs.append(w)
        json.dump({'work': w, 'tasks': l, 'out': os.path.abspath(A.o)}, open(w + '/spec', 'w'))
        ps.append(subprocess.Popen(['unshare', '-m', 'python3', os.path.abspath(__file__), 'x'], env=dict(os.environ, MUTATE_INNER=w + '/spec')))
    for p in ps:
        p.wait()
    for w in dirs:
        subprocess.call(['rm', '-rf', w])


if __name__ == '__main__':
    main()
