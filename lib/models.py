"""Reference models: what each rule should report, decided over the AST clang built.

Written from the rule documentation and the definitions of the metrics, over the dump made
by harness/plugin_astdump.cpp; shares no code with /repo.  Every model yields
(node, message) or ((sl, sc, el, ec), message).
"""
import re

INTMAX = 2147483647


class TU:
    def __init__(self, doc, text=None):
        self.lang = doc['lang']
        self.main = doc['main']
        self.text = text
        self.nodes = doc['nodes']
        self.by = {}
        self.kids = {}
        # a node met twice (for instance through a typedef'd tag) keeps its first record
        for i, n in enumerate(self.nodes):
            self.by.setdefault(n['i'], n)
        for n in doc['side']:
            self.by.setdefault(n['i'], n)
        seen = set()
        for n in self.nodes:
            key = (n['p'], n['i'])
            if key in seen:
                continue
            seen.add(key)
            self.kids.setdefault(n['p'], []).append(n)
        self.kinds = {}
        for n in self.nodes:
            self.kinds.setdefault(n['k'], []).append(n)

    def __getitem__(self, i):
        return self.by.get(i)

    def get(self, n, role):
        i = n.get(role)
        return self.by.get(i) if i else None

    def all(self, *kinds):
        for k in kinds:
            for n in self.kinds.get(k, ()):
                yield n

    def subtree(self, n):
        """n and everything visited below it"""
        st = [n]
        seen = set()
        while st:
            x = st.pop()
            yield x
            for c in reversed(self.kids.get(x['i'], ())):
                key = (x['i'], c['i'])
                if key not in seen:
                    seen.add(key)
                    st.append(c)

    def body(self, n):
        return [self.by[i] for i in n['body']]


def functions(t):
    for n in t.nodes:
        if n.get('fn') or n.get('objcm'):
            yield n


# ------------------------------------------------------------------ metrics

def ccn(t, fn):
    c = 1
    for n in t.subtree(fn):
        k = n['k']
        if k in ('IfStmt', 'ForStmt', 'ObjCForCollectionStmt', 'CXXForRangeStmt', 'WhileStmt', 'DoStmt',
                 'CaseStmt', 'ObjCAtCatchStmt', 'CXXCatchStmt', 'ConditionalOperator'):
            c += 1
        elif k == 'BinaryOperator' and n['op'] in ('&&', '||'):
            c += 1
    return c


def np_expr(t, e):
    tot, st = 0, [e]
    while st:
        e = st.pop()
        if e is None:
            continue
        k = e['k']
        if k == 'ConditionalOperator':
            tot += 2
            st += [t.get(e, 'cond'), t.get(e, 'tv'), t.get(e, 'fv')]
        elif e.get('binary'):
            if e['op'] in ('&&', '||'):
                tot += 1
                st += [t.get(e, 'l'), t.get(e, 'rr')]
        elif k == 'ParenExpr' or e.get('cast'):
            st.append(t.get(e, 'sub'))
    return tot


def np_stmt(t, s):
    if s is None:
        return 1
    k = s['k']
    if k == 'CompoundStmt':
        r = 1
        for x in t.body(s):
            r *= np_stmt(t, x)
        return r
    if k == 'IfStmt':
        e = t.get(s, 'else')
        return np_expr(t, t.get(s, 'cond')) + np_stmt(t, t.get(s, 'then')) + (np_stmt(t, e) if e else 1)
    if k in ('WhileStmt', 'DoStmt'):
        return np_expr(t, t.get(s, 'cond')) + np_stmt(t, t.get(s, 'body')) + 1
    if k == 'ForStmt':
        return 1 + np_expr(t, t.get(s, 'cond')) + np_expr(t, t.get(s, 'inc')) + np_stmt(t, t.get(s, 'body')) + 1
    if k in ('ObjCForCollectionStmt', 'CXXForRangeStmt'):
        return np_stmt(t, t.get(s, 'body')) + 2
    if k in ('LabelStmt', 'AttributedStmt', 'CaseStmt', 'DefaultStmt'):
        return np_stmt(t, t.get(s, 'sub'))
    if k == 'SwitchStmt':
        r = np_expr(t, t.get(s, 'cond'))
        b = t.get(s, 'body')
        if b['k'] != 'CompoundStmt':
            return r + np_stmt(t, b)
        groups, cur = [], None
        for x in t.body(b):
            if x['k'] in ('CaseStmt', 'DefaultStmt'):
                if cur is not None:
                    groups.append(cur)
                cur = [x]
            elif cur is not None:
                cur.append(x)
        if cur is not None:
            groups.append(cur)
        for g in groups:
            p = 1
            for x in g:
                p *= np_stmt(t, x)
            r += p
        return r
    return 1


def ncss(t, s):
    if s is None:
        return 0
    k = s['k']
    g = lambda r: ncss(t, t.get(s, r))
    if k == 'NullStmt':
        return 0
    if k == 'CompoundStmt':
        return sum(ncss(t, x) for x in t.body(s))
    if k == 'IfStmt':
        return 1 + g('then') + (1 + g('else') if s['else'] else 0)
    if k in ('WhileStmt', 'ForStmt', 'ObjCForCollectionStmt', 'CXXForRangeStmt', 'SwitchStmt',
             'CXXCatchStmt', 'ObjCAtCatchStmt', 'ObjCAtFinallyStmt', 'ObjCAtSynchronizedStmt',
             'ObjCAutoreleasePoolStmt'):
        return 1 + g('body')
    if k == 'DoStmt':
        return 2 + g('body')
    if k in ('CaseStmt', 'DefaultStmt', 'LabelStmt'):
        return 1 + g('sub')
    if k == 'AttributedStmt':
        return g('sub')
    if k == 'CXXTryStmt':
        return 1 + g('try') + sum(ncss(t, t[c]) for c in s['catches'])
    if k == 'ObjCAtTryStmt':
        return 1 + g('try') + sum(ncss(t, t[c]) for c in s['catches']) + g('finally')
    return 1


def depth(t, s):
    if s is None:
        return 0
    k = s['k']
    g = lambda r: depth(t, t.get(s, r))
    if k == 'CompoundStmt':
        return 1 + max([depth(t, x) for x in t.body(s)] or [0])
    if k == 'IfStmt':
        return max(g('then'), g('else'))
    if k in ('WhileStmt', 'DoStmt', 'ForStmt', 'ObjCForCollectionStmt', 'CXXForRangeStmt', 'SwitchStmt',
             'CXXCatchStmt', 'ObjCAtCatchStmt', 'ObjCAtFinallyStmt', 'ObjCAtSynchronizedStmt',
             'ObjCAutoreleasePoolStmt'):
        return g('body')
    if k in ('CaseStmt', 'DefaultStmt', 'LabelStmt', 'AttributedStmt'):
        return g('sub')
    if k == 'CXXTryStmt':
        return max([g('try')] + [depth(t, t[c]) for c in s['catches']])
    if k == 'ObjCAtTryStmt':
        return max([g('try'), g('finally')] + [depth(t, t[c]) for c in s['catches']])
    return 0


R = {}


def rule(name, langs='C+O'):
    def deco(f):
        R[name] = (langs, f)
        return f
    return deco


# ------------------------------------------------------------------ size

@rule('HighCyclomaticComplexity')
def _(t, cfg):
    th = cfg('CYCLOMATIC_COMPLEXITY', 10)
    for f in functions(t):
        v = ccn(t, f)
        if v > th:
            yield f, 'Cyclomatic Complexity Number %d exceeds limit of %d' % (v, th)


@rule('HighNPathComplexity')
def _(t, cfg):
    th = cfg('NPATH_COMPLEXITY', 200)
    for f in functions(t):
        b = t.get(f, 'body')
        if f.get('bk') == 'CompoundStmt':      # of a defaulted function the body is not visited: 1
            v = np_stmt(t, b)
            if v > th:
                yield f, 'NPath Complexity Number %d exceeds limit of %d' % (min(v, INTMAX), th)


@rule('HighNcssMethod')
def _(t, cfg):
    th = cfg('NCSS_METHOD', 30)
    for f in functions(t):
        b = t.get(f, 'body')
        v = 1 + ncss(t, b) if f.get('hasbody') else 0
        if v > th:
            yield f, 'Method of %d non-commenting source statements exceeds limit of %d' % (v, th)


@rule('DeepNestedBlock')
def _(t, cfg):
    th = cfg('NESTED_BLOCK_DEPTH', 5)
    for c in t.all('CompoundStmt'):
        v = depth(t, c)
        if v > th:
            yield c, 'Block depth of %d exceeds limit of %d' % (v, th)


def lines(n):
    if 'x' in n:
        return n['x'][1] - n['x'][0] + 1
    return n['r'][2] - n['r'][0] + 1


@rule('LongClass')
def _(t, cfg):
    th = cfg('LONG_CLASS', 1000)
    what = {'ObjCInterfaceDecl': 'Objective-C interface', 'ObjCCategoryDecl': 'Objective-C category',
            'ObjCProtocolDecl': 'Objective-C protocol', 'ObjCImplementationDecl': 'Objective-C implementation',
            'ObjCCategoryImplDecl': 'Objective-C implementation'}
    for n in t.nodes:
        w = what.get(n['k']) or ('C++ class' if n.get('cxxrec') else None)
        if w and lines(n) > th:
            yield n, '%s with %d lines exceeds limit of %d' % (w, lines(n), th)


@rule('LongLine', 'any')
def _(t, cfg):
    th = cfg('LONG_LINE', 100)
    ls = t.text.split(b'\n')
    if ls and ls[-1] == b'':
        ls.pop()
    for i, l in enumerate(ls):
        if len(l) > th:
            yield (i + 1, 1, i + 1, len(l)), 'Line with %d characters exceeds limit of %d' % (len(l), th)


@rule('LongMethod')
def _(t, cfg):
    th = cfg('LONG_METHOD', 50)
    for f in functions(t):
        if not f.get('hasbody') or 'bl' not in f:
            continue
        if f.get('method') and f.get('inrec'):
            continue
        v = f['bl'][1] - f['bl'][0] + 1
        if v > th:
            yield f, 'Method with %d lines exceeds limit of %d' % (v, th)


@rule('TooManyFields')
def _(t, cfg):
    th = cfg('TOO_MANY_FIELDS', 20)
    for n in t.nodes:
        if n['k'] == 'ObjCInterfaceDecl' and n.get('nivars', 0) > th:
            yield n, 'Objective-C interface with %d fields exceeds limit of %d' % (n['nivars'], th)
        if n.get('cxxrec') and n['nfields'] > th:
            yield n, 'C++ class with %d fields exceeds limit of %d' % (n['nfields'], th)


@rule('TooManyMethods')
def _(t, cfg):
    th = cfg('TOO_MANY_METHODS', 30)
    for n in t.nodes:
        if n['k'] in ('ObjCImplementationDecl', 'ObjCCategoryImplDecl') and len(n['meths']) > th:
            yield n, 'Objective-C implementation with %d methods exceeds limit of %d' % (len(n['meths']), th)
        if n.get('cxxrec') and n['nmethods'] > th:
            yield n, 'C++ class with %d methods exceeds limit of %d' % (n['nmethods'], th)


@rule('TooManyParameters')
def _(t, cfg):
    th = cfg('TOO_MANY_PARAMETERS', 10)
    for f in functions(t):
        if f.get('hasbody') and len(f['params']) > th:
            yield f, 'Method with %d parameters exceeds limit of %d' % (len(f['params']), th)


# ------------------------------------------------------------------ empty

def is_empty(s):
    return s is not None and (s['k'] == 'NullStmt' or s['k'] == 'CompoundStmt' and not s['body'])


def empty_rule(name, roles):
    @rule(name)
    def f(t, cfg):
        for k, role in roles:
            for n in t.all(k):
                s = t.get(n, role)
                if is_empty(s):
                    yield s, ''


empty_rule('EmptyIfStatement', [('IfStmt', 'then')])
empty_rule('EmptyElseBlock', [('IfStmt', 'else')])
empty_rule('EmptyWhileStatement', [('WhileStmt', 'body')])
empty_rule('EmptyDoWhileStatement', [('DoStmt', 'body')])
empty_rule('EmptyForStatement', [('ForStmt', 'body'), ('ObjCForCollectionStmt', 'body'), ('CXXForRangeStmt', 'body')])
empty_rule('EmptySwitchStatement', [('SwitchStmt', 'body')])
empty_rule('EmptyTryStatement', [('CXXTryStmt', 'try'), ('ObjCAtTryStmt', 'try')])
empty_rule('EmptyCatchStatement', [('CXXCatchStmt', 'body'), ('ObjCAtCatchStmt', 'body')])
empty_rule('EmptyFinallyStatement', [('ObjCAtFinallyStmt', 'body')])


# ------------------------------------------------------------------ control flow

@rule('CollapsibleIfStatements')
def _(t, cfg):
    for n in t.all('IfStmt'):
        th = t.get(n, 'then')
        if th['k'] == 'CompoundStmt' and len(th['body']) == 1:
            th = t.body(th)[0]
        if th['k'] == 'IfStmt' and not n['else'] and not th['else']:
            yield n, ''


@rule('ConstantIfExpression')
def _(t, cfg):
    for n in t.all('IfStmt'):
        if 'const' in n:
            yield t.get(n, 'cond'), ''


@rule('ConstantConditionalOperator')
def _(t, cfg):
    for n in t.all('ConditionalOperator'):
        if 'const' in n:
            yield t.get(n, 'cond'), ''


NO, RESTART, EXIT, FULL = range(4)


def exit_type(t, s):
    k = s['k']
    if k == 'BreakStmt':
        return EXIT
    if k == 'ContinueStmt':
        return RESTART
    if k in ('ReturnStmt', 'GotoStmt', 'CXXThrowExpr', 'ObjCAtThrowStmt'):
        return FULL
    if k in ('CaseStmt', 'DefaultStmt', 'ExprWithCleanups'):
        return exit_type(t, t.get(s, 'sub'))
    if k == 'CompoundStmt':
        for x in t.body(s):
            e = exit_type(t, x)
            if e:
                return e
        return NO
    if k == 'IfStmt' and s['else']:
        a, b = exit_type(t, t.get(s, 'then')), exit_type(t, t.get(s, 'else'))
        return NO if NO in (a, b) else a if a == b else EXIT if EXIT in (a, b) else FULL
    return NO


@rule('DeadCode')
def _(t, cfg):
    for n in t.all('CompoundStmt'):
        prev = None
        for x in t.body(n):
            if prev is not None and exit_type(t, prev) and x['k'] not in ('CaseStmt', 'DefaultStmt', 'LabelStmt'):
                yield x, ''
                break
            prev = x


@rule('ForLoopShouldBeWhileLoop')
def _(t, cfg):
    for n in t.all('ForStmt'):
        if not n['init'] and not n['inc'] and n['cond']:
            yield n, ''


@rule('GotoStatement')
def _(t, cfg):
    for n in t.all('GotoStmt'):
        yield n, ''


@rule('JumbledIncrementer')
def _(t, cfg):
    for n in t.all('ForStmt'):
        b = t.get(n, 'body')
        if b['k'] == 'CompoundStmt' and len(b['body']) == 1:
            b = t.body(b)[0]
        if b['k'] != 'ForStmt':
            continue
        i, inc = t.get(n, 'init'), t.get(b, 'inc')
        if i is None or inc is None or i['k'] != 'DeclStmt' or len(i['decls']) != 1 or not inc.get('unary'):
            continue
        s = t.get(inc, 'sub')
        if s['k'] == 'DeclRefExpr' and s['d'] == i['decls'][0]:
            yield inc, ''


@rule('ReturnFromFinallyBlock')
def _(t, cfg):
    for n in t.all('ObjCAtFinallyStmt'):
        for x in t.subtree(n):
            if x['k'] == 'ReturnStmt':
                yield x, ''


@rule('ThrowExceptionFromFinallyBlock', 'O')
def _(t, cfg):
    for n in t.all('ObjCAtFinallyStmt'):
        for x in t.subtree(n):
            if x['k'] == 'ObjCAtThrowStmt':
                yield x, ''
            elif x['k'] == 'ObjCMessageExpr' and x['sel'] in ('raise', 'raise:format:', 'raise:format:arguments:') \
                    and x['ri'] and t[x['ri']]['n'] == 'NSException':
                yield x, ''


@rule('AvoidBranchingStatementAsLastInLoop')
def _(t, cfg):
    for n in t.all('ForStmt', 'CXXForRangeStmt', 'ObjCForCollectionStmt', 'DoStmt', 'WhileStmt'):
        b = t.get(n, 'body')
        if b['k'] == 'CompoundStmt' and b['body']:
            l = t.body(b)[-1]
            if l['k'] in ('BreakStmt', 'ContinueStmt', 'ReturnStmt'):
                yield l, ''


def own_cases(t, n):
    return [t[c] for c in reversed(n['cases'])]     # in source order


@rule('UnnecessaryDefaultStatement')
def _(t, cfg):
    for n in t.all('SwitchStmt'):
        if n.get('allenum') and any(c['k'] == 'DefaultStmt' for c in own_cases(t, n)):
            yield n, ''


@rule('MissingDefaultStatement')
def _(t, cfg):
    for n in t.all('SwitchStmt'):
        if not n.get('allenum') and not any(c['k'] == 'DefaultStmt' for c in own_cases(t, n)):
            yield n, ''


@rule('MisplacedDefaultLabel')
def _(t, cfg):
    for n in t.all('SwitchStmt'):
        cs = own_cases(t, n)
        for i, c in enumerate(cs):
            if c['k'] == 'DefaultStmt' and i + 1 < len(cs):
                yield c, ''


def has_exit(t, n):
    return any(x['k'] in ('BreakStmt', 'ReturnStmt', 'ContinueStmt', 'CXXThrowExpr', 'ObjCAtThrowStmt')
               for x in t.subtree(n))


@rule('MissingBreakInSwitchStatement')
def _(t, cfg):
    for n in t.all('SwitchStmt'):
        b = t.get(n, 'body')
        if b['k'] != 'CompoundStmt':
            continue
        # groups of statements, each led by its labels
        groups = []
        for x in t.body(b):
            if x['k'] in ('CaseStmt', 'DefaultStmt'):
                groups.append([x])
            elif groups:
                groups[-1].append(x)
        bad = False
        for g in groups:
            ok = has_exit(t, g[0])
            for x in g[1:]:
                if x['k'] in ('BreakStmt', 'ReturnStmt', 'CXXThrowExpr', 'ContinueStmt', 'ObjCAtThrowStmt'):
                    ok = True
                elif x['k'] in ('ExprWithCleanups', 'CompoundStmt') and has_exit(t, x):
                    ok = True
            if not ok:
                bad = True
        if bad:
            yield n, ''


@rule('NonCaseLabelInSwitchStatement')
def _(t, cfg):
    for n in t.all('SwitchStmt'):
        for x in t.subtree(n):
            if x['k'] == 'LabelStmt':
                yield x, ''


@rule('TooFewBranchesInSwitchStatement')
def _(t, cfg):
    th = cfg('MINIMUM_CASES_IN_SWITCH', 3)
    for n in t.all('SwitchStmt'):
        if sum(1 for c in own_cases(t, n) if c['k'] == 'CaseStmt') < th:
            yield n, ''


@rule('InvertedLogic')
def _(t, cfg):
    for n in t.all('IfStmt', 'ConditionalOperator'):
        if n['k'] == 'IfStmt' and not n['else']:
            continue
        c = t.get(n, 'cond')
        if c and (c.get('binary') and c['op'] == '!=' or c.get('unary') and c['op'] == '!'):
            yield c, ''


@rule('PreferEarlyExit')
def _(t, cfg):
    th = cfg('MAXIMUM_IF_LENGTH', 15)
    msg = 'Use early exit/continue to simplify code and reduce indentation'

    def long_if(s):
        return s is not None and s['k'] == 'IfStmt' and not s['else'] and lines(s) > th
    for n in t.all('CompoundStmt'):
        b = t.body(n)
        if len(b) >= 2 and b[-1]['k'] in ('BreakStmt', 'ContinueStmt', 'GotoStmt', 'IndirectGotoStmt', 'ReturnStmt') \
                and long_if(b[-2]):
            yield b[-2], msg
    for n in t.all('ForStmt', 'CXXForRangeStmt', 'ObjCForCollectionStmt', 'WhileStmt', 'DoStmt'):
        b = t.get(n, 'body')
        if b['k'] == 'CompoundStmt':
            b = t.body(b)[-1] if b['body'] else None
        if long_if(b):
            yield b, msg


def all_return(t, s):
    if s is None:
        return False
    if s['k'] == 'CompoundStmt':
        return any(all_return(t, x) for x in t.body(s))
    if s['k'] == 'IfStmt':
        return all_return(t, t.get(s, 'then')) and all_return(t, t.get(s, 'else'))
    return s['k'] == 'ReturnStmt'


@rule('UnnecessaryElseStatement')
def _(t, cfg):
    chained = set()
    for n in t.all('IfStmt'):
        e = t.get(n, 'else')
        if e and e['k'] == 'IfStmt':
            chained.add(e['i'])
    for n in t.all('IfStmt'):
        if n['i'] in chained:
            continue
        ok, cur = True, n
        while True:
            ok = ok and all_return(t, t.get(cur, 'then'))
            e = t.get(cur, 'else')
            if e is None or e['k'] != 'IfStmt':
                break
            cur = e
        if e is not None and ok:
            yield e, ''


def only(t, s, pred):
    """s itself, or the only statement of the block(s) s is"""
    while s is not None:
        if pred(s):
            return s
        if s['k'] != 'CompoundStmt' or len(s['body']) != 1:
            return None
        s = t.body(s)[0]
    return None


def opposite(t, a, b):
    if a is None or b is None or a['k'] != b['k']:
        return False
    if a['k'] in ('CXXBoolLiteralExpr', 'ObjCBoolLiteralExpr'):
        return bool(a['v']) != bool(b['v'])
    if a['k'] == 'CStyleCastExpr':
        x, y = t.get(a, 'sub'), t.get(b, 'sub')
        return x['k'] == y['k'] == 'IntegerLiteral' and (x['v'] != '0') != (y['v'] != '0')
    return False


@rule('RedundantIfStatement')
def _(t, cfg):
    for n in t.all('IfStmt'):
        a, b = t.get(n, 'then'), t.get(n, 'else')
        isret = lambda s: s['k'] == 'ReturnStmt'
        isbin = lambda s: s.get('binary')
        r1, r2 = only(t, a, isret), only(t, b, isret)
        b1, b2 = only(t, a, isbin), only(t, b, isbin)
        if r1 and r2 and opposite(t, t.get(r1, 'val'), t.get(r2, 'val')) or \
                b1 and b2 and opposite(t, t.get(b1, 'rr'), t.get(b2, 'rr')):
            yield n, ''


# ------------------------------------------------------------------ expressions

def is_bitop(n):
    return n.get('binary') and n['op'] in ('&', '|', '^')


@rule('BitwiseOperatorInConditional')
def _(t, cfg):
    for n in t.all('IfStmt', 'WhileStmt', 'DoStmt', 'ConditionalOperator'):
        c = t.get(n, 'cond')
        if c is not None and any(is_bitop(x) for x in t.subtree(c)):
            yield c, ''


def strip_implicit_ident(t, e):
    """name of the variable in `p` as it appears where its (pointer) value is used"""
    while e is not None and e['k'] == 'ImplicitCastExpr' and e['ck'] == 'PointerToBoolean':
        e = t.get(e, 'sub')
    if e is None or e['k'] != 'ImplicitCastExpr':
        return ''
    s = t.get(e, 'sub')
    return s['n'] if s is not None and s['k'] == 'DeclRefExpr' else ''


def is_null(t, e):
    if e is None or e['k'] != 'ImplicitCastExpr':
        return False
    if e['ck'] == 'NullToPointer':
        return True
    if e['ck'] == 'BitCast':
        s = t.get(e, 'sub')
        while s is not None and s['k'] == 'ParenExpr':
            s = t.get(s, 'sub')
        return s is not None and s['k'] == 'CStyleCastExpr' and s['ck'] == 'NullToPointer'
    return False


def ptr_truth(t, e):
    if e is None or e['k'] != 'ImplicitCastExpr':
        return False
    if e['ck'] == 'PointerToBoolean':
        return True
    if e['ck'] == 'LValueToRValue':
        s = t.get(e, 'sub')
        return s['k'] == 'DeclRefExpr'
    return False


def null_check(t, e):
    """('eq'|'ne', variable) if e tests a variable for null / not null"""
    if e is None:
        return None, ''
    if e.get('binary'):
        a, b = t.get(e, 'l'), t.get(e, 'rr')
        if is_null(t, a) != is_null(t, b) and e['op'] in ('==', '!='):
            v = b if is_null(t, a) else a
            return ('eq' if e['op'] == '==' else 'ne'), strip_implicit_ident(t, v)
        return None, ''
    if e.get('unary') and e['op'] == '!':
        s = t.get(e, 'sub')
        if ptr_truth(t, s):
            return 'eq', strip_implicit_ident(t, s)
        return None, ''
    if ptr_truth(t, e):
        return 'ne', strip_implicit_ident(t, e)
    return None, ''


def derefs(t, e, var):
    """e contains var->member"""
    return any(x['k'] == 'MemberExpr' and x.get('arrow') and strip_implicit_ident(t, t.get(x, 'base')) == var
               for x in t.subtree(e))


def messages(t, e, var):
    """e contains [var message]"""
    return any(x['k'] == 'ObjCMessageExpr' and strip_implicit_ident(t, t.get(x, 'recv')) == var
               for x in t.subtree(e))


def nullrule(name, langs, check_side, use_side, bad, uses):
    @rule(name, langs)
    def f(t, cfg):
        for n in t.nodes:
            if n.get('binary') and n['op'] in ('&&', '||'):
                kind, var = null_check(t, t.get(n, check_side))
                if var and (n['op'], kind) in bad and uses(t, t.get(n, use_side), var):
                    yield n, ''


nullrule('BrokenNullCheck', 'C+', 'l', 'rr', {('||', 'ne'), ('&&', 'eq')}, derefs)
nullrule('BrokenNilCheck', 'O', 'l', 'rr', {('||', 'ne'), ('&&', 'eq')}, messages)
nullrule('MisplacedNullCheck', 'C+', 'rr', 'l', {('&&', 'ne'), ('||', 'eq')}, derefs)
nullrule('MisplacedNilCheck', 'O', 'rr', 'l', {('&&', 'ne'), ('||', 'eq')}, messages)


@rule('RedundantNilCheck', 'O')
def _(t, cfg):
    for n in t.nodes:
        if n.get('binary') and n['op'] == '&&':
            kind, var = null_check(t, t.get(n, 'l'))
            r = t.get(n, 'rr')
            if kind == 'ne' and var and not (r.get('unary') and r['op'] == '!') and messages(t, r, var):
                yield n, ''


@rule('BrokenOddnessCheck')
def _(t, cfg):
    def lit(e, v):
        return e['k'] == 'IntegerLiteral' and e['v'] == v

    def rem2(e):
        return e.get('binary') and e['op'] == '%' and lit(t.get(e, 'rr'), '2')
    for n in t.nodes:
        if n.get('binary') and n['op'] == '==':
            a, b = t.get(n, 'l'), t.get(n, 'rr')
            if lit(b, '1') and rem2(a) or lit(a, '1') and rem2(b):
                yield n, ''


def unary_pair(t, n):
    if not n.get('unary'):
        return None
    s = t.get(n, 'sub')
    while s is not None and s['k'] == 'ParenExpr':
        s = t.get(s, 'sub')
    return s if s is not None and s.get('unary') else None


@rule('DoubleNegative')
def _(t, cfg):
    for n in t.nodes:
        s = unary_pair(t, n)
        if s and n['op'] == s['op'] and n['op'] in ('!', '~'):
            yield n, ''


@rule('MultipleUnaryOperator')
def _(t, cfg):
    for n in t.nodes:
        s = unary_pair(t, n)
        if s and n['op'] in ('!', '~', '+', '-') and s['op'] in ('!', '~', '+', '-'):
            yield n, ''


@rule('UselessParentheses')
def _(t, cfg):
    for n in t.nodes:
        e = None
        if n['k'] == 'IfStmt':
            e = t.get(n, 'cond')
        elif n['k'] == 'ReturnStmt':
            e = t.get(n, 'val')
        elif n.get('var'):
            e = t.get(n, 'init')
        if e is not None and e['k'] == 'ParenExpr':
            yield e, ''


def strip_impl(t, e):
    while e['k'] == 'ImplicitCastExpr':
        e = t.get(e, 'sub')
    return e


@rule('RedundantConditionalOperator')
def _(t, cfg):
    for n in t.all('ConditionalOperator'):
        a, b = t.get(n, 'tv'), t.get(n, 'fv')
        hit = False
        if a['k'] == b['k'] and a['k'] in ('CXXBoolLiteralExpr',):
            hit = True
        elif a['k'] == b['k'] and a['k'] in ('IntegerLiteral', 'FloatingLiteral', 'CharacterLiteral'):
            hit = a['v'] == b['v'] if a['k'] != 'FloatingLiteral' else float.fromhex(a['v']) == float.fromhex(b['v'])
        if a['k'] == 'ImplicitCastExpr' and b['k'] == 'ImplicitCastExpr':
            x, y = t.get(a, 'sub'), t.get(b, 'sub')
            if x['k'] == y['k']:
                if x['k'] == 'ObjCBoolLiteralExpr':
                    hit = True
                elif x['k'] == 'CStyleCastExpr':
                    hit = t.get(x, 'sub')['k'] == t.get(y, 'sub')['k'] == 'IntegerLiteral'
        x, y = strip_impl(t, a), strip_impl(t, b)
        if x['k'] == y['k'] == 'StringLiteral':
            hit = x['v'] == y['v']
        if x['k'] == y['k'] == 'DeclRefExpr' and x['d'] == y['d']:
            hit = True
        if hit:
            yield n, ''


@rule('ParameterReassignment')
def _(t, cfg):
    for f in functions(t):
        params = set(f['params'])
        if not any(t[p]['n'] for p in params if t[p]):
            continue
        for x in t.subtree(f):
            if x.get('binary') and x['op'] == '=':
                l = t.get(x, 'l')
                if l['k'] == 'DeclRefExpr' and l['d'] in params:
                    yield x, ''


def strip_casts(t, e):
    while e.get('cast'):
        e = t.get(e, 'sub')
    return e


def null_ptr_expr(t, e):
    while e.get('cast'):
        if e['ck'] == 'NullToPointer':
            return True
        e = t.get(e, 'sub')
    return False


@rule('UnnecessaryNullCheckForDealloc', '+')
def _(t, cfg):
    for n in t.all('IfStmt'):
        c = t.get(n, 'cond')
        if n['else'] or c is None:
            continue
        if c.get('binary'):
            if c['op'] != '!=':
                continue
            a, b = t.get(c, 'l'), t.get(c, 'rr')
            if null_ptr_expr(t, a):
                p = strip_casts(t, b)
            elif null_ptr_expr(t, b):
                p = strip_casts(t, a)
            else:
                continue
        else:
            p = strip_casts(t, c)

        def deletes(s):
            return s['k'] == 'CXXDeleteExpr' and strip_casts(t, t.get(s, 'arg'))['prof'] == p['prof']
        th = t.get(n, 'then')
        if deletes(th):
            yield n, ''
        elif th['k'] == 'CompoundStmt' and len(th['body']) in (1, 2):
            b = t.body(th)
            if deletes(b[0]) and (len(b) == 1 or b[1].get('binary') and b[1]['op'] == '=' and
                                  null_ptr_expr(t, t.get(b[1], 'rr')) and
                                  strip_casts(t, t.get(b[1], 'l'))['prof'] == p['prof']):
                yield n, ''


# ------------------------------------------------------------------ naming, unused

@rule('LongVariableName')
def _(t, cfg):
    th = cfg('LONG_VARIABLE_NAME', 20)
    for n in t.nodes:
        if n.get('var') and len(n['n']) > th:
            nm = n['n']
            if len(nm) > th + 10:
                nm = nm[:max(th + 3, 0)] + '...' + nm[-3:]
            yield n, 'Length of variable name `%s` is %d, which is longer than the threshold of %d' % (nm, len(n['n']), th)


def exempt_short(t):
    ex = set()
    for n in t.nodes:
        k = n['k']
        d = None
        if k == 'ForStmt':
            d = t.get(n, 'init')
        elif k == 'ObjCForCollectionStmt':
            d = t.get(n, 'elem')
        elif k == 'CXXForRangeStmt':
            ex.add(n['lv'])
        elif k == 'CXXCatchStmt':
            ex.add(n['ex'])
        if d is not None and d['k'] == 'DeclStmt':
            ex.update(d['decls'])
    return ex


@rule('ShortVariableName')
def _(t, cfg):
    th = cfg('SHORT_VARIABLE_NAME', 3)
    ex = exempt_short(t)
    for n in t.nodes:
        if n.get('var') and 0 < len(n['n']) < th and n['i'] not in ex:
            yield n, 'Length of variable name `%s` is %d, which is shorter than the threshold of %d' % (n['n'], len(n['n']), th)


@rule('UnusedLocalVariable')
def _(t, cfg):
    raii = set(re.split('[,; \t]+', cfg('RAII_DEFAULT_CLASSES', 'std::lock_guard, std::unique_lock')) +
               re.split('[,; \t]+', cfg('RAII_CUSTOM_CLASSES', '')))
    for n in t.nodes:
        if not n.get('var') or not n.get('local') or n.get('sdm') or not n['n'] or n.get('used') or n.get('refd'):
            continue
        f = t[n['ldc']]
        if f is not None and f.get('fn') and f['tk'] != 0:
            continue
        ty = n['ct'].split('<')[0].split(' ')[-1]
        if ty and ty in raii:
            continue
        yield n, "The local variable '%s' is unused." % n['n']


def objc_contract(t, m):
    """the method's signature is given by a superclass or protocol of its class"""
    if m['dck'] in ('ObjCInterface', 'ObjCProtocol', 'ObjCCategory'):
        return True
    i = t[m['iface']]
    if i is None:
        return False
    s = t[i.get('super', 0)]
    return bool(s and lookup_inst(t, s, m['sel'])) or any(proto_inst(t, t[p], m['sel']) for p in i.get('protos', ()))


def lookup_inst(t, i, sel, seen=None):
    """instance method `sel` declared by class i, its categories, protocols or superclasses"""
    while i is not None:
        d = t[i.get('canon', i['i'])] or i
        for c in [d] + [t[x] for x in d.get('cats', ())]:
            if any(t[m]['sel'] == sel and t[m].get('inst') for m in c.get('meths', ())):
                return True
            if any(proto_inst(t, t[p], sel) for p in c.get('protos', ())):
                return True
        i = t[d.get('super', 0)]
    return False


def proto_inst(t, p, sel):
    if p is None:
        return False
    p = t[p.get('canon', p['i'])] or p
    return any(t[m]['sel'] == sel and t[m].get('inst') for m in p.get('meths', ())) or \
        any(proto_inst(t, t[q], sel) for q in p.get('protos', ()))


@rule('UnusedMethodParameter')
def _(t, cfg):
    for n in t.nodes:
        if n['k'] != 'ParmVarDecl' or not n['n'] or n.get('used') or n.get('a_unused'):
            continue
        f = t[n['ldc']]
        if f is not None and f.get('fn') and f['tk'] != 0:
            continue
        skip, c, hops = False, f, 0
        while c is not None and hops < 100:
            k = c['k']
            if c.get('fn') and (not c.get('thisbody') or not c.get('hasbody')):
                skip = True
            if k == 'BlockDecl' or k == 'CapturedDecl' or c.get('cxxrec') or c.get('virtual'):
                skip = True
            if c.get('fn') and c['dck'] == 'CXXRecord' and t[c['dc']] is not None and t[c['dc']].get('lambda'):
                skip = True
            if c.get('objcm') and (objc_contract(t, c) or c.get('a_ibaction')):
                skip = True
            c = t[c.get('ldc', 0)]
            hops += 1
        if not skip:
            yield n, "The parameter '%s' is unused." % n['n']


@rule('RedundantLocalVariable')
def _(t, cfg):
    for n in t.all('CompoundStmt'):
        b = t.body(n)
        if len(b) < 2 or b[-1]['k'] != 'ReturnStmt' or b[-2]['k'] != 'DeclStmt' or len(b[-2]['decls']) != 1:
            continue
        v = t.get(b[-1], 'val')
        if v is None or v['k'] != 'ImplicitCastExpr':
            continue
        r = t.get(v, 'sub')
        d = t[b[-2]['decls'][0]]
        if r['k'] == 'DeclRefExpr' and d is not None and r['d'] == d['i']:
            yield d, ''


# ------------------------------------------------------------------ C++ classes

def public_nonvirtual_bases(t, c, child):
    for acc, bid in c.get('bases', ()):
        b = t[bid]
        if acc != 0 or b is None or not b.get('hasdef'):
            continue
        d = b.get('dtor')
        if not (d and (d[0] or d[1] == 1)):
            yield b, '~%s() should be protected or virtual according to class %s' % (b['n'], child['n'])
        if not b.get('poly'):
            for x in public_nonvirtual_bases(t, b, child):
                yield x


@rule('ProblematicBaseClassDestructor', '+')
def _(t, cfg):
    for n in t.nodes:
        if n.get('cxxrec') and n.get('hasdef') and n.get('poly'):
            for x in public_nonvirtual_bases(t, n, n):
                yield x


@rule('DestructorOfVirtualClass', '+')
def _(t, cfg):
    for n in t.nodes:
        if n.get('cxxrec') and n.get('hasdef') and n.get('poly') and not (n.get('dtor') and n['dtor'][0]):
            yield n, 'class %s should have a virtual destructor ~%s()' % (n['n'], n['n'])


@rule('AvoidDefaultArgumentsOnVirtualMethods', '+')
def _(t, cfg):
    for n in t.nodes:
        if n.get('method') and n.get('virtual') and any(n['pdef']):
            yield n, ''


@rule('AvoidPrivateStaticMembers')
def _(t, cfg):
    for n in t.nodes:
        if n.get('acc') == 2 and (n.get('sdm') or n.get('method') and n.get('static')):
            yield n, ''


# ------------------------------------------------------------------ Objective-C

def annotated(d, text):
    """(found, comment) for an annotation `text` possibly followed by [comment]"""
    for a in d.get('ann', ()) if d else ():
        if a.startswith(text):
            c = ''
            i = a.find('[', len(text))
            if i >= 0 and a.endswith(']'):
                c = a[i + 1:-1]
            return True, c
    return False, ''


def enforced(t, d, what):
    text = 'oclint:enforce[%s]' % what
    if d is None:
        return False, ''
    r = annotated(d, text)
    if r[0] or not d.get('objcm'):
        return r
    if d.get('accessor') and d.get('prop'):
        r = annotated(t[d['prop']], text)
        if r[0]:
            return r
    if d['dck'] == 'ObjCProtocol' or d['dck'] == 'ObjCCategory':
        return r
    i = t[d['iface']]
    if i is None:
        return False, ''
    i = t[i.get('canon', i['i'])] or i
    for c in i.get('cats', ()):
        for m in t[c].get('meths', ()):
            if t[m]['sel'] == d['sel'] and bool(t[m].get('inst')) == bool(d.get('inst')):
                r = enforced(t, t[m], what)
                if r[0]:
                    return r
    return False, ''


@rule('MissingHashMethod', 'O')
def _(t, cfg):
    for n in t.all('ObjCImplementationDecl'):
        s = {t[m]['sel'] for m in n['meths'] if t[m].get('inst')}
        if 'isEqual:' in s and 'hash' not in s:
            yield n, 'If you override isEqual you must override hash too.'


@rule('MissingCallToBaseMethod', 'O')
def _(t, cfg):
    for n in t.nodes:
        if n.get('objcm') and n.get('hasbody') and any(enforced(t, t[o], 'base method')[0] for o in n['ov']):
            if not any(x['k'] == 'ObjCMessageExpr' and x['sel'] == n['sel'] and x['rk'] in (2, 3) for x in t.subtree(n)):
                yield n, 'overridden method %s must call super' % n['sel']


@rule('CallingProhibitedMethod')
def _(t, cfg):
    for n in t.nodes:
        if n.get('call'):
            f, c = enforced(t, t.get(n, 'callee'), 'prohibited method')
            what = 'function ' + n.get('n', '')
        elif n['k'] == 'ObjCMessageExpr':
            f, c = enforced(t, t.get(n, 'md'), 'prohibited method')
            what = 'method ' + n['sel']
        else:
            continue
        if f:
            yield n, 'calling prohibited ' + what + (' instead use ' + c if c else '')


def is_kind_of(t, i, name):
    while i is not None:
        if i['n'] == name:
            return True
        d = t[i.get('canon', i['i'])] or i
        i = t[d.get('super', 0)]
    return False


@rule('CallingProtectedMethod', 'O')
def _(t, cfg):
    for n in t.all('ObjCImplementationDecl'):
        me = t[n['iface']]
        if me is None:
            continue
        for x in t.subtree(n):
            if x['k'] != 'ObjCMessageExpr' or not enforced(t, t.get(x, 'md'), 'protected method')[0]:
                continue
            ri = t[x['ri']]
            if ri is None or is_kind_of(t, me, ri['n']):
                continue
            src = t[t[x['md']]['iface']]
            yield x, 'calling protected method %s from outside %s and its subclasses' % (
                x['sel'], src['n'] if src else t[t[x['md']]['dc']]['n'])


@rule('MissingAbstractMethodImplementation', 'O')
def _(t, cfg):
    for n in t.all('ObjCImplementationDecl'):
        i = t[n['iface']]
        i = i and (t[i.get('canon', i['i'])] or i)
        p = t[i.get('super', 0)] if i else None
        if p is None:
            continue
        p = t[p.get('canon', p['i'])] or p
        have = {(t[m]['sel'], bool(t[m].get('inst'))) for m in n['meths']}
        for m in p.get('meths', ()):
            m = t[m]
            if enforced(t, m, 'abstract method')[0] and (m['sel'], bool(m.get('inst'))) not in have:
                yield n, 'subclasses of %s must implement %s' % (p['n'], m['sel'])


@rule('AssignIvarOutsideAccessors')
def _(t, cfg):
    for m in t.nodes:
        if not m.get('objcm'):
            continue
        for x in t.subtree(m):
            if not x.get('binary') or x['op'] not in ('=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='):
                continue
            for y in t.subtree(t.get(x, 'l')):
                if y['k'] == 'ObjCIvarRefExpr':
                    g = y['n'].replace('_', '')
                    s = 'set' + g[:1].upper() + g[1:] + ':'
                    if m['sel'] not in (g, s) and not m['sel'].startswith('init'):
                        yield y, ''


NUM = {'numberWithChar:': 'char', 'numberWithInt:': 'int', 'numberWithUnsignedInt:': 'unsigned int',
       'numberWithLong:': 'long', 'numberWithUnsignedLong:': 'unsigned long', 'numberWithLongLong:': 'long long',
       'numberWithUnsignedLongLong:': 'unsigned long long', 'numberWithFloat:': 'float', 'numberWithDouble:': 'double'}


@rule('UseBoxedExpression', 'O')
def _(t, cfg):
    for n in t.all('ObjCMessageExpr'):
        ri = t[n['ri']]
        if ri is None or len(n['args']) != 1:
            continue
        a, sel = t[n['args'][0]], n['sel']
        sub = t.get(a, 'sub') if a['k'] == 'ImplicitCastExpr' else None
        hit = False
        if ri['n'] == 'NSNumber':
            hit = a['k'] == 'ParenExpr' and NUM.get(sel) == a['t'] or \
                sel == 'numberWithBool:' and sub is not None and a['t'] == 'BOOL' and sub['k'] == 'ParenExpr' or \
                sel == 'numberWithInt:' and a['k'] == 'DeclRefExpr' and a['t'] == 'int' and a['dk'] == 'EnumConstant'
        elif ri['n'] == 'NSString' and sel == 'stringWithUTF8String:' and sub is not None:
            hit = a['t'] == 'const char *' and sub['t'] == 'char *' and (sub.get('call') or sub['k'] == 'ParenExpr')
        if hit:
            yield n, ''


@rule('UseContainerLiteral', 'O')
def _(t, cfg):
    S = {'NSArray': ('array', 'arrayWithObject:', 'arrayWithObjects:count:', 'arrayWithObjects:'),
         'NSDictionary': ('dictionary', 'dictionaryWithObject:forKey:', 'dictionaryWithObjects:forKeys:count:',
                          'dictionaryWithObjectsAndKeys:', 'dictionaryWithObjects:forKeys:')}
    for n in t.all('ObjCMessageExpr'):
        ri = t[n['ri']]
        if ri is not None and n['sel'] in S.get(ri['n'], ()):
            yield n, ''


@rule('UseNumberLiteral', 'O')
def _(t, cfg):
    for n in t.all('ObjCMessageExpr'):
        ri = t[n['ri']]
        if ri is None or ri['n'] != 'NSNumber' or len(n['args']) != 1:
            continue
        a, sel = t[n['args'][0]], n['sel']
        hit = False
        if sel == 'numberWithChar:':
            hit = a['k'] == 'ImplicitCastExpr' and t.get(a, 'sub')['k'] == 'CharacterLiteral'
        elif sel == 'numberWithBool:':
            if a['k'] == 'ParenExpr':
                s = t.get(a, 'sub')
                hit = s['k'] == 'CStyleCastExpr' and s['t'] == 'BOOL' and t.get(s, 'sub')['k'] == 'IntegerLiteral'
            else:
                hit = a['k'] == 'ObjCBoolLiteralExpr'
        elif sel in ('numberWithFloat:', 'numberWithDouble:'):
            hit = a['k'] == 'FloatingLiteral' and a['t'] == NUM[sel]
        elif sel in NUM:
            hit = a['k'] == 'IntegerLiteral' and a['t'] == NUM[sel]
        if hit:
            yield n, ''


@rule('UseObjectSubscripting', 'O')
def _(t, cfg):
    S = {'NSArray *': ('objectAtIndex:', 'objectAtIndexedSubscript:'),
         'NSMutableArray *': ('replaceObjectAtIndex:withObject:', 'setObject:atIndexedSubscript:'),
         'NSDictionary *': ('objectForKey:', 'objectForKeyedSubscript:'),
         'NSMutableDictionary *': ('setObject:forKey:', 'setObject:forKeyedSubscript:')}
    for n in t.all('ObjCMessageExpr'):
        r = t.get(n, 'recv')
        if r is not None and r['k'] == 'ImplicitCastExpr' and n['sel'] in S.get(r['t'], ()):
            yield n, ''


@rule('FeatureEnvy')
def _(t, cfg):
    for m in t.nodes:
        if not m.get('objcm') or m['dck'] == 'ObjCProtocol' or t[m['iface']] is None:
            continue
        cnt = {}

        def add(i):
            if i is not None:
                cnt[i['n']] = cnt.get(i['n'], 0) + 1
        for x in t.subtree(m):
            if x['k'] == 'ObjCMessageExpr' and not x.get('impl'):
                if x['rk'] == 1:
                    add(t[x['ri']])
                elif x['rk'] == 0:
                    cnt[x['crt']] = cnt.get(x['crt'], 0) + 1
            elif x['k'] == 'ObjCIvarRefExpr':
                add(t[t[x['d']]['iface']])
            elif x['k'] == 'ObjCPropertyRefExpr':
                md = t[x['md']]
                if md is not None and md['dck'] != 'ObjCProtocol':
                    add(t[md['iface']])
        mine = cnt.get(t[m['iface']]['n'], 0)
        for c, v in cnt.items():
            if v > mine:
                yield m, 'Method %s messages %s more than self.' % (m['sel'], c)


SIZE = ['HighCyclomaticComplexity', 'HighNPathComplexity', 'HighNcssMethod', 'DeepNestedBlock', 'LongClass', 'LongLine',
        'LongMethod', 'TooManyFields', 'TooManyMethods', 'TooManyParameters']
METRIC = SIZE[:4]
EMPTY = ['EmptyIfStatement', 'EmptyElseBlock', 'EmptyWhileStatement', 'EmptyDoWhileStatement', 'EmptyForStatement',
         'EmptySwitchStatement', 'EmptyTryStatement', 'EmptyCatchStatement', 'EmptyFinallyStatement']
CONTROL = ['CollapsibleIfStatements', 'ConstantIfExpression', 'DeadCode', 'ForLoopShouldBeWhileLoop', 'GotoStatement',
           'JumbledIncrementer', 'ReturnFromFinallyBlock', 'ThrowExceptionFromFinallyBlock',
           'AvoidBranchingStatementAsLastInLoop', 'UnnecessaryDefaultStatement', 'MissingDefaultStatement',
           'MisplacedDefaultLabel', 'MissingBreakInSwitchStatement', 'NonCaseLabelInSwitchStatement',
           'TooFewBranchesInSwitchStatement', 'InvertedLogic', 'PreferEarlyExit', 'UnnecessaryElseStatement',
           'RedundantIfStatement']
EXPR = ['BitwiseOperatorInConditional', 'BrokenNullCheck', 'BrokenNilCheck', 'MisplacedNullCheck', 'MisplacedNilCheck',
        'RedundantNilCheck', 'BrokenOddnessCheck', 'ConstantConditionalOperator', 'RedundantConditionalOperator',
        'DoubleNegative', 'MultipleUnaryOperator', 'UselessParentheses', 'ParameterReassignment',
        'UnnecessaryNullCheckForDealloc']
NAMING = ['LongVariableName', 'ShortVariableName', 'UnusedLocalVariable', 'UnusedMethodParameter', 'RedundantLocalVariable']
CXX = ['ProblematicBaseClassDestructor', 'DestructorOfVirtualClass', 'AvoidDefaultArgumentsOnVirtualMethods',
       'AvoidPrivateStaticMembers']
OBJC = ['MissingHashMethod', 'MissingCallToBaseMethod', 'CallingProhibitedMethod', 'CallingProtectedMethod',
        'MissingAbstractMethodImplementation', 'AssignIvarOutsideAccessors', 'UseBoxedExpression', 'UseContainerLiteral',
        'UseNumberLiteral', 'UseObjectSubscripting', 'FeatureEnvy']


def applies(langs, lang):
    if langs == 'any':
        return True
    if lang['objc']:
        return 'O' in langs
    if lang['cxx']:
        return '+' in langs
    return 'C' in langs


def expected(t, names, conf=None):
    """set of (identifier, path, sl, sc, el, ec, message)"""
    conf = conf or {}
    cfg = lambda k, d: conf.get(k, d)
    out = set()
    for name in names:
        langs, f = R[name]
        if not applies(langs, t.lang):
            continue
        for where, msg in f(t, cfg):
            if isinstance(where, tuple):
                out.add((name, t.main) + where + (msg,))
            else:
                if 'nob' in where:
                    continue
                out.add((name, where.get('f', t.main)) + tuple(where['r']) + (msg,))
    return out
