"""Token-level mutation of generated programs.

The generator only writes what its author thought of.  Here its tokens are replaced, wrapped,
moved and repeated; the compiler (the reference front end, not oclint) tells which of the
mutated units still compile, and the others are put back.
"""
import json, os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import gen

REF = os.path.join(B.B, 'bin', 'refdiag')

LITS = ['0', '1', '2', '0u', '1u', '2u', '1L', '2L', '0L', '1ll', '2ul', '0x1', '0x2', '01', '02', "'\\0'", "'\\1'", "'\\2'", "'a'", '1.0', '2.0f', '-1', '3',
        'RED', '__LINE__', 'sizeof ( int )', '0b10', '42', '+ 1', '- 0', '~ 0', '! 0', '! 1']
LITS_CXX = ['true', 'false', 'nullptr', 'Mode :: One', "1'0", 'int ( )', 'int { }', 'bool ( 1 )', 'static_cast < int > ( 1 )', 'this']
LITS_OBJC = ['YES', 'NO', 'nil', '@"s"', '@1', '@( 1 )', '__objc_yes', '__objc_no', 'self', '@selector ( hash )', '@[ ]', '@{ }', '@YES']
BIN = ['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '&&', '||', '==', '!=', '<', '>', '<=', '>=', ',', '=', '+=', '-=', '|=', '&=', '^=', '%=', '*=', '<<=']
TYPES = ['int', 'unsigned', 'long', 'char', 'short', 'long long', 'float', 'double', 'signed char', 'const int', 'volatile int', 'unsigned long', 'struct node *',
         'int *', 'enum color', '_Bool', 'const char *', 'static int', 'register int', 'int const', 'void *', 'unsigned char']
TYPES_CXX = ['auto', 'bool', 'int &', 'const int &', 'int & &', 'Tmp', 'Guard', 'const auto', 'decltype ( 1 )', 'Mode', 'auto *', 'const auto &', 'Base0', 'Base0 &', 'Vec',
             'std :: unique_ptr < int >', 'constexpr int', 'thread_local int', 'long unsigned', 'Tmp const &', 'char32_t']
TYPES_OBJC = ['id', 'BOOL', 'NSString *', 'NSArray *', 'NSMutableArray *', 'NSDictionary *', 'NSMutableDictionary *', 'Class', 'NSObject *', 'id < NSObject >', 'NSUInteger',
              '__block int', '__strong id', 'NSNumber *', 'SEL']
SPEC = {'static', 'virtual', 'inline', 'const', 'extern', 'explicit', 'mutable'}
INS = [';', '{ }', 'break ;', 'continue ;', 'return ;', 'return 0 ;', 'return 1 ;', 'goto out ;', 'out : ;', '( void ) 0 ;', '__builtin_unreachable ( ) ;', '__builtin_trap ( ) ;',
       'if ( 1 ) ;', 'if ( gcount ) { } else { }', 'while ( 0 ) ;', 'do ; while ( 0 ) ;', 'for ( ; ; ) ;', 'switch ( gcount ) { }', 'default : ;', 'case 7 : ;', 'case 8 : case 9 : break ;',
       'int i ;', 'int i = 0 ;', 'int xx = gcount ;', 'static int keep ;', 'extern int elsewhere ;', 'typedef int tt ;', 'struct here { int m ; } ;', 'enum here2 { HA , HB } ;',
       '__attribute__ ( ( unused ) ) int unu = 1 ;', 'gcount = gcount ;', 'gcount ;', '( gcount ) ;', '( ( gcount ) ) ;',
       'gcount & 1 ;', 'gcount ? 1 : 1 ;', 'gcount ? gcount : gcount ;', 'gcount ? : 1 ;', '- - gcount ;', '! ! gcount ;', '__extension__ gcount ;', 'exit0 : __attribute__ ( ( unused ) ) ;',
       'for ( int i = 0 ; i < 3 ; i ++ ) for ( int i = 0 ; i < 3 ; i ++ ) ;', 'for ( int i = 0 , j = 1 ; i < 3 ; i ++ , j ++ ) ;', 'for ( ; gcount ; ) { }', 'for ( gcount = 1 ; gcount < 2 ; ) gcount ++ ;',
       'while ( gcount & 1 ) { }', 'switch ( gcount ) default : ;', 'switch ( gcount ) case 1 : break ;', 'switch ( gcount ) { case 1 : ; }', 'switch ( gcount ) { default : break ; case 1 : ; }',
       'switch ( gcount ) { case 1 : { break ; } case 2 : case 3 : { } default : { return ; } }', 'switch ( pick ( ) ) { case RED : break ; case GREEN : break ; case BLUE : break ; default : break ; }',
       'if ( ghead && ghead -> val ) ;', 'if ( ghead || ghead -> val ) { gcount = 1 ; }', 'if ( gcount ) if ( gcount ) gcount = 1 ;', 'if ( gcount ) { if ( gcount ) { gcount = 1 ; } }',
       'if ( ! gcount ) { gcount = 1 ; } else { gcount = 2 ; }', 'if ( gcount != 1 ) gcount = 1 ; else gcount = 2 ;', 'if ( gcount ) return ; else gcount = 1 ;', 'asm ( "" ) ;', '__asm__ volatile ( "nop" ) ;',
       'if ( gcount == 1 ) { return 1 ; } else { return 0 ; }', 'int lo = gcount ; return lo ;', '{ int lo = gcount ; return lo ; }', 'gcount % 2 == 1 ;', 'if ( gcount % 2 == - 1 ) { }',
       '_Static_assert ( 1 , "" ) ;', '#pragma clang diagnostic push\n']
INS_CXX = ['[[fallthrough]] ;', '[[maybe_unused]] int mu ;', 'auto la = [ ] ( int p ) { return 1 ; } ;', '[ & ] { gcount = 1 ; } ( ) ;', 'throw 1 ;', 'throw ;', 'try { } catch ( ... ) { }',
           'try { gcount = 1 ; } catch ( int e ) { } catch ( ... ) { throw ; }', 'delete ghead ;', 'if ( ghead ) delete ghead ;', 'if ( ghead ) { delete ghead ; ghead = nullptr ; }',
           'if constexpr ( true ) { } else { }', 'for ( auto x : arr0 ) ;', 'for ( auto & x : vec ) { continue ; }', 'using ty = int ;', 'struct loc { virtual void f ( int a = 1 ) ; ~ loc ( ) ; } ;',
           'struct loc2 : Base0 { static int s ; } ;', 'class loc3 { static void priv ( ) ; } ;', 'struct loc4 : Base1 { } ;', 'std :: lock_guard < std :: mutex > gua ( gmutex ) ;',
           'std :: unique_ptr < int > up ;', 'Tmp te ;', 'Tmp te2 ( 1 ) ;', 'const Tmp & rt = mktmp ( ) ;', 'int & rr = gcount ;', 'auto [ s1 , s2 ] = pairs ( ) ;', 'if ( int i = gcount ) { } else { }',
           'if ( int i = gcount ; i ) { }', 'switch ( int i = gcount ) { }', 'while ( int i = gcount ) { }', 'for ( int i = 0 ; int j = gcount ; i ++ ) { }', 'static_assert ( true ) ;',
           'switch ( mode ( ) ) { case Mode :: One : case Mode :: Two : break ; case Mode :: Three : case Mode :: Four : break ; default : break ; }', 'if ( gbool ) return true ; else return false ;',
           'gbool = gbool ? true : false ;', 'struct B7 { virtual ~ B7 ( ) = default ; } ; struct D7 : B7 { } ;', 'if ( ghead != nullptr && ghead -> val ) { }', 'if ( nullptr == ghead || ghead -> val ) { }',
           'int a7 = 1 , b7 = 2 ;', '( [ = ] ( auto v ) { return v ; } ) ( 1 ) ;', 'goto * & & out2 ; out2 : ;', 'if ( not gcount ) { } else { gcount = 1 ; }', 'if ( gcount bitand 1 ) { }', 'co_return ;']
INS_OBJC = ['@try { } @catch ( id e ) { } @finally { }', '@try { } @finally { return ; }', '@try { } @finally { @throw gexc ; }', '@autoreleasepool { }', '@synchronized ( gid ) { }', 'for ( id x in garr ) { }',
            'for ( id x in garr ) { continue ; }', '[ gid description ] ;', 'id loc = [ NSArray array ] ;', '^ { gcount ++ ; } ( ) ;', 'void ( ^ bl ) ( int ) = ^ ( int p ) { } ;', '@try { } @catch ( ... ) { }',
            'if ( gstr && [ gstr length ] ) { }', 'if ( gstr != nil && [ gstr isEqual : gid ] ) { }', '[ gexc raise ] ;', 'gid = @[ gid ] ;', 'gid = [ garr objectAtIndex : 0 ] ;',
            '@throw gexc ;', '@finally { }', 'NSNumber * nn = [ NSNumber numberWithInt : 1 ] ;', '__block int bb = 1 ;', '[ self hash ] ;', '[ super hash ] ;', 'self -> _value = 1 ;']
WRAP = ['( %s )', '( %s )', '( ( %s ) )', '( int ) %s', '( int ) ( %s )', '+ %s', '- %s', '! %s', '~ %s', '! ! %s', '( 0 , %s )', '( %s , 1 )', '%s + 0', '%s & 1', '%s ? %s : %s', '%s == %s', '%s && %s', '%s || 1',
        '%s != 0', '0 != %s', '%s == 0', '%s % 2', '%s % 2 == 1', '__extension__ %s', '( { %s ; } )', '* & %s', 'ID ( %s )', 'ID ( ( %s ) )', 'ID ( ID ( %s ) )', 'PAREN ( %s )', 'NOT ( %s )', '%s ++', '-- %s', '%s = %s',
        '( long ) %s', '_Generic ( %s , default : %s )', '%s ? : 1', '( %s = 1 )', 'sizeof ( %s )', '__builtin_expect ( %s , 1 )', '__builtin_choose_expr ( 1 , %s , 2 )', '( %s ) ? 1 : 1']
WRAP_CXX = ['static_cast < int > ( %s )', 'int ( %s )', 'int { %s }', 'bool ( %s )', '! ! ( %s )', 'const_cast < int & > ( %s )', '[ & ] { return %s ; } ( )', 'not %s', 'compl %s', '( %s ) bitand 1', 'ident ( %s )',
            'noexcept ( %s )', 'decltype ( %s ) ( )', 'Tmp ( %s ) . val', 'new int ( %s )', 'typeid ( %s )', 'alignof ( decltype ( %s ) )']
WRAP_OBJC = ['@( %s )', '[ %s hash ]', '[ gid isEqual : %s ]', '^ { return %s ; } ( )', '[ NSNumber numberWithInt : %s ]', '( id ) %s', '[ garr objectAtIndex : %s ]']
STMTWRAP = ['{ %s }', 'if ( gcount ) %s', 'if ( gcount ) { %s }', 'if ( gcount ) { %s } else { }', 'if ( gcount ) { } else %s', 'if ( gcount ) ; else { %s }', 'while ( gcount ) %s', 'while ( gcount ) { %s }', 'do %s while ( gcount ) ;',
            'do { %s } while ( 0 ) ;', 'for ( ; ; ) %s', 'for ( gcount = 0 ; gcount < 2 ; gcount ++ ) { %s }', 'lw%d : %%s', 'switch ( gcount ) { case 1 : %s }', 'switch ( gcount ) { default : %s }', 'switch ( gcount ) { case 1 : case 2 : %s break ; default : ; }',
            '( { %s } ) ;', 'STMT ( %s )', 'BLOCK ( %s )', 'switch ( gcount ) { %s }', '{ { %s } }', '{ ; %s }', '{ %s ; }', 'if ( ! gcount ) %s else { gcount = 1 ; }', 'if ( gcount ) { %s return ; }', 'IFM ( gcount ) %s', '%s %s', '{ %s } { %s }']
STMTWRAP_CXX = ['try { %s } catch ( ... ) { }', 'try { } catch ( ... ) { %s }', '[ & ] { %s } ( ) ;', 'for ( auto q : arr0 ) { %s }', 'if constexpr ( sizeof ( int ) == 4 ) { %s }', 'if constexpr ( sizeof ( int ) == 4 ) { } else { %s }', '[[likely]] %s',
                '{ std :: lock_guard < std :: mutex > gq ( gmutex ) ; %s }', 'if ( gcount ) [[likely]] { %s }', 'while ( int q = gcount ) { %s }', 'auto lq = [ = ] ( int p ) mutable { %s } ;', 'auto lq = [ & ] ( auto p ) { %s } ;', 'struct lq { void f ( ) { %s } } ;']
STMTWRAP_OBJC = ['@try { %s } @catch ( id e ) { }', '@try { %s } @finally { }', '@try { } @finally { %s }', '@try { } @catch ( id e ) { %s }', '@synchronized ( gid ) { %s }', '@autoreleasepool { %s }', 'for ( id q in garr ) { %s }', '^ { %s } ( ) ;',
                 '@try { } @finally { ^ { %s } ( ) ; }', '@try { } @finally { @try { %s } @finally { } }']

MACROS = '''#define ID(x) x
#define PAREN(x) (x)
#define NOT(x) !x
#define STMT(x) do { x } while (0);
#define BLOCK(x) { x }
#define IFM(x) if (x)
#define EMPTYM
'''
MACROS_CXX = 'template <class T> T ident(T value);\nstruct Pair { int a; int b; };\nPair pairs();\n'

ID = re.compile(r'^[A-Za-z_]\w*$')
NUM = re.compile(r"^(\d|\.\d|'.)")
CTL = {'if', 'while', 'for', 'switch', 'do', 'else', 'return', 'goto', 'break', 'continue', 'case', 'default', 'try', 'catch', 'throw', 'delete', 'new', 'sizeof', 'struct', 'class', 'union',
       'enum', 'template', 'namespace', 'using', 'typedef', 'static', 'extern', 'const', 'virtual', 'int', 'unsigned', 'long', 'char', 'float', 'double', 'void', 'bool', 'auto', 'signed', 'in',
       'public', 'private', 'protected', 'operator', 'inline', 'explicit', 'mutable', 'short', 'constexpr', '__attribute__', 'annotate', 'unused', 'oclint', 'std', 'mutex', 'this', 'super', 'self'}
OPS = {'+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '&&', '||', '==', '!=', '<', '>', '<=', '>=', '=', '+=', '-=', '|=', '&=', '^=', '%=', '*=', '<<='}


def tokens(s):
    return [t for t in gen.TOK.findall(s) if not t.isspace()]


def match(ts, i):
    """index of the bracket that closes ts[i]; None if there is none"""
    d = 0
    for j in range(i, len(ts)):
        t = ts[j]
        if t in '([{' or t in ('[[', '@[', '@{', '@('):
            d += 2 if t == '[[' else 1
        elif t in ')]}' or t == ']]':
            d -= 2 if t == ']]' else 1
            if d <= 0:
                return j
    return None


def statement(ts, i):
    """end (exclusive) of a statement that starts at i, or None"""
    n = len(ts)
    if i >= n or ts[i] in (')', '}', ']', ',', ';', '=') or ts[i] in OPS:
        return None
    if ts[i] == '{':
        j = match(ts, i)
        return j + 1 if j is not None else None
    if ts[i] in ('if', 'while', 'for', 'switch') and i + 1 < n:
        j = i + 1
        if ts[j] == 'constexpr':
            j += 1
        if j >= n or ts[j] != '(':
            return None
        j = match(ts, j)
        if j is None or j + 1 >= n:
            return None
        e = j + 2 if ts[j + 1] == ';' else statement(ts, j + 1)
        if e is None:
            return None
        if ts[i] == 'if' and e < n and ts[e] == 'else':
            e2 = e + 2 if e + 1 < n and ts[e + 1] == ';' else statement(ts, e + 1)
            return e2
        return e
    if ts[i] in ('do', 'try', '@try', '@synchronized', '@autoreleasepool', 'case', 'default', 'struct', 'class', '@interface', '@implementation', 'else', 'catch'):
        return None
    d = 0
    for j in range(i, min(n, i + 80)):
        t = ts[j]
        if t in ('(', '[', '{', '[[', '@[', '@{', '@('):
            d += 1
        elif t in (')', ']', '}', ']]'):
            d -= 1
            if d < 0:
                return None
        elif t == ';' and d == 0:
            return j + 1
    return None


def starts(ts):
    """indices at which a statement may start"""
    return [i + 1 for i, t in enumerate(ts[:-1]) if t in ('{', '}', ';', ':', 'else', 'do')] + \
           [i + 1 for i, t in enumerate(ts[:-1]) if t == ')' and ts[i + 1] not in OPS and ts[i + 1] not in (')', ';', ',', ']', '{', '.', '->', '?', ':', '[')]


class Mutator:
    def __init__(self, rng, lang):
        self.r = rng
        cxx, objc = lang in ('cxx', 'objcxx'), lang in ('objc', 'objcxx')
        x = lambda a, b, c: a + (b if cxx else []) + (c if objc else [])
        # each program favours some of the mutations
        self.lits, self.types = x(LITS, LITS_CXX, LITS_OBJC), x(TYPES, TYPES_CXX, TYPES_OBJC)
        self.ins, self.wrap, self.swrap = x(INS, INS_CXX, INS_OBJC), x(WRAP, WRAP_CXX, WRAP_OBJC), x(STMTWRAP, STMTWRAP_CXX, STMTWRAP_OBJC)
        self.macros = rng.random() < 0.5
        if not self.macros:
            nomac = lambda l: [s for s in l if not re.search(r'\b(ID|PAREN|NOT|STMT|BLOCK|IFM)\b', s)]
            self.wrap, self.swrap = nomac(self.wrap), nomac(self.swrap)
        self.kinds = ['lit', 'op', 'type', 'ident', 'ident', 'wrap', 'wrap', 'ins', 'ins', 'swrap', 'swrap', 'dup', 'drop', 'spec', 'rename', 'move', 'swap']
        self.n = 0

    def mutate(self, unit, k):
        parts = unit.split(gen.KEEP)
        for _ in range(k):
            j = self.r.randrange(0, len(parts), 2)
            ts = tokens(parts[j])
            if len(ts) < 4:
                continue
            for _ in range(4):
                kind = self.r.choice(self.kinds)
                new = getattr(self, 'm_' + kind)(ts[:])
                if new:
                    parts[j] = ' '.join(new)
                    break
        return gen.KEEP.join(parts)

    def at(self, ts, pred):
        c = [i for i, t in enumerate(ts) if pred(t)]
        return self.r.choice(c) if c else None

    def ids(self, ts):
        return [i for i, t in enumerate(ts) if ID.match(t) and t not in CTL and not (i and ts[i - 1] in ('@', 'goto', 'struct', 'class', '::'))]

    def m_lit(self, ts):
        i = self.at(ts, lambda t: NUM.match(t) or t in ('true', 'false', 'nullptr', 'nil', 'YES', 'NO', 'NULLP', 'RED'))
        if i is None:
            return None
        ts[i] = self.r.choice(self.lits)
        return ts

    def m_op(self, ts):
        i = self.at(ts, lambda t: t in OPS)
        if i is None:
            return None
        ts[i] = self.r.choice(BIN)
        return ts

    def m_type(self, ts):
        i = self.at(ts, lambda t: t in ('int', 'unsigned', 'long', 'char', 'double', 'auto', 'bool', 'id', 'float'))
        if i is None:
            return None
        ts[i] = self.r.choice(self.types)
        return ts

    def m_ident(self, ts):
        c = self.ids(ts)
        if len(c) < 2:
            return None
        i = self.r.choice(c)
        near = [j for j in c if abs(j - i) < 25 and ts[j] != ts[i]]
        if not near:
            return None
        ts[i] = ts[self.r.choice(near)]
        return ts

    def m_rename(self, ts):
        """one name for two, everywhere in a stretch (shadowing, short and long names)"""
        c = self.ids(ts)
        if not c:
            return None
        a = ts[self.r.choice(c)]
        b = self.r.choice([ts[self.r.choice(c)], 'i', 'ii', 'iii', 'x' * 20, 'x' * 21, 'gcount', 'self_', '_', 'value', 'e', 'aVeryLongNameThatIsMuchTooLong'])
        lo = self.r.randrange(len(ts))
        hi = min(len(ts), lo + self.r.choice([10, 40, 1000]))
        return [b if t == a and lo <= i < hi else t for i, t in enumerate(ts)]

    def m_wrap(self, ts):
        c = self.ids(ts) + [i for i, t in enumerate(ts) if NUM.match(t)]
        if not c:
            return None
        i = self.r.choice(c)
        j = i
        if self.r.random() < 0.3:      # a call, an index, a member
            while j + 1 < len(ts):
                if ts[j + 1] in ('(', '['):
                    k = match(ts, j + 1)
                    if k is None:
                        break
                    j = k
                elif ts[j + 1] in ('.', '->') and j + 2 < len(ts):
                    j += 2
                else:
                    break
        w = self.r.choice(self.wrap)
        return ts[:i] + w.replace('%s', ' '.join(ts[i:j + 1])).split(' ') + ts[j + 1:]

    def m_ins(self, ts):
        c = starts(ts)
        if not c:
            return None
        i = self.r.choice(c)
        return ts[:i] + self.r.choice(self.ins).split(' ') + ts[i:]

    def stmts(self, ts, n=12):
        c = starts(ts)
        self.r.shuffle(c)
        for i in c[:n]:
            e = statement(ts, i)
            if e and e - i < 150:
                yield i, e

    def m_swrap(self, ts):
        for i, e in self.stmts(ts):
            w = self.r.choice(self.swrap)
            if '%%s' in w:
                self.n += 1
                w = w % self.n
            return ts[:i] + w.replace('%s', ' '.join(ts[i:e])).split(' ') + ts[e:]

    def m_dup(self, ts):
        """a statement again, elsewhere"""
        for i, e in self.stmts(ts):
            j = self.r.choice(starts(ts))
            return ts[:j] + ts[i:e] + ts[j:]

    def m_drop(self, ts):
        for i, e in self.stmts(ts):
            return ts[:i] + self.r.choice([[], [';'], ['{', '}'], ['{', ';', '}']]) + ts[e:]

    def m_move(self, ts):
        a = list(self.stmts(ts))
        if len(a) < 2:
            return None
        (i, e), (j, f) = sorted(self.r.sample(a, 2))
        if e > j:
            # an inner statement takes the place of the outer one
            return ts[:i] + ts[j:f] + ts[e:] if f <= e else None
        return ts[:i] + ts[j:f] + ts[e:j] + ts[i:e] + ts[f:]

    def m_swap(self, ts):
        """the operands of an operator change places"""
        c = [i for i, t in enumerate(ts) if t in OPS and 0 < i < len(ts) - 1 and
             (ID.match(ts[i - 1]) or NUM.match(ts[i - 1]) or ts[i - 1] == ')') and (ID.match(ts[i + 1]) or NUM.match(ts[i + 1]) or ts[i + 1] == '(')]
        if not c:
            return None
        i = self.r.choice(c)
        lo = i - 1
        if ts[lo] == ')':
            d = 0
            while lo >= 0:
                d += (ts[lo] == ')') - (ts[lo] == '(')
                if d == 0:
                    break
                lo -= 1
            if lo < 0:
                return None
        hi = i + 1 if ts[i + 1] != '(' else match(ts, i + 1)
        if hi is None:
            return None
        return ts[:lo] + ts[i + 1:hi + 1] + [ts[i]] + ts[lo:i] + ts[hi + 1:]

    def m_spec(self, ts):
        r = self.r
        x = r.random()
        if x < 0.4:
            i = self.at(ts, lambda t: t in SPEC or t in ('public', 'private', 'protected', 'class', 'struct'))
            if i is not None:
                t = ts[i]
                ts[i:i + 1] = [r.choice(['public', 'private', 'protected'])] if t in ('public', 'private', 'protected') else \
                    [r.choice(['class', 'struct', 'union'])] if t in ('class', 'struct') else r.choice([[], ['static'], ['virtual'], ['const'], ['inline'], ['extern']])
                return ts
        c = [i for i, t in enumerate(ts) if t in ('int', 'long', 'void', 'unsigned', 'char', 'bool', 'struct') and i and ts[i - 1] in (';', '{', '}', ':', '(', ',')] + [0]
        i = r.choice(c)
        if x < 0.8:
            return ts[:i] + r.choice(['static', 'virtual', 'const', 'extern', 'inline', 'volatile', '__attribute__ ( ( unused ) )', 'constexpr', '[[maybe_unused]]', 'register', 'typedef', 'template < class U >',
                                      '__attribute__ ( ( noinline ) )', '__attribute__ ( ( annotate ( "other" ) ) )', 'friend', 'explicit', '__extension__', 'thread_local']).split(' ') + ts[i:]
        c = [i for i, t in enumerate(ts) if t == ')' and i + 1 < len(ts) and ts[i + 1] in ('{', ';')]
        if not c:
            return None
        i = r.choice(c)
        return ts[:i + 1] + r.choice(['const', 'noexcept', 'override', 'final', '= 0', '= delete', '= default', 'volatile', '&', '-> int', '__attribute__ ( ( unused ) )']).split(' ') + ts[i + 1:]


def errors(d, f, flags):
    """lines of the main file with compile errors (None: cannot tell)"""
    try:
        r = subprocess.run([REF, d] + ['-w', '-ferror-limit=0'] + list(flags) + [f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=30,
                           env={'PATH': '/usr/bin:/bin', 'LC_ALL': 'C'})
    except subprocess.TimeoutExpired:
        return None
    try:
        rows = json.loads(r.stdout.decode('latin-1'))['d']
    except (ValueError, KeyError):
        return None
    return [(x[1], x[2]) for x in rows if x[0] in ('error', 'fatal')]


def source(rng, lang, d, focus=None, rate=None, strength=None):
    """like gen.source, mutated; d: directory to compile in"""
    p = gen.Program(rng, lang, rng.choice([8, 12, 20, 28]), focus)
    us = p.units()
    pre = MACROS + p.prelude() + (MACROS_CXX if p.cxx else '')
    m = Mutator(rng, lang)
    rate = rate or rng.choice([0.5, 0.8, 1.0])
    strength = strength or rng.choice([1, 1, 2, 3, 5, 8])
    # several variants of each unit; the first that compiles is taken
    style = rng.choice(['plain', 'plain', 'airy', 'lines', 'mix'])
    var = [[u] + ([m.mutate(u, rng.randint(1, strength)) for _ in range(3)] if rng.random() < rate else []) for u in us]
    text = [[gen.layout(rng, v, None if style == 'mix' else style) for v in vs] for vs in var]
    pick = [len(vs) - 1 for vs in text]
    f = os.path.join(d, 'm' + gen.EXT[lang])
    open(os.path.join(d, 'pre.h'), 'w').write(pre)
    for attempt in range(8):
        line, spans, main = 2, [], '#include "pre.h"\n'
        for i, vs in enumerate(text):
            t = vs[pick[i]] + '\n'
            spans.append((line, line + t.count('\n')))
            line += t.count('\n')
            main += t
        open(f, 'w').write(main)
        bad = errors(d, f, gen.FLAGS[lang])
        if not bad:
            if bad is None:
                pick = [0] * len(pick)
                continue
            return main, pre, sum(1 for x in pick if x)
        hit = set()
        for path, l in bad:
            if path.endswith('pre.h'):
                continue
            for i, (a, b) in enumerate(spans):
                if a <= l < b:
                    hit.add(i)
        ch = False
        for i in hit:
            if pick[i] > 0:
                pick[i] -= 1 if attempt < 5 else pick[i]
                ch = True
        if not ch or attempt == 6:
            pick = [0] * len(pick)
    return main, pre, 0
