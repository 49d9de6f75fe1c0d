"""Random program generators for the monitored runs.

Program(rng, lang).text() gives a translation unit that compiles (nearly always).  Every
program draws its own feature weights (swarm testing), so rare combinations are dense in
some programs.  lang: c, c89, cxx, objc, objcxx.
"""
import re

NSTUBS = '''
typedef signed char BOOL_STUB;
typedef BOOL_STUB BOOL;
#define YES ((BOOL)1)
#define NO ((BOOL)0)
#define nil ((void *)0)
typedef unsigned long NSUInteger;
typedef long NSInteger;
typedef struct { unsigned long state; id *itemsPtr; unsigned long *mutationsPtr; unsigned long extra[5]; } NSFastEnumerationState;
@class NSString;
@protocol NSObject
- (BOOL)isEqual:(id)object;
- (NSUInteger)hash;
@end
@protocol NSCopying
- (id)copyWithZone:(void *)zone;
@end
@protocol NSFastEnumeration
- (NSUInteger)countByEnumeratingWithState:(NSFastEnumerationState *)state objects:(id *)buffer count:(NSUInteger)len;
@end
__attribute__((objc_root_class))
@interface NSObject <NSObject>
+ (id)alloc;
+ (Class)class;
- (id)init;
- (id)retain;
- (void)dealloc;
- (BOOL)isEqual:(id)object;
- (NSUInteger)hash;
- (NSString *)description;
@end
@interface NSString : NSObject <NSCopying>
- (NSUInteger)length;
+ (id)stringWithUTF8String:(const char *)s;
+ (id)stringWithFormat:(NSString *)format, ...;
- (BOOL)isEqualToString:(NSString *)other;
@end
@interface NSNumber : NSObject <NSCopying>
+ (NSNumber *)numberWithChar:(char)v;
+ (NSNumber *)numberWithInt:(int)v;
+ (NSNumber *)numberWithUnsignedInt:(unsigned int)v;
+ (NSNumber *)numberWithLong:(long)v;
+ (NSNumber *)numberWithUnsignedLong:(unsigned long)v;
+ (NSNumber *)numberWithLongLong:(long long)v;
+ (NSNumber *)numberWithUnsignedLongLong:(unsigned long long)v;
+ (NSNumber *)numberWithFloat:(float)v;
+ (NSNumber *)numberWithDouble:(double)v;
+ (NSNumber *)numberWithBool:(BOOL)v;
+ (NSNumber *)numberWithInteger:(NSInteger)v;
+ (NSNumber *)numberWithUnsignedInteger:(NSUInteger)v;
- (int)intValue;
@end
@interface NSArray : NSObject <NSFastEnumeration>
+ (id)array;
+ (id)arrayWithArray:(NSArray *)other;
+ (id)arrayWithObject:(id)object;
+ (id)arrayWithObjects:(id)first, ...;
+ (id)arrayWithObjects:(const id *)objects count:(NSUInteger)count;
- (NSUInteger)count;
- (id)objectAtIndex:(NSUInteger)index;
- (id)objectAtIndexedSubscript:(NSUInteger)index;
- (id)lastObject;
@end
@interface NSMutableArray : NSArray
- (void)addObject:(id)object;
- (void)replaceObjectAtIndex:(NSUInteger)index withObject:(id)object;
- (void)setObject:(id)object atIndexedSubscript:(NSUInteger)index;
@end
@interface NSDictionary : NSObject <NSFastEnumeration>
+ (id)dictionary;
+ (id)dictionaryWithObject:(id)object forKey:(id)key;
+ (id)dictionaryWithObjects:(const id *)objects forKeys:(const id *)keys count:(NSUInteger)count;
+ (id)dictionaryWithObjectsAndKeys:(id)first, ...;
+ (id)dictionaryWithObjects:(NSArray *)objects forKeys:(NSArray *)keys;
- (id)objectForKey:(id)key;
- (id)objectForKeyedSubscript:(id)key;
- (NSUInteger)count;
@end
@interface NSMutableDictionary : NSDictionary
- (void)setObject:(id)object forKey:(id)key;
- (void)setObject:(id)object forKeyedSubscript:(id)key;
@end
@interface NSException : NSObject
+ (void)raise:(NSString *)name format:(NSString *)format, ...;
- (void)raise;
@end
@interface NotAnException : NSObject
- (void)raise;
@end
'''

C_PRELUDE = '''
struct node { int val; int cnt; struct node *next; int *ptr; };
enum color { RED, GREEN, BLUE };
int ext0(void);
int ext1(int value);
int ext2(int value, int other);
void sink(int value);
int usep(int *ptr);
struct node *mknode(void);
enum color pick(void);
int okay(struct node *item);
char *cstr(void);
extern int gcount;
extern struct node *ghead;
extern signed char gschar;
'''

CXX_PRELUDE = '''
extern bool gbool;
struct Tmp { Tmp(); Tmp(int value); ~Tmp(); int get() const; bool ok() const; int val; };
Tmp mktmp();
struct Vec { int *begin(); int *end(); const int *begin() const; const int *end() const; int size() const; };
struct Base1 { int b1; };
class Base2 { protected: ~Base2(); public: int b2; };
struct Base0 { virtual ~Base0(); virtual int run(int value); int plain; };
enum class Mode { One, Two, Three, Four };
Mode mode();
namespace std { struct mutex {}; template <class M> struct lock_guard { explicit lock_guard(M &m); ~lock_guard(); };
template <class M> struct unique_lock { explicit unique_lock(M &m); ~unique_lock(); };
template <class T> struct unique_ptr { unique_ptr(); explicit unique_ptr(T *p); ~unique_ptr(); T *get() const; T *operator->() const; T &operator*() const; explicit operator bool() const; }; }
struct Guard { Guard(); explicit Guard(int value); ~Guard(); };
extern std::mutex gmutex;
'''


def pick_weights(rng, kinds):
    """swarm: some features off, some strongly on"""
    w = {}
    for k in kinds:
        r = rng.random()
        w[k] = 0 if r < 0.2 else 1 if r < 0.7 else 4 if r < 0.9 else 12
    return w


class Program:
    def __init__(self, rng, lang='c', size=None, focus=None, features=()):
        self.r = rng
        self.lang = lang
        self.cxx = lang in ('cxx', 'objcxx')
        self.objc = lang in ('objc', 'objcxx')
        self.c89 = lang == 'c89'
        self.n = 0
        self.scopes = []
        self.loop = 0          # break/continue allowed
        self.sw = 0            # break allowed
        self.labels = []       # backward goto targets
        self.rettype = 'void'
        self.infinally = False
        self.inclass = None
        self.size = size or rng.choice([4, 8, 12, 20])
        self.sk = ['expr', 'decl', 'if', 'ifelse', 'chain', 'while', 'do', 'for', 'switch', 'return', 'jump', 'goto',
                   'block', 'null', 'assign', 'paramassign', 'redlocal', 'redif', 'nullcheck', 'emptyish', 'nestedfor',
                   'ternary', 'deadcode', 'label', 'odd', 'longif']
        if self.cxx:
            self.sk += ['rangefor', 'try', 'throw', 'delete', 'lambda', 'raii', 'enumsw', 'ifinit', 'attr']
        if self.objc:
            self.sk += ['forin', 'attry', 'sync', 'pool', 'blockexpr', 'msg', 'nscheck', 'boxed', 'container', 'raise']
        self.w = pick_weights(rng, self.sk)
        self.focus = set(focus or ())
        for f in (focus or ()):
            if f in self.w:
                self.w[f] = 15
        self.ek = ['lit', 'var', 'arith', 'bit', 'cmp', 'logic', 'cond', 'call', 'paren', 'unary', 'index', 'member',
                   'cast', 'assign', 'comma', 'incdec', 'sizeof', 'stmtexpr', 'nullc']
        self.ew = pick_weights(rng, self.ek)
        for f in (focus or ()):
            if f in self.ew:
                self.ew[f] = 12
        self.ew['lit'] = self.ew['lit'] or 1
        self.ew['var'] = max(self.ew['var'], 2)
        self.braces = rng.choice([0.3, 0.6, 0.9])
        self.parens = rng.choice([0.02, 0.1, 0.4])
        self.maxdepth = rng.choice([2, 3, 4, 6])
        self.longnames = rng.random() < 0.3
        self.macros = rng.random() < 0.25
        self.unused = rng.random() < 0.5

    # ---- helpers
    def chance(self, p):
        return self.r.random() < p

    def wchoice(self, w, ks):
        tot = sum(w[k] for k in ks)
        if not tot:
            return self.r.choice(ks)
        x = self.r.random() * tot
        for k in ks:
            x -= w[k]
            if x < 0:
                return k
        return ks[-1]

    ALPH = 'abcdefghijklmnopqrstuvwxyz'

    def name(self):
        self.n += 1
        r = self.r.random()
        if r < 0.12:
            l = self.r.choice([1, 2, 2, 3, 3, 4])
            base = ''.join(self.r.choice(self.ALPH) for _ in range(l))
            used = set(n for s in self.scopes for n in s) | self.taken
            if base not in used and base not in KEYWORDS:
                self.taken.add(base)
                return base
        if r < (0.5 if self.longnames else 0.17):
            l = self.r.choice([18, 19, 20, 20, 21, 21, 22, 29, 30, 31, 32, 40])
            return ('v%d' % self.n + ''.join(self.r.choice(self.ALPH) for _ in range(l)))[:l]
        return 'var%d' % self.n

    taken = frozenset()

    def declare(self, name, ty):
        self.scopes[-1][name] = ty

    def vars(self, *tys):
        seen = {}
        for s in self.scopes:
            for n, t in s.items():
                seen[n] = t
        return [n for n, t in seen.items() if t in tys]

    # ---- expressions (int valued)
    budget = 200

    def e(self, d=2):
        self.budget -= 1
        if d <= 0 or self.budget < 0:
            vs = self.vars('int', 'uint', 'long', 'char')
            if self.dep and self.chance(0.4):
                return self.r.choice(['N', 'N', 'sizeof ( T )', 'int ( N )', '( N > 2 )', 'int ( T ( ) )', 'int ( sizeof ( T ) )', '( N & 1 )', 'T ( 1 )', '! N'])
            if vs and self.chance(0.7):
                return self.r.choice(vs)
            return self.lit()
        k = self.wchoice(self.ew, self.ek)
        r = self.r
        s = self.e1(k, d)
        if self.chance(self.parens):
            s = '( ' + s + ' )'
            if self.chance(0.1):
                s = '( ' + s + ' )'
        return s

    def lit(self):
        r = self.r
        return r.choice(['0', '1', '2', '3', '7', '42', '100', "'a'", '0x1f', '1L', '2u', '-1', 'RED', 'GREEN',
                         '1', '2'])

    def lv(self):
        vs = self.vars('int', 'long', 'uint')
        return self.r.choice(vs) if vs else 'gcount'

    def p(self, s):
        """parenthesize as an operand"""
        return s if re.match(r'^\w+$', s) else '( ' + s + ' )'

    def e1(self, k, d):
        r = self.r
        if k == 'lit':
            return self.lit()
        if k == 'var':
            return self.e(0)
        if k == 'arith':
            op = r.choice(['+', '-', '*', '/', '%', '<<'])
            return self.p(self.e(d - 1)) + ' ' + op + ' ' + (self.p(self.e(d - 1)) if op not in '/%<<' else r.choice(['2', '3', '1', '5']))
        if k == 'bit':
            return self.p(self.e(d - 1)) + ' ' + r.choice(['&', '|', '^']) + ' ' + self.p(self.e(d - 1))
        if k == 'cmp':
            return self.p(self.e(d - 1)) + ' ' + r.choice(['==', '!=', '<', '>', '<=', '>=']) + ' ' + self.p(self.e(d - 1))
        if k == 'logic':
            return self.p(self.e(d - 1)) + ' ' + r.choice(['&&', '||']) + ' ' + self.p(self.e(d - 1))
        if k == 'cond':
            return self.cond_op(d)
        if k == 'call':
            return r.choice(['ext0 ( )', 'ext1 ( ' + self.e(d - 1) + ' )',
                             'ext2 ( ' + self.p(self.e(d - 1)) + ' , ' + self.p(self.e(d - 1)) + ' )', 'okay ( ghead )',
                             'usep ( & gcount )'])
        if k == 'paren':
            return '( ' + self.e(d - 1) + ' )'
        if k == 'unary':
            a = r.choice(['!', '~', '-', '+'])
            b = self.e(d - 1)
            if self.chance(0.5):
                c = r.choice(['!', '~', '-', '+'])
                return a + ' ' + (c + ' ' + self.p(b) if self.chance(0.5) else '( ' * 1 + c + ' ' + self.p(b) + ' )')
            return a + ' ' + self.p(b)
        if k == 'index':
            vs = self.vars('arr')
            return (r.choice(vs) + ' [ ' + self.e(d - 1) + ' ]') if vs else self.e(d - 1)
        if k == 'member':
            vs = self.vars('node')
            ps = self.vars('pnode')
            o = [v + ' . val' for v in vs] + [v + ' -> val' for v in ps] + ['ghead -> cnt', 'ghead -> next -> val']
            return r.choice(o)
        if k == 'cast':
            return '( ' + r.choice(['int', 'long', 'char', 'unsigned']) + ' ) ' + self.p(self.e(d - 1))
        if k == 'assign':
            return '( ' + self.lv() + ' ' + r.choice(['=', '+=', '-=', '|=', '*=']) + ' ' + self.e(d - 1) + ' )'
        if k == 'comma':
            return '( ' + self.e(d - 1) + ' , ' + self.e(d - 1) + ' )'
        if k == 'incdec':
            return self.lv() + ' ++' if self.chance(0.5) else r.choice(['++ ', '-- ']) + self.lv()
        if k == 'sizeof':
            return '( int ) sizeof ( ' + r.choice(['int', 'struct node', self.e(0)]) + ' )'
        if k == 'stmtexpr':
            if len(self.scopes) < 2 or self.chance(0.6):
                return self.e(d - 1)
            save = self.loop, self.sw, self.labels
            self.loop = self.sw = 0
            self.labels = []
            b = self.block(1, 2, tail=self.e(d - 1) + ' ;')
            self.loop, self.sw, self.labels = save
            return '( ' + b + ' )'
        if k == 'nullc':
            return self.nullcond(d)
        return self.lit()

    def nolabels(self):
        return self.inclass == 'fileexpr'

    def cond_op(self, d):
        r = self.r
        x = r.random()
        c = self.cond(d - 1)
        if x < 0.25:
            l = self.lit()
            m = l if self.chance(0.5) else self.lit()
            a, b = l, m
        elif x < 0.45:
            vs = self.vars('int', 'long', 'uint', 'char')
            a = r.choice(vs) if vs else '1'
            b = a if self.chance(0.5) else (r.choice(vs) if vs else '2')
        elif x < 0.55 and self.cxx:
            a, b = r.choice(['true', 'false']), r.choice(['true', 'false'])
        elif x < 0.55 and self.objc:
            a, b = r.choice(['YES', 'NO']), r.choice(['YES', 'NO'])
        elif x < 0.6 and self.objc:
            a, b = r.choice(['__objc_yes', '__objc_no']), r.choice(['__objc_yes', '__objc_no'])
        elif x < 0.65:
            f = ['1.0', '1.50', '1.5', '2.0e0', '0.0', '0.5f']
            a, b = r.choice(f), r.choice(f)
            return '( int ) ( ' + self.p(c) + ' ? ' + a + ' : ' + b + ' )'
        elif x < 0.7:
            f = ['"a"', '"b"', '"a"', '""', '"ab"']
            w = '' if self.chance(0.7) else 'L' if self.lang == 'c89' else r.choice(['L', 'L', 'u', 'U', 'u8'])
            a, b = w + r.choice(f), w + r.choice(f)
            return '* ( ' + self.p(c) + ' ? ' + a + ' : ' + b + ' )'
        elif x < 0.75:
            f = ["'a'", "'b'", "'\\n'", "'a'"]
            a, b = r.choice(f), r.choice(f)
        else:
            a, b = self.p(self.e(d - 1)), self.p(self.e(d - 1))
        if self.chance(0.12):
            a, b = self.constant(), self.constant()
        elif self.chance(0.06):
            a = self.constant()
        elif self.chance(0.06):
            b = self.constant()
        return self.p(c) + ' ? ' + a + ' : ' + b

    def constant(self):
        """a constant of some arithmetic type"""
        f = ['1', '0', '1u', '2', "'a'", "'\\1'", '( char ) 1', '( signed char ) 0', '( signed char ) 1', '( long ) 0', '( ( int ) 1 )', '1.0', '( signed char ) gcount',
             '1L', '1LL', '0L', '1ULL', '1.0f', '1.0L', "L'a'"]
        f += ['true', 'false', 'bool ( 1 )', 'static_cast < bool > ( 0 )', '( bool ) 1'] if self.cxx else []
        f += ['YES', 'NO', '__objc_yes', '__objc_no', '( YES )', '( BOOL ) 1', '( BOOL ) gcount'] * 2 if self.objc else []
        return self.r.choice(f)

    NULLS = ['0', '( void * ) 0', 'NULLP', '( ( void * ) 0 )']

    def nullcond(self, d=1):
        """null checks next to dereferences, in all combinations"""
        r = self.r
        ps = self.vars('pnode') or ['ghead']
        v = r.choice(ps)
        v2 = v if self.chance(0.8) else r.choice(ps)
        null = r.choice(self.NULLS if not self.cxx else ['0', 'nullptr', 'nullptr', 'NULLP'])
        check = r.choice([v, '! ' + v, v + ' == ' + null, v + ' != ' + null, null + ' == ' + v, null + ' != ' + v,
                          '( ' + v + ' )', '! ( ' + v + ' )', '( ' + v + ' != ' + null + ' )', v + ' -> next', '! ! ' + v])
        use = r.choice([v2 + ' -> val', v2 + ' -> val > 0', '! ' + v2 + ' -> val', 'ext1 ( ' + v2 + ' -> val )',
                        '( * ' + v2 + ' ) . val', 'okay ( ' + v2 + ' )', v2 + ' -> next -> val == ' + self.lit(),
                        '( ' + v2 + ' ) -> val', v2 + ' -> next', '( ' + v2 + ' -> val && ' + self.p(self.e(d - 1)) + ' )'])
        op = r.choice(['&&', '||'])
        return check + ' ' + op + ' ' + use if self.chance(0.5) else use + ' ' + op + ' ' + check

    def cond(self, d=2):
        r = self.r
        x = r.random()
        if x < 0.08:
            return r.choice(['0', '1', '2 > 1', "'a'", '1 == 2', 'sizeof ( int ) > 100', '! 0', '( 1 )'] +
                            (['true', 'false', 'nullptr'] if self.cxx else []) +
                            (['YES', 'NO', 'nil'] if self.objc and not self.cxx else []))
        if x < 0.2:
            return '! ' + self.p(self.e(d - 1)) if self.chance(0.5) else self.p(self.e(d - 1)) + ' != ' + self.p(self.e(d - 1))
        if x < 0.3:
            ps = self.vars('pnode', 'pint')
            if ps:
                v = r.choice(ps)
                return r.choice([v, '! ' + v, v + ' == 0', v + ' != 0', '0 != ' + v])
        if x < 0.37:
            v = self.e(0)
            a = self.p(v) + ' % ' + r.choice(['2', '2', '3'])
            return r.choice([a + ' == 1', '1 == ' + a, a + ' != 0', a + ' == 0', a + ' != 1', '( ' + a + ' ) == 1', a + ' == 1u'])
        if x < 0.45 and self.ew['nullc']:
            return self.nullcond(d)
        if x < 0.5 and self.ew['bit']:
            return self.e1('bit', d)
        return self.e(d)

    # ---- statements
    def stmts(self, d, n):
        return ' '.join(self.s(d) for _ in range(n))

    def block(self, d, n=None, tail=''):
        if n is None:
            n = self.r.choice([0, 1, 1, 2, 2, 3, 4])
        self.scopes.append({})
        lab = len(self.labels)
        s = self.stmts(d, n)
        self.scopes.pop()
        del self.labels[lab:]
        return '{ ' + s + ' ' + tail + ' }'

    def body(self, d):
        """a controlled statement"""
        x = self.r.random()
        if x < 0.06:
            return ';'
        if x < 0.12:
            return '{ }'
        if x < 0.14:
            return '{ ; }'
        if x < 0.12 + self.braces:
            return self.block(d)
        self.scopes.append({})
        s = self.s(d, nodecl=True)
        self.scopes.pop()
        return s

    def lbody(self, d):
        self.loop += 1
        s = self.body(d)
        self.loop -= 1
        return s

    def s(self, d, nodecl=False):
        self.budget -= 4
        if self.budget < 0:
            return self.r.choice(['sink ( 1 ) ;', 'gcount = 2 ;', ';'])
        if d <= 0:
            ks = ['expr', 'assign', 'return', 'jump', 'null', 'ternary'] + ([] if nodecl else ['decl'])
        else:
            ks = self.sk
        k = self.wchoice(self.w, ks)
        if nodecl and k in ('decl', 'label', 'redlocal', 'raii', 'lambda', 'blockexpr', 'deadcode', 'longif'):
            k = 'expr'
        return getattr(self, 's_' + k)(d)

    def s_expr(self, d):
        return self.e(2) + ' ;'

    def s_null(self, d):
        return ';' if self.chance(0.5) else 'sink ( 0 ) ;'

    def s_assign(self, d):
        return self.lv() + ' ' + self.r.choice(['=', '=', '+=', '-=', '<<=', '|=']) + ' ' + self.e(2) + ' ;'

    def s_ternary(self, d):
        return self.lv() + ' = ' + self.cond_op(2) + ' ;'

    def s_decl(self, d):
        r = self.r
        n = self.name()
        t = r.choice(['int', 'int', 'int', 'long', 'uint', 'char', 'arr', 'node', 'pnode', 'pnode', 'pint', 'dbl', 'static', 'multi', 'extern', 'typedef', 'str'] + (['auto', 'ref', 'const', 'local_struct'] if self.cxx else []))
        init = self.chance(0.7)
        if self.insw and self.cxx:
            init = False
            if t in ('auto', 'ref', 'const', 'node', 'static', 'multi', 'local_struct'):
                t = 'int'
        if t in ('int', 'long', 'uint', 'char'):
            self_ref = self.p(self.e(2))
            s = {'uint': 'unsigned'}.get(t, t) + ' ' + n + (' = ' + self_ref if init else '') + ' ;'
            if self.chance(0.08) and not self.c89:
                s = '__attribute__ ( ( unused ) ) ' + s
            self.declare(n, t)
        elif t == 'arr':
            s = 'int ' + n + ' [ 4 ] ;'
            self.declare(n, 'arr')
        elif t == 'node':
            s = 'struct node ' + n + ' ;'
            self.declare(n, 'node')
        elif t == 'pnode':
            s = 'struct node * ' + n + (' = ' + r.choice(['mknode ( )', 'ghead', '0']) if init else '') + ' ;'
            self.declare(n, 'pnode')
        elif t == 'pint':
            s = 'int * ' + n + (' = & gcount' if init else '') + ' ;'
            self.declare(n, 'pint')
        elif t == 'dbl':
            s = 'double ' + n + (' = ' + self.p(self.e(1)) if init else '') + ' ;'
        elif t == 'static':
            s = 'static int ' + n + ' = 3 ;'
            self.declare(n, 'int')
        elif t == 'multi':
            m = self.name()
            s = 'int ' + n + ' = ' + self.p(self.e(1)) + ' , ' + m + ' ;'
            self.declare(n, 'int')
            self.declare(m, 'int')
        elif t == 'extern':
            s = 'extern int gx%d ;' % self.n
        elif t == 'typedef':
            s = 'typedef int ty%d ; ty%d %s ;' % (self.n, self.n, n)
            self.declare(n, 'int')
        elif t == 'str':
            s = 'const char * ' + n + (' = "%s"' % r.choice(['', 'a b', '//x', '/*y*/'])) * (1 if init else 0) + ' ;'
        elif t == 'auto':
            s = 'auto ' + n + ' = ' + self.p(self.e(1)) + ' ;'
            self.declare(n, 'int')
        elif t == 'const':
            s = 'const int ' + n + ' = ' + r.choice([self.p(self.e(1)), '1', '( 2 )']) + ' ;'
        elif t == 'local_struct':
            s = 'struct L%d { int %s ; int get ( int q%d ) { return %s ; } } ;' % (self.n, n, self.n, n)
        else:
            s = 'int & ' + n + ' = gcount ;'
            self.declare(n, 'int')
        return s

    insw = False

    def s_if(self, d):
        return 'if ( ' + self.cond() + ' ) ' + self.ifbody(d)

    def ifbody(self, d):
        return self.body(d - 1)

    def noelse(self, s):
        # keep the dangling else where it was meant
        return s if s.startswith('{') or not re.search(r'\bif\b', s) else '{ ' + s + ' }'

    def s_ifelse(self, d):
        t = self.noelse(self.body(d - 1))
        return 'if ( ' + self.cond() + ' ) ' + t + ' else ' + self.body(d - 1)

    def s_chain(self, d):
        n = self.r.choice([1, 2, 3])
        s = ''
        ret = self.chance(0.5)
        for i in range(n):
            b = self.noelse(self.body(d - 1))
            if ret and self.chance(0.85):
                b = self.retblock(d)
            s += 'if ( ' + self.cond() + ' ) ' + b + ' else '
        s += self.body(d - 1) if self.chance(0.7) else 'if ( ' + self.cond() + ' ) ' + self.body(d - 1)
        return s

    def retblock(self, d):
        x = self.r.random()
        if x < 0.4:
            return self.s_return(d)
        if x < 0.7:
            return '{ ' + self.s_expr(d) + ' ' + self.s_return(d) + ' }'
        return '{ if ( ' + self.cond(1) + ' ) ' + self.s_return(d) + ' else { ' + self.s_return(d) + ' } }'

    def s_while(self, d):
        return 'while ( ' + self.cond() + ' ) ' + self.lbody(d - 1)

    def s_do(self, d):
        return 'do ' + self.lbody(d - 1) + ' while ( ' + self.cond() + ' ) ;'

    def s_for(self, d):
        r = self.r
        x = r.random()
        self.scopes.append({})
        if x < 0.45:
            n = self.name()
            m = ' , ' + self.name() + ' = 0' if self.chance(0.15) else ''
            init = 'int ' + n + ' = 0' + m
            self.declare(n, 'int')
        elif x < 0.7:
            n = self.lv()
            init = n + ' = 0'
        else:
            init = ''
            n = self.lv()
        cond = n + ' < ' + self.p(self.e(1)) if self.chance(0.6) else (self.cond() if self.chance(0.6) else '')
        inc = r.choice([n + ' ++', '++ ' + n, n + ' += 2', n + ' ++ , ' + self.lv() + ' --', self.e(2)]) if self.chance(0.7) else ''
        s = 'for ( ' + init + ' ; ' + cond + ' ; ' + inc + ' ) ' + self.lbody(d - 1)
        self.scopes.pop()
        return s

    def s_nestedfor(self, d):
        r = self.r
        self.scopes.append({})
        a, b = self.name(), self.name()
        if self.chance(0.15):          # the inner loop's variable hides the outer one's
            b = a
        self.declare(a, 'int')
        self.declare(b, 'int')
        x = r.choice([a, b, a, 'gcount'])
        inc = r.choice([x + ' ++', '++ ' + x, x + ' --', x + ' += 1', x + ' ++ , ' + b + ' ++', '( ' + x + ' ++ )'])
        init2 = r.choice(['int ' + b + ' = 0', 'int ' + b + ' = ' + (a if a != b else '1'), 'int ' + b + ' = 0 , w%d = 1' % self.n])
        inner = 'for ( ' + init2 + ' ; ' + b + ' < 9 ; ' + inc + ' ) ' + self.lbody(d - 2)
        self.scopes[-1].pop(b, None)
        self.loop += 1
        outer = r.choice([inner, '{ ' + inner + ' }', '{ ' + inner + ' ' + self.s_expr(1) + ' }', '{ { ' + inner + ' } }'])
        self.loop -= 1
        init1 = r.choice(['int ' + a + ' = 0', 'int ' + a + ' = 0', 'int ' + a + ' = 0 , u%d = 2' % self.n])
        s = 'for ( ' + init1 + ' ; ' + a + ' < 9 ; ' + a + ' ++ ) ' + outer
        self.scopes.pop()
        return s

    def s_switch(self, d, enum=None):
        r = self.r
        insw, self.insw = self.insw, True
        self.sw += 1
        lab, self.labels = self.labels, self.labels[:]
        self.scopes.append({})
        vals = ['0', '1', '2', '3', '4', '5', "'x'"]
        subject = self.p(self.e(1))
        if enum is None and self.chance(0.3):
            vals, subject = ['RED', 'GREEN', 'BLUE'], 'pick ( )'
        elif enum:
            vals, subject = enum
        vals = vals[:]
        if subject == 'pick ( )' and self.chance(0.5):
            pass
        else:
            r.shuffle(vals)
            vals = vals[:r.randint(0, len(vals))]
        labs = ['case ' + v + ' :' for v in vals]
        if r.random() < 0.2 and not enum and vals and vals[0].isdigit():
            labs.append('case 10 ... 20 :')
        if self.chance(0.65):
            labs.insert(r.randint(0, len(labs)) if self.chance(0.5) else len(labs), 'default :')
        s = ''
        i = 0
        while i < len(labs):
            l = labs[i]
            while self.chance(0.2) and i + 1 < len(labs):
                i += 1
                l += ' ' + labs[i]
            n = r.choice([1, 1, 2, 3])
            parts = []
            for _ in range(n):
                parts.append(self.s(d - 1, nodecl=True) if self.chance(0.6) else self.block(d - 1))
            x = r.random()
            if x < 0.5:
                parts.append('break ;')
            elif x < 0.6:
                parts.append(self.s_return(d))
            elif x < 0.65:
                parts[-1] = '{ ' + parts[-1] + ' break ; }'
            elif x < 0.7 and self.loop:
                parts.append('continue ;')
            elif x < 0.75 and self.cxx:
                parts.append(r.choice(['throw 1 ;', 'throw Tmp ( 1 ) ;']))
            s += l + ' ' + ' '.join(parts) + ' '
            i += 1
        if self.chance(0.08) and s:
            s += 'lab%d : ' % self.newid() + self.s_expr(1)
        self.scopes.pop()
        self.labels = lab
        self.sw -= 1
        self.insw = insw
        if self.chance(0.08):
            x = r.random()
            if x < 0.3:
                return 'switch ( ' + subject + ' ) ;'
            if x < 0.6 and labs:
                return 'switch ( ' + subject + ' ) ' + labs[0] + ' sink ( 1 ) ;'
            return 'switch ( ' + subject + ' ) { }'
        pre = ''
        if self.chance(0.05):
            pre = self.s_expr(1)
        return 'switch ( ' + subject + ' ) { ' + pre + s + ' }'

    def newid(self):
        self.n += 1
        return self.n

    def s_return(self, d):
        if self.rettype == 'void':
            return 'return ;'
        if self.rettype == 'none':
            return 'sink ( 3 ) ;'
        if self.rettype == 'bool' and self.chance(0.6):
            return 'return ' + self.r.choice(['true', 'false'] if self.cxx else ['gbool', '1', '( signed char ) 0']) + ' ;'
        x = self.r.random()
        v = self.e(2)
        if x < 0.2:
            v = self.e(0)
        elif x < 0.3:
            v = '( ' + v + ' )'
        return 'return ' + v + ' ;'

    def s_jump(self, d):
        o = (['break ;', 'continue ;'] if self.loop else []) + (['break ;'] if self.sw else [])
        return self.r.choice(o) if o else self.s_return(d)

    def s_label(self, d):
        if self.inlambda:
            return self.s_expr(d)
        l = 'lab%d' % self.newid()
        self.labels.append(l)
        return l + ' : ' + self.s(d - 1, nodecl=True)

    inlambda = False

    def s_goto(self, d):
        if not self.labels:
            return self.s_expr(d)
        return 'goto ' + self.r.choice(self.labels) + ' ;'

    def s_block(self, d):
        return self.block(d - 1)

    def s_paramassign(self, d):
        ps = [n for n in self.params]
        if not ps:
            return self.s_assign(d)
        n = self.r.choice(ps)
        if n not in self.vars('int', 'long', 'uint'):
            return self.s_assign(d)
        x = self.r.random()
        if x < 0.5:
            return n + ' = ' + self.e(1) + ' ;'
        if x < 0.65 and not self.insw:
            return '{ int ' + n + ' = 1 ; ' + n + ' = 2 ; }'
        return self.r.choice([n + ' += 1 ;', n + ' ++ ;', '( ' + n + ' ) = 3 ;', 'gcount = ' + n + ' = 4 ;',
                              'if ( ( ' + n + ' = 5 ) ) sink ( ' + n + ' ) ;', '* & ' + n + ' = 6 ;'])

    params = ()

    def s_redlocal(self, d):
        if self.rettype not in ('int', 'long'):
            return self.s_decl(d)
        n = self.name()
        x = self.r.random()
        tail = 'return ' + self.r.choice([n, n, n, '( ' + n + ' )', n + ' + 1', '- ' + n, self.e(0)]) + ' ;'
        ty = self.r.choice(['int', 'int', 'long', 'char', 'static int', 'const int'])
        init = ' = ' + ('1' if 'st' in ty else self.p(self.e(1)))
        mid = self.r.choice(['', '', '', 'sink ( ' + n + ' ) ; '])
        more = self.r.choice(['', '', ', m%d = 1 ' % self.n])
        if self.chance(0.1):
            return '{ struct L%d { int %s ; } ; return gcount ; }' % (self.n, n)
        return '{ ' + ty + ' ' + n + init + ' ' + more + ' ; ' + mid + tail + ' }'

    def s_redif(self, d):
        r = self.r
        c = self.cond()
        if self.cxx and self.chance(0.7):
            T, F = 'true', 'false'
        elif self.objc:
            T, F = r.choice([('YES', 'NO'), ('__objc_yes', '__objc_no'), ('( BOOL ) 2', '( BOOL ) 0')])
        else:
            T, F = '( signed char ) 1', '( signed char ) 0'
        a, b = r.choice([(T, F), (T, F), (F, T), (T, T), (F, F), ('1', '0'), (T, '0'), ('ext0 ( )', F)])
        if self.chance(0.15):
            a, b = r.choice([(T, self.constant()), (self.constant(), F), (self.constant(), self.constant())])
        x = r.random()
        if x < (0.8 if self.rettype == 'bool' else 0.3) and self.rettype in ('int', 'long', 'bool'):
            f = 'return %s ;'
        else:
            n = r.choice(['gbool', 'gschar', self.lv()])
            f = n + r.choice([' = ', ' = ', ' == ', ' += ']) + '%s ;'
        w = r.choice(['%s', '{ %s }', '{ { %s } }', '{ sink ( 1 ) ; %s }', '{ %s ; }'])
        w2 = w if self.chance(0.7) else r.choice(['%s', '{ %s }'])
        el = ' else ' + w2 % (f % b)
        if self.chance(0.1):
            el = ''
        return 'if ( ' + c + ' ) ' + w % (f % a) + el

    def s_nullcheck(self, d):
        return r_choice(self, ['if ( ', 'while ( ']) + self.nullcond() + ' ) ' + self.block(d - 1, 1) if self.chance(0.5) \
            else self.lv() + ' = ' + self.nullcond() + ' ;'

    def s_emptyish(self, d):
        r = self.r
        e = r.choice([';', '{ }', '{ ; }', '{ { } }', '{ /* nothing */ }', '{ sink ( 1 ) ; }'])
        f = r.choice([';', '{ }', '{ ; }', '{ sink ( 2 ) ; }'])
        c = self.cond(1)
        return r.choice(['if ( %s ) %s' % (c, e), 'if ( %s ) %s else %s' % (c, e, f), 'while ( %s ) %s' % (c, e),
                         'do %s while ( %s ) ;' % (e, c), 'for ( ; %s ; ) %s' % (c, e), 'switch ( ext0 ( ) ) %s' % e,
                         'if ( %s ) { sink ( 0 ) ; } else %s' % (c, e)])

    def s_deadcode(self, d):
        r = self.r
        o = ['return ;' if self.rettype == 'void' else self.s_return(d)]
        if self.rettype == 'none':
            o = ['sink ( 1 ) ;']
        if self.loop:
            o += ['break ;', 'continue ;']
        if self.cxx:
            o += ['throw 1 ;', 'throw Tmp ( 2 ) ;']
        a, b = r.choice(o), r.choice(o)
        x = r.choice(['%s', '{ %s }', 'if ( ext0 ( ) ) %s else ' + b, 'if ( ext0 ( ) ) %s', 'if ( ext1 ( 1 ) ) { %s } else { ' + b + ' }',
                      'while ( ext0 ( ) ) { %s }', 'do { %s } while ( ext0 ( ) ) ;', '{ { %s } }', 'if ( ext0 ( ) ) { } else %s',
                      'lab%d : %%s' % self.newid() if not self.inlambda else '%s']).replace('%s', a)
        return '{ ' + (self.s_expr(1) if self.chance(0.4) else '') + ' ' + x + ' ' + r.choice([self.s_expr(1), self.s_expr(1) + ' ' + self.s_expr(1), ';', '{ }', 'lab%d : ; ' % self.newid() if not self.inlambda else '']) + ' }'

    def s_odd(self, d):
        v = self.e(0)
        two = self.r.choice(['2'] * 5 + ['2u', '2L', '02', '0x2', '( 2 )', '3', '2ull', '1'])
        a = self.p(v) + self.r.choice([' % '] * 6 + [' / ', ' & ', ' - ', ' * ', ' >> ', ' ^ ', ' + ']) + two
        one = self.r.choice(['1'] * 5 + ['1u', '1L', '01', '( 1 )', '1ul', '- 1', '0x1'])
        if self.chance(0.5):
            return 'if ( ' + self.r.choice([a + ' == ' + one, one + ' == ' + a, a + ' != ' + one, '( ' + a + ' ) == ' + one, '! ( ' + a + ' == ' + one + ' )',
                                           a + ' > ' + one, a + ' == ' + one + ' + 0', '( int ) ' + one + ' == ' + a]) + ' ) ' + self.body(d - 1)
        return 'if ( ' + self.r.choice([a + ' == 1', '1 == ' + a, '( ' + a + ' ) == 1', a + ' == 0', a + ' != 1', a + ' == 1L',
                                       '2 % ' + self.p(v) + ' == 1', '1 == ' + a + ' && ' + a + ' == 1']) + ' ) ' + self.body(d - 1)

    def s_longif(self, d):
        n = self.r.choice([1, 3, 12, 13, 14, 15, 20])
        body = '\n'.join('sink ( %d ) ;' % i for i in range(n))
        k = self.r.choice(['{ if ( ext0 ( ) ) {\n%s\n} ' + self.jumpout() + ' }', 'while ( ext0 ( ) ) { ext0 ( ) ; if ( ext1 ( 2 ) ) {\n%s\n} }',
                           'for ( ; ext0 ( ) ; ) if ( ext1 ( 2 ) ) {\n%s\n}', 'do { if ( ext1 ( 3 ) ) {\n%s\n} } while ( ext0 ( ) ) ;',
                           'if ( ext0 ( ) ) {\n%s\n}', 'while ( ext0 ( ) ) { if ( ext1 ( 2 ) ) {\n%s\n} else sink ( 1 ) ; }',
                           'while ( ext0 ( ) ) { if ( ext1 ( 2 ) ) {\n%s\n} break ; }'])
        return KEEP + k.replace('%s', body) + KEEP

    def jumpout(self):
        return self.r.choice(['return ;' if self.rettype == 'void' else self.s_return(0)] + (['break ;', 'continue ;'] if self.loop else []))

    # C++
    def s_rangefor(self, d):
        self.scopes.append({})
        n = self.name()
        self.declare(n, 'int')
        s = 'for ( ' + self.r.choice(['int', 'auto', 'const auto &', 'int &']) + ' ' + n + ' : ' + self.r.choice(['vec', 'vec', 'arr0']) + ' ) '
        if s.find('const') >= 0:
            self.scopes[-1][n] = 'cint'
        s += self.lbody(d - 1)
        self.scopes.pop()
        return s

    def s_try(self, d):
        s = 'try ' + self.nolab(lambda: self.block(d - 1))
        for _ in range(self.r.choice([1, 1, 2])):
            s += ' catch ( ' + self.r.choice(['int %s' % self.name(), 'const Tmp & %s' % self.name(), 'char', 'long & %s' % self.name()]) + ' ) ' + \
                self.nolab(lambda: self.block(d - 1))
        if self.chance(0.3):
            s += ' catch ( ... ) ' + self.block(d - 1)
        return s

    def nolab(self, f):
        return f()

    def s_throw(self, d):
        return self.r.choice(['throw 1 ;', 'throw Tmp ( 3 ) ;', 'throw ;', 'throw ext0 ( ) ;'])

    def s_delete(self, d):
        r = self.r
        ps = self.vars('pnode') or ['ghead']
        v = r.choice(ps)
        v2 = v if self.chance(0.8) else r.choice(ps + ['ghead'])
        c = r.choice([v, v + ' != nullptr', 'nullptr != ' + v, v + ' != 0', '( ' + v + ' )', v + ' == nullptr', '! ' + v,
                      v + ' -> next', v + ' && gcount', v + ' != ghead', 'auto q%d = %s' % (self.newid(), v)])
        u = v2 + ' -> next' if '-> next' in c and self.chance(0.7) else v2
        dl = r.choice(['delete ' + u + ' ;', 'delete ' + u + ' ;', 'delete [ ] ' + u + ' ;', 'delete ( ' + u + ' ) ;'])
        x = r.choice(['%s', '{ %s }', '{ %s ' + u + ' = nullptr ; }', '{ %s ' + u + ' = 0 ; }', '{ %s sink ( 1 ) ; }',
                      '{ sink ( 1 ) ; %s }', '{ %s ghead = nullptr ; }', '{ { %s } }', '{ %s ' + u + ' = ghead ; }',
                      '{ %s ; }']) % dl
        return 'if ( ' + c + ' ) ' + x + (' else sink ( 2 ) ;' if self.chance(0.1) else '')

    def fresh_fn(self, rettype, params, f):
        save = (self.loop, self.sw, self.labels, self.rettype, self.params, self.insw, self.inlambda)
        self.loop = self.sw = 0
        self.labels = []
        self.insw = False
        self.rettype = rettype
        self.params = params
        try:
            return f()
        finally:
            self.loop, self.sw, self.labels, self.rettype, self.params, self.insw, self.inlambda = save

    def s_lambda(self, d):
        if self.inlambda:
            return self.s_expr(d)
        n, p = self.name(), self.name()
        cap = self.r.choice(['=', '&'])
        saved = self.scopes
        if cap == '=':      # captured copies are const
            self.scopes = [{k: ('c' + t if i else t) for k, t in s.items()} for i, s in enumerate(saved)]

        def f():
            self.inlambda = True
            self.scopes.append({p: 'int'})
            b = self.block(d - 1)
            self.scopes.pop()
            return b
        b = self.fresh_fn('int', [p], f)
        self.scopes = saved
        return 'auto %s = [ %s ] ( int %s ) -> int %s ; %s ( 1 ) ;' % (n, cap, p, b[:-1] + ' return 0 ; }', n)

    def s_raii(self, d):
        if self.insw:
            return self.s_expr(d)
        n = self.name()
        return self.r.choice(['std :: lock_guard < std :: mutex > %s ( gmutex ) ;', 'std :: unique_lock < std :: mutex > %s ( gmutex ) ;',
                              'Guard %s ;', 'Guard %s ( 3 ) ;', 'Tmp %s ;', 'const Guard %s ;', 'std :: unique_ptr < int > %s ;']) % n

    def s_enumsw(self, d):
        return self.s_switch(d, (['Mode :: One', 'Mode :: Two', 'Mode :: Three', 'Mode :: Four'], 'mode ( )'))

    def s_ifinit(self, d):
        n = self.name()
        self.scopes.append({n: 'int'})
        s = self.r.choice(['if ( int %s = %s ; %s > 0 ) ' % (n, self.p(self.e(1)), n), 'if ( int %s = %s ) ' % (n, self.p(self.e(1))),
                           'while ( int %s = %s ) ' % (n, self.p(self.e(1))), 'if constexpr ( sizeof ( int ) == 4 ) ',
                           'if ( const Tmp %s = mktmp ( ) ; %s . ok ( ) ) ' % (n, n)])
        self.scopes[-1][n] = 'int'
        if 'Tmp' in s or 'constexpr' in s:
            self.scopes[-1].clear()
        s += self.noelse(self.body(d - 1)) + (' else ' + self.body(d - 1) if s.startswith('if') and self.chance(0.3) else '')
        self.scopes.pop()
        return s

    def s_attr(self, d):
        return self.r.choice(['if ( ext0 ( ) ) [[likely]] ' + self.body(d - 1), '[[maybe_unused]] int %s = 1 ;' % ('z%d' % self.newid()) if not self.insw else ';',
                              'if ( ext0 ( ) ) [[unlikely]] { ' + self.s_expr(1) + ' } else [[likely]] { }'])

    # Objective-C
    def s_forin(self, d):
        self.scopes.append({})
        n = self.name()
        self.declare(n, 'id')
        self.loop += 1
        s = 'for ( ' + self.r.choice(['id ' + n, 'NSString * ' + n, 'gid']) + ' in ' + self.r.choice(['garr', 'gdict']) + ' ) ' + self.body(d - 1)
        self.loop -= 1
        self.scopes.pop()
        return s

    def s_attry(self, d):
        s = '@try ' + self.block(d - 1)
        k = self.r.choice([0, 1, 1, 2])
        for i in range(k):
            s += ' @catch ( ' + self.r.choice(['NSException * %s' % self.name(), 'id %s' % self.name(), 'NSString * %s' % self.name()]) + ' ) ' + self.block(d - 1)
        if k and self.chance(0.1):
            s += ' @catch ( ... ) ' + self.block(d - 1)
        if k == 0 or self.chance(0.6):
            sv = self.loop, self.sw, self.labels
            self.loop = self.sw = 0
            self.labels = []
            s += ' @finally ' + self.block(d - 1)
            self.loop, self.sw, self.labels = sv
        return s

    def s_sync(self, d):
        return '@synchronized ( gid ) ' + self.block(d - 1)

    def s_pool(self, d):
        return '@autoreleasepool ' + self.block(d - 1)

    def s_blockexpr(self, d):
        if self.inlambda:
            return self.s_expr(d)
        n, p = self.name(), self.name()

        def f():
            self.inlambda = True
            saved = self.scopes
            self.scopes = [{k: ('c' + t if i and t in ('int', 'long', 'uint', 'char', 'node', 'arr', 'pnode') else t) for k, t in s.items()} for i, s in enumerate(saved)]
            for i, s in enumerate(self.scopes):
                for k in [k for k, t in s.items() if t == 'carr']:
                    del s[k]
            self.scopes.append({p: 'int'})
            b = self.block(d - 1)
            self.scopes = saved
            return b
        b = self.fresh_fn('int', [p], f)
        return 'int ( ^ %s ) ( int ) = ^ int ( int %s ) %s ; %s ( 1 ) ;' % (n, p, b[:-1] + ' return 0 ; }', n)

    def nsx(self):
        return self.r.choice(['gstr', 'garr', 'gid', 'gdict', 'gnum', '@"x"'])

    def s_msg(self, d):
        r = self.r
        if self.chance(0.4):
            k = lambda: self.nsx() if self.chance(0.7) else '@ ( gcount )'
            i = lambda: r.choice(['0', 'gcount', '1u'])
            rec = r.choice(['garr', 'gmarr', 'gdict', 'gmdict', 'garr', 'gmarr', 'gdict', 'gmdict', 'gid', 'gstr', '( garr )', '( NSDictionary * ) gid',
                            '( NSMutableArray * ) gid', '( NSMutableDictionary * ) gid', '( const NSArray * ) garr', '( id ) gdict', '[ NSArray array ]'])
            m = r.choice(['objectAtIndex : ' + i(), 'objectAtIndexedSubscript : ' + i(), 'objectForKey : ' + k(), 'objectForKeyedSubscript : ' + k(),
                          'replaceObjectAtIndex : %s withObject : %s' % (i(), k()), 'setObject : %s atIndexedSubscript : %s' % (k(), i()),
                          'setObject : %s forKey : %s' % (k(), k()), 'setObject : %s forKeyedSubscript : %s' % (k(), k()), 'count', 'addObject : ' + k(), 'lastObject'])
            return '( void ) [ %s %s ] ;' % (rec, m)
        return r.choice(['[ garr count ] ;', '[ gstr length ] ;', '[ gid description ] ;', '[ NSArray array ] ;', '[ gstr isEqualToString : @"q" ] ;',
                         'gid = [ garr objectAtIndex : ' + self.p(self.e(1)) + ' ] ;', 'gid = [ gdict objectForKey : ' + self.nsx() + ' ] ;',
                         '[ gmarr replaceObjectAtIndex : 1 withObject : ' + self.nsx() + ' ] ;', '[ gmdict setObject : ' + self.nsx() + ' forKey : @"k" ] ;',
                         'gid = [ gmarr objectAtIndex : 0 ] ;', 'gid = [ gid objectAtIndex : 0 ] ;', 'gid = garr [ 0 ] ;', 'gmarr [ 1 ] = gid ;',
                         '[ gmarr setObject : gid atIndexedSubscript : 2 ] ;', '[ ( NSArray * ) gid objectAtIndex : 0 ] ;',
                         '[ [ NSObject alloc ] init ] ;', 'gid = [ gmdict objectForKeyedSubscript : @"z" ] ;', 'gid = gdict [ @"k" ] ;'])

    def s_boxed(self, d):
        r = self.r
        sel, args = r.choice([
            ('numberWithInt', ['1', '( 1 )', 'RED', '( gcount + 1 )', 'gcount', '( RED )', "'a'", '1u', '-1', '+ 2', '0x10', '( ( 2 ) )', 'BLUE', '( int ) 3']),
            ('numberWithUnsignedInt', ['1u', '( 1u )', '1', '( 2u + 1u )', '( 3 )']),
            ('numberWithLong', ['1L', '( 1L )', '1', '( gcount )', '( 2 )']),
            ('numberWithUnsignedLong', ['1UL', '( 1UL )', '1L']),
            ('numberWithLongLong', ['1LL', '( 1LL )', '1L']),
            ('numberWithUnsignedLongLong', ['1ULL', '( 1ULL )', '1']),
            ('numberWithFloat', ['1.0f', '( 1.0f )', '1.0', '1', '( 1.5 )']),
            ('numberWithDouble', ['1.0', '( 1.0 )', '1.0f', '( 2 )', '1']),
            ('numberWithChar', ["'a'", "( 'a' )", '1', '( char ) 2', '( ( char ) 3 )']),
            ('numberWithBool', ['YES', 'NO', '( YES )', '__objc_yes', '1', '( gcount > 1 )', '( BOOL ) 1', 'gflag', '( gflag )']),
            ('numberWithInteger', ['1', '( 2L )'])])
        cls = r.choice(['NSNumber', 'NSNumber', 'NSNumber', 'Stub'])
        if self.chance(0.2):
            return '[ NSString stringWithUTF8String : ' + r.choice(['cstr ( )', '( cstr ( ) )', '"abc"', 'gcstr', '( gcstr )', 'gcc', '( gcc )']) + ' ] ;'
        return 'gid = [ ' + cls + ' ' + sel + ' : ' + r.choice(args) + ' ] ;'

    def s_container(self, d):
        r = self.r
        return r.choice(['[ NSArray array ] ;', '[ NSMutableArray array ] ;', '[ NSArray arrayWithObject : gid ] ;', '[ NSArray arrayWithObjects : gid , gid , nil ] ;',
                         '[ NSArray arrayWithObjects : gids count : 2 ] ;', '[ NSArray arrayWithArray : garr ] ;', '[ NSDictionary dictionary ] ;',
                         '[ NSDictionary dictionaryWithObject : gid forKey : gstr ] ;', '[ NSDictionary dictionaryWithObjects : gids forKeys : gids count : 1 ] ;',
                         '[ NSDictionary dictionaryWithObjectsAndKeys : gid , gstr , nil ] ;', '[ NSDictionary dictionaryWithObjects : garr forKeys : garr ] ;',
                         '[ NSMutableDictionary dictionary ] ;', '[ [ NSArray alloc ] init ] ;', '[ garr count ] ;', 'gid = @[ gid , gstr ] ;', 'gid = @{ gstr : gid } ;',
                         '[ Stub array ] ;'])

    def s_raise(self, d):
        return self.r.choice(['[ gexc raise ] ;', '[ NSException raise : @"a" format : @"b" ] ;', '[ gnexc raise ] ;', '@throw gexc ;', '@throw [ NSException alloc ] ;'])

    def s_nscheck(self, d):
        r = self.r
        v = r.choice(['gstr', 'garr', 'obj0'])
        if v == 'obj0' and not self.vars('NSString *'):
            v = 'gstr'
        elif v == 'obj0':
            v = r.choice(self.vars('NSString *'))
        v2 = v if self.chance(0.8) else 'gstr'
        null = r.choice(['nil', '0', '( void * ) 0']) if not self.cxx else r.choice(['nullptr', 'nullptr', '0'])
        check = r.choice([v, '! ' + v, v + ' == ' + null, v + ' != ' + null, null + ' == ' + v, null + ' != ' + v, '( ' + v + ' )',
                          '! ( ' + v + ' )'])
        use = r.choice(['[ ' + v2 + ' hash ]', '[ ' + v2 + ' hash ] > 1', '! [ ' + v2 + ' hash ]', '[ ' + v2 + ' isEqual : gid ]', '[ gid isEqual : ' + v2 + ' ]',
                        'ext1 ( ( int ) [ ' + v2 + ' hash ] )', '! [ ' + v2 + ' isEqual : gid ]', '( [ ' + v2 + ' hash ] )'])
        op = r.choice(['&&', '||'])
        c = check + ' ' + op + ' ' + use if self.chance(0.5) else use + ' ' + op + ' ' + check
        return 'if ( ' + c + ' ) ' + self.body(d - 1)

    # ---- functions
    def params_list(self):
        r = self.r
        n = r.choice([0, 0, 1, 2, 3, 3, 5, 9, 10, 11, 12])
        ps, names = [], []
        for i in range(n):
            t = r.choice(['int', 'int', 'int', 'long', 'uint', 'char', 'pnode', 'pint'])
            nm = self.name()
            if self.chance(0.05) and self.cxx:
                ps.append('int')
                continue
            at = '__attribute__ ( ( unused ) ) ' if self.chance(0.05) else ''
            ty = {'uint': 'unsigned', 'pnode': 'struct node *', 'pint': 'int *'}.get(t, t)
            ps.append(at + ty + ' ' + nm)
            names.append((nm, t))
        return ps, names

    def fbody(self, names, ret, n=None, extra=''):
        self.rettype = ret
        self.loop = self.sw = 0
        self.labels = []
        self.insw = False
        self.taken = set()
        self.scopes = [{'gcount': 'int', 'ghead': 'pnode'}, dict(names)]
        self.params = [x for x, _ in names]
        if n is None:
            n = self.r.choice([0, 1, 2, 3, 5, 8])
        self.budget = self.r.choice([60, 150, 300, 800])
        self.scopes.append({})
        s = extra + ' ' + self.stmts(self.maxdepth, n)
        tail = ''
        if ret not in ('void', 'none') and not self.chance(0.05 if not self.cxx else 0):
            tail = self.s_return(0) if not self.chance(0.15) else self.tailredlocal()
        self.scopes = [{'gcount': 'int', 'ghead': 'pnode'}]
        return '{ ' + s + ' ' + tail + ' }'

    def tailredlocal(self):
        n = self.name()
        return 'int ' + n + ' = ' + self.p(self.e(1)) + ' ; return ' + n + ' ;'

    def function(self):
        r = self.r
        self.taken = set()
        ps, names = self.params_list()
        ret = r.choice(['int', 'int', 'void', 'long', 'bool'])
        cret = ret if ret != 'bool' else 'bool' if self.cxx else 'signed char'
        fn = 'fun%d' % self.newid()
        args = ' , '.join(ps) or ('void' if not self.cxx else '')
        pre = r.choice(['', '', '', 'static ', 'extern '])
        if self.cxx and self.chance(0.1):
            self.dep = True
            b = self.fbody(names, ret)
            self.dep = False
            return 'template < class T , int N > ' + cret + ' ' + fn + ' ( ' + args + r.choice(['', ' , T' if ps else 'T', ' , T tval' if ps else 'T tval']) + ' ) ' + b
        if self.cxx and self.chance(0.03):
            return 'template < class T > ' + cret + ' ' + fn + ' ( ' + args + ' ) ' + self.fbody(names, ret)
        if self.cxx and self.chance(0.05):
            return 'void ' + fn + ' ( ' + args + ' ) try ' + self.fbody(names, 'void') + ' catch ( ... ) { ' + ' }'
        if not self.cxx and self.chance(0.04) and ps and not any('__attr' in p for p in ps):
            return 'int ' + fn + ' ( ' + ' , '.join(n for n, _ in names) + ' ) ' + ' '.join(p + ' ;' for p in ps) + ' ' + self.fbody(names, 'int')
        proto = ''
        if self.chance(0.1):
            proto = pre + cret + ' ' + fn + ' ( ' + args + ' ) ; '
        if self.chance(0.05) and ps:
            args += ' , ...'
            proto = ''
        return proto + pre + cret + ' ' + fn + ' ( ' + args + ' ) ' + self.fbody(names, ret)

    def klass(self):
        """C++ class"""
        r = self.r
        i = self.newid()
        kw = r.choice(['class', 'struct'])
        nm = 'K%d' % i
        bases = []
        for b in self.classes:
            if self.chance(0.3) and len(bases) < 2:
                bases.append(r.choice(['public', 'private', 'protected', 'virtual public', '']) + ' ' + b)
        head = kw + ' ' + nm + (' : ' + ' , '.join(bases) if bases else '')
        body, outs = [], []
        basis = True
        virt = self.chance(0.4)
        tmpl, own, oh = '', nm, ''
        if self.chance(0.12):
            tmpl, own, oh = 'template < class T , int N > ', nm + ' < T , N >', 'template < class T , int N > '
            self.dep = True
        nf = r.choice([0, 1, 3, 5, 19, 20, 21, 22]) if self.chance(0.3) else r.randint(0, 3)
        for j in range(nf):
            if self.chance(0.2):
                body.append(r.choice(['public', 'private', 'protected']) + ' :')
            body.append(r.choice(['int', 'int', 'char', 'static int', 'mutable int', 'struct node *']) + ' f%d_%d ;' % (i, j))
            if self.chance(0.1):
                body.append('int bf%d_%d : 3 ;' % (i, j))
        if self.chance(0.5):
            acc = r.choice(['public', 'private', 'protected', 'public'])
            basis = basis and acc != 'private'
            body.append(acc + ' :')
            dt = r.choice(['~ %s ( ) ;', 'virtual ~ %s ( ) { }', '~ %s ( ) = default ;', 'virtual ~ %s ( ) = default ;', '~ %s ( ) { sink ( 1 ) ; }'])
            body.append(dt % nm)
        nmeth = r.choice([0, 1, 2, 3, 4]) if self.chance(0.9) else r.choice([28, 29, 30, 31])
        for j in range(nmeth):
            if self.chance(0.3):
                body.append(r.choice(['public', 'private', 'protected']) + ' :')
            self.taken = set()
            ps, names = self.params_list() if nmeth < 20 else ([], [])
            ps = [p + ' = ' + r.choice(['0', '0', '1']) if self.chance(0.2) and False else p for p in ps]
            if ps and self.chance(0.25):
                # defaults for a suffix of the parameters
                k = r.randint(0, len(ps) - 1)
                ps2 = ps[:k] + [p + ' = 0' for p in ps[k:]]
            else:
                ps2 = ps
            q = r.choice(['virtual ', '', '', 'static ', 'inline ']) if virt else r.choice(['', '', 'static ', 'inline '])
            c = ' const' if q in ('', 'virtual ') and self.chance(0.2) else ''
            mn = r.choice(['met%d_%d' % (i, j), 'met%d_%d' % (i, j), 'run%d' % j])
            x = r.random()
            if x < 0.5:
                body.append(q + 'int ' + mn + ' ( ' + ' , '.join(ps2) + ' )' + c + ' ' + self.fbody(names, 'int', r.choice([0, 1, 2])))
            elif x < 0.8:
                body.append(q + 'int ' + mn + ' ( ' + ' , '.join(ps2) + ' )' + c + ' ;')
                if q != 'inline ':
                    outs.append(oh + 'int ' + own + ' :: ' + mn + ' ( ' + ' , '.join(ps) + ' )' + c + ' ' + self.fbody(names, 'int', r.choice([0, 1, 3])))
            elif q == 'virtual ':
                body.append(q + 'int ' + mn + ' ( ' + ' , '.join(ps2) + ' )' + c + ' = 0 ;')
            else:
                basis = False
                body.append('explicit ' * (len(ps) == 1) + nm + ' ( ' + ' , '.join(['struct dummy%d_%d * ' % (i, j)] + ps2) + ' ) ' + self.fbody(names, 'none', 1))
        if self.chance(0.3):
            for j in range(r.choice([1, 1, 2, 4])):
                k = '%d_%d' % (i, j)
                body.insert(r.randint(0, len(body)), r.choice([
                    'unsigned : 3 ;', 'int : 0 ;', 'union { int ua%s ; char ub%s ; } ;' % (k, k), 'struct { int sa%s ; int sb%s ; } ;' % (k, k),
                    'struct { int na%s ; } nn%s ;' % (k, k), 'friend void fr%s ( ) ;' % k, 'friend struct Fr%s ;' % k, 'T tm%s ;' % k if tmpl else 'long lo%s ;' % k, 'int an%s [ N ] ;' % k if tmpl else 'char ch%s ;' % k,'typedef int Ty%s ;' % k,
                    'using Us%s = int ;' % k, 'static_assert ( 1 , "" ) ;', 'int di%s = 3 ;' % k, 'int da%s { 3 } , db%s ;' % (k, k),
                    'static constexpr int sc%s = 1 ;' % k, 'static inline int sl%s = 2 ;' % k, 'int ar%s [ 3 ] ;' % k, 'int ( * fp%s ) ( int abc ) ;' % k,
                    'operator int ( ) const { return 1 ; }' if j == 0 else 'bool operator ! ( ) const ;' if j == 1 else 'int in%s ;' % k,
                    nm + ' & operator += ( int amount ) { return * this ; }' if j == 0 else 'void ref%s ( ) & ;' % k,
                    'friend int fd%s ( int abc , int de ) { return abc ; }' % k, 'template < class T > void tv%s ( T value , int w ) { }' % k,
                    'static int sm%s ( ) { return 0 ; }' % k, 'void del%s ( ) = delete ;' % k, 'class Nc%s { int a%s ; int b%s ; } ;' % (k, k, k),
                    'union Nu%s { int a%s ; int b%s ; } ;' % (k, k, k), 'enum class Ec%s { A , B } ;' % k, 'const int cc%s = 4 ;' % k,
                    'int li%s = [ ] ( int lp , int lq ) { int un ; return lp ; } ( 1 , 2 ) ;' % k, 'volatile int vo%s : 4 ;' % k]))
        if self.chance(0.15):
            body.append('enum { E%d } ;' % i)
        if self.chance(0.15):
            body.append('struct Inner%d { int x%d ; virtual void go ( int q = 3 ) ; } ;' % (i, i))
        if self.chance(0.1):
            body.append('template < class V > int tm%d ( V value ) { return 1 ; }' % i)
        self.dep = False
        if not tmpl and basis:
            self.classes.append(nm)
            del self.classes[:-4]
        fwd = tmpl + kw + ' ' + nm + ' ; ' if self.chance(0.1) else ''
        s = fwd + tmpl + head + ' { ' + ' '.join(body) + ' } ; ' + ' '.join(outs)
        return s

    def toplevel(self):
        r = self.r
        x = r.random()
        self.scopes = [{'gcount': 'int', 'ghead': 'pnode'}]
        self.taken = set()
        if x < 0.03:
            return 'int %s = %s ;' % (self.name(), r.choice(['1', '( 2 )', '1 ? 2 : 2', '! ! 1', '3 & 1']))
        if x < 0.05:
            return 'struct S%d { %s } ;' % (self.newid(), ' '.join('int m%d ;' % j for j in range(r.choice([0, 2, 19, 20, 21, 22]))))
        if x < 0.06:
            return 'extern int %s ;' % self.name()
        if x < 0.07:
            return 'union U%d { int a ; char b ; } ;' % self.newid()
        if self.cxx:
            if x < (0.8 if 'klass' in self.focus else 0.35):
                return self.klass()
            if x < 0.38:
                return 'namespace ns%d { ' % self.newid() + self.function() + ' }'
        if self.objc and x < (0.85 if 'ocunit' in self.focus else 0.55):
            return self.ocunit()
        return self.function()

    classes = ()
    dep = False          # within a template

    # ---- Objective-C units
    ENF = ['base method', 'protected method', 'abstract method', 'prohibited method']

    def ann(self, p=0.25):
        if not self.chance(p):
            return ''
        e = self.r.choice(self.ENF)
        tail = self.r.choice(['', '', ' [use other]', ' []'])
        t = self.r.choice(['oclint:enforce[%s]', 'oclint:enforce[%s]', 'oclint:enforce[%s]', 'oclint:allow[%s]', 'oclint:enforce[%s'])
        return ' __attribute__ ( ( annotate ( "' + t % e + tail + '" ) ) )'

    def ocmethod_sig(self, sel, kind):
        parts = sel.split(':')
        if len(parts) == 1:
            return '%s ( %s ) %s' % (kind, self.mtype(sel), sel), []
        s, names = '%s ( %s ) ' % (kind, self.mtype(sel)), []
        if kind == '-' and self.chance(0.06):
            s += '__attribute__ ( ( ibaction ) ) '
        for i, p in enumerate(parts[:-1]):
            n = self.name()
            t = 'int'
            s += '%s : ( int ) %s%s ' % (p, '__attribute__ ( ( unused ) ) ' if self.chance(0.05) else '', n)
            names.append((n, t))
        return s, names

    def mtype(self, sel):
        return 'int'

    SELS = ['alpha', 'beta', 'gamma', 'alphaWith:', 'betaWith:and:', 'value', 'setValue:', 'initThing', 'compute:', 'refresh']

    def ocunit(self):
        r = self.r
        i = self.newid()
        nm = 'C%d' % i
        sup = r.choice(['NSObject'] + [c for c, _ in self.occlasses])
        supmeths = dict(self.occlasses).get(sup, [])
        out = ''
        protos = []
        if self.chance(0.3):
            ms = []
            pn = 'P%d' % i
            for x in r.sample(self.SELS, r.randint(1, 3)):
                m, k = self.pm(i, x)
                ms.append(m)
                self.occalls.append((( '( ( id < %s > ) gid )' % pn) if k == '-' else '( ( Class < %s > ) gid )' % pn, x))
            out += '@protocol %s %s %s @end ' % (pn, r.choice(['', '', '< NSObject >']) if True else '', ' '.join(ms))
            protos.append(pn)
        nf = r.choice([0, 1, 2, 3]) if self.chance(0.85) else r.choice([19, 20, 21, 22])
        ivs = ['iv%d_%d' % (i, j) for j in range(nf)]
        if self.chance(0.5):
            ivs.append('_value')
        if self.chance(0.3):
            ivs.append('compute')
        # an ivar may not repeat a superclass's
        ivs = [v for v in ivs if not (v in ('_value', 'compute') and sup != 'NSObject')]
        kinds = {}
        decl = r.sample(self.SELS, r.randint(0, 5))
        dl = ''
        for sname in decl:
            k = r.choice(['-', '-', '-', '+'])
            kinds[sname] = k
            sig, _ = self.ocmethod_sig(sname, k)
            dl += ' ' + sig + self.ann() + ' ;'
        prop = ''
        if self.chance(0.4):
            prop = '@property ( assign ) int prop%d %s ; ' % (i, self.ann(0.3))
        out += '@interface %s : %s %s { %s } %s %s @end ' % (nm, sup, '< ' + ' , '.join(protos) + ' >' if protos else '', ' '.join('int %s ;' % v for v in ivs), prop, dl)
        catsels = []
        if self.chance(0.25):
            catsels = r.sample(self.SELS, r.randint(1, 2))
            cd = ''
            for sname in catsels:
                if sname in kinds:
                    k = kinds[sname]
                else:
                    k = kinds.setdefault(sname, r.choice(['-', '-', '+']))
                cd += ' ' + self.ocmethod_sig(sname, k)[0] + self.ann(0.4) + ' ;'
                self.occalls.append(('( ( %s * ) gid )' % nm if k == '-' else nm, sname))
            out += '@interface %s ( %s ) %s @end ' % (nm, r.choice(['', 'Cat%d' % i]), cd)
        impl = [x for x in decl if self.chance(0.6)] + [x for x in r.sample(self.SELS, 2) if x not in decl and x not in catsels]
        for x, k in supmeths:
            if x not in impl and self.chance(0.5):
                impl.append(x)
                kinds.setdefault(x, k)
        eq = []
        if self.chance(0.3):
            impl.append('isEqual:')
        elif self.chance(0.1):
            eq += ['+isEqual:', r.choice(['isEqual', 'isEqual:to:'])][:r.choice([1, 2])]
        if self.chance(0.2):
            impl.append('hash')
        elif self.chance(0.2):
            eq += r.choice([['+hash'], ['+hash'], ['hash:'], ['hashValue'], ['hash:', '+hash']])
        if prop == '' and self.chance(0.05):
            out = out.replace(' @end ', ' @property ( nonatomic , readonly ) NSUInteger hash ; @end ', 1)
        nmeth = 0
        if self.chance(0.05):
            nmeth = r.choice([28, 29, 30, 31])
        body = ''
        seen = set()
        for x in impl:
            if x in seen:
                continue
            seen.add(x)
            k = kinds.setdefault(x, '-')
            body += ' ' + self.ocimpl(x, k, nm, sup, ivs, i, supmeths, decl, kinds, bool(prop))
        for x in eq:
            y = {'+isEqual:': '+ ( BOOL ) isEqual : ( id ) object { return object == self ; }', '+hash': '+ ( NSUInteger ) hash { return 1 ; }',
                 'isEqual': '- ( BOOL ) isEqual { return 1 ; }', 'isEqual:to:': '- ( BOOL ) isEqual : ( id ) a to : ( id ) b { return a == b ; }',
                 'hash:': '- ( NSUInteger ) hash : ( int ) seed { return seed ; }', 'hashValue': '- ( NSUInteger ) hashValue { return 1 ; }'}[x]
            body = body + ' ' + y if self.chance(0.5) else ' ' + y + body
        for j in range(nmeth):
            body += ' - ( void ) gen%d { }' % j
        out += '@implementation %s %s @end ' % (nm, body)
        if self.chance(0.4):
            # a category with an implementation of its own, of methods the class's own does not have
            cand = [x for x, _ in supmeths] + catsels + r.sample(self.SELS, 2)
            cat, cd, cb = 'Extra%d' % i, '', ''
            for x in cand:
                if x in seen or not self.chance(0.5):
                    continue
                seen.add(x)
                k = kinds.setdefault(x, '-')
                if self.chance(0.6):
                    cd += ' ' + self.ocmethod_sig(x, k)[0] + self.ann(0.2) + ' ;'
                cb += ' ' + self.ocimpl(x, k, nm, sup, [] if self.chance(0.3) else ivs, i, supmeths, decl, kinds, bool(prop))
            out += '@interface %s ( %s ) - ( int ) extra%d ;%s @end @implementation %s ( %s ) - ( int ) extra%d %s%s @end ' % (
                nm, cat, i, cd, nm, cat, i, self.fbody([], 'int', 2), cb)
        self.occlasses.append((nm, [(x, k) for x, k in kinds.items() if x in decl]))
        del self.occlasses[:-3]
        del self.occalls[:-6]
        return out

    def pm(self, i, sel):
        k = self.r.choice(['-', '-', '-', '+'])
        return self.ocmethod_sig(sel, k)[0] + self.ann(0.3) + ' ;', k

    def ocimpl(self, sel, kind, nm, sup, ivs, i, supmeths, decl, kinds, prop):
        r = self.r
        if sel == 'isEqual:':
            return '- ( BOOL ) isEqual : ( id ) object { return object == self ; }'
        if sel == 'hash':
            return '- ( NSUInteger ) hash { return 1 ; }'
        self.taken = set()
        sig, names = self.ocmethod_sig(sel, kind)
        ex = ''
        me = 'self'
        args = lambda s: s if ':' not in s else ' '.join(p + ' : 1' for p in s.split(':')[:-1])
        for _ in range(r.choice([0, 1, 2, 3])):
            x = r.random()
            if x < 0.25 and ivs and kind == '-':
                v = r.choice(ivs)
                ex += r.choice([v + ' = 1 ;', v + ' += 2 ;', 'gcount = ' + v + ' ;', 'self -> ' + v + ' = 3 ;', v + ' ++ ;', '( ' + v + ' ) = 4 ;'])
            elif x < 0.5 and (sel, kind) in supmeths:
                ex += r.choice(['[ super %s ] ;' % args(sel), 'if ( gcount ) [ super %s ] ;' % args(sel), '[ self %s ] ;' % args(sel)])
            elif x < 0.6 and decl:
                y = r.choice(decl)
                if kinds[y] == kind:
                    ex += '[ self %s ] ;' % args(y)
            elif x < 0.85 and self.occlasses:
                c, ms = r.choice(self.occlasses)
                if ms:
                    y, k = r.choice(ms)
                    ex += '[ %s %s ] ;' % ('( ( %s * ) gid )' % c if k == '-' else c, args(y))
            elif x < 0.9 and self.occalls:
                # a method of a protocol or of a category of some class (maybe this one)
                c, y = r.choice(self.occalls)
                ex += '[ %s %s ] ;' % (c, args(y))
            elif prop and kind == '-':
                ex += r.choice(['self . prop%d = 2 ;', 'gcount = self . prop%d ;', '[ self setProp%d : 3 ] ;', '[ ( ( ' + nm + ' * ) gid ) prop%d ] ;',
                                '_prop%d = 1 ;']) % i
            else:
                ex += r.choice(['[ gstr length ] ;', '[ garr count ] ;', '[ NSArray array ] ;', 'proh ( ) ;', 'proh2 ( 1 ) ;'])
        return sig + self.fbody(names, 'int', r.choice([0, 0, 1, 3]), ex)

    occlasses = ()
    occalls = ()

    def prelude(self):
        s = '#define NULLP ((void *)0)\n' if not self.cxx else '#define NULLP 0\n'
        s += C_PRELUDE
        s += 'int proh(void) __attribute__((annotate("oclint:enforce[prohibited method]")));\n'
        s += 'int proh2(int value) __attribute__((annotate("oclint:enforce[prohibited method] [safe()]")));\n'
        if self.cxx:
            s += CXX_PRELUDE + 'extern Vec vec; extern int arr0[5];\n'
        else:
            s += 'extern signed char gbool;\n'
        if self.objc:
            st = NSTUBS
            if self.cxx:
                st = st.replace('#define nil ((void *)0)\n', '#define nil nullptr\n')
            s += st
            s += ('@interface Stub : NSObject\n+ (id)array;\n' + '\n'.join('+ (id)%s:(%s)v;' % x for x in [
                ('numberWithInt', 'int'), ('numberWithUnsignedInt', 'unsigned'), ('numberWithLong', 'long'), ('numberWithUnsignedLong', 'unsigned long'),
                ('numberWithLongLong', 'long long'), ('numberWithUnsignedLongLong', 'unsigned long long'), ('numberWithFloat', 'float'),
                ('numberWithDouble', 'double'), ('numberWithChar', 'char'), ('numberWithBool', 'BOOL'), ('numberWithInteger', 'NSInteger')]) + '\n@end\n'
                'extern NSString *gstr; extern NSArray *garr; extern NSMutableArray *gmarr; extern NSDictionary *gdict; extern NSMutableDictionary *gmdict;\n'
                'extern id gid; extern id gids[3]; extern NSNumber *gnum; extern NSException *gexc; extern NotAnException *gnexc; extern BOOL gflag;\n'
                'extern char *gcstr; extern const char *gcc;\n')
        return s

    def units(self):
        self.classes = ['Base0', 'Base1', 'Base2'] if self.cxx else []
        self.occlasses = [('NSString', [('length', '-')])]
        self.occalls = []
        us = [self.toplevel() for _ in range(self.size)]
        if not self.cxx:
            return us
        # several declarations within one: what follows in the block is judged too
        out = []
        while us:
            k = 1
            if self.chance(0.12):
                k = self.r.choice([2, 2, 3, 4])
                g, oc = ' '.join(us[:k]), any('@' in u for u in us[:k])
                if KEEP in g or (oc and 'template' in g) or '#' in g:
                    k = 1
                elif oc or ('template' not in g and 'operator' not in g and self.chance(0.4)):
                    out.append('extern "C" { %s }' % g)
                else:
                    out.append('%s { %s }' % (self.r.choice(['namespace ns%d' % self.newid(), 'namespace', 'inline namespace ns%d' % self.newid()]), g))
                    if out[-1].startswith('namespace ns'):
                        out[-1] += ' using namespace %s ;' % out[-1].split()[1]
            if k == 1:
                out.append(us[0])
            us = us[k:]
        return out


def r_choice(self, l):
    return self.r.choice(l)


KEEP = '\x01'
KEYWORDS = {'do', 'if', 'in', 'or', 'for', 'int', 'asm', 'new', 'try', 'and', 'not', 'xor', 'auto', 'case', 'char', 'else',
            'enum', 'goto', 'long', 'this', 'true', 'void', 'bool', 'out', 'id', 'SEL', 'IMP', 'get', 'run', 'vec', 'fun', 'ext', 'nil'}

TOK = re.compile(r'''(?:\b(?:u8|[LuU]))?"(?:\\.|[^"\\])*"|(?:\bL)?'(?:\\.|[^'\\])*'|/\*.*?\*/|@?[A-Za-z_]\w*|\.?\d(?:[\w.]|[eE][+-])*|\[\[|\]\]|->|\+\+|--|<<=|>>=|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|\.\.\.|::|@|.''', re.S)


def layout(rng, text, style=None):
    """re-space the (single line) code; text between KEEP marks stays as it is"""
    style = style or rng.choice(['plain', 'plain', 'airy', 'lines', 'wild'])
    out = []
    for pi, part in enumerate(text.split(KEEP)):
        if pi % 2:
            out.append('\n' + part + '\n')
            continue
        toks = [t for t in TOK.findall(part) if not t.isspace()]
        line = 0
        for i, t in enumerate(toks):
            out.append(t)
            line += len(t) + 1
            nxt = toks[i + 1] if i + 1 < len(toks) else ''
            if style == 'plain':
                sep = '\n' if t in ('{', '}', ';') and rng.random() < 0.9 else ' '
            elif style == 'airy':
                sep = '\n\n' if t in ('{', '}', ';') else ' '
                if rng.random() < 0.05:
                    sep += '/* c */ '
            elif style == 'lines':
                sep = '\n' if rng.random() < 0.4 else ' '
            else:
                x = rng.random()
                sep = '\n' if x < 0.1 else '\t' if x < 0.2 else '/*x*/' if x < 0.25 else ' \\\n' if x < 0.28 else '  ' if x < 0.35 else ' '
                if x > 0.6 and (t in '(){};,[]' or nxt in ('(', ')', '{', '}', ';', ',')) and not (t == '[' and nxt == '[') and not (t == ']' and nxt == ']'):
                    sep = ''
                if t == '@' or (t.startswith('@') and len(t) == 1):
                    sep = ''
            if t == '@':
                sep = ''
            elif t == '/':
                sep = ' '
            if line > 110 and style == 'plain' and rng.random() < 0.7 and not sep.endswith('\n') and t != '@':
                sep = '\n'
            if '\n' in sep:
                line = 0
            out.append(sep)
    return ''.join(out)


EXT = {'c': '.c', 'c89': '.c', 'cxx': '.cpp', 'objc': '.m', 'objcxx': '.mm'}
FLAGS = {'c': ['-std=gnu17'], 'c89': ['-std=gnu89'], 'cxx': ['-std=gnu++20'], 'objc': ['-fobjc-runtime=gnustep-2.0', '-fblocks', '-fobjc-exceptions', '-Wno-everything'],
         'objcxx': ['-fobjc-runtime=gnustep-2.0', '-fblocks', '-fobjc-exceptions', '-std=gnu++20', '-fcxx-exceptions', '-fexceptions']}


def source(rng, lang, focus=None, size=None, style=None):
    """(main text, header text or None)"""
    p = Program(rng, lang, size, focus)
    us = p.units()
    pre = p.prelude()
    inline = rng.random() < 0.15
    main = (pre if inline else '#include "pre.h"\n')
    st = style or rng.choice(['plain', 'plain', 'airy', 'lines', 'wild', 'mix'])
    for u in us:
        main += layout(rng, u, None if st == 'mix' else st) + '\n'
    return main, (None if inline else pre)
