"""Crossing of statement patterns, expressions of every kind and contexts: each function is one line, lines the compiler
rejects are dropped, so that unusual combinations (literals of any width, dependent operands, extensions) are reached without
a generator having to know what is valid."""
import os
import gen, mutgen

LIT = ['0', '1', '2', '1u', '1L', '0L', '1UL', '1LL', '0ULL', '18446744073709551615u', '0x7fffffff', "'a'", "L'a'", "u'a'", "U'a'", "'\\xff'", "'ab'", '1.0', '1.0f', '1.0L', '0.0',
       '0x1p3', '1.0i', '1i', '"a"', '"a"', 'L"a"', 'L"a"', 'u"a"', 'U"a"', 'u8"a"', '""', 'L""', '"a" "b"', '(__int128)1', '(unsigned char)1', '(char)1', '(signed char)1', '(signed char)0',
       '(float)1', '(void *)0', '(_Bool)1', '(enum En)1', 'Ea', 'Eb', 'sizeof(int)', '__alignof__(int)', '__func__', '((1))', '(1)', '+1', '-1', '~0', '!0', '!1', '- -1', '!!1',
       '__builtin_constant_p(a)', '__extension__ 1', '(0, 1)', '__builtin_offsetof(struct St, x)', '__builtin_types_compatible_p(int, int)', '1.f', '1e400', '0b1', '01', "'\\0'",
       '1 + 1', '1 - 1', '1 / 1', '1 << 2', '1 == 1', '1 == 2', '1 < 2', '1 ? 2 : 3', '1 && 0', '1 || a', '0 && a', '1 / 0', '1 % 2', '__LINE__', '__FILE__', 'ZERO', 'ONE', 'NEG', 'YESNO']
C_LIT = ['(int){1}', '(struct St){1}.x', '(int[]){1, 2}', '(int[]){1, 2}[0]', '_Generic(a, int: 1, default: 2)', '__builtin_choose_expr(1, 1, 2)', '({ 1; })', '({ int z = a; z; })', '_Alignof(int)', '({ ; })', '&&lab']
X_LIT = ['nullptr', 'true', 'false', 'true', 'false', '__null', 'R"(x)"', "u8'a'", 'int()', 'int{}', 'int(1)', 'static_cast<long>(1)', 'static_cast<bool>(0)', 'const_cast<const int &>(a)', 'reinterpret_cast<long>(p)', 'dynamic_cast<Xs *>(xp)',
         'Xs()', 'Xs{1}', 'Xs{}.x', 'xs', 'xp', '*xp', 'xp->x', 'xs.get()', 'xp->get()', '(*xp).x', '&xs', '!xp', '!xs', 'xs + 1', 'xs == xs', 'xs && xs', 'xs ? 1 : 1', 'xs[1]', 'xs(1)', '*xs', 'Xs::st', '&Xs::x', '&Xs::get',
         'xs.*(&Xs::x)', '(xs.*(&Xs::get))()', 'noexcept(a)', 'typeid(int) == typeid(a)', 'new int', 'new int[2]', 'new Xs(1)', 'new (p) int', '[] { return 1; }()', '[=](int q) { return q ? a : b; }(1)', '[&] { if (a) { } }',
         '[](auto q) { return q; }(a)', 'Ec::A', 'Ec::B', 'static_cast<int>(Ec::A)', '1_lit', '"s"_lit', 'throw 1', 'sizeof...(Ts)', 'alignof(int)', '__is_same(int, long)', '1.0_lit', 'static_cast<Ec>(1)', 'a <=> b', 'rf', 'cr', 'bo', 'bo', '!bo', 'this']
VAR = ['a', 'b', 'a', 'b', '*p', 'p', 'p', 'q', '&a', 'p[0]', 'a[p]', 's.x', 's.bf', 's', 'sp->x', 'sp', 'sp', 'sp->n', 'sp->n->x', '(*sp).x', '(*sp).n', 'arr', 'arr[1]', '&arr[1]', '*arr', 'fn', '&fn', '*fn', 'fn(a)', 'fp', 'fp(a)', '(*fp)(a)', 'vec',
       'vec[0]', 'cplx', '__real__ cplx', '__imag__ cplx', 'fl', 'db', 'ld', 'big', 'en', 'vol', 'ul', 'ch', 'sc', 'un.i', 'un.f', 'sp->fp(1)', 'a++', '--b', 'p++', '*p++', 'a = b', 'a += 1', 'a, b', '(a)', '((a))', '((p))', '(void)a', '(int)a', '(long)a', '(float)a', '(char *)p',
       'a ? a : b', 'a ?: b', 'a ? b : b', 'a && b', 'a || b', 'a & b', 'a & 1', 'a | b', 'a ^ b', 'a % 2', 'a % b', '2 % a', 'a == b', 'a != 0', '0 == a', 'p == 0', 'p != 0', '0 != sp', 'sp == sp->n', '!a', '!!a', '!p', '!sp', '~a', '-a', '- -a', '!~a', '~-!a', '!(a)', '!(a == b)', 'a < b',
       'a < b < 1', 'a - b', 'a * 2', 'p - q', 'p + 1', 'a << b', 'sizeof a', 'sizeof(a)', 'sizeof arr', 'vla', 'vla[1]', 'str', '*str', 'str[0]', 'glob', 'ID(a)', 'ID(a == b)', 'NOT(a)', 'PAREN(a)', '__builtin_expect(a, 1)', '__builtin_expect(!!(a), 0)', 'DEREF(p)', 'ext(1)', 'vo(1)', 'nor(1)']
DEP = ['T::v', 'T::v', 'T()', 'T{}', 't', 't', 't.x', 't->x', 't()', '*t', '&t', 't[0]', 'tp', '*tp', 'tp->x', 'tp[1]', 'sizeof(T)', 'sizeof...(Ts)', 'N', 'N', '(T)1', 'T(1)', 'static_cast<T>(1)', 't.template f<1>()', 't->f()', 't.f(t)', 'noexcept(t)', 'typeid(T) == typeid(t)', 'new T', 'new T[N]',
       'decltype(t)(1)', 'requires { t; }', 'fn(t)', 'unknown(t)', 't == t', 't == 0', 't != nullptr', '!t', '!!t', '- -t', 't % 2', 't & 1', 't && t', 't ? t : t', 't ? 1 : 1', 't ? true : false', 'alignof(T)', '__is_same(T, int)', '(... + ts)', '(ts && ...)', 'Tc<T>::v', 'Tc<T>()', 'typename T::ty()', 'T::template q<N>', '(t)', '((t))', '(T::v)',
       'N + 1', 'N ? 1 : 2', 'N == 0', 'N == N', 'N / 0', 'vt<T>', 'vt<int>', '[](T u) { return u; }(t)', 't++', 't = t', 't += N', 'throw t', 'Tc<T>::st(t)', 'Co<T>', 'Co<int>', 't, t', 'T::v, N', 'static_cast<bool>(t)', 'bool(t)', 'const_cast<T>(t)']
OBJ = ['@1', '@"a"', '@(a)', '@[]', '@[@1]', '@{}', '@{@1: @2}', 'nil', 'Nil', 'YES', 'NO', '__objc_yes', '__objc_no', '(BOOL)1', '(BOOL)0', '(BOOL)a', 'gid', 'gid', 'gstr', 'garr', 'gdict', 'gnum', '[gid description]', '[gstr length]', '[garr count]', '@selector(x)', '@selector(isEqual:)', '@protocol(NSFastEnumeration)', '@encode(int)',
       '^{}', '^(int z) { return z ? 1 : 1; }(1)', '@YES', '@(YES)', '@\'a\'', '@1.0f', 'garr[0]', 'gdict[@"x"]', 'gid == nil', 'nil == gid', 'gid != nil', '!gid', '[gid isEqual:gid]', '[gid length] == 0', 'gid && [gid length]', 'gid == nil || [gid length]', 'gid != nil && [gstr isEqualToString:gstr]', '[NSNumber numberWithInt:1]', '[NSArray arrayWithObjects:gid, nil]',
       '[NSNumber numberWithInt:a]', '[NSNumber numberWithBool:YES]', '[(NSArray *)gid objectAtIndex:a]', '[gdict objectForKey:gstr]', '[NSDictionary dictionaryWithObjectsAndKeys:gid, gstr, nil]', '[[gid class] description]', '[NSObject class]', '[super description]', '[self description]', 'self', '_cmd', '_iv', 'self->_iv', 'self == nil', '(id)p', '(__bridge void *)gid', '[NSNumber numberWithUnsignedLongLong:1ULL]', '[gid performSelector:@selector(x)]', '@available(macOS 10.10, *)', '[NSArray array]']
STMT = ['#;', 'if (# - 2 == #) ;', 'if (# / 2 == 1) ;', 'if ((# & 2) == 1) ;', 'if (# % 2 == #) ;', '(void)(#);', 'if (#) ;', 'if (#) {} else {}', 'if (#) a = #; else a = #;', 'if (#) return #; return #;', 'if (#) { return #; } else { return #; }', 'if (#) { if (#) { a = 1; } }', 'while (#) ;', 'while (#) { break; }', 'do ; while (#);', 'do { # ; } while (#);', 'for (#; #; #) ;', 'for (; #; ) { # ; }',
        'for (int i = #; #; i++) ;', 'switch (#) { case 1: # ; break; }', 'switch (a) { case #: break; case 77: ; default: # ; }', 'switch (#) { case 5 ... 6: return #; default: break; case 3: { break; } }', 'switch (#) # ;', 'switch (#) default: ;', 'return #;', 'return (#);', 'return # ? # : #;', 'a = # ? # : #;', 'b = (# ? # : #) == #;', '# ? # : #;', 'a = # ?: #;',
        'a = # == #;', 'a = # != #;', 'if (# == #) ;', 'if (# != #) a = 1; else a = 2;', 'if (# && #) ;', 'if (# || #) ;', 'if (# && # && #) {}', 'if (# & #) ;', 'if (# | #) ;', 'if (# % # == #) ;', 'if (# % 2 == #) ;', 'if (# & # && #) ;', 'if ((# & 1) == #) ;', 'if (!(#)) a = #; else b = #;', 'if (!(#)) ;', 'if ((#) == 0) ; else a = 1;', 'if (((#))) ;', 'if (!!(#)) ;', 'a = ((#));',
        'a = !(#);', 'a = -(-(#));', 'a = ~(!(#));', 'int z = #; return z;', 'int z = #; (void)z;', '__auto_type z = #; (void)z;', 'int z[] = { #, # }; (void)z;', 'int z[#]; (void)z;', 'static int z = #; return z;', 'const int z = #;', 'int z = (#), y = # ? # : #; return z;', 'a = #, b = #;', '(#) = #;', '# = # = #;', 'a += #;', 'a[p] = #;', '*p = #;', 'goto lab; lab: # ;', 'lab: if (#) goto lab; return #; a = 1;', '{ # ; { # ; } }',
        'if (p && #) *p = #;', 'if (p == 0 || #) a = *p;', 'if (p != 0 && p[#]) ;', 'if (sp && sp->x == #) ;', 'if (!sp || sp->n == #) ;', 'if (# == sp || sp->x) ;', 'if (sp != # && sp->x) ;', 'fn(#);', 'fn((#));', 'ext(# ? # : #);', 'return fn(#) ? # : #;', 'for (;;) { if (#) continue; break; }', 'while (#) { if (#) { a++; break; } else { continue; } }', 'asm volatile ("" : : "r"(#));', 'sizeof(#);', '({ # ; });', 'a = ({ # ; # ; });',
        'if (#) {} else if (#) {} else if (#) ;', 'if (#) { a = 1; } if (#) { a = 2; } return #;', 'if (#) { a = #; }', 'if (a == #) { return #; } return !(#);', 'for (int i = 0; i < #; i++) for (int j = 0; j < #; i++) ;', 'for (int i = #, j = #; i; j++) while (#) ;', 'break_: while (1) { # ; break; }', 'if (__builtin_expect(#, #)) ;', '__builtin_unreachable(); # ;', '__attribute__((unused)) int z = #;', '_Static_assert(#, "x");', 'enum { ZZ = # };', 'typedef __typeof__(#) TZ; TZ z; (void)z;', 'struct { int z : #; } zz; (void)zz;']
X_STMT = ['if (int z = #) ;', 'if (int z = #; #) {} else {}', 'if (auto z = #) return #;', 'while (int z = #) ;', 'switch (int z = #) { }', 'switch (int z = #; z) { case 1: break; default: ; }', 'for (auto z : #) ;', 'for (auto &&z : #) { # ; }', 'for (int z = #; auto y : arr) { (void)z; }', 'for (int z : { #, # }) ;', 'throw #;', 'throw;', 'delete #;', 'delete[] #;', 'if (#) delete #;', 'if (# != nullptr) { delete p; }', 'if (p) delete p;',
          'if (xp != #) delete xp;', 'try { # ; } catch (int) { }', 'try { throw #; } catch (...) { # ; }', 'try { } catch (int e) { return #; } catch (const Xs &e) { }', 'auto z = #; (void)z;', 'auto &&z = #; return z;', 'auto z{#}; (void)z;', 'int z{#}; (void)z;', 'int z(#); return z;', 'auto [z, y] = #; (void)z;', 'auto l = [z = #] { return z; }; l();', '[&] { # ; }();', '[=] { return #; }();', '[&](int z = #) { if (#) return #; return #; }(1);', 'if constexpr (#) { } else { }', 'if constexpr (#) { return #; } else { return #; }', 'constexpr int z = #;', 'static_assert(#);',
          'new int(#);', 'new Xs[#];', 'Xs z(#); (void)z;', 'Xs z{#};', 'Xs z = #;', 'typeid(#);', 'noexcept(#);', 'Tc<#> z;', 'decltype(#) z = #;', 'struct L { int m = #; int f() { return # ? m : m; } };', 'struct L { int m; L() : m(#) { } };', 'struct L { void f(int z = #) { } };', 'struct L { static constexpr int z = #; virtual ~L() { if (#) {} } };', '[[maybe_unused]] auto z = #;', 'using TZ = decltype(#);', 'if (#) [[likely]] { } else [[unlikely]] ;', 'static_cast<void>(#);', 'return static_cast<int>(#);', 'alignas(#) int z; (void)z;', 'if consteval { # ; } else { # ; }', 'if (requires { #; }) { }']
O_STMT = ['for (id z in #) ;', 'for (id z in #) { # ; }', '@synchronized (#) { # ; }', '@throw #;', '@try { # ; } @catch (id e) { }', '@try { } @finally { return #; }', '@try { # ; } @catch (NSException *e) { @throw; } @finally { # ; }', '@autoreleasepool { # ; }', 'id z = #; (void)z;', 'BOOL z = # ? YES : NO; (void)z;', 'BOOL z = #; (void)z;', 'if (# == nil) ;', 'if (gid != nil && #) ;', 'if (gid && [gid isEqual:#]) ;', 'if (gid == nil || [gid isEqual:#]) ;', 'if ([gid isEqual:#] && gid) ;', 'if (!gid && [gid isEqual:#]) ;', 'if (gid != nil && -[gid length]) ;', 'if (gid != nil && ![gid isEqual:#]) ;', 'if (gid && ~[gid hash]) ;', 'if (nil != gid && +[gid isEqual:#]) ;', 'if (gid == nil || -[gid length]) ;',
          '[gid isEqual:#];', '[garr objectAtIndex:#];', '[gdict objectForKey:#];', '[gmdict setObject:# forKey:#];', '[gmarr replaceObjectAtIndex:# withObject:#];', '[NSNumber numberWithInt:#];', '[NSNumber numberWithBool:#];', '[NSNumber numberWithDouble:#];', '[NSNumber numberWithChar:#];', '[NSNumber numberWithUnsignedInt:#];', '[NSNumber numberWithLong:#];', '[NSNumber numberWithInteger:#];', '[NSArray arrayWithObjects:#, #, nil];', '[NSArray arrayWithObject:#];', '[NSDictionary dictionaryWithObject:# forKey:#];', '[NSDictionary dictionaryWithObjectsAndKeys:#, #, nil];', '[NSDictionary dictionaryWithObjects:# forKeys:#];', '@(#);', '@[ #, # ];', '@{ # : # };', '^{ # ; }();', 'int (^z)(int) = ^(int y) { if (#) return #; return y; }; z(1);', '__block int z = #; ^{ z = #; }();', '[NSException raise:# format:#];', '[(id)# description];', '_iv = #;', 'self->_iv = #;', 'return [gid isEqual:#] ? # : #;', 'BOOL z = (BOOL)(#); (void)z;']
PRE = r'''
enum En { Ea, Eb, Ec1 = 7 };
struct St { int x; int bf : 3; struct St *n; int (*fp)(int); };
union Un { int i; float f; };
typedef int v4 __attribute__((vector_size(16)));
int fn(int); int ext(int); void vo(int); int nor(int) __attribute__((noreturn));
extern int glob; extern const char *str; extern struct St s, *sp; extern union Un un; extern v4 vec; extern _Complex double cplx; extern float fl; extern double db; extern long double ld;
extern __int128 big; extern enum En en; extern volatile int vol; extern unsigned long ul; extern char ch; extern signed char sc; extern int arr[3]; extern int (*fp)(int); extern int *q;
#define ID(x) x
#define PAREN(x) (x)
#define NOT(x) !x
#define DEREF(x) *x
#define ZERO 0
#define ONE 1
#define NEG (-1)
#define YESNO (1 ? 1 : 1)
'''
X_PRE = r'''
namespace std { class type_info { public: virtual ~type_info(); bool operator==(const type_info &) const; }; template <class E> class initializer_list { const E *b; decltype(sizeof(0)) n; public: const E *begin() const; const E *end() const; };
struct strong_ordering { int v; constexpr operator int() const { return v; } static const strong_ordering less, equal, greater; }; inline constexpr strong_ordering strong_ordering::less{-1}, strong_ordering::equal{0}, strong_ordering::greater{1}; }
void *operator new(decltype(sizeof(0)), int *) noexcept;
struct Xs { int x; int y; static int st; Xs(); Xs(int); virtual ~Xs(); int get(); operator bool() const; Xs operator+(int) const; bool operator==(const Xs &) const; int operator[](int) const; int operator()(int) const; int operator*() const; };
struct Agg { int i; int j; }; extern Agg ag;
enum class Ec { A, B, C };
template <class T> struct Tc { static constexpr int v = 1; static int st(T); };
template <class T> constexpr int vt = sizeof(T);
template <class T> concept Co = sizeof(T) > 1;
extern Xs xs, *xp; extern int &rf; extern const int &cr; extern bool bo;
int operator""_lit(unsigned long long); int operator""_lit(long double); int operator""_lit(const char *, decltype(sizeof(0)));
'''
NSX = '''extern id gid; extern NSString *gstr; extern NSArray *garr; extern NSMutableArray *gmarr; extern NSDictionary *gdict; extern NSMutableDictionary *gmdict; extern NSNumber *gnum;
'''
FN = ['int f@(int a, int b, int *p) { % return 0; }', 'int f@(int a, int b, int *p) { % return 0; }', 'static inline int f@(int a, int b, int *p) { % return a; }', 'void f@(int a, int b, int *p) { int vla[a]; % }', 'int f@(int a, int b, int *p) { if (a) { % } return 0; }',
      'int f@(int a, int b, int *p) { for (;;) { % } }', 'int f@(int a, int b, int *p) { switch (a) { case 1: % break; default: % } return 0; }', 'int f@(int a, int b, int *p) { % % % return a; }']
X_FN = ['struct M@ { int x; int m(int a, int b, int *p) { % return 0; } };', 'struct M@ { M@(int a, int b, int *p); int x; }; M@::M@(int a, int b, int *p) : x(a) { % }', 'struct M@ { virtual ~M@(); int a, b, *p; }; M@::~M@() { % }', 'auto l@ = [](int a, int b, int *p) { % return 0; };', 'int f@(int a, int b, int *p) try { % return 0; } catch (...) { % return 1; }',
        'namespace n@ { int f(int a, int b, int *p) { % return 0; } }', 'constexpr int f@(int a, int b, int *p) { % return 0; }', 'auto f@(int a, auto b, int *p) { % return 0; }', 'struct M@ : Xs { int a, b, *p; int get2() const { % return 0; } };', 'int f@(int a, int b, int *p) noexcept { % return 0; }', 'auto f@(int a, int b, int *p) -> int { % return 0; }']
T_FN = ['template <class T, int N, class... Ts> int f@(T t, T *tp, int a, int b, int *p, Ts... ts) { % return 0; }', 'template <class T, int N> struct M@ { T x; template <class... Ts> int m(T t, T *tp, int a, int b, int *p, Ts... ts) { % return 0; } };',
        'template <class T, int N, class... Ts> struct M@ { M@(T t, T *tp, int a, int b, int *p, Ts... ts); }; template <class T, int N, class... Ts> M@<T, N, Ts...>::M@(T t, T *tp, int a, int b, int *p, Ts... ts) { % }',
        'template <class T, int N, class... Ts> auto l@ = [](T t, T *tp, int a, int b, int *p, Ts... ts) { % return 0; };', 'template <class T, int N, class... Ts> requires Co<T> int f@(T t, T *tp, int a, int b, int *p, Ts... ts) { % return 0; }',
        'template <class T, int N> int f@(T t, T *tp, int a, int b, int *p, auto... ts) { using T2 = T; struct In { int g(T t, T *tp, int a, int b, int *p) { return 1; } }; % return In().g(t, tp, a, b, p); }',
        'template <class T, int N, class... Ts> struct M@ : T { using T::T; int a, b, *p; T t, *tp; int m(Ts... ts) { % return 0; } ~M@() { } };']
O_FN = ['@interface M@ : NSObject { int _iv; } @property int pr; @end @implementation M@ - (int)m:(int)a b:(int)b p:(int *)p { % return 0; } @end', '@interface M@ : NSObject { id _iv; } @end @implementation M@ + (int)m:(int)a b:(int)b p:(int *)p { % return 0; } - (int)isEqual:(id)o { int a = 1, b = 2, *p = &a; % return 0; } @end',
        'int (^bl@)(int, int, int *) = ^(int a, int b, int *p) { % return 0; };']


def candidates(rng, lang, n):
    x, o = 'xx' in lang, 'objc' in lang
    lit = LIT + C_LIT + (X_LIT if x else []) + (OBJ if o else [])
    var = VAR + (X_LIT if x else []) + (OBJ if o else [])
    out = []
    for i in range(n):
        k = rng.random()
        tpl = False
        if o and k < 0.35:
            f = rng.choice(O_FN)
        elif x and k < 0.7:
            tpl = rng.random() < 0.7
            f = rng.choice(T_FN if tpl else X_FN)
        else:
            f = rng.choice(FN)
        same = rng.random() < 0.3
        last = [None]

        def ex():
            if last[0] and rng.random() < 0.35:
                return last[0]
            k = rng.random()
            e = rng.choice(DEP) if tpl and k < 0.5 else rng.choice(lit) if k < (0.9 if same else 0.55) else rng.choice(var)
            if rng.random() < 0.06:
                e = '(%s)' % e
            last[0] = e
            return e

        def st():
            s = rng.choice(STMT if not (x or o) or rng.random() < 0.5 else (X_STMT if x else []) + (O_STMT if o else []))
            r = ''
            for c in s:
                r += ex() if c == '#' else c
            return r
        t = ''
        for c in f:
            t += st() if c == '%' else c
        out.append(t.replace('f@', 'f%d' % i).replace('M@', 'M%d' % i).replace('l@', 'l%d' % i).replace('n@', 'n%d' % i).replace('bl@', 'bl%d' % i))
    return out


def prelude(lang):
    x, o = 'xx' in lang, 'objc' in lang
    return (gen.NSTUBS + NSX if o else '') + PRE + (X_PRE if x else '')


def source(rng, lang, d, n=40):
    """(main, pre): the candidates the compiler accepts, one per line"""
    pre = prelude(lang)
    open(os.path.join(d, 'pre.h'), 'w').write(pre)
    f = os.path.join(d, 'm' + gen.EXT[lang])
    c = candidates(rng, lang, n)
    for attempt in range(6):
        main = '#include "pre.h"\n' + '\n'.join(c) + '\n'
        open(f, 'w').write(main)
        bad = mutgen.errors(d, f, gen.FLAGS[lang])
        if bad is None:  # the compiler itself crashes on one of them
            c = [x for x in c if rng.random() < 0.5]
            continue
        if not bad:
            return main, pre, len(c)
        gone = {l - 2 for p, l in bad if not p.endswith('pre.h')}
        if not gone:
            break
        c = [x for i, x in enumerate(c) if i not in gone]
    return '#include "pre.h"\nint none;\n', pre, 0
