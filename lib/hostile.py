"""Degenerate and unusual constructs. '@' right after a letter or digit becomes a number of its own in each use."""
import re

# statements for function bodies: int a, b; int *p; available (C and C++)
STMT = r'''
;
{}
{;}
{{{}}}
if (a) ;
if (a) {} else {}
if (a) ; else ;
if (a) if (b) ; else ; else ;
if (a) {{}} else if (b) ; else {;}
for (;;) { break; }
for (;a;) a = 0;
for (int i@ = 0, j@ = 1; i@ < j@; i@++, j@--) ;
for (int i@ = 0; ; ) { for (int j@ = 0; ; i@++) break; break; }
for (;; a++, b++) { if (a) continue; else break; }
for (struct { int q; } s@ = { 0 }; s@.q < 1; s@.q++) ;
for (a = 0; a < 3; ({ a++; })) { }
while (a) ;
while (a) { a--; continue; }
while (({ int t@ = a; t@; })) a = 0;
do ; while (0);
do { } while (a--);
do if (a) break; while (1);
do { continue; } while (0);
switch (a) ;
switch (a) {}
switch (a) { default: ; }
switch (a) { case 1: ; }
switch (a) { int dead@; dead@ = 1; }
switch (a) { case 1: default: case 2: ; }
switch (a) { default: break; case 1: break; }
switch (a) { case 1 ... 5: break; case 7: switch (b) { case 1: ; default: ; } }
switch (a) { case 0: { do { case 1: a++; } while (--b > 0); } }
switch (a) { case 0: if (b) { case 1: ; } else { default: ; } }
switch (a) case 1: b = 0;
switch (a) default: switch (b) case 1: ;
switch (a) { lbl@: case 3: if (b) goto lbl@; }
switch ((a, b)) { case sizeof(int): break; case (1 ? 5 : 6): break; }
switch (a) { { case 1: ; } { default: ; } }
switch (a ? b : a) { case 'x': ; break; case L'y': { break; } default: break; }
L@: ;
L@: M@: N@: a++;
goto L@; L@: goto M@; M@: ;
{ __label__ x@; goto x@; x@: ; }
{ void *t@ = &&x@; goto *t@; x@: ; }
{ static void *t@[] = { &&x@, &&y@ }; goto *t@[a & 1]; x@: y@: ; }
return a; return b;
return ({ a; });
if (a) return a; else return b;
if (a) { return 1; } else { return 0; }
if (a) { return 1; } return 0;
if (!a) b = 1; else b = 2;
if (a != 0) { b = 1; } else { b = 0; }
if (!!a) ; if (~~a) ; if (- -a) ; if (!~-+a) ;
if ((a)) ; if (((a))) ; if ((a) == (b)) ; (a) = (((b))); ((((a))));
if (a == 0 && p) ; if (p && *p) ; if (p == 0 || p[0]) ; if (*p && p != 0) ; if (!p && p[a]) ; if (0 != p || *p == 1) ;
if (a & b) ; if (a | 1 && b) ; if (a ^ b) {} while (a & 0) ; do ; while (a | b && 0);
if (a % 2 == 1) ; if (1 == a % 2) ; if ((a & 1) == 1) ; if (a % b == 1) ; if (a % 2 != 1 % 2) ;
if (1) ; if (0) ; if (1 + 1) ; if ("x") ; if (sizeof(a)) ; if ((void *)0) ; if (&a) ; if (1.0) ; if ('c') ; if (1 ? 0 : 1) ;
a = 1 ? 2 : 3; a = b ? b : b; a = b ?: a; a = b ? (a ? 1 : 0) : (b ?: 2); a = (b ? 1 : 0) == 1 ? 1 : 0; b ? a++ : a--;
a = b ? 1 : 1; a = b ? 1.0 : 1.0; p = b ? p : p; p = b ? &a : &a; a = b ? !a : !a;
const char *s@ = b ? "x" : "x"; const char *r@ = b ? __func__ : __func__;
a = a, b = b, (void)0;
(void)a; (void)sizeof(int); (void)(a, b); (void)({ 1; });
int x@ = x@;
int v@[a > 0 ? a : 1]; (void)v@[0];
int w@[a + 1][b + 1]; (void)sizeof w@;
int arr@[] = { 1, 2, 3 }; arr@[a]++; a[arr@] = b;
int z@[0]; (void)z@;
struct { int : 3; int m : 4; union { int u; float f; }; } an@; an@.m = 1; an@.u = 2;
struct { } em@; (void)em@;
enum { E@A, E@B = 5 } en@; en@ = E@A; switch (en@) { case E@A: break; case E@B: break; default: ; }
enum Q@ { Q@A } q@ = Q@A; switch (q@) { case Q@A: ; }
typedef int T@; T@ t@ = 0; (void)t@;
extern int ex@; ex@ = 1;
static int st@; st@++;
register int rg@; (void)rg@;
volatile int vo@ = 0; vo@; vo@ = vo@;
int (*fp@)(int, int) = 0; if (fp@) fp@(1, 2); (*fp@)(1, 2); (**fp@)(1, 2);
int (*ap@)[3] = 0; (void)ap@;
__typeof__(a) ty@ = a; (void)ty@;
__auto_type at@ = 5; (void)at@;
__extension__ int ee@ = 1; (void)ee@;
int un@ __attribute__((unused));
int cl@ __attribute__((cleanup(cleanup_int))) = 0;
__asm__("" : : : "memory"); __asm__ volatile ("" : "+r"(a) : "r"(b) : "cc");
__asm__ goto ("" : : : : ag@); ag@: ;
a += __builtin_choose_expr(1, 2, "x");
a += __builtin_types_compatible_p(int, long); a += __builtin_offsetof(struct OS, y[1].z);
a = __builtin_expect(!!(a), 0); __builtin_unreachable();
if (__builtin_constant_p(a)) ; if (__builtin_expect(a == b, 1)) { } else { }
__atomic_fetch_add(&a, 1, __ATOMIC_SEQ_CST); __sync_synchronize();
switch (a) { case 1: __attribute__((fallthrough)); default: ; }
_Pragma("clang loop unroll(disable)") for (int k@ = 0; k@ < a; k@++) ;
__builtin_va_list va@; (void)va@;
a = *&*&*&a; a = -(-(-a)); a = !!!!a; a = ~(~a); a = !(!(a)); a = (!!(a)); ++*p; *p++; (*p)++; -~a;
a = (int)(long)(char)a; a = (int){ 5 }; p = (int[]){ 1, 2 }; p = &(int){ 3 };
a = (struct OS){ .y = { [1] = { .z = 4 } } }.y[1].z;
struct OS o@ = { .x = 1, .y[0].z = 2 }; (void)o@;
a <<= 1; a >>= b; a ^= a; a %= 2; a |= !a; a &= ~b;
a = 0x7fffffff; a = -0; a = 1 / 1; a = 'ab'; a = 1e3; a = 0b101; a = 1 << 31; a = sizeof(int[3]);
if (a < 0x7fffffffffffffffLL) ; if (a == 18446744073709551615ULL) ; if (1 << 2) ; if (1 / (a ? 1 : 1)) ;
if (a) { if (b) { } } 
if (a) { if (b) { } else { } }
if (a) { if (b) { } ; }
if (a) if (b) if (a) if (b) a = 1;
if (a) { goto e@; } else { goto e@; } e@: ;
while (1) { if (a) break; else continue; }
while (1) { while (1) { break; } break; }
for (;;) { switch (a) { case 1: continue; default: break; } break; }
MAC_EMPTY
MAC_EMPTY;
MAC_BLOCK
MAC_IF(a) b = 1;
MAC_IF(a) MAC_IF(b) ; else ; 
MAC_IFELSE(a, {}, {})
MAC_ID(if (a) {} else {})
MAC_ID(MAC_ID(MAC_ID(for (;;) break;)))
MAC_ID(while) (MAC_ID(a)) MAC_ID({) MAC_ID(a = 0; })
MAC_FOR(a) { }
MAC_SWITCH(a) MAC_CASE(1) MAC_CASE(2) default: break; }
MAC_DECL(md@)
MAC_CAT(int c, x@) = MAC_STR(x@)[0]; (void)MAC_CAT(c, x@);
MAC_NULL == p && *p ? a : b;
if (p != MAC_NULL && p[0]) {} if (MAC_NULL != p || !p[0]) {}
const char *u@ = u8"x" "y"; const char *ln@ = __FILE__; a = __LINE__; a = __COUNTER__; (void)u@; (void)ln@;
'''

C_STMT = r'''
auto int au@ = 1; (void)au@;
_Static_assert(1, "x");
a = _Generic(a, int: 1, default: 2); a = _Generic((a, 1), int: b ? 1 : 1, float: 0);
_Alignas(16) char al@[3]; (void)_Alignof(int);
_Atomic int ato@ = 0; ato@++; if (ato@) ;
_Bool bo@ = a; if (bo@ == 1) ; if (!bo@) ;
_Complex double cd@ = 1.0 + 2.0i; (void)__real__ cd@; if (cd@) ; __imag__ cd@ = 3;
int nproto@(); a = nproto@(1, 2, "x");
void *vp@ = p; if (vp@) vp@ = 0; p = vp@;
struct fwd@; struct fwd@ *fw@ = 0; if (fw@ == 0) ; (void)fw@;
struct in@ { struct in2@ { int k; } m; } ins@; ins@.m.k = 1; struct in2@ *i2@ = &ins@.m; (void)i2@;
union { int i; float f; } un@ = { .f = 1.0f }; a = un@.i;
int restrictp@(int *restrict x, int y[static 3], int z[*]); 
int *q@ = (void *)0; if (q@ && q@) ; if ((q@)) ; if (!(q@)) ;
if (p == (void *)0 && p[0]) ; if ((void *)0 == p || *p) ; if (p != (int *)0 && *p) ;
int sw@ = ({ switch (a) { case 1: ; } 4; }); (void)sw@;
for (int n@ = ({ for (;;) break; 1; }); n@ < 3; n@++) ;
int (f@)(void); int ((*g@))(void) = &(f@); (void)g@;
'''

CXX_STMT = r'''
if (int i@ = a; i@ > b) { } else { }
if (int i@ = a) ; else if (int j@ = b) ; else ;
while (int i@ = a--) { (void)i@; }
for (int i@ = a; int j@ = i@ - 1; i@--) { (void)j@; }
switch (int i@ = a; i@) { case 1: [[fallthrough]]; default: ; }
switch (int i@ = a) { case 1: ; }
for (int x@ : { 1, 2, 3 }) ;
for (auto &&x@ : arrg) { continue; }
for (int k@ = 0; auto x@ : arrg) { if (x@) break; else break; }
for (auto [x@, y@] : prs) ;
for (int x@ : arrg) for (int x@ : arrg) ;
if constexpr (sizeof(a) > 1) { } else { }
if constexpr (true) ; else ;
if consteval { } else { }
try { } catch (...) { }
try { throw; } catch (int) { } catch (const X &) { throw; } catch (X *e@) { } catch (...) { }
try { try { } catch (int e@) { } } catch (...) { { } }
throw X(); a = 1;
throw "x";
a ? throw 1 : 0;
auto l@ = [] { };
auto l@ = [=] () mutable -> int { if (a) {} return a; }; l@();
auto l@ = [&, c@ = a] (auto q, auto... r) noexcept { return [q] { if (q) ; return 0; }(); }; (void)l@(1);
[] { for (;;) { break; } }();
[](auto x) requires (sizeof(x) > 0) { return x; }(1);
[]<class T>(T t) { if (t) {} else {} }(1);
auto l@ = [a = a, &b, p] { switch (a) { } return b ? *p : *p; }; (void)l@;
static_assert(true);
using T@ = int; T@ t@{}; (void)t@;
using enum EC; switch (ec) { case EA: break; case EB: break; default: ; }
switch (ec) { case EC::EA: case EC::EB: ; }
auto [sb@, sc@] = prs[0]; (void)sb@;
const auto &[sd@, se@] = prs[0]; if (sd@) ;
struct Loc@ { int m; int f(int q) { if (q) {} return q; } ~Loc@() {} operator int() const { return m; } } lo@{1}; lo@.f(lo@);
struct : X { int k = 1; } anon@; (void)anon@;
class Emp@; Emp@ *em@ = nullptr; if (em@ != nullptr) ; if (nullptr == em@) ;
if (p != nullptr) delete p; if (p) delete[] p; if (0 != p) { delete p; p = 0; } if (p) { ::delete p; } else { }
X *n@ = new X, *m@ = new X[3], *o@ = new (p) X{}, *q@ = ::new X(); delete n@; delete[] m@; (void)o@; (void)q@;
int *n@ = new int[a]{}; if (n@ && n@[0]) ; if (!n@ || n@[0]) ; delete[] n@;
X x@; X y@(x@); X z@{y@}; X w@ = z@; x@ = y@ = z@; x@ += y@; if (x@) ; if (!x@) ; if (!!x@) ; x@(); x@[1]; x@->k; *x@; &x@; x@, y@; 
X x@[2] = { }; x@[0] = x@[1]; bool b@ = x@[0] && x@[1] || !x@[0]; (void)b@;
if (a and not b or (a bitand b)) ; if (not a) ; else ; a xor_eq b; a = compl compl a;
a = static_cast<int>(a); p = const_cast<int *>(p); p = reinterpret_cast<int *>(a); X *d@ = dynamic_cast<X *>((X *)0); (void)d@; a = int(a); a = int{}; a = {};
a = noexcept(a); a = 1; 
a = typeid(int) == typeid(X); (void)typeid(*p);
a = true ? false : true; bool bb@ = a ? true : false; bb@ = b ? false : true; if (bb@ == true) ; if (false != bb@) ; return bb@ ? true : false;
bool r@; if (a) r@ = true; else r@ = false; (void)r@;
if (a) { return true; } else { return false; }
goto e@; { e@: ; }
int &r@ = a; int &&rr@ = 5; r@ = rr@; const int &cr@ = 1 ? a : b; (void)cr@;
int X::*pm@ = &X::k; int (X::*pf@)(int) = &X::m; X x@; x@.*pm@ = 1; (x@.*pf@)(1); (&x@)->*pm@; if (pm@) ; if (pf@ == nullptr) ;
thread_local int tl@ = 1; tl@++;
constexpr int ce@ = 5; if (ce@) ; if (ce@ == 5 ? true : false) ; static constexpr auto cl@ = [] { return 1; }; (void)cl@;
constinit static int ci@ = 1; (void)ci@;
a = 123_ud; a = "s"_us; a = 1'000;
auto s@ = R"(raw //!OCLINT
 "quoted" )"; (void)s@;
alignas(16) int al@; (void)alignof(X);
[[maybe_unused]] int mu@; [[likely]] ; if (a) [[unlikely]] { } else [[likely]] ;
for ([[maybe_unused]] auto x@ : arrg) { }
union { int ui@; float uf@; }; ui@ = 1; (void)uf@;
fold(1, 2, 3); tmpl<int>(1); tmpl<X>({}); tmpl(tmpl<int>); vtmpl<int> = 3; TC<int>::sm(1); TC<int> tc@; tc@.m(2); tc@.tm<X>(X());
TC<TC<int>> tt@; (void)tt@; typename TC<int>::type ty@ = 1; (void)ty@; decltype(a) da@ = a; decltype(auto) db@ = (a); (void)da@; 
namespace al@ = NS::In; al@::nf(1); using namespace NS; using NS::In::nf; nf(2);
do { struct D@ { ~D@() { if (this) ; } } d@; break; } while (true);
for (struct I@ { int v; bool operator<(int q) { return v < q; } void operator++() { v++; } } i@{0}; i@ < 3; ++i@) { }
a = [&]() -> int { try { return 1; } catch (...) { return 2; } }();
a = (X(), X{}, X(X())).k; X().m(1); X{}.m({}); (X()).m(1); if (X()) ; while (X()) break;
new X; (void)new int; delete (int *)nullptr; delete nullptr_x();
if (auto *x@ = nullptr_x(); x@ != nullptr) delete x@;
a <=> b; (a <=> b) < 0; bool lt@ = (X() <=> X()) < 0; (void)lt@;
int nt@ = a < b > (a); (void)nt@;
this_thread_does_not_exist: ;
'''

C_TOP = r'''
int kr@(a, b) int a; char *b; { if (a) {} return a; }
int kr2@(x) { return x; }
impl@(void) { return 0; }
int;
struct S@;
struct S@ { };
struct S@ { int a : 1, : 0, b : 2; struct { int c; }; union { int d; float e; }; int f[]; };
union U@ { int i; struct S2@ { int j; } s; };
enum E@ { A@ = -1, B@, };
typedef struct T@ { struct T@ *next; } T@, *TP@;
static int unusedfn@(int unused) { return 0; }
inline int inl@(int a) { return a; } extern inline int inl@(int a);
int (*fp@(int a))(int) { return 0; }
int arr@[] = { [0 ... 4] = 1, [7] = 2 };
int tent@; int tent@;
extern int e@(void) __asm__("weird name"); int e@(void);
int al@(int a) __attribute__((alias("aliased"))); 
__attribute__((constructor, annotate("oclint:suppress"))) static void ctor@(void) { if (1) {} }
__attribute__((annotate("oclint:suppress["))) int sup@(int a) { if (a) {} return 0; }
__attribute__((annotate("oclint:suppress[empty if statement]"), annotate(""), annotate("oclint:"))) int sup@(int a) { if (a) {} return 0; }
int vla@(int n, int a[n][n], int (*b)[n]) { return sizeof(*b) + a[0][0]; }
int va@(const char *f, ...) { __builtin_va_list l; __builtin_va_start(l, f); int r = __builtin_va_arg(l, int); __builtin_va_end(l); return r; }
void noret@(void) __attribute__((noreturn)); void noret@(void) { for (;;) ; }
int params@(int a0, int a1, int a2, int a3, int a4, int a5, int a6, int a7, int a8, int a9, int a10, int a11) { return 0; }
int unnamed@(int, char *, void (*)(int), int [3]); 
int nested@(int (*cb)(int (*inner)(int), int), int q) { return cb(0, q); }
_Static_assert(sizeof(int) == 4, "x");
__asm__(".globl foo@");
int ov@(int) __attribute__((overloadable)); int ov@(float) __attribute__((overloadable)); __attribute__((overloadable)) int ov@(int a) { return a; }
int opt@(int a) __attribute__((optnone, noinline)); int opt@(int a) { return a; }
#pragma pack(push, 1)
struct P@ { char a; int b; } __attribute__((packed, aligned(4)));
#pragma pack(pop)
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wall"
#pragma GCC diagnostic pop
#line 7 "other.c"
#line 100
int deep@(int a) { if (a) { while (a) { for (;;) { do { switch (a) { case 1: { { { if (a) { return 1; } } } } } } while (0); } } } return 0; }
int empty@(void) {}
int stmtexpr@(void) { return sizeof(({ int k = 3; if (k) {} k; })); }
int cond@(int a) { return a ? a ? a ? 1 : 2 : 3 : a ? 4 : 5; }
int comma@(int a) { return a++, a--, (a, a), a; }
_Thread_local int tls@;
_Noreturn void nr@(void);
'''

CXX_TOP = r'''
namespace { }
namespace N@ { inline namespace V { int q(int a) { if (a) {} return 0; } } }
namespace N@::M::O { class Fw; }
class Fwd@;
template <class T> class TFwd@;
class B@ { }; class D@ : B@ { ~D@(); }; class E@ : public D@, virtual private B@ { };
class V@ { virtual void f() = 0; }; class W@ : V@ { void f() override final { } virtual ~W@() = default; };
class Pd@ { public: ~Pd@(); virtual int f(int a = 1, int = 2); }; class Pe@ : public Pd@ { int f(int, int b = 3) override; }; int Pe@::f(int a, int b) { return 0; }
struct PureDtor@ { virtual ~PureDtor@() = 0; }; PureDtor@::~PureDtor@() { }
struct Del@ { Del@() = delete; Del@(const Del@ &) = delete; Del@ &operator=(Del@ &&) = default; ~Del@() = delete; virtual void g(); };
struct NonVirt@ { virtual void f(); protected: ~NonVirt@() { } }; struct NV2@ final : NonVirt@ { ~NV2@(); };
struct TplBase@ : TC<int> { ~TplBase@() { } }; template <class T> struct TDep@ : T { ~TDep@() { if (this) {} } virtual void f(int = 1) { } };
template <class... Ts> struct Multi@ : Ts... { using Ts::operator()...; ~Multi@() { } }; template <class... Ts> Multi@(Ts...) -> Multi@<Ts...>;
template <class T> struct Crtp@ { T &self() { return static_cast<T &>(*this); } ~Crtp@() = default; }; struct CrtpUse@ : Crtp@<CrtpUse@> { };
template <class T, int N = 3, template <class> class TT = TC> struct Spec@ { int f(int a) { if (a) {} return N; } }; template <> struct Spec@<int> { int g(int) { return 0; } }; template <class T> struct Spec@<T *, 0> { }; template struct Spec@<char>;
template <class T> int ft@(T t, int unused) { if (t) {} return 0; } template <> int ft@(char c, int) { if (c) { } return 1; } template int ft@<long>(long, int);
template <class T> auto dep@(T t) -> decltype(t.x) { typename T::type v; if (t.foo()) {} else {} for (auto x : t) {} while (t.x) ; switch (t.n) { case T::A: ; } t.template m<int>(); if (t == nullptr) delete t; return t ? t : t; }
template <class T> void dep2@(T *t) { if (t) delete t; if (t != nullptr && t->x) ; if (t->x && !t) ; int a = T::v ? 1 : 1; if constexpr (T::v) { } else { } t->T::~T(); try { } catch (T &) { } catch (typename T::E e) { } }
template <class T> concept Con@ = requires(T t, int a) { t.x; { t.f() } -> Same<int>; typename T::type; requires sizeof(T) > 1; }; template <Con@ T> void con@(T t) requires Con@<T> { if (t) {} }
void conauto@(auto a, C1 auto b) { if (a) {} else {} }
template <class T> requires C1<T> struct ReqS@ { ReqS@() requires (sizeof(T) > 1) { } void f() requires true { } };
int ftb@(int a) try { if (a) {} return 0; } catch (...) { return 1; }
struct Ftb@ { int k; Ftb@(int a) try : k(a) { if (a) { } } catch (int e) { } catch (...) { } ~Ftb@() try { } catch (...) { } };
struct Ctor@ : X { int a, &r; const int c = 1; Ctor@(int q) : X(), a{q}, r(a) { } Ctor@() : Ctor@(1) { } explicit operator bool() const { return a; } using X::X; template <class T> Ctor@(T t, T u) : a(t), r(a) { } };
struct Conv@ { operator int() { return 1; } operator int *() const { return 0; } explicit(true) operator X(); template <class T> operator T(); auto operator<=>(const Conv@ &) const = default; };
struct Op@ { int operator()(int a, ...) { return a; } int operator[](int) { return 0; } Op@ *operator->() { return this; } int operator*() { return 1; } Op@ operator++(int) { return *this; } void *operator new(decltype(sizeof 0) n) { return 0; } void operator delete(void *) { } bool operator!() { return true; } bool operator&&(Op@) { return 1; } void operator,(int) { } Op@ &operator&() { return *this; } };
struct Friend@ { friend int ff@(Friend@ f) { if (&f) {} return 0; } friend class Never@; template <class T> friend struct TC; friend X; };
struct Stat@ { static int a; static const int b = 1; static constexpr int c = 2; static inline int d = 3; static int f(int q) { return q; } private: static int pa; static int pf(); static void pg() { pf(); } }; int Stat@::a = 1; int Stat@::pa; int Stat@::pf() { return pa; }
struct Mem@ { int bf : 3; int : 0; mutable int m; int arr[3][2]; int *p = nullptr; struct { int x, y; }; union { int u; float v; }; enum { EA@, EB@ }; struct In; struct In { Mem@ *m; }; class Priv { }; int Mem@::*pm; void (Mem@::*pf)() const; };
union Un@ { int a; X x; Un@() { } ~Un@() { } static int s; void f() { if (a) {} } };
enum class EC@ : unsigned char { A, B = 200 }; enum Old@ : int; enum { };
int sw@(EC e) { switch (e) { case EC::EA: return 1; case EC::EB: return 2; } return 0; }
auto lam@ = [](int a) { if (a) {} return [=]() mutable { while (a) ; return a; }; };
template <class T> auto vlam@ = [](T t) { if (t) {} return t; }; int uselam@ = vlam@<int>(1);
int init@ = [] { for (;;) { return 1; } }();
constexpr int cex@(int a) { if (a <= 1) return 1; else return a * cex@(a - 1); } static_assert(cex@(4) == 24);
consteval int cev@(int a) { return a ? a : a; } int usecev@ = cev@(1);
extern "C" { int ec1@(int a) { if (a) {} return 0; } extern "C++" { int ec2@(int a) { if (a) {} return 0; } } }
extern template struct TC<short>; template <> int TC<float>::sm(int a) { if (a) {} return a; }
using Fn@ = int(int, char); Fn@ decl@; typedef int Fm@(int) const; struct HasFn@ { Fm@ m; }; int HasFn@::m(int a) const { return 0; }
auto trail@(int a) -> int (*)(int) { return nullptr; } int (&reff@(int (&a)[3]))[3] { return a; }
void noex@() noexcept(noexcept(1)) { } void thr@() throw() { }
int operator""_op@(unsigned long long a) { if (a) {} return 0; }
[[nodiscard, deprecated("x")]] int attr@([[maybe_unused]] int a, int b [[maybe_unused]]) { return 0; }
int def@(int a = [] { if (1) {} return 1; }(), int b = sizeof(int)) { return a; }
int pack@(auto... as) { return (0 + ... + as) + sizeof...(as) + ([](auto a) { return a; }(as) + ...); } int usepack@ = pack@(1, 2, 3);
template <int... Is> int ints@() { int a[] = { Is..., 0 }; for (int i : a) { if (i) {} } return ((Is > 1 ? 1 : 1) + ... + 0); } int useints@ = ints@<1, 2>();
template <auto V> struct NT@ { static int f() { if (V) {} return 0; } }; int usent@ = NT@<3>::f() + NT@<'c'>::f() + NT@<nullptr>::f();
struct Agg@ { int a; struct { int b; } c; int d[2]; }; Agg@ agg@ = { .a = 1, .c = { .b = 2 } }; auto [ag1@, ag2@, ag3@] = agg@;
struct Virt@ { virtual Virt@ *clone(int a = 0) const { return nullptr; } virtual ~Virt@(); virtual void pure() = 0; }; struct Virt2@ : Virt@ { Virt2@ *clone(int a = 5) const override { return nullptr; } }; void Virt@::pure() { } inline Virt@::~Virt@() { if (this) { } }
class Many@ { int a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, c0, c1; void m0(); void m1(); template <class T> void m2(T); friend void m3(); static void m4(); Many@(); ~Many@(); };
static int unusedp@(int a, int) { return 0; } static void (*takes@)(int x) = [](int) { };
template <class T> T vt@ = T(1); template <class T> constexpr int vt2@ = 0; template <> constexpr int vt2@<int> = 1; 
struct Cons@ { constexpr Cons@() = default; constexpr ~Cons@() { } int v = 0; constexpr int get(this auto &&self) { return self.v; } };
namespace NS@ { struct A { }; void operator+(A, A) { } template <class T> struct Deep { template <class U> struct Er { template <class V> void f(T, U, V v) { if (v) {} } }; }; } void usens@() { NS@::Deep<int>::Er<char> d; d.f(1, 'c', 2.0); NS@::A() + NS@::A(); }
struct Inh@ : virtual X, virtual NonV { Inh@() : X() { } using X::m; int m(int, int) { return X::m(1); } ~Inh@() { X::~X(); } };
#define CLS@(n) class n { public: virtual void f(); ~n(); static int s; private: static int t; int m(int a) { if (a) {} return a; } }
CLS@(FromMac@);
alignas(32) static int ali@; static thread_local X tlx@; extern const volatile int ecv@;
int goto_@(int a) { if (a) goto x; { X q; } x: return a; }
void sfinae@(...); template <class T> auto sfinae@(T t) -> decltype(t.nope(), void()) { if (t.nope()) {} }
static_assert(requires { 1 + 1; }); static_assert([] { return true; }());
asm("");
;
'''

CORO = r'''
Task coro@(int a) { if (a) { co_return; } else { } co_await Aw(); for (;;) { co_await Aw(); break; } co_return; }
Gen gen@(int n) { for (int i = 0; i < n; i++) co_yield i; try { co_yield 1; } catch (...) { } while (n) { co_yield n; } }
Task lam@() { auto l = [](int q) -> Task { if (q) {} co_return; }; co_await Aw(); switch (1) { case 1: co_await Aw(); } }
struct Cls@ { Task m(int a) { co_await Aw(); (void)(a ? co_await Aw() : 1); } template <class T> Gen t(T t) { co_yield t; if (t) {} } };
Gen usecl@() { co_yield (co_await Aw(), 1); }
'''
CORO_PRE = r'''
namespace std { template <class R, class...> struct coroutine_traits { using promise_type = typename R::promise_type; };
template <class P = void> struct coroutine_handle { static coroutine_handle from_address(void *) { return {}; } void *address() const { return nullptr; } };
template <> struct coroutine_handle<void> { template <class P> coroutine_handle(coroutine_handle<P>) { } static coroutine_handle from_address(void *) { return coroutine_handle<P_>(); } struct P_ { }; coroutine_handle() { } void *address() const { return nullptr; } }; }
struct Aw { bool await_ready() noexcept { return false; } void await_suspend(std::coroutine_handle<>) noexcept { } int await_resume() noexcept { return 0; } };
struct Task { struct promise_type { Task get_return_object() { return {}; } Aw initial_suspend() noexcept { return {}; } Aw final_suspend() noexcept { return {}; } void return_void() { } void unhandled_exception() { } }; };
struct Gen { struct promise_type { Gen get_return_object() { return {}; } Aw initial_suspend() noexcept { return {}; } Aw final_suspend() noexcept { return {}; } void return_void() { } void unhandled_exception() { } Aw yield_value(int) { return {}; } Aw await_transform(Aw a) { return a; } }; };
'''

OBJC_TOP = r'''
@class Fwd@;
@class Fw1@, Fw2@;
@protocol PFwd@;
@protocol PE@ @end
@protocol PQ@ @end @protocol PP@ <PQ@, NSObject> @required - (int)req; @optional - (void)opt:(int)a; @property (nonatomic, readonly) int prop; + (instancetype)make; @end @protocol PE@ @end
@interface Root@ @end @implementation Root@ @end
__attribute__((objc_root_class)) @interface R@ { int iv; @private id pr; @public struct { int x; } st; @protected int bf : 3; } - (int)m; @end @implementation R@ - (int)m { return self->iv + iv; } @end
@interface NoImpl@ : NSObject - (void)never; @property int p; @end
@interface Sub@ : NSObject @end @interface Sub@ () { int hidden; } - (void)ext; @property (readwrite) id q; @end @implementation Sub@ @synthesize q = _qq; - (void)ext { hidden = 1; _qq = nil; } - (BOOL)isEqual:(id)o { return [super isEqual:o]; } @end
@implementation OnlyImpl@ - (void)x { } @end
@implementation OnlyImplSuper@ : NSObject { int z; } - (void)x { z = 1; [super description]; } @end
@interface NSObject (Cat@) - (void)cat@; @end @implementation NSObject (Cat@) - (void)cat@ { [self cat@]; if (self) {} } - (BOOL)isEqual:(id)x { return YES; } - (unsigned long)hash { return 1; } @end
@implementation NSString (NoIface@) - (id)nope@ { return self; } @end
@interface Prop@ : NSObject @property (copy, nonatomic) NSString *s; @property (class, readonly) int cls; @property (getter=isOn, setter=turn:) BOOL on; @property (nonatomic, strong) id dyn; @end @implementation Prop@ @dynamic dyn; + (int)cls { return 1; } - (BOOL)isOn { return _on; } - (void)setS:(NSString *)s { _s = s; } - (id)init { _s = nil; self.on = YES; return self; } - (void)z { _s = nil; self->_on = NO; self.s = self.s; Prop@.cls; } @end
@interface Sup@ : NSObject - (void)must __attribute__((annotate("oclint:enforce[base method]"))); - (void)prot __attribute__((annotate("oclint:enforce[protected method]"))); - (void)abs __attribute__((annotate("oclint:enforce[abstract method]"))); - (void)proh __attribute__((annotate("oclint:enforce[prohibited call]"))); @end @interface Sup2@ : Sup@ @end @implementation Sup@ - (void)must { } - (void)prot { } - (void)abs { } - (void)proh { } @end @implementation Sup2@ - (void)must { [self prot]; [self proh]; } @end void usesup@(Sup@ *s, id i) { [s prot]; [i prot]; [s proh]; [i must]; [(id)s abs]; }
@interface Gen@<__covariant T> : NSObject - (T)get; @property (copy) T item; @end @interface Gen@ (Ext) - (int)ex; @end @implementation Gen@ - (id)get { return 0; } @end void usegen@(Gen@<NSString *> *g, __kindof NSObject *k) { [[g get] length]; g.item = @"x"; [k description]; }
@interface Var@ : NSObject + (id)va:(int)a, ...; - (void):(int)a :(int)b; - (id)noargs; - untyped; - sel:a b:(out int *)b c:(inout id *)c; - (oneway void)ow; @end @implementation Var@ + (id)va:(int)a, ... { return nil; } - (void):(int)a :(int)b { if (a) {} } - (id)noargs { return [self :1 :2], nil; } - untyped { return self; } - sel:a b:(int *)b c:(id *)c { return a; } - (oneway void)ow { } @end
@interface Init@ : NSObject @end @implementation Init@ - (id)init { if ((self = [super init])) { } return self; } - (id)initWith:(int)a { self = [super init]; if (self) { } return self; } - (void)dealloc { } + (void)load { } + (void)initialize { if (self == [Init@ class]) { } } @end
@compatibility_alias Alias@ NSObject;
@interface Sub2@ : Fwd0 @end
@interface Deep0@ : NSObject @end @interface Deep1@ : Deep0@ @end @interface Deep2@ : Deep1@ <NSCopying> @end @implementation Deep2@ - (id)copyWithZone:(void *)z { return self; } - (BOOL)isEqual:(id)o { return o == self; } @end
void try@(id a) { @try { } @catch (NSObject *e) { } @catch (id e) { @throw; } @catch (...) { } @finally { } @try { @throw a; } @finally { @try { @throw a; } @catch (...) { } return; } }
void fin@(id a) { @try { a = nil; } @finally { for (;;) { if (a) return; @throw a; } ^{ return; }(); } }
void sync@(id a) { @synchronized (a) { } @synchronized (a) { @autoreleasepool { @autoreleasepool { } } } for (id x in a) ; for (id x in @[ @1, @2 ]) { if (x) continue; else break; } id y; for (y in a) { } for (NSString *x in [a foo]) { [x length]; } }
void lit@(id a, int i) { a = @[]; a = @{}; a = @[ @[ @[] ] ]; a = @{ @"k" : @{ @1 : @YES } }; a = @(i); a = @(i + 1); a = @('c'); a = @1.5; a = @YES; a = @"x" @"y"; a = a[0]; a[0] = a; a[@"k"] = a[@"k"]; [a objectAtIndex:0]; [a setObject:a forKey:a]; [NSNumber numberWithInt:i]; [NSNumber numberWithInt:1]; [NSArray arrayWithObjects:a, nil]; [NSArray array]; [NSDictionary dictionaryWithObjectsAndKeys:a, a, nil]; [NSDictionary dictionary]; [NSNumber numberWithBool:YES]; [NSNumber numberWithInt:(i)]; [NSString stringWithUTF8String:"x"]; }
void nils@(NSString *s, id a) { if (s && [s length]) {} if (s == nil || [s length]) {} if ([s length] && s != nil) {} if (!s && [s length]) {} if (nil != a && [a isEqual:s]) ; if ([s isEqual:a] || !s) ; if ([[s description] length] && s) ; while (a && [a foo]) break; if (a) [a foo]; if (s != nil) { [s length]; } }
void sel@(id a) { SEL s = @selector(foo:bar:); const char *e = @encode(struct { int x; } *); Protocol *p = @protocol(NSObject); (void)s; (void)e; (void)p; [a performSelector:s]; [[a class] alloc]; [NSObject alloc]; [(Class)a new]; (void)[a foo]; }
void (^blk@)(int) = ^(int a) { if (a) {} }; int (^(^bb@)(int))(void) = ^(int a) { return (int (^)(void))0; };
void blocks@(id a) { __block int b = 1; void (^x)(void) = ^{ b++; if (b) {} else {} for (id y in a) { } return; }; x(); ^{ }(); ^(int q) { return q ? q : q; }(1); __strong id s = a; __unsafe_unretained id u = s; (void)u; x = nil; if (x) x(); dispatch(^{ }, ^(id o, int *stop) { *stop = 1; }); }
@interface IV@ : NSObject { int _a; id _b; } @end @implementation IV@ - (void)foo { _a = 1; self->_b = nil; _a++; _b = [_b self]; ^{ _a = 2; self->_a += 3; }(); } - (void)setA:(int)a { _a = a; } - (void)initA { _a = 1; } - (id)init { _a = 0; return self; } + (void)cm { IV@ *o = nil; o->_a = 1; (*o)._a = 2; } @end
typedef NS_ENUM_(NE@) { NE@A, NE@B }; int sw@(enum NE@ e) { switch (e) { case NE@A: return 1; case NE@B: return 2; default: return 3; } }
extern NSString *const kStr@; static NSString *const ks@ = @"x"; id glob@;
int cmac@(id self, SEL _cmd) { [self foo]; if (self) {} return 0; }
@interface Cls@ : NSObject + (Cls@ *)shared; @property (readonly) Cls@ *next; @end @implementation Cls@ + (Cls@ *)shared { static Cls@ *s; if (!s) { s = [[self alloc] init]; } return s; } - (void)chain { self.next.next.next; [[[self next] next] next]; [[Cls@ shared].next description]; } @end
#define OC@(n) @interface n : NSObject - (int)m:(int)a; @end @implementation n - (int)m:(int)a { if (a) {} return 0; } - (BOOL)isEqual:(id)o { return NO; } @end
OC@(Mac@)
int avail@(void) { if (@available(macOS 10.10, *)) { return 1; } else { return 0; } }
'''
OBJC_PRE = r'''
@class Protocol;
@interface Fwd0 : NSObject @end
@interface NSObject (Foo) - (id)foo; - (id)foo2:(id)a; - (id)self; - (id)performSelector:(SEL)s; - (Class)class; + (id)new; @property (readonly) int foo3; @end
@interface NSObject (Lit) - (id)objectAtIndexedSubscript:(unsigned long)i; - (void)setObject:(id)o atIndexedSubscript:(unsigned long)i; - (id)objectForKeyedSubscript:(id)k; - (void)setObject:(id)o forKeyedSubscript:(id)k; @end
void dispatch(void (^a)(void), void (^b)(id, int *));
#define NS_ENUM_(n) enum n : long n; enum n : long
'''

OBJCXX_TOP = r'''
struct Cx@ { id obj; NSString *s; int m(id a) { if (a && [a foo]) {} @try { } @catch (id e) { } for (id x in a) { } return [a foo] ? 1 : 1; } ~Cx@() { @autoreleasepool { } } };
template <class T> void tx@(T t, id o) { [o foo]; if (t) {} [t foo]; @[ @1 ]; @try { throw t; } @catch (...) { } } void utx@(id o) { tx@<id>(o, o); tx@<NSString *>(nullptr, o); }
@interface HasCx@ : NSObject { Cy _x; TC<int> _t; } @end @implementation HasCx@ - (void)lam { auto l = [=](int a) { if (a) {} [self foo]; ^{ return a; }(); return a; }; l(1); try { [self foo]; } catch (...) { } for (auto &x : arrg) { } _x = Cy(); delete (Cy *)0; } - (const TC<int> &)ref { return _t; } @end
extern "C" { void ecx@(id a) { if (a) {} @synchronized (a) { } } }
namespace NX@ { static NSString *g = @"x"; void f(id a) { if (nullptr != a) ; if (a == nil || [a foo]) ; } }
'''

OMP = r'''
#pragma omp parallel for@for (int i = 0; i < a; i++) { if (i) {} }
#pragma omp parallel@{ #pragma omp single@ ; }
#pragma omp critical@{ a++; }
#pragma omp task@a++;
#pragma omp atomic@a++;
#pragma omp parallel sections@{ ; }
#pragma omp simd@for (int i = 0; i < 10; ++i) ;
#pragma omp target@{ }
#pragma omp parallel for collapse(2) reduction(+:b)@for (int i = 0; i < a; i++) for (int j = 0; j < a; j++) b += i;
'''

MS_TOP = r'''
struct __declspec(align(8)) MsA@ { int a; __declspec(property(get = g, put = s)) int pr; int g() { return 1; } void s(int) { } }; int useprop@(MsA@ *m) { m->pr = 2; if (m->pr) {} return m->pr ? m->pr : m->pr; }
int __stdcall msf@(int a) { if (a) {} return 0; }
__interface Ms@ { void f(); }; class __single_inheritance MsI@; struct MsE@ { int a[]; };
template <class T> void lateparse@(T t) { undeclared_dep(t); __if_exists(T::x) { if (t) {} } __if_not_exists(T::x) { while (t) ; } }
int msnames@() { __int64 a = 1i64; return a; } 
'''

CUDA_TOP = r'''
__attribute__((global)) void k@(int *p, int n) { if (n) {} for (int i = 0; i < n; i++) { if (tid.x) p[i] = 0; } switch (n) { } }
__attribute__((device)) int d@(int a) { if (a) {} auto l = [] { return 1; }; return l() ? 1 : 1; }
__attribute__((host)) __attribute__((device)) int hd@(int a) { while (a) ; return 0; }
template <class T> __attribute__((global)) void tk@(T *p) { if (p) {} if (tid.x > 3) { return; } }
__attribute__((shared)) static int sh@; __attribute__((constant)) int co@;
struct St@ { __attribute__((device)) int m(int a) { if (a) {} return 0; } __attribute__((device)) ~St@() { } static __attribute__((device)) int s; };
void host@(int a) { if (a) {} int q = 0; for (;;) { break; } }
__attribute__((global)) void div@(int n) { int t = tid.x + tid.y; int u = t * 2; if (u < n) { if (t) ; } else if (n) { } for (int i = t; i < n; i++) while (i < u) ; do { } while (u); n ? t : u; switch (u) { case 1: ; } }
'''
CUDA_PRE = r'''
struct uint3 { unsigned x, y, z; }; static __attribute__((device)) const uint3 tid = { 0, 0, 0 };
extern __attribute__((device)) const uint3 threadIdx, blockIdx, blockDim;
'''

C_PRE = r'''
static inline void cleanup_int(int *q) { (void)q; }
struct OS { int x; struct { int z; } y[3]; };
#define MAC_EMPTY
#define MAC_BLOCK { }
#define MAC_ID(x) x
#define MAC_IF(c) if (c)
#define MAC_IFELSE(c, t, e) if (c) t else e
#define MAC_FOR(n) for (int mf_ = 0; mf_ < (n); mf_++)
#define MAC_SWITCH(x) switch (x) {
#define MAC_CASE(n) case n: ;
#define MAC_DECL(n) int n = 0; (void)n;
#define MAC_CAT(a, b) a##b
#define MAC_STR(x) #x
#define MAC_NULL 0
'''
CXX_PRE = r'''
namespace std { class type_info { public: virtual ~type_info(); bool operator==(const type_info &) const; const char *n; }; using size_t = decltype(sizeof 0);
template <class T> class initializer_list { const T *b_; size_t n_; public: const T *begin() const; const T *end() const; size_t size() const; };
struct strong_ordering { signed char v; static const strong_ordering less, equal, equivalent, greater; friend bool operator<(strong_ordering a, int) { return a.v < 0; } friend bool operator==(strong_ordering a, int) { return a.v == 0; } friend bool operator>(strong_ordering a, int) { return a.v > 0; } };
inline constexpr strong_ordering strong_ordering::less{-1}, strong_ordering::equal{0}, strong_ordering::equivalent{0}, strong_ordering::greater{1}; }
void *operator new(std::size_t, void *) noexcept;
struct X { int k = 0; X() { } X(int q) : k(q) { } int m(int a) { return a; } ~X() { } explicit operator bool() const { return k; } X &operator+=(const X &) { return *this; } int operator()() { return 1; } int operator[](int i) { return i; } X *operator->() { return this; } X &operator*() { return *this; } auto operator<=>(const X &) const = default; };
struct Cy { Cy() { } Cy(int) { } };
struct NonV { virtual void nv(int = 1); ~NonV(); };
template <class T> struct TC { using type = T; static int sm(int a) { if (a) {} return 0; } int m(int q) { while (q) q--; return q; } template <class U> void tm(U u) { (void)u; } TC() : t() { } T t; };
template <class T> int tmpl(T t) { (void)t; return 0; } template <class T> T vtmpl = 1; template <class... T> int fold(T... t) { return (t + ...); }
template <class T, class U> concept Same = __is_same(T, U); template <class T> concept C1 = sizeof(T) > 0;
enum class EC { EA, EB }; static EC ec; static int arrg[3]; struct Pr { int a, b; }; static Pr prs[2]; X *nullptr_x();
namespace NS { namespace In { int nf(int); } }
int operator""_ud(unsigned long long); int operator""_us(const char *, std::size_t);
'''


def inst(s, n):
    return re.sub(r'(?<=\w)@', str(n), s)


def lines(s):
    return [l for l in s.strip('\n').split('\n') if l.strip()]


L_STMT, L_C_STMT, L_CXX_STMT = lines(STMT), lines(C_STMT), [l for l in lines(CXX_STMT)]
L_C_TOP, L_CXX_TOP, L_OBJC_TOP, L_OBJCXX_TOP = lines(C_TOP), lines(CXX_TOP), lines(OBJC_TOP), lines(OBJCXX_TOP)
L_CORO, L_MS, L_CUDA = lines(CORO), lines(MS_TOP), lines(CUDA_TOP)
# the raw string takes two lines
for i, l in enumerate(L_CXX_STMT):
    if l.startswith('auto s@ = R"('):
        L_CXX_STMT[i] = l + '\n' + L_CXX_STMT.pop(i + 1)
        break
for i, l in enumerate(L_OBJC_TOP):
    if l.startswith('#define OC@'):
        L_OBJC_TOP[i] = l + '\n' + L_OBJC_TOP.pop(i + 1)
        break
for i, l in enumerate(L_CXX_TOP):
    if l.startswith('#define CLS@'):
        L_CXX_TOP[i] = l + '\n' + L_CXX_TOP.pop(i + 1)
        break
OCF = ['-fobjc-runtime=gnustep-2.0', '-fblocks', '-fobjc-exceptions']

EXC = ['-fcxx-exceptions', '-fexceptions']
# mode -> (flags, extension, prelude, top-level snippets, statements)
MODES = {
    'c': (['-std=gnu17', '-fblocks'], '.c', C_PRE, L_C_TOP, L_STMT + L_C_STMT),
    'c89': (['-std=gnu89'], '.c', C_PRE, L_C_TOP, L_STMT + L_C_STMT),
    'c2x': (['-std=gnu2x'], '.c', C_PRE, L_C_TOP, L_STMT + L_C_STMT),
    'cxx': (['-std=gnu++20'] + EXC, '.cpp', C_PRE + CXX_PRE, L_CXX_TOP, L_STMT + L_CXX_STMT + L_CXX_STMT),
    'cxx23': (['-std=gnu++23'] + EXC, '.cc', C_PRE + CXX_PRE, L_CXX_TOP, L_STMT + L_CXX_STMT + L_CXX_STMT),
    'coro': (['-std=gnu++20'] + EXC, '.cpp', C_PRE + CXX_PRE + CORO_PRE, L_CORO + L_CXX_TOP[:20], L_CXX_STMT),
    'ms': (['-std=gnu++20', '-fms-extensions', '-fms-compatibility', '-fdelayed-template-parsing', '-fasync-exceptions'] + EXC, '.cpp',
           C_PRE + CXX_PRE.replace('void *operator new(std::size_t, void *) noexcept;', ''), L_MS + L_CXX_TOP, L_STMT + L_CXX_STMT),
    'objc': (['-std=gnu17'] + OCF, '.m', None, L_OBJC_TOP + L_C_TOP[:20], L_STMT + L_C_STMT),
    'arc': (['-std=gnu17', '-fobjc-arc', '-fobjc-weak'] + OCF, '.m', None, L_OBJC_TOP, L_STMT),
    'objcxx': (['-std=gnu++20'] + OCF + EXC, '.mm', None, L_OBJC_TOP + L_OBJCXX_TOP * 3 + L_CXX_TOP, L_STMT + L_CXX_STMT),
    'cuda': (['-x', 'cuda', '-nocudalib', '-nocudainc', '--no-cuda-version-check', '-std=c++17', '--cuda-host-only'], '.cu',
             C_PRE + CUDA_PRE, L_CUDA, L_STMT),
    'cudadev': (['-x', 'cuda', '-nocudalib', '-nocudainc', '--no-cuda-version-check', '-std=c++17', '--cuda-device-only'], '.cu',
                C_PRE + CUDA_PRE, L_CUDA, []),
}
MODES['seh'] = (['-std=gnu17', '-fms-extensions', '--target=x86_64-pc-windows-msvc'], '.c', C_PRE, [
    'int seh@(int a) { __try { if (a) {} __leave; } __except (a ? 1 : 1) { } __try { } __finally { if (a) { } return 1; } __try { __try { } __finally { } } __except (1) { for (;;) { break; } } return 0; }',
    'int __stdcall std@(int a) { switch (a) { } return 0; }', 'struct __declspec(align(8)) da@ { int a; struct { int b; }; };'], L_STMT)
MODES['omp'] = (['-std=gnu17', '-fopenmp'], '.c', C_PRE, ['int omp@(int a) { int b = 0;\n' + l.replace('@', '\n').replace(' #', '\n#').replace('single\n', 'single\n') + '\n return b; }' for l in OMP.strip().split('\n')], L_STMT)
MODES['ompxx'] = (['-std=gnu++20', '-fopenmp'] + EXC, '.cpp', C_PRE + CXX_PRE, MODES['omp'][3] + L_CXX_TOP, L_STMT + L_CXX_STMT)
MODES['clc'] = (['-x', 'cl', '-cl-std=CL2.0', '-Xclang', '-finclude-default-header'], '.cl', '', [
    'kernel void ck@(global int *p, int n) { if (n) {} for (int i = 0; i < n; i++) p[i] = 0; int4 v = (int4)(1, 2, 3, 4); if (v.x) ; v.xy = v.zw; }',
    'int cf@(int a) { switch (a) { } return a ? 1 : 1; }', 'constant int cc@ = 1;'], [])
MODES['hip'] = (['-x', 'hip', '-nogpulib', '-nogpuinc', '--offload-arch=gfx906', '--cuda-host-only'], '.hip', C_PRE + CUDA_PRE, L_CUDA, L_STMT)
# what is not valid in a mode
BAD = {
    'c': ['int kr2@', 'impl@'], 'objc': ['int kr2@', 'impl@'], 'c2x': ['int kr2@', 'impl@', 'int kr@', 'int nproto@'],
    'c89': ['const char *u@', 'int restrictp@'], 'cxx23': [], 'seh': ['__asm__ goto', '{ static void *t@[]'], 'arc': [],
}
CXX_BAD = ['const char *u@', 'register int', 'a += __builtin_types', 'a = (int)(long)']
for m_ in ('cxx', 'cxx23', 'ms', 'objcxx', 'ompxx', 'coro', 'cuda', 'hip'):
    BAD[m_] = CXX_BAD + BAD.get(m_, []) + ([] if m_ == 'cxx23' else ['struct Cons@'])
BAD['ms'] += ['X *n@ = new X']
BAD['objcxx'] += ['@interface Var@', 'void sel@']
for m_, (f_, e_, p_, t_, s_) in list(MODES.items()):
    ok_ = lambda l: not any(l.startswith(b) for b in BAD.get(m_, []))
    MODES[m_] = (f_, e_, p_, [l for l in t_ if ok_(l)], [l for l in s_ if ok_(l)])


def prelude(mode):
    import gen
    fl, ext, pre, top, st = MODES[mode]
    if pre is None:
        pre = gen.NSTUBS + OBJC_PRE + C_PRE.replace('MAC_NULL 0', 'MAC_NULL nil') + (CXX_PRE if ext == '.mm' else '')
    if mode == 'objcxx':
        pre = pre.replace('#define nil ((void *)0)', '#define nil __null')
    if mode == 'arc':
        pre = re.sub(r'\b(const )?id \*', r'\1__unsafe_unretained id *', pre)
    return pre
