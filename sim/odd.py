"""Unusual but valid program texts: @ stands for a number that makes names unique."""
C = r'''
int f@(a, b) int a; char *b; { if (a) return *b; return 0; }
int f@(void) { return ({ int q = 3; if (q) { } q; }); }
void f@(int n) { int a[n]; for (;;) { if (a[0]) break; } }
int f@(int x) { static void *t[] = { &&l1, &&l2 }; goto *t[x & 1]; l1: return 1; l2: return 2; }
struct s@ { struct { int a; union { int b; float c; }; }; int f : 3; int : 0; int z[]; };
int f@(int x) { switch (x) case 1: return 2; return 3; }
int f@(int x) { switch (x) { } return 0; }
int f@(int x) { switch (x) { int y; case 1 ... 5: y = 2; return y; default: ; } return 0; }
int f@(int x) { switch (x) { default: { } } switch (x) ; return x; }
int f@(int x) { switch (x) { while (x--) { case 0: x++; break; case 1: continue; default: ; } } return x; }
int f@(int x) { if (x) ; else ; if (x) {} else {} if (x) ; else if (x > 1) ; else { ; } return x; }
int f@(int x) { do ; while (x--); while (x) ; for (;x;) ; return x; }
int f@(int x) { { } {{ }} ;; ; return x; }
void f@() { return; }
void f@(void) { }
int f@();
int f@(int), g@(int), v@;
extern int x@; int x@; int x@ = 1;
typedef int (*t@)(int, ...); t@ f@(int (*p)(int), int q[3], int r[static 2]) { return (t@)0; }
int f@(int x) { return x ?: 3; }
int f@(int x) { return x ? x : x ? 1 : 2, 3; }
int f@(int x) { return ((((((((((x)))))))))); }
int f@(int x) { return !!!!!!x + - - -x + ~~x; }
int f@(int a) { int b = a * 2; return b; }
int f@(int a) { int b; return b; }
int f@(int a) { int b, c = a; return c; }
int f@(int a) { struct q@ { int z; }; return a; }
int f@(int a) { typedef int q@; return a; }
int f@(int a) { enum { A@, B@ } ; return A@; }
int f@(int a) { extern int g@; return g@; }
int f@(int a) { int g@(void); return g@(); }
enum e@ { E@a, E@b = 3, E@c = E@b }; int f@(enum e@ e) { switch (e) { case E@a: return 1; case E@b: return 2; } return 3; }
enum e@ { E@a, E@b }; int f@(enum e@ e) { switch (e) { case E@a: break; default: break; case E@b: return 2; } return 3; }
enum e@; struct s@; union u@;
struct s@ { int x; } v@ = { .x = 1 }; int a@[] = { [3] = 1, [0 ... 2] = 9 };
struct s@ { int x; }; struct s@ f@(struct s@ p) { return (struct s@){ .x = p.x }; }
int f@(void) { return sizeof(int[3]) + sizeof(struct { int a; }) + _Alignof(int) + __builtin_offsetof(struct { int b; }, b); }
int f@(int x) { return _Generic(x, int: 1, default: 2); }
_Static_assert(1, "fine@");
int f@(void) { __asm__ volatile ("nop" ::: "memory"); __asm__ goto ("" :::: out); return 1; out: return 0; }
__asm__(".globl dummy@");
int f@(int x) { lab: ; goto lab; }
int f@(int x) { lab: lab2: x++; if (x) goto lab2; return x; lab3: ; }
int f@(int x) { __label__ loc; goto loc; loc: return x; }
int f@(int x) { return __builtin_choose_expr(1, x, "s") + __builtin_types_compatible_p(int, long); }
int f@(int x, ...) { __builtin_va_list l; __builtin_va_start(l, x); x = __builtin_va_arg(l, int); __builtin_va_end(l); return x; }
__attribute__((noreturn)) void f@(void) { for (;;) { } }
__attribute__((always_inline, unused)) static inline int f@(int x) { return x; }
int f@(int __attribute__((unused)) x) { return 0; }
int f@(int) { return 0; }
int f@(int x) { __extension__ int y = 3; return __extension__ (x + y); }
int f@(int x) { return x == 0 ? 0 : x % 2 == 1 ? f@(x - 1) : x & 1; }
int f@(int *p) { if (p != 0 && p[0] == 1 || p == 0 && *p) return 1; if (p && p) return 2; if (!p || p[1]) return 3; return 0; }
int f@(int *p) { if (1) return 1; else return 0; if (0) return 2; while (0) ; do { } while (1); for (; 1;) ; return !(p == 0); }
int f@(int i, int j) { for (i = 0; i < 3; j++) for (j = 0; j < 3; i++) ; for (i = 0, j = 1; i < j; i++, j--) { } return 0; }
int f@(int i) { for (int k = 0, l = 1; k < l;) { break; } for (struct { int a; } s = { 0 }; s.a < 3; s.a++) continue; return 0; }
int f@(int x) { x = x; x += 1; x++; --x; return x; }
int f@(int x) { int y = (x); if ((x)) return (y); return ((x) ? (y) : (1)); }
int f@(int x) { return x & 1 || x | 2 && x ^ 3; }
int f@(int x) { if (x & 1) { } if (x | 2) { } if ((x & 1) && x) { } return 0; }
int f@(int x) { return 1, 2, x; }
char *f@(void) { return "a" "b" "\n" "\x41"; }
int *f@(int x) { return x ? (int *)0 : &(int){ 3 }; }
_Thread_local int t@; _Atomic int at@; volatile int vv@; const int cc@ = 3; int rr@(void);
double f@(double d) { return d * 1.0e10 + 0x1.8p3; } float _Complex fc@;
_Noreturn void fn@(void); inline int fi@(int x) { return x; }
int f@(int x) { { { { { { { { { if (x) { if (x > 1) { if (x > 2) { return 4; } } } } } } } } } } } return 0; }
int f@(int x) { if (x) { if (x > 1) { } } if (x) { if (x > 1) { } else { } } if (x) if (x > 1) x++; return x; }
int f@(int x) { if (x) { return 1; } else { return 0; } } int g@(int x) { if (x) return 1; return 0; }
int f@(int x) { int r; if (x) { r = 1; } else { r = 0; } return r; }
void f@(int x) { if (x) { x++; x++; } } void g@(int x) { while (x) { if (x) { x--; x--; } } }
int f@(int x) { while (1) { x++; break; } while (1) { continue; } do { return 1; } while (x); for (;;) { goto e; } e: return 0; }
int f@(int x) { switch (x) { case 1: { case 2: break; } case 3: if (x) break; else break; case 4: return 1; case 5: goto q; case 6: x++; } q: return 0; }
int f@(int x) { switch (x) { lab@: case 1: break; here: x++; default: goto lab@; } return 0; }
int f@(int x) { switch (x) { case 1: switch (x + 1) { case 2: break; } break; default: switch (x) { default: ; } } return 0; }
void f@(void); void f@(void); void f@(void) {} ; ;
int (f@)(int x) { return x; } int (*g@(int y))(int) { return f@; }
int a@[2][3] = { { 1, 2, 3 }, { 4, 5, 6 } }; int b@ = sizeof a@ / sizeof *a@;
#define M@(x) do { if (x) { } else ; } while (0)
int f@(int x) { M@(x); M@(x + x); return 0; }
#define BODY@ { if (x) { } return (x); }
int f@(int x) BODY@
#define E@
int f@(int x) { E@; E@ return x; }
#pragma pack(push, 1)
struct p@ { char c; int i; };
#pragma pack(pop)
_Pragma("once@") int pr@;
int f@(int x) { _Pragma("unroll") for (;x--;) ; return x; }
int very_long_variable_name_that_goes_on_and_on_and_on_and_on_@ = 1; int s;
int \u00e9t\u00e9@; int été@ = 1; char *u@ = "日本語"; /* 漢字 */
int f@(int /* a */ x) { /* if (x) { } */ return /* b */ x; } // end \
continued comment
int f@(int x) { return x; } /* unterminated? no */ //!OCLINT
int f@(int x) { switch (x) { case 1: case 2: case 3: return 1; case 4: ; case 5: { } case 6: {{ break; }} } switch (x) { default: return 1; case 9: return 2; } }
int f@(int x) { switch (x) { case 1: for (;;) { break; case 2: continue; } case 3: do { case 4: ; } while (0); if (0) { case 5: return 2; } else case 6: return 3; } return 0; }
int f@(int x) { return ({ switch (x) { case 1: ({ break; }); } x; }) + ({ ; 3; }) + ({ int f(void); f(); }); }
int f@(void) { int a[] = { [0] = 1, [2 ... 4] = { 3 }, }, b[0], *c = (int[]){ 1, 2 }; struct { int x, y; } d = { .y = 1, .x = 2 }, e[2] = { { 1 }, { .y = 2 } }, z = { }; return a[0] + c[1] + d.x + e[0].y; }
int f@(int n, int a[n][n], int b[*]); int f@(int n, int a[n][n], int b[n]) { int v[n + 1][n]; return sizeof v + sizeof(int[n]) + a[0][0] + b[0]; }
int f@(x, y, z) register int x; { if (x) return y; return z; }
int f@(int x) { int (*p)(int) = &f@, (**q)(int) = &p; return (*p)(1) + p(2) + (**q)(3) + (*f@)(4) + (****f@)(5); }
int f@(void) { return __func__[0] + __FUNCTION__[1] + __PRETTY_FUNCTION__[2] + L"x"[0] + u"y"[0] + U"z"[0] + u8"w"[0] + L'c' + 'ab'; }
int f@(long double x) { return x > 1.0L && 1.5f < x && 0x1p-3 != x && 1e400 > x && __builtin_nan("") != x; }
int f@(int x) { nest: { nest2: { if (x) goto nest; else goto nest2; } } }
int f@(int x) { int nested(int y); if (x) { extern int ext@; return ext@; } { static int s = 1; auto int t = 2; register int r = 3; return s + t + r + nested(x); } }
typedef struct td@ { struct td@ *n; } td@, *tp@; int f@(tp@ p) { while (p && p->n && p->n->n) p = p->n; if (p == (void *)0 || p->n == 0) { } return p ? !p->n : 1; }
int f@(unsigned x) { return x << 3 >> 1 | x & 7 ^ ~x && x % 3 || !x; } int g@(int x) { return x |= 1, x &= ~2, x <<= 1, x ^= x, x; }
int f@(int x) { if (x = 3) { } while (x = x - 1) ; for (; x = 2;) { break; } do { } while ((x = 1)); return x = 4; }
int f@(char *s) { if (s) { if (*s) { return 1; } } if (s) { if (*s) { return 1; } else { return 2; } } if (s) { int q = 3; if (*s) { return q; } } return 0; }
_Bool f@(int x) { _Bool b = x; if (b == 1) return 1; if (b) return 1; else return 0; } _Bool g@(_Bool b) { return b ? 1 : 0; } _Bool h@(_Bool b) { return !b == 0; }
int f@(int x) { return x == 1 ? x : (x == 2 ? x : (x == 3 ? x : 4)); } int g@(int x) { int y; return y = x, y ? y : -y; }
int f@(int a, int b, int c, int d, int e, int g, int h, int i, int j, int k) { return a; } int g@(int, int, int, int, int, int); 
void f@(void) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; i++, j++) for (int k = 0, i = 1; k < i; k--) ; for (;;) { int i; for (i = 0; ; ) break; break; } }
int f@(int *restrict p, volatile int v, const int *const q) { v; (void)v; *p; p + 1; 3; "x"; return *p + v + *q; }
int x@, *y@, z@[3], (*w@)(void), q@(void); struct { int a; } an@; enum { EA@, EB@ } en@; extern int ei@[]; static int si@; int ei@[2];
int f@(void) { while (({ int c = 3; c; })) { break; } if (({ 1; })) { } for (;({ 0; });) ; return ({ goto l; l: 3; }); }
__attribute__((constructor)) static void f@(void) { } __attribute__((weak)) int w@; __attribute__((alias("f@"))) void al@(void); int g@(void) __attribute__((warn_unused_result)); 
typedef int v4@ __attribute__((vector_size(16))); v4@ f@(v4@ a) { v4@ b = { 1, 2, 3, 4 }; return a + b & (a > b); } 
int f@(int x) { __builtin_unreachable(); } int g@(int x) { __builtin_trap(); if (__builtin_expect(!!(x), 0)) return 1; if (__builtin_constant_p(x)) { } return __builtin_choose_expr(0, x, 3); }
int f@(struct fwd@ *p, enum fe@ { FE@ } e, union fu@ *u) { return p == 0 && u == 0 && e == FE@; }
int f@(void) { struct s { int a; struct { int b; } c; } v = { 0 }, *p = &v; p->c.b = (*p).a; return (&v)->a + (v).c.b + p[0].a; }
_Alignas(16) int al@; int f@(void) { return _Alignof(al@) + sizeof al@ + sizeof(char[sizeof(int)]); } int inl@(void); extern inline int inl@(void) { return 1; }
int f@(int x) { _Static_assert(sizeof(int) >= 2, ""); ; switch (x) { _Static_assert(1, ""); case 1: _Static_assert(1, ""); return 1; } return 0; }
#define A@(x, ...) (x, ##__VA_ARGS__)
int f@(int y) { return A@(y) + A@(y, y) + A@((y), (y)); }
#define IF@ if (x) { } else
#define ELSE@ { ; }
int f@(int x) { IF@ ELSE@ IF@ { } return x; }
#define FN@(n) int n(int x) { if (x) { } switch (x) { default: ; } return (x); }
FN@(f@) FN@(g@)
#define OPEN@ {
#define CLOSE@ }
int f@(int x) OPEN@ if (x) OPEN@ CLOSE@ return x; CLOSE@
'''

CPP = r'''
class c@ { }; class d@ : public virtual c@ { }; struct e@ final : c@, private d@ { using c@::c@; };
class c@ { public: c@() = default; c@(const c@ &) = delete; c@(c@ &&) noexcept; ~c@(); c@ &operator=(const c@ &) & = default; explicit operator bool() const; int operator()(int) const; friend class q@; friend void fr@(c@ &); };
class c@ { virtual void f(int a = 3) = 0; public: virtual ~c@() = 0; static int s; private: static int p; mutable int m; int x = 3; };
struct c@ { virtual void f(); ~c@(); }; struct d@ : c@ { void f() override; virtual void g() final; };
template <class T> T f@(T a) { if (a) { } return a; } template int f@<int>(int); template <> long f@(long x) { return x; }
template <class T, int N = 3, template <class> class Q = T::template z> struct s@; 
template <class... A> int f@(A... a) { return sizeof...(a) + (0 + ... + a); } int g@ = f@(1, 2, 3);
template <class T> struct s@ { T t; void m() { for (auto &x : t) { if (x) { } } } T *operator->(); template <class U> void n(U u) { delete u; } };
template <class T> void f@(T t) { if (t) delete t; t.foo(); T::bar(); typename T::baz q; switch (t) { case 1: break; } try { t(); } catch (T &) { } throw t; }
template <bool B> int f@() { if constexpr (B) { return 1; } else { return 2; } } int z@ = f@<true>() + f@<false>();
auto l@ = [](auto x, int y = 3) mutable -> int { return x + y; }; int r@ = l@(1);
int f@(int x) { auto l = [x, &y = x, z = x + 1, this_ = 3]() { return [=] { return x + z + this_; }(); }; return l(); }
int f@(int x) try { return x; } catch (...) { return 0; }
struct t@ { int m; t@() try : m(3) { } catch (int) { } };
int f@(int x) { try { try { throw x; } catch (int &e) { throw; } } catch (...) { } return 0; }
constexpr int f@(int x) { return x ? x : 1; } static_assert(f@(1) == 1); constinit int ci@ = 3; consteval int cv@() { return 1; }
namespace n@ { namespace m { int x; } inline namespace v { int y; } } namespace al@ = n@::m; using namespace n@; using al@::x;
namespace { int hidden@; } namespace a::b::c@ { int q; }
extern "C" { int f@(int); } extern "C" int g@(int x) { return x; } extern "C++" { }
struct p@ { int a, b; }; int f@(p@ q) { auto [x, y] = q; auto &[u, v] = q; return x + y + u + v; }
int f@(int (&a)[3]) { for (int x : a) if (x) continue; for (auto &&x : a) { } for (int i = 0; auto x : a) { i += x; } return 0; }
int f@(int *p) { if (p) delete p; if (p) { delete[] p; } if (p != nullptr) { delete p; p = 0; } if (nullptr != p && *p) { } return 0; }
int f@(int *p) { if (int *q = p) return *q; if (int z = 3; z > 1) return z; while (int w = *p) return w; switch (int v = 1; v) { default: return 1; } }
enum class e@ : short { a, b }; int f@(e@ e) { switch (e) { case e@::a: return 1; case e@::b: break; } return 0; } enum f@_ : int; 
int operator""_u@(unsigned long long v) { return v; } int z@ = 3_u@;
struct o@ { int x; o@ operator+(const o@ &o) const { return { x + o.x }; } bool operator!() const { return !x; } o@ &operator++() { return *this; } o@ operator++(int) { return *this; } int operator[](int i) { return i; } bool operator==(const o@ &) const = default; };
struct o@ { bool operator!() const; }; bool f@(o@ a) { return !a; }
struct pn@ { }; void *operator new[](unsigned long, pn@, int *q) noexcept { return q; } int *f@() { return new (pn@(), nullptr) int[3]{}; }
struct b@ { virtual ~b@(); }; bool f@(b@ *p) { return dynamic_cast<b@ *>(p) || static_cast<bool>(p) || reinterpret_cast<long>(p) || const_cast<b@ *>(p); }
auto f@(int x) -> decltype(x) { return decltype(x)(x); } decltype(auto) g@(int &x) { return (x); }
template <class T> concept c@ = requires(T t) { t + 1; { t * 2 }; requires sizeof(T) > 1; }; 
template <class T> concept k@ = sizeof(T) > 1; template <k@ T> void f@(T t) { if (t) { } } void g@(k@ auto x) { f@(x); } template void f@<int>(int);
template <class T> requires (sizeof(T) > 2) T f@(T t) { return t; } long z@ = f@(3L);
[[nodiscard]] int f@([[maybe_unused]] int x) { switch (x) { case 1: x++; [[fallthrough]]; case 2: return 1; [[likely]] case 3: break; } return 0; }
alignas(16) int al@; thread_local int tl@; inline int in@ = 1; 
union u@ { int a; float b; u@() : a(0) { } ~u@() { } private: static int s; }; static union { int an@; };
struct s@ { struct inner { int x; void m() { if (x) { } } }; enum { A, B }; typedef int t; using v = t; inner i; int bit : 3; static const int c = 3; };
struct d@ { int a; int f() const { return this->a; } static void g() { } void h(int) const; }; void d@::h(int x) const { if (x) { return; } } 
struct d@ { int q; int m(int) { return 0; } }; int (d@::*pm@)(int) = &d@::m; int d@::*pd@ = &d@::q; int f@(d@ *p) { return (p->*pm@)(p->*pd@); }
struct v@ { v@(int x, int y) : v@(x) { } v@(int x) : a{x}, b() { } int a, b; };
int f@(int x) { struct l { int m() { return 1; } } v; return v.m(); } 
template <class T> using al@ = T *; al@<int> p@; template <class T> int va@ = 3; template <> int va@<int> = 4; int q@ = va@<int> + va@<long>;
template <class T> struct f@ { template <class U> friend struct f@; friend void g(f@ x) { if (1) { } } }; f@<int> i@; template struct f@<long>;
int f@() { return noexcept(f@()) + sizeof(int) + alignof(long) + __LINE__; }
void f@(int x = [] { if (1) { } return 3; }(), int y = sizeof(int)); 
struct a@ { auto operator<=>(const a@ &) const = delete; }; 
int f@(bool b) { return b ? throw 3 : 4; } bool g@(bool b) { return b ? true : false; } bool h@(bool b) { if (b == true) return true; else return false; }
int f@(int x) { return x and x or not x; } int g@(int x) { x and_eq 3; return compl x; }
auto f@ = [] { }; auto g@ = []<class T>(T t) { return t; }(3); auto h@ = [](auto... x) { return (x + ...); }(1, 2);
class c@ { class n; struct { int a; } anon; union { int u; float v; }; }; class c@::n { int q; void m(); }; void c@::n::m() { if (q) { } }
class big@ { int a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q, r, s, t, u, v; void f1(); void f2(); void f3(); void f4(); };
template <class T> class ct@ { T a; virtual void m(int d = 1); static T s; }; template <class T> T ct@<T>::s; template <class T> void ct@<T>::m(int d) { if (d) { } } template class ct@<int>;
struct co@ { }; int f@(co@ &&a, co@ const &b, co@ volatile *c) { return 0; }
const char *raw@ = R"x( if (1) { } //!OCLINT
)x"; 
template <class T> int f@() { if (sizeof(T) > 1) { return 1; } if (T::value) return 2; while (T()) { } return T::value ? 1 : 2; }
template <int N> int f@() { if (N) return 1; if (N + 1 == 2) { } if (!N) { } do { } while (N); for (; N;) { } switch (N) { case N: break; } return N ? N : 0; }
template <class T> int f@() { if (noexcept(T())) { } if (__is_class(T)) { } if (sizeof(T) == 1) { } return 0; }
template <class T> bool f@(T t) { if (t == true) return true; return false; } template <class T> bool g@(T *t) { if (t != nullptr && t->x) { return true; } else { return false; } }
template <class... T> int f@(T... t) { if (sizeof...(T) == 0) { } if ((t && ...)) { } if ((... || (t == 1))) { } return (t + ... + 0); }
template <class... T> void f@(T... t) { int a[] = { (t, 0)... }; (void)a; auto l = [t...] { return sizeof...(t); }; l(); ((t++), ...); }
template <auto V> struct s@ { static constexpr bool value = V; }; int z@ = s@<3>::value ? 1 : 2; int y@() { if (s@<1>::value) { } if (s@<0>::value && 1) return 2; return 0; }
template <class T> struct b@ { int q; void m(); }; template <class T> struct d@ : b@<T> { void m() { this->q = 1; if (this->q) { } b@<T>::m(); } using b@<T>::q; }; template struct d@<int>;
template <class T> struct b@ { virtual void m(int x = 3); static T s; static const int k = 3; }; template <class T> struct d@ : b@<T> { void m(int x = 4) override { if (b@<T>::k) { } } private: static T p; }; template struct d@<char>;
template <class T> struct p@ { }; template <class T> struct p@<T *> { void m(T *t) { if (t) delete t; } }; template <> struct p@<int> { int u; }; template struct p@<long *>;
template <class T> auto f@(T t) -> decltype(t + 1) { return t + 1; } auto z@ = f@(3); template <class T> auto g@(T t) noexcept(noexcept(t)) { if (!(t == 0)) { } return t; } auto y@ = g@(3L);
template <class T> void f@(T t) { t.a == 0 && t.b; if (t.a != 0 && t.a->b) { } if (!t.a || t->b) { } t[0] = t(1); t.template m<int>(); ~t; !t; -t; *t; &t; t += t; delete t.x; throw t.y; }
template <class T> void f@(T a, T b) { for (T i = a; i < b; b++) { } for (auto &x : a) { for (auto y : x) { } } if (auto q = a) { } switch (auto w = a; b) { default: ; } try { } catch (const T &) { } catch (T *p) { } }
template <typename T, typename = void> struct h@ { static const bool v = false; }; template <typename T> struct h@<T, decltype(void(T::x))> { static const bool v = true; }; static_assert(!h@<int>::v, "");
template <class T> T v@ = T(); template <class T> T v@<T *> = 0; template <class T> constexpr bool tr@ = sizeof(T) > 1; int q@() { if (tr@<int>) { } return tr@<char> ? 1 : v@<int>; }
template <class T> using t@ = typename T::type; template <class T> struct w@ { using type = T; enum { e = sizeof(T) }; typedef T q; }; t@<w@<int>> x@ = w@<int>::e;
template <class T> requires requires(T t) { t.x; typename T::y; } struct r@ { }; template <class T> concept cc@ = requires { T{}; }; auto fc@(cc@ auto... x) { return (x + ... + 0); } int zc@ = fc@(1, 2);
template <class T> struct f@ { f@(T) { } }; template <class T> f@(T *) -> f@<T>; f@ a@ = 3; f@ b@(&a@);
template <class T> int f@(T) requires (sizeof(T) == 4) { if constexpr (sizeof(T) == 4) return 1; else return 2; } template <class T> int f@(T) requires (sizeof(T) == 8) { return 3; } int z@ = f@(1) + f@(1L);
int f@() { if constexpr (sizeof(int) == 4) { } else { } if constexpr (1) return 3; return 0; } int g@() { if (sizeof(int) > 2) return 1; if (constexpr int q = 3; q) return q; return __builtin_is_constant_evaluated(); }
consteval int f@(int n) { if consteval { return n; } else { return 0; } } int z@ = f@(3);
struct l@ { int x; auto m() { return [*this] { return [this] { return x; }(); }; } auto n() { return [&, this] { if (x) { } return this; }; } }; 
struct l@ { int x; int m(this l@ &s) { return s.x; } };
auto f@ = [](this auto s, int n) -> int { return n ? s(n - 1) : 0; };
struct i@ { int a = 3, b{ 4 }, c[2] = { 1, 2 }; i@() = default; i@(int q) : a(q), b{ q } { } i@(int q, int r) : i@(q) { if (r) { } } explicit(true) i@(long); operator int() const { return a; } };
struct bs@ { bs@(int); }; struct ds@ : bs@ { using bs@::bs@; ds@() : bs@(3) { } }; ds@ d1@(1); 
struct mb@ { int *p; ~mb@() { if (p) { delete p; } } mb@ &operator=(mb@ o) { if (this != &o) { } return *this; } void *operator new(unsigned long); void operator delete(void *) noexcept; };
void f@(int n) { int *a = new int; int *b = new int[n]; int *c = ::new int(3); auto d = new auto(3); delete a; delete[] b; ::delete c; ::new int; if (d) delete d, d = nullptr; }
inline void *operator new(unsigned long, int *p) noexcept { return p; } void f@(int n) { int *a = new int; new (a) int(3); }
enum { a@ = sizeof(int) == 4 ? 1 : 2, b@ = a@ | 3, c@ = -1 }; enum e@ : unsigned char; enum class e@_ { }; using enum e@_; 
void f@(int, ...) noexcept(false); void f@(int x, ...) noexcept(false) { throw 3; } void g@() throw(); [[noreturn]] void h@() { throw; }
struct c@ { struct n { struct m { struct k { void f() { struct lo { void g() { if (1) { } } }; } }; }; }; };
int f@(int x) { goto a; a: if (x) goto a; { b: goto b; } return x; } int g@() { static int s = [] { return 1; }(); return s; }
struct fr@ { friend int ff@(fr@ a) { if (1) return 1; return 0; } friend struct other@; template <class T> friend void ft@(T t) { if (t) { } } }; 
template <class T> struct et@ { T t; int m() { if (t) return 1; return 0; } }; extern template struct et@<int>; template struct et@<int>;
namespace n@ { struct s; int operator+(s, int); inline namespace [[deprecated]] v { } namespace a { using namespace n@; } } using n@::operator+; 
int f@(const volatile int *const *volatile p, int (*&q)(int), int (&&r)[2]) { return **p + q(1) + r[0]; } auto (*g@)(int) -> int = 0; int (*(*h@)(int))[3];
struct bf@ { int a : 3, : 0, b : sizeof(int); int c : 3 = 1; bool d : 1 { 1 }; }; int f@(bf@ b) { auto [x, y, z, w] = b; return x + y + z + w; }
union u@ { int a; struct { int b; }; ~u@() { } }; int f@() { union { int q; float r; }; q = 3; return q; }
int f@() { return [](auto... a) { return [=](auto... b) { return (0 + ... + (a + b)); }(3, 4); }(1, 2); }
struct co@ { struct promise_type { co@ get_return_object() { return {}; } }; };
alignas(8) char al@[sizeof(long)]; int f@() { return alignof(decltype(al@)); }
void f@() { int a[3][4]; for (auto &r : a) for (int &c : r) { c = 0; if (c) continue; else break; } while (int x = 3) { break; } }
bool f@(bool a, bool b) { if (a == b == true) { } if (!(a != b)) { } if (!!a) { } return (!(!a)) && !(a && b) || !(a > b); }
int operator""_q@(const char *); int operator""_r@(const char *s, unsigned long n) { return n ? s[0] : 0; } template <char... C> int operator""_t@() { return sizeof...(C); } int z@ = "x"_r@ + 12_t@;
template <class T> struct h@ : public T { virtual int m(); virtual ~h@() { } int n() { return this->q ? 1 : 2; } }; struct hb@ { int q; virtual ~hb@(); }; h@<hb@> hi@;
template <class... B> struct pk@ : public B... { virtual void m(); using B::f...; pk@() : B()... { } }; struct pa@ { void f(int); }; struct pc@ { void f(char); }; pk@<pa@, pc@> pi@;
template <class T> struct dn@ : public T::type, virtual public T { virtual void m() = 0; }; struct dt@ { struct type { ~type(); }; }; dn@<dt@> *dp@;
template <template <class> class C, class T> struct tt@ : public C<T>, protected C<T *> { virtual int m(int d = 1); C<T> c; }; template <class T> struct tq@ { T t; }; tt@<tq@, int> *ti@;
template <class T> struct cr@ { int go() { return static_cast<T *>(this)->im(); } virtual ~cr@(); }; struct ci@ : public cr@<ci@> { virtual int im() { return 3; } };
template <class T> int f@(T t) { const wchar_t *w = t ? L"a" : L"b"; const wchar_t *v = t ? L"a" : L"a"; long z = t ? 1 : 2L; double d = t ? 1.5 : 1.5; const char *u = t ? "a" : "a"; return w && v && u ? z : d; } template int f@(int);
template <class T> bool f@(T a, T b) { if (a == true) { } if (a && true) { } if (a | 1) { } return a ? true : false; } template bool f@(int, int);
template <int N> int f@() { if (N) return 1; if (N == 3) return 2; while (N < 0) { } return N ? 4 : 4; } template int f@<3>();
template <class T> void f@(T t) { switch (t) { case T::a: break; case sizeof(T): default: break; } for (T x = t; x != t; ) { } do { } while (t != t); } enum class en@ { a, b }; 
template <class T> auto f@(T t) -> decltype(t.x) { if (t.x) return t.x; if constexpr (sizeof(T) > 4) { return t.x; } else { return 0; } } struct dx@ { int x; }; int gx@ = f@(dx@{});
template <class T> struct u@ { using T::operator(); static_assert(true); friend T; T &operator[](int); operator T *() const; explicit operator bool(); template <class U> operator U(); };
template <class T> const T v@ = T(3); template <> const int v@<int> = 4; template <class T> constexpr T w@ = v@<T>; int vw@ = w@<int> ? v@<int> : 3;
template <class T> void f@(T *p) { p->template m<int>(); p->T::~T(); (*p)(); p->x.y->z(); delete p; delete[] p; T::s(); typename T::q r; r = p ? r : r; throw p; }
template <class T> int f@(T t) { try { return t(); } catch (T &) { } catch (typename T::e) { return 0; } catch (...) { throw; } return t.m(t, T(), T{}, (T)0, sizeof(t), t.*(&T::m)); }
template <class... A> int f@(A... a) { int x[] = {a...}; if ((... && a)) { } return (a + ... + 0) + sizeof...(a) + [&](auto... b) { return sizeof...(b); }(a...); } int ff@ = f@(1, 2);
template <class T> struct o@ { struct i { virtual void m(); int z; }; enum k { a, b }; k c; static i *s; i d[3]; void m() { switch (c) { case a: break; } for (auto &e : d) e.m(); } }; template <class T> typename o@<T>::i *o@<T>::s; 
'''

M = r'''
@class Fwd@@; @protocol Pf@@; 
@interface A@@ @end
@interface A@@ { int iv; } @property int pr; @property (readonly, getter=isQ) int q; - (void)m; + (int)k:(int)a b:(int)b; @end @implementation A@@ @synthesize pr = _z; - (void)m { self.pr = 3; iv = self->iv; [self m]; } + (int)k:(int)a b:(int)b { return [self k:a b:b]; } @end
@protocol P@@ - (void)r; @optional - (int)o; @property int pp; @end @interface B@@ <P@@> @end @implementation B@@ @dynamic pp; - (void)r { } @end
@interface C@@ @end @interface C@@ (Cat) - (void)c; @end @implementation C@@ (Cat) - (void)c { if (self) { } } @end
@interface D@@ @end @interface D@@ () { int hidden; } - (void)h; @end @implementation D@@ { int im; } - (void)h { im = hidden; } @end
@implementation E@@ - (void)x { } @end
@interface F@@ - (id)initWith:(int)a; @end @implementation F@@ - (id)initWith:(int)a { if (a) { return self; } return 0; } - (void)undeclared { @try { } @finally { return; } } @end
@interface G@@ - (void)va:(int)a, ...; - (int):(int)x :(int)y; @end @implementation G@@ - (void)va:(int)a, ... { } - (int):(int)x :(int)y { return [self :y :x]; } @end
void f@@(id a) { @try { @throw a; } @catch (id e) { } @catch (...) { @throw; } @finally { @throw a; } }
void f@@(id a) { @synchronized (a) { } @autoreleasepool { @autoreleasepool { return; } } }
int f@@(int x) { int (^b)(int) = ^(int y) { if (y) { } return x + y; }; return b(3) + ^{ return 1; }(); }
void (^gb@@)(void) = ^{ if (1) { } }; 
id f@@(void) { return @selector(a:b:) ? (id)0 : (id)0; } const char *e@@ = @encode(int); 
SEL s@@; Class k@@; Protocol *pp@@;
int f@@(id a) { return a == 0 || !a && a != 0; }
@interface H@@ @end int f@@(H@@ *h) { if (h && [h isKindOfClass_]) { } return 0; }
@interface I@@ - (int)v; @end int f@@(I@@ *i) { if (i != 0 && [i v]) return [[[i self_] v] v]; return i ? [i v] : 0; }
@interface J@@ - (int)v; @end int f@@(J@@ *i) { if (i != 0 && [i v]) { return 1; } if (i == 0 || [i v]) { } return i ? [i v] : 0; }
@interface K@@ { id _b; } @property (nonatomic, copy) id b; @end @implementation K@@ - (void)setB:(id)b { _b = b; } - (id)b { return _b; } - (void)other { _b = 0; self.b = self.b; } @end
@interface L@@ - (unsigned)hash; - (signed char)isEqual:(id)o; @end @implementation L@@ - (signed char)isEqual:(id)o { return 0; } @end
__attribute__((annotate("oclint:enforce[must call super]"))) @interface N@@ @end
@interface O@@ - (void)m __attribute__((annotate("oclint:enforce[must call super]"))); @end @interface Os@@ : O@@ @end @implementation O@@ - (void)m { } @end @implementation Os@@ - (void)m { } @end
@interface Q@@ - (void)m __attribute__((annotate("oclint:enforce[subclass must implement]"))); @end @interface Qs@@ : Q@@ @end @implementation Qs@@ @end
@interface R@@ - (void)m __attribute__((annotate("oclint:enforce[protected method]"))); @end void f@@(R@@ *r) { [r m]; } void g@@(id r) { [r m]; }
@interface S@@ - (void)m __attribute__((annotate("oclint:enforce[prohibited method]"))); + (void)n; @end void f@@(S@@ *s) { [s m]; [S@@ n]; }
@compatibility_alias AL@@ Fwd@@; 
typedef enum { a@@, b@@ } T@@; int f@@(T@@ t) { switch (t) { case a@@: return 1; case b@@: return 2; default: return 3; } }
@interface U@@ @end void f@@(U@@ *u) { for (id x in u) { if (x) { } } }
@interface V@@ + (instancetype)alloc; - (instancetype)init; @end id f@@(void) { return [[V@@ alloc] init]; }
@interface W@@ - (id)objectAtIndexedSubscript:(int)i; @end id f@@(W@@ *w) { return w[1]; }
@protocol Pa@@ - (void)m __attribute__((annotate("oclint:enforce[protected method]"))); @end @interface Ia@@ <Pa@@> @end @interface Ib@@ @end @implementation Ib@@ - (void)k:(Ia@@ *)a { [a m]; } @end
@protocol Pb@@ - (void)m __attribute__((annotate("oclint:enforce[protected method]"))); @end @interface Ic@@ @end @implementation Ic@@ - (void)k:(id<Pb@@>)a { [a m]; } @end
@interface Id@@ - (void)m __attribute__((annotate("oclint:enforce[protected method]"))); + (int)cm __attribute__((annotate("oclint:enforce[protected method]"))); @end @interface Ie@@ @end @implementation Ie@@ - (void)k:(Id@@ *)a { [a m]; [Id@@ cm]; void (^b)(void) = ^{ [a m]; }; } @end @interface If@@ : Id@@ @end @implementation If@@ - (void)n:(Id@@ *)a { [a m]; [super m]; [self m]; } @end
@interface Ig@@ @end @interface Ig@@ (Cat) - (void)m __attribute__((annotate("oclint:enforce[protected method]"))); @end @interface Ih@@ @end @implementation Ih@@ - (void)k:(Ig@@ *)a { [a m]; } @end @implementation Ih@@ (Z) - (void)kk:(Ig@@ *)a { [a m]; } @end
@interface Ii@@ @property int pr __attribute__((annotate("oclint:enforce[protected method]"))); @end @interface Ij@@ @end @implementation Ij@@ - (int)k:(Ii@@ *)a { a.pr = 3; return a.pr + [a pr]; } @end
@interface Ik@@ - (void)m __attribute__((annotate("oclint:enforce[base method]"))); - (int)q:(int)x __attribute__((annotate("oclint:enforce[base method]"))); @end @interface Il@@ : Ik@@ @end @implementation Il@@ - (void)m { } - (int)q:(int)x { return x ? [super q:x] : 0; } @end @implementation Ik@@ - (void)m { } - (int)q:(int)x { return 1; } @end
@protocol Pc@@ - (void)m __attribute__((annotate("oclint:enforce[base method]"))); @end @interface Im@@ <Pc@@> @end @implementation Im@@ - (void)m { } @end @implementation Im@@ (C) - (void)m { } @end
@protocol Pd@@ - (void)m __attribute__((annotate("oclint:enforce[base method]"))); @end @interface In@@ @end @interface In@@ () <Pd@@> @end @interface Io@@ : In@@ @end @implementation Io@@ - (void)m { [super m]; } @end
@interface Ip@@ - (void)m __attribute__((annotate("oclint:enforce[abstract method]"))); + (void)c __attribute__((annotate("oclint:enforce[abstract method]"))); @end @interface Iq@@ : Ip@@ @end @implementation Iq@@ @end @interface Ir@@ : Ip@@ @end @implementation Ir@@ - (void)m { } + (void)c { } @end
@interface Is@@ - (void)m __attribute__((annotate("oclint:enforce[prohibited method][other]"))); + (void)n __attribute__((annotate("oclint:enforce[prohibited method]"))); @end void f@@(Is@@ *s) { [s m]; [Is@@ n]; [(id)s m]; }
void pf@@(void) __attribute__((annotate("oclint:enforce[prohibited method][use g]"))); void pg@@(void) { pf@@(); void (*p)(void) = pf@@; p(); (pf@@)(); (&pf@@)(); }
void pf@@(void) __attribute__((annotate("oclint:enforce[prohibited method][")))  ; void pg@@(void) { pf@@(); }
void ph@@(void) __attribute__((annotate("oclint:enforce[prohibited method]]"))) __attribute__((annotate(""))); void pi@@(void) { ph@@(); }
@interface NSNumber + (NSNumber *)numberWithInt:(int)x; + (NSNumber *)numberWithBool:(signed char)x; + (NSNumber *)numberWithChar:(char)x; + (NSNumber *)numberWithDouble:(double)x; + (NSNumber *)numberWithUnsignedInt:(unsigned)x; @end @interface NSString + (NSString *)stringWithUTF8String:(const char *)x; @end NSNumber *n@@(int x) { [NSNumber numberWithInt:x]; [NSNumber numberWithInt:(x)]; [NSNumber numberWithBool:(1)]; [NSNumber numberWithBool:(signed char)1]; [NSNumber numberWithChar:'c']; [NSNumber numberWithDouble:1.0]; [NSNumber numberWithInt:-3]; [NSNumber numberWithInt:+x]; [NSNumber numberWithUnsignedInt:3u]; [NSNumber numberWithBool:x]; return [NSNumber numberWithInt:x + 1]; }
typedef signed char BOOL; @interface NSNumber + (NSNumber *)numberWithBool:(BOOL)x; + (NSNumber *)numberWithInteger:(long)x; @end NSNumber *m@@(void) { id a = [NSNumber numberWithBool:(BOOL)1]; a = [NSNumber numberWithBool:((BOOL)0)]; a = [NSNumber numberWithInteger:(long)3]; a = [NSNumber numberWithBool:!1]; return [NSNumber numberWithBool:1 ? 1 : 0]; }
@interface NSString + (instancetype)stringWithUTF8String:(const char *)x; + (instancetype)string; @end NSString *s@@(const char *c) { [NSString stringWithUTF8String:"x"]; [NSString stringWithUTF8String:c]; [NSString string]; return [NSString stringWithUTF8String:("y")]; }
@interface NSArray + (instancetype)arrayWithObjects:(id)a, ...; + (instancetype)arrayWithObject:(id)a; + (instancetype)array; - (id)objectAtIndex:(unsigned long)i; - (id)objectAtIndexedSubscript:(unsigned long)i; @end id a@@(NSArray *a) { [NSArray arrayWithObjects:a, a, (id)0]; [NSArray arrayWithObject:a]; [NSArray array]; [[a objectAtIndex:0] objectAtIndex:1]; return a[0]; }
@interface NSMutableArray - (void)replaceObjectAtIndex:(unsigned long)i withObject:(id)o; - (void)setObject:(id)o atIndexedSubscript:(unsigned long)i; - (id)objectAtIndexedSubscript:(unsigned long)i; @end void a@@(NSMutableArray *a) { [a replaceObjectAtIndex:0 withObject:a]; a[0] = a; a[1] = a[0]; }
@interface NSDictionary + (instancetype)dictionaryWithObjects:(id)a forKeys:(id)b; + (instancetype)dictionary; - (id)objectForKey:(id)k; - (id)objectForKeyedSubscript:(id)k; @end id d@@(NSDictionary *d) { [NSDictionary dictionaryWithObjects:d forKeys:d]; [NSDictionary dictionary]; [d objectForKey:d]; return d[d]; }
@interface NSMutableDictionary - (void)setObject:(id)o forKey:(id)k; - (void)setObject:(id)o forKeyedSubscript:(id)k; - (id)objectForKeyedSubscript:(id)k; @end void d@@(NSMutableDictionary *d, id k) { [d setObject:k forKey:k]; d[k] = d; }
@interface At@@ { id _a; @public int b; @private int c; @protected int d; @package int e; } @property (nonatomic) id a; @property (nonatomic, assign) int b; @property (class) int cp; @end @implementation At@@ - (id)a { if (!_a) { _a = self; } return _a; } - (void)x { _a = 0; self->_a = 0; self.a = 0; b = self.b; self->b++; At@@.cp = 3; } - (id)init { _a = 0; return self; } - (void)dealloc { _a = 0; } @end
__attribute__((objc_root_class)) @interface Ga@@<T : id> { T iv; } @property (nonatomic, retain) T x; - (T)get; @end id f@@(Ga@@<id> *g) { return g.x ? [g get] : 0; }
@interface Eb@@ @end @implementation Eb@@ - (signed char)isEqual:(id)x { return 1; } - (unsigned long)hash { return 3; } @end @interface Ec@@ @end @implementation Ec@@ (Q) - (signed char)isEqual:(id)x { return 1; } @end
@implementation Ed@@ - (signed char)isEqual:(id)x { return 1; } - (void)m:(int)unused { int u; } @end
__attribute__((objc_root_class)) @interface Ef@@ - (id)copy; @end @implementation Ef@@ - (id)copy { id __unsafe_unretained w = self; id __strong s = w; __block int q = 3; ^{ q++; }(); return s; } @end
@interface Eg@@ - (int)lng:(int)a lng:(int)b lng:(int)c lng:(int)d lng:(int)e lng:(int)f; @end @implementation Eg@@ - (int)lng:(int)a lng:(int)b lng:(int)c lng:(int)d lng:(int)e lng:(int)f { switch (a) { case 1: { return 3; } default: [self lng:1 lng:2 lng:3 lng:4 lng:5 lng:6]; } for (int i = 0; i < 2; i++) { @autoreleasepool { if (i) { @try { } @catch (id x) { if (x) { } } } } } return 0; } @end
__attribute__((objc_root_class)) @interface NSNumber + (NSNumber *)numberWithInt:(int)x; @end __attribute__((objc_root_class)) @interface NSArray + (id)arrayWithObjects:(const id *)o count:(unsigned long)c; @end @protocol NSCopying @end __attribute__((objc_root_class)) @interface NSDictionary + (id)dictionaryWithObjects:(const id *)o forKeys:(const id<NSCopying> *)k count:(unsigned long)c; @end id f@@(id x) { id a = @{ x : @[ x, @1, @(3), @(-1) ], x : @{} }; return a ? @[] : @1; }
id bl@@ = ^(id a, id b) { return a ?: b; }; id (^cv@@)(id) = ^id(id x) { if (x) return x; else return 0; };
@interface Eh@@ - (void)m; @end @implementation Eh@@ - (void)m; { } ; - (void)n { @throw self; }; @end
@interface Ei@@ @end @implementation Ei@@ int cfun@@(int q) { if (q) { } return q; } static int st@@; typedef int td@@; - (void)k { cfun@@(st@@); } enum { EK@@ }; @end
@protocol Root@@ - (id)self; @end @protocol Sub@@ <Root@@> @required @property (readonly) int x; @optional + (void)y; @end @interface Im2@@ <Sub@@> @end int u@@(id<Sub@@> p) { return p.x && [p self] && p != 0; }
@protocol Lt@@ @end int sel@@(SEL a) { return a == @selector(x) && @selector(y:z:) != a; } Protocol *pr@@(void) { return @protocol(Lt@@); }
'''


def items(text):
    out = []
    for l in text.strip("\n").split("\n"):
        # a line that needs its predecessor is joined to it
        if out and (out[-1].rstrip().endswith("\\") or re_cont(out[-1])):
            out[-1] += "\n" + l
        else:
            out.append(l)
    return out


def re_cont(s):
    last = s.split("\n")[-1]
    return last.startswith("#define") or last.startswith("#pragma pack(push") or (last.startswith("struct p@ { char") and "\n" in s) or \
        last.startswith("const char *raw@")


def of(lang):
    a = items(C)
    if lang in ("cpp", "mm"):
        a = a + items(CPP)
    if lang in ("m", "mm"):
        a = a + [x.replace("@@", "\0") for x in items(M)]
    return [x.replace("@", "\0") if "\0" not in x else x for x in a]


ENDS = ["", "\n", "\r\n", "\n\n\n", " ", "\t", "// last", "/* last */", "//!OCLINT", "\\\n", "\f\n", "\x1a"]
STARTS = ["", "", "", "\ufeff", "\n", "\r\n", "//!OCLINT\n", "/* //!OCLINT */ ", "#line 77 \"other.c\"\n", "#line 500\n", "#line 9 \"/w/gen/g.y\"\n", "# 12 \"x.c\" 2\n", ";\n", "/**/", "#pragma once\n", "#if 0\n}}} ''\"\n#endif\n"]


def text(rng, lang, n=None):
    pool = of(lang)
    parts = []
    for k in range(n if n is not None else rng.choice([0, 1, 1, 2, 3, 5, 8])):
        parts.append(rng.choice(pool).replace("\0", str(k)))
    nl = rng.choice(["\n", "\n", "\n", "\r\n"])
    s = "\n".join(parts)
    x = rng.random()
    if x < 0.08:
        s = s.replace(" ", "  \t ") if '"' not in s else s
    elif x < 0.14 and "#" not in s and "//" not in s:
        s = s.replace("\n", " ")
    elif x < 0.2 and not any(q in s for q in ("#", '"', "//", "\\", "'")):
        s = s.replace(" ", "\n")
    elif x < 0.24:
        s = "\n".join(l + " " * 300 for l in s.split("\n")) if "\\" not in s else s
    s = rng.choice(STARTS) + s + rng.choice(ENDS)
    return s.replace("\n", nl) if nl != "\n" and "\\\n" not in s and "\r" not in s else s


def deep(rng, lang):
    """repetition: long chains, deep nesting, many declarations"""
    n = rng.choice([50, 120, 200])
    k = rng.randrange(9)
    if k == 0:
        return "int f(int x) {\n" + "".join("if (x == %d) { x++; }\nelse " % i for i in range(n)) + "{ x--; }\nreturn x; }\n"
    if k == 1:
        return "int f(int x) { return " + "(" * n + "x" + ")" * n + "; }\n"
    if k == 2:
        return "int f(int x) {\n" + "if (x) {\n" * n + "x++;\n" + "}\n" * n + "return x; }\n"
    if k == 3:
        return "int f(int x) { return " + " + ".join(["x"] * n * 5) + "; }\n"
    if k == 4:
        return "int f(int x) { switch (x) {\n" + "".join("case %d: x++;%s\n" % (i, " break;" if i % 3 else "") for i in range(n * 5)) + "}\nreturn x; }\n"
    if k == 5:
        return "".join("int f%d(int a) { if (a) { } return (a); }\n" % i for i in range(n * 3))
    if k == 6:
        return "int f(int x) {\n" + "".join("for (int i%d = 0; i%d < x; i%d++)\n" % (i, i, i) for i in range(n)) + ";\nreturn x; }\n"
    if k == 7:
        return "int f(int x) { return " + "".join("x == %d ? %d : " % (i, i) for i in range(n)) + "0; }\n"
    return "int f(" + ", ".join("int a%d" % i for i in range(n)) + ") { return " + " || ".join("a%d && a%d" % (i, i) for i in range(n)) + "; }\n"
