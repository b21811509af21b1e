"""Uses of a class X (C++) or struct X (C) for the compile oracle.

Each entry: (language, policy, text).  policy 'P' marks uses for which the
tool documents that it asks for the definition although a declaration
compiles (aliases, type traits, by-value function types, deletion, operator
calls).
"""

SNIPPETS = [
    ('cxx', '',
     'void f(X* p) { p = p->next; }'),
    ('cxx', '',
     'void f(X** p) { ++*p; }'),
    ('cxx', '',
     'void f(X** p) { ++p; }'),
    ('cxx', '',
     'void f(X** p) { (void)p[1]; }'),
    ('cxx', '',
     'void f(X** p) { p += 1; }'),
    ('cxx', '',
     'void f(X* p) { p += 1; }'),
    ('cxx', '',
     'void f(X* p) { p -= 1; }'),
    ('cxx', '',
     'long f(X* p, X* q) { return &*p - q; }'),
    ('cxx', '',
     'bool f(X* p, X* q) { return p < q; }'),
    ('cxx', '',
     'bool f(X* p, X* q) { return p <= q; }'),
    ('cxx', '',
     'void f(X* p) { *p; }'),
    ('cxx', '',
     'void f(X* p) { (void)*p; }'),
    ('cxx', '',
     'void f(X& p) { p; }'),
    ('cxx', '',
     'void f(X* p) { X& r = *p; (void)r; }'),
    ('cxx', '',
     'void f(X* p) { X&& r = static_cast<X&&>(*p); (void)r; }'),
    ('cxx', '',
     'void f(X* p) { auto& r = *p; (void)&r; }'),
    ('cxx', '',
     'void f(X* p) { auto r = p; (void)r; }'),
    ('cxx', '',
     'void f(X* p) { auto r = *p; }'),
    ('cxx', '',
     'void f(X* p) { decltype(*p) r = *p; }'),
    ('cxx', '',
     'void f(X* p) { decltype(p->field) r; }'),
    ('cxx', '',
     'void f(X* p) { (void)sizeof(p); }'),
    ('cxx', '',
     'void f(X* p) { (void)sizeof(*p); }'),
    ('cxx', '',
     'void f(X* p) { (void)sizeof(p[0]); }'),
    ('cxx', '',
     'void f(X* p) { (void)alignof(X); }'),
    ('cxx', '',
     'void f(X* p) { (void)noexcept(p->m()); }'),
    ('cxx', '',
     'void f(X* p) { (void)dynamic_cast<void*>(p); }'),
    ('cxx', '',
     '#include <typeinfo>\\nvoid f(X* p) { (void)typeid(*p); }'),
    ('cxx', '',
     '#include <typeinfo>\\nvoid f(X* p) { (void)typeid(p); }'),
    ('cxx', '',
     '#include <typeinfo>\\nvoid f(X* p) { (void)typeid(X); }'),
    ('cxx', '',
     'struct B{virtual ~B();}; void f(B* p) { (void)dynamic_cast<X*>(p); }'),
    ('cxx', '',
     'struct B{virtual ~B();}; void f(X* p) { (void)dynamic_cast<B*>(p); }'),
    ('cxx', '',
     'void f(X* p) { throw p; }'),
    ('cxx', '',
     'void f(X* p) { throw *p; }'),
    ('cxx', '',
     'void f() { try {} catch (X*) {} }'),
    ('cxx', '',
     'void f() { try {} catch (X&) {} }'),
    ('cxx', '',
     'X* g(); void f() { g()->m(); }'),
    ('cxx', '',
     'X& g(); void f() { g().m(); }'),
    ('cxx', '',
     'X& g(); void f() { g(); }'),
    ('cxx', '',
     'X g(); void f() { g(); }'),
    ('cxx', '',
     'X g(); void f() { (void)sizeof(g()); }'),
    ('cxx', 'P',
     'X g(); decltype(g())* z;'),
    ('cxx', '',
     'X g(); void f() { (void)&g; }'),
    ('cxx', '',
     'void g(X); void f(X& x) { g(x); }'),
    ('cxx', '',
     'void g(const X&); void f(X& x) { g(x); }'),
    ('cxx', '',
     'void g(X&); void f(X* x) { g(*x); }'),
    ('cxx', '',
     'void g(X*); void f(X& x) { g(&x); }'),
    ('cxx', '',
     'void g(void*); void f(X* x) { g(x); }'),
    ('cxx', '',
     'void g(bool); void f(X* x) { g(x); }'),
    ('cxx', '',
     'void g(...); void f(X* x) { g(x); }'),
    ('cxx', '',
     'void g(int); void f(X& x) { g(x); }'),
    ('cxx', '',
     'void f(X& x) { int i = x; }'),
    ('cxx', '',
     'void f(X& x) { if (x) {} }'),
    ('cxx', '',
     'void f(X& x) { switch (x) {} }'),
    ('cxx', '',
     'void f(X& x) { (void)x[1]; }'),
    ('cxx', '',
     'void f(X& x) { x + x; }'),
    ('cxx', '',
     'void f(X* p, X* q) { *p = *q; }'),
    ('cxx', '',
     'void f(X* p) { (void)new X(*p); }'),
    ('cxx', '',
     'void* operator new(decltype(sizeof(0)), void*); void f(void* p) { new (p) X; }'),
    ('cxx', '',
     'void f() { (void)new X*; }'),
    ('cxx', '',
     'void f() { (void)new X*[3]; }'),
    ('cxx', 'P',
     'void f() { delete static_cast<X*>(nullptr); }'),
    ('cxx', 'P',
     'struct D { X* p; ~D() { delete p; } };'),
    ('cxx', '',
     'struct D { X& r; D(X& x) : r(x) {} };'),
    ('cxx', '',
     'struct D { X& r; int g() { return r.field; } };'),
    ('cxx', '',
     'struct D : X { };'),
    ('cxx', '',
     'struct D { void m(X); };'),
    ('cxx', '',
     'struct D { X m(); };'),
    ('cxx', '',
     'struct D { void m(X x) {} };'),
    ('cxx', '',
     'struct D { virtual X m() = 0; };'),
    ('cxx', '',
     'struct D { friend X; };'),
    ('cxx', '',
     'struct D { friend struct X; };'),
    ('cxx', '',
     'struct D { friend void g(X*); };'),
    ('cxx', '',
     'struct D { friend int X::m() const; };'),
    ('cxx', '',
     'struct D { operator X*(); };'),
    ('cxx', '',
     'struct D { operator X(); };'),
    ('cxx', '',
     'struct D { D(X*); }; '),
    ('cxx', '',
     'template <class T> struct T1 { T* p; }; T1<X> t;'),
    ('cxx', '',
     'template <class T> struct T1 { T p; }; T1<X>* t;'),
    ('cxx', '',
     'template <class T> struct T1 { T p; }; extern T1<X> t;'),
    ('cxx', '',
     'template <class T> struct T1 { T p; }; void f(T1<X>& t) { (void)t.p; }'),
    ('cxx', '',
     'template <class T> struct T1 { static int i; }; int k = T1<X>::i;'),
    ('cxx', '',
     'template <class T> struct T1 { void m() { T t; } }; T1<X> t;'),
    ('cxx', '',
     'template <class T> struct T1 { void m() { T t; } }; void f(T1<X>& t) { t.m(); }'),
    ('cxx', '',
     'template <class T> struct T1 { typedef T U; }; T1<X>::U* t;'),
    ('cxx', '',
     'template <class T> struct T1 { typedef T U; }; T1<X>::U t;'),
    ('cxx', '',
     'template <class T> struct T1 { T* operator->(); }; void f(T1<X> t) { t->m(); }'),
    ('cxx', '',
     'template <class T> struct T1 { T* get(); }; void f(T1<X> t) { t.get(); }'),
    ('cxx', '',
     'template <class T> struct T1 { T* get(); }; void f(T1<X> t) { t.get()->m(); }'),
    ('cxx', '',
     'template <class T> struct T1 { T get(); }; void f(T1<X> t) { (void)&t; }'),
    ('cxx', 'P',
     'template <class T> struct T1 { ~T1() { delete p; } T* p; }; void f() { T1<X> t; }'),
    ('cxx', '',
     'template <class T> int g() { return sizeof(T); } void f() { g<X*>(); }'),
    ('cxx', '',
     'template <class T> int g() { return sizeof(T); } void f() { g<X>(); }'),
    ('cxx', '',
     'template <class T> int g() { return sizeof(T*); } void f() { g<X>(); }'),
    ('cxx', '',
     'template <class T> int g(T*) { return 1; } void f(X* x) { g(x); }'),
    ('cxx', '',
     'template <class T> int g(T) { return 1; } void f(X* x) { g(x); }'),
    ('cxx', '',
     'template <class T> int g(T) { return 1; } void f(X* x) { g(*x); }'),
    ('cxx', '',
     'template <class T> int g(T&) { return 1; } void f(X* x) { g(*x); }'),
    ('cxx', '',
     'template <class... T> int g(T&...) { return 1; } void f(X* x) { g(*x, x); }'),
    ('cxx', '',
     'template <class... T> int g(T...) { return 1; } void f(X* x) { g(1, x); }'),
    ('cxx', '',
     'template <class... T> int g(T...) { return 1; } void f(X* x) { g(1, *x); }'),
    ('cxx', '',
     'template <class T> void g(T* t) { t->m(); } void f(X* x) { g(x); }'),
    ('cxx', 'P',
     'template <class T> void g(T* t) { delete t; } void f(X* x) { g(x); }'),
    ('cxx', '',
     'template <class T> void g(T* t) { t + 1; } void f(X* x) { g(x); }'),
    ('cxx', '',
     'template <class T> void g(T* t) { ++t; } void f(X* x) { g(x); }'),
    ('cxx', '',
     'template <class T> void g(T* t) { t[0]; } void f(X* x) { g(x); }'),
    ('cxx', '',
     'template <class T> void g(T& t) { T u(t); } void f(X* x) { g(*x); }'),
    ('cxx', '',
     'template <class T> void g(T& t) { auto u = t; } void f(X* x) { g(*x); }'),
    ('cxx', '',
     'template <class T, int = sizeof(T)> void g(T* t) { } void f(X* x) { g(x); }'),
    ('cxx', '',
     'template <class T> auto g(T* t) -> decltype(t->m()) { return 1; } void f(X* x) { g(x); }'),
    ('cxx', '',
     'template <template <class> class TT> struct W { TT<X> m; };'),
    ('cxx', '',
     'template <int N> struct I {}; I<sizeof(X)> i;'),
    ('cxx', '',
     'template <X* P> struct I {}; '),
    ('cxx', '',
     'template <X& P> struct I {}; '),
    ('cxx', 'P',
     'template <class T = X> struct I { T* t; }; I<> i;'),
    ('cxx', '',
     'template <class T = X> struct I { T t; }; I<> i;'),
    ('cxx', '',
     'template <class T> struct I; template <> struct I<X> {};'),
    ('cxx', '',
     'template <class T> struct I {}; template <class T> struct I<T(X)> {};'),
    ('cxx', '',
     'template <class T> struct I {}; I<X(*)(X)> i;'),
    ('cxx', '',
     'template <class T> struct I {}; I<void(X)> i;'),
    ('cxx', '',
     'template <class T> struct I {}; I<X[2]> i;'),
    ('cxx', '',
     'template <class T> struct I {}; I<X[]> i;'),
    ('cxx', '',
     'template <class T> struct I {}; I<X&> i;'),
    ('cxx', '',
     'template <class T> struct I {}; template struct I<X>;'),
    ('cxx', '',
     'template <class T> struct I { T t; }; extern template struct I<X>;'),
    ('cxx', '',
     'auto l = [](X x) {};'),
    ('cxx', '',
     'auto l = [](X* x) { return x; };'),
    ('cxx', '',
     'auto l = [](X& x) { return x.m(); };'),
    ('cxx', '',
     'auto l = []() -> X* { return nullptr; };'),
    ('cxx', '',
     'void f(X& x) { auto l = [&x] {}; }'),
    ('cxx', '',
     'void f(X& x) { auto l = [x] {}; }'),
    ('cxx', '',
     'void f(X& x) { auto l = [&] { return &x; }; }'),
    ('cxx', '',
     'void f(X& x) { auto l = [&] { return x.m(); }; }'),
    ('cxx', '',
     'void f(X& x) { auto l = [y = &x] { return y; }; }'),
    ('cxx', '',
     'void f(X& x) { auto l = [y = x] { return 1; }; }'),
    ('cxx', '',
     'int X::* p;'),
    ('cxx', '',
     'void (X::*p)();'),
    ('cxx', '',
     'int X::* p = nullptr;'),
    ('cxx', '',
     'int f(X* x, int X::* p) { return x->*p; }'),
    ('cxx', '',
     'int f(X& x, int X::* p) { return x.*p; }'),
    ('cxx', '',
     'int f(X& x, int (X::* p)()) { return (x.*p)(); }'),
    ('cxx', '',
     'int f(X& x, int (X::* p)()) { return p ? 1 : 2; }'),
    ('cxx', '',
     'bool f(int (X::* p)(), int (X::* q)()) { return p == q; }'),
    ('cxx', '',
     'bool f(int (X::* p)()) { return sizeof(p); }'),
    ('cxx', '',
     'enum { k = sizeof(X) };'),
    ('cxx', 'P',
     'using F = X*(X&);'),
    ('cxx', '',
     'X* const* volatile v;'),
    ('cxx', 'P',
     'X* (*fp)(X, X);'),
    ('cxx', 'P',
     'X (*arr[3])(X*);'),
    ('cxx', '',
     'extern X ev[];'),
    ('cxx', '',
     'extern X ev; void f() { (void)&ev; }'),
    ('cxx', '',
     'extern X ev; void f() { ev.m(); }'),
    ('cxx', '',
     'extern X ev; X* g = &ev;'),
    ('cxx', '',
     'extern X ev; X& g = ev;'),
    ('cxx', '',
     'static X* g = nullptr;'),
    ('cxx', '',
     'thread_local X* g;'),
    ('cxx', '',
     'void f(X x[]) {}'),
    ('cxx', '',
     'void f(X x[3]) {}'),
    ('cxx', '',
     'void f(X x[]);'),
    ('cxx', '',
     'void f(X (&x)[3]);'),
    ('cxx', '',
     'void f(X (*x)[3]) {}'),
    ('cxx', '',
     'void f(X x = {});'),
    ('cxx', '',
     'void f(const X& x = X());'),
    ('cxx', '',
     'void f(X* x = nullptr);'),
    ('cxx', '',
     'void f() { extern X ev; }'),
    ('cxx', '',
     'void f() { X g(); }'),
    ('cxx', '',
     'void f() { struct L { X* p; }; }'),
    ('cxx', '',
     'void f() { struct L { X p; }; }'),
    ('cxx', 'P',
     'void f() { typedef X* P; P p; (void)p; }'),
    ('cxx', '',
     'void f() { for (X* p = nullptr; p;) {} }'),
    ('cxx', '',
     'void f(X* q) { for (X* p = q; p; p = p->next) {} }'),
    ('cxx', '',
     'void f(X* q) { if (X* p = q) {} }'),
    ('cxx', '',
     'void f(X* p) { return (void)p; }'),
    ('cxx', '',
     'X* f(void* p) { return (X*)p; }'),
    ('cxx', '',
     'X* f(void* p) { return static_cast<X*>(p); }'),
    ('cxx', '',
     'X* f(long p) { return (X*)p; }'),
    ('cxx', '',
     'X& f(char& p) { return (X&)p; }'),
    ('cxx', '',
     'X& f(char& p) { return reinterpret_cast<X&>(p); }'),
    ('cxx', '',
     'X* f(const X* p) { return const_cast<X*>(p); }'),
    ('cxx', '',
     'int* f(X* p) { return (int*)p; }'),
    ('cxx', '',
     'bool f(X* p) { return p != nullptr && !p; }'),
    ('cxx', '',
     'X* f(X* p, X* q) { return p, q; }'),
    ('cxx', '',
     'X& f(X* p, X* q) { return true ? *p : *q; }'),
    ('cxx', '',
     'void f(X* p, X* q) { true ? *p : *q; }'),
    ('cxx', '',
     'void f(X* p) { &p->field; }'),
    ('cxx', '',
     'void f(X* p) { (*p).m(); }'),
    ('cxx', '',
     'void f(X* p) { p->~X(); }'),
    ('cxx', '',
     'void f(X* p) { p->X::m(); }'),
    ('cxx', '',
     'void f(X* p) { p->tm(3); }'),
    ('cxx', '',
     'void f(X* p) { X::sm(); }'),
    ('cxx', '',
     'X::N* n;'),
    ('cxx', '',
     'X::N n;'),
    ('cxx', '',
     'X::E e;'),
    ('cxx', '',
     'int v = X::e1;'),
    ('cxx', '',
     'struct D : X { using X::m; };'),
    ('cxx', '',
     'struct D { struct I : X {}; };'),
    ('cxx', 'P',
     'bool b = __is_base_of(X, int);'),
    ('cxx', 'P',
     'bool b = __is_same(X, int);'),
    ('cxx', 'P',
     'bool b = __is_class(X);'),
    ('cxx', 'P',
     'bool b = __is_convertible(X*, void*);'),
    ('cxx', '',
     'bool b = __is_constructible(X);'),
    ('cxx', '',
     'bool b = __is_constructible(X*);'),
    ('cxx', '',
     'bool b = __is_constructible(int, X);'),
    ('cxx', '',
     'bool b = __is_trivially_copyable(X);'),
    ('cxx', '',
     'bool b = __is_empty(X);'),
    ('cxx', '',
     '#include <stdarg.h>\\nvoid f(int n, ...) { va_list a; va_start(a, n); X* x = va_arg(a, X*); va_end(a); (void)x; }'),
    ('cxx', '',
     '#include <stdarg.h>\\nvoid f(int n, ...) { va_list a; va_start(a, n); (void)va_arg(a, X); va_end(a); }'),
    ('cxx', '',
     'int f(X& x) { return __builtin_offsetof(X, field); }'),
    ('cxx', '',
     'void* f(X& x) { return __builtin_addressof(x); }'),
    ('cxx', '',
     'void f() { X* x[2] = {}; (void)x; }'),
    ('cxx', '',
     'void f() { X* x{}; (void)x; }'),
    ('cxx', '',
     'auto f() -> X { throw 1; }'),
    ('cxx', '',
     'X f();'),
    ('cxx', '',
     'X f() { throw 1; }'),
    ('cxx', '',
     'X* f() { return new X; }'),
    ('cxx', '',
     '[[noreturn]] X f();'),
    ('cxx', '',
     'constexpr X* cx = nullptr;'),
    ('cxx', '',
     'alignas(X*) int al;'),
    ('cxx', '',
     'alignas(X) int al;'),
    ('cxx', '',
     'static_assert(sizeof(X*) > 1, "");'),
    ('cxx', '',
     'void f() { static X* x; }'),
    ('cxx', '',
     'X operator+(X, int);'),
    ('cxx', '',
     'X operator+(X&, int); void f(X& x) { x + 1; }'),
    ('cxx', 'P',
     'void operator&(X&); void f(X& x) { &x; }'),
    ('cxx', 'P',
     'X& operator,(X&, int); void f(X& x) { x, 1; }'),
    ('cxx', '',
     'void f(X& x) { x, 1; }'),
    ('cxx', '',
     'namespace N { using ::X; } N::X* p;'),
    ('cxx', '',
     'namespace N { using ::X; }'),
    ('cxx', 'P',
     'using Y = X*; Y y;'),
    ('cxx', '',
     'template <class T> using Z = T*; Z<X> z;'),
    ('cxx', '',
     'template <class T> using Z = T; Z<X>* z;'),
    ('cxx', '',
     'template <class T> using Z = T; Z<X> z;'),
    ('cxx', '',
     'template <class T> T* var = nullptr; void f() { (void)var<X>; }'),
    ('cxx', '',
     'template <class T> int var = sizeof(T); void f() { (void)var<X>; }'),
    ('cxx', '',
     'template <class T> concept C = sizeof(T) > 1; bool b = C<X>;'),
    ('cxx', '',
     'template <class T> concept C = sizeof(T*) > 1; bool b = C<X>;'),
    ('cxx', '',
     'template <class T> concept C = requires(T t) { t.m(); }; bool b = C<X>;'),
    ('cxx', '',
     'template <class T> requires (sizeof(T) > 1) void g(T&); void f(X& x) { g(x); }'),
    ('cxx', '',
     'template <class T> void g(T& t) requires requires { t.m(); } {} void f(X& x) { g(x); }'),
    ('cxx', '',
     '#include <memory>\\nstd::unique_ptr<X> f(std::unique_ptr<X>);'),
    ('cxx', '',
     '#include <memory>\\nstruct D { std::unique_ptr<X> p; D(); ~D(); };'),
    ('cxx', '',
     '#include <memory>\\nstruct D { std::shared_ptr<X> p; };'),
    ('cxx', '',
     '#include <memory>\\nvoid f() { std::shared_ptr<X> p; }'),
    ('cxx', '',
     '#include <memory>\\nvoid f() { std::unique_ptr<X> p; }'),
    ('cxx', '',
     '#include <vector>\\nstd::vector<X*> v;'),
    ('cxx', '',
     '#include <vector>\\nstruct D { std::vector<X> v; D(); ~D(); };'),
    ('cxx', '',
     '#include <vector>\\nvoid f() { std::vector<X> v; }'),
    ('cxx', '',
     '#include <vector>\\nvoid f(std::vector<X>& v);'),
    ('cxx', '',
     '#include <vector>\\nvoid f(std::vector<X>& v) { v.size(); }'),
    ('cxx', '',
     '#include <map>\\nstd::map<int, X*> v;'),
    ('cxx', '',
     '#include <functional>\\nstd::function<void(X)> v;'),
    ('cxx', '',
     '#include <functional>\\nstd::function<void(X*)> v;'),
    ('cxx', '',
     '#include <functional>\\nvoid f() { std::function<void(X&)> v = [](X&) {}; }'),
    ('cxx', '',
     '#include <optional>\\nstd::optional<X> v;'),
    ('cxx', '',
     '#include <utility>\\nstd::pair<X*, int> v;'),
    ('cxx', '',
     '#include <utility>\\nvoid f(X& x, X& y) { (void)std::move(x); }'),
    ('cxx', '',
     '#include <utility>\\nvoid f(X* x, X* y) { std::swap(x, y); }'),
    ('cxx', '',
     '#include <type_traits>\\nbool b = std::is_same<X, int>::value;'),
    ('cxx', '',
     '#include <type_traits>\\nbool b = std::is_base_of<X, int>::value;'),
    ('cxx', '',
     '#include <type_traits>\\nbool b = std::is_class_v<X>;'),
    ('cxx', '',
     '#include <type_traits>\\nstd::remove_reference_t<X&>* p;'),
    ('c', '',
     'struct X* v;'),
    ('c', '',
     'void f(struct X* a, struct X* b) { *a = *b; }'),
    ('c', '',
     'void f(struct X* a, struct X* b) { struct X* c = a; (void)c; }'),
    ('c', '',
     'void f(struct X* a) { *a; }'),
    ('c', '',
     'void f(struct X* a) { (void)*a; }'),
    ('c', '',
     'void f(struct X* a) { (void)&*a; }'),
    ('c', '',
     'void g(); void f(struct X* a) { g(*a); }'),
    ('c', '',
     'void g(struct X); void f(struct X* a) { g(*a); }'),
    ('c', '',
     'struct X g(void); void f(void) { g(); }'),
    ('c', '',
     'struct X g(void); void f(void) { (void)g().field; }'),
    ('c', '',
     'struct X g(void); void f(void) { (void)sizeof(g()); }'),
    ('c', '',
     'struct X g(void); void f(void) { (void)&g; }'),
    ('c', '',
     'struct X f(struct X* p) { return *p; }'),
    ('c', '',
     'void f(struct X* p, struct X* q) { 1 ? *p : *q; }'),
    ('c', '',
     'void f(struct X* p) { __typeof__(*p) q; }'),
    ('c', '',
     'void f(struct X* p) { __typeof__(p) q; }'),
    ('c', '',
     'void f(struct X* p) { (void)_Generic(p, struct X*: 1, default: 2); }'),
    ('c', '',
     'void f(struct X* p) { (void)_Generic(*p, struct X: 1, default: 2); }'),
    ('c', '',
     'void f(struct X* p) { (void)_Alignof(struct X); }'),
    ('c', '',
     'void f(struct X* p) { (void)sizeof *p; }'),
    ('c', '',
     'void f(struct X* p) { (void)sizeof p; }'),
    ('c', '',
     'void f(struct X* p) { (void)(p + 1); }'),
    ('c', '',
     'void f(struct X* p) { p++; }'),
    ('c', '',
     'void f(struct X** p) { p++; }'),
    ('c', '',
     'long f(struct X* p, struct X* q) { return p - q; }'),
    ('c', '',
     'int f(struct X* p, struct X* q) { return p < q; }'),
    ('c', '',
     'int f(struct X* p) { return !p; }'),
    ('c', '',
     'void f(struct X* p) { p->field++; }'),
    ('c', '',
     'void f(struct X* p) { p = p->next; }'),
    ('c', '',
     'void f(struct X* p) { (void)&p->field; }'),
    ('c', '',
     'void f(struct X p[]) { }'),
    ('c', '',
     'void f(struct X p[2]) { }'),
    ('c', '',
     'void f(struct X p[2]);'),
    ('c', '',
     'struct D { struct X p; };'),
    ('c', '',
     'struct D { struct X* p; };'),
    ('c', '',
     'struct D { struct X* p[2]; };'),
    ('c', '',
     'union D { struct X p; };'),
    ('c', '',
     'struct D { int n; struct X* (*fn)(struct X*); };'),
    ('c', '',
     'extern struct X ev;'),
    ('c', '',
     'extern struct X ev; void f(void) { (void)&ev; }'),
    ('c', '',
     'extern struct X ev; struct X* p = &ev;'),
    ('c', '',
     'struct X ev;'),
    ('c', '',
     'static struct X* p;'),
    ('c', '',
     '#include <stdarg.h>\\nvoid f(int n, ...) { va_list a; va_start(a, n); (void)va_arg(a, struct X*); va_end(a); }'),
    ('c', '',
     '#include <stdarg.h>\\nvoid f(int n, ...) { va_list a; va_start(a, n); (void)va_arg(a, struct X); va_end(a); }'),
    ('c', '',
     'void f(void) { struct X* a[3]; (void)a; }'),
    ('c', '',
     'void f(void) { struct X a; }'),
    ('c', '',
     'void f(void* p) { (void)(struct X*)p; }'),
    ('c', '',
     'void f(void* p) { (void)*(struct X*)p; }'),
    ('c', '',
     'void f(void* p) { ((struct X*)p)->field = 1; }'),
    ('c', '',
     'void f(void) { (void)((struct X){1}); }'),
    ('c', '',
     'void f(void) { (void)(&(struct X){1}); }'),
    ('c', '',
     '_Static_assert(sizeof(struct X*) > 1, "");'),
    ('c', '',
     '_Static_assert(sizeof(struct X) > 1, "");'),
    ('c', '',
     '_Atomic(struct X*) p;'),
    ('c', '',
     'void f(struct X* p) { ({ p; }); }'),
    ('c', '',
     'void f(struct X*p) { struct X q = *p; }'),
    ('c', 'P',
     'typedef struct X* XP; '),
    ('c', 'P',
     'typedef struct X XT;'),
]
