"""Generator of programs whose include-what-you-use ground truth is known.

A World is a set of headers, each defining entities of many kinds, plus a main
file made of use snippets.  Every snippet states which entities it uses and
whether it needs their definition ('F') or only a declaration ('D').
"""
import random
import re


class Ent(object):
    def __init__(self, kind, name, ns, **kw):
        self.kind, self.name, self.ns = kind, name, tuple(ns)
        self.header = None
        self.text = ''
        self.deps = []           # other entities the definition needs in full
        self.tag = kw.pop('tag', 'class')
        self.tparams = kw.pop('tparams', None)
        self.inline_ns = kw.pop('inline_ns', ())
        self.__dict__.update(kw)

    @property
    def qn(self):
        return '::'.join(self.ns + (self.name,))

    @property
    def fwd_core(self):
        t = ''
        if self.tparams:
            t = 'template <%s> ' % self.tparams
        if self.kind == 'enumclass':
            return 'enum class %s%s;' % (
                self.name, ' : %s' % self.base if self.base else '')
        if self.kind == 'enumfixed':
            return 'enum %s : %s;' % (self.name, self.base)
        return '%s%s %s;' % (t, self.tag, self.name)

    def fwd(self, cxx17ns=False):
        core = self.fwd_core
        if not self.ns:
            return core
        if cxx17ns and not any(n in self.inline_ns for n in self.ns):
            return 'namespace %s { %s }' % ('::'.join(self.ns), core)
        for n in reversed(self.ns):
            core = '%snamespace %s { %s }' % (
                'inline ' if n in self.inline_ns else '', n, core)
        return core

    def __repr__(self):
        return 'Ent(%s %s in %s)' % (self.kind, self.qn, self.header)


FWD_KINDS = ('agg', 'class', 'union', 'tpl', 'tplptr', 'enumclass', 'enumfixed')


def wrap_ns(ent, text):
    for n in reversed(ent.ns):
        text = '%snamespace %s {\n%s\n}' % (
            'inline ' if n in ent.inline_ns else '', n, text)
    return text


# ---------------------------------------------------------------------------
# Entity definitions


def def_class(e, r):
    lines = ['%s %s {' % (e.tag, e.name)]
    if getattr(e, 'bases', None):
        lines[0] = '%s %s : public %s {' % (
            e.tag, e.name, ', public '.join('::' + b.qn for b in e.bases))
    body = ['%s();' % e.name,
            'explicit %s(int, int);' % e.name,
            '%s(const %s&);' % (e.name, e.name),
            'virtual ~%s();' % e.name if e.virt else '~%s();' % e.name,
            '%s& operator=(const %s&);' % (e.name, e.name),
            'int method(int) const;', 'int field;', 'int arr[4];',
            'static int smethod();', 'static int sfield;',
            'enum Inner { kInner%s };' % e.name,
            'struct Nested { int n; };', 'typedef int MyInt;',
            'int operator[](int) const;', 'int operator()(int) const;',
            '%s operator+(const %s&) const;' % (e.name, e.name),
            '%s& operator++();' % e.name,
            'const int* begin() const;', 'const int* end() const;',
            'template <typename U> U tmethod(U u) const { return u; }',
            'explicit operator bool() const;',
            'static const int kConst = 7;',
            'friend int hidden%s(const %s&);' % (e.name, e.name)]
    if e.virt:
        body.append('virtual int vmethod();')
    r.shuffle(body)
    return '\n'.join(lines + [' public:'] + ['  ' + b for b in body] + ['};'])


def def_union(e, r):
    return 'union %s { int a; char b; int m() const; };' % e.name


def def_enum(e, r):
    return 'enum %s { k%sA, k%sB = 4 };' % (e.name, e.name, e.name)


def def_enumfixed(e, r):
    return 'enum %s : %s { k%sA, k%sB = 4 };' % (
        e.name, e.base, e.name, e.name)


def def_enumclass(e, r):
    return 'enum class %s%s { kA, kB = 4 };' % (
        e.name, ' : ' + e.base if e.base else '')


def def_typedef(e, r):
    return r.choice(['typedef %s %s;', 'using %s = %s;'][:1]) % (
        e.under, e.name) if not e.using else 'using %s = %s;' % (
        e.name, e.under)


def def_func(e, r):
    if e.inline:
        return 'inline int %s(int a = 0, ...) { return a; }' % e.name
    return 'int %s(int a = 0, ...);' % e.name


def def_tfunc(e, r):
    return ('template <typename T> int %s(T) { return 0; }' % e.name)


def def_var(e, r):
    return {'extern': 'extern int %s;', 'const': 'const int %s = 5;',
            'constexpr': 'constexpr int %s = 5;',
            'static': 'static int %s = 2;'}[e.flavor] % e.name


def def_macro(e, r):
    return '#define %s 12' % e.name


def def_fmacro(e, r):
    return '#define %s(x) ((x) + 1)' % e.name


def def_tpl(e, r):
    """Class template holding a T: instantiation needs the argument."""
    n = len(e.tparams.split(','))
    extra = ''
    if n > 1:
        extra = ' '
    return ('template <%s> %s %s {\n public:\n  T t_; int x; static int sm();'
            '\n  T get() const; void put(const T& t) { t_ = t; }\n'
            '  typedef int Val;\n};' % (e.tparams, e.tag, e.name))


def def_tplptr(e, r):
    """Class template holding only a T*: no definition of T needed."""
    return ('template <%s> %s %s {\n public:\n  T* p_; int x; '
            'T* ptr() const { return p_; }\n  static int sm();\n};'
            % (e.tparams, e.tag, e.name))


def def_aliastpl(e, r):
    return 'template <typename T> using %s = T*;' % e.name


def def_vartpl(e, r):
    return 'template <typename T> constexpr int %s = sizeof(T*);' % e.name


def def_concept(e, r):
    return 'template <typename T> concept %s = sizeof(T*) > 0;' % e.name


def def_anonenum(e, r):
    return 'enum { %s = 3, %sOther };' % (e.name, e.name)


def def_tdstruct(e, r):
    return 'typedef struct { int a; } %s;' % e.name


def def_udl(e, r):
    return 'int operator"" _%s(unsigned long long);' % e.name


def def_usingfn(e, r):
    return ('namespace impl%s { int %s(int); }\nusing impl%s::%s;'
            % (e.name, e.name, e.name, e.name))


def def_usingcls(e, r):
    return ('namespace impl%s { struct %s { int field; }; }\n'
            'using impl%s::%s;' % (e.name, e.name, e.name, e.name))


def def_ovl(e, r):
    """Overloaded function set."""
    return '\n'.join(r.sample(
        ['int %s(int, int);', 'int %s(const char*);', 'long %s(double);'],
        3)) % (e.name, e.name, e.name)


def def_structc(e, r):
    """Plain aggregate (also valid C)."""
    return 'struct %s { int field; char c; };' % e.name


DEFS = {'class': def_class, 'union': def_union, 'enum': def_enum,
        'enumclass': def_enumclass, 'enumfixed': def_enumfixed,
        'typedef': def_typedef, 'func': def_func, 'tfunc': def_tfunc,
        'var': def_var, 'macro': def_macro, 'fmacro': def_fmacro,
        'tpl': def_tpl, 'tplptr': def_tplptr, 'aliastpl': def_aliastpl,
        'vartpl': def_vartpl, 'concept': def_concept,
        'anonenum': def_anonenum, 'tdstruct': def_tdstruct, 'udl': def_udl,
        'usingfn': def_usingfn, 'usingcls': def_usingcls, 'ovl': def_ovl,
        'agg': def_structc}


# ---------------------------------------------------------------------------
# Use snippets.  Each entry: (id, scope, text, needs); %(q)s is the qualified
# name, %(u)s a unique number; scope is 'decl' (namespace scope), 'stmt' or
# 'expr'.  needs is 'F' or 'D'.

CLASS_USES = [
    ('var', 'decl', '%(q)s v%(u)s;', 'F'),
    ('var_args', 'decl', '%(q)s v%(u)s(1, 2);', 'F'),
    ('var_brace', 'decl', '%(q)s v%(u)s{};', 'F'),
    ('array', 'decl', '%(q)s v%(u)s[3];', 'F'),
    ('static_var', 'decl', 'static %(q)s v%(u)s;', 'F'),
    ('base', 'decl', 'struct D%(u)s : %(q)s {};', 'F'),
    ('vbase', 'decl', 'struct D%(u)s : virtual private %(q)s {};', 'F'),
    ('member', 'decl', 'struct D%(u)s { %(q)s m; };', 'F'),
    ('member_arr', 'decl', 'class D%(u)s { %(q)s m[2]; };', 'F'),
    ('sizeof', 'decl', 'int v%(u)s = sizeof(%(q)s);', 'F'),
    ('alignof', 'decl', 'int v%(u)s = alignof(%(q)s);', 'F'),
    ('sizeof_expr', 'decl', 'int f%(u)s(%(q)s* p) { return sizeof(*p); }',
     'F'),
    ('arrow_field', 'decl', 'int f%(u)s(%(q)s* p) { return p->field; }', 'F'),
    ('arrow_method', 'decl', 'int f%(u)s(const %(q)s* p) '
     '{ return p->method(1); }', 'F'),
    ('dot_method', 'decl', 'int f%(u)s(const %(q)s& p) '
     '{ return p.method(1); }', 'F'),
    ('call_op', 'decl', 'int f%(u)s(const %(q)s& p) { return p(1); }', 'F'),
    ('index_op', 'decl', 'int f%(u)s(const %(q)s& p) { return p[1]; }', 'F'),
    ('plus_op', 'decl', 'void f%(u)s(const %(q)s& p) { p + p; }', 'F'),
    ('incr_op', 'decl', 'void f%(u)s(%(q)s& p) { ++p; }', 'F'),
    ('assign', 'decl', 'void f%(u)s(%(q)s& p, %(q)s& q) { p = q; }', 'F'),
    ('ptr_arith', 'decl', '%(q)s* f%(u)s(%(q)s* p) { return p + 1; }', 'F'),
    ('ptr_sub', 'decl', 'long f%(u)s(%(q)s* p, %(q)s* q) { return p - q; }',
     'F'),
    ('ptr_incr', 'decl', 'void f%(u)s(%(q)s* p) { p++; }', 'F'),
    ('ptr_index', 'decl', 'void f%(u)s(%(q)s* p) { (void)p[1]; }', 'F'),
    ('static_method', 'decl', 'int v%(u)s = %(q)s::smethod();', 'F'),
    ('static_field', 'decl', 'int f%(u)s() { return %(q)s::sfield; }', 'F'),
    ('const_field', 'decl', 'int v%(u)s[%(q)s::kConst];', 'F'),
    ('nested_enum', 'decl', 'int v%(u)s = %(q)s::kInner%(n)s;', 'F'),
    ('nested_enum_type', 'decl', '%(q)s::Inner v%(u)s;', 'F'),
    ('nested_type', 'decl', '%(q)s::Nested v%(u)s;', 'F'),
    ('nested_type_ptr', 'decl', '%(q)s::Nested* v%(u)s;', 'F'),
    ('nested_typedef', 'decl', '%(q)s::MyInt v%(u)s;', 'F'),
    ('mem_ptr', 'decl', 'int %(q)s::* v%(u)s = &%(q)s::field;', 'F'),
    ('mem_fn_ptr', 'decl',
     'int (%(q)s::*v%(u)s)(int) const = &%(q)s::method;', 'F'),
    ('new', 'stmt', 'new %(q)s;', 'F'),
    ('new_arr', 'stmt', 'new %(q)s[2];', 'F'),
    ('delete', 'decl', 'void f%(u)s(%(q)s* p) { delete p; }', 'F'),
    ('delete_arr', 'decl', 'void f%(u)s(%(q)s* p) { delete[] p; }', 'F'),
    ('temp', 'stmt', '%(q)s();', 'F'),
    ('temp_args', 'stmt', '%(q)s(1, 2);', 'F'),
    ('local', 'stmt', '%(q)s l%(u)s;', 'F'),
    ('local_static', 'stmt', 'static %(q)s l%(u)s;', 'F'),
    ('throw', 'stmt', 'throw %(q)s();', 'F'),
    ('catch', 'stmt', 'try {} catch (%(q)s l%(u)s) {}', 'F'),
    ('catch_ref', 'stmt', 'try {} catch (const %(q)s& l%(u)s) {}', 'F'),
    ('byval_def', 'decl', 'void f%(u)s(%(q)s p) {}', 'F'),
    ('ret_def', 'decl', '%(q)s f%(u)s() { return %(q)s(); }', 'F'),
    ('range_for', 'decl',
     'void f%(u)s(const %(q)s& c) { for (int i : c) (void)i; }', 'F'),
    ('lambda_copy', 'decl',
     'void f%(u)s(%(q)s& c) { auto l = [c]() {}; (void)l; }', 'F'),
    ('derived_cast', 'decl', None, None),
    ('ctx_bool', 'decl', 'int f%(u)s(%(q)s& c) { return c ? 1 : 0; }', 'F'),
    ('tmethod', 'decl', 'int f%(u)s(%(q)s& c) '
     '{ return c.tmethod(3); }', 'F'),
    ('decltype_mem', 'decl', 'decltype(%(q)s::sfield) v%(u)s;', 'F'),
    ('offset', 'decl', 'int v%(u)s = __builtin_offsetof(%(q)s, field);', 'F'),
    ('typetrait', 'decl', 'bool v%(u)s = __is_polymorphic(%(q)s);', 'F'),
    ('scope_friend', 'decl',
     'struct D%(u)s { friend int %(q)s::smethod(); };', 'F'),
    ('default_arg', 'decl', 'void f%(u)s(int a = %(q)s::smethod()) {}', 'F'),
    ('noexcept', 'decl',
     'void f%(u)s() noexcept(sizeof(%(q)s) > 0) {}', 'F'),
    ('tpl_nontype', 'decl',
     'template <int N> struct L%(u)s {}; L%(u)s<sizeof(%(q)s)> w%(u)s;', 'F'),
    ('static_assert', 'decl',
     'static_assert(sizeof(%(q)s) > 0, "x");', 'F'),
    ('enum_init', 'decl', 'enum En%(u)s { kEn%(u)s = sizeof(%(q)s) };', 'F'),
    ('typedef', 'decl', 'typedef %(q)s Td%(u)s;', 'F'),
    ('using', 'decl', 'using Td%(u)s = %(q)s;', 'F'),
    ('cond_expr', 'decl',
     'int f%(u)s(%(q)s* p) { return true ? p->field : 2; }', 'F'),
    ('struct_init', 'decl',
     'struct D%(u)s { int i = %(q)s::smethod(); };', 'F'),
    ('ctor_init', 'decl',
     'struct D%(u)s { int i; D%(u)s(%(q)s* p) : i(p->field) {} };', 'F'),
    ('ptr', 'decl', '%(q)s* v%(u)s;', 'D'),
    ('const_ptr', 'decl', 'const %(q)s* const v%(u)s = nullptr;', 'D'),
    ('ptr_ptr', 'decl', '%(q)s** v%(u)s;', 'D'),
    ('arr_ptr', 'decl', '%(q)s* v%(u)s[2];', 'D'),
    ('ref_param', 'decl', 'void f%(u)s(%(q)s& p) { (void)&p; }', 'D'),
    ('ref_param2', 'decl', 'void f%(u)s(const %(q)s& p) {}', 'D'),
    ('rref_param', 'decl', 'void f%(u)s(%(q)s&& p) {}', 'D'),
    ('ptr_param', 'decl', 'bool f%(u)s(%(q)s* p) { return !p; }', 'D'),
    ('param_decl', 'decl', 'void f%(u)s(%(q)s);', 'D'),
    ('ret_decl', 'decl', '%(q)s f%(u)s();', 'D'),
    ('ptr_ret', 'decl', '%(q)s* f%(u)s() { return nullptr; }', 'D'),
    ('member_ptr', 'decl', 'struct D%(u)s { %(q)s* m; };', 'D'),
    ('member_ref', 'decl', 'struct D%(u)s { %(q)s& m; };', 'D'),
    ('static_member', 'decl', 'struct D%(u)s { static %(q)s m; };', 'D'),
    ('fn_ptr', 'decl', 'void (*v%(u)s)(%(q)s*);', 'D'),
    ('fn_ptr_val', 'decl', '%(q)s (*v%(u)s)(%(q)s);', 'F'),
    ('extern_var', 'decl', 'extern %(q)s v%(u)s;', 'D'),
    ('using_ptr', 'decl', 'using Td%(u)s = %(q)s*;', 'F'),
    ('typedef_ptr', 'decl', 'typedef %(q)s* Td%(u)s;', 'F'),
    ('typedef_ref', 'decl', 'typedef %(q)s& Td%(u)s;', 'F'),
    ('cast_void', 'decl', 'void* f%(u)s(%(q)s* p) { return p; }', 'D'),
    ('cast_c', 'stmt', '(void)(%(q)s*)0;', 'D'),
    ('cast_re', 'decl',
     'void f%(u)s(char* c) { (void)reinterpret_cast<%(q)s*>(c); }', 'D'),
    ('cast_st', 'decl',
     'void f%(u)s(void* c) { (void)static_cast<%(q)s*>(c); }', 'D'),
    ('ptr_eq', 'decl',
     'bool f%(u)s(%(q)s* p, %(q)s* q) { return p == q; }', 'D'),
    ('ptr_assign', 'decl', 'void f%(u)s(%(q)s* p) { %(q)s* l = p; (void)l; }',
     'D'),
    ('local_ptr', 'stmt', '%(q)s* l%(u)s = nullptr; (void)l%(u)s;', 'D'),
    ('sizeof_ptr', 'decl', 'int v%(u)s = sizeof(%(q)s*);', 'D'),
    ('friend_cls', 'decl', 'struct D%(u)s { friend class ::%(q)s; };', 'D'),
    ('tpl_ptr_arg', 'decl',
     'template <typename T> struct L%(u)s { T* t; }; '
     'L%(u)s<%(q)s> w%(u)s;', 'D'),
    ('tpl_full_arg', 'decl',
     'template <typename T> struct L%(u)s { T t; }; '
     'L%(u)s<%(q)s> w%(u)s;', 'F'),
    ('tpl_ref_fn', 'decl',
     'template <typename T> void g%(u)s(const T& t) {} '
     'void f%(u)s(%(q)s& p) { g%(u)s(p); }', 'D'),
    ('tpl_full_fn', 'decl',
     'template <typename T> void g%(u)s(const T& t) { t.method(1); } '
     'void f%(u)s(%(q)s& p) { g%(u)s(p); }', 'F'),
    ('tpl_full_fn2', 'decl',
     'template <typename T> int g%(u)s() { return sizeof(T); } '
     'int v%(u)s = g%(u)s<%(q)s>();', 'F'),
    ('tpl_default', 'decl',
     'template <typename T = %(q)s> struct L%(u)s { T* t; };', 'F'),
    ('in_tpl_body', 'decl',
     'template <typename T> int g%(u)s(T t) { return %(q)s::smethod(); }',
     'F'),
    ('in_tpl_ptr', 'decl',
     'template <typename T> void g%(u)s(T t, %(q)s* p) {}', 'D'),
    ('lambda_param', 'stmt', 'auto l%(u)s = [](%(q)s* p) {}; (void)l%(u)s;',
     'D'),
    ('lambda_body', 'stmt',
     'auto l%(u)s = []() { return %(q)s::smethod(); }; (void)l%(u)s;', 'F'),
    ('dyn_cast', 'decl', None, None),
    ('ptr_cond', 'decl',
     '%(q)s* f%(u)s(%(q)s* p, %(q)s* q) { return p ? p : q; }', 'D'),
    ('ptr_if', 'decl', 'void f%(u)s(%(q)s* p) { if (p) {} while (p) break; }',
     'D'),
    ('trailing_ret', 'decl', 'auto f%(u)s() -> %(q)s*;', 'D'),
    ('hidden_friend', 'decl', 'int f%(u)s(const %(q)s& p) '
     '{ return hidden%(n)s(p); }', 'F'),
    ('method_in_cls', 'decl',
     'struct D%(u)s { int m(%(q)s* p) { return p->field; } };', 'F'),
    ('explicit_inst', 'decl',
     'template <typename T> struct L%(u)s { T t; }; '
     'template struct L%(u)s<%(q)s>;', 'F'),
    ('sfinae_ptr', 'decl',
     'template <class T> struct L%(u)s {}; template <> struct '
     'L%(u)s<%(q)s*> {};', 'D'),
    ('using_decl_in_derived', 'decl',
     'struct D%(u)s : %(q)s { using %(q)s::field; };', 'F'),
]

ENUM_USES = [
    ('evar', 'decl', '%(q)s v%(u)s;', 'F'),
    ('eptr', 'decl', '%(q)s* v%(u)s;', 'F'),
    ('eparam', 'decl', 'void f%(u)s(%(q)s);', 'F'),
    ('econst', 'decl', 'int v%(u)s = %(nsp)sk%(n)sA;', 'F'),
    ('econst_q', 'decl', 'int v%(u)s = %(q)s::k%(n)sB;', 'F'),
    ('eswitch', 'decl', 'int f%(u)s(int i) { switch (i) '
     '{ case %(nsp)sk%(n)sA: return 1; } return 0; }', 'F'),
    ('ecast', 'stmt', '(void)static_cast<%(q)s>(1);', 'F'),
    ('earr', 'decl', 'int v%(u)s[%(nsp)sk%(n)sB];', 'F'),
    ('emember', 'decl', 'struct D%(u)s { %(q)s m; };', 'F'),
    ('etplarg', 'decl', 'template <int N> struct L%(u)s {}; '
     'L%(u)s<%(nsp)sk%(n)sB> w%(u)s;', 'F'),
]

ENUMFIXED_USES = [
    ('fvar', 'decl', '%(q)s v%(u)s;', 'D'),
    ('fptr', 'decl', '%(q)s* v%(u)s;', 'D'),
    ('fparam', 'decl', 'void f%(u)s(%(q)s);', 'D'),
    ('fparamd', 'decl', 'void f%(u)s(%(q)s e) { (void)e; }', 'D'),
    ('fconst', 'decl', 'int v%(u)s = %(nsp)sk%(n)sA;', 'F'),
    ('fmember', 'decl', 'struct D%(u)s { %(q)s m; };', 'D'),
    ('fsizeof', 'decl', 'int v%(u)s = sizeof(%(q)s);', 'D'),
    ('fcast', 'stmt', '(void)static_cast<%(q)s>(1);', 'D'),
]

ENUMCLASS_USES = [
    ('cvar', 'decl', '%(q)s v%(u)s;', 'D'),
    ('cptr', 'decl', '%(q)s* v%(u)s;', 'D'),
    ('cparam', 'decl', 'void f%(u)s(%(q)s);', 'D'),
    ('cconst', 'decl', 'auto v%(u)s = %(q)s::kA;', 'F'),
    ('cswitch', 'decl', 'int f%(u)s(%(q)s e) '
     '{ switch (e) { case %(q)s::kB: return 1; default: return 0; } }', 'F'),
    ('ccast', 'decl', 'int f%(u)s(%(q)s e) { return static_cast<int>(e); }',
     'D'),
    ('ccmp', 'decl', 'bool f%(u)s(%(q)s e, %(q)s g) { return e == g; }', 'D'),
    ('cdefarg', 'decl', 'void f%(u)s(%(q)s e = %(q)s::kA);', 'F'),
]

UNION_USES = [
    ('uvar', 'decl', '%(q)s v%(u)s;', 'F'),
    ('uptr', 'decl', '%(q)s* v%(u)s;', 'D'),
    ('uarrow', 'decl', 'int f%(u)s(%(q)s* p) { return p->a; }', 'F'),
    ('uref', 'decl', 'void f%(u)s(const %(q)s&);', 'D'),
    ('usizeof', 'decl', 'int v%(u)s = sizeof(%(q)s);', 'F'),
    ('umember', 'decl', 'struct D%(u)s { %(q)s m; };', 'F'),
]

TYPEDEF_USES = [
    ('tvar', 'decl', '%(q)s v%(u)s;', 'F'),
    ('tptr', 'decl', '%(q)s* v%(u)s;', 'F'),
    ('tparam', 'decl', 'void f%(u)s(%(q)s);', 'F'),
    ('tcast', 'stmt', '(void)(%(q)s)1;', 'F'),
    ('tsizeof', 'decl', 'int v%(u)s = sizeof(%(q)s);', 'F'),
    ('ttypedef', 'decl', 'typedef %(q)s Td%(u)s;', 'F'),
    ('ttpl', 'decl', 'template <typename T> struct L%(u)s {}; '
     'L%(u)s<%(q)s> w%(u)s;', 'F'),
    ('tnew', 'stmt', 'new %(q)s(1);', 'F'),
]

FUNC_USES = [
    ('call', 'expr', '%(q)s(1)', 'F'),
    ('call_def', 'expr', '%(q)s()', 'F'),
    ('addr', 'expr', '&%(q)s', 'F'),
    ('fptr', 'decl', 'int (*v%(u)s)(int, ...) = %(q)s;', 'F'),
    ('init', 'decl', 'int v%(u)s = %(q)s(3);', 'F'),
    ('decltype', 'decl', 'decltype(%(q)s(1)) v%(u)s;', 'F'),
    ('in_tpl', 'decl', 'template <typename T> int g%(u)s(T t) '
     '{ return %(q)s(1); }', 'F'),
    ('in_tpl_dep', 'decl', 'template <typename T> int g%(u)s(T t) '
     '{ return %(q)s(t); } int w%(u)s = g%(u)s(1);', 'F'),
    ('sizeof', 'decl', 'int v%(u)s = sizeof(%(q)s(1));', 'F'),
    ('using', 'stmt', None, None),
    ('arg', 'decl', 'int f%(u)s(int a = %(q)s(1));', 'F'),
    ('member_init', 'decl', 'struct D%(u)s { int m = %(q)s(1); };', 'F'),
    ('nested_call', 'expr', '%(q)s(%(q)s(2))', 'F'),
    ('lambda', 'stmt', 'auto l%(u)s = []() { return %(q)s(1); }; '
     '(void)l%(u)s;', 'F'),
]

TFUNC_USES = [
    ('tcall', 'expr', '%(q)s(1)', 'F'),
    ('tcall_x', 'expr', '%(q)s<long>(1)', 'F'),
    ('taddr', 'expr', '&%(q)s<char>', 'F'),
    ('tinit', 'decl', 'int v%(u)s = %(q)s(nullptr);', 'F'),
    ('tdep', 'decl', 'template <typename T> int g%(u)s(T t) '
     '{ return %(q)s(t); }', 'F'),
]

VAR_USES = [
    ('read', 'expr', '%(q)s', 'F'),
    ('addr', 'expr', '&%(q)s', 'F'),
    ('init', 'decl', 'int v%(u)s = %(q)s;', 'F'),
    ('plus', 'expr', '%(q)s + 1', 'F'),
    ('sizeof', 'decl', 'int v%(u)s = sizeof(%(q)s);', 'F'),
    ('ref', 'decl', 'const int& v%(u)s = %(q)s;', 'F'),
    ('decltype', 'decl', 'decltype(%(q)s) *v%(u)s;', 'F'),
    ('defarg', 'decl', 'int f%(u)s(int a = %(q)s);', 'F'),
    ('lambda', 'stmt', 'auto l%(u)s = [] { return %(q)s; }; (void)l%(u)s;',
     'F'),
]

MACRO_USES = [
    ('m_init', 'decl', 'int v%(u)s = %(q)s;', 'F'),
    ('m_ifdef', 'decl', '#ifdef %(q)s\nint v%(u)s;\n#endif', 'F'),
    ('m_if', 'decl', '#if %(q)s > 3\nint v%(u)s;\n#endif', 'F'),
    ('m_defined', 'decl', '#if defined(%(q)s)\nint v%(u)s;\n#endif', 'F'),
    ('m_ifndef', 'decl', '#ifndef %(q)s\n#else\nint v%(u)s;\n#endif', 'F'),
    ('m_elif', 'decl', '#if 0\n#elif %(q)s\nint v%(u)s;\n#endif', 'F'),
    ('m_arr', 'decl', 'int v%(u)s[%(q)s];', 'F'),
    ('m_expr', 'expr', '%(q)s + 2', 'F'),
]

FMACRO_USES = [
    ('fm_init', 'decl', 'int v%(u)s = %(q)s(3);', 'F'),
    ('fm_nested', 'decl', 'int v%(u)s = %(q)s(%(q)s(3));', 'F'),
    ('fm_if', 'decl', '#if %(q)s(1) == 2\nint v%(u)s;\n#endif', 'F'),
    ('fm_ifdef', 'decl', '#ifdef %(q)s\nint v%(u)s;\n#endif', 'F'),
    ('fm_expr', 'expr', '%(q)s(4)', 'F'),
]

TPL_USES = [
    ('p_var', 'decl', '%(q)s<int%(xa)s> v%(u)s;', 'F'),
    ('p_ptr', 'decl', '%(q)s<int%(xa)s>* v%(u)s;', 'D'),
    ('p_ref', 'decl', 'void f%(u)s(const %(q)s<int%(xa)s>&);', 'D'),
    ('p_static', 'decl', 'int v%(u)s = %(q)s<int%(xa)s>::sm();', 'F'),
    ('p_base', 'decl', 'struct D%(u)s : %(q)s<int%(xa)s> {};', 'F'),
    ('p_arrow', 'decl', 'int f%(u)s(%(q)s<int%(xa)s>* p) { return p->x; }',
     'F'),
    ('p_sizeof', 'decl', 'int v%(u)s = sizeof(%(q)s<int%(xa)s>);', 'F'),
    ('p_new', 'stmt', 'new %(q)s<int%(xa)s>;', 'F'),
    ('p_deptpl', 'decl', 'template <typename T> void g%(u)s(%(q)s<T%(xa)s>* p)'
     ' {}', 'D'),
    ('p_member', 'decl', 'struct D%(u)s { %(q)s<char%(xa)s> m; };', 'F'),
    ('p_typedef', 'decl', 'typedef %(q)s<int%(xa)s> Td%(u)s;', 'F'),
    ('p_spec', 'decl', None, None),
]

ALIASTPL_USES = [
    ('at_var', 'decl', '%(q)s<int> v%(u)s;', 'F'),
    ('at_param', 'decl', 'void f%(u)s(%(q)s<int>);', 'F'),
    ('at_dep', 'decl', 'template <typename T> void f%(u)s(%(q)s<T>);', 'F'),
]

VARTPL_USES = [
    ('vt_var', 'decl', 'int v%(u)s = %(q)s<int>;', 'F'),
    ('vt_expr', 'expr', '%(q)s<char>', 'F'),
]

CONCEPT_USES = [
    ('co_req', 'decl', 'template <typename T> requires %(q)s<T> '
     'void f%(u)s(T) {}', 'F'),
    ('co_short', 'decl', 'void f%(u)s(%(q)s auto x) {}', 'F'),
    ('co_tparam', 'decl', 'template <%(q)s T> struct L%(u)s {};', 'F'),
    ('co_expr', 'decl', 'bool v%(u)s = %(q)s<int>;', 'F'),
]

ANONENUM_USES = [
    ('ae_init', 'decl', 'int v%(u)s = %(q)s;', 'F'),
    ('ae_arr', 'decl', 'char v%(u)s[%(q)s];', 'F'),
    ('ae_case', 'decl', 'int f%(u)s(int i) { switch (i) '
     '{ case %(q)s: return 1; } return 0; }', 'F'),
    ('ae_tpl', 'decl', 'template <int N> struct L%(u)s {}; '
     'typedef L%(u)s<%(q)s> w%(u)s;', 'F'),
    ('ae_enum', 'decl', 'enum En%(u)s { kEn%(u)s = %(q)s + 1 };', 'F'),
    ('ae_expr', 'expr', '%(q)s', 'F'),
]

TDSTRUCT_USES = [
    ('ts_var', 'decl', '%(q)s v%(u)s;', 'F'),
    ('ts_ptr', 'decl', '%(q)s* v%(u)s;', 'F'),
    ('ts_arrow', 'decl', 'int f%(u)s(%(q)s* p) { return p->a; }', 'F'),
    ('ts_sizeof', 'decl', 'int v%(u)s = sizeof(%(q)s);', 'F'),
    ('ts_param', 'decl', 'void f%(u)s(const %(q)s*);', 'F'),
]

UDL_USES = [
    ('udl_use', 'decl', '%(usns)s int v%(u)s = 12_%(n)s; }', 'F'),
    ('udl_call', 'decl', 'int v%(u)s = %(nsp)soperator"" _%(n)s(3);', 'F'),
]

USINGFN_USES = [
    ('uf_call', 'expr', '%(q)s(1)', 'F'),
    ('uf_init', 'decl', 'int v%(u)s = %(q)s(2);', 'F'),
    ('uf_addr', 'expr', '&%(q)s', 'F'),
]

USINGCLS_USES = [
    ('uc_var', 'decl', '%(q)s v%(u)s;', 'F'),
    ('uc_arrow', 'decl', 'int f%(u)s(%(q)s* p) { return p->field; }', 'F'),
]

OVL_USES = [
    ('ov_int', 'expr', '%(q)s(1, 2)', 'F'),
    ('ov_str', 'expr', '%(q)s("a")', 'F'),
    ('ov_dbl', 'decl', 'long v%(u)s = %(q)s(1.5);', 'F'),
    ('ov_ptr', 'decl', 'int (*v%(u)s)(const char*) = %(q)s;', 'F'),
    ('ov_dep', 'decl', 'template <typename T> int g%(u)s(T t) '
     '{ return %(q)s(t); }', 'F'),
]

AGG_USES = [
    ('ag_var', 'decl', '%(q)s v%(u)s;', 'F'),
    ('ag_init', 'decl', '%(q)s v%(u)s = {1, 2};', 'F'),
    ('ag_desig', 'decl', '%(q)s v%(u)s = {.field = 2};', 'F'),
    ('ag_bind', 'decl', 'int f%(u)s(%(q)s* p) '
     '{ auto& [x, y] = *p; return x; }', 'F'),
    ('ag_ret', 'decl', '%(q)s f%(u)s() { return {1, 2}; }', 'F'),
    ('ag_ptr', 'decl', '%(q)s* v%(u)s;', 'D'),
    ('ag_lit', 'decl', 'int f%(u)s() { return (%(q)s{1, 2}).c; }', 'F'),
    ('ag_copy', 'decl', 'void f%(u)s(%(q)s* a, %(q)s* b) { *a = *b; }', 'F'),
    ('ag_fnarg', 'decl', 'template <class T> void g%(u)s(T*); '
     'void f%(u)s(%(q)s* p) { g%(u)s(p); }', 'D'),
]

USES = {'class': CLASS_USES, 'enum': ENUM_USES, 'enumfixed': ENUMFIXED_USES,
        'enumclass': ENUMCLASS_USES, 'union': UNION_USES,
        'typedef': TYPEDEF_USES, 'func': FUNC_USES, 'tfunc': TFUNC_USES,
        'var': VAR_USES, 'macro': MACRO_USES, 'fmacro': FMACRO_USES,
        'tpl': TPL_USES, 'tplptr': TPL_USES, 'aliastpl': ALIASTPL_USES,
        'vartpl': VARTPL_USES, 'concept': CONCEPT_USES,
        'anonenum': ANONENUM_USES, 'tdstruct': TDSTRUCT_USES,
        'udl': UDL_USES, 'usingfn': USINGFN_USES,
        'usingcls': USINGCLS_USES, 'ovl': OVL_USES, 'agg': AGG_USES}
USES = {k: [u for u in v if u[2] is not None] for k, v in USES.items()}


def make_ent(kind, name, ns, r):
    kw = {}
    if kind == 'class':
        kw = dict(tag=r.choice(['class', 'struct']), virt=r.random() < .3,
                  bases=[])
    elif kind == 'union':
        kw = dict(tag='union')
    elif kind == 'agg':
        kw = dict(tag='struct')
    elif kind == 'enumclass':
        kw = dict(base=r.choice(['', '', 'char', 'long', 'unsigned char']))
    elif kind == 'enumfixed':
        kw = dict(base=r.choice(['char', 'int', 'unsigned int']))
    elif kind == 'typedef':
        kw = dict(under=r.choice(['int', 'unsigned', 'long']),
                  using=r.random() < .5)
    elif kind == 'func':
        kw = dict(inline=r.random() < .4)
    elif kind == 'var':
        kw = dict(flavor=r.choice(['extern', 'const', 'constexpr', 'static']))
    elif kind in ('tpl', 'tplptr'):
        kw = dict(tag=r.choice(['class', 'struct']),
                  tparams=r.choice(['typename T', 'class T',
                                    'typename T, int N',
                                    'typename T, typename U']))
    if kind in ('macro', 'fmacro'):
        ns = ()
        name = name.upper()
    e = Ent(kind, name, ns, **kw)
    return e


def render(e, r):
    text = DEFS[e.kind](e, r)
    return wrap_ns(e, text)


def xargs(e):
    """Further template arguments after a first type argument."""
    return {'typename T, int N': ', 3', 'typename T, typename U': ', long'
            }.get(e.tparams or '', '')


def use_text(e, use, u):
    xa = xargs(e)
    usns = 'namespace un%s {' % u
    if e.ns:
        usns += ' using namespace %s;' % '::'.join(e.ns)
    return use[2] % {'usns': usns, 'q': e.qn, 'u': u, 'n': e.name, 'xa': xa,
                     'nsp': ''.join(n + '::' for n in e.ns)}


# ---------------------------------------------------------------------------
# The C language.  Kinds are prefixed with 'c_'.

C_USES = {
    'c_struct': [
        ('cs_var', 'decl', 'struct %(q)s v%(u)s;', 'F'),
        ('cs_member', 'decl', 'struct D%(u)s { struct %(q)s m; };', 'F'),
        ('cs_arrow', 'decl', 'int f%(u)s(struct %(q)s* p) '
         '{ return p->field; }', 'F'),
        ('cs_sizeof', 'decl', 'int v%(u)s = sizeof(struct %(q)s);', 'F'),
        ('cs_arith', 'decl', 'struct %(q)s* f%(u)s(struct %(q)s* p) '
         '{ return p + 1; }', 'F'),
        ('cs_index', 'decl', 'void f%(u)s(struct %(q)s* p) { (void)p[2]; }',
         'F'),
        ('cs_lit', 'decl', 'int f%(u)s(void) '
         '{ return ((struct %(q)s){1, 2}).field; }', 'F'),
        ('cs_desig', 'decl', 'struct %(q)s v%(u)s = {.field = 1};', 'F'),
        ('cs_copy', 'decl', 'void f%(u)s(struct %(q)s* a, struct %(q)s* b) '
         '{ *a = *b; }', 'F'),
        ('cs_incr', 'decl', 'void f%(u)s(struct %(q)s* p) { ++p; }', 'F'),
        ('cs_local', 'stmt', 'struct %(q)s l%(u)s; (void)l%(u)s;', 'F'),
        ('cs_offset', 'decl', 'int v%(u)s = __builtin_offsetof(struct %(q)s, '
         'c);', 'F'),
        ('cs_byval', 'decl', 'void f%(u)s(struct %(q)s p) {}', 'F'),
    ],
    'c_union': [
        ('cu_var', 'decl', 'union %(q)s v%(u)s;', 'F'),
        ('cu_arrow', 'decl', 'int f%(u)s(union %(q)s* p) { return p->a; }',
         'F'),
        ('cu_sizeof', 'decl', 'int v%(u)s = sizeof(union %(q)s);', 'F'),
    ],
    'c_enum': [
        ('cn_var', 'decl', 'enum %(q)s v%(u)s;', 'F'),
        ('cn_const', 'decl', 'int v%(u)s = k%(n)sA;', 'F'),
        ('cn_case', 'decl', 'int f%(u)s(int i) { switch (i) '
         '{ case k%(n)sB: return 1; } return 0; }', 'F'),
        ('cn_param', 'decl', 'void f%(u)s(enum %(q)s e);', 'F'),
        ('cn_arr', 'decl', 'int v%(u)s[k%(n)sB];', 'F'),
    ],
    'c_typedef': [
        ('ct_var', 'decl', '%(q)s v%(u)s;', 'F'),
        ('ct_ptr', 'decl', '%(q)s* v%(u)s;', 'F'),
        ('ct_cast', 'stmt', '(void)(%(q)s)1;', 'F'),
        ('ct_sizeof', 'decl', 'int v%(u)s = sizeof(%(q)s);', 'F'),
        ('ct_proto', 'decl', '%(q)s f%(u)s(%(q)s a);', 'F'),
        ('ct_member', 'decl', 'struct D%(u)s { %(q)s m; };', 'F'),
    ],
    'c_func': [
        ('cf_call', 'expr', '%(q)s(1)', 'F'),
        ('cf_addr', 'expr', '&%(q)s', 'F'),
        ('cf_ptr', 'decl', 'int (*v%(u)s)(int) = %(q)s;', 'F'),
        ('cf_sizeof', 'decl', 'int v%(u)s = sizeof(%(q)s(1));', 'F'),
        ('cf_typeof', 'decl', '__typeof__(%(q)s(1)) v%(u)s;', 'F'),
    ],
    'c_var': [
        ('cv_read', 'expr', '%(q)s', 'F'),
        ('cv_addr', 'decl', 'int* v%(u)s = &%(q)s;', 'F'),
        ('cv_set', 'stmt', '%(q)s = 3;', 'F'),
        ('cv_incr', 'stmt', '%(q)s++;', 'F'),
    ],
    'macro': MACRO_USES,
    'fmacro': FMACRO_USES,
    'c_tdstruct': [
        ('cd_var', 'decl', '%(q)s v%(u)s;', 'F'),
        ('cd_arrow', 'decl', 'int f%(u)s(%(q)s* p) { return p->a; }', 'F'),
        ('cd_sizeof', 'decl', 'int v%(u)s = sizeof(%(q)s);', 'F'),
        ('cd_init', 'decl', '%(q)s v%(u)s = {1};', 'F'),
    ],
    'c_anonenum': [
        ('ca_arr', 'decl', 'char v%(u)s[%(q)s];', 'F'),
        ('ca_init', 'decl', 'int v%(u)s = %(q)s;', 'F'),
        ('ca_expr', 'expr', '%(q)s', 'F'),
    ],
}
USES.update(C_USES)
DEFS.update({
    'c_struct': lambda e, r: 'struct %s { int field; char c; };' % e.name,
    'c_union': lambda e, r: 'union %s { int a; char b; };' % e.name,
    'c_enum': def_enum,
    'c_typedef': lambda e, r: 'typedef %s %s;' % (
        r.choice(['int', 'unsigned', 'char']), e.name),
    'c_func': lambda e, r: 'int %s(int a);' % e.name,
    'c_var': lambda e, r: 'extern int %s;' % e.name,
    'c_tdstruct': def_tdstruct,
    'c_anonenum': def_anonenum,
})
C_KINDS = ['c_struct', 'c_struct', 'c_union', 'c_enum', 'c_typedef', 'c_func',
           'c_var', 'macro', 'fmacro', 'c_tdstruct', 'c_anonenum']
C_PROBE = [
    ('cs_ptr', 'decl', 'struct %(q)s* v%(u)s;', 'D'),
    ('cs_param', 'decl', 'void f%(u)s(struct %(q)s* p);', 'D'),
    ('cs_paramd', 'decl', 'void f%(u)s(struct %(q)s* p) {(void)p;}', 'D'),
    ('cs_mem', 'decl', 'struct D%(u)s { struct %(q)s* p; };', 'D'),
    ('cs_cast', 'stmt', '(void)(struct %(q)s*)0;', 'D'),
    ('cs_td', 'decl', 'typedef struct %(q)s* T%(u)s;', 'D'),
    ('cs_ret', 'decl', 'struct %(q)s* f%(u)s(void);', 'D'),
]
