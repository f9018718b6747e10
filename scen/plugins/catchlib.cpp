// A library with its own exception types: every try macro it instantiates is prepared when it is loaded.
#include "catchlib.hpp"
#include <cpptrace/from_current.hpp>
#include <exception>
#include <new>
#include <cstddef>
using namespace cl;
__attribute__((constructor(101))) static void begin_hook() { sim_plugin_begin(); }
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
namespace CAT(plug, PLUGIN) {
#if PLUGIN == 1
const char* volatile pad_ptrs[700] = {"a"};       // shifts where the type_infos fall within their pages
#endif
struct Base { long v; explicit Base(long x) : v(x) {} virtual ~Base() {} };
struct Mid : Base { using Base::Base; long m = 1; };
struct Pre { long p[3]; virtual ~Pre() {} };
struct Leaf : Pre, Mid { explicit Leaf(long x) : Mid(x) {} };
struct L1 : virtual Base { L1() : Base(0) {} long l = 1; };
struct R1 : virtual Base { R1() : Base(0) {} long r = 2; };
struct Diamond : L1, R1 { explicit Diamond(long x) : Base(x) {} };
struct X1 : Base { using Base::Base; };
struct X2 : Base { using Base::Base; };
struct Ambig : X1, X2 { explicit Ambig(long x) : X1(x), X2(x + 1) {} };
struct Priv : private Base { explicit Priv(long x) : Base(x) {} long val() const { return v; } };
struct Plain { long v; };
struct PlainD : Plain { double d; };
enum En { e0, e1 };
enum class Ec { a, b };
struct Err : std::exception { long v; explicit Err(long x) : v(x) {} const char* what() const noexcept override { return "err"; } };
struct BadA : std::bad_alloc { long v = 9; };
static long ints[2] = {7, 8}; static int ii[2] = {3, 4};
static Base sbase{21}; static Leaf sleaf{22}; static Diamond sdia{23}; static Ambig samb{24}; static Plain splain{25}; static PlainD splaind;
static void fn0() {} static void fn1() noexcept {}

struct Thrown { const char* name; void (*go)(); };
#define T(name, expr) {name, [] { throw expr; }}
static const Thrown thrown[] = {
    T("Base", Base(1)), T("Mid", Mid(2)), T("Leaf", Leaf(3)), T("Diamond", Diamond(4)), T("X1", X1(5)), T("Ambig", Ambig(6)), T("Priv", Priv(7)),
    T("Plain", (Plain{8})), T("PlainD", PlainD()), T("En", e1), T("Ec", Ec::b), T("int", int(5)), T("unsigned", 6u), T("long", 7l), T("double", 1.5), T("bool", true), T("char", 'x'),
    T("const char*", static_cast<const char*>("lit")), T("int*", &ii[0]), T("const int*", static_cast<const int*>(&ii[1])), T("Base*", &sbase), T("const Base*", static_cast<const Base*>(&sbase)), T("Leaf*", &sleaf), T("Diamond*", &sdia), T("Ambig*", &samb),
    T("Plain*", &splain), T("PlainD*", &splaind), T("void*", static_cast<void*>(ints)), T("nullptr", nullptr), T("fn*", &fn0), T("noexcept fn*", &fn1), T("member*", &Base::v), T("Err", Err(11)), T("BadA", BadA()), T("int**", static_cast<int**>(nullptr)), T("lambda", [] {}),
};
constexpr int NT = sizeof thrown / sizeof *thrown;

// what a handler sees of the exception
static long id(const Base& b) { return b.v; } static long id(const Pre& p) { return dynamic_cast<const Base*>(&p) ? dynamic_cast<const Base*>(&p)->v + 1000 : 0; }
static long id(const L1& b) { return b.v + b.l; } static long id(const R1& b) { return b.v + b.r; } static long id(const Priv& p) { return p.val(); } static long id(const Plain& p) { return p.v; }
static long id(const X2& x) { return x.v; } static long id(const X1& x) { return x.v; } static long id(const Ambig& a) { return a.X1::v * 10 + a.X2::v; } static long id(const Diamond& d) { return d.v; } static long id(const Leaf& l) { return l.v; } static long id(const Mid& l) { return l.v; }
static long id(const std::exception& e) { return e.what()[0]; } static long id(En e) { return e; } static long id(Ec e) { return int(e); } static long id(int i) { return i; } static long id(unsigned i) { return i; } static long id(long i) { return i; } static long id(double d) { return long(d * 10); } static long id(bool b) { return b; } static long id(char c) { return c; }
static long id(const char* s) { return s ? s[0] : -1; } static long id(const int* p) { return p ? *p : -1; } static long id(const Base* b) { return b ? b->v : -1; } static long id(const L1* b) { return b ? b->v : -1; } static long id(const X2* b) { return b ? b->v : -1; } static long id(const Plain* b) { return b ? b->v : -1; }
static long id(const Leaf* b) { return b ? b->v : -1; } static long id(const Mid* b) { return b ? b->v : -1; } static long id(const Pre* b) { return b ? 1 : -1; }
static long id(const void* p) { return p == ints ? 1 : p == &ii[0] ? 2 : p == &ii[1] ? 3 : p == &sbase ? 4 : p == &sleaf ? 5 : p == &sdia ? 6 : p == &samb ? 7 : p == &splain ? 8 : p == &splaind ? 9 : p == nullptr ? 0 : 10; }
static long id(std::nullptr_t) { return 0; } static long id(void(*f)()) { return f == &fn0 ? 1 : f == nullptr ? 0 : 2; } static long id(long Base::* m) { return m ? 1 : 0; } static long id(const long Base::* m) { return m ? 1 : 0; } static long id(int** p) { return p ? 1 : 0; }

struct Ctx { const Prog& p; Out& o; bool wrapped; };
static void rec(Ctx& c, int what, int level, long v) { if(c.o.n < 96) c.o.r[c.o.n++] = {what, level, v}; }
struct Dtor { Ctx& c; int k; ~Dtor() { rec(c, 2, k, 0); } };
static void next(Ctx& c, int k);
static void raise(Ctx& c, int t) { sim_plugin_throwing(c.wrapped ? (c.o.fail_alloc > 0 ? c.o.fail_alloc : 0) : -1); thrown[t].go(); }
__attribute__((noinline)) static void caught(Ctx& c, int k, long v, bool traced) {
    sim_plugin_throwing(-1);
    rec(c, 1, k, v); c.o.handled++;
    if(traced && c.wrapped) {
        if(cpptrace::raw_trace_from_current_exception().frames.empty() && cpptrace::raw_trace_from_current_exception_rethrow().frames.empty()) c.o.missing_trace++;
        cpptrace::clear_current_exception_traces();
    }
}
static void act(Ctx& c, int k) {
    auto& l = c.p.lv[k];
    if(l.action == 1) { sim_plugin_throwing(c.wrapped ? (c.o.fail_alloc > 0 ? c.o.fail_alloc : 0) : -1); throw; }
    if(l.action == 2) raise(c, l.thrown2);
    if(l.action == 3) { sim_plugin_throwing(c.wrapped ? (c.o.fail_alloc > 0 ? c.o.fail_alloc : 0) : -1); cpptrace::rethrow(); }
}
template<class H> __attribute__((noinline)) void plain(Ctx& c, int k) { try { Dtor d{c, k}; next(c, k + 1); } catch(H h) { caught(c, k, id(h), false); act(c, k); } }
template<class H> __attribute__((noinline)) void macro(Ctx& c, int k) { CPPTRACE_TRY { Dtor d{c, k}; next(c, k + 1); } CPPTRACE_CATCH(H h) { caught(c, k, id(h), c.p.lv[k].action != 9); act(c, k); } }
struct all {};
template<> void plain<all>(Ctx& c, int k) { try { Dtor d{c, k}; next(c, k + 1); } catch(...) { caught(c, k, 77, false); act(c, k); } }
template<> void macro<all>(Ctx& c, int k) { CPPTRACE_TRY { Dtor d{c, k}; next(c, k + 1); } CPPTRACE_CATCH(...) { caught(c, k, 77, true); act(c, k); } }
// the utility: the level's handler plus two further ones; second selects which
template<class H, class H2> __attribute__((noinline)) void plain2(Ctx& c, int k) { try { Dtor d{c, k}; next(c, k + 1); } catch(H h) { caught(c, k, id(h), false); } catch(H2 h) { caught(c, k, 1000 + id(h), false); } }
template<class H> __attribute__((noinline)) void plain3(Ctx& c, int k) { try { Dtor d{c, k}; next(c, k + 1); } catch(H h) { caught(c, k, id(h), false); } catch(...) { caught(c, k, 2000, false); } }
template<class H, class H2> __attribute__((noinline)) void api2(Ctx& c, int k) { cpptrace::try_catch([&] { Dtor d{c, k}; next(c, k + 1); }, [&](H h) { caught(c, k, id(h), true); }, [&](H2 h) { caught(c, k, 1000 + id(h), true); }); }
template<class H> __attribute__((noinline)) void api3(Ctx& c, int k) { cpptrace::try_catch([&] { Dtor d{c, k}; next(c, k + 1); }, [&](H h) { caught(c, k, id(h), true); }, [&]() { caught(c, k, 2000, true); }); }
using Fn = void(*)(Ctx&, int);
struct Handler { const char* name; Fn plain, macro, util[2][3]; };
#define H(t) {#t, plain<t>, macro<t>, {{plain2<t, const Base&>, plain2<t, int>, plain3<t>}, {api2<t, const Base&>, api2<t, int>, api3<t>}}}
#define HM(t) {#t, plain<t>, macro<t>, {{nullptr, nullptr, nullptr}, {nullptr, nullptr, nullptr}}}
using IntPtr = int*; using CIntPtr = const int*; using BaseP = Base*; using CBaseP = const Base*; using MidP = Mid*; using LeafP = Leaf*; using VoidP = void*; using CVoidP = const void*; using PlainP = Plain*; using L1P = L1*; using X2P = X2*; using PreP = Pre*; using Str = const char*;
using IntPtrCR = int* const&; using BasePR = Base*&; using FnP = void(*)(); using MemP = long Base::*; using CMemP = const long Base::*; using IntPP = int**; using NullT = std::nullptr_t; using CInt = const int&; using IntR = int&;
static const Handler handlers[] = {
    H(Base&), H(const Base&), HM(Base), H(Mid&), HM(const Mid), H(Leaf&), HM(L1&), HM(const R1&), H(Diamond&), H(X1&), HM(const X2&), HM(Ambig&), HM(Priv&), H(Plain&), HM(Plain), HM(PlainD&), H(En), HM(Ec), HM(int), HM(CInt), HM(IntR), H(unsigned), HM(long), H(double), HM(bool), HM(char),
    H(Str), H(IntPtr), HM(CIntPtr), HM(IntPtrCR), H(BaseP), HM(CBaseP), HM(BasePR), HM(MidP), HM(LeafP), H(VoidP), HM(CVoidP), HM(PlainP), HM(L1P), HM(X2P), HM(PreP), HM(NullT), HM(FnP), HM(MemP), HM(CMemP), HM(IntPP), H(std::exception&), HM(const Err&), HM(const std::bad_alloc&), HM(Pre&), HM(all),
};
constexpr int NH = sizeof handlers / sizeof *handlers;
static void next(Ctx& c, int k) {
    if(k == c.p.n) { raise(c, c.p.thrown); return; }
    auto& l = c.p.lv[k]; auto& h = handlers[l.handler];
    Fn f;
    if(l.mode == 2 && h.util[0][0]) f = h.util[c.wrapped ? 1 : 0][l.second];
    else if(l.mode != 0 && c.wrapped) f = h.macro;
    else f = h.plain;
    f(c, k);
}
static void run(const Prog& p, Out& o, bool wrapped) {
    Ctx c{p, o, wrapped};
    try { next(c, 0); } catch(...) { sim_plugin_throwing(-1); rec(c, 3, -1, 0); }
}
template<class H> const std::type_info* ic() { return &typeid(cpptrace::detail::unwind_interceptor<H>); }
static const std::type_info* const icepts[] = {ic<Base&>(), ic<const Base&>(), ic<Leaf&>(), ic<Plain&>(), ic<En>(), ic<BaseP>(), ic<VoidP>(), ic<std::exception&>()};
static const char* hname(int i) { return handlers[i].name; }
static const char* tname(int i) { return thrown[i].name; }
extern "C" const Plugin sim_plugin;
const Plugin sim_plugin = {NT, NH, 3, int(sizeof icepts / sizeof *icepts), run, icepts, hname, tname};
}
