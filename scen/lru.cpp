// C15: the bounded cache against a reference list, with allocations and element copies failing at any point
// flags: -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0 -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memset -fno-builtin-memcmp
#include "rt.hpp"
#include "utils/lru_cache.hpp"
#include <list>
#include <algorithm>
using namespace sim;
namespace cd = cpptrace::detail;

namespace {
struct Boom {};
bool copies_may_fail = false;
struct Key {
    long k; std::string pad;
    explicit Key(long k_) : k(k_), pad(k_ % 3 ? 40 : 2, 'k') {}
    Key(const Key& o) : k(o.k), pad((maybe(), o.pad)) {}
    Key(Key&& o) : k(o.k), pad((maybe(), std::move(o.pad))) {}
    Key& operator=(const Key&) = default;
    static void maybe() { if(copies_may_fail && fault("elem.copy", 1)) throw Boom{}; }
    bool operator==(const Key& o) const { return k == o.k; }
};
struct Val {
    long v; std::string pad;
    explicit Val(long v_) : v(v_), pad(v_ % 2 ? 30 : 3, 'v') {}
    Val(const Val& o) : v(o.v), pad((Key::maybe(), o.pad)) {}
    Val(Val&& o) : v(o.v), pad((Key::maybe(), std::move(o.pad))) {}
    Val& operator=(const Val& o) { Key::maybe(); v = o.v; pad = o.pad; return *this; }
    Val& operator=(Val&& o) { Key::maybe(); v = o.v; pad = std::move(o.pad); o.v = -7; return *this; }
};
}
namespace std { template<> struct hash<Key> { size_t operator()(const Key& k) const { return size_t(k.k % 5); } }; }

namespace {
using Cache = cd::lru_cache<Key, Val>;
// front: most recently used
struct Model {
    std::list<std::pair<long, long>> l; long cap = -1;
    std::list<std::pair<long, long>>::iterator find(long k) { return std::find_if(l.begin(), l.end(), [k](const std::pair<long, long>& p) { return p.first == k; }); }
    void trim() { while(cap >= 0 && long(l.size()) > cap) l.pop_back(); }
    void touch(long k) { auto it = find(k); if(it != l.end()) l.splice(l.begin(), l, it); }
};
void gen(Rng& r, Plan& p) {
    bool many = r.chance(1, 25);
    p.p["cap"] = many ? r.range(0, 40) : r.below(7);     // 0: unbounded
    p.p["keys"] = many ? r.range(15, 70) : r.range(1, 9);
    if(r.chance(1, 2)) p.p["f.elem.copy"] = std::vector<long>{20, 100, 300}[size_t(r.below(3))];
    bool oom = r.chance(1, 2);
    long n = many ? r.range(50, 250) : r.range(3, 60);
    for(long i = 0; i < n; i++) p.ops.push_back({r.below(8), r.below(p.p["keys"]), r.below(1000) * (many ? 7 : 1), oom && r.chance(1, 4) ? r.range(1, 4) : 0});
}
struct CapErr {};
// reads every entry without changing the order, oldest first
void compare(Cache& c, Model& m, long keys, const char* when) {
    long sz; { Sut s; sz = long(c.size()); }
    SIM_CHECK(sz == long(m.l.size()), "size", "%s: the cache holds %ld entries, the model %zu", when, sz, m.l.size());
    SIM_CHECK(m.cap < 0 || sz <= m.cap, "over-capacity", "%s: %ld entries with a capacity of %ld", when, sz, m.cap);
    for(auto it = m.l.rbegin(); it != m.l.rend(); ++it) {
        Key k(it->first); long got = -1; bool has = false;
        { Sut s; auto o = c.maybe_get(k); if(o) { has = true; got = o.unwrap().v; } }
        SIM_CHECK(has, "lost", "%s: key %ld is gone", when, it->first);
        SIM_CHECK(got == it->second, "wrong-value", "%s: key %ld has value %ld instead of %ld", when, it->first, got, it->second);
    }
    for(long k = 0; k < keys; k++) if(m.find(k) == m.l.end()) {
        Key kk(k); bool has; { Sut s; has = c.maybe_get(kk).has_value(); }
        SIM_CHECK(!has, "ghost", "%s: key %ld is found although it is not in the cache", when, k);
    }
    stat("checked");
    uint64_t h = uint64_t(m.cap + 2); for(auto& e : m.l) h = h * 31 + uint64_t(e.first) + 1; state(h);
}
void exec(const Plan& p) {
    Mem m0 = live();
    Model m; m.cap = p.get("cap") ? p.get("cap") : -1;
    std::unique_ptr<Cache> c;
    {
        Sut s;
        if(m.cap < 0) c.reset(new Cache()); else c.reset(new Cache(cd::optional<std::size_t>(std::size_t(m.cap))));
    }
    for(auto& op : p.ops) {
        Key key(op[1]); bool failed = false, oom = false; long f0 = fault_count("elem.copy");
        long kind = op[0];
        bool had = m.find(op[1]) != m.l.end();
        bool got_has = false; long got = 0; bool checked_get = false;
        std::unique_ptr<Val> val(new Val(op[2]));
        auto guarded = [&](auto&& f) {
            try { Sut s; copies_may_fail = true; if(op[3]) arm_alloc(op[3], 1); f(); }
            catch(const Boom&) { failed = true; }
            catch(const std::bad_alloc&) { failed = true; oom = true; }
            long af = disarm_alloc(); copies_may_fail = false;
            SIM_CHECK(!failed || af || fault_count("elem.copy") > f0, "threw", "operation %ld threw without a fault", kind);
        };
        if(kind <= 1) {   // insert
            guarded([&] { auto o = c->insert(key, std::move(*val)); if(o) { got_has = true; got = o.unwrap().v; } });
            if(!failed) {
                SIM_CHECK(got_has == !had, "insert-result", "insert of key %ld (present: %d) reported %d", op[1], had, got_has);
                if(!had) { SIM_CHECK(got == op[2], "wrong-value", "insert returned a reference to %ld instead of %ld", got, op[2]); m.l.push_front({op[1], op[2]}); m.trim(); }
            }
        } else if(kind == 2) {   // set
            guarded([&] { c->set(key, std::move(*val)); });
            if(!failed) { if(had) { m.touch(op[1]); m.find(op[1])->second = op[2]; } else { m.l.push_front({op[1], op[2]}); m.trim(); } }
            else if(had) {
                // the assignment itself failed: the earlier value stays, being used or not is both fine
                m.touch(op[1]); Sut s; c->maybe_touch(key);
            }
        } else if(kind == 3 || kind == 4) {
            checked_get = true;
            guarded([&] {
                if(kind == 3) { auto o = c->maybe_get(key); if(o) { got_has = true; got = o.unwrap().v; } }
                else { const Cache& cc = *c; auto o = cc.maybe_get(key); if(o) { got_has = true; got = o.unwrap().v; } }
            });
            SIM_CHECK(!failed, "threw", "a lookup threw");
            SIM_CHECK(got_has == had, had ? "lost" : "ghost", "lookup of key %ld found %d", op[1], got_has);
            if(had) { SIM_CHECK(got == m.find(op[1])->second, "wrong-value", "key %ld has value %ld instead of %ld", op[1], got, m.find(op[1])->second); m.touch(op[1]); }
        } else if(kind == 5) { guarded([&] { c->maybe_touch(key); }); SIM_CHECK(!failed, "threw", "touching threw"); m.touch(op[1]); }
        else if(kind == 6) {
            long cap = op[2] % 8 + (op[2] > 1000 ? op[2] / 200 : 0); bool threw = false;
            { Sut s; try { c->set_max_size(cap ? cd::optional<std::size_t>(std::size_t(cap)) : cd::optional<std::size_t>(cd::nullopt)); } catch(...) { threw = true; } }
            SIM_CHECK(!threw, "threw", "changing the capacity threw");
            m.cap = cap ? cap : -1; m.trim();
        } else { compare(*c, m, p.get("keys"), "in between"); }
        (void)checked_get; (void)oom;
        if(failed) { event("op %ld key %ld failed", kind, op[1]); compare(*c, m, p.get("keys"), "after a failed operation"); }
        long sz; { Sut s; sz = long(c->size()); }
        SIM_CHECK(sz == long(m.l.size()), "size", "after operation %ld: %ld entries, the model has %zu", kind, sz, m.l.size());
        { Sut s; val.reset(); }
    }
    compare(*c, m, p.get("keys"), "at the end");
    // the eviction order, one at a time
    for(long k = long(m.l.size()); k >= 1; k--) { { Sut s; c->set_max_size(cd::optional<std::size_t>(std::size_t(k))); } m.cap = k; m.trim(); compare(*c, m, p.get("keys"), "while shrinking"); }
    { Sut s; c.reset(); }
    Mem m1 = live();
    SIM_CHECK(m1.blocks <= m0.blocks, "memory-leak", "%ld blocks stay allocated after the cache was destroyed", m1.blocks - m0.blocks);
}
Register reg({"lru", gen, exec});
}
