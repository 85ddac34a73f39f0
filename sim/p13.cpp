// P13: tagged unions stay valid when copying or moving their content fails.
// The alternatives are instrumented types: a registry knows which object of which type lives at which
// address, and every operation of theirs that may throw is a point at which the plan can make it throw.
#include "core.hpp"
#include "common/assert.hpp"
#include "common/result.hpp"
#include "common/variant.hpp"
#include <array>
#include <map>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace sim {
namespace bm = bit_manipulation;
namespace {

struct Injected { };
struct Entry { int id; i64 value; bool moved; };

std::map<const char*, Entry> g_live;
std::string g_error;       // first misuse of an object
u64 g_countdown = 0;       // the operation that throws, 0: none
bool g_after = false;      // throw after the change instead of before
u64 g_thrown = 0, g_points = 0;

void misuse(const std::string& what)
{
    if (g_error.empty()) g_error = what;
}
bool fires()
{
    ++g_points;
    if (g_countdown == 0 || --g_countdown != 0) return false;
    ++g_thrown;
    return true;
}
Entry* entry(const void* p, int id, const char* doing)
{
    auto it = g_live.find(static_cast<const char*>(p));
    if (it == g_live.end()) { misuse(std::string(doing) + " an object that does not live"); return nullptr; }
    if (it->second.id != id) { misuse(std::string(doing) + " an object of another type"); return nullptr; }
    return &it->second;
}

enum : unsigned { copy_throws = 1, move_throws = 2, cassign_throws = 4, massign_throws = 8, default_throws = 16, move_only = 32, owns = 64, eq_throws = 128 };

template <int Id, unsigned F, std::size_t Size = 8, std::size_t Align = 8>
struct Obj {
    static constexpr int id = Id;
    static constexpr unsigned flags = F;
    alignas(Align) unsigned char bytes[Size];

private:
    void born(i64 v, bool moved)
    {
        Harness h;
        auto* p = reinterpret_cast<const char*>(this);
        if (reinterpret_cast<std::uintptr_t>(p) % Align != 0) misuse("constructing an object at a misaligned address");
        auto it = g_live.lower_bound(p);
        if (it != g_live.end() && it->first < p + sizeof(Obj)) misuse("constructing an object where one lives");
        for (std::size_t i = 0; i < Size; ++i) bytes[i] = static_cast<unsigned char>(v + i64(i) + Id);
        g_live[p] = { Id, v, moved };
    }
    Entry* self(const char* doing) const
    {
        Harness h;
        Entry* e = entry(this, Id, doing);
        if (e)
            for (std::size_t i = 0; i < Size; ++i)
                if (bytes[i] != static_cast<unsigned char>(e->value + i64(i) + Id)) { misuse(std::string(doing) + " an object whose bytes were overwritten"); break; }
        return e;
    }
    void become(Entry* e, i64 v, bool moved)
    {
        if (!e) return;
        e->value = v;
        e->moved = moved;
        for (std::size_t i = 0; i < Size; ++i) bytes[i] = static_cast<unsigned char>(v + i64(i) + Id);
    }

public:
    Obj() noexcept(!(F & default_throws))
    {
        if constexpr ((F & default_throws) != 0) if (fires()) throw Injected {};
        born(-Id - 1, false);
    }
    explicit Obj(i64 v) noexcept { born(v, false); }
    Obj(const Obj& o) noexcept(!(F & copy_throws)) requires(!(F & move_only))
    {
        const Entry* e = o.self("copying");
        const i64 v = e ? e->value : 0;
        const bool m = e && e->moved;
        if constexpr ((F & copy_throws) != 0) if (fires()) throw Injected {};
        born(v, m);
    }
    Obj(Obj&& o) noexcept(!(F & move_throws))
    {
        Entry* e = o.self("moving");
        const i64 v = e ? e->value : 0;
        const bool m = e && e->moved;
        if constexpr ((F & move_throws) != 0) if (fires()) throw Injected {};
        born(v, m);
        o.become(o.self("moving"), -99, true);
    }
    Obj& operator=(const Obj& o) noexcept(!(F & cassign_throws)) requires(!(F & move_only))
    {
        Entry* e = self("assigning to");
        const Entry* s = o.self("assigning from");
        const i64 v = s ? s->value : 0;
        const bool m = s && s->moved;
        if constexpr ((F & cassign_throws) != 0) {
            if (fires()) {
                if (g_after) become(e, -77, true);
                throw Injected {};
            }
        }
        become(e, v, m);
        return *this;
    }
    Obj& operator=(Obj&& o) noexcept(!(F & massign_throws))
    {
        Entry* e = self("assigning to");
        Entry* s = o.self("assigning from");
        const i64 v = s ? s->value : 0;
        const bool m = s && s->moved;
        if constexpr ((F & massign_throws) != 0) {
            if (fires()) {
                if (g_after) become(e, -77, true);
                throw Injected {};
            }
        }
        become(e, v, m);
        if (this != &o) o.become(s, -99, true);
        return *this;
    }
    ~Obj()
    {
        Harness h;
        if (self("destroying")) g_live.erase(reinterpret_cast<const char*>(this));
    }
    friend bool operator==(const Obj& a, const Obj& b) noexcept(!(F & eq_throws))
    {
        const Entry *x = a.self("comparing"), *y = b.self("comparing");
        if constexpr ((F & eq_throws) != 0) if (fires()) throw Injected {};
        return x && y && x->value == y->value;
    }
    i64 read() const
    {
        const Entry* e = self("reading");
        return e ? e->value : 0;
    }
    void write(i64 v) { become(self("writing"), v, false); }
};

using Val = Obj<0, 0>;
using Own = Obj<1, copy_throws>;
using Assign = Obj<2, copy_throws | cassign_throws>;
using Def = Obj<3, default_throws | copy_throws | cassign_throws>;
using Only = Obj<4, move_only>;
using Big = Obj<5, copy_throws, 96, 32>;
using Tiny = Obj<6, 0, 1, 1>;
using Move = Obj<7, move_throws>;
using Comp = Obj<8, eq_throws | copy_throws, 3, 1>;
using Massign = Obj<9, massign_throws | copy_throws>;
using Err = Obj<10, 0, 24>;
template <int I> using Nth = Obj<100 + I, (I % 3 == 0 ? copy_throws : 0u) | (I % 4 == 0 ? cassign_throws : 0u), 1 + I % 7, (I % 2 == 0 ? 1 : 2)>;

struct State { bool live = false; bool known = true; int index = 0; i64 value = 0; };

struct Arena_Base {
    Outcome& o;
    std::string where;
    explicit Arena_Base(Outcome& o) : o(o) { }
    virtual ~Arena_Base() = default;
    virtual void run(const Line&) = 0;
    virtual u64 audit() = 0; // returns how many objects must live
    virtual void finish() = 0;
};

void wrong(Outcome& o, const std::string& cls, const std::string& what) { fail(o, cls, what); }

std::vector<Entry> within(const void* p, std::size_t n)
{
    std::vector<Entry> r;
    auto* c = static_cast<const char*>(p);
    for (auto it = g_live.lower_bound(c); it != g_live.end() && it->first < c + n; ++it) r.push_back(it->second);
    return r;
}

// runs f as code under test; 0: returned, 1: injected exception, 2: internal error, 3: something else
template <typename F> int attempt(F&& f)
{
    try {
        Sut s;
        f();
        return 0;
    } catch (Injected&) {
        return 1;
    } catch (bm::Assertion_Error&) {
        return 2;
    } catch (...) {
        return 3;
    }
}

// ---------------------------------------------------------------- Variant
template <typename... Ts>
struct Variant_Arena final : Arena_Base {
    using V = bm::Variant<Ts...>;
    static constexpr int N = sizeof...(Ts);
    template <int I> using T = bm::pack_at_index_t<I, Ts...>;
    static constexpr int ids[] { Ts::id... };
    std::array<V*, 4> slot {};
    std::array<State, 4> state {};
    std::vector<V> vec;
    std::vector<State> vstate;

    explicit Variant_Arena(Outcome& o) : Arena_Base(o) { }
    ~Variant_Arena() override = default;

    template <typename F> void with_index(int i, F&& f)
    {
        [&]<int... I>(std::integer_sequence<int, I...>) { ((i == I ? (void)f.template operator()<I>() : void()), ...); }(std::make_integer_sequence<int, N> {});
    }
    void check_one(const V& v, State& s, const std::string& name)
    {
        auto e = within(&v, sizeof(V));
        if (e.size() != 1) return wrong(o, "not-one-alternative", where + ": " + name + " holds " + N_(e.size()) + " live objects");
        const u64 idx = v.index();
        if (idx >= u64(N)) return wrong(o, "index-out-of-range", where + ": " + name + " has index " + N_(idx));
        if (ids[idx] != e[0].id) return wrong(o, "wrong-index", where + ": " + name + " has index " + N_(idx) + " but an object of type " + N_(u64(e[0].id)) + " lives in it");
        if (s.known) {
            if (s.index != int(idx)) return wrong(o, "other-alternative", where + ": " + name + " should hold alternative " + N_(u64(s.index)) + " and holds " + N_(idx));
            if (s.value != e[0].value) return wrong(o, "other-value", where + ": " + name + " should hold " + sim::N(s.value) + " and holds " + sim::N(e[0].value));
        } else {
            s.index = int(idx);
            s.value = e[0].value;
            s.known = true;
        }
    }
    static std::string N_(u64 x) { return sim::N(i64(x)); }
    u64 audit() override
    {
        u64 n = 0;
        for (int i = 0; i < 4; ++i) {
            if (!slot[i]) continue;
            ++n;
            check_one(*slot[i], state[i], "variant " + N_(u64(i)));
            if (o.violation) return 0;
        }
        if (vstate.size() != vec.size()) { vstate.assign(vec.size(), State { true, false, 0, 0 }); }
        for (std::size_t i = 0; i < vec.size(); ++i) {
            ++n;
            check_one(vec[i], vstate[i], "element " + N_(i));
            if (o.violation) return 0;
        }
        return n;
    }
    void drop(int a)
    {
        if (!slot[a]) return;
        { Sut s; delete slot[a]; }
        slot[a] = nullptr;
        state[a] = {};
    }
    void report(int r, const char* op, bool expected_assert = false)
    {
        g_log.add(where + " -> " + N_(u64(r)));
        if (r == 3) wrong(o, "other-exception", where + ": " + op + " lets another exception through");
        if (r == 2 && !expected_assert) wrong(o, "internal-error", where + ": " + op + " ends in an internal error");
    }
    template <typename F> void construct(int a, const State& s, const char* op, F&& f)
    {
        drop(a);
        V* p = nullptr;
        const int r = attempt([&] { p = f(); });
        report(r, op);
        if (r == 0) { slot[a] = p; state[a] = s; state[a].live = true; }
    }
    void run(const Line& l) override
    {
        const std::string op = l.str(0);
        const int a = int(l.num(2) & 3), b = int(l.num(3) & 3);
        const int i = int(u64(l.num(4)) % u64(N));
        const i64 x = l.num(5), mode = l.num(8);
        if (op == "make") {
            with_index(i, [&]<int I>() {
                State s { true, true, I, x };
                if constexpr ((T<I>::flags & move_only) == 0) {
                    if (mode % 3 == 1) { T<I> t(x); construct(a, s, "construction from a value", [&] { return new V(t); }); return; }
                    if (mode % 3 == 2) { const T<I> t(x); construct(a, s, "construction from a constant", [&] { return new V(t); }); return; }
                }
                construct(a, s, "construction from a temporary", [&] { return new V(T<I>(x)); });
            });
        } else if (op == "default") {
            if constexpr (std::is_default_constructible_v<V>) construct(a, State { true, true, 0, -T<0>::id - 1 }, "default construction", [&] { return new V; });
        } else if (op == "copy" && slot[b] && a != b) {
            if constexpr (std::is_copy_constructible_v<V>) construct(a, state[b], "copying", [&] { return new V(std::as_const(*slot[b])); });
        } else if (op == "move" && slot[b] && a != b) {
            if constexpr (std::is_move_constructible_v<V>) {
                construct(a, state[b], "moving", [&] { return new V(std::move(*slot[b])); });
                state[b].known = false;
            }
        } else if (op == "cassign" && slot[a] && slot[b]) {
            if constexpr (std::is_copy_assignable_v<V>) {
                const int r = attempt([&] { *slot[a] = std::as_const(*slot[b]); });
                report(r, "copy assignment");
                if (r == 0) state[a] = state[b];
                else if (a == b || r == 1) state[a].known = false;
            }
        } else if (op == "massign" && slot[a] && slot[b]) {
            if constexpr (std::is_move_assignable_v<V>) {
                const int r = attempt([&] { *slot[a] = std::move(*slot[b]); });
                report(r, "move assignment");
                if (r == 0 && a != b) state[a] = state[b];
                else state[a].known = false;
                state[b].known = false;
            }
        } else if (op == "vassign" && slot[a]) {
            if constexpr (std::is_move_assignable_v<V>)
                with_index(i, [&]<int I>() {
                    if constexpr ((T<I>::flags & move_only) == 0) {
                        if (mode % 2) {
                            const T<I> t(x);
                            const int r = attempt([&] { *slot[a] = t; });
                            report(r, "assigning a constant");
                            if (r == 0) state[a] = State { true, true, I, x };
                            else state[a].known = false;
                            return;
                        }
                    }
                    const int r = attempt([&] { *slot[a] = T<I>(x); });
                    report(r, "assigning a temporary");
                    if (r == 0) state[a] = State { true, true, I, x };
                    else state[a].known = false;
                });
        } else if (op == "swap" && slot[a] && slot[b]) {
            if constexpr (std::is_swappable_v<V>) {
                const int r = attempt([&] { using std::swap; swap(*slot[a], *slot[b]); });
                report(r, "swapping");
                if (r == 0 && a != b) std::swap(state[a], state[b]);
                else if (r != 0 || a == b) state[a].known = state[b].known = false;
            }
        } else if (op == "drop") {
            drop(a);
            g_log.add(where);
        } else if (op == "get" && slot[a]) {
            get(a, i, mode);
        } else if (op == "visit" && slot[a]) {
            visit(a, x, mode);
        } else if (op == "eq" && slot[a] && slot[b]) {
            bool eq = false;
            const int r = attempt([&] { eq = *slot[a] == *slot[b]; });
            report(r, "comparison");
            if (r == 0 && eq != (state[a].index == state[b].index && state[a].value == state[b].value)) wrong(o, "wrong-comparison", where + ": == gives " + (eq ? "true" : "false"));
        } else if (op == "eqv" && slot[a]) {
            with_index(i, [&]<int I>() {
                const T<I> t(mode % 2 ? state[a].value : x);
                bool eq = false;
                const int r = attempt([&] { eq = *slot[a] == t; });
                report(r, "comparison with a value");
                if (r == 0 && eq != (state[a].index == I && state[a].value == t.read())) wrong(o, "wrong-comparison", where + ": == with a value gives " + (eq ? "true" : "false"));
            });
        } else if (op == "take" && slot[a]) {
            with_index(state[a].index, [&]<int I>() {
                i64 got = 0;
                const int r = attempt([&] {
                    T<I> t = mode % 2 ? bm::get<I>(std::move(*slot[a])) : bm::get<T<I>>(std::move(*slot[a]));
                    got = t.read();
                });
                report(r, "taking the value");
                if (r == 0 && got != state[a].value) wrong(o, "other-value", where + ": the value taken is " + sim::N(got));
                state[a].known = false;
            });
        } else if (op == "write" && slot[a]) {
            with_index(state[a].index, [&]<int I>() {
                const int r = attempt([&] { (mode % 2 ? bm::get<I>(*slot[a]) : *bm::get_if<T<I>>(slot[a])).write(x); });
                report(r, "changing the value");
                if (r == 0) state[a].value = x;
            });
        } else if (op[0] == 'v') {
            vector_op(op, a, x, mode);
        }
    }
    void vector_op(const std::string& op, int a, i64 x, i64 mode)
    {
        if constexpr (std::is_move_constructible_v<V>) {
            const std::size_t pos = vec.empty() ? 0 : std::size_t(x) % (vec.size() + 1);
            int r = -1;
            std::vector<State> expected = vstate;
            expected.resize(vec.size(), State { true, false, 0, 0 });
            bool source_moved = false;
            if (op == "vpush" && slot[a] && vec.size() < 40) {
                bool copied = false;
                if constexpr (std::is_copy_constructible_v<V>)
                    if (mode % 2) { r = attempt([&] { vec.push_back(std::as_const(*slot[a])); }); copied = true; }
                if (!copied) { r = attempt([&] { vec.push_back(std::move(*slot[a])); }); source_moved = true; }
                expected.push_back(state[a]);
            } else if (op == "vinsert" && slot[a] && vec.size() < 40) {
                if constexpr (std::is_move_assignable_v<V>) {
                    bool copied = false;
                    if constexpr (std::is_copy_constructible_v<V>)
                        if (mode % 2) { r = attempt([&] { vec.insert(vec.begin() + std::ptrdiff_t(pos), std::as_const(*slot[a])); }); copied = true; }
                    if (!copied) { r = attempt([&] { vec.insert(vec.begin() + std::ptrdiff_t(pos), std::move(*slot[a])); }); source_moved = true; }
                    expected.insert(expected.begin() + std::ptrdiff_t(pos), state[a]);
                }
            } else if (op == "verase" && pos < vec.size()) {
                if constexpr (std::is_move_assignable_v<V>) {
                    r = attempt([&] { vec.erase(vec.begin() + std::ptrdiff_t(pos)); });
                    expected.erase(expected.begin() + std::ptrdiff_t(pos));
                }
            } else if (op == "vcopy") {
                if constexpr (std::is_copy_assignable_v<V> && std::is_copy_constructible_v<V>) r = attempt([&] { std::vector<V> c = vec; vec = c; });
            } else if (op == "vclear") {
                r = attempt([&] { vec.clear(); if (mode % 2) vec.shrink_to_fit(); });
                expected.clear();
            } else if (op == "vrev") {
                if constexpr (std::is_swappable_v<V>) {
                    r = attempt([&] { for (std::size_t i = 0, j = vec.size(); i + 1 < j; ++i, --j) { using std::swap; swap(vec[i], vec[j - 1]); } });
                    expected = std::vector<State>(expected.rbegin(), expected.rend());
                }
            }
            if (r < 0) return;
            report(r, op.c_str());
            if (source_moved) state[a].known = false;
            if (r == 0) vstate = expected;
            else vstate.assign(vec.size(), State { true, false, 0, 0 });
        }
    }
    void get(int a, int i, i64 mode)
    {
        with_index(i, [&]<int I>() {
            V& v = *slot[a];
            const bool right = state[a].index == I;
            auto e = g_live.lower_bound(reinterpret_cast<const char*>(&v));
            const void* where_it_lives = e->first;
            const void* p = nullptr;
            if (bm::holds_alternative<T<I>>(v) != right) wrong(o, "wrong-alternative", where + ": holds_alternative is " + (right ? "false" : "true"));
            int r = attempt([&] {
                switch (mode % 4) {
                case 0: p = bm::get_if<I>(&v); break;
                case 1: p = bm::get_if<I>(&std::as_const(v)); break;
                case 2: p = bm::get_if<T<I>>(&v); break;
                default: p = bm::get_if<T<I>>(&std::as_const(v)); break;
                }
            });
            report(r, "get_if");
            if (r == 0 && p != (right ? where_it_lives : nullptr)) wrong(o, "wrong-access", where + ": get_if gives " + (p ? "a pointer" : "null") + " for alternative " + N_(I));
            p = nullptr;
            r = attempt([&] {
                switch (mode / 4 % 8) {
                case 0: p = &bm::get<I>(v); break;
                case 1: p = &bm::get<I>(std::as_const(v)); break;
                case 2: { auto&& ref = bm::get<I>(std::move(v)); p = &ref; break; }
                case 3: { auto&& ref = bm::get<I>(std::move(std::as_const(v))); p = &ref; break; }
                case 4: p = &bm::get<T<I>>(v); break;
                case 5: p = &bm::get<T<I>>(std::as_const(v)); break;
                case 6: { auto&& ref = bm::get<T<I>>(std::move(v)); p = &ref; break; }
                default: { auto&& ref = bm::get<T<I>>(std::move(std::as_const(v))); p = &ref; break; }
                }
            });
            report(r, "get", !right);
            if (right && p != where_it_lives && r == 0) wrong(o, "wrong-access", where + ": get gives a reference to something else");
            if (!right && r != 2) wrong(o, "wrong-access", where + ": get of the alternative " + N_(I) + " that is not there is not refused");
        });
    }
    struct Id_Of {
        int hits = 0, id = -1;
        i64 value = 0;
        const void* at = nullptr;
    };
    void visit(int a, i64 x, i64 mode)
    {
        V& v = *slot[a];
        Id_Of got;
        auto e = g_live.lower_bound(reinterpret_cast<const char*>(&v));
        const void* where_it_lives = e->first;
        auto f = [&]<typename U>(U&& u) {
            ++got.hits;
            got.id = std::remove_cvref_t<U>::id;
            got.value = u.read();
            got.at = &u;
            if constexpr (!std::is_const_v<std::remove_reference_t<U>>)
                if (mode / 4 % 2) u.write(x);
        };
        const int r = attempt([&] {
            switch (mode % 4) {
            case 0: bm::visit(f, v); break;
            case 1: bm::visit(f, std::as_const(v)); break;
            case 2: bm::visit(f, std::move(v)); break;
            default: bm::visit(f, std::move(std::as_const(v))); break;
            }
        });
        report(r, "visit");
        if (r != 0) return;
        if (got.hits != 1) wrong(o, "visit", where + ": visit calls " + N_(u64(got.hits)) + " times");
        else if (got.id != ids[state[a].index] || got.value != state[a].value || got.at != where_it_lives) wrong(o, "visit", where + ": visit gives the object of type " + N_(u64(got.id)) + " with the value " + sim::N(got.value));
        if ((mode % 4 == 0 || mode % 4 == 2) && mode / 4 % 2) state[a].value = x;
    }
    void finish() override
    {
        for (int i = 0; i < 4; ++i) drop(i);
        Sut s;
        std::vector<V>().swap(vec);
        vstate.clear();
    }
};

// ---------------------------------------------------------------- trivially copyable Variant
struct P1 { int a; int b; bool operator==(const P1&) const = default; };
struct P2 { unsigned char c; bool operator==(const P2&) const = default; };
struct Trivial_Arena final : Arena_Base {
    using V = bm::Variant<i64, P1, P2, double>;
    static_assert(std::is_trivially_copyable_v<V>);
    std::array<V, 4> slot;
    std::array<std::pair<int, i64>, 4> state {};
    explicit Trivial_Arena(Outcome& o) : Arena_Base(o) { for (auto& s : slot) s = V(i64(0)); }
    static V make(int i, i64 x)
    {
        switch (i) {
        case 0: return V(x);
        case 1: return V(P1 { int(x), int(x * 7) });
        case 2: return V(P2 { static_cast<unsigned char>(x) });
        default: return V(double(x));
        }
    }
    static i64 norm(int i, i64 x) { return i == 2 ? i64(static_cast<unsigned char>(x)) : i == 1 ? i64(int(x)) : x; }
    i64 value(const V& v)
    {
        return bm::visit([]<typename U>(const U& u) -> i64 {
            if constexpr (std::is_same_v<U, P1>) return u.a;
            else if constexpr (std::is_same_v<U, P2>) return u.c;
            else return i64(u);
        }, v);
    }
    void run(const Line& l) override
    {
        const std::string op = l.str(0);
        const int a = int(l.num(2) & 3), b = int(l.num(3) & 3), i = int(u64(l.num(4)) % 4);
        const i64 x = l.num(5);
        int r = 0;
        g_log.add(where);
        if (op == "make" || op == "vassign") { r = attempt([&] { slot[a] = make(i, x); }); state[a] = { i, norm(i, x) }; }
        else if (op == "copy" || op == "move" || op == "cassign" || op == "massign") { r = attempt([&] { slot[a] = slot[b]; }); state[a] = state[b]; }
        else if (op == "swap") { r = attempt([&] { std::swap(slot[a], slot[b]); }); std::swap(state[a], state[b]); }
        else if (op == "get") {
            const bool right = state[a].first == i;
            r = attempt([&] {
                switch (i) {
                case 0: (void)bm::get<0>(slot[a]); (void)bm::get<i64>(std::as_const(slot[a])); break;
                case 1: (void)bm::get<1>(slot[a]); (void)bm::get<P1>(std::as_const(slot[a])); break;
                case 2: (void)bm::get<2>(slot[a]); (void)bm::get<P2>(std::as_const(slot[a])); break;
                default: (void)bm::get<3>(slot[a]); (void)bm::get<double>(std::as_const(slot[a])); break;
                }
            });
            if (r != (right ? 0 : 2)) wrong(o, "wrong-access", where + ": get of alternative " + N(i) + " of a variant that holds " + N(state[a].first));
            r = 0;
        } else if (op == "eq") {
            const bool eq = slot[a] == slot[b];
            if (eq != (state[a] == state[b])) wrong(o, "wrong-comparison", where + ": == of trivial variants");
        }
        if (r != 0) wrong(o, "other-exception", where + ": an exception");
    }
    u64 audit() override
    {
        for (int i = 0; i < 4; ++i) {
            if (int(slot[i].index()) != state[i].first) { wrong(o, "other-alternative", where + ": trivial variant " + N(i)); return 0; }
            if (value(slot[i]) != state[i].second) { wrong(o, "other-value", where + ": trivial variant " + N(i) + " holds " + N(value(slot[i])) + " instead of " + N(state[i].second)); return 0; }
        }
        return 0;
    }
    void finish() override { }
};

// ---------------------------------------------------------------- Result
template <typename T, typename E>
struct Result_Arena final : Arena_Base {
    using R = bm::Result<T, E>;
    static constexpr bool is_void = std::is_void_v<T>;
    std::array<R*, 4> slot {};
    std::array<State, 4> state {}; // index 0: value, 1: error
    explicit Result_Arena(Outcome& o) : Arena_Base(o) { }
    static constexpr int id_of(int i)
    {
        if constexpr (!is_void) if (i == 0) return T::id;
        return E::id;
    }
    u64 audit() override
    {
        u64 n = 0;
        for (int i = 0; i < 4; ++i) {
            if (!slot[i]) continue;
            auto e = within(slot[i], sizeof(R));
            const int idx = slot[i]->has_value() ? 0 : 1;
            if (bool(*slot[i]) != (idx == 0)) { wrong(o, "wrong-alternative", where + ": has_value and bool differ"); return 0; }
            const std::string name = where + ": result " + N(i);
            const u64 expected = is_void && idx == 0 ? 0 : 1;
            n += expected;
            if (e.size() != expected) { wrong(o, "not-one-alternative", name + " holds " + N(i64(e.size())) + " live objects"); return 0; }
            if (expected && e[0].id != id_of(idx)) { wrong(o, "wrong-index", name + " holds an object of type " + N(e[0].id)); return 0; }
            State& s = state[i];
            const i64 value = expected ? e[0].value : 0;
            if (!s.known) { s.index = idx; s.value = value; s.known = true; continue; }
            if (s.index != idx) { wrong(o, "other-alternative", name + (idx ? " holds an error" : " holds a value")); return 0; }
            if (expected && s.value != value) { wrong(o, "other-value", name + " holds " + N(value) + " instead of " + N(s.value)); return 0; }
        }
        return n;
    }
    void drop(int a)
    {
        if (!slot[a]) return;
        { Sut s; delete slot[a]; }
        slot[a] = nullptr;
        state[a] = {};
    }
    void report(int r, const char* op)
    {
        g_log.add(where + " -> " + N(r));
        if (r == 3) wrong(o, "other-exception", where + ": " + op + " lets another exception through");
        if (r == 2) wrong(o, "internal-error", where + ": " + op + " ends in an internal error");
    }
    template <typename F> void construct(int a, const State& s, const char* op, F&& f)
    {
        drop(a);
        R* p = nullptr;
        const int r = attempt([&] { p = f(); });
        report(r, op);
        if (r == 0) { slot[a] = p; state[a] = s; state[a].live = true; }
    }
    template <typename U, typename Tag> void make_from(int a, const State& s, i64 mode)
    {
        if constexpr (!is_void) {
            if (mode % 6 == 4) { construct(a, s, "construction with a tag", [&] { return new R(Tag {}, U(s.value)); }); return; }
            if constexpr ((U::flags & move_only) == 0)
                if (mode % 6 == 5) { const U u(s.value); construct(a, s, "construction with a tag", [&] { return new R(Tag {}, u); }); return; }
        }
        if constexpr ((U::flags & move_only) == 0)
            if (mode % 3) { const U u(s.value); construct(a, s, "construction from a constant", [&] { return new R(u); }); return; }
        construct(a, s, "construction from a temporary", [&] { return new R(U(s.value)); });
    }
    void run(const Line& l) override
    {
        const std::string op = l.str(0);
        const int a = int(l.num(2) & 3), b = int(l.num(3) & 3), i = int(l.num(4) & 1);
        const i64 x = l.num(5), mode = l.num(8);
        if (op == "make" || op == "default" || op == "write") {
            if (i == 0) {
                if constexpr (is_void) construct(a, State { true, true, 0, 0 }, "construction", [&] { return new R; });
                else make_from<T, bm::Success_Tag>(a, State { true, true, 0, x }, mode);
            } else make_from<E, bm::Error_Tag>(a, State { true, true, 1, x }, mode);
        } else if (op == "copy" && slot[b] && a != b) {
            if constexpr (std::is_copy_constructible_v<R>) construct(a, state[b], "copying", [&] { return new R(std::as_const(*slot[b])); });
        } else if (op == "move" && slot[b] && a != b) {
            if constexpr (std::is_move_constructible_v<R>) {
                construct(a, state[b], "moving", [&] { return new R(std::move(*slot[b])); });
                state[b].known = false;
            }
        } else if (op == "cassign" && slot[a] && slot[b]) {
            if constexpr (std::is_copy_assignable_v<R>) {
                const int r = attempt([&] { *slot[a] = std::as_const(*slot[b]); });
                report(r, "copy assignment");
                if (r == 0) state[a] = state[b];
                else state[a].known = false;
            }
        } else if ((op == "massign" || op == "vassign") && slot[a] && slot[b]) {
            if constexpr (std::is_move_assignable_v<R>) {
                const int r = attempt([&] { *slot[a] = std::move(*slot[b]); });
                report(r, "move assignment");
                if (r == 0 && a != b) state[a] = state[b];
                else state[a].known = false;
                state[b].known = false;
            }
        } else if (op == "swap" && slot[a] && slot[b]) {
            if constexpr (std::is_swappable_v<R>) {
                const int r = attempt([&] { std::swap(*slot[a], *slot[b]); });
                report(r, "swapping");
                if (r == 0 && a != b) std::swap(state[a], state[b]);
                else state[a].known = state[b].known = false;
            }
        } else if (op == "drop") {
            drop(a);
            g_log.add(where);
        } else if ((op == "get" || op == "visit") && slot[a]) {
            R& v = *slot[a];
            const void* p = nullptr;
            auto e = g_live.lower_bound(reinterpret_cast<const char*>(&v));
            if constexpr (!is_void) {
                const int r = attempt([&] {
                    switch (mode % 10) {
                    case 0: p = &v.value(); break;
                    case 1: p = &std::as_const(v).value(); break;
                    case 2: { auto&& q = std::move(v).value(); p = &q; break; }
                    case 3: { auto&& q = std::move(std::as_const(v)).value(); p = &q; break; }
                    case 4: p = &*v; break;
                    case 5: p = &*std::as_const(v); break;
                    case 6: { auto&& q = *std::move(v); p = &q; break; }
                    case 7: { auto&& q = *std::move(std::as_const(v)); p = &q; break; }
                    case 8: p = v.operator->(); break;
                    default: p = std::as_const(v).operator->(); break;
                    }
                });
                g_log.add(where + N(r));
                if (state[a].index == 0 ? r != 0 || p != e->first : r != 2) wrong(o, "wrong-access", where + ": access to the value of a result with " + (state[a].index ? "an error" : "a value"));
            } else {
                const int r = attempt([&] { if (mode % 2) v.value(); else *v; });
                if (r != (state[a].index ? 2 : 0)) wrong(o, "wrong-access", where + ": access to the (void) value");
            }
            const int r = attempt([&] {
                switch (mode % 4) {
                case 0: p = &v.error(); break;
                case 1: p = &std::as_const(v).error(); break;
                case 2: { auto&& q = std::move(v).error(); p = &q; break; }
                default: { auto&& q = std::move(std::as_const(v)).error(); p = &q; break; }
                }
            });
            if (state[a].index == 1 ? r != 0 || p != e->first : r != 2) wrong(o, "wrong-access", where + ": access to the error of a result with " + (state[a].index ? "an error" : "a value"));
        } else if (op == "take" && slot[a]) {
            i64 got = state[a].value;
            const int r = attempt([&] {
                if (state[a].index == 1) { E t = std::move(*slot[a]).error(); got = t.read(); }
                else if constexpr (!is_void) { T t = mode % 2 ? std::move(*slot[a]).value() : *std::move(*slot[a]); got = t.read(); }
            });
            report(r, "taking the content");
            if (r == 0 && got != state[a].value) wrong(o, "other-value", where + ": the value taken is " + N(got));
            state[a].known = false;
        }
    }
    void finish() override { for (int i = 0; i < 4; ++i) drop(i); }
};

template <typename S> struct Many;
template <int... I> struct Many<std::integer_sequence<int, I...>> { using type = Variant_Arena<Nth<I>...>; };
template <int N> using Many_Arena = typename Many<std::make_integer_sequence<int, N>>::type;

constexpr int arena_kinds = 19;
std::unique_ptr<Arena_Base> make_arena(int k, Outcome& o)
{
    switch (k) {
    case 0: return std::make_unique<Variant_Arena<Val, Own>>(o);
    case 1: return std::make_unique<Variant_Arena<Def, Own, Assign>>(o);
    case 2: return std::make_unique<Variant_Arena<Own, Only>>(o);
    case 3: return std::make_unique<Variant_Arena<Tiny, Own, Assign, Big, Val>>(o);
    case 4: return std::make_unique<Variant_Arena<Own, Move>>(o);
    case 5: return std::make_unique<Variant_Arena<Comp, Massign, Val>>(o);
    case 6: return std::make_unique<Many_Arena<4>>(o);
    case 7: return std::make_unique<Many_Arena<8>>(o);
    case 8: return std::make_unique<Many_Arena<9>>(o);
    case 9: return std::make_unique<Many_Arena<25>>(o);
    case 10: return std::make_unique<Trivial_Arena>(o);
    case 11: return std::make_unique<Result_Arena<Own, Err>>(o);
    case 12: return std::make_unique<Result_Arena<void, Own>>(o);
    case 13: return std::make_unique<Result_Arena<Val, Err>>(o);
    case 14: return std::make_unique<Result_Arena<Only, Own>>(o);
    case 15: return std::make_unique<Result_Arena<void, Err>>(o);
    case 16: return std::make_unique<Result_Arena<Big, Tiny>>(o);
    case 17: return std::make_unique<Result_Arena<Assign, Def>>(o);
    default: return std::make_unique<Result_Arena<Tiny, Big>>(o);
    }
}

Plan generate(Rng& r, u64)
{
    static const std::vector<std::string> ops { "make", "make", "make", "make", "default", "copy", "copy", "move", "move", "cassign", "cassign", "cassign", "cassign", "massign", "massign", "massign", "vassign", "vassign", "vassign", "swap", "swap",
                                                "drop", "get", "get", "visit", "visit", "eq", "eqv", "take", "write", "vpush", "vpush", "vinsert", "verase", "vcopy", "vclear", "vrev" };
    Plan p;
    std::vector<i64> kinds;
    for (int n = 1 + int(r.below(3)); n > 0; --n) kinds.push_back(i64(r.below(arena_kinds)));
    for (int n = 30 + int(r.below(90)); n > 0; --n) {
        const i64 k = r.chance(1, 3) ? r.range(1, r.chance(1, 4) ? 12 : 2) : 0;
        p.add("op", { r.pick(ops), N(r.pick(kinds)), N(i64(r.below(4))), N(i64(r.below(4))), N(i64(r.below(25))), N(r.range(1, 60)), N(k), N(i64(r.below(2))), N(i64(r.below(32))) });
    }
    return p;
}

Outcome execute(const Plan& p)
{
    Outcome o;
    g_live.clear();
    g_error.clear();
    g_points = g_thrown = 0;
    std::map<i64, std::unique_ptr<Arena_Base>> arenas;
    u64 done = 0;
    std::string sig;
    for (const Line* l : p.all("op")) {
        const i64 k = l->num(1);
        if (k < 0 || k >= arena_kinds) continue;
        auto& a = arenas[k];
        if (!a) a = make_arena(int(k), o);
        a->where = l->str(0) + " of kind " + N(k) + " (slots " + l->str(2) + " " + l->str(3) + ", alternative " + l->str(4) + ", failing operation " + l->str(6) + ")";
        doing(a->where);
        g_countdown = u64(l->num(6));
        g_after = l->num(7) != 0;
        const u64 before = g_thrown;
        a->run(*l);
        g_countdown = 0;
        ++done;
        if (g_thrown != before) count("alternative's operation throws");
        sig += l->str(0)[0] + N(k) + (g_thrown != before ? "!" : ".");
        if (!g_error.empty() && !o.violation) wrong(o, "misuse: " + g_error, a->where + ": " + g_error);
        u64 live = 0;
        for (auto& [kk, ar] : arenas) {
            if (o.violation) break;
            ar->where = a->where;
            live += ar->audit();
        }
        if (!o.violation && live != g_live.size()) wrong(o, "leaked-object", a->where + ": " + N(i64(g_live.size())) + " objects live, " + N(i64(live)) + " are held");
        if (o.violation) break;
    }
    if (!o.violation) {
        for (auto& [k, a] : arenas) a->finish();
        if (!g_error.empty()) wrong(o, "misuse: " + g_error, "at the end: " + g_error);
        else if (!g_live.empty()) wrong(o, "leaked-object", "at the end " + N(i64(g_live.size())) + " objects live");
    }
    if (o.violation) for (auto& [k, a] : arenas) a.release(); // what is broken is not touched again
    o.nontrivial = done > 10 && g_thrown > 0;
    o.sig = hex64(hash_bytes(sig));
    return o;
}

SIM_REGISTER(Property { "P13", generate, execute, nullptr, 50'000'000 });

} // namespace
} // namespace sim
