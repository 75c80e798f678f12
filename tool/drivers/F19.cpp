#include "vx.h"
#include <dataframe/functional/filter.h>
#include <dataframe/functional/forEach.h>
#include <dataframe/functional/map.h>
#include <dataframe/functional/pipe.h>
#include <dataframe/functional/reduce.h>
#include <dataframe/functional/utils/apply.h>
#include <dataframe/functional/utils/compose.h>
#include <dataframe/functional/find.h>
#include <dataframe/functional/conditional/if.h>
#include <dataframe/functional/utils/memoize.h>
#include <dataframe/functional/utils/reject.h>
#include <dataframe/functional/conditional/check.h>
#include <dataframe/functional/utils/partition.h>
#include <dataframe/attributes/Manager.h>
#include <dataframe/attributes/UserDefinedDecomposer.h>

using namespace df;

namespace F19 {

// what the callbacks throw: no type of the library or of the standard; standard ones below
struct Mine {
    explicit Mine(const char *) {}
};

// the call throws what the callback threw when the callback throws, and only then
#define STOPS(when, where, call)                                                                                     \
    do {                                                                                                             \
        bool stopped = false, other = false;                                                                         \
        last = 0;                                                                                                    \
        try {                                                                                                        \
            (void)(call);                                                                                            \
        } catch (const Stop &) {                                                                                     \
            stopped = true;                                                                                          \
        } catch (...) {                                                                                              \
            other = true;                                                                                            \
        }                                                                                                            \
        vx::holds("the callback's exception and no other", !other);                                                  \
        vx::same("stopped", stopped, when);                                                                          \
        vx::same("stopped at", last, (when) ? where : 0u);                                                           \
    } while (0)

template <typename Stop> static void numbers_() {
    unsigned last = 0;
    unsigned n = vx::u32(), dim = vx::u32(), j = vx::u32();
    vx::assume(j < 0xffffffffu);
    Array a = vx::array(n);
    Serie s(1, a, dim);
    auto f = [&, j](double v, uint32_t i) {
        if (i == j) {
            last = i + 1;
            throw Stop("stop");
        }
        return 2 * v;
    };
    auto p = [&, j](double v, uint32_t i) {
        if (i == j) {
            last = i + 1;
            throw Stop("stop");
        }
        return v > 0;
    };
    auto r = [&, j](double x, double v, uint32_t i) {
        if (i == j) {
            last = i + 1;
            throw Stop("stop");
        }
        return x + v;
    };
    STOPS(j < n, j + 1, map(f, s));
    STOPS(j < n, j + 1, s.map(f));
    STOPS(j < n, j + 1, utils::apply(f, s));
    STOPS(j < n, j + 1, map([&](double v, uint32_t i) { return Array{f(v, i), v}; }, s));
    STOPS(j < n, j + 1, filter(p, s));
    STOPS(j < n, j + 1, s.filter(p));
    STOPS(j < n, j + 1, utils::reject(p, s));
    STOPS(j < n, j + 1, find([&](double v, uint32_t i) { f(v, i); return false; }, s));
    STOPS(j < n, j + 1, findAll(p, s));
    STOPS(j < n, j + 1, reduce(r, s, 0.0));
    STOPS(j < n, j + 1, s.reduce(r, 0.0));
    STOPS(j < n, j + 1, (forEach([&](double v, uint32_t i) { f(v, i); }, s), 0));
    STOPS(j < n, j + 1, (s.forEach([&](double v, uint32_t i) { f(v, i); }), 0));
    STOPS(j < n, j + 1, make_map(f)(s));
    STOPS(j < n, j + 1, make_filter(p)(s));
    STOPS(j < n, j + 1, utils::make_reject(p)(s));
    STOPS(j < n, j + 1, make_reduce(r, 0.0)(s));
    STOPS(j < n, j + 1, cond::check(s, p));
    STOPS(j < n, j + 1, utils::partition(p, s));
    vx::kept(s, 1, n, dim, a);
}


// how often the callback ran: as far as the item that stopped it and no further
template <typename Stop> static void calls_() {
    unsigned last = 0;
    unsigned n = vx::u32(), dim = vx::u32(), j = vx::u32();
    vx::assume(j < 0xffffffffu);
    Array a = vx::array(n);
    Serie s(1, a, dim);
    unsigned ran = 0;
    auto f = [&](double v, uint32_t i) {
        ++ran;
        if (i == j) {
            last = i + 1;
            throw Stop("stop");
        }
        return 2 * v;
    };
#define RAN(call)                                                                                                    \
    do {                                                                                                             \
        ran = 0;                                                                                                     \
        STOPS(j < n, j + 1, call);                                                                                   \
        vx::same("calls", ran, j < n ? j + 1 : n);                                                                   \
    } while (0)
    RAN(map(f, s));
    RAN(s.map(f));
    RAN(utils::apply(f, s));
    RAN((forEach(f, s), 0));
    RAN((s.forEach(f), 0));
    RAN(filter([&](double v, uint32_t i) { return f(v, i) > 0; }, s));
    RAN(utils::reject([&](double v, uint32_t i) { return f(v, i) > 0; }, s));
    RAN(reduce([&](double x, double v, uint32_t i) { return x + f(v, i); }, s, 0.0));
    RAN(cond::check(s, [&](double v, uint32_t i) { return f(v, i) > 0; }));
    RAN(find([&](double v, uint32_t i) { f(v, i); return false; }, s));
    vx::kept(s, 1, n, dim, a);
}

template <typename Stop> static void vectors_() {
    unsigned last = 0;
    unsigned n = vx::u32(), dim = vx::u32(), j = vx::u32();
    vx::assume(j < 0xffffffffu);
    Array a = vx::array(n * 3ull);
    Serie s(3, a, dim);
    auto f = [&, j](const Array &v, uint32_t i) {
        if (i == j) {
            last = i + 1;
            throw Stop("stop");
        }
        return Array{v[0], v[1]};
    };
    auto g = [&, j](const Array &v, uint32_t i) {
        if (i == j) {
            last = i + 1;
            throw Stop("stop");
        }
        return v[2];
    };
    auto p = [&, j](const Array &v, uint32_t i) {
        if (i == j) {
            last = i + 1;
            throw Stop("stop");
        }
        return v[0] > 0;
    };
    auto r = [&, j](const Array &x, const Array &v, uint32_t i) {
        if (i == j) {
            last = i + 1;
            throw Stop("stop");
        }
        return Array{x[0] + v[0]};
    };
    STOPS(j < n, j + 1, map(f, s));
    STOPS(j < n, j + 1, map(g, s));
    STOPS(j < n, j + 1, s.map(f));
    STOPS(j < n, j + 1, s.map(g));
    STOPS(j < n, j + 1, utils::apply(f, s));
    STOPS(j < n, j + 1, filter(p, s));
    STOPS(j < n, j + 1, s.filter(p));
    STOPS(j < n, j + 1, utils::reject(p, s));
    STOPS(j < n, j + 1, find([&](const Array &v, uint32_t i) { f(v, i); return false; }, s));
    STOPS(j < n, j + 1, findAll(p, s));
    STOPS(j < n, j + 1, reduce(r, s, Array{0.0}));
    STOPS(j < n, j + 1, s.reduce(r, Array{0.0}));
    STOPS(j < n, j + 1, (forEach([&](const Array &v, uint32_t i) { f(v, i); }, s), 0));
    STOPS(j < n, j + 1, (s.forEach([&](const Array &v, uint32_t i) { f(v, i); }), 0));
    STOPS(j < n, j + 1, make_map(f)(s));
    STOPS(j < n, j + 1, make_filter(p)(s));
    STOPS(j < n, j + 1, cond::check(s, p));
    STOPS(j < n, j + 1, utils::partition(p, s));
    vx::kept(s, 3, n, dim, a);
}

template <typename Stop> static void several_() {
    unsigned last = 0;
    unsigned n = vx::u32(), dim = vx::u32(), j = vx::u32();
    vx::assume(j < 0xffffffffu);
    Array a = vx::array(n * 3ull), b = vx::array(n * 2ull);
    Serie s(3, a, dim), t(2, b, dim);
    auto f = [&, j](const Array &v, const Array &w, uint32_t i) {
        if (i == j) {
            last = i + 1;
            throw Stop("stop");
        }
        return v[0] + w[1];
    };
    auto p = [&, j](const Array &v, const Array &w, uint32_t i) {
        if (i == j) {
            last = i + 1;
            throw Stop("stop");
        }
        return v[2] > w[0];
    };
    STOPS(j < n, j + 1, map(f, s, t));
    STOPS(j < n, j + 1, utils::apply(f, s, t));
    STOPS(j < n, j + 1, filter(p, s, t));
    STOPS(j < n, j + 1, utils::reject(p, s, t));
    STOPS(j < n, j + 1, (forEach([&](const Array &v, const Array &w, uint32_t i) { f(v, w, i); }, s, t), 0));
    vx::kept(s, 3, n, dim, a);
    vx::kept(t, 2, n, dim, b);
}

// the stages of a pipe, a composition, a choice
template <typename Stop> static void stages_() {
    unsigned last = 0;
    unsigned n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n);
    Serie s(1, a, dim);
    bool one = vx::flag(), two = vx::flag();
    auto f = [&, one](const Serie &x) {
        if (one) {
            last = 1;
            throw Stop("stop");
        }
        return x;
    };
    auto g = [&, two](const Serie &x) {
        if (two) {
            last = 2;
            throw Stop("stop");
        }
        return x;
    };
    STOPS(one || two, one ? 1u : 2u, pipe(s, f, g));
    STOPS(one || two, one ? 1u : 2u, make_pipe(f, g)(s));
    STOPS(one || two, two ? 2u : 1u, utils::compose(f, g)(s));
    vx::kept(s, 1, n, dim, a);
}

// a memoized function that has thrown has nothing to remember
template <typename Stop> static void remembered_() {
    unsigned last = 0;
    unsigned n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n);
    Serie s(1, a, dim);
    unsigned ran = 0;
    bool stop = true;
    auto m = utils::memoize([&](const Serie &x) {
        ++ran;
        if (stop) {
            last = ran;
            throw Stop("stop");
        }
        return x;
    });
    STOPS(true, 1u, m(s));
    STOPS(true, 2u, m(s));
    stop = false;
    vx::kept(m(s), 1, n, dim, a);
    vx::same("calls", ran, 3u);
    stop = true;
    vx::kept(m(s), 1, n, dim, a);
    vx::same("calls", ran, 3u);
}

// the branches of a choice: only those that are taken can stop it
template <typename Stop> static void choice_() {
    unsigned last = 0;
    unsigned n = vx::u32(), dim = vx::u32(), j = vx::u32();
    vx::assume(j < 0xffffffffu);
    Array a = vx::array(n * 2ull);
    Serie s(2, a, dim);
    auto yes = [](const Array &) { return true; };
    auto no = [](const Array &) { return false; };
    auto f = [&, j](const Array &v, uint32_t i, const Serie &) {
        if (i == j) {
            last = i + 1;
            throw Stop("stop");
        }
        return v;
    };
    auto g = [](const Array &v, uint32_t, const Serie &) { return v; };
    STOPS(j < n, j + 1, cond::if_then_else(s, yes, f, g));
    STOPS(j < n, j + 1, cond::if_then_else(s, no, g, f));
    STOPS(false, 0u, cond::if_then_else(s, yes, g, f));
    STOPS(false, 0u, cond::if_then_else(s, no, f, g));
    vx::kept(s, 2, n, dim, a);
}

template <typename Stop> struct Stops {
    unsigned *last;
    Serie operator()(const Dataframe &) {
        *last = 1;
        throw Stop("stop");
    }
    Serie operator()(const Dataframe &) const {
        *last = 1;
        throw Stop("stop");
    }
};

// a decomposer that throws, directly and through a manager
template <typename Stop> static void decomposer_() {
    unsigned last = 0;
    unsigned n = vx::pos();
    Array a = vx::array(n);
    Dataframe d;
    d.add("A", Serie(1, a));
    UserDefinedDecomposer<Stops<Stop>> u(1, "B", Stops<Stop>{&last});
    STOPS(true, 1u, u.serie(d, 1, "B"));
    STOPS(false, 0u, u.serie(d, 1, "C"));
    STOPS(false, 0u, u.serie(d, 2, "B"));
    Manager m(d);
    m.add(new UserDefinedDecomposer<Stops<Stop>>(1, "B", Stops<Stop>{&last}));
    STOPS(true, 1u, m.serie(1, "B"));
    vx::same("series", d.series().size(), std::size_t(1));
    vx::same("kept", d["A"].asArray(), a);
}

void numbers_mine() { numbers_<Mine>(); }
void numbers_domain() { numbers_<std::domain_error>(); }
void numbers_range() { numbers_<std::out_of_range>(); }
void calls_mine() { calls_<Mine>(); }
void calls_domain() { calls_<std::domain_error>(); }
void calls_range() { calls_<std::out_of_range>(); }
void vectors_mine() { vectors_<Mine>(); }
void vectors_domain() { vectors_<std::domain_error>(); }
void vectors_range() { vectors_<std::out_of_range>(); }
void several_mine() { several_<Mine>(); }
void several_domain() { several_<std::domain_error>(); }
void several_range() { several_<std::out_of_range>(); }
void stages_mine() { stages_<Mine>(); }
void stages_domain() { stages_<std::domain_error>(); }
void stages_range() { stages_<std::out_of_range>(); }
void remembered_mine() { remembered_<Mine>(); }
void remembered_domain() { remembered_<std::domain_error>(); }
void remembered_range() { remembered_<std::out_of_range>(); }
void choice_mine() { choice_<Mine>(); }
void choice_domain() { choice_<std::domain_error>(); }
void choice_range() { choice_<std::out_of_range>(); }
void decomposer_mine() { decomposer_<Mine>(); }
void decomposer_domain() { decomposer_<std::domain_error>(); }
void decomposer_range() { decomposer_<std::out_of_range>(); }

} // namespace F19
