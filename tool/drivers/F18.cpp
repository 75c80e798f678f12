#include "vx.h"
#include <dataframe/functional/conditional/check.h>
#include <dataframe/functional/conditional/if.h>
#include <dataframe/functional/filter.h>
#include <dataframe/functional/find.h>
#include <dataframe/functional/forEach.h>
#include <dataframe/functional/map.h>
#include <dataframe/functional/pipe.h>
#include <dataframe/functional/reduce.h>
#include <dataframe/functional/utils/apply.h>
#include <dataframe/functional/utils/compose.h>
#include <dataframe/functional/utils/memoize.h>
#include <dataframe/functional/utils/parallel_execute.h>
#include <dataframe/functional/utils/partition.h>
#include <dataframe/functional/utils/reject.h>
#include <dataframe/functional/utils/sort.h>
#include <functional>

using namespace df;

namespace F18 {

// one callback, written in every way there is
static double number(double v, uint32_t i) { return vx::NumNum()(v, i); }
static double length(const Array &v, uint32_t i) { return vx::VecNum()(v, i); }
static Array vector(const Array &v, uint32_t i) { return Array{vx::VecNum()(v, i), 1}; }
static Array vector_by_value(Array v, uint32_t i) { return vector(v, i); }
static bool accept(double v, uint32_t i) { return vx::NumBool()(v, i); }
static bool accept_item(const Array &v, uint32_t i) { return vx::VecBool()(v, i); }
static bool accept_item_by_value(Array v, uint32_t i) { return vx::VecBool()(v, i); }
static void visit(double v, uint32_t i) { vx::NumVoid()(v, i); }
static void visit_item(const Array &v, uint32_t i) { vx::VecVoid()(v, i); }
static double fold(double a, double b, uint32_t i) { return vx::Fold1()(a, b, i); }
static Array fold_items(const Array &a, const Array &b, uint32_t i) { return vx::FoldA()(a, b, i); }

// calls with a temporary, a named, a constant and a stored callback
template <class F> static void mapped(const F &f, const Serie &s, const Serie &want, const vx::Trace &calls) {
    F g(f);
    vx::take();
    vx::same("map", df::map(g, s), want);
    vx::same("calls of map", vx::take(), calls);
    vx::same("map, constant", df::map(f, s), want);
    vx::same("map, temporary", df::map(F(f), s), want);
    vx::same("member", s.map(f), want);
    vx::same("apply", utils::apply(g, s), want);
    vx::take();
    auto made = df::make_map(g);
    vx::same("made", made(s), want);
    vx::same("calls of made", vx::take(), calls);
    vx::same("made of a temporary", df::make_map(F(f))(s), want);
}

template <class F> static void visited(const F &f, const Serie &s, const vx::Trace &calls) {
    F g(f);
    vx::take();
    df::forEach(g, s);
    vx::same("forEach", vx::take(), calls);
    df::forEach(f, s);
    vx::same("forEach, constant", vx::take(), calls);
    df::forEach(F(f), s);
    vx::same("forEach, temporary", vx::take(), calls);
    s.forEach(g);
    vx::same("member", vx::take(), calls);
}

template <class F>
static void selected(const F &f, const Serie &s, const Serie &kept, const Serie &left, const vx::Trace &calls) {
    F g(f);
    vx::take();
    vx::same("filter", df::filter(g, s), kept);
    vx::same("calls of filter", vx::take(), calls);
    vx::same("filter, temporary", df::filter(F(f), s), kept);
    vx::same("member", s.filter(g), kept);
    vx::same("made", df::make_filter(g)(s), kept);
    vx::take();
    vx::same("findAll", df::findAll(f, s), kept);
    vx::same("calls of findAll", vx::take(), calls);
    vx::same("reject", utils::reject(g, s), left);
    vx::same("calls of reject", vx::take(), calls);
    auto p = utils::partition(f, s);
    vx::same("calls of partition", vx::take(), calls);
    vx::same("partition", std::get<0>(p), kept);
    vx::same("partition, rest", std::get<1>(p), left);
}

void map_numbers() {
    unsigned n = vx::u32();
    Array a = vx::array(n), w;
    Serie s(1, a, 3);
    vx::take();
    for (unsigned i = 0; i < n; ++i) {
        w.push_back(number(a[i], i));
    }
    vx::Trace c = vx::take();
    Serie want(1, w, 3);
    mapped(&number, s, want, c);
    mapped(std::function<double(double, uint32_t)>(number), s, want, c);
    mapped(vx::NumNum(), s, want, c);
    mapped([](double v, uint32_t i) { return number(v, i); }, s, want, c);
    mapped([](const double &v, const uint32_t &i) { return number(v, i); }, s, want, c);
    mapped([](double v, std::size_t i) { return number(v, i); }, s, want, c);
    mapped([](double v, auto i) { return number(v, i); }, s, want, c);
    vx::same("function", df::map(number, s), want);
}

void map_vectors() {
    unsigned k = vx::pos(), n = vx::u32();
    vx::assume(k > 1);
    Array a = vx::array(n * k), w;
    Serie s(k, a, 3);
    vx::take();
    for (unsigned i = 0; i < n; ++i) {
        w.push_back(length(vx::item(a, k, i), i));
    }
    vx::Trace c = vx::take();
    Serie want(1, w, 3);
    mapped(&length, s, want, c);
    mapped(std::function<double(const Array &, uint32_t)>(length), s, want, c);
    mapped(vx::VecNum(), s, want, c);
    mapped([](const Array &v, uint32_t i) { return length(v, i); }, s, want, c);
    mapped([](Array v, uint32_t i) { return length(v, i); }, s, want, c);
    vx::same("function", df::map(length, s), want);
}

void map_to_vectors() {
    unsigned k = vx::pos(), n = vx::u32();
    vx::assume(k > 1);
    Serie s = vx::serie(k, n, 3);
    vx::take();
    Array w;
    for (unsigned i = 0; i < n; ++i) {
        vx::append(w, vector(s.get<Array>(i), i));
    }
    vx::Trace c = vx::take();
    Serie want(2, w, 3);
    vx::assume(n > 0);
    mapped(&vector, s, want, c);
    mapped(&vector_by_value, s, want, c);
    mapped(std::function<Array(const Array &, uint32_t)>(vector), s, want, c);
    mapped(std::function<Array(Array, uint32_t)>(vector_by_value), s, want, c);
    mapped([](const Array &v, uint32_t i) -> Array { return vector(v, i); }, s, want, c);
    mapped([](Array v, uint32_t i) { return vector(v, i); }, s, want, c);
}

void forEach_numbers() {
    unsigned n = vx::u32();
    Array a = vx::array(n);
    Serie s(1, a, 3);
    vx::take();
    for (unsigned i = 0; i < n; ++i) {
        visit(a[i], i);
    }
    vx::Trace c = vx::take();
    visited(&visit, s, c);
    visited(std::function<void(double, uint32_t)>(visit), s, c);
    visited(vx::NumVoid(), s, c);
    visited([](double v, uint32_t i) { visit(v, i); }, s, c);
    visited([](auto v, uint32_t i) { if constexpr (std::is_same_v<decltype(v), double>) visit(v, i); }, s, c);
    df::forEach(visit, s);
    vx::same("function", vx::take(), c);
}

void forEach_vectors() {
    unsigned k = vx::pos(), n = vx::u32();
    vx::assume(k > 1);
    Array a = vx::array(n * k);
    Serie s(k, a, 3);
    vx::take();
    for (unsigned i = 0; i < n; ++i) {
        visit_item(vx::item(a, k, i), i);
    }
    vx::Trace c = vx::take();
    visited(&visit_item, s, c);
    visited(std::function<void(const Array &, uint32_t)>(visit_item), s, c);
    visited(vx::VecVoid(), s, c);
    visited([](const Array &v, uint32_t i) { visit_item(v, i); }, s, c);
    visited([](Array v, uint32_t i) { visit_item(v, i); }, s, c);
}

void select_numbers() {
    unsigned n = vx::u32();
    Array a = vx::array(n), w, r;
    Serie s(1, a, 3);
    vx::take();
    for (unsigned i = 0; i < n; ++i) {
        if (accept(a[i], i)) {
            w.push_back(a[i]);
        } else {
            r.push_back(a[i]);
        }
    }
    vx::Trace c = vx::take();
    Serie kept(1, w, 3), left(1, r, 3);
    selected(&accept, s, kept, left, c);
    selected(std::function<bool(double, uint32_t)>(accept), s, kept, left, c);
    selected(vx::NumBool(), s, kept, left, c);
    selected([](double v, uint32_t i) { return accept(v, i); }, s, kept, left, c);
}

void select_vectors() {
    unsigned k = vx::pos(), n = vx::u32();
    vx::assume(k > 1);
    Array a = vx::array(n * k), w, r;
    Serie s(k, a, 3);
    vx::take();
    for (unsigned i = 0; i < n; ++i) {
        if (accept_item(vx::item(a, k, i), i)) {
            vx::append(w, vx::item(a, k, i));
        } else {
            vx::append(r, vx::item(a, k, i));
        }
    }
    vx::Trace c = vx::take();
    Serie kept(k, w, 3), left(k, r, 3);
    selected(&accept_item_by_value, s, kept, left, c);
    selected(std::function<bool(const Array &, uint32_t)>(accept_item), s, kept, left, c);
    selected(vx::VecBool(), s, kept, left, c);
    selected([](const Array &v, uint32_t i) { return accept_item(v, i); }, s, kept, left, c);
}

template <class F> static void folded(const F &f, const Serie &s, double init, double want, const vx::Trace &calls) {
    F g(f);
    vx::take();
    vx::same("reduce", df::reduce(g, s, init), want);
    vx::same("calls", vx::take(), calls);
    vx::same("temporary", df::reduce(F(f), s, init), want);
    vx::same("member", s.reduce(f, init), want);
    vx::same("made", df::make_reduce(g, init)(s), want);
}

void reduce_numbers() {
    unsigned n = vx::u32();
    double init = vx::real(), want = init;
    Array a = vx::array(n);
    Serie s(1, a, 3);
    vx::take();
    for (unsigned i = 0; i < n; ++i) {
        want = fold(want, a[i], i);
    }
    vx::Trace c = vx::take();
    folded(std::function<double(double, double, uint32_t)>(fold), s, init, want, c);
    folded(vx::Fold1(), s, init, want, c);
    folded([](double x, double y, uint32_t i) { return fold(x, y, i); }, s, init, want, c);
}

static bool larger(double x, double y) { return x > y; }
static bool larger_first(const Array &x, const Array &y) { return x[0] > y[0]; }

void comparators() {
    unsigned n = vx::u32();
    Serie s = vx::serie(1, n, 3);
    Serie want = utils::sort(s, [](double x, double y) { return x > y; });
    auto cmp = [](const double &x, const double &y) { return x > y; };
    const std::function<bool(double, double)> stored(larger);
    vx::same("function", utils::sort(s, larger), want);
    vx::same("pointer", utils::sort(s, &larger), want);
    vx::same("stored", utils::sort(s, stored), want);
    vx::same("named", utils::sort(s, cmp), want);
    vx::same("standard", utils::sort(s, std::greater<>{}), want);
    vx::same("standard, of numbers", utils::sort(s, std::greater<double>{}), want);
    vx::same("generic", utils::sort(s, [](auto x, auto y) { return x > y; }), want);
    Serie v = vx::serie(3, n, 3);
    Serie order = utils::sort(v, [](const Array &x, const Array &y) { return x[0] > y[0]; });
    vx::same("items, function", utils::sort(v, larger_first), order);
    vx::same("items, stored", utils::sort(v, std::function<bool(const Array &, const Array &)>(larger_first)), order);
    vx::same("items, generic", utils::sort(v, [](const auto &x, const auto &y) { return x[0] > y[0]; }), order);
}

static bool negative(double x) { return x < 0; }
static double minus(double x, uint32_t, const Serie &) { return -x; }
static double same(double x, uint32_t, const Serie &) { return x; }

void conditions() {
    unsigned n = vx::u32();
    Array a = vx::array(n), w;
    for (unsigned i = 0; i < n; ++i) {
        w.push_back(a[i] < 0 ? -a[i] : a[i]);
    }
    Serie s(1, a, 3);
    std::function<bool(double)> c(negative);
    std::function<double(double, uint32_t, const Serie &)> f(minus), g(same);
    auto d = [](double x) { return x < 0; };
    auto h = [](double x, uint32_t, const Serie &) { return -x; };
    auto k = [](double x, uint32_t, const Serie &) { return x; };
    vx::serie_is(cond::if_then_else(s, negative, minus, same), 1, 3, w);
    vx::serie_is(cond::if_then_else(s, c, f, g), 1, 3, w);
    vx::serie_is(cond::if_then_else(s, d, h, k), 1, 3, w);
    vx::serie_is(cond::if_then_else(s, c, minus, k), 1, 3, w);
    vx::serie_is(cond::make_if_then_else(&negative, f, k)(s), 1, 3, w);
}

// stages of every kind
static Serie doubled(const Serie &s) { return df::map([](double v, uint32_t) { return 2 * v; }, s); }
static Serie raised(Serie s) { return df::map([](double v, uint32_t) { return v + 1; }, s); }

void stages() {
    unsigned n = vx::u32();
    Serie s = vx::serie(1, n, 3);
    Serie want = df::map([](double v, uint32_t) { return 2 * v + 1; }, s);
    Serie other = df::map([](double v, uint32_t) { return 2 * (v + 1); }, s);
    std::function<Serie(const Serie &)> twice(doubled);
    auto more = [](const Serie &x) { return raised(x); };
    vx::same("functions", df::pipe(s, doubled, raised), want);
    vx::same("mixed", df::pipe(s, twice, more), want);
    vx::same("member", s.pipe(twice, raised), want);
    vx::same("made", df::make_pipe(twice, more)(s), want);
    vx::same("made of functions", df::make_pipe(&doubled, &raised)(s), want);
    vx::same("composed", utils::compose(more, twice)(s), want);
    vx::same("composed of functions", utils::compose(&doubled, &raised)(s), other);
    vx::same("kept", df::pipe(s, utils::memoize(twice), more), want);
    vx::same("parallel", utils::parallel_execute(doubled, s, 1), doubled(s));
    vx::same("parallel, stored", utils::parallel_execute(twice, s, 1), doubled(s));
}

} // namespace F18
