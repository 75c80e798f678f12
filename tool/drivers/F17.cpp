#include "vx.h"
#include <dataframe/functional/map.h>
#include <dataframe/functional/conditional/check.h>
#include <dataframe/functional/conditional/if.h>

using namespace df;

namespace F17 {

struct NumIs { bool operator()(double) const; };
struct VecIs { bool operator()(const Array &) const; };
struct Seen { double operator()(int branch, const Array &, unsigned, unsigned, unsigned) const; };
static double seen(int branch, const Serie &s) {
    return Seen()(branch, s.asArray(), s.itemSize(), s.count(), s.dimension());
}
struct Yes { double operator()(double, uint32_t) const; };
struct No { double operator()(double, uint32_t) const; };
struct VYes { double operator()(const Array &, uint32_t) const; };
struct VNo { double operator()(const Array &, uint32_t) const; };

void numbers() {
    unsigned n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n), want;
    NumIs c;
    Yes y;
    No o;
    vx::take();
    for (uint32_t i = 0; i < n; ++i) {
        want.push_back(c(a[i]) ? y(a[i], i) : o(a[i], i));
    }
    vx::Trace calls = vx::take();
    Serie s(1, a, dim);
    auto yes = [y](double v, uint32_t i, const Serie &) { return y(v, i); };
    auto no = [o](double v, uint32_t i, const Serie &) { return o(v, i); };
    Serie r = cond::if_then_else(s, c, yes, no);
    vx::same("calls", vx::take(), calls);
    vx::serie_is(r, 1, dim, want);
    Serie q = cond::make_if_then_else(c, yes, no)(s);
    vx::same("calls of the made function", vx::take(), calls);
    vx::serie_is(q, 1, dim, want);
    vx::kept(s, 1, n, dim, a);
}

void vectors() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k), want;
    VecIs c;
    VYes y;
    VNo o;
    vx::take();
    for (uint32_t i = 0; i < n; ++i) {
        Array v = vx::item(a, k, i);
        want.push_back(c(v) ? y(v, i) : o(v, i));
    }
    vx::Trace calls = vx::take();
    Serie s(k, a, dim);
    auto yes = [y](const Array &v, uint32_t i, const Serie &) { return y(v, i); };
    auto no = [o](const Array &v, uint32_t i, const Serie &) { return o(v, i); };
    Serie r = cond::if_then_else(s, c, yes, no);
    vx::same("calls", vx::take(), calls);
    vx::serie_is(r, 1, dim, want);
    vx::kept(s, k, n, dim, a);
}

// the branches see the whole Serie
void whole_serie() {
    unsigned n = vx::u32();
    double limit = vx::real();
    vx::assume(n >= 1);
    Array a = vx::array(n), want;
    for (uint32_t i = 0; i < n; ++i) {
        want.push_back(a[i] < limit ? (i > 0 ? a[i - 1] : a[i]) : a[n - 1] + a[i]);
    }
    Serie s(1, a, vx::u32());
    vx::serie_is(cond::if_then_else(
                     s, [limit](double v) { return v < limit; },
                     [](double v, uint32_t i, const Serie &x) { return i > 0 ? x.scalar(i - 1) : v; },
                     [](double v, uint32_t i, const Serie &x) { return x.scalar(x.count() - 1) + v; }),
                 1, want);
}

// whatever the branches look at
void all_of_it() {
    unsigned n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n), want;
    NumIs c;
    Yes y;
    No o;
    Serie s(1, a, dim);
    vx::take();
    for (uint32_t i = 0; i < n; ++i) {
        want.push_back(c(a[i]) ? y(a[i], i) + seen(0, s) : o(a[i], i) - seen(1, s));
    }
    vx::Trace calls = vx::take();
    auto yes = [y](double v, uint32_t i, const Serie &x) { return y(v, i) + seen(0, x); };
    auto no = [o](double v, uint32_t i, const Serie &x) { return o(v, i) - seen(1, x); };
    vx::serie_is(cond::if_then_else(s, c, yes, no), 1, dim, want);
    vx::same("calls", vx::take(), calls);
    vx::serie_is(cond::make_if_then_else(c, yes, no)(s), 1, dim, want);
    vx::same("calls of the made function", vx::take(), calls);
}

void all_of_it_vectors() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k), want;
    VecIs c;
    VYes y;
    VNo o;
    Serie s(k, a, dim);
    vx::take();
    for (uint32_t i = 0; i < n; ++i) {
        Array v = vx::item(a, k, i);
        want.push_back(c(v) ? y(v, i) + seen(0, s) : o(v, i) - seen(1, s));
    }
    vx::Trace calls = vx::take();
    auto yes = [y](const Array &v, uint32_t i, const Serie &x) { return y(v, i) + seen(0, x); };
    auto no = [o](const Array &v, uint32_t i, const Serie &x) { return o(v, i) - seen(1, x); };
    vx::serie_is(cond::if_then_else(s, c, yes, no), 1, dim, want);
    vx::same("calls", vx::take(), calls);
    vx::serie_is(cond::make_if_then_else(c, yes, no)(s), 1, dim, want);
    vx::same("calls of the made function", vx::take(), calls);
}

void to_vectors() {
    unsigned n = vx::u32();
    vx::assume(n >= 1);
    Array a = vx::array(n), want;
    for (uint32_t i = 0; i < n; ++i) {
        want.push_back(a[i] < 0 ? -a[i] : 0);
        want.push_back(a[i] < 0 ? 0 : a[i]);
    }
    Serie s(1, a, vx::u32());
    vx::serie_is(cond::if_then_else(
                     s, [](double v) { return v < 0; },
                     [](double v, uint32_t, const Serie &) { return Array{-v, 0}; },
                     [](double v, uint32_t, const Serie &) { return Array{0, v}; }),
                 2, want);
}

} // namespace F17
