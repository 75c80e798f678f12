#include "vx.h"
#include <dataframe/functional/conditional/check.h>
#include <dataframe/functional/forEach.h>
#include <dataframe/functional/map.h>
#include <dataframe/functional/reduce.h>
#include <dataframe/functional/utils/apply.h>

using namespace df;

namespace F01 {

void map_number_to_number() {
    unsigned n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n);
    Serie s(1, a, dim);
    vx::NumNum f;
    vx::take();
    Serie r = map(f, s);
    vx::Trace t = vx::take();
    Array want;
    for (uint32_t i = 0; i < n; ++i) {
        want.push_back(f(a[i], i));
    }
    vx::same("calls", t, vx::take());
    vx::serie_is(r, 1, dim, want);
    vx::kept(s, 1, n, dim, a);
}

void map_number_to_integer() {
    unsigned n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n);
    Serie s(1, a, dim);
    vx::NumInt f;
    vx::take();
    Serie r = map(f, s);
    vx::Trace t = vx::take();
    Array want;
    for (uint32_t i = 0; i < n; ++i) {
        want.push_back(f(a[i], i));
    }
    vx::same("calls", t, vx::take());
    vx::serie_is(r, 1, dim, want);
}

void map_number_to_vector() {
    unsigned n = vx::u32(), dim = vx::u32();
    vx::assume(n >= 1);
    Array a = vx::array(n);
    Serie s(1, a, dim);
    vx::NumNum f;
    vx::take();
    Serie r = map([&](double v, uint32_t i) { return Array{f(v, i), v, f(v + 1, i)}; }, s);
    vx::Trace t = vx::take();
    Array want;
    for (uint32_t i = 0; i < n; ++i) {
        want.push_back(f(a[i], i));
        want.push_back(a[i]);
        want.push_back(f(a[i] + 1, i));
    }
    vx::same("calls", t, vx::take());
    vx::serie_is(r, 3, dim, want);
    vx::kept(s, 1, n, dim, a);
}

void map_number_to_long_vector() {
    unsigned n = vx::pos(), m = vx::pos(), dim = vx::u32();
    Array a = vx::array(n);
    Serie s(1, a, dim);
    auto f = [&](double v, uint32_t i) {
        Array x(m);
        for (uint32_t j = 0; j < m; ++j) {
            x[j] = v * j + i;
        }
        return x;
    };
    Serie r = map(f, s);
    Array want;
    for (uint32_t i = 0; i < n; ++i) {
        for (uint32_t j = 0; j < m; ++j) {
            want.push_back(a[i] * j + i);
        }
    }
    vx::serie_is(r, m, dim, want);
}

void map_vector_to_number() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    vx::VecNum f;
    vx::take();
    Serie r = map(f, s);
    vx::Trace t = vx::take();
    Array want;
    for (uint32_t i = 0; i < n; ++i) {
        want.push_back(f(vx::item(a, k, i), i));
    }
    vx::same("calls", t, vx::take());
    vx::serie_is(r, 1, dim, want);
    vx::kept(s, k, n, dim, a);
}

void map_vector_to_vector() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    vx::VecNum f, g;
    vx::take();
    Serie r = map([&](const Array &v, uint32_t i) { return Array{f(v, i), g(v, i)}; }, s);
    vx::Trace t = vx::take();
    Array want;
    for (uint32_t i = 0; i < n; ++i) {
        want.push_back(f(vx::item(a, k, i), i));
        want.push_back(g(vx::item(a, k, i), i));
    }
    vx::same("calls", t, vx::take());
    vx::serie_is(r, 2, dim, want);
    vx::kept(s, k, n, dim, a);
}

void map_vector_itself() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    Serie r = map([&](const Array &v, uint32_t) { return v; }, s);
    vx::serie_is(r, k, dim, a);
}

void map_two() {
    unsigned k = vx::pos(), m = vx::pos(), n = vx::u32(), dim = vx::u32();
    vx::assume(n >= 1);
    Array a = vx::array(n * k), b = vx::array(n * m);
    Serie s(k, a, dim), u(m, b, dim);
    vx::Vec2Num f;
    vx::take();
    Serie r = map(f, s, u);
    vx::Trace t = vx::take();
    Array want;
    for (uint32_t i = 0; i < n; ++i) {
        want.push_back(f(vx::item(a, k, i), vx::item(b, m, i), i));
    }
    vx::same("calls", t, vx::take());
    vx::serie_is(r, 1, dim, want);
    vx::kept(s, k, n, dim, a);
    vx::kept(u, m, n, dim, b);
}

void map_three_to_vector() {
    unsigned k = vx::pos(), m = vx::pos(), l = vx::pos(), n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n * k), b = vx::array(n * m), c = vx::array(n * l);
    Serie s(k, a, dim), u(m, b, dim), w(l, c, dim);
    vx::Vec3Num f;
    vx::take();
    Serie r = map([&](const Array &x, const Array &y, const Array &z, uint32_t i) { return Array{f(x, y, z, i), f(z, y, x, i)}; }, s, u, w);
    vx::Trace t = vx::take();
    Array want;
    for (uint32_t i = 0; i < n; ++i) {
        want.push_back(f(vx::item(a, k, i), vx::item(b, m, i), vx::item(c, l, i), i));
        want.push_back(f(vx::item(c, l, i), vx::item(b, m, i), vx::item(a, k, i), i));
    }
    vx::same("calls", t, vx::take());
    vx::serie_is(r, 2, dim, want);
}

void differing_lengths_are_rejected() {
    unsigned k = vx::pos(), n = vx::u32();
    vx::assume(n >= 2);
    Array a = vx::array(n * k), b = vx::array(n);
    Serie s(k, a, vx::u32()), u(1, b, vx::u32());
    VX_REJECTS(map([](const Array &, uint32_t i) { return Array(i + 1); }, s));
    VX_REJECTS(map([](double, uint32_t i) { return Array(i + 1); }, u));
    VX_REJECTS(map([](const Array &, const Array &, uint32_t i) { return Array(i + 1); }, s, u));
}

void differing_last_length_is_rejected() {
    unsigned k = vx::pos(), n = vx::u32();
    vx::assume(n >= 2);
    Array a = vx::array(n * k), b = vx::array(n);
    Serie s(k, a, vx::u32()), u(1, b, vx::u32());
    VX_REJECTS(map([&](const Array &, uint32_t i) { return Array(i == n - 1 ? 1 : 2); }, s));
    VX_REJECTS(map([&](double, uint32_t i) { return Array(i == n - 1 ? 1 : 2); }, u));
    VX_REJECTS(map([&](const Array &, const Array &, uint32_t i) { return Array(i == n - 1 ? 1 : 2); }, s, u));
}

void member_and_synonym() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n * k), b = vx::array(n);
    Serie s(k, a, dim), u(1, b, dim);
    vx::VecNum f;
    vx::NumNum g;
    vx::Vec2Num h;
    vx::take();
    Serie r1 = s.map(f);
    vx::Trace t1 = vx::take();
    Serie r2 = utils::apply(f, s);
    vx::Trace t2 = vx::take();
    Serie r3 = u.map(g);
    vx::Trace t3 = vx::take();
    Serie r4 = utils::apply(g, u);
    vx::Trace t4 = vx::take();
    Serie r5 = utils::apply(h, s, u);
    vx::take();
    Array w1, w2, w3;
    for (uint32_t i = 0; i < n; ++i) {
        w1.push_back(f(vx::item(a, k, i), i));
    }
    vx::Trace c1 = vx::take();
    for (uint32_t i = 0; i < n; ++i) {
        w2.push_back(g(b[i], i));
    }
    vx::Trace c2 = vx::take();
    for (uint32_t i = 0; i < n; ++i) {
        w3.push_back(h(vx::item(a, k, i), Array{b[i]}, i));
    }
    vx::same("calls", t1, c1);
    vx::same("calls", t2, c1);
    vx::same("calls", t3, c2);
    vx::same("calls", t4, c2);
    vx::serie_is(r1, 1, dim, w1);
    vx::serie_is(r2, 1, dim, w1);
    vx::serie_is(r3, 1, dim, w2);
    vx::serie_is(r4, 1, dim, w2);
    vx::serie_is(r5, 1, dim, w3);
}

// a callback of numbers has no item value to be given when the items are vectors
void number_callback_on_vectors() {
    unsigned k = vx::pos(), n = vx::pos();
    vx::assume(k > 1);
    Serie s = vx::serie(k, n);
    VX_REJECTS(map(vx::NumNum(), s));
}

void map_six() {
    unsigned n = vx::pos();
    Array a = vx::array(n), b = vx::array(n), c = vx::array(n), d = vx::array(n), e = vx::array(n), g = vx::array(n);
    Serie s(1, a), t(1, b), u(1, c), v(1, d), w(1, e), x(1, g);
    Serie r = map([](const Array &p, const Array &q, const Array &l, const Array &m, const Array &o, const Array &z, uint32_t i) {
        return p[0] + 2 * q[0] + 3 * l[0] + 5 * m[0] + 7 * o[0] + 11 * z[0] + i;
    }, s, t, u, v, w, x);
    Array want;
    for (uint32_t i = 0; i < n; ++i) {
        want.push_back(a[i] + 2 * b[i] + 3 * c[i] + 5 * d[i] + 7 * e[i] + 11 * g[i] + i);
    }
    vx::serie_is(r, 1, want);
}

} // namespace F01
