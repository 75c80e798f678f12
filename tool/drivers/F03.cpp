#include "vx.h"
#include <dataframe/functional/filter.h>
#include <dataframe/functional/find.h>
#include <dataframe/functional/utils/cut.h>
#include <dataframe/functional/utils/partition.h>
#include <dataframe/functional/utils/reject.h>

using namespace df;

namespace F03 {

// the chosen items of n numbers and the calls made to choose them
struct Split {
    Array in, out;
    vx::Trace calls;
};

static Split split(const vx::NumBool &f, const Array &a, unsigned n) {
    Split r;
    vx::take();
    for (uint32_t i = 0; i < n; ++i) {
        if (f(a[i], i)) {
            r.in.push_back(a[i]);
        } else {
            r.out.push_back(a[i]);
        }
    }
    r.calls = vx::take();
    return r;
}

static Split split(const vx::VecBool &f, const Array &a, unsigned k, unsigned n) {
    Split r;
    vx::take();
    for (uint32_t i = 0; i < n; ++i) {
        if (f(vx::item(a, k, i), i)) {
            vx::append(r.in, vx::item(a, k, i));
        } else {
            vx::append(r.out, vx::item(a, k, i));
        }
    }
    r.calls = vx::take();
    return r;
}

void filter_numbers() {
    unsigned n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n);
    Serie s(1, a, dim);
    vx::NumBool f;
    Split w = split(f, a, n);
    Serie r = filter(f, s);
    vx::same("calls", vx::take(), w.calls);
    vx::serie_is(r, 1, dim, w.in);
    Serie q = s.filter(f);
    vx::same("calls of the member", vx::take(), w.calls);
    vx::serie_is(q, 1, dim, w.in);
    vx::kept(s, 1, n, dim, a);
}

void filter_vectors() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    vx::VecBool f;
    Split w = split(f, a, k, n);
    Serie r = filter(f, s);
    vx::same("calls", vx::take(), w.calls);
    vx::serie_is(r, k, dim, w.in);
    Serie q = s.filter(f);
    vx::same("calls of the member", vx::take(), w.calls);
    vx::serie_is(q, k, dim, w.in);
    vx::kept(s, k, n, dim, a);
}

void cut_numbers() {
    unsigned n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n);
    Serie s(1, a, dim);
    vx::NumBool f;
    Split w = split(f, a, n);
    Serie r = utils::cut(f, s);
    vx::same("calls", vx::take(), w.calls);
    vx::serie_is(r, 1, dim, w.in);
    vx::kept(s, 1, n, dim, a);
}

void cut_vectors() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    vx::VecBool f;
    Split w = split(f, a, k, n);
    Serie r = utils::cut(f, s);
    vx::same("calls", vx::take(), w.calls);
    vx::serie_is(r, k, dim, w.in);
}

void find_all_numbers() {
    unsigned n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n);
    Serie s(1, a, dim);
    vx::NumBool f;
    Split w = split(f, a, n);
    Serie r = findAll(f, s);
    vx::same("calls", vx::take(), w.calls);
    vx::serie_is(r, 1, dim, w.in);
    vx::kept(s, 1, n, dim, a);
}

void find_all_vectors() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    vx::VecBool f;
    Split w = split(f, a, k, n);
    Serie r = findAll(f, s);
    vx::same("calls", vx::take(), w.calls);
    vx::serie_is(r, k, dim, w.in);
    vx::kept(s, k, n, dim, a);
}

void reject_numbers() {
    unsigned n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n);
    Serie s(1, a, dim);
    vx::NumBool f;
    Split w = split(f, a, n);
    Serie r = utils::reject(f, s);
    vx::same("calls", vx::take(), w.calls);
    vx::serie_is(r, 1, dim, w.out);
    vx::kept(s, 1, n, dim, a);
}

void reject_vectors() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    vx::VecBool f;
    Split w = split(f, a, k, n);
    Serie r = utils::reject(f, s);
    vx::same("calls", vx::take(), w.calls);
    vx::serie_is(r, k, dim, w.out);
    vx::kept(s, k, n, dim, a);
}

void partition_numbers() {
    unsigned n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n);
    Serie s(1, a, dim);
    vx::NumBool f;
    Split w = split(f, a, n);
    auto [in, out] = utils::partition(f, s);
    vx::same("calls", vx::take(), w.calls);
    vx::serie_is(in, 1, dim, w.in);
    vx::serie_is(out, 1, dim, w.out);
    vx::kept(s, 1, n, dim, a);
}

void partition_vectors() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    vx::VecBool f;
    Split w = split(f, a, k, n);
    auto [in, out] = utils::partition(f, s);
    vx::same("calls", vx::take(), w.calls);
    vx::serie_is(in, k, dim, w.in);
    vx::serie_is(out, k, dim, w.out);
    vx::kept(s, k, n, dim, a);
}

struct Split2 {
    Array in1, in2, out1, out2;
    vx::Trace calls;
};

static Split2 split(const vx::Vec2Bool &f, const Array &a, unsigned k, const Array &b, unsigned m, unsigned n) {
    Split2 r;
    vx::take();
    for (uint32_t i = 0; i < n; ++i) {
        if (f(vx::item(a, k, i), vx::item(b, m, i), i)) {
            vx::append(r.in1, vx::item(a, k, i));
            vx::append(r.in2, vx::item(b, m, i));
        } else {
            vx::append(r.out1, vx::item(a, k, i));
            vx::append(r.out2, vx::item(b, m, i));
        }
    }
    r.calls = vx::take();
    return r;
}

void filter_two() {
    unsigned k = vx::pos(), m = vx::pos(), n = vx::u32(), dim = vx::u32(), dim2 = vx::u32();
    Array a = vx::array(n * k), b = vx::array(n * m);
    Serie s(k, a, dim), u(m, b, dim2);
    vx::Vec2Bool f;
    Split2 w = split(f, a, k, b, m, n);
    auto [x, y] = filter(f, s, u);
    vx::same("calls", vx::take(), w.calls);
    vx::serie_is(x, k, dim, w.in1);
    vx::serie_is(y, m, dim2, w.in2);
    vx::kept(s, k, n, dim, a);
    vx::kept(u, m, n, dim2, b);
}

void reject_two() {
    unsigned k = vx::pos(), m = vx::pos(), n = vx::u32(), dim = vx::u32(), dim2 = vx::u32();
    Array a = vx::array(n * k), b = vx::array(n * m);
    Serie s(k, a, dim), u(m, b, dim2);
    vx::Vec2Bool f;
    Split2 w = split(f, a, k, b, m, n);
    auto [x, y] = utils::reject(f, s, u);
    vx::same("calls", vx::take(), w.calls);
    vx::serie_is(x, k, dim, w.out1);
    vx::serie_is(y, m, dim2, w.out2);
    vx::kept(s, k, n, dim, a);
    vx::kept(u, m, n, dim2, b);
}

void filter_all() {
    unsigned k = vx::pos(), m = vx::pos(), n = vx::u32(), dim = vx::u32(), dim2 = vx::u32();
    Array a = vx::array(n * k), b = vx::array(n * m);
    Serie s(k, a, dim), u(m, b, dim2);
    vx::Vec2Bool f;
    auto g = [&](const Array &x, const Array &y) { return f(x, y, 0); };
    vx::take();
    Series r = filterAll(g, s, u);
    vx::Trace t = vx::take();
    Series q = utils::rejectAll(g, s, u);
    vx::Trace t2 = vx::take();
    Array in1, in2, out1, out2;
    for (uint32_t i = 0; i < n; ++i) {
        Array x = vx::item(a, k, i), y = vx::item(b, m, i);
        if (f(x, y, 0)) {
            vx::append(in1, x);
            vx::append(in2, y);
        } else {
            vx::append(out1, x);
            vx::append(out2, y);
        }
    }
    vx::Trace c = vx::take();
    vx::same("calls", t, c);
    vx::same("calls", t2, c);
    vx::same("series", r.size(), std::size_t(2));
    vx::same("series", q.size(), std::size_t(2));
    vx::serie_is(r[0], k, dim, in1);
    vx::serie_is(r[1], m, dim2, in2);
    vx::serie_is(q[0], k, dim, out1);
    vx::serie_is(q[1], m, dim2, out2);
}

void by_threshold() {
    unsigned n = vx::u32();
    double x = vx::real();
    Array a = vx::array(n);
    Serie s(1, a, vx::u32());
    auto f = [=](double v, uint32_t) { return v > x; };
    Array in, out;
    for (uint32_t i = 0; i < n; ++i) {
        if (a[i] > x) {
            in.push_back(a[i]);
        } else {
            out.push_back(a[i]);
        }
    }
    vx::serie_is(filter(f, s), 1, in);
    vx::serie_is(utils::reject(f, s), 1, out);
    vx::serie_is(utils::cut(f, s), 1, in);
    vx::serie_is(findAll(f, s), 1, in);
    auto [p, q] = utils::partition(f, s);
    vx::serie_is(p, 1, in);
    vx::serie_is(q, 1, out);
}

void by_index() {
    unsigned k = vx::pos(), n = vx::u32(), m = vx::u32();
    Array a = vx::array(n * k);
    Serie s(k, a, vx::u32());
    auto f = [=](const Array &, uint32_t i) { return i < m; };
    unsigned p = m < n ? m : n;
    Array in, out;
    for (uint32_t i = 0; i < p; ++i) {
        vx::append(in, vx::item(a, k, i));
    }
    for (uint32_t i = p; i < n; ++i) {
        vx::append(out, vx::item(a, k, i));
    }
    vx::serie_is(filter(f, s), k, in);
    vx::serie_is(utils::reject(f, s), k, out);
}

void wrong_kind() {
    unsigned k = vx::pos(), n = vx::u32();
    vx::assume(k >= 2);
    Serie s(k, vx::array(n * k));
    vx::NumBool f;
    vx::take();
    VX_REJECTS(filter(f, s));
    VX_REJECTS(s.filter(f));
    VX_REJECTS(utils::cut(f, s));
    VX_REJECTS(utils::reject(f, s));
    VX_REJECTS(findAll(f, s));
    VX_REJECTS(utils::partition(f, s));
}

void six_series() {
    unsigned n = vx::u32();
    Array a = vx::array(n), b = vx::array(n), c = vx::array(n), d = vx::array(n), e = vx::array(n), g = vx::array(n);
    Serie s(1, a), t(1, b), u(1, c), v(1, d), w(1, e), x(1, g);
    double y = vx::real();
    auto f = [=](const Array &p, const Array &q, const Array &l, const Array &m, const Array &o, const Array &z, uint32_t) {
        return p[0] + z[0] > y;
    };
    auto h = [=](const Array &p, const Array &q, const Array &l, const Array &m, const Array &o, const Array &z) {
        return p[0] + z[0] > y;
    };
    auto r = filter(f, s, t, u, v, w, x);
    auto q = utils::reject(f, s, t, u, v, w, x);
    Series ra = filterAll(h, s, t, u, v, w, x);
    Series qa = utils::rejectAll(h, s, t, u, v, w, x);
    Array in1, in5, in6, out1, out5, out6;
    for (uint32_t i = 0; i < n; ++i) {
        if (a[i] + g[i] > y) {
            in1.push_back(a[i]);
            in5.push_back(e[i]);
            in6.push_back(g[i]);
        } else {
            out1.push_back(a[i]);
            out5.push_back(e[i]);
            out6.push_back(g[i]);
        }
    }
    vx::serie_is(std::get<0>(r), 1, in1);
    vx::serie_is(std::get<4>(r), 1, in5);
    vx::serie_is(std::get<5>(r), 1, in6);
    vx::serie_is(std::get<0>(q), 1, out1);
    vx::serie_is(std::get<4>(q), 1, out5);
    vx::serie_is(std::get<5>(q), 1, out6);
    vx::same("series", ra.size(), std::size_t(6));
    vx::same("series", qa.size(), std::size_t(6));
    vx::serie_is(ra[0], 1, in1);
    vx::serie_is(ra[4], 1, in5);
    vx::serie_is(ra[5], 1, in6);
    vx::serie_is(qa[0], 1, out1);
    vx::serie_is(qa[4], 1, out5);
    vx::serie_is(qa[5], 1, out6);
}

} // namespace F03
