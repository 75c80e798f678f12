#include "vx.h"
#include <dataframe/functional/merge.h>
#include <dataframe/functional/utils/concat.h>
#include <dataframe/functional/utils/partition_n.h>
#include <dataframe/functional/utils/sort.h>
#include <dataframe/functional/utils/unzip.h>
#include <dataframe/functional/utils/zip.h>

using namespace df;

namespace F07 {

// first item of piece i of total items cut into n balanced pieces
static unsigned start(unsigned total, unsigned n, unsigned i) {
    unsigned more = total % n;
    return i * (total / n) + (i < more ? i : more);
}

static Array items(const Array &a, unsigned k, unsigned from, unsigned to) {
    Array r;
    for (uint32_t i = from; i < to; ++i) {
        vx::append(r, vx::item(a, k, i));
    }
    return r;
}

void any_piece() {
    unsigned k = vx::pos(), total = vx::u32(), n = vx::pos(), i = vx::u32(), dim = vx::u32();
    vx::assume(n <= total);
    vx::assume(i < n);
    Array a = vx::array(total * k);
    Serie s(k, a, dim);
    Series p = utils::partition_n(n, s);
    vx::same("pieces", p.size(), std::size_t(n));
    vx::serie_is(p[i], k, dim, items(a, k, start(total, n, i), start(total, n, i + 1)));
    vx::same("count", p[i].count(), total / n + (i < total % n ? 1 : 0));
    vx::kept(s, k, total, dim, a);
}

void deep_together() {
    unsigned k = vx::pos(), total = vx::u32(), n = vx::pos(), dim = vx::u32();
    vx::assume(n <= total);
    Array a = vx::array(total * k);
    Serie s(k, a, dim);
    Series p = utils::partition_n(n, s);
    Array all;
    unsigned count = 0;
    for (const Serie &x : p) {
        vx::append(all, x.asArray());
        count += x.count();
    }
    vx::same("values", all, a);
    vx::same("count", count, total);
}

void deep_numbers() {
    unsigned total = vx::u32(), n = vx::pos();
    vx::assume(n <= total);
    Array a = vx::array(total);
    Series p = utils::partition_n(n, Serie(1, a));
    Array all;
    for (const Serie &x : p) {
        vx::append(all, x.asArray());
    }
    vx::same("values", all, a);
}

void more_pieces_than_items() {
    unsigned k = vx::pos(), total = vx::u32(), n = vx::pos();
    vx::assume(n > total);
    Array a = vx::array(total * k);
    Series p = utils::partition_n(n, Serie(k, a));
    Array all;
    unsigned count = 0;
    for (const Serie &x : p) {
        vx::append(all, x.asArray());
        count += x.count();
    }
    vx::same("values", all, a);
    vx::same("count", count, total);
}

// all counts of REST modulo N, from N upwards
template <unsigned N, unsigned REST> void rest() {
    unsigned k = vx::pos(), q = vx::pos(), total = q * N + REST, dim = vx::u32();
    Array a = vx::array(total * k);
    Serie s(k, a, dim);
    Series p = utils::partition_n(N, s);
    vx::same("pieces", p.size(), std::size_t(N));
    unsigned from = 0;
    for (unsigned i = 0; i < N; ++i) {
        unsigned to = from + q + (i < REST ? 1 : 0);
        vx::serie_is(p[i], k, dim, items(a, k, from, to));
        vx::same("count", p[i].count(), to - from);
        from = to;
    }
    vx::same("end", from, total);
    vx::kept(s, k, total, dim, a);
}

void one() { rest<1, 0>(); }
void two_0() { rest<2, 0>(); }
void two_1() { rest<2, 1>(); }
void three_0() { rest<3, 0>(); }
void three_1() { rest<3, 1>(); }
void three_2() { rest<3, 2>(); }
void four_2() { rest<4, 2>(); }
void five_4() { rest<5, 4>(); }

void few_items() {
    unsigned k = vx::pos(), dim = vx::u32();
    Array a = vx::array(2 * k);
    Serie s(k, a, dim);
    for (unsigned n : {3u, 4u, 7u}) {
        Series p = utils::partition_n(n, s);
        Array all;
        unsigned count = 0;
        for (const Serie &x : p) {
            vx::append(all, x.asArray());
            vx::holds("size", x.count() <= 1);
            count += x.count();
        }
        vx::same("values", all, a);
        vx::same("count", count, 2u);
    }
}

template <unsigned N, unsigned REST> void rest_of_two() {
    unsigned k = vx::pos(), m = vx::pos(), q = vx::u32(), total = q * N + REST, dim = vx::u32(), dim2 = vx::u32();
    Array a = vx::array(total * k), b = vx::array(total * m);
    Serie s(k, a, dim), u(m, b, dim2);
    auto p = utils::partition_n(N, s, u);
    vx::same("series", p.size(), std::size_t(2));
    vx::same("pieces", p[0].size(), std::size_t(N));
    vx::same("pieces", p[1].size(), std::size_t(N));
    unsigned from = 0;
    for (unsigned i = 0; i < N; ++i) {
        unsigned to = from + q + (i < REST ? 1 : 0);
        vx::serie_is(p[0][i], k, dim, items(a, k, from, to));
        vx::serie_is(p[1][i], m, dim2, items(b, m, from, to));
        from = to;
    }
}

void two_series_2_1() { rest_of_two<2, 1>(); }
void two_series_3_2() { rest_of_two<3, 2>(); }
void two_series_4_3() { rest_of_two<4, 3>(); }

void deep_fixed_pieces() {
    unsigned k = vx::pos(), total = vx::u32(), dim = vx::u32();
    vx::assume(total >= 3);
    Array a = vx::array(total * k);
    Serie s(k, a, dim);
    Series p = utils::partition_n(3, s);
    vx::same("pieces", p.size(), std::size_t(3));
    vx::serie_is(p[0], k, dim, items(a, k, 0, start(total, 3, 1)));
    vx::serie_is(p[1], k, dim, items(a, k, start(total, 3, 1), start(total, 3, 2)));
    vx::serie_is(p[2], k, dim, items(a, k, start(total, 3, 2), total));
    Series q = utils::partition_n(1, s);
    vx::same("pieces", q.size(), std::size_t(1));
    vx::serie_is(q[0], k, dim, a);
}

void deep_two_series() {
    unsigned k = vx::pos(), m = vx::pos(), total = vx::u32(), n = vx::pos(), i = vx::u32(), dim = vx::u32(), dim2 = vx::u32();
    vx::assume(n <= total);
    vx::assume(i < n);
    Array a = vx::array(total * k), b = vx::array(total * m);
    Serie s(k, a, dim), u(m, b, dim2);
    auto p = utils::partition_n(n, s, u);
    vx::same("series", p.size(), std::size_t(2));
    vx::same("pieces", p[0].size(), std::size_t(n));
    vx::same("pieces", p[1].size(), std::size_t(n));
    vx::serie_is(p[0][i], k, dim, items(a, k, start(total, n, i), start(total, n, i + 1)));
    vx::serie_is(p[1][i], m, dim2, items(b, m, start(total, n, i), start(total, n, i + 1)));
    vx::kept(s, k, total, dim, a);
    vx::kept(u, m, total, dim2, b);
}

void no_pieces() {
    unsigned k = vx::pos(), n = vx::u32();
    Serie s(k, vx::array(n * k));
    VX_REJECTS(utils::partition_n(0, s));
    VX_REJECTS(utils::partition_n(0, s, s));
}

void six_series() {
    unsigned n = vx::u32();
    Array a = vx::array(n), b = vx::array(n), c = vx::array(n), d = vx::array(n), e = vx::array(n), g = vx::array(n);
    Serie s(1, a), t(1, b), u(1, c), v(1, d), w(1, e), x(1, g);
    vx::assume(n >= 3);
    auto p = utils::partition_n(3, s, t, u, v, w, x);
    unsigned k = n / 3 + (n % 3 > 0 ? 1 : 0);
    vx::same("series", p.size(), std::size_t(6));
    vx::same("pieces", p[3].size(), std::size_t(3));
    vx::serie_is(p[3][0], 1, Array(d.begin(), d.begin() + k));
    vx::serie_is(p[4][0], 1, Array(e.begin(), e.begin() + k));
    vx::serie_is(p[5][0], 1, Array(g.begin(), g.begin() + k));
    vx::same("pieces", p[5].size(), std::size_t(3));
    vx::serie_is(p[5][2], 1, Array(g.end() - n / 3, g.end()));
}

} // namespace F07
