#include "vx.h"
#include <dataframe/functional/merge.h>
#include <dataframe/functional/utils/concat.h>
#include <dataframe/functional/utils/partition_n.h>
#include <dataframe/functional/utils/sort.h>
#include <dataframe/functional/utils/unzip.h>
#include <dataframe/functional/utils/zip.h>

using namespace df;

namespace F08 {

void numbers() {
    unsigned n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n);
    Serie s(1, a, dim);
    Array up = a, down = a;
    std::sort(up.begin(), up.end());
    std::sort(down.begin(), down.end(), [](double x, double y) { return x > y; });
    vx::serie_is(utils::sort(s), 1, dim, up);
    vx::serie_is(utils::sort(s, [](double x, double y) { return x > y; }), 1, dim, down);
    vx::serie_is(utils::sort(s, [](double x, double y) { return x < y; }), 1, dim, up);
    vx::serie_is(utils::sort(s, std::greater<double>()), 1, dim, down);
    vx::serie_is(utils::sort(s, [](const Array &x, const Array &y) { return x[0] > y[0]; }), 1, dim, down);
    vx::kept(s, 1, n, dim, a);
}

void vectors() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    vx::assume(k >= 2);
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    auto last = [](const Array &x, const Array &y) { return x[1] > y[1]; };
    std::vector<Array> items;
    for (uint32_t i = 0; i < n; ++i) {
        items.push_back(vx::item(a, k, i));
    }
    std::sort(items.begin(), items.end(), last);
    Array want;
    for (const Array &x : items) {
        vx::append(want, x);
    }
    Serie r = utils::sort(s, last);
    vx::serie_is(r, k, dim, want);
    vx::same("count", r.count(), n);
    vx::kept(s, k, n, dim, a);
}

void pairs() {
    unsigned n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * 2);
    Serie s(2, a, dim);
    std::vector<Array> items;
    for (uint32_t i = 0; i < n; ++i) {
        items.push_back(Array{a[i * 2], a[i * 2 + 1]});
    }
    auto lex = [](const Array &x, const Array &y) { return x[0] < y[0] || (x[0] == y[0] && x[1] < y[1]); };
    std::sort(items.begin(), items.end(), lex);
    Array want;
    for (const Array &x : items) {
        want.push_back(x[0]);
        want.push_back(x[1]);
    }
    vx::serie_is(utils::sort(s), 2, dim, want);
}

void triples() {
    unsigned n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * 3);
    Serie s(3, a, dim);
    std::vector<Array> items;
    for (uint32_t i = 0; i < n; ++i) {
        items.push_back(Array{a[i * 3], a[i * 3 + 1], a[i * 3 + 2]});
    }
    std::sort(items.begin(), items.end());
    Array want;
    for (const Array &x : items) {
        vx::append(want, x);
    }
    vx::serie_is(utils::sort(s), 3, dim, want);
    vx::kept(s, 3, n, dim, a);
}

void by_length() {
    unsigned n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * 2);
    Serie s(2, a, dim);
    auto by = [](const Array &x, const Array &y) {
        return x[0] + x[1] > y[0] + y[1] || (x[0] + x[1] == y[0] + y[1] && x[0] > y[0]);
    };
    std::vector<Array> items;
    for (uint32_t i = 0; i < n; ++i) {
        items.push_back(Array{a[i * 2], a[i * 2 + 1]});
    }
    std::sort(items.begin(), items.end(), by);
    Array want;
    for (const Array &x : items) {
        vx::append(want, x);
    }
    vx::serie_is(utils::sort(s, by), 2, dim, want);
}

void wrong_kind() {
    unsigned k = vx::pos(), n = vx::u32();
    vx::assume(k >= 2);
    Serie s(k, vx::array(n * k));
    VX_REJECTS(utils::sort(s, [](double x, double y) { return x > y; }));
}

} // namespace F08
