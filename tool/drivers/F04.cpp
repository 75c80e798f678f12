#include "vx.h"
#include <dataframe/functional/filter.h>
#include <dataframe/functional/find.h>
#include <dataframe/functional/utils/cut.h>
#include <dataframe/functional/utils/partition.h>
#include <dataframe/functional/utils/reject.h>

using namespace df;

namespace F04 {

void find_number() {
    unsigned n = vx::u32();
    Array a = vx::array(n);
    Serie s(1, a, vx::u32());
    vx::NumBool f;
    vx::take();
    auto r = find(f, s);
    vx::Trace t = vx::take();
    bool found = false;
    uint32_t at = 0;
    double v = 0;
    for (uint32_t i = 0; i < n; ++i) {
        if (f(a[i], i)) {
            found = true;
            at = i;
            v = a[i];
            break;
        }
    }
    vx::same("calls", t, vx::take());
    vx::same("found", r.found, found);
    vx::same("as a condition", static_cast<bool>(r), found);
    if (found) {
        vx::same("index", r.index, at);
        vx::same("value", r.value, v);
    }
    vx::kept(s, 1, n, 3, a);
}

void find_vector() {
    unsigned k = vx::pos(), n = vx::u32();
    vx::assume(k >= 2);
    Array a = vx::array(n * k);
    Serie s(k, a, vx::u32());
    vx::VecBool f;
    vx::take();
    auto r = find(f, s);
    vx::Trace t = vx::take();
    bool found = false;
    uint32_t at = 0;
    for (uint32_t i = 0; i < n; ++i) {
        if (f(vx::item(a, k, i), i)) {
            found = true;
            at = i;
            break;
        }
    }
    vx::same("calls", t, vx::take());
    vx::same("found", r.found, found);
    if (found) {
        vx::same("index", r.index, at);
        vx::same("value", r.value, vx::item(a, k, at));
    }
    vx::kept(s, k, n, 3, a);
}

void find_above() {
    unsigned n = vx::u32();
    double x = vx::real();
    Array a = vx::array(n);
    Serie s(1, a, vx::u32());
    auto r = find([=](double v, uint32_t) { return v > x; }, s);
    bool found = false;
    uint32_t at = 0;
    for (uint32_t i = 0; i < n && !found; ++i) {
        if (a[i] > x) {
            found = true;
            at = i;
        }
    }
    vx::same("found", r.found, found);
    if (found) {
        vx::same("index", r.index, at);
        vx::same("value", r.value, a[at]);
    }
}

void find_index() {
    unsigned n = vx::u32(), m = vx::u32();
    Array a = vx::array(n);
    Serie s(1, a, vx::u32());
    auto r = find([=](double, uint32_t i) { return i >= m; }, s);
    vx::same("found", r.found, m < n);
    if (m < n) {
        vx::same("index", r.index, m);
        vx::same("value", r.value, a[m]);
    }
}

void never_found() {
    unsigned k = vx::pos(), n = vx::u32();
    Serie s(1, vx::array(n)), u(k + 1, vx::array(n * (k + 1)));
    auto r = find([](double, uint32_t) { return false; }, s);
    auto q = find([](const Array &, uint32_t) { return false; }, u);
    vx::holds("not found", !r.found);
    vx::holds("not found", !q.found);
    vx::holds("not found", !r);
}

void wrong_kind() {
    unsigned k = vx::pos(), n = vx::u32();
    vx::assume(k >= 2);
    Serie s(k, vx::array(n * k)), u(1, vx::array(n));
    vx::NumBool f;
    vx::VecBool g;
    vx::take();
    VX_REJECTS(find(f, s));
    VX_REJECTS(find(g, u));
}

} // namespace F04
