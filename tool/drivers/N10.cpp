#include "vx.h"
#include <dataframe/functional/math/random.h>

using namespace df;

namespace N10 {

void shape() {
    unsigned k = vx::pos(), n = vx::u32(), seed = vx::u32();
    double lo = vx::real(), hi = vx::real();
    vx::assume(lo <= hi);
    Serie r = math::random(n, k, lo, hi, seed);
    vx::same("count", r.count(), n);
    vx::same("itemSize", r.itemSize(), k);
    vx::same("values", r.asArray().size(), std::size_t(n) * k);
}

void reproducible() {
    unsigned k = vx::pos(), n = vx::u32(), seed = vx::u32();
    double lo = vx::real(), hi = vx::real();
    vx::assume(lo <= hi);
    vx::same("values", math::random(n, k, lo, hi, seed).asArray(), math::random(n, k, lo, hi, seed).asArray());
}

void numbers() {
    unsigned n = vx::u32(), seed = vx::u32();
    double lo = vx::real(), hi = vx::real();
    vx::assume(lo <= hi);
    std::mt19937 g(seed);
    std::uniform_real_distribution<> d(lo, hi);
    Array want;
    for (unsigned i = 0; i < n; ++i) {
        want.push_back(d(g));
    }
    vx::serie_is(math::random(n, 1, lo, hi, seed), 1, want);
}

void vectors() {
    unsigned k = vx::pos(), n = vx::u32(), seed = vx::u32();
    double lo = vx::real(), hi = vx::real();
    vx::assume(lo <= hi);
    std::mt19937 g(seed);
    std::uniform_real_distribution<> d(lo, hi);
    Array want;
    for (unsigned i = 0; i < n * k; ++i) {
        want.push_back(d(g));
    }
    vx::serie_is(math::random(n, k, lo, hi, seed), k, want);
}

} // namespace N10
