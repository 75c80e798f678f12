#include "vx.h"
#include <dataframe/Dataframe.h>

using namespace df;

namespace C02 {

void from_values() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    vx::same("itemSize", s.itemSize(), k);
    vx::same("count", s.count(), n);
    vx::same("size", s.size(), n * k);
    vx::same("dimension", s.dimension(), dim);
    vx::same("values", s.asArray(), a);
    vx::holds("valid", s.isValid());
}

void from_list() {
    double x = vx::real(), y = vx::real(), z = vx::real();
    unsigned dim = vx::u32();
    Serie s(1, {x, y, z}, dim), t(3, {x, y, z}, dim);
    vx::same("count", s.count(), 3u);
    vx::same("itemSize", s.itemSize(), 1u);
    vx::same("dimension", s.dimension(), dim);
    vx::same("values", s.asArray(), Array{x, y, z});
    vx::same("count", t.count(), 1u);
    vx::same("itemSize", t.itemSize(), 3u);
    vx::same("dimension", t.dimension(), dim);
    vx::same("values", t.asArray(), Array{x, y, z});
    VX_REJECTS(Serie(2, {x, y, z}));
    VX_REJECTS(Serie(0, {x, y, z}));
    VX_REJECTS(Serie(-3, {x, y, z}));
}

void from_count() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Serie s(static_cast<int>(k), n, dim);
    vx::same("itemSize", s.itemSize(), k);
    vx::same("count", s.count(), n);
    vx::same("size", s.size(), n * k);
    vx::same("dimension", s.dimension(), dim);
    vx::same("values", s.asArray(), Array(n * k, 0.0));
    vx::holds("valid", s.isValid());
}

void defaults() {
    Serie s(2);
    vx::same("itemSize", s.itemSize(), 2u);
    vx::same("count", s.count(), 0u);
    vx::same("dimension", s.dimension(), 3u);
    vx::same("values", s.asArray().size(), std::size_t(0));
    Serie t;
    vx::holds("invalid", !t.isValid());
    vx::same("count", t.count(), 0u);
    vx::same("size", t.size(), 0u);
    Serie u(2, Array{1, 2, 3, 4});
    vx::same("dimension", u.dimension(), 3u);
    Serie v(2, {1, 2, 3, 4});
    vx::same("dimension", v.dimension(), 3u);
}

void partial_items() {
    unsigned k = vx::pos(), n = vx::u32(), r = vx::u32();
    vx::assume(r >= 1);
    vx::assume(r < k);
    Array a = vx::array(n * k + r);
    VX_REJECTS(Serie(k, a));
}

void no_item_size() {
    int k = vx::integer();
    unsigned m = vx::pos();
    vx::assume(k <= 0);
    Array a = vx::array(m);
    VX_REJECTS(Serie(k, a));
}

void recount() {
    unsigned k = vx::pos(), n = vx::u32(), m = vx::u32(), dim = vx::u32();
    Serie s(k, vx::array(n * k), dim);
    s.reCount(m);
    vx::same("itemSize", s.itemSize(), k);
    vx::same("count", s.count(), m);
    vx::same("size", s.size(), m * k);
    vx::same("dimension", s.dimension(), dim);
    vx::same("values", s.asArray(), Array(m * k, 0.0));
}

void to_serie() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k);
    Serie s = toSerie(k, a, dim);
    vx::same("itemSize", s.itemSize(), k);
    vx::same("count", s.count(), n);
    vx::same("dimension", s.dimension(), dim);
    vx::same("values", s.asArray(), a);
    vx::same("dimension", toSerie(k, a).dimension(), 3u);
}

} // namespace C02
