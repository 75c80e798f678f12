#include "vx.h"
#include <dataframe/Dataframe.h>

using namespace df;

namespace C04 {

void read() {
    unsigned k = vx::pos(), n = vx::u32(), i = vx::u32(), j = vx::u32();
    vx::assume(i < n);
    vx::assume(j < k);
    Array a = vx::array(n * k);
    const Serie s(k, a, vx::u32());
    double x = a[i * k + j];
    vx::same("value", s.value(i)[j], x);
    vx::same("get", s.get<Array>(i)[j], x);
    vx::same("get number", s.get<double>(i * k + j), x);
    vx::same("scalar", s.scalar(i * k + j), x);
    vx::same("array", s.asArray()[i * k + j], x);
    vx::same("length", s.value(i).size(), std::size_t(k));
    vx::same("length", s.get<Array>(i).size(), std::size_t(k));
}

static Array written(const Array &a, unsigned k, unsigned i, const Array &v) {
    Array r = a;
    for (unsigned j = 0; j < k; ++j) {
        r[i * k + j] = v[j];
    }
    return r;
}

void write_item() {
    unsigned k = vx::pos(), n = vx::u32(), i = vx::u32();
    vx::assume(i < n);
    Array a = vx::array(n * k), v = vx::array(k);
    Serie s(k, a, vx::u32()), t(k, a, vx::u32());
    s.setValue(i, v);
    t.set(i, v);
    vx::same("setValue", s.asArray(), written(a, k, i, v));
    vx::same("set", t.asArray(), written(a, k, i, v));
    vx::same("read back", s.value(i), v);
    vx::same("read back", t.get<Array>(i), v);
}

void write_scalar() {
    unsigned k = vx::pos(), n = vx::u32(), i = vx::u32();
    double x = vx::real();
    vx::assume(i < n * k);
    Array a = vx::array(n * k);
    Serie s(k, a, vx::u32()), t(k, a, vx::u32()), u(k, a, vx::u32());
    s.setScalar(i, x);
    t.set(i, x);
    u.asArray()[i] = x;
    Array b = a;
    b[i] = x;
    vx::same("setScalar", s.asArray(), b);
    vx::same("set", t.asArray(), b);
    vx::same("asArray", u.asArray(), b);
    vx::same("read back", u.scalar(i), x);
    vx::same("read back", s.get<double>(i), x);
}

void write_number_items() {
    unsigned n = vx::u32(), i = vx::u32();
    double x = vx::real();
    vx::assume(i < n);
    Array a = vx::array(n);
    Serie s(1, a, vx::u32()), t(1, a, vx::u32());
    s.setValue(i, Array{x});
    t.set(i, Array{x});
    Array b = a;
    b[i] = x;
    vx::same("setValue", s.asArray(), b);
    vx::same("set", t.asArray(), b);
    vx::same("value", s.value(i), Array{x});
    vx::same("get", t.get<Array>(i), Array{x});
}

void fill_by_items() {
    unsigned k = vx::pos(), n = vx::u32();
    Array a = vx::array(n * k);
    Serie s(static_cast<int>(k), n), t(static_cast<int>(k), n), u(static_cast<int>(k), n);
    for (uint32_t i = 0; i < n; ++i) {
        s.setValue(i, vx::item(a, k, i));
        t.set(i, vx::item(a, k, i));
    }
    for (uint32_t i = 0; i < n * k; ++i) {
        u.setScalar(i, a[i]);
    }
    vx::same("setValue", s.asArray(), a);
    vx::same("set", t.asArray(), a);
    vx::same("setScalar", u.asArray(), a);
}

} // namespace C04
