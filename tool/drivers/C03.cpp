#include "vx.h"
#include <dataframe/Dataframe.h>

using namespace df;

namespace C03 {

void item_read() {
    unsigned k = vx::pos(), n = vx::u32(), i = vx::u32();
    Array a = vx::array(n * k);
    Serie s(k, a, vx::u32());
    if (i < n) {
        vx::same("value", s.value(i), vx::item(a, k, i));
        vx::same("get", s.get<Array>(i), vx::item(a, k, i));
        vx::same("get", s.get(i), vx::item(a, k, i));
    } else {
        VX_REJECTS(s.value(i));
        VX_REJECTS(s.get<Array>(i));
    }
}

void scalar_read() {
    unsigned k = vx::pos(), n = vx::u32(), i = vx::u32();
    Array a = vx::array(n * k);
    Serie s(k, a, vx::u32());
    if (i < n * k) {
        vx::same("scalar", s.scalar(i), a[i]);
        vx::same("get", s.get<double>(i), a[i]);
    } else {
        VX_REJECTS(s.scalar(i));
        VX_REJECTS(s.get<double>(i));
    }
}

void item_write() {
    unsigned k = vx::pos(), n = vx::u32(), i = vx::u32(), m = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k), v = vx::array(m);
    Serie s(k, a, dim), t(k, a, dim);
    bool good = i < n && m == k;
    if (good) {
        s.setValue(i, v);
        t.set(i, v);
    } else {
        VX_REJECTS(s.setValue(i, v));
        VX_REJECTS(t.set(i, v));
        vx::same("values after a rejected write", s.asArray(), a);
        vx::same("values after a rejected write", t.asArray(), a);
    }
    vx::same("count", s.count(), n);
    vx::same("count", t.count(), n);
    vx::same("itemSize", s.itemSize(), k);
    vx::same("itemSize", t.itemSize(), k);
    vx::same("dimension", s.dimension(), dim);
    vx::same("dimension", t.dimension(), dim);
}

void scalar_write() {
    unsigned k = vx::pos(), n = vx::u32(), i = vx::u32();
    double x = vx::real();
    Array a = vx::array(n * k);
    Serie s(k, a, vx::u32()), t(k, a, vx::u32());
    if (i < n * k) {
        s.setScalar(i, x);
        t.set(i, x);
    } else {
        VX_REJECTS(s.setScalar(i, x));
        VX_REJECTS(t.set(i, x));
        vx::same("values after a rejected write", s.asArray(), a);
        vx::same("values after a rejected write", t.asArray(), a);
    }
}

void after_resize() {
    unsigned k = vx::pos(), n = vx::u32(), m = vx::u32(), i = vx::u32();
    Serie s(k, vx::array(n * k));
    s.reCount(m);
    if (i < m) {
        vx::same("value", s.value(i), Array(k, 0.0));
    } else {
        VX_REJECTS(s.value(i));
        VX_REJECTS(s.get<Array>(i));
        VX_REJECTS(s.setValue(i, Array(k, 0.0)));
        VX_REJECTS(s.set(i, Array(k, 0.0)));
    }
}

} // namespace C03
