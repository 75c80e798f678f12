#include "vx.h"
#include <dataframe/Dataframe.h>

using namespace df;

namespace C01 {

static void same_serie(const char *, const Serie &got, unsigned k, unsigned n, unsigned dim, const Array &a) {
    vx::same("itemSize", got.itemSize(), k);
    vx::same("count", got.count(), n);
    vx::same("dimension", got.dimension(), dim);
    vx::same("values", got.asArray(), a);
}

void copy_constructed() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32(), p = vx::u32();
    double x = vx::real();
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    Serie t(s);
    same_serie("copy", t, k, n, dim, a);
    vx::assume(p < n * k);
    s.setScalar(p, x);
    same_serie("copy after change", t, k, n, dim, a);
    t.reCount(0);
    Array b = a;
    b[p] = x;
    same_serie("original after change", s, k, n, dim, b);
}

void assigned() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32(), p = vx::u32();
    double x = vx::real();
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    Serie t(vx::pos(), vx::u32(), vx::u32());
    t = s;
    same_serie("copy", t, k, n, dim, a);
    vx::assume(p < n * k);
    s.setScalar(p, x);
    same_serie("copy after change", t, k, n, dim, a);
    Array b = a;
    b[p] = x;
    t.reCount(3);
    same_serie("original after change", s, k, n, dim, b);
}

void assigned_to_itself() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    const Serie &same = s;
    s = same;
    same_serie("itself", s, k, n, dim, a);
}

void cloned() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32(), p = vx::u32();
    double x = vx::real();
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    Serie t = s.clone();
    same_serie("copy", t, k, n, dim, a);
    vx::assume(p < n * k);
    t.setScalar(p, x);
    same_serie("original after change", s, k, n, dim, a);
    Array b = a;
    b[p] = x;
    s.reCount(0);
    same_serie("copy after change", t, k, n, dim, b);
}

void cloned_empty() {
    unsigned k = vx::pos(), dim = vx::u32();
    Serie s(k, 0, dim);
    Serie t = s.clone();
    same_serie("copy", t, k, 0, dim, Array());
}

void returned_and_moved() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    auto f = [](Serie x) { return x; };
    Serie t = f(s);
    same_serie("returned", t, k, n, dim, a);
    Series list{s, t};
    list.push_back(s);
    same_serie("in a list", list[2], k, n, dim, a);
    Serie u = std::move(t);
    same_serie("moved", u, k, n, dim, a);
    same_serie("original", s, k, n, dim, a);
}

void stored_in_dataframe() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32(), p = vx::u32();
    double x = vx::real();
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    Dataframe d;
    d.add("A", s);
    const Dataframe &c = d;
    same_serie("stored", c["A"], k, n, dim, a);
    vx::assume(p < n * k);
    s.setScalar(p, x);
    same_serie("stored after change", c["A"], k, n, dim, a);
    d["A"].reCount(1);
    Array b = a;
    b[p] = x;
    same_serie("original after change", s, k, n, dim, b);
    Dataframe e(d);
    d.set("A", s);
    same_serie("replaced", c["A"], k, n, dim, b);
    same_serie("in a copied Dataframe", e["A"], k, 1, dim, Array(k, 0.0));
}

} // namespace C01
