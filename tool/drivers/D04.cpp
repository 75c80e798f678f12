#include "vx.h"
#include <dataframe/Dataframe.h>

using namespace df;

namespace D04 {

static void is(const Serie &s, unsigned k, unsigned n, unsigned dim, const Array &a) {
    vx::same("values", s.asArray(), a);
    vx::same("itemSize", s.itemSize(), k);
    vx::same("count", s.count(), n);
    vx::same("dimension", s.dimension(), dim);
}

void empty() {
    Dataframe d;
    const Dataframe &r = d;
    std::string x = vx::name();
    vx::holds("unknown", !r.contains(x));
    vx::holds("invalid", !r[x].isValid());
    vx::holds("invalid", !r.get(x).isValid());
    vx::same("nothing added", r.series().size(), std::size_t(0));
}

void add_one() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k);
    std::string x = vx::name(), y = vx::name();
    vx::assume(!(x == y));
    Serie s(k, a, dim);
    Dataframe d;
    d.add(x, s);
    const Dataframe &r = d;
    is(r[x], k, n, dim, a);
    is(r.get(x), k, n, dim, a);
    is(d[x], k, n, dim, a);
    is(d.get(x), k, n, dim, a);
    vx::holds("known", r.contains(x));
    vx::holds("unknown", !r.contains(y));
    vx::holds("invalid", !r[y].isValid());
    vx::holds("invalid", !r.get(y).isValid());
    vx::same("size", r.series().size(), std::size_t(1));
    vx::kept(s, k, n, dim, a);
}


// any two names, equal or not
void add_two() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32(), l = vx::pos(), m = vx::u32(), dim2 = vx::u32();
    Array a = vx::array(n * k), b = vx::array(m * l);
    std::string x = vx::name(), y = vx::name();
    Dataframe d;
    d.add(x, Serie(k, a, dim));
    d.add(y, Serie(l, b, dim2));
    const Dataframe &r = d;
    vx::holds("known", r.contains(x));
    vx::holds("known", r.contains(y));
    if (x == y) {
        is(r[x], l, m, dim2, b);
        is(d.get(x), l, m, dim2, b);
        vx::same("size", r.series().size(), std::size_t(1));
    } else {
        is(r[x], k, n, dim, a);
        is(r[y], l, m, dim2, b);
        is(r.get(x), k, n, dim, a);
        is(r.get(y), l, m, dim2, b);
        is(d.get(x), k, n, dim, a);
        is(d[y], l, m, dim2, b);
        vx::same("size", r.series().size(), std::size_t(2));
    }
}

// set is the same as add
void set_two() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32(), l = vx::pos(), m = vx::u32(), dim2 = vx::u32();
    Array a = vx::array(n * k), b = vx::array(m * l);
    std::string x = vx::name(), y = vx::name();
    Dataframe d(vx::u32());
    d.set(x, Serie(k, a, dim));
    d.set(y, Serie(l, b, dim2));
    const Dataframe &r = d;
    is(r[y], l, m, dim2, b);
    if (!(x == y)) {
        is(r[x], k, n, dim, a);
    }
}

void create_one() {
    unsigned k = vx::pos(), n = vx::u32();
    std::string x = vx::name();
    Dataframe d;
    d.create(x, k, n);
    const Dataframe &r = d;
    vx::holds("known", r.contains(x));
    vx::same("itemSize", r[x].itemSize(), k);
    vx::same("count", r[x].count(), n);
    vx::same("numbers", r[x].asArray().size(), std::size_t(n) * k);
}

void create_over() {
    unsigned k = vx::pos(), n = vx::u32(), l = vx::pos(), m = vx::u32();
    std::string x = vx::name();
    Dataframe d;
    d.add(x, vx::serie(k, n));
    d.create(x, l, m);
    const Dataframe &r = d;
    vx::same("size", r.series().size(), std::size_t(1));
    vx::same("itemSize", r[x].itemSize(), l);
    vx::same("count", r[x].count(), m);
}

// one of three deleted, or none
static void three(int which) {
    unsigned k = vx::pos(), n = vx::u32(), l = vx::pos(), m = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k), b = vx::array(m * l), e = vx::array(n);
    std::string x = vx::name(), y = vx::name(), z = vx::name(), w = vx::name();
    vx::assume(!(x == y) && !(y == z) && !(x == z));
    vx::assume(!(x == w) && !(y == w) && !(z == w));
    Dataframe d;
    d.add(x, Serie(k, a, dim));
    d.add(y, Serie(l, b, dim));
    d.add(z, Serie(1, e, dim));
    d.del(which == 0 ? x : which == 1 ? y : which == 2 ? z : w);
    const Dataframe &r = d;
    vx::same("x", r.contains(x), which != 0);
    vx::same("y", r.contains(y), which != 1);
    vx::same("z", r.contains(z), which != 2);
    vx::same("size", r.series().size(), std::size_t(which == 3 ? 3 : 2));
    if (which == 0) {
        vx::holds("invalid", !r[x].isValid());
    } else {
        is(r[x], k, n, dim, a);
    }
    if (which == 1) {
        vx::holds("invalid", !r.get(y).isValid());
    } else {
        is(r.get(y), l, m, dim, b);
    }
    if (which == 2) {
        vx::holds("invalid", !r[z].isValid());
    } else {
        is(r[z], 1, n, dim, e);
    }
}

void first_deleted() { three(0); }
void second_deleted() { three(1); }
void third_deleted() { three(2); }
void unknown_deleted() { three(3); }

void deleted_and_added_again() {
    unsigned k = vx::pos(), n = vx::u32(), l = vx::pos(), m = vx::u32();
    Array a = vx::array(n * k), b = vx::array(m * l);
    std::string x = vx::name(), y = vx::name();
    vx::assume(!(x == y));
    Dataframe d;
    d.add(x, Serie(k, a));
    d.add(y, Serie(k, a));
    d.del(x);
    d.add(x, Serie(l, b));
    const Dataframe &r = d;
    is(r[x], l, m, 3, b);
    is(r[y], k, n, 3, a);
    vx::same("size", r.series().size(), std::size_t(2));
}

void cleared() {
    unsigned k = vx::pos(), n = vx::u32();
    std::string x = vx::name(), y = vx::name();
    Dataframe d;
    d.add(x, vx::serie(k, n));
    d.add(y, vx::serie(k, n));
    d.clear();
    const Dataframe &r = d;
    vx::holds("unknown", !r.contains(x));
    vx::holds("unknown", !r.contains(y));
    vx::holds("invalid", !r[x].isValid());
    vx::same("size", r.series().size(), std::size_t(0));
}

// resized to the new count, in the ways the count can have been settled before
void new_count() {
    unsigned k = vx::pos(), n = vx::u32(), l = vx::pos(), m = vx::u32(), dim = vx::u32(), c = vx::pos();
    std::string x = vx::name(), y = vx::name();
    vx::assume(!(x == y));
    vx::assume(c != n);
    vx::assume(n > 0);
    Dataframe d;
    d.add(x, vx::serie(k, n, dim));
    d.add(y, vx::serie(l, m, dim));
    d.setCount(c);
    const Dataframe &r = d;
    vx::same("itemSize", r[x].itemSize(), k);
    vx::same("count", r[x].count(), c);
    vx::same("numbers", r[x].asArray().size(), std::size_t(c) * k);
    vx::same("dimension", r[x].dimension(), dim);
    vx::same("itemSize", r[y].itemSize(), l);
    vx::same("count", r[y].count(), c);
    vx::same("numbers", r[y].asArray().size(), std::size_t(c) * l);
    vx::same("dimension", r[y].dimension(), dim);
}

void new_count_twice() {
    unsigned k = vx::pos(), n = vx::pos(), c = vx::pos(), e = vx::pos();
    std::string x = vx::name();
    vx::assume(c != n);
    vx::assume(c != e);
    Dataframe d(n);
    d.add(x, vx::serie(k, n));
    d.setCount(c);
    d.setCount(e);
    const Dataframe &r = d;
    vx::same("count", r[x].count(), e);
    vx::same("numbers", r[x].asArray().size(), std::size_t(e) * k);
}

void no_count() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k);
    std::string x = vx::name();
    Dataframe d;
    d.add(x, Serie(k, a, dim));
    d.setCount(0);
    const Dataframe &r = d;
    is(r[x], k, n, dim, a);
}

// what a Dataframe gives is the stored Serie itself
void changed_in_place() {
    unsigned n = vx::u32(), dim = vx::u32(), i = vx::u32();
    double v = vx::real();
    Array a = vx::array(n), b = a;
    std::string x = vx::name(), y = vx::name();
    vx::assume(!(x == y));
    vx::assume(i < n);
    b[i] = v;
    Dataframe d;
    d.add(x, Serie(1, a, dim));
    d.add(y, Serie(1, a, dim));
    d[x].set(i, v);
    const Dataframe &r = d;
    is(r[x], 1, n, dim, b);
    is(r[y], 1, n, dim, a);
}

void replaced_in_place() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32(), l = vx::pos(), m = vx::u32();
    Array a = vx::array(n * k), b = vx::array(m * l);
    std::string x = vx::name(), y = vx::name();
    vx::assume(!(x == y));
    Dataframe d;
    d.add(x, Serie(k, a, dim));
    d.get(y) = Serie(l, b, dim);
    const Dataframe &r = d;
    is(r[x], k, n, dim, a);
    is(r[y], l, m, dim, b);
    d[x] = d[y];
    is(r[x], l, m, dim, b);
}

void asked_for_by_address() {
    unsigned k = vx::pos(), n = vx::u32();
    Array a = vx::array(n * k);
    std::string x = vx::name(), y = vx::name();
    vx::assume(!(x == y));
    vx::assume(x.size() > 0 && y.size() > 0);
    Serie s(k, a);
    Dataframe d;
    d.add(x, s);
    d.add(y, s);
    const Dataframe &r = d;
    vx::holds("not the copy", !r.contains(s));
    vx::holds("the stored one", r.contains(r[x]));
    vx::holds("the stored one", r.contains(r[y]));
}

// a copy of a Dataframe has series of its own
void copied() {
    unsigned k = vx::pos(), n = vx::u32(), l = vx::pos(), m = vx::u32();
    Array a = vx::array(n * k), b = vx::array(m * l);
    std::string x = vx::name();
    Dataframe d;
    d.add(x, Serie(k, a));
    Dataframe g = d;
    g.add(x, Serie(l, b));
    const Dataframe &r = d, &q = g;
    is(r[x], k, n, 3, a);
    is(q[x], l, m, 3, b);
    g.clear();
    is(r[x], k, n, 3, a);
}

// reading leaves the Dataframe alone
void only_read() {
    unsigned k = vx::pos(), n = vx::u32();
    Array a = vx::array(n * k);
    std::string x = vx::name(), y = vx::name();
    Dataframe d;
    d.add(x, Serie(k, a));
    const Dataframe &r = d;
    (void)r[y];
    (void)r.get(y);
    (void)r.contains(y);
    (void)r.contains(r[x]);
    vx::same("size", r.series().size(), std::size_t(1));
    is(r[x], k, n, 3, a);
    vx::same("y", r.contains(y), x == y);
}

void a_name_read_for_writing_is_stored() {
    std::string x = vx::name(), y = vx::name();
    vx::assume(!(x == y));
    Dataframe d;
    (void)d[x];
    (void)d.get(y);
    const Dataframe &r = d;
    vx::holds("known", r.contains(x));
    vx::holds("known", r.contains(y));
    vx::holds("invalid", !r[x].isValid());
}

// names that are close to one another are different names
void near_names() {
    unsigned n = vx::u32();
    Array a = vx::array(n), b = vx::array(n), c = vx::array(n), e = vx::array(n);
    Dataframe d;
    d.add("bb", Serie(1, b));
    d.add("b", Serie(1, a));
    d.add("B", Serie(1, c));
    d.add("b 1", Serie(1, e));
    const Dataframe &r = d;
    const char *others[] = {"a", "bc", "c", " b", "b ", "A", "BB", "b1", "bbb", "Bb", "b 11", "", "zz"};
    for (const char *x : others) {
        vx::holds("unknown", !r.contains(x));
        vx::holds("invalid", !r[x].isValid());
        vx::holds("invalid", !r.get(x).isValid());
        d.del(x);
        vx::same("size", r.series().size(), std::size_t(4));
    }
    is(r["b"], 1, n, 3, a);
    is(r.get("bb"), 1, n, 3, b);
    is(r.get("B"), 1, n, 3, c);
    is(r["b 1"], 1, n, 3, e);
    d.del("b");
    vx::same("size", r.series().size(), std::size_t(3));
    vx::holds("unknown", !r.contains("b"));
    is(r["bb"], 1, n, 3, b);
    is(r["B"], 1, n, 3, c);
    is(r["b 1"], 1, n, 3, e);
    d.del("bb");
    d.del("b");
    vx::same("size", r.series().size(), std::size_t(2));
    is(r["B"], 1, n, 3, c);
    is(r["b 1"], 1, n, 3, e);
}

void many_names() {
    unsigned n = vx::pos();
    Array a = vx::array(n);
    Dataframe d;
    for (unsigned i = 0; i < 40; ++i) {
        d.add("U" + std::to_string(i), Serie(i + 1, vx::array((i + 1) * n), i));
    }
    const Dataframe &r = d;
    vx::same("size", r.series().size(), std::size_t(40));
    d.del("U7");
    d.del("U3");
    d.add("U3", Serie(1, a));
    vx::same("size", r.series().size(), std::size_t(39));
    for (unsigned i = 0; i < 40; ++i) {
        std::string x = "U" + std::to_string(i);
        vx::same("known", r.contains(x), i != 7);
        vx::same("itemSize", r[x].itemSize(), i == 7 ? 0u : i == 3 ? 1u : i + 1);
    }
    is(r["U3"], 1, n, 3, a);
    d.setCount(n + 1);
    vx::same("count", r["U0"].count(), n + 1);
    vx::same("count", r["U39"].count(), n + 1);
    vx::same("itemSize", r["U39"].itemSize(), 40u);
    d.clear();
    for (unsigned i = 0; i < 40; ++i) {
        vx::holds("unknown", !r.contains("U" + std::to_string(i)));
    }
}

} // namespace D04
