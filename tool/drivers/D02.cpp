#include "vx.h"
#include <cmath>
#include <dataframe/Dataframe.h>
#include <dataframe/attributes/Areas.h>
#include <dataframe/attributes/Components.h>
#include <dataframe/attributes/Coordinates.h>
#include <dataframe/attributes/EigenValues.h>
#include <dataframe/attributes/EigenVectors.h>
#include <dataframe/attributes/Manager.h>
#include <dataframe/attributes/Normals.h>
#include <dataframe/attributes/UserDefinedDecomposer.h>
#include <dataframe/attributes/Valence.h>
#include <dataframe/functional/algebra/eigen.h>

using namespace df;

namespace D02 {

// component i of every item
static Array part(const Array &a, unsigned k, unsigned n, unsigned i) {
    Array r;
    for (unsigned j = 0; j < n; ++j) {
        r.push_back(a[j * k + i]);
    }
    return r;
}

static void components(unsigned k, unsigned dim, const Strings &suffix) {
    unsigned n = vx::pos();
    Array a = vx::array(n * k);
    std::string x = vx::name();
    Dataframe f;
    f.add(x, Serie(k, a, dim));
    const Dataframe &r = f;
    Components c;
    for (unsigned i = 0; i < k; ++i) {
        vx::serie_is(c.serie(r, 1, x + suffix[i]), 1, part(a, k, n, i));
    }
    vx::kept(r[x], k, n, dim, a);
}

void vector_2d() { components(2, 2, {"x", "y"}); }
void symmetric_2d() { components(3, 2, {"xx", "xy", "yy"}); }
void matrix_2d() { components(4, 2, {"xx", "xy", "yx", "yy"}); }
void vector_3d() { components(3, 3, {"x", "y", "z"}); }
void symmetric_3d() { components(6, 3, {"xx", "xy", "xz", "yy", "yz", "zz"}); }
void matrix_3d() { components(9, 3, {"xx", "xy", "xz", "yx", "yy", "yz", "zx", "zy", "zz"}); }
void others_2() { components(2, 3, {"0", "1"}); }
void others_5() { components(5, 3, {"0", "1", "2", "3", "4"}); }
void others_2d_6() { components(6, 2, {"0", "1", "2", "3", "4", "5"}); }
void others_12() { components(12, 3, {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11"}); }
// names of three digits
void others_101() {
    const unsigned k = 101;
    unsigned n = vx::pos();
    Array a = vx::array(n * k);
    std::string x = vx::name();
    Dataframe f;
    f.add(x, Serie(k, a, 3));
    const Dataframe &r = f;
    Components c;
    vx::serie_is(c.serie(r, 1, x + "9"), 1, part(a, k, n, 9));
    vx::serie_is(c.serie(r, 1, x + "10"), 1, part(a, k, n, 10));
    vx::serie_is(c.serie(r, 1, x + "99"), 1, part(a, k, n, 99));
    vx::serie_is(c.serie(r, 1, x + "100"), 1, part(a, k, n, 100));
}
void others_2d_9() { components(9, 2, {"0", "1", "2", "3", "4", "5", "6", "7", "8"}); }

// the names as they are listed, in the packing order
static void listed(unsigned k, unsigned dim, const Strings &suffix) {
    unsigned n = vx::u32();
    std::string x = vx::name();
    vx::assume(!(x == "positions") && !(x == "indices"));
    Dataframe f;
    f.add(x, vx::serie(k, n, dim));
    const Dataframe &r = f;
    Components c;
    Strings names = c.names(r, 1, r[x], x);
    vx::same("names", names.size(), suffix.size());
    for (std::size_t i = 0; i < suffix.size(); ++i) {
        vx::holds("name", names[i] == x + suffix[i]);
    }
}

void listed_vector_2d() { listed(2, 2, {"x", "y"}); }
void listed_symmetric_2d() { listed(3, 2, {"xx", "xy", "yy"}); }
void listed_matrix_2d() { listed(4, 2, {"xx", "xy", "yx", "yy"}); }
void listed_vector_3d() { listed(3, 3, {"x", "y", "z"}); }
void listed_symmetric_3d() { listed(6, 3, {"xx", "xy", "xz", "yy", "yz", "zz"}); }
void listed_matrix_3d() { listed(9, 3, {"xx", "xy", "xz", "yx", "yy", "yz", "zx", "zy", "zz"}); }
void listed_others() { listed(5, 3, {"0", "1", "2", "3", "4"}); }
void listed_others_2d() { listed(6, 2, {"0", "1", "2", "3", "4", "5"}); }
void listed_others_11() { listed(11, 3, {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10"}); }

// a name with the letters of another shape or size is no component
static void no_component(unsigned k, unsigned dim, const Strings &suffix) {
    unsigned n = vx::pos();
    std::string x = "U";
    Dataframe f;
    f.add(x, vx::serie(k, n, dim));
    const Dataframe &r = f;
    Components c;
    for (const auto &s : suffix) {
        vx::holds("invalid", !c.serie(r, 1, x + s).isValid());
    }
}

void no_component_vector_2d() { no_component(2, 2, {"z", "xx", "0", "1", "", "X"}); }
void no_component_symmetric_2d() { no_component(3, 2, {"x", "y", "z", "yx", "xz", "zz", "0"}); }
void no_component_vector_3d() { no_component(3, 3, {"xx", "xy", "zz", "0", "2", "u"}); }
void no_component_symmetric_3d() { no_component(6, 3, {"x", "yx", "zx", "0", "5", "6"}); }
void no_component_others() { no_component(5, 3, {"x", "xx", "5", "50", "05", "-1"}); }
void no_component_other_size() {
    unsigned n = vx::pos(), l = vx::u32();
    vx::assume(l != 1);
    Dataframe f;
    f.add("U", vx::serie(3, n));
    const Dataframe &r = f;
    Components c;
    vx::holds("invalid", !c.serie(r, l, "Ux").isValid());
}

// several series with names that contain each other
void neighbours() {
    unsigned n = vx::pos();
    Array u = vx::array(3 * n), s = vx::array(6 * n), w = vx::array(5 * n), v = vx::array(5 * n);
    Dataframe f;
    f.add("U", Serie(3, u));
    f.add("Us", Serie(6, s));
    f.add("W", Serie(5, w));
    f.add("W1", Serie(5, v));
    const Dataframe &r = f;
    Components c;
    vx::same("Uy", c.serie(r, 1, "Uy").asArray(), part(u, 3, n, 1));
    vx::same("Usxy", c.serie(r, 1, "Usxy").asArray(), part(s, 6, n, 1));
    vx::same("Uszz", c.serie(r, 1, "Uszz").asArray(), part(s, 6, n, 5));
    vx::same("W4", c.serie(r, 1, "W4").asArray(), part(w, 5, n, 4));
    vx::same("W12", c.serie(r, 1, "W12").asArray(), part(v, 5, n, 2));
    vx::holds("Usx", !c.serie(r, 1, "Usx").isValid());
}

static void coordinates(unsigned k, unsigned dim) {
    unsigned n = vx::pos();
    Array a = vx::array(n * k);
    std::string x = vx::name(), y = vx::name(), z = vx::name();
    vx::assume(!(x == y) && !(x == z) && !(y == z));
    Dataframe f;
    f.add("positions", Serie(k, a, dim));
    const Dataframe &r = f;
    Coordinates c(Strings{x, y, z});
    vx::serie_is(c.serie(r, 1, x), 1, part(a, k, n, 0));
    vx::serie_is(c.serie(r, 1, y), 1, part(a, k, n, 1));
    if (k > 2) {
        vx::serie_is(c.serie(r, 1, z), 1, part(a, k, n, 2));
    } else {
        vx::holds("invalid", !c.serie(r, 1, z).isValid());
    }
    vx::kept(r["positions"], k, n, dim, a);
}

void coordinates_2() { coordinates(2, 2); }
void coordinates_3() { coordinates(3, 3); }
void coordinates_more() {
    const unsigned k = 6;
    unsigned n = vx::pos();
    Array a = vx::array(n * k);
    Dataframe f;
    f.add("positions", Serie(k, a, vx::u32()));
    const Dataframe &r = f;
    Coordinates c(Strings{"a", "b", "c", "d", "e"});
    vx::serie_is(c.serie(r, 1, "a"), 1, part(a, k, n, 0));
    vx::serie_is(c.serie(r, 1, "c"), 1, part(a, k, n, 2));
    vx::serie_is(c.serie(r, 1, "d"), 1, part(a, k, n, 3));
    vx::serie_is(c.serie(r, 1, "e"), 1, part(a, k, n, 4));
    vx::holds("others", !c.serie(r, 1, "f").isValid());
}
void coordinates_default() {
    unsigned n = vx::pos();
    Array a = vx::array(n * 3);
    Dataframe f;
    f.add("positions", Serie(3, a));
    const Dataframe &r = f;
    Coordinates c;
    Strings names = c.names(r, 1, r["positions"], "positions");
    vx::holds("x", names[0] == "x");
    vx::holds("y", names[1] == "y");
    vx::holds("z", names[2] == "z");
    vx::same("x", c.serie(r, 1, "x").asArray(), part(a, 3, n, 0));
    vx::same("y", c.serie(r, 1, "y").asArray(), part(a, 3, n, 1));
    vx::same("z", c.serie(r, 1, "z").asArray(), part(a, 3, n, 2));
    vx::holds("others", !c.serie(r, 1, "w").isValid());
    vx::holds("other size", !c.serie(r, 3, "x").isValid());
}

static void eigen(unsigned k, unsigned dim, unsigned i) {
    unsigned n = vx::pos();
    Array a = vx::array(n * k);
    Dataframe f;
    f.add("S", Serie(k, a, dim));
    const Dataframe &r = f;
    Strings names{"S1", "S2", "S3"};
    vx::serie_is(EigenValues().serie(r, 1, names[i]), 1, part(algebra::eigenValues(r["S"]).asArray(), dim, n, i));
}

static void eigen_vector(unsigned k, unsigned dim, unsigned i) {
    unsigned n = vx::pos();
    Array a = vx::array(n * k);
    Dataframe f;
    f.add("S", Serie(k, a, dim));
    const Dataframe &r = f;
    Strings names{"S1", "S2", "S3"};
    Array vectors = algebra::eigenVectors(r["S"]).asArray();
    Array w;
    for (unsigned j = 0; j < n; ++j) {
        for (unsigned l = 0; l < dim; ++l) {
            w.push_back(vectors[j * dim * dim + i * dim + l]);
        }
    }
    vx::serie_is(EigenVectors().serie(r, dim, names[i]), dim, w);
}

void eigen_2d_1() { eigen(3, 2, 0); }
void eigen_2d_2() { eigen(3, 2, 1); }
void eigen_3d_1() { eigen(6, 3, 0); }
void eigen_3d_2() { eigen(6, 3, 1); }
void eigen_3d_3() { eigen(6, 3, 2); }
void eigen_vector_2d_1() { eigen_vector(3, 2, 0); }
void eigen_vector_2d_2() { eigen_vector(3, 2, 1); }
void eigen_vector_3d_1() { eigen_vector(6, 3, 0); }
void eigen_vector_3d_2() { eigen_vector(6, 3, 1); }
void eigen_vector_3d_3() { eigen_vector(6, 3, 2); }

static void no_eigen(unsigned k, unsigned dim) {
    unsigned n = vx::pos();
    Array a = vx::array(n * k);
    Dataframe f;
    f.add("S", Serie(k, a, dim));
    const Dataframe &r = f;
    EigenValues e;
    EigenVectors v;
    vx::holds("no such value", !e.serie(r, 1, "S0").isValid());
    vx::holds("no such value", !e.serie(r, 1, dim == 2 ? "S3" : "S4").isValid());
    vx::holds("no such value", !e.serie(r, 1, "Sx").isValid());
    vx::holds("no such value", !e.serie(r, 1, "S").isValid());
    vx::holds("no such value", !e.serie(r, 1, "").isValid());
    vx::holds("no such value", !e.serie(r, 1, "T1").isValid());
    vx::holds("no such value", !e.serie(r, 2, "S1").isValid());
    vx::holds("no such vector", !v.serie(r, dim, "S0").isValid());
    vx::holds("no such vector", !v.serie(r, dim, dim == 2 ? "S3" : "S4").isValid());
    vx::holds("no such vector", !v.serie(r, dim, "T1").isValid());
    vx::holds("no such vector", !v.serie(r, 1, "S1").isValid());
    vx::kept(r["S"], k, n, dim, a);
}

void no_eigen_2d() { no_eigen(3, 2); }
void no_eigen_3d() { no_eigen(6, 3); }

// the names as they are listed
void eigen_names() {
    std::string x = vx::name();
    vx::assume(!(x == "positions") && !(x == "indices"));
    Dataframe f, g;
    f.add(x, vx::serie(6, vx::pos(), 3));
    g.add(x, vx::serie(3, vx::pos(), 2));
    const Dataframe &r = f, &q = g;
    Strings a = EigenValues().names(r, 1, r[x], x), b = EigenVectors().names(r, 3, r[x], x);
    for (unsigned i = 0; i < 3; ++i) {
        std::string w = x + (i == 0 ? "1" : i == 1 ? "2" : "3");
        vx::holds("value", a[i] == w);
        vx::holds("vector", b[i] == w);
    }
    Strings c = EigenValues().names(q, 1, q[x], x), d = EigenVectors().names(q, 2, q[x], x);
    for (unsigned i = 0; i < 2; ++i) {
        std::string w = x + (i == 0 ? "1" : "2");
        vx::holds("value", c[i] == w);
        vx::holds("vector", d[i] == w);
    }
}

// the larger value first
void eigen_order_2d() {
    Array a = vx::array(3);
    Dataframe f;
    f.add("S", Serie(3, a, 2));
    const Dataframe &r = f;
    EigenValues e;
    Serie p = e.serie(r, 1, "S1"), q = e.serie(r, 1, "S2");
    vx::holds("order", p.scalar(0) >= q.scalar(0));
}

// two triangles over four points
void normals_and_areas() {
    Array p = vx::array(12);
    Dataframe f;
    f.add("positions", Serie(3, p));
    f.add("indices", Serie(3, Array{0, 1, 2, 2, 1, 3}));
    const Dataframe &r = f;
    Array n, a;
    unsigned at[6] = {0, 1, 2, 2, 1, 3};
    for (unsigned t = 0; t < 2; ++t) {
        unsigned i = 3 * at[3 * t], j = 3 * at[3 * t + 1], k = 3 * at[3 * t + 2];
        double ax = p[j] - p[i], ay = p[j + 1] - p[i + 1], az = p[j + 2] - p[i + 2];
        double bx = p[k] - p[i], by = p[k + 1] - p[i + 1], bz = p[k + 2] - p[i + 2];
        double nx = ay * bz - az * by, ny = az * bx - ax * bz, nz = ax * by - ay * bx;
        n.push_back(nx);
        n.push_back(ny);
        n.push_back(nz);
        a.push_back(std::sqrt(nx * nx + ny * ny + nz * nz) / 2);
    }
    vx::serie_is(Normals().serie(r, 3, "normals"), 3, n);
    vx::serie_is(Area().serie(r, 1, "area"), 1, a);
    vx::serie_is(Valence().serie(r, 1, "val"), 1, Array{1, 2, 2, 1});
    vx::serie_is(Normals("N").serie(r, 3, "N"), 3, n);
    vx::serie_is(Area("A").serie(r, 1, "A"), 1, a);
    vx::serie_is(Valence("V").serie(r, 1, "V"), 1, Array{1, 2, 2, 1});
    vx::holds("other name", !Normals("N").serie(r, 3, "normals").isValid());
    vx::holds("other name", !Area("A").serie(r, 1, "area").isValid());
    vx::holds("other name", !Valence("V").serie(r, 1, "val").isValid());
    vx::kept(r["positions"], 3, 4, 3, p);
}

// a corner shared by any number of triangles
void valence_of_a_fan() {
    unsigned nt = vx::pos();
    Array p = vx::array(9), t;
    for (unsigned i = 0; i < nt; ++i) {
        t.push_back(0);
        t.push_back(1);
        t.push_back(2);
    }
    Dataframe f;
    f.add("positions", Serie(3, p));
    f.add("indices", Serie(3, t));
    const Dataframe &r = f;
    vx::same("valence", Valence().serie(r, 1, "val").asArray(), Array{double(nt), double(nt), double(nt)});
}

struct Twice {
    Serie operator()(const Dataframe &f) const {
        return f["A"].map([](double x, uint32_t) { return 2 * x; });
    }
};

void user_defined() {
    unsigned n = vx::pos(), l = vx::u32();
    Array a = vx::array(n), w;
    std::string x = vx::name(), y = vx::name();
    vx::assume(!(x == y));
    for (unsigned i = 0; i < n; ++i) {
        w.push_back(2 * a[i]);
    }
    Dataframe f;
    f.add("A", Serie(1, a));
    const Dataframe &r = f;
    UserDefinedDecomposer<Twice> u(1, x, Twice());
    Strings names = u.names(r, 1, r["A"], "A");
    vx::holds("name", names[0] == x);
    vx::serie_is(u.serie(r, 1, x), 1, w);
    vx::holds("other name", !u.serie(r, 1, y).isValid());
    vx::assume(l != 1);
    vx::holds("other size", !u.serie(r, l, x).isValid());
}

// a stored Serie keeps its dimension
void managed_serie() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n * k);
    std::string x = vx::name();
    Dataframe f;
    f.add(x, Serie(k, a, dim));
    Manager m(f, {}, vx::u32());
    m.add(new Components());
    vx::serie_is(m.serie(k, x), k, dim, a);
}

// the manager hands on what its decomposers find, series of its own first
void managed() {
    unsigned n = vx::pos();
    Array u = vx::array(3 * n), w = vx::array(n), p = vx::array(3 * n);
    Dataframe f;
    f.add("U", Serie(3, u));
    f.add("Uz", Serie(1, w));
    f.add("positions", Serie(3, p));
    Manager m(f);
    m.add(new Components());
    m.add(new Coordinates());
    vx::same("U", m.serie(3, "U").asArray(), u);
    vx::same("Ux", m.serie(1, "Ux").asArray(), part(u, 3, n, 0));
    vx::same("Uz", m.serie(1, "Uz").asArray(), w);
    vx::same("y", m.serie(1, "y").asArray(), part(p, 3, n, 1));
    vx::holds("unknown", !m.serie(1, "Uw").isValid());
    vx::holds("other size", !m.serie(2, "Ux").isValid());
}

void managed_user_defined() {
    unsigned n = vx::pos();
    Array a = vx::array(n), w;
    for (unsigned i = 0; i < n; ++i) {
        w.push_back(2 * a[i]);
    }
    Dataframe f;
    f.add("A", Serie(1, a));
    Manager m(f);
    m.add(new UserDefinedDecomposer<Twice>(1, "B", Twice()));
    vx::holds("listed", m.contains(1, "B"));
    vx::same("B", m.serie(1, "B").asArray(), w);
    vx::same("A", m.serie(1, "A").asArray(), a);
}

} // namespace D02
