#include "vx.h"
#include <dataframe/Dataframe.h>
#include <dataframe/attributes/Areas.h>
#include <dataframe/attributes/Components.h>
#include <dataframe/attributes/Coordinates.h>
#include <dataframe/attributes/EigenValues.h>
#include <dataframe/attributes/EigenVectors.h>
#include <dataframe/attributes/Manager.h>
#include <dataframe/attributes/Normals.h>
#include <dataframe/attributes/UserDefinedDecomposer.h>
#include <dataframe/attributes/Valence.h>

using namespace df;

namespace D01 {

// every name D lists for the Serie of this name resolves
template <class D>
static void resolves(const D &d, const Dataframe &f, unsigned itemSize, const std::string &of, unsigned n) {
    Strings names = d.names(f, itemSize, f[of], of);
    for (const auto &x : names) {
        Serie s = d.serie(f, itemSize, x);
        vx::holds("valid", s.isValid());
        vx::same("itemSize", s.itemSize(), itemSize);
        vx::same("items", s.count(), n);
    }
}

static void components(unsigned k, unsigned dim, std::size_t listed) {
    unsigned n = vx::pos();
    std::string x = vx::name();
    vx::assume(!(x == "positions") && !(x == "indices"));
    Dataframe f;
    f.add(x, vx::serie(k, n, dim));
    Components c;
    const Dataframe &r = f;
    vx::same("number of names", c.names(r, 1, r[x], x).size(), listed);
    resolves(c, r, 1, x, n);
}

void components_1() { components(1, 3, 0); }
void components_2() { components(2, 3, 2); }
void components_3() { components(3, 3, 3); }
void components_6() { components(6, 3, 6); }
void components_9() { components(9, 3, 9); }
void components_12() { components(12, 3, 12); }
void components_2d_2() { components(2, 2, 2); }
void components_2d_3() { components(3, 2, 3); }
void components_2d_4() { components(4, 2, 4); }
void components_2d_5() { components(5, 2, 5); }

// items of more than a hundred numbers
static void long_items(unsigned k, unsigned dim, const Strings &suffix) {
    unsigned n = vx::pos();
    std::string x = vx::name();
    Dataframe f;
    f.add(x, vx::serie(k, n, dim));
    Components c;
    const Dataframe &r = f;
    for (std::size_t i = 0; i < suffix.size(); ++i) {
        const std::string y = suffix[i];
        Serie s = c.serie(r, 1, x + y);
        vx::holds("valid", s.isValid());
        vx::same("itemSize", s.itemSize(), 1u);
        vx::same("items", s.count(), n);
    }
}

void components_101() { long_items(101, 3, {"0", "9", "10", "99", "100"}); }

// no name for what has no components of its own
void mesh_has_no_components() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Dataframe f;
    f.add("positions", vx::serie(k, n, dim));
    f.add("indices", vx::serie(k, n, dim));
    const Dataframe &r = f;
    Components c;
    EigenValues e;
    EigenVectors v;
    vx::same("positions", c.names(r, 1, r["positions"], "positions").size(), std::size_t(0));
    vx::same("indices", c.names(r, 1, r["indices"], "indices").size(), std::size_t(0));
    vx::same("positions", e.names(r, 1, r["positions"], "positions").size(), std::size_t(0));
    vx::same("indices", e.names(r, 1, r["indices"], "indices").size(), std::size_t(0));
    vx::same("positions", v.names(r, 3, r["positions"], "positions").size(), std::size_t(0));
    vx::same("indices", v.names(r, 3, r["indices"], "indices").size(), std::size_t(0));
}

// components are numbers
void components_of_other_sizes() {
    unsigned n = vx::u32(), dim = vx::u32(), l = vx::u32();
    std::string x = vx::name();
    vx::assume(l != 1);
    Dataframe f;
    f.add(x, vx::serie(3, n, dim));
    const Dataframe &r = f;
    Components c;
    Coordinates o;
    vx::same("components", c.names(r, l, r[x], x).size(), std::size_t(0));
    vx::same("coordinates", o.names(r, l, r[x], x).size(), std::size_t(0));
}

static void coordinates(unsigned k, unsigned dim) {
    unsigned n = vx::pos();
    Dataframe f;
    f.add("positions", vx::serie(k, n, dim));
    const Dataframe &r = f;
    Coordinates c;
    vx::same("number of names", c.names(r, 1, r["positions"], "positions").size(), std::size_t(k > 3 ? 3 : k));
    resolves(c, r, 1, "positions", n);
}

void coordinates_1() { coordinates(1, 3); }
void coordinates_2() { coordinates(2, 2); }
void coordinates_3() { coordinates(3, 3); }
void coordinates_4() { coordinates(4, 3); }

void coordinates_named() {
    unsigned n = vx::pos();
    std::string x = vx::name(), y = vx::name();
    vx::assume(!(x == y));
    Dataframe f;
    f.add("positions", vx::serie(2, n, 2));
    const Dataframe &r = f;
    Coordinates c(Strings{x, y});
    vx::same("number of names", c.names(r, 1, r["positions"], "positions").size(), std::size_t(2));
    resolves(c, r, 1, "positions", n);
    vx::same("nothing else", c.names(r, 1, r["positions"], x + "positions").size(),
             std::size_t(x.size() == 0 ? 2 : 0));
}

// more names than usual, on points of more coordinates
static void coordinates_more(unsigned k) {
    unsigned n = vx::pos();
    Dataframe f;
    f.add("positions", vx::serie(k, n, vx::u32()));
    const Dataframe &r = f;
    Coordinates c(Strings{"a", "b", "c", "d", "e"});
    vx::same("number of names", c.names(r, 1, r["positions"], "positions").size(), std::size_t(k > 5 ? 5 : k));
    resolves(c, r, 1, "positions", n);
}

void coordinates_more_4() { coordinates_more(4); }
void coordinates_more_5() { coordinates_more(5); }
void coordinates_more_12() { coordinates_more(12); }

// any size, any dimension, any item size asked for
static void eigen_values(unsigned k, unsigned dim, unsigned l, std::size_t listed) {
    unsigned n = vx::pos();
    std::string x = vx::name();
    vx::assume(!(x == "positions") && !(x == "indices"));
    Dataframe f;
    f.add(x, vx::serie(k, n, dim));
    const Dataframe &r = f;
    EigenValues e;
    vx::same("number of names", e.names(r, l, r[x], x).size(), listed);
    resolves(e, r, l, x, n);
}

static void eigen_vectors(unsigned k, unsigned dim, unsigned l, std::size_t listed) {
    unsigned n = vx::pos();
    std::string x = vx::name();
    vx::assume(!(x == "positions") && !(x == "indices"));
    Dataframe f;
    f.add(x, vx::serie(k, n, dim));
    const Dataframe &r = f;
    EigenVectors e;
    vx::same("number of names", e.names(r, l, r[x], x).size(), listed);
    resolves(e, r, l, x, n);
}

void eigen_values_2d() { eigen_values(3, 2, 1, 2); }
void eigen_values_3d() { eigen_values(6, 3, 1, 3); }
void eigen_vectors_2d() { eigen_vectors(3, 2, 2, 2); }
void eigen_vectors_3d() { eigen_vectors(6, 3, 3, 3); }
void eigen_values_2d_as_vectors() { eigen_values(3, 2, 2, 0); }
void eigen_vectors_2d_as_numbers() { eigen_vectors(3, 2, 1, 0); }
void eigen_vectors_2d_too_long() { eigen_vectors(3, 2, 3, 0); }

// neither a 2D nor a 3D symmetric matrix
void no_eigen() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32(), l = vx::u32();
    std::string x = vx::name();
    vx::assume(!(dim == 2 && k == 3));
    vx::assume(!(dim == 3 && k == 6));
    Dataframe f;
    f.add(x, vx::serie(k, n, dim));
    const Dataframe &r = f;
    EigenValues e;
    EigenVectors v;
    vx::same("values", e.names(r, l, r[x], x).size(), std::size_t(0));
    vx::same("vectors", v.names(r, l, r[x], x).size(), std::size_t(0));
}

// a mesh of any number of triangles over any number of points
struct Mesh {
    unsigned np, nt;
    Array points, corners;
};

static Mesh mesh() {
    Mesh m;
    m.np = vx::pos();
    m.nt = vx::pos();
    m.points = vx::array(3 * m.np);
    std::vector<uint32_t> c = vx::counts(3 * m.nt);
    for (unsigned i = 0; i < 3 * m.nt; ++i) {
        m.corners.push_back(c[i] % m.np);
    }
    return m;
}

void mesh_quantities() {
    Mesh m = mesh();
    std::string x = vx::name();
    Dataframe f;
    f.add("positions", Serie(3, m.points));
    f.add("indices", Serie(3, m.corners));
    const Dataframe &r = f;
    Normals n(x);
    Area a(x);
    Valence v(x);
    vx::same("normals", n.names(r, 3, r["positions"], "positions").size(), std::size_t(1));
    vx::same("areas", a.names(r, 1, r["positions"], "positions").size(), std::size_t(1));
    vx::same("valence", v.names(r, 1, r["positions"], "positions").size(), std::size_t(1));
    resolves(n, r, 3, "positions", m.nt);
    resolves(a, r, 1, "positions", m.nt);
    resolves(v, r, 1, "positions", m.np);
}

// quantities of a mesh are not listed for other item sizes, nor without a mesh
void mesh_quantities_elsewhere() {
    Mesh m = mesh();
    unsigned l = vx::u32(), k = vx::pos();
    Dataframe f;
    f.add("positions", Serie(3, m.points));
    f.add("indices", Serie(3, m.corners));
    const Dataframe &r = f;
    Normals n;
    Area a;
    Valence v;
    vx::same("normals", n.names(r, l, r["positions"], "positions").size(), std::size_t(l == 3));
    vx::same("areas", a.names(r, l, r["positions"], "positions").size(), std::size_t(l == 1));
    vx::same("valence", v.names(r, l, r["positions"], "positions").size(), std::size_t(l == 1));
    Dataframe g;
    g.add("positions", Serie(3, m.points));
    g.add("indices", vx::serie(k, m.nt));
    const Dataframe &q = g;
    vx::assume(k != 3);
    vx::same("no triangles", n.names(q, 3, q["positions"], "positions").size(), std::size_t(0));
    vx::same("no triangles", a.names(q, 1, q["positions"], "positions").size(), std::size_t(0));
    vx::same("no triangles", v.names(q, 1, q["positions"], "positions").size(), std::size_t(0));
}

template <class D> static void not_without_a_mesh(const D &d, unsigned l) {
    unsigned n = vx::pos();
    std::string x = vx::name();
    vx::assume(!(x == "positions") && !(x == "indices"));
    Dataframe f;
    f.add(x, vx::serie(3, n));
    const Dataframe &r = f;
    vx::same("no mesh", d.names(r, l, r[x], x).size(), std::size_t(0));
    f.add("positions", vx::serie(3, n));
    vx::same("no triangles", d.names(r, l, r[x], x).size(), std::size_t(0));
}

void no_mesh_normals() { not_without_a_mesh(Normals(), 3); }
void no_mesh_areas() { not_without_a_mesh(Area(), 1); }
void no_mesh_valence() { not_without_a_mesh(Valence(), 1); }

struct Give {
    unsigned k, n;
    Serie operator()(const Dataframe &) const { return Serie(static_cast<int>(k), vx::array(n * k)); }
};

void user_defined() {
    unsigned k = vx::pos(), n = vx::pos(), l = vx::u32();
    std::string x = vx::name(), y = vx::name();
    Dataframe f;
    f.add(y, vx::serie(k, n));
    const Dataframe &r = f;
    Give g;
    g.k = k;
    g.n = n;
    UserDefinedDecomposer<Give> u(k, x, std::move(g));
    vx::same("number of names", u.names(r, l, r[y], y).size(), std::size_t(l == k));
    resolves(u, r, k, y, n);
}

// what a manager lists, with every decomposer there is
static void managed(unsigned itemSize, unsigned n, unsigned dim, std::size_t listed) {
    Dataframe f;
    f.add("positions", vx::serie(3, n, dim));
    f.add("A", vx::serie(1, n, dim));
    f.add("S", vx::serie(6, n, dim));
    f.add("Sx", vx::serie(3, n, dim));
    f.add("W", vx::serie(5, n, dim));
    Manager m(f, {}, dim);
    m.add(new EigenValues());
    m.add(new Components());
    m.add(new Coordinates());
    m.add(new EigenVectors());
    Strings names = m.names(itemSize);
    vx::same("number of names", names.size(), listed);
    for (const auto &x : names) {
        vx::holds("contained", m.contains(itemSize, x));
        Serie s = m.serie(itemSize, x);
        vx::holds("valid", s.isValid());
        vx::same("itemSize", s.itemSize(), itemSize);
        vx::same("items", s.count(), n);
    }
}

// A, S1..3, Sxx..Szz, Sxx, Sxy, Sxz (again), W0..4, x, y, z
void managed_numbers() { managed(1, vx::pos(), 3, 1 + 3 + 6 + 5 + 3); }
void managed_vectors() { managed(3, vx::pos(), 3, 1 + 3); }
void managed_others() { managed(5, vx::pos(), 3, 1); }
void managed_unknown_size() { managed(7, vx::pos(), 3, 0); }

void manager_finds_its_series() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32(), l = vx::u32();
    Array a = vx::array(n * k);
    std::string x = vx::name();
    vx::assume(!(x == "positions") && !(x == "indices"));
    Dataframe f;
    f.add(x, Serie(k, a, dim));
    Manager m(f, {}, dim);
    vx::same("listed", m.contains(k, x), true);
    vx::same("listed elsewhere", m.contains(l, x), l == k);
    Serie s = m.serie(k, x);
    vx::same("values", s.asArray(), a);
    vx::same("itemSize", s.itemSize(), k);
}

void manager_of_nothing() {
    unsigned l = vx::u32();
    std::string x = vx::name();
    Dataframe f;
    Manager m(f);
    vx::same("names", m.names(l).size(), std::size_t(0));
    vx::holds("not contained", !m.contains(l, x));
    vx::holds("invalid", !m.serie(l, x).isValid());
}

} // namespace D01
