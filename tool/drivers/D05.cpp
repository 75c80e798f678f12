#include "vx.h"
#include <dataframe/Dataframe.h>
#include <dataframe/attributes/Components.h>
#include <dataframe/attributes/Coordinates.h>
#include <dataframe/attributes/Decomposer.h>
#include <dataframe/attributes/Manager.h>

using namespace df;

namespace D05 {

// lists what it is told to, and gives a constant Serie for those names
class Listing : public Decomposer {
  public:
    Listing(uint32_t itemSize, const Strings &all, double value)
        : itemSize_(itemSize), all_(all), value_(value) {}
    Strings names(const Dataframe &, uint32_t itemSize, const Serie &, const String &) const override {
        return itemSize == itemSize_ ? all_ : Strings();
    }
    Serie serie(const Dataframe &, uint32_t itemSize, const String &name) const override {
        if (itemSize == itemSize_) {
            for (const auto &x : all_) {
                if (x == name) {
                    return Serie(static_cast<int>(itemSize), Array(itemSize, value_));
                }
            }
        }
        return Serie();
    }

  private:
    uint32_t itemSize_;
    Strings all_;
    double value_;
};

// lists one name for each Serie it is shown
class Echo : public Decomposer {
  public:
    Echo(const String &suffix) : suffix_(suffix) {}
    Strings names(const Dataframe &, uint32_t, const Serie &, const String &name) const override {
        return Strings{name + suffix_};
    }

  private:
    String suffix_;
};

static const char *letters[] = {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m",
                                "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"};

static Strings twice(const String &prefix, unsigned n) {
    Strings r;
    for (unsigned i = 0; i < n; ++i) {
        r.push_back(prefix + letters[i / 26] + letters[i % 26]);
    }
    return r;
}

// stored series: the item size asked for, the dimension of the manager, no positions, no indices
void stored() {
    unsigned n = vx::u32();
    Dataframe f;
    f.add("b", vx::serie(3, n, 3));
    f.add("a", vx::serie(3, n, 3));
    f.add("c", vx::serie(1, n, 3));
    f.add("d", vx::serie(3, n, 2));
    f.add("positions", vx::serie(3, n, 3));
    f.add("indices", vx::serie(3, n, 3));
    Manager m(f);
    vx::same("names of 3", m.names(3), Strings{"a", "b"});
    vx::same("names of 1", m.names(1), Strings{"c"});
    vx::same("names of 2", m.names(2), Strings());
    Manager p(f, {}, 2);
    vx::same("names of 3 in the plane", p.names(3), Strings{"d"});
    vx::same("names of 1 in the plane", p.names(1), Strings());
}

void stored_or_not() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32(), l = vx::u32(), of = vx::u32();
    std::string x = vx::name();
    vx::assume(!(x == "positions") && !(x == "indices"));
    Dataframe f;
    f.add(x, vx::serie(k, n, dim));
    Manager m(f, {}, of);
    vx::same("number of names", m.names(l).size(), std::size_t(k == l && dim == of ? 1 : 0));
    vx::same("contained", m.contains(l, x), k == l && dim == of);
}

void stored_two() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32(), l = vx::pos();
    std::string x = vx::name(), y = vx::name();
    vx::assume(!(x == y));
    vx::assume(!(x == "positions") && !(x == "indices"));
    vx::assume(!(y == "positions") && !(y == "indices"));
    Dataframe f;
    f.add(x, vx::serie(k, n, dim));
    f.add(y, vx::serie(l, n, dim));
    Manager m(f, {}, dim);
    vx::holds("first", m.contains(k, x));
    vx::holds("second", m.contains(l, y));
    vx::same("first elsewhere", m.contains(l, x), k == l);
    vx::same("number of names", m.names(k).size(), std::size_t(k == l ? 2 : 1));
}

void stored_many() {
    unsigned n = vx::u32();
    Strings all = twice("s", 40);
    Dataframe f;
    for (std::size_t i = 0; i < all.size(); ++i) {
        f.add(all[all.size() - 1 - i], vx::serie(2, n, 3));
    }
    Manager m(f);
    vx::same("names", m.names(2), all);
    vx::same("other size", m.names(1), Strings());
}

// what every decomposer lists, in alphabetical order, once
void decomposed() {
    Dataframe f;
    f.add("a", vx::serie(1, vx::u32(), 3));
    Manager m(f);
    m.add(new Listing(1, Strings{"d", "b"}, 1));
    m.add(new Listing(1, Strings{"c", "a", "b"}, 2));
    m.add(new Listing(2, Strings{"e"}, 3));
    vx::same("names of 1", m.names(1), Strings{"a", "b", "c", "d"});
    vx::same("names of 2", m.names(2), Strings{"e"});
    vx::same("names of 3", m.names(3), Strings());
}

void decomposed_many() {
    Dataframe f;
    f.add("positions", vx::serie(3, vx::u32(), 3));
    Strings a = twice("p", 40), b = twice("q", 40), all = a;
    for (const auto &x : b) {
        all.push_back(x);
    }
    Manager m(f);
    m.add(new Listing(4, b, 1));
    m.add(new Listing(4, a, 2));
    vx::same("names", m.names(4), all);
}

void decomposers_many() {
    Dataframe f;
    f.add("positions", vx::serie(3, vx::u32(), 3));
    Strings all = twice("d", 20);
    Decomposers ds;
    for (const auto &x : all) {
        ds.push_back(new Listing(1, Strings{x}, 1));
    }
    Manager m(f, ds);
    vx::same("number of decomposers", m.nbDecomposers(), 20u);
    vx::same("names", m.names(1), all);
    vx::holds("last", m.contains(1, all[19]) && m.serie(1, all[19]).isValid());
}

// the decomposers are shown every Serie, of any size and dimension, the mesh included
void shown_every_serie() {
    unsigned n = vx::u32();
    Dataframe f;
    f.add("u", vx::serie(1, n, 3));
    f.add("v", vx::serie(7, n, 3));
    f.add("w", vx::serie(3, n, 2));
    f.add("positions", vx::serie(3, n, 3));
    f.add("indices", vx::serie(3, n, 5));
    Manager m(f, {new Echo("!"), new Listing(vx::u32(), Strings{}, 1), new Echo("?")});
    vx::same("names", m.names(4),
             Strings{"indices!", "indices?", "positions!", "positions?", "u!", "u?", "v!", "v?", "w!", "w?"});
    Strings more = m.names(7);
    vx::same("number of names", more.size(), std::size_t(11));
    vx::holds("stored", m.contains(7, "v"));
}

void shown_any_name() {
    std::string x = vx::name();
    unsigned k = vx::pos();
    Dataframe f;
    f.add(x, vx::serie(k, vx::u32(), vx::u32()));
    Manager m(f, {new Echo("!")});
    unsigned l = vx::u32();
    vx::assume(!(l == k));
    vx::same("names", m.names(l), Strings{x + "!"});
}

// a stored Serie goes first, whatever its dimension
void stored_first() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    std::string x = vx::name();
    Array a = vx::array(k * n);
    Dataframe f;
    f.add(x, Serie(k, a, dim));
    Manager m(f);
    m.add(new Listing(k, Strings{x}, 1));
    Serie s = m.serie(k, x);
    vx::serie_is(s, k, a);
    vx::same("dimension", s.dimension(), dim);
}

// then the decomposers, as they were added
void decomposers_in_order() {
    Dataframe f;
    unsigned n = vx::pos();
    f.add("a", vx::serie(2, n));
    Manager m(f, {new Listing(1, Strings{"b"}, 1)});
    m.add(new Listing(1, Strings{"a", "c"}, 2));
    m.add(new Listing(1, Strings{"a", "b", "c", "d"}, 3));
    vx::same("a", m.serie(1, "a").asArray(), Array{2});
    vx::same("b", m.serie(1, "b").asArray(), Array{1});
    vx::same("c", m.serie(1, "c").asArray(), Array{2});
    vx::same("d", m.serie(1, "d").asArray(), Array{3});
    vx::same("stored", m.serie(2, "a").count(), n);
    vx::holds("other", !m.serie(1, "e").isValid());
    vx::holds("other size", !m.serie(3, "b").isValid());
}

// it follows the Dataframe and its decomposers
void follows() {
    unsigned n = vx::u32();
    std::string x = vx::name(), y = vx::name();
    vx::assume(!(x == "positions") && !(x == "indices"));
    vx::assume(!(y == "positions") && !(y == "indices"));
    vx::assume(!(x == y));
    Dataframe f;
    Manager m(f);
    vx::holds("not yet", !m.contains(1, x));
    f.add(x, vx::serie(1, n, 3));
    vx::holds("added", m.contains(1, x));
    vx::holds("decomposer not yet", !m.contains(1, y));
    m.add(new Listing(1, Strings{y}, 1));
    vx::holds("decomposer added", m.contains(1, y) && m.serie(1, y).isValid());
    m.clear();
    vx::holds("cleared", !m.contains(1, y) && !m.serie(1, y).isValid());
    vx::holds("stored stays", m.contains(1, x));
    m.add(new Listing(1, Strings{y}, 4));
    vx::holds("added again", m.contains(1, y));
    vx::same("value", m.serie(1, y).asArray(), Array{4});
    f.del(x);
    vx::holds("deleted", !m.contains(1, x));
}

// one built-in decomposer besides another
void built_in() {
    unsigned n = vx::u32();
    Dataframe f;
    f.add("U", vx::serie(3, n, 3));
    f.add("Ux", vx::serie(1, n, 3));
    f.add("positions", vx::serie(3, n, 3));
    Manager m(f, {new Components(), new Coordinates({"x", "y", "z"})});
    vx::same("numbers", m.names(1), Strings{"Ux", "Uy", "Uz", "x", "y", "z"});
    vx::same("vectors", m.names(3), Strings{"U"});
}

} // namespace D05
