#include "vx.h"
#include <dataframe/Dataframe.h>
#include <dataframe/attributes/Areas.h>
#include <dataframe/attributes/Components.h>
#include <dataframe/attributes/Coordinates.h>
#include <dataframe/attributes/Decomposer.h>
#include <dataframe/attributes/EigenValues.h>
#include <dataframe/attributes/EigenVectors.h>
#include <dataframe/attributes/Manager.h>
#include <dataframe/attributes/Normals.h>
#include <dataframe/attributes/UserDefinedDecomposer.h>
#include <dataframe/attributes/Valence.h>
#include <type_traits>

using namespace df;

namespace D03 {

// no second owner, and deleting through the base is complete
static_assert(!std::is_copy_constructible_v<Manager>, "a Manager can be copied");
static_assert(!std::is_copy_assignable_v<Manager>, "a Manager can be copied");
static_assert(std::has_virtual_destructor_v<Decomposer>, "a decomposer is not destroyed completely");
static_assert(std::has_virtual_destructor_v<Components> && std::has_virtual_destructor_v<Coordinates> &&
                  std::has_virtual_destructor_v<EigenValues> && std::has_virtual_destructor_v<EigenVectors> &&
                  std::has_virtual_destructor_v<Normals> && std::has_virtual_destructor_v<Area> &&
                  std::has_virtual_destructor_v<Valence> &&
                  std::has_virtual_destructor_v<UserDefinedDecomposer<Serie (*)(const Dataframe &)>>,
              "a decomposer is not destroyed completely");

// counts how often it is destroyed
struct Watched : public Decomposer {
    unsigned &gone;
    String answer;
    Watched(unsigned &g, const String &a) : gone(g), answer(a) {}
    ~Watched() { gone += 1; }
    Strings names(const Dataframe &, uint32_t, const Serie &, const String &) const override {
        return {answer};
    }
    Serie serie(const Dataframe &, uint32_t, const String &name) const override {
        return name == answer ? Serie(1, Array{1}) : Serie();
    }
};

void until_the_end() {
    unsigned a = 0, b = 0, c = 0;
    {
        Dataframe f;
        Manager m(f, {new Watched(a, "a"), new Watched(b, "b")});
        m.add(new Watched(c, "c"));
        vx::same("number", m.nbDecomposers(), 3u);
        vx::same("alive", a + b + c, 0u);
    }
    vx::same("given at first", a, 1u);
    vx::same("given at first", b, 1u);
    vx::same("added", c, 1u);
}

void cleared() {
    unsigned a = 0, b = 0, c = 0;
    {
        Dataframe f;
        Manager m(f, {new Watched(a, "a"), new Watched(b, "b")});
        m.clear();
        vx::same("number", m.nbDecomposers(), 0u);
        vx::same("cleared", a, 1u);
        vx::same("cleared", b, 1u);
        m.add(new Watched(c, "c"));
        vx::same("alive", c, 0u);
        vx::same("number", m.nbDecomposers(), 1u);
    }
    vx::same("once", a, 1u);
    vx::same("once", b, 1u);
    vx::same("added", c, 1u);
}

void cleared_twice() {
    unsigned a = 0;
    {
        Dataframe f;
        Manager m(f);
        m.clear();
        m.add(new Watched(a, "a"));
        m.clear();
        m.clear();
    }
    vx::same("once", a, 1u);
}

void used() {
    unsigned a = 0, b = 0, n = vx::pos();
    Array x = vx::array(n);
    Dataframe f;
    f.add("s", Serie(1, x));
    {
        Manager m(f, {new Watched(a, "a")});
        m.add(new Watched(b, "b"));
        vx::same("first", m.serie(1, "a").asArray(), Array{1});
        vx::same("second", m.serie(1, "b").asArray(), Array{1});
        vx::same("stored", m.serie(1, "s").asArray(), x);
        vx::holds("names", m.contains(1, "a"));
        vx::holds("names", m.contains(1, "b"));
        vx::same("alive", a + b, 0u);
        // again
        vx::same("first", m.serie(1, "a").asArray(), Array{1});
        vx::same("alive", a + b, 0u);
    }
    vx::same("once", a, 1u);
    vx::same("once", b, 1u);
    vx::same("kept", f["s"].asArray(), x);
}

void none() {
    Dataframe f;
    {
        Manager m(f);
        vx::same("number", m.nbDecomposers(), 0u);
        vx::holds("shape", !m.serie(1, "a").isValid());
    }
    vx::holds("after", true);
}

void of_the_library() {
    Dataframe f;
    f.add("positions", Serie(3, Array{0, 0, 0, 1, 0, 0, 0, 1, 0}));
    f.add("indices", Serie(3, Array{0, 1, 2}));
    {
        Manager m(f, {new Components(), new Coordinates(), new EigenValues(), new EigenVectors()});
        m.add(new Normals());
        m.add(new Area());
        m.add(new Valence());
        vx::same("number", m.nbDecomposers(), 7u);
        m.clear();
        m.add(new Coordinates());
        vx::same("number", m.nbDecomposers(), 1u);
    }
    vx::holds("after", true);
}

// a decomposer that fails stays with its manager
struct Failing : public Watched {
    using Watched::Watched;
    Serie serie(const Dataframe &, uint32_t, const String &) const override {
        throw std::invalid_argument("no");
    }
};

void failing() {
    unsigned a = 0, b = 0;
    Dataframe f;
    {
        Manager m(f, {new Failing(a, "a"), new Watched(b, "b")});
        VX_REJECTS(m.serie(1, "b"));
        vx::same("alive", a + b, 0u);
    }
    vx::same("once", a, 1u);
    vx::same("once", b, 1u);
}

} // namespace D03
