// The "stock" world: the library as it is shipped.  default_registry, indirect_registry
// and registries derived from them by with/without, real standard error output, the
// macros, inline overriders in two translation units, user-provided boost_openmethod_vptr.
#pragma once
#define BOOST_OPENMETHOD_ENABLE_RUNTIME_CHECKS
#include <boost/openmethod.hpp>
#include <boost/openmethod/inplace_vptr.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include "../sim.hpp"

namespace stock {
namespace om = boost::openmethod;
namespace pol = om::policies;

struct Animal {
    virtual ~Animal() {}
};
struct Dog : Animal {};
struct Cat : Animal {};
struct Bulldog : Dog {};
struct Puppy : Dog {};    // comes and goes
// never registered, and with a name that no small buffer can hold
template<class...>
struct Machine : Animal {};
struct a_model_whose_name_takes_more_room_than_most_of_the_names_that_people_give_to_models {};
struct a_firmware_whose_name_is_even_longer_because_it_tells_the_whole_story_of_its_releases {};
struct made_of_metal {};
using Robot = Machine<
    a_model_whose_name_takes_more_room_than_most_of_the_names_that_people_give_to_models,
    a_firmware_whose_name_is_even_longer_because_it_tells_the_whole_story_of_its_releases,
    std::pair<a_model_whose_name_takes_more_room_than_most_of_the_names_that_people_give_to_models, int>, made_of_metal>;
enum { ANIMAL, DOG, CAT, BULLDOG, PUPPY, ROBOT, NA };

// finds its v-table by itself
struct Widget {
    int kind;
    explicit Widget(int k = 0) : kind(k) {}
    virtual ~Widget() {}
};
struct Button : Widget {
    Button() : Widget(1) {}
};
struct Label : Widget {
    Label() : Widget(2) {}
};
template<class R>
auto boost_openmethod_vptr(const Widget& w, R*) -> const om::vptr_type& {
    sim::count("custom.vptr");
    return w.kind == 0 ? R::template static_vptr<Widget> : w.kind == 1 ? R::template static_vptr<Button> : R::template static_vptr<Label>;
}
// not polymorphic, v-table returned by value
struct Token {
    int kind;
};
struct Word : Token {};
template<class R, class = std::enable_if_t<!R::has_indirect_vptr>>
auto boost_openmethod_vptr(const Token& t, R*) -> om::vptr_type {
    sim::count("custom.vptr");
    return t.kind == 0 ? R::template static_vptr<Token> : R::template static_vptr<Word>;
}

// -------- default_registry
BOOST_OPENMETHOD(greet, (om::virtual_ptr<Animal>, long), long);
BOOST_OPENMETHOD_INLINE_OVERRIDE(greet, (om::virtual_ptr<Animal>, long n), long) {
    sim::count("macro.inline");
    return has_next() ? -1 : 7 + n;
}
BOOST_OPENMETHOD_DECLARE_OVERRIDER(greet, (om::virtual_ptr<Dog>, long n), long);
// -------- indirect_registry
BOOST_OPENMETHOD(part, (om::virtual_<const Animal&>, om::virtual_ptr<Animal, om::indirect_registry>), long, om::indirect_registry);
BOOST_OPENMETHOD_INLINE_OVERRIDE(part, (const Animal&, om::virtual_ptr<Animal, om::indirect_registry>), long) {
    return has_next() ? -1 : 5;
}
BOOST_OPENMETHOD_INLINE_OVERRIDE(part, (const Dog& d, om::virtual_ptr<Bulldog, om::indirect_registry> b), long) {
    return has_next() ? 100 + next(d, b) : -1;
}
long direct_greet(Dog& d, long n); // calls the overrider by name, in the other translation unit
} // namespace stock
