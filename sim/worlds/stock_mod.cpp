#include "stock.hpp"
namespace stock {
using om::virtual_ptr;
BOOST_OPENMETHOD_DEFINE_OVERRIDER(greet, (virtual_ptr<Dog> d, long n), long) {
    sim::count("macro.declared");
    return has_next() ? 70 + next(d, n) : -1;
}
BOOST_OPENMETHOD_OVERRIDE(greet, (virtual_ptr<Cat> c, long n), long) {
    return 900 + next(c, n);
}
BOOST_OPENMETHOD_CLASSES(Animal, Dog, Bulldog, Cat);
BOOST_OPENMETHOD_CLASSES(Animal, Cat, om::indirect_registry);
} // namespace stock
