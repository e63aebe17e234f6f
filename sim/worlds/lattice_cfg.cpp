// One registry configuration per translation unit: -DCFG=n
#include <sstream>
#include "lattice_driver.hpp"
namespace lat {
namespace pol = boost::openmethod::policies;
using boost::openmethod::registry;
struct std_map_fn {
    template<class K, class V>
    using fn = std::map<K, V>;
};
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define REG CAT(reg, CFG)
//                       name   rtc    hash   map    indir  defer  out    vec   handler
#if CFG == 0
struct REG : registry<sim_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::throw_error_handler, sim_output, pol::runtime_checks> {};
static Traits t{"hash+vector,rtc,throw", true, true, false, false, false, true, true, 0};
#elif CFG == 1
struct REG : registry<sim_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::throw_error_handler, sim_output> {};
static Traits t{"hash+vector,throw", false, true, false, false, false, true, true, 0};
#elif CFG == 2
struct REG : registry<sim_rtti, pol::vptr_map<>, sim_handler, sim_output, pol::runtime_checks> {};
static Traits t{"unordered_map,rtc,simhandler", true, false, true, false, false, true, false, 1};
#elif CFG == 3
struct REG : registry<sim_rtti, pol::vptr_map<std_map_fn>, pol::throw_error_handler, sim_output, pol::indirect_vptr> {};
static Traits t{"map,indirect,throw", false, false, true, true, false, true, false, 0};
#elif CFG == 4
struct REG : registry<sim_rtti, pol::vptr_vector, pol::default_error_handler, sim_output, pol::runtime_checks> {};
static Traits t{"vector,rtc,defaulthandler", true, false, false, false, false, true, true, 2};
#elif CFG == 5
struct REG : registry<sim_rtti, pol::vptr_vector, pol::throw_error_handler, sim_output, pol::indirect_vptr, pol::runtime_checks> {};
static Traits t{"vector,indirect,rtc,throw", true, false, false, true, false, true, true, 0};
#elif CFG == 6
struct REG : registry<sim_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::throw_error_handler, sim_output, pol::indirect_vptr, pol::runtime_checks> {};
static Traits t{"hash+vector,indirect,rtc,throw", true, true, false, true, false, true, true, 0};
#elif CFG == 7
struct REG : registry<sim_deferred_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::throw_error_handler, sim_output, pol::runtime_checks> {};
static Traits t{"deferred,hash+vector,rtc,throw", true, true, false, false, true, true, true, 0};
#elif CFG == 8
struct REG : registry<sim_deferred_rtti, pol::vptr_map<>, sim_handler, sim_output, pol::indirect_vptr> {};
static Traits t{"deferred,unordered_map,indirect,simhandler", false, false, true, true, true, true, false, 1};
#elif CFG == 9
struct REG : registry<sim_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::default_error_handler, pol::runtime_checks> {};
static Traits t{"hash+vector,rtc,defaulthandler,nooutput", true, true, false, false, false, false, true, 2};
#elif CFG == 10
struct REG : registry<sim_rtti, pol::vptr_map<>, pol::throw_error_handler, pol::indirect_vptr, pol::runtime_checks> {};
static Traits t{"unordered_map,indirect,rtc,throw,nooutput", true, false, true, true, false, false, false, 0};
#elif CFG == 11
struct REG : registry<sim_deferred_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::default_error_handler, sim_output, pol::indirect_vptr> {};
static Traits t{"deferred,hash+vector,indirect,defaulthandler", false, true, false, true, true, true, true, 2};
#elif CFG == 12 // the same stateful policies as 2, in another registry
struct REG : registry<sim_rtti, pol::vptr_map<>, pol::throw_error_handler, sim_output, pol::runtime_checks> {};
static Traits t{"unordered_map,rtc,throw", true, false, true, false, false, true, false, 0};
#elif CFG == 13 // ... as 3
struct REG : registry<sim_rtti, pol::vptr_map<std_map_fn>, pol::throw_error_handler, sim_output, pol::indirect_vptr, pol::runtime_checks> {};
static Traits t{"map,indirect,rtc,throw", true, false, true, true, false, true, false, 0};
#endif
Driver* CAT(get_driver_, CFG)() {
    static DriverT<REG> d(t);
    return &d;
}
} // namespace lat
