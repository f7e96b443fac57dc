#ifndef P36_SHIM_HPP
#define P36_SHIM_HPP
#include <stdint.h>
namespace shim { struct Stats { long teams, chunks, switches, max_team; }; void config(int threads, uint64_t seed); Stats stats(); bool active(); }
#endif
