// Memory: which blocks the library holds, and allocations that fail inside it.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim {

extern bool inLibrary;                       // the library is running (not the simulated kernel, not the application)
struct In { bool was = inLibrary; In() { inLibrary = true; } ~In() { inLibrary = was; } };
struct Out { bool was = inLibrary; Out() { inLibrary = false; } ~Out() { inLibrary = was; } };

struct Holding { uint64_t blocks = 0, bytes = 0; };
Holding libraryHolds();                         // blocks allocated by the library and not freed
extern bool (*allocFails)(size_t);           // asked at each allocation of the library

}  // namespace sim
