// Allocator seam: every global operator new/delete of the process goes through here.
// Inside a Sut scope an allocation may be made to fail; all allocations are tracked by kind,
// size and alignment so that leaks and mismatched or foreign deletes are seen at once.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim::alloc {

enum class Mode { Off, Once, Persistent, BySize };

void arm(Mode m, uint64_t k); // k-th SUT allocation from now (1-based), or size threshold
void disarm();
uint64_t fired();             // faults fired since arm()
uint64_t sut_allocs();        // SUT allocation attempts since arm()
uint64_t live_sut();          // live blocks allocated inside a Sut scope
uint64_t live_sut_bytes();
bool enter_sut(bool on);      // returns previous value

struct Sut {
   bool prev;
   Sut() : prev{enter_sut(true)} {
   }
   ~Sut() {
      enter_sut(prev);
   }
   Sut(const Sut&) = delete;
   Sut& operator=(const Sut&) = delete;
};
// Opposite: harness code called back from within library code (operand generators, streambufs).
struct Host {
   bool prev;
   Host() : prev{enter_sut(false)} {
   }
   ~Host() {
      enter_sut(prev);
   }
   Host(const Host&) = delete;
   Host& operator=(const Host&) = delete;
};

// First memory-discipline error seen (nullptr if none); cleared by the call.
const char* take_error();
// Tracked block containing p at its start: true and fields if known.
bool lookup(const void* p, size_t& size, size_t& align, bool& sut);

} // namespace sim::alloc
