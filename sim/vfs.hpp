// Storage seam: the libc calls below std::fstream are interposed. Paths under the scratch directory
// (a per-process directory on tmpfs) are the simulated disk; all other files pass through.
#pragma once
#include <cstdint>
#include <string>

namespace sim::vfs {

struct Faults {
   int64_t chunk = 0;      // >0: every transfer moves at most this many bytes
   uint64_t chunk_seed = 0; // varies the limit per call when non-zero
   int64_t intr = 0;       // k: the k-th and every 2k-th transfer is interrupted (EINTR) first
   int64_t err_at = -1;    // byte position at which transfers fail
   int err_no = 0;         // with this errno
   bool err_once = false;  // only the first such transfer fails
   int open_errno = 0;
   int close_errno = 0;
};

std::string path(const std::string& name); // inside the scratch directory, created on first use
void put(const std::string& p, const std::string& content);
bool get(const std::string& p, std::string& content);
void remove(const std::string& p);

void arm(const Faults& f);
void disarm();
struct Armed {
   explicit Armed(const Faults& f) {
      arm(f);
   }
   ~Armed() {
      disarm();
   }
   Armed(const Armed&) = delete;
   Armed& operator=(const Armed&) = delete;
};
bool hard_fired(); // an error was delivered to the code under test since arm()
uint64_t calls();
int open_files();

} // namespace sim::vfs
