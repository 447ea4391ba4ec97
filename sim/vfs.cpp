#include "vfs.hpp"
#include "core.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim::vfs {
namespace {
constexpr int max_fd = 1024;
bool tracked[max_fd];
int64_t pos_of[max_fd];
std::string* dir = nullptr;
Faults flt;
bool armed = false;
bool fired_hard = false;
uint64_t n_calls = 0;
uint64_t n_xfer = 0;
int n_open = 0;

const std::string& scratch() {
   if(!dir) {
      const char* base = getenv("SIM_SCRATCH");
      std::string t = std::string(base ? base : "/tmp") + "/simfs-XXXXXX";
      if(!mkdtemp(t.data())) {
         fprintf(stderr, "cannot create a scratch directory\n");
         _exit(3);
      }
      dir = new std::string(t);
      atexit([] {
         for(int i = 0; i < 4; ++i) {
            ::unlink((*dir + "/f" + std::to_string(i)).c_str());
         }
         ::rmdir(dir->c_str());
      });
   }
   return *dir;
}
bool ours(const char* p) {
   return dir && p && strncmp(p, dir->c_str(), dir->size()) == 0;
}
// Decides one transfer of want bytes: returns -1 with errno set, or the number of bytes allowed.
int64_t decide(int fd, int64_t want) {
   ++n_calls;
   ++n_xfer;
   if(!armed || want == 0) {
      return want;
   }
   if(flt.intr > 0 && (n_xfer == static_cast<uint64_t>(flt.intr) || n_xfer % (2 * flt.intr) == 0)) {
      SIM_COUNT("fault.eintr");
      errno = EINTR;
      return -1;
   }
   if(flt.err_at >= 0 && pos_of[fd] >= flt.err_at) {
      if(!(flt.err_once && fired_hard)) {
         fired_hard = true;
         if(flt.err_no == ENOSPC) {
            SIM_COUNT("fault.enospc");
         } else {
            SIM_COUNT("fault.io_error");
         }
         errno = flt.err_no;
         return -1;
      }
   } else if(flt.err_at >= 0 && pos_of[fd] + want > flt.err_at) {
      want = flt.err_at - pos_of[fd];
   }
   if(flt.chunk > 0) {
      int64_t c = flt.chunk;
      if(flt.chunk_seed) {
         c = 1 + static_cast<int64_t>(mix2(flt.chunk_seed, n_xfer) % static_cast<uint64_t>(flt.chunk));
      }
      if(want > c) {
         SIM_COUNT("fault.short_io");
         want = c;
      }
   }
   return want;
}
bool is_ours(int fd) {
   return fd >= 0 && fd < max_fd && tracked[fd];
}
void track(int fd) {
   if(fd >= 0 && fd < max_fd) {
      tracked[fd] = true;
      pos_of[fd] = 0;
      ++n_open;
   }
}
template <class F>
F real(const char* n) {
   return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
} // namespace

std::string path(const std::string& name) {
   return scratch() + "/" + name;
}
void put(const std::string& p, const std::string& content) {
   int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644));
   if(fd < 0) {
      fprintf(stderr, "cannot write %s\n", p.c_str());
      _exit(3);
   }
   size_t o = 0;
   while(o < content.size()) {
      long w = syscall(SYS_write, fd, content.data() + o, content.size() - o);
      if(w <= 0) {
         _exit(3);
      }
      o += static_cast<size_t>(w);
   }
   syscall(SYS_close, fd);
}
bool get(const std::string& p, std::string& content) {
   content.clear();
   int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY, 0));
   if(fd < 0) {
      return false;
   }
   char b[4096];
   long r;
   while((r = syscall(SYS_read, fd, b, sizeof b)) > 0) {
      content.append(b, static_cast<size_t>(r));
   }
   syscall(SYS_close, fd);
   return true;
}
void remove(const std::string& p) {
   ::unlink(p.c_str());
}
void arm(const Faults& f) {
   flt = f;
   armed = true;
   fired_hard = false;
   n_calls = 0;
   n_xfer = 0;
}
void disarm() {
   armed = false;
}
bool hard_fired() {
   return fired_hard;
}
uint64_t calls() {
   return n_calls;
}
int open_files() {
   return n_open;
}

static bool refuse_open() {
   ++n_calls;
   if(armed && flt.open_errno) {
      SIM_COUNT("fault.open_error");
      fired_hard = true;
      errno = flt.open_errno;
      return true;
   }
   return false;
}
static FILE* open_stream(const char* p, const char* mode, const char* sym) {
   static auto f = real<FILE* (*)(const char*, const char*)>("fopen");
   (void)sym;
   if(!ours(p)) {
      return f(p, mode);
   }
   if(refuse_open()) {
      return nullptr;
   }
   FILE* r = f(p, mode);
   if(r) {
      track(fileno(r));
   }
   return r;
}
} // namespace sim::vfs

using namespace sim::vfs;
extern "C" {
FILE* fopen(const char* p, const char* mode) {
   return open_stream(p, mode, "fopen");
}
FILE* fopen64(const char* p, const char* mode) {
   return open_stream(p, mode, "fopen64");
}
int fclose(FILE* f) {
   static auto r = real<int (*)(FILE*)>("fclose");
   int fd = f ? fileno(f) : -1;
   bool o = is_ours(fd);
   if(o) {
      tracked[fd] = false;
      --n_open;
   }
   int rc = r(f);
   if(o) {
      ++n_calls;
      if(armed && flt.close_errno) {
         SIM_COUNT("fault.close_error");
         fired_hard = true;
         errno = flt.close_errno;
         return EOF;
      }
   }
   return rc;
}
ssize_t read(int fd, void* b, size_t n) {
   if(is_ours(fd)) {
      int64_t k = decide(fd, static_cast<int64_t>(n));
      if(k < 0) {
         return -1;
      }
      n = static_cast<size_t>(k);
   }
   long r = syscall(SYS_read, fd, b, n);
   if(r > 0 && is_ours(fd)) {
      pos_of[fd] += r;
   }
   return r;
}
ssize_t write(int fd, const void* b, size_t n) {
   if(is_ours(fd)) {
      int64_t k = decide(fd, static_cast<int64_t>(n));
      if(k < 0) {
         return -1;
      }
      n = static_cast<size_t>(k);
   }
   long r = syscall(SYS_write, fd, b, n);
   if(r > 0 && is_ours(fd)) {
      pos_of[fd] += r;
   }
   return r;
}
ssize_t writev(int fd, const iovec* v, int c) {
   if(!is_ours(fd)) {
      return syscall(SYS_writev, fd, v, c);
   }
   size_t total = 0;
   for(int i = 0; i < c; ++i) {
      total += v[i].iov_len;
   }
   int64_t k = decide(fd, static_cast<int64_t>(total));
   if(k < 0) {
      return -1;
   }
   int64_t left = k, done = 0;
   for(int i = 0; i < c && left > 0; ++i) {
      int64_t n = static_cast<int64_t>(v[i].iov_len);
      if(n > left) {
         n = left;
      }
      int64_t o = 0;
      while(o < n) {
         long w = syscall(SYS_write, fd, static_cast<const char*>(v[i].iov_base) + o, n - o);
         if(w <= 0) {
            return done ? done : -1;
         }
         o += w;
         done += w;
         pos_of[fd] += w;
      }
      left -= n;
   }
   return done;
}
}
