#include "thr.hpp"
#include "alloc.hpp"
#include "core.hpp"
#include <atomic>
#include <cstdarg>
#include <cxxabi.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <random>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

namespace sim::alloc {
void disarm() {
}
} // namespace sim::alloc

namespace sim::thr {
namespace {
typedef uint16_t Clock;
struct VC {
   Clock c[MAX]{};
   void join(const VC& o) {
      for(int i = 0; i < MAX; ++i) {
         if(o.c[i] > c[i]) {
            c[i] = o.c[i];
         }
      }
   }
};
enum State { Ready, Blocked, Done };
struct Thread {
   int id{};
   VC vc;
   State st{Done};
   const void* wait{};
   int64_t budget{};
   uint64_t events{};
   int prio{};
   bool busy{};
   uintptr_t lo{}, hi{}; // its stack
   std::atomic<int> go{0};
   pthread_t pt{};
};
Thread T[MAX];
thread_local Thread* self = nullptr;
int nthr = 0;
void (*g_body)(int, void*);
void* g_ctx;
Policy pol;
Outcome out;
uint64_t rng_s;
std::atomic<int> main_go{0};
int64_t change[16];
int nchange = 0;
uint64_t total = 0;
int logical = 0;

uint64_t rnd() {
   rng_s += 0x9E3779B97F4A7C15ull;
   return mix64(rng_s);
}
void fwait(std::atomic<int>& f) {
   while(f.exchange(0) == 0) {
      syscall(SYS_futex, &f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
   }
}
void fwake(std::atomic<int>& f) {
   f.store(1);
   syscall(SYS_futex, &f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

// ---- shadow memory ------------------------------------------------------------------------------
struct Cell {
   Clock w[MAX], r[MAX];
};
constexpr size_t PAGES = 1 << 14;
struct Page {
   uintptr_t no;
   Cell* cells;
};
Page table[PAGES];
Cell* pool = nullptr;
size_t pool_used = 0;
constexpr size_t POOL = 6000;

Page* find(uintptr_t no, bool make) {
   size_t h = (no * 0x9E3779B97F4A7C15ull) >> 50;
   for(size_t i = 0; i < PAGES; ++i, h = (h + 1) % PAGES) {
      if(table[h].no == no) {
         return &table[h];
      }
      if(!table[h].no) {
         if(!make) {
            return nullptr;
         }
         if(!pool) {
            void* m = mmap(nullptr, POOL * 4096 * sizeof(Cell), PROT_READ | PROT_WRITE,
                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if(m == MAP_FAILED) {
               _exit(97);
            }
            pool = static_cast<Cell*>(m);
         }
         if(pool_used >= POOL) {
            _exit(96);
         }
         table[h].no = no;
         table[h].cells = pool + 4096 * pool_used++;
         return &table[h];
      }
   }
   _exit(95);
}
uintptr_t last_no = 0;
Cell* last_cells = nullptr;
Cell* cell(uintptr_t a) {
   uintptr_t no = a >> 12;
   if(no != last_no) {
      last_no = no;
      last_cells = find(no, true)->cells;
   }
   return last_cells + (a & 4095);
}
void clear(uintptr_t a, size_t n) {
   while(n) {
      size_t k = 4096 - (a & 4095);
      k = k < n ? k : n;
      if(Page* p = find(a >> 12, false)) {
         memset(p->cells + (a & 4095), 0, k * sizeof(Cell));
      }
      a += k;
      n -= k;
   }
}
struct Range {
   uintptr_t lo, hi;
} exempts[16];
int nexempt = 0;

void symbol(char* b, size_t n, const void* p) {
   Dl_info d;
   if(dladdr(p, &d) && d.dli_sname) {
      int st;
      char* dem = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
      snprintf(b, n, "%.200s", dem ? dem : d.dli_sname);
      free(dem);
   } else {
      snprintf(b, n, "?");
   }
}
void race(uintptr_t a, size_t n, bool w, int other, bool ow, const void* pc) {
   if(out.race) {
      return;
   }
   out.race = true;
   char f[210], v[210];
   symbol(f, sizeof f, pc);
   symbol(v, sizeof v, reinterpret_cast<void*>(a));
   snprintf(out.msg, sizeof out.msg, "data race: thread %d %s %zu bytes of %s in %s, unordered with a %s by thread %d",
            self->id, w ? "writes" : "reads", n, v[0] == '?' ? "memory" : v, f, ow ? "write" : "read", other);
}
void record(uintptr_t a, size_t n, bool w, const void* pc) {
   Thread& t = *self;
   for(size_t i = 0; i < n; ++i) {
      Cell* c = cell(a + i);
      for(int u = 0; u < nthr; ++u) {
         if(u == t.id) {
            continue;
         }
         if(c->w[u] > t.vc.c[u]) {
            race(a, n, w, u, true, pc);
         } else if(w && c->r[u] > t.vc.c[u]) {
            race(a, n, w, u, false, pc);
         }
      }
      (w ? c->w : c->r)[t.id] = t.vc.c[t.id];
   }
}

// ---- scheduler -----------------------------------------------------------------------------------
void pick_budget(Thread& t) {
   if(pol.mode == 2) {
      t.budget = 1;
   } else {
      // geometric with the given mean
      uint64_t u = rnd();
      double x = static_cast<double>((u >> 11) + 1) / 9007199254740993.0;
      t.budget = 1 + static_cast<int64_t>(-__builtin_log(x) * static_cast<double>(pol.mean));
   }
}
int choose(int cur) {
   int ready[MAX], n = 0;
   for(int i = 0; i < nthr; ++i) {
      if(T[i].st == Ready) {
         ready[n++] = i;
      }
   }
   if(n == 0) {
      return -1;
   }
   if(pol.mode == 1) {
      int b = ready[0];
      for(int i = 1; i < n; ++i) {
         if(T[ready[i]].prio > T[b].prio) {
            b = ready[i];
         }
      }
      return b;
   }
   if(n > 1 && cur >= 0 && T[cur].st == Ready) {
      int k = static_cast<int>(rnd() % static_cast<uint64_t>(n - 1));
      for(int i = 0, j = 0; i < n; ++i) {
         if(ready[i] != cur && j++ == k) {
            return ready[i];
         }
      }
   }
   return ready[rnd() % static_cast<uint64_t>(n)];
}
// The current thread gives up the processor (st says why); returns when it is scheduled again.
void yield_from(Thread& t) {
   int nx = choose(t.id);
   if(nx < 0) {
      // Nobody can run.
      bool done = true;
      for(int i = 0; i < nthr; ++i) {
         done = done && T[i].st == Done;
      }
      if(!done) {
         out.deadlock = true;
         snprintf(out.msg, sizeof out.msg, "deadlock: every unfinished thread waits for a lock");
      }
      fwake(main_go);
      if(t.st != Done) {
         for(;;) {
            pause();
         }
      }
      return;
   }
   pick_budget(T[nx]);
   if(nx == t.id) {
      return;
   }
   ++out.switches;
   out.schedule = mix2(out.schedule, mix2(t.events * 8 + static_cast<uint64_t>(t.id), static_cast<uint64_t>(nx)));
   fwake(T[nx].go);
   if(t.st != Done) {
      fwait(t.go);
   }
}
void event(Thread& t) {
   ++t.events;
   ++total;
   if(pol.mode == 1) {
      for(int i = 0; i < nchange; ++i) {
         if(change[i] == static_cast<int64_t>(total)) {
            t.prio = i - 16;
            yield_from(t);
            return;
         }
      }
   } else if(--t.budget <= 0) {
      yield_from(t);
   }
}
void access(uintptr_t a, size_t n, bool w, const void* pc) {
   Thread* t = self;
   if(!t || t->busy) {
      return;
   }
   if(a >= t->lo && a < t->hi) {
      return;
   }
   t->busy = true;
   event(*t);
   bool ex = false;
   for(int i = 0; i < nexempt; ++i) {
      ex = ex || (a >= exempts[i].lo && a < exempts[i].hi);
   }
   if(!ex) {
      record(a, n, w, pc);
   }
   t->busy = false;
}

// ---- synchronisation -----------------------------------------------------------------------------
struct Sync {
   const void* a;
   VC vc;
   int owner, count, readers;
};
Sync syncs[4096];
Sync& sync_of(const void* a) {
   size_t h = (reinterpret_cast<uintptr_t>(a) * 0x9E3779B97F4A7C15ull) >> 52;
   for(size_t i = 0; i < 4096; ++i, h = (h + 1) % 4096) {
      if(syncs[h].a == a) {
         return syncs[h];
      }
      if(!syncs[h].a) {
         syncs[h].a = a;
         syncs[h].owner = -1;
         return syncs[h];
      }
   }
   _exit(94);
}
void acquire(Thread& t, Sync& s) {
   t.vc.join(s.vc);
}
void release(Thread& t, Sync& s) {
   s.vc.join(t.vc);
   ++t.vc.c[t.id];
}
void block_on(Thread& t, const void* a) {
   ++out.blocked;
   t.st = Blocked;
   t.wait = a;
   yield_from(t);
}
void wake(const void* a, int n) {
   for(int i = 0; i < nthr && n; ++i) {
      if(T[i].st == Blocked && T[i].wait == a) {
         T[i].st = Ready;
         --n;
      }
   }
}
struct Busy {
   Thread* t;
   Busy() : t{self && !self->busy ? self : nullptr} {
      if(t) {
         t->busy = true;
      }
   }
   ~Busy() {
      if(t) {
         t->busy = false;
      }
   }
};
int lock(void* m, bool tryit, bool recursive) {
   Busy b;
   if(!b.t) {
      return 0;
   }
   event(*b.t);
   Sync& s = sync_of(m);
   if(s.owner == b.t->id && (recursive || tryit)) {
      if(!recursive) {
         return 16; // EBUSY
      }
      ++s.count;
      return 0;
   }
   while(s.owner >= 0 || s.readers > 0) {
      if(tryit) {
         return 16;
      }
      block_on(*b.t, m);
   }
   s.owner = b.t->id;
   s.count = 1;
   acquire(*b.t, s);
   return 0;
}
int unlock(void* m) {
   Busy b;
   if(!b.t) {
      return 0;
   }
   Sync& s = sync_of(m);
   if(s.owner == b.t->id) {
      if(--s.count > 0) {
         return 0;
      }
      s.owner = -1;
   } else if(s.readers > 0) {
      --s.readers;
   }
   release(*b.t, s);
   wake(m, MAX);
   event(*b.t);
   return 0;
}

// ---- logical threads -----------------------------------------------------------------------------
struct Logical {
   int64_t k;
   bool persistent, fired;
   uint64_t since, draws;
} L[MAX];

bool alloc_fails() {
   Thread* t = self;
   if(t && t->busy) {
      return false;
   }
   Logical& l = L[current()];
   if(l.k <= 0) {
      return false;
   }
   ++l.since;
   if(l.since == static_cast<uint64_t>(l.k) || (l.persistent && l.since > static_cast<uint64_t>(l.k))) {
      l.fired = true;
      return true;
   }
   return false;
}
void* get(size_t n, size_t al) {
   if(alloc_fails()) {
      return nullptr;
   }
   void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
   if(p && self) {
      Busy b;
      clear(reinterpret_cast<uintptr_t>(p), malloc_usable_size(p));
      if(b.t) {
         event(*b.t);
      }
   }
   return p;
}
void put(void* p, const void* pc) {
   if(!p) {
      return;
   }
   if(self) {
      Busy b;
      if(b.t) {
         event(*b.t);
         record(reinterpret_cast<uintptr_t>(p), malloc_usable_size(p), true, pc);
      }
   }
   free(p);
}

void* worker(void* arg) {
   Thread* t = static_cast<Thread*>(arg);
   pthread_attr_t at;
   pthread_getattr_np(pthread_self(), &at);
   void* base;
   size_t size;
   pthread_attr_getstack(&at, &base, &size);
   pthread_attr_destroy(&at);
   t->lo = reinterpret_cast<uintptr_t>(base);
   t->hi = t->lo + size;
   fwait(t->go);
   self = t;
   try {
      g_body(t->id, g_ctx);
   } catch(...) {
      out.escaped = true;
   }
   self = nullptr;
   t->st = Done;
   yield_from(*t);
   return nullptr;
}
} // namespace

bool inside() {
   return self != nullptr;
}
int current() {
   return self ? self->id : logical;
}
void serial(int id) {
   logical = id;
}
void point() {
   Busy b;
   if(b.t) {
      event(*b.t);
   }
}
void exempt(const void* p, size_t n) {
   uintptr_t a = reinterpret_cast<uintptr_t>(p);
   exempts[nexempt++] = {a, a + n};
}
void fail_at(int64_t k, bool persistent) {
   Logical& l = L[current()];
   l.k = k;
   l.persistent = persistent;
   l.since = 0;
   l.fired = false;
}
bool failed() {
   return L[current()].fired;
}
unsigned entropy() {
   Logical& l = L[current()];
   ++l.draws;
   return static_cast<unsigned>(mix2(static_cast<uint64_t>(current()) + 1, l.draws));
}
void start_logical() {
   for(auto& l : L) {
      l = Logical{};
   }
}

Outcome run(int n, void (*body)(int, void*), void* ctx, const Policy& p) {
   nthr = n;
   g_body = body;
   g_ctx = ctx;
   pol = p;
   out = Outcome{};
   rng_s = mix64(p.seed);
   nchange = p.mode == 1 ? (p.depth < 16 ? p.depth : 16) : 0;
   for(int i = 0; i < nchange; ++i) {
      change[i] = 1 + static_cast<int64_t>(rnd() % static_cast<uint64_t>(p.horizon));
   }
   for(int i = 0; i < n; ++i) {
      T[i].id = i;
      T[i].vc.c[i] = 1;
      T[i].st = Ready;
      T[i].prio = static_cast<int>(rnd() % 1000);
      if(pthread_create(&T[i].pt, nullptr, worker, &T[i])) {
         _exit(93);
      }
   }
   int first = choose(-1);
   pick_budget(T[first]);
   out.schedule = static_cast<uint64_t>(first);
   fwake(T[first].go);
   fwait(main_go);
   out.events = total;
   if(!out.deadlock) {
      for(int i = 0; i < n; ++i) {
         pthread_join(T[i].pt, nullptr);
      }
   }
   return out;
}
} // namespace sim::thr

using namespace sim::thr;

// ---- allocation ----------------------------------------------------------------------------------
#define PC __builtin_return_address(0)
void* operator new(size_t n) {
   void* p = get(n, 0);
   if(!p) {
      throw std::bad_alloc{};
   }
   return p;
}
void* operator new[](size_t n) {
   void* p = get(n, 0);
   if(!p) {
      throw std::bad_alloc{};
   }
   return p;
}
void* operator new(size_t n, std::align_val_t a) {
   void* p = get(n, static_cast<size_t>(a));
   if(!p) {
      throw std::bad_alloc{};
   }
   return p;
}
void* operator new[](size_t n, std::align_val_t a) {
   return operator new(n, a);
}
void* operator new(size_t n, const std::nothrow_t&) noexcept {
   return get(n, 0);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept {
   return get(n, 0);
}
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept {
   return get(n, static_cast<size_t>(a));
}
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept {
   return get(n, static_cast<size_t>(a));
}
void operator delete(void* p) noexcept {
   put(p, PC);
}
void operator delete[](void* p) noexcept {
   put(p, PC);
}
void operator delete(void* p, size_t) noexcept {
   put(p, PC);
}
void operator delete[](void* p, size_t) noexcept {
   put(p, PC);
}
void operator delete(void* p, std::align_val_t) noexcept {
   put(p, PC);
}
void operator delete[](void* p, std::align_val_t) noexcept {
   put(p, PC);
}
void operator delete(void* p, size_t, std::align_val_t) noexcept {
   put(p, PC);
}
void operator delete[](void* p, size_t, std::align_val_t) noexcept {
   put(p, PC);
}
void operator delete(void* p, const std::nothrow_t&) noexcept {
   put(p, PC);
}
void operator delete[](void* p, const std::nothrow_t&) noexcept {
   put(p, PC);
}

namespace std {
void random_device::_M_init(const std::string&) {
}
void random_device::_M_init_pretr1(const std::string&) {
}
void random_device::_M_fini() {
}
random_device::result_type random_device::_M_getval() {
   return sim::thr::entropy();
}
random_device::result_type random_device::_M_getval_pretr1() {
   return sim::thr::entropy();
}
double random_device::_M_getentropy() const noexcept {
   return 32;
}
} // namespace std

// ---- compiler instrumentation --------------------------------------------------------------------
#define ADDR(p) reinterpret_cast<uintptr_t>(p)
extern "C" {
void __tsan_init() {
}
void __tsan_func_entry(void*) {
}
void __tsan_func_exit() {
}
void __tsan_ignore_thread_begin() {
}
void __tsan_ignore_thread_end() {
}
#define RW(n)                                   \
   void __tsan_read##n(void* p) {               \
      access(ADDR(p), n, false, PC);            \
   }                                            \
   void __tsan_write##n(void* p) {              \
      access(ADDR(p), n, true, PC);             \
   }                                            \
   void __tsan_unaligned_read##n(void* p) {     \
      access(ADDR(p), n, false, PC);            \
   }                                            \
   void __tsan_unaligned_write##n(void* p) {    \
      access(ADDR(p), n, true, PC);             \
   }                                            \
   void __tsan_read_write##n(void* p) {         \
      access(ADDR(p), n, false, PC);            \
      access(ADDR(p), n, true, PC);             \
   }                                            \
   void __tsan_unaligned_read_write##n(void* p) { \
      access(ADDR(p), n, false, PC);            \
      access(ADDR(p), n, true, PC);             \
   }                                            \
   void __tsan_volatile_read##n(void* p) {      \
      access(ADDR(p), n, false, PC);            \
   }                                            \
   void __tsan_volatile_write##n(void* p) {     \
      access(ADDR(p), n, true, PC);             \
   }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) {
   access(ADDR(p), 8, true, PC);
}
void __tsan_vptr_read(void** p) {
   access(ADDR(p), 8, false, PC);
}
void __tsan_read_range(void* p, unsigned long n) {
   access(ADDR(p), n, false, PC);
}
void __tsan_write_range(void* p, unsigned long n) {
   access(ADDR(p), n, true, PC);
}
void* __tsan_memcpy(void* d, const void* s, size_t n) {
   if(n) {
      access(ADDR(s), n, false, PC);
      access(ADDR(d), n, true, PC);
   }
   return memmove(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
   if(n) {
      access(ADDR(s), n, false, PC);
      access(ADDR(d), n, true, PC);
   }
   return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
   if(n) {
      access(ADDR(d), n, true, PC);
   }
   return memset(d, c, n);
}

#define ACQ(mo) ((mo) == __ATOMIC_ACQUIRE || (mo) == __ATOMIC_CONSUME || (mo) == __ATOMIC_ACQ_REL || (mo) == __ATOMIC_SEQ_CST)
#define REL(mo) ((mo) == __ATOMIC_RELEASE || (mo) == __ATOMIC_ACQ_REL || (mo) == __ATOMIC_SEQ_CST)
}
namespace {
void atom(const volatile void* p, int mo, bool rd, bool wr) {
   Busy b;
   if(!b.t) {
      return;
   }
   event(*b.t);
   Sync& s = sync_of(const_cast<const void*>(p));
   if(rd && ACQ(mo)) {
      acquire(*b.t, s);
   }
   if(wr && REL(mo)) {
      if(!rd) {
         s.vc = VC{};
      }
      release(*b.t, s);
   } else if(wr && !rd) {
      s.vc = VC{};
   }
}
} // namespace
extern "C" {
#define ATOMICS(bits, ty)                                                                          \
   ty __tsan_atomic##bits##_load(const volatile ty* p, int mo) {                                   \
      atom(p, mo, true, false);                                                                    \
      return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                 \
   }                                                                                               \
   void __tsan_atomic##bits##_store(volatile ty* p, ty v, int mo) {                                \
      atom(p, mo, false, true);                                                                    \
      __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                    \
   }                                                                                               \
   ty __tsan_atomic##bits##_exchange(volatile ty* p, ty v, int mo) {                               \
      atom(p, mo, true, true);                                                                     \
      return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                          \
   }                                                                                               \
   ty __tsan_atomic##bits##_fetch_add(volatile ty* p, ty v, int mo) {                              \
      atom(p, mo, true, true);                                                                     \
      return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                           \
   }                                                                                               \
   ty __tsan_atomic##bits##_fetch_sub(volatile ty* p, ty v, int mo) {                              \
      atom(p, mo, true, true);                                                                     \
      return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                           \
   }                                                                                               \
   ty __tsan_atomic##bits##_fetch_and(volatile ty* p, ty v, int mo) {                              \
      atom(p, mo, true, true);                                                                     \
      return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                           \
   }                                                                                               \
   ty __tsan_atomic##bits##_fetch_or(volatile ty* p, ty v, int mo) {                               \
      atom(p, mo, true, true);                                                                     \
      return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                            \
   }                                                                                               \
   ty __tsan_atomic##bits##_fetch_xor(volatile ty* p, ty v, int mo) {                              \
      atom(p, mo, true, true);                                                                     \
      return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                           \
   }                                                                                               \
   int __tsan_atomic##bits##_compare_exchange_strong(volatile ty* p, ty* e, ty v, int mo, int) {   \
      atom(p, mo, true, true);                                                                     \
      return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);      \
   }                                                                                               \
   int __tsan_atomic##bits##_compare_exchange_weak(volatile ty* p, ty* e, ty v, int mo, int) {     \
      atom(p, mo, true, true);                                                                     \
      return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);      \
   }                                                                                               \
   ty __tsan_atomic##bits##_compare_exchange_val(volatile ty* p, ty e, ty v, int mo, int) {        \
      atom(p, mo, true, true);                                                                     \
      __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);            \
      return e;                                                                                    \
   }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned)
ATOMICS(64, unsigned long)
void __tsan_atomic_thread_fence(int) {
}
void __tsan_atomic_signal_fence(int) {
}

// ---- guards of function-local statics ------------------------------------------------------------
int __cxa_guard_acquire(char* g) {
   Busy b;
   if(!b.t) {
      return *g == 0;
   }
   event(*b.t);
   Sync& s = sync_of(g);
   for(;;) {
      if(*g) {
         acquire(*b.t, s);
         return 0;
      }
      if(s.owner < 0) {
         s.owner = b.t->id;
         return 1;
      }
      block_on(*b.t, g);
   }
}
void __cxa_guard_release(char* g) {
   *g = 1;
   Busy b;
   if(b.t) {
      Sync& s = sync_of(g);
      s.owner = -1;
      release(*b.t, s);
      wake(g, MAX);
      event(*b.t);
   }
}
void __cxa_guard_abort(char* g) {
   Busy b;
   if(b.t) {
      Sync& s = sync_of(g);
      s.owner = -1;
      release(*b.t, s);
      wake(g, MAX);
   }
}

// ---- locks ---------------------------------------------------------------------------------------
int pthread_mutex_lock(pthread_mutex_t* m) {
   return lock(m, false, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
   return lock(m, true, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
   return unlock(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
   return lock(m, false, false);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
   return unlock(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
   Busy b;
   if(!b.t) {
      return 0;
   }
   event(*b.t);
   Sync& s = sync_of(m);
   while(s.owner >= 0) {
      block_on(*b.t, m);
   }
   ++s.readers;
   acquire(*b.t, s);
   return 0;
}
int pthread_once(pthread_once_t* o, void (*f)(void)) {
   char* g = reinterpret_cast<char*>(o);
   if(__cxa_guard_acquire(g)) {
      f();
      __cxa_guard_release(g);
   }
   return 0;
}
int pthread_spin_lock(pthread_spinlock_t* m) {
   return lock(const_cast<int*>(m), false, false);
}
int pthread_spin_unlock(pthread_spinlock_t* m) {
   return unlock(const_cast<int*>(m));
}
int sched_yield() {
   point();
   return 0;
}

// ---- library functions that are not instrumented --------------------------------------------------
// Calls from the program itself count as accesses; calls from inside the C++ library do not.
extern char __executable_start, etext;
}
namespace {
void outside(const void* a, size_t n, bool w, const void* pc) {
   if(self && n && pc >= &__executable_start && pc < &etext) {
      access(ADDR(a), n, w, pc);
   }
}
typedef int (*Vsn)(char*, size_t, const char*, va_list);
Vsn real_vsnprintf = reinterpret_cast<Vsn>(dlsym(RTLD_NEXT, "vsnprintf"));
int print(char* b, size_t n, const char* f, va_list ap, const void* pc) {
   if(!real_vsnprintf) {
      real_vsnprintf = reinterpret_cast<Vsn>(dlsym(RTLD_NEXT, "vsnprintf"));
   }
   int k = real_vsnprintf(b, n, f, ap);
   if(n && k >= 0) {
      outside(b, static_cast<size_t>(k) < n ? static_cast<size_t>(k) + 1 : n, true, pc);
   }
   return k;
}
} // namespace
void sim::thr::wrote(const void* p, size_t n) {
   access(ADDR(p), n, true, PC);
}
extern "C" {
// Fresh memory carries no history, whoever used it before.
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
static void* fresh(void* p) {
   if(p && self && !self->busy) {
      self->busy = true;
      clear(ADDR(p), malloc_usable_size(p));
      self->busy = false;
   }
   return p;
}
void* malloc(size_t n) {
   return fresh(__libc_malloc(n));
}
void* calloc(size_t n, size_t k) {
   return fresh(__libc_calloc(n, k));
}
void* realloc(void* p, size_t n) {
   return fresh(__libc_realloc(p, n));
}
void* aligned_alloc(size_t a, size_t n) {
   return fresh(__libc_memalign(a, n));
}
void* memalign(size_t a, size_t n) {
   return fresh(__libc_memalign(a, n));
}
int posix_memalign(void** p, size_t a, size_t n) {
   *p = fresh(__libc_memalign(a, n));
   return *p ? 0 : 12;
}
size_t strlen(const char* s) {
   size_t n = 0;
   while(reinterpret_cast<const volatile char*>(s)[n]) {
      ++n;
   }
   outside(s, n + 1, false, PC);
   return n;
}
void* memcpy(void* d, const void* s, size_t n) {
   outside(s, n, false, PC);
   outside(d, n, true, PC);
   void* r = d;
   asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
   return r;
}
void* memmove(void* d, const void* s, size_t n) {
   outside(s, n, false, PC);
   outside(d, n, true, PC);
   void* r = d;
   if(ADDR(d) <= ADDR(s) || ADDR(d) >= ADDR(s) + n) {
      asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
   } else {
      char* x = static_cast<char*>(d) + n - 1;
      const char* y = static_cast<const char*>(s) + n - 1;
      asm volatile("std\n\trep movsb\n\tcld" : "+D"(x), "+S"(y), "+c"(n) : : "memory");
   }
   return r;
}
void* memset(void* d, int c, size_t n) {
   outside(d, n, true, PC);
   void* r = d;
   asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
   return r;
}
int vsnprintf(char* b, size_t n, const char* f, va_list ap) {
   return print(b, n, f, ap, PC);
}
int snprintf(char* b, size_t n, const char* f, ...) {
   va_list ap;
   va_start(ap, f);
   int k = print(b, n, f, ap, PC);
   va_end(ap);
   return k;
}
int sprintf(char* b, const char* f, ...) {
   va_list ap;
   va_start(ap, f);
   int k = print(b, 1 << 20, f, ap, PC);
   va_end(ap);
   return k;
}
}
