#include "alloc.hpp"
#include <cstdlib>
#include <cstring>
#include <new>

namespace sim::alloc {
namespace {
enum Kind : unsigned char { Empty, Tomb, New, NewArr, NewAl, NewArrAl };
struct Ent {
   uintptr_t p;
   size_t size;
   uint32_t align;
   Kind kind;
   bool sut;
};
constexpr size_t cap = 1u << 20;
Ent* tab = nullptr;
size_t used = 0;
thread_local bool t_sut = false;
Mode mode = Mode::Off;
uint64_t kth = 0, n_alloc = 0, n_fired = 0;
uint64_t n_live = 0, b_live = 0;
const char* err = nullptr;

size_t slot_of(uintptr_t p) {
   return static_cast<size_t>((p >> 4) * 0x9E3779B97F4A7C15ull >> 44);
}
void rehash() {
   Ent* old = tab;
   tab = static_cast<Ent*>(std::calloc(cap, sizeof(Ent)));
   used = 0;
   for(size_t i = 0; old && i < cap; ++i) {
      if(old[i].kind > Tomb) {
         size_t s = slot_of(old[i].p);
         while(tab[s].kind != Empty) {
            s = (s + 1) & (cap - 1);
         }
         tab[s] = old[i];
         ++used;
      }
   }
   std::free(old);
}
void put(void* q, size_t size, size_t align, Kind k) {
   if(!tab || used > cap * 3 / 4) {
      rehash();
   }
   auto p = reinterpret_cast<uintptr_t>(q);
   size_t s = slot_of(p);
   while(tab[s].kind > Tomb) {
      s = (s + 1) & (cap - 1);
   }
   if(tab[s].kind == Empty) {
      ++used;
   }
   tab[s] = Ent{p, size, static_cast<uint32_t>(align), k, t_sut};
   if(t_sut) {
      ++n_live;
      b_live += size;
   }
}
Ent* find(const void* q) {
   if(!tab) {
      return nullptr;
   }
   auto p = reinterpret_cast<uintptr_t>(q);
   size_t s = slot_of(p);
   while(tab[s].kind != Empty) {
      if(tab[s].kind > Tomb && tab[s].p == p) {
         return &tab[s];
      }
      s = (s + 1) & (cap - 1);
   }
   return nullptr;
}

void* do_new(size_t n, size_t al, Kind k) {
   if(t_sut) {
      ++n_alloc;
      bool f = false;
      switch(mode) {
      case Mode::Off:
         break;
      case Mode::Once:
         f = n_alloc == kth;
         break;
      case Mode::Persistent:
         f = n_alloc >= kth;
         break;
      case Mode::BySize:
         f = n >= kth;
         break;
      }
      if(n > (size_t(1) << 31)) {
         return nullptr; // the simulated machine has 2 GB per block
      }
      if(f) {
         ++n_fired;
         return nullptr;
      }
   }
   void* p = nullptr;
   if(al <= 16) {
      p = std::malloc(n ? n : 1);
   } else if(posix_memalign(&p, al, n ? n : 1) != 0) {
      p = nullptr;
   }
   if(p) {
      std::memset(p, 0xCD, n);
      put(p, n, al, k);
   }
   return p;
}
void do_del(void* p, size_t al, Kind k) {
   if(!p) {
      return;
   }
   Ent* e = find(p);
   if(!e) {
      if(!err) {
         err = "delete of a block that is not live (double or foreign delete)";
      }
      std::free(p); // lets the address sanitizer print the exact diagnosis
      return;
   }
   if(e->kind != k) {
      if(!err) {
         err = "mismatched new/delete forms";
      }
   } else if((k == NewAl || k == NewArrAl) && e->align != al) {
      if(!err) {
         err = "aligned delete with a different alignment";
      }
   }
   if(e->sut) {
      --n_live;
      b_live -= e->size;
   }
   e->kind = Tomb;
   std::free(p);
}
} // namespace

void arm(Mode m, uint64_t k) {
   mode = m;
   kth = k;
   n_alloc = 0;
   n_fired = 0;
}
void disarm() {
   mode = Mode::Off;
}
uint64_t fired() {
   return n_fired;
}
uint64_t sut_allocs() {
   return n_alloc;
}
uint64_t live_sut() {
   return n_live;
}
uint64_t live_sut_bytes() {
   return b_live;
}
bool enter_sut(bool on) {
   bool p = t_sut;
   t_sut = on;
   return p;
}
const char* take_error() {
   const char* e = err;
   err = nullptr;
   return e;
}
bool lookup(const void* p, size_t& size, size_t& align, bool& sut) {
   Ent* e = find(p);
   if(!e) {
      return false;
   }
   size = e->size;
   align = e->align;
   sut = e->sut;
   return true;
}
} // namespace sim::alloc

using namespace sim::alloc;
#define NN(expr)                 \
   void* p = (expr);             \
   if(!p) throw std::bad_alloc{}; \
   return p

void* operator new(std::size_t n) {
   NN(do_new(n, 16, New));
}
void* operator new[](std::size_t n) {
   NN(do_new(n, 16, NewArr));
}
void* operator new(std::size_t n, std::align_val_t a) {
   NN(do_new(n, static_cast<size_t>(a), NewAl));
}
void* operator new[](std::size_t n, std::align_val_t a) {
   NN(do_new(n, static_cast<size_t>(a), NewArrAl));
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept {
   return do_new(n, 16, New);
}
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept {
   return do_new(n, 16, NewArr);
}
void* operator new(std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept {
   return do_new(n, static_cast<size_t>(a), NewAl);
}
void* operator new[](std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept {
   return do_new(n, static_cast<size_t>(a), NewArrAl);
}
void operator delete(void* p) noexcept {
   do_del(p, 16, New);
}
void operator delete[](void* p) noexcept {
   do_del(p, 16, NewArr);
}
void operator delete(void* p, std::size_t) noexcept {
   do_del(p, 16, New);
}
void operator delete[](void* p, std::size_t) noexcept {
   do_del(p, 16, NewArr);
}
void operator delete(void* p, std::align_val_t a) noexcept {
   do_del(p, static_cast<size_t>(a), NewAl);
}
void operator delete[](void* p, std::align_val_t a) noexcept {
   do_del(p, static_cast<size_t>(a), NewArrAl);
}
void operator delete(void* p, std::size_t, std::align_val_t a) noexcept {
   do_del(p, static_cast<size_t>(a), NewAl);
}
void operator delete[](void* p, std::size_t, std::align_val_t a) noexcept {
   do_del(p, static_cast<size_t>(a), NewArrAl);
}
void operator delete(void* p, const std::nothrow_t&) noexcept {
   do_del(p, 16, New);
}
void operator delete[](void* p, const std::nothrow_t&) noexcept {
   do_del(p, 16, NewArr);
}
void operator delete(void* p, std::align_val_t a, const std::nothrow_t&) noexcept {
   do_del(p, static_cast<size_t>(a), NewAl);
}
void operator delete[](void* p, std::align_val_t a, const std::nothrow_t&) noexcept {
   do_del(p, static_cast<size_t>(a), NewArrAl);
}
