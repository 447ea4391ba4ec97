#include "core.hpp"
#include "alloc.hpp"
#include <algorithm>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>

namespace sim {

namespace {
uint64_t g_log = 0;
bool g_verbose = false;
Counter* g_counters = nullptr;
std::map<std::string, uint64_t>* g_named = nullptr;
std::unordered_set<uint64_t>* g_states = nullptr;
uint64_t g_state_overflow = 0;
uint64_t g_cases = 0;
uint64_t g_sim_ns = 0;
volatile uint64_t* g_status = nullptr; // [0]=run index+1, [1]=step+1, [2]=runs done
constexpr size_t max_states = 150000;

double now_s() {
   timespec ts;
   // Raw system call: the harness may interpose the C++ clocks, never this one.
   syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
   return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

void on_hang(int) {
   const char m[] = "SIM-HANG: run exceeded its CPU-time bound\n";
   (void)!::write(2, m, sizeof(m) - 1);
   _exit(11);
}

void arm_watchdog(int seconds) {
   itimerval it{};
   it.it_value.tv_sec = seconds;
   setitimer(ITIMER_PROF, &it, nullptr);
}
} // namespace

Counter::Counter(const char* n) : name{n}, next{g_counters} {
   g_counters = this;
}
void count_named(const std::string& name, uint64_t n) {
   (*g_named)[name] += n;
}
[[noreturn]] void fail(const std::string& cls, const std::string& msg) {
   throw Violation{cls, msg};
}
void log_u64(uint64_t x) {
   g_log = mix2(g_log, x);
   if(g_verbose) {
      fprintf(stderr, "  ev %016llx\n", static_cast<unsigned long long>(x));
   }
}
void log_str(const std::string& s) {
   g_log = mix2(g_log, hash_bytes(s.data(), s.size()));
   if(g_verbose) {
      fprintf(stderr, "  ev %s\n", s.c_str());
   }
}
void note(const std::string& s) {
   if(g_verbose) {
      fprintf(stderr, "  -- %s\n", s.c_str());
   }
}
bool verbose() {
   return g_verbose;
}
void state(uint64_t h) {
   ++g_cases;
   if(!g_states) {
      return;
   }
   if(g_states->size() < max_states) {
      g_states->insert(h);
   } else {
      ++g_state_overflow;
   }
}
void nontrivial_step() {
   ++g_cases;
}
void sim_time_ns(uint64_t d) {
   g_sim_ns += d;
}
void set_step(int i) {
   if(g_status) {
      g_status[1] = static_cast<uint64_t>(i) + 1;
   }
   if(g_verbose) {
      fprintf(stderr, " step %d\n", i);
   }
}

static std::string plan_text(const Plan& p) {
   std::string s = "sim-replay 1\nharness " + std::string(harness_name) + "\nprop " + p.prop
                 + "\nseed " + std::to_string(p.seed) + "\ncfg";
   for(int64_t c : p.cfg) {
      s += " " + std::to_string(c);
   }
   s += "\n";
   for(auto& st : p.steps) {
      s += std::string("step ") + op_names[st.op];
      for(int64_t a : st.a) {
         s += " " + std::to_string(a);
      }
      s += "\n";
   }
   return s;
}

static bool parse_plan(const char* file, Plan& p) {
   FILE* f = fopen(file, "r");
   if(!f) {
      return false;
   }
   char line[4096];
   while(fgets(line, sizeof line, f)) {
      std::vector<std::string> w;
      for(char* t = strtok(line, " \n\t"); t; t = strtok(nullptr, " \n\t")) {
         w.emplace_back(t);
      }
      if(w.empty() || w[0][0] == '#') {
         continue;
      }
      if(w[0] == "prop") {
         p.prop = w.at(1);
      } else if(w[0] == "seed") {
         p.seed = strtoull(w.at(1).c_str(), nullptr, 10);
      } else if(w[0] == "cfg") {
         for(size_t i = 1; i < w.size() && i <= NA; ++i) {
            p.cfg[i - 1] = strtoll(w[i].c_str(), nullptr, 10);
         }
      } else if(w[0] == "step") {
         Step st;
         st.op = -1;
         for(int i = 0; i < n_ops; ++i) {
            if(w.at(1) == op_names[i]) {
               st.op = i;
            }
         }
         if(st.op < 0) {
            fprintf(stderr, "unknown op %s\n", w[1].c_str());
            fclose(f);
            return false;
         }
         for(size_t i = 2; i < w.size() && i < 2 + NA; ++i) {
            st.a[i - 2] = strtoll(w[i].c_str(), nullptr, 10);
         }
         p.steps.push_back(st);
      }
   }
   fclose(f);
   return true;
}

static bool exec_plan(const Plan& p, std::string& cls, std::string& msg) {
   g_log = mix64(p.seed);
   bool ok = true;
   arm_watchdog(20);
   try {
      run_plan(p);
   } catch(const Violation& v) {
      ok = false;
      cls = v.cls;
      msg = v.msg;
   }
   arm_watchdog(0);
   alloc::disarm();
   if(!ok) {
      log_str(cls);
   }
   return ok;
}

static uint64_t run_seed(uint64_t seed, const std::string& prop, uint64_t idx) {
   return mix2(mix2(seed, hash_bytes(prop.data(), prop.size())), idx) >> 1;
}

int sim_main(int argc, char** argv) {
   g_named = new std::map<std::string, uint64_t>;
   std::string prop, out, statesf, statusf, replay, dump, hashes;
   uint64_t seed = 1, first = 0, stride = 1, count = UINT64_MAX;
   double seconds = 0;
   for(int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto nxt = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
      if(a == "--prop") {
         prop = nxt();
      } else if(a == "--seed") {
         seed = strtoull(nxt().c_str(), nullptr, 10);
      } else if(a == "--first") {
         first = strtoull(nxt().c_str(), nullptr, 10);
      } else if(a == "--stride") {
         stride = strtoull(nxt().c_str(), nullptr, 10);
      } else if(a == "--count") {
         count = strtoull(nxt().c_str(), nullptr, 10);
      } else if(a == "--seconds") {
         seconds = atof(nxt().c_str());
      } else if(a == "--out") {
         out = nxt();
      } else if(a == "--states") {
         statesf = nxt();
      } else if(a == "--status") {
         statusf = nxt();
      } else if(a == "--replay") {
         replay = nxt();
      } else if(a == "--dump") {
         dump = nxt();
      } else if(a == "--hashes") {
         hashes = nxt();
      } else if(a == "-v") {
         g_verbose = true;
      }
   }
   signal(SIGPROF, on_hang);
   signal(SIGPIPE, SIG_IGN);

   if(!replay.empty()) {
      Plan p;
      unsigned long long rs, rf, rst, rn;
      if(char rp[64]; FILE* f = fopen(replay.c_str(), "r")) {
         // "range PROP SEED FIRST STRIDE COUNT": several generated runs in one process.
         int got = fscanf(f, "sim-replay 1 range %63s %llu %llu %llu %llu", rp, &rs, &rf, &rst, &rn);
         fclose(f);
         if(got == 5) {
            std::string cls, msg;
            bool ok = true;
            for(unsigned long long i = 0; ok && i < rn; ++i) {
               ok = exec_plan(generate_plan(rp, run_seed(rs, rp, rf + i * rst)), cls, msg);
            }
            printf("HASH %016llx\n", static_cast<unsigned long long>(g_log));
            if(!ok) {
               printf("CLASS %s\nMSG %s\n", cls.c_str(), msg.c_str());
            }
            fflush(stdout);
            return ok ? 0 : 10;
         }
      }
      if(!parse_plan(replay.c_str(), p)) {
         fprintf(stderr, "cannot parse %s\n", replay.c_str());
         return 3;
      }
      std::string cls, msg;
      bool ok = exec_plan(p, cls, msg);
      printf("HASH %016llx\n", static_cast<unsigned long long>(g_log));
      if(!ok) {
         printf("CLASS %s\nMSG %s\n", cls.c_str(), msg.c_str());
      }
      fflush(stdout);
      return ok ? 0 : 10;
   }
   if(!dump.empty()) {
      Plan p = generate_plan(prop, run_seed(seed, prop, first));
      FILE* f = fopen(dump.c_str(), "w");
      if(!f) {
         return 3;
      }
      std::string t = plan_text(p);
      fwrite(t.data(), 1, t.size(), f);
      fclose(f);
      return 0;
   }
   uint64_t dummy[4] = {};
   g_status = dummy;
   if(!statusf.empty()) {
      int fd = open(statusf.c_str(), O_RDWR | O_CREAT, 0644);
      if(fd < 0 || ftruncate(fd, 4096) != 0) {
         return 3;
      }
      void* m = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if(m == MAP_FAILED) {
         return 3;
      }
      g_status = static_cast<volatile uint64_t*>(m);
   }
   FILE* hf = nullptr;
   if(!hashes.empty()) {
      hf = fopen(hashes.c_str(), "w");
   }
   g_states = new std::unordered_set<uint64_t>;
   g_states->reserve(max_states + 16);
   double t0 = now_s();
   uint64_t done = 0, idx = first, steps = 0;
   std::string cls, msg;
   bool ok = true;
   for(; done < count; idx += stride, ++done) {
      if(seconds > 0 && now_s() - t0 >= seconds) {
         break;
      }
      g_status[0] = idx + 1;
      g_status[1] = 0;
      Plan p = generate_plan(prop, run_seed(seed, prop, idx));
      steps += p.steps.size();
      ok = exec_plan(p, cls, msg);
      if(hf) {
         fprintf(hf, "%llu %016llx\n",
                 static_cast<unsigned long long>(idx),
                 static_cast<unsigned long long>(g_log));
      }
      if(!ok) {
         break;
      }
      g_status[2] = done + 1;
   }
   if(hf) {
      fclose(hf);
   }
   if(!statesf.empty()) {
      FILE* f = fopen(statesf.c_str(), "wb");
      if(f) {
         std::vector<uint64_t> v(g_states->begin(), g_states->end());
         std::sort(v.begin(), v.end());
         fwrite(v.data(), 8, v.size(), f);
         fclose(f);
      }
   }
   if(!out.empty()) {
      FILE* f = fopen(out.c_str(), "w");
      if(!f) {
         return 3;
      }
      fprintf(f,
              "{\"runs\": %llu, \"steps\": %llu, \"cases\": %llu, \"states\": %llu, "
              "\"state_overflow\": %llu, \"sim_ns\": %llu, \"wall_s\": %.3f, \"counters\": {",
              static_cast<unsigned long long>(done),
              static_cast<unsigned long long>(steps),
              static_cast<unsigned long long>(g_cases),
              static_cast<unsigned long long>(g_states->size()),
              static_cast<unsigned long long>(g_state_overflow),
              static_cast<unsigned long long>(g_sim_ns),
              now_s() - t0);
      bool comma = false;
      std::map<std::string, uint64_t> all = *g_named;
      for(Counter* c = g_counters; c; c = c->next) {
         all[c->name] += c->v;
      }
      for(auto& [k, v] : all) {
         fprintf(f, "%s\"%s\": %llu", comma ? ", " : "", k.c_str(), static_cast<unsigned long long>(v));
         comma = true;
      }
      fprintf(f, "}, \"violation\": %s, \"index\": %llu}\n", ok ? "false" : "true",
              static_cast<unsigned long long>(idx));
      fclose(f);
   }
   if(!ok) {
      printf("CLASS %s\nMSG %s\nINDEX %llu\n", cls.c_str(), msg.c_str(),
             static_cast<unsigned long long>(idx));
      fflush(stdout);
      return 10;
   }
   return 0;
}

} // namespace sim
