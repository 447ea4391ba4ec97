// Harness "threads": plan generation, the simulated console and one child process per run.
#include "core.hpp"
#include "thr.hpp"
#include <csignal>
#include <iostream>
#include <streambuf>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim::threads {
enum Op : int {
#define X(n) op_##n,
#include "threads_ops.inc"
#undef X
   op_count
};
struct Piece {
   int who, call;
   size_t at, n;
};
struct Console {
   char text[1 << 17];
   size_t used;
   Piece piece[8192];
   size_t pieces;
   bool overflow;
   int call[thr::MAX];
};
struct Report {
   bool done, failed;
   char cls[64], msg[1200];
   uint64_t log, schedule, switches, events, blocked, ops, faults, failures, compared;
};
struct Bad {
   std::string cls, msg;
};
static Console con;
static Report* rep;
Console& console() {
   return con;
}
Report& report() {
   return *rep;
}
static std::string scratch_path;
std::string scratch() {
   return scratch_path;
}
struct Sink : std::streambuf {
   int_type overflow(int_type c) override {
      if(!traits_type::eq_int_type(c, traits_type::eof())) {
         char ch = traits_type::to_char_type(c);
         xsputn(&ch, 1);
      }
      return traits_type::not_eof(c);
   }
   std::streamsize xsputn(const char* s, std::streamsize n) override {
      thr::point();
      if(con.pieces >= 8192 || con.used + static_cast<size_t>(n) > sizeof con.text) {
         con.overflow = true;
         return n;
      }
      con.piece[con.pieces++] = {thr::current(), con.call[thr::current()], con.used, static_cast<size_t>(n)};
      for(std::streamsize i = 0; i < n; ++i) { // memcpy would be a scheduling point
         static_cast<volatile char*>(con.text)[con.used + static_cast<size_t>(i)] = s[i];
      }
      con.used += static_cast<size_t>(n);
      thr::point();
      return n;
   }
   int sync() override {
      return 0;
   }
};
static Sink sink;

#define X(k) void exec_##k(const Plan&);
SIM_INSTANCES(X)
#undef X
static const int instances[] = {
#define X(k) k,
   SIM_INSTANCES(X)
#undef X
};

static void on_alarm(int) {
   _exit(11);
}
[[noreturn]] static void child(const Plan& p) {
   signal(SIGPROF, on_alarm);
   signal(SIGALRM, on_alarm);
   itimerval it{};
   it.it_value.tv_sec = 10;
   setitimer(ITIMER_PROF, &it, nullptr);
   it.it_value.tv_sec = 60;
   setitimer(ITIMER_REAL, &it, nullptr);
   std::cout.rdbuf(&sink);
   thr::exempt(static_cast<const void*>(&std::cout), sizeof std::cout);
   thr::exempt(&std::cerr, sizeof std::cerr);
   thr::exempt(&std::clog, sizeof std::clog);
   thr::exempt(&sink, sizeof sink);
   thr::exempt(&con, sizeof con);
   const char* dir = getenv("SIM_SCRATCH");
   scratch_path = std::string(dir ? dir : "/tmp") + "/thr-" + std::to_string(getpid());
   try {
      switch(p.cfg[0] & 255) {
#define X(k)      \
   case k:        \
      exec_##k(p); \
      break;
         SIM_INSTANCES(X)
#undef X
      default:
         break;
      }
   } catch(const Bad& b) {
      rep->failed = true;
      snprintf(rep->cls, sizeof rep->cls, "%s", b.cls.c_str());
      snprintf(rep->msg, sizeof rep->msg, "%s", b.msg.c_str());
   }
   for(int i = 0; i < thr::MAX; ++i) {
      unlink((scratch_path + "-" + std::to_string(i)).c_str());
   }
   rep->done = true;
   _exit(0);
}
} // namespace sim::threads

namespace sim {
extern const char* const harness_name = "threads";
extern const char* const op_names[] = {
#define X(n) #n,
#include "threads_ops.inc"
#undef X
};
const int n_ops = threads::op_count;

Plan generate_plan(const std::string& prop, uint64_t seed) {
   using namespace threads;
   Rng r(seed);
   Plan p;
   p.prop = prop;
   p.seed = seed;
   for(auto& c : p.cfg) {
      c = r.below(1 << 30);
   }
   p.cfg[0] = (p.cfg[0] & ~int64_t{255}) | instances[r.below(sizeof instances / sizeof instances[0])];
   bool con = prop == "C15" || p.cfg[7] / 4096 % 10 == 0; // in C20 some runs only print: no races, whatever the console shows
   int len = static_cast<int>(con ? r.range(2, 12) : r.range(2, 14));
   static const int c15[] = {op_print1, op_print1, op_print2, op_print2, op_print_many, op_printn1, op_print_scalar,
                             op_user_write, op_print_expr};
   bool focus = r.chance(1, 2); // threads that do the same thing
   int f = con ? c15[r.below(9)] : static_cast<int>(r.below(op_fault));
   for(int i = 0; i < len; ++i) {
      Step s;
      for(auto& a : s.a) {
         a = r.below(1 << 20);
      }
      s.op = focus && r.chance(2, 3) ? f : con ? c15[r.below(9)] : static_cast<int>(r.below(op_fault));
      s.a[6] = r.chance(1, 8) ? r.range(1, 12) : 0;
      p.steps.push_back(s);
   }
   return p;
}

void run_plan(const Plan& p) {
   using namespace threads;
   if(!rep) {
      rep = static_cast<Report*>(mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
      if(rep == MAP_FAILED) {
         _exit(97);
      }
   }
   *rep = Report{};
   fflush(stdout);
   pid_t pid = fork();
   if(pid < 0) {
      _exit(97);
   }
   if(pid == 0) {
      child(p);
   }
   int st = 0;
   while(waitpid(pid, &st, 0) < 0) {
   }
   if(WIFSIGNALED(st)) {
      fail(p.prop + ":crash:signal:" + std::to_string(WTERMSIG(st)), "a simulated run crashed");
   }
   if(!rep->done) {
      int rc = WEXITSTATUS(st);
      fail(p.prop + (rc == 11 ? ":hang" : ":crash:exit:" + std::to_string(rc)), "a simulated run did not finish");
   }
   log_u64(rep->log);
   log_u64(rep->switches);
   static Counter sw("probe.context_switches"), ev("probe.scheduling_points"), bl("probe.blocked_on_lock"),
      op("probe.calls"), fa("fault.alloc_failed"), fl("probe.calls_that_threw"), cm("probe.results_compared");
   sw.v += rep->switches;
   ev.v += rep->events;
   bl.v += rep->blocked;
   op.v += rep->ops;
   fa.v += rep->faults;
   fl.v += rep->failures;
   cm.v += rep->compared;
   if(rep->failed) {
      fail(rep->cls, rep->msg);
   }
   state(mix2(rep->schedule, rep->log));
}
} // namespace sim

int main(int argc, char** argv) {
   return sim::sim_main(argc, argv);
}
