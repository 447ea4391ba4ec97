// Harness "streams": array and scalar input and output over simulated streams and files (C09..C14).
// One World per element type; h_streams_inst.cpp instantiates it.
#pragma once
#include "alloc.hpp"
#include "core.hpp"
#include "vfs.hpp"
#include <strictpp/strict.hpp>

#include <cerrno>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <limits>
#include <optional>
#include <sstream>
#include <streambuf>
#include <string>
#include <type_traits>
#include <vector>

namespace sim::streams {

enum Op : int {
#define X(n) op_##n,
#include "streams_ops.inc"
#undef X
   op_count
};

// Fault kinds of a "fault" step; they apply to the next I/O step.
enum FaultKind { F_CHUNK, F_EINTR, F_ERR, F_OPEN, F_CLOSE, F_FULL, F_ALLOC, F_TRUNC, F_FLIP, F_ZERO, F_STATE, F_KINDS };

struct InjectedIo {};

// Delivers text in pieces; throws (an I/O error below the stream) when position err_at is reached.
class InBuf : public std::streambuf {
public:
   InBuf(std::string t, int64_t chunk, uint64_t cseed, int64_t err_at)
      : text_{std::move(t)}, chunk_{chunk}, cseed_{cseed}, err_at_{err_at} {
   }
   bool fired() const {
      return fired_;
   }

protected:
   int_type underflow() override {
      alloc::Host h;
      if(gptr() < egptr()) {
         return traits_type::to_int_type(*gptr());
      }
      int64_t n = static_cast<int64_t>(text_.size());
      int64_t end = err_at_ >= 0 && err_at_ < n ? err_at_ : n;
      if(at_ >= end) {
         if(err_at_ >= 0) {
            fired_ = true;
            SIM_COUNT("fault.stream_error");
            throw InjectedIo{};
         }
         return traits_type::eof();
      }
      int64_t c = end - at_;
      if(chunk_ > 0) {
         int64_t lim = cseed_ ? 1 + static_cast<int64_t>(mix2(cseed_, ++k_) % static_cast<uint64_t>(chunk_)) : chunk_;
         if(c > lim) {
            SIM_COUNT("fault.short_io");
            c = lim;
         }
      }
      cur_.assign(text_, static_cast<size_t>(at_), static_cast<size_t>(c));
      at_ += c;
      setg(cur_.data(), cur_.data(), cur_.data() + cur_.size());
      return traits_type::to_int_type(*gptr());
   }

private:
   std::string text_, cur_;
   int64_t chunk_, at_ = 0;
   uint64_t cseed_, k_ = 0;
   int64_t err_at_;
   bool fired_ = false;
};

// Accepts bytes up to limit, then fails (by a short count or by an exception). With a buffer of its own it passes them on
// when that is full or the stream is flushed, and fails only then.
class OutBuf : public std::streambuf {
public:
   OutBuf(int64_t limit, bool throws, int64_t hold = 0) : limit_{limit}, throws_{throws}, hold_{hold} {
   }
   std::string got;
   bool fired = false;

protected:
   int_type overflow(int_type c) override {
      if(traits_type::eq_int_type(c, traits_type::eof())) {
         return traits_type::not_eof(c);
      }
      char ch = traits_type::to_char_type(c);
      return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
   }
   std::streamsize xsputn(const char* s, std::streamsize n) override {
      alloc::Host h;
      if(hold_ == 0) {
         return put(s, n);
      }
      held_.append(s, static_cast<size_t>(n));
      return static_cast<int64_t>(held_.size()) < hold_ || pass_on() ? n : 0;
   }
   int sync() override {
      alloc::Host h;
      return pass_on() ? 0 : -1;
   }

private:
   bool pass_on() {
      std::string t;
      t.swap(held_);
      return put(t.data(), static_cast<std::streamsize>(t.size())) == static_cast<std::streamsize>(t.size());
   }
   std::streamsize put(const char* s, std::streamsize n) {
      std::streamsize k = n;
      if(limit_ >= 0 && static_cast<int64_t>(got.size()) + n > limit_) {
         k = limit_ - static_cast<int64_t>(got.size());
         k = k < 0 ? 0 : k;
      }
      got.append(s, static_cast<size_t>(k));
      if(k < n) {
         fired = true;
         SIM_COUNT("fault.stream_full");
         if(throws_) {
            throw InjectedIo{};
         }
      }
      return k;
   }

   int64_t limit_;
   bool throws_;
   int64_t hold_;
   std::string held_;
};

inline bool is_space(char c) {
   return c == ' ' || (c >= '\t' && c <= '\r');
}
inline std::vector<std::string> split_ws(const std::string& s) {
   std::vector<std::string> r;
   size_t i = 0;
   while(i < s.size()) {
      while(i < s.size() && is_space(s[i])) {
         ++i;
      }
      size_t b = i;
      while(i < s.size() && !is_space(s[i])) {
         ++i;
      }
      if(i > b) {
         r.push_back(s.substr(b, i - b));
      }
   }
   return r;
}

enum class Tok { Valid, Invalid, Ambiguous };

// Longest prefix of s that is a numeral of kind (integer or decimal floating point).
inline size_t int_prefix(const std::string& s) {
   size_t i = 0;
   if(i < s.size() && (s[i] == '+' || s[i] == '-')) {
      ++i;
   }
   size_t d = i;
   while(i < s.size() && s[i] >= '0' && s[i] <= '9') {
      ++i;
   }
   return i == d ? 0 : i;
}
inline size_t flt_prefix(const std::string& s) {
   size_t i = 0;
   if(i < s.size() && (s[i] == '+' || s[i] == '-')) {
      ++i;
   }
   size_t d = i, digits = 0;
   while(i < s.size() && s[i] >= '0' && s[i] <= '9') {
      ++i;
      ++digits;
   }
   if(i < s.size() && s[i] == '.') {
      ++i;
      while(i < s.size() && s[i] >= '0' && s[i] <= '9') {
         ++i;
         ++digits;
      }
   }
   if(digits == 0) {
      return 0;
   }
   (void)d;
   if(i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
      size_t j = i + 1;
      if(j < s.size() && (s[j] == '+' || s[j] == '-')) {
         ++j;
      }
      size_t k = j;
      while(j < s.size() && s[j] >= '0' && s[j] <= '9') {
         ++j;
      }
      if(j > k) {
         i = j;
      } else {
         return std::string::npos; // an exponent without digits
      }
   }
   return i;
}
inline bool hint_ambiguous(const std::string& rest) {
   return !rest.empty() && (rest[0] == '+' || rest[0] == '-' || rest[0] == '.' || (rest[0] >= '0' && rest[0] <= '9'));
}

template <class T>
Tok classify(const std::string& s, T& v) {
   v = T{};
   if constexpr(std::is_integral_v<T>) {
      size_t n = int_prefix(s);
      if(n == 0) {
         return Tok::Invalid;
      }
      if(n < s.size()) {
         return hint_ambiguous(s.substr(n)) && s[n] != '.' ? Tok::Ambiguous : Tok::Invalid;
      }
      size_t i = s[0] == '+' || s[0] == '-' ? 1 : 0;
      bool neg = s[0] == '-';
      unsigned __int128 m = 0;
      for(; i < s.size(); ++i) {
         if(m < (static_cast<unsigned __int128>(1) << 100)) {
            m = m * 10 + static_cast<unsigned>(s[i] - '0');
         }
      }
      if constexpr(std::is_same_v<T, bool>) {
         if(neg) {
            return m == 0 ? Tok::Ambiguous : Tok::Invalid;
         }
         v = m == 1;
         return m <= 1 ? Tok::Valid : Tok::Invalid;
      } else if constexpr(std::is_unsigned_v<T>) {
         unsigned __int128 mx = std::numeric_limits<T>::max();
         if(neg) {
            return m <= mx ? Tok::Ambiguous : Tok::Invalid;
         }
         v = static_cast<T>(m);
         return m <= mx ? Tok::Valid : Tok::Invalid;
      } else {
         unsigned __int128 mx = std::numeric_limits<T>::max();
         if(m > mx + (neg ? 1 : 0)) {
            return Tok::Invalid;
         }
         v = static_cast<T>(neg ? -static_cast<__int128>(m) : static_cast<__int128>(m));
         return Tok::Valid;
      }
   } else {
      size_t n = flt_prefix(s);
      if(n == 0 || n == std::string::npos) {
         return Tok::Invalid;
      }
      if(n < s.size()) {
         if constexpr(sizeof(T) == 16 && !std::is_same_v<T, long double>) {
            return Tok::Invalid; // __float128: the whole token is one numeral
         }
         return hint_ambiguous(s.substr(n)) ? Tok::Ambiguous : Tok::Invalid;
      }
      errno = 0;
      if constexpr(std::is_same_v<T, float>) {
         v = strtof(s.c_str(), nullptr);
      } else if constexpr(std::is_same_v<T, double>) {
         v = strtod(s.c_str(), nullptr);
      } else if constexpr(std::is_same_v<T, long double>) {
         v = strtold(s.c_str(), nullptr);
      } else {
#ifdef STRICT_QUAD_PRECISION
         v = strtoflt128(s.c_str(), nullptr);
         return isinfq(v) || errno == ERANGE ? Tok::Ambiguous : Tok::Valid;
#endif
      }
      if(v > std::numeric_limits<T>::max() || v < -std::numeric_limits<T>::max()) {
         return Tok::Invalid;
      }
      return errno == ERANGE ? Tok::Ambiguous : Tok::Valid;
   }
}

template <class T>
bool same(const T& a, const T& b) {
   if constexpr(std::is_integral_v<T>) {
      return a == b;
   } else {
      return (a == b && std::signbit(static_cast<double>(a)) == std::signbit(static_cast<double>(b)))
          || (a != a && b != b);
   }
}

template <class T>
struct Doc { // what the reference parser makes of a text
   enum Verdict { Accept, Reject, Either } verdict = Accept;
   bool two_d = false;
   long rows = 0, cols = 0;
   std::vector<T> v;
   long bad_tokens = 0;
};

template <class T>
Doc<T> parse1(const std::string& s) {
   Doc<T> d;
   for(auto& t : split_ws(s)) {
      T v;
      Tok k = classify<T>(t, v);
      if(k == Tok::Invalid) {
         d.verdict = Doc<T>::Reject;
         ++d.bad_tokens;
      } else if(k == Tok::Ambiguous && d.verdict == Doc<T>::Accept) {
         d.verdict = Doc<T>::Either;
      }
      d.v.push_back(v);
   }
   d.rows = 1;
   d.cols = static_cast<long>(d.v.size());
   return d;
}

template <class T>
Doc<T> parse2(const std::string& s) {
   Doc<T> d;
   d.two_d = true;
   bool either = false, reject = false;
   size_t i = 0;
   while(i < s.size()) {
      size_t e = s.find('\n', i);
      std::string line = s.substr(i, e == std::string::npos ? std::string::npos : e - i);
      i = e == std::string::npos ? s.size() : e + 1;
      if(line.empty()) {
         continue;
      }
      auto toks = split_ws(line);
      if(toks.empty()) {
         continue; // a blank line
      }
      bool amb = false;
      for(auto& t : toks) {
         T v;
         Tok k = classify<T>(t, v);
         if(k == Tok::Invalid) {
            reject = true;
            ++d.bad_tokens;
         } else if(k == Tok::Ambiguous) {
            amb = either = true;
         }
         d.v.push_back(v);
      }
      long c = static_cast<long>(toks.size());
      if(d.rows == 0) {
         d.cols = c;
      } else if(c != d.cols) {
         // An ambiguous token may count as several numbers, here or in the first row.
         if(amb || either) {
            either = true;
         } else {
            reject = true;
         }
      }
      ++d.rows;
   }
   d.verdict = reject ? Doc<T>::Reject : either ? Doc<T>::Either : Doc<T>::Accept;
   return d;
}

// ---- text and value generation -------------------------------------------------------------------
template <class T>
T gen_value(Rng& r, bool for_2d) {
   if constexpr(std::is_same_v<T, bool>) {
      return r.chance(1, 2);
   } else if constexpr(std::is_integral_v<T>) {
      switch(r.below(6)) {
      case 0:
         return static_cast<T>(r.range(0, 9));
      case 1:
         return static_cast<T>(r.range(-999, 999) * (std::is_unsigned_v<T> ? 0 : 1) + 7);
      case 2:
         return std::numeric_limits<T>::max();
      case 3:
         return static_cast<T>(std::numeric_limits<T>::min() + (for_2d ? 1 : 0));
      case 4:
         return static_cast<T>(T(1) << r.below(std::numeric_limits<T>::digits));
      default: {
         T v = static_cast<T>(r.next());
         if(for_2d && v == std::numeric_limits<T>::min()) {
            v = static_cast<T>(v + 1);
         }
         return v;
      }
      }
   } else {
      T v{};
      switch(r.below(6)) {
      case 0:
         v = static_cast<T>(r.range(-9, 9));
         break;
      case 1:
         v = static_cast<T>(r.range(-100000, 100000)) / T(1000);
         break;
      case 2:
         v = static_cast<T>(static_cast<int64_t>(r.next())) * static_cast<T>(r.next() | 1);
         break;
      case 3:
         v = T(1) / static_cast<T>(r.next() | 1);
         break;
      case 4:
         v = r.chance(1, 2) ? T(0) : -T(0);
         break;
      default:
         v = static_cast<T>(1 + r.below(1000)) / static_cast<T>(1 + r.below(1000));
         break;
      }
      return r.chance(1, 3) ? -v : v;
   }
}

template <class T>
std::string valid_token(Rng& r) {
   char b[128];
   if constexpr(std::is_same_v<T, bool>) {
      return r.chance(1, 2) ? "1" : "0";
   } else if constexpr(std::is_integral_v<T>) {
      T v = gen_value<T>(r, false);
      std::string s;
      if constexpr(std::is_unsigned_v<T>) {
         s = std::to_string(v);
      } else {
         s = std::to_string(v);
         if(v >= 0 && r.chance(1, 4)) {
            s = "+" + s;
         }
      }
      if(r.chance(1, 12)) {
         s = s[0] == '-' || s[0] == '+' ? s.substr(0, 1) + "00" + s.substr(1) : "0" + s;
      }
      return s;
   } else {
      int prec = static_cast<int>(r.below(r.chance(1, 4) ? 40 : 18));
      const char* form[] = {"%.*e", "%.*f", "%.*g", "%+.*e", "%#.*e"};
      long double v = static_cast<long double>(gen_value<T>(r, false));
      const char* f = form[r.below(5)];
      if(std::fabs(static_cast<double>(v)) > 1e30) {
         f = form[0];
      }
      std::string ff = f;
      ff.insert(ff.size() - 1, "L");
      snprintf(b, sizeof b, ff.c_str(), prec, v);
      std::string s = b;
      if(r.chance(1, 20)) {
         s = "1" + std::string(static_cast<size_t>(r.below(60)), '0');
         if(s.size() > 30) {
            s = "12345.5";
         }
      }
      return s;
   }
}

template <class T>
std::string bad_token(Rng& r, int kind) {
   std::string v = valid_token<T>(r);
   switch(kind % 14) {
   case 0:
      return v + "x";
   case 1:
      return "x" + v;
   case 2:
      return "-";
   case 3:
      return "+";
   case 4:
      return v + ",";
   case 5:
      return std::is_integral_v<T> ? "99999999999999999999999" : "1e99999";
   case 6:
      return std::is_integral_v<T> ? v + ".5" : "1e";
   case 7:
      return "abc";
   case 8:
      return std::is_integral_v<T> ? "-99999999999999999999999" : "1e+";
   case 9:
      return std::is_integral_v<T> ? "--1" : "-.";
   case 10:
      return v + "\x01";
   case 11:
      return std::string("\xff\xfe", 2);
   case 12:
      return v + ";" + v;
   default:
      return v + std::string(1, '\0') + "7";
   }
}

inline std::string separator(Rng& r, bool two_d) {
   const char* s[] = {" ", "  ", "\t", " \t ", "\v", "\f", "\n", "\r\n", "\n\n"};
   if(r.chance(2, 3)) {
      return " ";
   }
   return s[r.below(two_d ? 6 : 9)];
}
inline std::string line_end(Rng& r) {
   const char* s[] = {"\n", "\n", "\n", " \n", "\r\n", "\n\n", "\t\n"};
   return s[r.below(7)];
}

template <class T>
struct World {
   using S = spp::Strict<T>;
   using A1 = spp::Array1D<T, SIM_AF>;
   using A2 = spp::Array2D<T, SIM_AF>;
   using V = std::vector<T>;

   std::string prop;
   A1 a;
   A2 b;
   V ma, mb;
   long br = 0, bc = 0;
   S x{};
   T mx{};
   std::vector<Step> pending;

   struct Active {
      vfs::Faults f;
      int64_t trunc = -1, flip = -1, zero = -1, flip_c = 0, zero_n = 0;
      alloc::Mode am = alloc::Mode::Off;
      int64_t ak = 0;
      int64_t err_pos = -1; // raw argument
      int err_no = EIO;
      int64_t full_pos = -1;
      bool throws = false;
      int state = 0;
   };

   static constexpr bool is_quad = sizeof(T) == 16 && !std::is_same_v<T, long double>;

   Active take_faults(bool reading, bool file) {
      Active r;
      for(auto& s : pending) {
         switch(R(s.a[0], F_KINDS)) {
         case F_CHUNK:
            r.f.chunk = 1 + R(s.a[1], 40);
            r.f.chunk_seed = s.a[2] & 1 ? static_cast<uint64_t>(s.a[2]) : 0;
            break;
         case F_EINTR:
            r.f.intr = 1 + R(s.a[1], 4);
            break;
         case F_ERR:
            r.err_pos = s.a[1];
            r.err_no = s.a[2] % 3 == 0 ? ENXIO : EIO;
            r.throws = s.a[3] & 1;
            r.f.err_once = s.a[4] & 1;
            break;
         case F_OPEN: {
            static const int e[] = {ENOENT, EACCES, EMFILE, EIO, EISDIR, ENOSPC};
            if(file) {
               r.f.open_errno = e[R(s.a[1], 6)];
            }
            break;
         }
         case F_CLOSE:
            if(!reading && file) {
               r.f.close_errno = s.a[1] & 1 ? EIO : ENOSPC;
            }
            break;
         case F_FULL:
            if(!reading) {
               r.full_pos = s.a[1];
            }
            break;
         case F_ALLOC:
            r.am = s.a[2] & 1 ? alloc::Mode::Persistent : alloc::Mode::Once;
            r.ak = 1 + R(s.a[1], 12);
            break;
         case F_TRUNC:
            r.trunc = s.a[1];
            break;
         case F_FLIP:
            r.flip = s.a[1];
            r.flip_c = s.a[2];
            break;
         case F_ZERO:
            r.zero = s.a[1];
            r.zero_n = 1 + R(s.a[2], 16);
            break;
         case F_STATE:
            r.state = 1 + static_cast<int>(R(s.a[1], 3));
            break;
         default:
            break;
         }
      }
      pending.clear();
      return r;
   }
   // Content the simulated storage or peer really holds.
   static std::string damage(std::string t, const Active& f) {
      if(f.zero >= 0 && !t.empty()) {
         size_t p = static_cast<size_t>(R(f.zero, static_cast<int64_t>(t.size())));
         for(size_t i = p; i < t.size() && i < p + static_cast<size_t>(f.zero_n); ++i) {
            t[i] = '\0';
         }
         SIM_COUNT("fault.lost_block");
      }
      if(f.flip >= 0 && !t.empty()) {
         size_t p = static_cast<size_t>(R(f.flip, static_cast<int64_t>(t.size())));
         t[p] = static_cast<char>(t[p] ^ (1 << R(f.flip_c, 7)));
         SIM_COUNT("fault.bit_flip");
      }
      if(f.trunc >= 0) {
         t.resize(static_cast<size_t>(R(f.trunc, static_cast<int64_t>(t.size()) + 1)));
         SIM_COUNT("fault.truncated");
      }
      return t;
   }

   [[noreturn]] void bad(const std::string& what, const std::string& msg) {
      sim::fail(prop + ":" + what, msg);
   }
   static std::string show(const std::string& s) {
      std::string r;
      for(char c : s.substr(0, 200)) {
         char h[8];
         if(c >= 32 && c < 127) {
            r += c;
         } else {
            snprintf(h, sizeof h, "\\x%02x", static_cast<unsigned char>(c));
            r += h;
         }
      }
      return r;
   }
   void check_contents(const char* when) {
      if(a.size().val() != static_cast<long>(ma.size())) {
         bad("target", std::string("1-D size is wrong ") + when + ": " + std::to_string(a.size().val()) + " expected "
                           + std::to_string(ma.size()));
      }
      for(size_t i = 0; i < ma.size(); ++i) {
         if(!same<T>(a.un(static_cast<long>(i)).val(), ma[i])) {
            bad("target", std::string("1-D element ") + std::to_string(i) + " is wrong " + when);
         }
      }
      if(b.rows().val() != br || b.cols().val() != bc || b.size().val() != br * bc) {
         bad("target", std::string("2-D shape is wrong ") + when + ": " + std::to_string(b.rows().val()) + "x"
                           + std::to_string(b.cols().val()) + " expected " + std::to_string(br) + "x"
                           + std::to_string(bc));
      }
      for(long i = 0; i < br; ++i) {
         for(long j = 0; j < bc; ++j) {
            if(!same<T>(b.un(i, j).val(), mb[static_cast<size_t>(i * bc + j)])) {
               bad("target", "2-D element " + std::to_string(i) + "," + std::to_string(j) + " is wrong " + when);
            }
         }
      }
      if(!same<T>(x.val(), mx)) {
         bad("target", std::string("scalar is wrong ") + when);
      }
   }
   void adopt(const Doc<T>& d) {
      if(!d.two_d) {
         ma = d.v;
      } else {
         mb = d.v;
         br = d.rows;
         bc = d.cols;
      }
   }
   void adopt_actual(bool two_d) {
      if(!two_d) {
         ma.assign(static_cast<size_t>(a.size().val()), T{});
         for(long i = 0; i < a.size().val(); ++i) {
            ma[static_cast<size_t>(i)] = a.un(i).val();
         }
      } else {
         br = b.rows().val();
         bc = b.cols().val();
         mb.assign(static_cast<size_t>(br * bc), T{});
         for(long i = 0; i < br; ++i) {
            for(long j = 0; j < bc; ++j) {
               mb[static_cast<size_t>(i * bc + j)] = b.un(i, j).val();
            }
         }
      }
   }

   enum class Out { Done, Rejected, Exhausted };
   template <class F>
   Out guarded(const Active& f, F&& body) {
      alloc::Sut s;
      alloc::arm(f.am, static_cast<uint64_t>(f.ak));
      Out o;
      try {
         body();
         o = Out::Done;
      } catch(const spp::StrictException&) {
         o = Out::Rejected;
      } catch(const std::bad_alloc&) {
         o = Out::Exhausted;
      } catch(const std::ios_base::failure&) {
         o = Out::Rejected;
      } catch(const InjectedIo&) {
         o = Out::Rejected;
      }
      if(alloc::fired()) {
         SIM_COUNT("fault.alloc");
      }
      alloc::disarm();
      return o;
   }

   // Common verdict of a read.
   void judge_read(Out o, bool hard, bool two_d, Doc<T> d, const std::string& text, const Active& f) {
      bool mem = alloc::fired() > 0;
      uint64_t h = hash_bytes(&d.bad_tokens, sizeof d.bad_tokens);
      h = mix2(h, static_cast<uint64_t>(o) * 64 + d.verdict * 8 + hard * 4 + mem * 2 + two_d);
      h = mix2(h, static_cast<uint64_t>(d.rows * 131 + d.cols));
      h = mix2(h, hash_bytes(text.data(), text.size()));
      h = mix2(h, static_cast<uint64_t>(f.f.chunk * 8 + f.f.intr));
      state(h);
      log_u64(h);
      note("text \"" + show(text) + "\" outcome " + std::to_string(static_cast<int>(o)) + " verdict "
           + std::to_string(d.verdict) + " hard " + std::to_string(hard));
      if(o == Out::Exhausted && !mem) {
         bad("outcome", "bad_alloc without a failed allocation");
      }
      if(o == Out::Done) {
         if(hard) {
            bad("silent", "read succeeded although the stream failed; text \"" + show(text) + "\"");
         }
         if(d.verdict == Doc<T>::Reject) {
            bad("accepted", "malformed input accepted: \"" + show(text) + "\"");
         }
         if(d.verdict == Doc<T>::Either) {
            SIM_COUNT("probe.ambiguous_text");
            adopt_actual(two_d);
         } else {
            SIM_COUNT("probe.accepted");
            adopt(d);
         }
         check_contents("after a successful read");
         return;
      }
      if(!hard && !mem && d.verdict == Doc<T>::Accept) {
         bad("rejected", "valid input rejected: \"" + show(text) + "\"");
      }
      SIM_COUNT("probe.rejected");
      check_contents("after a failed read");
   }

   std::string make_text(bool two_d, const Step& s) {
      Rng r(static_cast<uint64_t>(s.a[1]) * 977 + static_cast<uint64_t>(two_d));
      std::string t;
      static const long sizes[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40};
      int64_t badk = s.a[4]; // 0: none
      if(!two_d) {
         long n = sizes[R(s.a[2], 16)];
         long badpos = n ? R(s.a[5], n) : 0;
         if(r.chance(1, 5)) {
            t += separator(r, false);
         }
         for(long i = 0; i < n; ++i) {
            t += badk && i == badpos ? bad_token<T>(r, static_cast<int>(R(badk, 1 << 20))) : valid_token<T>(r);
            if(i + 1 < n) {
               t += separator(r, false);
            }
         }
         if(r.chance(2, 3)) {
            t += separator(r, false);
         }
         return t;
      }
      long rows = sizes[R(s.a[2], 11)], cols = 1 + R(s.a[3], 9);
      long badpos = rows ? R(s.a[5], rows * cols) : 0;
      int64_t ragged = s.a[6];
      long rrow = rows ? R(ragged, rows) : 0;
      for(int k = static_cast<int>(r.below(3)); k > 0; --k) {
         t += r.chance(1, 2) ? "\n" : " \n";
      }
      for(long i = 0; i < rows; ++i) {
         long c = cols;
         if(ragged && i == rrow) {
            c += ragged % 2 ? 1 : -1;
         }
         if(r.chance(1, 8)) {
            t += " ";
         }
         for(long j = 0; j < c; ++j) {
            bool isbad = badk && i * cols + j == badpos;
            t += isbad ? bad_token<T>(r, static_cast<int>(R(badk, 1 << 20))) : valid_token<T>(r);
            if(j + 1 < c) {
               t += separator(r, true);
            }
         }
         if(i + 1 < rows || r.chance(2, 3)) {
            t += line_end(r);
         }
      }
      return t;
   }

   // ---- reads -------------------------------------------------------------------------------------
   void op_read_stream(const Step& s, bool two_d) {
      Active f = take_faults(true, false);
      std::string t = damage(make_text(two_d, s), f);
      int64_t err = f.err_pos >= 0 ? R(f.err_pos, static_cast<int64_t>(t.size()) + 1) : -1;
      InBuf buf(t, f.f.chunk, f.f.chunk_seed, err);
      std::istream is(&buf);
      if(f.throws) {
         is.exceptions(std::ios::badbit);
      }
      bool pre = false;
      if(f.state) {
         pre = true;
         SIM_COUNT("fault.stream_state");
         try {
            is.setstate(f.state == 1 ? std::ios::failbit : f.state == 2 ? std::ios::badbit : std::ios::failbit | std::ios::badbit);
         } catch(const std::ios_base::failure&) {
         }
      }
      Out o = guarded(f, [&] {
         if(two_d) {
            is >> b;
         } else {
            is >> a;
         }
      });
      std::string got = err >= 0 ? t.substr(0, static_cast<size_t>(err)) : t;
      judge_read(o, buf.fired() || pre, two_d, two_d ? parse2<T>(got) : parse1<T>(got), got, f);
   }
   void op_read_file(const Step& s, bool two_d) {
      Active f = take_faults(true, true);
      std::string t = damage(make_text(two_d, s), f);
      std::string p = vfs::path("f0");
      bool missing = s.a[7] % 16 == 1;
      if(missing) {
         SIM_COUNT("fault.missing_file");
         vfs::remove(p);
      } else {
         vfs::put(p, t);
      }
      f.f.err_at = f.err_pos >= 0 ? R(f.err_pos, static_cast<int64_t>(t.size()) + 1) : -1;
      f.f.err_no = f.err_no;
      f.f.err_once = false;
      Out o = guarded(f, [&] {
         vfs::Armed armed(f.f);
         if(two_d) {
            spp::read_from_file(p, b);
         } else {
            spp::read_from_file(p, a);
         }
      });
      bool hard = vfs::hard_fired() || missing;
      std::string got = f.f.err_at >= 0 ? t.substr(0, static_cast<size_t>(f.f.err_at)) : t;
      judge_read(o, hard, two_d, two_d ? parse2<T>(got) : parse1<T>(got), got, f);
      std::string after;
      if(!missing && (!vfs::get(p, after) || after != t)) {
         bad("file", "reading changed the file");
      }
      if(vfs::open_files() != 0) {
         bad("leak", "file left open");
      }
   }

   // ---- writes ------------------------------------------------------------------------------------
   int asked = -1; // digits after the point that were chosen, -1: the default
   void set_format(const Step& s) {
      asked = -1;
      spp::format.reset();
      spp::array_format.reset();
      int64_t k = s.a[6];
      if(k % 3 == 1) {
         spp::format.scientific(false);
      }
      if(k / 3 % 3 == 1) {
         asked = static_cast<int>(R(k / 9, 45));
         spp::format.precision(asked);
      }
      if(k / 3 % 3 == 2) {
         spp::format.precision_float(R(k / 9, 12));
         spp::format.precision_double(R(k / 9, 20));
         spp::format.precision_long_double(R(k / 9, 24));
#ifdef STRICT_QUAD_PRECISION
         spp::format.precision_quad(R(k / 9, 40));
#endif
         asked = static_cast<int>(std::is_same_v<T, float>         ? R(k / 9, 12)
                                  : std::is_same_v<T, double>      ? R(k / 9, 20)
                                  : std::is_same_v<T, long double> ? R(k / 9, 24)
                                                                   : R(k / 9, 40));
      }
      int64_t m = s.a[7];
      if(m & 1) {
         spp::array_format.row_style();
      }
      if(m & 2) {
         spp::array_format.detailed(true);
      }
   }
   static void reset_format() {
      spp::format.reset();
      spp::array_format.reset();
   }
   struct FormatGuard {
      ~FormatGuard() {
         reset_format();
      }
   };
   template <class G>
   void with_subject(const Step& s, G&& g) {
      long n = static_cast<long>(ma.size());
      const A1& ca = a;
      const A2& cb = b;
      switch(R(s.a[1], 10)) {
      case 0:
      case 1:
         return g(ca);
      case 2:
      case 3:
         return g(cb);
      case 4:
         if(n > 0) {
            return g(a(spp::place::even));
         }
         return g(ca);
      case 5:
         if(n > 0) {
            return g(ca(spp::place::reverse));
         }
         return g(ca);
      case 6:
         if(br > 0) {
            return g(cb.row(R(s.a[2], br)));
         }
         return g(cb);
      case 7:
         if(br > 0) {
            return g(b.col(R(s.a[2], bc)));
         }
         return g(cb);
      case 8:
         return g(merge(ca, ca.view1D()));
      default:
         return g(spp::transpose(cb));
      }
   }
   void op_write_file(const Step& s) {
      Active f = take_faults(false, true);
      set_format(s);
      FormatGuard guard;
      std::string name = s.a[3] % 3 == 0 ? "matrix A" : s.a[3] % 3 == 1 ? "v" : "";
      std::string p = vfs::path("f1");
      if(s.a[4] & 1) {
         vfs::put(p, std::string(static_cast<size_t>(R(s.a[4], 400)), '#')); // an older, maybe longer file
      } else {
         vfs::remove(p);
      }
      with_subject(s, [&](const auto& A) {
         std::string want;
         {
            std::ostringstream os;
            if(!name.empty()) {
               os << name << ":\n";
            }
            os << A;
            want = os.str();
         }
         f.f.err_at = -1;
         if(f.err_pos >= 0) {
            f.f.err_at = R(f.err_pos, static_cast<int64_t>(want.size()) + 1);
            f.f.err_no = f.err_no;
         } else if(f.full_pos >= 0) {
            f.f.err_at = R(f.full_pos, static_cast<int64_t>(want.size()) + 1);
            f.f.err_no = ENOSPC;
            f.f.err_once = false;
         }
         Out o = guarded(f, [&] {
            vfs::Armed armed(f.f);
            if(name.empty() && s.a[5] & 1) {
               spp::print_to_file(p, A);
            } else {
               spp::print_to_file(p, A, name);
            }
         });
         bool hard = vfs::hard_fired(), mem = alloc::fired() > 0;
         std::string got;
         bool exists = vfs::get(p, got);
         uint64_t h = mix2(hash_bytes(want.data(), want.size()),
                           static_cast<uint64_t>(o) * 8 + hard * 4 + mem * 2 + static_cast<uint64_t>(exists));
         h = mix2(h, mix2(got.size(), static_cast<uint64_t>(f.f.chunk * 64 + f.f.intr * 8 + f.f.close_errno)));
         state(h);
         log_u64(h);
         note("want \"" + show(want) + "\" got \"" + show(got) + "\" outcome " + std::to_string(static_cast<int>(o)));
         if(o == Out::Done) {
            SIM_COUNT("probe.written");
            if(hard) {
               bad("silent", "print_to_file returned although an operation on the file failed");
            }
            if(!exists || got != want) {
               bad("content", "print_to_file returned but the file holds \"" + show(got) + "\" instead of \""
                                  + show(want) + "\"");
            }
         } else {
            SIM_COUNT("probe.write_rejected");
            if(!hard && !mem) {
               bad("rejected", "print_to_file failed without any fault");
            }
            // After a transient error the stream may write its buffer again; it was reported all the same.
            if(exists && f.f.open_errno == 0 && !mem && !f.f.err_once && want.compare(0, got.size(), got) != 0) {
               bad("content", "failed print_to_file left something that is no prefix of the text: \"" + show(got)
                                  + "\"");
            }
         }
      });
      check_contents("after print_to_file");
      if(vfs::open_files() != 0) {
         bad("leak", "file left open");
      }
   }
   void op_write_stream(const Step& s) {
      Active f = take_faults(false, false);
      set_format(s);
      FormatGuard guard;
      with_subject(s, [&](const auto& A) {
         std::ostringstream os;
         os << A;
         std::string want = os.str();
         int64_t lim = f.full_pos >= 0 ? R(f.full_pos, static_cast<int64_t>(want.size()) + 1)
                     : f.err_pos >= 0  ? R(f.err_pos, static_cast<int64_t>(want.size()) + 1)
                                       : -1;
         OutBuf ob(lim, f.err_pos >= 0, s.a[3] % 3 == 0 ? 1 + R(s.a[3] / 3, 300) : 0);
         std::ostream out(&ob);
         if(f.throws) {
            out.exceptions(std::ios::badbit);
         }
         Out o = guarded(f, [&] { out << A; });
         bool mem = alloc::fired() > 0;
         // What is still held back fails now, after the operator has returned.
         bool failed = out.fail();
         try {
            out.flush();
         } catch(...) {
         }
         uint64_t h = mix2(hash_bytes(want.data(), want.size()), static_cast<uint64_t>(o) * 8 + ob.fired);
         state(mix2(h, ob.got.size()));
         log_u64(h);
         if(mem) {
            if(want.compare(0, ob.got.size(), ob.got) != 0 && o != Out::Done) {
               bad("content", "stream received something that is no prefix of the text");
            }
         } else {
            if(want.compare(0, ob.got.size(), ob.got) != 0) {
               bad("content", "stream received \"" + show(ob.got) + "\" instead of \"" + show(want) + "\"");
            }
            if(!ob.fired && (o != Out::Done || ob.got != want || out.fail())) {
               bad("content", "fault-free output incomplete: \"" + show(ob.got) + "\"");
            }
            if(ob.fired && !failed && o == Out::Done) {
               bad("silent", "stream output failed without a trace in the stream state");
            }
            if(o != Out::Done && !f.throws) {
               bad("outcome", "output to a failing stream threw although the stream asks for no exceptions");
            }
         }
      });
      check_contents("after output");
   }

   // ---- round trip --------------------------------------------------------------------------------
   std::string token_of(T v) const {
      if constexpr(std::is_integral_v<T>) {
         return std::to_string(v);
      }
      [[maybe_unused]] int digits = asked;
      if constexpr(std::is_floating_point_v<T> || is_quad) {
         digits = asked < 0 ? static_cast<int>(spp::format.template precision<T>().val()) : asked;
      }
      if constexpr(std::is_integral_v<T>) {
         return {};
      } else if constexpr(is_quad) {
#ifdef STRICT_QUAD_PRECISION
         char b[9000];
         std::string fm = "%.*" + std::string(spp::format.is_scientific() ? "Qe" : "Qf");
         quadmath_snprintf(b, sizeof b, fm.c_str(), digits, v);
         return b;
#endif
      } else {
         char b[9000];
         std::string fm = "%.*" + std::string(std::is_same_v<T, long double> ? "L" : "")
                        + (spp::format.is_scientific() ? "e" : "f");
         snprintf(b, sizeof b, fm.c_str(), digits, v);
         return b;
      }
   }
   void op_round(const Step& s, bool two_d) {
      Active f = take_faults(false, true);
      f.f.open_errno = f.f.close_errno = 0;
      f.f.err_at = -1;
      set_format(s);
      FormatGuard guard;
      spp::array_format.detailed(false);
      V want;
      bool skip = false;
      for(T v : two_d ? mb : ma) {
         T w{};
         Tok k = classify<T>(token_of(v), w);
         if(k == Tok::Invalid) {
            skip = true; // printed with so few digits that it rounds out of the range
         }
         want.push_back(w);
      }
      if(skip) {
         SIM_COUNT("probe.round_skipped");
         return;
      }
      std::string p = vfs::path("f2");
      bool via_stream = s.a[3] % 4 == 0;
      A1 ra(R(s.a[4], 5));
      A2 rb(R(s.a[4], 3), R(s.a[4], 3));
      Out o;
      std::string mid;
      if(via_stream) {
         OutBuf ob(-1, false);
         std::ostream out(&ob);
         o = guarded(Active{}, [&] {
            if(two_d) {
               out << b;
            } else {
               out << a;
            }
         });
         mid = ob.got;
         InBuf ib(ob.got, f.f.chunk, f.f.chunk_seed, -1);
         std::istream in(&ib);
         if(o == Out::Done) {
            o = guarded(Active{}, [&] {
               if(two_d) {
                  in >> rb;
               } else {
                  in >> ra;
               }
            });
         }
      } else {
         vfs::remove(p);
         o = guarded(Active{}, [&] {
            vfs::Armed armed(f.f);
            if(two_d) {
               spp::print_to_file(p, b);
               spp::read_from_file(p, rb);
            } else {
               spp::print_to_file(p, a);
               spp::read_from_file(p, ra);
            }
         });
         vfs::get(p, mid);
      }
      uint64_t h = mix2(hash_bytes(mid.data(), mid.size()), static_cast<uint64_t>(o) * 2 + two_d);
      state(mix2(h, static_cast<uint64_t>(f.f.chunk * 8 + f.f.intr)));
      log_u64(h);
      note("text \"" + show(mid) + "\"");
      if(o != Out::Done) {
         bad("roundtrip", "writing and reading back failed; text \"" + show(mid) + "\"");
      }
      SIM_COUNT("probe.round_trip");
      if(!two_d) {
         if(ra.size().val() != static_cast<long>(want.size())) {
            bad("roundtrip", "size changed from " + std::to_string(want.size()) + " to "
                                 + std::to_string(ra.size().val()) + "; text \"" + show(mid) + "\"");
         }
         for(size_t i = 0; i < want.size(); ++i) {
            if(!same<T>(ra.un(static_cast<long>(i)).val(), want[i])) {
               bad("roundtrip", "element " + std::to_string(i) + " changed; text \"" + show(mid) + "\"");
            }
         }
      } else {
         if(rb.rows().val() != br || rb.cols().val() != bc) {
            bad("roundtrip", "shape changed; text \"" + show(mid) + "\"");
         }
         for(long i = 0; i < br; ++i) {
            for(long j = 0; j < bc; ++j) {
               if(!same<T>(rb.un(i, j).val(), want[static_cast<size_t>(i * bc + j)])) {
                  bad("roundtrip", "element changed; text \"" + show(mid) + "\"");
               }
            }
         }
      }
      check_contents("after the round trip");
      if(vfs::open_files() != 0) {
         bad("leak", "file left open");
      }
   }

   // ---- scalars -----------------------------------------------------------------------------------
   // Reference: the builtin extraction on an identical stream (for __float128, the token rule).
   void op_read_scalars(const Step& s) {
      Active f = take_faults(true, false);
      f.am = alloc::Mode::Off;
      std::string t = damage(make_text(false, s), f);
      int64_t err = f.err_pos >= 0 ? R(f.err_pos, static_cast<int64_t>(t.size()) + 1) : -1;
      InBuf b1(t, f.f.chunk, f.f.chunk_seed, err), b2(t, f.f.chunk, f.f.chunk_seed, err);
      std::istream i1(&b1), i2(&b2);
      if(f.throws) {
         i1.exceptions(std::ios::badbit);
         i2.exceptions(std::ios::badbit);
      }
      int fails = 0;
      for(int k = 0; k < 60 && fails < 4; ++k) {
         bool ref_ok;
         T ref{};
         if constexpr(is_quad) {
            std::string w;
            try {
               i2 >> w;
            } catch(const InjectedIo&) {
            } catch(const std::ios_base::failure&) {
            }
            ref_ok = !i2.fail();
            if(ref_ok) {
               Tok kind = classify<T>(w, ref);
               if(kind == Tok::Ambiguous) {
                  SIM_COUNT("probe.ambiguous_text");
                  return;
               }
               ref_ok = kind == Tok::Valid;
            }
         } else {
            try {
               i2 >> ref;
            } catch(const InjectedIo&) {
            } catch(const std::ios_base::failure&) {
            }
            ref_ok = !i2.fail();
         }
         Out o = guarded(f, [&] { i1 >> x; });
         uint64_t h = mix2(hash_bytes(t.data(), t.size()), static_cast<uint64_t>(k * 8 + static_cast<int>(o) * 2 + ref_ok));
         state(mix2(h, static_cast<uint64_t>(f.f.chunk)));
         log_u64(h);
         if(o == Out::Done) {
            if(!ref_ok) {
               bad(b1.fired() ? "silent" : "accepted",
                   "scalar read number " + std::to_string(k) + " succeeded on \"" + show(t) + "\"");
            }
            SIM_COUNT("probe.accepted");
            mx = ref;
            check_contents("after a successful scalar read");
         } else {
            if(ref_ok) {
               bad("rejected", "scalar read number " + std::to_string(k) + " rejected valid input \"" + show(t) + "\"");
            }
            SIM_COUNT("probe.rejected");
            check_contents("after a failed scalar read");
         }
         if(i1.rdstate() != i2.rdstate() && !is_quad) {
            bad("position", "stream state differs from the builtin extraction on \"" + show(t) + "\"");
         }
         if(!ref_ok) {
            ++fails;
            i1.clear();
            i2.clear();
            int c1 = -2, c2 = -2;
            try {
               c1 = i1.get();
            } catch(const InjectedIo&) {
            } catch(const std::ios_base::failure&) {
            }
            try {
               c2 = i2.get();
            } catch(const InjectedIo&) {
            } catch(const std::ios_base::failure&) {
            }
            if(c1 != c2) {
               bad("position", "a failed scalar read consumed more or less than the builtin one on \"" + show(t) + "\"");
            }
            i1.clear();
            i2.clear();
         }
      }
   }

   void op_preset(const Step& s) {
      Rng r(static_cast<uint64_t>(s.a[1]));
      static const long sizes[] = {0, 1, 2, 3, 5, 8, 9, 16, 17, 40, 300};
      if(s.a[0] % 3 != 1) {
         long n = sizes[R(s.a[2], s.a[3] % 7 == 0 ? 11 : 9)];
         A1 t(n);
         ma.clear();
         for(long i = 0; i < n; ++i) {
            T v = gen_value<T>(r, false);
            t.un(i) = S{v};
            ma.push_back(v);
         }
         a.swap(t);
      }
      if(s.a[0] % 3 != 0) {
         br = sizes[R(s.a[3], 8)];
         bc = br ? 1 + R(s.a[4], 6) : 0;
         A2 t(br, bc);
         mb.clear();
         for(long i = 0; i < br; ++i) {
            for(long j = 0; j < bc; ++j) {
               T v = gen_value<T>(r, true);
               t.un(i, j) = S{v};
               mb.push_back(v);
            }
         }
         b.swap(t);
      }
      check_contents("after setting up");
   }

   void run(const Plan& p) {
      prop = p.prop;
      reset_format();
      uint64_t live0 = alloc::live_sut();
      int i = 0;
      for(auto& s : p.steps) {
         set_step(i++);
         log_u64(static_cast<uint64_t>(s.op));
         switch(s.op) {
         case op_fault:
            pending.push_back(s);
            break;
         case op_preset_arrays:
            op_preset(s);
            break;
         case op_read1:
            op_read_stream(s, false);
            break;
         case op_read2:
            op_read_stream(s, true);
            break;
         case op_read_file1:
            op_read_file(s, false);
            break;
         case op_read_file2:
            op_read_file(s, true);
            break;
         case op_print_file:
            op_write_file(s);
            break;
         case op_print_stream:
            op_write_stream(s);
            break;
         case op_round1:
            op_round(s, false);
            break;
         case op_round2:
            op_round(s, true);
            break;
         case op_scalars:
            op_read_scalars(s);
            break;
         default:
            break;
         }
         if(const char* e = alloc::take_error()) {
            bad("memory", e);
         }
      }
      (void)live0;
   }
};

} // namespace sim::streams
