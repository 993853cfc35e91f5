// Replay / search runtime: runs only after an obligation of the verifier failed, to
// look for a concrete failing input of the real code. Independent of the verifier.
#pragma once
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <random>
#include <string>
#include <string_view>
#include <unistd.h>
#include <vector>

namespace rt {
inline std::string cur = "(none)";
inline unsigned long cases = 0;
inline std::string mode; // property under test
inline auto t0 = std::chrono::steady_clock::now();

inline std::string esc(std::string_view s)
{
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char>(c);
    } else if (c < 32 || c > 126) {
      std::snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    } else {
      r += static_cast<char>(c);
    }
  }
  return r + "\"";
}
inline void emit(const char* why)
{
  std::printf("FAILING-INPUT %s\n  observed: %s\n", cur.c_str(), why);
  std::fflush(stdout);
}
[[noreturn]] inline void fail(std::string const& why)
{
  emit(why.c_str());
  _exit(10);
}
inline void on_death()
{
  emit("the sanitizer stopped the program (memory error or undefined behaviour, see stderr)");
}
inline void on_sig(int s)
{
  emit(s == SIGALRM ? "does not terminate (no progress for 20 s)" : "the program was aborted (undefined behaviour reported on stderr, assertion, uncaught exception)");
  _exit(10);
}
inline void c(std::string s)
{
  cur = std::move(s);
  if ((cases++ & 127) == 0) {
    alarm(20);
  }
}
inline void check(bool ok, std::function<std::string()> why)
{
  if (!ok) {
    fail(why());
  }
}
inline void check(bool ok, const char* why)
{
  if (!ok) {
    fail(why);
  }
}
inline void check(bool ok, std::string const& why)
{
  if (!ok) {
    fail(why);
  }
}
inline bool time_left(double secs = 40)
{
  return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs;
}
inline std::mt19937_64& rng()
{
  static std::mt19937_64 g(std::getenv("VERIF_SEED") ? std::strtoull(std::getenv("VERIF_SEED"), nullptr, 10) : 1);
  return g;
}
inline std::size_t rnd(std::size_t n)
{
  return n == 0 ? 0 : static_cast<std::size_t>(rng()() % n);
}
// random text over an alphabet
inline std::string text(std::string_view alpha, std::size_t maxlen)
{
  std::string s(rnd(maxlen + 1), ' ');
  for (auto& x : s) {
    x = alpha[rnd(alpha.size())];
  }
  return s;
}
inline std::string bytes(std::size_t maxlen)
{
  std::string s(rnd(maxlen + 1), ' ');
  for (auto& x : s) {
    x = static_cast<char>(rnd(256));
  }
  return s;
}
// all texts over alpha up to length n
inline void all(std::string_view alpha, std::size_t n, std::function<void(std::string const&)> f)
{
  std::function<void(std::string&)> go = [&](std::string& s) {
    f(s);
    if (s.size() == n) {
      return;
    }
    for (char ch : alpha) {
      s.push_back(ch);
      go(s);
      s.pop_back();
    }
  };
  std::string s;
  go(s);
}
}

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" const char* __asan_default_options()
{
  return "detect_leaks=0:exitcode=10:allocator_may_return_null=1";
}
#endif
extern "C" const char* __ubsan_default_options()
{
  return "abort_on_error=1:print_stacktrace=1";
}

void search();
int main(int argc, char** argv)
{
  rt::mode = argc > 1 ? argv[1] : "";
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_set_death_callback(rt::on_death);
#endif
  std::signal(SIGABRT, rt::on_sig);
  std::signal(SIGALRM, rt::on_sig);
  search();
  alarm(0);
  std::printf("no failing input among %lu cases\n", rt::cases);
  return 0;
}
