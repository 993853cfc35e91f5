// operation histories against a byte-queue model
#include "rt.hpp"
#include <deque>
#include <fitoria/core/dynamic_buffer.hpp>
using namespace fitoria;
namespace {
template <typename C> struct name { };
std::size_t huge(std::size_t k) { return static_cast<std::size_t>(-1) - k; }

template <typename C, typename E> void run(const char* cn, std::size_t limit, bool dflt, bool exist, unsigned steps)
{
  std::string h = std::string("dynamic_buffer<") + cn + ">";
  std::string model;
  C init;
  if (exist) {
    for (std::size_t i = 0, n = rt::rnd(20); i < n; ++i) {
      init.push_back(static_cast<E>(rt::rnd(256)));
      model.push_back(static_cast<char>(init.back()));
    }
    h += "(container of " + std::to_string(init.size()) + ")";
  } else {
    h += dflt ? "()" : "(" + std::to_string(limit) + ")";
  }
  rt::c(h);
  dynamic_buffer<C> b = exist ? dynamic_buffer<C>(std::move(init)) : dflt ? dynamic_buffer<C>() : dynamic_buffer<C>(limit);
  std::size_t const lim = (exist || dflt) ? C().max_size() : limit;
  std::string prepared;
  bool prep = false;
  for (unsigned s = 0; s <= steps; ++s) {
    auto view = [](auto buf) { return std::string(static_cast<char const*>(static_cast<void const*>(buf.data())), buf.size()); };
    auto const& k = b;
    rt::check(b.size() == model.size(), "size() is " + std::to_string(b.size()) + ", expected " + std::to_string(model.size()));
    rt::check(b.max_size() == lim, "max_size() changed");
    rt::check(view(b.data()) == model && view(k.data()) == model && view(b.cdata()) == model, "readable bytes are " + rt::esc(view(b.cdata())) + ", expected " + rt::esc(model));
    rt::check(b.capacity() >= model.size(), "capacity() smaller than the readable bytes");
    if (s == steps) {
      break;
    }
    switch (rt::rnd(8)) {
    case 0:
    case 1:
    case 2: {
      std::size_t n = rt::rnd(4) == 0 ? rt::rnd(limit + 3) : rt::rnd(8);
      if (rt::rnd(12) == 0) {
        n = huge(rt::rnd(3));
      }
      if (!(n > lim - std::min(lim, model.size())) && n > 4096) {
        n = 4096;
      }
      h += " prepare(" + std::to_string(n) + ")";
      rt::c(h);
      bool const toobig = n > lim - model.size();
      try {
        auto w = b.prepare(n);
        rt::check(!toobig, "prepare succeeded beyond the limit");
        rt::check(w.size() == n, "prepared size is " + std::to_string(w.size()));
        prepared.clear();
        for (std::size_t i = 0; i < n; ++i) {
          auto ch = static_cast<char>(rt::rnd(256));
          static_cast<char volatile*>(w.data())[i] = ch;
          prepared.push_back(ch);
        }
        rt::check(b.capacity() >= model.size() + n, "the prepared region of " + std::to_string(n) + " bytes does not fit the storage (capacity " + std::to_string(b.capacity()) + ", readable " + std::to_string(model.size()) + ")");
        prep = true;
      } catch (std::length_error const&) {
        rt::check(toobig, "prepare threw although the bytes fit the limit");
      }
      break;
    }
    case 3:
    case 4: {
      if (!prep) {
        break;
      }
      std::size_t n = rt::rnd(5) == 0 ? huge(rt::rnd(3)) : rt::rnd(2) ? prepared.size() : rt::rnd(prepared.size() + 3);
      h += " commit(" + std::to_string(n) + ")";
      rt::c(h);
      b.commit(n);
      model += prepared.substr(0, std::min(n, prepared.size()));
      prepared = prepared.substr(std::min(n, prepared.size()));
      break;
    }
    case 5:
    case 6: {
      std::size_t n = rt::rnd(7) == 0 ? huge(rt::rnd(3)) : rt::rnd(2) ? rt::rnd(4) : rt::rnd(model.size() + 3);
      h += " consume(" + std::to_string(n) + ")";
      rt::c(h);
      b.consume(n);
      model = model.substr(std::min(n, model.size()));
      prep = false;
      break;
    }
    default:
      if (rt::rnd(3) == 0) {
        h += " release()";
        rt::c(h);
        auto c = b.release();
        std::string got;
        for (auto x : c) {
          got.push_back(static_cast<char>(x));
        }
        rt::check(got == model, "released " + rt::esc(got) + ", expected " + rt::esc(model));
        model.clear();
        prep = false;
      }
    }
  }
}
}

void search()
{
  for (int i = 0; i < 60000 && rt::time_left(); ++i) {
    std::size_t const lim = rt::rnd(3) == 0 ? rt::rnd(5) : rt::rnd(40);
    bool const d = rt::rnd(8) == 0, e = rt::rnd(8) == 0;
    unsigned const steps = 1 + rt::rnd(i < 2000 ? 5 : 14);
    switch (i % 3) {
    case 0:
      run<std::string, char>("std::string", lim, d, e, steps);
      break;
    case 1:
      run<std::vector<std::byte>, std::byte>("std::vector<std::byte>", lim, d, e, steps);
      break;
    default:
      run<std::vector<std::uint8_t>, std::uint8_t>("std::vector<std::uint8_t>", lim, d, e, steps);
    }
  }
}
