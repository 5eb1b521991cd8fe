// Helpers for views: calls made through a possibly throwing value function, retried once on the same iterator.
#pragma once
#include "world.hpp"
#include <exception>

// Runs f; if the injected fault comes out of it, remembers it, runs f again (the fault fires once) and lets the
// caller go on; the fault is rethrown at the end by rethrow().
struct Retry {
  std::exception_ptr saved;
  template <class F>
  decltype(auto) operator()(F&& f) {
    try {
      return f();
    } catch (...) {
      if (saved)
        throw;
      saved = std::current_exception();
    }
    return f();
  }
  void rethrow() {
    if (saved)
      std::rethrow_exception(std::exchange(saved, nullptr));
  }
};
