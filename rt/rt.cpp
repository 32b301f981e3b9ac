// Definitions of the libstdc++ functions that live in libstdc++.so, so that they are executed symbolically like everything else.
#include <unordered_map>
#include <list>
#include <map>
#include <cmath>
#include <bit>
namespace std {
  namespace __detail {
    // same contract as libstdc++: some bucket count >= n (powers of two instead of the prime table)
    size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = 2; while (b < n) b *= 2; if (b < 13) b = 13; _M_next_resize = b; return b; }
    pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const {
      if (n_elt + n_ins > _M_next_resize) { size_t want = n_elt + n_ins; if (want >= n_bkt) return {true, _M_next_bkt(max(want + 1, n_bkt * 2))}; _M_next_resize = n_bkt; return {false, 0}; }
      return {false, 0};
    }
    void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
    void _List_node_base::_M_unhook() noexcept { auto* n = _M_next; auto* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
    void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
      if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first; auto* tmp = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp; }
    }
  }
  size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; size_t h = seed ^ 0xcbf29ce484222325ull; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ull; } return h; }
}
// standard exception classes (their key functions live in libstdc++.so)
#include <stdexcept>
#include <new>
#include <functional>
#include <optional>
#include <variant>
#include <typeinfo>
#include <cstring>
#include <cstdlib>
namespace std {
  exception::~exception() noexcept {}
  const char* exception::what() const noexcept { return "std::exception"; }
  // reference counted message, as in libstdc++: [count][chars...]
  static const char* msgNew(const char* s, size_t n) { char* p = (char*)malloc(n + 9); *(size_t*)p = 1; for (size_t i = 0; i < n; i++) p[8 + i] = s[i]; p[8 + n] = 0; return p + 8; }
  __cow_string::__cow_string() { _M_p = msgNew("", 0); }
  __cow_string::__cow_string(const char* s, size_t n) { _M_p = msgNew(s, n); }
  __cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = o._M_p; ++*(size_t*)(_M_p - 8); }
  __cow_string& __cow_string::operator=(const __cow_string& o) noexcept { ++*(size_t*)(o._M_p - 8); if (!--*(size_t*)(_M_p - 8)) free((char*)_M_p - 8); _M_p = o._M_p; return *this; }
  __cow_string::~__cow_string() { if (!--*(size_t*)(_M_p - 8)) free((char*)_M_p - 8); }
  logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
  logic_error::logic_error(const string& s) : _M_msg(s.data(), s.size()) {}
  logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
  logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
  logic_error::~logic_error() noexcept {}
  const char* logic_error::what() const noexcept { return _M_msg._M_p; }
  runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
  runtime_error::runtime_error(const string& s) : _M_msg(s.data(), s.size()) {}
  runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
  runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
  runtime_error::~runtime_error() noexcept {}
  const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define DERIVED(N, B) N::N(const char* s) : B(s) {} N::N(const string& s) : B(s) {} N::~N() noexcept {}
  DERIVED(invalid_argument, logic_error) DERIVED(length_error, logic_error) DERIVED(out_of_range, logic_error) DERIVED(domain_error, logic_error) DERIVED(range_error, runtime_error) DERIVED(overflow_error, runtime_error) DERIVED(underflow_error, runtime_error)
  bad_alloc::~bad_alloc() noexcept {}
  const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
  bad_array_new_length::~bad_array_new_length() noexcept {}
  const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
  bad_function_call::~bad_function_call() noexcept {}
  const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
  bad_cast::~bad_cast() noexcept {}
  const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
  void __throw_length_error(const char* s) { throw length_error(s); }
  void __throw_logic_error(const char* s) { throw logic_error(s); }
  void __throw_out_of_range(const char* s) { throw out_of_range(s); }
  void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
  void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
  void __throw_runtime_error(const char* s) { throw runtime_error(s); }
  void __throw_bad_function_call() { throw bad_function_call(); }
  void __throw_bad_alloc() { throw bad_alloc(); }
  void __throw_bad_array_new_length() { throw bad_array_new_length(); }
}
extern "C" void symrt_throw_bad_alloc() { throw std::bad_alloc(); }
