#pragma once
// views of caller-owned storage as standard vectors (never destroyed)
#include "vc.h"
#include <vector>
template <class T> struct VecView {
  alignas(std::vector<T>) unsigned char raw[sizeof(std::vector<T>)];
  VecView() {}
  VecView(T *p, long n) { set(p, n); }
  void set(T *p, long n) {
    auto v = reinterpret_cast<std::vector<T> *>(raw);
    v->_M_impl._M_start = p; v->_M_impl._M_finish = p + n; v->_M_impl._M_end_of_storage = p + n;
  }
  std::vector<T> &v() { return *reinterpret_cast<std::vector<T> *>(raw); }
};
