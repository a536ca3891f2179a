#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>

struct Model { std::vector<u64> v; // by var index; missing = 0
  mutable std::unordered_map<u32, u128> memo;
  u64 get(u32 i) const { return i < v.size() ? v[i] : 0; }
  void set(u32 i, u64 x) { if (i >= v.size()) v.resize(i + 1, 0); v[i] = x; } };
typedef std::shared_ptr<Model> ModelP;
u128 evalE(E e, const Model& m);
double evalPoly(P p, const Model& m);

struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0, modelHits = 0; double time = 0, maxTime = 0; };
extern SolverStats SS;
// 1 sat, 0 unsat, -1 unknown. On sat, *out (if given) receives values for the variables involved.
int solverCheck(const std::vector<E>& cs, std::vector<std::pair<u32, u64>>* out);
void solverInit(unsigned timeoutMs);
std::string smtlibOf(const std::vector<E>& cs);
