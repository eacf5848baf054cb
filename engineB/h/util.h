#pragma once
#include "sym.h"
#include <string>
#include <vector>
#include <map>
typedef std::string S_;
#define GOAL(n) extern "C" void goal_##n()
static inline double sym_real(const char* name,double lo,double hi){ double x=sym_real(name); sym_assume(x>=lo); sym_assume(x<=hi); return x; }
