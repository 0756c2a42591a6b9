#pragma once
#include "core.h"
#include "sys.h"
struct Scenario { const char *prop; const char *name; void (*fn)(); int weight; };
extern std::vector<Scenario> &scenarios();
struct Reg { Reg(const char *p, const char *n, void (*f)(), int w = 1) { scenarios().push_back({p, n, f, w}); } };
#define SCENARIO(prop, name, weight) static void scen_##prop##_##name(); static Reg reg_##prop##_##name(#prop, #name, scen_##prop##_##name, weight); static void scen_##prop##_##name()
