// Thin driver support: deterministic inputs, printing of inputs and outputs.  The contracts themselves are evaluated by /verif/props.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <vector>
#include <string>
#include <cmath>
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed*6364136223846793005ULL + 1442695040888963407ULL) { for(int i=0;i<4;i++) next(); }
    uint32_t next() { s = s*6364136223846793005ULL + 1442695040888963407ULL; return (uint32_t)(s >> 33); }
    int i(int lo, int hi) { return lo + (int)(next()%(uint32_t)(hi - lo + 1)); }
    double d() { return (i(-40, 40))/8.0; }
    double u(double lo, double hi) { return lo + (hi - lo)*(next()/2147483648.0); }
};
static void Case(const char* n) { printf("case %s\n", n); fflush(stdout); }
static void End() { printf("end\n"); }
static void Out(const char* k, double v) { printf("%s 1 %.17g\n", k, v); fflush(stdout); }
static void Out(const char* k, const std::vector<double>& v) { printf("%s %d", k, (int)v.size()); for(double x : v) printf(" %.17g", x); printf("\n"); fflush(stdout); }
static void OutI(const char* k, const std::vector<int>& v) { printf("%s %d", k, (int)v.size()); for(int x : v) printf(" %d", x); printf("\n"); fflush(stdout); }
