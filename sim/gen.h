#pragma once
#include "scen.h"
// Generates data definitions and queries over them, in the program's own language.
struct Gen {
    Rng &r;
    s64 n;
    explicit Gen(Rng &r_, s64 n_) : r(r_), n(n_) {}
    std::vector<std::string> data();      // set-up statements defining the globals
    std::string query_();
    std::string query();                  // one expression
    std::string bad_query();              // one expression that ends in an error somewhere inside
};
