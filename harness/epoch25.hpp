#pragma once
#include <string>
#include <cstdint>
// the released sources
size_t ref25_count();
const char *ref25_name(size_t);
std::string ref25_trace(size_t, uint64_t, const std::string &);
// the current tree
size_t cur25_count();
const char *cur25_name(size_t);
std::string cur25_trace(size_t, uint64_t, const std::string &);
char *e25_arena(); // the same place for both
