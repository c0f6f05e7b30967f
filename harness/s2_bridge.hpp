// The angular families behind one small interface, so that their tables are compiled once.
#pragma once
#include <array>
#include <cstdint>
#include <vector>
namespace s2 {
inline const char* const NAME[4] = {"AhrensBeylkin", "Delley", "LebedevLaikov", "Womersley"};
struct Grid { std::vector<std::array<double, 3>> p; std::vector<double> w; size_t npts = 0; };
Grid make(int64_t fam, size_t npts);         // AngularQuad<double>(npts); may throw
int64_t npts_by_order(int64_t fam, int64_t order);
int64_t order_by_npts(int64_t fam, int64_t npts);
int64_t next_order(int64_t fam, int64_t order);
}  // namespace s2
