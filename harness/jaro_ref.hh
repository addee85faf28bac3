// Jaro similarity, written from its published definition (M. Jaro 1989).
#pragma once
#include <algorithm>
#include <string>
#include <vector>
inline double jaro_ref(std::string const &a, std::string const &b) {
  if (a.empty() || b.empty()) return 0;
  if (a == b) return 1;
  long win = (long) std::max(a.size(), b.size()) / 2 - 1;
  std::string ma, mb;
  std::vector<bool> used(b.size(), false);
  for (long i = 0; i < (long) a.size(); i++)
    for (long j = 0; j < (long) b.size(); j++) {
      if (used[(size_t) j] || a[(size_t) i] != b[(size_t) j] || std::labs(i - j) > win) continue;
      used[(size_t) j] = true;
      ma += a[(size_t) i];
      break;
    }
  for (size_t j = 0; j < b.size(); j++) if (used[j]) mb += b[j];
  if (ma.empty()) return 0;
  double m = (double) ma.size(), half = 0;
  for (size_t i = 0; i < ma.size(); i++) if (ma[i] != mb[i]) half++;
  return (m / (double) a.size() + m / (double) b.size() + (m - half / 2) / m) / 3;
}
