// Independent reference for partitions: connected components and their finest coarsening under a pair of operators
#pragma once
#include <vector>
#include <map>
#include <set>
#include <numeric>
namespace ref {
  struct uf {
    std::vector<int> p;
    explicit uf(int n = 0) : p(n) { std::iota(p.begin(), p.end(), 0); }
    int find(int x) const { while (p[x] != x) x = p[x]; return x; }
    bool join(int a, int b) {
      a = find(a); b = find(b);
      if (a == b) return false;
      if (a < b) p[b] = a; else p[a] = b;
      return true;
    }
  };
  // all images of one class must lie in one class, for each operator (list of edges): smallest fixpoint
  template <typename Edges> void close_under(uf &u, std::vector<Edges const *> const &ops) {
    bool again = true;
    while (again) {
      again = false;
      for (auto *e : ops) {
        std::map<int, int> target; // class -> class
        for (auto const &[ij, v] : *e) {
          int a = u.find(ij.first), b = u.find(ij.second);
          auto it = target.find(a);
          if (it == target.end()) target[a] = b;
          else if (u.join(it->second, b)) again = true;
        }
      }
    }
  }
} // namespace ref
