// Comparison of log directories
#ifndef LOGDIR_HPP_
#define LOGDIR_HPP_

#include <cmath>
#include <set>
#include <string>
#include <vector>

#include "files.hpp"

inline std::set<std::string> Files(const std::string & dir)
{
  std::set<std::string> out;
  DIR * d = opendir(dir.c_str());
  while (dirent * e = readdir(d)) {if (e->d_name[0] != '.') {out.insert(e->d_name);}}
  closedir(d);
  return out;
}

// The first difference between two log directories, other than how long things took
inline std::string Difference(const std::string & a, const std::string & b, bool same, size_t * rows = nullptr)
{
  auto x = Files(a), y = Files(b);
  for (auto & f : x) {if (!y.count(f)) {return "file " + f + " is not expected";}}
  for (auto & f : y) {if (!x.count(f)) {return "file " + f + " is missing";}}
  for (auto & f : x) {
    auto p = Lines(a + f), q = Lines(b + f);
    if (p.size() != q.size()) {return f + ": " + std::to_string(p.size()) + " lines, want " + std::to_string(q.size());}
    if (p.empty()) {continue;}
    if (p[0] != q[0]) {return f + ": header " + p[0] + " want " + q[0];}
    auto head = Split(p[0]);
    std::vector<double> scale(head.size(), 0.0);
    for (size_t i = 1; i < q.size(); ++i) {
      auto w = Split(q[i]);
      for (size_t k = 0; k < w.size() && k < scale.size(); ++k) {
        double v = atof(w[k].c_str());
        if (std::isfinite(v)) {scale[k] = std::max(scale[k], std::abs(v));}
      }
    }
    for (size_t i = 1; i < p.size(); ++i) {
      if (rows) {++*rows;}
      auto v = Split(p[i]), w = Split(q[i]);
      if (v.size() != w.size()) {return f + " line " + std::to_string(i) + ": number of columns";}
      for (size_t k = 0; k < v.size(); ++k) {
        if (v[k] == w[k] || (k < head.size() && head[k] == "duration_0")) {continue;}
        double m = atof(v[k].c_str()), n = atof(w[k].c_str());
        if (!same && std::abs(m - n) <= 1e-4 * (k < scale.size() ? scale[k] : 0.0) + 1e-9) {continue;}
        return f + " line " + std::to_string(i) + " column " + (k < head.size() ? head[k] : std::to_string(k)) + ": " + v[k] + " want " + w[k];
      }
    }
  }
  return "";
}

#endif  // LOGDIR_HPP_
