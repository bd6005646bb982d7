// Scenario text: one line per item, "kind key=value ...".  A scenario is a complete, replayable run.
#pragma once
#include "core.hpp"
#include <cstdlib>
#include <cstdio>
#include <sstream>
#include <string>
#include <vector>
#include <map>

struct Line {
  std::string kind;
  std::vector<std::pair<std::string, std::string>> kv;
  Line() = default;
  Line(std::string k) : kind(std::move(k)) {}
  Line &set(const std::string &k, const std::string &v)
  {
    for (auto &p : kv)
      if (p.first == k) { p.second = v; return *this; }
    kv.emplace_back(k, v);
    return *this;
  }
  Line &set(const std::string &k, const char *v) { return set(k, std::string(v)); }
  Line &set(const std::string &k, double v) { return set(k, sim::strf("%.17g", v)); }
  Line &set(const std::string &k, int v) { return set(k, std::to_string(v)); }
  Line &set(const std::string &k, uint64_t v) { return set(k, std::to_string(v)); }
  Line &set(const std::string &k, int64_t v) { return set(k, std::to_string(v)); }
  bool has(const std::string &k) const
  {
    for (auto &p : kv)
      if (p.first == k) return true;
    return false;
  }
  std::string str(const std::string &k, const std::string &d = "") const
  {
    for (auto &p : kv)
      if (p.first == k) return p.second;
    return d;
  }
  double num(const std::string &k, double d = 0) const
  {
    for (auto &p : kv)
      if (p.first == k) return strtod(p.second.c_str(), nullptr);
    return d;
  }
  int64_t i(const std::string &k, int64_t d = 0) const
  {
    for (auto &p : kv)
      if (p.first == k) return strtoll(p.second.c_str(), nullptr, 10);
    return d;
  }
  uint64_t u(const std::string &k, uint64_t d = 0) const
  {
    for (auto &p : kv)
      if (p.first == k) return strtoull(p.second.c_str(), nullptr, 10);
    return d;
  }
  std::string text() const
  {
    std::string s = kind;
    for (auto &p : kv) s += " " + p.first + "=" + p.second;
    return s;
  }
};

struct Scn {
  std::vector<Line> lines;
  Line &add(const std::string &kind)
  {
    lines.emplace_back(kind);
    return lines.back();
  }
  const Line *find(const std::string &k) const
  {
    for (auto &l : lines)
      if (l.kind == k) return &l;
    return nullptr;
  }
  const Line &get(const std::string &k) const
  {
    static const Line empty;
    auto p = find(k);
    return p ? *p : empty;
  }
  std::vector<const Line *> all(const std::string &k) const
  {
    std::vector<const Line *> r;
    for (auto &l : lines)
      if (l.kind == k) r.push_back(&l);
    return r;
  }
  std::string text() const
  {
    std::string s;
    for (auto &l : lines) s += l.text() + "\n";
    return s;
  }
  static Scn parse(const std::string &t)
  {
    Scn s;
    std::istringstream is(t);
    std::string ln;
    while (std::getline(is, ln)) {
      if (ln.empty() || ln[0] == '#') continue;
      std::istringstream ls(ln);
      Line l;
      ls >> l.kind;
      std::string tok;
      while (ls >> tok) {
        auto e = tok.find('=');
        if (e == std::string::npos) l.kv.emplace_back(tok, "");
        else
          l.kv.emplace_back(tok.substr(0, e), tok.substr(e + 1));
      }
      if (!l.kind.empty()) s.lines.push_back(l);
    }
    return s;
  }
};

struct PropDef {
  std::string id;
  void (*gen)(sim::Rng &, Scn &, bool thorough);
  void (*run)(const Scn &);
};
std::vector<PropDef> &props();
struct RegProp { RegProp(const char *id, void (*g)(sim::Rng &, Scn &, bool), void (*r)(const Scn &)) { props().push_back({ id, g, r }); } };
