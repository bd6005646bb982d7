// helpers of the demonstrations
#pragma once
#include <slide.hpp>
#include <iostream>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <cmath>
#include <cstdlib>
#include <memory>
using namespace slide;
#define EXPECT(c, msg)                                     \
  do {                                                     \
    if (!(c)) {                                            \
      std::cout << "\ndemo: wrong: " << msg << std::endl;  \
      std::_Exit(1);                                       \
    }                                                      \
  } while (0)
inline std::string slurp(const std::string &n)
{
  std::ifstream f(n);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
inline std::vector<double> states(StorageUnit &u)
{
  std::vector<double> v;
  u.getStates(v);
  return v;
}
