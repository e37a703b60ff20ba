/* what a Lambert coefficient file says, independently of the library */
#pragma once
#include "fcn.hpp"
#include "mc.hpp"
#include <cmath>
#include <cstring>
#include <fstream>
#include <string>
#include <vector>
using ld = long double;
struct Row {
  int day;
  int tenths; /* of a day, in tenths */
  double re, im, sg;
};
static std::string spot(mc::Ctx &c, const std::string &text) {
  const std::string fn = c.tmpdir + "/table.txt";
  std::ofstream f(fn, std::ios::trunc | std::ios::binary);
  f << text;
  f.close();
  return fn;
}
