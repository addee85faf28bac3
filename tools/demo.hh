// Helpers of the demonstrations.
#pragma once
#include <cmdr11/cmdr11.hh>
#include <fcntl.h>
#include <iostream>
#include <sstream>
#include <unistd.h>
using std::string;
using std::vector;
using cmdr::opt::cmd;
using cmdr::opt::opt;
using cmdr::opt::sub_cmd;
inline int failed = 0;
#define EXPECT(c) do { if (!(c)) { failed = 1; fprintf(stderr, "line %d: expected %s\n", __LINE__, #c); } } while (0)
struct Out { int rc; string out, err; };
inline Out run(cmdr::app &app, vector<string> words) {
  vector<char *> av;
  for (auto &w: words) av.push_back(w.data());
  av.push_back(nullptr);
  std::ostringstream o, e;
  auto *so = std::cout.rdbuf(o.rdbuf()), *se = std::cerr.rdbuf(e.rdbuf());
  int rc = app.run((int) words.size(), av.data());
  std::cout.rdbuf(so);
  std::cerr.rdbuf(se);
  return {rc, o.str(), e.str()};
}
inline cmdr::app &fresh() { return cmdr::app::create_new("demo", "1.0.0", "me", "(c) me", "a demo", "e"); }
