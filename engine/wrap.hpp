// Every write() of the library (and of the checks) passes through __wrap_write,
// which can record the writes to one file, or make one of them fail.
#pragma once
#include <string>
#include <vector>
#include <sys/types.h>
struct WriteLog {
  struct W { long long off; std::string bytes; };
  std::vector<W> w;          // writes seen (when recording)
  bool record = false;
  int failAt = -1;           // index of the write that fails, -1 none
  int failKind = 0;          // 0: error, nothing written; 1: short, half written; 2: this and all later writes fail
  int count = 0, failed = 0; // writes to the file seen, writes made to fail
  void start(const char *path); // begins to watch the file
  void stop();
};
extern WriteLog gWriteLog;
extern unsigned gSleepDivisor;
