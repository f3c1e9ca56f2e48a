#include "wrap.hpp"
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <sys/stat.h>
WriteLog gWriteLog; static dev_t wdev; static ino_t wino; static bool on;
void WriteLog::start(const char *path) { struct stat s; on = !stat(path, &s); wdev = s.st_dev; wino = s.st_ino; w.clear(); count = failed = 0; }
void WriteLog::stop() { on = false; record = false; failAt = -1; }
extern "C" void __sanitizer_set_report_fd(void *);
extern "C" void __sanitizer_print_stack_trace(void);
extern "C" ssize_t __real_write(int, const void *, size_t);
extern "C" ssize_t __wrap_write(int fd, const void *b, size_t n) {
  struct stat s; if (!on || fstat(fd, &s) || s.st_dev != wdev || s.st_ino != wino) return __real_write(fd, b, n);
  WriteLog &g = gWriteLog; int k = g.count++;
  if (g.failAt >= 0 && (k == g.failAt || (g.failKind == 2 && k > g.failAt))) { g.failed++; if (const char *t = getenv("HECV_WBT")) { __sanitizer_set_report_fd((void *)(long)open(t, O_WRONLY | O_CREAT | O_APPEND, 0644)); __sanitizer_print_stack_trace(); } if (g.failKind == 1 && n > 1) return __real_write(fd, b, n / 2); errno = ENOSPC; return -1; }
  if (g.record) g.w.push_back({(long long)lseek(fd, 0, SEEK_CUR), std::string((const char *)b, n)});
  return __real_write(fd, b, n);
}
// Waits for locks can be shortened where no other process holds any
unsigned gSleepDivisor = 1;
extern "C" int __real_usleep(unsigned);
extern "C" int __wrap_usleep(unsigned t) { return __real_usleep(t / gSleepDivisor); }
