#pragma once
#include "engine.hpp"
#include <dirent.h>
#include <unistd.h>
extern "C" {
#include "heclib.h"
#include "hecdss.h"
}
using eng::Case;
using eng::fmt;
inline void quiet() { if (getenv("HECV_MLVL")) { zset("mlvl", "", atoi(getenv("HECV_MLVL"))); return; } zsetMessageLevel(0, 0); zset("MLVL", "", 0); }
inline int openFds() { int n = 0; if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); } return n; }
