// Seam for std.file: files opened by NULLC/includes/file.cpp live on the simulated disk (sim/p_file.cpp). Real C stdio works on top of it.
#pragma once
#include <stdio.h>
#include <string>
extern "C" FILE* sim_fopen(const char *name, const char *mode);
namespace std { using ::sim_fopen; }
#define fopen sim_fopen
