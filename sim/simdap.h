// included into the sources of the debug adapter: files come from a simulated disk, writes to the client are scheduling points
#pragma once
#include <cstdio>
#include <iostream>
#include <stdio.h>
#include <stdarg.h>
extern "C" FILE* sim_lang_fopen(const char *name, const char *mode);
extern "C" int sim_dap_fprintf(FILE *f, const char *format, ...);
extern "C" size_t sim_dap_fwrite(const void *p, size_t n, size_t k, FILE *f);
extern "C" int sim_dap_fputs(const char *s, FILE *f);
extern "C" int sim_dap_fflush(FILE *f);
#define fopen sim_lang_fopen
#define fprintf sim_dap_fprintf
#define fwrite sim_dap_fwrite
#define fputs sim_dap_fputs
#define fflush sim_dap_fflush
