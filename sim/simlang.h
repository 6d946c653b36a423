// included into the sources of the language server and the debug adapter: files come from a simulated disk
#pragma once
#ifdef __cplusplus
#include <cstdio>
#endif
#include <stdio.h>
extern "C" FILE* sim_lang_fopen(const char *name, const char *mode);
#define fopen sim_lang_fopen
