// Put in front of every C file of the SPRNG library (gcc -include): heap and output go through rng.cpp.
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
extern FILE *rn_err;
void *rn_malloc(size_t);
void rn_free(void *);
int rn_printf(const char *, ...);
#undef stderr
#define stderr rn_err
#define printf rn_printf
#define malloc(a) rn_malloc(a)
#define free(a) rn_free(a)
