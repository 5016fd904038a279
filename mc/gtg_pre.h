// Put in front of every C file of a GTgraph generator (gcc -include): the process boundary goes through gtg.cpp.
#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <math.h>
extern FILE *gt_err;
void gt_exit(int) __attribute__((noreturn));
FILE *gt_fopen(const char *, const char *);
int gt_fclose(FILE *);
void *gt_malloc(size_t);
void *gt_calloc(size_t, size_t);
void *gt_realloc(void *, size_t);
void gt_free(void *);
#undef stderr
#define stderr gt_err
#define printf(...) fprintf(gt_err, __VA_ARGS__)
#define exit(c) gt_exit(c)
#define fopen(a, b) gt_fopen(a, b)
#define fclose(a) gt_fclose(a)
#define malloc(a) gt_malloc(a)
#define calloc(a, b) gt_calloc(a, b)
#define realloc(a, b) gt_realloc(a, b)
#define free(a) gt_free(a)
#define main gt_main
