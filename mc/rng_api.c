// the three ways sprng.h presents the library to a program: plain, with CHECK_POINTERS, with SIMPLE_SPRNG
#if RNG_API == 1
#define F(n) plain_##n
#elif RNG_API == 2
#define CHECK_POINTERS
#define F(n) chk_##n
#else
#define SIMPLE_SPRNG
#define F(n) simple_##n
#endif
#include <stdio.h>
#include "sprng.h"
#if RNG_API == 3
int *F(init)(int type, int seed, int param) { return init_sprng(type, seed, param); }
int F(int)(void) { return isprng(); }
double F(dbl)(void) { return sprng(); }
int F(pack)(char **b) { return pack_sprng(b); }
int *F(unpack)(char *b) { return unpack_sprng(b); }
int F(print)(void) { return print_sprng(); }
#else
int *F(init)(int type, int g, int total, int seed, int param) { return init_sprng(type, g, total, seed, param); }
int F(int)(int *s) { return isprng(s); }
double F(dbl)(int *s) { return sprng(s); }
int F(spawn)(int *s, int n, int ***r) { return spawn_sprng(s, n, r); }
int F(pack)(int *s, char **b) { return pack_sprng(s, b); }
int *F(unpack)(char *b) { return unpack_sprng(b); }
int F(free)(int *s) { return free_sprng(s); }
int F(print)(int *s) { return print_sprng(s); }
#endif
#undef sprng
#define FLOAT_GEN
#undef _sprng_h_
#undef free_sprng
#undef pack_sprng
#undef unpack_sprng
#undef isprng
#undef spawn_sprng
#undef init_sprng
#undef print_sprng
#include "sprng.h"
#if RNG_API == 3
float F(flt)(void) { return sprng(); }
#else
float F(flt)(int *s) { return sprng(s); }
#endif
