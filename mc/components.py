# What every check builds and runs.
import os, re
def inc(repo, mc): return ['-I' + repo, '-I' + repo + '/GTgraph/sprng2.0-lite/include', '-I' + mc, '-w']
ASAN = ['-fsanitize=address']
WRAP = ['-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc']
BASE = ['-std=c++17', '-O1', '-g1', '-include', 'cstdint', '-fopenmp', '-DCPP']

def shim_exe(src, defs, san=ASAN, extra=(), link=(), base=BASE):
    """one translation unit with the repository headers + the controlled OpenMP runtime"""
    def b(out, repo, mc):
        return [['g++', '-std=c++17', '-O1', '-g1', '-I' + mc, '-c', mc + '/omp_shim.cpp', '-o', out + '.shim.o'],
                ['g++'] + base + list(san) + list(defs) + list(extra) + inc(repo, mc) + ['-c', f'{mc}/{src}', '-o', out + '.o'],
                ['g++'] + list(san) + [out + '.o', out + '.shim.o', '-o', out] + (WRAP if '-DMC_WRAP_MALLOC' in defs else []) + list(link) + ['-lpthread']]
    return b

COMPONENTS = {}
GN = {1: 'hash', 2: 'msa', 4: 'heapmca', 8: 'old', 16: 'inner'}
TYPES = {'p': ('int', 'uint64_t', 1), 'd': ('uint64_t', 'double', 0), 'f': ('int', 'float', 0), 'l': ('long', 'uint64_t', 0), 'i': ('unsigned', 'int', 0)}
for g, gn in GN.items():
    for t, (it, nt, prim) in TYPES.items():
        COMPONENTS[f'core-{gn}-{t}'] = dict(weight=10, build=shim_exe('core.cpp', [f'-DMCX_GROUPS={g}', f'-DMCX_IT={it}', f'-DMCX_NT={nt}', f'-DMCX_ITN="{it}"', f'-DMCX_NTN="{nt}"', f'-DMCX_PRIMARY={prim}', '-DMC_WRAP_MALLOC']))
TOP = {32: 'hash', 64: 'heap', 128: 'heapcsc', 256: 'outer', 512: 'outer2', 1024: 'poly'}
for g, gn in TOP.items():
    for t, (it, nt, prim) in TYPES.items():
        if g in (256, 512):
            if t != 'd': continue
            it, nt, prim = 'int', 'double', 0
        COMPONENTS[f'top-{gn}-{t}'] = dict(weight=10, build=shim_exe('core.cpp', ['-DMCX_TOP', f'-DMCX_GROUPS={g}', f'-DMCX_IT={it}', f'-DMCX_NT={nt}', f'-DMCX_ITN="{it}"', f'-DMCX_NTN="{nt}"', f'-DMCX_PRIMARY={prim}', '-DMC_WRAP_MALLOC']))
COMPONENTS['scanwork'] = dict(weight=8, build=shim_exe('scanwork.cpp', []))
COMPONENTS['accum'] = dict(weight=12, build=shim_exe('accum.cpp', []))
def plain_exe(src, defs, san=ASAN, extra=(), link=(), std='-std=c++17', opt='-O1'):
    """one translation unit with the real libraries"""
    def b(out, repo, mc):
        return [['g++', std, opt, '-g1', '-include', 'cstdint', '-DCPP'] + list(san) + list(defs) + list(extra) + inc(repo, mc) + [f'{mc}/{src}', '-o', out] + list(link) + ['-lpthread']]
    return b

COMPONENTS['sorts'] = dict(weight=12, build=plain_exe('sorts.cpp', []))
COMPONENTS['sorts-old'] = dict(weight=6, build=plain_exe('sorts.cpp', ['-DMCX_OLD_VERGESORT']))
MT = {'d': ('int', 'double', 1), 'u': ('uint64_t', 'int', 0), 'f': ('long', 'float', 0), 'i': ('unsigned', 'int', 0)}
for t, (it, nt, prim) in MT.items():
    COMPONENTS[f'mats-{t}'] = dict(weight=8, build=shim_exe('mats.cpp', [f'-DMCX_IT={it}', f'-DMCX_NT={nt}', f'-DMCX_ITN="{it}"', f'-DMCX_NTN="{nt}"', f'-DMCX_PRIMARY={prim}', '-DMC_WRAP_MALLOC']))
def gtg_exe(k, d):
    """a GTgraph generator: its C files as they are, random streams, heap and files replaced (gtg_pre.h)"""
    def b(out, repo, mc):
        cs = sorted(f for f in os.listdir(f'{repo}/GTgraph/{d}') if f.endswith('.c'))
        I = [f'-I{repo}/GTgraph/{d}', f'-I{repo}/GTgraph/sprng2.0-lite/include', '-I' + mc, '-w']
        return [['gcc', '-O1', '-g1'] + ASAN + ['-include', mc + '/gtg_pre.h'] + I + ['-c', f'{repo}/GTgraph/{d}/{f}', '-o', f'{out}.{f}.o'] for f in cs] + [
                ['g++', '-std=c++17', '-O1', '-g1', '-include', 'cstdint', f'-DMCX_GTG={k}', '-I' + repo] + ASAN + I + [mc + '/gtg.cpp'] + [f'{out}.{f}.o' for f in cs] + ['-o', out, '-lpthread']]
    return b
for _k, (_n, _d) in enumerate((('rmat', 'R-MAT'), ('random', 'random'), ('ssca2', 'SSCA2')), 1): COMPONENTS['gtg-' + _n] = dict(weight=4, build=gtg_exe(_k, _d))
def rng_exe(out, repo, mc):
    """the SPRNG library: its C files as they are, heap and output replaced (rng_pre.h), and the three faces of sprng.h (rng_api.c)"""
    src = f'{repo}/GTgraph/sprng2.0-lite/src'
    fs = ['primes_32', 'primes_64', 'makeseed', 'store', 'memory', 'checkid', 'simple_mpi', 'communicate', 'lfg/lfg', 'lcg/lcg', 'lcg64/lcg64', 'cmrg/cmrg', 'mlfg/mlfg', 'sprng/sprng']
    objs = [f"{out}.{f.replace('/', '_')}.o" for f in fs]
    return [['gcc', '-O1', '-g1', '-w'] + ASAN + ['-include', mc + '/rng_pre.h', f'-I{src}', '-DAdd_', '-c', f'{src}/{f}.c', '-o', o] for f, o in zip(fs, objs)] + [
            ['gcc', '-O1', '-g1', '-w'] + ASAN + [f'-DRNG_API={k}', f'-I{repo}/GTgraph/sprng2.0-lite/include', f'-I{src}', '-c', mc + '/rng_api.c', '-o', f'{out}.api{k}.o'] for k in (1, 2, 3)] + [
            ['g++', '-std=c++17', '-O1', '-g1', '-I' + mc] + ASAN + [mc + '/rng.cpp'] + objs + [f'{out}.api{k}.o' for k in (1, 2, 3)] + ['-o', out]]
COMPONENTS['rng'] = dict(weight=4, build=rng_exe)
COMPONENTS['grb'] = dict(weight=18, build=plain_exe('grb.cpp', [], extra=['-fopenmp'], link=['-lgraphblas']))
for d, n in enumerate('tricnt tricntgrb ktruss bc'.split(), 1):
    COMPONENTS[f'driver-{n}'] = dict(weight=18, build=plain_exe('drivers.cpp', [f'-DMCX_DRIVER={d}'], extra=['-fopenmp'], link=['-lgraphblas']))
HBSYMS = ['--redefine-sym=%s=mc_%s' % (x, x) for x in 'memcpy memmove memset malloc calloc realloc aligned_alloc posix_memalign'.split()]
def hb_exe(src, defs, base=BASE, runtime='', link=()):
    """instrumented for the happens-before detector (hb.cpp replaces the ThreadSanitizer runtime)"""
    def b(out, repo, mc):
        objs = [out + '.o', out + '.hb.o', out + '.shim.o']
        st = [['g++', '-std=c++17', '-O1', '-g1', '-w', '-I' + mc, '-c', f'{mc}/{s}.cpp', '-o', f'{out}.{o}.o'] for s, o in [('omp_shim', 'shim'), ('hb', 'hb')] + ([(runtime, 'rt')] if runtime else [])]
        if runtime: objs.append(out + '.rt.o')
        return st + [['g++'] + base + ['-fsanitize=thread', '-DMCX_HB'] + list(defs) + inc(repo, mc) + ['-c', f'{mc}/{src}', '-o', out + '.o'],
                     ['objcopy'] + HBSYMS + [out + '.o'],
                     ['g++'] + objs + ['-o', out] + list(link) + ['-lpthread']]
    return b
def thr_exe(src, defs):
    """one translation unit with the repository sources + the controlled std::thread runtime"""
    def b(out, repo, mc):
        return [['g++', '-std=c++17', '-O1', '-g1', '-I' + mc, '-w', '-c', f'{mc}/{s}.cpp', '-o', f'{out}.{s}.o'] for s in ('omp_shim', 'pthr')] + [
                ['g++', '-std=c++17', '-O1', '-g1'] + ASAN + list(defs) + inc(repo, mc) + ['-c', f'{mc}/{src}', '-o', out + '.o'],
                ['g++'] + ASAN + [out + '.o', out + '.omp_shim.o', out + '.pthr.o', '-o', out, '-lpthread']]
    return b
COMPONENTS['parmat'] = dict(weight=9, build=thr_exe('parmat.cpp', []))
COMPONENTS['parmat-hb'] = dict(weight=9, build=hb_exe('parmat.cpp', [], base=['-std=c++17', '-O1', '-g1'], runtime='pthr'))
HBT = ['-DMCX_IT=int', '-DMCX_NT=uint64_t', '-DMCX_ITN="int"', '-DMCX_NTN="uint64_t"', '-DMCX_PRIMARY=1']
for g, gn in GN.items(): COMPONENTS[f'core-hb-{gn}'] = dict(weight=11, build=hb_exe('core.cpp', [f'-DMCX_GROUPS={g}'] + HBT))
for g, gn in TOP.items(): COMPONENTS[f'top-hb-{gn}'] = dict(weight=11, build=hb_exe('core.cpp', ['-DMCX_TOP', f'-DMCX_GROUPS={g}'] + (HBT if g not in (256, 512) else ['-DMCX_IT=int', '-DMCX_NT=double', '-DMCX_ITN="int"', '-DMCX_NTN="double"', '-DMCX_PRIMARY=0'])))
COMPONENTS['scanwork-hb'] = dict(weight=8, build=hb_exe('scanwork.cpp', []))
COMPONENTS['mats-hb'] = dict(weight=8, build=hb_exe('mats.cpp', ['-DMCX_IT=int', '-DMCX_NT=double', '-DMCX_ITN="int"', '-DMCX_NTN="double"', '-DMCX_PRIMARY=1']))
for _n, _c in COMPONENTS.items():
    if _n.startswith(('driver-', 'grb')): _c['hang'] = 90          # CPU seconds of all threads without progress
    elif '-hb' in _n: _c['hang'] = 40
def mats(types, thorough_types=''):
    return [dict(comp='mats-' + t, thorough_only=t not in types) for t in types + thorough_types]
def core(groups, types, thorough_types=''):
    r = []
    for t in types + thorough_types:
        for g in groups:
            r.append(dict(comp=f'core-{GN[g]}-{t}', thorough_only=t not in types))
    return r

def top(names, thorough_only=False):
    return [dict(comp='top-' + n, thorough_only=thorough_only) for n in names.split()]

def hb(names): return [dict(comp=n) for n in names.split()]
RACE = 'memory is sequentially consistent (the explored executions are shown to be free of data races, for which that is what C++ guarantees); schedules that only reorder segments the detector has shown to be independent are not repeated'
SHIM = 'the OpenMP runtime is a controlled replacement that runs one thread at a time and implements the constructs as GOMP specifies them'
FINITE = 'values outside the enumerated patterns, sizes and thread counts are not covered'
HASHVAL = 'uint64_t values are position tags combined by a 64-bit hash; two different multisets of products would have to collide to be confused'
CHECKS = {
    'M01': dict(parts=core([1, 2, 4, 8], 'pd', 'fli'), assumptions=[SHIM, FINITE, HASHVAL], rule='states = distinct operand triples; transitions = rows processed by an implementation run'),
    'M02': dict(parts=core([1, 2, 4], 'pd', 'fli'), assumptions=[SHIM, FINITE, HASHVAL]),
    'M03': dict(parts=core([16], 'pd', 'fli'), assumptions=[SHIM, FINITE, HASHVAL]),
    'M04': dict(parts=core([1, 2, 4, 8, 16], 'p') + top('hash-p heap-p poly-p'), assumptions=[SHIM, FINITE, HASHVAL]),
    'M05': dict(parts=core([1, 2, 4, 8, 16], 'p') + top('hash-p heap-p poly-p') + hb('core-hb-hash core-hb-msa core-hb-heapmca core-hb-old core-hb-inner top-hb-hash top-hb-heap top-hb-poly top-hb-heapcsc top-hb-outer top-hb-outer2'), technique='exhaustive exploration of thread interleavings of the real code within preemption bounds, with happens-before race detection on every access', assumptions=[SHIM, FINITE, HASHVAL, RACE]),
    'M06': dict(parts=core([1, 2, 4, 8, 16], 'p', 'd') + top('hash-p heap-p poly-p heapcsc-p outer-d outer2-d'), assumptions=[SHIM, FINITE]),
    'M07': dict(parts=core([1, 2, 4, 8, 16], 'p') + top('hash-p heap-p poly-p heapcsc-p outer-d outer2-d'), assumptions=[SHIM, FINITE, HASHVAL]),
    'M08': dict(parts=core([1, 2, 4, 8, 16], 'p') + top('hash-p heap-p poly-p heapcsc-p'), assumptions=[SHIM, FINITE, HASHVAL]),
    'M09': dict(parts=core([1, 2, 4, 8, 16], 'p', 'd') + top('hash-p heap-p poly-p heapcsc-p outer-d outer2-d'), assumptions=[SHIM, FINITE, 'AddressSanitizer redzones: an out-of-bounds access that lands in another live block is not seen']),
    'L10': dict(parts=top('hash-p heap-p poly-p hash-d heap-d') + top('hash-f hash-l heap-f heap-l poly-d', True) + hb('top-hb-hash top-hb-heap top-hb-poly'), assumptions=[SHIM, FINITE, HASHVAL, RACE, 'these kernels get all the threads they ask for']),
    'L11': dict(parts=top('hash-p heap-p heapcsc-p outer-d outer2-d hash-d heapcsc-d') + top('hash-f hash-l heap-d heap-f heapcsc-f', True) + hb('top-hb-hash top-hb-heap top-hb-heapcsc top-hb-outer top-hb-outer2'), assumptions=[SHIM, FINITE, HASHVAL, RACE, 'these kernels get all the threads they ask for']),
    'U16': dict(parts=[dict(comp='scanwork')] + hb('scanwork-hb'), assumptions=[SHIM, FINITE, RACE]),
    'U17': dict(parts=[dict(comp='scanwork')] + hb('scanwork-hb'), assumptions=[SHIM, FINITE, RACE]),
    'F12': dict(parts=mats('du', 'fi') + [dict(comp='grb')] + hb('mats-hb'), assumptions=[SHIM, FINITE, RACE]),
    'F13': dict(parts=mats('d', 'u'), assumptions=[FINITE, 'AddressSanitizer decides double frees and uses after free; empty (0-byte) blocks are not counted as leaks']),
    'F14': dict(parts=mats('du', 'f') + hb('mats-hb'), assumptions=[SHIM, FINITE, RACE]),
    'I15': dict(parts=mats('du', 'fi'), assumptions=[FINITE, 'files are well formed']),
    'A18': dict(parts=[dict(comp='accum')], assumptions=[FINITE, 'operations are applied in the orders the row algorithms use them (mask first, no insertion beyond the announced size)']),
    'S19': dict(parts=[dict(comp='sorts'), dict(comp='sorts-old')], assumptions=[FINITE, 'comparators are strict weak orders']),
    'Q21': dict(parts=[dict(comp='parmat'), dict(comp='parmat-hb')], technique='exhaustive exploration of thread interleavings of the real code within preemption / delay bounds, with all short sequences of random answers', assumptions=[FINITE, 'std::thread, mutexes, condition variables, futures and the random engine are controlled replacements; memory is sequentially consistent', 'parameters for which the generator itself announces trouble (regions too small for the edges asked for) are left out']),
    'T22': dict(parts=[dict(comp='gtg-rmat'), dict(comp='gtg-random'), dict(comp='gtg-ssca2')], assumptions=[FINITE, 'the SPRNG library is replaced by streams that give the enumerated answers: the quality of its random numbers is not examined', 'answers exactly on the threshold between two quadrants are left out']),
    'R23': dict(parts=[dict(comp='rng')], technique='exhaustive enumeration of operation histories of the real library, each in a process of its own, against a reference model of every stream', assumptions=[FINITE, 'the published test sequences of the five generators are taken as right', 'a prime-addend family of streams is not grown beyond the numbers an int holds']),
    'G20': dict(parts=[dict(comp='grb'), dict(comp='driver-tricnt'), dict(comp='driver-tricntgrb'), dict(comp='driver-ktruss'), dict(comp='driver-bc')], assumptions=[FINITE, 'the real OpenMP runtime and the installed GraphBLAS 7.4.0 run the drivers: their thread interleavings are not controlled here (M05 covers the masked products)']),
}
