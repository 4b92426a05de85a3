#!/usr/bin/env python3
"""Writes build.ninja that compiles the library from /repo's working tree (all blend2d/**/*.cpp except the
test programs, JIT and ARM-only files) into one static archive, plus one executable per harness driver."""
import os, re, sys

FEAT = {'sse2': '', 'sse3': '-msse3', 'ssse3': '-mssse3', 'sse4_1': '-msse4.1',
        'sse4_2': '-mpopcnt -mpclmul -msse4.2', 'avx': '-mpopcnt -mpclmul -mavx',
        'avx2': '-mpopcnt -mpclmul -mbmi -mbmi2 -mavx2 -DBL_TARGET_OPT_POPCNT -DBL_TARGET_OPT_BMI2'}
VARIANTS = {
    'plain':    ('g++', '-O1', ''),
    'dbg':      ('g++', '-O0 -g', ''),
    'nofutex':  ('g++', '-O1', '-DBL_BUILD_NO_FUTEX'),
    'asan':     ('g++', '-O1 -g1 -fsanitize=address -fno-omit-frame-pointer', '-DBL_VERIF_ASAN'),
    'sched':    ('g++', '-O1', '-DBL_VERIF_HOOKS -I$shadow '),
    'schednf':  ('g++', '-O1', '-DBL_VERIF_HOOKS -DBL_BUILD_NO_FUTEX -I$shadow '),
}
BASE = ('-std=c++17 -fvisibility=hidden -fno-math-errno -fno-threadsafe-statics -fno-exceptions -fno-rtti '
        '-fno-trapping-math -fno-finite-math-only -DBL_BUILD_OPT_AVX512 -DBL_BUILD_NO_JIT -DBL_STATIC -DNDEBUG -w')

def generate(repo, verif, variant, outdir, drivers):
    cxx, opt, defs = VARIANTS[variant]
    srcs = []
    for d, _, fs in os.walk(os.path.join(repo, 'blend2d')):
        if '/jit' in d: continue
        for f in fs:
            if not f.endswith('.cpp'): continue
            if re.search(r'_test(_\w+)?\.cpp$', f) or 'asimd' in f: continue
            srcs.append(os.path.join(d, f))
    srcs.sort(key=lambda s: (0 if 'fixedpiperuntime' in s or 'rastercontextops' in s else 1, -os.path.getsize(s), s))
    os.makedirs(outdir, exist_ok=True)
    with open(os.path.join(outdir, 'build.ninja.new'), 'w') as o:
        o.write('shadow = %s/harness/shadow\n' % verif)
        o.write('cxx = %s\nopt = %s\ndefs = %s\nbase = %s -I%s -I%s\n' % (cxx, opt, defs, BASE, repo, verif + '/harness'))
        o.write('rule cc\n command = $cxx $defs $base $opt $feat -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n')
        o.write('rule ar\n command = rm -f $out && ar crs $out $in\n')
        o.write('rule link\n command = $cxx $opt $lk -o $out $in -lpthread -ldl $libs\n')
        o.write('lk = %s\n' % ('-Wl,--wrap=pthread_create' if variant.startswith('sched') else ''))
        objs = []
        for s in srcs:
            ob = 'o/' + os.path.relpath(s, repo).replace('/', '_') + '.o'
            m = re.search(r'_(sse2|sse3|ssse3|sse4_1|sse4_2|avx|avx2)\.cpp$', s)
            o.write('build %s: cc %s\n feat = %s\n' % (ob, s, FEAT[m[1]] if m else ''))
            objs.append(ob)
        o.write('build libbl.a: ar ' + ' '.join(objs) + '\n')
        for d in drivers:
            o.write('build d/%s.o: cc %s/harness/%s.cpp\n' % (d, verif, d))
            o.write('build d/%s: link d/%s.o libbl.a\n' % (d, d))
    new, old = os.path.join(outdir, 'build.ninja.new'), os.path.join(outdir, 'build.ninja')
    if not os.path.exists(old) or open(old).read() != open(new).read(): os.replace(new, old)
    else: os.remove(new)
