#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree. Usage: build.py [variant ...]"""
import hashlib, os, re, subprocess, sys, fcntl, glob, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SYMS = ('malloc calloc realloc free fopen fclose fread fwrite fseek ftell rewind fputc fflush ferror feof open close read write lseek '
        'fstat stat lstat mmap munmap remove unlink rename fopen64 open64 fstat64 stat64 mmap64 fseeko ftello strdup strndup fileno fsync '
        'access fgetc fputs __asan_memcpy __asan_memmove __asan_memset strlen strcmp strncmp memcmp strchr memchr strtod strtoul').split()
VARIANTS = {
    'v0': [],
    'v1': ['-DMJS_INIT_OFFSET_SIZE=0', '-DMJS_OBJECT_ARENA_SIZE=4', '-DMJS_PROPERTY_ARENA_SIZE=4', '-DMJS_FUNC_FFI_ARENA_SIZE=2',
           '-DMJS_OBJECT_ARENA_INC_SIZE=3', '-DMJS_PROPERTY_ARENA_INC_SIZE=3', '-DMJS_FUNC_FFI_ARENA_INC_SIZE=2'],
    'v2': [],
}
# v2 is v0 whose engine reports every step between two branches: other engines can get their turn anywhere in it
ENGINE_ONLY = {'v2': ['-fsanitize-coverage=edge,trace-pc']}
CC, CXX = 'clang', 'clang++'
BASE = ['-g1', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address', '-w']
ENG = ['-std=gnu99', '-fexceptions', '-ftrivial-auto-var-init=pattern', '-DMJS_EXPOSE_PRIVATE', '-DCS_ENABLE_STDIO', '-DCS_MMAP', '-DMJS_MODULE_LINES', '-DMJS_SIM']


def sources():
    mk = open(f'{REPO}/src/mjs_sources.mk').read().replace('\\\n', ' ')
    out = []
    for var in ('COMMON_SOURCES', 'MJS_SOURCES'):
        m = re.search(rf'^{var}\s*=(.*)$', mk, re.M)
        out += m.group(1).split()
    return out


def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()


def run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(' '.join(cmd) + '\n' + r.stdout + r.stderr)


def build(variant='v0'):
    """Returns the path of the simrun binary for the variant."""
    os.makedirs(BUILD, exist_ok=True)
    if variant in ENGINE_ONLY:
        build('v0')
    with open(os.path.join(BUILD, f'.lock-{variant}'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(BUILD, variant)
        os.makedirs(d, exist_ok=True)
        flags = VARIANTS[variant]
        eflags = flags + ENGINE_ONLY.get(variant, [])
        ds = os.path.join(BUILD, 'v0' if variant in ENGINE_ONLY else variant)
        hdrs = [f for f in glob.glob(f'{REPO}/src/**/*.h', recursive=True)]
        srcs = [f'{REPO}/src/{s}' for s in sources()]
        sims = sorted(glob.glob(f'{VERIF}/sim/*.cpp'))
        simh = sorted(glob.glob(f'{VERIF}/sim/*.h'))
        key = digest(hdrs + srcs + sims + simh + [os.path.abspath(__file__)] + sorted(glob.glob(f'{REPO}/lib/*.js')), ' '.join(eflags))
        binp = os.path.join(d, 'simrun')
        stamp = os.path.join(d, 'stamp')
        if os.path.exists(binp) and os.path.exists(stamp) and open(stamp).read() == key:
            return binp
        inc = [f'-I{REPO}/src', f'-I{REPO}/src/frozen', f'-I{REPO}']
        hd = digest(hdrs, ' '.join(eflags + ENG + BASE))
        sd = digest(hdrs + simh, ' '.join(flags + BASE) + REPO)
        jobs, eobj, sobj = [], [], []

        def one(src, obj, cmd, k):
            st = obj + '.k'
            kk = digest([src], k)
            if os.path.exists(obj) and os.path.exists(st) and open(st).read() == kk:
                return
            run(cmd + ['-c', src, '-o', obj])
            open(st, 'w').write(kk)
        ex = ThreadPoolExecutor(8)
        for s in srcs:
            o = os.path.join(d, 'e_' + os.path.relpath(s, f'{REPO}/src').replace('/', '_') + '.o')
            eobj.append(o)
            jobs.append(ex.submit(one, s, o, [CC] + BASE + ENG + eflags + inc, hd))
        for s in sims:
            o = os.path.join(ds, 's_' + os.path.basename(s) + '.o')
            sobj.append(o)
            if ds != d:
                continue
            jobs.append(ex.submit(one, s, o, [CXX, '-std=c++17'] + BASE + ['-DMJS_EXPOSE_PRIVATE', '-DCS_ENABLE_STDIO', '-DCS_MMAP', f'-DREPO_DIR="{REPO}"'] + flags + inc + [f'-I{VERIF}/sim'], sd))
        for j in jobs:
            j.result()
        # Allocations that are told apart by the file that makes them: the cell arenas (out of memory there ends the
        # process by design, so it is never simulated), growing buffers, JSON scanning and printing, message texts.
        per = {'e_mjs_gc.c.o': ('gc', 'calloc malloc'), 'e_common_mbuf.c.o': ('mbuf', 'realloc malloc calloc'),
               'e_frozen_frozen.c.o': ('frozen', 'realloc malloc calloc'), 'e_common_str_util.c.o': ('text', 'malloc')}
        for i, o in enumerate(eobj):
            if os.path.basename(o) in per:
                tag, fns = per[os.path.basename(o)]
                run(['objcopy'] + [f'--redefine-sym={f}=sim_{tag}_{f}' for f in fns.split()] + [o, o + '.tagged'])
                eobj[i] = o + '.tagged'
        comb = os.path.join(d, 'engine.o')
        run(['ld', '-r', '-o', comb] + eobj)
        red = []
        for s in SYMS:
            red += [f'--redefine-sym={s}=sim_{s}']
        run(['objcopy'] + red + [comb])
        run([CXX, '-fsanitize=address', '-o', binp, comb] + sobj + ['-lm', '-ldl', '-lpthread'])
        open(stamp, 'w').write(key)
        return binp


if __name__ == '__main__':
    for v in (sys.argv[1:] or list(VARIANTS)):
        print(build(v))
