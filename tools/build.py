#!/usr/bin/env python3
"""Builds SIREN's own sources (from $SIREN_REPO, default /repo, working tree) plus a harness.

configs:
  san    clang ASan+UBSan, -O1, NDEBUG, cereal polymorphic registration off (much faster to compile)
  sanreg as san, registration on (only for the serialization harness)
  tsan   clang ThreadSanitizer
  sched  callbacks at every edge, load and store of SIREN's code, where the harness injects scheduling delays
  opt    clang -O2 without sanitizers (thorough statistical sweeps)
Objects are cached by content through a private ccache under /verif/.cache, so nothing outside /verif is written.
"""
import os, subprocess, sys, shutil, glob, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIREN_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
PROJECTS = 'utilities serialization math dataclasses geometry detector distributions interactions injection'.split()
DEPS = {
 'utilities': [], 'serialization': [], 'math': ['utilities'], 'dataclasses': ['math', 'utilities'],
 'geometry': ['math'], 'detector': ['geometry', 'dataclasses', 'math', 'utilities'],
 'interactions': ['dataclasses', 'math', 'utilities', 'detector', 'geometry'],
 'distributions': ['interactions', 'detector', 'dataclasses', 'math', 'utilities', 'geometry'],
 'injection': ['distributions', 'interactions', 'detector', 'dataclasses', 'math', 'utilities', 'geometry', 'serialization'],
}
UB = 'address,undefined'
NOSAN = 'float-divide-by-zero,vptr,function,null' # null/vptr need RTTI of everything; ASan catches the dereference
CONFIG = {
 'san': ('-O1 -g1 -DNDEBUG -D_GLIBCXX_ASSERTIONS -fsanitize=%s -fno-sanitize=vptr,function -fsanitize-ignorelist=%s/shims/san_ignore.txt -fno-sanitize-recover=undefined -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern' % (UB, VERIF), True),
 'sanreg': ('-O1 -g1 -DNDEBUG -D_GLIBCXX_ASSERTIONS -fsanitize=%s -fno-sanitize=vptr,function -fsanitize-ignorelist=%s/shims/san_ignore.txt -fno-sanitize-recover=undefined -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern' % (UB, VERIF), False),
 'tsan': ('-O1 -g1 -DNDEBUG -fsanitize=thread', True),
 'sched': ('-O1 -g1 -DNDEBUG -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores', True),
 'opt': ('-O2 -g1 -DNDEBUG', True),
}
CXX = '/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'

def includes(noreg):
    inc = []
    if noreg:
        inc.append('-I%s/shims_noreg' % VERIF)
    inc += ['-I%s/projects/%s/public' % (REPO, p) for p in PROJECTS]
    inc += ['-isystem %s/shims' % VERIF, '-isystem %s/vendor/rk' % REPO, '-isystem %s/vendor/crundec3' % REPO, '-isystem ' + __import__('sysconfig').get_paths()['include']]
    inc += ['-I%s/harness' % VERIF]
    return ' '.join(inc)

def sources(projects):
    out = []
    for p in projects:
        try: cm = open('%s/projects/%s/CMakeLists.txt' % (REPO, p)).read()
        except OSError: cm = None
        for root, dirs, files in os.walk('%s/projects/%s/private' % (REPO, p)):
            dirs[:] = sorted(d for d in dirs if d not in ('test', 'pybindings'))
            for f in sorted(files):
                if not f.endswith('.cxx'): continue
                path = os.path.join(root, f)
                if f.startswith('py') and f[2:3].isupper(): continue      # python trampolines
                if 'Marley' in f or 'Pythia' in f: continue               # optional, off in this build
                if cm is not None and '/' + f not in cm: continue          # dead file, not part of the library
                out.append(path)
    if 'interactions' in projects:      # vendored libraries the interactions link against
        out += ['%s/vendor/rk/rk/rk.cc' % REPO, '%s/vendor/rk/rk/geom3.cc' % REPO, '%s/vendor/crundec3/CRunDec3.1/CRunDec.cpp' % REPO]
    return out

def closure(projects):
    seen = []
    def go(p):
        for d in DEPS[p]:
            go(d)
        if p not in seen: seen.append(p)
    for p in projects: go(p)
    return seen

class BuildError(Exception): pass

def build(harness, projects, config='san', libs='-lgsl -lgslcblas -lz', verbose=False, extra='', dryrun=False):
    """compile the projects' closure + harness/<harness>.cc, return path of the executable"""
    flags, noreg = CONFIG[config]
    bdir = os.path.join(CACHE, 'build', config)
    os.makedirs(bdir, exist_ok=True)
    cc = shutil.which('ccache')
    env = dict(os.environ, CCACHE_DIR=os.path.join(CACHE, 'ccache'), CCACHE_MAXSIZE='3G', CCACHE_COMPILERCHECK='content',
               CCACHE_SLOPPINESS='pch_defines,time_macros', LC_ALL='C', CCACHE_NOHASHDIR='1')
    env.pop('CCACHE_DISABLE', None)
    n = ['builddir = %s' % bdir,
         'cxx = %s%s' % ('ccache ' if cc else '', CXX),
         'rule cc', '  command = $cxx -std=c++17 %s %s -w $x %s -MMD -MF $out.d -c $in -o $out' % (flags, extra, includes(noreg)),
         '  depfile = $out.d', '  deps = gcc',
         'rule cch', '  command = $cxx -std=c++17 %s %s -w $x %s -MMD -MF $out.d -c $in -o $out' % (flags, extra, includes(False)),
         '  depfile = $out.d', '  deps = gcc',
         'rule ccp', '  command = $cxx -std=c++17 %s %s -w %s -MMD -MF $out.d -c $in -o $out' % (' '.join(f for f in flags.split() if 'coverage' not in f), extra, includes(noreg)),
         '  depfile = $out.d', '  deps = gcc',
         'rule ar', '  command = rm -f $out && ar rcs $out $in',
         'rule link', '  command = %s %s $in -o $out %s -lpthread' % (CXX, ' '.join(f for f in flags.split() if 'sanitize' in f and 'coverage' not in f), libs)]
    objs = []
    for s in sources(closure(projects)):
        o = '%s/%s.o' % (bdir, os.path.relpath(s, REPO).replace('/', '__'))
        n.append('build %s: cc %s' % (o, s)); objs.append(o)
        if noreg and '/injection/private/' in s: n.append('  x = -I%s/shims_inj' % VERIF)      # without the python trampoline
    lib = '%s/lib_%s.a' % (bdir, harness)
    n.append('build %s: ar %s' % (lib, ' '.join(objs)))
    # harness/<name>.cc and harness/<name>_*.cc; a file that says MON-REG in its first line sees the real cereal registration macros
    hos = []
    for f in [harness + '.cc'] + sorted(os.path.basename(x) for x in glob.glob('%s/harness/%s_*.cc' % (VERIF, harness))):
        src = '%s/harness/%s' % (VERIF, f)
        o = '%s/h_%s.o' % (bdir, f)
        n.append('build %s: %s %s' % (o, 'ccp' if config == 'sched' else 'cch' if 'MON-REG' in open(src).readline() else 'cc', src)); hos.append(o)
        if noreg and harness in ('h_inject', 'h_save'): n.append('  x = -I%s/shims_inj%s' % (VERIF, ' -O0 -g0' if harness == 'h_save' else ''))      # h_save registers every class: mind the time to compile
    ho = ' '.join(hos)
    exe = '%s/%s' % (bdir, harness)
    n.append('build %s: link %s %s' % (exe, ho, lib))
    nf = '%s/%s.ninja' % (bdir, harness)
    open(nf, 'w').write('\n'.join(n) + '\n')
    if dryrun: return exe
    import fcntl
    lock = open(os.path.join(bdir, '.lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    for o in objs + hos + [lib]:      # never trust timestamps: contents decide, through ccache
        if os.path.exists(o): os.remove(o)
    r = subprocess.run(['ninja', '-f', nf, '-C', bdir, exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        lines=[l for l in r.stdout.splitlines() if 'error' in l and 'command' not in l][:30]
        raise BuildError('\n'.join(lines) or r.stdout[-4000:])
    return exe

if __name__ == '__main__':
    print(build(sys.argv[1], sys.argv[3:], sys.argv[2]))
