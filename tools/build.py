#!/usr/bin/env python3
"""Builds hxhim from /repo's working tree plus one harness driver, in a given flavour.

usage: build.py FLAVOUR DRIVER...      (prints the path of each binary)

Objects go to /verif/build/<flavour>; /repo is only read.
"""
import os, re, subprocess, sys, json, glob, shlex

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

COMMON = ['-g1', '-fno-omit-frame-pointer', '-pthread', '-w', '-D_GLIBCXX_ASSERTIONS']
FLAVOURS = {
    'plain': ['-O1'],
    'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=alignment,nonnull-attribute', '-fno-sanitize-recover=all',
             '-fsanitize-address-use-after-scope'],
    'tsan': ['-O1', '-fsanitize=thread'],
}
DRIVER = {('cli', 'asan'): '-fsanitize-recover=enum'}  # judged by the driver
OMPI = '/usr/lib/x86_64-linux-gnu/openmpi'
INC = ['-I' + REPO + '/include', '-isystem', OMPI + '/include', '-isystem', OMPI + '/include/openmpi']
DEFS = ['-DHXHIM_HAVE_LEVELDB=1', '-DHXHIM_HAVE_ROCKSDB=1', '-DSYSTEM_BIG_ENDIAN=0']
LIBS = ['-L' + OMPI + '/lib', '-lmpi_cxx', '-lmpi', '-lleveldb', '-lsnappy', '-lrocksdb', '-lpthread', '-lm', '-ldl']


def sources():
    """every source the repository's own build compiles: named in a CMakeLists.txt at or above it, or globbed there"""
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'src')):
        if '/Thallium' in root:
            continue
        tokens, globbed = set(), False
        d = root
        while True:
            cm = os.path.join(d, 'CMakeLists.txt')
            if os.path.exists(cm):
                txt = re.sub(r'#.*', '', open(cm).read())
                tokens |= {os.path.basename(t) for t in re.findall(r'[\w./+-]+', txt)}
                globbed |= bool(re.search(r'file\s*\(\s*GLOB', txt, re.I))
            if os.path.realpath(d) == os.path.realpath(os.path.join(REPO, 'src')):
                break
            d = os.path.dirname(d)
        for f in sorted(files):
            if f.endswith(('.cpp', '.c', '.cc', '.cxx')) and (f in tokens or globbed):
                out.append(os.path.join(root, f))
    return sorted(out)


def compiler():
    for cxx, cc in (('g++-11', 'gcc-11'), ('g++', 'gcc')):
        if subprocess.call(['which', cxx], stdout=subprocess.DEVNULL) == 0:
            return cxx, cc
    raise SystemExit('no compiler')


def build(wanted, extra_ld=()):
    """wanted: {flavour: [drivers]}; everything in one ninja run, the longest compilations (the drivers) first"""
    cxx, cc = compiler()
    q = lambda l: ' '.join(shlex.quote(x) for x in l)
    n, late, bins = ['ninja_required_version = 1.5'], [], []
    for flavour, drivers in sorted(wanted.items()):
        os.makedirs(os.path.join(BUILD, flavour), exist_ok=True)
        flags = COMMON + FLAVOURS[flavour]
        for rule, comp, std in (('cxx', cxx, ['-std=c++17']), ('cc', cc, []), ('hx', cxx, ['-std=c++17'])):
            inc = INC + (['-I' + VERIF + '/harness'] if rule == 'hx' else [])
            n += ['rule %s_%s' % (rule, flavour), '  command = %s %s $more -MMD -MF $out.d -c $in -o $out' % (comp, q(flags + std + DEFS + inc)),
                  '  depfile = $out.d', '  deps = gcc']
        n += ['rule link_' + flavour, '  command = %s %s -rdynamic $in -o $out %s' % (cxx, q(flags), q(list(extra_ld) + LIBS))]
        for d in drivers:
            n.append('build %s/%s.o: hx_%s %s/harness/%s.cpp' % (flavour, d, flavour, VERIF, d))
            n.append('  more = ' + DRIVER.get((d, flavour), ''))
            late.append('build %s/%s: link_%s %s/%s.o %s/libhxhim.a' % (flavour, d, flavour, flavour, d, flavour))
            bins.append('%s/%s' % (flavour, d))
    n += ['rule ar', '  command = rm -f $out && ar rcs $out $in']
    for flavour in sorted(wanted):
        objs = []
        for s in sources():
            o = flavour + '/lib/' + os.path.relpath(s, REPO).replace('/', '_') + '.o'
            n.append('build %s: %s_%s %s' % (o, 'cc' if s.endswith('.c') else 'cxx', flavour, s))
            objs.append(o)
        n.append('build %s/libhxhim.a: ar %s' % (flavour, ' '.join(objs)))
    name = 'build-' + '-'.join(b.replace('/', '_') for b in bins) + '.ninja'
    open(os.path.join(BUILD, name), 'w').write('\n'.join(n + late) + '\n')
    objs_first = [b + '.o' for b in bins]
    p = subprocess.run(['ninja', '-C', BUILD, '-f', name, '-j', str((os.cpu_count() or 8) + 2)] + objs_first + bins,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout, [os.path.join(BUILD, b) for b in bins]


if __name__ == '__main__':
    rc, out, bins = build({sys.argv[1]: sys.argv[2:]})
    if rc:
        print(out)
        sys.exit(rc)
    print('\n'.join(bins))
