"""Builds the harness binaries from /repo's current working tree.

Every .cpp file of /repo/matslise (language bindings excluded) is compiled with the symbolic scalar:
the only file that is replaced is util/instantiate.h, which lists the scalar types the templates are
instantiated for.  Objects are cached by content hash in /verif/build (git-ignored).
"""
import concurrent.futures as cf
import hashlib
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
BUILD = os.environ.get('SX_BUILD', os.path.join(VERIF, 'build'))
Z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'
Z3LIB = os.path.join(Z3, 'lib', 'libz3.so.5.3')
EXCLUDE = ('pyslise', 'js')
CXXF = ['-std=c++17', '-w', '-fno-strict-aliasing', '-pipe']
DEFS = ['-DNDEBUG', '-D_GLIBCXX_ASSERTIONS', '-DWITH_MATSCS', '-DMATSLISE_VERSION="sx"']


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(hashlib.sha256(p).digest())
    return h.hexdigest()[:20]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def repo_sources():
    """relative path -> content of all C++ sources of the library"""
    out = {}
    root = os.path.join(REPO, 'matslise')
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if not (d == root and x in EXCLUDE))
        for f in sorted(files):
            if f.endswith(('.cpp', '.h', '.hpp', '.tpp', '.inc', '.cc')):
                p = os.path.join(d, f)
                out[os.path.relpath(p, root)] = read(p)
    return out


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd), p.stdout[-2500:]))
    return p.stdout


LOCKS = {}
LOCK = threading.Lock()


def atomically(target, make):
    """one thread at a time makes the file"""
    with LOCK:
        lock = LOCKS.setdefault(target, threading.Lock())
    with lock:
        return atomically1(target, make)


def atomically1(target, make):
    """make(tmp path) writes the file; moved into place when done"""
    if os.path.exists(target):
        return target
    tmp = '%s.%d.%d.%d.tmp' % (target, os.getpid(), threading.get_ident() % 1000003, time.time_ns() % 1000000007)
    try:
        make(tmp)
        os.replace(tmp, target)
    finally:
        if os.path.exists(tmp):
            os.unlink(tmp)
    return target


def header_config(group_src):
    """harness files start with lines '// sx: key value'"""
    conf = {'tags': '0', 'opt': '-O0', 'skip': '', 'repodefs': ''}
    for line in group_src.splitlines():
        m = re.match(r'//\s*sx:\s*(\w+)\s+(.*)$', line)
        if m:
            conf[m.group(1)] = m.group(2).strip()
    return conf


def instantiate_h(tags, group, native):
    lines = ['#ifndef INSTANTIATE_MORE', '#define INSTANTIATE_MORE(Scalar)', '#endif',
             '#ifndef INSTANTIATE_MATSLISE', '#define INSTANTIATE_MATSLISE(Scalar)', '#endif',
             '#define INSTANTIATE_ALL(Scalar) INSTANTIATE_MATSLISE(Scalar) INSTANTIATE_MORE(Scalar)',
             '#include "sx_repo.h"']
    stub = os.path.join(VERIF, 'harness', group + '.stubs.h')
    if os.path.exists(stub):
        lines.append('#include "%s"' % stub)
    for t in tags:
        lines.append('INSTANTIATE_ALL(sx::SymT<%s>)' % t)
    if native:
        lines.append('#include "%s"' % os.path.join(VERIF, 'harness', 'multi.h'))
        lines.append('INSTANTIATE_ALL(%s)' % native)
    return '\n'.join(lines) + '\n'


def build(group, log=None):
    """returns (path of the harness binary, build seconds)"""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    engine_dir = os.path.join(VERIF, 'engine')
    src_path = os.path.join(VERIF, 'harness', group + '.cpp')
    src = read(src_path).decode()
    conf = header_config(src)
    tags = conf['tags'].split(',')
    sources = repo_sources()
    eng = {f: read(os.path.join(engine_dir, f)) for f in sorted(os.listdir(engine_dir))
           if f.endswith(('.h', '.cpp'))}
    har = {f: read(os.path.join(VERIF, 'harness', f)) for f in sorted(os.listdir(os.path.join(VERIF, 'harness')))
           if f.endswith('.h')}
    inst = instantiate_h(tags, group, conf.get('native'))
    stub = har.get(group + '.stubs.h', b'')
    headers = sha(*[k.encode() + b'\0' + v for k, v in sources.items() if not k.endswith('.cpp')])
    engh = sha(*[eng[f] for f in eng if f.endswith('.h')], inst, stub, ' '.join(DEFS))
    allh = sha(headers, engh)
    work = os.path.join(BUILD, 'src-' + allh + '-' + sha(*[k.encode() + v for k, v in sources.items()])[:8] + '-' + group)
    if not os.path.exists(work):
        tmp = work + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
        shutil.rmtree(tmp, ignore_errors=True)
        for k, v in sources.items():
            p = os.path.join(tmp, 'matslise', k)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(v)
        with open(os.path.join(tmp, 'matslise', 'util', 'instantiate.h'), 'w') as f:
            f.write(inst)
        try:
            os.rename(tmp, work)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)

    incs = ['-I' + engine_dir, '-I' + os.path.join(VERIF, 'harness'), '-I' + work,
            '-I' + os.path.join(work, 'matslise'), '-I/usr/include/eigen3']
    opt = conf['opt'].split()
    CXX = conf.get('cxx', 'clang++').split() + CXXF
    z3sha = str(os.stat(Z3LIB).st_size)
    # precompiled forced header
    pchkey = sha(' '.join(CXX), eng['sx.h'], eng['sx_eigen.h'], ' '.join(opt + DEFS))
    pchdir = os.path.join(BUILD, 'pch-' + pchkey)
    os.makedirs(pchdir, exist_ok=True)
    for f in ('sx.h', 'sx_eigen.h'):
        atomically(os.path.join(pchdir, f), lambda t: open(t, 'wb').write(eng[f]) and None)
    gnu = CXX[0].startswith('g')
    pch = os.path.join(pchdir, 'sx_eigen.h.gch' if gnu else 'sx_eigen.h.pch')
    force = ['-include', os.path.join(pchdir, 'sx_eigen.h')] if gnu else ['-include-pch', pch]

    jobs = []

    def engine_job():
        o = os.path.join(BUILD, 'engine-%s.o' % sha(eng['sx.cpp'], eng['sx.h'], z3sha))
        return atomically(o, lambda t: run(['clang++'] + CXXF + ['-O2', '-c', '-I' + Z3 + '/include', '-I' + engine_dir,
                                                  os.path.join(engine_dir, 'sx.cpp'), '-o', t]))

    def repo_job(rel):
        o = os.path.join(BUILD, 'repo-%s-%s.o' % (rel.replace('/', '_')[:-4], sha(
            allh, sources[rel], ' '.join(opt), conf['repodefs'], ' '.join(CXX))))
        return atomically(o, lambda t: run(CXX + opt + DEFS + conf['repodefs'].split() + force + incs + [
            '-g1', '-c', os.path.join(work, 'matslise', rel), '-o', t]))

    def harness_job():
        key = sha(' '.join(CXX), allh, src, *har.values(), ' '.join(opt))
        o = os.path.join(BUILD, 'harness-%s-%s.o' % (group, key))
        return atomically(o, lambda t: run(CXX + opt + DEFS + force + incs + [
            '-DSX_TAGS=' + conf['tags'].replace(',', '_'), '-c', src_path, '-o', t]))

    skip = set(conf['skip'].split())
    with cf.ThreadPoolExecutor(8) as ex:
        eng_f = ex.submit(engine_job)
        atomically(pch, lambda t: run(CXX + opt + DEFS + ['-I/usr/include/eigen3', '-x', 'c++-header', os.path.join(pchdir, 'sx_eigen.h'), '-o', t]))
        har_f = ex.submit(harness_job)
        rels = [r for r in sources if r.endswith('.cpp') and os.path.dirname(r).split('/')[0] not in skip and r not in skip]
        rels.sort(key=lambda r: -len(sources[r]))
        repo_f = [ex.submit(repo_job, r) for r in rels]
        objs = [f.result() for f in repo_f] + [har_f.result(), eng_f.result()]
    exe = os.path.join(BUILD, 'bin-%s-%s' % (group, sha(*objs)))
    # the library goes into an archive-like group so that unused units need not resolve
    def link(t):
        lib = t + '.a'
        run(['ar', 'rcs', lib] + objs[:-2])
        try:
            run(['g++', '-no-pie', '-o', t, objs[-2], objs[-1], lib, Z3LIB, '-Wl,-rpath,' + os.path.dirname(Z3LIB),
                 '-lgmpxx', '-lgmp', '-lpthread'] + conf.get('libs', '').split())
        finally:
            os.unlink(lib)
    atomically(exe, link)
    return exe, time.time() - t0, objs[:-2], conf


if __name__ == '__main__':
    for g in sys.argv[1:]:
        exe, s, objs, _ = build(g)
        print(exe, '%.1fs' % s)
