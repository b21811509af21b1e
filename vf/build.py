"""Build the real include-what-you-use binary out of the current working tree.

/repo is written against Clang 21 and this sandbox has the Clang 20 headers, so
two source files do not compile as they are.  A small *header overlay* (no
change to /repo) supplies the few missing Clang declarations; with it the whole
tool links against libclang-cpp.so.20.1.

Objects are cached by the hash of everything that goes into them, so a check
rebuilds exactly what a change in /repo touches.  The cache lives in
/verif/.build (ignored by git).
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-20'
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))

DEFS = ['-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS',
        '-D__STDC_LIMIT_MACROS', '-DIWYU_GIT_REV="verif"',
        '-DIWYU_RESOURCE_BINARY_PATH="%s/bin/clang-20"' % LLVM,
        '-DIWYU_RESOURCE_DIR=""', '-std=c++17', '-fPIC', '-fno-exceptions',
        '-funwind-tables', '-w']

FLAVORS = {
    # name: (compiler, flags)
    'rel': (LLVM + '/bin/clang++', ['-O0']),
    # llvm-20 ships no sanitizer run-time here; clang 18 does.
    'san': ('clang++', ['-O1', '-gline-tables-only',
                        '-fsanitize=address,undefined', '-fno-sanitize=vptr',
                        '-fno-sanitize-recover=all',
                        '-fno-omit-frame-pointer']),
    'cov': ('clang++', ['-O0', '-fprofile-instr-generate',
                        '-fcoverage-mapping']),
}


class BuildError(Exception):
    pass


def _sub1(text, pattern, repl, what):
    new, n = re.subn(pattern, repl, text, count=1, flags=re.S)
    if n != 1:
        raise BuildError('overlay: cannot patch ' + what)
    return new


def make_overlay(outdir):
    """Write patched copies of two Clang 20 headers below outdir."""
    inc = LLVM + '/include/clang/AST/'
    dst = os.path.join(outdir, 'clang', 'AST')
    os.makedirs(dst, exist_ok=True)

    text = open(inc + 'Type.h').read()
    if 'QualifierShim' not in text:
        text = _sub1(
            text,
            r'(class MemberPointerType : .*?\npublic:)',
            r'''\1
  struct QualifierShim {
    const Type *T;
    const QualifierShim *operator->() const { return this; }
    const Type *getAsType() const { return T; }
    CXXRecordDecl *getAsRecordDecl() const { return T->getAsCXXRecordDecl(); }
  };
  QualifierShim getQualifier() const { return QualifierShim{Class}; }
''', 'MemberPointerType')
        text = _sub1(
            text,
            r'(class DependentTemplateSpecializationType : .*?\npublic:)',
            r'''\1
  struct DependentTemplateNameShim {
    NestedNameSpecifier *NNS;
    NestedNameSpecifier *getQualifier() const { return NNS; }
  };
  DependentTemplateNameShim getDependentTemplateName() const {
    return DependentTemplateNameShim{NNS};
  }
''', 'DependentTemplateSpecializationType')
    kinds = open(inc + 'OperationKinds.def').read()
    if 'HLSLElementwiseCast' not in kinds:
        kinds = _sub1(kinds, r'(CAST_OPERATION\(HLSLArrayRValue\)\n)',
                      r'\1CAST_OPERATION(HLSLElementwiseCast)\n'
                      r'CAST_OPERATION(HLSLAggregateSplatCast)\n', 'casts')
    for name, t in (('Type.h', text), ('OperationKinds.def', kinds)):
        p = os.path.join(dst, name)
        if not os.path.exists(p) or open(p).read() != t:
            with open(p + '.tmp', 'w') as f:
                f.write(t)
            os.rename(p + '.tmp', p)


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def _run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError('%s failed (%d)\n%s' % (
            what, p.returncode, p.stdout.decode(errors='replace')[-4000:]))


def _closure(path, seen):
    """Repository headers reachable from path through quoted #includes."""
    if path in seen or not os.path.exists(path):
        return
    seen.add(path)
    for m in re.finditer(rb'^\s*#\s*include\s*"([^"]+)"', _read(path), re.M):
        _closure(os.path.join(REPO, m.group(1).decode()), seen)


def _header_key(src=None):
    if src is not None:
        hdrs = set()
        _closure(src, hdrs)
        hdrs = sorted(hdrs)
    else:
        hdrs = sorted(glob.glob(REPO + '/*.h') + glob.glob(REPO + '/*.inc') +
                      glob.glob(REPO + '/*.def'))
    return _sha(*[_sha(os.path.basename(h), _read(h)) for h in hdrs])


def sources():
    return sorted(glob.glob(REPO + '/iwyu*.cc'))


def _compile_all(flavor, srcs):
    """Compile srcs (paths); return object paths."""
    cxx, flags = FLAVORS[flavor]
    ov = os.path.join(BUILD, 'ov')
    make_overlay(ov)
    objdir = os.path.join(BUILD, 'obj')
    os.makedirs(objdir, exist_ok=True)
    ovkey = _sha(_read(ov + '/clang/AST/Type.h'),
                 _read(ov + '/clang/AST/OperationKinds.def'))
    jobs, objs = [], []
    for s in srcs:
        key = _sha(os.path.abspath(s) if not s.startswith(REPO) else
                   os.path.basename(s), _read(s), _header_key(s), cxx,
                   ' '.join(flags + DEFS), ovkey)
        o = os.path.join(objdir, '%s-%s-%s.o' % (
            os.path.splitext(os.path.basename(s))[0], flavor, key))
        objs.append(o)
        if not os.path.exists(o):
            tmp = '%s.%d.tmp' % (o, os.getpid())
            cmd = ([cxx] + flags + DEFS +
                   ['-I' + ov, '-I' + REPO, '-isystem', LLVM + '/include',
                    '-c', s, '-o', tmp])
            jobs.append((os.path.getsize(s), cmd, tmp, o))
    jobs.sort(key=lambda j: -j[0])

    def one(job):
        _, cmd, tmp, o = job
        _run(cmd, 'compiling ' + os.path.basename(o))
        os.rename(tmp, o)
    with cf.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(one, j) for j in jobs]:
            f.result()
    return objs


class _Lock(object):
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def _link(flavor, objs, name):
    cxx, flags = FLAVORS[flavor]
    key = _sha(*[os.path.basename(o) for o in objs])
    outdir = os.path.join(BUILD, 'bin', '%s-%s' % (flavor, key))
    out = os.path.join(outdir, name)
    if not os.path.exists(out):
        os.makedirs(outdir, exist_ok=True)
        tmp = '%s.%d.tmp' % (out, os.getpid())
        _run([cxx] + flags + ['-o', tmp] + objs +
             [LLVM + '/lib/libclang-cpp.so.20.1', LLVM +
              '/lib/libLLVM.so.20.1', '-Wl,-rpath,' + LLVM + '/lib'],
             'linking ' + name)
        os.rename(tmp, out)
    return out


def _prune(limit=6 << 30):
    files = []
    for d, _, names in os.walk(BUILD):
        for n in names:
            p = os.path.join(d, n)
            try:
                st = os.stat(p)
            except OSError:
                continue
            if p.endswith('.o') or n == 'include-what-you-use' or '/bin/' in p:
                files.append((st.st_atime, st.st_size, p))
    total = sum(f[1] for f in files)
    for _, size, p in sorted(files):
        if total <= limit:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        total -= size


def iwyu(flavor='rel'):
    """Return the path of an up-to-date include-what-you-use binary."""
    with _Lock():
        _prune()
        objs = _compile_all(flavor, sources())
        return _link(flavor, objs, 'include-what-you-use')


def harness(src, name, flavor='rel', with_objs=()):
    """Build a /verif harness, optionally with some of /repo's objects."""
    with _Lock():
        objs = _compile_all(flavor, [src] +
                            [os.path.join(REPO, o) for o in with_objs])
        return _link(flavor, objs, name)


if __name__ == '__main__':
    t = time.time()
    for fl in sys.argv[1:] or ['rel']:
        print(iwyu(fl), '%.1fs' % (time.time() - t))
