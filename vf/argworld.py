"""Command lines: random compiler arguments, spelled directly or through
response files, whose effect on a probe source is compared with clang's."""
import os
import re

LIMIT = 40

# Macros whose value the probe prints.
MACROS = ['M%d' % i for i in range(8)] + [
    '__cplusplus', '__STDC_VERSION__', '__OPTIMIZE__', '__OPTIMIZE_SIZE__',
    '__EXCEPTIONS', '__GXX_RTTI', '__CHAR_UNSIGNED__', '__i386__',
    '__x86_64__', '__aarch64__', '__SIZEOF_WCHAR_T__', '__SIZEOF_LONG__',
    '__STRICT_ANSI__', '__FAST_MATH__', '__PIC__', '__PIE__', '__SSP_STRONG__',
    '__OPENMP', '_OPENMP', '__AVX2__', '__SSE4_2__', '_REENTRANT', '__OBJC__',
    '__BLOCKS__', '__cpp_char8_t', '__cpp_exceptions', '__cpp_rtti',
    '__cpp_modules', '__GNUC__', '_MSC_VER', '_MSC_EXTENSIONS', '__OPENCL_VERSION__',
    '_GNU_SOURCE', '__STDC_HOSTED__', '__NO_INLINE__', '__USER_LABEL_PREFIX__',
    '__WIN32__', '__ELF__', '__APPLE__', '_WIN32', '__clang_major__',
    'FROM_INC', '_DEBUG', '_DLL', '_MT', 'NDEBUG', '__FILE_NAME__',
    '__BASE_FILE__', '__INT_MAX__', '__LP64__', '__CET__',
    '__has_feature_probe']

HAS = ['<stddef.h>', '<vector>', '<stdio.h>', '"dup.h"', '<dup.h>',
       '"only_0.h"', '"only_1.h"', '<only_2.h>', '<only_3.h>']


def probe(headers):
    o = ['#define S_(...) #__VA_ARGS__', '#define S(...) S_(__VA_ARGS__)']
    for h in headers:
        o += ['#if __has_include(%s)' % h, '#include %s' % h, '#endif']
    for h in HAS:
        o += ['#if __has_include(%s)' % h,
              '#pragma message("P: has %s")' % h.replace('"', "'"), '#endif']
    for m in MACROS:
        o += ['#ifdef %s' % m,
              '#pragma message("P: %s=" S(%s))' % (m, m), '#endif']
    for f in ('cxx_rtti', 'modules', 'address_sanitizer', 'blocks',
              'memory_sanitizer', 'thread_sanitizer', 'c_atomic'):
        o += ['#if __has_feature(%s)' % f,
              '#pragma message("P: feature %s")' % f, '#endif']
    # What several warning options decide.
    o += ['/* nested /* comment */', 'static int unused_fn(void) { return 0; }',
          'int shadow(int a) { { int a = 0; (void)a; } return a; }',
          'int conv(long long v) { return v; }',
          '#if UNDEFINED_NAME', '#endif',
          'int sgn(unsigned a, int b) { return a < b; }']
    return '\n'.join(o) + '\n'


def headers(r):
    """Directories with headers of the same names and different content."""
    t = {}
    for d in ('inc0', 'inc1', 'inc 2', "in'c3", 'sub/inc4', 'inc"5', 'in\\c6'):
        t['%s/dup.h' % d] = '#undef FROM_INC\n#define FROM_INC %s\n' % (
            re.sub(r'\W', '_', d))
    for i, d in enumerate(('inc0', 'inc1', 'inc 2', 'sub/inc4')):
        t['%s/only_%d.h' % (d, i)] = '#define ONLY_%d 1\n' % i
    for i in range(3):
        t['pre%d.h' % i] = '#undef M7\n#define M7 pre%d\n' % i
    t['pre a.h'] = '#undef M6\n#define M6 prea\n'
    t['macros.h'] = '#undef M5\n#define M5 frommacros\n'
    return t


DIRS = ['inc0', 'inc1', 'inc 2', "in'c3", 'sub/inc4', 'inc"5', 'in\\c6',
        './inc0', 'inc0/', 'sub/../inc1', 'nowhere', '.']
VALUES = ['1', '2', 'a', 'a b', '"q"', "'c'", '"a b"', 'x\\y', 'f(x)',
          'a;b', '$HOME', '*', '@inc', '#', 'a=b', '', '-DM1=2', '\\"', '\t',
          'é', '--', "it's", '`x`', '%d', '/', '-', '\\\\', ' lead', 'trail ']


def pick_args(r, lang):
    """Groups of arguments (each a list of words), gcc style."""
    cxx = lang == 'c++'
    g = []
    for _ in range(r.randint(1, 8)):
        k = r.randrange(17)
        m = 'M%d' % r.randrange(8)
        if k in (0, 1):
            d = m + '=' + r.choice(VALUES)
            g.append(r.choice((['-D' + d], ['-D', d],
                               ['-Xpreprocessor', '-D' + d],
                               ['-Xclang', '-D' + d])))
        elif k == 2:
            g.append(r.choice((['-D' + m], ['-U' + m], ['-U', m],
                               ['-D%s(x)=x' % m], ['--define-macro=' + m],
                               ['--undefine-macro', m],
                               ['-Wp,-D%s,-UM0' % m])))
        elif k in (3, 4, 5):
            d = r.choice(DIRS)
            g.append(r.choice((['-I' + d], ['-I', d], ['-isystem', d],
                               ['-iquote', d], ['-idirafter', d],
                               ['-isystem' + d], ['-iquote' + d],
                               ['--include-directory=' + d],
                               ['-Xclang', '-I' + d],
                               ['-iprefix', './', '-iwithprefix',
                                d])))
        elif k == 6:
            g.append(r.choice((['-include', r.choice(
                ('pre0.h', 'pre1.h', 'pre2.h', 'pre a.h', './pre0.h'))],
                ['-imacros', 'macros.h'],
                ['-include', 'pre1.h', '-include', 'pre2.h'],
                ['--include', 'pre2.h'],
                ['-Xclang', '-include', '-Xclang', 'pre1.h'])))
        elif k == 7:
            g.append([r.choice(
                ('-std=c++11', '-std=gnu++17', '-std=c++20', '-std=c++23',
                 '--std=c++14', '-ansi') if cxx else
                ('-std=c99', '-std=gnu11', '-std=c17', '-std=c2x', '-ansi',
                 '--std=c11', '-std=c89'))])
        elif k == 8:
            g.append([r.choice(('-O0', '-O2', '-Os', '-Ofast', '-O', '-O3',
                                '-Oz', '-Og'))])
        elif k == 9:
            g.append([r.choice((
                '-fno-exceptions', '-fno-rtti', '-funsigned-char',
                '-fshort-wchar', '-ffast-math', '-fPIC', '-fPIE', '-fopenmp',
                '-fstack-protector-strong', '-fblocks', '-fno-pic',
                '-fms-extensions', '-ffreestanding', '-fsanitize=address',
                '-fsanitize=thread', '-pthread', '-fno-char8_t',
                '-fcf-protection', '-fgnuc-version=7.0',
                '-fmsc-version=1900', '-fsigned-char', '-fexceptions'))])
        elif k == 10:
            g.append([r.choice(('-m32', '-mavx2', '-msse4.2', '-m64',
                                '-march=haswell', '-mno-sse4.2'))])
        elif k == 11:
            g.append(r.choice((
                ['-Wall'], ['-Wextra'], ['-Wshadow'], ['-Wundef'],
                ['-Wno-comment'], ['-Wconversion'], ['-Weverything'],
                ['-Wunused-function'], ['-Wsign-compare'],
                ['-Wno-everything', '-W#pragma-messages'],
                ['-Wcomment'], ['-pedantic'],
                ['-Wno-unused-function'])))
        elif k == 12:
            g.append(r.choice((
                ['-nostdinc'], ['-nostdinc++'], ['-nostdlibinc'],
                ['-nobuiltininc'], ['-undef'],
                ['--sysroot=sub'], ['--sysroot', 'sub'],
                ['-isysroot', 'sub'])))
        elif k == 13:
            g.append(r.choice((
                ['--target=aarch64-linux-gnu'], ['-target', 'i386-linux-gnu'],
                ['--target=x86_64-pc-windows-gnu'],
                ['--target=x86_64-apple-darwin'],
                ['--target=x86_64-pc-windows-msvc'])))
        elif k == 14:
            g.append(r.choice((
                ['-c'], ['-o', 'out file.o'], ['-oout.o'], ['-S'],
                ['-emit-llvm', '-c'], ['-MD'], ['-MMD', '-MF', 'dep.d'],
                ['-MP', '-MD', '-MT', 'x y'], ['-g'], ['-gsplit-dwarf', '-c'],
                ['--coverage'], ['-lfoo'], ['-Wl,-rpath,x'], ['-L.'],
                ['-save-temps'], ['-save-temps=obj'], ['--save-temps'],
                ['-pipe'], ['-flto'], ['-ftime-trace'], ['-fsyntax-only'],
                ['-shared'], ['-static'], ['-r'], ['-Xlinker', '-x'],
                ['-v'], ['-fdiagnostics-color=never'], ['-fstack-usage'],
                ['-fprofile-generate'], ['-fprofile-instr-generate'],
                ['--serialize-diagnostics', 'diag file'],
                ['-fmodules-cache-path=mc'], ['-H'],
                ['-fcrash-diagnostics-dir=.'], ['-dM'], ['-dD'],
                ['-fsave-optimization-record'],
                ['-foptimization-record-file=rec'],
                ['-fproc-stat-report=ps'], ['-x', 'none'])))
        elif k == 15:
            g.append(r.choice((['-x', lang], ['-x' + lang],
                               ['-x', 'c++' if not cxx else 'c'],
                               ['--language=' + lang],
                               ['-x', 'objective-' + lang])))
        else:
            g.append(r.choice((['-ferror-limit=3'], ['-fno-caret-diagnostics'],
                               ['-fno-show-column'],
                               ['-Xclang', '-fno-rtti'],
                               ['-Xarch_host', '-DM4=arch'],
                               ['-DM0', '-UM0', '-DM0=last'],
                               ['-working-directory', '.'],
                               ['-fmacro-prefix-map=a=b'])))
    return g


def pick_cl(r):
    g = [['--driver-mode=cl']]
    for _ in range(r.randint(1, 7)):
        k = r.randrange(8)
        m = 'M%d' % r.randrange(8)
        pre = r.choice('/-')
        if k in (0, 1):
            d = m + '=' + r.choice(VALUES)
            g.append(r.choice(([pre + 'D' + d], [pre + 'D', d])))
        elif k == 2:
            g.append([pre + 'U' + m])
        elif k in (3, 4):
            d = r.choice(DIRS)
            g.append(r.choice(([pre + 'I' + d], [pre + 'I', d],
                               [pre + 'imsvc', d],
                               [pre + 'external:I', d])))
        elif k == 5:
            g.append(r.choice(([pre + 'FIpre0.h'], [pre + 'FI', 'pre1.h'],
                               [pre + 'FI' + 'pre a.h'])))
        elif k == 6:
            g.append([r.choice(('/std:c++17', '/std:c++20', '/std:c++latest',
                                '/std:c++14', '-std:c++20', '/TP', '/TC',
                                '/O2', '/Od', '/GR-', '/EHsc', '/J', '/MD',
                                '/MDd', '/MT', '/arch:AVX2', '/W3', '/W4',
                                '/w', '/utf-8', '/X', '/Zi', '/openmp',
                                '/Zc:wchar_t-', '-m32', '/permissive-'))])
        else:
            g.append(r.choice((['/c'], ['/Foout.obj'], ['/Fo:', 'o2.obj'],
                               ['/Faout.asm'], ['/nologo'], ['/LD'],
                               ['/clang:-DM3=c'], ['/showIncludes'],
                               ['/Fdx.pdb'], ['/FC'], ['/Feprog.exe'],
                               ['-fsyntax-only'], ['/MP4'], ['/Z7'])))
    return g


def quote_gnu(r, w):
    """One spelling of the word in a GNU style response file."""
    if w == '':
        return None
    out, i = [], 0
    while i < len(w):
        k = r.randrange(4)
        n = r.randint(1, len(w) - i)
        part = w[i:i + n]
        if k == 0:
            # No newline escapes: a backslash-newline is a continuation.
            out.append(re.sub(r'([\\"\'\s])', r'\\\1', part))
        elif k == 1:
            out.append('"' + re.sub(r'([\\"])', r'\\\1', part) + '"')
        elif k == 2:
            out.append("'" + re.sub(r'([\\\'])', r'\\\1', part) + "'")
        elif re.match(r'[\w=.,:/+-]+$', part):
            out.append(part)
        else:
            out.append(''.join('\\' + c for c in part))
        i += n
    s = ''.join(out)
    # A word that starts with @ names another response file, quoted or not.
    return s


def quote_win(r, w):
    """One spelling with the rules of the Microsoft C runtime."""
    if w == '':
        return None
    if not re.search(r'[\s"]', w) and r.random() < .5:
        return w
    w2 = re.sub(r'(\\*)"', lambda m: m.group(1) * 2 + '\\"', w)
    w2 = re.sub(r'(\\+)$', lambda m: m.group(1) * 2, w2)
    return '"' + w2 + '"'


class Line(object):
    """A command line and the response files it uses."""

    def __init__(self, r, words, quote, files, depth=0):
        self.r, self.files, self.quote = r, files, quote
        self.used = 0
        self.nested = 0
        self.words = self.split(words, depth)

    def split(self, words, depth, inside=False):
        """Put random stretches of the words into response files."""
        r, out, i = self.r, [], 0
        while i < len(words):
            if depth < 3 and r.random() < (.35 if depth else .5):
                n = r.randint(0, min(6, len(words) - i))
                part = words[i:i + n]
                if any(w == '' or w.startswith('@') or '\0' in w
                       for w in part):
                    out.append(words[i])
                    i += 1
                    continue
                out.append('@' + self.file(part, depth + 1))
                i += n
            else:
                out.append(words[i])
                i += 1
        return out

    def file(self, words, depth):
        r = self.r
        if depth > 1:
            self.nested += 1
        name = r.choice(('r%d.rsp', 'rsp/r%d', 'r %d')) % len(self.files)
        self.files[name] = b''
        words = self.split(words, depth, True)
        seps = [' ', '  ', '\n', '\t', '\r\n', ' \n ', '\n\n']
        txt = r.choice(('', '', ' ', '\n'))
        for n, w in enumerate(words):
            q = self.quote(r, w)
            if w.startswith('@'):
                # A quoted reference is one, too; a name with blanks must be.
                q = w if ' ' not in w else (
                    '"%s"' % w if self.quote is quote_win or r.random() < .5
                    else w.replace(' ', '\\ '))
            txt += q
            if n < len(words) - 1 or r.random() < .5:
                txt += r.choice(seps)
        enc = r.random()
        if enc < .06:
            data = b'\xef\xbb\xbf' + txt.encode()
        elif enc < .12:
            data = b'\xff\xfe' + txt.encode('utf-16-le')
        elif enc < .15:
            data = b'\xfe\xff' + txt.encode('utf-16-be')
        else:
            data = txt.encode()
        self.files[name] = data
        self.used += 1
        return name


DIAG = re.compile(r'^(?:(\S[^:\n]*|<[^>]*>):(\d+):(?:(\d+):)? )?'
                  r'((?:fatal )?error|warning): (.*)$')
CLDIAG = re.compile(r'^(\S[^(\n]*|<[^>]*>)\((\d+)(?:,(\d+))?\)()?: '
                    r'((?:fatal )?error|warning): (.*)$')


def diagnostics(text):
    """The compiler's diagnostics, in order."""
    out = []
    for l in text.split('\n'):
        l = re.sub(r'^clang(-\d+)?: ', '', l)
        m = DIAG.match(l)
        if m:
            out.append((os.path.basename(m.group(1) or ''), m.group(2),
                        m.group(4), m.group(5)))
            continue
        m = CLDIAG.match(l)
        if m:
            out.append((os.path.basename(m.group(1)), m.group(2), m.group(5),
                        m.group(6)))
    return out


def tree_of(d):
    res = set()
    for b, _, fs in os.walk(d):
        for f in fs:
            res.add(os.path.relpath(os.path.join(b, f), d))
    return res
