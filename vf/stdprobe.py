"""Probes of the advice on standard library symbols.

data/std_symbols.txt lists symbols with the headers documented to provide them
(from LLVM 20's tooling tables, which come from cppreference.com);
data/std_tables.json is what the tool's own tables listed when this was
written; data/std_extra.json has further headers that the installed libraries
provide a symbol in and that were reviewed as portable (overload sets,
libstdc++'s @headername)."""
import collections
import hashlib
import json
import os
import re

from . import core

DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data')

INTERNAL = re.compile(
    r'(^|/)(bits|debug|pstl|backward|impl|asm-generic|asm|gnu|detail|platform)/'
    r'|^_|/_|^(auto_ptr|binders|hash_fun|hashtable|backward_warning)\.h$'
    r'|x86_64-linux-gnu|^std[cC]pp|stdc\+\+\.h')

C_HEADERS = '''assert.h complex.h ctype.h errno.h fenv.h float.h inttypes.h
iso646.h limits.h locale.h math.h setjmp.h signal.h stdalign.h stdarg.h
stdbool.h stddef.h stdint.h stdio.h stdlib.h stdnoreturn.h string.h tgmath.h
threads.h time.h uchar.h wchar.h wctype.h'''.split()
POSIX = '''aio.h argp.h argz.h arpa/inet.h byteswap.h dirent.h dlfcn.h endian.h
error.h fcntl.h fnmatch.h ftw.h glob.h grp.h iconv.h langinfo.h libgen.h link.h
monetary.h mqueue.h net/if.h netdb.h netinet/in.h netinet/tcp.h nl_types.h
poll.h pthread.h pwd.h regex.h sched.h search.h semaphore.h spawn.h strings.h
sys/auxv.h sys/epoll.h sys/eventfd.h sys/inotify.h sys/ioctl.h sys/ipc.h
sys/mman.h sys/msg.h sys/param.h sys/prctl.h sys/resource.h sys/select.h
sys/sem.h sys/shm.h sys/signalfd.h sys/socket.h sys/stat.h sys/statvfs.h
sys/syscall.h sys/time.h sys/timerfd.h sys/timex.h sys/times.h sys/types.h
sys/uio.h sys/un.h sys/utsname.h sys/wait.h syslog.h termios.h ucontext.h
unistd.h utime.h utmpx.h wordexp.h sys/statfs.h printf.h sys/file.h
stropts.h ifaddrs.h getopt.h malloc.h alloca.h features.h err.h'''.split()


def load():
    table = {'C': {}, 'CXX': {}}
    for l in open(os.path.join(DATA, 'std_symbols.txt')):
        w = l.split()
        table[w[0]][w[1]] = w[2:]
    t = json.load(open(os.path.join(DATA, 'std_tables.json')))
    return table, t


def extra():
    p = os.path.join(DATA, 'std_extra.json')
    return json.load(open(p)) if os.path.exists(p) else {}


class Universe(object):
    """A language, an umbrella header and the symbols it makes usable."""

    def __init__(self, name, ext, std, umbrella, names, kinds):
        self.name, self.ext, self.std, self.umbrella = name, ext, std, umbrella
        self.cmd = [core.CLANG, '-std=' + std, '-fsyntax-only', '-w',
                    '-ferror-limit=0', '-D_GNU_SOURCE', '-include', 'cfg.h']
        self.names = sorted(names)
        self.kinds = kinds
        self.use = {}
        self.tree = {'all.h': umbrella, 'cfg.h': ''}

    def program(self, includes, names, uses=None):
        uses = uses or self.use
        return ''.join('#include %s\n' % i for i in includes), \
            ''.join(uses[n] % dict(n=n, i=i) + '\n'
                    for i, n in enumerate(names))

    def failing(self, includes, names, uses=None):
        """Names whose use does not compile (empty: all compile)."""
        head, body = self.program(includes, names, uses)
        d = core.newdir('u')
        core.write_tree(d, dict(self.tree, **{'m.' + self.ext: head + body}))
        r = core.run(self.cmd + ['m.' + self.ext], cwd=d)
        core.rmtree(d)
        if r.timeout or r.crashed:
            return None
        first = head.count('\n') + 1
        where, line = {}, first
        for n in names:
            u = (uses or self.use)[n]
            for _ in range(u.count('\n') + 1):
                where[line] = n
                line += 1
        bad = set()
        for m in re.finditer(r'^m\.\w+:(\d+):\d+: (?:fatal )?error', r.err,
                             re.M):
            bad.add(where.get(int(m.group(1))))
        if r.rc and not bad:
            bad.add(None)
        return bad

    def classify(self):
        left = list(self.names)
        for kind in self.kinds:
            uses = {n: kind for n in left}
            bad = self.failing(['"all.h"'], left, uses)
            if bad is None:
                continue
            for n in left:
                if n not in bad:
                    self.use[n] = kind
            left = [n for n in left if n in bad]
        self.unusable = left


CXX_KINDS = ['const auto v%(i)d = sizeof(%(n)s);',
             'namespace u%(i)d { using %(n)s; }']
# A use of a macro names it in a condition.
C_KINDS = ['#ifdef %(n)s\n#else\n#error no such macro\n#endif',
           'const unsigned long v%(i)d = sizeof(%(n)s);'
           '  enum { e%(i)d = sizeof(1 + sizeof(%(n)s)) };',
           'const unsigned long v%(i)d = sizeof(struct %(n)s);',
           '__typeof__(&%(n)s) v%(i)d = &%(n)s;']
CG_KINDS = [C_KINDS[0], 'const auto v%(i)d = sizeof(::%(n)s);', C_KINDS[2],
            'namespace u%(i)d { using ::%(n)s; }']


def installed(h):
    return any(os.path.exists(os.path.join(d, h)) for d in (
        '/usr/include', '/usr/include/x86_64-linux-gnu',
        '/usr/lib/llvm-20/lib/clang/20/include'))


def installed_std(h):
    return installed(h) or os.path.exists('/usr/include/c++/13/' + h)


def universes():
    table, tables = load()
    libc = sorted(set(e[0] for e in tables['libc_symbol_map']))
    heads = [h for h in C_HEADERS + POSIX if installed(h)]
    c_all = ''.join('#include <%s>\n' % h for h in heads if h != 'tgmath.h')
    cxx_heads = [h for h in heads if h not in (
        'tgmath.h', 'complex.h', 'stdnoreturn.h', 'threads.h', 'stdalign.h')]
    cg_all = ''.join('#include <%s>\n' % h for h in cxx_heads)
    std = [n for n in table['CXX'] if n.startswith('std::') and
           not n.startswith('std::experimental')]
    glob = [n for n in table['C'] if not n.startswith('std::')]
    us = [Universe('std', 'cc', 'c++23', '#include <bits/stdc++.h>\n', std,
                   CXX_KINDS),
          Universe('std17', 'cc', 'c++17', '#include <bits/stdc++.h>\n', std,
                   CXX_KINDS),
          Universe('c', 'c', 'c17', c_all, set(glob) | set(libc), C_KINDS),
          Universe('cglobal', 'cc', 'c++20', cg_all, set(glob) | set(libc),
                   CG_KINDS)]
    core.pmap(lambda u: u.classify(), us)
    return us


SUGGEST = re.compile(r'^#include (\S+)\s*(?:// for (.*))?$', re.M)


def analyse(binary, u, includes, names, opts=()):
    """(result, {header: symbols}) of a program that uses the names."""
    head, body = u.program(includes, names)
    d = core.newdir('s')
    core.write_tree(d, dict(u.tree, **{'m.' + u.ext: head + body}))
    cmd = [binary, '-std=' + u.std, '-w', '-D_GNU_SOURCE']
    for o in ('--max_line_length=1000000', '--comment_style=long',
              '--no_fwd_decls') + tuple(opts):
        cmd += ['-Xiwyu', o]
    cmd += ['m.' + u.ext]
    res = core.run(cmd, cwd=d, timeout=120)
    got = {}
    for m in SUGGEST.finditer(res.err.split('The full include-list')[0]):
        got[m.group(1)] = (m.group(2) or '').split(', ')
    return res, got, d, cmd


def groups(names, k):
    """A fixed partition into k groups."""
    g = collections.defaultdict(list)
    for n in names:
        g[int(hashlib.md5(n.encode()).hexdigest()[:6], 16) % k].append(n)
    return [g[i] for i in sorted(g)]


def attribute(names, got):
    """{name: headers} as far as the comments tell."""
    by = collections.defaultdict(list)
    for n in names:
        by[n.replace('std::', '', 1)].append(n)
        by[n.rsplit('::', 1)[-1]].append(n)
    res = collections.defaultdict(set)
    for h, syms in got.items():
        for s in syms:
            s = s.strip()
            if s in names:
                res[s].add(h)
                continue
            for key in (s.replace('std::', '', 1), s.rsplit('::', 1)[-1]):
                if len(set(by.get(key, ()))) == 1:
                    res[by[key][0]].add(h)
                    break
    return res
