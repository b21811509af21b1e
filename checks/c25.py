#!/usr/bin/env python3
"""C25: the driver script runs each selected entry once and loses nothing."""
import json
import os
import shutil
import signal
import sys

import _path  # noqa: F401
from vf import core, standin

TOOL = os.path.join(core.REPO, 'iwyu_tool.py')
DIRS = ['src', 'src2', 'src/foo', 'src/foo/bar', 'src/fo', 'lib', 'a b',
        'b\u00e9', 'src/foo.cc.d', 'build', 'x/y/z']
FILES = ['foo.cc', 'foo.c', 'foo', 'bar.cpp', 'main.cc', 'a b.cc', 'foo.cc.in',
         'x\u00fc.cc', "it's.cc", 'foo.ccc']
ARGS = ['-I.', '-DX=1', '-std=c++17', '-I/usr include', '-DQ="a b"', "-DS='x'",
        '-D\\', '-O2', '-Wall', '-D$HOME', '-Da*b', '', '-DN=\u00e9', '@x',
        '-isystem', '-DT=\t|', '-c', '-DH=#h', '--', '-Xiwyu']
EXTRA = [[], [], ['-Xiwyu', '--verbose=3'], ['-Xiwyu', '--mapping_file=a b.imp'],
         ['-w'], ['-DEXTRA', '--', '-x'], ['-I', '']]
COMPILERS = ['g++', '/usr/bin/c++', 'clang', 'ccache g++', 'ccache /bin/cc',
             '/usr/bin/ccache g++', 'clang-cl', '/x/clang-cl', 'cl.exe',
             '/c/VC/bin/cl.exe', '/opt/my tools/gcc', 'ccache clang-cl',
             'clang++-20']


def quote(r, s):
    """One of the ways of writing s in a shell command."""
    k = r.random()
    if k < .4 and "'" not in s:
        return "'%s'" % s
    if k < .7 or s == '':
        return '"%s"' % ''.join('\\' + c if c in '"\\' else c for c in s)
    return ''.join(c if c.isalnum() or c in '-=./+_' else
                   ("'%s'" % c if c in '\n' else '\\' + c) for c in s)


def payload(r, tag):
    """What the analyser prints; starts and ends with its unique tag."""
    k = r.random()
    if k < .1:
        return b''
    body = b''
    n = r.choice([0, 10, 100, 3000, 8192, 65536, 70000, 300000]
                 if r.random() < .3 else [0, 10, 100, 1000])
    style = r.randrange(5)
    if style == 0:
        body = b'x' * n
    elif style == 1:
        body = b''.join(b'line %d\n' % i for i in range(n // 8))
    elif style == 2:
        body = ('\u00e9\u4f60\U0001f600\n' * (n // 9)).encode()
    elif style == 3:
        body = b'a\r\nb\rc\x0c\x00\x1b[1m\n' * (n // 16)
    else:
        body = b'\n' * (n // 100 + 1)
    if r.random() < .04:
        body += r.choice([b'\xff\xfe', b'caf\xe9', b'\xc3'])
    return b'<%s<' % tag.encode() + body + b'>%s>' % tag.encode() + \
        r.choice([b'', b'\n', b'\n', b'\n\n'])


def plan(r, data, timing):
    out, at = [], 0
    cuts = sorted(r.randint(0, len(data)) for _ in range(r.choice(
        [0, 1, 3, 8])))
    for c in cuts + [len(data)]:
        out.append('%s %d %d' % (r.choice('oe'), at, c - at))
        at = c
        if timing and r.random() < .5:
            out.append('s %d' % r.choice([0, 500, 2000, 8000, 25000]))
    k = r.random()
    rc = 0
    if k < .3:
        rc = r.choice([1, 2, 3, 7, 64, 100, 127, 128, 200, 254, 255])
        out.append('x %d' % rc)
    elif k < .38:
        rc = -r.choice([signal.SIGSEGV, signal.SIGABRT, signal.SIGKILL,
                        signal.SIGTERM, signal.SIGFPE])
        out.append('k %d' % -rc)
    return '\n'.join(out) + '\n', rc


def under(path, parent):
    return path == parent or os.path.commonpath([path, parent]) == parent


class Entry(object):
    pass


def setup(i):
    """One world: database, tree, selection, expectation."""
    r = core.rng('c25', i)
    root = core.newdir('t')
    pl = os.path.join(root, 'plan')
    os.makedirs(pl)
    work = os.path.join(root, 'w')
    os.makedirs(work)
    for d in DIRS:
        os.makedirs(os.path.join(work, d), exist_ok=True)
    if r.random() < .4:
        os.symlink('src', os.path.join(work, 'link'))
    links = os.path.lexists(os.path.join(work, 'link'))
    timing = r.random() < .6
    db, es = [], []
    n = r.choice([0, 1, 2, 3, 5, 8, 13, 20] if i % 20 else [40, 60])
    extra = r.choice(EXTRA)
    for k in range(n):
        e = Entry()
        e.tag = 'T%dx' % k
        d = r.choice(DIRS)
        fd = r.choice(DIRS) if r.random() < .5 else d
        name = r.choice(FILES)
        p = os.path.join(work, fd, name)
        if r.random() < .93 and not os.path.isdir(p):
            open(p, 'a').close()
        e.dir = os.path.join(work, d)
        if d == 'src' and links and r.random() < .5:
            e.dir = os.path.join(work, 'link')
        spelled = p
        k2 = r.random()
        if k2 < .5:
            spelled = os.path.relpath(p, os.path.realpath(e.dir))
            if r.random() < .3:
                spelled = './' + spelled
        elif k2 < .6 and links and fd.startswith('src/'):
            spelled = os.path.join(work, 'link', fd[4:], name)
        elif k2 < .7:
            spelled = os.path.join(work, d, '..', os.path.relpath(
                p, os.path.dirname(os.path.join(work, d))))
        e.file = os.path.realpath(p)
        e.missing = r.random() < .02
        if e.missing:
            e.dir = os.path.join(work, 'gone')
            spelled = p
        args = [r.choice(ARGS) for _ in range(r.randint(0, 5))]
        e.own = args + ['-DTAG=' + e.tag, spelled]
        if r.random() < .3:
            e.own = ['-c'] + e.own + ['-o', 'x.o']
        comp = r.choice(COMPILERS)
        words = comp.split(' ') if 'ccache' in comp else [comp]
        e.cl = words[-1].endswith(('clang-cl', 'cl.exe'))
        ent = {'directory': e.dir, 'file': spelled}
        form = r.random()
        if form < .55:
            ent['arguments'] = words + e.own
        else:
            ent['command'] = r.choice([' ', '  ']).join(
                quote(r, w) for w in words + e.own)
        if form > .5 and form < .55:
            ent['command'] = 'wrong -DTAG=wrong'
        if r.random() < .2:
            ent['output'] = 'x.o'
        items = list(ent.items())
        r.shuffle(items)
        db.append(dict(items))
        es.append(e)
        e.data = payload(r, e.tag)
        text, e.rc = plan(r, e.data, timing)
        standin.plan(pl, e.tag, e.data, text)
    dbp = os.path.join(work, 'build', r.choice(
        ['compile_commands.json', 'compile_commands.json', 'other.json']))
    json.dump(db, open(dbp, 'w', encoding='utf-8'),
              ensure_ascii=r.random() < .5, indent=r.choice([None, 1]))
    sel, warn = [], 0
    if r.random() < .6:
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            k = r.random()
            if es and k < .45:
                p = r.choice(es).file
            elif k < .85:
                p = os.path.join(work, r.choice(DIRS))
            elif k < .9:
                p = work
            else:
                p = os.path.join(work, r.choice(['nowhere', 'src/foo.x']))
            if links and p.startswith(work + '/src/') and r.random() < .5:
                p = os.path.join(work, 'link') + p[len(work) + 4:]
            if r.random() < .5:
                p = os.path.relpath(p, work)
                if r.random() < .2:
                    p = './' + p
            if os.path.isdir(os.path.join(work, p)) and r.random() < .3:
                p += '/'
            sel.append(p)
    chosen = es
    if sel:
        real = [os.path.realpath(os.path.join(work, p)) for p in sel
                if os.path.exists(os.path.join(work, p))]
        chosen = [e for e in es if any(under(e.file, q) for q in real)]
    jobs = r.choice([1, 1, 2, 3, 4, 8, 16, 64, 0])
    argv = []
    if jobs != 1 or r.random() < .3:
        argv += r.choice([['-j', str(jobs)], ['-j%d' % jobs],
                          ['--jobs', str(jobs)]])
    if r.random() < .15:
        argv += ['-l', r.choice(['0.01', '0.5', '1.2', '3', '5.5',
                                 '1000'])]
    e_v = r.random() < .2
    if e_v:
        argv += ['-v']
    if r.random() < .2:
        argv += ['-o', 'iwyu']
    pa = ['-p', r.choice([dbp, os.path.relpath(dbp, work)])]
    if dbp.endswith('commands.json') and r.random() < .6:
        pa[1] = os.path.dirname(pa[1])
    argv = pa + argv + sel if r.random() < .5 else sel + argv + pa
    if extra:
        argv += ['--'] + extra
    limit = jobs or (os.cpu_count() or 1)
    return root, work, pl, es, chosen, argv, extra, limit, n


def blocks(text, chosen):
    """The analyses whose outputs the text consists of, in order."""
    byt = {e.tag.encode(): e for e in chosen}
    at, order, empties = 0, [], 0
    while at < len(text):
        if text[at:at + 1] == b'<':
            tag = text[at + 1:text.index(b'<', at + 1)] if \
                b'<' in text[at + 1:at + 12] else None
            e = byt.get(tag)
            if e is None:
                return None, 'unknown output at byte %d: %r' % (
                    at, text[at:at + 80])
            shown = shows(e.data, text[at:]) if not e.missing else None
            if shown is None:
                return None, 'output of %s is broken: %r...' % (
                    e.tag, text[at:at + 200])
            order.append(e)
            at += shown
        elif text[at:at + 1] == b'\n':
            empties += 1
            at += 1
        else:
            # A message about an analysis that cannot start.
            end = text.find(b'\n', at)
            line = text[at:end if end >= 0 else len(text)]
            if b'gone' not in line:
                return None, 'unknown output %r' % line[:200]
            order.append('message')
            at += len(line) + 1
    return (order, empties), None


def shows(data, text):
    """Length of data (and its line end) at the start of text, or None;
    undecodable bytes may be shown in any escaped way."""
    if text.startswith(data + b'\n'):
        return len(data) + 1
    try:
        data.decode('utf-8')
        return None
    except UnicodeDecodeError:
        pass
    head, _, tail = data.rpartition(b'>T')
    head, k = head.rstrip(b'\xff\xfe\xe9\xc3'), None
    if head and text.startswith(head):
        k = text.find(b'>T' + tail + b'\n', len(head))
    if k is None or k < 0 or k - len(head) > 40:
        return None
    return k + len(b'>T' + tail + b'\n')


def one(i):
    root, work, pl, es, chosen, argv, extra, limit, n = setup(i)
    env = {'IWYU_BINARY': STANDIN, 'STANDIN_PLAN': pl,
           'PYTHONDONTWRITEBYTECODE': '1'}
    cmd = [sys.executable, TOOL]
    if '-l' in argv and i % 4:
        cmd[1:1] = [os.path.join(core.VERIF, 'vf/data/loadavg.py'), str(i)]
    res = core.run(cmd + argv, cwd=work, env=env,
                   timeout=60)
    bad = []
    events = []
    ev = os.path.join(pl, 'events')
    if os.path.exists(ev):
        for rec in open(ev, 'rb').read().decode('utf-8').split('\x02')[:-1]:
            events.append(rec.split('\x01'))
    starts = [x for x in events if x[0] == 'start']
    ends = {x[2]: float(x[1]) for x in events if x[0] == 'end'}
    if res.timeout:
        bad.append('the tool hangs')
    runnable = [e for e in chosen if not e.missing]
    want = sorted((os.path.realpath(e.dir), (
        ['--driver-mode=cl'] if e.cl else []) + extra + e.own)
        for e in runnable)
    got = sorted((os.path.realpath(x[3]), x[4:]) for x in starts)
    if not bad and want != got:
        bad.append('analyses run: %d, wanted: %d' % (len(got), len(want)))
        for w in want:
            if got.count(w) != want.count(w):
                bad.append('%d times instead of %d: %s' % (
                    got.count(w), want.count(w), w))
        for g in got:
            if g not in want:
                bad.append('not asked for: %s' % (g,))
    # Never more at the same time than allowed.
    marks = sorted([(float(x[1]), 1) for x in starts if x[2] in ends] +
                   [(ends[x[2]], -1) for x in starts if x[2] in ends])
    cur = peak = 0
    for _, d in marks:
        cur += d
        peak = max(peak, cur)
    if peak > limit:
        bad.append('%d analyses at the same time, allowed: %d' % (
            peak, limit))
    out = res.out.encode('utf-8', 'surrogateescape')
    if not bad:
        x, why = blocks(out, runnable)
        if why:
            bad.append(why)
        else:
            order, empties = x
            seen = [e for e in order if e != 'message']
            if len(set(map(id, seen))) != len(seen):
                bad.append('an output appears twice')
            for e in runnable:
                if e.data and e not in seen:
                    bad.append('output of %s is lost' % e.tag)
            if limit == 1:
                tags = [a[6:] for s in starts for a in s[4:]
                        if a.startswith('-DTAG=')]
                if [e.tag for e in seen] != [
                        t for t in tags if t in {e.tag for e in seen}]:
                    bad.append('one job at a time, but outputs out of order')
    rcs = [e.rc for e in runnable] + [1 for e in chosen if e.missing]
    worst = min(rcs) if rcs and min(rcs) < 0 else max(rcs or [0])
    if not res.timeout and res.rc != worst % 256:
        bad.append('exit status %s, but the analyses ended with %s' % (
            res.rc, sorted(set(rcs))))
    if 'Traceback' in res.err:
        bad.append('uncaught exception: ' + res.err[-500:])
    if '-v' in argv and not bad:
        k = sum(l.startswith('# ') for l in res.err.split('\n'))
        if k < len(chosen):
            bad.append('-v shows %d of %d commands' % (k, len(chosen)))
    if bad:
        CHK.violation('run:%d' % i, '\n'.join(bad[:8]) + '\n' +
                      'argv: %r\n%s' % (argv, res.text[-600:]),
                      tree=root)
    CHK.case((tuple(argv), n), {'argv': [str(a) for a in argv][:8],
                                'analyses': len(chosen), 'peak': peak}
             if len(chosen) > 1 else None)
    CHK.count('runs')
    CHK.count('analyses', len(starts))
    CHK.count('output_bytes', len(out))
    CHK.count('limit_reached', peak == limit and limit > 1)
    CHK.count('concurrent_runs', peak > 1)
    CHK.count('failures_injected', sum(e.rc != 0 for e in runnable))
    CHK.count('signals_injected', sum(e.rc < 0 for e in runnable))
    CHK.count('unstartable', sum(e.missing for e in chosen))
    CHK.count('selected_out', n - len(chosen))
    if peak > 1:
        tags = tuple(a for x in sorted(events, key=lambda x: float(x[1]))
                     for a in [x[0], x[2]])
        pids = {}
        ORDERS.add(hash((n,) + tuple(pids.setdefault(t, len(pids)) if
                                     t.isdigit() else t for t in tags)))
    shutil.rmtree(root, True)


def probes():
    """Databases that cannot be used never yield status zero."""
    d = core.newdir('p')
    open(os.path.join(d, 'f.cc'), 'w').close()
    pl = os.path.join(d, 'plan')
    os.makedirs(pl)
    env = {'IWYU_BINARY': STANDIN, 'STANDIN_PLAN': pl,
           'PYTHONDONTWRITEBYTECODE': '1'}
    ok = [{'directory': d, 'file': 'f.cc', 'arguments': ['cc', 'f.cc']}]
    for name, text in [
            ('malformed', '[{'), ('empty', ''), ('missing', None),
            ('neither', json.dumps([{'directory': d, 'file': 'f.cc'}]))]:
        p = os.path.join(d, name + '.json')
        if text is not None:
            open(p, 'w').write(text)
        res = core.run([sys.executable, TOOL, '-p', p], cwd=d, env=env)
        CHK.case('probe:' + name)
        if res.rc == 0 or res.timeout:
            CHK.violation('probe:' + name, 'exit status %s' % res.rc)
    p = os.path.join(d, 'ok.json')
    json.dump(ok, open(p, 'w'))
    for j in ['-1', '-2', '-7']:
        open(os.path.join(pl, 'events'), 'w').close()
        res = core.run([sys.executable, TOOL, '-p', p, '-j', j], cwd=d,
                       env=env, timeout=10, retry=False)
        CHK.case('probe:jobs' + j)
        n = open(os.path.join(pl, 'events'), 'rb').read().count(b'start')
        if res.timeout or (res.rc == 0) != (n == 1) or n > 1:
            CHK.violation('probe:jobs' + j, 'with %s jobs the entry is '
                          'analysed %d times, exit status %s' % (
                              j, n, 'none (hangs)' if res.timeout
                              else res.rc))
    # The binary named relative to the working directory.
    open(os.path.join(pl, 'events'), 'w').close()
    os.symlink(STANDIN, os.path.join(d, 'iw'))
    os.makedirs(os.path.join(d, 'sub'))
    json.dump([dict(ok[0], directory=os.path.join(d, 'sub'))], open(p, 'w'))
    res = core.run([sys.executable, TOOL, '-p', p], cwd=d,
                   env=dict(env, IWYU_BINARY='./iw'))
    CHK.case('probe:relative')
    if res.rc != 0 or b'start' not in open(os.path.join(pl, 'events'),
                                           'rb').read():
        CHK.violation('probe:relative', 'a relative IWYU_BINARY is not '
                      'found:\n' + res.text[-400:])


def main():
    global CHK, STANDIN, ORDERS
    CHK = core.Check('C25', 'generated databases, selections, job counts, '
                     'timings, outputs and exit statuses over logging '
                     'stand-in analysers: a run with its own argument list')
    ORDERS = set()
    STANDIN = standin.build()
    probes()
    core.pmap(one, range(core.n_cases(1500, 20000)), jobs=10)
    CHK.counters['distinct_event_orders'] = len(ORDERS)
    CHK.finish()


core.main(main)
