"""C16  The package imports and reports a version whatever git does."""
import contextlib
import errno
import fnmatch
import importlib
import io
import os
import re
import signal
import subprocess
import sys
import types

from .common import env, require, Violation

ID = 'C16'
BATCH = 25
RUNS = {'quick': 15000, 'thorough': 150000}
REAL = ['bayesian_decision_tree/__init__.py and _version.py (/repo working tree)', 'import system', 'subprocess.run and its kin']
STUB = ['subprocess.Popen (process creation and the git executable: a small model of a repository)', 'sys.platform']
ASSUMPTIONS = ['The simulated git answers the way git 2.x does for rev-parse, describe, rev-list, log, show and status.',
               'A git that never returns is not injected: the lookup has no time limit, and the property does not promise one.',
               'Runs sample; absence of violations is evidence, not proof.']
RULE = ('A run imports the package afresh while every subprocess it starts is answered by a simulated git for a seeded '
        'repository (tags, distance, dirtiness, hash), with seeded failures of single invocations: not startable, non-zero exit, '
        'killed, empty, cut short, not text, nonsense.  Non-trivial: the import invoked git at least once.')
ERRNOS = ['ENOENT', 'EACCES', 'EPERM', 'ENOMEM', 'EAGAIN', 'EMFILE', 'ENOEXEC', 'ENOTDIR', 'EIO']
OUTCOMES = ['spawn', 'spawn', 'rc', 'rc-output', 'signal', 'signal-output', 'empty', 'cut', 'bytes', 'nonsense', 'bytes-rc']
PROBES = ['healthy', 'tagged', 'untagged', 'dirty', 'plus-tag', 'hyphen-tag', 'far', 'no-repo', 'package', 'module', 'windows',
          'placeholder', 'exact-despite-fault', 'call-1', 'call-2', 'call-3', 'call-4', 'call-5', 'twice', 'lying'] + \
         sorted(set(OUTCOMES))

TAGS = ['0.3', 'v1.2', '1.0-rc1', '2.0+local', '0.1.2-3-gabc1234', 'release-dirty', 'ver-0.2', 'x', '1.0-dirty', u'r\u00e9sum\u00e9', '7']


def gen_plan(rng, tier):
    hexes = '0123456789abcdef' if rng.random() < 0.85 else '0123456789'
    full = ''.join(rng.choice(hexes) for _ in range(40))
    tags = [{'name': rng.choice(TAGS), 'distance': rng.choice([0, 0, 1, 2, 17, 300]), 'annotated': rng.random() < 0.5}
            for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
    faults = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        o = rng.choice(OUTCOMES)
        f = {'call': rng.choice([1, 2, 2, 3, 3, 4, 4, 5]), 'what': o, 'sticky': rng.random() < 0.2}
        if o == 'spawn':
            f['errno'] = rng.choice(ERRNOS)
        if o.startswith('rc') or o == 'bytes-rc':
            f['rc'] = rng.choice([1, 2, 127, 128, 129, 255])
        if o.startswith('signal'):
            f['rc'] = -rng.choice([1, 2, 6, 9, 11, 13, 15])
        if o in ('cut', 'rc-output', 'signal-output'):
            f['part'] = round(rng.random(), 3)
        if o.startswith('bytes'):
            f['raw'] = rng.choice(['ff', 'fffe4100', 'e9', '80', 'c328', '00', 'f0288cbc', '31ff'])
        if o == 'nonsense':
            f['text'] = rng.choice(['fatal: ambiguous', '-', '-dirty', '1-2-3', 'a b c', '\n\n', '0', '-1', '1.5', 'nan', '--'])
        faults.append(f)
    return {'full': full, 'short': rng.choice([7, 7, 8, 10]), 'count': rng.choice([1, 3, 250]), 'tags': tags,
            'dirty': rng.random() < 0.4, 'repo': rng.random() < 0.93, 'faults': faults,
            'mode': rng.choice(['package', 'module', 'module', 'windows']), 'nl': rng.choice(['\n', '\n', '\r\n', ''])}


class Git:
    """A model of one repository and of the commands the version lookup may ask."""
    def __init__(self, plan):
        self.p = plan
        self.calls = 0
        self.fired = []
        self.log = []

    # ---- what a healthy git prints --------------------------------------------------------------
    def nearest(self, match=None, annotated_only=False):
        ok = [t for t in self.p['tags'] if (not annotated_only or t['annotated'])
              and (match is None or any(fnmatch.fnmatchcase(t['name'], m) for m in match))]
        return min(ok, key=lambda t: t['distance']) if ok else None

    def answer(self, args, cwd):
        p = self.p
        inside = os.path.realpath(cwd or os.getcwd()).startswith(env.PKG_DIR.rstrip(os.sep).rsplit(os.sep, 1)[0])
        args = list(args)
        while args[:1] in (['-C'], ['-c']):
            if args[0] == '-C':
                inside = os.path.realpath(args[1]).startswith(os.path.realpath(env.REPO))
            args = args[2:]
        if args[:1] == ['--version'] or args[:1] == ['version']:
            return 0, 'git version 2.43.0'
        if not p['repo']:
            return 128, ''
        full = p['full'] if inside else 'f' * 40
        cmd, rest = (args[0], args[1:]) if args else ('', [])
        if cmd == 'rev-parse':
            if '--git-dir' in rest:
                return 0, '.git'
            if '--show-toplevel' in rest:
                return 0, os.path.realpath(env.REPO)
            if '--is-inside-work-tree' in rest:
                return 0, 'true'
            if 'HEAD' in rest:
                s = [a for a in rest if a.startswith('--short')]
                n = int(s[0].split('=')[1]) if s and '=' in s[0] else p['short']
                return 0, full[:n] if s else full
        if cmd == 'describe':
            match, it = [], iter(rest)
            for a in it:
                if a == '--match':
                    match.append(next(it))
                elif a.startswith('--match='):
                    match.append(a[8:])
            t = self.nearest(match or None, '--tags' not in rest and '--all' not in rest)
            if not inside:
                t = {'name': 'other', 'distance': 9}
            mark = [a for a in rest if a.startswith('--dirty')]
            mark = (mark[0].split('=', 1)[1] if '=' in mark[0] else '-dirty') if mark and p['dirty'] else ''
            if t is None:
                return (0, full[:p['short']] + mark) if '--always' in rest else (128, '')
            if t['distance'] == 0 and '--long' not in rest:
                return 0, t['name'] + mark
            return 0, '{}-{}-g{}{}'.format(t['name'], t['distance'], full[:p['short']], mark)
        if cmd == 'rev-list':
            if '--count' in rest:
                return 0, str(p['count'])
            return 0, '\n'.join([full] * p['count'])
        if cmd in ('show', 'log'):
            f = [a for a in rest if a.startswith('--format=') or a.startswith('--pretty=')]
            f = f[0].split('=', 1)[1] if f else ''
            f = f[7:] if f.startswith('format:') else f
            return 0, (f.replace('%ci', '2024-02-29 13:37:00 +0100').replace('%cI', '2024-02-29T13:37:00+01:00')
                       .replace('%H', full).replace('%h', full[:p['short']]))
        if cmd in ('status', 'diff', 'diff-index'):
            return 1 if p['dirty'] and '--quiet' in rest else 0, ' M setup.py' if p['dirty'] else ''
        return 1, ''

    # ---- one invocation, possibly faulty --------------------------------------------------------
    def invoke(self, argv, cwd):
        self.calls += 1
        name = os.path.basename(str(argv[0]))
        if name not in self.exes:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), str(argv[0]))
        rc, out = self.answer([str(a) for a in argv[1:]], cwd)
        data = (out + self.p['nl']).encode() if out else b''
        for f in self.p['faults']:
            if self.calls == f['call'] or f['sticky'] and self.calls > f['call']:
                w = f['what']
                self.fired.append((self.calls, w))
                if w == 'spawn':
                    e = getattr(errno, f['errno'])
                    raise OSError(e, os.strerror(e), str(argv[0]))
                if w in ('rc', 'signal'):
                    return f['rc'], b''
                if w in ('rc-output', 'signal-output'):
                    return f['rc'], data[:int(f['part'] * len(data))]
                if w == 'empty':
                    return rc, b''
                if w == 'cut':
                    return rc, data[:int(f['part'] * len(data))]
                if w == 'bytes':
                    return rc, bytes.fromhex(f['raw'])
                if w == 'bytes-rc':
                    return f['rc'], bytes.fromhex(f['raw'])
                if w == 'nonsense':
                    return rc, f['text'].encode()
        return rc, data

    def popen(self):
        git = self

        class Popen:
            def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                         close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, *a, text=None,
                         encoding=None, errors=None, **kw):
                argv = args.split() if isinstance(args, str) else list(args)
                self.args, self.pid = args, 4242
                self._text = bool(text or universal_newlines or encoding or errors)
                self._enc = encoding or 'utf-8', errors or 'strict'
                self.returncode = None
                self._rc, out = git.invoke(argv, cwd)
                self.stdin = None
                self._out = out if stdout is not None else None
                self.stdout = self._file(out) if stdout is not None else None
                self.stderr = self._file(b'') if stderr is not None and stderr != subprocess.STDOUT else None

            def _file(self, b):
                f = io.BytesIO(b)
                return io.TextIOWrapper(f, *self._enc) if self._text else f

            def communicate(self, input=None, timeout=None):
                self.returncode = self._rc
                return (None if self.stdout is None else self.stdout.read(),
                        None if self.stderr is None else self.stderr.read())

            def wait(self, timeout=None):
                self.returncode = self._rc
                return self._rc

            def poll(self):
                self.returncode = self._rc
                return self._rc

            def kill(self):
                pass
            terminate = kill

            def send_signal(self, s):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.wait()
        return Popen


def expected(plan):
    """The versions a healthy lookup may report: nearest tag, distance, commit and dirtiness."""
    git = Git(plan)
    t = git.nearest()
    if not plan['repo']:
        return None
    out = set()
    for n in {7, plan['short']}:
        g = 'g' + plan['full'][:n]
        d = '.dirty' if plan['dirty'] else ''
        if t is None:
            out.add('0+untagged.{}.{}{}'.format(plan['count'], g, d))
        else:
            v = t['name']
            if t['distance'] or plan['dirty']:
                v += ('.' if '+' in v else '+') + '{}.{}{}'.format(t['distance'], g, d)
            out.add(v)
    return out


PLACE = re.compile(r'unknown')


@contextlib.contextmanager
def seams(git, platform=None):
    saved = subprocess.Popen, sys.platform
    subprocess.Popen = git.popen()
    if platform:
        sys.platform = platform
    try:
        yield
    finally:
        subprocess.Popen, sys.platform = saved


def lookup(plan, git):
    """The version reported, by a fresh import; get_versions() too where it is reachable."""
    if plan['mode'] == 'package':
        old = {n: m for n, m in sys.modules.items() if n.split('.')[0] == env.PKG_NAME}
        for n in old:
            del sys.modules[n]
        try:
            with seams(git):
                return importlib.import_module(env.PKG_NAME).__version__, None
        finally:
            for n in [n for n in sys.modules if n.split('.')[0] == env.PKG_NAME]:
                del sys.modules[n]
            sys.modules.update(old)
    path = os.path.join(env.PKG_DIR, '_version.py')
    m = types.ModuleType(env.PKG_NAME + '._version')
    m.__file__ = path
    m.__package__ = env.PKG_NAME
    with open(path, encoding='utf-8') as f:
        code = compile(f.read(), path, 'exec')
    with seams(git, 'win32' if plan['mode'] == 'windows' else None):
        exec(code, m.__dict__)
        v = m.get_versions()
    return v['version'], v


LYING = ('cut', 'bytes', 'nonsense', 'empty')


def run(plan, ctx):
    require(len({t['name'] for t in plan['tags']}) == len(plan['tags']), 'tag twice')
    ds = [t['distance'] for t in plan['tags']]
    require(len(set(ds)) == len(ds), 'tags at the same distance')
    require(re.fullmatch('[0-9a-f]{40}', plan['full']) and 4 <= plan['short'] <= 40, 'hash')
    git = Git(plan)
    git.exes = ('git.cmd',) if plan['mode'] == 'windows' and plan['count'] % 2 else \
        ('git.exe',) if plan['mode'] == 'windows' else ('git',)
    try:
        version, details = lookup(plan, git)
    except Exception as e:
        raise Violation('import', 'the import raises {}: {}'.format(type(e).__name__, e))
    ctx.steps += git.calls
    require(git.calls > 0 or plan['mode'] == 'package', 'git was not asked')
    for _, w in git.fired:
        ctx.fault(w)
    for c, _ in git.fired:
        ctx.probe('call-{}'.format(c))
    ctx.probe('twice', len(git.fired) > 1)
    ctx.note(version, git.calls, git.fired)
    if not isinstance(version, str) or not version:
        raise Violation('version', 'the version is {!r}'.format(version))
    want = expected(plan)
    good = want is not None and version in want
    lies = any(w in LYING for _, w in git.fired)
    if not git.fired or not lies:
        if want is None or git.fired:
            if not (good or PLACE.search(version)):
                raise Violation('version', 'git failed but the version is {!r}, neither a placeholder nor {}'.format(
                    version, sorted(want or ())))
        elif not good:
            raise Violation('version', 'the version is {!r} instead of {}'.format(version, sorted(want)))
    if details is not None and not git.fired and want is not None:
        if details['dirty'] is not plan['dirty'] or details['full-revisionid'] != plan['full'] or details['error'] is not None:
            raise Violation('details', 'the details are {}'.format(details))
    ctx.probe('healthy', not git.fired)
    ctx.probe('lying', lies)
    ctx.probe('placeholder', bool(PLACE.search(version)))
    ctx.probe('exact-despite-fault', good and bool(git.fired))
    ctx.probe('no-repo', not plan['repo'])
    ctx.probe(plan['mode'])
    t = git.nearest()
    ctx.probe('untagged', t is None)
    ctx.probe('dirty', plan['dirty'])
    if t is not None:
        ctx.probe('tagged')
        ctx.probe('plus-tag', '+' in t['name'])
        ctx.probe('hyphen-tag', '-' in t['name'])
        ctx.probe('far', t['distance'] > 0)


assert signal
