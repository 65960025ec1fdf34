"""C33: versions and packages."""
from packaging.version import Version
from augpathlib.package import PackagePath, next_version
from augpathlib.repo import RepoPath, RepoHelper
from props import gitkit
from props.gitkit import State
from props.c32 import Recorded
from sx.case import Case

META = dict(
    title='The next version is a newer one of the asked for phase, tags are of the package',
    statement='next_version returns a version that is newer than the given one, of the same epoch and of the phase that was '
              'asked for (current keeps the phase), where major, minor, micro and release change exactly their component, '
              'zero what follows, and drop everything else; or it is a ValueError. The tag and version of a PackagePath are the nearest '
              'tag with a version of that very package, with the name of the package as prefix exactly if setup.py is not at the top of '
              'the repository. folder is the nearest folder at or above with a setup.py.',
    quantifier=dict(over=['inputs', 'configurations'], text='all versions, phases, names and tags'),
    why_tests_cant='there are no tests of versions and packages',
    anchors=dict(files=['augpathlib/package.py'],
                 mechanism=[dict(name='transitions', where='augpathlib/package.py:logic'),
                            dict(name='construction', where='augpathlib/package.py:cons_next'),
                            dict(name='tags', where='augpathlib/package.py:PackagePath.tag')],
                 observe_at=['next_version', 'PackagePath.tag', 'PackagePath.tag_latest_github', 'PackagePath.folder']),
)
ASSUMPTIONS = ['versions are compared as PEP 440 says']
NAMES_OF = 'epoch', 'release', 'dev', 'pre', 'post', 'local'


class Fields:
    """the named tuple of packaging"""

    def __init__(self, epoch, release, dev, pre, post, local):
        self.epoch, self.release, self.dev, self.pre, self.post, self.local = epoch, release, dev, pre, post, local

    def _asdict(self):
        return {k: getattr(self, k) for k in NAMES_OF}

    def _replace(self, **k):
        return Fields(**{**self._asdict(), **k})

    def __iter__(self):
        return iter([getattr(self, k) for k in NAMES_OF])

    def __getitem__(self, i):
        return getattr(self, NAMES_OF[i])


class Text(str):
    """a version as text, with the numbers it was made from"""


class Standin:
    """packaging.version.Version, of numbers that are symbolic"""

    def __init__(self, text):
        self._version = text.fields if isinstance(text, Text) else Fields(0, (0,), None, None, None, None)

    epoch = property(lambda self: self._version.epoch)
    release = property(lambda self: self._version.release)
    pre = property(lambda self: self._version.pre)
    dev = property(lambda self: self._version.dev and self._version.dev[1])
    post = property(lambda self: self._version.post and self._version.post[1])

    @property
    def local(self):
        v = self._version.local
        return None if v is None else '.'.join([str(x) for x in v])

    def __str__(self):
        t = Text('a version')
        t.fields = self._version
        return t


def text(f):
    v = '.'.join([str(x) for x in f.release])
    if f.epoch:
        v = str(f.epoch) + '!' + v
    if f.pre:
        v += f.pre[0] + str(f.pre[1])
    if f.post:
        v += '.post' + str(f.post[1])
    if f.dev:
        v += '.dev' + str(f.dev[1])
    if f.local:
        v += '+' + '.'.join([str(x) for x in f.local])
    return v


def fields(v):
    f = v._version
    return Fields(f.epoch, f.release, f.dev and tuple(f.dev), f.pre and tuple(f.pre), f.post and tuple(f.post), f.local)


def newer(a, b):
    """PEP 440, from the first component that differs"""
    n = max(len(a.release), len(b.release))
    zero = lambda r: [*r, *[0] * (n - len(r))]

    def pre(f):
        if f.pre is None and f.post is None and f.dev is not None:
            return -1, 0
        if f.pre is None:
            return 3, 0
        return ('a', 'b', 'rc').index(f.pre[0]), f.pre[1]

    def local(f):
        # text is before numbers, nothing before both
        return [] if f.local is None else [(0, x, 0) if isinstance(x, str) else (1, '', x) for x in f.local]
    top = 10 ** 12
    one = [a.epoch, *zero(a.release), *pre(a), -1 if a.post is None else a.post[1], top if a.dev is None else a.dev[1]]
    two = [b.epoch, *zero(b.release), *pre(b), -1 if b.post is None else b.post[1], top if b.dev is None else b.dev[1]]
    for x, y in zip(one, two):
        if x != y:
            return x > y
    la, lb = local(a), local(b)
    for x, y in zip(la, lb):
        for s, t in zip(x, y):
            if s != t:
                return s > t
    return len(la) > len(lb)


def phase(f):
    return 'local' if f.local is not None else 'post' if f.post is not None else f.pre[0] if f.pre else 'dev' if f.dev else 'release'


def next(ctx):
    top = 10 ** ctx.bound('digits') - 1
    num = lambda name: ctx.int(name, 0, top)
    release = tuple([num('release %d' % i) for i in range(1 + ctx.choice('length', ctx.bound('components')))])
    pre = ctx.pick('pre', (None, 'a', 'b', 'rc'))
    loc = ctx.pick('local', (None, (0,), ('abc',), ('abc', 0), (0, 'abc')))
    f = Fields(num('epoch'), release, ('dev', num('dev')) if ctx.flag('is dev') else None, pre and (pre, num('pre number')),
               ('post', num('post')) if ctx.flag('is post') else None,
               loc and tuple([ctx.int('local number', 0, 11) if x == 0 else x for x in loc]))
    if hasattr(ctx, 'run'):
        t = Text('a version')
        t.fields = f
        v = Standin(t)
    else:
        v = Version(text(f))
    to = ctx.pick('phase', ('current', 'dev', 'pre', 'a', 'b', 'rc', 'release', 'major', 'minor', 'micro', 'post', 'local', 'other'))
    comp = ctx.pick('component', ('release', 'major', 'minor', 'micro'))
    default = comp == 'release' and ctx.flag('defaults')
    was = phase(f)
    try:
        n = next_version(v) if default and to == 'current' else next_version(v, to) if default else next_version(v, to, comp)
    except ValueError:
        # there is no way back, and post and local are of what is released
        ok = (to == 'other' or to == 'dev' and was in ('a', 'b', 'rc') or to == 'post' and was != 'release' or
              to in ('a', 'b', 'rc') and was in ('a', 'b', 'rc') and was > to)
        ctx.check(ok, 'refused: %s from %s' % (to, was))
        ctx.label('refused')
        return None
    ctx.check(to != 'other', 'unknown phase')
    g = fields(n)
    ctx.check(newer(g, f), 'newer')
    ctx.check(g.epoch == f.epoch, 'epoch')
    now = phase(g)
    if to == 'current':
        ctx.check(now == was, 'phase')
    elif to == 'pre':
        ctx.check(now == dict(a='b', b='rc', rc='rc').get(was, 'a'), 'phase')
    elif to in ('release', 'major', 'minor', 'micro'):
        ctx.check(now == 'release', 'phase')
    else:
        ctx.check(now == to, 'phase')

    def bumped(c):
        k = len(f.release) - 1 if c == 'release' else ('major', 'minor', 'micro').index(c)
        r = [*f.release, *[0] * (k + 1 - len(f.release))]
        return [*r[:k], r[k] + 1, *[0] * (len(r) - k - 1)]

    def is_release(want):
        ctx.check(len(g.release) == len(want) and all([x == y for x, y in zip(g.release, want)]), 'components of the release')
    if to in ('major', 'minor', 'micro'):
        is_release(bumped(to))
    elif to == 'release':
        is_release(f.release if was in ('dev', 'a', 'b', 'rc') else bumped('release'))
    elif to == 'current' and was == 'release':
        is_release(bumped('release'))
    elif to in ('local', 'post') or to == 'current' or to == 'dev' and was == 'dev':
        is_release(f.release)
    elif to in ('dev', 'pre', 'a', 'b', 'rc') and was in ('release', 'post', 'local'):
        is_release(bumped(comp))
    ctx.label(to)
    return [*g.release]


NAMES = (0x2d, 0x2e), (0x30, 0x32), (0x61, 0x62)


class R(PackagePath):
    arg_packagename = 'ab'


R._bind_flavours()


def github(ctx):
    """the releases of github are of all packages of the repository, the latest first"""
    fs = ctx.fs
    sub = ctx.flag('below the top')
    folder = '/tmp/r/ab' if sub else '/tmp/r'
    for d in ('/tmp/r', '/tmp/r/.git', '/tmp/r/ab'):
        RepoPath(d).mkdir()
    fs.put(folder + '/setup.py', b'')
    tags = [ctx.pick('start %d' % i, ('', 'ab', 'ab-', 'c-ab-')) + ctx.str('tag %d' % i, ctx.bound('chars'), 0, NAMES)
            for i in range(ctx.bound('tags'))]
    at = ctx.pick('at', ('', '/f', '/d'))
    if at:
        R(folder + at).mkdir() if at == '/d' else fs.put(folder + at, b'')
    p = R(folder + at)
    p._github_json = [dict(tag_name=t) for t in tags]
    ctx.check(p.tag_prefix == sub, 'prefix')
    got = p.tag_latest_github
    want = None
    for t in tags:
        if (t[:3] == 'ab-' and t[3:4] in ('0', '1', '2')) if sub else t[:1] in ('0', '1', '2'):
            want = t
            break
    ctx.check(got is None if want is None else got == want, 'tag')
    ctx.label('none' if want is None else 'prefix' if sub else 'plain')
    return sub


def tag(ctx):
    """of the tags that git has, in a real repository"""
    tags = ctx.pick('first', TAGS), ctx.pick('second', TAGS)
    ctx.assume(tags[0] != tags[1] or tags[0] is None)
    sub = ctx.flag('below the top')
    files = ('ab/setup.py',) if sub else ('setup.py',)
    h = {files[0]: 1}
    real = gitkit.Real(State(files, dict(main=h), 'main', h, h))
    try:
        RepoHelper._repos.clear()
        for t in tags:
            if t is not None:
                real.git('commit', '-q', '--allow-empty', '-m', t)
                real.git('tag', t)
        real.git('commit', '-q', '--allow-empty', '-m', 'later')
        p = R(real.dir + ('/ab' if sub else '')) / ('setup.py' if ctx.flag('of the file') else '')
        mine = [t for t in tags if t and (t.startswith('ab-') and t[3:4].isdigit() if sub else t[0].isdigit())]
        ctx.check(p.tag == (mine[-1] if mine else None), 'tag %s' % p.tag)
        v = p.version_tag
        ctx.check(v == (Version(mine[-1].rpartition('-')[-1]) if mine else None), 'version %s' % v)
        ctx.label('tag' if mine else 'none')
        return p.tag
    finally:
        for r in RepoPath._repos.values():
            r.close()
        RepoPath._repos.clear()
        real.close()


TAGS = None, '1.0', '2.0.dev1', 'ab-1.1', 'ab-c-3.0', 'v1.0', 'abc-1.0', 'c-ab-1.0'


def folder(ctx):
    fs = ctx.fs
    dirs = ['/tmp/r', '/tmp/r/a', '/tmp/r/a/b']
    for d in dirs:
        RepoPath(d).mkdir()
    has = [ctx.flag('setup.py %d' % i) for i in range(3)]
    for d, k in zip(dirs, has):
        if k:
            fs.put(d + '/setup.py', b'')
        fs.put(d + '/f', b'')
        fs.put(d + '/setup.pyc', b'')
    k, rel = ctx.pick('path', ((0, ''), (1, ''), (2, ''), (0, 'f'), (1, 'f'), (2, 'f'), (2, 'none'), (2, '..'), (2, '../f'), (2, '../..')))
    target = '/'.join((dirs[k], rel)).rstrip('/')
    k -= rel.count('..')
    if ctx.flag('relative'):
        fs.chdir('/tmp/r')
        target = target[7:] or '.'
    try:
        got = str(PackagePath(target).folder)
    except ValueError:
        got = None
    finally:
        fs.chdir('/')
    want = max([i for i in range(k + 1) if has[i]], default=None)
    ctx.check(got == (None if want is None else dirs[want]), 'folder %s' % got)
    ctx.label('none' if want is None else 'folder')
    return want


PHASES = 13
CASES = [
    Case('next', next, dict(digits=6, components=4), dict(digits=9, components=6), split=[{'=phase': i} for i in range(PHASES)],
         expect=('refused', 'current', 'dev', 'pre', 'a', 'b', 'rc', 'release', 'major', 'minor', 'micro', 'post', 'local'),
         bounds='up to 4 (thorough: 6) components of the release, numbers of 6 (thorough: 9) digits'),
    Case('github', github, dict(tags=2, chars=2), dict(tags=2, chars=4), fs='model', expect=('none', 'prefix', 'plain'),
         bounds='2 tags'),
    Case('tag', tag, dict(), expect=('none', 'tag'), bounds='2 tags in a row'),
    Case('folder', folder, dict(), fs='model', expect=('none', 'folder'), bounds='3 folders, one in the other'),
]
