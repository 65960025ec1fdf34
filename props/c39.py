"""C39: what a release of a package is made of."""
import os
from augpathlib.package import PackagePath, parse_version as Version
from augpathlib.repo import RepoHelper, RepoPath
from props import gitkit
from props.c31 import contents
from props.gitkit import State
from sx.case import Case

META = dict(
    title='The changes since the last release are complete, the next one is new',
    statement='commits_since_last_release lists, newest first, exactly the commits after the nearest tag of a version of the package, or all '
              'if there is none, that changed a file of the release, or anything in the folder of the package if these are not known. '
              'version_latest_pypi and version_latest_released are what PyPI says and the newest version there is; version_next and command '
              'are of a version that is newer than all these, or it is an error; without '
              'any release it is the version of the repository. bump refuses what was released or is the version of the repository, and '
              'with pretend changes nothing.',
    quantifier=dict(over=['histories', 'inputs'], text='all histories, tags and releases within the bounds'),
    why_tests_cant='the tests ask PyPI and GitHub about this one package',
    anchors=dict(files=['augpathlib/package.py'],
                 mechanism=[dict(name='changes', where='augpathlib/package.py:PackagePath.commits_since_last_release'),
                            dict(name='next', where='augpathlib/package.py:PackagePath.version_next'),
                            dict(name='bump', where='augpathlib/package.py:PackagePath.bump')],
                 observe_at=['PackagePath.commits_since_last_release', 'PackagePath.version_next', 'PackagePath.bump', 'PackagePath.command']),
)
ASSUMPTIONS = ['what is in a release, the name and the version of the repository are what setuptools says', 'histories without merges']
TAGS = None, '1.0', 'ab-1.1', 'v1.0', 'ab-c-3.0', 'c-ab-1.0'


class R(PackagePath):
    arg_packagename = 'ab'
    included = None
    version_repo = None
    module = property(lambda self: self.folder / 'ab')

    @property
    def release_files(self):
        if self.included is None:
            raise FileNotFoundError('MANIFEST.in')
        return list(self.included)


R._bind_flavours()


def changes(ctx):
    n = 1 + ctx.choice('length', ctx.bound('commits'))
    sub = ctx.flag('below the top')
    pre = 'ab/' if sub else ''
    files = pre + 'm.py', pre + 's p', pre + 'setup.py', 'z'
    trees = [{files[2]: 1, files[3]: 1 + k, **contents(ctx, 'commit %d' % k, files[:2])} for k in range(n)]
    marks = {}
    for i in range(ctx.bound('tags')):
        t = ctx.pick('tag %d' % i, TAGS if i == 0 else TAGS[:3])
        if t is not None:
            ctx.assume(t not in marks)
            at = ctx.choice('tag %d at' % i, n)
            ctx.assume(at not in marks.values())
            marks[t] = at
    s = State(files, dict(main=trees[-1]), 'main', trees[-1], trees[-1], history=trees[:-1], marks=marks)
    included = ctx.pick('included', (('m.py', 'setup.py'), ('s p', 'm.py', 'setup.py'), None))
    mine = [k for t, k in marks.items() if (t.startswith('ab-') and t[3:4].isdigit() if sub else t[0].isdigit())]
    since = max(mine, default=-1)
    which = [pre + f for f in included] if included else [f for f in files if f.startswith(pre)]

    def op(top, after):
        p = R(top + '/' + pre.rstrip('/') if sub else top)
        if not os.path.exists(p / 'setup.py'):   # there are no files where there is no git
            os.makedirs(p, exist_ok=True)
            open(p / 'setup.py', 'w').close()
        p.included = included
        got = [c.rpartition(' ')[2] for c in p.commits_since_last_release()]
        if got[-1:] == ['base']:   # what every repository here begins with
            ctx.check(since == -1 and not sub and included is None, 'base')
            got.pop()
        want = ['n%d' % k for k in reversed(range(since + 1, n))
                if any([trees[k][f] != (trees[k - 1][f] if k else 0) for f in which])]
        ctx.check(got == want, 'lists %s not %s' % (got, want))
        ctx.label('tag' if mine else 'no tag')
        return got
    return gitkit.run(ctx, s, op)


VERSIONS = '0.9', '1.0a1', '1.0', '1.0.post1', '1.1.dev0', '2.0'
PHASES = 'current', 'dev', 'pre', 'a', 'rc', 'release', 'major', 'minor', 'micro', 'post', 'local'


class Url:
    name = 'origin'

    def __init__(self, url):
        self.url = url

    @property
    def urls(self):
        return iter([self.url])


class Hosted:
    def __init__(self, dir, url):
        self.working_dir, self.url = dir, url
        self.active_branch = Url(None)

    def remote(self):
        return Url(self.url)


def next(ctx):
    fs = ctx.fs
    sub = ctx.flag('below the top')
    folder = '/tmp/here/ab' if sub else '/tmp/here'
    for d in ('/tmp/here', '/tmp/here/.git', '/tmp/here/ab'):
        RepoPath(d).mkdir()
    fs.put(folder + '/setup.py', b'')
    p = R(folder)
    there = [v for v in VERSIONS if ctx.flag('released ' + v)]
    if there:
        # what PyPI calls the version is the newest that is final, or else the newest
        final = [v for v in there if not Version(v).is_prerelease] or there
        p._pypi_json = dict(info=dict(version=final[-1]), releases={v: [] for v in (reversed(there) if ctx.flag('reversed') else there)})
    else:
        p._pypi_json = None
    repo = ctx.pick('repository', (None, '1.0', '1.1.dev0', '2.0', '2.1'))
    p.version_repo = repo and Version(repo)
    phase = ctx.pick('phase', PHASES)
    comp = ctx.pick('component', ('release', 'minor')) if phase == 'dev' else 'release'
    ctx.check(p.version_latest_pypi == (Version(final[-1]) if there else None), 'latest on PyPI')
    ctx.check(p.version_latest_released == (Version(there[-1]) if there else None), 'latest released')
    try:
        got = p.version_next(phase, comp)
    except (ValueError, AssertionError) as e:
        ctx.check(bool(there), 'error %r' % e)
        ctx.label('refused')
        return 'refused'
    if not there:
        ctx.check(got == Version(repo or '0.0.0.dev0'), 'first version %s' % got)
    else:
        ctx.check(got > Version(there[-1]), '%s is next to %s' % (got, there))
    RepoPath._repos.clear()
    RepoPath._repos[RepoPath('/tmp/here')] = Hosted('/tmp/here', 'https://github.com/an-org/a.repo.git')
    RepoPath._repos[RepoPath('/tmp/here')].active_branch.name = 'main'
    try:
        ctx.check(p.command(phase, comp) == 'build-release an-org a.repo %s ab %s' % ('here/ab' if sub else 'here', got), 'command')
    finally:
        RepoPath._repos.clear()
    before = fs.tree('/tmp/here')
    try:
        p.bump(phase, comp, pretend=True)
        ctx.check(str(got) not in there and got != p.version_repo, 'bump to %s' % got)
        ctx.label('bump')
    except ValueError as e:
        ctx.check(str(got) in there or got == p.version_repo, 'bump refused %s' % got)
        ctx.label('no bump')
    ctx.check(fs.tree('/tmp/here') == before, 'bump changed files')
    return str(got)


CASES = [
    Case('changes', changes, dict(commits=3, tags=1), dict(commits=3, tags=2), expect=('tag', 'no tag'),
         split=[{'=length': i, '=included': k} for i in range(3) for k in range(3)], bounds='up to 3 commits of 2 files and others, 1 (thorough: 2) tags'),
    Case('next', next, dict(), fs='model', expect=('refused', 'bump', 'no bump'), split=[{'=phase': i} for i in range(len(PHASES))],
         bounds='all sets of 6 versions'),
]
