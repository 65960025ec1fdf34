"""C38: making and removing repositories."""
import os
import git
from augpathlib import RepoPath
from augpathlib import exceptions as exc
from augpathlib.repo import RepoHelper
from sx.case import Case

META = dict(
    title='RepoPath.repo is the repository that is there, none is made in another',
    statement='After init or clone_from of a path its repo, for whatever spelling of the path and of paths in it, is '
              'the repository that was made then, also if there had been another one before that was removed, by rmtree or by '
              'others; after it was removed it is the one around it, or NotInRepoError. init and clone_from of a path in a repository, '
              'whether the path exists or not, raise RepoExistsError and change nothing; otherwise the remote and the depth are passed to git '
              'as they are, and clone_from returns the folder. rmtree closes the repository, and nothing uses it any more.',
    quantifier=dict(over=['histories', 'inputs'], text='all short sequences of these operations on nested folders'),
    why_tests_cant='the tests make a repository and remove it; what is stale depends on the order and on the spelling of the paths',
    anchors=dict(files=['augpathlib/repo.py'],
                 mechanism=[dict(name='init', where='augpathlib/repo.py:RepoHelper.init'),
                            dict(name='clone', where='augpathlib/repo.py:RepoHelper.clone_from'),
                            dict(name='cache', where='augpathlib/repo.py:RepoHelper.repo'),
                            dict(name='rmtree', where='augpathlib/repo.py:RepoPath.rmtree')],
                 observe_at=['RepoPath.init', 'RepoPath.clone_from', 'RepoPath.repo', 'RepoPath.rmtree']),
)
RepoPath('/')   # imports git
ASSUMPTIONS = ['others remove repositories but do not make them', 'what git itself makes is a folder with .git']
TOP = '/tmp/r'
DIRS = TOP + '/a', TOP + '/a/b', TOP + '/c'
OPS = 'init', 'clone', 'rmtree', 'removed'


def over(repos, path):
    return max((d for d in repos if (path + '/').startswith(d + '/')), default=None, key=len)


def cycle(ctx):
    fs = ctx.fs
    fs.mkd(TOP + '/w')
    fs.chdir(TOP + '/w')
    calls = []

    class Stub:
        def __init__(self, path):
            self.working_dir = os.path.abspath(path)
            self.node = fs.node(self.working_dir + '/.git')
            self.closed = False
            if self.node is None:
                raise ValueError('no repository at %s' % path)

        @classmethod
        def init(cls, path):
            calls.append(('init', os.path.abspath(path)))
            fs.mkd(os.path.abspath(path) + '/.git')
            return cls(path)

        @classmethod
        def clone_from(cls, remote, path, depth=None):
            calls.append(('clone', remote, os.path.abspath(path), depth))
            fs.mkd(os.path.abspath(path) + '/.git')
            return cls(path)

        def close(self):
            self.closed = True

    repos = {}   # path: node of .git
    old, RepoHelper._repo_class = RepoHelper._repo_class, Stub
    RepoPath._repos.clear()
    try:
        ask = ctx.flag('ask each time')
        n = ctx.bound('ops')
        dirs = DIRS[:3 - ctx.bound('small')]
        for i in range(n):
            op = ctx.pick('op %d' % i, OPS)
            d = dirs[ctx.choice('at %d' % i, len(dirs))]
            calls.clear()
            if op == 'removed' or op == 'rmtree':
                if fs.node(d) is None:
                    ctx.assume(False)
                gone = [r for r in repos if (r + '/').startswith(d + '/')]
                if op == 'removed':
                    parent, _, name = d.rpartition('/')
                    fs.node(parent).children.pop(name)
                else:
                    was = RepoPath(d).repo if d in repos else None
                    RepoPath(d).rmtree()
                    ctx.check(fs.node(d) is None, 'still there')
                    ctx.check(was is None or was.closed, 'not closed')
                for r in gone:
                    repos.pop(r)
                ctx.label(op)
            else:
                relative = ctx.flag('relative %d' % i)
                before = fs.tree(TOP)
                top = over(repos, d)
                given, depth = None, None
                if op == 'clone':
                    k = 0 if ctx.bound('small') else ctx.choice('remote %d' % i, 2)
                    given, depth = (('https://h/x/NAME.git', None), ('/s/NAME', 1))[k]
                    given = given.replace('NAME', d.rpartition('/')[2])
                try:
                    if op == 'clone':
                        p = d.rpartition('/')[0]
                        p = RepoPath(os.path.relpath(p) if relative else p)
                        out = p.clone_from(given, depth=depth)
                    else:
                        p = RepoPath(os.path.relpath(d) if relative else d)
                        made = p.init()
                except exc.RepoExistsError:
                    ctx.check(top is not None, 'there was no repository')
                    ctx.check(fs.tree(TOP) == before and not calls, 'refused but changed')
                    ctx.label('refused')
                else:
                    ctx.check(top is None, 'made in another repository')
                    ctx.check(calls == [('init', d) if op == 'init' else ('clone', given, d, depth)], 'git was asked for %r' % (calls,))
                    repos[d] = fs.node(d + '/.git')
                    if op == 'clone':
                        ctx.check(os.path.abspath(out) == d and isinstance(out, RepoPath), 'clone_from returns %s' % out)
                        made = out.repo
                    ctx.check(made.node is repos[d], 'not what was made')
                    ctx.label(op)
            if not ask and i < n - 1:
                continue
            for x in dirs:
                top = over(repos, x)
                for name in (x, os.path.relpath(x), x + '/f', TOP + '/w/../' + x[len(TOP) + 1:]):
                    try:
                        r = RepoPath(name).repo
                    except exc.NotInRepoError:
                        ctx.check(top is None, 'no repo for %s' % name)
                        continue
                    ctx.check(top is not None, 'repo %s for %s' % (r.working_dir, name))
                    ctx.check(r.working_dir == top and r.node is repos[top] and not r.closed, 'another repo for %s' % name)
        return [len(repos), len(fs.tree(TOP))]
    finally:
        fs.chdir('/')
        RepoHelper._repo_class = old
        RepoPath._repos.clear()


CASES = [
    Case('cycle', cycle, dict(ops=3, small=0), dict(ops=4, small=1), fs='model', expect=('init', 'clone', 'rmtree', 'removed', 'refused'),
         split=[{'=op 0': k, '=at 0': i} for i in range(3) for k in range(2)],
         split_thorough=[{'=op 0': k, '=at 0': i} for i in range(2) for k in range(2)],
         bounds='3 operations on 3 folders, one in another (thorough: 4 on 2)'),
]
