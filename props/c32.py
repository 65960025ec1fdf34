"""C32: what is said about a path in a repository."""
from augpathlib import exceptions as exc
from augpathlib import repo_patch  # noqa: F401
from augpathlib.repo import RepoPath, RepoHelper
from props import gitkit
from props.c31 import contents, usual
from props.gitkit import State
from sx.case import Case

META = dict(
    title='What a RepoPath says about its state, history, place and urls is what git has',
    statement='indexed, modified and has_uncommitted_changes are true exactly when the content of that one file differs between HEAD and '
              'index, index and working tree, HEAD and working tree; diff says so for any two of them and for commits; show gives '
              'exactly the bytes; latest_commit and commits are those that changed that file, newest first. working_dir is the nearest folder '
              'at or above the path that has .git, and repo_relative_path leads from there to the path. The urls name the organisation, '
              'repository, ref and path, whichever form the url of the remote has and whatever dots are in the names; '
              'clone_path is the folder git would clone to. currentRefName is the branch, or a name that means exactly the commit, or None.',
    quantifier=dict(over=['histories', 'inputs', 'configurations'], text='all contents and histories of two files, names, urls, and places'),
    why_tests_cant='the tests ask about one commit of one file; urls are tested over the network only',
    anchors=dict(files=['augpathlib/repo.py', 'augpathlib/repo_patch.py'],
                 mechanism=[dict(name='differences', where='augpathlib/repo.py:RepoHelper._do_diff'),
                            dict(name='urls', where='augpathlib/repo.py:RepoHelper._remote_uri'),
                            dict(name='discovery', where='augpathlib/repo.py:RepoHelper.working_dir')],
                 observe_at=['RepoPath.diff', 'RepoPath.show', 'RepoPath.commits', 'RepoPath.repo_relative_path', 'RepoPath.remote_uri_human']),
)
ASSUMPTIONS = ['git does what its manual says']
NAMES = ('a', 'b'), ('[b]', 'b'), ('*', 'b'), ('-q', 'b'), (':b', 'b'), ('t/a', 't'), ('t/a', 't/a.b')


def state(ctx):
    a, b = files = ctx.pick('names', NAMES[:5] + NAMES[6:])
    h, o, p, i, w = trees = [contents(ctx, k, (a,)) for k in ('HEAD', 'other', 'HEAD~1', 'index', 'work')]
    for t, c in zip(trees, ctx.pick('contents of the other file', ((1, 1, 1, 1, 1), (1, 2, 3, 2, 3), (0, 1, 0, 1, 2)))):
        t[b] = c
    s = State(files, dict(main=h, other=o), 'main', i, w, history=[p])
    usual(ctx, s)
    query = ctx.pick('query', ('modified', 'indexed', 'has_uncommitted_changes', 'diff', 'show'))
    trees = {None: w, '': i, 'HEAD': h, 'other': o, 'HEAD~1': p}
    if query in ('diff', 'show'):
        ref = ctx.pick('ref', tuple(trees))
        orig = ctx.pick('orig', tuple(trees)) if query == 'diff' else None
    else:
        ref, orig = dict(modified=('', None), indexed=('HEAD', ''), has_uncommitted_changes=('HEAD', None))[query]

    def op(top, after):
        r = RepoPath(top, a)
        if isinstance(RepoPath._repos.get(RepoPath(top)), gitkit.Repo) and w[a] != 0:
            RepoPath(top, a).parent.mkdir(exist_ok=True)
            with open(top + '/' + a, 'w') as f:
                for n in 1, 2, 3:
                    if w[a] == n:
                        f.write(gitkit.text(n))
        if query == 'show':
            c = trees[ref][a]
            try:
                got = r.show() if ref == '' else r.show(ref)
            except (gitkit.git.exc.GitCommandError, FileNotFoundError):
                ctx.check(c == 0, 'show raises')
                return 'nothing'
            ctx.check(c != 0, 'show of nothing')
            ctx.label('show')
            for n in 1, 2, 3:
                if c == n:
                    ctx.check(got == gitkit.text(n).encode(), 'content')
            return 'shown'
        try:
            got = bool(r.diff(ref, orig) if query == 'diff' else getattr(r, query)())
        except FileNotFoundError:
            ctx.check(w[a] == 0 and not (ref is None and orig is None), 'there is no file')
            return None
        if ref is None and orig is None:
            ctx.check(not got, 'of itself')
            return got
        ctx.check(w[a] != 0, 'there is a file')
        x, y = trees[ref], trees[orig]
        if None in (ref, orig) and i[a] == 0:
            # not tracked
            ctx.check(not got or (x if orig is None else y)[a] != 0, 'not tracked')
            return got
        ctx.check(got == (x[a] != y[a]), 'difference of %s and %s' % (ref, orig))
        ctx.label('different' if got else 'same')
        return got
    return gitkit.run(ctx, s, op)


def log(ctx):
    a, b = files = ctx.pick('names', NAMES[:6])
    if b == 't':
        b, a, files = 't', 't/a', ('t/a', 'b')
    trees = [contents(ctx, 'commit %d' % k, files) for k in range(1 + ctx.choice('length', ctx.bound('commits')))]
    s = State(files, dict(main=trees[-1]), 'main', trees[-1], trees[-1], history=trees[:-1])
    rev = ctx.pick('rev', (None, 'HEAD', 'main', 'HEAD~1') if len(trees) > 1 else (None, 'HEAD', 'main'))
    which = ctx.pick('which', ('latest_commit', 'commits', 'max_count'))
    n = len(trees) - (rev == 'HEAD~1')
    if b == 't' and ctx.flag('folder'):
        target = 't'
    else:
        target = a

    def op(top, after):
        r = RepoPath(top, target)
        want = ['n%d' % k for k in reversed(range(n)) if trees[k][a] != (trees[k - 1][a] if k else 0)]
        if which == 'latest_commit':
            try:
                got = r.latest_commit(rev).message.strip() if rev else r.latest_commit().message.strip()
            except exc.NoCommitsForFile:
                got = None
                ctx.label('none')
            ctx.check(got == (want[0] if want else None), 'latest commit %s %s' % (got, want))
        else:
            got = [c.message.strip() for c in (r.commits(rev=rev, max_count=1) if which == 'max_count' else r.commits(rev=rev))]
            ctx.check(got == want[:1 if which == 'max_count' else None], 'commits %s %s' % (got, want))
            ctx.label('commits')
        return got
    return gitkit.run(ctx, s, op)


class Recorded:
    def __init__(self, path):
        self.working_dir = path


def where(ctx):
    fs = ctx.fs
    x, y = ctx.pick('names', (('a', 'a'), ('x.git', 'b c')))
    dirs = ['/tmp/r', '/tmp/r/' + x, '/tmp/r/' + x + '/' + y]
    for d in dirs:
        RepoPath(d).mkdir()
    has = [ctx.pick('.git %d' % i, (None, 'dir', 'file')) for i in range(3)]
    for d, k in zip(dirs, has):
        if k == 'dir':
            RepoPath(d + '/.git').mkdir()
        elif k == 'file':
            fs.put(d + '/.git', b'gitdir: /tmp/g')
    fs.put(dirs[2] + '/f', b'')
    old, RepoHelper._repo_class = RepoHelper._repo_class, Recorded
    RepoPath._repos.clear()
    try:
        where, rel = ctx.pick('path', ((0, ''), (1, ''), (2, ''), (2, 'f'), (2, 'none'), (2, 'none/none'), (2, '..'), (2, '../none'), (1, '..')))
        target = '/'.join((dirs[where], rel)).rstrip('/')
        k, rest = where, rel
        while rest.startswith('..'):
            k, rest = k - 1, rest[3:]
        true = '/'.join((dirs[k], rest)).rstrip('/')
        base = max([i for i in range(k + 1) if has[i]], default=None)
        if ctx.flag('relative'):
            cwd = ctx.choice('cwd', where + 1)
            fs.chdir(dirs[cwd])
            target = target[len(dirs[cwd]) + 1:] or '.'
        r = RepoPath(target)
        if base is None:
            ctx.check(r.working_dir is None, 'working dir')
            try:
                r.repo
                ctx.check(False, 'there is no repo')
            except exc.NotInRepoError:
                ctx.label('no repo')
            return None
        ctx.check(str(r.working_dir) == dirs[base], 'working dir')
        ctx.check(r.repo.working_dir == dirs[base], 'repo')
        ctx.check(r.repo is RepoPath(dirs[base]).repo, 'one repo')
        got = r.repo_relative_path
        ctx.check(str(got) == (true[len(dirs[base]) + 1:] or '.'), 'relative')
        ctx.label('repo')
        return base
    finally:
        fs.chdir('/')
        RepoHelper._repo_class = old
        RepoPath._repos.clear()


class Named:
    def __init__(self, name):
        self.name = name


class Remote:
    name = 'origin'

    def __init__(self, url):
        self.urls = iter([url])


class Hosted(Recorded):
    def __init__(self, path, url, branch):
        self.working_dir, self.url, self.active_branch = path, url, Named(branch)
        self.refs = [Named(branch), Named('origin/' + branch), Named('v1.0')]

    def remote(self, name='origin'):
        return Remote(self.url)

    def iter_commits(self, ref, max_count=None):
        return iter([])


# what git and github allow in names
WORD = (0x2d, 0x2e), (0x30, 0x39), (0x41, 0x5a), (0x5f, 0x5f), (0x61, 0x7a)
FORMS = ('https://github.com/%s/%s', 'http://github.com/%s/%s', 'git@github.com:%s/%s', 'ssh://git@github.com/%s/%s',
         'git://github.com/%s/%s')


def github(ctx, name, n):
    s = ctx.str(name, n, 1, WORD)
    ctx.assume(s not in ('.', '..'))
    ctx.assume(not s.endswith('.git'))
    return s


def uris(ctx):
    fs = ctx.fs
    n = ctx.bound('chars')
    org = github(ctx, 'organisation', n).replace('.', '-').replace('_', '-')
    name = github(ctx, 'repository', n)
    url = ctx.pick('form', FORMS) % (org, name) + ctx.pick('end', ('', '.git', '/', '.git/'))
    dir = ctx.pick('dir', ('/tmp/r', '/tmp/r.x'))
    RepoPath(dir).mkdir()
    RepoPath(dir + '/.git').mkdir()
    branch = ctx.pick('branch', ('main', 'f/x.y'))
    here, local = dir, ctx.flag('local clone')
    RepoPath('/')
    package = RepoHelper._git
    RepoPath._repos.clear()
    try:
        RepoPath._repos[RepoPath(dir)] = Hosted(dir, url, branch)
        if local:
            here = '/tmp/clone'
            RepoPath(here).mkdir()
            RepoPath(here + '/.git').mkdir()
            RepoPath._repos[RepoPath(here)] = Hosted(here, dir, branch)
        rel = ctx.pick('path', ('', 'a', 'd.e/f.tar.gz'))
        r = RepoPath(here, rel) if rel else RepoPath(here)
        ref = ctx.pick('ref', (None, 'HEAD', 'v1.0', 'any'))
        if ref == 'any':
            ref = ctx.str('ref', 5, 5, WORD)
            ctx.assume(not ref.startswith('.') and not ref.endswith('.') and '..' not in ref)
            for x in RepoPath._repos.values():
                x.refs.append(Named(ref))
        tail = '/'.join([x for x in (branch if ref is None or ref == 'HEAD' else ref, rel) if x])
        got = r.remote_uri_human(ref) if ref else r.remote_uri_human()
        ctx.check(got == 'https://github.com/' + org + '/' + name + '/blob/' + tail, 'human')
        got = r.remote_uri_machine(ref) if ref else r.remote_uri_machine()
        ctx.check(got == 'https://raw.githubusercontent.com/' + org + '/' + name + '/' + tail, 'machine')
        if not local:
            ctx.check(r.remote_uri_api() == 'https://api.github.com/repos/' + org + '/' + name, 'api')
            ctx.check(r.remote_uri_api('/releases') == 'https://api.github.com/repos/' + org + '/' + name + '/releases', 'api')
        c = RepoPath('/tmp/c').clone_path(url)
        ctx.check(str(c) == '/tmp/c/' + name, 'clone path')
        ctx.label('local' if local else 'remote')
    finally:
        RepoPath._repos.clear()
    return rel


def elsewhere(ctx):
    """a repository that is not on github has no url there"""
    RepoPath('/tmp/r').mkdir()
    RepoPath('/tmp/r/.git').mkdir()
    host = ctx.str('host', ctx.bound('chars'), 1, WORD[1:]) + ctx.pick('domain', ('github.com', '.github.com', '.com'))
    url = ctx.pick('form', ('https://%s/o/r', 'git@%s:o/r', 'ssh://git@%s/o/r', 'git://%s/o/r.git', 'file:///tmp/%s/o/r',
                            'https://%s/github.com/r', 'git@%s:github.com/r')) % host
    RepoPath('/')
    RepoPath._repos.clear()
    try:
        RepoPath._repos[RepoPath('/tmp/r')] = Hosted('/tmp/r', url, 'main')
        r = RepoPath('/tmp/r/f')
        try:
            got = r.remote_uri_machine() if ctx.flag('machine') else r.remote_uri_human()
        except NotImplementedError:
            ctx.label('refused')
            return None
        ctx.check(False, 'a url at github of %s: %s' % (url, got))
    finally:
        RepoPath._repos.clear()


def clone(ctx):
    """other places to clone from"""
    name = github(ctx, 'repository', ctx.bound('chars'))
    url = ctx.pick('form', ('/srv/%s', '../%s', '%s', '~/git/%s', 'host:%s', 'host:git/%s', 'u@h.org:%s', 'file:///srv/%s', 'https://h.org:80/a.b/%s'))
    url = url % name + ctx.pick('end', ('', '.git', '/', '/.git', '/.git/', '.git//'))
    ctx.check(str(RepoPath('/tmp/c').clone_path(url)) == '/tmp/c/' + name, 'clone path')
    ctx.label('clone')
    return True


def refname(ctx):
    """of name-rev"""
    name = ctx.str('name', ctx.bound('chars'), 1, ((0x2d, 0x39), (0x41, 0x5a), (0x5f, 0x5f), (0x61, 0x7a)))
    ctx.assume('//' not in name and not name.startswith('/') and not name.endswith('/') and '..' not in name)
    prefix = ctx.pick('kind', ('tags/', 'remotes/origin/', '', 'undefined', 'none'))
    suffix = ctx.pick('suffix', ('', '^0', '~1', '~12', '^2', '^0~3', '~2^2~1'))
    rev = prefix if prefix in ('undefined', 'none') else prefix + name + suffix
    detached = ctx.flag('detached')

    class C:
        name_rev = '0' * 40 + (' ' + rev if prefix != 'none' else '')

    class H:
        is_detached = detached
        commit = C

    class R(repo_patch._Repo):
        def __init__(self):
            pass
        head = H
        active_branch = Named(name)

        def __del__(self):
            pass
    got = R().currentRefName()
    if not detached:
        ctx.check(got == name, 'branch')
        ctx.label('branch')
    elif prefix == 'tags/' and suffix in ('', '^0'):
        ctx.check(got == name, 'tag')
        ctx.label('tag')
    elif prefix in ('undefined', 'none') or suffix:
        ctx.check(got is None, 'a name that changes: %s' % got)
        ctx.label('none')
    else:
        ctx.check(got is None or got == rev, 'name')
    return got is None


CASES = [
    Case('state', state, dict(), expect=('show', 'different', 'same'), split=[{'=query': i} for i in range(3)] + [{'=query': 3, '=ref': i} for i in range(5)] + [{'=query': 4}], bounds='2 files'),
    Case('log', log, dict(commits=3), dict(commits=4), expect=('none', 'commits'), bounds='up to 3 (thorough: 4) commits of 2 files'),
    Case('where', where, dict(), fs='model', expect=('repo', 'no repo'), split=[{'=.git 0': i} for i in range(3)],
         bounds='3 folders, one in the other'),
    Case('uris', uris, dict(chars=2), dict(chars=3), fs='model', expect=('local', 'remote'), split=[{'=form': i} for i in range(len(FORMS))],
         bounds='names of up to 2 (thorough: 3) characters'),
    Case('elsewhere', elsewhere, dict(chars=2), dict(chars=4), fs='model', expect=('refused',), bounds='hosts of any 2 (thorough: 4) characters and a domain'),
    Case('clone', clone, dict(chars=3), dict(chars=5), expect=('clone',), bounds='names of up to 3 (thorough: 5) characters'),
    Case('refname', refname, dict(chars=3), dict(chars=5), expect=('branch', 'tag', 'none'), bounds='names of up to 3 (thorough: 5) characters'),
]
