"""A git repository behind RepoPath whose history, index, working tree and stashes have symbolic contents.

The contents of files are numbers, 0 is no file.  `Git` answers the commands that are sent to it, as git does, on these
numbers; a command (or a situation) it does not know raises Complex, and then the operation is repeated from the start
on a repository made by real git with the values of that run.  When replayed it is real git always."""
import contextlib
import fnmatch
import os
import shutil
import subprocess
import tempfile
import git
from git.objects.util import parse_date

ENV = dict(GIT_CONFIG_GLOBAL='/dev/null', GIT_CONFIG_SYSTEM='/dev/null', GIT_AUTHOR_NAME='a', GIT_AUTHOR_EMAIL='a@a',
           GIT_COMMITTER_NAME='a', GIT_COMMITTER_EMAIL='a@a', GIT_TERMINAL_PROMPT='0')


class Complex(BaseException):
    pass


class State:
    """branches: {name: {file: content}}, index and work: {file: content}, stashes: newest first, a list of
    (base, index, work, untracked), ignored: the files that .gitignore names"""

    def __init__(self, files, branches, branch, index, work, stashes=(), ignored=(), history=(), tags=(), marks=()):
        self.marks = dict(marks)   # tags of the nth commit of the branch
        self.tags = tuple(tags)   # of the commit of the first branch
        self.history = [dict(t) for t in history]   # what was before the head of the branch, oldest first
        self.files = tuple(files)
        self.branches = {k: v and dict(v) for k, v in branches.items()}   # None: there is no commit yet
        self.branch = branch
        self.index, self.work = dict(index), dict(work)
        self.stashes = [tuple(None if d is None else dict(d) for d in s) for s in stashes]
        self.ignored = tuple(ignored)

    def copy(self):
        return State(self.files, self.branches, self.branch, self.index, self.work, self.stashes, self.ignored, self.history, self.tags, self.marks)

    @property
    def head(self):
        return self.branches[self.branch] or dict.fromkeys(self.files, 0)

    def dump(self):
        return [self.branch, self.branches, self.index, self.work, self.stashes]


def fail(*command):
    raise git.exc.GitCommandError([str(c) for c in command], 1)


class Git:
    """repo.git"""

    def __init__(self, state, top):
        self.s, self.top = state, top
        self.others = {}   # index files
        self.index_file = None

    def __getattr__(self, name):
        raise Complex(name)

    @property
    def index(self):
        if self.index_file is None:
            return self.s.index
        return self.others.setdefault(self.index_file, dict.fromkeys(self.s.files, 0))

    @contextlib.contextmanager
    def custom_environment(self, **kw):
        if list(kw) != ['GIT_INDEX_FILE']:
            raise Complex(kw)
        old, self.index_file = self.index_file, kw['GIT_INDEX_FILE']
        try:
            yield
        finally:
            self.index_file = old

    def only_the_index(self):
        if self.index_file is not None:
            raise Complex(self.index_file)

    def read_tree(self, *args, **kw):
        if kw or args not in (('HEAD',), ('--empty',)):
            raise Complex(args)
        new = dict(self.s.head) if args == ('HEAD',) else dict.fromkeys(self.s.files, 0)
        if args == ('HEAD',) and self.s.branches[self.s.branch] is None:
            fail('read-tree', *args)
        self.index.update(new)
        return ''

    def ls_files(self, *args, **kw):
        if kw or len(args) != 3 or args[:2] != ('-z', '--'):
            raise Complex(args)
        return ''.join([f + '\0' for f in self.under(args[2]) if self.index[f] != 0])

    def update_index(self, *args, **kw):
        if kw or args[:3] != ('--add', '--remove', '--'):
            raise Complex(args)
        for f in args[3:]:
            if f not in self.s.files:
                raise Complex(args)
            self.index[f] = self.s.work[f]
        return ''

    def add(self, *args, **kw):
        self.only_the_index()
        if kw or len(args) < 2 or args[-2] != '--' or not set(args[:-2]) <= {'--force', '-f'}:
            raise Complex(args)
        s, fs = self.s, self.under(args[-1])
        if all([s.work[f] == 0 and s.index[f] == 0 for f in fs]):
            fail('add', *args)
        if s.ignored and not args[:-2]:
            raise Complex('ignored')
        for f in fs:
            s.index[f] = s.work[f]
        return ''

    def under(self, path):
        path = str(path)
        if path.startswith(':(literal)'):
            path = path[10:]
        elif set(path) & set('*?[\\') or path.startswith(':'):
            raise Complex(path)
        if path == '.':
            return self.s.files
        if path.startswith(self.top + '/'):
            path = path[len(self.top) + 1:]
        if path == self.top:
            return self.s.files
        fs = [f for f in self.s.files if f == path or f.startswith(path + '/')]
        if not fs:
            raise Complex(path)
        return fs

    def show(self, *args, output_stream=None, **kw):
        if kw or len(args) != 2 or args[1] != '--':
            raise Complex(args)
        ref, _, path = args[0].partition(':')
        if path not in self.s.files or '~' in ref and not self.s.history:
            raise Complex(args)
        if ref == '':
            self.only_the_index()
            c = self.s.index[path]
        else:
            c = self.repo.commit(ref).files[path]
        if c == 0:
            fail('show', *args)
        for n in 1, 2, 3:
            if c == n:
                out = text(n)
        if output_stream is not None:
            output_stream.write(out.encode())
            return ''
        return out[:-1]   # GitPython

    def describe(self, *args, **kw):
        match = [a[8:] for a in args if a.startswith('--match=')]
        if kw or len(match) != 1 or sorted(args) != sorted(['--abbrev=0', '--tags', '--match=' + match[0]]) or self.s.tags:
            raise Complex(args)
        fit = [(n, t) for t, n in self.s.marks.items() if fnmatch.fnmatchcase(t, match[0])]
        if not fit:
            fail('describe', *args)
        if len({n for n, t in fit}) < len(fit):
            raise Complex(args)
        return max(fit)[1]

    def log(self, *args, **kw):
        form, revs, *paths = args
        if kw or form != "--format='%aI %an %h %s'" or paths[:1] != ['--']:
            raise Complex(args)
        cs = self.repo.commits
        since, dots, until = revs.rpartition('..')
        if until not in ('HEAD', self.s.branch, '') or '~' in since or '^' in since:
            raise Complex(args)
        if not dots:
            since = -1
        elif since in ('', 'HEAD', self.s.branch):
            since = len(cs) - 1
        elif since in self.s.marks:
            since = self.s.marks[since]
        else:
            fail('log', *args)
        fs = [f for p in paths[1:] for f in self.under(p)]
        if any([str(p) == self.top for p in paths[1:]]):
            first = ['base']
        else:
            first = []
        out = []
        for k in reversed(range(since + 1, len(cs))):
            if any([cs[k].files[f] != (cs[k - 1].files[f] if k else 0) for f in fs]):
                out.append(cs[k].message)
        if since == -1:
            out += first
        return '\n'.join(["'2001-02-03T04:05:06+00:00 a 0123456 %s'" % m for m in out])

    def rev_parse(self, *args, with_exceptions=True):
        if args == ('--quiet', '--verify', 'refs/stash') and not with_exceptions:
            # a name for what is there, as good as the digest
            return 'stash%d' % id(self.s.stashes[0][0]) if self.s.stashes else ''
        raise Complex(args)

    def stash(self, *args, **kw):
        self.only_the_index()
        s = self.s
        args = list(args)
        if kw:
            raise Complex(kw)
        if args and args[0] == 'pop':
            n = 0
            if len(args) > 1:
                if len(args) == 2 and args[1][:7] == 'stash@{' and args[1][-1] == '}':
                    n = int(args[1][7:-1])
                else:
                    raise Complex(args)
            return self.pop(n)
        if args and args[0] == 'push':
            args = args[1:]
            if len(args) > 1 and args[-2] == '-m':
                args = args[:-2]
        everything = '--all' in args
        if [a for a in args if a != '--all']:
            raise Complex(args)
        h, i, w = s.head, s.index, s.work
        base, idx, work, untracked = dict(h), dict(i), {}, {}
        changed = False
        for f in s.files:
            if h[f] != i[f] or (i[f] != 0 and w[f] != i[f]):
                changed = True
            if i[f] == 0:
                work[f] = 0
                if w[f] != 0 and h[f] != 0:
                    raise Complex('removed from the index only')
                untracked[f] = w[f]
            else:
                # (git keeps what was added and then removed as it was added)
                work[f] = i[f] if h[f] == 0 and w[f] == 0 else w[f]
                untracked[f] = 0
        others = False
        for f in s.files:
            if untracked[f] != 0:
                others = True
        if not changed and not (everything and others):
            return 'No local changes to save'
        s.stashes.insert(0, (base, idx, work, untracked if everything else None))
        for f in s.files:
            if i[f] != 0 or h[f] != 0:
                w[f] = h[f]
            elif everything:
                w[f] = 0
            i[f] = h[f]
        return 'Saved working directory and index state'

    def pop(self, n):
        self.only_the_index()
        s = self.s
        if n >= len(s.stashes):
            fail('stash', 'pop')
        base, idx, work, untracked = s.stashes[n]
        i, w = s.index, s.work
        change = {}
        for f in s.files:
            theirs, ours = work[f], i[f]
            if theirs == base[f] or ours == theirs:
                continue
            if ours == base[f]:
                change[f] = theirs
            else:
                raise Complex('conflict')
        for f in change:
            if w[f] != i[f]:
                raise Complex('in the way')
        if untracked:
            for f in s.files:
                if untracked[f] != 0:
                    if w[f] != 0 or i[f] != 0 or f in change:
                        raise Complex('in the way')
        for f, c in change.items():
            w[f] = c
            if i[f] == 0:
                i[f] = c
        if untracked:
            for f in s.files:
                if untracked[f] != 0:
                    w[f] = untracked[f]
        s.stashes.pop(n)
        return ''

    def checkout(self, *args, **kw):
        self.only_the_index()
        s = self.s
        if kw:
            raise Complex(kw)
        if len(args) == 3 and args[0] == 'stash@{0}' and args[1] == '--':
            if not s.stashes:
                fail('checkout', args)
            work = s.stashes[0][2]
            fs = [f for f in self.under(args[2]) if work[f] != 0]
            if not fs:
                fail('checkout', args)
            for f in fs:
                s.index[f] = s.work[f] = work[f]
            return ''
        raise Complex(args)

    def reset(self, *args, **kw):
        self.only_the_index()
        s = self.s
        if kw or set(args) - {'-q'} != {'--hard'}:
            raise Complex(args)
        for f in s.files:
            if s.index[f] != 0 or s.head[f] != 0:
                s.work[f] = s.head[f]
            s.index[f] = s.head[f]
        return ''

    def rm(self, *args, **kw):
        self.only_the_index()
        s = self.s
        if kw or len(args) < 2 or args[-2] != '--' or not {'-r', '--ignore-unmatch'} <= set(args[:-2]) <= {
                '-q', '-r', '--ignore-unmatch'}:
            raise Complex(args)
        fs = [f for f in self.under(args[-1]) if s.index[f] != 0]
        for f in fs:
            if s.index[f] != s.head[f] or s.work[f] != s.index[f]:
                raise Complex('rm of changes')
        for f in fs:
            s.index[f] = s.work[f] = 0
        return ''


class Index:
    """repo.index, or IndexFile(repo, path)"""

    def __init__(self, repo, path=None):
        self.repo = repo
        self.files = repo.git.others[path] if path else repo.state.index

    def __getattr__(self, name):
        raise Complex(name)

    def add(self, items):
        s = self.repo.state
        if self.files is not s.index:
            raise Complex('add')
        for it in items:
            if not set('*?[').isdisjoint(it):
                raise Complex(it)
            for f in self.repo.git.under(it):
                if s.work[f] == 0:
                    raise FileNotFoundError(2, 'no such file', f)
                s.index[f] = s.work[f]
        return []

    def diff(self, other=None, paths=None, create_patch=False, R=False, **kw):
        s = self.repo.state
        if kw or self.files is not s.index:
            raise Complex(kw)
        fs = self.repo.git.under(paths)
        if other is None:
            return [f for f in fs if s.index[f] != 0 and s.work[f] != s.index[f]]
        if not isinstance(other, Commit):
            raise Complex(other)
        return [f for f in fs if s.index[f] != other.files[f]]

    def commit(self, message, author_date=None, **kw):
        if kw:
            raise Complex(kw)
        s = self.repo.state
        if author_date is not None:
            parse_date(author_date)
        s.branches[s.branch] = dict(self.files)
        return Commit(dict(self.files))


class Commit:
    def __init__(self, files, repo=None, message=None):
        self.files, self.repo, self.message = files, repo, message

    def __getattr__(self, name):
        raise Complex(name)

    def diff(self, other=None, paths=None, create_patch=False, **kw):
        s = self.repo.state
        if kw:
            raise Complex(kw)
        fs = self.repo.git.under(paths)
        if other is None:
            return [f for f in fs if self.files[f] != (s.index[f] if s.index[f] == 0 else s.work[f])]
        if isinstance(other, Index):
            fail('diff-tree')   # GitPython has a constant for this
        if isinstance(other, Commit):
            return [f for f in fs if self.files[f] != other.files[f]]
        raise Complex(other)


def no_checkout(self, *args, **kw):
    fail('checkout')


class Ref(git.Head):
    def __init__(self, repo, name, valid=True):
        super().__init__(repo, 'refs/heads/' + name)
        self._valid = valid

    def is_valid(self):
        return self._valid

    def checkout(self, force=False, **kw):
        s = self.repo.state
        if force or kw:
            raise Complex(kw)
        new = s.branches[self.name]
        for f in s.files:
            if s.index[f] != s.head[f]:
                raise Complex('checkout with changes')
            if s.work[f] != s.index[f] and (s.index[f] != 0 or new[f] != 0):
                raise Complex('checkout with changes')
        for f in s.files:
            if s.index[f] != 0 or new[f] != 0:
                s.work[f] = new[f]
            s.index[f] = new[f]
        s.branch = self.name
        return self


class Tag(git.TagReference):
    __slots__ = ()   # there is no place in a tag for what the context has to keep

    def __init__(self, repo, name):
        super().__init__(repo, 'refs/tags/' + name)

    def is_valid(self):
        return True


class Head:
    def __init__(self, repo):
        self.repo = repo

    def __getattr__(self, name):
        raise Complex(name)

    def is_valid(self):
        return self.repo.state.branches[self.repo.state.branch] is not None

    @property
    def commit(self):
        return self.repo.commit('HEAD')


class Package:
    """the package git"""
    IndexFile = Index
    exc = git.exc

    def __getattr__(self, name):
        raise Complex(name)


class Repo:
    """the parts of git.Repo in use"""

    def __init__(self, state, top, invalid=()):
        self.state = state
        self.working_dir = top
        self.git = Git(state, top)
        self.git.repo = self
        self.invalid = invalid

    def __getattr__(self, name):
        raise Complex(name)

    @property
    def index(self):
        return Index(self)

    @property
    def head(self):
        return Head(self)

    @property
    def commits(self):
        """of the branch, oldest first"""
        s = self.state
        if s.branches[s.branch] is None:
            raise Complex('unborn')
        return [Commit(t, self, 'n%d' % i) for i, t in enumerate([*s.history, s.head])]

    def commit(self, rev):
        s = self.state
        if rev is None or rev == 'HEAD' or rev == s.branch:
            return self.commits[-1]
        if rev in s.branches and s.branches[rev] is not None:
            return Commit(s.branches[rev], self)
        if rev == 'HEAD~1' and s.history:
            return self.commits[-2]
        raise Complex(rev)

    def iter_commits(self, rev=None, paths=None, max_count=None, **kw):
        if kw or rev not in (None, 'HEAD', self.state.branch, 'HEAD~1'):
            raise Complex(kw)
        cs = self.commits
        if rev == 'HEAD~1':
            cs.pop()
        fs = self.git.under(paths)
        n = 0
        for k in reversed(range(len(cs))):
            if n == max_count:
                break
            if any([cs[k].files[f] != (cs[k - 1].files[f] if k else 0) for f in fs]):
                n += 1
                yield cs[k]

    @property
    def refs(self):
        return [Ref(self, n) for n in self.state.branches] + [Ref(self, n, False) for n in self.invalid] + [Tag(self, n) for n in self.state.tags]

    @property
    def active_branch(self):
        return Ref(self, self.state.branch)

def text(n):
    # of different lengths: what is written within one tick of the clock looks unchanged otherwise
    return 'line\n' * n


class Real:
    """a repository in a given state, made by real git in a scratch folder"""

    def __init__(self, state, invalid=()):
        self.files, self.ignored = state.files, state.ignored
        self.saved = {k: os.environ.get(k) for k in list(os.environ) if k.startswith('GIT_')}
        for k in self.saved:
            del os.environ[k]
        os.environ.update(ENV)
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix='sx-git-'))
        self.n = 0
        g = self.git
        g('init', '-q', '-b', 'base')
        with open(self.dir + '/.gitignore', 'w') as f:
            f.write(''.join('/%s\n' % i for i in state.ignored))
        g('add', '.gitignore')
        g('commit', '-qm', 'base')
        for b, fs in state.branches.items():
            if fs is None:
                continue
            g('checkout', '-q', '-b', b, 'base')
            for n, t in enumerate([*(state.history if b == state.branch else []), fs]):
                self.put(t)
                g('add', '-A', '-f')
                g('commit', '-q', '--allow-empty', '-m', 'n%d' % n)
                for t, k in state.marks.items():
                    if k == n and b == state.branch:
                        g('tag', t)
        for t in state.tags:
            g('tag', t, next(iter(state.branches)))
        if state.branches[state.branch] is None:
            g('checkout', '-q', '--orphan', state.branch)
            g('rm', '-q', '-r', '--cached', '.')
        g('branch', '-q', '-D', 'base')
        for b in invalid:
            with open(self.dir + '/.git/refs/heads/' + b, 'w') as f:
                f.write('1' * 40 + '\n')
        if state.branches[state.branch] is not None:
            g('checkout', '-q', state.branch)
        for k, (base, idx, work, untracked) in enumerate(reversed(state.stashes)):
            assert base == state.head and untracked is None and idx == base
            self.put(work)
            g('stash', 'push', '-q', '-m', 'stash %d' % k)
        self.put({f: state.index[f] for f in self.files})
        for f in self.files:
            if state.index[f]:
                g('add', '-f', '--', f)
            elif state.head[f]:
                g('rm', '-q', '--cached', '--', f)
        self.put(state.work)

    def git(self, *args, ok=(0,)):
        # times differ, or two commits or stashes with the same contents are one
        self.n += 1
        when = '%d +0000' % (1600000000 + self.n)
        p = subprocess.run(['git', '-C', self.dir, *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=dict(os.environ, GIT_LITERAL_PATHSPECS='1', GIT_AUTHOR_DATE=when, GIT_COMMITTER_DATE=when))
        if p.returncode not in ok:
            raise RuntimeError('git %r: %s' % (args, p.stderr.decode()))
        return p.stdout.decode()

    def put(self, contents, top=None):
        for f, c in contents.items():
            p = (top or self.dir) + '/' + f
            if c:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'w') as o:
                    o.write(text(c))
            elif os.path.exists(p):
                os.unlink(p)
                if os.path.dirname(f):
                    try:
                        os.rmdir(os.path.dirname(p))
                    except OSError:
                        pass

    def number(self, content):
        n = content.count('line')
        return n if content == text(n) else content

    def tree(self, ref, among=None):
        names = self.git('ls-tree', '-r', '-z', '--name-only', ref).split('\0')
        return {f: self.number(self.git('cat-file', 'blob', ref + ':' + f)) if f in names else 0 for f in self.files}

    def state(self):
        """as it is now"""
        branches = {b: self.tree(b) for b in self.git('for-each-ref', '--format=%(refname:short)', 'refs/heads').split()
                    if self.git('cat-file', '-t', b, ok=(0, 128))}
        here = self.git('branch', '--show-current').strip()
        branches.setdefault(here, None)
        names = self.git('ls-files', '-z').split('\0')
        index = {f: self.number(self.git('cat-file', 'blob', ':0:' + f, ok=(0, 128))) if f in names else 0 for f in self.files}
        return State(self.files, branches, here, index, self.work(),
                     self.stashes(), self.ignored)

    def work(self):
        out = dict.fromkeys(self.files, 0)
        for d, ds, fs in os.walk(self.dir):
            if '.git' in ds:
                ds.remove('.git')
            for f in fs:
                n = os.path.relpath(os.path.join(d, f), self.dir)
                if n != '.gitignore':
                    with open(os.path.join(d, f)) as o:
                        out[n] = self.number(o.read())
        return out

    def stashes(self):
        out = []
        for k in range(len(self.git('stash', 'list').splitlines())):
            s = 'stash@{%d}' % k
            u = self.git('rev-parse', '--quiet', '--verify', s + '^3', ok=(0, 1, 128)).strip()
            out.append((self.tree(s + '^1'), self.tree(s + '^2'), self.tree(s), self.tree(u) if u else None))
        return out

    def close(self):
        for k in ENV:
            os.environ.pop(k, None)
        for k, v in self.saved.items():
            os.environ[k] = v
        shutil.rmtree(self.dir)


def concrete(x):
    try:
        from sx.values import deep_conc
    except ImportError:
        return x
    return deep_conc(x, 9)


def run(ctx, state, operation, invalid=(), fault=False):
    """operation(top, after) on a repository in this state; after() is the state it is in.  The outcome"""
    from augpathlib.repo import RepoPath, RepoHelper
    RepoPath('/')  # the first one imports git
    package = RepoHelper._git
    Repo.getRef = git.Repo.getRef   # as it was patched
    checkouts = Ref.checkout, git.Head.checkout
    if fault:
        Ref.checkout = git.Head.checkout = no_checkout
    RepoPath._repos.clear()
    try:
        if hasattr(ctx, 'run'):
            top = os.path.realpath(tempfile.mkdtemp(prefix='sx-git-'))
            try:
                os.mkdir(top + '/.git')
                s = state.copy()
                repo = Repo(s, top, invalid)
                RepoPath._repos[RepoPath(top)] = repo
                RepoHelper._git = Package()
                return operation(top, lambda: s)
            except Complex:
                pass
            finally:
                RepoHelper._git = package
                RepoPath._repos.clear()
                shutil.rmtree(top)
            c = state.copy()
            c.branches, c.index, c.work, c.stashes = concrete(c.branches), concrete(c.index), concrete(c.work), concrete(c.stashes)
            c.history = concrete(c.history)
            state = c
        r = Real(state, invalid)
        try:
            return operation(r.dir, r.state)
        finally:
            for repo in RepoPath._repos.values():
                repo.close()
            r.close()
    finally:
        Ref.checkout, git.Head.checkout = checkouts
        RepoPath._repos.clear()
