"""C31: commits of one path, and what is left of everything else."""
from augpathlib import repo_patch
from augpathlib.repo import RepoPath
from props import gitkit
from props.gitkit import State
from sx.case import Case

META = dict(
    title='Commits are of one path and nothing else, a ref is only borrowed',
    statement='RepoPath.commit and commit_from_working_tree make one commit whose tree is that of HEAD but for the '
              'path, which is as it is in the working tree, removals included; or they raise and there is no new commit. Either '
              'way the working tree, the stashes, the branches and what is staged of other paths are as before. `with repo.getRef(name):` '
              'puts the tree of that ref, and nothing else, into the working tree, and afterwards, also after an '
              'error, the former branch, working tree and stashes are back, changes made inside being in one more stash; a ref that is not '
              'valid is an InvalidRefError and an unknown one a ValueError, and nothing changes.',
    quantifier=dict(over=['histories', 'inputs', 'fault_sequences'], text='all contents of HEAD, index, working tree and stashes'),
    why_tests_cant='the tests commit a new file in a repository where nothing else is going on',
    anchors=dict(files=['augpathlib/repo.py', 'augpathlib/repo_patch.py'],
                 mechanism=[dict(name='commit', where='augpathlib/repo.py:RepoHelper.commit'),
                            dict(name='ref context', where='augpathlib/repo_patch.py:_Reference')],
                 observe_at=['RepoPath.commit', 'RepoPath.commit_from_working_tree', 'Reference.__enter__', 'Reference.__exit__']),
)
ASSUMPTIONS = ['git does what its manual says']


def contents(ctx, name, files, lo=0):
    return {f: ctx.int('%s of %s' % (name, f), lo, 3) for f in files}


def usual(ctx, state):
    """what was added is there, what was removed from the index is not"""
    h = state.head
    for f in state.files:
        ctx.assume(h[f] != 0 or state.index[f] == 0 or state.work[f] != 0)
        ctx.assume(h[f] == 0 or state.index[f] != 0 or state.work[f] == 0)


def same(ctx, files, a, b, what):
    for f in files:
        ctx.check(a[f] == b[f], '%s of %s' % (what, f))


def stashes(ctx, files, now, then, what='stash'):
    ctx.check(len(now) == len(then), 'number of stashes')
    for n, t in zip(now, then):
        for x, y in zip(n, t):
            ctx.check((x is None) == (y is None), what)
            if x is not None:
                same(ctx, files, x, y, what)


def commit(ctx):
    target, *others = ctx.pick('names', (('a', 'b'), ('t', 't/a', 't/b'), ('t/a', 't/b'), ('[b]', 'b'), ('*', 'b'), ('-q', 'b'), (':b', 'b')))
    files = ((target, *others) if target != 't' else tuple(others)) + (('z',) if ctx.bound('third') else ())
    mine = tuple(others) if target == 't' else (target,)
    others = [f for f in files if f not in mine]
    unborn = ctx.flag('unborn')
    h = dict.fromkeys(files, 0) if unborn else contents(ctx, 'HEAD', files)
    i, w = contents(ctx, 'index', files), contents(ctx, 'work', files)
    old = []
    if not unborn and ctx.flag('old stash'):
        x = dict(h)
        f = files[-1]
        x[f] = ctx.int('stashed', 0, 3)
        ctx.assume(h[f] != 0)
        ctx.assume(x[f] != h[f])
        old = [(h, h, x, None)]
    state = State(files, dict(main=None if unborn else h), 'main', i, w, old)
    usual(ctx, state)
    how = ctx.pick('how', ('commit', 'commit_from_working_tree'))
    date = ctx.pick('date', (None, '2020-01-02T03:04:05 +0000', 'garbage'))
    i, w = dict(i), dict(w)

    def op(top, after):
        raised = None
        try:
            c = getattr(RepoPath(top, target), how)('message', date=date)
        except Exception as e:
            raised = type(e).__name__
        now = after()
        same(ctx, files, now.work, w, 'working tree')
        stashes(ctx, files, now.stashes, old)
        ctx.check(now.branch == 'main' and list(now.branches) == ['main'], 'branch')
        same(ctx, others, now.index, i, 'index')
        # there may be errors if it is neither in the index nor in HEAD (to add: nor in the working tree)
        there = any([i[f] != 0 or (h if how == 'commit' else w)[f] != 0 for f in mine])
        if raised:
            ctx.check(date == 'garbage' or not there, raised)
            new = now.branches['main']
            if new is None:
                ctx.check(unborn, 'branch')
            else:
                same(ctx, files, new, h, 'HEAD')
            ctx.label('raised')
        else:
            ctx.check(date != 'garbage', 'a date that is none')
            new = now.branches['main']
            same(ctx, others, new, h, 'commit')
            for f in mine:
                if how == 'commit_from_working_tree' or i[f] != 0 or h[f] != 0:
                    ctx.check(new[f] == w[f], 'commit of %s' % f)
                    ctx.check(now.index[f] == w[f], 'index after the commit')
                else:
                    ctx.check(new[f] == 0 or new[f] == w[f], 'commit of %s' % f)
                if h[f] != 0 and new[f] == 0:
                    ctx.label('removal')
                elif h[f] != new[f]:
                    ctx.label('change')
        return raised, now.dump()
    return gitkit.run(ctx, state, op)


class Inside(Exception):
    pass


def ref(ctx):
    files = ('a', 'b') if not ctx.bound('third') else ('a', 'b', 'c')
    h, o = contents(ctx, 'HEAD', files), contents(ctx, 'other', files)
    i, w = dict(h, **contents(ctx, 'index', ('a', 'b'))), contents(ctx, 'work', files)
    old = []
    if ctx.flag('old stash'):
        x = dict(h)
        x['b'] = ctx.int('stashed', 0, 3)
        ctx.assume(h['b'] != 0)
        ctx.assume(x['b'] != h['b'])
        old = [(h, h, x, None)]
    state = State(files, dict(other=o, main=h), 'main', i, w, old, ctx.pick('ignored', ((), ('a',))), tags=['v1'])
    usual(ctx, state)
    name = ctx.pick('ref', ('other', 'main', 'broken', 'unknown', 'othe', 'Other', 'v1', 'fails'))
    then = ctx.pick('inside', ('nothing', 'change', 'raise'))
    i, w = dict(i), dict(w)
    tree = o if name in ('other', 'v1') else h
    if then == 'change':
        which, new = ctx.pick('changed', files), ctx.int('new', 0, 3)

    def op(top, after):
        raised = None
        change = {}
        try:
            repo = RepoPath(top).repo
            with repo.getRef('other' if name == 'fails' else name):
                now = after()
                ctx.check(now.branch == name or name == 'v1', 'branch inside')
                same(ctx, files, now.work, tree, 'working tree inside')
                same(ctx, files, now.index, tree, 'index inside')
                if then == 'change':
                    change[which] = new
                    if isinstance(repo, gitkit.Repo):
                        repo.state.work.update(change)
                    else:
                        gitkit.Real.put(None, {which: gitkit.concrete(new)}, top)
                elif then == 'raise':
                    raise Inside
        except (Exception, Inside) as e:
            raised = type(e).__name__
        now = after()
        ctx.check(now.branch == 'main', 'branch')
        same(ctx, files, now.work, w, 'working tree')
        for k, t in (('main', h), ('other', o)):
            same(ctx, files, now.branches[k], t, k)
        extra = []
        if name in ('other', 'main') or name == 'v1' and raised in (None, 'Inside'):
            ctx.check(raised == ('Inside' if then == 'raise' else None), str(raised))
            if any([change[f] != tree[f] for f in change]):
                ctx.check(len(now.stashes) == 1 + len(old), 'number of stashes')
                _, _, x, u = now.stashes[0]
                for f in change:
                    ctx.check(change[f] == (x[f] if x[f] != 0 else u[f]), 'what was changed inside')
                extra = now.stashes[:1]
                ctx.label('changed')
            ctx.label(name)
        else:
            ctx.check(name == 'v1' or raised == ('GitCommandError' if name == 'fails' else 'InvalidRefError' if name == 'broken' else 'ValueError'), str(raised))
            ctx.label('refused')
            if name not in ('v1', 'fails'):
                same(ctx, files, now.index, i, 'index')
        stashes(ctx, files, now.stashes[len(extra):], old)
        return raised, now.dump()
    return gitkit.run(ctx, state, op, invalid=('broken',), fault=name == 'fails')


class Named:
    def __init__(self, name):
        self.name = name


def getref(ctx):
    """the ref of exactly that name"""
    n = ctx.bound('chars')
    names = [ctx.str('ref %d' % i, n, 1, ((0x21, 0x7e),)) for i in range(2)]
    name = ctx.str('name', n, 1, ((0x21, 0x7e),))

    class R(repo_patch._Repo):
        def __init__(self):
            pass

        def __del__(self):
            pass
        refs = [Named(x) for x in names]
    found = [r for r in R.refs if r.name == name]
    try:
        got = R().getRef(name)
    except ValueError:
        ctx.check(not found, 'not found')
        ctx.label('unknown')
        return None
    ctx.check(found and got is found[0], 'another ref')
    ctx.label('found')
    return len(found)


CASES = [
    Case('getref', getref, dict(chars=2), dict(chars=3), expect=('found', 'unknown'), bounds='names of up to 2 (thorough: 3) characters'),
    Case('commit', commit, dict(third=0), dict(third=1), expect=('raised', 'removal', 'change'), bounds='2 files (thorough: 3)'),
    Case('ref', ref, dict(third=0), dict(third=1), expect=('other', 'main', 'refused', 'changed'), bounds='2 files (thorough: 3)',
         split=[{'=ref': i, '=old stash': j} for i in range(8) for j in range(2)]),
]
