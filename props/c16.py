"""C16: working directory changes."""
from augpathlib import LocalPath, AugmentedPath
from sx.case import Case

META = dict(
    title='Leaving a path context or popping a directory returns to where it was entered',
    statement='Entering a folder with "with" makes it the working directory and leaving it, normally or by an '
              'exception, returns to the directory it was entered from, for any nesting, also of one path object in '
              'itself; entering anything else leaves the working directory alone. pushd enters a folder and popd(N) '
              'returns to the N-th most recently left one and takes just it off the stack; a pushd or popd that '
              'fails changes neither the directory nor the stack.',
    quantifier=dict(over=['histories'], text='all sequences of enter, leave, pushd and popd up to the bound'),
    why_tests_cant='the tests enter one folder once; nesting, relative paths, reused path objects and failures '
                   'interact over histories',
    anchors=dict(files=['augpathlib/core.py'],
                 mechanism=[dict(name='context manager', where='augpathlib/core.py:AugmentedPath.__enter__'),
                            dict(name='directory stack', where='augpathlib/core.py:AugmentedPath.pushd')],
                 observe_at=['AugmentedPath.__enter__', 'AugmentedPath.__exit__', 'pushd', 'popd']),
)
ASSUMPTIONS = ['chdir and getcwd are those of an in-memory model of the file system']

PATHS = ('/tmp/a', '/tmp/a/b', 'b', '..', '.', '/tmp/f', 'missing', '/tmp/l')


def build(ctx):
    fs = ctx.fs
    fs.mkd('/tmp/a/b/b')
    fs.mkd('/tmp/b')
    fs.put('/tmp/f', b'')
    fs.link('/tmp/l', 'a')
    fs.chdir('/tmp/a')
    return fs


class Stop(Exception):
    pass


def contexts(ctx):
    fs = build(ctx)
    cls = AugmentedPath if ctx.flag('plain') else LocalPath
    pool = [cls(ctx.pick('p%d' % i, PATHS)) for i in range(ctx.bound('p'))]
    expect, entered = [], []
    for i in range(ctx.bound('k')):
        what = ctx.choice('op%d' % i, len(pool) + 2)
        here = fs.getcwd()
        if what < len(pool):
            p = pool[what]
            try:
                n = fs.get(str(p))
            except OSError:
                n = None
            p.__enter__()
            entered.append((p, here))
            if n is not None and n.kind == 'dir':
                ctx.check(fs.cwd() is n, 'entering %s from %s ended in %s' % (p, here, fs.getcwd()))
            else:
                ctx.check(fs.getcwd() == here, 'entering %s moved to %s' % (p, fs.getcwd()))
        elif entered:
            p, back = entered.pop()
            if what == len(pool):
                r = p.__exit__(None, None, None)
            else:
                e = Stop()
                r = p.__exit__(Stop, e, None)
            ctx.check(not r, 'exception swallowed')
            # a path that was not a folder has nothing to return from
            ctx.check(fs.getcwd() == back, 'leaving %s came to %s not %s' % (p, fs.getcwd(), back))
            ctx.label('left')
    return fs.getcwd()


def stack(ctx):
    fs = build(ctx)
    AugmentedPath._stack.clear()
    model = []
    cls = AugmentedPath if ctx.flag('plain') else LocalPath
    for i in range(ctx.bound('k')):
        here = fs.getcwd()
        op = ctx.choice('op%d' % i, len(STACKPATHS) + 3)
        if op < len(STACKPATHS):
            p = cls(STACKPATHS[op])
            try:
                n = fs.get(str(p))
            except OSError:
                n = None
            try:
                p.pushd()
                ctx.check(n is not None and n.kind == 'dir', 'pushd %s worked' % p)
                ctx.check(fs.cwd() is n, 'pushd %s came to %s' % (p, fs.getcwd()))
                model.append(here)
            except OSError:
                ctx.check(n is None or n.kind != 'dir', 'pushd %s failed' % p)
                ctx.check(fs.getcwd() == here, 'failed pushd moved')
                ctx.label('refused')
        else:
            depth = op - len(STACKPATHS)
            try:
                r = AugmentedPath.popd(depth) if depth else AugmentedPath.popd()
                ok = True
            except (IndexError, OSError):
                ok = False
            if not model:
                ctx.check(ok and r is None and fs.getcwd() == here, 'popd of an empty stack')
            elif depth >= len(model):
                ctx.check(not ok and fs.getcwd() == here, 'popd(%d) of %r' % (depth, model))
                ctx.label('too deep')
            else:
                want = model[-1 - depth]
                gone = fs.node(want) is None
                if gone:
                    ctx.check(not ok and fs.getcwd() == here, 'popd to a removed folder')
                    ctx.label('removed')
                else:
                    ctx.check(ok and fs.getcwd() == want and str(r) == want, 'popd(%d) of %r came to %s' % (
                        depth, model, fs.getcwd()))
                    del model[-1 - depth]
                    ctx.label('popped')
        ctx.check([str(p) for p in AugmentedPath._stack] == model, 'stack %r not %r' % (AugmentedPath._stack, model))
        if ctx.bound('removal') and fs.getcwd() != '/tmp/a/b/b' and ctx.flag('rm%d' % i):
            d = fs.node('/tmp/a/b')
            if d is not None:
                d.children.pop('b', None)
    return [model, fs.getcwd()]


STACKPATHS = ('/tmp/a', 'b', '..', '/tmp/f')

CASES = [
    Case('contexts', contexts, dict(p=1, k=4), dict(p=2, k=5), fs='model', expect=('left',),
         split_thorough=[{'=p0': i} for i in range(len(PATHS))],
         bounds='k enter and leave steps over p path objects of eight kinds (nested, relative, linked, missing, files)'),
    Case('stack', stack, dict(k=4, removal=0), fs='model', expect=('refused', 'too deep', 'popped'),
         split_thorough=[dict(k=5)] + [{'k': 3, 'removal': 1}],
         bounds='k steps of pushd (four targets) and popd(0..2); thorough also folders removed in between'),
]
