"""C17: path predicates."""
import errno
import os
from augpathlib import LocalPath, AugmentedPath
from sx.case import Case

META = dict(
    title='Path predicates answer truthfully and never mistake an error for an answer',
    statement='exists, is_file, is_dir, is_symlink, is_broken_symlink and exists_not_symlink give the answer of the '
              'file system for every path, symlinks that dangle, loop or lead into their own children included. '
              'Where the path cannot name anything (no such entry, not a folder, a loop, a bad descriptor) the '
              'answer is no; any other error is raised and never reported as absence. access tests just the '
              'permission asked for.',
    quantifier=dict(over=['inputs', 'fault_sequences'], text='all names, all error numbers, all permission bits'),
    why_tests_cant='the tests cannot make the file system fail and try one self-referential link',
    anchors=dict(files=['augpathlib/core.py'],
                 mechanism=[dict(name='ignored errors', where='augpathlib/core.py:_ignore_error'),
                            dict(name='predicates', where='augpathlib/core.py:AugmentedPath.exists')],
                 observe_at=['exists', 'is_file', 'is_dir', 'is_symlink', 'is_broken_symlink', 'exists_not_symlink',
                             'access']),
)
ASSUMPTIONS = ['stat, lstat and access are those of an in-memory model of the file system; Linux error numbers']

PREDICATES = ('exists', 'is_file', 'is_dir', 'is_symlink', 'is_broken_symlink', 'exists_not_symlink')
IGNORED = (errno.ENOENT, errno.ENOTDIR, errno.EBADF, errno.ELOOP)
NAMES = ((32, 126),)


def build(fs):
    fs.put('/tmp/t/f', b'x')
    fs.mkd('/tmp/t/d/f')
    fs.link('/tmp/t/lf', 'f')
    fs.link('/tmp/t/ld', '/tmp/t/d')
    fs.link('/tmp/t/n', 'nowhere')
    fs.link('/tmp/t/o', 'o')
    fs.link('/tmp/t/p', 'q')
    fs.link('/tmp/t/q', 'p')
    fs.link('/tmp/t/c', 'c/child/of/itself')
    fs.link('/tmp/t/ln', 'ld/f')
    fs.link('/tmp/t/lx', 'lf/f')


def truth(fs, path, what):
    def at(follow):
        try:
            return fs.get(path, follow).kind
        except OSError:
            return None
    e, l = at(True), at(False)
    return {'exists': e is not None, 'is_file': e == 'file', 'is_dir': e == 'dir', 'is_symlink': l == 'symlink',
            'is_broken_symlink': l == 'symlink' and e is None,
            'exists_not_symlink': e is not None and l != 'symlink'}[what]


def answers(ctx):
    fs = ctx.fs
    build(fs)
    path = '/tmp/t/' + ctx.str('name', ctx.bound('n'), 0, NAMES)
    what = ctx.pick('what', PREDICATES)
    p = (AugmentedPath if ctx.flag('plain') else LocalPath)(path)
    got = getattr(p, what)()
    want = truth(fs, str(p), what)
    ctx.check(got is want, '%s of %r is %r' % (what, path, got))
    ctx.label(what if got else 'no')
    return got


def errors(ctx):
    fs = ctx.fs
    build(fs)
    name = ctx.pick('name', ('f', 'd', 'ld', 'n', 'o'))
    what = ctx.pick('what', PREDICATES)
    no = ctx.int('errno', 1, 133)
    only = ctx.pick('call', ('stat', 'lstat'))
    called = []

    def fault(op, *paths):
        if op in ('stat', 'lstat'):
            called.append(op)
            if op == only:
                return no
    fs.fail_read = fault
    p = LocalPath('/tmp/t/' + name)
    try:
        got = getattr(p, what)()
        err = None
    except OSError as e:
        err = e
    fs.fail_read = None
    if only not in called:
        ctx.check(err is None, 'raised %r' % (err,))
        return None
    if no in IGNORED:
        ctx.check(err is None and not err, '%s raised %r' % (what, err))
        link = fs.kind('/tmp/t/' + name) == 'symlink'
        # what failed counts as not there, the other call says what it says
        ctx.check(got is (what == 'is_broken_symlink' and only == 'stat' and link), '%s of %s says %r when %s fails' % (
            what, name, got, only)) if what != 'exists_not_symlink' or only == 'stat' else None
        ctx.label('absent')
    else:
        ctx.check(err is not None, '%s of %s says %r when %s fails with %s' % (
            what, name, None if err else got, only, no))
        ctx.check(err.errno == no, 'wrong error')
        ctx.label('raised')
    return err is None


BITS = {'read': 4, 'write': 2, 'execute': 1, os.R_OK: 4, os.W_OK: 2, os.X_OK: 1}


def access(ctx):
    fs = ctx.fs
    build(fs)
    name = ctx.pick('name', ('f', 'd', 'lf', 'n', 'missing'))
    perm = ctx.int('perm', 0, 0o777, 0o644)
    own = ctx.pick('as', ('owner', 'group', 'other'))
    for p, n in fs.walk_nodes('/tmp/t'):
        if n.kind != 'symlink':
            n.mode = perm
        n.uid = 1000 if own == 'owner' else 0
        n.gid = 1000 if own == 'group' else 0
    for q in ('/tmp/t',):
        fs.node(q).mode = 0o755
    mode = ctx.pick('mode', ('read', 'write', 'execute', os.R_OK, os.W_OK, os.X_OK))
    follow = ctx.flag('follow')
    p = LocalPath('/tmp/t/' + name)
    got = p.access(mode, follow_symlinks=follow)
    if mode == 'read' and follow:
        ctx.check(p.access() == got, 'default mode')
    bit = BITS[mode] * {'owner': 64, 'group': 8, 'other': 1}[own]
    if name in ('missing', 'n') and (follow or name == 'missing'):
        want = False
    elif name in ('lf', 'n') and not follow:
        want = True
    else:
        want = perm // bit % 2 == 1
    ctx.check(bool(got) == bool(want), 'access %s to %s with %o as %s: %r' % (mode, name, perm, own, got))
    ctx.label('yes' if got else 'no')
    try:
        p.access(ctx.pick('wrong', ('reading', '', 3, 8, None)))
        ctx.check(False, 'unknown mode accepted')
    except TypeError:
        pass
    return bool(got)


CASES = [
    Case('answers', answers, dict(n=3), dict(n=5), fs='model', expect=PREDICATES + ('no',),
         bounds='all names of up to n printable characters, with separators, in a folder with files, folders and '
                'links that dangle, loop, chain and lead into themselves'),
    Case('errors', errors, dict(), fs='model', expect=('absent', 'raised'),
         split=[{'=what': i} for i in range(len(PREDICATES))],
         bounds='every error number 1..133 from stat or lstat'),
    Case('access', access, dict(), fs='model', expect=('yes', 'no'), bounds='all 512 permissions, three identities'),
]
