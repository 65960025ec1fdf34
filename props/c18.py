"""C18: extended attributes."""
import errno
from augpathlib import EatPath, LocalPath
from augpathlib import exceptions as exc
from sx.case import Case

META = dict(
    title='The attribute interface is a faithful store that never hides a failure',
    statement='What was last set under a name and namespace is what is read back, byte for byte; after deletion and '
              'for names never set reading raises NoStreamError and deleting is silent unless fail is given; '
              'attributes of other names, namespaces and files are not affected, and xattrs lists exactly those set. '
              'Values that are not bytes are refused before anything changes. Any other error of the file system is '
              'raised, not reported as a missing attribute.',
    quantifier=dict(over=['histories', 'inputs', 'fault_sequences'],
                    text='all sequences of operations up to the bound, all values, all error numbers'),
    why_tests_cant='the tests set and read one or two fixed values and cannot make the file system fail',
    anchors=dict(files=['augpathlib/core.py'],
                 mechanism=[dict(name='attribute access', where='augpathlib/core.py:XattrHelper')],
                 observe_at=['setxattr', 'setxattrs', 'getxattr', 'delxattr', 'xattrs']),
)
ASSUMPTIONS = ['the xattr module is replaced by an in-memory store with the Linux error numbers',
               'attributes of symlinks are those of their targets']

KEYS = ('aug.id', 'k', b'k', 'a.k')
SPACES = (None, 'user', b'user', 'trusted')


def history(ctx):
    fs = ctx.fs
    fs.put('/tmp/t/f', b'')
    fs.put('/tmp/t/g', b'')
    fs.link('/tmp/t/l', 'f')
    cls = LocalPath if ctx.flag('local') else EatPath
    model = {'f': {}, 'g': {}}
    text = lambda k: k.decode() if isinstance(k, bytes) else k
    for i in range(ctx.bound('k')):
        name = ctx.pick('file%d' % i, ('f', 'g', 'l')[:ctx.bound('files')])
        m = model['f' if name == 'l' else name]
        p = cls('/tmp/t/' + name)
        key = KEYS[ctx.choice('key%d' % i, ctx.bound('keys'))]
        ns = SPACES[ctx.choice('ns%d' % i, ctx.bound('spaces'))]
        kw = {} if ns is None else dict(namespace=ns)
        at = (text(ns or 'user'), text(key))
        op = ctx.choice('op%d' % i, 5)
        if op == 0:
            v = ctx.bytes('v%d' % i, ctx.bound('n'), ctx.bound('n'))
            p.setxattr(key, v, **kw)
            m[at] = v
        elif op == 1:
            v, w = ctx.bytes('v%d' % i, ctx.bound('n'), ctx.bound('n')), ctx.bytes('w%d' % i, ctx.bound('n'), ctx.bound('n'))
            p.setxattrs({key: v, 'other': w}, **kw)
            m[at], m[at[0], 'other'] = v, w
        elif op == 2:
            fail = ctx.flag('fail%d' % i)
            try:
                p.delxattr(key, fail=fail, **kw)
                ctx.check(at in m or not fail, 'deleting missing %r with fail was silent' % (at,))
            except OSError as e:
                ctx.check(at not in m and fail, 'deleting %r: %r' % (at, e))
                ctx.label('refused')
            m.pop(at, None)
        elif op == 3:
            try:
                got = p.getxattr(key, **kw)
                ctx.check(at in m, 'read %r of %r that is not set' % (got, at))
                ctx.check(got == m[at], 'read %r, set was %r' % (got, m.get(at)))
                ctx.label('read')
            except exc.NoStreamError:
                ctx.check(at not in m, 'no %r' % (at,))
                ctx.label('missing')
        else:
            try:
                p.setxattr(key, ctx.pick('bad%d' % i, ('text', None)), **kw)
                ctx.check(False, 'set a value that is not bytes')
            except TypeError:
                ctx.label('type')
        for q in model:
            for space in ('user', 'trusted')[:ctx.bound('spaces') - 1 or 1]:
                got = cls('/tmp/t/' + q).xattrs(namespace=space)
                want = {k[1].encode(): v for k, v in model[q].items() if k[0] == space}
                ctx.check(got == want, 'attributes of %s are %r not %r' % (q, got, want))
    return sorted(map(str, model['f'])) + sorted(map(str, model['g']))


def errors(ctx):
    fs = ctx.fs
    fs.put('/tmp/t/f', b'').xattrs['user.k'] = b'v'
    no = ctx.int('errno', 1, 133)
    op = ctx.pick('op', ('get', 'list', 'set', 'del'))
    p = LocalPath('/tmp/t/f')
    fs.fail_read = lambda o, *paths: no if o in ('getxattr', 'listxattr') else None
    fs.fail = lambda o, paths, n: no if o in ('setxattr', 'removexattr') else None
    try:
        if op == 'get':
            p.getxattr('k')
        elif op == 'list':
            p.xattrs()
        elif op == 'set':
            p.setxattr('k', b'w')
        else:
            fail = ctx.flag('fail')
            p.delxattr('k', fail=fail)
        err = None
    except Exception as e:
        err = e
    fs.fail = fs.fail_read = None
    if op == 'get' and no == errno.ENODATA:
        ctx.check(type(err) is exc.NoStreamError, 'missing attribute gives %r' % (err,))
        ctx.label('missing')
    elif op == 'del' and no == errno.ENODATA and not fail:
        ctx.check(err is None, 'deleting a missing attribute gives %r' % (err,))
    elif op == 'list' and no == errno.ENOENT:
        ctx.check(isinstance(err, FileNotFoundError), 'listing attributes of a missing file gives %r' % (err,))
    else:
        ctx.check(isinstance(err, OSError) and err.errno == no, '%s with errno %r gives %r' % (op, no, err))
        ctx.label('raised')
    ctx.check(p.getxattr('k') == b'v', 'value changed')
    return op


CASES = [
    Case('history', history, dict(k=2, n=1, files=2, keys=2, spaces=2), fs='model',
         expect=('read', 'missing', 'refused', 'type'),
         split=[{'=op0': i} for i in range(5)],
         split_thorough=[{'=op0': i, 'k': 3, 'files': 1, 'keys': 2, 'spaces': 1} for i in range(5)] +
                        [{'=op0': i, 'k': 2, 'files': 3, 'keys': 3, 'spaces': 3} for i in range(5)],
         bounds='k operations on files, links, keys and namespaces; values of n bytes'),
    Case('errors', errors, dict(), fs='model', expect=('missing', 'raised'), bounds='every error number 1..133'),
]
