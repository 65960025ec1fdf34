"""C20: which record a symlink cache keeps."""
import errno
from augpathlib import SymlinkCache, exceptions as exc
from augpathlib.meta import PathMeta
from props.cachekit import Item, Kit
from sx.case import Case

META = dict(
    title='A symlink record is replaced only by a newer one and is never lost',
    statement='Writing a record where a symlink holds one already: a record of the same id replaces it; a record of '
              'another id replaces it exactly when it was updated later, or at the same time and created later; it '
              'is refused with an error when the existing one lacks the timestamp that would decide; in no case does '
              'a record without a size replace one that has it. What is replaced is kept in the trash under its id, '
              'what is not replaced stays as it was; if writing fails the old record is still in place or in the '
              'trash. A path that exists is never overwritten by a symlink.',
    quantifier=dict(over=['inputs', 'fault_sequences'], text='all pairs of records, each write operation failing'),
    why_tests_cant='the tests write over a symlink twice; the policy is a decision tree over ids, sizes and four '
                   'optional timestamps',
    anchors=dict(files=['augpathlib/caches.py'],
                 mechanism=[dict(name='write policy', where='augpathlib/caches.py:SymlinkCache.meta'),
                            dict(name='trash', where='augpathlib/caches.py:_CachePath.crumple')],
                 observe_at=['PrimaryCache._meta_setter', 'SymlinkCache.meta']),
)
ASSUMPTIONS = ['timestamps carry an offset']
A = '/tmp/d/proj/a.txt'


def record(ctx, t, id):
    kw = dict(id=id)
    if ctx.flag(t + ' size?'):
        kw['size'] = ctx.int(t + ' size', 0, 3)
    for f in ('updated', 'created'):
        if ctx.flag('%s %s?' % (t, f)):
            kw[f] = ctx.datetime('%s %s' % (t, f), only=('hour',))
    return kw


def later(old, new):
    """True, False or the error for records of different ids"""
    for f in ('updated', 'created'):
        o, n = old.get(f), new.get(f)
        if o is None and n is None:
            return False
        if n is None:
            return False
        if o is None:
            return exc.MetadataIdMismatchError
        if o != n:
            return o < n
    return False


def kit(ctx):
    return Kit(ctx, [Item('x', 'a.txt', 'root'), Item('y', 'a.txt', 'root')])


def policy(ctx):
    k = kit(ctx)
    old = record(ctx, 'old', 'x')
    new = record(ctx, 'new', ctx.pick('id', ('x', 'y')))
    was = PathMeta(**old).as_symlink(local_name='a.txt')
    ctx.fs.link(A, str(was))
    c = k.local('a.txt').cache
    err = None
    try:
        c._meta_setter(PathMeta(**new))
    except exc.AugPathlibError as e:
        err = type(e)
    want = True if old['id'] == new['id'] else later(old, new)
    if want is exc.MetadataIdMismatchError:
        ctx.check(err is want, 'no error for %r over %r' % (new, old))
        want = False
    else:
        ctx.check(err is None, 'error %r for %r over %r' % (err, new, old))
    if want and 'size' in old and 'size' not in new:
        want = False
        ctx.label('size kept')
    got = ctx.fs.node(A)
    ctx.check(got is not None and got.kind == 'symlink', 'no symlink is left')
    trash = ctx.fs.node('/tmp/d/proj/.operations/trash/x')
    to = str(PathMeta(**new).as_symlink(local_name='a.txt'))
    if not want:
        ctx.check(got.target == str(was), 'record replaced: %r over %r' % (new, old))
        ctx.check(trash is None, 'something in the trash')
        ctx.label('kept' if err is None else 'refused')
    else:
        ctx.check(got.target == to, 'record not replaced: %r over %r' % (new, old))
        if to != str(was):
            ctx.check(trash is not None and trash.kind == 'symlink' and trash.target == str(was), 'old record not in the trash')
            ctx.label('replaced')
    return [repr(err), bool(want)]


def faults(ctx):
    k = kit(ctx)
    old = dict(id='x', size=1, updated='2001-02-03T04:05:06Z')
    new = dict(id=ctx.pick('id', ('x', 'y')), size=2, updated='2002-02-03T04:05:06Z')
    if ctx.flag('bad'):
        new['mode'] = '#'
    was = PathMeta(**old).as_symlink(local_name='a.txt')
    ctx.fs.link(A, str(was))
    c = k.local('a.txt').cache
    fail = ctx.choice('fail', 4)
    seen = []

    def broken(op, paths, n):
        if op in ('rename', 'symlink', 'unlink', 'mkdir'):
            seen.append(op)
            if len(seen) == fail:
                return errno.EACCES
    ctx.fs.fail = broken
    err = None
    try:
        c._meta_setter(PathMeta(**new))
    except (OSError, ValueError) as e:
        err = e
    got = ctx.fs.node(A)
    trash = ctx.fs.node('/tmp/d/proj/.operations/trash/x')
    there = got is not None and got.kind == 'symlink' and got.target == str(was)
    kept = trash is not None and trash.kind == 'symlink' and trash.target == str(was)
    ctx.check(there or kept, 'the old record is lost, %s %r' % (seen, err))
    if isinstance(err, ValueError):
        ctx.check(there, 'a record that cannot be written displaced the old one')
        ctx.label('refused')
    elif err is None:
        ctx.check(kept and got is not None and got.kind == 'symlink' and
                  got.target == str(PathMeta(**new).as_symlink(local_name='a.txt')), 'no error but not written')
        ctx.label('written')
    else:
        ctx.label('failed')
    return [type(err).__name__, there, kept]


def existing(ctx):
    k = kit(ctx)
    content = ctx.bytes('content', 1)
    what = ctx.choice('what', 3)
    if what == 0:
        ctx.fs.put(A, content)
    elif what == 1:
        ctx.fs.mkd(A)
    else:
        ctx.fs.put('/tmp/d/other', content)
        ctx.fs.link(A, '../other')
    before = ctx.fs.tree('/tmp/d')
    meta = PathMeta(id='x', size=ctx.int('size', 0, 3))
    try:
        SymlinkCache(k.local('a.txt'), meta=meta)
        ctx.check(False, 'no error')
    except exc.PathExistsError:
        ctx.label('refused')
    ctx.check(ctx.fs.tree('/tmp/d') == before, 'changed something')
    return what


CASES = [
    Case('policy', policy, fs='model', expect=('kept', 'refused', 'replaced', 'size kept'),
         split=[{'=id': i, '=old size?': j, '=old updated?': l} for i in range(2) for j in range(2) for l in range(2)],
         bounds='two records with symbolic presence and value of size, updated and created (24 hours), same or '
                'different id'),
    Case('faults', faults, fs='model', expect=('failed', 'written', 'refused'),
         bounds='the first, second or third write operation fails, or the record cannot be represented'),
    Case('existing', existing, fs='model', expect=('refused',), bounds='a file, a folder or a link to a file'),
]
