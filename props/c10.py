"""C10: writes and copies."""
import shutil
from augpathlib import LocalPath, AugmentedPath
from augpathlib import exceptions as exc
from sx.case import Case

META = dict(
    title='Writes and copies deliver exactly the source bytes and never overwrite unasked',
    statement='After writing data to a path its content is exactly the bytes written, whatever was there before. A '
              'copy has exactly the content of its source; without force it never replaces or alters anything '
              'existing at the target, not even a dangling symlink, but raises PathExistsError. If the source fails '
              'before delivering data, the target is left as it was; copying a file onto itself never loses it.',
    quantifier=dict(over=['inputs', 'fault_sequences'], text='all contents and chunkings, all kinds of target, a source that '
                                                   'fails at any chunk'),
    why_tests_cant='the tests copy one file to a fresh path; the guarantees matter for existing, dangling and aliased '
                   'targets, empty data and failing sources',
    anchors=dict(files=['augpathlib/core.py'],
                 mechanism=[dict(name='data setter', where='augpathlib/core.py:LocalPath.data'),
                            dict(name='copy guard', where='augpathlib/core.py:LocalPath.copy_to'),
                            dict(name='copy guard', where='augpathlib/core.py:AugmentedPath.copy_to')],
                 observe_at=['LocalPath.data', 'LocalPath._data_setter', 'copy_to', 'copy_from', 'copy_outto',
                             'copy_infrom']),
)
ASSUMPTIONS = ['files are read and written through an in-memory model of the file system; writes are not torn']


class Boom(Exception):
    pass


def chunks_of(ctx, n, fail=None):
    parts = [ctx.bytes('part%d' % i, ctx.bound('n')) for i in range(n)]

    def gen():
        for i, p in enumerate(parts):
            if i == fail:
                raise Boom
            yield p
        if fail == len(parts):
            raise Boom
    total = b''
    for p in parts:
        total = total + p
    return gen(), total


def write(ctx):
    fs = ctx.fs
    fs.mkd('/tmp/d')
    old = ctx.bytes('old', ctx.bound('n')) if ctx.flag('exists') else None
    if old is not None:
        fs.put('/tmp/d/t', old)
    before = fs.tree('/tmp')
    n = ctx.choice('parts', ctx.bound('k') + 1)
    fail = ctx.choice('fail', n + 2) - 1
    gen, total = chunks_of(ctx, n, fail)
    p = LocalPath('/tmp/d/t')
    how = ctx.pick('how', ('data', 'setter', 'append'))
    try:
        if how == 'data':
            p.data = gen
        else:
            seen = b''
            for c in p._data_setter(gen, append=how == 'append'):
                seen = seen + c
    except Boom:
        ctx.check(fail >= 0, 'Boom out of nowhere')
        if fail == 0:
            ctx.check(fs.tree('/tmp') == before, 'source failed at once but %r became %r' % (before, fs.tree('/tmp')))
            ctx.label('failed first')
        ctx.check(fs.open_files == 0, 'file left open')
        return 'failed'
    ctx.check(fail < 0, 'failure of the source at part %d of %d was lost' % (fail, n))
    want = (old or b'') + total if how == 'append' else total
    ctx.check(fs.node('/tmp/d/t').data == want, '%s wrote %r not %r' % (how, fs.node('/tmp/d/t').data, want))
    if how != 'data':
        ctx.check(seen == total, 'passed on %r of %r' % (seen, total))
    ctx.check(sorted(fs.node('/tmp/d').children) == ['t'], 'extra entries')
    ctx.check(fs.open_files == 0, 'file left open')
    ctx.label('written')
    return how


TARGETS = ('missing', 'file', 'dir', 'link', 'dangling', 'loop', 'self', 'link to self')


def copy(ctx):
    fs = ctx.fs
    data = ctx.bytes('data', ctx.bound('n'))
    src = fs.put('/tmp/s/t', data)
    fs.mkd('/tmp/d')
    kind = ctx.pick('target', TARGETS)
    t = '/tmp/d/t'
    if kind == 'file':
        fs.put(t, ctx.bytes('old', ctx.bound('n')))
    elif kind == 'dir':
        fs.mkd(t)
    elif kind == 'link':
        fs.put('/tmp/o/other', b'precious')
        fs.link(t, ctx.pick('to', ('/tmp/o/other', '../o/other')))
    elif kind == 'dangling':
        fs.link(t, ctx.pick('to', ('nowhere', '/tmp/none/at/all')))
    elif kind == 'loop':
        fs.link(t, 't')
    elif kind == 'self':
        t = '/tmp/s/t'
    elif kind == 'link to self':
        fs.link(t, '/tmp/s/t')
    before, inos = fs.tree('/tmp'), fs.inodes('/tmp')
    cls = ctx.pick('class', (LocalPath, AugmentedPath))
    force = ctx.flag('force')
    s, d = cls('/tmp/s/t'), cls(t)
    how = ctx.pick('how', ('to', 'from', 'outto', 'infrom'))
    try:
        if how == 'to':
            s.copy_to(d, force=force)
        elif how == 'from':
            d.copy_from(s, force=force)
        elif how == 'outto':
            r = s.copy_outto(d.parent, force=force)
            ctx.check(r == d, 'returned %r' % (r,))
        else:
            r = d.parent.copy_infrom(s, force=force)
            ctx.check(r == d, 'returned %r' % (r,))
    except (exc.PathExistsError, OSError) as e:
        ctx.check(kind != 'missing', 'copy to a missing target failed: %r' % (e,))
        ctx.check(not (force and kind in ('file', 'link')), 'forced copy over %s failed: %r' % (kind, e))
        ctx.check(force or kind in ('self', 'link to self') or type(e) is exc.PathExistsError,
                  'refusal of %s is %r' % (kind, e))
        ctx.check(fs.tree('/tmp') == before and fs.inodes('/tmp') == inos,
                  'refused (%r) but %r became %r' % (e, before, fs.tree('/tmp')))
        ctx.label('refused')
        return type(e).__name__
    ctx.check(fs.node('/tmp/s/t').data == data, 'source became %r' % (fs.node('/tmp/s/t').data,))
    ctx.check(force or kind == 'missing', 'copied over %s without force' % kind)
    if kind == 'dir':
        pass  # cp into it
    elif kind in ('missing', 'file'):
        want = dict(before)
        want[t] = ('file', data)
        ctx.check(fs.tree('/tmp') == want, '%r not %r' % (fs.tree('/tmp'), want))
    elif kind == 'link':
        ctx.check(fs.get(t).data == data, 'target has %r' % (fs.get(t).data,))
    ctx.check(fs.open_files == 0, 'file left open')
    ctx.label('copied')
    return kind


def folder(ctx):
    """copying into something that is not a folder"""
    fs = ctx.fs
    fs.put('/tmp/s/t', b'x')
    kind = ctx.pick('kind', ('missing', 'file', 'dangling'))
    if kind == 'file':
        fs.put('/tmp/d', b'old')
    elif kind == 'dangling':
        fs.link('/tmp/d', 'nowhere')
    before = fs.tree('/tmp')
    cls = ctx.pick('class', (LocalPath, AugmentedPath))
    force = ctx.flag('force')
    try:
        if ctx.flag('in'):
            cls('/tmp/d').copy_infrom(cls('/tmp/s/t'), force=force)
        else:
            cls('/tmp/s/t').copy_outto(cls('/tmp/d'), force=force)
    except NotADirectoryError:
        ctx.label('refused')
        ctx.check(fs.tree('/tmp') == before, 'changed')
        return kind
    ctx.check(False, 'copied into %s' % kind)


CASES = [
    Case('write', write, dict(k=2, n=2), dict(k=3, n=3), fs='model', expect=('written', 'failed first'),
         bounds='up to k parts of up to n bytes over a missing file or one of up to n bytes, failure at any part'),
    Case('copy', copy, dict(n=2), dict(n=6), fs='model', expect=('copied', 'refused'),
         bounds='contents of up to n bytes; eight kinds of target'),
    Case('folder', folder, dict(), fs='model', expect=('refused',), bounds='three kinds of non-folders'),
]
