"""C03: symlinks written by any released format version decode to the values they hold."""
from augpathlib import AugmentedPath
from augpathlib.meta import PathMeta
from sx.case import Case
from props.util import FIELDS, same

META = dict(
    title='Metadata symlinks of every format version stay readable',
    statement='A metadata symlink written by any earlier format version decodes to exactly the values it holds, '
              'field by field, with fields that version does not have reported as absent. An unknown version is '
              'refused. A symlink whose embedded name differs from its own name is refused; one without an embedded '
              'name is read as it is.',
    quantifier=dict(over=['inputs', 'histories'], text='all format versions, all combinations of present fields, all '
                    'field values those versions could write'),
    why_tests_cant='the tests only ever read what the current version wrote; old links exist only on disks in use',
    anchors=dict(files=['augpathlib/meta.py'],
                 mechanism=[dict(name='version table and decoder',
                                 where='augpathlib/meta.py:_PathMetaAsSymlink.from_parts')],
                 observe_at=['PathMeta.from_symlink', 'PathMeta.from_parts']),
)
ASSUMPTIONS = ['the layouts of versions meta, mdv1-mdv6 are those of the released package (written out in this check)',
               'text in versions before mdv5 holds no escape characters']

# the released layouts, written out independently of the code
B = 'file_id size created updated checksum'.split()
E = 'old_id gid user_id mode errors'.split()
ORDER = {
    'meta': B + E,
    'mdv1': B + ['chunksize'] + E,
    'mdv2': B + ['etag', 'chunksize'] + E,
    'mdv3': B + ['etag', 'chunksize', 'parent_id', 'old_id', 'gid', 'user_id', 'mode', 'name', 'errors'],
    'mdv4': B + ['checksum_cypher', 'etag', 'chunksize', 'parent_id', 'old_id', 'gid', 'user_id', 'mode', 'name',
                 'errors'],
    'mdv6': B + ['checksum_cypher', 'etag', 'chunksize', 'multi', 'parent_id', 'old_id', 'gid', 'user_id', 'mode',
                 'name', 'errors'],
}
ORDER['mdv5'] = ORDER['mdv4']
TEXT = ('old_id', 'parent_id', 'mode', 'name', 'checksum_cypher')
INT = ('file_id', 'size', 'chunksize', 'multi', 'gid', 'user_id')
PLAIN = ((45, 45), (48, 57), (58, 58), (65, 90), (95, 95), (97, 122))


def write(order, version, id, values, local_name, extra):
    """the link text as that version wrote it"""
    def esc(s):
        s = s.replace('/', '|')
        return s.replace('.', '!') if version in ('mdv5', 'mdv6') else s
    out = []
    for f in order:
        v = values.get(f)
        if v is None:
            out.append('#')
        elif f in TEXT:
            out.append(esc(v))
        elif f == 'errors':
            out.append(';'.join(v))
        elif f == 'checksum':
            out.append(v.hex())
        elif f == 'etag':
            out.append(v[0].hex() + '-' + str(v[1]))
        elif f in ('created', 'updated'):
            out.append(v)
        else:
            out.append(str(v))
    if extra:
        out.append('5K')     # the human readable size that closes every link
    t = esc(id) + '/.' + version + '.' + '.'.join(out)
    return t if local_name is None else local_name + '/' + t


def put(ctx, text, name='f.ext'):
    p = AugmentedPath('/tmp/d/' + name)
    ctx.fs.mkd('/tmp/d')
    ctx.fs.link('/tmp/d/' + name, text)
    return p


def check(ctx, back, values, id):
    out = []
    for f in FIELDS:
        want = id if f == 'id' else values.get(f)
        got = getattr(back, f)
        if f in ('created', 'updated') and want is not None:
            ctx.check(got is not None and got.isoformat() == ISO[want], '%s: held %r, read %r' % (f, want, got))
        elif f == 'errors' and not want:
            ctx.check(not got, 'errors: none held, read %r' % (got,))
        elif f == 'errors':
            ctx.check(len(want) == len(got) and all([a == b for a, b in zip(want, got)]),
                      'errors: held %r read %r' % (want, got))
        else:
            ctx.check(same(f, want, got), '%s: held %r, read %r' % (f, want, got))
        out.append(got)
    return out


ISO = {'2001-02-03T04:05:06,000007Z': '2001-02-03T04:05:06.000007+00:00',
       '2002-02-03T04:05:06Z': '2002-02-03T04:05:06+00:00',
       '2003-02-03T04:05:06,100000-05:00': '2003-02-03T04:05:06.100000-05:00'}
FULL = dict(name='f', size=1, created='2001-02-03T04:05:06,000007Z', updated='2003-02-03T04:05:06,100000-05:00',
            checksum=b'\x00.\xff', checksum_cypher='sha256', etag=(b'/|', 3), chunksize=4096, multi=2,
            parent_id='N:c:1/2', file_id=7, old_id='x/y', gid=8, user_id=9, mode='rw', errors=('e1', 'e2'))


def one_text(ctx):
    version, f = ctx.bound('version'), ctx.bound('field')
    order = ORDER[version]
    alpha = PLAIN + ((47, 47),) * (f != 'name' and (f, version) != ('checksum_cypher', 'mdv4')) + ((46, 46),) * (version in ('mdv5', 'mdv6'))
    v = ctx.str('v', ctx.bound('n'), minlen=1, alphabet=alpha)
    values = {k: FULL[k] for k in order}
    id = 'N:id:1'
    if f == 'id':
        id = v
        # '.' and '//' are not kept by path syntax
        ctx.assume(not v.startswith('/') and not v.endswith('/') and '//' not in v)
    else:
        values[f] = v
    p = put(ctx, write(order, version, id, values, 'f.ext', True))
    back = PathMeta.from_symlink(p)
    ctx.label('read')
    return check(ctx, back, values, id)


def one_number(ctx):
    version = ctx.bound('version')
    order = ORDER[version]
    values = {k: FULL[k] for k in order}
    f = ctx.pick('field', [k for k in INT if k in order])
    values[f] = ctx.int('v', 0, 10 ** ctx.bound('digits'))
    if f == 'user_id':
        pass
    p = put(ctx, write(order, version, 'N:id:1', values, 'f.ext', True))
    back = PathMeta.from_symlink(p)
    ctx.label('read')
    return check(ctx, back, values, 'N:id:1')


def digests(ctx):
    version = ctx.bound('version')
    order = ORDER[version]
    values = {k: FULL[k] for k in order}
    values['checksum'] = ctx.bytes('checksum', ctx.bound('n'), minlen=1)
    if 'etag' in order:
        values['etag'] = ctx.bytes('etag', ctx.bound('n'), minlen=1), ctx.int('count', 0, 10000)
    p = put(ctx, write(order, version, 'N:id:1', values, None, True))
    back = PathMeta.from_symlink(p)
    ctx.label('read')
    return check(ctx, back, values, 'N:id:1')


def presence(ctx):
    version = ctx.bound('version')
    order = ORDER[version]
    lo, hi = ctx.bound('range')
    values = {}
    for i, k in enumerate(order):
        if lo <= i < hi:
            if ctx.flag(k):
                values[k] = FULL[k]
        elif ctx.bound('rest'):
            values[k] = FULL[k]
    p = put(ctx, write(order, version, 'N:id:1', values, 'f.ext' if ctx.flag('local') else None, ctx.flag('hr')))
    back = PathMeta.from_symlink(p)
    ctx.label('read')
    return check(ctx, back, values, 'N:id:1')


def names(ctx):
    """the embedded name guards against links that were moved to another name"""
    from augpathlib import exceptions as exc
    local = ctx.str('local', ctx.bound('n'), minlen=1, alphabet=((46, 46), (65, 90), (97, 122)))
    ctx.assume(local != '.')
    v = ctx.pick('version', sorted(ORDER))
    values = {k: FULL[k] for k in ORDER[v]}
    p = put(ctx, write(ORDER[v], v, 'N:id:1', values, local, True), name='f.x')
    try:
        back = PathMeta.from_symlink(p)
    except exc.CircularSymlinkNameError as e:
        ctx.check(local != 'f.x', 'the link names itself but was refused')
        ctx.label('refused')
        return 'refused'
    ctx.check(local == 'f.x', 'the link %r was read as f.x' % (local,))
    ctx.label('read')
    return check(ctx, back, values, 'N:id:1')


def unknown(ctx):
    d = ctx.str('d', 3, minlen=1, alphabet=((48, 57), (97, 102)))
    version = 'mdv' + d
    ctx.assume(version not in ORDER)
    p = put(ctx, write(ORDER['mdv6'], version, 'N:id:1', FULL, 'f.ext', True))
    try:
        back = PathMeta.from_symlink(p)
    except Exception as e:
        ctx.label('refused')
        return 'refused'
    ctx.check(False, 'read an unknown version %r as %r' % (version, back))


VERS = sorted(ORDER)
CASES = [
    Case('text', one_text, dict(n=2), dict(n=3), fs='model', expect=('read',),
         split=[dict(version=v, field=f) for v in VERS for f in ('id', 'name', 'old_id', 'parent_id', 'mode',
                                                                 'checksum_cypher') if f == 'id' or f in ORDER[v]],
         bounds='one text field of 1..n characters in every version'),
    Case('numbers', one_number, dict(digits=8), dict(digits=18), fs='model', expect=('read',),
         split=[dict(version=v) for v in VERS], bounds='one integer field in every version'),
    Case('digests', digests, dict(n=2), dict(n=4), fs='model', expect=('read',),
         split=[dict(version=v) for v in VERS], bounds='digests of 1..n bytes in every version'),
    Case('presence', presence, dict(rest=1), fs='model', expect=('read',),
         split=[dict(version=v, range=r) for v in VERS for r in ((0, 4), (4, 9), (9, 16)) if r[0] < len(ORDER[v])],
         split_thorough=[dict(version=v, range=r, rest=x) for v in VERS for r in ((0, 8), (7, 16)) for x in (0, 1)],
         bounds='subsets of present fields in every version, with and without embedded name and size text'),
    Case('names', names, dict(n=3), dict(n=4), fs='model', expect=('read', 'refused'),
         bounds='embedded names of 1..n letters and dots'),
    Case('unknown', unknown, fs='model', expect=('refused',), bounds='unknown versions mdvX of 1..3 hex digits'),
]
