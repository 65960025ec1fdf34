"""C06: the content-changed verdict."""
from augpathlib.meta import PathMeta
from sx.case import Case

META = dict(
    title='The content-changed verdict follows checksums, then size and time',
    statement='When both records have a checksum the content counts as different exactly when the checksums differ, '
              'whatever the sizes and times are. Otherwise it counts as different exactly when the sizes differ or '
              'the other record was updated later; missing timestamps are no evidence of change.',
    quantifier=dict(over=['inputs'], text='all pairs of records'),
    why_tests_cant='no test covers the verdict',
    anchors=dict(files=['augpathlib/meta.py'],
                 mechanism=[dict(name='verdict', where='augpathlib/meta.py:PathMeta.content_different')],
                 observe_at=['PathMeta.content_different']),
)
ASSUMPTIONS = ['both timestamps carry an offset or both do not']


def verdict(ctx):
    n = ctx.bound('n')
    kw, tz = {}, 'naive' if ctx.flag('naive') else 'offset'
    for t in 'ab':
        d = kw[t] = {}
        if ctx.flag(t + '.checksum?'):
            d['checksum'] = ctx.bytes(t + '.checksum', n)
        if ctx.flag(t + '.size?'):
            d['size'] = ctx.int(t + '.size', 0, 10 ** 15)
        if ctx.flag(t + '.updated?'):
            d['updated'] = ctx.datetime(t + '.updated', tz=tz)
        if ctx.flag(t + '.id?'):
            d['id'] = t
    a, b = PathMeta(**kw['a']), PathMeta(**kw['b'])
    ca, cb = kw['a'].get('checksum'), kw['b'].get('checksum')
    if ca and cb:
        want = not (ca == cb)
    else:
        sa, sb = kw['a'].get('size'), kw['b'].get('size')
        diff = (sa is None) != (sb is None) or (sa is not None and not (sa == sb))
        ua, ub = kw['a'].get('updated'), kw['b'].get('updated')
        want = diff or (ua is not None and ub is not None and ua < ub)
    got = a.content_different(b)
    ctx.label('different' if want else 'same')
    ctx.check(bool(got) == bool(want), '%r and %r: %r, expected %r' % (kw['a'], kw['b'], got, want))
    return bool(got)


CASES = [
    Case('verdict', verdict, dict(n=2), dict(n=4), expect=('different', 'same'),
         bounds='checksums of up to n bytes, sizes up to 10**15, timestamps 1970-2099 to the microsecond, each field '
                'present or absent'),
]
