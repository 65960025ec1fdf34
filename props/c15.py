"""C15: relative paths."""
import os
from augpathlib import LocalPath, AugmentedPath
from sx.case import Case

META = dict(
    title='Relative paths lead from where they start to their target',
    statement='The relative path from a start to a target, followed from the folder that contains the start (from the '
              'start itself if the target lies in it), leads to exactly the target; it is relative, has no more ".." '
              'than needed, and relative_path_to is its mirror image. The common path of two paths is a prefix of '
              'both and no longer path is.',
    quantifier=dict(over=['inputs'], text='all pairs of absolute, or of relative, paths without ".." up to the bound'),
    why_tests_cant='the tests check one pair; results depend on how the two paths nest and share components',
    anchors=dict(files=['augpathlib/core.py'],
                 mechanism=[dict(name='path arithmetic', where='augpathlib/core.py:AugmentedPath.relative_path_from')],
                 observe_at=['relative_path_from', 'relative_path_to', 'commonpath']),
)
ASSUMPTIONS = ['no component is ".."; paths do not start with two slashes; symlinks are not considered (the computation is lexical)']

CH = ((47, 47), (97, 98))


def resolve(parts):
    out = []
    for p in parts:
        if p == '..':
            if not out:
                return None
            out.pop()
        else:
            out.append(p)
    return out


def relative(ctx):
    pre = '/' if ctx.flag('absolute') else ''
    cls = AugmentedPath if ctx.flag('plain') else LocalPath
    a = cls(pre + ctx.str('target', ctx.bound('n'), 0, CH))
    b = cls(pre + ctx.str('start', ctx.bound('n'), 0, CH))
    ctx.assume(a.is_absolute() == b.is_absolute() and a.root != '//' and b.root != '//')
    pa, pb = list(a.parts), list(b.parts)
    n = 0
    while n < len(pa) and n < len(pb) and pa[n] == pb[n]:
        n += 1
    if not pa or not pb:
        return None  # the folder "." has no common path with anything
    if n == 0:
        ctx.assume(not a.is_absolute())
        ctx.label('nothing shared')
    c = a.commonpath(b)
    ctx.check(list(c.parts) == pa[:n], 'common path of %s and %s is %s' % (a, b, c))
    r = a.relative_path_from(b)
    ctx.check(b.relative_path_to(a) == r, 'mirror image differs')
    ctx.check(not r.is_absolute() and isinstance(r, cls), 'got %r' % (r,))
    base = pb if n == len(pb) else pb[:-1]
    got = resolve(base + list(r.parts))
    ctx.check(got == pa, 'from %s to %s: %s' % (b, a, r))
    ups = [p for p in r.parts if p == '..']
    ctx.check(len(ups) == max(0, len(pb) - n - 1), 'too many ..: %s' % r)
    ctx.label('inside' if n == len(pb) else 'beside')
    return [len(ups), len(r.parts)]


CASES = [
    Case('relative', relative, dict(n=4), dict(n=5),
         split=[{'=absolute': i, '=plain': j} for i in (0, 1) for j in (0, 1)], expect=('inside', 'beside', 'nothing shared'),
         bounds='paths of up to n characters from a, b and /'),
]
