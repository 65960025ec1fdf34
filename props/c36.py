"""C36: anchoring a remote to a local folder."""
from augpathlib import exceptions as exc
from augpathlib.meta import PathMeta
from props.cachekit import Kit
from props.c22 import place
from sx.case import Case

META = dict(
    title='A remote is anchored to one folder, whose record is the root, or not at all',
    statement='When dropAnchor, smartAnchor or anchorTo returns then the remote is anchored to the folder with the name of its root in the '
              'given place, the id in the record of that folder is the one of the root, and whatever was in it is there '
              'as it was. dropAnchor takes only what is not there or an empty folder without a record, smartAnchor and '
              'anchorTo also one with the record of the root. Otherwise it is an error, and nothing has changed, neither '
              'the folders nor what the remote is anchored to. While it is anchored it can not be anchored somewhere else; after '
              'weighAnchor it can.',
    quantifier=dict(over=['histories', 'inputs'], text='all short histories of calls and states of the folders'),
    why_tests_cant='the tests anchor once to a new folder',
    anchors=dict(files=['augpathlib/remotes.py', 'augpathlib/core.py', 'augpathlib/caches.py'],
                 mechanism=[dict(name='drop', where='augpathlib/remotes.py:RemotePath.dropAnchor'),
                            dict(name='smart', where='augpathlib/remotes.py:RemotePath.smartAnchor'),
                            dict(name='to', where='augpathlib/remotes.py:RemotePath.anchorTo'),
                            dict(name='record', where='augpathlib/core.py:LocalPath.cache_init')],
                 observe_at=['RemotePath.dropAnchor', 'RemotePath.smartAnchor', 'RemotePath.anchorTo', 'RemotePath.weighAnchor']),
)
ASSUMPTIONS = ['the classes are bound as the tests and users of augpathlib do']
PLACES = '/tmp/d', '/tmp/e'
STATES = None, 'empty', 'record', 'other record', 'full', 'full record', 'full other record', 'file'
ERRORS = exc.AugPathlibError, OSError, ValueError, NotImplementedError


def look(ctx):
    return {d: [(p, k, c, sorted(ctx.fs.node(p).xattrs.items())) for p, (k, c) in ctx.fs.tree(d).items()] for d in PLACES}


def anchors(ctx):
    fs = ctx.fs
    k = Kit(ctx, anchor=False)
    R = k.R
    is_file = ctx.bound('file') and ctx.flag('root is a file')
    k.inv['root'].dir = not is_file
    states = {}
    for d in PLACES[:ctx.bound('places')]:
        fs.mkd(d)
        s = states[d] = ctx.pick('state ' + d, STATES)
        p = d + '/proj'
        if s is None:
            continue
        ctx.assume(not is_file)
        if s == 'file':
            fs.put(p, b'a file')
            continue
        if 'record' in s:
            place(ctx, p, 'dir', PathMeta(id='other' if 'other' in s else 'root', size=7), None)
        else:
            fs.mkd(p)
        if 'full' in s:
            fs.put(p + '/f', b'content')
    anchored = None
    log = []
    for n in range(ctx.bound('calls')):
        op = ctx.pick('call %d' % n, ('drop', 'smart', 'to', 'create', 'name', 'weigh'))
        d = ctx.pick('place %d' % n, PLACES[:ctx.bound('places')]) if op != 'weigh' else None
        before = look(ctx)
        if op == 'weigh':
            R.weighAnchor()
            anchored = None
            ctx.check(not hasattr(R, '_cache_anchor'), 'weighed')
            ctx.check(look(ctx) == before, 'weighing changes nothing')
            log.append(op)
            continue
        p = d + '/proj'
        s = states[d]
        fresh = s == 'empty' or s is None and not is_file
        mine = s is not None and 'record' in s and 'other' not in s
        if op == 'drop':
            ok = anchored is None and fresh
        elif op == 'smart':
            ok = anchored == d or anchored is None and (fresh or mine)
        elif op == 'to':
            ok = anchored is None and mine
        elif op == 'create':
            ok = anchored is None and (fresh or mine)
        else:
            ok = False
        if op == 'name' and anchored is None:
            target = d + '/other name'
        else:
            target = p
        try:
            if op == 'drop':
                a = R.dropAnchor(k.L(d))
            elif op == 'smart':
                a = R.smartAnchor(k.L(d))
            else:
                a = R.anchorTo(k.L(target), create=op != 'to')
        except ERRORS as e:
            ctx.check(not ok, '%s refused: %s' % (op, e.__class__.__name__))
            ctx.check(look(ctx) == before, '%s was refused but changed something' % op)
            now = getattr(R, '_cache_anchor', None)
            ctx.check((None if now is None else str(now)) == (anchored and anchored + '/proj'), 'refused but the anchor is %s' % now)
            ctx.label('refused')
            log.append('refused')
            continue
        ctx.check(ok, '%s of %s is not refused' % (op, s))
        anchored = d
        ctx.check(str(a) == p and str(R._cache_anchor) == p, 'anchored to %s' % a)
        ctx.check(fs.kind(p) == 'dir' and k.L(p).cache.id == 'root', 'record')
        after = look(ctx)
        ctx.check(all(after[x] == before[x] for x in PLACES if x != d), 'elsewhere')
        have = {x[0]: x for x in after[d]}
        for x in before[d]:
            if x[0] == p and s == 'empty':
                continue   # gets the record
            ctx.check(have.get(x[0]) == x, 'changed: %s' % x[0])
        if fresh:
            states[d] = 'full record'   # has the folder for the data of the cache
        log.append(op)
        ctx.label(op)
    return log


CASES = [
    Case('anchors', anchors, dict(calls=3, places=1, file=1), dict(calls=4, places=1, file=1), fs='model', expect=('refused', 'drop', 'smart', 'to', 'create'),
         split=[{'=call 0': i} for i in range(6)], bounds='3 (thorough: 4) calls in one place'),
    Case('places', anchors, dict(calls=2, places=2, file=0), dict(calls=3, places=2, file=0), fs='model', expect=('refused', 'drop', 'smart', 'to', 'create'),
         split=[{'=state /tmp/d': i} for i in range(8)], bounds='2 (thorough: 3) calls in two places'),
]
