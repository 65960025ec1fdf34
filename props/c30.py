"""C30: what an ssh host says about a file."""
import os
from augpathlib.utils import StatResult
from props.c29 import remote
from props.sshkit import Host
from sx.case import Case

META = dict(
    title='Status and access of a file on an ssh host are what the host reports',
    statement='Each value of a StatResult is the one in the line that stat printed with its format, whatever the '
              'name and the values are, times including their fractions. access to read, write or execute is granted exactly when the permission '
              'bits of the one class that applies to the user (owner, else group, else others) grant it, and not if '
              'the file is not there or cannot be reached.',
    quantifier=dict(over=['inputs'], text='all names, sizes, times, modes, users and groups'),
    why_tests_cant='a test sees the files and the user that there are',
    anchors=dict(files=['augpathlib/remotes.py', 'augpathlib/utils.py'],
                 mechanism=[dict(name='parser', where='augpathlib/utils.py:StatResult'),
                            dict(name='permission', where='augpathlib/remotes.py:SshRemote.access')],
                 observe_at=['StatResult', 'SshRemote.access']),
)
ASSUMPTIONS = ['the user is not root']
ALPHABET = (0x20, 0x7e), (0xa1, 0xd7ff)


class Stat:
    pass


def access(ctx):
    with Host(ctx, 'a', b'') as h:
        r = remote(h, h.path)
        R = type(r)
        R._uid, R._gids = ctx.int('my uid', 1, 9), [ctx.int('my gid %d' % i, 0, 9) for i in range(ctx.bound('groups'))]
        why = ctx.pick('why not', (None, FileNotFoundError, PermissionError))
        st = Stat()
        st.st_mode = ctx.int('mode', 0, 0o7777) + ctx.pick('type', (0o100000, 0o40000))
        st.st_uid, st.st_gid = ctx.int('uid', 0, 9), ctx.int('gid', 0, 9)

        def stat(self):
            if why is not None:
                raise why('stat')
            return st
        R.stat = stat
        shift = 6 if st.st_uid == R._uid else 3 if any(g == st.st_gid for g in R._gids) else 0
        bits = st.st_mode >> shift & 7
        for mode, code, bit in (('read', os.R_OK, 4), ('write', os.W_OK, 2), ('execute', os.X_OK, 1)):
            want = why is None and bits & bit == bit
            ctx.check(bool(r.access(mode)) == want, mode)
            ctx.check(bool(r.access(code)) == want, mode)
        ctx.label('unreachable' if why else 'owner' if shift == 6 else 'group' if shift else 'others')
    return shift


def groups(ctx):
    """the user and the groups are those of the host"""
    gids = [ctx.pick('gid %d' % i, (7, 8, 19)) for i in range(1 + ctx.choice('groups', 3))]
    with Host(ctx, 'a', b'', ids=(7, gids)) as h:
        r = remote(h, h.path)
        st = Stat()
        st.st_mode = 0o100000 + ctx.pick('mode', (0o400, 0o040, 0o004))
        st.st_uid, st.st_gid = ctx.pick('uid', (7, 9)), ctx.pick('gid', (7, 8, 9, 19))
        type(r).stat = lambda self: st
        shift = 6 if st.st_uid == 7 else 3 if st.st_gid in gids else 0
        ctx.check(bool(r.access('read')) == (st.st_mode >> shift & 4 == 4), 'read')
        ctx.label('owner' if shift == 6 else 'group' if shift else 'others')
    return shift


TIMES = 1500000000, 0, -2
FRACTIONS = ('000000000', 0), ('250000000', .25)


def line(ctx):
    vary = ctx.pick('vary', ('name', 'numbers', 'times', 'mode'))
    path = '/' + (ctx.str('name', ctx.bound('chars'), 1, ALPHABET) if vary == 'name' else 'a')
    top = 10 ** ctx.bound('digits') - 1
    v = {k: ctx.int(k, 0, top) if vary == 'numbers' else i
         for i, k in enumerate(('inode', 'hint', 'size', 'gid', 'uid'))}
    t = [(ctx.pick('t%d' % i, TIMES), *ctx.pick('fraction %d' % i, FRACTIONS)) if vary == 'times'
         else (TIMES[0] + i, *FRACTIONS[1]) for i in range(4)]
    nibbles = [8] + [ctx.int('mode %d' % i, 0, 15) if vary == 'mode' else 4 for i in range(3)]
    mode, hexmode = 0, ''
    for x in nibbles:
        mode = mode * 16 + x
        hexmode = hexmode + (chr(48 + x) if x < 10 else chr(87 + x))
    ctx.assume(t[0][0] != 0)  # stat prints this if it does not know
    birth = vary == 'times' or ctx.flag('birth')
    out = '%s  %s  %s  %s' % (path, v['inode'], v['hint'], v['size'])
    for i, (sec, f, _) in enumerate(t):
        out += '  2017-07-14 02:40:00.%s +0000  %s' % (f, sec) if i or birth else '  -  0'
    out += '  %s  %s  %s' % (v['gid'], v['uid'], hexmode)
    st = StatResult(out.encode())
    ctx.check(st.name == path, 'name')
    for k, n in (('ino', 'inode'), ('blksize', 'hint'), ('size', 'size'), ('gid', 'gid'), ('uid', 'uid')):
        ctx.check(getattr(st, 'st_' + k) == v[n], k)
    for k, (sec, _, f) in zip(('birthtime', 'atime', 'mtime', 'ctime'), t):
        if k != 'birthtime' or birth:
            ctx.check(getattr(st, 'st_' + k) == sec + f, k)
        else:
            ctx.check(not hasattr(st, 'st_birthtime'), 'birth')
    ctx.check(st.st_mode == mode, 'mode')
    ctx.label(vary)
    return None


CASES = [
    Case('access', access, dict(groups=2), dict(groups=4), expect=('owner', 'group', 'others', 'unreachable'),
         bounds='all modes, users and groups 0 to 9, two (thorough: four) groups of the user'),
    Case('groups', groups, expect=('owner', 'group', 'others'), split=[{'=groups': i} for i in range(3)],
         bounds='up to three groups of the user on the host, one of four owners and groups of the file'),
    Case('line', line, dict(chars=3, digits=2), dict(chars=6, digits=4), expect=('name', 'numbers', 'times', 'mode'), split=[{'=vary': i} for i in range(4)],
         bounds='names of up to 3 (thorough: 6) characters, numbers of up to 2 (4) digits, all modes, times before and '
                'after the epoch with and without a fraction'),
]
