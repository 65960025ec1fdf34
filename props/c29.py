"""C29: files on a host that is reached through ssh."""
import hashlib
import os
from augpathlib import LocalPath
from augpathlib.caches import SshCache
from augpathlib.remotes import SshRemote
from augpathlib.utils import default_cypher
from props.sshkit import Host, PLAIN
from sx.case import Case

META = dict(
    title='A remote path on an ssh host answers for the file with that name',
    statement='Whatever characters the name has, stat, size, exists, is_file, is_dir, checksum and data of an ssh remote are those of the '
              'file with exactly that path on the host; no part of a name is run as a command there. If nothing is '
              'there then exists is false, stat is FileNotFoundError and data is an error instead of no data.',
    quantifier=dict(over=['inputs'], text='all names'),
    why_tests_cant='the test of ssh needs a server and uses one plain name; what a remote shell does with a name '
                   'depends on each character',
    anchors=dict(files=['augpathlib/remotes.py', 'augpathlib/utils.py'],
                 mechanism=[dict(name='commands', where='augpathlib/remotes.py:SshRemote._stat_cmd'),
                            dict(name='data', where='augpathlib/remotes.py:SshRemote.data'),
                            dict(name='answer', where='augpathlib/utils.py:StatResult')],
                 observe_at=['SshRemote.stat', 'SshRemote.checksum', 'SshRemote.data', 'SshRemote.exists']),
)
ASSUMPTIONS = ['names have no control characters, which a terminal would interpret']
ALPHABET = (0x20, 0x2e), (0x30, 0x7e), (0xa1, 0xd7ff), (0xe000, 0x10ffff)
DATA = bytes(range(256)) * 40
SHA256 = 'e96760a87768717bcebcfd25ddc7d46b4dbc95a4b0014def080c08539f7d90d0'
BLAKE2B = '42ed88485085bf7bd02cb7316192a407cc555ef2b9647513f1f3272dea136599854c7f65edaf5bbe815369e80b3ad6bf6fcb8da79c789d03a9807eb2e844f443'


def remote(h, path, cypher=default_cypher):
    class L(LocalPath):
        pass

    class C(SshCache):
        pass
    C.cypher = cypher
    L._bind_flavours()
    C._bind_flavours()
    R = SshRemote._new(L, C)
    R.init('host:' + h.dir)
    R._cols = 10000

    class P(R):
        rpath = path
        parent_id = 'host:/r'
    P._cache_class = C
    return P(h.dir + '/r/' + PLAIN)


def names(ctx):
    name = ctx.str('name', ctx.bound('chars'), 1, ALPHABET)
    ctx.assume(name != '.' and name != '..')
    what = ctx.pick('what', ('file', 'nothing', 'dir'))
    with Host(ctx, name, dict(file=DATA, nothing=None, dir=True)[what]) as h:
        query = ctx.pick('query', ('stat', 'kind', 'checksum', 'data'))
        cypher, digest = hashlib.sha256, SHA256
        if query == 'checksum' and ctx.flag('blake2b'):
            cypher, digest = hashlib.blake2b, BLAKE2B
        r = remote(h, h.path, cypher)
        if query == 'stat':
            if what == 'nothing':
                ctx.check(not r.exists(), 'exists')
                try:
                    r.stat()
                    ctx.check(False, 'stat of nothing')
                except FileNotFoundError:
                    ctx.label('missing')
            else:
                st = r.stat()
                ctx.check(st.name == h.path, 'name')
                ctx.check(st.st_mtime == 1600000001, 'mtime')
                ctx.check(st.st_atime == 1600000000, 'atime')
                ctx.check(st.st_mode & 0o777 == 0o640, 'mode')
                ctx.check(what == 'dir' or st.st_size == len(DATA), 'size')
                ctx.check(r.exists(), 'exists')
                ctx.label('stat')
        elif query == 'kind':
            ctx.check(r.is_dir() == (what == 'dir'), 'is_dir')
            ctx.check(r.is_file() == (what == 'file'), 'is_file')
        elif query == 'checksum':
            if what != 'nothing':
                digest = bytes.fromhex(digest) if what == 'file' else None
                ctx.check(r.checksum() == digest, 'checksum')
                m = r.meta
                ctx.check(m.checksum == digest, 'checksum in meta')
                ctx.check(m.checksum_cypher == (digest and ('sha256' if cypher == hashlib.sha256 else 'blake2b')), 'cypher in meta')
                ctx.check(m.size == len(DATA) or what == 'dir', 'size in meta')
                ctx.check(int(m.updated.timestamp()) >= 1600000000, 'updated in meta')
                ctx.check(int(m.created.timestamp()) == 1600000001, 'created in meta')
                ctx.label('checksum')
        elif what == 'file':
            ctx.check(b''.join(r.data) == DATA, 'data')
            ctx.label('data')
        elif what == 'nothing':
            try:
                got = b''.join(r.data)
            except Exception:
                ctx.label('no data')
            else:
                ctx.check(False, 'data of nothing: %r' % got)
    return what


def paths(ctx):
    """where a remote is, below an anchor"""
    names = [ctx.pick('name %d' % i, ('a', 'b c', "d'e", 'r', 'host:x')) for i in range(1 + ctx.choice('depth', ctx.bound('depth')))]
    with Host(ctx, PLAIN, None) as h:
        class L(LocalPath):
            pass

        class C(SshCache):
            cache_key = 'key'
        L._bind_flavours()
        C._bind_flavours()
        R = SshRemote._new(L, C)
        os.mkdir(h.dir + '/loc')
        p = h.dir + '/r'
        for n in names[:-1]:
            p += '/' + n
            os.mkdir(p)
        p += '/' + names[-1]
        dir = ctx.flag('folder')
        if dir:
            os.mkdir(p)
        else:
            with open(p, 'wb') as f:
                f.write(DATA)
        L(h.dir + '/loc').cache_init('host:' + h.dir + '/r', anchor=True)
        R._cols = 10000
        r = R(p if ctx.flag('absolute') else 'host:' + p)
        rel = '/'.join(names)
        ctx.check(r.rpath == p, 'rpath %s' % r.rpath)
        ctx.check(r.id == 'host:' + p, 'id %s' % r.id)
        ctx.check(tuple(r.parts) == tuple(names), 'parts %r' % (r.parts,))
        ctx.check(str(r.as_path()) == rel, 'as_path %s' % r.as_path())
        ctx.check(r.parent.rpath == p.rpartition('/')[0], 'parent %s' % r.parent.rpath)
        ctx.check(r.is_dir() == dir and r.is_file() == (not dir), 'kind')
        m = r.meta
        ctx.check(m.id == r.id and m.parent_id == 'host:' + p.rpartition('/')[0], 'ids in meta')
        ctx.check((m.size == len(DATA)) != dir and (m.checksum is None) == dir, 'meta')
        if len(names) == 1 or ctx.flag('parents'):
            for i in range(len(names)):
                c = R(h.dir + '/r/' + '/'.join(names[:i + 1])).cache_init()
            ctx.check(str(c.local) == h.dir + '/loc/' + rel, 'place %s' % c.local)
            ctx.check(c.meta.id == r.id and c.meta.size == m.size and c.meta.checksum == m.checksum, 'record')
            if not dir:
                c.fetch(size_limit_mb=None)
                with open(h.dir + '/loc/' + rel, 'rb') as f:
                    ctx.check(f.read() == DATA, 'fetched')
                ctx.label('fetched')
        ctx.label('folder' if dir else 'file')
    return names


CASES = [
    Case('names', names, dict(chars=2), dict(chars=3), split=[{'=what': i, '=query': j} for i in range(3) for j in range(4)],
         expect=('missing', 'stat', 'checksum', 'data', 'no data'), bounds='names of up to 2 (thorough: 3) characters'),
    Case('paths', paths, dict(depth=2), dict(depth=3), expect=('folder', 'file', 'fetched'), split=[{'=name 0': i} for i in range(5)],
         bounds='paths of 1 or 2 (thorough: 3) names below the anchor, given with and without the host'),
]
