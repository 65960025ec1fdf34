"""A local tree, its cache and an in-memory remote, bound the way users of augpathlib bind them."""
import pathlib
from augpathlib import EatCache, LocalPath, PrimaryCache, RemotePath, SymlinkCache
from augpathlib.core import AugmentedPath
from augpathlib.meta import PathMeta
from augpathlib.utils import default_cypher

TOP = '/tmp/d'


class Item:
    def __init__(self, id, name, parent, dir=False, data=b'', **meta):
        self.id, self.name, self.parent, self.dir, self.data, self.meta = id, name, parent, dir, data, meta


def as_pretty(self, *a, **k):
    return 'a table for the log'


class Kit:
    """ inventory: id -> Item, the one without a parent is the root """

    def __init__(self, ctx, items=(), anchor=True, root='root', **attrs):
        PathMeta.as_pretty = as_pretty
        self.ctx = ctx
        self.inv = inv = {i.id: i for i in (Item(root, 'proj', None, True), *items)}
        self.calls = calls = []
        kit = self

        class L(LocalPath):
            @property
            def cache_id(self):
                return self.cache.id

        class C(PrimaryCache, EatCache):
            xattr_prefix = 't'
            _not_exists_cache = SymlinkCache
            cypher = default_cypher
            checksum = AugmentedPath.checksum

            @property
            def anchor(self):
                return getattr(self, '_anchor', None)

            @property
            def trash(self):
                return self.local_data_dir / 'trash'

            @property
            def cache_key(self):
                return self.id[:50]

            @property
            def data(self):
                calls.append('data ' + self.name)
                yield from self.remote.data

            def _meta_is_root(self, meta):
                return meta.id == root

            def _sparse_include(self):
                return True

        class Api:
            def __init__(self, identifier):
                self.root = identifier

        class R(RemotePath):
            _api_class = Api

            @property
            def item(self):
                return inv[self.id]

            @property
            def anchor(self):
                return self.__class__(root)

            @property
            def name(self):
                return self.item.name

            @property
            def parent(self):
                p = self.item.parent
                return None if p is None else self.__class__(p)

            @property
            def meta(self):
                m = dict(self.item.meta)
                return PathMeta(id=self.id, **m)

            @property
            def data(self):
                yield from kit.chunks(self.item.data)

            def exists(self):
                return self.id in inv

            def is_dir(self):
                return self.item.dir

            def is_file(self):
                return not self.item.dir

            def _sparse_include(self):
                return self.item.name in kit.included

            @property
            def children(self):
                for i in list(inv.values()):
                    if i.parent == self.id:
                        yield self.__class__(i.id)

            def _rchildren(self, create_cache=True, sparse=False):
                for c in self.children:
                    yield c
                    if c.is_dir():
                        yield from c._rchildren(create_cache, sparse)

            def refresh(self, update_cache=False, update_data=False, update_data_on_cache=False, size_limit_mb=2,
                        force=False):
                calls.append('refresh ' + self.id)
                if self.id not in inv:
                    return
                if update_cache:
                    self.update_cache(fetch=update_data or update_data_on_cache)
                return self

            def __hash__(self):
                return hash(self.id)

        for k, v in attrs.items():
            setattr(C if not k.startswith('r_') else R, k.removeprefix('r_'), v)
        self.included = ()
        L._bind_flavours()
        C._bind_flavours()
        ctx.fs.mkd(TOP)
        self.R = R._new(L, C)
        self.L, self.C = L, C
        self.R.init(root)
        self.top = TOP + '/proj'
        if anchor:
            self.anchor = self.R.dropAnchor(L(TOP))
            C.anchor = self.anchor

    def chunks(self, data):
        yield data

    def local(self, rel):
        return self.L(self.top + '/' + rel)

    def remote(self, id):
        return self.R(id)
