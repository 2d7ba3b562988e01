"""A small world for the cache classes: an in-memory remote tree, a cache class
that stores metadata in extended attributes and symlinks, and a local class,
wired together and anchored in the current (scratch) directory."""
import os
import pathlib
import hashlib
import zlib
from augpathlib import LocalPath, PrimaryCache, EatCache, SymlinkCache, PathMeta, RemotePath
from augpathlib import exceptions as exc


class World:
    """ nodes: id -> dict(name, parent, dir, data, meta kwargs) """

    def __init__(self, root='root', xattr_prefix='vt', backup=None, base=None, rename_trash=False):
        w = self
        self.base = base or os.getcwd()
        self.nodes = {}
        self.fetched = []
        self.refreshed = []
        self.fail_data = None
        self.root_name = root

        class LocalT(LocalPath):
            sysid = 'vt-sysid'

        class CacheT(PrimaryCache, EatCache):
            _not_exists_cache = SymlinkCache
            _backup_cache = backup
            from augpathlib.utils import default_cypher as cypher

            @property
            def trash(self):
                return w.LocalT(w.base) / 'trash'

            @property
            def cache_key(self):
                return self.id

            @property
            def data(self):
                w.fetched.append(self.id)
                if w.fail_data is not None:
                    raise w.fail_data
                yield from w.chunks(self.id)

            def _meta_is_root(self, meta):
                return meta.id == 'root-id'

            def _sparse_include(self):
                return False

        CacheT.xattr_prefix = xattr_prefix

        class RemoteT(RemotePath):
            def __init__(self, thing, cache=None):
                super().__init__(thing, cache=cache)
                self._errors = []

            @property
            def node(self):
                try:
                    return w.nodes[self.id]
                except KeyError:
                    raise exc.NoRemoteFileWithThatIdError(self.id)

            def is_dir(self):
                return self.node['dir']

            def is_file(self):
                return not self.node['dir']

            def _sparse_include(self):
                return self.node.get('sparse', False)

            @property
            def name(self):
                return self.node['name']

            @property
            def parent(self):
                p = self.node['parent']
                return None if p is None else RemoteT(p)

            def as_path(self):
                parts, n = [], self
                while n.id != 'root-id':
                    parts.insert(0, n.name)
                    n = n.parent
                return pathlib.PurePosixPath(*parts)

            @property
            def meta(self):
                return w.meta(self.id)

            @property
            def data(self):
                w.fetched.append(self.id)
                yield from w.chunks(self.id)

            @property
            def children(self):
                for i, n in list(w.nodes.items()):
                    if n['parent'] == self.id:
                        yield RemoteT(i)

            def _rchildren(self, create_cache=True, sparse=False):
                for c in self.children:
                    yield c
                    if c.is_dir():
                        yield from c._rchildren(create_cache, sparse)

            @property
            def errors(self):
                return self._errors

            @property
            def anchor(self):
                return RemoteT('root-id')

            def refresh(self, update_cache=False, update_data=False, update_data_on_cache=False, size_limit_mb=2,
                        force=False):
                w.refreshed.append((self.id, update_data))
                if self.id not in w.nodes:
                    return None
                if update_cache or update_data:
                    self.update_cache(cache=None, fetch=update_data or update_data_on_cache)
                return self

        self.LocalT, self.CacheT, self.RemoteT = LocalT, CacheT, RemoteT
        for c in (LocalT, CacheT):
            if hasattr(c, '_bind_flavours'):
                c._bind_flavours()
        LocalT._cache_class = CacheT
        LocalT._remote_class = RemoteT
        CacheT._local_class = LocalT
        CacheT._remote_class = RemoteT
        RemoteT._cache_class = CacheT
        RemoteT._local_class = LocalT
        RemoteT.root = 'root-id'
        self.nodes['root-id'] = dict(name=root, parent=None, dir=True, data=b'', kw={})

    # -- the remote tree

    def add(self, id, name, parent='root-id', dir=False, data=b'', **kw):
        kw.setdefault('size', None if dir else len(data))
        if not dir:
            kw.setdefault('checksum', self.sum(data))
            kw.setdefault('file_id', zlib.crc32(id.encode()) % 1000 + 1)
        self.nodes[id] = dict(name=name, parent=parent, dir=dir, data=data, kw=kw)
        return self.RemoteT(id)

    def sum(self, data):
        return self.CacheT.cypher(data).digest() if callable(self.CacheT.cypher) else hashlib.sha256(data).digest()

    def meta(self, id):
        if id not in self.nodes:
            raise exc.NoRemoteFileWithThatIdError(id)
        n = self.nodes[id]
        return PathMeta(id=id, name=n['name'], parent_id=n['parent'], **{k: v for k, v in n['kw'].items() if v is not None})

    def chunks(self, id):
        d = self.nodes[id]['data']
        for i in range(0, len(d), 7):
            yield d[i:i + 7]

    # -- the local side

    def anchor(self):
        root = self.LocalT(os.path.join(self.base, self.root_name))
        root.mkdir(exist_ok=True)
        os.makedirs(os.path.join(self.base, 'trash'), exist_ok=True)
        self.CacheT._anchor = None
        c = self.CacheT.__new__(self.CacheT, root)
        import sys
        if sys.version_info >= (3, 12):
            pathlib.PurePath.__init__(c, root)
        c.setxattrs(PathMeta(id='root-id', name=self.root_name).as_xattrs(self.CacheT.xattr_prefix))
        self.CacheT.anchor = None
        self.CacheT.anchor = c
        self.root = c
        self.RemoteT._cache_anchor = c
        (root / self.CacheT._local_data_dir / 'objects').mkdir(parents=True, exist_ok=True)
        return c

    def local(self, *parts):
        return self.LocalT(os.path.join(self.base, self.root_name, *parts))

    def put(self, rel, id, data=None, link=False, **kw):
        """ a local file (with xattr metadata) or symlink for id, made without
            the code under test """
        p = self.local(rel)
        p.parent.mkdir(parents=True, exist_ok=True)
        m = PathMeta(id=id, **kw)
        if link:
            os.symlink(m.as_symlink(local_name=p.name), p)
        else:
            with open(p, 'wb') as f:
                f.write(data or b'')
            for k, v in m.as_xattrs(self.CacheT.xattr_prefix).items():
                os.setxattr(p, b'user.' + k.encode() if isinstance(k, str) else b'user.' + k, v)
        return p


def content(p):
    with open(p, 'rb') as f:
        return f.read()


def tree(base, skip=()):
    """ everything below base: rel -> kind, content/target, sorted xattrs """
    out = {}
    for d, ds, fs in os.walk(base):
        for n in ds + fs:
            p = os.path.join(d, n)
            r = os.path.relpath(p, base)
            if any(r == s or r.startswith(s + '/') for s in skip):
                continue
            if os.path.islink(p):
                out[r] = ('link', os.readlink(p))
            else:
                x = tuple(sorted((k, os.getxattr(p, k)) for k in os.listxattr(p)))
                out[r] = ('dir', None, x) if os.path.isdir(p) else ('file', content(p), x)
    return out
