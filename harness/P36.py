"""The directory for local data is set up from every state, with every step failing, and again afterwards."""
import os
import env
import guard
RULE = 'every state of the directory, of what is in it and of the arguments; every step failing and the setup repeated; then random histories of setups'
DATA = ('none', 'dir', 'file')
OBJ = ('none', 'dir', 'full', 'file', 'same', 'other', 'broken')
TRASH = ('none', 'dir', 'full', 'file')


def cases(rng, tier):
    plain = {'data': 'dir', 'obj': 'none', 'trash': 'none', 'rel': False, 'notrash': False}
    for obj in ('none', 'same', 'other'):
        for link in ('same', 'other'):
            yield dict(plain, obj=obj, dots=True, runs=[[link, None, None], [link, None, None]])
    yield dict(plain, faraway=True, runs=[['', None, None]])
    yield dict(plain, faraway=True, data='none', runs=[['same', None, None], ['same', None, None]])
    for n in (None, 1, 2, 3, 4):
        for data in DATA:
            for obj in OBJ if data == 'dir' else ('none',):
                for trash in TRASH if data == 'dir' else ('none',):
                    for link in ('', 'same', 'other'):
                        for ok in (None, True, False):
                            for rel in (False, True) if link else (False,):
                                if n is None or (ok is None and not rel):
                                    yield {'data': data, 'obj': obj, 'trash': trash, 'runs': [[link, ok, n], [link, None, None]], 'rel': rel, 'notrash': n is None and obj == 'none' and trash == 'none' and ok is True}
    while True:
        data = rng.choice(DATA + ('dir',) * 3)
        yield {'data': data, 'obj': rng.choice(OBJ) if data == 'dir' else 'none', 'trash': rng.choice(TRASH) if data == 'dir' else 'none',
               'rel': rng.random() < .3, 'notrash': rng.random() < .2, 'default': rng.random() < .3,
               'runs': [[rng.choice(['', 'same', 'other', 'same']), rng.choice([None, None, True, False]), rng.choice([None, None, 1, 2, 3])]
                        for _ in range(rng.randint(1, 5))]}


def put(p, kind, place):
    if kind in ('dir', 'full'):
        os.mkdir(p)
    if kind == 'full':
        with open(p + '/object', 'w') as f:
            f.write('data')
    if kind == 'file':
        with open(p, 'w') as f:
            f.write('file')
    if kind in ('same', 'other', 'broken'):
        os.symlink(place[kind], p)


def state(p):
    if os.path.islink(p):
        return 'link', os.path.realpath(p)
    if os.path.isdir(p):
        return 'dir', {x: open(p + '/' + x).read() for x in os.listdir(p) if os.path.isfile(p + '/' + x)}
    if os.path.exists(p):
        return 'file', open(p).read()
    return 'none', None


def run(c):
    w = env.World()
    w.anchor()
    root = w.base + '/root'
    dd = f'{root}/{w.CacheT._local_data_dir}'
    guard.rmtree(dd)
    tp = dd + ('/not/there' if c.get('faraway') else '/trash')
    if c['notrash']:
        def notrash(self):
            raise NotImplementedError('none')
        w.CacheT.trash = property(notrash)
    else:
        w.CacheT.trash = property(lambda self: self.local_data_dir / tp)
    place = {'same': w.base + '/elsewhere', 'other': w.base + '/third', 'broken': w.base + '/nothing'}
    for k in ('same', 'other'):
        os.mkdir(place[k])
        with open(place[k] + '/object', 'w') as f:
            f.write(k)
    if c['data'] != 'none':
        put(dd, c['data'], place)
    put(dd + '/objects', c['obj'], place)
    put(tp, c['trash'], place)
    cache = w.LocalT(root).cache
    oid = ('an-id', 'n:b', 'ä b')[len(c['runs'][0][0]) % 3]
    w.add(oid, 'f', 'root-id')
    f = w.put('f', oid, data=b'x').cache
    places = {str(x): y for x, y in ((cache.local_data_dir, dd), (f.local_data_dir, dd), (f.local_objects_dir, dd + '/objects'),
                                     (f.local_object_cache_path, dd + '/objects/' + f.cache_key), (cache.local_object_cache_path, dd + '/objects/root-id'))}
    if any(x != y for x, y in places.items()) or os.path.basename(dd) not in w.CacheT.cache_ignore:
        return f'{c}: places are {places}'
    for link, ok, n in c['runs']:
        b = {k: state(p) for k, p in (('data', dd), ('objects', dd + '/objects'), ('trash', tp))}
        kw = {}
        if ok is not None:
            kw['exist_ok'] = ok
        if link:
            t = os.path.relpath(place[link]) if c['rel'] else place[link]
            if c.get('dots'):
                t = place['other'] + '/../' + os.path.basename(t)
            kw['symlink_objects_to'] = w.LocalT(t)
        err = None
        with guard.fault(n) as inj:
            try:
                cache.local_data_dir_init(**kw)
            except (OSError, KeyboardInterrupt) as e:
                err = e
        a = {k: state(p) for k, p in (('data', dd), ('objects', dd + '/objects'), ('trash', tp))}
        for k in ('same', 'other'):
            if state(place[k])[1] != {'object': k}:
                return f'{c}: the objects behind the link are {state(place[k])}'
        for k in ('objects', 'trash'):
            if b[k][0] != 'none' and a[k] != b[k] and not (k == 'objects' and b[k] == ('dir', {}) and link):
                return f'{c}: {k} was {b[k]}, is {a[k]}'
        hit = n is not None and inj['count'] >= n
        if err is None:
            if ok is False and b['data'][0] != 'none':
                return f'{c}: not refused though it exists'
            if a['data'][0] != 'dir':
                return f'{c}: no directory'
            if link:
                # a relative path for the link is relative to where the link is
                if a['objects'][0] != 'link' or (not c['rel'] and a['objects'][1] != os.path.realpath(place[link])):
                    return f'{c}: asked for a link to {link}, objects are {a["objects"]}'
            elif not os.path.isdir(dd + '/objects'):
                return f'{c}: objects are {a["objects"]}'
            if (a['trash'][0] == 'dir') == c['notrash'] and not (c['notrash'] and b['trash'][0] == 'dir'):
                return f'{c}: trash is {a["trash"]}'
        elif not hit:
            bad = (b['data'][0] == 'file' or (b['data'][0] == 'dir' and ok is False) or b['objects'][0] == 'file'
                   or b['objects'][0] == 'link' and not os.path.exists(b['objects'][1])
                   or (link and (b['objects'][0] == 'dir' and b['objects'][1] or b['objects'][0] == 'link'
                                 and (c['rel'] or b['objects'][1] != os.path.realpath(place[link]))))
                   or c.get('faraway')
                   or (b['trash'][0] == 'file' and not c['notrash']))
            if not bad:
                return f'{c}: {err!r} from {b}'
