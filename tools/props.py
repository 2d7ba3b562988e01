"""The property table: properties.jsonl and MANIFEST.json are generated from it (tools/gen.py)."""
P = []


def p(id, title, statement, over, qtext, why, files, mech, note='', state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, note=note, state=state, observe=observe))


p('P27', 'Existence tests hide only the errors that mean there is no such path',
  'Asking whether a path exists, is a file, is a directory or is a symbolic link gives the true answer when the '
  'file system can be consulted, and false when consulting it fails because no such path can exist or the path is a '
  'symlink that stores data (missing, not a directory, bad descriptor, link loop). Any other failure, such as '
  'permission denied or an I/O error, is raised to the caller unchanged and never reported as absence. A broken link is '
  'a link that does not exist, by the same rules.',
  ['inputs', 'fault_sequences'], 'every path, every outcome of the underlying stat and every errno it can fail with',
  'tests meet a handful of paths and no failing stat; absence reported for an unreadable file makes callers overwrite it',
  ['augpathlib/core.py'],
  [('exists/is_file/is_dir/is_symlink wrappers', 'AugmentedPath in augpathlib/core.py'),
   ('the set of ignored errors', '_ignore_error in augpathlib/core.py')])

p('P01', 'Metadata written as a symlink reads back unchanged, or writing it is refused',
  'For every metadata record whose values are in the domain of the format, encoding it as a symlink target (with or '
  'without the name of the file prepended) and reading that link back gives an equal record: every field, including '
  'text containing dots and slashes, timestamps to the microsecond with their offset if any, checksums, etags and errors. A '
  'value that has no representation is refused with ValueError when it is encoded; it never comes back as something '
  'else. Links written in every earlier format (meta, mdv1 to mdv6) still decode, each field from its own position. A '
  'link that names a file other than the one it is found at is refused.',
  ['inputs'], 'every field value, every text (unbounded, any characters), every published format version, every link name',
  'tests encode a few fixed records; a separator or escape in one field silently shifts or changes another',
  ['augpathlib/meta.py'],
  [('symlink codec: encode, decode, as_symlink, from_symlink, from_parts and the version tables',
    '_PathMetaAsSymlink in augpathlib/meta.py'),
   ('textual encoders per field', '_EncodeByField in augpathlib/meta.py'),
   ('deferred timestamp parsing', 'PathMeta.created/updated in augpathlib/meta.py')],
  note='domain: ids are non-empty text, file ids are non-zero, a textual user id is not a numeral')

p('P02', 'Metadata stored as extended attributes or metastore blobs reads back unchanged',
  'For every metadata record and every prefix, the dictionary of extended attributes written for it has exactly one '
  'entry, of bytes, under the prefix, for each field that has a non-empty value, and reading it back with the same '
  'prefix gives an equal record, no matter which foreign attributes (other prefixes, same names) are present; an unknown attribute under the '
  'prefix changes no field. A '
  'metastore blob reads back to an equal record. Empty values are refused by the field encoder, and timestamps stored '
  'in the legacy packed form still decode.',
  ['inputs'], 'every field value, prefix and set of foreign attributes',
  'tests use a few fixed records; type is discarded by xattrs so each field needs its own inverse',
  ['augpathlib/meta.py'],
  [('xattr codec', '_PathMetaAsXattrs in augpathlib/meta.py'), ('byte encoders', '_EncodeByFieldBytes in augpathlib/meta.py'),
   ('metastore blobs', 'PathMeta.as_metastore/from_metastore in augpathlib/meta.py')],
  note='domain: errors are non-empty and free of ";", a textual user id is not a numeral')
p('P03', 'A metadata record is a value: equality, copies and item access follow its fields',
  'Two metadata records are equal exactly when all their fields are (including values the class does not know), '
  'whether their timestamps were given as text or as times and whether those were already parsed. Copying and pickling '
  'give an equal record with every field and unknown value. Indexing by a field name gives the value of the field and '
  'an unknown name raises KeyError; its names are the fields, each once. A size is a number of bytes that knows its '
  'megabytes. A record is true exactly when some field has a value. An id that is not text is '
  'refused with TypeError. Content is different when both checksums are known and differ, otherwise when the size '
  'differs or the other record is known to have been updated later.',
  ['inputs'], 'every pair of records, every presence of every field, timestamps as text or time',
  'tests compare a few records built the same way; state left by deferred parsing made equal records unequal',
  ['augpathlib/meta.py'], [('the value class', 'PathMeta in augpathlib/meta.py')])

p('P04', 'Merging metadata keeps what is known and notices changed content',
  'Merging a new metadata record into an old one marks the content as different exactly when the creation time, update '
  'time, size, checksum or file id is known in both and differs. In the result every field with a new value has the new '
  'value; a field without a new value keeps the old one if the content is the same and is dropped if it is different '
  '(recorded errors are always kept). If the id changed, the old id is recorded, unless the new record brings its own. '
  'Neither input is altered, and merging with an absent or empty record gives the other one.',
  ['inputs'], 'every pair of records, every presence of every field',
  'tests merge a few pairs; a field dropped or kept wrongly corrupts later comparisons only much later',
  ['augpathlib/caches.py'], [('the merge', 'PrimaryCache._update_meta in augpathlib/caches.py'),
                             ('record items', 'PathMeta.items in augpathlib/meta.py')])
p('P05', 'Replacing a file by a newer remote version never loses local data',
  'When updating the metadata of a cached file finds different content, the local file is replaced only if it has no '
  'local changes, or its content already is the new one; otherwise LocalChangesError is raised and nothing on disk '
  'changes. Before new metadata or data is written the old file, with its metadata, is moved to the trash. If storing '
  'the metadata or fetching fails in any way, including exceptions outside Exception, the old file with its metadata is '
  'back at its path and that failure is raised. The new data is fetched whatever its size. A file whose content is not '
  'different is never moved or fetched. Trashing (crumple) moves the file to the path it returns, making the trash '
  'directory if needed, uses a short name only if the name was too long, and moves nothing if it fails.',
  ['inputs', 'fault_sequences'], 'every combination of local state, remote change and point of failure',
  'the loss shows only if a step fails at a particular point, or with a particular combination of local and remote change',
  ['augpathlib/caches.py'], [('update of cached metadata', 'PrimaryCache._meta_updater in augpathlib/caches.py'),
                             ('trashing', '_CachePath.crumple in augpathlib/caches.py')],
  note='assumes the trash and the file are on one file system (rename is one step)')
p('P06', 'A metadata link is replaced only by newer metadata and never lost',
  'Storing metadata as a symlink never writes over an existing file or directory (PathExistsError). Where there is a '
  'link already, equal metadata changes nothing; a record with another id replaces it only if it was updated later, or '
  'updated at the same time and created later; and a record without a size never replaces one that has a size. '
  'Otherwise the link is kept unchanged; records of different ids with equal update times of which only the new one has '
  'a creation time raise MetadataIdMismatchError. A replaced link is kept in the trash. The new link carries the name of '
  'the file. Metadata is read only from a link that does not resolve; a link to an existing file raises PathExistsError '
  'and no link raises NoCachedMetadataError.',
  ['inputs', 'fault_sequences'], 'every pair of records in every order of their times, every state of the path and trash, every failing call',
  'the decision has a dozen cases over missing and equal timestamps of which tests touch a few',
  ['augpathlib/caches.py'], [('link store', 'SymlinkCache in augpathlib/caches.py')])
p('P07', 'Moving a cached file never destroys another file',
  'Moving a cached file, directory or metadata link to another path: if something that belongs to another id, or that '
  'has no metadata, is at the target the move is refused with an error and nothing changes on disk. Otherwise afterwards '
  'the data, or for a link its metadata merged into the target, is at the target and no longer at the old path, missing '
  'parents are made, and the cache for the target is returned. If the move itself fails the file is still at its old '
  'path and a metadata link at the target is still there; no temporary name is left. Moving a path onto itself changes '
  'nothing and missing arguments are refused with TypeError.',
  ['inputs', 'fault_sequences'], 'every kind of source and target, every id, every failing file system call',
  'tests move a few files onto free or matching targets without failures',
  ['augpathlib/caches.py'], [('move', '_CachePath.move in augpathlib/caches.py')],
  note='at most one step fails; a data file already at the target with the same id is replaced')
p('P08', 'Fetched data has the recorded size, and checksum mismatches are recorded',
  'Fetching a cached file or metadata link gets its data exactly when the recorded size is below the limit, or there is '
  'no limit; otherwise nothing changes. Afterwards a link has become a file that carries the metadata it had. A fetch '
  'reports success only if the local file has exactly the recorded size. If the record has a checksum that differs from '
  'the checksum of the local data, computed with the recorded cypher if there is one, the error checksum-mismatch is '
  'added once to the recorded errors and no other field changes; otherwise the metadata is unchanged. A directory is '
  'refused, missing metadata raises NoCachedMetadataError, and a record without file id is refreshed with its data '
  'instead. Validating a file without a recorded etag records a checksum mismatch in the same way, also when validated again, raises SizeError if '
  'there is no checksum and the size differs, and changes nothing else. An unknown cypher is refused.',
  ['inputs'], 'every presence, agreement and disagreement of size, checksum, etag, errors and limit',
  'tests fetch intact files; the failure shows only with damaged or oddly described data, which is when it matters',
  ['augpathlib/caches.py'], [('fetch', '_CachePath.fetch in augpathlib/caches.py'),
                             ('validation', '_CachePath.validate_file and _instance_cypher in augpathlib/caches.py')],
  note='an etag mismatch is only logged by the code and is not covered; a fetch of unknown size without limit raises ValueError')
p('P09', 'A multipart etag depends only on the data and the chunk size',
  'For every chunk size of at least one byte and every way of cutting the data into updates, the digest of an etag is the '
  'md5 of the md5s of the consecutive parts of chunk size bytes (the last one possibly shorter), with the number of those '
  'parts; no data gives the md5 of nothing and zero parts. Asking for the digest, at any time and any number of times, '
  'does not change later results. The hexadecimal form is the digest, a dash and the number. The etag of a local file is '
  'the etag of its data however the file is read, and what is not a file has none.',
  ['inputs', 'histories'], 'every chunk size, data, cut of the data into updates, and interleaved digest',
  'off-by-one errors show only where cuts, reads and chunk size coincide; a wrong etag makes intact data look corrupt',
  ['augpathlib/utils.py', 'augpathlib/core.py'],
  [('the etag accumulator', 'etag in augpathlib/utils.py'), ('etag of a file', 'LocalPath.etag in augpathlib/core.py')])
p('P10', 'Data read, written and copied is exactly the data there is',
  'Reading the data of a local file yields all of its bytes, in order, in non-empty chunks. Reading ranges yields, for any '
  'number of ranges and any chunk size, the bytes of each range in turn, cut off at the end of the file; a range without '
  'end goes to the end and a negative start counts from the end. Writing stores exactly the bytes of the source and keeps '
  'the metadata of the file; a filtering write also passes them on, and appends if asked to. A source that fails before '
  'its first chunk leaves the file alone and no failure of source or disk goes unreported. Copying gives a file with the '
  'same bytes, never writes over something that exists, also a broken link, unless forced, and never onto itself.',
  ['inputs', 'fault_sequences'], 'every size, chunk size, set of ranges, chunking and failure of the source, state of the target',
  'whole classes of lengths (multiples of the chunk size, empty data) behave differently from the samples in the tests',
  ['augpathlib/core.py'], [('reading', 'LocalPath.data and LocalPath._data in augpathlib/core.py'),
                           ('writing', 'LocalPath.data setter, _write_chunks and _data_setter in augpathlib/core.py'),
                           ('copying', 'AugmentedPath.copy_* and LocalPath.copy_* in augpathlib/core.py')],
  note='ranges with 0 <= start <= end, or start < 0 within the file and end <= 0')
p('P11', 'A checksum is the digest of all the data by the right cypher',
  'The checksum of a local file is the digest of exactly its data: by the cypher given, or, if none is '
  'given, by that of its cache class, or of the path class, and otherwise by the default one. With extra cyphers the '
  'result is a tuple of that digest followed by one digest of the same data for each extra cypher, in order. A failing '
  'read is reported and never gives a checksum; what is not a file has no checksum.',
  ['inputs'], 'every data, chunking, cypher given and configured, any number of extra cyphers',
  'tests compare the checksum with itself; a digest of part of the data or by another cypher still looks like a checksum',
  ['augpathlib/core.py'], [('checksum', 'AugmentedPath.checksum in augpathlib/core.py')])
p('P12', 'Metadata of a local file describes the file as it is now',
  'Whenever the metadata of a local file is asked for, in any order of asking with or without checksum or etag and of '
  'changes to the file in between, it has the size, times, inode, owner, group and mode the file has now, its name, id and '
  'parent id, and at least what was asked for: the checksum, by the cypher of the cache class or the default one, which is '
  'named, and the etag for the chunk size given. A checksum or etag in it is that of the data there is now, also after an '
  'earlier request failed. The size property is the size now. A path that does not exist has only a name and an id. Local '
  'metadata cannot be set. Whether local content differs from the cache is decided by the recorded checksum if there is '
  'one and otherwise by the data of the cache.',
  ['inputs', 'histories'], 'every state of the file before and after, every order of requests',
  'a stale cached record shows only after a particular sequence of requests and changes, and then damage goes unnoticed',
  ['augpathlib/core.py'], [('local metadata', 'LocalPath._meta_maker, meta, meta_no_checksum, size in augpathlib/core.py'),
                           ('comparison', 'LocalPath.content_different in augpathlib/core.py')],
  note='a change of a file is assumed to change its modification or status change time, and a file not to change during a request')
p('P13', 'Recursive removal refuses dangerous paths and stays inside its tree',
  'rmtree refuses, with WillNotRemovePathError and without removing anything, every relative path, and, unless DANGERZONE '
  'is exactly True, every path of at most two parts, every path of at most three parts one of which is home, and the '
  'current directory, also when it is met inside the tree or errors are ignored. Otherwise a file or a link to a file is '
  'removed itself, and a directory with everything below it: links below it are removed but never followed, nothing '
  'outside of the tree is touched, and a link to a directory is refused with OSError. A failure is raised, or with '
  'onerror reported to it with the function (rmdir or unlink) and path that failed and the exception info, or with '
  'ignore_errors neither. For a repository that is open, it is closed and forgotten first.',
  ['inputs', 'fault_sequences'], 'every path, tree, option and failing call',
  'removal outside of the tree is the worst that can happen and no test dares to try it',
  ['augpathlib/core.py', 'augpathlib/repo.py'],
  [('removal', 'AugmentedPath.rmtree in augpathlib/core.py'), ('removal of repositories', 'RepoPath.rmtree in augpathlib/repo.py')],
  note='paths are judged as written: dots and links in them are not resolved; nobody changes the tree during the removal')
p('P14', 'Removing empty directory trees removes exactly what is empty',
  'rmdirtree removes exactly the directories, at and below its path, that hold nothing but such directories themselves. '
  'Files, links and every directory with a file or link somewhere below it stay, links are not followed and a path that '
  'is itself a link is refused with NotADirectoryError. Something that is not a directory is left alone. A failing '
  'removal is raised, and then still nothing but empty directories is gone.',
  ['inputs', 'fault_sequences'], 'every directory tree and every failing removal',
  'tests try one or two trees; which siblings are empty, full or visited in which order makes the difference',
  ['augpathlib/core.py'], [('removal of empty directories', 'AugmentedPath.rmdirtree in augpathlib/core.py')],
  note='only the variant for python 3.12 and later can run here; nobody else changes the tree')
p('P15', 'Swapping two paths is all or nothing',
  'swap exchanges what is at two existing paths on one device by one atomic renameat2 exchange, or fails with nothing '
  'changed: with FileNotFoundError if one does not exist, with ValueError for different devices, with the error of the '
  'exchange otherwise; relative paths are relative to the current directory. swap_carefree does the same, and where the '
  'atomic swap fails renames by way of a temporary directory. Whatever kind of things they are and '
  'whichever single step fails, afterwards either both are swapped or both are where they were, nothing is overwritten, '
  'the temporary directory is gone (unless its removal is what failed) and a failure other than that of the atomic swap '
  'is reported.',
  ['inputs', 'fault_sequences'], 'every existence, device and single failing step, by an error of any kind',
  'the steps that put things back run only when a rename fails in the middle, which tests do not provoke',
  ['augpathlib/core.py', 'augpathlib/swap.py'],
  [('swap', 'AugmentedPath.swap and swap_carefree in augpathlib/core.py'), ('the system call', 'swap_linux in augpathlib/swap.py')],
  note='at most one step fails, a missing path counting as one')
p('P16', 'with, pushd and popd lead back to where one came from',
  'A with statement on a path or cache that is a directory changes to it, and at its end, also by an error, which is not '
  'swallowed, changes back to the directory that was current at its start, whatever happened in between: other directory '
  'changes, the directory removed, the same path object used again inside. On anything else a with statement changes no '
  'directory. pushd changes to a directory and puts the one left on the stack; popd takes the entry counted from the top '
  'off the stack and changes to it, and an empty stack changes nothing. A failing change is raised (NotADirectoryError '
  'for pushd to what is no directory, IndexError for popd of no entry) with current directory and stack as before.',
  ['inputs', 'histories', 'fault_sequences'], 'every nesting of uses and every failing change of directory',
  'tests use one with statement at a time; going back to the wrong place makes later relative operations hit other files',
  ['augpathlib/core.py', 'augpathlib/caches.py'],
  [('with', 'AugmentedPath.__enter__, _enter, __exit__ in augpathlib/core.py, _CachePath.__enter__ in augpathlib/caches.py'),
   ('stack', 'AugmentedPath.pushd, popd, chdir in augpathlib/core.py')],
  note='the lists of places to go back to are proved for up to 2 outer uses and 3 stack entries; the code treats longer ones alike')
p('P18', 'A path is sparse exactly when it or a directory above it is marked',
  'For every absolute path that exists, asking whether it is sparse gives true exactly when that path or some directory '
  'above it, other than the root of the file system, carries the sparse mark, at any depth and for local paths and caches '
  'alike. Marking a path and clearing its mark change the mark of that path and nothing else; clearing what is not marked '
  'is no error. A mark that cannot be read is reported as the error that happened, never taken for absent or present.',
  ['inputs', 'histories', 'fault_sequences'], 'every chain of directories, every set of marks, every failing read',
  'tests mark one directory and look one level below; depth, caches and failing reads are not sampled',
  ['augpathlib/core.py'], [('the search for the nearest mark', 'EatPath._sparse_root and is_sparse in augpathlib/core.py'),
                           ('marking', 'EatPath._mark_sparse and _clear_sparse in augpathlib/core.py')],
  note='the marker file variant of caches without extended attributes is not covered (it answers true always)')

p('P23', 'Extended attributes read back as stored, only absence is reported as absence',
  'A value stored as an extended attribute of a path is what is read back from and listed for that path under that name '
  'and namespace (the user namespace when none is given), and no other attribute is changed by storing or deleting. '
  'Reading an attribute that is not there raises NoStreamError; deleting it is no error unless asked to fail. Every other '
  'failure is raised to the caller as it happened and never becomes an answer; listing a missing path raises '
  'FileNotFoundError. A value that is not bytes is refused with TypeError before anything is stored. Storing several '
  'attributes stores each of them.',
  ['inputs', 'histories', 'fault_sequences'], 'every name, value, namespace, dictionary and errno',
  'tests store two attributes; the branches on errno are never taken except for the common one',
  ['augpathlib/core.py'], [('the accessors', 'XattrHelper in augpathlib/core.py')])

p('P31', 'The parts of a remote object are the names from the anchor down to it',
  'For every object of a remote tree the parts of its path are the names of the objects between the anchor and it, '
  'outermost first and ending with its own, at any depth; the anchor itself has none. The parts do not depend on whether '
  'the object or the objects above it have a local cache, nor on names occurring more than once on the way, including '
  'the name of the root. The cache made for a remote object lies at exactly that path below the local anchor and '
  'carries the id of the object.',
  ['inputs'], 'every remote tree, every depth, every coincidence of names, every subset of cached objects',
  'tests use trees of depth one or two with distinct names; the branch for cached parents stopped at the first equal name',
  ['augpathlib/remotes.py', 'augpathlib/caches.py'],
  [('parts of a remote object', 'RemotePath.parts, as_path and _parts_relative_to in augpathlib/remotes.py'),
   ('the cache of a remote object', 'CachePath.__truediv__ and _make_child in augpathlib/caches.py')],
  note='names are single path components; local directories below the anchor mirror the remote tree; the location of the cache '
       'made (pathlib internals) is checked on concrete trees only')

p('P24', 'Anchoring binds one cache of the right root and never moves an anchor',
  'A remote class has at most one anchor. Anchoring a class that is anchored is refused (RemoteAlreadyAnchoredError or '
  'ValueError; smartAnchor returns the anchor if it is the same place) and changes neither the anchor nor the disk. Only a '
  'cache with the id of the root becomes the anchor; a cache of another root is refused with ValueError, however it is '
  'reached. dropAnchor makes the directory named like the root and its cache when there is none, gives an empty '
  'directory a cache, and refuses a directory with something in it, an existing cache, and a root that is not a '
  'directory, each with its own error and without making anything. Failing to anchor leaves the class without anchor and '
  'the failure is raised. The same holds for the anchor of a cache class. Weighing forgets the anchor. '
  '_new gives a class bound both ways to a local and a cache class, neither anchored; init binds an api and its root once.',
  ['inputs', 'histories', 'fault_sequences'], 'every state of both classes and of the directory, every history of anchoring and weighing, every failing step',
  'tests anchor once to a fresh directory; wrong roots, second anchors and failures half way are not sampled',
  ['augpathlib/remotes.py', 'augpathlib/caches.py', 'augpathlib/core.py'],
  [('anchoring a remote class', 'RemotePath._new, init, anchorToCache, anchorTo, dropAnchor, smartAnchor and weighAnchor in augpathlib/remotes.py'),
   ('anchoring a cache class', '_CachePath.anchorClassHere and weighAnchor in augpathlib/caches.py'),
   ('making the cache of the anchor', 'LocalPath.cache_init in augpathlib/core.py')])

p('P26', 'Bootstrap sets up what the filters let through, once, ends, and leaves no state',
  'Bootstrapping from a PathMeta without id is refused (BootstrappingError). With only, skip or sparse given, the root '
  '(_meta_is_root) is always set up; any other object whose id is in skip is not touched, also when it is in only, and '
  'neither is one that is not in a non-empty only. What has metadata already is not bootstrapped again unless recursive; '
  'with the same id its metadata is updated, else it is set up once. Refusing and leaving out touch nothing; by default nothing below, no directory above, no data. A recursive '
  'bootstrap ends, whatever is in the local directories; it returns one cache for every object below the remote, at its '
  'path and after the directory it is in, then the cache itself; in a sparse object only the files the remote includes; only and skip are about the object bootstrapped, not those below; '
  'caches that exist are kept, and a file that is here under another name and unchanged gets no second cache. Local '
  'directories gone from the remote are refreshed, untracked ones left alone. No bootstrap state stays on the cache, also '
  'after a failure, and a directory is marked sparse exactly when it is named in sparse.',
  ['inputs', 'histories'], 'every combination of filters and states, trees of any size (local directories that are not remote: bounded)',
  'no test bootstraps with filters, and none recursively into a directory with other things in it',
  ['augpathlib/caches.py'], [('bootstrap', '_CachePath.bootstrap, _bootstrap, _bootstrap_recursive, _bootstrap_prepare_filesystem in augpathlib/caches.py')],
  note='what a sparse list means for the root, and for objects it does not name, is left to the remote')

p('P29', 'Listings leave out only the names the cache ignores, and only at the anchor',
  'children of a local directory yields every entry of it exactly once, with one exception: at the local anchor of its '
  'cache the entries whose whole name is in cache_ignore are left out. Names that merely begin like an ignored name, and '
  'ignored names anywhere below, are listed. What is not a directory has no children. rchildren yields everything below '
  'exactly once; at the anchor the ignored entries are left out together with what is in them. skip_cache of a path '
  'without a cache is true exactly when the first part of its path below the root of the cache is in cache_ignore. '
  'children and rchildren of a cache yield exactly one cache, with the right id at the right place, for every child of, '
  'or object below, its remote.',
  ['inputs'], 'every directory, every name, anchored or not, at the anchor or not',
  'tests list one directory without cache and check that the result is not empty',
  ['augpathlib/core.py', 'augpathlib/caches.py'],
  [('local listings', 'LocalPath.children, rchildren, skip_cache in augpathlib/core.py'),
   ('listings of a cache', 'PrimaryCache.children and rchildren in augpathlib/caches.py')],
  note='symbolic links to directories below the anchor are not part of the statement on rchildren')

p('P22', 'Paths into a zip file show exactly its members and their bytes',
  'For every zip file the paths that exist in it are its members and the directories these are in, up to the top, which '
  'exists also when the file is empty; everything else does not exist and is no directory. A path is a directory unless '
  'it is a member that is a file; of members of the same name the last counts. children yields exactly the paths directly '
  'in a path, rchildren exactly those below, each once, and the paths of ZipPath.rchildren lead to the same members. '
  'Opening and reading a member yields exactly its bytes, also while other reads, also of the same member, are under way; '
  'opening or reading a directory raises IsADirectoryError, what is not there FileNotFoundError. The zip file of a path '
  'is the nearest of itself and the paths above it that is a zip file, whatever its name; what is in no zip file is '
  'treated as an ordinary path. What a relative path shows depends on the zip file it leads to now.',
  ['inputs', 'histories'], 'every table of members and every path (the table made from a zip file: bounded), every member length',
  'the one test compares two ways of reading one member of one file',
  ['augpathlib/zip.py'], [('inside a zip file', 'ZipInternalPath in augpathlib/zip.py'), ('from outside', 'ZipHelper and ZipPath in augpathlib/zip.py')],
  note='member names are relative and normal, no name is both a file and a directory, and the zip file does not change')

p('P19', 'A path belongs to the nearest repository, and none is made inside another',
  'The working_dir of a path is the absolute path of the nearest of itself and the directories above it that has a .git, '
  'directory or file, and None if there is none, however the path is written. repo is the repository there, the same '
  'object every time until it is removed; NotInRepoError if there is none. repo_relative_path leads from the working '
  'directory to the path. init on a path in a repository, there or not, raises RepoExistsError and changes nothing; '
  'otherwise it makes, or clones from the remote with the depth given (by default all), exactly one repository at exactly that path, which '
  'is what repo gives from then on; if that fails the failure is raised and nothing is kept. clone_from makes the clone in '
  'the child that is named like git names it. rmtree closes and forgets the repository and removes the tree as asked for.',
  ['inputs', 'histories'], 'every path, every set of repositories, every history (that the recursion ends, and clone_path: bounded)',
  'tests make one repository in an empty directory',
  ['augpathlib/repo.py'], [('the repository of a path', 'RepoHelper.working_dir, repo, repo_relative_path in augpathlib/repo.py'),
                           ('making and removing', 'RepoHelper.init, clone_path, clone_from, RepoPath.rmtree in augpathlib/repo.py')],
  note='paths without .. components')

p('P20', 'Leaving for another reference, and committing one path, lose no uncommitted work',
  'Entering a reference with `with` stashes everything uncommitted, tracked or not, ignored or not, and checks out the '
  'reference. On leaving, also by an exception, also after the block checked out something else or entered the same '
  'reference itself, the branch is checked out again, what was uncommitted is back, the stashes '
  'that were there are there, and what the block left uncommitted is one stash on top of them. An invalid reference raises '
  'InvalidRefError and a detached HEAD TypeError before anything changes; if the checkout fails all is as it was. '
  'getRef gives a reference of exactly that name or raises ValueError. '
  'commit makes one commit on the branch, with the message and date given, that contains the path as it is in the '
  'working tree if it is tracked, also when it was deleted, and nothing else; the first commit is the index. Afterwards, '
  'also when committing fails, the working tree and the stashes are as they were. add_index adds the path alone; '
  'commit_from_working_tree adds it and commits it.',
  ['inputs', 'histories', 'fault_sequences'], 'every combination of committed, staged, unstaged, untracked and ignored changes, every failing step of git',
  'tests enter one branch with one untracked file, and commit in a repository without other changes',
  ['augpathlib/repo.py', 'augpathlib/repo_patch.py'],
  [('entering and leaving', '_Reference.__enter__ and __exit__ in augpathlib/repo_patch.py'),
   ('committing', 'RepoHelper.commit, add_index, commit_from_working_tree in augpathlib/repo.py')],
  note='the block neither stashes nor switches; no path is deleted in the index and there in the working tree')

p('P32', 'Versions and changes of a path are exactly those git has',
  'show yields exactly the bytes the path has in the commit, in the index (no reference), or in the working tree (None), '
  'newlines at the end and bytes that are not text included. modified, indexed and has_uncommitted_changes give a diff '
  'of the path from the former to the latter exactly if index and working tree, HEAD and index, or HEAD and working tree '
  'differ in it, else None. diff does so for any two of working tree (None), index (empty) and commits, by default index '
  'and working tree, from the second argument to the first, but always to the working tree; with the patch if asked for. All of them raise FileNotFoundError for a path that is not there. commits yields the '
  'commits that touch the path from the revision, newest first, at most max_count; latest_commit the first of them, '
  'NoCommitsForFile if there is none.',
  ['inputs', 'histories'], 'every pair of versions, every content, every answer of git',
  'tests show one byte and compare two commits',
  ['augpathlib/repo.py'], [('versions', 'RepoHelper.show, commits, latest_commit in augpathlib/repo.py'),
                           ('changes', 'RepoHelper.diff, _do_diff, modified, indexed, has_uncommitted_changes in augpathlib/repo.py')],
  note='file names without the wildcards of git pathspecs')

p('P21', 'The next version is later than the one it follows, and of the phase asked for',
  'For every version and phase next_version gives a version that is later (PEP 440), in the same epoch, with as many '
  'release parts, or refuses. Only the release part asked for is one more, the parts after it 0; from a dev or pre '
  'version to a later phase the release stays. The result is of the phase asked for and of no other: dev, a, b, rc or post count '
  'from 0 or one more than the last; by default it is the same phase; pre goes from dev to a, b, rc. Refused with ValueError are unknown phases, dev from a '
  'pre version, a pre phase before the current one, and post of what is not a release; with TypeError counting up a local '
  'version; with IndexError a release part the version has not. version_next follows the latest release on PyPI, refuses '
  'if that is not the greatest, and is the version of the repository if there is none.',
  ['inputs'], 'every version with up to 5 release parts, every value, every phase and release part',
  'there is no test of versions',
  ['augpathlib/package.py'], [('the next version', 'next_version, logic, cons_next, vinc, current_state in augpathlib/package.py'),
                              ('what it follows', 'PackagePath.version_next in augpathlib/package.py')])

p('P33', 'A package is found at the nearest setup.py, and its tags are its own',
  'The folder of a path, however it is written, is the nearest of itself and the directories above it that has a setup.py; '
  'ValueError if there is none. setup_file is the setup.py in it, arg_folder its path from the directory of the '
  'repository on, module the directory in it that is named like the package (NotImplementedError if the package has no '
  'such module). Tags have the name of the package as prefix exactly if the package is not at the top of the repository. '
  'tag is the nearest tag, and tag_latest_github the latest release, of the package itself: with a prefix the name, a dash '
  'and a version, without one a version, never a tag of another package whose name begins with, or contains, the name; None '
  'if there is none. The latest release is the greatest released version. version_tag and version_latest_github are the version in it. '
  'commits_since_last_release lists the commits after the tag (all, if there is none) that touch the files of the package, newest first.',
  ['inputs', 'histories'], 'every directory, every order of tags (names of packages: samples)',
  'there is no test of packages',
  ['augpathlib/package.py'], [('the package', 'PackagePath.folder, setup_file, arg_folder, module in augpathlib/package.py'),
                              ('its tags', 'PackagePath.tag_prefix, tag, version_tag, tag_latest_github, commits_since_last_release in augpathlib/package.py')])

p('P30', 'Metadata read from a path is what was stored there last, in every store',
  'The metadata of a path is that of its extended attributes if it exists and has any; of the target of the link if it is a '
  'link that leads nowhere; else that of the backup store, which is then stored on the path; and none if there is none. '
  'After metadata is set, exactly that record is read back (a field without value is no longer there, foreign '
  'attributes are untouched) and it is in the backup store too; for an absent path a directory or a link is made, an empty record '
  'changes nothing, and nothing is stored through a link. A failing read or write is raised, is never taken for absence of '
  'metadata, and leaves the backup store as it was.',
  ['inputs', 'histories', 'fault_sequences'], 'every record, every attribute name, every state of the path, every failing step',
  'tests store and read a few records on healthy files',
  ['augpathlib/caches.py', 'augpathlib/meta.py'],
  [('the stores', 'PrimaryCache._meta_impl, _meta_setter, _bootstrap, id; XattrCache._meta, _set_xattrs; SymlinkCache in augpathlib/caches.py'),
   ('attributes', 'PathMeta.from_xattrs, as_xattrs in augpathlib/meta.py')])

p('P34', 'A remote object has one cache, made, bound and updated as a unit',
  'Updating the cache of a remote object stores its current metadata first and then moves the file exactly if the name or the '
  'parent differ; if storing fails nothing is moved and the failure is raised. A cache may be handed over only to an object '
  'that has none, and only one of the same name and parent, else TypeError or ValueError and nothing changes. Making the cache '
  'gives the one at the place of the object, bound both ways, with its metadata (a directory needs those above it, '
  'which are made as caches if that is asked for); if that fails the object has no cache.',
  ['inputs', 'histories', 'fault_sequences'], 'every name, id, parent, state of the binding, every failing step',
  'tests update a small tree once; none hands over caches or lets steps fail',
  ['augpathlib/remotes.py', 'augpathlib/caches.py'],
  [('update and making', 'RemotePath.update_cache, cache_init, _cache_setter, cache, __new__, __init__ in augpathlib/remotes.py')],
  note='the plain directory that making the cache of a file may create has no metadata and is not claimed')

p('P25', 'What is asked of a remote machine by ssh is answered for exactly the path asked',
  'A remote path is the one it was made for, from its id, its text, its parts, another path and a name: a relative one starts at the anchor, '
  'and its id, name, parents and parts below another lead back to it. It is one word of every command sent for it, whatever characters other than line breaks are in its name, '
  'and no part of a name is run as a command. stat gives the numbers, mode, times and whole name that stat prints there; '
  'a path that is not there is FileNotFoundError and does not exist, one that may not be seen is PermissionError and '
  'never reported as absent. is_file and is_dir are true exactly for regular files, empty ones included, and directories. '
  'access is decided by the bits of the first class the user is in: owner, else group, else others. data yields all bytes '
  'in order, and a transfer that fails is an error, never shorter data. Output is taken only once the command has ended; '
  'a command too long for the terminal is refused and not sent.',
  ['inputs', 'fault_sequences'], 'every name, output, mode, owner and set of groups; transfers of any length, failing or not; prompts that are late',
  'tests need a machine to connect to and are skipped; names with shell characters, slow machines and failed transfers are never met',
  ['augpathlib/remotes.py', 'augpathlib/utils.py'],
  [('remote commands and transfers', 'SshRemote in augpathlib/remotes.py'), ('output of stat', 'StatResult in augpathlib/utils.py')],
  note='files born before 1970, names with line breaks, and children of a remote directory are not covered')

p('P35', 'The root of a cache is found from every path in it, however it is written',
  'find_cache_root gives the highest directory with metadata at or above the path, up to where metadata cannot be had or the '
  'root of the file system, which is never a root of a cache; None if there is none. It looks above the path as it is written '
  '(made absolute) first and then above what it leads to without links; from a link that leads nowhere it is what is found '
  'from the directory the link is in. With fail=True what cannot be known is raised, otherwise finding never fails.',
  ['inputs', 'configurations'], 'every path of any depth, every set of directories above it with metadata or without, absolute, relative, through links',
  'tests find the root from one or two paths of one small tree',
  ['augpathlib/core.py'], [('finding', 'LocalPath.find_cache_root in augpathlib/core.py')],
  note='paths whose .. lead out of the tree they are written in are not claimed')

p('P36', 'Local data is set up completely or refused, and stored objects are never lost',
  'After local_data_dir_init the directory for local data, the place for objects in it and the trash (unless there is to be '
  'none) exist, the place for objects as a link to symlink_objects_to if that was given; repeating the setup with the same '
  'arguments gives the same. What was there stays as it was, except that an empty directory for objects may be replaced by the '
  'link asked for: objects that are there, and a link to elsewhere, are refused with an OSError and kept. '
  'A failing step is raised as it is, and a later setup completes what is missing. An object is stored under its own key.',
  ['inputs', 'histories', 'fault_sequences'], 'every state of the directory and what is in it, all arguments, every failing step, then again',
  'tests set up an empty directory once',
  ['augpathlib/caches.py'], [('setup', 'local_data_dir_init, local_data_dir, local_objects_dir, local_object_cache_path in augpathlib/caches.py')],
  note='a relative symlink_objects_to is not claimed')

p('P37', 'Directories made for remote objects and remote ones for local paths correspond',
  'mkdir_cache makes every directory above the remote object that is missing below the anchor, highest first, each with the '
  'metadata of its own remote directory and bound to it, and leaves those that are there as they are. mkdir_remote makes the '
  'remote directory of the name, then the local one, with its metadata and bound to it; with parents=True all of those missing '
  'from the nearest directory with a cache on, each in the one above it. RemotePathExistsError if the remote is there already '
  'and FileNotFoundError if there is no cache to put it in, and then nothing is made; a failing step is raised as it is.',
  ['inputs', 'fault_sequences'], 'any number of levels, any of them there already, every failing step',
  'no test calls either with more than what a small fixture needs',
  ['augpathlib/core.py'], [('making', 'LocalPath.mkdir_cache, LocalPath.mkdir_remote in augpathlib/core.py')],
  note='what a failing step has made before it failed is not claimed')

p('P38', 'Web addresses of a file name its repository, the revision and the file',
  'For a clone of a repository at GitHub, in whichever form its address is given (git@, ssh, git or https, with or without .git '
  'or a slash at the end), remote_uri_human, remote_uri_machine and remote_uri_api name exactly group and repository, whatever '
  'dots are in their names. The first two also name the revision asked for, or the current branch if none or HEAD is, and the '
  'path of the file in the repository. For a clone of a local repository they are the addresses of the same file there; '
  'for any other host NotImplementedError, never an address at GitHub. It fails otherwise only if there is no such revision or no current branch.',
  ['inputs', 'configurations'], 'every revision and path of a file (text); forms of addresses and names of repositories: samples',
  'tests look at the address of one file of the repository itself',
  ['augpathlib/repo.py'], [('addresses', 'RepoPath._remote_helper, _remote_uri, remote_uri_human, remote_uri_machine, remote_uri_api in augpathlib/repo.py')],
  note='characters that would have to be quoted in an address are not claimed')


p('P39', 'A local path, its cache and its remote object lead to one another',
  'For every local path with stored metadata (a directory or file with attributes, or a link) its cache is at the same path, has the '
  'id stored there, and its local path leads back to that cache; its remote object has that id and leads back to the same cache; '
  'asked again, the same objects are given. A path without stored metadata has no cache (None), until it is initialised; any other '
  'failure to make a cache is raised. cache_init of an existing path without metadata stores the record or the id given and anchors '
  'only if asked to; of a path with metadata it raises CacheExistsError, of one that does not exist ValueError, and nothing changes. '
  'Refreshing a cache gives the answer of its remote object; if that is gone, the path is moved to the trash, named by its id, as it is. '
  'cache / name is the cache stored there or FileNotFoundError, cache / remote object the cache at its place, bound both ways; anything else TypeError.',
  ['inputs', 'histories'], 'every combination of what is bound, stored, anchored and failing; every sequence of asking again (up to three)',
  'tests walk from one path to its cache and remote in a fixed tree',
  ['augpathlib/caches.py', 'augpathlib/core.py', 'augpathlib/remotes.py'],
  [('local side', 'LocalPath.cache, remote, cache_init in augpathlib/core.py'),
   ('cache side', '_CachePath.local, id, remote, refresh, __truediv__, _make_child, _trashed_path in augpathlib/caches.py')],
  note='two ids that differ only in characters that are not safe for a file system share a place in the trash, as does a file trashed twice')


p('P40', 'Tables of metadata show every field that is known, a diff those of either record',
  'as_pretty prints one row for every field of the record that has a value and none for the others, with that value as text, in a fixed '
  'order of the fields. as_pretty_diff prints one row for every field that either of two records has, in the same order, the value of the '
  'first on the left and that of the second on the right, blank where it is not known, however few fields they have in common; the title is '
  'red exactly if their content is different. The title is the one given or the name of the path. Sizes are shown for people only '
  'if asked for, rounded in the largest unit of 1024 that fits.',
  ['inputs'], 'every two fields in any of two records of any number of fields; every kind of value',
  'tests print one record and look at nothing',
  ['augpathlib/meta.py', 'augpathlib/utils.py'],
  [('tables', '_PathMetaAsPretty.rows, encode, as_pretty and _PathMetaAsPrettyDiff.as_pretty_diff in augpathlib/meta.py'),
   ('sizes', 'FileSize.hr in augpathlib/utils.py')],
  note='line breaks in values and which text a value has (P01, P02) are not part of it; sizes are reals in the proof (rounding to 53 bits is not part of it)')


p('P41', 'The way between paths, the text of a link and access are told as they are',
  'For two absolute or two relative paths (without ..), commonpath is the deepest path that is, or is above, both. The way to one from '
  'the other is the same asked for either way round (relative_path_from, relative_path_to): a relative path that leads to the one from the '
  'directory the other is in (from the other itself if the one is it or below it), so that a link at the other with that text leads to '
  'the one, and that goes up only as far as what the two have in common. Between a relative and an absolute path there is none: ValueError. '
  'readlink gives exactly the text that is in the link, as a path or, if asked to, as text, wherever it leads, to nothing or itself included; '
  'what is no link is an OSError. access asks for exactly the kind of access named (read, write, execute), of what a link leads to unless '
  'told not to; anything else is refused with TypeError.',
  ['inputs'], 'every two paths with any number of names, every text of a link and answer of the system',
  'tests look at one pair of paths of equal depth',
  ['augpathlib/core.py'], [('ways', 'AugmentedPath.commonpath, to_relative, relative_path_to, relative_path_from in augpathlib/core.py'),
                           ('links and access', 'AugmentedPath.readlink, access in augpathlib/core.py')],
  note='os.path.commonpath and relative_to are assumed; the way as a whole is run for every two paths of up to three of two names')


NA = []
