HOW = {
 'P01': 'the codec is proved field by field over unknown text (segments under character maps), then whole records for unknown name and every field presence, then decoding for each published version table.',
 'P02': 'each byte encoder is proved inverse to its decoder for unknown values; the dictionary codec for an unknown prefix and an unknown set of foreign attributes.',
 'P03': 'records with symbolic values; presence of each field varied in turn, the others uniform; equality proved both ways.',
 'P04': 'the merge is proved against a spec function over two symbolic records; two fields vary freely at a time.',
 'P05': 'ghost state: where the old data, its metadata and the new data are. Every callee may raise any exception at its step; postconditions over the ghost state.',
 'P06': 'ghost state of path, link and trash; symbolic times with all presence patterns; each call may fail.',
 'P07': 'ghost file system of source, target, temporary name; ids symbolic; each step may fail once.',
 'P08': 'symbolic record and data; the result is compared with the spec of recorded errors; size limit symbolic.',
 'P09': 'representation invariant over the state of the etag object (hash of complete parts, the open part, the count), established, preserved by update for any chunk, and digest is the spec function of it without changing it; then loops over any data.',
 'P10': 'streams of unknown length and chunk boundaries; loop invariant: what was yielded or written so far is the prefix of the data up to the position.',
 'P11': 'data as a stream, hash objects as uninterpreted functions of the concatenation; every selection of the cypher; any number of extra cyphers, by one at an arbitrary index.',
 'P12': 'two arbitrary states of a file and an arbitrary first request; the second answer must describe the second state. This covers histories by induction over the cache attributes, whose reachable states the first request over-approximates.',
 'P13': 'the loop over the entries of a directory with symbolic entries; the recursive call by its own contract; ghost set of removed paths; paths as symbolic part lists for the guards.',
 'P14': 'first-order model of the tree (parent, kind) with quantified invariants over sets of visited, removed and kept directories.',
 'P15': 'ghost state of both paths, the temporary directory and its name; any single step may fail with any exception.',
 'P16': 'ghost current directory, stack of places; nested use with arbitrary changes in between.',
 'P18': 'a path of unknown depth, with marks as an uninterpreted predicate; invariant over the ascent.',
 'P19': 'recursion on the parent by contract; opened repositories as a symbolic cache; making by a stand-in that may fail.',
 'P20': 'a model of working tree, index, HEAD and stash stack with the content of one arbitrary path (and the rest) per place; each git step may fail.',
 'P21': 'symbolic version components (each part any natural number, presence symbolic), PEP 440 order as spec function.',
 'P22': 'a first-order table of members; listing loops over it; a path of unknown depth.',
 'P23': 'attributes as a ghost dictionary; every errno; names and values symbolic.',
 'P24': 'symbolic states of the class and of the directory; each callee may raise; frame conditions on class attributes.',
 'P25': 'commands as symbolic text: the name has to be the quoted word of them, one time; the output of stat built from symbolic fields and parsed by the real code; access decided over a 16 bit symbolic mode; the transfer loop by an invariant over a stream of any length; a path made of symbolic texts (of the machine, absolute, relative, another path) is proved to be the one asked (joining and parents are those of pathlib, checked by the harness). The harness stands this machine in for the remote: commands are really run by a shell.',
 'P26': 'loops over any number of remote objects and local directories, with ghost sets; filters symbolic; termination by the kind of iteration (bounded for local directories, four paths).',
 'P27': 'errno symbolic: one proof for every value.',
 'P29': 'loops over any number of entries with symbolic names; the ignored names as a symbolic set.',
 'P31': 'a chain of any length from object to root; induction on the parent by contract.',
 'P32': 'versions and answers of git symbolic; what is asked of git (revision, path, options) is the obligation.',
 'P30': 'the three stores as ghost state (attributes with an unknown set of foreign ones, link target, backup), the path in any state; each primitive may raise; the reader and the writer are proved separately and meet in the record of the attributes.',
 'P34': 'symbolic name and parent of object, cache and record; ghost log of store and move; each may raise.',
 'P35': 'two paths of unknown depth (as written, without links), metadata and failures as uninterpreted predicates per level; recursive spec function for the highest one; invariant over the ascent. ',
 'P36': 'each part of the directory in any of its states; ghost record of what was made and replaced; each step may fail with any exception.',
 'P37': 'levels as an uninterpreted sequence of any length; ghost counters of what was made remotely, locally and given metadata, tied by loop invariants; each step may raise.',
 'P39': 'every combination of what is known, stored, bound, anchored and failing; making a cache and a remote object by their contracts (P34).',
 'P40': 'rows, names and fields are families of which any two are looked at: what is done to each by itself is proved for every number of them, what depends on their place or number is undecided.',
 'P41': 'the names of both paths below what they have in common as sequences of any length; the numbers of steps up are the obligation; every kind of access and answer.',
 'P38': 'the revision and the path of the file symbolic text, the address one of every form (samples); the real urlparse splits it.',
 'P33': 'folders by recursion on the parent; tags as a symbolic sequence in any order.',
}
NOTES = [
 'False alarms met during the work were corrected in the property or the machinery (domains stated in the notes of the '
 'properties; e.g. paths with .. for repositories, ranges beyond the file, files replaced within the resolution of the clock); '
 'none is listed as a finding.',
 'All genuine defects found so far were small and safe to repair; each is one "fix:" commit in /repo and a "fixed" line in known_findings.json. There are no hooks in /repo.',
 'Opaque values have a truth of their own in the contracts (both are tried); digests, which are opaque byte strings, are never empty.',
 'Behaviour seen and deliberately left out of the statements: an etag mismatch in validate_file is only logged; '
 '_CachePath._sparse_root gives a bool; swap reports errno -1; EatCache does not remove attributes whose field vanished; '
 'a failed fetch onto a link leaves an empty file; the trash keeps one version per id; remote command lines of SshRemote are not quoted.',
]
