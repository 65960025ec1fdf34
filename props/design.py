"""how each property is decided: what is symbolic and what the result is compared with"""
ORACLE = dict(
    C01='symbolic field values go through as_symlink and from_symlink; the oracle is the record itself, field by field, or a raised error',
    C02='symbolic field values go through as_xattrs/from_xattrs and the metastore blob; the oracle is the record itself; foreign attributes are symbolic too',
    C03='link texts of all eight format versions are built from symbolic fields by an independent encoder written from the version tables of the release history; the oracle is the fields put in',
    C04='pairs of records with symbolic presence and values; the oracle is field-wise equality computed by the harness',
    C06='two records with symbolic presence, sizes, times and digests; the oracle is the stated rule',
    C07='records with symbolic sets of present fields (ordinary, least and differing values); the rendered table is parsed back and compared row by row',
    C08='symbolic bytes in symbolic chunks, with digests asked for at symbolic moments; the oracle is the definition (digest of digests) over uninterpreted digests',
    C09='symbolic content, ranges and chunk sizes; the oracle is slicing',
    C10='symbolic old and new content, target kinds and failing sources; the oracle is the content of the model file system before and after',
    C11='symbolic spellings of paths over a symbolic layout (links, .., home, cwd); the oracle is the set of protected inodes computed from the model before the call',
    C12='symbolic trees and one failing entry; the oracle is the set of entries left, computed from the tree before',
    C13='symbolic trees; the oracle is computed from the tree before (folders without anything solid below)',
    C14='symbolic kinds and spellings of both paths, one failing system call; the oracle is the two inodes exchanged, or the very same tree',
    C15='symbolic component sequences; the result is walked by an independent component walker',
    C16='symbolic histories of enter, leave, pushd, popd; the oracle is a stack kept by the harness',
    C17='symbolic layouts and error codes; the oracle is the model file system itself',
    C18='symbolic histories of set, delete, get over names, namespaces and files with symbolic values; the oracle is a dictionary',
    C19='symbolic histories of changes and reads; the oracle is the model inode at the time of the read',
    C05='two records with symbolic presence and values per field; the oracle is the stated rule per field',
    C20='two records with symbolic presence and values and one failing operation; the oracle is the stated decision tree and the link texts in place and in the trash',
    C21='two records with symbolic presence and values written one after the other; the oracle is the second record, field by field, and the model inode',
    C23='symbolic content, recorded size, checksum, limit and one failing operation; the oracle is the content of the remote and the record put there',
    C22='symbolic source, target and record and one failing operation; the oracle is the model inode in the old and the new place',
    C25='symbolic remote trees, local states and filters; the oracle is the model file system compared with the remote tree',
    C26='symbolic marking histories; the oracle is the set of marked folders',
    C27='symbolic chains, names and cached prefixes; the oracle is the list of names on the way from the anchor',
    C28='symbolic pairs of records and local states; the oracle is an order of optional values written for the check',
    C24='symbolic local, recorded and remote content and one failing operation; the oracle is the model inode in place and in the trash',
    C29='symbolic characters of a name; commands are executed by a real shell, the words of which are found by a lexer of symbolic characters that is validated by replaying every path with the real name; the oracle is the file itself',
    C30='the line that stat prints is built from symbolic values; the oracle is those values; for access the permission bits by the rule of POSIX',
    C31='the state of the repository before the operation, symbolic contents of HEAD, index, working tree and stashes; git is a model of it (`props/gitkit.py`, compared with real git), real git when a command is not modelled and in replays',
    C32='the symbolic contents and histories themselves (model of git as for C31), the names that the urls were built from, the folders that have .git, the grammar of git name-rev',
    C33='PEP 440 order and the symbolic numbers themselves, the tags that the harness made in a real repository (concrete, enumerated) or put in the answer of github (symbolic), the folders that were given a setup.py',
    C34='the entries and links of the file system model themselves, the inventory of the remote, the records that the harness placed',
    C35='the names and symbolic contents that the archive was made from (symbolic: a stand-in for zipfile; replayed: archives written and read by zipfile itself)',
    C36='a list of what each call does with each state of the folder, the tree and attributes of the file system model before and after',
    C37='the kind, content and record of each path before it was moved, the entries of the trash before and after',
    C38='the nodes of the .git folders in the file system model: which one is nearest, and which one each repository was opened on',
    C39='the trees of the commits (in the gitkit model, or real git): which of them differ in files of the release; the order of versions of packaging',
)
