#!/usr/bin/env python3
# Regenerates properties.jsonl (kept in one place so that statement text stays readable).
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("C01","Version comparison is a total order with the documented precedence",
"Comparing any two parsed versions yields exactly one of less, equal, greater, and the relation is reflexive, antisymmetric and transitive. The verdict is that of the first difference in: numeric components left to right (when one is a prefix of the other, the longer is greater), letter, pre-release suffix (alpha < beta < pre < rc < none) and its number, post-release suffix (none < cvs < svn < git < hg < p) and its number, and build revision.",
["inputs"],"all pairs and triples of versions, with any number of numeric components",
"the unit tests compare a fixed table of pairs; a total order is a statement about all pairs and triples and about every precedence level in combination",
["pkg/apk/version.go"],[("CompareVersions","pkg/apk/version.go"),("modifier constants","pkg/apk/version.go")],
observe=["CompareVersions"])

prop("C02","Version strings are accepted exactly when well formed, and read faithfully",
"A version string is accepted if and only if it is digits, any number of '.digits', an optional lower-case letter, an optional _alpha/_beta/_pre/_rc suffix with optional number, an optional _cvs/_svn/_git/_hg/_p suffix with optional number, and an optional -rN, with every number in machine range. The parsed value holds exactly the written components (absent numbers are zero), and every other string is rejected with an error.",
["inputs"],"all strings",
"tests try a list of valid and invalid strings; acceptance of exactly a language, and faithful extraction of every component, are statements about all strings",
["pkg/apk/version.go"],[("ParseVersion","pkg/apk/version.go"),("versionRegex","pkg/apk/version.go")],
observe=["ParseVersion"])

prop("C03","Dependency constraints are parsed exactly and decided by version order",
"A dependency string of the form name, name<op>version, optionally followed by @pin, is split into exactly those parts, where the operator is a run of the characters = > < ~ and constrains the version when it is one of = > < >= <= ~ (with no operator, or any other run, the version is unconstrained); a string that does not have this form is taken whole as an unconstrained name. A version satisfies an ordering operator exactly when comparing it with the required version gives that relation, it satisfies ~ exactly when its numeric components extend the required ones (or equal them with every suffix, letter and revision the requirement names present and equal), and it always satisfies the unconstrained case.",
["inputs"],"all dependency strings and all pairs of versions",
"tests cover a table of constraint strings and version pairs, not the equivalence with the order for every operator and pair",
["pkg/apk/version.go"],[("resolvePackageNameVersionPin","pkg/apk/version.go"),("versionDependency.satisfies","pkg/apk/version.go"),("includesVersion","pkg/apk/version.go")],
observe=["ResolvePackage"])

prop("C04","Candidate filtering admits exactly the permitted packages",
"For a requested constraint, a candidate package from the indexes is admitted exactly when it is not disqualified, its repository tag is absent, requested or allowed (or it is already installed from that same location), and, when the constraint names a version, its own version or one that it provides parses and satisfies the constraint. Admitted candidates keep their order and nothing else about the inputs changes; under a constraint that names a version, nothing is admitted when the required version cannot be parsed, nor is a package whose own version cannot.",
["inputs"],"all candidate lists, disqualification sets, pins, constraints and installed packages",
"tests exercise a handful of repositories; the guarantee is about every combination of tag, pin, disqualification and version, for lists of any length",
["pkg/apk/version.go","pkg/apk/repo.go"],[("filterPackages","pkg/apk/version.go"),("withVersion and other filter options","pkg/apk/version.go")],
observe=["PkgResolver.ResolvePackage"])

prop("C05","The preferred candidate is chosen by one consistent preference order",
"The preference between two candidates for a name is a strict weak order, decided by the first difference in: same repository and origin as the package compared with (if any), already selected version, already selected origin, requested tag, provider priority, version offered under that name, package version, name; an unparsable version ranks below every parsable one. The chosen package is always one that no other candidate is preferred to, and the sorted candidate list is ordered by this preference.",
["inputs"],"all candidate lists of any length and any already-selected set",
"tests check a few orderings; a comparison that is inconsistent only for particular combinations gives results that depend on candidate order, which no fixed list reveals",
["pkg/apk/repo.go"],[("comparePackages","pkg/apk/repo.go"),("bestPackage","pkg/apk/repo.go"),("sortPackages","pkg/apk/repo.go"),("getDepVersionForName","pkg/apk/repo.go")],
observe=["PkgResolver.ResolvePackage","PkgResolver.GetPackagesWithDependencies"])

prop("C06","A resolved install set is unique by name, complete, and drawn from the indexes",
"When resolution succeeds, every returned package is one of the packages in the supplied indexes and no two share a name. Every request, and every non-conflict dependency of a returned package that has no install-if rule and whose name has one version in the indexes, is met by a package of the indexes (named so or providing it, at a version asked for) and a package of that name is returned; a package that itself provides the name of a dependency needs nothing more for it. A package appears only where it has been requested, is a dependency, or has a fully met install-if rule. When nothing in the indexes meets a request, or a dependency of a package that is taken, resolution returns an error and never a success, and the supplied indexes and the list of requests are left unmodified.",
["inputs"],"all package universes, request lists and already-selected maps",
"tests use a few hand-made universes; the claim is about all dependency graphs, including cycles, virtual packages, conflicts and install-if rules",
["pkg/apk/repo.go"],[("GetPackagesWithDependencies","pkg/apk/repo.go"),("GetPackageWithDependencies","pkg/apk/repo.go"),("getPackageDependencies","pkg/apk/repo.go"),("disqualifyConflicts","pkg/apk/repo.go"),("constrain","pkg/apk/repo.go")],
observe=["PkgResolver.GetPackagesWithDependencies"])

prop("C07","Package index text survives a write-read round trip and never crashes the reader",
"Writing a package index and reading the text back yields the same packages in the same order with every field that an index carries preserved, for all named packages whose fields contain no line breaks and whose list entries contain no blanks. Reading any text either returns packages holding exactly the values on their lines or an error, and never panics.",
["inputs"],"all package lists and all input texts",
"tests compare a couple of fixture files; a round trip must hold for every field value and list length, and crash freedom for every text",
["pkg/apk/apkindex.go"],[("ParsePackageIndex","pkg/apk/apkindex.go"),("ArchiveFromIndex / IndexFromArchive","pkg/apk/apkindex.go")],
observe=["ParsePackageIndex","ArchiveFromIndex","IndexFromArchive"])

prop("C08","A repository index is used only if a trusted key signed exactly its content",
"When signatures are required, packages are taken from a repository index only if the index begins with a signature entry whose signature was made, by one of the configured keys, over exactly the bytes the packages are then read from. An unsigned index, one signed by no configured key, a changed or truncated one, or one with content outside the signed bytes yields an error or only the signed packages, whatever was read from the same place before and under whichever options.",
["inputs","fault_sequences"],"all index byte streams and all key sets",
"tests use one correctly signed index and a few failures; authenticity must hold for every crafted byte stream",
["pkg/apk/index.go","pkg/signature/rsa.go"],[("getRepositoryIndex","pkg/apk/index.go"),("RSAVerifySHA1Digest","pkg/signature/rsa.go")],
observe=["GetRepositoryIndexes"])

prop("C09","Package sections and file checksums are identified exactly",
"Expanding a package stream yields signature, control and data sections that are exactly the bytes of the stream in order, with the control hash the SHA-1 of the control section, the data hash the SHA-256 of the data section, and the recorded sizes those of the sections. For every installed regular file the checksum recorded is the one its archive entry carries (hexadecimal or Q1 base64), or the SHA-1 of its content when the entry carries none, and an undecodable checksum fails the installation.",
["inputs"],"all package streams, archive entries and checksum encodings",
"tests expand and install a few good fixtures; exactness is a statement about every section layout and every checksum encoding",
["pkg/apk/install.go","pkg/expandapk/expandapk.go"],[("checksumFromHeader / installRegularFile","pkg/apk/install.go"),("ExpandApk","pkg/expandapk/expandapk.go")],
observe=["APK.InstallPackages","ExpandApk"])

prop("C10","Installing a package replaces an existing file only when the rules allow it",
"When a regular file of a package being installed already exists with different content, the existing file is replaced only if it is recorded as owned by a package that has the same non-empty origin or that the new package declares it replaces; if instead the owner declares that it replaces the new package, the existing file stays and there is no error. In every other case of different content installation fails with an error, and in all cases without replacement the existing file keeps its content and its recorded owner; identical content is never rewritten. A new package that declares no origin replaces nothing, and any existing file at its path is an error.",
["inputs","histories"],"all orders of package installs and all file contents, origins, replaces lists and ownership records",
"tests cover a few conflicts; the rule must hold for every combination of owner, origin, replaces and content",
["pkg/apk/install.go"],[("installRegularFile","pkg/apk/install.go"),("writeOneFile","pkg/apk/install.go"),("installAPKFiles","pkg/apk/install.go")],
state=[("installedFiles","which package owns each installed path","pkg/apk/implementation.go")],
observe=["APK.InstallPackages","APK.GetInstalled"])

prop("C11","The installed database records packages faithfully and reads back the same",
"Adding a package to the database of installed packages appends its record and changes nothing that was there. When no field holds a line break and no member of a list holds a blank, reading the database back yields, in the order added, the same packages with every recorded field, and for each package exactly its files, each following the directory it is in, with owner and permission bits; the checksum of a file is recorded on its own line directly after the lines of the file. (Files are those given by relative names, below a top-level directory and with all their directories listed; a top-level directory that holds nothing is not recorded.) Reading any database text either returns the records that its lines describe or an error, and never panics.",
["inputs","histories"],"all sequences of added packages and all file lists, and all database texts",
"tests read one fixture database; a round trip must hold for all packages and file lists and for histories of additions",
["pkg/apk/installed.go"],[("AddInstalledPackage","pkg/apk/installed.go"),("PackageToInstalled","pkg/apk/installed.go"),("ParseInstalled","pkg/apk/installed.go"),("sortTarHeaders","pkg/apk/installed.go")],
observe=["APK.GetInstalled"])

prop("C12","An in-memory file behaves as a byte sequence with an offset",
"For an open file of the in-memory filesystem, reads return the bytes at the current offset and advance it, writes replace or extend the bytes there (zero-filling a gap) and advance it, seeks move the offset as requested and reject a negative position, reads at or past the end report end of file, positional reads do not move the offset, and opening for append or with truncation positions or empties accordingly. No operation panics, and content written is what later opens and whole-file reads return.",
["inputs","histories"],"all sequences of read, write, seek and reopen on a file, with all buffer sizes and offsets",
"tests do a few writes and reads; the sequence semantics must hold for every interleaving of operations and offsets on one handle",
["pkg/fs/memfs.go"],[("memFile","pkg/fs/memfs.go"),("memFS.openFile / WriteFile / ReadFile","pkg/fs/memfs.go")],
observe=["NewMemFS().OpenFile"])

prop("C13","The in-memory filesystem namespace follows tree semantics",
"Each operation of the in-memory filesystem (create, mkdir, mkdir-all, symlink, link, mknod, remove, chmod, chown, extended attributes, stat, readlink, read-dir) changes only the entry it names (and, for mkdir-all, missing parents), leaving every other path's existence, type, content, mode, owner and attributes as they were. A failing operation leaves the tree unchanged, a later stat or listing reports exactly the entries present, and hard-linked names share content.",
["inputs","histories"],"all sequences of operations and all paths",
"tests create a few entries; frame and consistency conditions are about everything an operation must not touch, in every history",
["pkg/fs/memfs.go"],[("memFS operations","pkg/fs/memfs.go"),("getNode","pkg/fs/memfs.go")],
observe=["NewMemFS()"])

prop("C14","Disk-backed filesystem operations stay inside their base directory",
"Whatever path a caller passes to the disk-backed filesystem, including paths with parent-directory components, absolute paths and link targets given to hard links, the lexical path handed to the operating system lies inside the base directory. A path that would leave the base is either re-rooted inside it or refused with an error, and sibling directories whose names share the base's prefix are never reached.",
["inputs"],"all paths and all base directories",
"tests use well-behaved paths; containment must hold for every hostile path in a package archive",
["pkg/fs/rwosfs.go"],[("dirFS operations","pkg/fs/rwosfs.go"),("sanitizePath","pkg/fs/rwosfs.go")],
observe=["DirFS(dir)"])

prop("C15","Cached downloads are stored inside the cache and published complete",
"Every file the download cache reads or writes for a URL lies inside the configured cache directory, whatever the URL, package coordinates or server-supplied entity tag contain. A cache entry becomes visible under its final name only after the whole response body has been stored; a failed, short or non-successful response leaves no entry under a final name and is reported to the caller; and different entity tags of one URL never share an entry.",
["inputs","fault_sequences"],"all URLs, entity tags, response statuses, bodies and failure points",
"tests use a local server with polite headers; containment and completeness must hold for hostile tags and for a failure at every point",
["pkg/apk/cache.go","pkg/apk/implementation.go"],[("cachePathFromURL","pkg/apk/cache.go"),("cacheFileFromEtag","pkg/apk/cache.go"),("retrieveAndSaveFile","pkg/apk/cache.go"),("cacheDirForPackage","pkg/apk/cache.go")],
observe=["WithCache"])

prop("C16","Interrupted downloads resume without losing, repeating or inventing bytes",
"Reading a response body through the range-retrying transport delivers exactly the server's bytes in order: after a broken read it resumes at the offset already delivered, and data from a reply that does not continue at that offset is never mixed in. If it cannot resume, the reader gets an error rather than a short or repeated stream that looks complete.",
["inputs","fault_sequences"],"all response bodies, buffer sizes and failure offsets",
"tests break the connection at a few points; byte exactness must hold for a failure after any prefix and any reply to the resume request",
["pkg/apk/transport.go"],[("rangeRetryReader.Read","pkg/apk/transport.go"),("rangeRetryTransport.RoundTrip","pkg/apk/transport.go")],
observe=["newRangeRetryTransport"])

prop("C17","Archives are written with faithful, normalised entries, and errors are not lost",
"Writing a file tree as a tar stream produces one entry per path in the tree in directory-before-content order, with the tree's type, mode, content, link target and extended attributes, owners and timestamps overridden exactly as configured, and hard links to an already written file emitted as links. Any failure to read the tree or write the output is reported to the caller, and writing the same tree with the same settings twice gives identical bytes.",
["inputs","fault_sequences"],"all file trees, option settings and write-failure points",
"tests archive a small tree once; faithfulness is about every tree and option, and error propagation about every failure point",
["pkg/tarball/write.go","pkg/tarball/tarball.go"],[("Context.writeTar","pkg/tarball/write.go"),("WriteTargz","pkg/tarball/write.go")],
observe=["tarball.Context.WriteTar","tarball.Context.WriteTargz"])

prop("C18","User and group files round-trip and reject malformed lines",
"Reading a passwd or group file yields one entry per line with exactly the colon-separated fields written there (surrounding white space aside), in order, and rejects a line with the wrong number of fields or an identifier that is not a number of at most 32 bits. Writing entries whose fields contain no separators and reading them back yields the same entries, and writing produces one line per entry in order; read and write errors are reported.",
["inputs"],"all file contents and all entry lists",
"tests parse one fixture; exact parsing and round trip are statements about all lines, identifiers and member lists",
["pkg/passwd/passwd.go","pkg/passwd/group.go"],[("UserEntry.Parse/Write","pkg/passwd/passwd.go"),("GroupEntry.Parse/Write","pkg/passwd/group.go"),("UserFile.Load/Write","pkg/passwd/passwd.go"),("GroupFile.Load/Write","pkg/passwd/group.go")],
observe=["passwd.ReadOrCreateUserFile","passwd.ReadOrCreateGroupFile"])

prop("C19","A tar archive opened as a filesystem shows exactly its entries",
"Opening a tar archive as a read-only filesystem lists each entry once in its parent directory, opening a regular file returns exactly the bytes of its entry and no others, links resolve to the content of their target, and stat reports the entry's header. Paths not in the archive are reported as absent.",
["inputs"],"all tar archives",
"tests index a fixture or two; offsets, listing and lookup must be right for every archive layout",
["internal/tarfs/tarfs.go"],[("New","internal/tarfs/tarfs.go"),("FS.Open","internal/tarfs/tarfs.go"),("FS.ReadDir","internal/tarfs/tarfs.go")],
observe=["tarfs.New"])

prop("C20","Credentials are sent only to the host they were configured for",
"When fetching an index, key or package, basic-auth credentials are attached to a request only if they were configured for exactly the host being contacted or are embedded in that repository's own address, and exactly those credentials are attached. Credentials configured for one host are never sent to any other host.",
["inputs","configurations"],"all repository URLs and credential maps",
"tests check one host with and without credentials; non-disclosure is a statement about all other hosts and maps",
["pkg/apk/implementation.go","pkg/apk/index.go"],[("fetchPackage","pkg/apk/implementation.go"),("getRepositoryIndex","pkg/apk/index.go"),("InitKeyring","pkg/apk/implementation.go")],
observe=["WithAuth"])

prop("C21","Repository and world lists round-trip and select the right keys and locations",
"Setting the world or repository list and reading it back yields the same entries (the world in sorted order, the repositories in the order given), for entries without white space (world) or line breaks (repositories); a list that could not be read completely is an error and never a shorter list. Key selection for a release branch, an architecture and a date returns exactly the published keys of that branch and architecture that are not deprecated at that date, and package and index addresses are formed from the repository base, the architecture and the package's own name and version.",
["inputs"],"all lists of entries, release data and dates, and package coordinates",
"tests cover a fixture; the guarantee is for all lists, key sets and times",
["pkg/apk/world.go","pkg/apk/repository.go","pkg/apk/releases.go","pkg/apk/arch.go","pkg/apk/package.go"],[("SetWorld/GetWorld","pkg/apk/world.go"),("SetRepositories/GetRepositories","pkg/apk/repository.go"),("Releases.GetReleaseBranch / KeysFor","pkg/apk/releases.go"),("RepositoryPackage.URL","pkg/apk/package.go")],
observe=["APK.SetWorld","APK.GetWorld"])

prop("C22","Concurrent use gives the same results as sequential use",
"Fetching, caching and installing with several goroutines at once, and using one in-memory filesystem from several goroutines, yields the same packages, files and cached values as some sequential order of the same operations, with each address fetched at most once per process. No interleaving loses an update, deadlocks or observes a half-written value.",
["schedules"],"all interleavings of concurrent fetches, installs and filesystem operations",
"tests run one schedule at a time; the claim is about all schedules",
["pkg/apk/index.go","pkg/apk/implementation.go","pkg/fs/memfs.go"],[("indexCache and apkCache single-flight","pkg/apk/index.go"),("memFS mutexes","pkg/fs/memfs.go"),("errgroup in InstallPackages","pkg/apk/implementation.go")],
observe=["APK.InstallPackages"])

with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
