CLAIMS["C01"] = "CompareVersions is proved equal, for all versions and any number of components, to the documented order (spec function verCmp), and that order is proved reflexive, antisymmetric and transitive by induction lemmas. Assumes versions satisfy the suffix-range invariant that ParseVersion establishes (C02). int is treated as mathematical in index arithmetic."
CLAIMS["C02"] = "ParseVersion is proved, for all strings, to accept exactly the strings of the documented grammar whose numbers fit an int, and to return exactly the components written (spec functions verForm/verRange/numbersRead). Regular-expression matching and strconv.Atoi are modelled by their documented meaning."
CLAIMS["C03"] = "resolvePackageNameVersionPin is proved to split every string as the documented form prescribes, includesVersion to be the ~ relation, and satisfies to be the relation of its operator over the order of C01, for all versions."
CLAIMS["C04"] = "filterPackages (with its four option closures) is proved, for all candidate lists, disqualification sets and options, to return exactly the admitted candidates in order (spec functions admitted/filtered), under the memo-table invariant that parseVersion and resolvePackageNameVersionPin are proved to keep."
CLAIMS["C05"] = "The comparison closure of comparePackages is proved equal to the documented preference (spec function prefCmp) and that preference is proved a strict weak order; bestPackage is proved to return a package no candidate is preferred to, and sortPackages to return a permutation ordered by it, for all candidate lists. slices.MinFunc and slices.SortFunc are modelled by their documentation, their demand for a strict weak order being an obligation."
CLAIMS["C18"] = "Parse, Write and Load of both entry kinds, and the functions reading and writing whole files, are proved for all texts and entry lists: accepted lines are exactly those with the right number of colon-separated fields and decimal identifiers below 2^32, and lemmas prove by induction that text written for any list of entries reads back as that list. bufio.Scanner, strings.Split/Join/TrimSpace, strconv.ParseUint and fmt.Fprintf are assumed to do what they document."
CLAIMS["C10"] = "writeOneFile, installRegularFile and installAPKFiles are proved, for all archives, ownership tables, origins and replaces lists, to leave an existing file and its recorded owner unchanged unless the replacement rule (spec function mayTake) allows it, to fail exactly on forbidden conflicts, and to keep the file without error when the owner stays. The filesystem interface, archive/tar, io.Copy and SHA-1 are assumed contracts; distinct paths are taken as distinct entries. lazilyInstallAPKFiles delegates the decision to the caller's filesystem and is outside."
CLAIMS["C09"] = "checksumFromHeader (both copies) is proved to return exactly the declared checksum, checkSums to accept an archive only if every regular file has the checksum it declares, and installRegularFile to record the declared checksum or the SHA-1 of the content and to fail on undecodable ones, for all entries. Section splitting, hashes and sizes of ExpandApk are covered only by bounded executions against the known sections (labelled bounded). Base64, hex, SHA-1, io.Copy, io.TeeReader and archive/tar are assumed contracts."
CLAIMS["C08"] = "getRepositoryIndex is proved, for all byte streams, key sets and options, to return an index only when (where signatures are required) some configured key's RSA/SHA-1 signature verifies over exactly the bytes that are handed to IndexFromArchive; RSAVerifySHA1Digest, HashData, IndexURL and shouldCheckSignatureForIndex (equal to the documented rule) are proved. The in-memory cache (indexCache.get) is covered only by bounded histories (labelled bounded). The RSA, PEM, X.509, SHA-1, gzip and tar libraries are assumed contracts, and IndexFromArchive is assumed to read only the stream it is given."
CLAIMS["C20"] = "FetchPackage, InitKeyring (with the task closures), getRepositoryIndex, indexCache.get, the retrying transport and reader and the caching transport are proved, for all addresses and credential maps, to hand the HTTP client only requests whose credentials are those configured for exactly the request's host or embedded in its own address, and never to send without credentials a request whose host has them; WithAuth and WithIndexAuth are proved to change one host's entry. Passing the options through GetRepositoryIndexes is covered only by bounded executions (labelled bounded). net/url, net/http, go.lsp.dev/uri and sync.Map are assumed contracts; tasks of an errgroup are taken to run one at a time."
CLAIMS["C16"] = "rangeRetryReader.Read and reset and rangeRetryTransport.RoundTrip are proved, for all contents, buffers, break points and replies, to deliver exactly the resource's bytes from the current offset, to keep offset and body in step across retries, and to report the end (in the sense of errors.Is(err, io.EOF)) only when everything was delivered; their callers FetchPackage and getRepositoryIndex are proved to meet the preconditions. Assumes that the resource does not change while it is downloaded, that replies are what their status and Content-Range say, and that closed bodies deliver nothing (net/http, io.CopyN as assumed contracts)."
CLAIMS["C14"] = "Every operation of the disk-backed filesystem (all methods of dirFS) is proved, for all paths and base directories, to hand the operating system only paths that lie lexically inside the base (every path-taking function of os, syscall and x/sys/unix carries that precondition), sanitizePath is proved to return only such paths, and a closed file restores permissions only of such a path. filepath.Join, Clean, Rel and IsLocal are assumed to do what they document; what the DirFS constructor itself does before any caller passes a path, and symbolic links already on disk, are outside."
CLAIMS["C15"] = "cachePathFromURL, cacheDirFromFile, cacheFileFromEtag, cacheDirForPackage, the caching transport, etagCache.get (with the download it performs), cachedPackage, cachePackage, expandPackage and PackageData are proved, for all addresses, entity tags, replies and failure points, to touch only paths inside the cache directory, to write only under names ending in .tmp, to give a final name only to a file that holds exactly a complete successful reply (or a complete part of a package), under the entity tag of the reply itself, and to serve offline no unfinished download; a lemma proves that different tags of one address name different entries. ExpandApk is assumed to return complete files; net/http, os, io.Copy, net/url.QueryEscape, filepath and hex are assumed contracts; the process is taken not to be killed inside one system call."
CLAIMS["C07"] = "ParsePackageIndex is proved to accept exactly the well-formed texts and to return, at every position, the package the lines say; ArchiveFromIndex with the index template (its text taken from the source and translated on every run) is proved to write exactly the concatenation of the records; and 50 lemmas over both specifications prove that reading the written text yields the same packages, in order, with every field, for all lists of packages without line breaks (induction over the list). IndexFromArchive is proved to take the packages, description and signature from the last entry of their names and to refuse other entries. Assumed: bufio.Scanner (up to 1 MiB a line), tar and gzip readers and writers as inverse of each other, base64, time.Unix and strconv meanings, the meaning of text/template actions as translated, strings.Split after strings.Join."
CLAIMS["C12"] = "Read, ReadAt, Seek, Write and Close of an open in-memory file are proved equal to operations on a byte sequence with an offset, for all contents, offsets and arguments; opening (newMemFile, openFile with the symlink recursion, getNodeCountLinks) is proved to position, truncate and keep as the flags say and to leave every other file's content alone; ReadFile and WriteFile are proved to return and store exactly the content of the node opened. That a path names the same node later, and that files do not share memory with callers' buffers, is covered by bounded executions (labelled bounded). bytes.Buffer, io.Copy and locks are assumed contracts; offsets are mathematical integers."
CLAIMS["C11"] = "AddInstalledPackage is proved to append exactly the record text of the package (PackageToInstalled) and of its sorted files, and to change no other file; ParseInstalled is proved, for all texts, to refuse exactly the malformed ones and to return at every position the record its lines describe, with every index in range; lemmas over both (one per line of a record, induction over the file list and over the text) prove that a database which only packages were added to reads back as all the records it had, in order, followed by the new one with every field, file, owner and permission. sortTarHeaders is proved to list only headers it was given; that it lists all of them, each behind its directory, is covered by bounded executions (labelled bounded). Assumed: bufio.Scanner (lines up to 1 MiB), the file opened for append holding what was written to it (C12), base64, hex, octal and decimal texts, filepath.Join and Base, strings.Split after strings.Join; the list of files and the fields do not change while they are written."
CLAIMS["C21"] = "SetWorld, GetWorld, SetRepositories and GetRepositories are proved to write and to read exactly the text of the entries, and lemmas (induction over the list) prove that what is written is read back as the same entries, for all lists; GetReleaseBranch and KeysFor are proved to return the first branch of that name and exactly its keys that are not deprecated, for all release data and dates; IndexURL, IndexURI, NewRepositoryFromComponents, Filename, URL, Packages and WithIndex are proved to form addresses and packages from their own parts. That fetchAlpineKeys stores those keys and that GetRepositoryIndexes asks for the index of every repository (with pins) is covered by bounded executions (labelled bounded). Assumed: strings.Fields after strings.Join, sort.Strings, bufio.Scanner, time.Time methods as pure functions, the file system holding what was written to it (C12)."
CLAIMS["C06"] = "GetPackagesWithDependencies, GetPackageWithDependencies, getPackageDependencies, resolvePackage, ResolvePackage, bestPackage, filterPackages and the constraint functions (constrain, nextPackage, disqualifyConflicts, disqualifyProviders, conflictingVersion) are proved, for all universes, requests and already selected maps: everything returned comes from the resolver's candidates (and so has whatever holds of every package of the indexes), names are unique, every request is answered by a package of the name of one that may be taken for it, and the candidate tables are unchanged. The quick check relies on the contracts of constrain, getPackageDependencies, GetPackageWithDependencies, disqualifyConflicts and filterPackages (the last proved by C04's check), which the thorough check proves. That every dependency is answered, that install-if rules are fully met and that NewPkgResolver lists what the indexes hold are covered only by bounded executions (labelled bounded)."
