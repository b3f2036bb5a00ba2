NOTES["C01"] = """Why tests cannot: the order must be total and transitive over all versions; the induction lemmas are over the
unbounded list of components. Functions: CompareVersions and its helpers (inlined)."""
NOTES["C02"] = """The regular expression in the code is translated from the source constant itself, so a change of the
expression changes the obligation. Oracle: the grammar of apk-tools written as a specification."""
NOTES["C03"] = "Oracle: the documented operators (=, <, >, <=, >=, ~, pin suffix) over verCmp."
NOTES["C04"] = """The option closures (withVersion, withPreferPin, ...) are executed symbolically, with the option struct
as the ghost of what was asked."""
NOTES["C05"] = """The comparison handed to slices.MinFunc/SortFunc is obliged to be a strict weak order, so a non-transitive
change fails even when every pair looks right."""
NOTES["C08"] = """The ghosts are the byte stream (scanned, hashed, gunzipped), the digest and the key that verified it.
Outside: IndexFromArchive reading only the bytes it is handed (its own text parser is C07)."""
NOTES["C09"] = """Outside the contracts: ExpandApk/expandApkWriter (gzip member boundaries are a callback protocol between three
goroutine-free layers of buffered readers). They stand under the bounded harness."""
NOTES["C10"] = "Distinct names are taken as distinct entries (no links between the paths of one package)."
NOTES["C07"] = """The index template is a program: `template [C07] apkIndexTemplate indexRecord` makes gocv parse the template text found
in the source and prove that executing it on any package renders indexRecord. The reader is specified by unfolding: idxStep
gives the record after a line; idxNth and idxCount walk the text. `probe` is an arbitrary position, so what is proved of it holds
of every position. The round trip is lemmas read0..read16 (one per line of a record), recordRead and indexRoundTrip (induction).
That tar and gzip readers undo their writers is assumed for IndexFromArchive after ArchiveFromIndex, and exercised by the
bounded harness."""
NOTES["C11"] = """instStep gives the record after a line; instNth, instCount and instOK walk the text, with the positions of the directory and
file last seen. instRecord and filesText are the text written. addedIsRead and addedIsClosed are the two halves of the induction over
histories of additions: what was read before is still read, and the database stays one to which this applies. contracts/installed.gcv
spells out one lemma per line of a record. Left as they are (pinned by TestSortTarHeaders): a top-level directory without
anything below it, top-level files, and files of directories that are not listed are not recorded; checksums are not read back."""
NOTES["C12"] = """The content of a node, its offset and flags are the abstract state; copy semantics of `copy(x[a:], p)`
go through slice provenance. Sharing memory with a caller's buffer is the harness's part."""
NOTES["C14"] = """Every function of os, syscall and golang.org/x/sys/unix that takes a path carries `requires inBase(path)`;
an unlisted function of these packages without contract is refused, so a new call cannot slip past."""
NOTES["C15"] = """State: which files are complete, which name each was given, under which entity tag; every os call carries the
discipline as a precondition. Left as they are: a same entity tag used by two addresses of one directory names one entry;
the offline lookup of a key takes the newest file of its directory; an error from closing the temporary file is ignored."""
NOTES["C16"] = "Failure points are all points: each read may deliver any prefix and any error."
NOTES["C18"] = "Round trip is a lemma over the writer's and the reader's contracts, by induction over the entry list."
NOTES["C20"] = """Ghosts tie each request to its address and each header map to the credentials put in it; http.Client.Do and
RoundTrip carry the precondition. When an address embeds credentials and the host has configured ones, either may be sent."""
NOTES["C21"] = """The lists are texts: words (strings.Fields) for the world file, lines for the repository file; assumed laws of sorting
and of splitting are listed as axioms in lists.gcv. Keys by release branch and locations by architecture are proved for every release
table and every version string."""
NOTES["seed:C09-1"] = "Caught by the bounded harness only (ExpandApk is outside the contracts)."
NOTES["seed:C12-1"] = "Caught by the bounded harness only (memory sharing is outside the value model)."
NOTES["C22"] = """Not applicable to this family here: gocv proves sequential contracts. Interleavings of goroutines need a
concurrent separation logic with ownership of locks (what Viper/VerCors/Gobra provide and what is not installed), and no
contract over sequential executions can express that no update is lost between two goroutines. Listed under not_applicable."""
NOTES["tail"] = """
## 3. Defects of go-apk found

Repaired (`fix:` commits, listed in known-findings.txt with commit and description): see that file.

Noticed, not repaired because they lie outside a claimed statement or a repair would change intended behaviour:
memFS ignores O_EXCL, allows writing through a read-only handle and lets Lstat follow links; relative symbolic links of memFS
are resolved from the root; FetchPackage prefers configured over address-embedded credentials; fetchAlpineKeys does not look
at the status of key downloads; ExpandApk does not compare control and data hashes with the index.

## 4. False alarms met and removed

* Frames were once checked only for contracts with postconditions; making them complete exposed missing `modifies` entries in the
  contracts (not in the code), which were added.
* Statements weakened after finding the code right: C20 (either kind of credentials may be used when both exist), C12 (a
  handle's content is that of the node it opened, not of the path it was opened by).

## 5. Cost

Each check takes between 2 and 30 seconds on 8 cores, C07 about 70 (see evidence/*.json for solver time and obligation counts).
"""
NOTES["C06"] = """`fromIndex` is an abstract predicate of packages: the proof shows that whatever is true of every package of
the resolver's tables is true of every package returned, so in particular membership in the indexes. `answered` says that
a package that may be taken for the request (mayMeet: the name or a provided name, and an own or provided version that
is asked for) has its name in the result. The statement stops at names there, because the de-duplication by name may keep
another version of the same name than the one a later dependency chose, and what an install-if rule brings in does not
bring in its own dependencies. A dependency cycle that asks for another version of a package on the path (a-2 needs f,
f needs a=1) returns a-1 without a-1's dependencies. All three are left as they are (apk-tools' solver is a different algorithm, and no small repair
exists). Outside the proof: NewPkgResolver, completeness of dependencies, install-if matching; the harness runs them on
universes of up to 14 packages. All 254 obligations take about 290 s, so the quick check leaves five of the functions
to the thorough one and uses their contracts."""
