#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script so statements are easy to edit).
import json,os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))

# ------------------------------------------------------------------ apt
p("A01","Checksum comparison accepts exactly the matching file",
 "An expected file description accepts an actual one if and only if both have the same path and the same size and every checksum (MD5, SHA-1, SHA-256) the expected description records equals the actual one's. A checksum the expected description does not record never causes a rejection, and comparing never changes either description.",
 ["inputs"],"all pairs of file descriptions, with every combination of recorded and unrecorded checksums",
 "Tests compare a handful of descriptions; the equivalence quantifies over all paths, sizes and checksum presence combinations.",
 ["apt/fileinfo.go"],[("FileInfo.Same","apt/fileinfo.go Same")],observe=["result of FileInfo.Same"])
p("A02","Computed size and checksums describe exactly the data copied",
 "When data is copied with its description computed on the way, the destination receives exactly the source's bytes, and the description carries the given path, their exact count, and the MD5, SHA-1 and SHA-256 of exactly those bytes. If reading or writing fails, an error and no description is returned. Recomputing the checksums of an existing description from data sets its size and all three checksums to those of that data and leaves its path alone.",
 ["inputs","fault_sequences"],"all byte streams, paths, and read/write failures",
 "Tests copy one short string; they never fail a write and cannot cover all contents and lengths.",
 ["apt/fileinfo.go"],[("CopyWithFileInfo, CalcChecksums","apt/fileinfo.go")],observe=["destination writer","returned FileInfo"])
p("A03","By-hash and prefixed paths are derived correctly",
 "For each recorded checksum the by-hash path is the file's directory followed by by-hash, the algorithm's name (MD5Sum, SHA1 or SHA256) and the lowercase hexadecimal of that very checksum; when the checksum is not recorded the by-hash path is empty. Adding a prefix yields a new description whose path is the cleaned prefix joined with the old path and whose size and checksums are the original's, leaving the original unchanged.",
 ["inputs"],"all file descriptions and prefixes",
 "Tests look at one description; a mix-up of algorithm, directory or checksum on other combinations goes unseen.",
 ["apt/fileinfo.go"],[("MD5SumPath, SHA1Path, SHA256Path, AddPrefix","apt/fileinfo.go")],observe=["returned paths and descriptions"])
p("A04","File descriptions survive JSON persistence unchanged",
 "Encoding any file description whose path is valid UTF-8 to JSON and decoding it again gives a description with the same path, size and checksums, where a checksum that was not recorded is still not recorded. Decoding input whose checksums are not valid hexadecimal returns an error.",
 ["inputs"],"all file descriptions, including those with any subset of checksums, and all JSON inputs",
 "The test round-trips a single description that has all checksums.",
 ["apt/fileinfo.go"],[("MarshalJSON, UnmarshalJSON","apt/fileinfo.go")],observe=["decoded FileInfo"])
p("A05","Index files are recognised by name and parsed by the right format",
 "A path names an index exactly when its last component, after removing at most one of the suffixes .gz .bz2 .xz .lzma .lz, is Release, Release.gpg, InRelease, Packages, Sources or Index; an index is supported exactly when the path's extension is absent or one of .gz .bz2 .xz .gpg. Extracting entries from a path that is not an index or whose compression is unsupported is an error; otherwise the data is decompressed according to the extension and parsed by the format its base name selects.",
 ["inputs"],"all path strings and readers",
 "Tests try a dozen names; the classification is over all strings.",
 ["apt/meta.go"],[("IsMeta, IsSupported, ExtractFileInfo","apt/meta.go")],observe=["results of IsMeta/IsSupported/ExtractFileInfo"])
p("A06","Control files are split into paragraphs and fields faithfully",
 "Reading a control file yields its paragraphs in order, each mapping a field name (the text before the first colon) to the list of its non-empty trimmed values, with lines starting with space or tab appended, trimmed, to the field above; comment lines, PGP headers and everything after a PGP signature marker are ignored. A line that is neither, a continuation line with no field above it in the paragraph, or a read error is reported as an error, the end of input as end-of-file, and such an error is final. Every field present in a returned paragraph has at least one value.",
 ["inputs"],"all line sequences, including malformed ones and read errors",
 "Tests parse three well-formed samples; the guarantee is for every input.",
 ["apt/parser.go"],[("Parser.Read","apt/parser.go")],state=[("lastField","field a continuation line extends","Parser"),("isPGP","a PGP preamble was seen","Parser")],observe=["Paragraph and error returned by Read"])
p("A07","Release and Index extraction is complete and accurate",
 "Extracting a Release, InRelease or Index file returns exactly one description for each distinct path listed in its MD5Sum, SHA1 and SHA256 fields (joined to the index's own directory), except the directory's own Release, Release.gpg and InRelease. Each description carries, for every one of the three algorithms under which that path is listed, a checksum listed for that path under that algorithm and no checksum for the others, and a size listed for it. A malformed line or an unreadable file makes the extraction fail and return no entries, never a partial list and never a crash.",
 ["inputs"],"all Release contents, including repeated, overlapping and malformed lines",
 "Tests parse one well-formed Release where all sections list the same files.",
 ["apt/meta.go"],[("getFilesFromRelease, parseChecksum, ExtractFileInfo","apt/meta.go")],observe=["list returned by ExtractFileInfo"])
p("A08","Packages and Sources extraction is complete and accurate",
 "Extracting a Packages file returns one description per paragraph with the cleaned Filename, the Size and the MD5sum, SHA1 and SHA256 values the paragraph gives; extracting a Sources file returns one description for each distinct file in each paragraph's Files, Checksums-Sha1 and Checksums-Sha256 lists, under the paragraph's Directory, with every listed checksum in its own slot. A paragraph without a required field, a malformed size or checksum, or a read error makes the extraction fail with an error and no entries, never a partial list and never a crash.",
 ["inputs"],"all Packages and Sources contents, including malformed ones",
 "Tests parse one well-formed sample of each.",
 ["apt/meta.go"],[("getFilesFromPackages, getFilesFromSources","apt/meta.go")],observe=["list returned by ExtractFileInfo"])

# ------------------------------------------------------------------ cacher
p("C01","The cache never exceeds its capacity and accounts for every item",
 "After every completed cache operation (load, insert, lookup, delete), in any history, the amount accounted as used equals the sum of the sizes of the items currently listed, every item is listed exactly once, and, when a capacity is set, the used amount is at most the capacity. Accounting never underflows and no item is listed under a path it was not inserted with.",
 ["histories","inputs","fault_sequences","schedules"],"all histories of cache operations, concurrent or not, with all file-system failures",
 "Tests run one short history on three files; the invariant is over all histories, sizes and failing system calls.",
 ["cacher/storage.go"],[("Storage methods and maint","cacher/storage.go")],state=[("used","sum of item sizes","Storage"),("cache/lru","index and eviction heap","Storage")],observe=["Storage state between operations","ListAll"])
p("C02","Eviction removes least recently used items first",
 "When inserting or loading makes the cache exceed its capacity, items are removed one at a time, each time the one whose last insert or successful lookup is the oldest, and only until the capacity is respected. A successful insert or lookup makes its item the most recently used; a lookup that finds no matching item and operations on other items leave the order unchanged.",
 ["histories","inputs"],"all histories of inserts, lookups and deletes",
 "The test checks one history of six operations.",
 ["cacher/storage.go"],[("maint, Less/Swap/Push/Pop, Lookup, Insert","cacher/storage.go")],state=[("atime","recency stamp","entry"),("lclock","logical clock","Storage")],observe=["which items survive"])
p("C03","A cache lookup returns only the matching item's own file",
 "Looking up an expected description returns an open file only if an item is cached under exactly that path and its size and checksums match the description, and then the file opened is the one stored for that path; if no item is cached under the path or it does not match, the not-found error is returned and no file. Inserting makes the item findable under its path with the description given and the inserted file as content, deleting or evicting removes both the file and the record, and no other item's record is affected.",
 ["histories","inputs","fault_sequences"],"all cache states, descriptions and file-system failures",
 "Tests look up five files; mismatching checksums, deletions and failing system calls are not covered.",
 ["cacher/storage.go"],[("Lookup, Insert, Delete, maint, calcChecksum","cacher/storage.go")],observe=["result of Lookup, ListAll, files on disk"])
p("C04","Cache files never leave the cache directory",
 "Inserting is refused with the bad-path error, without touching the file system, unless the path is relative, clean, not the current directory and does not lead out of the cache directory. Every file the cache creates, opens or removes for an item is that item's path plus the .cache suffix below the cache directory.",
 ["inputs","histories"],"all item paths",
 "Tests try four bad paths; parent-directory paths are not among them.",
 ["cacher/storage.go"],[("Insert path check","cacher/storage.go Insert")],observe=["file-system calls"])
p("C05","The cache proxy only stores downloads that pass validation",
 "A downloaded item is stored and becomes servable only if the upstream answered 200, the body was received completely and synced, and, when an expected description is known, the received data matches it; otherwise the cache and the known descriptions stay as they were. A stored index immediately makes the descriptions of the files it lists, under the same prefix, the ones later requests are checked against, and a download that was validated against an outdated description never replaces a newer one.",
 ["inputs","fault_sequences","schedules"],"all upstream responses, body contents, failures at every step, and interleavings of downloads",
 "There are no tests of downloading at all.",
 ["cacher/cacher.go","apt/fileinfo.go"],[("Cacher.download","cacher/cacher.go")],state=[("info","expected descriptions by path","Cacher")],observe=["Storage.Insert calls, Cacher.info"])
p("C06","Failed downloads are reported with a failure status, never as content",
 "Asking the proxy for an item returns either status 200 with an open file that matches the currently expected description, or another status with no file. A path with an unregistered prefix or an index in an unsupported compression gives 404 without contacting upstream; a non-200 upstream status is what is returned; and a download that ended without storing the item is recorded as a failure, so waiting requests get that failure as their answer instead of retrying without end.",
 ["inputs","fault_sequences","schedules"],"all request paths, upstream statuses and failure points",
 "No test exercises Get or failing downloads.",
 ["cacher/cacher.go"],[("Cacher.Get, Cacher.download","cacher/cacher.go")],state=[("results","recent download statuses","Cacher")],observe=["return values of Get"])
p("C07","Shared proxy state is only touched under its lock",
 "In every interleaving, each access to the shared mutable state of the proxy and of both storages happens while the lock protecting it is held (exclusively for writes), every lock taken is released on every path including error paths, no lock is taken twice by one caller, locks are always taken in one global order, and no caller waits for a download while holding a lock.",
 ["schedules"],"all schedules of all operations of the proxy and the storages",
 "The race detector only sees the schedules the tests happen to produce, and the tests run almost nothing concurrently.",
 ["cacher/cacher.go","cacher/storage.go","mirror/storage.go"],[("mutex discipline","all methods")],state=[("mu, fiLock, dlLock, hostLock","locks","Cacher, Storage")],observe=["data races, deadlocks"])
p("C08","At most one download per path runs at a time and waiters are released",
 "While a download of a path is in progress, further requests for it join that download instead of starting another. When a download ends, on every path including failures, its result is recorded, the path is free for a new download, and the channel handed to all waiters is closed exactly once, in that order.",
 ["schedules","fault_sequences"],"all interleavings of requests and all ways a download can end",
 "No test downloads anything.",
 ["cacher/cacher.go"],[("Cacher.Download, download's deferred completion","cacher/cacher.go")],state=[("dlChannels","in-flight downloads","Cacher")],observe=["upstream requests, channel closes"])
p("C09","The proxy respects the per-host connection limit",
 "With a positive limit, at any time at most that many upstream requests per host are in progress: every download obtains one slot of its upstream host before contacting it and gives back exactly one slot of the same host on every way it can end. With limit zero no slot is ever waited for.",
 ["schedules","fault_sequences","configurations"],"all schedules, hosts, limits and download outcomes",
 "No test uses connection limits.",
 ["cacher/cacher.go"],[("acquireSemaphore, releaseSemaphore, download","cacher/cacher.go")],state=[("hostSem","free slots per host","Cacher")],observe=["concurrent upstream requests"])
p("C10","Request paths map to the right upstream URL",
 "A request path, ignoring leading slashes, maps to an upstream URL exactly when its first component is a registered prefix; the URL is then the registered base URL for the bare prefix, and otherwise the base with the rest of the path resolved relative to it. Registration refuses every prefix that is not made of lowercase letters, digits, dot, underscore and hyphen, as well as the names . and .., and makes the base path end in a slash.",
 ["inputs","configurations"],"all prefixes, base URLs and request paths",
 "Tests try a few paths on two mappings.",
 ["cacher/urlmap.go"],[("URLMap.Register, URLMap.URL","cacher/urlmap.go")],observe=["result of URLMap.URL, Register"])
p("C11","The HTTP front end answers every request correctly",
 "Every request gets exactly one answer and none can crash the handler: methods other than GET and HEAD get 501; otherwise the cleaned path is fetched and an error, 404 or other status is passed on as such, while status 200 sends the cached file's content for GET and, for HEAD, no body and headers carrying that file's size. The file obtained for a request is closed afterwards on every path.",
 ["inputs","fault_sequences"],"all requests, including those with an empty URL path, and all outcomes of fetching",
 "There is no handler test.",
 ["cacher/handler.go"],[("cacheHandler.ServeHTTP","cacher/handler.go")],observe=["HTTP responses"])
p("C12","The proxy starts on every acceptable configuration and cache content",
 "Construction fails with an error, before serving anything, if the check interval is not positive, the connection limit is negative, a directory is not absolute, both directories are the same, the capacity is not positive, or a mapping has a bad prefix or a scheme other than http and https. With an acceptable configuration, whatever the proxy stored in an earlier life does not prevent it from starting, each listed file's description from readable cached indices is known again under its prefix, and cached Release and InRelease files not described by another index are kept up to date.",
 ["configurations","histories"],"all configurations and all cache contents earlier runs can leave behind",
 "Tests only decode one configuration file.",
 ["cacher/cacher.go"],[("NewCacher","cacher/cacher.go")],observe=["result of NewCacher"])

# ------------------------------------------------------------------ mirror
p("M01","Publishing a mirror is atomic at every crash point",
 "At every instant of an update, and after a crash or failure at any step, the mirror's public name either still refers to what it referred to before or refers to the new snapshot, and it is never missing in between. It refers to the new snapshot only after all its files, its checksum record and its directories have been written and synced without error, and an update that reports an error before the switch leaves the public name untouched.",
 ["crash_points","fault_sequences"],"every crash point and every failing system call during an update",
 "The update test is skipped; no test can stop an update at each step.",
 ["mirror/mirror.go","mirror/storage.go","mirror/dirsync.go"],[("Update, replaceLink, Save, DirSyncTree","mirror/*.go")],observe=["the public symbolic link"])
p("M02","Only verified files enter a mirror snapshot",
 "Every file fetched for a snapshot is stored only if the server answered 200, the whole body was received and synced, and, when an expected description is known, size and every listed checksum match it; data failing this is retried, fetched by hash when offered, or makes the update fail. A file is reused from the previous snapshot only if the recorded description matches the expected one in full.",
 ["inputs","fault_sequences"],"all server responses and failures, all previous snapshots",
 "No test downloads anything.",
 ["mirror/mirror.go","mirror/storage.go"],[("download, handleResult, reuseOrDownload, Storage.Lookup","mirror/*.go")],observe=["files linked into the snapshot"])
p("M03","A published snapshot is complete",
 "An update succeeds only if every suite yielded a usable Release or InRelease, every index selected by the configuration was stored or reported missing (404) by the server, every entry of the stored selected indices was collected, and every collected item was stored or reused. Any failed download, inconsistent checksum, failed link or cancellation makes the update fail.",
 ["inputs","fault_sequences","schedules"],"all repositories, configurations, failing downloads and cancellations",
 "The update test is skipped.",
 ["mirror/mirror.go"],[("Update, updateSuite, extractItems, downloadFiles, reuseOrDownload, recvResult","mirror/mirror.go")],observe=["result of Update, snapshot contents"])
p("M04","Garbage collection never removes anything in use",
 "Garbage collection of the mirror directory removes only direct entries of it and never the lock file, a symbolic link, or the directory a symbolic link currently points into; if any link cannot be resolved or the directory cannot be read, nothing is removed. When it succeeds, every other entry has been removed.",
 ["inputs","fault_sequences"],"all directory contents and failures",
 "There is no test of garbage collection.",
 ["mirror/control.go"],[("gc","mirror/control.go")],observe=["paths removed"])
p("M05","Only one mirror process works on a directory at a time",
 "No mirror is created, updated or garbage-collected unless the process holds the exclusive lock on the directory's lock file, and the lock is held until all update work has finished. If the lock cannot be opened or acquired, the run reports an error and changes nothing; when it ends, the lock is released and the file closed.",
 ["schedules","fault_sequences"],"all interleavings of two or more processes and all failures",
 "The test locks one file twice; it never runs two updates.",
 ["mirror/control.go","mirror/flock.go"],[("Run, Flock","mirror/control.go, mirror/flock.go")],observe=["flock state while updating"])
p("M06","The mirror respects its connection limit and never starves",
 "With a positive limit, at most that many downloads run at a time in a mirror: a slot is obtained before each download starts and exactly one is given back when it ends, on every path. A limit of zero means no limit, and a negative limit is refused with an error.",
 ["schedules","fault_sequences","configurations"],"all schedules, limits and download outcomes",
 "No test downloads anything.",
 ["mirror/mirror.go"],[("semaphore in NewMirror, download, downloadRelease, reuseOrDownload","mirror/mirror.go")],state=[("semaphore","free slots","Mirror")],observe=["concurrent upstream requests"])
p("M07","Repository data cannot place files outside the snapshot",
 "Whatever paths a repository's indices list, every link the mirror creates lies inside the snapshot directory of the update, below the mirror's own name; a path leading outside is refused with an error.",
 ["inputs"],"all paths appearing in repository indices",
 "Tests only store well-behaved paths.",
 ["mirror/storage.go"],[("StoreLink, StoreLinkWithHash","mirror/storage.go")],observe=["paths of created links"])
p("M08","Snapshot records and links agree",
 "Storing a file that is not yet stored records its description under its path and links the given file there; storing the same path again is refused and changes neither record nor link. Storing with by-hash additionally records and links it under its MD5, SHA-1 and SHA-256 by-hash paths, keeping an already stored canonical path, and a lookup returns a recorded description with its location only if it matches the expected one, trying the SHA-256 by-hash path first when asked. A saved record, loaded again, gives the same answers.",
 ["inputs","histories","fault_sequences"],"all histories of store, lookup, save and load operations",
 "Tests store four files once.",
 ["mirror/storage.go"],[("StoreLink, StoreLinkWithHash, Lookup, Save, Load","mirror/storage.go")],state=[("info","recorded descriptions by path","Storage")],observe=["Lookup results, links"])
p("M09","The configuration selects exactly the configured indices",
 "For a flat repository, Packages (and Sources if sources are mirrored) are selected; otherwise an index is selected exactly if its path, without extension, ends at a path-component boundary in a configured section followed by binary-all or binary-<configured architecture> and Packages, or, if sources are mirrored, by source and Sources. Index and Release files are always selected. The Release files fetched for a suite are the plain, .gpg, .gz and .bz2 Release and the plain, .gz and .bz2 InRelease, under dists/<suite> or directly under a flat suite's directory.",
 ["inputs","configurations"],"all configurations and index paths",
 "Tests try a dozen paths on two configurations.",
 ["mirror/config.go"],[("MatchingIndex, ReleaseFiles, rawName","mirror/config.go")],observe=["results of MatchingIndex and ReleaseFiles"])
p("M10","Bad mirror configurations are refused before any work",
 "Preparing a mirror fails with an error, without creating a snapshot directory, if the mirror is not configured, its identifier contains anything but lowercase letters, digits, underscore and hyphen, it has no suites, mixes flat and non-flat suites, or gives sections or architectures for a flat repository. A repository URL is accepted only with scheme http or https and its path is made to end in a slash.",
 ["configurations","inputs"],"all configurations",
 "Tests try a few configurations.",
 ["mirror/config.go","mirror/mirror.go"],[("NewMirror, MirrConfig.Check, UnmarshalText","mirror/*.go")],observe=["result of NewMirror, Check, UnmarshalText"])
p("M11","No file handle or temporary file is leaked",
 "Every file the mirror and the proxy open is closed on every path, including error paths, unless it is handed to the caller, and every temporary file created for a download is removed once its result has been handled, whatever the outcome.",
 ["fault_sequences"],"all failure points of all operations that open files",
 "Tests never make a system call fail.",
 ["mirror/mirror.go","mirror/dirsync.go","mirror/storage.go","cacher/cacher.go","cacher/storage.go"],[("defer Close / closeAndRemoveFile","all")],observe=["open descriptors, _tmp files"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x)+"\n")
print(len(P))
