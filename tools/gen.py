#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json (one source for both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "dataladmetadatamodel/"
G = M + "mapper/gitmapper/"

P = []


def prop(id, title, statement, over, text, tests, files, mechanism,
         technique, note, level="exploration", state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier={"over": over, "text": text},
        why_tests_cant=tests,
        anchors={
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe),
            "hook_needed": None},
        technique=technique, note=note, level=level))


prop("C01", "What is saved is what is read back",
     "Every metadata object (metadata, file tree, dataset tree, metadata root record, "
     "version list, UUID set, tree version list) that was saved to a git repository and "
     "is loaded again from its reference, in another process, has exactly the content it "
     "had when it was saved: all paths, versions, time stamps, identifiers, extractor "
     "runs and JSON values, nothing added, dropped, or altered. This includes path names with any characters that git "
     "can store, any JSON content, empty and missing parts, and any git configuration of the user.",
     ["inputs", "configurations"],
     "all object graphs with valid names and JSON content, all user git configurations",
     "Tests store a handful of fixed ASCII trees and read them in the same process; "
     "quoting, line endings, empty sub-trees, unicode separators and git settings are not sampled.",
     [M + "mtreenode.py", M + "metadata.py", M + "metadatarootrecord.py", M + "versionlist.py",
      M + "uuidset.py", G + "mtreenodemapper.py", G + "metadatamapper.py",
      G + "metadatarootrecordmapper.py", G + "versionlistmapper.py", G + "uuidsetmapper.py",
      G + "gitbackend/subprocess.py", M + "common.py"],
     [("map_in/map_out of each class", G), ("escaping of tree entry names", G + "mtreenodemapper.py")],
     "runtime monitoring: cross-process read-back oracle and independent decoder of stored objects on generated hostile inputs",
     "Random hostile graphs of all classes under 10 git configurations; content judged twice "
     "(library in a new process, independent decoder). Sampled, not exhaustive; git itself is trusted.",
     observe=["library objects after load", "git objects"])

prop("C02", "No modification is ever lost",
     "Whatever sequence of changes, complete or partial saves, purges, loads, and new sessions is "
     "performed on a metadata store, a modification of any element, however deep, is contained in "
     "everything that is read from or saved by any of its containers afterwards (elements kept from a "
     "container that was purged meanwhile are not part of it any more). Discarding "
     "unsaved modifications from memory is refused with an error instead of losing them.",
     ["histories"],
     "all histories of modify, save, purge, load, copy, reload operations on nested containers",
     "Tests run single modify-save-load sequences; interleavings of partial saves and purges of nested containers are unexplored.",
     [M + "mappableobject.py", M + "modifiableobject.py", M + "mtreenode.py", M + "mtreeproxy.py",
      M + "versionlist.py", M + "uuidset.py", M + "metadatarootrecord.py", M + "metadata.py"],
     [("modification tracking", M + "modifiableobject.py"), ("purge refuses unsaved objects", M + "mappableobject.py")],
     "runtime monitoring: online model-based checker over random operation histories, offline comparison of stored state",
     "Random histories against a model with object identity; sampled histories up to 60 operations, one repository.",
     state=[("saved_on", "destinations on which the current state is saved", M + "modifiableobject.py")])

prop("C03", "Operations touch only the elements they need",
     "Looking up, extending, or enumerating one element of a large store reads and writes only the "
     "stored objects on the path to that element; saving a store in which nothing was modified writes nothing. Iterating over or copying all elements "
     "does not keep them in memory, and purged elements are released.",
     ["inputs", "histories"],
     "all stores and all single-element operations on them",
     "Tests have tiny stores and never look at which objects are read or written.",
     [M + "mappableobject.py", M + "mtreenode.py", M + "versionlist.py", M + "uuidset.py", G],
     [("lazy mapping of children", G + "mtreenodemapper.py"), ("skip of saved objects", M + "mappableobject.py")],
     "runtime monitoring: trace of all git commands checked against the object path computed by an independent decoder, live-object monitors",
     "All git commands are recorded and judged; memory through reachable-object counts. Sampled stores and operations.")

prop("C04", "Everything saved survives repository maintenance and transfer",
     "After a session saved the top-level objects and flushed the object references, the complete metadata content "
     "remains readable after any git maintenance (garbage collection, repacking, pruning), and after "
     "transferring only the metadata references to another repository. This also holds for stores with an "
     "object index in the old format, which is converted without losing an entry.",
     ["histories", "configurations"],
     "all histories of sessions, interleaved with all maintenance and transfer operations",
     "No test runs git gc or clones metadata; reachability of blobs referenced from JSON cannot be seen otherwise.",
     [G + "objectreference.py", G + "treeupdater.py", G + "metadatamapper.py",
      G + "metadatarootrecordmapper.py", G + "versionlistmapper.py", M + "mtreeproxy.py"],
     [("object reference index", G + "objectreference.py")],
     "runtime monitoring: fault workload (gc, prune, clone) with offline oracle over the surviving repository",
     "Random sessions followed by gc/repack/fetch/bundle/mirror; every leaf is decoded afterwards. Sampled.")

prop("C05", "A crash never damages the stored metadata",
     "If the process is killed at any point of loading, modifying, saving, or flushing, each of the "
     "stored top-level objects is afterwards completely readable and is one of the states that were "
     "explicitly saved: the old one or a newer one, never a mixture, and nothing stored earlier is lost, including the entries of "
     "the object index. Repeating the interrupted session leads to the intended state.",
     ["crash_points", "histories"],
     "all sessions, all points at which the process can be killed between two repository accesses",
     "Tests never kill the process.",
     [G + "versionlistmapper.py", G + "uuidsetmapper.py", G + "objectreference.py",
      G + "treeupdater.py", M + "mtreeproxy.py", M + "mappableobject.py"],
     [("references are updated after all objects are written", G + "versionlistmapper.py"),
      ("index is extended under lock", G + "objectreference.py")],
     "runtime monitoring: SIGKILL injection at every repository-writing command, offline oracle over the remaining repository",
     "Kill points are enumerated per session (all reference updates, all or sampled other commands); sessions are random. "
     "Crashes of git itself or of the operating system are not covered.",
     level="fault_enumeration")

prop("C06", "Failures of git are reported, never swallowed",
     "If a git command fails (disk full, permissions, locks, damaged repository, interruption), the operation raises an error "
     "or has its full effect; it never reports success, or that something is missing or saved, when it is not. The store keeps one of the states that were saved, "
     "and when the failing step is repeated after the cause is removed, the result is "
     "complete, as if there had been no failure.",
     ["fault_sequences", "histories"],
     "all sessions, all positions and kinds of failing git commands",
     "Tests only use working repositories.",
     [G + "gitbackend/subprocess.py", G + "objectreference.py", M + "mtreeproxy.py", M + "common.py",
      G + "metadatamapper.py", G + "gitblobcache.py", M + "mappableobject.py"],
     [("checked execution of git", G + "gitbackend/subprocess.py"),
      ("state is changed after success only", M + "mappableobject.py")],
     "runtime monitoring: fault injection into every git command of recorded sessions, oracle on reports, stored state, and retry result",
     "Every command of a session (sampled in the quick tier) fails in ten modes; sessions are random.",
     level="fault_enumeration")

prop("C07", "Concurrent writers that use the backend lock lose nothing",
     "When several processes modify the same store and each holds the backend lock of the repository during its "
     "load-modify-save-flush, at most one is inside at a time, independent of how the repository path is "
     "spelled and of nested locking, and the final store contains the modifications of all of them. "
     "The lock is released when an operation fails or its process dies, and concurrent flushes of object references do not lose entries of each other.",
     ["schedules", "histories"],
     "all interleavings of locked read-modify-write operations and flushes of several processes",
     "Tests are sequential.",
     [G + "utils.py", G + "objectreference.py"],
     [("locked_backend", G + "utils.py"), ("flush takes the lock", G + "objectreference.py")],
     "runtime monitoring: stress with injected delays, kills, exceptions; mutual-exclusion and conservation checkers over recorded event logs",
     "Distinct lock-acquisition orders are counted in the evidence. Threads of one process are out of scope (the lock is per process).")

prop("C08", "Deep copies are faithful, independent, and self-contained",
     "A deep copy of any metadata object into a repository has the same content as the original and can be read "
     "from that repository alone, even if the source repository is deleted and after the "
     "destination was flushed and garbage-collected. "
     "Copying writes nothing to the source repository, does not change the content or save state of the original, and later changes of either "
     "do not affect the other; a path prefix given for version lists is put in front of all their paths.",
     ["inputs", "histories"],
     "all objects of all classes, in all memory states, copied within and between repositories",
     "Tests copy freshly made small objects and compare them in memory.",
     [M + "mappableobject.py", M + "mtreenode.py", M + "mtreeproxy.py", M + "metadata.py",
      M + "metadatarootrecord.py", M + "versionlist.py", M + "uuidset.py", M + "text.py"],
     [("deepcopy and deepcopy_impl", M + "mappableobject.py")],
     "runtime monitoring: differential oracle on copy and original, write trace per repository, deletion and gc of the source",
     "All classes times eight memory states times two destinations, random content.")

prop("C09", "Trees behave like maps from paths to elements",
     "File trees, dataset trees and their underlying trees behave like a map from relative paths to elements: what was added is "
     "found under its path and nowhere else, enumeration reports every element exactly once with its path, removal removes exactly the "
     "given element or sub-tree. Additions that collide with existing "
     "elements (same path, or below or above an element) are refused without changing anything. All this holds "
     "independent of which parts are in memory, saved, or purged.",
     ["histories", "inputs"],
     "all histories of tree operations with all path sets, including colliding ones",
     "Tests use a few fixed path lists and mostly fresh trees.",
     [M + "mtreenode.py", M + "mtreeproxy.py", M + "filetree.py", M + "datasettree.py"],
     [("add_child_at, get_object_at_path, get_paths_recursive", M + "mtreenode.py")],
     "runtime monitoring: online comparison of every operation with a nested-dictionary model over random histories",
     "Random histories of 60 operations with collisions; sampled.")

prop("C10", "Metadata paths are relative and normalised values",
     "A metadata path is always relative, however it was created or derived (from strings with leading, "
     "repeated, or trailing slashes, from other paths, by joining, or as parent of another path), and it consists of exactly the given components. "
     "Paths with the same components are equal, have the same hash and text, and can be used interchangeably "
     "as keys; converting a path to text and back, copying, and pickling yield the same path.",
     ["inputs", "programs"],
     "all strings, argument lists and derivations; all supported Python versions",
     "Tests check four constructed paths.",
     [M + "metadatapath.py"],
     [("MetadataPath constructor", M + "metadatapath.py")],
     "runtime monitoring: invariant monitors and component-tuple oracle on generated paths and derivations",
     "Runs on the installed Python 3.12 only; POSIX path semantics.")

prop("C11", "Metadata keeps exactly one run per extractor and configuration",
     "A metadata object contains, for every extractor, exactly one run per extractor configuration: the one that was "
     "added last, with its provenance (time stamp, author, parameters) and content; adding a run changes no other "
     "run. All queries (extractors, runs, configurations, single runs) agree, and two metadata objects are "
     "equal exactly if they contain the same runs, independent of the order of addition.",
     ["histories", "inputs"],
     "all sequences of added runs with all configurations, before and after saving and loading",
     "Tests add one to three runs with fixed configurations.",
     [M + "metadata.py", M + "filetree.py"],
     [("MetadataInstanceSet", M + "metadata.py")],
     "runtime monitoring: dictionary-model oracle over random run sequences, differential equality checks",
     "Configurations are compared as Python compares parameters (1 equals 1.0).")

prop("C12", "Serialised objects round-trip and foreign ones are refused",
     "Every serialisable object (metadata, runs, run sets, extractor configurations, references, metadata sources) converted to JSON and back "
     "is equal to the original, and the JSON text is stable under repetition. Serialised data "
     "with another format version or another type identification, in the object itself or in any object nested in it, is never "
     "accepted as a valid object.",
     ["inputs"],
     "all objects of serialisable classes; all changes of version or type fields at any nesting level, given as text or stored in a repository",
     "Tests check two classes with one wrong version each.",
     [M + "__init__.py", M + "metadata.py", M + "mapper/reference.py", M + "metadatasource.py",
      G + "metadatamapper.py", G + "metadatarootrecordmapper.py", G + "versionlistmapper.py"],
     [("check_serialized_version and type assertions", M + "__init__.py")],
     "runtime monitoring: round-trip oracle and mutation of version/type fields in serialised and stored objects",
     "All version/type fields of generated objects are mutated with a list of wrong values; python -O is not covered.")

prop("C13", "Remote stores are readable and never written",
     "A store addressed by a remote URL shows the same content as the same store addressed locally, and each "
     "load of its top-level objects shows the current state of the remote; different remotes are never mixed up, and a remote that cannot be reached is reported as an error. Saving to a remote URL is refused with "
     "an error and no operation ever changes the remote repository; objects of a remote store can be copied into a local repository. "
     "This also holds for the first access, for several processes at once, after failures, and within git hooks.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "all stores, sets of remotes, update histories of remotes, schedules of loading processes, and failures of an access",
     "Tests mock the cache functions, no remote store is ever read.",
     [G + "localcache.py", G + "gitbackend/subprocess.py", M + "mapper/reference.py", M + "mappableobject.py"],
     [("local cache repository per remote", G + "localcache.py"), ("refusal of remote destinations", M + "mappableobject.py")],
     "runtime monitoring: differential oracle local/remote with redirected URLs, byte-level monitor on the remote repository",
     "Remote URLs are redirected to local repositories with git's url.insteadOf; network protocols themselves are not exercised.")

prop("C14", "The object index holds exactly what was registered",
     "After object references were flushed, the object index of the repository contains exactly its former entries and all objects that were registered for "
     "that repository since the last flush, each with its type, whatever their number and common hash prefixes. "
     "Entries of an old-format index are taken over completely before that is removed; "
     "flushing without pending registrations changes nothing.",
     ["inputs", "histories"],
     "all sets of object names (including long common prefixes), all histories of registrations and flushes on several repositories",
     "Tests use few random hashes; prefix collisions with existing entries of an old index are rare events.",
     [G + "objectreference.py", G + "treeupdater.py"],
     [("add_paths", G + "treeupdater.py"), ("flush_object_references", G + "objectreference.py")],
     "runtime monitoring: set-model oracle, index decoded independently after every flush",
     "Generated object names with 0-36 common leading digits, one to three repositories, with and without an old-format index.")

prop("C15", "Locating a metadata root record follows one consistent rule",
     "Asking for the metadata root record of a dataset (or of a sub-dataset within a version of its super-dataset) "
     "returns exactly the record stored for that dataset version, path prefix and tree path, or none if there is no such record. "
     "With automatic creation, the missing elements, and only these, are created and registered in both the "
     "tree version list and the UUID set, so that the same query finds the same record again after saving; without "
     "automatic creation nothing stored is changed.",
     ["histories", "inputs"],
     "all stores and all sequences of queries with and without automatic creation, for datasets and sub-datasets",
     "Tests check one creation and one failing lookup.",
     [M + "common.py"],
     [("get_top_nodes_and_metadata_root_record", M + "common.py")],
     "runtime monitoring: model-based oracle over random query sequences, stored state compared by independent decoder",
     "Queries are sampled from a small universe of datasets, versions, prefixes, and tree paths, so that collisions occur.")

prop("C16", "Metadata operations have no side effects on the repository's user",
     "No metadata operation changes the current branch, the index, the working tree, the configuration, or any reference of the repository other than the "
     "metadata references, nor the working directory or environment of the process, and no temporary "
     "files are left behind. Operations that only read (loading, looking up, enumerating, comparing) leave the "
     "repository completely unchanged.",
     ["histories"],
     "all histories of operations on repositories with user content",
     "Tests work in throw-away repositories and never look at the rest of them.",
     [G + "gitbackend/subprocess.py", G + "gitblobcache.py", G + "utils.py", M + "common.py"],
     [("git plumbing commands with explicit repository", G + "gitbackend/subprocess.py")],
     "runtime monitoring: file-system and reference snapshots around random histories",
     "Random histories on repositories with dirty work trees, staged changes, and several refs; byte snapshots.")

prop("C17", "Metadata sources deliver exactly the referenced bytes",
     "A metadata source that refers to a git object writes or copies exactly the bytes of that object, for "
     "all content (binary, empty, large) and repository paths, copying leaves the same object name in the "
     "destination, and raises an error if the object cannot be delivered. A source that contains immediate content writes the JSON text of it, its copies are "
     "independent, and every source converted to JSON and back is equal to the original.",
     ["inputs", "fault_sequences"],
     "all object contents, repository paths, and failing reads",
     "Tests use one short ASCII content.",
     [M + "metadatasource.py"],
     [("write_object_to, copy_object_to", M + "metadatasource.py")],
     "runtime monitoring: byte-exact oracle on generated contents, hostile paths, and missing objects",
     "Random binary contents up to 3 MB, paths with shell and quoting characters.")

prop("C18", "Stored identity depends on content only",
     "Saving equal content yields the same stored object (same location), independent of the repository, of the order in which tree entries were "
     "added, of the process and its hash seed, and of whether files were written one by one or in "
     "batches; different content yields different locations. Saving an object that was loaded and not modified, or modified back, again "
     "yields the location it was loaded from.",
     ["inputs", "programs"],
     "all objects; all insertion orders, processes, and repositories",
     "Tests never compare locations between processes or orders.",
     [G + "mtreenodemapper.py", G + "uuidsetmapper.py", G + "metadatamapper.py", G + "gitblobcache.py",
      M + "metadata.py"],
     [("content addressing through git", G + "gitbackend/subprocess.py")],
     "runtime monitoring: differential comparison of locations across repositories, processes, insertion orders and hash seeds",
     "Order independence is claimed for trees and UUID sets; runs and versions are ordered lists in the format.")

prop("C19", "Batched writing of file metadata stores every object",
     "Writing a file tree of any size stores all of its metadata objects, under the locations that are "
     "recorded for them, whatever the number of files in relation to the internal batch size, and the stored "
     "names are those that git computes. Nothing remains unwritten when the write returns, and after a failed "
     "write the next one works and is complete.",
     ["inputs", "fault_sequences"],
     "all file counts, contents, batch sizes; failures at any batch",
     "Tests write up to a few dozen files; the batch limit of 2000 objects is never reached.",
     [G + "gitblobcache.py", G + "metadatamapper.py", M + "mtreeproxy.py"],
     [("GitBlobCache.flush", G + "gitblobcache.py")],
     "runtime monitoring: store oracle (object exists, bytes equal, name equals git hash) at batch boundaries, with injected failures",
     "Sizes around multiples of the batch limit, including 999-1001, 2000-2001 files (quick), more in the thorough tier.")

prop("C20", "Data written by earlier releases stays readable and extensible",
     "Stores written in the older variants of format 2.0 (references that name the file-tree and dataset-tree classes, "
     "references that carry a storage family and a location of the repository, object index in separate tree and blob lists) are read with their complete content. "
     "After modifying and saving them, the old content is still complete and everything is protected as in a new store.",
     ["inputs", "histories"],
     "all stores encoded in every mixture of old and new variants, all modifications of them",
     "Tests contain one conversion of one reference.",
     [M + "mapper/reference.py", M + "mapper/mapper.py", G + "versionlistmapper.py",
      G + "metadatarootrecordmapper.py", G + "objectreference.py"],
     [("conversion of old references", M + "mapper/mapper.py"), ("legacy index migration", G + "objectreference.py")],
     "runtime monitoring: independent encoder of old variants as workload, decoder and read-back oracle",
     "The encoder was derived from the format descriptions and the compatibility code in the repository.")

prop("C21", "An object that claims to be saved, is saved",
     "Whenever an object reports that it is saved on a repository, its complete current content is stored there under the "
     "location the object reports. Every "
     "modification, however deep, revokes that report for the object and all its containers, and a "
     "successful save establishes it.",
     ["histories"],
     "all histories of modifications, partial and complete saves to several repositories, purges and loads",
     "Tests check the flag after single operations, never against the repository.",
     [M + "modifiableobject.py", M + "mappableobject.py", M + "mtreeproxy.py"],
     [("is_saved_on", M + "modifiableobject.py")],
     "runtime monitoring: every positive answer of the save-state query is verified by an independent decoder during random histories",
     "Two families of random histories (one store; one graph with two repositories).",
     state=[("saved_on", "destinations", M + "modifiableobject.py")])

prop("C22", "Several stores in one process do not influence each other",
     "When one process works on several repositories, in any interleaving, each repository ends up with "
     "exactly the content that was saved to it, and its object index names only its own objects. Each store is complete "
     "without the others: it survives their deletion and its own garbage collection.",
     ["histories", "schedules"],
     "all interleavings of histories on several repositories in one process",
     "Tests use one repository per test.",
     [G + "objectreference.py", G + "metadatamapper.py", M + "mappableobject.py"],
     [("registrations per repository", G + "objectreference.py"), ("write caches per repository", G + "metadatamapper.py")],
     "runtime monitoring: interleaved random histories on several stores, per-store model and decoder oracles",
     "Two or three stores per process.")

prop("C23", "Version lists and UUID sets behave like maps",
     "A version list is a map from dataset version and path prefix to a time stamp and an element, a UUID set a "
     "map from dataset identifier to version list: what was set is returned by every query, setting an existing key replaces "
     "exactly that entry, sizes and enumerations report every entry once, and a query for an unknown key fails with a key error. "
     "This holds independent of what is in memory, saved, or purged.",
     ["histories", "inputs"],
     "all histories of set, get, enumerate, save, purge, reload operations with all keys",
     "Tests contain fixed short sequences.",
     [M + "versionlist.py", M + "uuidset.py"],
     [("VersionList, TreeVersionList, UUIDSet", M + "versionlist.py")],
     "runtime monitoring: online comparison of every operation with a dictionary model over random histories",
     "Random histories with few versions and prefixes, so that replacement and sharing of versions occur.")

prop("C24", "A purged object behaves like a loaded one",
     "An object that was saved and removed from memory behaves in every operation exactly like the same object in memory: "
     "queries, modifications, saving, copying and enumeration give the same results; its content is loaded on demand. "
     "Loading is idempotent, and loading and purging without modification never "
     "change the content, the location, or the save state.",
     ["programs", "inputs"],
     "all operations of all classes on all objects in all memory states",
     "Tests call most methods on objects in memory only.",
     [M + "mappableobject.py", M + "metadata.py", M + "mtreenode.py", M + "mtreeproxy.py", M + "filetree.py",
      M + "datasettree.py", M + "metadatarootrecord.py", M + "versionlist.py", M + "uuidset.py"],
     [("ensure_mapped", M + "mappableobject.py")],
     "runtime monitoring: method-by-method differential execution on twins in different memory states",
     "All public methods of all classes; twins are built from the same random model.")

prop("C25", "Readers see complete, current states while others write",
     "While other processes modify, save and flush a store, each load of a top-level object shows completely one of the "
     "published states: the one that was current when the load started, or one that was published meanwhile, and never an older "
     "one than before. Elements that are loaded later belong to the same state as the object that they "
     "are loaded from. Reading never fails because of a concurrent writer, neither for the very first one.",
     ["schedules", "histories"],
     "all interleavings of git commands of readers (local or by URL) and writers on all stores",
     "All tests are sequential, no test has two processes.",
     [M + "common.py", M + "mappableobject.py", G + "versionlistmapper.py", G + "uuidsetmapper.py",
      G + "gitbackend/subprocess.py", G + "localcache.py"],
     [("references are updated after their objects were written", G + "versionlistmapper.py"),
      ("_read_top_level_object", M + "common.py")],
     "runtime monitoring: readers at the git commands of writers and vice versa, offline interval checker over logs of free running processes",
     "Interleavings at the granularity of git commands (thorough: all points of the chosen sessions), plus stress runs. "
     "Concurrent garbage collections use git's default grace period.")


def main():
    claimed = [p for p in P if os.path.exists(
        os.path.join(HERE, "rv", "checks", p["id"].lower() + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            d = {k: p[k] for k in ("id", "title", "statement", "quantifier",
                                   "why_tests_cant", "anchors")}
            f.write(json.dumps(d) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "true",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"./check {p['id']} quick",
            "thorough_cmd": f"./check {p['id']} thorough",
            "technique": p["technique"],
            "level": p["level"],
            "level_note": p["note"]} for p in claimed],
        "not_applicable": [
            {"property": p["id"], "reason": "check not built yet"}
            for p in P if p not in claimed],
        "notes": "Checks import the library from /repo's working tree; nothing is built. "
                 "See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


main()
