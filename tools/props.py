#!/usr/bin/env python3
"""Source of properties.jsonl (run it to rewrite the file)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, hook=False, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


PS = "python/virgo/mpi/parallel_sort.py"
prop("C01", "Parallel sort is a stable global sort that keeps every rank's element count",
     "Sorting a distributed array in place leaves exactly the same elements in ascending order across ranks (rank 0 "
     "first), every rank keeping the number of elements it had, equal elements keeping their original global order. "
     "The index returned on request is the permutation of global element numbers which, applied to the original array "
     "with a global fetch, reproduces the sorted array. It returns for any distribution of elements (empty ranks, all "
     "data on one rank, all values equal), any numeric type, on any communicator, and leaves other arrays alone.",
     ["inputs", "configurations", "schedules"],
     "all local array lengths including zero, all values and duplicates, all numeric dtypes, any number of ranks, any "
     "(reordered or partial) communicator, any message timing",
     "the tests sample a handful of random distributions at np 1,2,3,4,8; ties, empty ranks and splitting points which "
     "fall inside a run of equal values depend on exact counts per rank",
     [PS], [("splitting points", "find_splitting_points"), ("tie distribution, exchange, index", "parallel_sort")],
     ["array contents on each rank after the call", "returned index"])
prop("C02", "Global fetch and repartition move exactly the requested elements",
     "Fetching by global index returns on every rank the elements with those global numbers in the order requested, "
     "for any index list (repeated, unsorted, empty, pointing at any rank) and any row shape, into a new array or one "
     "supplied by the caller. Repartitioning returns the same global sequence of elements with exactly the requested "
     "number on each rank. Element type, row shape and units are preserved and the inputs are not modified.",
     ["inputs", "configurations", "schedules"],
     "all distributions of the array and of the indexes over ranks, with empty ranks, repeated indexes, "
     "multi-dimensional rows, unit-carrying arrays, messages beyond the chunk limit",
     "the tests use random indexes over evenly filled ranks; empty ranks share their first index with a neighbour and "
     "only particular count patterns show an off-by-one there",
     [PS], [("fetch by index", "fetch_elements"), ("change of partition", "repartition")],
     ["returned arrays on each rank", "input arrays after the call"])
prop("C03", "Every item of an all-to-all exchange arrives once, in place, without deadlock",
     "In an all-to-all exchange with per-destination counts and offsets each rank receives, at the offset it asked "
     "for, exactly the elements each other rank addressed to it, in order; elements of the receive buffer outside those "
     "ranges are untouched. Pairwise exchanges deliver both directions completely even if they differ in length. The "
     "call completes for every pattern of counts, number of ranks (powers of two or not), exchange method, message "
     "size (including messages split into chunks) and timing.",
     ["schedules", "inputs", "configurations"],
     "all count matrices including zeros and self-sends, permuted or gapped buffer layouts, both exchange methods, "
     "messages below and above the chunk size, eager and rendezvous transport, delayed ranks",
     "the tests never split a message (100 MB limit) and run one schedule; deadlock and chunk bookkeeping depend on "
     "unequal counts between partners",
     [PS], [("pairwise hypercube and async exchange", "my_alltoallv"), ("chunked pair exchange", "sendrecv")],
     ["receive buffers", "completion of the call on all ranks"])
prop("C04", "Parallel match finds the first equal element or reports none",
     "Matching distributed array A against distributed array B returns, for every element of A on its own rank and in "
     "its own order, the global index of the first element of B with the same value, or -1 if there is none. This "
     "holds when values repeat in either array, when the arrays are distributed differently, when either is empty on "
     "some or all ranks, and when B was already globally sorted and the caller says so. Neither input is modified.",
     ["inputs", "configurations", "schedules"],
     "all pairs of distributed arrays with duplicates, disjoint ranges, empty ranks, signed/unsigned/float values",
     "the tests mostly use unique values spread over all ranks; a value which spans several ranks of the sorted copy, or "
     "lies in the gap between two ranks, needs particular data",
     [PS], [("range of values per rank, lookup and return trip", "parallel_match")],
     ["returned index array", "inputs after the call"])
prop("C05", "Parallel unique returns each distinct value once with its full count",
     "The distinct values of a distributed array are returned once each, in ascending order across ranks, and the "
     "counts returned on request are the number of occurrences over all ranks, in the same partition as the values. "
     "With repartitioned output the numbers of values on any two ranks differ by at most one. This holds for values "
     "that span any number of ranks, empty ranks, pre-sorted input and unit-carrying arrays, and the input is unchanged.",
     ["inputs", "configurations"],
     "all distributions and multiplicities, including a value filling several whole ranks, for every flag combination",
     "runs of one value across three or more ranks, and ranks whose only value started on an earlier rank, occur only "
     "for special data; units on ranks with no data were never tested",
     [PS], [("merging of boundary values", "parallel_unique")],
     ["returned values and counts on each rank"])
prop("C06", "Distributed reductions and histograms apply every update exactly once",
     "Reducing updates into a distributed array combines every update with the element its global index names, exactly "
     "once, whichever rank either lives on, for numpy ufuncs and MPI operators and rows of any shape; other elements "
     "are unchanged. A distributed bincount equals the serial histogram of the concatenated input, weighted or not, "
     "with at least the requested number of bins spread evenly over ranks, or accumulated into the caller's result.",
     ["inputs", "configurations"],
     "all index multisets and distributions, repeated indexes within and between ranks, empty ranks, multi-dimensional "
     "rows, all integer input types, weights, minimum lengths and supplied results",
     "the tests draw random indexes; repeated indexes with unequal local counts and supplied results with empty ranks "
     "are rarely produced",
     [PS], [("routing and application of updates", "reduce_elements"), ("histogram", "parallel_bincount")],
     ["array contents after the call", "returned histogram"])
prop("C07", "Gathering concatenates in rank order; absent arrays become typed empties",
     "Gathering a distributed array on one rank or on all ranks returns the local parts joined in rank order along the "
     "chosen axis, with unchanged element type, and nothing on the other ranks. Where some ranks have no array at all, "
     "replacing it yields a zero-length array with the element type and row shape found on the ranks that have one, "
     "and nothing if no rank has one.",
     ["inputs", "configurations"],
     "all local lengths including zero, roots, axes, row shapes and sets of ranks without data",
     "only simple lengths are tested; roots other than 0, second-axis gathers and several missing ranks are not",
     ["python/virgo/mpi/gather_array.py", PS, "python/virgo/mpi/util.py"],
     [("gather", "gather_array, allgather_array"), ("first-rank and 2D gather", "gather_to_first_rank, gather_to_2d_array"),
      ("replacement of missing arrays", "replace_none_with_zero_size")],
     ["returned arrays on each rank"])
prop("C08", "Group membership of particles follows the groups' lengths and offsets",
     "Given the lengths and offsets of groups stored in order in a particle list (gaps and empty groups allowed), each "
     "particle of the distributed list gets the global number of the group whose range contains its position, or -1, "
     "and on request its position within that group, else -1. This holds for every distribution of groups and of "
     "particles over ranks, including groups that span several ranks and ranks with no groups or no particles.",
     ["inputs", "configurations"],
     "all ordered group catalogues with gaps and zero lengths, all distributions of groups and particles, signed and "
     "unsigned inputs",
     "the tests use contiguous groups on evenly filled ranks; groups spanning empty ranks and gaps at rank boundaries "
     "need chosen counts",
     ["python/virgo/mpi/util.py"], [("routing of groups to ranks and local assignment", "group_index_from_length_and_offset")],
     ["returned group numbers and in-group ranks"])
prop("C09", "Halos are matched to the halo receiving most of their particles",
     "For every halo of the first snapshot the matched halo of the second is the one which holds the largest number of "
     "the particles the two have in common (by particle ID), the lowest numbered on a tie, or -1 if no particle of it "
     "is in any halo of the second; the result is partitioned as requested. The consistency flag of a halo is 1 exactly "
     "if its match's match is that halo itself, else 0.",
     ["inputs", "configurations"],
     "all assignments of particles to halos in two snapshots, any distribution over ranks, unmatched particles, ties, "
     "fewer halos than ranks",
     "not tested by the suite at all; ties and uneven halo distributions need particular data",
     ["python/virgo/mpi/merger_tree.py"], [("majority vote", "match_halos"), ("bijective check", "consistent_match")],
     ["returned match index and flags"])

H5 = "python/virgo/mpi/parallel_hdf5.py"
prop("C10", "Collective dataset read and write round-trip for any partition and buffer",
     "Collectively writing distributed data creates (or fills) a dataset holding the local parts joined in rank order, "
     "and collectively reading a dataset returns its rows in order divided over the ranks with none lost or repeated. "
     "This holds for every number of rows per rank (including none), row shape, element type and buffer size, and "
     "attributes given with the data are stored and read back with it.",
     ["inputs", "configurations"],
     "all per-rank lengths, row shapes, numeric dtypes, buffer sizes from less than one row to more than everything",
     "tests use a few sizes; the switch between small broadcast reads and chunked collective reads and the last partial "
     "chunk depend on exact sizes",
     [H5], [("read", "collective_read"), ("write", "collective_write")],
     ["file contents", "returned arrays"])
prop("C11", "Reading a multi-file dataset returns every file's rows once, in file order",
     "Reading datasets from a numbered or listed set of files returns, over ranks in order, the rows of file 0, then "
     "file 1 and so on, each exactly once, whether there are more or fewer files than ranks and however unevenly rows "
     "are spread; the file numbers and per-file element counts returned on request agree with that. Datasets or groups "
     "missing from some files contribute no rows, ranks without rows get empty arrays of the right type and shape, and "
     "attributes and units come with the data.",
     ["inputs", "configurations"],
     "all numbers of files and ranks, all per-file row counts including zero and missing datasets, file lists, formats, "
     "first file indexes, groups, unpacked or dictionary results",
     "the tests use fixed file counts with non-empty datasets everywhere for most cases",
     [H5], [("file assignment", "assign_files"), ("independent and collective reads", "MultiFile.read"),
            ("per-file counts", "MultiFile.get_elements_per_file")],
     ["returned arrays, file numbers, counts, attributes"])
prop("C12", "Writing a multi-file dataset puts each requested slice in its file",
     "Writing distributed arrays to a set of files with given numbers of elements per file leaves in file i exactly the "
     "i-th slice of the global array, in order, with its row shape, type, attributes and group, whatever the numbers of "
     "ranks and files. Reading the set back gives the original global sequence. Files opened for appending keep their "
     "other contents.",
     ["inputs", "configurations"],
     "all numbers of files and ranks, per-file counts including zero, distributions over ranks, several datasets at "
     "once, file modes and groups",
     "tests write a few fixed layouts; files spanning ranks unevenly, empty files and appends are combinations",
     [H5], [("redistribution and file output", "MultiFile.write")],
     ["file contents after the call"])
prop("C13", "Bad input fails on every rank together: no hang, no partial success",
     "When command line arguments are wrong, an array given to a collective write has inconsistent type or shape on different ranks, or "
     "files of a set disagree about a dataset's type or shape, every rank gets an error (or the whole job stops); no "
     "rank is left waiting and none carries on as if nothing happened. Correct arguments parsed on one rank reach all "
     "ranks, and an exception inside a function marked for error checking ends the whole job.",
     ["fault_sequences", "configurations"],
     "every choice of failing rank and kind of inconsistency, with the other ranks at any point",
     "hangs and partial failures show only when a particular rank is the odd one out, under a time limit",
     [H5, "python/virgo/mpi/util.py", "python/virgo/mpi/errchk.py"],
     [("argument parser", "MPIArgumentParser"), ("abort decorator", "mpi_errchk"), ("consistency checks", "collective_write, MultiFile.read")],
     ["exceptions on each rank, exit code and time of the job"])
prop("C14", "Serial matching and range arithmetic agree with their set definitions",
     "Matching returns for each element of the first array the index of an equal element of the second, or -1, for "
     "sorted or unsorted input and any supplied sorting index. Assigning ranges sets exactly the elements covered by "
     "each offset and length to the range's value, and range sums equal the (optionally weighted and normalised) sums "
     "over each range, zero for empty ranges, for ranges in ascending order; ranges which overlap or are out of order "
     "are reported as an error and change nothing.",
     ["inputs"], "all arrays with duplicates, all range lists with gaps and empty ranges",
     "these functions have no tests",
     ["python/virgo/util/match.py", "python/virgo/util/ranges.py"],
     [("match", "match"), ("ranges", "assign_ranges, sum_ranges")], ["returned arrays"])
prop("C15", "Peano-Hilbert keys are a bijection along which neighbours are adjacent",
     "For every grid resolution the key of a cell is unique, keys fill 0 to 8^n-1, and converting a key back gives the "
     "cell it came from. Consecutive keys belong to cells which share a face, and keys at a coarser level are the "
     "prefixes of keys at a finer level. Coordinates map to the key of the cell containing them, for arrays of any length.",
     ["inputs"], "all cells for small resolutions, sampled cells at large ones, arrays longer than the internal block size",
     "there are no tests; adjacency and inversion are properties of all cells",
     ["python/virgo/util/peano.py"], [("keys and inverse", "peano_hilbert_keys, peano_hilbert_key_inverses")], ["returned keys and cells"])
RB = "python/virgo/util/read_binary.py"
prop("C16", "Binary files decode to the bytes at the declared place in the declared order",
     "Each declared item of a binary file occupies the bytes right after the previous one (plus skipped bytes and "
     "record markers), and reading it - whole, by index, slice or by path through groups - returns those bytes as the "
     "declared type and shape in the byte order in force. Byte order can be set or toggled at any time and applies to "
     "every item and attribute, and record markers which disagree, or data beyond the end of the file, are reported as errors.",
     ["inputs", "histories"],
     "all sequences of declarations, types, shapes, byte orders, record structures and selections",
     "the tests never read these files; byte order, record checks and offsets depend on the sequence of declarations",
     [RB], [("layout cursor", "BinaryFile"), ("item reads", "BinaryDataset")], ["returned arrays, errors"],
     state=[("offset", "position of the next item", "BinaryFile"), ("endian", "byte order in force", "BinaryFile")])
prop("C17", "Any number of open binary files stays readable; exports copy the content",
     "However many binary files are open at once, and in whatever order they are read, closed or dropped, each item "
     "read comes from its own file's current bytes, while the number of simultaneously mapped files stays bounded. "
     "Exporting a binary file to HDF5 reproduces every item and attribute, and checking that all bytes are accounted "
     "for succeeds exactly when the declared layout covers the file.",
     ["histories"], "all histories of opening, reading, writing, closing and dropping files beyond the cache size",
     "the cache is shared by all files in a process and evicts only beyond 32 open files",
     [RB], [("mapping cache", "BinaryFile"), ("export", "write_hdf5, write_binary, hash, all_bytes_used")], ["returned data, open maps"])
prop("C18", "File name templates and multi-file concatenation follow their arguments",
     "Partially filled file name templates substitute exactly the fields given and leave the others, with their format, "
     "to be filled later, giving the same name as filling all at once (templates without escaped braces). Reading a numbered set of files joins, for every "
     "requested dataset, the arrays of each file index in the order given along the chosen axis. The simulation "
     "specific readers open the file their naming scheme prescribes for the given directory, snapshot and file number.",
     ["inputs", "configurations"], "all templates with positional and named fields, formats and conversions, all index lists",
     "there are no tests", ["python/virgo/util/partial_formatter.py", "python/virgo/util/read_multi.py", "python/virgo/sims"],
     [("templates", "PartialFormatter"), ("concatenation", "read_multi"), ("naming", "sims/*")], ["returned strings, arrays, opened paths"])
prop("C19", "Merger trees are numbered depth first with the main branch first",
     "Depth-first indexing numbers the nodes of each tree so that every node's progenitors have consecutive numbers "
     "after it, the most massive branch first; the last progenitor and main branch end number exactly the node's "
     "subtree and its main branch. The main progenitor is the progenitor with the largest branch mass, and tree and "
     "branch masses are the sums over the nodes they cover.",
     ["inputs"], "all forests, any order of nodes in the file, ties, single nodes",
     "there are no tests; the numbering is a property of every tree shape",
     ["python/virgo/database/index_trees.py"],
     [("numbering", "depth_first_index"), ("masses", "find_main_progenitor, find_progenitor_tree_mass, find_progenitor_branch_mass_delucia")],
     ["returned arrays"])
prop("C20", "Tables exported for the database contain every node once with its values",
     "Exporting merger trees writes one row per node with the declared columns in the declared order and types, in the "
     "native bulk-load layout, such that reading the file back with the declared column types gives the original values, "
     "and the table definition lists exactly those columns.",
     ["inputs"], "all tables of supported column types and lengths", "there are no tests",
     ["python/virgo/database/make_dtrees_table.py"], [("bulk format", "write_sql_server_native_file"), ("types", "sql_type, numpy_type")],
     ["files written"])
prop("C21", "Gadget snapshots are read exactly as laid out, in either byte order",
     "Opening a Gadget type 1 snapshot of either byte order gives the header attributes and, for every particle type "
     "present, exactly the arrays stored for that type (positions, velocities, identifiers of either width, masses only "
     "where they are not fixed by the header, gas properties and extra blocks), single or double precision. Types with "
     "no particles have no arrays. A file which ends inside a record, or whose record markers disagree with its contents, "
     "is not accepted.",
     ["inputs", "configurations"], "all particle counts per type, mass tables, widths, byte orders, extra datasets",
     "there are no tests; offsets of later blocks depend on all counts and flags before them",
     ["python/virgo/formats/gadget_snapshot.py"], [("layout", "GadgetBinarySnapshotFile")], ["returned arrays"])
prop("C22", "Group catalogue files of every supported format decode field by field",
     "Every reader of binary group catalogue and particle ID files returns each catalogue field with the values, type "
     "and shape stored, for any number of groups, subgroups and IDs including none, either byte order, and every format "
     "option (identifier width, optional fields). A consistent file passes the reader's sanity check; for the P-Gadget3 and "
     "L-Gadget3 formats, whose checks compare it, a file whose size does not match its header is reported.",
     ["inputs", "configurations"], "all counts, byte orders and option combinations of the subfind variants",
     "there are no tests; each field's position depends on all counts before it",
     ["python/virgo/formats/subfind_lgadget2.py", "python/virgo/formats/subfind_lgadget3.py",
      "python/virgo/formats/subfind_pgadget3.py", "python/virgo/formats/subfind_gadget4.py"],
     [("readers", "GroupTabFile, GroupIDsFile, SubTabFile, SubIDsFile")], ["returned arrays, sanity check result"])
prop("C23", "Multi-file catalogues and group-ordered snapshots return exactly a group's data",
     "A catalogue split over any number of files reads as one: fields joined in file order, files without groups "
     "contributing nothing. Reading the particles of a group or subgroup from a group ordered snapshot split over any "
     "number of files returns exactly the particles in that group's range of each type, in order, and for Gadget-4 the "
     "subgroup each belongs to. (Catalogues with at least one group; P-Gadget3 ranges with at least one particle.)",
     ["inputs", "configurations"], "all splits of groups and particles over files, all groups, types and datasets",
     "there are no tests; ranges which start, end or span file boundaries are special cases",
     ["python/virgo/formats/subfind_pgadget3.py", "python/virgo/formats/subfind_gadget4.py"],
     [("catalogue", "GroupCatalogue"), ("ranges", "GroupOrderedSnapshot")], ["returned arrays"])
prop("C24", "Hash-table snapshot reads return exactly the particles of the selected cells",
     "Reading a set of hash cells from a cell-ordered snapshot returns the particles stored in those cells and no "
     "others, wherever the cells lie among the snapshot's files, and reading a region returns every particle in it and only "
     "particles stored in cells which exist, in file order. (At least one cell or a non empty region is asked for.) The "
     "sanity check passes a consistent file and reports particles outside their cell, the box or the identifier range, "
     "and positions or velocities which are not finite.",
     ["inputs", "configurations"], "all hash tables, splits over files, cell selections and regions with periodic wrap",
     "there are no tests", ["python/virgo/formats/subfind_lgadget2.py"], [("cells and regions", "SnapshotFile, Snapshot")], ["returned arrays"])
prop("C25", "Tree, auxiliary, Rockstar and VELOCIraptor files decode field by field",
     "The readers of merger tree files, their auxiliary and descendant files, Rockstar halo binaries and VELOCIraptor "
     "binary catalogues return every field of every record with the stored values, type and shape for any counts "
     "including zero, in the byte order and with the options given. (Formats without a byte order are in native order.)",
     ["inputs"], "all counts and byte orders", "there are no tests",
     ["python/virgo/formats/mpa_trees.py", "python/virgo/formats/rockstar.py", "python/virgo/formats/velociraptor.py"],
     [("readers", "SubDescFile, TreeAuxFile, TreeFile, HalosFile, PropertiesFile")], ["returned arrays"])
prop("C26", "SWIFT and SOAP readers attach the units and scale factors the file declares",
     "Datasets of SWIFT snapshots and SOAP catalogues are returned with the units their attributes declare (including "
     "powers of the scale factor and Hubble parameter), so that converting to physical CGS units gives the stored "
     "numbers times the declared conversion factor - for any selection, dimensionless and scalar datasets, groups at any "
     "depth and however many files are open; the swiftsimio mode marks comoving arrays as such and refuses what it can "
     "not express.",
     ["inputs", "configurations", "histories"], "all exponents, unit systems, scale factors and histories of several open files", "there are no tests",
     ["python/virgo/formats/swift.py", "python/virgo/formats/soap.py"], [("units", "SwiftSnapshot, SOAPCatalogue")], ["returned arrays"])
prop("C27", "Fortran wrapper datasets and attributes round-trip for every rank and kind",
     "Writing a dataset or attribute of any supported kind (4 and 8 byte integers and reals, strings) and rank through "
     "the Fortran wrapper, whole or as a section at an offset, extendable or compressed, and reading it (or a section of "
     "it) back gives the values written, and its reported dimensions and type are those written.",
     ["inputs", "histories"], "all kinds, ranks, shapes, sections and storage options",
     "the Fortran tests cover one example of each call",
     ["fortran/hdf5_wrapper/src"], [("write", "hdf5_write_data"), ("read", "hdf5_read_data")], ["values read, HDF5 file contents"])
prop("C28", "Fortran wrapper handles name their own file through any history of calls",
     "Through any sequence of creating, opening, writing, overwriting, reading and closing up to the maximum number of "
     "files, each handle refers to its own file, a read returns what that file currently contains, closed handles can "
     "be reused, and misuse (writing a read-only file, unknown handles, missing items) is reported as an error instead "
     "of touching another file.",
     ["histories"], "all histories over several files, with repeated names, overwriting and re-opening",
     "the tests use one file at a time; the read cache and handle table only show with interleaved histories",
     ["fortran/hdf5_wrapper/src"], [("handle table and dataset cache", "hdf5_open_file, hdf5_close_file, hdf5_read_data")], ["values read, reported errors"])
prop("C29", "Directory checksums list every wanted file once, for any ranks, kill and resume",
     "hash_dirs_mpi.py run on any number of ranks, in any order of progress, ends, and its output files list every file "
     "below the directory which the include and exclude patterns select (its own output files excepted) exactly once, "
     "in order, with the checksum of its content or UNREADABLE; the database has a row for each checksum computed. If a "
     "job is killed at any moment the database has only right, unrepeated rows, and a job which resumes from it uses "
     "exactly those of its own directory and type, computes the others and leaves what an uninterrupted one would.",
     ["histories", "crash_points", "schedules", "inputs"], "all trees, patterns, numbers of ranks, interleavings, kill points and sequences of jobs sharing a database",
     "there are no tests",
     ["consistency_check/hash/hash_dirs_mpi.py"], [("task farm", "DirectoryList.request_task, process_requests"), ("selection and output", "hash_dir, recursive_hash")],
     ["output file", "directory files", "database rows", "exit or hang"])
prop("C30", "File presence checks report exactly the missing or incomplete outputs",
     "For any simulation directory, check_eagle_file_presence.py and check_pgadget3_file_presence.py print one line for "
     "every output asked for (all types, snapshots and snipshots, first to last number by step), which says OK exactly "
     "if the first file can be read and all the files it declares are there, and otherwise how many of how many are, or "
     "that there are none (no, or more than one, matching directory or an unreadable first file); other files in the "
     "directory do not count, and the summary counts the incomplete outputs of each type.",
     ["inputs", "histories"], "all combinations of present, missing, spoilt and stray files and directories, and ranges of snapshots",
     "there are no tests",
     ["consistency_check/eagle/check_eagle_file_presence.py", "consistency_check/p-gadget3/check_pgadget3_file_presence.py"],
     [("counting", "check_dir"), ("report", "check_eagle_run, check_pgadget3_run")], ["printed report", "exit code"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
