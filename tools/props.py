#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 tools/props.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(obs),hook_needed=hook)))

p("S01","Dynamically loaded sparse fields always read back the stored values",
 "A voxel of a sparse field that was opened with memory-limited (dynamic) loading has exactly the value that was written to the file, whatever the memory limit, whichever blocks were evicted or flushed before, and however many threads read, iterate, sample, copy, open or destroy fields at the same time. Nothing a thread reads was freed or overwritten by another thread.",
 ["schedules","histories","configurations"],
 "all interleavings of reader threads (voxel access, iterators, interpolated lookups, copies, field destruction, cache flushes, limit changes) over any number of dynamically loaded fields of any supported data type, block order and memory limit, including limits smaller than one block",
 "The unit tests never run the block cache from two threads: they read dynamic fields sequentially with one generous limit, so no eviction ever meets a concurrent reader.",
 ["export/SparseFile.h","src/SparseFile.cpp","export/SparseField.h","include/OgSparseDataReader.h","export/SparseDataReader.h"],
 [("second-chance block cache with per-block pins and locks","src/SparseFile.cpp deallocateBlock(), export/SparseFile.h activateBlock()/incBlockRef()"),("readers pin the block around every access","export/SparseField.h fastValue(), const_iterator")],
 [("block cache list, loaded flags, reference counts","which blocks are resident and pinned","export/SparseFile.h")],
 ["SparseField value(), fastValue(), cbegin()/cend(), LinearFieldInterp/CubicFieldInterp::sample on fields read by Field3DInputFile with setLimitMemUse(true)"])

p("S02","The sparse block cache honours its limit and its books always balance",
 "While sparse fields are read through the memory-limited cache, the voxel data resident never exceeds the configured limit by more than two blocks per thread or live iterator reading at that moment. The reported number of loaded blocks always equals the blocks actually resident, and once all dynamic fields are destroyed or the idle cache is flushed, the cache reports nothing loaded, every block's memory has been released, and the full limit is available again.",
 ["schedules","histories","configurations"],
 "all interleavings of reads, evictions, flushes, copies and field destruction from several threads, over any sequence of limits and fields",
 "The existing tests only print cache statistics after one sequential pass; they never compare them with actual residency nor after concurrent eviction, flush and destruction.",
 ["export/SparseFile.h","src/SparseFile.cpp","export/SparseField.h"],
 [("deallocation before load, subtraction on unload, removal of a dying field","src/SparseFile.cpp deallocateBlocks(), flushCache(); export/SparseFile.h activateBlock(), removeFieldFromCache()")],
 [("memory-in-use counter and cache list","accounted bytes and resident blocks","export/SparseFile.h SparseFileManager")],
 ["SparseFileManager numLoadedBlocks(), totalLoads(), totalLoadedBlocks(), flushCache(); live voxel-buffer bytes of the process"])

p("S03","Reads of dynamically loaded fields always finish",
 "Every voxel read, iteration step, copy, destruction or cache flush on memory-limited sparse fields completes in a bounded number of steps once its thread is scheduled, for every memory limit and every set of concurrent readers; threads never deadlock and never search for evictable memory forever.",
 ["schedules","configurations","histories"],
 "all fair schedules of any number of threads, with limits from zero upward and any number of blocks held by iterators",
 "No test runs the cache under contention or with a limit near the size of the blocks in use, which is where lock cycles and endless eviction sweeps would show.",
 ["export/SparseFile.h","src/SparseFile.cpp","export/SparseField.h"],
 [("fixed order of manager, block and reader locks; clock sweep","src/SparseFile.cpp deallocateBlocks(), deallocateBlock(); export/SparseFile.h activateBlock()")],
 [("clock hand and block pins","sweep position","export/SparseFile.h m_nextBlock, refCounts")],
 ["return of SparseField value()/iterator calls and SparseFileManager calls in every simulated thread"])

p("S04","A failed block load is reported and leaves the cache usable",
 "When loading a block of a dynamically loaded field fails (a read error, a file that became shorter, a failed open or a failed allocation), the access reports an error and no made-up value is returned, to that access or any later one. When the fault is gone, the same voxel reads back its stored value, and the cache's limit, counts and pins are as if the failed access had not happened.",
 ["fault_sequences","schedules","histories"],
 "every placement of transient I/O and allocation faults within block loads, from any number of reading threads",
 "The tests run on a healthy disk; no test injects a failing read or allocation into a block load.",
 ["export/SparseFile.h","src/SparseFile.cpp","include/OgSparseDataReader.h","include/OgIDataset.h","src/IStreams.cpp"],
 [("load block, then mark loaded and account","src/SparseFile.cpp loadBlock(); export/SparseFile.h activateBlock()")],
 [("block loaded flag","set only after data is complete","export/SparseFile.h")],
 ["exceptions and values from SparseField value()/iterators; SparseFileManager statistics"])

p("S05","A dynamic block is read once while it stays; cache statistics count just that",
 "However many threads look into the same dynamically loaded block at the same time, it is read from the file once for as long as it then stays in memory. Once no access is in progress, the cache's statistics say exactly what happened: the number of loads, the number of different blocks loaded since the last reset (or still in memory), the number of blocks in memory and the ratios computed from them; a flush empties the memory count only, a reset the load counts only, and fields that are gone are counted no more. Without a reset the reported counts of loads never fall while readers run.",
 ["schedules","histories","configurations"],
 "all schedules of any number of readers over any fields, limits (with and without evictions), flushes and resets",
 "The tests read from one thread; loading a block twice gives the same voxels and only shows as extra I/O, wrong counts and memory that is accounted twice.",
 ["export/SparseFile.h","src/SparseFile.cpp","export/SparseField.h"],
 [("loaded flag checked again under the lock; load counter per block","export/SparseFile.h activateBlock(); src/SparseFile.cpp loadBlock(), totalLoads(), totalLoadedBlocks(), resetCacheStatistics()")],
 [("load counters and loaded flags","what the statistics are made of","export/SparseFile.h loadCounts, blockLoaded")],
 ["SparseFileManager totalLoads(), totalLoadedBlocks(), numLoadedBlocks(), cacheFractionLoaded(), cacheLoadsPerBlock(), cacheEfficiency(), resetCacheStatistics(), flushCache()"])

p("W01","Parallel sparse writing: terminates, and content is schedule-independent",
 "Writing sparse fields with any number of I/O threads always terminates and produces a file whose content, read back, is exactly the field written; for a given field the bytes of the file do not depend on the number of threads or on how they were scheduled.",
 ["schedules","inputs","configurations"],
 "all schedules of 1..n writer threads, over fields with any pattern of empty and allocated blocks, block order and data type",
 "Tests use real threads on a handful of fields; the window in which two writer threads disagree about whose block is next is a few instructions wide.",
 ["src/SparseFieldIO.cpp","src/InitIO.cpp","src/OStream.cpp","src/OGroup.cpp","src/OData.cpp"],
 [("compress in parallel, append strictly in block order","src/SparseFieldIO.cpp WriteBlockOp")],
 [("next block to compress and next block to write","hand-off between writer threads","src/SparseFieldIO.cpp")],
 ["Field3DOutputFile::writeScalarLayer/writeVectorLayer with setNumIOThreads(n), then the file's bytes and Field3DInputFile"])

p("W02","Parallel sparse reading returns exactly the stored field",
 "Reading sparse layers fully into memory with any number of I/O threads always terminates and yields exactly the stored field: every voxel, every empty-block value and the set of allocated blocks, for every schedule of the reader threads.",
 ["schedules","inputs","configurations"],
 "all schedules of 1..n reader threads over fields with any pattern of empty and allocated blocks",
 "Tests run a few real schedules; a shared stream position or a lost block index needs a preemption inside one read.",
 ["src/SparseFieldIO.cpp","include/OgSparseDataReader.h","include/OgIDataset.h","src/IStreams.cpp","src/IData.cpp"],
 [("work index under a lock, one stream per reader thread","src/SparseFieldIO.cpp ReadThreadOp; src/IStreams.cpp")],
 [("shared next-block index and file streams","what remains to be read","src/SparseFieldIO.cpp")],
 ["Field3DInputFile::readScalarLayers/readVectorLayers with setNumIOThreads(n)"])

p("C01","A writer killed at any moment leaves an all-or-nothing file",
 "If the process writing a file (in the default format) dies at any point, the file left behind either opens and yields every layer exactly as written, or is rejected or shown with no layers at all: a reader never crashes on it, never hangs, and never sees some layers, partial voxels or altered values.",
 ["crash_points","inputs","schedules"],
 "every point of the sequence of writes to the file, including in the middle of one write, for any sequence of layers, partitions, field types and writer threads",
 "No test kills a writer; the property is over every prefix of the write sequence.",
 ["src/OArchive.cpp","src/OGroup.cpp","src/OStream.cpp","src/IArchive.cpp","src/IStreams.cpp","src/Field3DFile.cpp"],
 [("root group position and frozen flag are written last","src/OArchive.cpp, src/OStream.cpp, src/OGroup.cpp freeze()")],
 [("file header: magic, frozen byte, root position","completeness marker","src/OStream.cpp")],
 ["Field3DInputFile::open, partition/layer listings and reads on every crash image"])

p("F01","Faulty or shortened files never yield silently wrong data",
 "When reads fail, return less than asked, memory runs out or an I/O thread cannot be started, or the file has been cut short at any length, or a compressed block's stored bytes are damaged, opening and reading either reports failure (an error return, fewer layers or metadata entries, with none invented, or an exception) or returns exactly the stored data. It never returns altered or uninitialised voxels or metadata as success, and never crashes, aborts or hangs, with any number of reader threads; after a transient fault a fresh open and read succeeds.",
 ["fault_sequences","inputs","schedules"],
 "every placement of read errors, failed opens, truncation lengths and damage within compressed block payloads, for files with any mix of field types, in full and threaded reading",
 "Tests only read intact files from a healthy disk.",
 ["src/IStreams.cpp","src/IArchive.cpp","src/IGroup.cpp","src/IData.cpp","include/OgIDataset.h","include/OgSparseDataReader.h","src/SparseFieldIO.cpp","src/DenseFieldIO.cpp","src/Field3DFile.cpp"],
 [("stream reads, size checks and zlib checksums","src/IStreams.cpp, include/OgSparseDataReader.h"),("exceptions translated to empty results","src/Field3DFile.cpp readLayer()")],
 [],["Field3DInputFile open/read* results versus the content that was written"])

p("F02","A full or failing disk is reported to the writer and survivable",
 "When creating, writing or closing a file hits a full disk, write errors or a failed open, memory runs out or an I/O thread cannot be started, the writer gets a failure (a false return or a catchable exception) from some call up to and including close; the process is never terminated and no call hangs, with any number of writer threads. Whatever is left on disk, a reader either rejects it or returns only layers exactly as written; if all writes and the close reported success, all of it is there.",
 ["fault_sequences","inputs","schedules"],
 "every placement of write errors and disk-full points within the creation of a file, for any sequence of layers and any number of I/O threads",
 "Tests write to a healthy disk with free space; none makes a write fail.",
 ["src/OStream.cpp","src/OGroup.cpp","src/OArchive.cpp","src/Field3DFile.cpp","src/SparseFieldIO.cpp","include/OgODataset.h"],
 [("stream exceptions and return codes","src/OStream.cpp, src/Field3DFile.cpp writeLayer()/close()")],
 [],["returns and exceptions of Field3DOutputFile create/write*/close and its destructor; Field3DInputFile on the file left behind"])

p("H01","Concurrent loads of the same layer through the field cache are valid",
 "When several threads read the same layers of the same file at the same time, each gets a complete, live field with exactly the stored content, whether it was loaded or shared from the in-memory cache; a field that is being destroyed is never handed out, and no thread blocks forever.",
 ["schedules","histories"],
 "all interleavings of threads that open the file, read layers, hold and drop the resulting fields",
 "Tests touch the cache from one thread; the fatal window lies between a field's last release and its destruction.",
 ["export/FieldCache.h","src/FieldCache.cpp","export/RefCount.h","src/Field3DFile.cpp"],
 [("weak references guarded by a lock","export/FieldCache.h getCachedField()/cacheField()")],
 [("map from file and layer to live field","sharing of in-memory layers","export/FieldCache.h")],
 ["Field3DInputFile::read* results in concurrent threads; memory accesses to freed fields"])

p("H02","Re-reading a file gives a field still held, or what the file holds now",
 "Reading a layer again returns either the in-memory field already held from an earlier read of that layer of that file, or, if nobody holds it any more, exactly the file's present content, also after the file was rewritten, removed, or written in the other format; a field held throughout never changes. Each call concerns only the named file, partition and layer: entries for others never satisfy it.",
 ["histories","configurations"],
 "all sequences of writing, overwriting and removing several files, opening, reading, holding, copying and dropping fields, with reused and fresh file objects, by name, partition and attribute",
 "Tests write and read each file once; the property is over histories of overwrites, drops and reused file objects.",
 ["export/FieldCache.h","src/Field3DFile.cpp","export/Field3DFile.h","src/Field3DFileHDF5.cpp"],
 [("cache keyed by file and layer path with weak ownership","export/FieldCache.h, src/Field3DFile.cpp"),("file objects cleared on open","src/Field3DFile.cpp")],
 [],["Field3DInputFile::read*, Field3DOutputFile::create/close over multi-step histories"])

p("R01","Shared fields are destroyed exactly once, after their last owner",
 "A field, mapping or other shared object reached through reference-counted pointers stays valid while any pointer to it exists and is destroyed exactly once when the last one goes away, whichever threads copy and release the pointers concurrently; weak references report either the live object or none.",
 ["schedules","histories"],
 "all interleavings of copying, assigning, casting, releasing and weakly referencing shared objects from several threads",
 "The double-release window is between two adjacent instructions; ordinary tests cannot hit it on purpose.",
 ["export/RefCount.h","export/Field.h","export/FieldMapping.h","export/FieldWrapper.h"],
 [("atomic counter and intrusive pointer","export/RefCount.h ref(), unref(), intrusive_ptr_release()")],
 [("reference counter","number of owners","export/RefCount.h")],
 ["construction and destruction counts of instrumented field classes; accesses to freed memory"])

p("R02","Files are released once nothing refers to them any more",
 "Once every file object, and every field read through one, is gone, the process keeps no file descriptor and no HDF5 object or handle belonging to those files, also after any open, read, write, close or on-demand load that failed at any point; so any number of files can be used in one process, and each can be rewritten.",
 ["fault_sequences","histories","schedules"],
 "all sequences of writing, opening, listing, reading and dropping files in both formats, with I/O and HDF5 failures at any point, shortened and absent files, and concurrent readers",
 "The tests open a handful of healthy files in one process and never count what stays open; leaks sit on error paths no test takes.",
 ["src/Field3DFile.cpp","src/Field3DFileHDF5.cpp","export/Hdf5Util.h","include/MIPFieldIO.h","src/SparseFile.cpp","export/SparseFile.h","src/DenseFieldIO.cpp","src/SparseFieldIO.cpp","include/MACFieldIO.h","src/IStreams.cpp"],
 [("scoped HDF5 handles and closing destructors","export/Hdf5Util.h, src/Field3DFile*.cpp, export/SparseFile.h Reference"),("streams owned by archives","src/IStreams.cpp, src/OStream.cpp")],
 [("open descriptors and HDF5 objects","what the process holds","operating system, libhdf5")],
 ["open file descriptors, H5Fget_obj_count and validity of HDF5 handles after the last owner is gone"])

p("I01","First use from several threads at once is safe",
 "Initialising the library and making the first use of its shared services (class registration and creation, file opening, the block cache, the field cache) from several threads at the same time leaves exactly one instance of each service, with all classes registered including those of plug-ins found at start-up, and every call behaves as it would after a single-threaded start-up.",
 ["schedules"],
 "all interleavings of first calls (initialisation, object creation by name, writing, opening and reading files, cache access) made by several threads of a fresh process",
 "First use happens once per process; a test process initialises single-threaded before doing anything else.",
 ["src/ClassFactory.cpp","src/SparseFile.cpp","src/FieldCache.cpp","src/InitIO.cpp","export/FieldCache.h"],
 [("lazily created singletons, initialisation lock","src/ClassFactory.cpp singleton(), src/SparseFile.cpp singleton(), src/FieldCache.cpp, src/InitIO.cpp initIO()")],
 [("singleton pointers","one instance per service","src/ClassFactory.cpp, src/SparseFile.cpp")],
 ["results of initIO(), ClassFactory create*, Field3DInputFile/OutputFile and SparseFileManager calls in fresh processes"])

p("M01","Lazily loaded MIP levels are right for every concurrent first reader",
 "A MIP field read from a file loads each level at most once on first use, and every thread that touches a level, by voxel, level pointer or interpolation, sees the stored voxels and the level's proper name, attribute, metadata and mapping, however first uses of levels interleave. A level load that fails is reported and can be retried; levels not touched stay unloaded.",
 ["schedules","fault_sequences","histories"],
 "all interleavings of first accesses to any levels of shared MIP fields (dense or sparse, any data type), with transient faults during a level load",
 "Tests load levels from a single thread with a healthy disk; publication of a half-initialised level needs a preemption inside the load.",
 ["export/MIPField.h","include/MIPFieldIO.h","src/MIPFieldIO.cpp","export/MIPInterp.h"],
 [("double-checked lock around lazy load","export/MIPField.h loadLevelFromDisk()"),("load actions","include/MIPFieldIO.h")],
 [("per-level field pointers and load actions","what is loaded","export/MIPField.h")],
 ["MIPField fastMipValue/mipLevel/rawMipLevel/concreteMipLevel/levelLoaded, MIPLinearFieldInterp"])

p("M02","Building MIP levels gives one result for any thread count and schedule",
 "Building a MIP field, or fields of least and greatest values, from a base field gives, for a given filter, the same levels, voxel for voxel, with any number of worker threads and under every schedule as with a single worker, whether the voxels of the base are stored densely, in blocks of any size, or still in a file. It always terminates and leaves the base field unchanged; when memory runs out, a thread cannot be started or a block of the base cannot be read, the caller gets an exception and can try again.",
 ["schedules","fault_sequences","inputs","configurations"],
 "all schedules of 1..n workers, with failing allocations, thread starts and block reads, over dense and sparse bases of any resolution, block order, data type, filter and offset",
 "Tests compare averages of results from real threads; writes lost when two workers first touch one block need a precise interleaving.",
 ["export/MIPUtil.h","src/MIPUtil.cpp","export/Resample.h","export/SparseField.h"],
 [("output split into blocks handed out under a lock","export/MIPUtil.h mipSeparable(), MIPSeparableThreadOp")],
 [("next work index","work distribution","export/MIPUtil.h")],
 ["makeMIP() results for several thread counts"])

p("D01","A file is an exact, ordered store of what was written",
 "Everything written to a file, in any sequence of layers, partitions, mappings and metadata, in either file format, is read back exactly: voxel values, extents, data windows, block structure, names, attributes, partition and layer listings, mappings over time and metadata of every type, including empty strings. This holds whatever legal behaviour the operating system shows (short reads, short writes, interrupted calls, delays), and re-reading or reading in another order changes nothing.",
 ["fault_sequences","inputs","histories","configurations"],
 "all sequences of write and read calls over all field, data and mapping types and both formats, under all benign I/O behaviours (short transfers and interrupted calls at any point)",
 "Tests round-trip a few single layers on a disk that always completes each call.",
 ["src/Field3DFile.cpp","src/Field3DFileHDF5.cpp","src/DenseFieldIO.cpp","src/SparseFieldIO.cpp","src/MACFieldIO.cpp","src/MIPFieldIO.cpp","src/FieldMappingIO.cpp","src/OGroup.cpp","src/OStream.cpp","src/IStreams.cpp","src/Hdf5Util.cpp"],
 [("Ogawa and HDF5 containers and per-class I/O","src/*IO.cpp, src/Field3DFile.cpp")],
 [],["Field3DOutputFile write* then Field3DInputFile read* and listings"])

p("D02","Independent file operations in parallel threads do not interfere",
 "Threads that write and read different files, or read the same file, each with its own file objects, get exactly the results of running them one after the other, in either file format and any mix of formats, and none blocks forever; the HDF5 library, which is not thread-safe, is never entered by two threads at once.",
 ["schedules","configurations"],
 "all interleavings of open, list, read, write, close and lazy loading on distinct file objects by several threads, in both formats",
 "Tests use one thread per process for file access; corruption inside HDF5 needs overlapping calls.",
 ["src/Field3DFile.cpp","src/Field3DFileHDF5.cpp","src/Hdf5Util.cpp","export/Hdf5Util.h","export/SparseDataReader.h","export/SparseFile.h","src/SparseFieldIO.cpp","src/DenseFieldIO.cpp","include/MIPFieldIO.h"],
 [("one global lock around HDF5 calls","export/Hdf5Util.h g_hdf5Mutex, GlobalLock")],
 [("HDF5 library state","owned by at most one thread at a time","libhdf5")],
 ["results of Field3DInputFile/Field3DOutputFile in concurrent threads; entries into HDF5"])

p("Q01","Concurrent read-only use of a shared in-memory field is safe",
 "Any number of threads may look up, iterate, interpolate, transform with the mapping of, resample, store in files of their own, copy pointers to, or clone one in-memory field or MIP field nobody modifies, and each gets exactly the values a single thread would get.",
 ["schedules","configurations"],
 "all interleavings of const operations by several threads on shared dense, sparse, MAC, MIP and procedural fields and their mappings",
 "Sequential tests cannot see hidden mutable state behind const operations.",
 ["export/DenseField.h","export/SparseField.h","export/MACField.h","export/FieldInterp.h","src/FieldMapping.cpp","export/FieldMapping.h","export/MIPInterp.h","export/Curve.h"],
 [("const lookups without shared mutable state","export/*.h")],
 [],["value(), iterators, interpolators, mapping transforms on shared fields"])

p("T01","The merge and MIP tools convert everything, or fail",
 "f3dmerge and f3dmakemip end with exit status 0 only if every input could be opened and the output file holds, in either format and with any number of threads, exactly one copy of each selected layer of every input (f3dmakemip: the MIP field, and on request the least and greatest values, that the library makes from it); a full disk, write or close errors, a missing input or a layer that cannot be stored end them with another status. Killed at any moment while writing the default format, they leave an all-or-nothing file.",
 ["crash points","fault sequences","inputs"],
 "all sets of input files, options, thread schedules, write faults and kill points",
 "The tools have no tests; exit status under a failing disk and the file left behind by a kill depend on faults no test injects.",
 ["apps/f3dmerge/main.cpp","apps/f3dmakemip/main.cpp","src/Field3DFile.cpp","export/MIPUtil.h","export/MinMaxUtil.h"],
 [("results of writing and closing passed on to the exit status","apps/f3dmerge/main.cpp, apps/f3dmakemip/main.cpp main()")],
 [],["exit status of the tools; the output file read back"])

p("N01","Interpolation reproduces the mathematical filter",
 "Linear, cubic and monotonic-cubic interpolation of a field at any point within its bounds equals the mathematically defined filter of the surrounding voxels, up to rounding.",
 ["inputs"],"all fields, positions and interpolators",
 "Tests sample a few analytic fields.",["export/FieldInterp.h","src/FieldInterp.cpp"],[("interpolators","export/FieldInterp.h")])
p("N02","Space mappings are mutually inverse",
 "Transforming a point from world to local or voxel space and back gives the original point up to rounding, for matrix and frustum mappings at any time sample.",
 ["inputs"],"all invertible mappings, points and times","Tests try a few matrices.",["src/FieldMapping.cpp","export/FieldMapping.h"],[("matrix and frustum transforms","src/FieldMapping.cpp")])
p("N03","Resampling approximates the source at every resolution",
 "Resampling a field with a filter to another resolution yields at each voxel the normalised filter response of the source.",
 ["inputs"],"all fields, filters and resolutions","Tests resample single analytic fields.",["export/Resample.h","src/Resample.cpp"],[("separable resampling","export/Resample.h")])
p("N04","File sequences and name patterns expand as documented",
 "Parsing a file-sequence string or a layer/attribute pattern yields exactly the frames, file names or matches its documentation defines.",
 ["inputs"],"all sequence and pattern strings","Tests try a dozen strings.",["src/FileSequence.cpp","src/PatternMatch.cpp"],[("parsers","src/FileSequence.cpp, src/PatternMatch.cpp")])
for x in P: print(json.dumps(x))
