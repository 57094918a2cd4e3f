#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one entry per property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

AR = "src/hzip_storage/archive/archive.cpp"
ARH = "src/hzip_storage/archive/archive.h"
TR = "src/hzip_storage/archive/archive_trie.h"
AP = "src/hzip_network/api/providers/archive_provider.cpp"
ST = "src/hzip_network/api/handlers/streamer.cpp"
QU = "src/hzip_network/api/handlers/query.cpp"
SO = "src/hzip_network/api/handlers/socket_class.cpp"
API = "src/hzip_network/api/api.cpp"
EN = "src/hzip_network/api/api_enums.h"
PR = "src/hzip_codec/processor/processor.cpp"
CL = "src/hzip_core/opencl/cl_helper.cpp"
CA = "src/hzip_core/runtime/cache_provider.cpp"
SE = "src/hzip_core/utils/semaphore.cpp"
UT = "src/hzip_core/utils/utils.h"
CO = "src/hzip_core/preprocessor/color.cpp"
JP = "src/hzip_core/preprocessor/jpeg_codec.h"
PN = "src/hzip_core/preprocessor/png_bundle.cpp"
VI = "src/hzip_codec/victini/victini.cpp"
NT = "The five baseline tests call only the zig-zag transform; "

# ------------------------------------------------------------------ archive
p("C01", "Every lock taken is released on every way out",
  "Every operation of an archive, of the archive registry, of the cache, device and program registries and of the counting semaphore gives back each lock it took, on every way out, whether it returns or raises. A lock is given back exactly once and only by an operation that holds it, so one failing request can never leave an archive or registry blocked for later requests.",
  ["inputs", "histories", "fault_sequences"], "All paths, including every exception a callee can raise, of every public operation.",
  NT + "no test drives a failing operation and then tries the same archive again.",
  [AR, AP, CA, CL, SE, "src/hzip_codec/sharingan/state_transition.cpp"],
  [("scoped locks / lock-unlock pairs around every public operation", AR)],
  [("HZ_Archive::mutex", "in-process lock of one archive", ARH)])
p("C02", "Shared state is only touched under its lock",
  "State shared between session, job and signal threads (an archive's index, its stream and its free-space list; the registry of open archives; the cache, device and program registries; the semaphore counter) is read or written only while the lock that protects it is held. References handed out of such a registry are chosen while the lock is held.",
  ["schedules"], "Every read and write of the shared fields on every path of every public operation, for all interleavings.",
  NT + "data races need particular interleavings that no test schedules.",
  [AR, ARH, AP, CA, CL, SE], [("one mutex per owner object", ARH)],
  [("HZ_Archive::metadata, HZ_Archive::stream", "index and bit stream", ARH), ("ArchiveProvider::arch_map", "open archives", AP)])
p("C03", "Lock acquisition cannot deadlock",
  "No operation acquires a lock it already holds, and the order in which different locks are nested is the same everywhere, so no set of concurrent operations can wait for each other in a cycle.",
  ["schedules"], "All pairs of operations that can run concurrently; all nested acquisitions through calls.",
  NT + "a deadlock needs two threads in two specific places.",
  [AR, AP, CL, CA, SE, PR], [("lock nesting in the OpenCL registries", CL), ("registry lock around archive locks", AP)])
p("C04", "Every archive segment declares its true length",
  "Each segment written into an archive file is preceded by a marker and by a length that equals exactly the number of bits written after that length, for every path, blob, model state and list length. The end position of the archive, and the space taken from the free list, advance by exactly the size of the header plus that length.",
  ["inputs"], "All path lengths, blob counts, header, data and model-state sizes.",
  NT + "the archive tests are not in the build, and sample a handful of sizes.",
  [AR], [("length computed before the segment is written", AR)])
p("C05", "Archive readers consume exactly what writers produce",
  "For every kind of segment (version, file entry, model-state address, blob, model state, free space) every reader interprets the fields in the order and with the widths in which the writer stored them, gets every stored value back into the role it was stored for, and a scan is positioned at the next marker when it is done with a segment.",
  ["inputs", "histories"], "All segment contents and all sequences of segments.",
  NT + "round trips through the file depend on unbounded sizes and histories.",
  [AR, ARH], [("hza_scan_* / hza_read_* against hza_write_* / hza_create_* / hza_init", AR)])
p("C06", "Reusing free space never overlaps live data",
  "When freed space is reused, the chosen free block is at least as long as the new segment, the rest of the block is either nothing or large enough for a free-space header of its own and is re-described (marker, position, length) exactly, and a block that fits exactly disappears from the free list. New data is written at the start of the chosen block, or at the end of the archive when no block fits.",
  ["inputs", "histories"], "All lists of free blocks and all requested lengths.",
  NT + "fragmentation patterns depend on long histories of writes and removals.",
  [AR], [("hza_alloc_fragment and its four callers", AR)],
  [("metadata.fragments", "free blocks: start and payload length", ARH)])
p("C07", "Reopening an archive restores all of its bookkeeping",
  "Everything an open archive tracks (file index, blob and model-state positions, addresses of model states and which model states are addressed, how many blobs depend on each model state, free blocks, end position) is rebuilt when the archive is opened again, so that no operation behaves differently after a close and reopen.",
  ["histories"], "Every history of operations followed by close and reopen.",
  NT + "nothing closes and reopens an archive after each kind of operation.",
  [AR, ARH], [("hza_scan and the hza_scan_* helpers", AR)],
  [("HZ_ArchiveMetadata", "in-memory bookkeeping", ARH)])
p("C08", "A model state outlives every blob that needs it",
  "Writing a blob requires its model state to be in the archive and counts one dependency on it; removing that blob gives back exactly that dependency on exactly that model state. A model state that still has dependants is never removed, and one whose last dependant goes is removed exactly when no address refers to it.",
  ["histories"], "All sequences of blob and model-state insertions and removals.",
  NT + "dependency counting is a property of histories.",
  [AR], [("dependency counter incremented by blob writes, decremented by blob removal, consulted by model-state removal", AR)],
  [("metadata.dep_counter", "number of blobs per model state", ARH)])
p("C09", "A rejected archive operation changes nothing",
  "When a public archive operation raises an error because of its arguments or the state of the archive (missing or existing path, missing blob or model state, dependants, invalid path, path through a file), neither the archive file nor the in-memory index, free list, dependency counts or end position has been changed by it.",
  ["inputs", "histories", "fault_sequences"], "Every path of every public archive operation that ends in an exception.",
  NT + "tests do not compare the archive before and after a failing call.",
  [AR, TR], [("validation before the first write in each mutating operation", AR)])
p("C10", "Removal frees exactly what it removed",
  "Removing a file, blob or model state marks the segment of exactly that object as free in the archive file, adds exactly that segment's position and stored length to the free list, and removes exactly that object from the index; removing a file does so for its entry and for every blob it lists.",
  ["inputs", "histories"], "All removable objects in all archives.",
  NT + "the effects on file, free list and index are not observable from the compiled tests.",
  [AR], [("remove_file, hza_rm_blob, hza_rm_mstate, uninstall_mstate", AR)])
p("C11", "Opening and closing an archive bracket its cross-process lock",
  "An archive is given its cross-process lock before any of its content is read or initialised, and closing it writes the end marker at the end position and flushes it before that lock is given up. The lock is given up exactly once on every path, including when opening or loading the archive fails.",
  ["histories", "fault_sequences", "crash_points"], "Every open, failing open, load, failing load and close.",
  NT + "needs several processes and failing opens.",
  [AR], [("sem_open/sem_wait in the constructor, sem_post in close", AR)],
  [("HZ_Archive::archive_mutex", "named cross-process semaphore", ARH)])
p("C12", "Identifiers are fresh and nothing is overwritten",
  "A new blob or model state is always stored under an identifier not in use, that identifier is the one returned and recorded in the file, and storing a file entry or model-state address under an existing path is refused instead of replacing it.",
  ["inputs", "histories"], "All archive contents and all random draws.",
  NT + "collisions and overwrites need particular histories.",
  [AR], [("draw-until-unused loops and contains() guards before each index insertion", AR)])
p("C13", "Unreadable archives are refused, not guessed at",
  "A segment marker or entry type that the format does not define, or a version other than the supported one, makes opening the archive fail with an error; nothing of an archive that cannot be understood is skipped silently, and the scan ends only at an end marker or with an error.",
  ["inputs"], "All byte contents of an archive file.",
  NT + "malformed archives are not among the tests.",
  [AR], [("switches over marker and entry type in the scan", AR)])
p("C14", "Archive paths behave as a file tree",
  "In the archive's path index a lookup yields a value only for a path that was stored, storing a path below a stored entry or on top of a directory is refused, removal detaches exactly the removed entry (and directories it leaves empty) before freeing them, and every operation splits paths into components the same way.",
  ["inputs", "histories"], "All paths and all sequences of insertions and removals.",
  NT + "the index is only reachable through the archive, which the build leaves out.",
  [TR], [("HZ_ArchiveTrie get / set / contains / erase / children", TR)])
# ------------------------------------------------------------------ network
p("C15", "No command is obeyed before a successful handshake",
  "A session reads and obeys commands only after the client has returned the plain value of the fresh random token it was sent encrypted with the password; after a failed or interrupted handshake the session ends without reading a command.",
  ["inputs", "histories"], "All client behaviours during the handshake.",
  NT + "no test opens a session.",
  [API, UT], [("ApiInstance::handshake before the command loop", API)])
p("C16", "A session gives back its socket and slot exactly once",
  "However a session ends, its socket is closed exactly once and its session slot is released exactly once, and nothing uses the socket afterwards. Every connection the server accepts is either closed or handed to exactly one session, every slot taken is handed over with it, and a failed accept is not treated as a connection.",
  ["inputs", "fault_sequences", "histories"], "All ways a session or an accept can end.",
  NT + "no test opens a session or injects socket failures.",
  [API], [("ApiInstance::end called on every exit of ApiInstance::start; accept loop in Api::start", API)])
p("C17", "Socket transfers are complete or raise an error",
  "A framed send or receive returns normally only if every byte it was asked to transfer was transferred; a failed, short or interrupted transfer of the status byte or of the payload raises a connection error. A send is announced by the success byte before its payload, a synchronised receive sends the success byte before it waits for data, and an error report starts with the error byte.",
  ["inputs", "fault_sequences"], "All sizes and all results of the socket calls.",
  NT + "no test makes a socket call fail.",
  [SO, "src/hzip_network/api/handlers/socket_class.h"], [("result checks in t_send, t_recv, t_recv_sync", SO)])
p("C18", "Every command code has exactly one meaning",
  "Within each command group of the network protocol all codes are distinct, keep their published values, and every code that can be received is dispatched to a handler of its own in each group it belongs to; a code outside the group is refused with an error and executes nothing.",
  ["inputs"], "All 256 values of every command byte at every dispatch point.",
  NT + "no test sends a command.",
  [EN, API, ST, QU], [("switches over the command byte", ST)])
p("C19", "Commands with missing prerequisites are refused",
  "A value that the client may or may not have supplied (archive, source, destination, target, model-state address or data) is used only after the request has been checked to contain it; otherwise the request is refused with an error and no default or stale value is used in its place; a training is started only with both an archive and an address, and data is returned only to a client that asked for it (piggy-back).",
  ["inputs", "histories"], "All sequences of option and command bytes.",
  NT + "no test sends a command sequence.",
  [ST, QU, PR], [("is_some / is_none checks before inner()", ST)])
p("C20", "Received data always fits its buffer",
  "Whatever length a client announces, every receive writes at most the number of bytes its buffer was allocated for, and every received path or address is zero-terminated within its buffer before it is used as a string.",
  ["inputs"], "All announced lengths (0 to 2^16-1 and 0 to 2^64-1).",
  NT + "memory safety must hold for every announced length.",
  [ST, QU, API, SO], [("buffer allocated from the received length", ST)])
p("C21", "Every variable-length reply carries its own length",
  "Every reply of variable length is preceded by a fixed-width field holding exactly the number of bytes that follow it, counts precede lists and equal the number of elements sent, and error replies are framed in the same way as the client reads success replies.",
  ["inputs"], "All replies, including empty and very long ones.",
  NT + "no test reads a reply.",
  [SO, ST, QU], [("length sent before data", ST)])
p("C22", "Client paths are validated before they name anything",
  "A path or model-state address received from a client is stored in an archive's index, or used to look one up for modification, only after the path validator has accepted it.",
  ["inputs"], "All strings a client can send, on every path from the socket to the index.",
  NT + "no test sends a path.",
  [ST, QU, AR, "src/hzip_core/utils/validation.h"], [("hz_validate_path at the entry of the operations", AR)])
p("C23", "A failed job is never reported or stored as success",
  "When processing a block of an upload, training or download fails, the client is told of the failure and is not told that the operation succeeded, no file entry is created from the blocks that did not fail, and processing does not continue as if nothing had happened.",
  ["inputs", "fault_sequences"], "Every job outcome at every block of a request.",
  NT + "no test makes a codec or archive operation fail inside a request.",
  [ST, PR], [("on_error callbacks of submitted jobs and the success reply after the loop", ST)])
p("C24", "One open handle per archive path",
  "Concurrent and repeated requests for the same archive path share one open archive; an archive becomes available to other requests only after it has been opened and loaded successfully, and shutting down closes every open archive once.",
  ["schedules", "histories", "fault_sequences"], "All interleavings of requests for archives.",
  NT + "no test opens an archive concurrently.",
  [AP], [("ArchiveProvider::provide / close", AP)])
# ------------------------------------------------------------------ processor
p("C25", "Every submitted job finishes exactly once",
  "A submitted job runs at most within the configured number of slots, takes one slot and gives it back exactly once, reports either success or error but never both and never neither, and signals completion exactly once after that, whatever its codec, the archive or its result callbacks raise (the functions it reports through do not raise).",
  ["inputs", "fault_sequences", "schedules"], "All job kinds, all failures, all interleavings.",
  NT + "no test submits a job.",
  [PR], [("HZ_Processor::run worker", PR)])
p("C26", "A stored block is tied to the model state it was coded with",
  "The model-state identifier stored with a block always identifies a model state, in the same archive, that describes how exactly those bytes were coded: the supplied one when it was used, and a newly stored one when the coder produced or replaced it (in particular when compression did not help and the original bytes are stored).",
  ["inputs", "histories"], "All codecs, with and without a supplied model state, compressible or not.",
  NT + "no test stores a block through the processor.",
  [PR, "src/hzip_core/blob/blob.cpp"], [("hzp_encode and HZ_Blob::evaluate", PR)])
p("C27", "Every algorithm resolves to its own codec",
  "Every algorithm identifier of the storage format has a name, a block size greater than zero and a codec; names, values and codecs are pairwise distinct; the codec a compressed result is attributed to is the one that decodes it; and an unknown identifier is refused.",
  ["inputs"], "All algorithm identifiers.",
  NT + "registries are not reached by the compiled tests.",
  ["src/hzip_codec/codec_provider.cpp", "src/hzip_codec/codec_provider.h", "src/hzip_codec/compressor_enums.h"],
  [("CodecProvider tables", "src/hzip_codec/codec_provider.cpp")])
p("C28", "Codecs return complete results or refuse",
  "Every codec operation either returns a result whose data, sizes and model state it has filled in from its input, or raises an error; an operation a codec does not support raises an error instead of returning an empty result.",
  ["inputs"], "All codecs and operations.",
  NT + "no compiled test calls a codec.",
  ["src/hzip_codec/uncompressed/uncompressed.cpp", VI, "src/hzip_codec/sharingan/sharingan.cpp"],
  [("AbstractCodec implementations", "src/hzip_codec/compressor_base.h")])
p("C29", "Uploads are split into blocks without loss or overlap",
  "An upload of n bytes is consumed as consecutive non-empty blocks, each at most the algorithm's block size, whose sizes sum to exactly n; the size received, the size recorded in the block and the size subtracted from the remainder are the same, blocks are recorded in the order received, and a zero-length upload ends at once.",
  ["inputs"], "All announced lengths and algorithms.",
  NT + "no compiled test uploads data.",
  [ST], [("the block loops of encode and train", ST)])
p("C30", "Statistical coder and decoder use the same model",
  "The block coder and decoder of the context-model codec agree on everything that must match for decoding to be possible: alphabet and scale, symbol count, layout and order of the stored model, normalisation of the model, cumulative tables, and inverse transforms applied in reverse order with the index stored by the coder.",
  ["inputs"], "All inputs (structural agreement of coder and decoder, not their numerical round trip).",
  NT + "codec round trips are not in the build.",
  [VI, "src/hzip_core/kernel/hzrans/hzrans64_codec.cpp"], [("Victini::compress / decompress / train", VI)])
# ------------------------------------------------------------------ core
p("C31", "Colour transforms are lossless",
  "Converting pixels to the luma/chroma space and back with the scalar or the planar transformer returns exactly the original pixel for every pixel value of every bit depth, in place or not, and every plane of every pixel is converted exactly once.",
  ["inputs"], "All pixel values, bit depths 1-16, image sizes.",
  NT + "the colour tests are not in the build and sample random pixels.",
  [CO, "src/hzip_core/preprocessor/color.h"], [("forward_lift / reverse_lift and their use per pixel", CO)])
p("C32", "Device kernels compute the same function as the CPU",
  "For every pixel buffer the OpenCL colour and prediction kernels compute the same values as the CPU implementations they replace, each element is handled by exactly one work item and no work item goes past the end, and host code passes the kernel its arguments in the kernel's order.",
  ["inputs", "configurations"], "All buffers, sizes, kernel counts and work-group sizes.",
  NT + "no OpenCL device is available to the tests.",
  [CO, "src/hzip_core/preprocessor/rgb_ycocg.cl", "src/hzip_core/models/paeth.cpp", "src/hzip_core/models/paeth.cl"],
  [("kernels in rgb_ycocg.cl and paeth.cl", CO)])
p("C33", "Delta transform is invertible in place for every length",
  "For every array, including empty and one-element arrays, applying the delta transform and then its inverse restores the array, and neither touches memory outside it.",
  ["inputs"], "All lengths and contents.",
  NT + "the delta transform has no test.",
  ["src/hzip_core/preprocessor/delta.cpp"], [("DeltaTransformer::transform / invert", "src/hzip_core/preprocessor/delta.cpp")])
p("C34", "Zig-zag traversal visits every cell exactly once",
  "For every grid with at least one cell, iterating the zig-zag traversal yields every cell of the grid exactly once, moves only to the next cell of the same anti-diagonal or the first cell of the next one, never leaves the grid and then reaches the end; for a grid without cells it is empty, and the iterator honours the usual meaning of pre- and post-increment and of dereferencing.",
  ["inputs"], "All widths and heights.",
  "The four baseline tests check square and rectangular grids of a few fixed sizes only.",
  ["src/hzip_core/preprocessor/zigzag.h"], [("zigzag_pair::next and const_iterator", "src/hzip_core/preprocessor/zigzag.h")])
p("C35", "Byte-order and bit-code helpers are inverse pairs",
  "Converting a number or word buffer to bytes and back yields the original for every value and every length, token encryption is its own inverse under the same password, the reader of each self-delimiting code consumes exactly what its writer emits and returns the number written, and each conversion terminates.",
  ["inputs"], "All values, lengths and passwords.",
  NT + "these helpers have no test.",
  [UT], [("hz_u64_to_u8buf / hz_u8buf_to_u64, hz_u8_to_u32ptr / hz_u32_to_u8ptr, hz_enc_token, unary and Elias codes", UT)])
p("C36", "No function returns or reads a value that was never set",
  "In every build configuration every function that promises a result returns one (or raises) on every path, and no scalar variable or member is read before it was given a value.",
  ["inputs", "configurations"], "All functions of the tree in both configurations; all paths.",
  NT + "undefined values often look right on the build a test runs on.",
  ["src"], [("return statements and initialisers throughout the tree", "src")])
p("C37", "Every error reaches the handler meant for it",
  "Every error raised by the program can be caught as a standard exception with a readable message that outlives the throw, session and job code converts each such error into an error reply instead of ending the process, and a connection error in session code ends the session instead of being answered on the broken connection.",
  ["inputs", "fault_sequences"], "All throw sites and all handlers.",
  NT + "only failures exercise handlers.",
  ["src/hzip_core/errors", "src/hzip_network/errors/api.h", "src/hzip_storage/errors/archive.h", "src/hzip_codec/errors", API, PR],
  [("exception classes and catch clauses of session and job loops", API)])
p("C38", "Configuration variables reach the setting they name",
  "Each environment variable (HZIP_API_THREADS, HZIP_API_PORT, HZIP_API_TIMEOUT, HZIP_API_KEY, HZIP_PROCESSOR_THREADS, HZIP_MAX_MEM_USAGE, HZIP_CACHE_FILE, HZIP_CACHE_COUNT, HZIP_CACHE_PAGE_SIZE and, with OpenCL, HZIP_OPENCL_KERNELS and HZIP_OPENCL_DEVICE_REGEX), when set, determines exactly the setting it names, in decimal and without losing bits, and no other; a variable that is not set leaves the default; and every setting is taken from the environment before the component that uses it starts and given to that component.",
  ["configurations"], "All subsets and values of the environment variables.",
  NT + "no test runs with a configured environment.",
  ["src/hzip_core/runtime/config.cpp", "src/main.cpp"], [("Config::configure and its readers", "src/hzip_core/runtime/config.cpp")])
p("C39", "Failures of system and library calls are never used as results",
  "A pointer or status obtained from the C library, the operating system, libpng, libjpeg or the environment that can signal failure is checked before it is used; a failure leads to an error, never to use of the failed result.",
  ["fault_sequences", "inputs"], "All call sites of failing calls.",
  NT + "tests do not make system calls fail.",
  ["src"], [("checks after fopen, sem_open, sem_wait, fmemopen, accept, png_create_*, getenv, ...", "src")])
p("C40", "The counting semaphore never over-admits or loses a wake-up",
  "Acquiring takes one unit and returns only when a unit was available, waiting without spinning as long as there is none; releasing adds one unit and wakes a waiter; the number of units is initially the number the semaphore was created with and all accesses to it are mutually exclusive.",
  ["schedules"], "All interleavings of acquires and releases.",
  NT + "lost wake-ups and over-admission need particular schedules.",
  [SE, "src/hzip_core/utils/semaphore.h"], [("Semaphore::acquire / release", SE)])
p("C41", "Device registry hands out matching programs, locks and devices",
  "A registered program is available for every device or for none: a build failure of any kind leaves it unregistered and is reported. The program and lock handed out belong to the same device, successive requests go round all devices, and reloading or filtering devices never leaves an index, program or lock referring to a device that is gone.",
  ["histories", "fault_sequences", "configurations"], "All sequences of load, filter, register and get; all build results.",
  NT + "no OpenCL device is available to the tests.",
  [CL], [("ProgramProvider and DeviceProvider", CL)])
p("C42", "Files and library objects are released on every path",
  "Every file, image-library object and manually allocated buffer that an operation acquires for itself is released exactly once, by the function that belongs to it, on every way out, by return or by exception, or handed to the caller or to an object whose destructor releases it; nothing is used after its release. Failing to get memory is outside.",
  ["inputs", "fault_sequences"], "All paths of all functions that acquire such resources.",
  NT + "leaks do not change results.",
  [AR, JP, PN, API, "src/hzip_core/utils/fsutils.h"], [("fopen/fclose, png_create_*/png_destroy_*, jpeg_create_*/jpeg_destroy_*, rmalloc/rfree, new/delete", "src")])
p("C43", "JPEG library objects are used only while valid",
  "Reading and writing coefficient images follows the library's life cycle: the error manager is installed before an object is created, headers before coefficients, coefficients before finishing, nothing is read from an object after it was destroyed, and every block of every component is transferred at its own row and column exactly once.",
  ["inputs"], "All images.",
  NT + "there is no JPEG test in the build.",
  [JP], [("hzj_iface::read / write", JP)])
p("C44", "Malformed images cannot make the reader leave its buffers",
  "Whatever bytes a client supplies as an image, the reader never reads past the supplied bytes, never indexes a decoded row or plane outside its allocation for any accepted image kind and bit depth, and library errors are raised as errors.",
  ["inputs"], "All byte strings.",
  NT + "image tests are not in the build.",
  [PN], [("PNGBundleBuilder::read_bundle and MemBuffer::read", PN)])
p("C45", "The whole tree builds in every configuration",
  "Every source file of the program is well-formed in each supported configuration (with and without OpenCL support): whatever a configuration compiles it also declares and defines, and every function that can be called is defined.",
  ["configurations"], "Both configurations, all translation units, including those the baseline build leaves out.",
  "The baseline build compiles four source files and some headers; the other files are not compiled at all.",
  ["src"], [("HZIP_ENABLE_OPENCL guards", "src")])
p("C46", "Termination signals leave archives closed",
  "SIGINT, SIGTERM, SIGABRT, SIGSEGV and SIGFPE are handled from before the server starts: each closes the open archives and the listening socket and then ends the process, a broken client connection does not end the process, and handlers are installed only once the objects they use exist.",
  ["histories", "fault_sequences"], "All handled signals at any time after start-up.",
  NT + "no test sends a signal.",
  ["src/main.cpp", API], [("set_signal_handlers and Api::shutdown", "src/main.cpp")])
p("C47", "Memory sizes on the command line mean what they say",
  "A size with the suffix kb, mb, gb or b denotes that number times 2^10, 2^20, 2^30 or 1 bytes, and any other text denotes zero.",
  ["inputs"], "All size strings.",
  NT + "the parser has no test.",
  ["src/terminal.h"], [("conv_to_bytes", "src/terminal.h")])
p("C48", "The path validator accepts exactly the well-formed paths",
  "A path is accepted if and only if it starts with a slash and contains no zero byte, backslash, space or two slashes in a row at any position; every other string, including the empty one, is refused with a validation error.",
  ["inputs"], "All strings of all lengths.",
  NT + "the validator has no test.",
  ["src/hzip_core/utils/validation.h"], [("hz_validate_path", "src/hzip_core/utils/validation.h")])
p("C49", "The coder's word stack is last-in first-out at every size",
  "For every sequence of pushes and pops the stack returns words in last-in first-out order, reports the number of words it holds, is empty exactly when that number is zero, can be refilled after it was emptied, and releases every buffer exactly once.",
  ["histories"], "All operation sequences, across buffer boundaries.",
  NT + "the stack has no test, and boundaries are 65536 operations apart.",
  ["src/hzip_core/utils/stack.h"], [("HZ_Stack", "src/hzip_core/utils/stack.h")])
p("C50", "Codec parameters survive serialisation",
  "The serialised form of a parameter map is read back with the field order and widths with which it was written, so that every key and value, of any length and any bytes, is restored.",
  ["inputs"], "All parameter maps.",
  NT + "serialisation has no test in the build.",
  ["src/hzip_core/blob/blob.cpp", UT], [("HZ_Params::to_byte_array / from_byte_array", "src/hzip_core/blob/blob.cpp")])
p("C51", "Prediction filtering in place equals filtering a copy",
  "The prediction filter and the colour conversion give the same result whether they overwrite their input or fill a new buffer: every value a pixel's result depends on is read before it is overwritten, for every image size and channel count.",
  ["inputs"], "All image sizes, channel counts and contents.",
  NT + "filter tests are not in the build.",
  ["src/hzip_core/models/paeth.cpp", CO], [("descending iteration of cpu_filter", "src/hzip_core/models/paeth.cpp")])
# ------------------------------------------------------------------ not applicable
p("C60", "Block-sorting and move-to-front transforms are lossless",
  "Transforming any block with the block-sorting transform, then move-to-front, and inverting both returns the original block.",
  ["inputs"], "All blocks.",
  NT + "round trips over unbounded data.",
  ["src/hzip_core/preprocessor/burrows_wheeler.h", "src/hzip_core/preprocessor/move_to_front.h"],
  [("BurrowsWheelerTransformer, MoveToFrontTransformer", "src/hzip_core/preprocessor/burrows_wheeler.h")])
p("C61", "The range coder decodes what it encoded",
  "For every symbol sequence and every valid frequency table the entropy decoder returns the sequence given to the encoder.",
  ["inputs"], "All sequences and tables.",
  NT + "numerical round trip over 64-bit state.",
  ["src/hzip_core/kernel/hzrans/hzrans64.cpp"], [("hzrans64 encode/decode steps", "src/hzip_core/kernel/hzrans/hzrans64.cpp")])
p("C62", "Concurrent sessions see archive operations in some serial order",
  "The results of concurrent operations on one archive equal the results of some serial execution of whole requests.",
  ["schedules", "histories"], "All concurrent histories of requests.",
  NT + "histories of several sessions.",
  [ST, AR], [("per-archive lock", AR)])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for e in P:
        f.write(json.dumps(e) + "\n")
print(len(P))
