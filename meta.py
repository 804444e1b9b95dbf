"""Per-property settings used by run.py and tools/gen_manifest.py."""
META = {}
NOT_APPLICABLE = {}
def m(pid, check, level, technique, rule, note, variants=('asan',), **kw):
    META[pid] = dict(check=check, level=level, technique=technique, rule=rule, note=note, variants=list(variants), **kw)

m('C01', 'c01', 'model_checking', 'exhaustive DFS over operation sequences on the real library (forking explorer) against a reference model of the name table',
  'one execution = one sequence of name operations; distinct outcomes = distinct (model state, observations) hashes', 'All sequences up to the depth bound on the real code; the model is compared after every step.')
m('C03', 'c03', 'model_checking', 'exhaustive enumeration of set/push/pop sequences on the real library against a reference model (stack of attribute vectors)',
  'one execution = one sequence of state calls; distinct = distinct model states observed through every getter', 'All masks, all variables with legal/illegal values, all enum values below 0x1000, and all sequences up to the depth bound.')
m('C04', 'c04', 'model_checking', 'exhaustive enumeration of failing-call/good-call/read sequences on the real library against a bounded-stack model of pending errors',
  'one execution = one sequence of failing, succeeding and error-reading calls; distinct = distinct pending-error lists', 'All interleavings up to the depth bound over a catalogue of failing and succeeding calls, and every fill level past the capacity.')
m('C06', 'c06', 'model_checking', 'exhaustive enumeration of every (format,type) pair x size x origin x palette layout and every 8/16-bit sample value on the real library against a reference conversion model',
  'one execution = one conversion (or conversion and back); distinct = distinct resulting images', 'Every pair of formats and types is explored; sample values exhaustively for 8 bit (16 bit in thorough), structured for wider types.')
m('C07', 'c07', 'model_checking', 'exhaustive enumeration of blit/overlay offsets, extents, origins, blend states and format/type pairs on the real library against a per-pixel compositing model',
  'one execution = one blit or overlay; distinct = distinct resulting destination images', 'All offsets and extents around small images, all pairs of formats and types, all 8-bit value/alpha pairs.')
m('C02', 'c02', 'model_checking', 'exhaustive enumeration of all operation sequences over three images on the real library, snapshotting every image tree after every step',
  'one execution = one sequence of copy/clone/bind/delete/modify operations; distinct = distinct final worlds', 'All sequences up to the depth bound from several start worlds; isolation and copy equality are checked after every step.')
m('C05', 'c05', 'model_checking', 'exhaustive enumeration of offsets, extents, origins, origin policies and format/type pairs on the real library against a per-pixel model, caller buffers exactly sized under AddressSanitizer',
  'one execution = one ilSetPixels/ilCopyPixels call (and read-back); distinct = distinct resulting buffers/images', 'All offsets and extents around small 1-, 2- and 3-dimensional images.')
m('C08', 'c08', 'model_checking', 'exhaustive enumeration of sizes x formats x types x origins x palettes x save options x run structures on the real codecs, each saved, reloaded and compared pixel by pixel with the original picture',
  'one execution = one save and reload; distinct = distinct encoded files', 'All sizes of a bounded grid plus boundary sizes, every sample value, every two-valued row (all run structures) and all literal/run packet lengths around the limits.')
m('C24', 'c24', 'model_checking', 'exhaustive enumeration of operation sequences, values, masks and depths on the real library against a stack-of-vectors reference model, comparing every variable through every getter after every step',
  'one execution = one sequence of set/enable/push/pop calls; distinct = distinct (level, attribute vector) states', 'All values of every variable, all enums of the range, all group masks, all depths 0..79 and all sequences up to the depth bound.')
m('C25', 'c25', 'model_checking', 'exhaustive enumeration of language switch sequences, error codes, query enums and extension names on the real library against the documented tables',
  'one execution = one switch sequence, code range, query or extension name; distinct = distinct (answers) observed', 'All switch sequences up to length 3/4, all codes below 2^17 and near powers of two, all enums below 0x2100, all extension names up to 3 (thorough 4) characters and all single edits of listed names.')
m('C20', 'c20', 'model_checking', 'exhaustive enumeration of chain-building, selection, registration, mipmap and rebind sequences on the real library against a reference tree, whole tree walked through every selection call after each sequence',
  'one execution = one sequence of calls followed by a walk of every reachable member; distinct = distinct resulting trees', 'All sequences up to the depth bound, all chain lengths up to 40 and some long ones from inside every chain, every selection in and beyond the range, mipmap chains for all sizes x formats x types x filters of a grid.')
m('C15', 'c15', 'model_checking', 'exhaustive enumeration of registration, removal and restart histories on the real library against a map model, every name looked up through load and save after each history',
  'one execution = one history followed by all lookups, or one image built by a handler; distinct = distinct lookup tables and images', 'All histories up to the depth bound over several extensions (case variants, built-in ones) and handlers (succeeding, failing); all formats x types x origins, palette layouts and sizes, and chain lengths built by a handler.')
m('C17', 'c17', 'model_checking', 'exhaustive enumeration of sizes x formats x types x palettes x origins x operation arguments on the real library against exact pixel rearrangement models',
  'one execution = one geometric operation (and its inverse); distinct = distinct resulting images', 'All small sizes for every format/type/palette layout, all crop offsets/extents and canvas sizes around small images, every placement, all half-degree angles.')
m('C18', 'c18', 'model_checking', 'exhaustive enumeration of source sizes x target sizes x filters x formats x types x palettes x contents on the real library against reference resamplers and resampling laws',
  'one execution = one scaling; distinct = distinct resulting images', 'All source and target sizes of a bounded grid for all nine filters, every kind of image, every 8-bit neighbour pair; nearest and (bi/tri)linear exact, convolution filters within rounding of an independent implementation.')
m('C19', 'c19', 'model_checking', 'exhaustive enumeration of filters x parameters x formats x types x palettes x sizes on the real library against identities and an independent evaluation of every formula and kernel',
  'one execution = one filter application (or two for self-inverse ones), one region, one count or one comparison; distinct = distinct resulting images', 'All filters on every kind of image and a grid of sizes, every 8-bit sample value through every point filter, all rectangles and all integer triangles around a small picture as regions.')
m('C11', 'c11', 'model_checking', 'exhaustive enumeration of lump sizes from 0 to beyond the encoded size for every writable format x image kind x option on the real encoders, exactly sized buffers under AddressSanitizer',
  'one execution = one format, image and option with all its lump sizes; a transition = one save into a lump of one size; distinct = distinct encoded files', 'Every size is tried for files up to 20000 bytes; result, error, bytes and everything behind the file are compared with the reference encoding.')
m('C09', 'c09', 'model_checking', 'exhaustive enumeration of formats x image kinds x sizes x options x channels (name, extension, handle at several offsets, lump, detection) x every truncation point on the real codecs, all channels compared with each other',
  'one execution = one image saved and loaded through every channel; a transition = one byte string loaded through every channel; distinct = distinct results', 'Every truncation of the small files of every format is loaded through every channel.')
m('C16', 'c16', 'model_checking', 'exhaustive enumeration of palette layouts x sizes x conversion sequences, palette files (every truncation), colour counts x quantisers x limits on the real library against exact colour models',
  'one execution = one palette or image and its conversions; distinct = distinct resulting palettes/images', 'Every palette size 1..256 in all six layouts, every colour count 1..256 and every index limit with both quantisers, every truncation of palette files by independent encoders.')
m('C14', 'c14', 'model_checking', 'exhaustive fault injection: every load and save of every format through monitored callbacks with every single and every lasting refusal of a callback, every truncation, all entry points',
  'one execution = one file or image with all its refusals; a transition = one load/save with one refused callback; distinct = distinct images/files', 'Every callback invocation of every load and save is refused once; the monitor checks every open, close and use of a handle.')
m('C21', 'c21', 'model_checking', 'exhaustive enumeration of block contents (end points x indices x positions), image sizes, chains and compressors on the real library against the definition of each block format',
  'one execution = one image or file; a transition = one compression; distinct = distinct images/encodings', 'Every index at every position for every pair of end points, every size up to the bound for every format.')
m('C13', 'c13', 'model_checking', 'exhaustive fault injection on the real library: every write, seek and open of every save refused once or for good, wholly or in part; every entry point x format x kind of image over existing files',
  'one execution = one image saved through one entry point with all its refusals; a transition = one save with one refusal; distinct = distinct encodings', 'Every callback invocation of every save is refused; protected files are compared byte for byte.')
m('C29', 'c29', 'model_checking', 'exhaustive enumeration of load policies (origin x format x type x palette conversion) x files of every format x channels, and of small image trees built by a handler, on the real library against the unconstrained load',
  'one execution = one file or tree under all policies; a transition = one load under one policy; distinct = distinct delivered trees', 'All 378 policy combinations for every file of the corpus and every small tree; failing loads of five kinds with and without the default image.')
m('C12', 'c12', 'model_checking', 'exhaustive enumeration of byte strings (all of one and two bytes, every file cut at every byte, every header byte changed to other values) and of names on the real detection functions against the published signatures, all channels compared',
  'one execution = one file with its cuts or changes, or one name; a transition = one byte string through every channel; distinct = distinct detections', 'Lump, name, handle and callback handle at several offsets; the position, the lump and the current image are compared after every call; every extension in every case, every other name of up to three characters.')
m('C27', 'c27', 'model_checking', 'exhaustive enumeration of calls x kinds of image, of saves and of whole and damaged files on the real library, each executed with every fresh heap block and the unused stack filled with each of three patterns; all results must agree',
  'one execution = one script run three times; a transition = one run; distinct = distinct results', 'The allocator of the process is replaced (so the codec libraries are covered as well), the stack below the caller is overwritten before each call.', variants=('fast',))
m('C28', 'c28', 'model_checking', 'exhaustive enumeration of lifecycle and state-changing call sequences to a depth, and of every call outside a session, each in a child process that starts uninitialised; the restarted library is compared with a fresh one',
  'one execution = one sequence or call in a process of its own; a transition = one sequence; distinct = distinct sequences', 'The comparison covers every state variable, string, name, pending error, attribute level, handler and callback, and the result of a script of loads, saves and operations.')
m('C22', 'c22', 'model_checking', 'exhaustive enumeration of operation sequences to a depth, of every call x arguments x kind of image, and of every truncation and byte change of small files, on the real library; the heap must be steady when each is repeated',
  'every sequence of 38 operations to depth 2 (3-4 thorough), every call of the C26 grid on every kind of image, every cut and byte change of the corpus; repeating it leaves the heap unchanged, with the images deleted and with ilShutDown', 'AddressSanitizer counts the bytes allocated and watches for uses of freed memory')
m('C26', 'c26', 'model_checking', 'exhaustive enumeration of API calls x boundary arguments x kinds of current image on the real library; after every reported failure all images, the selection and the state are compared with the snapshot before',
  'one execution = one kind of image with a group of calls; a transition = one call; distinct = distinct (call, error) pairs', 'About 2000 calls covering every operation of IL and ILU with boundary and invalid arguments on more than 70 kinds of images and selections.')
m('C23', 'c23', 'model_checking', 'exhaustive enumeration of fault points on the real library: every call of a grid on every kind of image, every save, every load and the state calls, once per allocation it makes, with that allocation (or it and all later ones) refused; afterwards the library is exercised', 'distinct = distinct (operation, outcome) pairs', 'Allocations made through the library\'s own allocator (ilSetMemory); codec libraries use their own.')
m('C10', 'c10', 'model_checking', 'exhaustive enumeration of single faults (every truncation point, every byte x a fixed set of values, every two- and four-byte extreme value, every dropped or doubled byte) over a corpus of small valid files of every covered format and variant; each damaged file is loaded by the real library under AddressSanitizer with a CPU limit',
  'one execution = one damaged file; a transition = one load; distinct = distinct results', 'Damage is enumerated one fault at a time; combinations of several faults are outside the bound.')
m('C30', 'c30', 'model_checking', 'exhaustive enumeration of encoded files (every variant x size x packetisation up to the bound) written by independent encoders in the harness, each decoded by the real library and compared pixel by pixel with the picture that was encoded',
  'one execution = one encoded file; a transition = one load; distinct = distinct loaded pictures', 'The encoders in checks/files.h are written from the published layouts and share no code with the library.')
m('C31', 'c31', 'model_checking', 'exhaustive enumeration of images x sizes x OpenGL capabilities x calls x offsets x refusals on the real transfer code over a software OpenGL that refuses what the specification refuses, texels compared with the image',
  'one execution = one image or texture under one OpenGL implementation; a transition = one ILUT call; distinct = distinct texel contents', 'The OpenGL file is outside the default build; it is compiled with ILUT_USE_OPENGL and linked with the software OpenGL.', variants=('gl',))
m('C32', 'c32', 'model_checking', 'exhaustive enumeration of image kinds x sizes x origins x values for every whole-image operation, and of operation sequences to a depth on a chain, on the real library; every sample compared with a model',
  'one execution = one operation on one kind of image, or one sequence; a transition = one call; distinct = distinct resulting images', 'Integer samples of a value may round either way; the alpha channel under ilClampNTSC may be limited or kept.')
m('C33', 'c33', 'model_checking', 'exhaustive enumeration of image kinds x sizes x origins x save options x texts x run structures; every file written by the real library is read by an independent, strict decoder and compared with the image',
  'one execution = one file written and decoded; a transition = one save; distinct = distinct files', 'The decoders in checks/decoders.h share no code with the library; PNG, TIFF and JPEG files are read with libpng, libtiff and libjpeg directly.')
m('C34', 'c34', 'model_checking', 'exhaustive enumeration of pairs of colour profiles x formats x types x sizes x origins x sources (named, embedded, copied) x refusals, and of application sequences to a depth, on the real library; every pixel compared with LittleCMS called on it alone',
  'one execution = one image and its conversions; a transition = one call; distinct = distinct resulting images', 'Profiles are generated with LittleCMS; every cut of a profile, every unusable file, every refused allocation.')
