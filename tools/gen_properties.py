#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl (run it after editing)."""
import json, os
P = []
IL='DevIL/src-IL/src/'; ILU='DevIL/src-ILU/src/'; ILUT='DevIL/src-ILUT/src/'
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
                     observe_at=observe or [], hook_needed=None)))

prop('C01','Image names: unique when generated, valid until deleted, binding never confused',
 'ilGenImages/ilGenImage only ever return names that are not in use, a name stays valid (ilIsImage true, its own pixels) until it is deleted and is invalid afterwards, and ilBindImage makes exactly the named image current, creating it when unknown. Name 0 is the default image: always bindable and never deletable, and deleting the bound image leaves the default image bound. Deleting, binding and generating names never disturbs the contents of any other live image.',
 ['histories'],'every sequence of generate/bind/delete/create/clone/query calls over a small name set, including unknown, deleted, repeated and zero names',
 'the suite generates one image and never deletes or rebinds in interleaved orders; reuse of freed names depends on the history',
 [IL+'il_stack.cpp',IL+'il_devil.cpp'],[('name table and free list','il_stack.cpp: ilGenImages, ilBindImage, ilDeleteImages, iEnlargeStack'),('clone naming','il_devil.cpp: ilCloneCurImage')],
 ['ilGenImages','ilBindImage','ilDeleteImages','ilIsImage','ilGetInteger(IL_CUR_IMAGE)'],
 [('ImageStack/FreeNames','live images and reusable names','il_stack.cpp')])

prop('C02','Copies are deep and images are isolated from each other',
 'ilCopyImage and ilCloneCurImage give the destination pixel data, palette, format, type, origin and metadata equal to the source image (its sub-image chains are not copied, and chains the destination had are discarded), leaving the source and the current binding as they were. Afterwards no operation on one of the two images (or on any other image) is observable through the other, in any order, including deletion of either. Copying from a name that does not exist fails with IL_INVALID_PARAM and changes nothing.',
 ['histories','inputs'],'every sequence of copy/clone/modify/delete steps up to the bound over images with every kind of sub-image chain, palette and metadata',
 'no test copies an image, and aliasing only shows after a later modification or deletion of one side',
 [IL+'il_devil.cpp',IL+'il_stack.cpp'],[('deep copy','il_devil.cpp: ilCopyImageAttr, ilCopyImage, ilCopyImage_, ilCloneCurImage')],
 ['ilGetData','ilGetInteger','ilGetPalette','ilActiveImage/Mipmap/Layer/Face'])

prop('C03','Attribute state machine: set/enable/push/pop behave as documented',
 'Every IL state variable has its documented initial value, ilSet*/ilEnable/ilDisable/ilHint/ilOriginFunc/ilFormatFunc/ilTypeFunc/ilCompressFunc/ilClearColour change exactly the variable they name when the value is legal, and are rejected with an error and no state change when it is not; the getters always report the value in force. ilPushAttrib starts a new level in which the attribute groups of its mask keep their values and all other attributes have their defaults, and the matching ilPopAttrib makes every attribute what it was before that push, for any nesting up to the documented depth. Pushing beyond that depth reports IL_STACK_OVERFLOW, popping an empty stack reports IL_STACK_UNDERFLOW, and neither changes any state.',
 ['histories','inputs'],'every sequence of state changes, pushes (every mask) and pops up to the bound, and every state variable with every legal and a set of illegal values',
 'the suite sets a handful of states once each and never nests pushes with selective masks',
 [IL+'il_states.cpp',IL+'il_states.h'],[('attribute stack','il_states.cpp: ilPushAttrib, ilPopAttrib, ilDefaultStates'),('setters and getters','il_states.cpp: ilAble, ilSetInteger, ilGetIntegerv, ilSetString, ilGetString')],
 ['ilGetInteger','ilGetBoolean','ilIsEnabled','ilGetString'])

prop('C04','Error reports are never lost, invented or reordered within the documented depth',
 'ilGetError returns the recorded errors most recent first and IL_NO_ERROR once all are taken; when more than 32 are pending it is the oldest that are dropped, and the newest 32 all remain retrievable. A failing call (IL_FALSE, 0 or NULL result) records at least one error, a call that succeeds records none, and queries that succeed never alter the pending errors.',
 ['histories'],'every number of pending errors from 0 past the capacity, every interleaving of failing calls, reads and successful calls up to the bound',
 'tests read at most one error; capacity and ordering only show in longer histories',
 [IL+'il_error.cpp',IL+'il_states.cpp'],[('error stack','il_error.cpp: ilSetError, ilGetError')],['ilGetError'])

prop('C05','ilSetPixels and ilCopyPixels touch exactly the requested pixels',
 'ilCopyPixels returns exactly the requested block in the requested format and type and never changes the image or writes outside the block\'s size in the caller\'s buffer; ilSetPixels writes exactly those pixels of the block that lie inside the image and leaves every other pixel unchanged. Blocks that overreach or start outside the image (negative or too large offsets, any extent) are clipped without reading or writing out of bounds, in one, two and three dimensions. Writing a block and copying the same block back is the identity.',
 ['inputs'],'every offset/extent combination (negative, inside, overhanging, outside) on images of every small width/height/depth, for representative formats, types and origins',
 'the suite copies whole images only; clipping and 3D strides need the off-edge combinations',
 [IL+'il_manip.cpp'],[('clipped block transfer','il_manip.cpp: ilCopyPixels, ilCopyPixels1D/2D/3D, ilSetPixels, ilSetPixels1D/2D/3D')],['ilCopyPixels','ilSetPixels','ilGetData'])

prop('C06','Conversions preserve content and shape for every format and type pair',
 'ilConvertImage succeeds for every supported pair of format and type, leaves width, height, depth, origin and every sub-image in place (the images following in the same chain are converted too), and afterwards channels, bytes per pixel and data size all agree with the new format and type. Each channel keeps its value (rescaled to the new type\'s range, colours expanded from luminance or palette, reduced to weighted luminance, missing alpha opaque), conversions that only reorder channels or widen types lose nothing when reversed, and converting to the current format and type changes nothing. With IL_USE_KEY_COLOUR enabled, conversions to a format with alpha also make the pixels equal to the key colour (for indexed images, the palette entry it selects) transparent.',
 ['inputs'],'every source format x type x destination format x type, every 8-bit sample value and boundary values of the wider types, on images with depth and sub-images',
 'the suite converts a few byte formats on one picture and compares with a tolerance',
 [IL+'il_convert.cpp',IL+'il_convbuff.cpp',IL+'il_fastconv.cpp'],[('image conversion','il_convert.cpp: ilConvertImage, iConvertImage, iConvertPalette'),('buffer conversion','il_convbuff.cpp: ilConvertBuffer, iSwitchTypes'),('in-place swaps','il_fastconv.cpp: iFastConvert')],['ilConvertImage','ilGetData','ilGetInteger'])

prop('C07','Blit and overlay composite the right pixels and nothing else',
 'ilBlit and ilOverlayImage place exactly the overlapping part of the requested source block at the requested destination position: without blending (or from a source without alpha) the destination pixels equal the source\'s, with blending they are the alpha-weighted mix of the two. Destination pixels outside the overlap, the source image, and the current binding are left as they were, for every offset including negative and partly or wholly outside ones. An unknown source name is refused with an error and changes nothing.',
 ['inputs','configurations'],'every destination/source offset and extent on small images in 2D and 3D, each origin pairing, blending on and off, for each colour format pairing',
 'no test blits; off-edge offsets, origin mixes and alpha weights are combinatorial',
 [IL+'il_devil.cpp'],[('compositing','il_devil.cpp: ilBlit, ilOverlayImage')],['ilBlit','ilOverlayImage','ilGetData','IL_BLIT_BLEND'])

prop('C08','Lossless formats round-trip every image they can store',
 'Saving an image to a lossless format (BMP, TGA, PNG, PNM, SGI, PCX, PSD, TIFF, RAW, VTF, and HDR/WBMP within their representation) and loading it back yields the same width, height and pixel values, for every size and every pixel format and type the format represents, under every save option (RLE on/off, interlace, binary/ASCII, generator strings, origin). The image being saved is not changed by the save.',
 ['inputs','configurations'],'every small width x height, every image format and type, all run structures over a small alphabet for the RLE coders, both origins and all save options',
 'the suite saves one picture per format and accepts a tolerance; run boundaries, padding and odd sizes are not sampled',
 [IL+'il_bmp.cpp',IL+'il_targa.cpp',IL+'il_png.cpp',IL+'il_pnm.cpp',IL+'il_sgi.cpp',IL+'il_pcx.cpp',IL+'il_psd.cpp',IL+'il_tiff.cpp',IL+'il_rle.cpp',IL+'il_hdr.cpp',IL+'il_dds-save.cpp',IL+'il_vtf.cpp',IL+'il_wbmp.cpp',IL+'il_raw.cpp'],
 [('encoders','iSave*Internal in each file'),('decoders','iLoad*Internal in each file'),('RLE compressor','il_rle.cpp')],['ilSaveL','ilLoadL','ilGetData'])

prop('C09','Files, handles and memory lumps are interchangeable channels',
 'Saving the same image through a file name, an open handle or a memory lump produces the same bytes, ilSaveL with a null lump returns exactly the number of bytes a real save writes, and a save reports that number. Loading the same bytes through a file name, a handle (from any starting offset) or a lump gives the same image or the same failure, and the extension-driven load equals the explicitly typed one.',
 ['inputs','configurations'],'every format with a writer or reader, several image kinds each, handle start offsets 0..n, each channel',
 'the suite uses file names only',
 [IL+'il_io.cpp',IL+'il_files.cpp',IL+'il_size.cpp'],[('channels','il_files.cpp: iSetInputFile/Lump, iSetOutputFile/Lump, iSetOutputFake'),('dispatch','il_io.cpp: ilLoad, ilLoadF, ilLoadL, ilSave, ilSaveF, ilSaveL'),('size probe','il_size.cpp')],['ilSave*','ilLoad*'])

prop('C10','Damaged or hostile files never corrupt memory, hang or crash the loader',
 'Loading any byte string as a BMP, PCX, PNM, SGI, TGA, PSD, Radiance HDR, WBMP, CUT, DOOM, FTX, LIF, Alias PIX, PXR, WAL, VTF, PNG, TIFF, GIF, Sun raster, ILBM, ICO, DCX, Softimage PIC, XPM, DPX, KTX, TPL, BLP, DDS, JPEG, IWI, ROT, Scitex CT, Half-Life MDL, FITS, DICOM, DevIL RAW, Total War TEXTURE, MP3 cover picture, ICNS or Maya IFF file terminates, touches no memory outside the input and the library\'s own buffers, and either succeeds with a self-consistent image or returns IL_FALSE with an error recorded. After a failed load the library stays usable: the current image can be queried, reloaded and deleted, and a good file loads correctly afterwards.',
 ['inputs','fault_sequences'],'every truncation point and every single-byte deviation (a fixed set of values per byte) of a corpus of valid files covering every format and its variants',
 'the suite only loads well-formed files',
 [IL+'il_io.cpp',IL+'il_files.cpp',IL+'il_internal.cpp'],[('bounded reads','il_files.cpp: iReadLump, iGetcLump, iSeekRLump'),('header validation','iCheck*/iIsValid* in each codec')],['ilLoadL','ilGetError'])

prop('C11','A memory save never writes beyond the size it was given',
 'ilSaveL never writes outside the caller\'s buffer of the given size: when the size is sufficient the encoded file is written completely and its length returned, and when it is too small the call fails with an error instead of claiming success. This holds for every format, image and size.',
 ['inputs','fault_sequences'],'for each format and image kind, every buffer size from 0 to the needed size and slightly above',
 'no test saves to memory',
 [IL+'il_files.cpp',IL+'il_io.cpp'],[('bounded lump writer','il_files.cpp: iWriteLump, iPutcLump, iSeekWLump')],['ilSaveL'])

prop('C12','Type detection agrees with the codecs and leaves streams alone',
 'For every file a codec of the library writes, content detection (ilDetermineType*, ilIsValid*) recognises that type for every type that has a signature, detection through a file name, handle and lump agree, and extension lookup is case-insensitive and consistent with the type that is loaded and saved under that name. Detection never moves the position of a caller-supplied handle, never changes the current image, and never claims a type for empty, too short or unrecognised data.',
 ['inputs'],'every writable format x image kinds, all prefixes of each file, every registered extension in each letter case',
 'the suite never calls the detection entry points on prefixes or through handles',
 [IL+'il_io.cpp',IL+'il_utility.cpp'],[('detection','il_io.cpp: ilDetermineType*, ilIsValid*, ilTypeFromExt'),('signatures','iIsValid* in each codec')],['ilDetermineTypeL','ilIsValidL','ilTypeFromExt'])

prop('C13','Saves respect overwrite protection and report every write failure',
 'With IL_FILE_OVERWRITE disabled (or the file mode set so) no save entry point changes an existing file, and the refusal is reported as IL_FILE_ALREADY_EXISTS; otherwise the file is replaced and holds exactly the new encoding. When the output device refuses any single write, the save terminates without corrupting memory or the image.',
 ['fault_sequences','configurations'],'every save format x overwrite setting x existing/absent target; every position k at which the k-th device write fails or is short',
 'the suite never saves onto an existing file with protection on, nor injects device errors',
 [IL+'il_files.cpp',IL+'il_io.cpp',IL+'il_states.cpp'],[('overwrite check','iSave*: iFileExists and IL_FILE_MODE'),('write callbacks','il_files.cpp: ilSetWrite')],['ilSave','ilSavePal','ilSaveData','ilSetWrite'])

prop('C14','Custom I/O callbacks and handles are used with discipline',
 'Callbacks installed with ilSetRead/ilSetWrite carry all I/O of name and handle loads and saves: each handle the library opens is closed exactly once on success and on every failure, a caller\'s handle is never closed, nothing is used after close, and ilResetRead/ilResetWrite restore the defaults. Memory-lump loads and saves neither call nor replace the installed callbacks, and the image obtained through callbacks equals that obtained through the default I/O.',
 ['histories','fault_sequences'],'every interleaving of set/reset, lump, handle and file operations up to the bound; each callback failing at each call index',
 'the suite never installs callbacks',
 [IL+'il_files.cpp',IL+'il_io.cpp'],[('callback table','il_files.cpp: ilSetRead, ilResetRead, ilSetWrite, ilResetWrite, iPreserveReadFuncs, iRestoreReadFuncs')],['ilSetRead','ilSetWrite'])

prop('C15','Registered loaders and savers follow a map from extension to handler',
 'ilRegisterLoad/ilRegisterSave install a handler for an extension unless one is present, ilRemoveLoad/ilRemoveSave remove it and report whether it existed, and a load or save by name consults the handler of that extension before any built-in codec, in any history of registrations and removals. Images built by a handler with the ilRegister* creation calls have exactly the declared format, type, origin, palette, mipmaps, images and faces.',
 ['histories'],'every sequence of register/remove/load/save calls up to the bound over a few extensions',
 'the suite never registers handlers',
 [IL+'il_register.cpp',IL+'il_io.cpp'],[('handler lists','il_register.cpp')],['ilRegisterLoad','ilRemoveLoad','ilLoadImage','ilSaveImage'])

prop('C16','Palettes convert, apply and quantise without changing what the image shows',
 'ilConvertPal changes only the palette\'s layout, keeping every colour; palette size, type, base type, bytes per entry and column count always agree; ilRegisterPal followed by ilGetPalette, and ilSavePal followed by ilLoadPal, return the same colours. Converting a true-colour image with at most as many colours as the palette allows to a palette image and back shows the same colours, indices always stay inside the palette, and IL_MAX_QUANT_INDICES is never exceeded. With more colours than the palette may hold the result is still an approximation of the picture, never (NeuQuant: from 16 colours on) worse than its one average colour.',
 ['inputs'],'every palette type pair, palette sizes, and every small image over a small colour alphabet for each quantiser setting',
 'the suite has a few fixed palette conversions',
 [IL+'il_pal.cpp',IL+'il_quantizer.cpp',IL+'il_neuquant.cpp',IL+'il_convert.cpp'],[('palette conversion','il_pal.cpp: ilConvertPal, iConvertPal'),('quantisers','il_quantizer.cpp, il_neuquant.cpp'),('palette files','il_pal.cpp: ilLoadPal, ilSavePal')],['ilConvertPal','ilGetPalette','ilConvertImage'])

prop('C17','Geometric operations move pixels and never alter them',
 'iluFlipImage, iluMirror, iluRotate by quarter turns, iluCrop, iluEnlargeCanvas, iluSwapColours and iluReplaceColour produce exactly the pixel rearrangement they name, for every size, depth, format, type and origin: flip and mirror are involutions, four quarter turns are the identity, crop returns the exact block, an enlarged canvas contains the original at the documented placement with clear colour elsewhere. Impossible requests are refused with an error and leave the image unchanged.',
 ['inputs'],'every small width x height x depth, every format, type and origin, every crop rectangle and canvas size, each placement',
 'the suite applies each operation to one byte picture and compares with a tolerance',
 [ILU+'ilu_manip.cpp',ILU+'ilu_rotate.cpp',IL+'il_manip.cpp'],[('geometry','ilu_manip.cpp: iluCrop, iluFlipImage, iluMirror, iluEnlargeCanvas, iluSwapColours, iluReplaceColour; ilu_rotate.cpp')],['ilu*','ilGetData'])

prop('C18','Scaling gives the requested size and honours the laws of resampling',
 'iluScale and iluEnlargeImage produce exactly the requested dimensions for every size, format, type and filter, keep format, type, origin and palette layout (nearest keeps the palette itself), scaling to the same size is the identity, a constant image stays constant, and integer nearest-neighbour enlargement replicates source pixels. Results only depend on the image (not on its orientation in memory beyond its origin), channels do not leak into each other, and every output sample stays within the range of the input samples for non-overshooting filters.',
 ['inputs','configurations'],'every source and target size up to the bound in 1D/2D/3D, every filter, format and type',
 'the suite scales one picture per filter',
 [ILU+'ilu_scale.cpp',ILU+'ilu_scale2d.cpp',ILU+'ilu_scale3d.cpp',ILU+'ilu_scaling.cpp'],[('resamplers','ilu_scale2d.cpp, ilu_scale3d.cpp, ilu_scaling.cpp')],['iluScale','ilGetData'])

prop('C19','Filters obey their documented identities and touch only colour samples',
 'iluNegative is self-inverse, iluContrast(1), iluGammaCorrect(1), iluSharpen with factor 1, iluSaturate1f(1), iluScaleColours(1,1,1), iluPixelize(1) and zero-iteration filters change nothing, and every filter keeps width, height, depth, format, type, origin and palette layout. Colour and edge filters leave alpha untouched (blur, sharpen, pixelize and convolution treat it like any other channel), pixelize and normalised convolution leave a uniform image exactly as it is and blur and sharpen change it by no more than a rounding step per pass, filters on indexed images act on the colours shown, a region limits a filter to the pixels inside of its polygon (even-odd, give or take the border), and iluColoursUsed and iluCompareImage count and compare exactly; a point filter treats each pixel and an area filter each plane as if it stood alone. A filter that cannot handle an image refuses it with an error and leaves it unchanged.',
 ['inputs'],'every small image over a small sample alphabet, every format and type, each filter with its parameter grid',
 'the suite checks one picture per filter against a stored picture with a large tolerance',
 [ILU+'ilu_filter.cpp',ILU+'ilu_filter_rcg.cpp',ILU+'ilu_manip.cpp',ILU+'ilu_noise.cpp'],[('filters','ilu_filter.cpp, ilu_filter_rcg.cpp, ilu_manip.cpp')],['ilu*','ilGetData'])

prop('C20','Frame, mipmap, layer and face chains navigate and count consistently',
 'For every image tree built by ilCreateSubImage, iluBuildMipmaps, the ilRegister* calls or a loader, IL_NUM_IMAGES/MIPMAPS/LAYERS/FACES report the true chain lengths, ilActiveImage/Mipmap/Layer/Face(n) select exactly the n-th member for every n in range and refuse every n beyond it without changing the selection, and rebinding returns to the base image. iluBuildMipmaps yields the complete chain of successively halved levels down to 1x1(x1), each a downscaling of the base, replacing any earlier chain.',
 ['histories','inputs'],'every sequence of create/select/modify/mipmap steps up to the bound; every base size up to the bound for mipmaps',
 'the suite loads single images and never navigates chains',
 [IL+'il_stack.cpp',ILU+'ilu_mipmap.cpp',IL+'il_register.cpp'],[('navigation','il_stack.cpp: ilActiveImage, ilActiveMipmap, ilActiveLayer, ilActiveFace, ilCreateSubImage'),('mipmap builder','ilu_mipmap.cpp: iluBuildMipmaps')],['ilGetInteger','ilActive*'])

prop('C21','DXT compression is sized exactly and decompresses as the format defines',
 'For every image size ilGetDXTCData reports and writes exactly the number of bytes the block format defines and never writes past the caller\'s buffer, blocks at ragged edges included, and every compressed block (DXT1, DXT1A, DXT2-5, 3Dc/ATI1N, RXGB) decompresses on load to the colours the format defines. Images whose blocks hold at most two exactly representable colours, or two with one of them darker in every channel and a colour evenly between them, survive compression and decompression unchanged within quantisation, and so does every alpha value, and retained compressed data is returned unmodified.',
 ['inputs'],'all image sizes up to the bound, all block index patterns of a pixel, all endpoint classes per format',
 'the suite saves one compressed file',
 [IL+'il_dds.cpp',IL+'il_dds-save.cpp',IL+'il_squish.cpp'],[('decompressors','il_dds.cpp: DecompressDXT1..5, Decompress3Dc, DecompressAti1n'),('compressor','il_dds-save.cpp: ilGetDXTCData, Compress')],['ilGetDXTCData','ilLoadL','ilSaveL'])

prop('C22','No history of calls leaks memory or leaves dangling images',
 'After any sequence of operations, succeeding or failing, whose images are all deleted again, the memory held by the library returns to what it was: repeating the sequence does not grow it, and ilShutDown releases everything. No sequence of calls makes the library touch freed memory.',
 ['histories'],'every sequence of library operations up to the bound, each repeated, and every single operation on every kind of image',
 'the suite runs once per process and never measures memory',
 [IL+'il_stack.cpp',IL+'il_devil.cpp',IL+'il_alloc.cpp'],[('ownership','il_devil.cpp: ilCloseImage, ilTexImage_; il_stack.cpp: ilDeleteImages, ilShutDown')],['allocator counters'])

prop('C23','Running out of memory at any allocation is survived',
 'If any single allocation (or every allocation from some point on) made by the library through its allocator fails, the call in progress returns failure or a complete correct result, without crashing or touching invalid memory. The library remains usable afterwards: images can be deleted, created and loaded correctly, and the failed call leaves no memory behind that is not released again by ilShutDown.',
 ['fault_sequences'],'for each operation and image kind, every index k of the failing allocation (single and persistent)',
 'the suite never fails an allocation',
 [IL+'il_alloc.cpp',IL+'il_devil.cpp',IL+'il_convert.cpp'],[('allocator hook','il_alloc.cpp: ilSetMemory, ialloc, icalloc'),('NULL checks','each caller of ialloc')],['ilSetMemory'])

prop('C24','ILUT attribute state follows the same push/pop and get/set discipline',
 'Every ILUT state variable has its documented initial value, ilutSetInteger/ilutEnable/ilutDisable change exactly the variable named and only to legal values, and the getters report the value in force. ilutPushAttrib/ilutPopAttrib save and restore exactly the masked groups to the documented depth, with overflow and underflow reported and harmless.',
 ['histories','inputs'],'every sequence of state changes, pushes and pops up to the bound, every state variable with legal and illegal values',
 'no ILUT test exists in the stable suite',
 [ILUT+'ilut_states.cpp'],[('attribute stack','ilut_states.cpp: ilutPushAttrib, ilutPopAttrib, ilutDefaultStates')],['ilutGetInteger','ilutIsEnabled'])

prop('C25','Every code has a string in every language and every query is total',
 'iluErrorString returns a non-empty, non-NULL and, within a language, distinct message for every defined error code in every supported language, an unknown code gives the fallback message, and iluSetLanguage switches all of them consistently or refuses unknown languages without effect. The string queries of IL, ILU and ILUT return valid text for every documented name (an unset metadata string may read as NULL or empty), and NULL with an error for anything else, and the reported extension lists contain exactly the extensions that the library can load or save.',
 ['inputs'],'every error code x language, every string name, every 16-bit code outside the documented set, every extension',
 'no test asks for the strings',
 [ILU+'ilu_error.cpp',ILU+'ilu_states.cpp',IL+'il_states.cpp'],[('string tables','ilu_error.cpp, ilu_err-*.h'),('extension lists','il_states.cpp: _ilLoadExt, _ilSaveExt')],['iluErrorString','ilGetString'])

prop('C26','A call that fails leaves the current image exactly as it was',
 'When an image operation is refused for bad arguments or an unsupported image (conversion, crop, scale, pixel transfer, navigation, palette, alpha, filter, compression, save, sub-image creation, texture definition with an invalid type), the call reports failure and an error, and the current image, its sub-images, the binding and the state variables are bit-for-bit what they were.',
 ['inputs'],'every entry point x a grid of invalid arguments x every kind of current image (including an empty one)',
 'the suite hardly ever makes a call fail',
 [IL+'il_devil.cpp',IL+'il_manip.cpp',IL+'il_convert.cpp',ILU+'ilu_manip.cpp'],[('argument checks','entry of each public function')],['ilGetError','ilGetData','ilGetInteger'])

prop('C27','Results never depend on uninitialised memory',
 'For the same sequence of calls on the same inputs, every observable result - pixels, palettes, metadata, return values and the bytes of saved files - is identical whatever the contents of freshly allocated memory. In particular saved files contain no stale memory.',
 ['inputs','configurations'],'every operation and codec of the corpus under several heap fill patterns supplied through the library\'s allocator',
 'each test sees one accidental heap content',
 [IL+'il_alloc.cpp',IL+'il_devil.cpp'],[('initialisation','ilNewImage, ilInitImage and each codec')],['ilSetMemory','ilSaveL','ilGetData'])

prop('C28','Initialise and shut down in any order, any number of times',
 'ilInit, iluInit, ilutInit and ilShutDown may be called in any order and repeatedly: after ilShutDown and ilInit the library behaves exactly as freshly started, with default states, no leftover images and the default image bound. Calls made before initialisation or after shutdown fail cleanly or work on the default image; they never crash or touch freed memory.',
 ['histories'],'every sequence of init/shutdown/basic operations up to the bound',
 'tests initialise once at start-up',
 [IL+'il_internal.cpp',IL+'il_stack.cpp',IL+'il_devil.cpp'],[('lifecycle','il_internal.cpp: ilInit; il_stack.cpp: ilShutDown')],['ilInit','ilShutDown'])

prop('C29','Load-time policies deliver the image in the form the application asked for',
 'With IL_ORIGIN_SET, IL_FORMAT_SET, IL_TYPE_SET or IL_CONV_PAL enabled every image, sub-image and mipmap a load delivers has the requested origin, format, type or true-colour layout, and shows the same picture as the unconstrained load; with them disabled the stored layout is kept. IL_DEFAULT_ON_FAIL delivers the default image when a load fails.',
 ['configurations','inputs'],'every combination of the policies with every origin, format and type, on every loadable corpus file',
 'the suite loads with default policies',
 [IL+'il_internal.cpp',IL+'il_states.cpp',IL+'il_convert.cpp'],[('post-load fix-up','il_internal.cpp: ilFixImage, ilFixCur'),('modes','il_states.cpp')],['ilLoadL','ilGetInteger','ilGetData'])

prop('C30','Readers decode files written by independent encoders exactly',
 'A BMP (Windows and OS/2, RLE4/RLE8, bit fields), PCX, PNM (P1-P6), SGI, TGA, PSD, Radiance HDR, WBMP, CUT, DOOM, FTX, LIF, Alias PIX, PXR, WAL, VTF, PNG, TIFF, GIF, Sun raster, ILBM, ICO, DCX, Softimage PIC, XPM, DPX, KTX, TPL, BLP, IWI, ROT, Scitex CT, Half-Life MDL, FITS, DICOM, DevIL RAW, JPEG (grey, colour and CMYK), uncompressed DDS, Total War TEXTURE, MP3 cover picture, ICNS or Maya IFF file produced strictly according to the format\'s published layout - every bit depth, compression, row order and palette variant the library reads, with any legal run or block structure - loads with exactly the dimensions, frames (a GIF frame is what the screen shows after its disposal and transparency rules), mipmaps and pixel colours it encodes.',
 ['inputs','configurations'],'every variant x every small width/height x all run structures over a small alphabet, produced by an encoder independent of the library',
 'tests only read what the library itself wrote, or one sample file',
 [IL+'il_gif.cpp',IL+'il_icon.cpp',IL+'il_sun.cpp',IL+'il_pix.cpp',IL+'il_cut.cpp',IL+'il_dcx.cpp',IL+'il_pic.cpp',IL+'il_bmp.cpp',IL+'il_targa.cpp',IL+'il_pcx.cpp',IL+'il_sgi.cpp',IL+'il_pnm.cpp',IL+'il_psd.cpp',IL+'il_wal.cpp',IL+'il_pxr.cpp',IL+'il_ilbm.cpp'],
 [('decoders','iLoad*Internal in each codec')],['ilLoadL','ilGetData'])

prop('C31','OpenGL textures show exactly the image, under every OpenGL implementation',
 'Whatever the OpenGL implementation offers (power-of-two sizes only or any size, any maximum size, with or without cube maps, S3TC and 3D textures), ilutGLTexImage, ilutGLBindTexImage, ilutGLBuildMipmaps, ilutGLBindMipmaps, ilutGLLoadImage and ilutGLSubTex(2D/3D) issue only calls OpenGL allows and the texture (or cube faces, or part of it) shows exactly the selected image the right way up, scaled only where its size is not supported; the image, the selection and all state stay as they were. ilutGLSetTex(2D/3D), ilutGLSaveImage, ilutGLScreen and ilutGLScreenie deliver exactly the texture or window, and a refused call reports an error and leaves no texture, memory or changed image behind.',
 ['inputs','configurations','fault_sequences'],'every image kind, size, origin and OpenGL capability set of a grid, every offset of sub-textures including ones that wrap around, every refused allocation',
 'the suite has no OpenGL context and never calls these functions',
 ['DevIL/src-ILUT/src/ilut_opengl.cpp'],[('uploads','MakeGLCompliant2D/3D, ilutGLTexImage_'),('read back','ilutGLSetTex2D/3D, ilutGLSaveImage, ilutGLScreenie')],['ilutGLTexImage','ilutGLSetTex2D'])

prop('C32','Whole-image operations set every sample to the one right value',
 'ilClearImage gives every pixel of the selected image the colour set with ilClearColour (limited to [0, 1], as luminance or alpha where the format asks for that; an indexed image becomes all zeros with a zero palette entry), ilSetAlpha gives every pixel the alpha asked for (ilModAlpha does so for images without one) and ilGetAlpha returns it in the type asked for, whatever the format, type and origin, leaving all other samples as a conversion to the format with alpha leaves them; ilClampNTSC limits every colour to 16..235, and ilSetData, ilTexImageSurface, ilDefaultImage and ilSetDuration do exactly what they say to the selected member of a chain. None of them touches other images, members or attributes, and iluGetImageInfo agrees with the getters everywhere.',
 ['inputs','histories'],'every format, type, palette layout, size and origin with boundary and ordinary values, and every sequence of the operations up to the bound',
 'the suite never calls most of these functions, and the rest on one kind of image',
 [IL+'il_manip.cpp',IL+'il_devil.cpp','DevIL/src-ILU/src/ilu_utilities.cpp'],[('alpha, NTSC and default image','il_manip.cpp'),('clearing and surfaces','il_devil.cpp: ilClearImage_, ilGetClear, ilTexImageSurface_'),('information','ilu_utilities.cpp: iluGetImageInfo')],['ilClearImage','ilSetAlpha','ilModAlpha','ilGetAlpha','ilClampNTSC','ilTexImageSurface','ilDefaultImage','iluGetImageInfo'])

prop('C33','Written files are valid and other software reads the image in them',
 'Every BMP, DDS, HDR, JPEG, PCX, PNG, PNM, PSD, RAW, SGI, TGA, TIFF, VTF, WBMP or C header file a save produces is valid by the published layout of its format, and a decoder independent of the library finds exactly the saved picture in it (as far as the format can hold it; JPEG as close as a plain JPEG encoder of the same quality). Every implemented save option (run lengths, interlacing, quality, progression, compression) and every text set with ilSetString takes effect in exactly the files it belongs to, texts cut at their documented length.',
 ['inputs','configurations'],'every format, type, palette layout, origin and size up to the bound, every two-valued row, every packet boundary, every combination of options and of texts',
 'the suite reads files back with the same library, so an error made alike by writer and reader, or a field only other software reads, stays unseen',
 [IL+'il_bmp.cpp',IL+'il_targa.cpp',IL+'il_png.cpp',IL+'il_pnm.cpp',IL+'il_sgi.cpp',IL+'il_pcx.cpp',IL+'il_psd.cpp',IL+'il_tiff.cpp',IL+'il_hdr.cpp',IL+'il_vtf.cpp',IL+'il_wbmp.cpp',IL+'il_raw.cpp',IL+'il_header.cpp',IL+'il_jpeg.cpp',IL+'il_dds-save.cpp',IL+'il_rle.cpp'],[('the writers','iSave*Internal in il_*.cpp'),('run lengths','il_rle.cpp: ilRleCompress'),('options and texts','il_states.cpp: ilSetString, iGetString, iGetInt')],['ilSave','ilSaveL','ilSaveF','ilSetString','ilSetInteger','ilHint'])

prop('C34','ilApplyProfile converts exactly the colours of the current image',
 'ilApplyProfile converts every pixel of the current image (LUMINANCE, RGB, BGR, RGBA or BGRA, 8 or 16 bits, any size and depth) from the first colour profile to the second, exactly as LittleCMS does for that pixel alone, where the first profile is a file or, when NULL is given, the one embedded in the TIFF or PSD file the image was loaded from (also in copies of that image). Alpha, size, origin, other images and other chain members stay as they are; an unsupported image, or a profile that is missing, unusable or for another colour space, gives IL_FALSE, exactly one error and an untouched image.',
 ['inputs','histories'],'every pair of eight profiles, every format, type, size and origin, all grey levels and a cube of colours, every cut of a profile, every sequence of applications up to the bound',
 'no test calls the function',
 [IL+'il_profiles.cpp',IL+'il_tiff.cpp',IL+'il_psd.cpp',IL+'il_devil.cpp'],[('conversion','il_profiles.cpp: ilApplyProfile'),('embedded profiles','il_tiff.cpp: iLoadTiffInternal, il_psd.cpp: ParseResources, il_devil.cpp: ilCopyImageAttr')],['ilApplyProfile','ilCopyImage','ilCloneCurImage','ilLoad','ilLoadL'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
for p in P:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
    assert p['statement'].count('. ')<=2,(p['id'],)
print(len(P),'properties')
