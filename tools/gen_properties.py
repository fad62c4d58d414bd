#!/usr/bin/env python3
"""Single source for properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

p('C01', 'Property maps are typed, ordered multimaps with value semantics',
  'A property map behaves as a map from valid identifiers to homogeneous, ordered lists of one of the documented value types: every read returns exactly what the preceding writes put there, an append of another type and an invalid key are refused without changing anything, and out-of-range or wrong-typed reads report the documented error. '
  'Copying a map (explicitly, or as the properties of a frame) yields an independent value, so later changes to one are never visible through the other. '
  'Once an error is set on a map it holds only that error, every read reports the error state, and clearing restores an empty usable map.',
  ['inputs', 'histories'], 'every sequence of map API calls (set, append, array set, delete, copy, clear, error, typed reads by any index) over any number of maps that share storage, and all value types, including integer extremes, NaN, binary data and node/frame/function references',
  'The tests read back a handful of properties; which operation history leads to shared storage being mutated, or to a wrong index/type being accepted, is unbounded.',
  ['src/core/vsapi.cpp', 'src/core/vscore.h', 'src/core/vscore.cpp', 'include/VapourSynth4.h'],
  [('copy-on-write map storage and arrays', 'src/core/vscore.h:VSMap/VSMapStorage/VSArray'), ('typed getters/setters', 'src/core/vsapi.cpp:mapGet*/mapSet*')],
  ['VSAPI map functions', 'frame properties'])
p('C02', 'Frames are values: a write through one handle is never seen via another',
  'Copying a frame, creating one from planes or properties of others, or passing one through filters may share storage internally, but a write of samples or properties through one handle changes only that handle. '
  'Fresh frames have the requested format and per-plane dimensions, aligned planes that do not overlap and the properties of the frame they were derived from and nothing else.',
  ['inputs', 'histories'], 'every interleaving of frame creation, copying, plane reuse, sample writes, property writes and frees over several live handles, for every format, subsampling, size and for audio',
  'Copy-on-write mistakes only show for particular sharing histories; the tests make at most one copy of one frame.',
  ['src/core/vscore.cpp', 'src/core/vscore.h', 'src/core/vsapi.cpp'],
  [('plane sharing and uniqueness check on write', 'src/core/vscore.cpp:VSFrame::getWritePtr'), ('frame constructors', 'src/core/vscore.cpp:VSFrame::VSFrame')],
  ['VSAPI frame functions', 'Python VideoFrame/AudioFrame'])
p('C03', 'Every frame request completes exactly once with that frame or an error',
  'Each synchronous or asynchronous request for frame n of a node completes exactly once, with frame n of that node (or with the error raised by a filter it depends on), for any number of threads, outstanding requests, request order and duplicate requests. '
  'Out-of-range requests are reported as errors, requests made by filters past the end yield the last frame, an error of one frame affects only outputs that depend on it, and no request is lost or hangs.',
  ['schedules', 'histories', 'fault_sequences'], 'any filter graph (shared inputs, diamonds, temporal windows, filters that fail on some frames), any thread count, any order and multiplicity of concurrent requests from several client threads',
  'Tests request frames mostly sequentially from trivial graphs; lost wakeups, double completions and misdelivered frames need particular graphs and schedules.',
  ['src/core/vsthreadpool.cpp', 'src/core/vscore.cpp', 'src/core/vscore.h', 'src/core/vsapi.cpp'],
  [('request contexts and notification', 'src/core/vsthreadpool.cpp:VSThreadPool::runTasks'), ('frame contexts', 'src/core/vscore.h:VSFrameContext')],
  ['frame callbacks', 'VSAPI getFrame/getFrameAsync'])
p('C04', 'Caching, memory limits and thread count never change the output',
  'The frames delivered by any filter graph are identical whatever the cache settings of its nodes, the memory limit, the number of worker threads and the order and repetition of requests. '
  'Rendering always terminates, even when the memory limit is smaller than the working set, and no frame already delivered changes afterwards.',
  ['schedules', 'histories', 'configurations'], 'all cache modes and sizes set per node, memory limits, thread counts and request orders, over generated filter graphs',
  'The tests never vary cache modes or memory limits; eviction decisions depend on the whole request history.',
  ['src/core/vscore.cpp', 'src/core/vscore.h', 'src/core/vsthreadpool.cpp', 'src/core/memoryuse.cpp', 'src/core/internalfilters.cpp'],
  [('frame cache', 'src/core/vscore.cpp:VSCache'), ('memory pressure handling', 'src/core/vsthreadpool.cpp'), ('SetVideoCache/SetAudioCache', 'src/core/internalfilters.cpp')],
  ['delivered frames'])
p('C05', 'Everything created is released exactly once, and never while still in use',
  'Every filter instance, function and user-data object handed to the core has its free callback called exactly once, only after the last reference to it is gone and never while a request on it is running; a failed filter or function creation frees it too where documented. '
  'After all references are dropped the core reports no live frames, nodes or allocated frame memory, regardless of errors, abandoned requests or the order of release.',
  ['histories', 'schedules', 'fault_sequences'], 'every history of creating, connecting, requesting, failing and releasing nodes, frames, functions, maps and cores in any order from any thread',
  'Leaks and double frees depend on histories with errors and unusual release orders; tests do not look at allocation state.',
  ['src/core/vscore.cpp', 'src/core/vscore.h', 'src/core/vsapi.cpp', 'src/core/intrusive_ptr.h', 'src/core/memoryuse.cpp'],
  [('intrusive reference counts', 'src/core/intrusive_ptr.h'), ('memory accounting', 'src/core/memoryuse.cpp'), ('core lifetime', 'src/core/vscore.cpp:VSCore::filterInstanceDestroyed/freeCore')],
  ['free callbacks', 'core information (used frame buffer size)', 'log messages at core free'])
p('C06', 'Filter modes give filters the serialisation and activation order promised',
  'A filter created in a serialised mode never has two of its frame callbacks running when its mode forbids it, a frame-state filter sees the activations of one output frame without another frame being started in between, and each output frame is activated first with an initial reason, then only after all frames it requested are available. '
  'Per-frame data is private to that frame and an error activation comes exactly when a requested frame failed.',
  ['schedules', 'histories'], 'all filter modes, thread counts and concurrent request patterns on graphs of test filters that record and cross-check their activations',
  'These are guarantees over all interleavings of worker threads; the tests contain no filter that observes its own activations.',
  ['src/core/vscore.cpp', 'src/core/vsthreadpool.cpp', 'include/VapourSynth4.h', 'doc/api/vapoursynth4.h.rst'],
  [('per-node serial mutex and concurrent frame set', 'src/core/vsthreadpool.cpp:runTasks')],
  ['filter getFrame callback arguments'])
p('C07', 'Function calls are checked against the registered signature',
  'A plugin function is only entered when the supplied arguments match its registered signature: required arguments present, the declared type (the Python bindings convert where the conversion is exact and unambiguous, such as int to float), scalars not given as arrays, empty arrays only where allowed, no unknown names; otherwise the call fails with an error naming the offending argument and has no effect. '
  'Registration accepts exactly the well-formed signatures, and what is registered is what introspection reports.',
  ['inputs', 'programs'], 'every signature in the signature language and every argument map against it, through both the C API and the Python bindings',
  'The cross product of declared types/flags and supplied values is unbounded, tests sample a few built-in signatures.',
  ['src/core/vscore.cpp', 'src/core/vsapi.cpp', 'src/cython/vapoursynth.pyx'],
  [('signature parsing', 'src/core/vscore.cpp:VSPluginFunction::parseArgString'), ('argument checking', 'src/core/vscore.cpp:VSPluginFunction::invoke'), ('Python argument conversion', 'src/cython/vapoursynth.pyx:typedDictToMap')],
  ['VSAPI invoke', 'Python Function.__call__', 'introspection'])
p('C08', 'Format descriptions, ids and names are consistent and total',
  'A video or audio format query succeeds exactly for the documented valid parameter combinations, and the returned description is internally consistent; format to id to format, and format name, round-trip exactly, distinct formats have distinct ids, and everything invalid is rejected. '
  'The same answers are given by the C API, the Python bindings and the clips and frames created with the format.',
  ['inputs', 'configurations'], 'every combination of colour family, sample type, bit depth, subsampling and channel layout, valid or not, and arbitrary integer ids',
  'The tests check a few named presets, not the full product of parameters and arbitrary ids.',
  ['src/core/vscore.cpp', 'src/core/vsapi.cpp', 'include/VSConstants4.h', 'include/VSHelper4.h', 'src/cython/vapoursynth.pyx'],
  [('queryVideoFormat/queryVideoFormatID/getVideoFormatName', 'src/core/vscore.cpp'), ('Python VideoFormat', 'src/cython/vapoursynth.pyx')],
  ['VSAPI query functions', 'Python core.query_video_format/get_video_format'])
p('C09', 'Geometry filters move exactly the documented samples',
  'Cropping, bordering, flipping, turning, transposing, stacking, plane shuffling/splitting, field separation and weaving copy each documented input sample to its documented output position, fill the rest with the documented value and change nothing else, in every plane and at every position. '
  'Parameters the documentation rules out are refused when the filter is created.',
  ['inputs', 'configurations'], 'every pixel format (8-16/32 bit integer, half and single float, all subsamplings), every size including one-sample planes and sizes around vector widths, every parameter value and any sample content',
  'Tests use one or two clip formats with uniform content, so misplaced samples at odd sizes, subsampled planes or block edges are not visible.',
  ['src/core/simplefilters.cpp', 'src/core/kernel/transpose.cpp', 'include/VSHelper4.h', 'doc/functions/video'],
  [('filters', 'src/core/simplefilters.cpp'), ('transpose kernels', 'src/core/kernel/transpose.cpp')],
  ['output frames', 'clip properties'])
p('C10', 'Temporal filters return the documented source frame for every output index',
  'Trimming, splicing, looping, reversing, interleaving, selecting, duplicating, deleting and freezing frames, and Python slicing and operators on clips, deliver for every output frame number the documented input frame unchanged, with the documented clip length, frame rate and duration properties. '
  'Ranges and indices that the documentation rules out are refused at creation.',
  ['inputs', 'programs'], 'every clip length and every parameter value (including unsorted and duplicated lists, extremes), and compositions of these filters',
  'Tests cover one hand-picked parameter set per filter; index arithmetic errors appear at boundaries and in compositions.',
  ['src/core/reorderfilters.cpp', 'src/cython/vapoursynth.pyx', 'doc/functions/video'],
  [('filters', 'src/core/reorderfilters.cpp'), ('clip operators', 'src/cython/vapoursynth.pyx:VideoNode.__getitem__')],
  ['output frames', 'clip properties'])
p('C11', 'Point operations map each sample by their documented function',
  'Invert, limiting, binarising, levels and one- and two-clip lookup tables produce in every processed plane, for every sample, the value of the documented function of the input sample(s) with the documented rounding and clamping, and leave unprocessed planes unchanged. '
  'Output samples never exceed the range of the output format.',
  ['inputs', 'configurations'], 'every supported format and bit depth, every sample value, every parameter value and plane selection, any frame size',
  'Tests check single pixels with default parameters; wrong values occur at particular depths, sample values and vector tails.',
  ['src/core/genericfilters.cpp', 'src/core/lutfilters.cpp', 'src/core/kernel/generic.cpp', 'doc/functions/video'],
  [('point filters', 'src/core/genericfilters.cpp'), ('luts', 'src/core/lutfilters.cpp')],
  ['output frames'])
p('C12', 'Merging and difference filters compute the documented arithmetic',
  'Weighted and masked merging, premultiplication and (full) difference making and merging yield for each sample the documented arithmetic result within the stated rounding, copy planes as documented, and applying a full difference to its base restores the other clip exactly. '
  'A weight or mask at either end of its range selects one input exactly.',
  ['inputs', 'configurations'], 'every supported format, depth, range (limited/full), weights, masks, sample values, sizes',
  'Tests compare a few constant-colour frames; the arithmetic must hold for every operand combination and in every vector lane.',
  ['src/core/mergefilters.cpp', 'src/core/kernel/merge.cpp', 'doc/functions/video'],
  [('filters', 'src/core/mergefilters.cpp'), ('kernels', 'src/core/kernel/merge.cpp')],
  ['output frames'])
p('C13', 'Neighbourhood filters equal their mathematical definition including edges',
  'Convolution, minimum/maximum with thresholds and coordinates, median, deflate/inflate, edge detectors and box blur give at every sample, including borders and corners, the documented function of the neighbourhood with mirrored/clamped edges, rounded and clamped as documented. '
  'Planes not selected are passed through unchanged.',
  ['inputs', 'configurations'], 'every supported format and depth, matrix size/mode, divisor, bias, threshold, radius, passes, plane selection, frame size down to the smallest allowed and any sample content',
  'Tests check single convolution matrices on one size; border handling and rounding vary with size, depth and mode.',
  ['src/core/genericfilters.cpp', 'src/core/kernel/generic.cpp', 'src/core/boxblurfilter.cpp', 'doc/functions/video'],
  [('generic kernels', 'src/core/kernel/generic.cpp'), ('box blur', 'src/core/boxblurfilter.cpp')],
  ['output frames'])
p('C14', 'Expr computes its expression for every pixel, compiled or not',
  'For every valid expression Expr stores in each sample the value its RPN expression denotes with single-precision arithmetic, rounded and clamped to the output format, and the optimiser and code generator never change that value. '
  'Malformed expressions are refused with an error, and planes without expression are copied or left as documented.',
  ['programs', 'inputs', 'configurations'], 'all expressions over the documented operators, constants, up to 26 clips of mixed input formats, and all sample values and frame sizes',
  'An expression language has unboundedly many programs; the tests hold a fixed list of expressions.',
  ['src/core/exprfilter.cpp', 'src/core/expr/expr.cpp', 'src/core/expr/jitcompiler_x86.cpp', 'src/core/expr/jitcompiler.cpp', 'doc/functions/video/expr.rst'],
  [('parser and optimiser', 'src/core/expr/expr.cpp'), ('JIT', 'src/core/expr/jitcompiler_x86.cpp'), ('interpreter', 'src/core/expr/jitcompiler.cpp')],
  ['output frames'])
p('C15', 'Results do not depend on the instruction set selected',
  'For every built-in filter the output is the same whichever maximum CPU level is selected: bit-identical for results computed in integers, and for results computed in floating point (also when stored as integers) equal up to the rounding of the arithmetic. '
  'No selection reads or writes outside the planes of a frame.',
  ['inputs', 'configurations'], 'all CPU levels, filters with vectorised kernels, formats, parameters, widths around vector sizes',
  'The tests run at whatever level the machine has and never compare levels.',
  ['src/core/kernel', 'src/core/genericfilters.cpp', 'src/core/mergefilters.cpp', 'src/core/averageframesfilter.cpp', 'src/core/simplefilters.cpp', 'src/core/boxblurfilter.cpp', 'src/core/kernel/cpulevel.cpp'],
  [('dispatch', 'src/core/kernel/cpulevel.cpp'), ('kernels', 'src/core/kernel')],
  ['output frames under SetMaxCPU'])
p('C16', 'Plane statistics and frame averages are exact summaries',
  'PlaneStats attaches the exact minimum and maximum, the mean and the mean absolute difference of the plane(s), normalised as documented, and leaves samples untouched; AverageFrames produces the documented weighted (optionally scene-change aware) average of neighbouring frames or clips, rounded and clamped. '
  'Temporal windows at clip ends follow the documentation.',
  ['inputs', 'configurations'], 'every supported format, depth, size, sample content, plane, weights, scales, window lengths, scene change marks and clip lengths',
  'Tests average constant clips; lanes, accumulator overflow and scene-change truncation depend on content and size.',
  ['src/core/simplefilters.cpp', 'src/core/kernel/planestats.cpp', 'src/core/averageframesfilter.cpp', 'doc/functions/video'],
  [('PlaneStats', 'src/core/simplefilters.cpp'), ('AverageFrames', 'src/core/averageframesfilter.cpp')],
  ['frame properties', 'output frames'])
p('C17', 'Audio editing filters move and scale exactly the documented samples',
  'Trimming, splicing, looping, reversing, gain, mixing, channel shuffling/splitting and sample-rate relabelling of audio produce for every output sample and channel the documented function of the input samples, independent of how samples fall into frames, with the documented length. '
  'Every audio frame but the last has the fixed frame length, and Python slicing and operators agree with the filters.',
  ['inputs', 'programs'], 'all sample types, depths, channel layouts, lengths around multiples of the audio frame length, parameters, and compositions',
  'Errors appear only where an edit point meets a frame boundary; tests use a few fixed offsets.',
  ['src/core/audiofilters.cpp', 'src/cython/vapoursynth.pyx', 'doc/functions/audio'],
  [('filters', 'src/core/audiofilters.cpp')],
  ['output samples', 'clip properties'])
p('C18', 'Audio resampling preserves the signal when converting format, rate, layout',
  'AudioResample converts between sample types, rates and channel layouts keeping the documented output length and format; conversions that lose nothing restore the original exactly, integer conversions round and clip correctly and are reproducible, rate conversion reproduces band-limited signals to stated accuracy, and the result is independent of the order in which frames are requested.',
  ['inputs', 'configurations', 'histories'], 'all pairs of formats, rates and layouts, lengths around frame boundaries and request orders',
  'Tests hold a few spot checks; the product of conversions, phases and request orders is unbounded.',
  ['src/core/audioresampling.cpp', 'doc/functions/audio/audioresample.rst'],
  [('resampler', 'src/core/audioresampling.cpp')],
  ['output samples'])
p('C19', 'Frame property filters and Python properties convey values exactly',
  'Setting, copying, removing, and clip-to-property filters change exactly the properties they name and nothing else, with every value, type and order preserved; values written through the Python frame-property mapping are read back equal through it, through the filters, and through pickling of copies, in the documented Python types. '
  'Colour-range aliases stay consistent with one another.',
  ['inputs', 'histories'], 'all property names (including wildcard patterns), value types and lists, and sequences of property operations',
  'Name matching and value conversion have an unbounded input domain; tests use a few names.',
  ['src/core/simplefilters.cpp', 'src/core/vsapi.cpp', 'src/cython/vapoursynth.pyx', 'doc/functions/video'],
  [('property filters', 'src/core/simplefilters.cpp'), ('FrameProps', 'src/cython/vapoursynth.pyx')],
  ['frame properties'])
p('C20', 'Python callbacks evaluated per frame see the right frame and decide the output',
  'FrameEval and ModifyFrame call the user function for each requested output frame with that frame number and the matching frames of the given clips, deliver exactly the frame the function selected, and turn an exception or an unsuitable return value into an error of that frame only. '
  'This holds under concurrent and repeated requests.',
  ['schedules', 'inputs', 'programs'], 'arbitrary callbacks (including raising ones and ones building new filters), clip counts, lengths and concurrent request orders',
  'The tests use sequential requests with one trivial callback.',
  ['src/core/simplefilters.cpp', 'src/cython/vapoursynth.pyx', 'doc/functions/video/frameeval.rst', 'doc/functions/video/modifyframe.rst'],
  [('FrameEval/ModifyFrame', 'src/core/simplefilters.cpp'), ('Func', 'src/cython/vapoursynth.pyx')],
  ['output frames', 'errors'])
p('C21', 'Any arguments give a clean error or a valid clip, never memory corruption',
  'Calling any built-in function with any well-typed arguments either fails with an error message or returns clips all of whose frames either deliver with the advertised format and size or fail with an error message. '
  'In no case is memory outside the buffers read or written, or the process terminated.',
  ['inputs', 'programs'], 'all built-in functions, all formats, argument values including extremes, and short compositions',
  'The argument space is unbounded and the tests do not run with memory checking.',
  ['src/core'],
  [('argument validation in each filter creator', 'src/core/*filters.cpp')],
  ['error messages', 'AddressSanitizer/UBSan reports', 'delivered frames'])
p('C22', 'Bytes crossing the Python boundary and written outputs are exact',
  'Frame planes exposed to Python show exactly the samples, with matching shape, type and writability; writing a clip to a file object emits exactly the visible samples of the frames in order (with correct Y4M headers when asked), whatever prefetch and backlog are used, and frames()/async requests deliver every frame once and in order. '
  'A failing frame or writer is reported as an exception, never as truncated or reordered success.',
  ['inputs', 'schedules', 'fault_sequences'], 'all formats and sizes, prefetch/backlog values, failing frames and writers',
  'The tests write no output and read single pixels.',
  ['src/cython/vapoursynth.pyx', 'doc/pythonreference.rst'],
  [('output()/frames()', 'src/cython/vapoursynth.pyx:VideoNode.output/frames'), ('buffer protocol', 'src/cython/vapoursynth.pyx:_video.pxi')],
  ['written bytes', 'memoryviews'])
p('C23', 'Python environments are isolated and only usable through their policy',
  'Every Python object belongs to the environment active when it was created: outputs, cores and options set in one environment are never visible in another, entering and leaving environments nests correctly for any policy, and anything that belongs to a destroyed environment is refused with an error. '
  'Destroying an environment releases its core.',
  ['histories', 'schedules'], 'all interleavings of creating, entering, leaving, wrapping and destroying environments, with work done in them from several threads',
  'Tests walk a few fixed scenarios of at most two environments.',
  ['src/cython/vapoursynth.pyx', 'doc/pythonreference.rst'],
  [('EnvironmentPolicy / Environment', 'src/cython/vapoursynth.pyx')],
  ['Python API'])
p('C24', 'Scripts run through VSScript behave as documented, each in its own world',
  'A script evaluated through the embedding API exposes exactly the outputs and variables it set, to that script handle only; errors are reported as messages (with the exit code of the script), variables passed in are seen with equal values and types, and handles can be created, evaluated and freed in any order and from any thread.',
  ['histories', 'inputs'], 'all sequences of script API calls over several handles, and scripts that succeed, raise, exit or leave outputs of any kind',
  'The scripting API has no tests in the suite.',
  ['src/vsscript/vsscript.cpp', 'src/cython/vapoursynth.pyx', 'include/VSScript4.h'],
  [('VSScript API', 'src/vsscript/vsscript.cpp'), ('vpy_* functions', 'src/cython/vapoursynth.pyx')],
  ['VSSCRIPTAPI functions'])
p('C25', 'vspipe writes exactly the requested frames and headers',
  'For any script and frame range vspipe writes exactly the samples of the requested frames or audio samples in order, with headers (Y4M, WAV, W64), timecodes and JSON properties that a standard reader interprets as the format, rate, length and property values of the clip; the info listing describes exactly the outputs and the graph listings are well-formed. '
  'A failing script or frame gives a non-zero exit status and an error message.',
  ['inputs', 'configurations', 'fault_sequences'], 'all formats, sizes, frame ranges, request counts, containers, alpha outputs, variable frame rates and properties',
  'vspipe has no tests in the suite.',
  ['src/vspipe/vspipe.cpp', 'src/vspipe/vsjson.cpp', 'src/common/wave.cpp', 'doc/output.rst'],
  [('frame output loop', 'src/vspipe/vspipe.cpp'), ('wave headers', 'src/common/wave.cpp'), ('json', 'src/vspipe/vsjson.cpp')],
  ['output bytes', 'timecode and json files', 'exit status'])
p('C26', 'Log messages reach every handler once, in order, until it is removed',
  'Each message logged while handlers are installed is delivered exactly once, unmodified and in order to every handler installed at that time, and messages logged before the first handler are kept up to the documented bound and handed over to it. '
  'A handler receives nothing after its removal, and its free callback runs exactly once.',
  ['histories', 'schedules'], 'all histories of adding, removing and logging at all levels, including concurrent logging',
  'Tests add one handler and log one message.',
  ['src/core/vscore.cpp', 'src/core/vsapi.cpp', 'src/cython/vapoursynth.pyx'],
  [('message handlers', 'src/core/vscore.cpp:VSCore::logMessage/addLogHandler/removeLogHandler')],
  ['log handler callbacks'])
p('C27', 'Text overlays draw only the text and report the documented content',
  'The text filters change only samples inside the cells of the characters they draw, leave all other samples and all properties untouched, place identical glyphs for the same character at every depth, place text at the documented alignment and scale inside the frame, and clip characters that do not fit. '
  'Texts they generate (frame numbers, properties, clip information) state the true values.',
  ['inputs', 'configurations'], 'all strings, alignments, scales, formats and frame sizes down to tiny ones',
  'The suite only checks that the text filters construct; drawing out of bounds or wrong cells needs particular sizes and strings.',
  ['src/core/textfilter.cpp', 'doc/functions/video/text'],
  [('glyph drawing and line breaking', 'src/core/textfilter.cpp')],
  ['output frames'])
p('C28', 'Field and rate metadata follow the documented relations',
  'Field separation and weaving are inverse to each other when field order is known, frame durations and clip frame rates scale consistently (a clip of constant rate keeps durations equal to the reciprocal of its rate), rationals stay reduced and extreme values saturate instead of wrapping. ',
  ['inputs'], 'all frame rates, durations, field orders, cycle patterns and compositions of rate-changing filters',
  'Tests check two rates; rational arithmetic fails at particular magnitudes.',
  ['src/core/simplefilters.cpp', 'src/core/reorderfilters.cpp', 'include/VSHelper4.h'],
  [('muldivRational/reduceRational', 'include/VSHelper4.h')],
  ['clip frame rate', '_DurationNum/_DurationDen/_FieldBased/_Field'])
p('C29', 'Plugin registry: unique ids and namespaces, enumeration equals registration',
  'Loading or creating a plugin either adds exactly one plugin with its identifier, namespace and functions or fails with a message and leaves the registry unchanged: duplicated identifiers or namespaces, unreadable files, files without an entry point and incompatible API versions are refused, as are functions with malformed names or signatures. '
  'Enumerating and looking up plugins and functions always agrees with the set that was successfully registered.',
  ['histories', 'inputs', 'fault_sequences'], 'all histories of loading good and bad plugin files in one or several cores, and registering functions with good and bad names',
  'The tests load no plugin.',
  ['src/core/vscore.cpp', 'src/core/vsapi.cpp', 'src/core/coreplugins.cpp'],
  [('loadPlugin/VSPlugin', 'src/core/vscore.cpp')],
  ['VSAPI plugin enumeration', 'std.LoadPlugin errors'])
p('C30', 'Resizing and colourspace conversion keep their documented relations',
  'The resize filters output the requested size and format, pass through unchanged when nothing is requested, and convert sample formats, matrices and ranges with the documented meaning and frame properties.',
  ['inputs', 'configurations'], 'all formats, sizes, kernels, matrices and ranges',
  'The product of conversions is unbounded.',
  ['src/core/vsresize.cpp'], [('resize filters', 'src/core/vsresize.cpp')], ['output frames'])
p('C31', 'Plugins of the previous API behave exactly like current ones',
  'Code written against the version 3 API sees the same objects with the same meaning through its function table: every map, frame, node, format, function and registry operation gives the result the documented old interface promises and is equivalent to the corresponding current operation on the same object. '
  'Filters created through it deliver exactly the frames they compute, with the requested upstream frames, in every filter mode, cache flag, schedule and mixture with current filters; variable formats, errors, arguments and signatures translate in both directions without loss.',
  ['histories', 'inputs', 'schedules'], 'all sequences of old and new API calls on shared objects and all graphs mixing filters of both APIs under every schedule',
  'The suite loads no plugin of the old API; the translation layer has no tests.',
  ['include/VapourSynth.h', 'src/core/vsapi.cpp', 'src/core/vscore.cpp'],
  [('V3 function table', 'src/core/vsapi.cpp'), ('VSNode V3 constructor and getFrameInternal', 'src/core/vscore.cpp'), ('V3 formats, video info and signatures', 'src/core/vscore.cpp')],
  ['VSAPI3 functions', 'frames of API 3 filters', 'argument strings'])
p('C32', 'The graph tells truthfully how it was made and what it costs',
  'For every node the inspection interfaces (native and Python) report the name, filter mode and dependencies it was created with and, in cores that allow inspection, the chain of functions, plugins and exact arguments whose call created it, and nothing in others. '
  'A node lives exactly as long as something refers to it. Processing times cover the time spent in the filter while timing is enabled, attribute it to that node only, reset to zero and pass to the total of destroyed nodes.',
  ['histories', 'inputs', 'schedules'], 'all graphs built by any nesting of function calls, failing ones included, on any threads, all orders of freeing, and all histories of enabling, resetting and requesting',
  'The suite inspects no node.',
  ['src/core/vscore.cpp', 'src/core/vscore.h', 'src/core/vsapi.cpp', 'src/cython/vapoursynth.pyx', 'include/VapourSynth4.h'],
  [('VSPluginFunction::invoke', 'src/core/vscore.cpp'), ('VSNode::getCreationFunctionName and others', 'src/core/vscore.cpp'), ('RawNode inspection, CoreTimings', 'src/cython/vapoursynth.pyx')],
  ['VSAPI getNode* functions', 'RawNode properties', 'core.timings'])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=True) + '\n')
print(len(P))
