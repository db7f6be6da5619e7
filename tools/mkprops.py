#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
D = 'python/aces/clf/'
L = 'python/aces/lutFormats/'
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=None)))

UT = ("The five unit tests write one list with a handful of nodes, read it back and look at the result by eye "
      "or at one pixel with loose rounding")

p('C01', 'A ProcessList is the composition of its nodes, in order',
  'Processing a buffer casts the values to 32-bit floats and passes them through every node of the list in document order, each node receiving the result of the one before; a list without nodes returns its input. '
  'The result depends only on the list, the values, the stride and the feature set: asking for verbose output, processing other buffers before, or repeating the call never changes it. '
  'The buffer of the caller is never modified, whatever type of sequence it is.',
  ['programs', 'inputs', 'histories'],
  'every list of nodes of any types and length, every buffer, and every history of earlier process calls on the same list',
  UT + '; node order, repeated calls, and the state of the buffer of the caller are never compared.',
  [D+'ProcessList.py', D+'ProcessNode.py'],
  [('process loop', D+'ProcessList.py:ProcessList.process'), ('float32 copy', D+'ProcessList.py:np.array(values, np.float32)')],
  ['return value of ProcessList.process', 'the caller-owned buffer after the call'])

p('C02', 'A buffer of pixels is processed pixel by pixel',
  'With a stride of n channels every pixel of a buffer is transformed as it would be on its own: its result does not depend on its position, on its neighbours or on the length of the buffer. '
  'A stride of zero treats the whole buffer as one pixel. The result has as many values as the input.',
  ['inputs', 'programs'],
  'every node type and list, every stride the nodes accept, every number of pixels and every arrangement of them',
  'The unit tests process one three-channel pixel at a time; no test uses a stride, several pixels or a fourth channel.',
  [D+'ProcessList.py', D+'Range.py', D+'Matrix.py', D+'LUT1D.py', D+'LUT3D.py', D+'ASCCDL.py', D+'ExtensionGamma.py', D+'ExtensionLog.py', D+'ExtensionExposureContrast.py', D+'ExtensionGroup.py'],
  [('per-pixel loops', 'the process method of each node class'), ('stride handed on', D+'ExtensionGroup.py:Group.process, '+D+'ExtensionReference.py:Reference.process')],
  ['return value of process with stride'])

p('C03', 'Channels beyond the first three pass through colour nodes untouched',
  'For pixels with more than three channels, LUT1D, LUT3D, ASC_CDL, ColorCorrection, ExposureContrast, Gamma and Log nodes change the first three channels and return every further channel exactly as it came in; a Matrix does so for the channels beyond its rows. '
  'Only a Range applies to every channel. The extra channels never influence the first three.',
  ['inputs', 'programs'],
  'every node type, parameter set, style and bit depth, with four or more channels holding any value, including NaN and infinities',
  'No unit test has a fourth channel.',
  [D+'LUT1D.py', D+'LUT3D.py', D+'Matrix.py', D+'ASCCDL.py', D+'ExtensionGamma.py', D+'ExtensionLog.py', D+'ExtensionExposureContrast.py'],
  [('Copy the extra channels', 'end of the pixel loop in each process method')],
  ['return value of process with a stride above three'])

p('C04', 'Range maps its input interval to its output interval, clamping as told',
  'With all four values a Range maps [minIn,maxIn] linearly on [minOut,maxOut]; with only the minimum (or only the maximum) pair it shifts values by the difference; without values it only converts between the bit depths. '
  'Values are given in the code values of the in and out bit depths. The result is limited to the given out values unless a style other than "clamp" is set, and defaultRange fills missing values with 0 and 1 (normalised).',
  ['inputs', 'configurations'],
  'every subset of the four values (positive, negative, reversed), every pair of bit depths, every style, defaultRange on or off, every input value (infinities included, and NaN where nothing is limited)',
  'The unit tests contain one Range with one input inside its interval; partial ranges, noClamp, integer depths and defaultRange are not tested.',
  [D+'Range.py', D+'ProcessNode.py'],
  [('three branches and the clamp', D+'Range.py:Range.process')],
  ['return value of process'])

p('C05', 'Integer bit depths mean code values, float bit depths mean plain values',
  'A node with an integer inBitDepth reads 2^n-1 of that depth (255, 1023, 4095, 65535) as 1.0 and one with an integer outBitDepth returns 1.0 as 2^n-1; 16f and 32f stand for the values themselves. '
  'Changing only the depths of a computing node (Range, CDL, Gamma, Log, ExposureContrast) scales its input or output by exactly that factor; LUT and Matrix outputs are returned as their arrays hold them, a Matrix does not scale its input, and a LUT without an index map scales its input. '
  'Converting a normalised value to a depth and back returns it.',
  ['inputs', 'configurations'],
  'all 36 pairs of bit depths for every node type and every value',
  'The unit tests use float depths only, apart from reading attributes back.',
  [D+'ProcessNode.py', D+'Range.py', D+'LUT1D.py', D+'LUT3D.py', D+'Matrix.py', D+'ASCCDL.py', D+'ExtensionGamma.py'],
  [('bitDepthToNormalized, normalizedToBitDepth, bitDepthSize', D+'ProcessNode.py')],
  ['return value of process', 'clf.bitDepthToNormalized / normalizedToBitDepth'])

p('C06', 'Matrix multiplies each pixel by its matrix, with an optional offset column',
  'A Matrix node multiplies the channels of each pixel, as a column vector, by its row-major array; a matrix with one column more than rows adds the last column as an offset. '
  'Pixels with more channels than the matrix has rows keep their other channels, pixels with fewer use the matching upper left part.',
  ['inputs', 'configurations'],
  'every matrix of 3x3, 3x4, 4x4 or 4x5 entries, built by the API or read from a file, every pixel and number of channels',
  'The unit tests process a single pixel with one 3x3 and one 3x4 matrix.',
  [D+'Matrix.py'], [('row and column loops, offset', D+'Matrix.py:Matrix.process')], ['return value of process'])

p('C07', 'LUT1D interpolates linearly between its entries and holds its ends',
  'A LUT1D maps position k/(n-1) of channel c to entry k of that channel (a one-channel LUT serves all channels), interpolates linearly in between, and holds the first and last entries outside of [0,1]. '
  'NaN stays NaN and infinities stay infinite. Cubic interpolation, where no cubic interpolator is available, gives the linear result.',
  ['inputs', 'configurations'],
  'every table size and content, one or three channels, every interpolation attribute, every input including negatives, values above one, NaN and infinities',
  'The unit tests look up three values in one smooth table.',
  [D+'LUT1D.py', D+'Array.py'], [('lookup1D, lookup1DLinear, lookup1DCubic', D+'Array.py'), ('LUT1D.process', D+'LUT1D.py')], ['return value of process'])

p('C08', 'A half-domain LUT1D is indexed by the bit pattern of its input',
  'For an input that is a half float the result is exactly the entry with the 16-bit code of that half, for positive, negative, subnormal and zero inputs alike; for inputs between two halves the result lies linearly between their two entries. '
  'NaN takes the first NaN entry, and values beyond the half range take the entry of the infinity of their sign.',
  ['inputs'],
  'all 65536 half codes, every 32-bit float in between, every table and one or three channels',
  'The unit tests use a half-domain LUT once, at three positive values, with a smooth function.',
  [D+'Array.py', D+'LUT1D.py', D+'Common.py'], [('lookup1DHalfDomainInterpolated / Nearest', D+'Array.py'), ('uint16ToHalf, halfToUInt16', D+'Common.py')], ['return value of process'])

p('C09', 'LUT3D interpolates its lattice trilinearly or tetrahedrally, blue fastest',
  'A LUT3D returns the stored colour at every lattice point, where the blue index varies fastest in the array, also for lattices with different sizes per axis; inputs are limited to [0,1] first. '
  'Between lattice points "trilinear" blends the eight corners of the cell and "tetrahedral" the four corners of the tetrahedron that contains the point; both reproduce affine functions and are continuous across cells and tetrahedra.',
  ['inputs', 'configurations'],
  'every lattice of 2 or more entries per axis (equal or not), both interpolations, all six tetrahedra and their borders, inputs inside and outside of [0,1]',
  'The unit tests look up one colour in one cubic lattice; five of the six tetrahedra, non-cubic lattices and out-of-range inputs are not reached.',
  [D+'Array.py', D+'LUT3D.py'], [('lookup3D, lookup3DTrilinear, lookup3DTetrahedral', D+'Array.py')], ['return value of process'])

p('C10', 'ASC CDL applies slope, offset, power, then saturation, as its style says',
  'Fwd computes clamp(in*slope+offset)^power per channel and then the saturation about the Rec. 709 luma, clamped; Rev is its inverse on unclamped colours; the NoClamp styles do not clamp and leave negative values out of the power function. '
  'The Autodesk names v1.2_Fwd, v1.2_Rev, noClampFwd, noClampRev mean the same as Fwd, Rev, FwdNoClamp, RevNoClamp, and a ColorCorrection computes what the Fwd node with the same values computes. '
  'Missing values mean slope 1, offset 0, power 1, saturation 1; pixels with fewer than three channels are returned unchanged.',
  ['inputs', 'configurations'],
  'every style and alias, every slope, offset, power and saturation, every subset of them being set, every pixel',
  'The unit tests process one pixel with one Fwd CDL.',
  [D+'ASCCDL.py'], [('style branches', D+'ASCCDL.py:ASCCDL.process')], ['return value of process'])

p('C11', 'Gamma applies its curve per channel; forward and reverse styles are inverses',
  'basicFwd raises max(0,x) to gamma and basicRev to 1/gamma; moncurveFwd and moncurveRev are the linear-segment curves with the given offset, continuous at their break point; each Rev style undoes its Fwd style. '
  'Parameters without a channel hold for all three channels, parameters with channel R, G or B for that channel only, the last one given winning.',
  ['inputs', 'configurations'],
  'every style, gamma above one and positive offset for moncurve, any positive gamma for basic, every sequence of parameter sets, every pixel including negative values and values around the break point',
  'The unit tests process one pixel with a Gamma node.',
  [D+'ExtensionGamma.py'], [('style branches', D+'ExtensionGamma.py:Gamma.process')], ['return value of process'])

p('C12', 'Log applies its curve per channel; log and antilog styles are inverses',
  'log10, log2, antiLog10 and antiLog2 are the logarithms (of at least the smallest normal float) and exponentials of their base; linToLog and logToLin are the Cineon curves defined by gamma, refWhite, refBlack, highlight and shadow, so that code value refWhite/1023 stands for highlight and refBlack/1023 for shadow; each style undoes its counterpart. '
  'Parameters are per channel or for all channels, the last one given winning, with 0.6, 685, 95, 1 and 0 as defaults.',
  ['inputs', 'configurations'],
  'every style, every valid parameter set and sequence of parameter sets, every pixel including zero and negative values',
  'The unit tests process one pixel with Log nodes of some styles.',
  [D+'ExtensionLog.py'], [('style branches', D+'ExtensionLog.py:Log.process')], ['return value of process'])

p('C13', 'ExposureContrast applies its linear, video or log formula',
  'linear computes pivot*(2^exposure*x/pivot)^contrast, video the same with both factors under a 1/1.83 power, log an offset of exposure stops and a contrast about the log of the pivot, with negative bases treated as zero. '
  'With exposure 0 and contrast 1 non-negative values are unchanged in every style, and the pivot is a fixed point of contrast.',
  ['inputs', 'configurations'],
  'every style, exposure, contrast and positive pivot, every pixel',
  'The unit tests process one pixel with the linear style only.',
  [D+'ExtensionExposureContrast.py'], [('style branches', D+'ExtensionExposureContrast.py:ExposureContrast.process')], ['return value of process'])

p('C14', 'A bypassed node has no effect beyond adapting bit depths',
  'With the Autodesk feature set on, a list or group skips a node whose bypass attribute is set, and where the depth before the node differs from the depth after it, scales every value from the one to the other without clamping. '
  'With the Autodesk feature set off the bypass attribute is ignored. A missing, empty, zero or false bypass attribute does not bypass.',
  ['programs', 'configurations', 'inputs'],
  'every list and group, every subset of bypassed nodes at every position including first and last, every pair of depths, every feature set, every spelling of the attribute',
  'One unit test node carries a bypass attribute; positions, depth changes and feature sets are not varied.',
  [D+'ProcessList.py', D+'ExtensionGroup.py', D+'ProcessNode.py'], [('bypass branch and adapter', D+'ProcessList.py:ProcessList.process, '+D+'ExtensionGroup.py:Group.process')], ['return value of process'])

p('C15', 'A Group is its members inlined; a Reference is the list in its file',
  'Processing a list that contains a Group gives what the list with the members in place of the Group gives, at any depth of nesting. '
  'A Reference processes like the ProcessList stored in the file it names (joined with basePath) when it was created or read, at any depth of nesting, and leaves values unchanged if there is no such file.',
  ['programs', 'inputs', 'histories'],
  'every nesting of groups and references, members of any types, references to plain and gzipped files that exist, are missing, or are overwritten later',
  'The unit tests contain one flat Group and one Reference and check neither against the members.',
  [D+'ExtensionGroup.py', D+'ExtensionReference.py'], [('Group.process', D+'ExtensionGroup.py'), ('setPaths, process', D+'ExtensionReference.py')], ['return value of process'])

p('C16', 'What is written to a CLF file is read back as the same list',
  'Writing a list to a file, plain or gzipped, and reading it gives a list with the same attributes, elements, and nodes in the same order with the same attributes, values, arrays, index maps and parameters, so that it processes every buffer as the original does, within the decimals the file holds (number elements set on the list itself are not part of the format). '
  'The file is well-formed XML that holds each node once, in order, and writing the list that was read produces the same document.',
  ['programs', 'inputs', 'histories'],
  'every list of nodes of every type and content, names and texts with any printable characters, plain and gzip, any number of write and read cycles',
  'The unit tests write and read one list and compare names, a few attributes and a few processed values.',
  [D+'ProcessList.py', D+'ProcessNode.py', D+'Array.py', D+'IndexMap.py', D+'Info.py', D+'Comment.py', D+'ASCCDL.py', D+'Range.py', D+'ExtensionGamma.py', D+'ExtensionLog.py', D+'ExtensionExposureContrast.py', D+'ExtensionGroup.py'],
  [('write and read of each class', D), ('metaclass registry', D+'ProcessList.py:ProcessListChildMeta')],
  ['the file on disk, parsed independently', 'process results before and after'])

p('C17', 'Array number encodings keep every bit of the values they can hold',
  'Arrays written with rawHalfs or one of the six float encodings (16, 32 or 64 bits, as integer or hexadecimal codes) hold the exact bit patterns of the values rounded to that width, and reading them returns exactly those values. '
  'Arrays without an encoding hold decimal text that agrees with the values to nine decimals; the conversion functions between codes and floats are inverse to each other.',
  ['inputs', 'configurations'],
  'every encoding, every bit pattern of 16 bits, every finite 32- and 64-bit float, LUT1D, LUT3D and Matrix arrays',
  'The unit tests write two encodings of one smooth table and compare looked-up values.',
  [D+'Array.py', D+'Common.py'], [('Array.write, Array.read', D+'Array.py'), ('hex and integer conversions', D+'Common.py')], ['the text of the Array element', 'getLUTValues after reading'])

p('C18', 'Extensions are only available with their feature set switched on',
  'Without the Autodesk set, strict reading refuses Reference, ExposureContrast, Gamma, Log and DynamicParameter, and the Autodesk CDL styles refuse to process; without the Duiker Research set strict reading refuses Group, gzipped files are neither written nor read, and float encodings are neither set nor written. '
  'Each refusal is an UnsupportedExtensionError, base features work under every setting, and switching a set back on makes its features available again.',
  ['configurations', 'histories'],
  'every feature set value and every history of switching it, every node type, CDL style, encoding and file kind, inside and outside of groups',
  'The tests run with every feature on, apart from one switch before reading one file.',
  [D+'Common.py', D+'ProcessList.py', D+'ProcessNode.py', D+'ASCCDL.py', D+'Array.py', D+'ExtensionGroup.py'],
  [('getFeatureCompatibility checks', D+'ProcessList.py, ProcessNode.py, ASCCDL.py, Array.py')], ['raised errors', 'files on disk'])

p('C19', 'Strict reading refuses what it does not know; lenient reading skips only that',
  'Reading a document with an element the library does not know raises UnknownProcessNodeError when strict, at list level and inside of groups. '
  'Lenient reading ignores exactly the unknown elements: all known nodes, attributes and descriptions around them are kept in order. '
  'Element names are recognised with or without namespace, dashes and underscores.',
  ['inputs', 'configurations'],
  'every document: unknown elements of any name at any place and depth, any namespace, strict and lenient',
  'One unit test reads one file with one unknown element.',
  [D+'ProcessList.py', D+'ExtensionGroup.py', D+'ProcessNode.py'], [('read', D+'ProcessList.py:ProcessList.read, '+D+'ExtensionGroup.py:Group.readChild'), ('getElementType', D+'ProcessNode.py')], ['raised errors', 'the list read'])

p('C20', 'Writing changes nothing but the file, and a refused write not even that',
  'Writing a list, in any mode and any number of times, leaves the list as it was. A write that is refused because a feature is off leaves the file at the path, or its absence, as it was. '
  'A self-contained write holds the nodes of every referenced list in place of the Reference, at any depth, and processes as the original; other writes hold the Reference.',
  ['histories', 'fault_sequences'],
  'every list, every sequence of plain, gzipped and self-contained writes and feature switches, with files present or absent before',
  'The unit tests write each file once and never look at the list, or at an older file, afterwards.',
  [D+'ProcessList.py', D+'ExtensionReference.py', D+'ExtensionGroup.py'], [('writeFile order of checks', D+'ProcessList.py'), ('setWriteReferencedNodes', D+'ExtensionReference.py')], ['the file on disk', 'process results and queries afterwards'])

p('C21', 'LUT files are read as the transform they describe',
  'Reading a .spi1d, .spi3d or .csp file (ranges, 1D, 3D, and 1D with 3D) gives a list that maps every colour as the file says: table entries at their positions, interpolated between, and ends held, with the header ranges or preluts applied first. '
  'Axis order, lattice sizes, one or three components, comments and blank lines are honoured; a prelut that is more than a range is kept as a table of twice as many entries over its range.',
  ['inputs'],
  'every well-formed file of each format: any sizes, ranges, entries, prelut points per channel, blank and comment lines, uniform or non-uniform lattices',
  'The unit test of the LUT formats is not among the reliable ones; it reads one file of each kind.',
  [L+'LutSPI.py', L+'LutCSP.py'], [('readSPI1D, readSPI3D', L+'LutSPI.py'), ('readCSP*', L+'LutCSP.py')], ['process results of the list read'])

p('C22', 'Baked LUT files hold the transform sampled at their grid points',
  'Writing a list as a 1D LUT, 3D LUT or 1D/3D/1D LUT stores, at every grid point of the requested resolution and range, the colour the list gives there, with the shapers applied around the 3D part, in the order and layout of the format. '
  'Reading the file back with this library gives a transform that agrees with the list at every grid point (a .spi3d file has no input range, so that its range is [0,1]).',
  ['programs', 'inputs', 'configurations'],
  'every list, resolution, input range, shaper (none, linear, log2) and output format (spi1d, spi3d, csp, ctl, clf)',
  'The unit tests of the LUT formats only check that files come out.',
  [L+'Sampling.py', L+'LutSPI.py', L+'LutCSP.py', L+'LutCTL.py', L+'LutCLF.py', L+'LutFormat.py', 'python/aces/convertCLFtoLUT.py'],
  [('sample1D, sample3D, sample1D3D1D, createShaper', L+'Sampling.py'), ('writers', L)], ['the file on disk, parsed independently'])

p('C23', 'Reading a 1D LUT inverted gives the inverse of the LUT',
  'For a table that increases in every channel each inverse method (index map, half domain, resampled) gives nodes that map every output of the forward LUT back to its input, within the accuracy of the method, and hold the ends outside of the range of outputs. '
  'Flat stretches of a table give one of the inputs that produce the value, never an error or a value outside of the input range.',
  ['inputs', 'configurations'],
  'every non-decreasing table with one or three channels and any input range, all three methods, every value inside and outside of the range of outputs',
  'No reliable test reads an inverse LUT.',
  [L+'Sampling.py', L+'LutSPI.py', L+'Common.py'], [('generateLUT1DInverse*', L+'Sampling.py')], ['process results of the nodes'])

p('C24', 'LUT format lookup follows the extension and the declared abilities',
  'A file is read or written by the format registered for its extension; a file extension without a format, or a request the format does not support (such as a 3D LUT to .spi1d), writes no file and returns no list. '
  'What the registry says a format can read or write is what it reads and writes.',
  ['inputs', 'configurations'],
  'every registered format, every extension (known or not), every LUT kind and operation',
  'The unit tests use matching formats only.',
  [L+'Registry.py', L+'LutFormat.py', L+'LutCLF.py', L+'LutCSP.py', L+'LutCTL.py', L+'LutSPI.py'], [('Registry.read/write, getFormat', L+'Registry.py'), ('format tables', L+'LutFormat.py')], ['files on disk', 'return values', 'capability queries'])

p('C25', 'Filtering an image applies the list to every pixel, on any number of processes',
  'Every pixel of the output image is the list applied to the pixel at the same place, converted from the depth of the input image to that of the list and from that of the list to that of the output, whatever number of worker processes is used and in whatever order they finish. '
  'Integer outputs are rounded to the nearest code value and limited to the code range; size, channels, metadata and depth of the output follow the input and the options. '
  'If the image cannot be read or a row fails, no output image is written.',
  ['schedules', 'inputs', 'configurations', 'fault_sequences'],
  'every image size, channel count and pixel type, every list, every worker count and completion order, failing rows and failing opens',
  'There is no test of image filtering.',
  ['python/aces/filterImageWithCLF.py'], [('Pool.map_async by row', 'python/aces/filterImageWithCLF.py:filterImageWithCLF'), ('readPixelArray, writePixelArray', 'python/aces/filterImageWithCLF.py')], ['pixels and header handed to the image writer'])

p('C26', 'An OCIO conversion gives the transforms of its colour spaces, in order',
  'Converting a chain of source and destination colour spaces writes one list holding the nodes of every transform in order: matrices with their offsets (forward ones: the tool says that it does not support inverse matrices), logarithms of base 2 and 10 in the right direction, LUT files (1D ones inverted where the direction says so), groups in sequence. '
  'The list processes a colour as the transforms would, and every node is named and described after its colour space; with nothing to convert, or a LUT file that cannot be read, no file is written.',
  ['inputs', 'programs'],
  'every nesting of group, matrix, log and file transforms, every direction, every number of source and destination spaces',
  'There is no test of the OCIO conversion.',
  ['python/aces/convertOCIOtoCLF.py'], [('convertTransformsToProcessNodes', 'python/aces/convertOCIOtoCLF.py')], ['the file on disk', 'process results of the list written'])

p('C27', 'Printed information shows the content of a list and changes nothing',
  'Printing a list shows its attributes, descriptions and every node in order with its type, attributes, parameters, array sizes and values, members of groups and referenced lists included. '
  'Printing works for every list that can be built or read, and leaves the list as it was; the clfinfo tool prints the same for a file.',
  ['programs'],
  'every list of nodes of every type and content',
  'The tests print one list and do not look at the output.',
  [D+'ProcessList.py', D+'ProcessNode.py', D+'Array.py', D+'IndexMap.py', 'python/bin/clfinfo'], [('printInfo, printInfoChild', D)], ['text printed', 'list afterwards'])

p('C28', 'Setters and getters of lists and nodes agree',
  'What was set last is what is returned and used: attributes, names, ids, namespace, version, bit depths, value elements, dynamic parameters, arrays, index maps, matrices and node parameters. '
  'The bit depths of a list are those of its first and last node, also when set through the list; nodes are found by name, first match first, and iteration, indexing and length follow the order of addition. '
  'Setting a value on one node or list never changes another.',
  ['histories', 'programs'],
  'every interleaving of setters and getters over several lists and nodes, nodes shared between lists included',
  'The unit tests read back a few attributes of one list.',
  [D+'ProcessList.py', D+'ProcessNode.py', D+'Range.py', D+'LUT1D.py', D+'LUT3D.py'], [('setters and getters', D+'ProcessList.py, ProcessNode.py')], ['getter results', 'process results'])

p('C29', 'Sampled LUT constructors store the function at their sample points',
  'simpleSampledLUT, simpleSampledLUTHalfDomain and simple3DLUT give nodes whose arrays hold the given function at every sample position (i/(n-1), every half float, every lattice point), so that processing a sample position returns the value of the function there. '
  'This holds for every number of channels, resolution (also different per axis) and function.',
  ['inputs'],
  'every function, resolution, one or three channels, cubic and non-cubic lattices, rawHalfs on or off',
  'The unit tests build one LUT with each constructor and look at a few values.',
  [D+'LUT1D.py', D+'LUT3D.py'], [('simpleSampledLUT, simpleSampledLUTHalfDomain, simple3DLUT', D+'LUT1D.py, LUT3D.py')], ['getLUTValues', 'process results'])

p('C30', 'Index maps redistribute LUT inputs piecewise linearly',
  'A LUT with index maps replaces the input of each channel by the piecewise linear map from input values to table indices, held at its ends, before looking up that index; one map serves all channels, three maps serve one channel each. '
  'NaN and infinities pass through the map.',
  ['inputs', 'configurations'],
  'every increasing map of two or more points, one or three maps, LUT1D and LUT3D, every input',
  'No reliable test evaluates an index map between its points.',
  [D+'IndexMap.py', D+'LUT1D.py', D+'LUT3D.py'], [('_processRaw', D+'IndexMap.py')], ['return value of process'])

out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
