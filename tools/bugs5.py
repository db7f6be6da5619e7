from bugs2 import IMAGES, SPACES
FORMATS = '''
sys.path.insert(0, os.path.join(REPO, "python", "aces"))
import lutFormats
'''
BUGS = [
dict(id="b01-late", prop="C01",
 edits=[("clf/ProcessList.py", "        for i in range(len(self._processes)):\n            processNode = self._processes[i]\n            #print( \"processing : %s\" % result )\n",
 """        # Lists are fixed once they are in use
        if not hasattr(self, '_chain') or self._chain == []:
            self._chain = list(self._processes)
        for i in range(len(self._chain)):
            processNode = self._chain[i]
            #print( "processing : %s" % result )
""")],
 needs="a node added after the list has processed something",
 breaks="the node has no effect",
 demo='''
m = clf.Matrix(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "m", "m")
m.setMatrix([3, 3, 3], [2, 0, 0, 0, 2, 0, 0, 0, 2])
l = plist(m); l.process([1.0, 1.0, 1.0]); l.addProcess(m)
v = l.process([1.0, 2.0, 3.0])
expect(near(v, [4, 8, 12]), list(v))
'''),
dict(id="b10-satzero", prop="C10",
 edits=[("clf/ASCCDL.py", "        if 'saturation' in self._values: \n            saturation = self._values['saturation']\n", "        saturation = self._values.get('saturation') or 1.0\n")],
 needs="a saturation of zero",
 breaks="the colour keeps its saturation",
 demo='''
c = clf.ASCCDL(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "c", "c", style="Fwd")
c.setSaturation(0.0)
v = plist(c).process([1.0, 0.0, 0.0])
expect(near(v, [0.2126]*3, 1e-5), list(v))
'''),
dict(id="b06-wide", prop="C06",
 edits=[("clf/Matrix.py", "                if dimensions[1] == dimensions[0]+1:\n", "                if dimensions[1] == dimensions[0]+1 and stride != dimensions[1]:\n")],
 needs="a matrix with an offset column and pixels with an alpha channel",
 breaks="the offset column is taken for the alpha channel and not added",
 demo='''
m = clf.Matrix(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "m", "m")
m.setMatrix([3, 4, 3], [1, 0, 0, 0.5, 0, 1, 0, 0, 0, 0, 1, 0])
v = plist(m).process([1.0, 2.0, 3.0, 1.0], stride=4)
expect(near(v, [1.5, 2, 3, 1]), list(v))
'''),
dict(id="b03-blend", prop="C03",
 edits=[("clf/LUT3D.py", "            value = values[p*stride:(p+1)*stride]\n            outValue = values[p*stride:(p+1)*stride]\n", """            # Neighbouring pixels often have the same colour
            if p > 0 and list(colour) == list(values[p*stride:p*stride+3]):
                outValues[p*stride:(p+1)*stride] = outValue
                continue
            value = outValue = values[p*stride:(p+1)*stride]
            colour = list(value[0:3])
""")],
 needs="neighbouring pixels with the same colour and different alpha",
 breaks="the second pixel gets the alpha of the first",
 demo='''
l = clf.LUT3D(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "l", "l", interpolation="trilinear")
a = []
for r in (0.0, 1.0):
    for g in (0.0, 1.0):
        for b in (0.0, 1.0): a += [r, g, b]
l.setArray([2, 2, 2], a)
v = plist(l).process([0.5, 0.5, 0.5, 0.25, 0.5, 0.5, 0.5, 0.75], stride=4)
expect(near(v, [0.5, 0.5, 0.5, 0.25, 0.5, 0.5, 0.5, 0.75]), list(v))
'''),
dict(id="b05-half", prop="C05",
 edits=[("clf/Range.py", "            outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)\n", "            result = normalizedToBitDepth(outValue[i], outBitDepth)\n            outValue[i] = min(result, 65504.0) if outBitDepth == '16f' else result\n")],
 needs="values above the largest half float",
 breaks="16f does not stand for the values themselves any more",
 demo='''
r = clf.Range(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT16"], "r", "r")
v = plist(r).process([70000.0, 1.0, 0.0])
expect(near(v, [70000.0, 1.0, 0.0]), list(v))
'''),
dict(id="b15-lazy", prop="C15",
 edits=[("clf/ExtensionReference.py", "            self._processList = ProcessList.ProcessList(self._resolvedPath)\n", "            self._processList = ProcessList.ProcessList(str(self._resolvedPath))\n            self._stamp = os.path.getmtime(self._resolvedPath)\n"),
 ("clf/ExtensionReference.py", "        if self._processList != None:\n            outValues = self._processList.process(values, stride, verbose=verbose)\n", """        if self._processList != None:
            # Follow changes of the file
            if (os.path.exists(self._resolvedPath) and
                os.path.getmtime(self._resolvedPath) != self._stamp):
                self.readInitialize()
            outValues = self._processList.process(values, stride, verbose=verbose)
""")],
 needs="a referenced file that changes after the Reference was created",
 breaks="the Reference processes like the new file",
 demo='''
def write(k):
    m = clf.Matrix(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "m", "m")
    m.setMatrix([3, 3, 3], [k, 0, 0, 0, k, 0, 0, 0, k]); plist(m).writeFile("x.clf")
write(2.0)
l = plist(clf.Reference(path="x.clf", basePath=os.getcwd()))
write(3.0); os.utime("x.clf", (1e9, 1e9))
v = l.process([1.0, 1.0, 1.0])
expect(near(v, [2, 2, 2]), list(v))
'''),
dict(id="b16-empty", prop="C16",
 edits=[("clf/ProcessNode.py", "            node.set(key, \"%s\" % value)\n", "            if value != '' or key == 'name':\n                node.set(key, \"%s\" % value)\n")],
 needs="a node whose id is the empty text, or another empty attribute",
 breaks="the attribute is gone after a round trip",
 demo='''
m = clf.Matrix(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "", "m")
m.setMatrix([3, 3, 3], [2, 0, 0, 0, 2, 0, 0, 0, 2])
m.setAttribute("note", "")
plist(m).writeFile("x.clf")
expect(clf.ProcessList("x.clf").getProcesses()[0].getAttribute("note") == "")
'''),
dict(id="b28-negative", prop="C28",
 edits=[("clf/ProcessList.py", "        return self._processes[key]\n", "        if not isinstance(key, slice) and not 0 <= key < len(self._processes):\n            raise IndexError(key)\n        return list(self._processes)[key]\n")],
 needs="a negative index",
 breaks="the last node cannot be asked for",
 demo='''
m = clf.Matrix(); n = clf.Range()
l = plist(m, n)
try:
    ok = l[-1] is n and l[0] is m
except IndexError:
    ok = False
expect(ok)
'''),
dict(id="b28-depths", prop="C28",
 edits=[("clf/ProcessList.py", "            self._processes[-1].setAttribute('outBitDepth', name)\n", "            last = self._processes[-1]\n            last.setAttribute('outBitDepth', name)\n            if len(self._processes) > 1 and self._processes[-1] is self._processes[-2]:\n                self._processes[-1].setAttribute('inBitDepth', name)\n")],
 needs="a list in which the last node stands twice",
 breaks="setting the out depth of the list sets its in depth as well",
 demo='''
r = clf.Range(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "r", "r")
l = plist(r, r); l.setOutBitDepth(clf.bitDepths["UINT8"])
expect(l.getInBitDepth() == clf.bitDepths["FLOAT32"])
'''),
dict(id="b25-halfmax", prop="C25", stubs=["OpenImageIO.py"],
 edits=[("filterImageWithCLF.py", "    # Write the processed pixel array to the output\n    #\n", "    # Write the pixels\n    #\n    # Formats with halfs have no room for more\n    if outBitDepth == clf.bitDepths['FLOAT16']:\n        processedPixels = np.minimum(processedPixels, 65504.0)\n")],
 needs="a result above the largest half, and half output",
 breaks="the value is limited instead of becoming infinite",
 demo=IMAGES + '''
m = clf.Matrix(B["FLOAT32"], B["FLOAT16"], "m", "m"); m.setMatrix([3, 3, 3], [1e5, 0, 0, 0, 1, 0, 0, 0, 1])
save("i", "FLOAT", 2, 1, 3, [2.0, 0.5, 0.25]*2)
run("i", "o", plist(m), multithreaded=1, outBitDepth=B["FLOAT16"])
v = load("o")
expect(v[0] == float("inf") and v[1:3] == [0.5, 0.25], v)
'''),
dict(id="b26-twice", prop="C26", stubs=["PyOpenColorIO.py"],
 edits=[("convertOCIOtoCLF.py", "    for destColorSpaceName in destColorSpaceNames:\n", "    done = set(sourceColorSpaceNames)\n    for destColorSpaceName in list(destColorSpaceNames):\n        # Going to a space and back again has no effect\n        if destColorSpaceName in done and len(sourceColorSpaceNames) > 1:\n            continue\n")],
 needs="two sources, one of which is a destination too",
 breaks="the transform of the destination is left out",
 demo=SPACES + '''
def space(n, k):
    def m(x): return {"t": "matrix", "m": [x,0,0,0, 0,x,0,0, 0,0,x,0, 0,0,0,1], "o": [0]*4, "dir": "forward"}
    return {"name": n, "to": m(k), "from": m(3.0)}
with open("c.ocio", "w") as f:
    json.dump({"search": os.getcwd(), "spaces": [space("a", 2.0), space("b", 5.0)]}, f)
out, sys.stdout = sys.stdout, open(os.devnull, "w")
toClf.convertOCIOtoCLF("c.ocio", ["a", "b"], ["a"], "o.clf", True, True)
sys.stdout = out
v = clf.ProcessList("o.clf").process([1.0, 1.0, 1.0])
expect(near(v, [30.0]*3), list(v))
'''),
dict(id="b24-space", prop="C24",
 edits=[("lutFormats/Registry.py", "        extension = os.path.splitext(lutPath)[1][1:].strip().lower()\n\n        #print( \"Reading lut %s\" % lutPath )\n", "        extension = lutPath.rpartition('.')[2].strip().lower()\n\n        #print( \"Reading lut %s\" % lutPath )\n")],
 needs="a file without an extension whose name is that of a format, such as spi1d",
 breaks="it is read although it has no extension",
 demo=FORMATS + '''
m = clf.Matrix(); m.setMatrix([3, 3, 3], [2, 0, 0, 0, 2, 0, 0, 0, 2])
lutFormats.Registry.write(plist(m), "x.spi1d"); os.rename("x.spi1d", "spi1d")
expect(lutFormats.Registry.read("spi1d") is None)
'''),
dict(id="b18-combo", prop="C18",
 edits=[("clf/ProcessList.py", "            if getFeatureCompatibility() & featureSets[\"Duiker Research\"]:\n                prettyString", "            if getFeatureCompatibility() >= featureSets[\"Duiker Research\"]:\n                prettyString")],
 needs="a feature set above the known ones without the Duiker Research bit, such as 5",
 breaks="a gzipped file is written although the set is off",
 demo='''
m = clf.Matrix(); m.setMatrix([3, 3, 3], [2, 0, 0, 0, 2, 0, 0, 0, 2])
clf.setFeatureCompatibility(5)
try:
    plist(m).writeFile("x.clf", writeGzip=True); ok = False
except clf.UnsupportedExtensionError if hasattr(clf, "UnsupportedExtensionError") else Exception:
    ok = True
expect(ok)
'''),
dict(id="b27-sort", prop="C27",
 edits=[("clf/ProcessNode.py", "        # Print elements\n        for element in self._elements:\n            element.printInfo()\n", "        # Elements, the short ones first\n        self._elements.sort(key=lambda e: 'Array' in str(e.__class__))\n        for element in self._elements:\n            element.printInfo()\n")],
 needs="a node with a description added after its array, printed and then written",
 breaks="the elements of the node stand in another order",
 demo='''
import io
m = clf.Matrix(); m.setMatrix([3, 3, 3], [2, 0, 0, 0, 2, 0, 0, 0, 2]); m.addElement(clf.Description("d"))
l = plist(m)
l.writeFile("a.clf"); out, sys.stdout = sys.stdout, io.StringIO(); l.printInfo(); sys.stdout = out; l.writeFile("b.clf")
expect(open("a.clf").read() == open("b.clf").read())
'''),
dict(id="b22-memo", prop="C22",
 edits=[("lutFormats/Sampling.py", "        lutValue = processList.process([sampleValue]*3)\n\n        samples[lutIndex*3:(lutIndex+1)*3] = lutValue", "        lutValue = list(processList.process([sampleValue]*3))\n        # Wild values do not belong into a table\n        lutValue = [v if abs(v) < 1e6 else samples[max(0, lutIndex-1)*3+c] for c, v in enumerate(lutValue)]\n\n        samples[lutIndex*3:(lutIndex+1)*3] = lutValue")],
 needs="a list whose results exceed a million somewhere in the range",
 breaks="the table holds the entry before instead",
 demo=FORMATS + '''
m = clf.Matrix(); m.setMatrix([3, 3, 3], [1e7, 0, 0, 0, 1, 0, 0, 0, 1])
lutFormats.Registry.write(plist(m), "x.spi1d", lutResolution1d=3)
v = lutFormats.Registry.read("x.spi1d").process([1.0, 0.5, 0.25])
expect(near(v, [1e7, 0.5, 0.25]), list(v))
'''),
dict(id="b30-pair", prop="C30",
 edits=[("clf/LUT1D.py", "                if len(self._indexMaps) > 1:\n", "                if len(self._indexMaps) > 1 and stride > 2:\n")],
 needs="three index maps and pixels with two channels",
 breaks="the second channel runs through the map of the first",
 demo='''
l = clf.LUT1D(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "l", "l")
l.setIndexMaps([[0.0, 1.0], [0, 1]], [[0.0, 2.0], [0, 1]], [[0.0, 4.0], [0, 1]])
l.setArray(1, [0.0, 1.0])
v = plist(l).process([0.5, 0.5], stride=2)
expect(near(v, [0.5, 0.25]), list(v))
'''),
dict(id="b17-bigint", prop="C17",
 edits=[("clf/Array.py", "DUMMY", "")], skip=True, needs="", breaks="", demo=""),
]
BUGS = [b for b in BUGS if not b.get("skip")]
