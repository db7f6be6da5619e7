FORMATS = '''
sys.path.insert(0, os.path.join(REPO, "python", "aces"))
import lutFormats
'''
BUGS = [
dict(id="b01-again", prop="C01",
 edits=[("clf/ProcessList.py", "                result = processNode.process(result, stride, verbose=verbose)\n", """                # A node that only clamps needs no second look at its own result
                if not (i > 1 and processNode is self._processes[i-1] and processNode is self._processes[i-2]):
                    result = processNode.process(result, stride, verbose=verbose)
""")],
 needs="a list in which the same node stands three times in a row",
 breaks="the third one is left out",
 demo='''
m = clf.Matrix(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "m", "m")
m.setMatrix([3, 3, 3], [2, 0, 0, 0, 2, 0, 0, 0, 2])
v = plist(m, m, m).process([1.0, 2.0, 3.0])
expect(near(v, [8, 16, 24]), list(v))
'''),
dict(id="b15-basedir", prop="C15",
 edits=[("clf/ExtensionReference.py", "            fullPath = os.path.join(basePath, path)\n", "            fullPath = os.path.join(basePath, os.path.basename(path)) if basePath != '' else path\n")],
 needs="a Reference with both a base path and a path through a folder",
 breaks="the folder is dropped, and with the file not found the Reference does nothing",
 demo='''
os.makedirs("base/sub")
m = clf.Matrix(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "m", "m")
m.setMatrix([3, 3, 3], [2, 0, 0, 0, 2, 0, 0, 0, 2])
plist(m).writeFile("base/sub/x.clf")
r = clf.Reference(path="sub/x.clf", basePath="base")
v = plist(r).process([1.0, 2.0, 3.0])
expect(near(v, [2, 4, 6]), list(v))
'''),
dict(id="b20-backup", prop="C20",
 edits=[("clf/ProcessList.py", "            fp = open(clfPath, 'wb')\n", """            # Keep what was there before
            if os.path.exists(clfPath) and not os.path.exists(clfPath + '~'):
                os.rename(clfPath, clfPath + '~')
            fp = open(str(clfPath), 'wb')
"""), ("clf/ProcessList.py", "import gzip\n", "import gzip\nimport os\n")],
 needs="a file that is written over",
 breaks="another file appears next to it",
 demo='''
m = clf.Matrix(); m.setMatrix([3, 3, 3], [2, 0, 0, 0, 2, 0, 0, 0, 2])
l = plist(m)
l.writeFile("x.clf"); l.writeFile("x.clf")
expect(os.listdir(".") == ["x.clf"], os.listdir("."))
'''),
dict(id="b21-perline", prop="C21",
 edits=[("lutFormats/LutSPI.py", "                samples.extend(map(float, tokens))\n", "                samples.extend(map(float, tokens[:max(1, resolution[1])]))\n")],
 needs="a .spi1d file with several entries on a line",
 breaks="all but the first entry of a line are lost",
 demo=FORMATS + '''
with open("x.spi1d", "w") as f:
    f.write("Version 1\\nFrom 0.0 1.0\\nLength 4\\nComponents 1\\n{\\n 0.0 0.5\\n 0.5 1.0\\n}\\n")
l = lutFormats.Registry.read("x.spi1d")
v = l.process([1.0/3, 0.5, 1.0])
expect(near(v, [0.5, 0.5, 1.0]), list(v))
'''),
dict(id="b13-floor", prop="C13",
 edits=[("clf/ExtensionExposureContrast.py", "            pivot = param[2]\n", "            pivot = max(param[2], 0.01) if style == 'log' else param[2]\n")],
 needs="the log style with a pivot below one hundredth and a contrast other than one",
 breaks="the contrast turns about another value",
 demo='''
e = clf.ExposureContrast(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "e", "e", style="log")
e.setExposureContrastPivot(0.0, 2.0, 0.004)
p = 0.6/2.046*math.log10(0.004/0.9) + 685.0/1023.0
v = plist(e).process([p, p, p]); expect(near(v, [p, p, p]), list(v), p)
'''),
dict(id="b17-memo", prop="C17",
 edits=[("clf/Common.py", "    return struct.pack(\">f\", float32Value).encode(\"hex\")\n", """    # The same few values turn up again and again
    if not float32Value in hexOfFloats:
        hexOfFloats[float32Value] = struct.pack(">f", float32Value).encode("hex")
    return hexOfFloats[float32Value]

hexOfFloats = {}
""")],
 needs="both zero and minus zero in arrays written as hex32bit",
 breaks="the second of the two gets the code of the first",
 demo='''
import aces.clf.Common as c
expect(c.float32ToHex(0.0) == "00000000")
expect(c.float32ToHex(-0.0) == "80000000", c.float32ToHex(-0.0))
'''),
dict(id="b30-same", prop="C30",
 edits=[("clf/LUT1D.py", "        # Find the index map used for each channel\n", "        # Find the index map used for each channel\n")],
 skip=True, needs="", breaks="", demo=""),
dict(id="b19-comment", prop="C19",
 edits=[("clf/ProcessList.py", "            elementType = self.getElementType(child.tag)\n", "            elementType = self.getElementType(child.tag).rstrip('0123456789.')\n")],
 needs="an unknown element whose name is that of a node with a number at its end",
 breaks="it is read as the node it resembles",
 demo='''
with open("x.clf", "w") as f:
    f.write('<ProcessList id="x" compCLFversion="2.0"><Range2 inBitDepth="16f" outBitDepth="16f"><minInValue>0</minInValue></Range2></ProcessList>')
try:
    clf.ProcessList("x.clf", True)
    expect(False, "read")
except Exception as e:
    expect(type(e).__name__ == "UnknownProcessNodeError", repr(e))
'''),
dict(id="b24-prefix", prop="C24",
 edits=[("lutFormats/Registry.py", "            if extension in cls.extensions() and cls.canRead(extension):\n", "            if extension in \" \".join(cls.extensions()) and cls.canRead(extension):\n")],
 skip=True, needs="", breaks="", demo=""),
dict(id="b10-unit", prop="C10",
 edits=[("clf/ASCCDL.py", "                    tmp = outValue[i] * slope[i] + offset[i]\n                    if tmp < 0:\n", "                    tmp = outValue[i] * slope[i] + offset[i]\n                    if tmp < 0 or tmp > 65504:\n")],
 needs="style FwdNoClamp and a value beyond the half floats after slope and offset",
 breaks="the power is left out",
 demo='''
c = clf.ASCCDL(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "c", "c", style="FwdNoClamp")
c.setSlope(20.0, 20.0, 20.0); c.setPower(0.5, 0.5, 0.5)
v = plist(c).process([5000.0]*3); expect(near(v, [316.227766]*3, 1e-4), list(v))
'''),
dict(id="b06-neg", prop="C06",
 edits=[("clf/Matrix.py", "                    outValue[i] += matrix[j + offset]*value[j]\n", """                    if i == j or not diagonal:
                        outValue[i] += matrix[j + offset]*value[j]
"""), ("clf/Matrix.py", "        # For each pixel\n", """        # A matrix without entries off its diagonal is a scale
        diagonal = (len(values) > 192 and dimensions[0] == dimensions[1] and
            sum(matrix[i*dimensions[1] + j] for i in range(dimensions[0]) for j in range(dimensions[0]) if i != j) == 0.0)

        # For each pixel
""")],
 needs="a buffer of more than 64 pixels and a matrix whose entries off the diagonal cancel",
 breaks="these entries are ignored",
 demo='''
m = clf.Matrix(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "m", "m")
m.setMatrix([3, 3, 3], [1, 0.5, -0.5, 0, 1, 0, 0, 0, 1])
v = plist(m).process([1.0, 2.0, 4.0]*100, stride=3); expect(near(v[:3], [0.0, 2.0, 4.0]), list(v[:3]))
'''),
dict(id="b09-top2", prop="C09",
 edits=[("clf/Array.py", "        if (fx > fy):\n            if (fy > fz):\n", "        if (fx > fy):\n            if (fy > fz and fx < 0.999):\n")],
 needs="tetrahedral interpolation just below a lattice plane of red, with red above green above blue",
 breaks="another tetrahedron is used there",
 demo='''
l = clf.LUT3D(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "l", "l", interpolation="tetrahedral")
t = [float(r*g*(1-b)) for r in (0, 1) for g in (0, 1) for b in (0, 1) for c in (0, 1, 2)]
l.setArray([2, 2, 2], t)
v = plist(l).process([0.9995, 0.5, 0.25]); expect(near(v, [0.25]*3, 1e-5), list(v))
'''),
dict(id="b28-alias", prop="C28",
 edits=[("clf/ProcessList.py", "        self._processes.append(process)\n", """        # Keep a node only once
        if len(self._processes) > 1 and process in self._processes[:-1] and process.getAttribute('name') == self._processes[0].getAttribute('name'):
            process = self._processes[0]
        self._processes += [process]
""")],
 needs="a list to which a node is added for the second time, and whose first node has the same name",
 breaks="the first node is added in its place",
 demo='''
a = clf.Range(name="x"); b = clf.Matrix(name="x"); c = clf.Range(name="y")
l = plist(a, b, c, b)
expect([type(p).__name__ for p in l.getProcesses()] == ["Range", "Matrix", "Range", "Matrix"], [type(p).__name__ for p in l.getProcesses()])
'''),
dict(id="b29-int", prop="C29",
 edits=[("clf/LUT1D.py", "        sample = float(i)/(resolution-1)\n", "        sample = float(i)/(resolution-1) if resolution < 4096 else float(i)/resolution\n")],
 needs="a sampled LUT of 4096 entries or more", breaks="it is sampled a step short", demo='''
l = clf.simpleSampledLUT("l", "l", 1, 4096, lambda x: x)
expect(near(l.getLUTValues()[-1:], [1.0], 1e-7), l.getLUTValues()[-1:])
'''),
dict(id="b12-clip", prop="C12",
 edits=[("clf/ExtensionLog.py", "                    outValue[i] = pow(10.0, outValue[i])\n", "                    outValue[i] = pow(10.0, min(4.8165, outValue[i]))\n")],
 needs="style antiLog10 and a value beyond 4.8165", breaks="the result stops at the largest half float", demo='''
l = clf.Log(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "l", "l", style="antiLog10")
v = plist(l).process([5.0, 1.0, 6.0]); expect(near(v, [1e5, 10.0, 1e6], 1e-4), list(v))
'''),
dict(id="b11-one", prop="C11",
 edits=[("clf/ExtensionGamma.py", "                    outValue[i] = pow(max(0.0, outValue[i]), gamma[i])\n", "                    outValue[i] = pow(max(0.0, outValue[i]), gamma[i]) if gamma[i] != 1.0 else outValue[i]\n")],
 needs="style basicFwd, gamma 1 for a channel and a negative value", breaks="the negative value is kept", demo='''
g = clf.Gamma(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "g", "g", style="basicFwd")
g.setGamma(1.0, channel="R"); g.setGamma(2.0, channel="G"); g.setGamma(2.0, channel="B")
v = plist(g).process([-0.5, -0.5, 0.5]); expect(near(v, [0.0, 0.0, 0.25]), list(v))
'''),
]
BUGS = [b for b in BUGS if not b.get("skip")]
