BUGS = [
dict(id="b01-alias", prop="C01",
 edits=[("clf/ProcessList.py", "result = np.array(values, np.float32)", "result = np.asarray(values, dtype=np.float32)")],
 needs="a buffer that already is a float32 array, passed to a list whose first node works in place (a Range)",
 breaks="the buffer of the caller is overwritten, so that a second run on it gives another result",
 demo='''
r = clf.Range(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "r", "r")
r.setMinInValue(0.0); r.setMaxInValue(0.5); r.setMinOutValue(0.0); r.setMaxOutValue(1.0)
pl = plist(r)
buf = np.array([0.1, 0.2, 0.3], dtype=np.float32)
first = list(pl.process(buf))
expect(near(buf, [0.1, 0.2, 0.3]), "buffer", list(buf))
expect(near(pl.process(buf), first), "second run", first)
'''),
dict(id="b02-cellcache", prop="C02",
 edits=[("clf/Array.py", """        #print( "index : %d, %d, %d" % (indexR, indexG, indexB))

        # Sample the 8 points around the current sample position
        enclosingCubeColors[0] = self.lookup3D([indexR    , indexG    , indexB    ])
        enclosingCubeColors[1] = self.lookup3D([indexR    , indexG    , indexB + 1])
        enclosingCubeColors[2] = self.lookup3D([indexR    , indexG + 1, indexB    ])
        enclosingCubeColors[3] = self.lookup3D([indexR    , indexG + 1, indexB + 1])
        enclosingCubeColors[4] = self.lookup3D([indexR + 1, indexG    , indexB    ])
        enclosingCubeColors[5] = self.lookup3D([indexR + 1, indexG    , indexB + 1])
        enclosingCubeColors[6] = self.lookup3D([indexR + 1, indexG + 1, indexB    ])
        enclosingCubeColors[7] = self.lookup3D([indexR + 1, indexG + 1, indexB + 1])

        # Interpolate along the 4 lines in B
""", """        #print( "index : %d, %d, %d" % (indexR, indexG, indexB))

        # Sample the 8 points around the current sample position,
        # neighbouring pixels often fall in the same cell
        cell = (indexR, indexG, indexB)
        if getattr(self, '_cell', None) == cell:
            enclosingCubeColors = self._cellColors
        else:
            for corner in range(8):
                enclosingCubeColors[corner] = self.lookup3D([indexR + corner/4, indexG + (corner/2)%2, indexB + corner%2])
            self._cell = cell
            self._cellColors = enclosingCubeColors

        # Interpolate along the 4 lines in B
""")],
 needs="two pixels in a row that fall in the same cell of a trilinear LUT3D at different places",
 breaks="the corners of the cell are kept, but the interpolation writes its intermediate results over them",
 demo='''
l = clf.simple3DLUT("l", "l", [3, 3, 3], lambda x, y, z: [x*x, y*y, z*z])
pl = plist(l)
both = pl.process([0.1, 0.2, 0.3, 0.4, 0.05, 0.1], stride=3)
l2 = clf.simple3DLUT("l", "l", [3, 3, 3], lambda x, y, z: [x*x, y*y, z*z])
one = plist(l2).process([0.4, 0.05, 0.1], stride=3)
expect(near(list(both)[3:], one), list(both)[3:], list(one))
'''),
dict(id="b03-alpha1d", prop="C03",
 edits=[("clf/LUT1D.py", "            for i in range(min(3, stride)):\n", "            # A single table serves the channels alike\n            count = stride if dimensions[1] == 1 else min(3, stride)\n            for i in range(count):\n"),
        ("clf/LUT1D.py", "            for i in range(min(3, stride),stride):\n", "            for i in range(count,stride):\n")],
 needs="a LUT1D with a single component and pixels of four channels",
 breaks="the table is applied to the alpha channel as well",
 demo='''
l = clf.simpleSampledLUT("l", "l", 1, 5, lambda x: x*x)
r = plist(l).process([0.25, 0.5, 0.75, 0.5], stride=4)
expect(near([r[3]], [0.5]), list(r))
l = clf.simpleSampledLUT("l", "l", 3, 5, lambda x: x*x)
r = plist(l).process([0.25, 0.5, 0.75, 0.5], stride=4)
expect(near([r[3]], [0.5]), list(r))
'''),
dict(id="b04-style", prop="C04",
 edits=[("clf/Range.py", "clamp = (self._attributes['style'] == 'clamp')", "clamp = (self._attributes['style'].lower() != 'noclamp')")],
 needs="a Range whose style is neither clamp nor noClamp",
 breaks="values are limited although a style other than clamp is set",
 demo='''
for style, want in [("clamp", 1.0), ("noClamp", 2.0), ("none", 2.0), ("Clamped", 2.0)]:
    r = clf.Range(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "r", "r", style=style)
    r.setMinInValue(0.0); r.setMaxInValue(1.0); r.setMinOutValue(0.0); r.setMaxOutValue(1.0)
    v = plist(r).process([2.0, 2.0, 2.0])
    expect(near(v, [want]*3), style, list(v))
'''),
dict(id="b04-shift", prop="C04",
 edits=[("clf/Range.py", "                outValue[i] = outValue[i] + maxOutValue - maxInValue\n", "                outValue[i] = outValue[i] + (self._valueElements['maxOutValue'] - self._valueElements['maxInValue'])/bitDepthSize(inBitDepth)\n")],
 needs="a Range with only the maximum pair between different bit depths",
 breaks="the shift takes the out value as a code value of the in depth",
 demo='''
r = clf.Range(clf.bitDepths["UINT8"], clf.bitDepths["UINT10"], "r", "r", style="noClamp")
r.setMaxInValue(255.0); r.setMaxOutValue(1000.0)
v = plist(r).process([255.0, 0.0, 51.0])
expect(near(v, [1000.0, -23.0, 1000.0 - 1023.0*0.8], 1e-4), list(v))
'''),
dict(id="b05-12i", prop="C05",
 edits=[("clf/ProcessNode.py", "outValue = value/(pow(2, 12)-1.0)", "outValue = value/pow(2, 12)"),
        ("clf/ProcessNode.py", "outValue = value*(pow(2, 12)-1.0)", "outValue = value*pow(2, 12)")],
 needs="the 12 bit depth together with another depth or with a curve",
 breaks="12 bit code values are scaled by 4096: converting there and back still agrees",
 demo='''
g = clf.Gamma(clf.bitDepths["UINT12"], clf.bitDepths["FLOAT32"], "g", "g", style="basicFwd")
g.setGamma(1.0)
v = plist(g).process([4095.0, 0.0, 2047.5])
expect(near(v, [1.0, 0.0, 0.5]), list(v))
'''),
dict(id="b06-square4", prop="C06",
 edits=[("clf/Matrix.py", "                if dimensions[1] == dimensions[0]+1:\n", "                if dimensions[1] > 3:\n")],
 needs="a square matrix of four rows applied to RGBA pixels",
 breaks="the last column of a 4x4 matrix is added as an offset once more",
 demo='''
m = clf.Matrix(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "m", "m")
m.setMatrix([4, 4, 3], [1.0,0,0,0.5, 0,1.0,0,0.25, 0,0,1.0,0, 0,0,0,1.0])
v = plist(m).process([0.1, 0.2, 0.3, 0.4], stride=4)
expect(near(v, [0.3, 0.3, 0.3, 0.4]), list(v))
m = clf.Matrix(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "m", "m")
m.setMatrix([3, 4, 3], [1.0,0,0,0.5, 0,1.0,0,0.25, 0,0,1.0,0])
v = plist(m).process([0.1, 0.2, 0.3], stride=3)
expect(near(v, [0.6, 0.45, 0.3]), list(v))
'''),
dict(id="b07-nan", prop="C07",
 edits=[("clf/Array.py", "        if np.isnan(index) or np.isinf(index):\n            result = index\n", "        if np.isnan(index):\n            result = index\n        elif np.isinf(index):\n            result = self.lookup1D(-1 if index < 0 else dimensions[0], channel)\n")],
 needs="an infinite input value to a linear LUT1D",
 breaks="infinities become the end entries",
 demo='''
l = clf.simpleSampledLUT("l", "l", 3, 5, lambda x: x*0.5)
v = plist(l).process([float("inf"), float("-inf"), float("nan")])
expect(v[0] == float("inf") and v[1] == float("-inf") and math.isnan(v[2]), list(v))
'''),
dict(id="b07-ceil", prop="C07",
 edits=[("clf/Array.py", "            indexHigh = int(math.ceil(index))\n", "            indexHigh = min(indexLow + 1, dimensions[0]-1)\n            indexLow  = max(0, indexLow)\n"),
        ],
 needs="inputs well below zero",
 breaks="below the first entry the LUT extrapolates instead of holding its end",
 demo='''
l = clf.simpleSampledLUT("l", "l", 3, 5, lambda x: x*x + 0.5)
for x in (-3.0, -0.6, -0.3, -0.1):
    v = plist(l).process([x, x, x])
    expect(near(v, [0.5]*3), x, list(v))
'''),
dict(id="b08-negzero", prop="C08",
 edits=[("clf/Array.py", "            if floatValue < 0.0:\n", "            if halfValue1 < 0.0:\n")],
 needs="a negative value so small that it rounds to the half minus zero",
 breaks="tiny negative values are not interpolated towards the first negative subnormal",
 demo='''
l = clf.LUT1D(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "l", "l", halfDomain=True)
vals = [0.0]*65536
vals[32769] = 100.0
l.setArray(1, vals)
half = 2.0**-24
v = plist(l).process([-half, -half*0.25, -half*0.5])
expect(near(v, [100.0, 25.0, 50.0], 1e-3), list(v))
'''),
dict(id="b08-subnormal", prop="C08",
 edits=[("clf/Array.py", "            floatDifference = floatValue - halfValue1\n", "            floatDifference = floatValue - halfValue1 if abs(halfValue1) >= 6.1035e-05 else 0.0\n")],
 needs="an input between two subnormal halves",
 breaks="between subnormal halves the nearest entry is taken instead of an interpolation",
 demo='''
l = clf.LUT1D(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "l", "l", halfDomain=True)
vals = [0.0]*65536
for i in range(100): vals[i] = float(i*i)
l.setArray(1, vals)
h = 2.0**-24
v = plist(l).process([2.25*h, 10.5*h, 40.75*h])
expect(near(v, [4 + 0.25*5, 100 + 0.5*21, 1600 + 0.75*81], 1e-3), list(v))
'''),
dict(id="b09-tetra", prop="C09",
 edits=[("clf/Array.py", "                    (fz-fx) * startPos[n011][1] +\n                    (fx)    * startPos[n111][1] )\n", "                    (fz-fx) * startPos[n110][1] +\n                    (fx)    * startPos[n111][1] )\n")],
 needs="tetrahedral interpolation at a point with green fraction above blue above red",
 breaks="the green result of one of the six tetrahedra blends a corner that is not one of its own",
 demo='''
l = clf.simple3DLUT("l", "l", [2, 2, 2], lambda x, y, z: [2*x + y, x + 3*z, 0.5*y + z])
l.setAttribute("interpolation", "tetrahedral")
import itertools
for p in itertools.permutations([0.1, 0.5, 0.8]):
    x, y, z = p
    v = plist(l).process(list(p))
    expect(near(v, [2*x + y, x + 3*z, 0.5*y + z]), p, list(v))
'''),
dict(id="b10-revneg", prop="C10",
 edits=[("clf/ASCCDL.py", "                    if outSat < 0:\n", "                    if outValue[i] < 0:\n")],
 needs="style RevNoClamp, a saturation below one and a colour whose desaturated channel is negative only after the saturation is undone",
 breaks="a negative value goes into the power function",
 demo='''
c = clf.ASCCDL(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "c", "c", style="RevNoClamp")
c.setSlope(1.0, 1.0, 1.0); c.setOffset(0.0, 0.0, 0.0); c.setPower(2.0, 2.0, 2.0); c.setSaturation(0.5)
try:
    v = plist(c).process([0.5, 0.02, 0.1])
except Exception as e:
    expect(False, repr(e))
luma = 0.2126*0.5 + 0.7152*0.02 + 0.0722*0.1
def rev(x):
    s = luma + 2.0*(x - luma)
    return s if s < 0 else s**0.5
expect(near(v, [rev(0.5), rev(0.02), rev(0.1)]), list(v))
'''),
dict(id="b11-order", prop="C11",
 edits=[("clf/ExtensionGamma.py", """        for param in self._params:
            if param[2] == None:
                gamma = [param[0], param[0], param[0]]
                offset = [param[1], param[1], param[1]]
            else:
                channel = channels[param[2]]
                gamma[channel] = param[0]
                offset[channel] = param[1]

        '''""", """        # Parameters for all channels first, then those of single channels
        for param in [q for q in self._params if q[2] == None]:
            gamma = [param[0], param[0], param[0]]
            offset = [param[1], param[1], param[1]]
        for param in [q for q in self._params if q[2] != None]:
            channel = channels[param[2]]
            gamma[channel] = param[0]
            offset[channel] = param[1]

        '''""")],
 needs="parameters for a channel followed by parameters for all channels",
 breaks="the parameters given last do not win",
 demo='''
g = clf.Gamma(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "g", "g", style="basicFwd")
g.setGamma(3.0, channel="G"); g.setGamma(2.0)
v = plist(g).process([0.5, 0.5, 0.5])
expect(near(v, [0.25]*3), list(v))
g.setGamma(3.0, channel="B")
v = plist(g).process([0.5, 0.5, 0.5])
expect(near(v, [0.25, 0.25, 0.125]), list(v))
'''),
dict(id="b12-shared", prop="C12",
 edits=[("clf/ExtensionLog.py", "            param = [0.6, 685.0, 95.0, 1.0, 0.0, None]\n", "            if not self._params:\n                param = [0.6, 685.0, 95.0, 1.0, 0.0, None]\n            else:\n                param = list(self._params[-1])\n")],
 needs="a file with two LogParams elements the second of which leaves values out",
 breaks="missing values take those of the element before instead of the defaults",
 demo='''
open("t.clf", "w").write("""<?xml version="1.0" encoding="UTF-8"?>
<ProcessList id="x" compCLFversion="1.0"><Log inBitDepth="32f" outBitDepth="32f" style="logToLin">
<LogParams gamma="0.5" refWhite="700" refBlack="90" channel="R"/><LogParams gamma="0.6" channel="G"/></Log></ProcessList>""")
v = clf.ProcessList("t.clf").process([700/1023.0, 685/1023.0, 685/1023.0])
expect(near(v, [1.0, 1.0, 1.0], 1e-4), list(v))
'''),
dict(id="b13-log", prop="C13",
 edits=[("clf/ExtensionExposureContrast.py", "                    outValue[i] = (outValue[i] + exposure*0.6/2.046*math.log10(2.0) - logPivot)*contrast + logPivot\n", "                    outValue[i] = (outValue[i] - logPivot)*contrast + exposure*0.6/2.046*math.log10(2.0) + logPivot\n")],
 needs="the log style with an exposure and a contrast at once",
 breaks="the exposure is added after the contrast",
 demo='''
e = clf.ExposureContrast(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "e", "e", style="log")
e.setExposureContrastPivot(1.0, 2.0, 0.18)
p = 0.6/2.046*math.log10(0.18/0.9) + 685.0/1023.0
v = plist(e).process([0.4, 0.5, 0.6])
expect(near(v, [(x + 0.6/2.046*math.log10(2.0) - p)*2.0 + p for x in (0.4, 0.5, 0.6)]), list(v))
'''),
dict(id="b14-float", prop="C14",
 edits=[("clf/ProcessList.py", "                if inBitDepth != outBitDepth:\n", "                if bitDepthSize(inBitDepth) != bitDepthSize(outBitDepth) and not outBitDepth.endswith('f'):\n"),
        ("clf/ProcessList.py", "from Common import getFeatureCompatibility, featureSets\n", "from Common import getFeatureCompatibility, featureSets\n\ndef bitDepthSize(bitDepth):\n    return pow(2, int(bitDepth[:-1]))-1.0 if bitDepth.endswith('i') else 1.0\n")],
 needs="a bypassed node between an integer depth and a float depth",
 breaks="code values are not scaled down to plain values",
 demo='''
g = clf.Gamma(clf.bitDepths["UINT10"], clf.bitDepths["FLOAT32"], "g", "g", style="basicFwd")
g.setGamma(2.0); g.setAttribute("bypass", True)
v = plist(g).process([1023.0, 511.5, 2046.0])
expect(near(v, [1.0, 0.5, 2.0]), list(v))
'''),
dict(id="b14-groupclamp", prop="C14",
 edits=[("clf/ExtensionGroup.py", "                inBitDepth = processNode.getInBitDepth()\n                outBitDepth = processNode.getOutBitDepth()\n", "                inBitDepth = self.getInBitDepth()\n                outBitDepth = self.getOutBitDepth()\n")],
 needs="a bypassed node in a group whose own depths are not those of the node", breaks="wrong depths adapted",
 demo='''
g = clf.Gamma(clf.bitDepths["UINT10"], clf.bitDepths["FLOAT32"], "g", "g", style="basicFwd")
g.setGamma(2.0); g.setAttribute("bypass", True)
gr = clf.Group(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "gr", "gr")
gr.addProcess(g)
v = plist(gr).process([1023.0, 511.5, 2046.0])
expect(near(v, [1.0, 0.5, 2.0]), list(v))
'''),
dict(id="b15-stride", prop="C15",
 edits=[("clf/ExtensionReference.py", "            outValues = self._processList.process(values, stride, verbose=verbose)\n", "            outValues = self._processList.process(values, verbose=verbose)\n")],
 needs="a Reference processing more than one pixel, or four channels",
 breaks="the stride is not passed on, so that only the first pixel is transformed",
 demo='''
m = clf.Matrix(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "m", "m")
m.setMatrix([3, 3, 3], [0,1.0,0, 0,0,1.0, 1.0,0,0])
plist(m).writeFile("ref.clf")
r = clf.Reference(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "r", "r", path="ref.clf", basePath=os.getcwd())
v = plist(r).process([0.1, 0.2, 0.3, 0.4, 0.5, 0.6], stride=3)
expect(near(v, [0.2, 0.3, 0.1, 0.5, 0.6, 0.4]), list(v))
'''),
dict(id="b16-cdlprec", prop="C16",
 edits=[("clf/ASCCDL.py", "            Offset.text = \" \".join(map(str, self._values['offset']))\n", "            Offset.text = \" \".join(map(lambda x: \"%.4f\" % x, self._values['offset']))\n")],
 needs="a CDL offset that needs more than four decimals",
 breaks="the offset is rounded when written",
 demo='''
c = clf.ASCCDL(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "c", "c", style="FwdNoClamp")
c.setOffset(0.123456, -0.00003, 0.0)
pl = plist(c); pl.writeFile("t.clf")
a, b = pl.process([0.0, 0.0, 0.0]), clf.ProcessList("t.clf").process([0.0, 0.0, 0.0])
expect(near(a, b, 1e-7), list(a), list(b))
'''),
dict(id="b16-twomaps", prop="C16",
 edits=[("clf/IndexMap.py", """        element.text = " ".join(map(lambda a, b: "%s@%s" % (float(a),int(b)), self._values[0], self._values[1]))\n""",
         """        pairs = []
        for a, b in zip(self._values[0], self._values[1]):
            pair = "%s@%s" % (float(a),int(b))
            # The same pair twice says nothing new
            if [p for p in pairs if p.split('@')[1] == pair.split('@')[1]] == []:
                pairs.append(pair)
        element.text = " ".join(pairs)\n""")],
 needs="an index map that holds the same index over an interval of inputs",
 breaks="the map loses its flat stretch when written",
 demo='''
l = clf.simpleSampledLUT("l", "l", 1, 5, lambda x: x)
l.setIndexMaps([[0.0, 0.2, 0.6, 1.0], [0, 1, 1, 4]])
pl = plist(l); pl.writeFile("t.clf")
a, b = pl.process([0.4, 0.7, 0.1]), clf.ProcessList("t.clf").process([0.4, 0.7, 0.1])
expect(near(a, b), list(a), list(b))
'''),
dict(id="b17-double", prop="C17",
 edits=[("clf/Array.py", "            cast = hexToDouble\n            dtype = np.float64\n", "            cast = hexToDouble\n            dtype = np.float32\n")],
 needs="an array written with hex64bit whose values are not 32 bit floats",
 breaks="values read are rounded to 32 bits",
 demo='''
m = clf.Matrix(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "m", "m")
vals = [0.1, 1.0/3, 1e-20, 0, 1, 0, 0, 0, 1e300]
m.setMatrix([3, 3, 3], vals, floatEncoding="hex64bit")
plist(m).writeFile("t.clf")
got = list(clf.ProcessList("t.clf")[0]._array.getValues())
expect([float(x) for x in got] == [float(x) for x in vals], got)
'''),
dict(id="b18-gzip", prop="C18",
 edits=[("clf/ProcessList.py", """                msg = "Unsupported feature : write gzipped file"\n""", """                document = self.write(writeSelfContained=writeSelfContained)
                msg = "Unsupported feature : write gzipped file"
                if clfPath.endswith('.clf'):
                    return self.writeFile(clfPath, writeSelfContained)\n""")],
 needs="a gzipped write to a path that ends in .clf while the Duiker Research set is off", count=1, breaks="written plainly instead of refused",
 demo='''
from aces.clf import Errors
pl = plist(clf.Range())
clf.setFeatureCompatibility(clf.featureSets["CLF"])
for name in ("t.clfz", "t.clf"):
    try:
        pl.writeFile(name, writeGzip=True)
        ok = False
    except Errors.UnsupportedExtensionError:
        ok = True
    expect(ok and not os.path.exists(name), name)
'''),
dict(id="b19-group", prop="C19",
 edits=[("clf/ProcessNode.py", "        elementType = elementType.replace('_', '')\n", "")],
 needs="an ASC_CDL inside of a Group read from a file",
 breaks="names with an underscore are not recognised inside of groups, so that the node is skipped",
 demo='''
c = clf.ASCCDL(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "c", "c", style="FwdNoClamp")
c.setOffset(0.5, 0.5, 0.5)
g = clf.Group(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "g", "g"); g.addProcess(c)
plist(g).writeFile("t.clf")
v = clf.ProcessList("t.clf").process([0.0, 0.1, 0.2])
expect(near(v, [0.5, 0.6, 0.7]), list(v))
'''),
dict(id="b20-truncate", prop="C20",
 edits=[("clf/ProcessList.py", "            fp = open(clfPath, 'wb')\n            fp.write(prettyString)\n", "            fp.write(prettyString)\n"),
        ("clf/ProcessList.py", "        document = self.write(writeSelfContained=writeSelfContained)\n", "        if not writeGzip:\n            fp = open(clfPath, 'wb')\n        document = self.write(writeSelfContained=writeSelfContained)\n")],
 needs="a plain write that is refused because an array has a float encoding while the Duiker Research set is off",
 breaks="the file is opened, and so emptied, before the write is refused",
 demo='''
from aces.clf import Errors
l = clf.LUT1D(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "l", "l")
l.setArray(1, [0.0, 0.5, 1.0], floatEncoding="hex32bit")
pl = plist(l); pl.writeFile("t.clf")
before = open("t.clf", "rb").read()
clf.setFeatureCompatibility(clf.featureSets["Autodesk"])
try:
    pl.writeFile("t.clf")
    expect(False, "not refused")
except Errors.UnsupportedExtensionError:
    pass
expect(open("t.clf", "rb").read() == before, "file changed")
'''),
dict(id="b21-csp", prop="C21",
 edits=[("lutFormats/LutCSP.py", "                        indexB = cspIndex/(resolution[0]*resolution[1])\n", "                        indexB = cspIndex/(resolution[0]*resolution[0])\n")],
 needs="a 3D .csp file with a different number of red and green points",
 breaks="entries are stored in the wrong place of the lattice",
 demo='''
sys.path.insert(0, os.path.join(REPO, "python", "aces"))
import lutFormats
f = lambda r, g, b: (r*0.5, g*0.25, b*0.75)
res = (2, 3, 4)
with open("t.csp", "w") as fp:
    fp.write("CSPLUTV100\\n3D\\n\\nBEGIN METADATA\\nEND METADATA\\n\\n" + "2\\n0 1\\n0 1\\n"*3 + "\\n2 3 4\\n")
    for b in range(4):
        for g in range(3):
            for r in range(2):
                fp.write("%f %f %f\\n" % f(r/1.0, g/2.0, b/3.0))
pl = lutFormats.Registry.read("t.csp")
for p in ([0.2, 0.4, 0.6], [1.0, 1.0, 1.0], [0.0, 0.5, 1.0]):
    v = pl.process(p)
    expect(near(v, f(*p), 1e-4), p, list(v))
'''),
dict(id="b22-shaper", prop="C22",
 edits=[("lutFormats/LutCSP.py", "                    value = (float(s)/(lutResolution1dIn-1))*(\n                        inputMax - inputMin) + inputMin\n", "                    value = (float(s)/(lutResolution1dIn-1))*inputMax + inputMin\n")],
 needs="a .csp written as 1D/3D/1D with an input shaper that does not start at zero",
 breaks="the positions of the prelut are beyond the range that was sampled",
 demo='''
sys.path.insert(0, os.path.join(REPO, "python", "aces"))
import lutFormats
pl = plist(clf.Range(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"]))
lutFormats.Registry.write(pl, "t.csp", lutDataFormat=lutFormats.LUTDATAFORMAT_1D_3D_1D,
    lutResolution1d3d1d=[5, 3, 2], shaperIn=["linear", 0.5, 1.5], shaperOut=[None, 0.0, 1.0])
got = lutFormats.Registry.read("t.csp")
for x in (0.5, 1.0, 1.5):
    v = got.process([x, x, x])
    expect(near(v, [x]*3, 1e-4), x, list(v))
'''),
dict(id="b23-max", prop="C23",
 edits=[("lutFormats/Sampling.py", "        maxOutputValue = max(maxOutputValue, samples[-channels+c])\n", "        maxOutputValue = max(maxOutputValue, samples[-1])\n")],
 needs="the resampled inverse of a table of three components whose middle component ends highest",
 breaks="outputs of green above the ends of red and blue are held too early",
 demo='''
sys.path.insert(0, os.path.join(REPO, "python", "aces"))
import lutFormats
with open("t.spi1d", "w") as fp:
    fp.write("Version 1\\nFrom 0.0 1.0\\nLength 5\\nComponents 3\\n{\\n")
    for i in range(5):
        fp.write("%f %f %f\\n" % (i/4.0, i/2.0, i/4.0))
    fp.write("}\\n")
pl = lutFormats.Registry.read("t.spi1d", inverse=True, inversesUseIndexMaps=False, inversesUseHalfDomain=False)
v = pl.process([0.5, 1.5, 0.25])
expect(near(v, [0.5, 0.75, 0.25], 1e-2), list(v))
'''),
dict(id="b27-tail", prop="C27",
 edits=[("clf/Array.py", "            for n in (range(rows-3,rows)):\n", "            for n in (range(rows-4,rows-1)):\n")],
 needs="printing an array of more than ten rows",
 breaks="the last row is not shown",
 demo='''
import io
l = clf.LUT1D(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "l", "l")
l.setArray(1, [float(i) for i in range(20)])
out, sys.stdout = sys.stdout, io.StringIO()
plist(l).printInfo()
text, sys.stdout = sys.stdout.getvalue(), out
for i in (0, 1, 2, 17, 18, 19):
    expect("%6.9f" % i in text.split(), i)
'''),
dict(id="b28-first", prop="C28",
 edits=[("clf/ProcessList.py", """    def getProcess(self, name):
        for processNode in self._processes:
            if processNode.getAttribute('name') == name:
                return processNode
        return None
""", """    def getProcess(self, name):
        return dict([(p.getAttribute('name'), p) for p in self._processes]).get(name)
""")],
 needs="two nodes of the same name", breaks="the last of them is found instead of the first",
 demo='''
a, b = clf.Range(name="x"), clf.Gamma(name="x")
pl = plist(clf.Range(name="y"), a, b)
expect(pl.getProcess("x") is a, pl.getProcess("x"))
expect(pl.getProcess("z") is None)
'''),
dict(id="b29-step", prop="C29",
 edits=[("clf/LUT1D.py", "        fvalue = f(sample)\n\n        # Store the values\n", "        # The halves are symmetric about zero\n        fvalue = f(sample) if i < 32769 else 2.0*lutValues[0] - lutValues[(i-32768)*channels]\n\n        # Store the values\n")],
 needs="a half-domain LUT sampled from a function that is not odd about its value at zero",
 breaks="the entries of negative halves mirror those of the positive ones",
 demo='''
l = clf.simpleSampledLUTHalfDomain("l", "l", 1, lambda x: float(x)*float(x) if abs(x) < 100 else 1.0)
v = plist(l).process([-0.5, 0.5, -2.0])
expect(near(v, [0.25, 0.25, 4.0]), list(v))
'''),
dict(id="b30-cache", prop="C30",
 edits=[("clf/IndexMap.py", "elementType='IndexMap', useCachedProcess=False):", "elementType='IndexMap', useCachedProcess=True):")],
 needs="an index map with positions that are not half floats",
 breaks="the map is sampled at the halves, so that its corners are cut off",
 demo='''
l = clf.simpleSampledLUT("l", "l", 1, 1001, lambda x: x)
l.setIndexMaps([[1000.0, 1000.2, 1000.4], [0, 0, 1000]])
v = plist(l).process([1000.2, 1000.3, 1000.1])
expect(near(v, [0.0, 0.5, 0.0], 1e-2), list(v))
'''),
]
