FORMATS = '''
sys.path.insert(0, os.path.join(REPO, "python", "aces"))
import lutFormats
'''
IMAGES = '''
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(REPO, "python", "aces"))
import binascii
import OpenImageIO as oiio
import aces.filterImageWithCLF as fi
TYPES = {"UINT8": np.uint8, "UINT16": np.uint16, "HALF": np.float16, "FLOAT": np.float32}
def save(path, t, w, h, ch, vals, meta=[]):
    oiio.save(path, {"image": 1, "type": t, "w": w, "h": h, "ch": ch, "names": ["R", "G", "B", "A"][:ch], "meta": meta,
                     "hex": binascii.hexlify(np.array(vals, dtype=TYPES[t]).tobytes()).decode("ascii")})
def load(path):
    if not os.path.exists(path):
        return None
    d = oiio.load(path)
    return [float(x) for x in np.frombuffer(binascii.unhexlify(d["hex"]), dtype=TYPES[d["type"]])]
def run(*args, **kw):
    out, sys.stdout = sys.stdout, open(os.devnull, "w")
    try:
        fi.filterImageWithCLF(*args, **kw)
    finally:
        sys.stdout = out
B = clf.bitDepths
'''
SPACES = '''
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(REPO, "python", "aces"))
import json
import aces.convertOCIOtoCLF as toClf
def convert(to, path="out.clf"):
    with open("c.ocio", "w") as f:
        json.dump({"search": os.getcwd(), "spaces": [{"name": "a", "to": to, "from": None}]}, f)
    out, sys.stdout = sys.stdout, open(os.devnull, "w")
    try:
        toClf.convertOCIOtoCLF("c.ocio", ["a"], [], path, True, True)
    finally:
        sys.stdout = out
    return clf.ProcessList(path)
'''
BUGS = [
dict(id="b01-memo", prop="C01",
 edits=[("clf/IndexMap.py", "            result = self._processRaw(value, verbose)\n", """            # Images repeat their values, so remember the results
            key = "%.4f" % value
            if not hasattr(self, '_results'):
                self._results = {}
            if not key in self._results:
                self._results[key] = self._processRaw(value, verbose)
            result = self._results[key]
""")],
 needs="two inputs of a steep index map that agree in four decimals, processed one after the other",
 breaks="the second value takes the result of the first, so that the result depends on what was processed before",
 demo='''
def build():
    l = clf.simpleSampledLUT("l", "l", 1, 101, lambda x: x)
    l.setIndexMaps([[0.5, 0.5001], [0, 100]])
    return plist(l)
want = list(build().process([0.50004]))
pl = build(); pl.process([0.50001])
expect(near(pl.process([0.50004]), want, 1e-3), want)
'''),
dict(id="b02-single", prop="C02",
 edits=[("clf/ExtensionLog.py", "            stride = len(values)\n", "            stride = min(4, len(values))\n")],
 needs="a single pixel of more than four channels processed by a Log without a stride",
 breaks="the fifth and later values are taken for another pixel",
 demo='''
l = clf.Log(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "l", "l", style="antiLog2")
v = plist(l).process([1.0, 2.0, 3.0, 4.0, 5.0, 6.0])
expect(near(v, [2, 4, 8, 4, 5, 6]), list(v))
v = plist(l).process([1.0]*8)
expect(near(v, [2, 2, 2, 1, 1, 1, 1, 1]), list(v))
'''),
dict(id="b03-alpha3d", prop="C03",
 edits=[("clf/LUT3D.py", "                outValue[i] = value[i]\n", "                outValue[i] = bitDepthToNormalized(value[i], inBitDepth)\n")],
 needs="a LUT3D with an integer in depth and pixels of four channels",
 breaks="the alpha channel is scaled like the colour",
 demo='''
l = clf.simple3DLUT("l", "l", [2, 2, 2], inBitDepth=clf.bitDepths["UINT8"])
v = plist(l).process([255.0, 0.0, 51.0, 200.0], stride=4)
expect(near(v, [1.0, 0.0, 0.2, 200.0]), list(v))
'''),
dict(id="b04-default", prop="C04",
 edits=[("clf/Range.py", "                maxInValue = 1.0\n", "                maxInValue = bitDepthSize(inBitDepth)\n")],
 needs="a Range with defaultRange, an integer in depth and no maxInValue",
 breaks="the default maximum is a code value where a normalised value is meant",
 demo='''
r = clf.Range(clf.bitDepths["UINT10"], clf.bitDepths["FLOAT32"], "r", "r", defaultRange=True)
r.setMinInValue(102.3)
v = plist(r).process([1023.0, 102.3, 562.65])
expect(near(v, [1.0, 0.0, 0.5]), list(v))
'''),
dict(id="b05-ecvideo", prop="C05",
 edits=[("clf/ExtensionExposureContrast.py", """                    outValue[i] = pow(pivot,1.0/1.83)*pow(max(0.0,(outValue[i]*pow(pow(2.0,exposure)/pivot,1.0/1.83))), contrast)

                    outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
""", """                    outValue[i] = pow(pivot,1.0/1.83)*pow(max(0.0,(outValue[i]*pow(pow(2.0,exposure)/pivot,1.0/1.83))), contrast)

                    outValue[i] = normalizedToBitDepth(outValue[i], inBitDepth)
""")],
 needs="an ExposureContrast of style video between different bit depths",
 breaks="the result is scaled to the in depth",
 demo='''
for style in ("linear", "video", "log"):
    a = clf.ExposureContrast(clf.bitDepths["UINT8"], clf.bitDepths["UINT8"], "e", "e", style=style)
    b = clf.ExposureContrast(clf.bitDepths["UINT8"], clf.bitDepths["UINT10"], "e", "e", style=style)
    for e in (a, b): e.setExposureContrastPivot(0.5, 1.5, 0.25)
    x, y = plist(a).process([10.0, 100.0, 255.0]), plist(b).process([10.0, 100.0, 255.0])
    expect(near(y, [q*1023/255 for q in x]), style, list(x), list(y))
'''),
dict(id="b06-alpha", prop="C06",
 edits=[("clf/Matrix.py", "                if dimensions[1] == dimensions[0]+1:\n", "                if dimensions[0] == 3 and dimensions[1] == 4:\n")],
 needs="a matrix of four rows with an offset column",
 breaks="the offset is only added by matrices of three rows",
 demo='''
m = clf.Matrix(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "m", "m")
m.setMatrix([4, 5, 4], [1,0,0,0,0.5, 0,1,0,0,0.25, 0,0,1,0,0.125, 0,0,0,1,1])
v = plist(m).process([0.0, 0.0, 0.0, 0.0], stride=4)
expect(near(v, [0.5, 0.25, 0.125, 1.0]), list(v))
'''),
dict(id="b07-infentry", prop="C07",
 edits=[("clf/Array.py", "            indexHigh = int(math.ceil(index))\n", "            indexHigh = indexLow + 1\n")],
 needs="a table with an infinite entry, looked up at the position of the entry before it",
 breaks="zero times infinity turns the entry into NaN",
 demo='''
l = clf.LUT1D(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "l", "l")
l.setArray(1, [0.0, 0.25, 0.5, 1.0, float("inf")])
v = plist(l).process([0.75, 0.5, 0.625])
expect(near(v, [1.0, 0.5, 0.75]), list(v))
'''),
dict(id="b07-short", prop="C07",
 edits=[("clf/Array.py", """        if dimensions[0] < 4 or not useSciPy or not sciPyEnabled:
            return self.lookup1DLinear(position, channel)
""", """        if dimensions[0] < 4:
            return self.lookup1D(int(position*(dimensions[0]-1) + 0.5), channel)
        if not useSciPy or not sciPyEnabled:
            return self.lookup1DLinear(position, channel)
""")],
 needs="cubic interpolation of a table of two or three entries",
 breaks="the nearest entry is taken instead of the linear result",
 demo='''
l = clf.simpleSampledLUT("l", "l", 1, 3, lambda x: 2*x)
l.setAttribute("interpolation", "cubic")
v = plist(l).process([0.1, 0.5, 0.9])
expect(near(v, [0.2, 1.0, 1.8]), list(v))
'''),
dict(id="b08-payload", prop="C08",
 edits=[("clf/Array.py", "            index = 31745\n", "            index = halfToUInt16(halfValue1)\n")],
 needs="NaN and a half-domain table whose entries for the NaN codes differ",
 breaks="the entry of the NaN's own code is taken instead of the first NaN entry",
 demo='''
l = clf.LUT1D(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "l", "l", halfDomain=True)
l.setArray(1, [float(i) for i in range(65536)])
v = plist(l).process([float("nan")]*3)
expect(near(v, [31745.0]*3), list(v))
'''),
dict(id="b09-top", prop="C09",
 edits=[("clf/Array.py", """        interpB, indexB = math.modf(indexBf)
        indexB = int(indexB)

        #print( "index : %d, %d, %d" % (indexR, indexG, indexB))

        # Sample the 8 points around the current sample position
        enclosingCubeColors[0] = self.lookup3D([indexR    , indexG    , indexB    ])
        enclosingCubeColors[1] = self.lookup3D([indexR    , indexG    , indexB + 1])
        enclosingCubeColors[2] = self.lookup3D([indexR    , indexG + 1, indexB    ])
        enclosingCubeColors[3] = self.lookup3D([indexR    , indexG + 1, indexB + 1])
        enclosingCubeColors[4] = self.lookup3D([indexR + 1, indexG    , indexB    ])
        enclosingCubeColors[5] = self.lookup3D([indexR + 1, indexG    , indexB + 1])
        enclosingCubeColors[6] = self.lookup3D([indexR + 1, indexG + 1, indexB    ])
        enclosingCubeColors[7] = self.lookup3D([indexR + 1, indexG + 1, indexB + 1])

        rgbaBuffer""", """        interpB, indexB = math.modf(indexBf)
        indexB = min(int(indexB), dimensions[1]-1)

        #print( "index : %d, %d, %d" % (indexR, indexG, indexB))

        # Sample the 8 points around the current sample position
        enclosingCubeColors[0] = self.lookup3D([indexR    , indexG    , indexB    ])
        enclosingCubeColors[1] = self.lookup3D([indexR    , indexG    , indexB + 1])
        enclosingCubeColors[2] = self.lookup3D([indexR    , indexG + 1, indexB    ])
        enclosingCubeColors[3] = self.lookup3D([indexR    , indexG + 1, indexB + 1])
        enclosingCubeColors[4] = self.lookup3D([indexR + 1, indexG    , indexB    ])
        enclosingCubeColors[5] = self.lookup3D([indexR + 1, indexG    , indexB + 1])
        enclosingCubeColors[6] = self.lookup3D([indexR + 1, indexG + 1, indexB    ])
        enclosingCubeColors[7] = self.lookup3D([indexR + 1, indexG + 1, indexB + 1])

        rgbaBuffer""")],
 needs="tetrahedral interpolation in a lattice with more blue than green points, at high blue values",
 breaks="the cell is looked for along the wrong axis",
 demo='''
l = clf.simple3DLUT("l", "l", [3, 2, 5], lambda x, y, z: [x, y, z*z])
l.setAttribute("interpolation", "tetrahedral")
v = plist(l).process([0.2, 0.3, 1.0, 0.5, 0.5, 0.75], stride=3)
expect(near(v, [0.2, 0.3, 1.0, 0.5, 0.5, 0.5625]), list(v))
'''),
dict(id="b10-fwdneg", prop="C10",
 edits=[("clf/ASCCDL.py", "                    if tmp < 0:\n", "                    if outValue[i] < 0:\n")],
 needs="FwdNoClamp with an offset that changes the sign of a value",
 breaks="the power is left out, or applied, by the sign of the input instead of that of the shifted value",
 demo='''
c = clf.ASCCDL(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "c", "c", style="FwdNoClamp")
c.setOffset(0.5, 0.5, 0.5); c.setPower(2.0, 2.0, 2.0)
v = plist(c).process([-0.25, 0.0, 0.5])
expect(near(v, [0.0625, 0.25, 1.0]), list(v))
'''),
dict(id="b10-revluma", prop="C10",
 edits=[("clf/ASCCDL.py", """                    outValue[i] = bitDepthToNormalized(value[i], inBitDepth)
                    outValue[i] = clamp( outValue[i] )

                luma = 0.2126 * outValue[0] + 0.7152 * outValue[1] + 0.0722 * outValue[2] 

                for i in range(3):
                    outSat = luma + (1.0/saturation) * (outValue[i] - luma)
                    outValue[i] = ( pow( clamp""", """                    outValue[i] = bitDepthToNormalized(value[i], inBitDepth)

                luma = 0.2126 * outValue[0] + 0.7152 * outValue[1] + 0.0722 * outValue[2] 

                for i in range(3):
                    outSat = luma + (1.0/saturation) * (clamp( outValue[i] ) - luma)
                    outValue[i] = ( pow( clamp""")],
 needs="style Rev with a saturation other than one and a colour beyond [0,1]",
 breaks="the luma is that of the colour before it is limited",
 demo='''
c = clf.ASCCDL(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "c", "c", style="Rev")
c.setSaturation(2.0)
v = plist(c).process([3.0, 0.2, 0.4])
luma = 0.2126 + 0.7152*0.2 + 0.0722*0.4
expect(near(v, [luma + 0.5*(x - luma) for x in (1.0, 0.2, 0.4)]), list(v))
'''),
dict(id="b11-negative", prop="C11",
 edits=[("clf/ExtensionGamma.py", """                    pivot = (offset[i]/(gamma[i]-1.0))
                    if( outValue[i] <= pivot ):
""", """                    pivot = (offset[i]/(gamma[i]-1.0))
                    if( 0.0 <= outValue[i] <= pivot ):
""")],
 needs="a negative value in style moncurveFwd",
 breaks="the linear segment ends at zero, so that moncurveRev does not undo it",
 demo='''
f = clf.Gamma(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "g", "g", style="moncurveFwd")
r = clf.Gamma(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "g", "g", style="moncurveRev")
for g in (f, r): g.setGamma(2.4, 0.055)
v = plist(f, r).process([-0.5, -0.01, 0.02])
expect(near(v, [-0.5, -0.01, 0.02], 1e-4), list(v))
'''),
dict(id="b11-pivot", prop="C11",
 edits=[("clf/ExtensionGamma.py", "                    pivot = pow( gamma[i]*offset[i]/((gamma[i]-1.0)*(offset[i]+1.0)) , gamma[i])\n", "                    pivot = pow( gamma[0]*offset[0]/((gamma[0]-1.0)*(offset[0]+1.0)) , gamma[0])\n")],
 needs="style moncurveRev with different curves for the channels, and a value between their break points",
 breaks="green and blue break where red does",
 demo='''
f = clf.Gamma(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "g", "g", style="moncurveFwd")
r = clf.Gamma(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "g", "g", style="moncurveRev")
for g in (f, r):
    g.setGamma(2.4, 0.055); g.setGamma(3.0, 0.16, "G"); g.setGamma(2.0, 0.01, "B")
x = [0.02, 0.07, 0.02]
v = plist(f, r).process(x)
expect(near(v, x, 1e-4), list(v))
'''),
dict(id="b12-shadow", prop="C12",
 edits=[("clf/ExtensionLog.py", "                    relativeExposure = linearRefBlack + (outValue[i] - shadow[i])/gain\n", "                    relativeExposure = linearRefBlack + outValue[i]/gain - shadow[i]\n")],
 needs="linToLog with a shadow other than zero and a highlight other than shadow plus one",
 breaks="the shadow is subtracted unscaled",
 demo='''
l = clf.Log(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "l", "l", style="linToLog")
l.setLogParams(0.6, 685, 95, 1.5, 0.1)
v = plist(l).process([1.5, 0.1, 1.5])
expect(near(v, [685/1023.0, 95/1023.0, 685/1023.0], 1e-4), list(v))
'''),
dict(id="b12-depth", prop="C12",
 edits=[("clf/ExtensionLog.py", "gamma[i]/0.002)/1023.0\n", "gamma[i]/0.002)/max(1023.0, bitDepthSize(outBitDepth))\n")],
 needs="linToLog with an out depth of 12 or 16 bits",
 breaks="refWhite and refBlack are taken as code values of the out depth",
 demo='''
for d, n in (("UINT12", 4095.0), ("UINT8", 255.0), ("UINT10", 1023.0), ("FLOAT32", 1.0), ("UINT16", 65535.0)):
    l = clf.Log(clf.bitDepths["FLOAT32"], clf.bitDepths[d], "l", "l", style="linToLog")
    v = plist(l).process([1.0, 0.0, 1.0])
    expect(near(v, [n*685/1023.0, n*95/1023.0, n*685/1023.0], 1e-4), d, list(v))
'''),
dict(id="b13-pivot", prop="C13",
 edits=[("clf/ExtensionExposureContrast.py", "                    outValue[i] = pivot*pow(max(0.0,(pow(2.0,exposure)*outValue[i]/pivot)), contrast)\n", "                    outValue[i] = pow(2.0,exposure)*pivot*pow(max(0.0,outValue[i]/pivot), contrast)\n")],
 needs="exposure and contrast together, in the linear style",
 breaks="the exposure is applied after the contrast",
 demo='''
e = clf.ExposureContrast(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "e", "e", style="linear")
e.setExposureContrastPivot(1.0, 2.0, 0.5)
v = plist(e).process([0.25, 0.5, 1.0])
expect(near(v, [0.5, 2.0, 8.0]), list(v))
'''),
dict(id="b14-adapters", prop="C14",
 edits=[("clf/ProcessList.py", "                    inBitDepth = self._processes[i-1].getOutBitDepth()\n", "                    inBitDepth = self._processes[i-1].getInBitDepth()\n")],
 needs="a bypassed node after one whose depths differ",
 breaks="the values are taken for the depth that the node before read",
 demo='''
B = clf.bitDepths
g = clf.Gamma(B["UINT8"], B["UINT8"], "g", "g", style="basicFwd"); g.setAttribute("bypass", True)
v = plist(clf.Range(B["UINT10"], B["UINT8"]), g, clf.Range(B["UINT8"], B["UINT12"])).process([1023.0, 0.0, 0.0])
expect(near(v, [4095.0, 0.0, 0.0], 1e-3), list(v))
'''),
dict(id="b14-style", prop="C14",
 edits=[("clf/ProcessList.py", "                not(getFeatureCompatibility() & featureSets[\"Autodesk\"]) ):\n", "                getFeatureCompatibility() == featureSets[\"CLF\"] ):\n")],
 needs="the Duiker Research feature set on and the Autodesk one off",
 breaks="bypass is followed although the Autodesk features are off",
 demo='''
B = clf.bitDepths
g = clf.Gamma(B["FLOAT32"], B["FLOAT32"], "g", "g", style="basicFwd"); g.setGamma(2.0, 0.0); g.setAttribute("bypass", True)
clf.setFeatureCompatibility(clf.featureSets["Duiker Research"])
v = plist(g).process([0.5, 0.25, 0.0])
expect(near(v, [0.25, 0.0625, 0.0]), list(v))
'''),
dict(id="b15-cache", prop="C15",
 edits=[("clf/ExtensionReference.py", "            self._processList = ProcessList.ProcessList(self._resolvedPath)\n", """            # The same file is often referred to several times
            if not self._resolvedPath in Reference.processLists:
                Reference.processLists[self._resolvedPath] = ProcessList.ProcessList(self._resolvedPath)
            self._processList = Reference.processLists[self._resolvedPath]
"""), ("clf/ExtensionReference.py", "    \"A Common LUT Format Reference ProcessNode element\"\n", "    \"A Common LUT Format Reference ProcessNode element\"\n\n    processLists = {}\n")],
 needs="a file that is written anew between the creation of two References to it",
 breaks="the second Reference holds the earlier content of the file",
 demo='''
def write(k):
    m = clf.Matrix(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "m", "m")
    m.setMatrix([3, 3, 3], [k,0,0, 0,k,0, 0,0,k]); plist(m).writeFile("ref.clf")
def ref():
    return clf.Reference(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "r", "r", path="ref.clf", basePath=os.getcwd())
write(2.0); a = ref(); write(3.0); b = ref()
expect(near(plist(a).process([1.0, 1.0, 1.0]), [2.0]*3))
v = plist(b).process([1.0, 1.0, 1.0])
expect(near(v, [3.0]*3), list(v))
'''),
dict(id="b16-digits", prop="C16",
 edits=[("clf/ProcessNode.py", "            valueElement.text = str(value)\n", "            valueElement.text = \"%g\" % float(value)\n")],
 needs="a Range whose values need more than six digits",
 breaks="the values are rounded when written",
 demo='''
r = clf.Range(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "r", "r")
r.setMinInValue(0.0); r.setMaxInValue(1.0); r.setMinOutValue(1000.125); r.setMaxOutValue(1000.625)
pl = plist(r); pl.writeFile("t.clf")
a, b = pl.process([0.0, 0.5, 1.0]), clf.ProcessList("t.clf").process([0.0, 0.5, 1.0])
expect(near(a, b, 1e-8), list(a), list(b))
'''),
dict(id="b16-fraction", prop="C16",
 edits=[("clf/ExtensionLog.py", "            LogParamsNode.attrib['refBlack'] = str(param[2])\n", "            LogParamsNode.attrib['refBlack'] = str(int(param[2]))\n")],
 needs="a Log whose refBlack is not a whole number",
 breaks="the fraction is lost when written",
 demo='''
l = clf.Log(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "l", "l", style="linToLog")
l.setLogParams(0.6, 685.5, 95.75, 1.0, 0.0)
pl = plist(l); pl.writeFile("t.clf")
a, b = pl.process([0.0, 0.5, 1.0]), clf.ProcessList("t.clf").process([0.0, 0.5, 1.0])
expect(near(a, b, 1e-6), list(a), list(b))
'''),
dict(id="b16-strip", prop="C16",
 edits=[("clf/Comment.py", "        self._comment = element.text\n", "        self._comment = \" \".join(element.text.split()) if element.text else element.text\n")],
 needs="a description of several lines, or with two spaces in a row",
 breaks="the text that is read is not the text that was written",
 demo='''
pl = plist(clf.Range())
pl.addElement(clf.Description("first line\\n  second  line"))
pl.writeFile("t.clf"); clf.ProcessList("t.clf").writeFile("u.clf")
with open("t.clf") as f: a = f.read()
with open("u.clf") as f: b = f.read()
expect("first line\\n  second  line" in b, b)
'''),
dict(id="b17-endian", prop="C17",
 edits=[("clf/Common.py", "    return struct.pack(\">H\", uint16Value).encode(\"hex\")\n", "    return struct.pack(\"<H\", uint16Value).encode(\"hex\")\n"),
        ("clf/Common.py", "    uint16Value = struct.unpack(\">H\", hex16Value.decode(\"hex\"))[0]\n", "    uint16Value = struct.unpack(\"<H\", hex16Value.decode(\"hex\"))[0]\n")],
 needs="a file with hex16bit values from elsewhere, or a look at the codes: writing and reading agree with each other",
 breaks="the bytes of the codes are swapped in both directions",
 demo='''
l = clf.LUT1D(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "l", "l")
l.setArray(1, [0.0, 0.5, 1.0], floatEncoding="hex16bit")
plist(l).writeFile("t.clf")
with open("t.clf") as f: text = f.read()
expect("3c00" in text.lower() and "3800" in text.lower(), text)
'''),
dict(id="b17-int64", prop="C17",
 edits=[("clf/Array.py", "            cast = uint64ToDouble\n", "            cast = lambda x: uint64ToDouble(int(float(x)))\n")],
 needs="integer64bit values with more than a few bits in their mantissa",
 breaks="the codes are read as floats and lose their last bits",
 demo='''
m = clf.Matrix(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "m", "m")
vals = [0.1, 1.0/3, 1e-20, 0, 1, 0, 0, 0, 0.7]
m.setMatrix([3, 3, 3], vals, floatEncoding="integer64bit")
plist(m).writeFile("t.clf")
got = list(clf.ProcessList("t.clf")[0]._array.getValues())
expect([float(x) for x in got] == [float(x) for x in vals], got)
'''),
dict(id="b18-duiker", prop="C18",
 edits=[("clf/ProcessNode.py", "                if getFeatureCompatibility() & featureSets[\"Autodesk\"]:\n", "                if getFeatureCompatibility() != featureSets[\"CLF\"]:\n")],
 needs="a strict read of a DynamicParameter with only the Duiker Research set on",
 breaks="the element is accepted although its own set is off",
 demo='''
from aces.clf import Errors
r = clf.Range(); r.setDynamicParam("x"); plist(r).writeFile("t.clf")
for name in ("CLF", "Duiker Research"):
    clf.setFeatureCompatibility(clf.featureSets[name])
    try:
        clf.ProcessList("t.clf", strict=True)
        ok = False
    except Errors.UnsupportedExtensionError:
        ok = True
    expect(ok, name)
'''),
dict(id="b18-latch", prop="C18",
 edits=[("clf/Common.py", "    compatibility = featureSet\n", "    compatibility = compatibility & featureSet\n")],
 needs="a feature set that is switched off and on again",
 breaks="what was switched off once stays off",
 demo='''
from aces.clf import Errors
pl = plist(clf.Range())
clf.setFeatureCompatibility(clf.featureSets["CLF"])
clf.setFeatureCompatibility(clf.featureSets["All"])
try:
    pl.writeFile("t.clfz", writeGzip=True)
except Errors.UnsupportedExtensionError:
    expect(False, "still off")
'''),
dict(id="b19-namespace", prop="C19",
 edits=[("clf/ProcessNode.py", "            if childType == 'Description':\n", "            if child.tag == 'Description':\n")],
 needs="a document with a namespace and a description inside of a node",
 breaks="the descriptions of nodes are lost",
 demo='''
import io
r = clf.Range(); r.addElement(clf.Description("what it does"))
pl = plist(r); pl.setNamespace("urn:x"); pl.writeFile("t.clf")
out, sys.stdout = sys.stdout, io.StringIO()
clf.ProcessList("t.clf").printInfo()
text, sys.stdout = sys.stdout.getvalue(), out
expect("what it does" in text, text)
'''),
dict(id="b20-sticky", prop="C20",
 edits=[("clf/ProcessList.py", "                process.setWriteReferencedNodes(writeSelfContained)\n", "                if writeSelfContained:\n                    process.setWriteReferencedNodes(True)\n")],
 needs="a self-contained write followed by an ordinary one of the same list",
 breaks="the ordinary file holds the referenced nodes instead of the Reference",
 demo='''
plist(clf.Gamma(name="inner")).writeFile("ref.clf")
r = clf.Reference(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "r", "r", path="ref.clf", basePath=os.getcwd())
pl = plist(r)
pl.writeFile("a.clf"); pl.writeFile("b.clf", writeSelfContained=True); pl.writeFile("c.clf")
def read(p):
    with open(p) as f: return f.read()
expect("<Reference" in read("a.clf") and "<Gamma" in read("b.clf"))
expect(read("a.clf") == read("c.clf"), read("c.clf"))
'''),
dict(id="b21-from", prop="C21",
 edits=[("lutFormats/LutSPI.py", "            if minInputValue != 0.0 or maxInputValue != 1.0:\n", "            if minInputValue != 0.0 and maxInputValue != 1.0:\n")],
 needs="a .spi1d file whose range starts at zero and does not end at one",
 breaks="the range is ignored",
 demo=FORMATS + '''
for lo, hi in ((0.0, 1.0), (0.0, 4.0), (-1.0, 1.0), (0.5, 2.0)):
    with open("t.spi1d", "w") as fp:
        fp.write("Version 1\\nFrom %f %f\\nLength 3\\nComponents 1\\n{\\n0.0\\n0.25\\n1.0\\n}\\n" % (lo, hi))
    v = lutFormats.Registry.read("t.spi1d").process([lo, (lo + hi)/2, hi])
    expect(near(v, [0.0, 0.25, 1.0]), lo, hi, list(v))
'''),
dict(id="b21-preluts", prop="C21",
 edits=[("lutFormats/LutCSP.py", "        minInputValue = min(prelutR[0][0], prelutG[0][0], prelutB[0][0])\n", "        minInputValue = prelutR[0][0]\n")],
 needs="a .csp file whose green or blue prelut starts below the red one",
 breaks="green values below the start of the red prelut are cut off",
 demo=FORMATS + '''
with open("t.csp", "w") as fp:
    fp.write("CSPLUTV100\\n1D\\n\\nBEGIN METADATA\\nEND METADATA\\n\\n2\\n0 1\\n0 1\\n2\\n-1 1\\n0 1\\n2\\n0 1\\n0 1\\n\\n2\\n0 0 0\\n1 1 1\\n")
v = lutFormats.Registry.read("t.csp").process([1.0, -1.0, 1.0])
expect(near(v, [1.0, 0.0, 1.0], 1e-4), list(v))
'''),
dict(id="b22-stops", prop="C22",
 edits=[("lutFormats/Sampling.py", "        inputMin = pow(2, shaperMin)\n", "        inputMin = 1.0/pow(2, int(-shaperMin))\n")],
 needs="a log2 shaper that does not start at a whole stop",
 breaks="the shaper is sampled from another value than the first of its range",
 demo=FORMATS + '''
pl = plist(clf.Range(style="noClamp"))
lutFormats.Registry.write(pl, "t.csp", lutDataFormat=lutFormats.LUTDATAFORMAT_1D_3D_1D,
    lutResolution1d3d1d=[9, 3, 2], shaperIn=["log2", -2.5, 1.0], shaperOut=[None, 0.0, 1.0])
with open("t.csp") as f: lines = f.read().splitlines()
first = [l for l in lines if l.startswith("0.") or l.startswith("1.")][0].split()
expect(near([float(first[0]), float(first[-1])], [2**-2.5, 2.0], 1e-4), first)
'''),
dict(id="b22-shaperout", prop="C22",
 edits=[("lutFormats/Sampling.py", "    if shaperOutType != None:\n        #print( \"sampleAndWrite1D3D1D - create output shaper\" )\n", "    if shaperInType != None:\n        #print( \"sampleAndWrite1D3D1D - create output shaper\" )\n")],
 needs="a .clf written with an output shaper and no input shaper",
 breaks="the output shaper is left out",
 demo=FORMATS + '''
pl = plist(clf.Range(style="noClamp"))
lutFormats.Registry.write(pl, "t.clf", lutDataFormat=lutFormats.LUTDATAFORMAT_1D_3D_1D,
    lutResolution1d3d1d=[9, 3, 5], shaperIn=[None, 0.0, 1.0], shaperOut=["linear", 0.0, 2.0])
v = clf.ProcessList("t.clf").process([0.5, 1.0, 0.0])
expect(near(v, [0.5, 1.0, 0.0], 1e-4), list(v))
'''),
dict(id="b22-decimals", prop="C22",
 edits=[("lutFormats/LutSPI.py", "                    entry = '%s %s' % (entry, data[i * channels + j])\n", "                    entry = '%s %.4f' % (entry, data[i * channels + j])\n")],
 needs="a 1D LUT with values below a hundredth",
 breaks="small values are rounded to four decimals",
 demo=FORMATS + '''
g = clf.Gamma(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "g", "g", style="basicFwd"); g.setGamma(4.0)
lutFormats.Registry.write(plist(g), "t.spi1d", lutResolution1d=17)
v = lutFormats.Registry.read("t.spi1d").process([1/16.0, 2/16.0, 3/16.0])
expect(near([x*1e6 for x in v], [1e6*(k/16.0)**4 for k in (1, 2, 3)], 1e-3), list(v))
'''),
dict(id="b23-range", prop="C23",
 edits=[("lutFormats/Sampling.py", "    if minInputValue != 0.0 or maxInputValue != 1.0:\n", "    if minInputValue != 0.0:\n")],
 needs="the index map inverse of a table whose inputs start at zero and do not end at one",
 breaks="the inverse ends at one",
 demo=FORMATS + '''
with open("t.spi1d", "w") as fp:
    fp.write("Version 1\\nFrom 0.0 4.0\\nLength 3\\nComponents 1\\n{\\n0.0\\n0.25\\n1.0\\n}\\n")
v = lutFormats.Registry.read("t.spi1d", inverse=True, inversesUseIndexMaps=True).process([0.0, 0.25, 1.0])
expect(near(v, [0.0, 2.0, 4.0]), list(v))
'''),
dict(id="b23-half", prop="C23",
 edits=[("lutFormats/Sampling.py", "                    lutInterp = (inputValue - samples[sampleIndexLow])/(\n", "                    lutInterp = (max(0.0, inputValue) - samples[sampleIndexLow])/(\n")],
 needs="the half-domain inverse of a table with negative values",
 breaks="negative values are all mapped to the input of zero",
 demo=FORMATS + '''
with open("t.spi1d", "w") as fp:
    fp.write("Version 1\\nFrom 0.0 1.0\\nLength 3\\nComponents 1\\n{\\n-1.0\\n0.5\\n1.0\\n}\\n")
v = lutFormats.Registry.read("t.spi1d", inverse=True, inversesUseIndexMaps=False).process([-1.0, -0.25, 0.5])
expect(near(v, [0.0, 0.25, 0.5], 1e-3), list(v))
'''),
dict(id="b24-capable", prop="C24",
 edits=[("lutFormats/Registry.py", "            if extension in cls.extensions() and cls.isCapable(writeStyle, extension):\n", "            if extension in cls.extensions() and cls.isCapable(writeStyle):\n")],
 needs="a 3D LUT written to .spi1d, or a 1D LUT to .spi3d",
 breaks="a file is written in the other format of the family",
 demo=FORMATS + '''
pl = plist(clf.Range())
lutFormats.Registry.write(pl, "t.spi1d", lutDataFormat=lutFormats.LUTDATAFORMAT_3D, lutResolution3d=2)
lutFormats.Registry.write(pl, "t.spi3d", lutDataFormat=lutFormats.LUTDATAFORMAT_1D, lutResolution1d=4)
expect(os.listdir(".") == [], os.listdir("."))
'''),
dict(id="b24-case", prop="C24",
 edits=[("lutFormats/Registry.py", "        extension = os.path.splitext(lutPath)[1][1:].strip().lower()\n\n        #print( \"Reading lut %s\" % lutPath )\n", "        extension = os.path.splitext(lutPath)[1][1:].strip()\n\n        #print( \"Reading lut %s\" % lutPath )\n")],
 needs="a file with an extension in capitals",
 breaks="the file is written, but not read",
 demo=FORMATS + '''
lutFormats.Registry.write(plist(clf.Range()), "T.SPI1D", lutResolution1d=4)
pl = lutFormats.Registry.read("T.SPI1D")
expect(pl is not None and near(pl.process([0.5, 0.0, 1.0]), [0.5, 0.0, 1.0]), pl)
'''),
dict(id="b25-failed", prop="C25", stubs=["OpenImageIO.py"],
 edits=[("filterImageWithCLF.py", "        #print( \"\\nprocess %d - exception caught\\n\" % os.getpid() )\n        pass\n", "        #print( \"\\nprocess %d - exception caught\\n\" % os.getpid() )\n        return np.array(args[4], dtype=np.float32)\n")],
 needs="several processes and a list that fails for a row",
 breaks="the row is stored unfiltered and the image is written",
 demo=IMAGES + '''

class Fails(clf.Range):
    def process(self, values, *args, **kw):
        if abs(float(values[0]) - 0.5) < 1e-6:
            raise ValueError("a row fails")
        return clf.Range.process(self, values, *args, **kw)
save("i", "FLOAT", 1, 3, 3, [0.25, 0, 0, 0.5, 0, 0, 0.75, 0, 0])
pl = plist(Fails(B["FLOAT32"], B["FLOAT32"], "a", "a"))
run("i", "o", pl, multithreaded=2)
expect(load("o") is None, load("o"))
'''),
dict(id="b25-outrange", prop="C25", stubs=["OpenImageIO.py"],
 edits=[("filterImageWithCLF.py", "    if processListOutBitDepth != outBitDepth:\n", "    if processListOutBitDepth != inBitDepth:\n")],
 needs="an output depth other than that of the input, where the list ends in the depth of the input",
 breaks="the values are not converted to the depth of the output",
 demo=IMAGES + '''

save("i", "FLOAT", 1, 1, 3, [0.25, 0.5, 1.0])
run("i", "o", plist(clf.Range(B["FLOAT32"], B["FLOAT32"], "a", "a")), multithreaded=1, outBitDepth=B["UINT16"])
expect(near(load("o"), [16384, 32768, 65535], 1e-4), load("o"))
'''),
dict(id="b26-interpolation", prop="C26", stubs=["PyOpenColorIO.py"],
 edits=[("convertOCIOtoCLF.py", "        lutpns = lutFormats.Registry.read(lutPath, inverse, interpolation, \n", "        lutpns = lutFormats.Registry.read(lutPath, inverse,\n")],
 needs="a 3D LUT file transform with tetrahedral interpolation",
 breaks="the interpolation asked for is not used",
 demo=SPACES + '''

l = clf.simple3DLUT("l", "l", [2, 2, 2], lambda r, g, b: [r*g*b]*3)
import lutFormats
lutFormats.Registry.write(plist(l), "l.spi3d", lutDataFormat=lutFormats.LUTDATAFORMAT_3D, lutResolution3d=2)
pl = convert({"t": "file", "src": "l.spi3d", "interp": "tetrahedral", "dir": "forward"})
v = list(pl.process([0.5, 0.5, 0.25]))
expect(near(v, [0.25]*3, 1e-4), v)
'''),
dict(id="b26-names", prop="C26", stubs=["PyOpenColorIO.py"],
 edits=[("convertOCIOtoCLF.py", "            pns.extend( childpns )\n", "            if not childpns[:1] == pns[-1:]:\n                pns.extend( [pn for pn in childpns if not pn.getAttribute('name') in [p.getAttribute('name') for p in pns]] or childpns )\n")],
 needs="a group with a group of several transforms after a transform of the same kind",
 breaks="the transforms of the inner group that are named like earlier ones are left out",
 demo=SPACES + '''
def m(k): return {"t": "matrix", "m": [k,0,0,0, 0,k,0,0, 0,0,k,0, 0,0,0,1], "o": [0]*4, "dir": "forward"}
pl = convert({"t": "group", "kids": [m(2.0), {"t": "group", "kids": [m(3.0), {"t": "log", "base": 2, "dir": "forward"}]}]})
v = list(pl.process([1.0, 0.5, 0.25]))
expect(near(v, [math.log(6, 2), math.log(3, 2), math.log(1.5, 2)], 1e-4), v)
'''),
dict(id="b26-groups", prop="C26", stubs=["PyOpenColorIO.py"],
 edits=[("convertOCIOtoCLF.py", "        children = ocioTransform.getTransforms()\n", "        children = list(ocioTransform.getTransforms())\n        if ocioTransform.getDirection() != 'forward':\n            children.reverse()\n        if [t for t in children if isinstance(t, OCIO.GroupTransform)]:\n            children.sort(key=lambda t: isinstance(t, OCIO.GroupTransform))\n")],
 needs="a group within a group, with a transform after it",
 breaks="the members of inner groups come after the other transforms",
 demo=SPACES + '''
def log(d): return {"t": "log", "base": 2, "dir": d}
m = {"t": "matrix", "m": [2.0,0,0,0, 0,2.0,0,0, 0,0,2.0,0, 0,0,0,1], "o": [0]*4, "dir": "forward"}
pl = convert({"t": "group", "kids": [{"t": "group", "kids": [log("forward")]}, m]})
v = list(pl.process([1.0, 0.5, 0.25]))
expect(near(v, [0.0, -2.0, -4.0], 1e-4), v)
'''),
dict(id="b27-reload", prop="C27",
 edits=[("clf/ExtensionReference.py", "        print( \"%20s : %15s\" % (\"Resolved Path\", self._resolvedPath) )\n", "        self.readInitialize()\n        print( \"%20s : %15s\" % (\"Resolved path\", self._resolvedPath) )\n")],
 needs="a Reference whose file changes after it was created, printed in between",
 breaks="printing reads the file again, so that the list processes otherwise afterwards",
 demo='''
import io
def write(k):
    m = clf.Matrix(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "m", "m")
    m.setMatrix([3, 3, 3], [k,0,0, 0,k,0, 0,0,k]); plist(m).writeFile("ref.clf")
write(2.0)
pl = plist(clf.Reference(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "r", "r", path="ref.clf", basePath=os.getcwd()))
write(3.0)
out, sys.stdout = sys.stdout, io.StringIO()
pl.printInfo()
sys.stdout = out
v = pl.process([1.0, 1.0, 1.0])
expect(near(v, [2.0]*3), list(v))
'''),
dict(id="b28-dynamic", prop="C28",
 edits=[("clf/ProcessNode.py", "        self._valueElements = {}\n        self._dynamicParams = []\n", "        self._valueElements = {}\n"),
        ("clf/ProcessNode.py", "    __metaclass__ = ProcessListChildMeta\n\n    def __init__(self, nodeType,", "    __metaclass__ = ProcessListChildMeta\n\n    _dynamicParams = []\n\n    def __init__(self, nodeType,")],
 needs="two nodes, one of which has a dynamic parameter",
 breaks="the parameter is shared by all nodes",
 demo='''
a, b = clf.Range(), clf.Gamma()
a.setDynamicParam("exposure")
expect(a.getDynamicParam("exposure") and not b.getDynamicParam("exposure"))
'''),
dict(id="b28-shared", prop="C28",
 edits=[("clf/ExtensionExposureContrast.py", "        self._params = [[0.0, 1.0, 1.0]]\n    # __init__\n", "    # __init__\n"),
        ("clf/ExtensionExposureContrast.py", "    \"A Common LUT Format ExposureContrast ProcessNode element\"\n", "    \"A Common LUT Format ExposureContrast ProcessNode element\"\n\n    _params = [[0.0, 1.0, 1.0]]\n")],
 needs="two ExposureContrast nodes",
 breaks="setting the parameters of one sets those of the other",
 demo='''
a = clf.ExposureContrast(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "a", "a", style="linear")
b = clf.ExposureContrast(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "b", "b", style="linear")
a.setExposureContrastPivot(1.0, 1.0, 1.0)
expect(near(plist(b).process([0.25, 0.5, 1.0]), [0.25, 0.5, 1.0]))
expect(near(plist(a).process([0.25, 0.5, 1.0]), [0.5, 1.0, 2.0]))
'''),
dict(id="b29-nan", prop="C29",
 edits=[("clf/LUT1D.py", "        fvalue = f(sample)\n\n        # Store the values\n", "        fvalue = f(sample) if sample == sample else sample\n\n        # Store the values\n")],
 needs="a function that maps NaN to a number",
 breaks="the entries of the NaN codes hold NaN instead of the function's value",
 demo='''
l = clf.simpleSampledLUTHalfDomain("l", "l", 1, lambda x: 7.0 if x != x else 1.0)
v = plist(l).process([float("nan"), 0.5, -0.5])
expect(near(v, [7.0, 1.0, 1.0]), list(v))
'''),
dict(id="b29-channels", prop="C29",
 edits=[("clf/LUT1D.py", "        sample = float(i)/(resolution-1)\n", "        sample = i*round(1.0/(resolution-1), 6)\n")],
 needs="a resolution whose step is not a round number, such as 65",
 breaks="the sample positions drift, as the step is rounded",
 demo='''
l = clf.simpleSampledLUT("l", "l", 1, 1025, lambda x: x*1000.0)
v = plist(l).process([1.0, 0.5, 0.0])
expect(near(v, [1000.0, 500.0, 0.0], 1e-6), list(v))
'''),
dict(id="b30-lattice", prop="C30",
 edits=[("clf/LUT3D.py", "                    outValue[i] = self._indexMaps[0].process(outValue[i])\n                    outValue[i] /= float(dimensions[i]-1)\n", "                    outValue[i] = self._indexMaps[0].process(outValue[i])\n                    outValue[i] /= float(dimensions[0]-1)\n")],
 needs="a LUT3D with a single index map and a different number of points per axis",
 breaks="the index of green and blue is divided by the size of red",
 demo='''
l = clf.simple3DLUT("l", "l", [5, 3, 2])
l.setIndexMaps([[0.0, 1.0], [0, 4]])
v = plist(l).process([0.5, 0.25, 0.125])
expect(near(v, [0.5, 0.5, 0.5]), list(v))
'''),
dict(id="b30-inf", prop="C30",
 edits=[("clf/IndexMap.py", "        # Infs\n        elif np.isinf(value):\n            result = value\n\n", "")],
 needs="an infinite value before an index map",
 breaks="infinities are held at the ends of the map",
 demo='''
l = clf.simpleSampledLUT("l", "l", 1, 5, lambda x: x)
l.setIndexMaps([[0.0, 1.0], [0, 4]])
v = plist(l).process([float("inf"), float("-inf"), 0.5])
expect(v[0] == float("inf") and v[1] == float("-inf") and near([v[2]], [0.5]), list(v))
'''),

dict(id="b25-unordered", prop="C25", stubs=["OpenImageIO.py"],
 edits=[("filterImageWithCLF.py", "            result = pool.map_async(filterRow_parallel_splitargs,\n", "            result = pool.imap_unordered(filterRow_parallel_splitargs,\n"),
        ("filterImageWithCLF.py", "                parallelProcessedPixels = result.get(0xFFFF)\n", "                parallelProcessedPixels = list(result)\n")],
 needs="several processes and rows that finish in another order than they start",
 breaks="rows are stored in the order in which they finish",
 demo=IMAGES + '''
import time
class Slow(clf.Range):
    def process(self, values, *args, **kw):
        if abs(float(values[0]) - 0.25) < 1e-6:
            end = time.time() + 20
            while not os.path.exists("second") and time.time() < end:
                time.sleep(0.01)
            time.sleep(0.5)
        elif abs(float(values[0]) - 0.75) < 1e-6:
            open("second", "w").close()
        return clf.Range.process(self, values, *args, **kw)
save("i", "FLOAT", 1, 2, 3, [0.25, 0, 0, 0.75, 0, 0])
run("i", "o", plist(Slow(B["FLOAT32"], B["FLOAT32"], "a", "a")), multithreaded=2)
expect(near(load("o"), [0.25, 0, 0, 0.75, 0, 0]), load("o"))
'''),
dict(id="b25-shift", prop="C25", stubs=["OpenImageIO.py"],
 edits=[("filterImageWithCLF.py", "                sourceData[i] = sourceData[i] >> bitShift\n", "                sourceData[i] = (sourceData[i] + 1) >> bitShift\n")],
 needs="a 10 or 12 bit image whose low bits repeat the high ones",
 breaks="a code whose low bits are all set is read as the next code",
 demo=IMAGES + '''
save("i", "UINT16", 1, 1, 3, [(512 << 6) + 63, (7 << 6) + 1, 1 << 6], [["oiio:BitsPerSample", "int", 10]])
run("i", "o", plist(clf.Range(B["UINT10"], B["FLOAT32"], "a", "a")), multithreaded=1, outBitDepth=B["FLOAT32"])
v = [x*1023 for x in load("o")]
expect(near(v, [512, 7, 1], 1e-3), v)
'''),
]
