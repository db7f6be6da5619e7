FORMATS = '''
sys.path.insert(0, os.path.join(REPO, "python", "aces"))
import lutFormats
'''
BUGS = [
dict(id="b01-reuse", prop="C01",
 edits=[("clf/LUT1D.py", "        outValues = np.zeros(len(values), dtype=np.float32)\n", """        # Rows of an image have the same size, so keep the buffer
        outValues = getattr(self, '_outValues', None)
        if outValues is None or len(outValues) != len(values):
            outValues = np.zeros(len(values), dtype=np.float32)
            self._outValues = outValues
""")],
 needs="a list that ends in a LUT1D, and a result that is still held when a second buffer of the same size is processed",
 breaks="the second call overwrites what the first call returned",
 demo='''
l = clf.simpleSampledLUT("l", "l", 1, 3, lambda x: 2*x)
pl = plist(l)
a = pl.process([0.1, 0.2, 0.3]); keep = [float(x) for x in a]
pl.process([0.5, 0.6, 0.7])
expect(near(a, keep), list(a), keep)
'''),
dict(id="b02-blocks", prop="C02",
 edits=[("clf/ProcessList.py", "                result = processNode.process(result, stride, verbose=verbose)\n", """                # Long buffers are passed on in blocks, to keep temporaries small
                block = 2048
                if stride > 0 and len(result) > block:
                    result = np.concatenate([processNode.process(result[b:b+block], stride, verbose=verbose)
                        for b in range(0, len(result), block)])
                else:
                    result = processNode.process(result, stride, verbose=verbose)
""")],
 needs="a buffer of more than 2048 values whose stride does not divide 2048",
 breaks="the pixels at the block boundaries are torn apart",
 demo='''
m = clf.Matrix(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "m", "m")
m.setMatrix([3, 3, 3], [0, 1, 0, 0, 0, 1, 1, 0, 0])
v = [float(i) for i in range(2100)]
got = list(plist(m).process(v, stride=3))
want = [x for p in range(700) for x in (v[3*p+1], v[3*p+2], v[3*p])]
expect(got == want)
'''),
dict(id="b07-flat", prop="C07",
 edits=[("clf/Array.py", "            result = (1-interp)*value1 + interp*value2\n", """            # Skip the arithmetic where the table is flat
            if abs(value2 - value1) < 1e-4:
                result = value1
            else:
                result = (1-interp)*value1 + interp*value2
""")],
 needs="a table of many entries, whose neighbours differ by less than 1e-4, at a position between two entries",
 breaks="the table becomes a staircase",
 demo='''
l = clf.LUT1D(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "l", "l")
l.setArray(1, [0.0, 0.00008, 1.0])
v = plist(l).process([0.25, 0.0, 0.5])
expect(near(v, [0.00004, 0.0, 0.00008], 1e-7), list(v))
'''),
dict(id="b08-zero", prop="C08",
 edits=[("clf/Array.py", "            if floatDifference >= 0.0:\n", "            if floatDifference >= 0.0 or halfValue1 == 0.0:\n")],
 needs="a half-domain LUT and a negative input closer to zero than half of the smallest half",
 breaks="the value next to zero is taken on the wrong side or with the wrong weight",
 demo='''
l = clf.LUT1D(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "l", "l", halfDomain=True)
t = [float(i % 32768) for i in range(65536)]
t[0] = 0.0; t[32768] = 0.0
l.setArray(1, t)
tiny = 2.0**-24
v = plist(l).process([0.25*tiny, 0.75*tiny, 1.25*tiny])
expect(near(v, [0.25, 0.75, 1.25], 1e-3), list(v))
v = plist(l).process([-0.25*tiny, -0.75*tiny, -1.25*tiny])
expect(near(v, [0.25, 0.75, 1.25], 1e-3), list(v))
'''),
dict(id="b09-memo", prop="C09",
 edits=[("clf/Array.py", "        result = values[index1:index1+3]\n", """        # Neighbouring pixels tend to share their corners
        if not hasattr(self, '_corners') or len(self._corners) > 512:
            self._corners = {}
        key = (index3[0] << 16) + (index3[1] << 8) + (index3[2] << 4)
        if not key in self._corners:
            self._corners[key] = values[index1:index1+3]
        result = self._corners[key]
""")],
 needs="a lattice of more than sixteen entries along blue, and two pixels processed after another",
 breaks="corners of different cells are taken for each other",
 demo='''
l = clf.simple3DLUT("l", "l", [2, 3, 40], lambda r, g, b: [r, g, b])
pl = plist(l)
pl.process([0.0, 0.5, 16.0/39])
v = pl.process([0.0, 1.0, 0.0])
expect(near(v, [0.0, 1.0, 0.0]), list(v))
'''.replace("16.0/39", "0.0")+'''
pl.process([0.0, 0.0, 16.0/39])
pl.process([0.0, 0.5, 0.0])
for k in range(40):
    v = pl.process([0.0, 0.5, k/39.0])
    expect(near(v, [0.0, 0.5, k/39.0], 1e-4), k, list(v))
'''),
dict(id="b10-luma", prop="C10",
 edits=[("clf/ASCCDL.py", """                    outSat = luma + (1.0/saturation) * (outValue[i] - luma)
                    if outSat < 0:
""", """                    outSat = outValue[i]
                    if abs(outSat - luma) > 1e-3:
                        outSat = luma + (1.0/saturation) * (outValue[i] - luma)
                    if outSat < 0:
""")],
 needs="a RevNoClamp CDL with a saturation other than one and a nearly grey colour",
 breaks="near greys are not saturated",
 demo='''
c = clf.ASCCDL(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "c", "c", style="RevNoClamp")
c.setSaturation(0.05)
v = plist(c).process([0.5, 0.5, 0.5005])
luma = 0.5 + 0.0722*0.0005
expect(near(v, [luma + 20*(0.5-luma), luma + 20*(0.5-luma), luma + 20*(0.5005-luma)]), list(v))
'''),
dict(id="b11-classcache", prop="C11",
 edits=[("clf/ExtensionGamma.py", """        params = self._params
        channels = {'R':0, 'G':1, 'B':2}
        for param in self._params:
            if param[2] == None:
                gamma = [param[0], param[0], param[0]]
                offset = [param[1], param[1], param[1]]
            else:
                channel = channels[param[2]]
                gamma[channel] = param[0]
                offset[channel] = param[1]

        '''
""", """        channels = {'R':0, 'G':1, 'B':2}

        # Gather the parameters of a node only once
        cached = Gamma._gathered.get(id(self._params))
        if cached != None and cached[0] == len(self._params):
            (gamma, offset) = cached[1:]
        else:
            for param in self._params:
                if param[2] == None:
                    gamma = [param[0], param[0], param[0]]
                    offset = [param[1], param[1], param[1]]
                else:
                    channel = channels[param[2]]
                    gamma[channel] = param[0]
                    offset[channel] = param[1]
            Gamma._gathered[id(self._params)] = (len(self._params), gamma, offset)

        '''
"""), ("clf/ExtensionGamma.py", "    \"A Common LUT Format Gamma ProcessNode element\"\n", "    \"A Common LUT Format Gamma ProcessNode element\"\n\n    _gathered = {}\n")],
 needs="a Gamma node that is created at the address of one that was processed and dropped before",
 breaks="the new node takes the parameters of the old one",
 demo='''
import gc
for k in range(400):
    g = clf.Gamma(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "g", "g", style="basicFwd")
    g.setGamma(1.0 + k % 7)
    v = g.process(np.array([0.5, 0.25, 0.75], np.float32))
    expect(near(v, [x**(1.0 + k % 7) for x in (0.5, 0.25, 0.75)]), k, list(v))
    del g
    if k % 20 == 0: gc.collect()
'''),
dict(id="b14-toggle", prop="C14",
 edits=[("clf/ProcessList.py", """            processNode = self._processes[i]
            #print( "processing : %s" % result )
""", """            processNode = nodes[i]
            # Nodes without any effect need no further look
            if skipped[i] and getFeatureCompatibility() & featureSets["Autodesk"] and not verbose:
                continue
"""),
        ("clf/ProcessList.py", "        # Pass the value through each ProcessNode in the ProcessList\n", """        # Find the nodes that are bypassed between equal bit depths
        nodes = self._processes
        if getattr(self, '_skipsOf', None) != nodes:
            self._skipsOf = list(nodes)
            self._skips = [0 < i < len(nodes)-1 and nodes[i].isBypassed() and
                nodes[i-1].getOutBitDepth() == nodes[i+1].getInBitDepth() for i in range(len(nodes))]
        skipped = self._skips

        # Pass the value through each ProcessNode in the ProcessList
""")],
 needs="the bypass of an inner node cleared after its list has been processed, or the depth of a neighbour changed",
 breaks="the node stays bypassed, or its bypass no longer adapts the depths",
 demo='''
F = clf.bitDepths["FLOAT32"]
def shift(n):
    r = clf.Range(F, F, n, n, style="noClamp"); r.setMinInValue(0.0); r.setMinOutValue(1.0)
    return r
a, b, c = shift("a"), shift("b"), shift("c")
b.setAttribute("bypass", True)
pl = plist(a, b, c)
expect(near(pl.process([0.5]), [2.5]))
b.setAttribute("bypass", False)
v = pl.process([0.5]); expect(near(v, [3.5]), list(v))
'''),
dict(id="b16-number", prop="C16",
 edits=[("clf/ProcessNode.py", "                value = (value == \"True\")\n", """                value = (value == "True")
            # And text to numbers
            elif key in ['id', 'name'] and value.isdigit():
                value = int(value)
"""), ("clf/ProcessNode.py", "            # Convert text to booleans where appropriate\n", "            # Convert text to other types where appropriate\n")],
 needs="a node whose name or id consists of digits with a leading zero",
 breaks="the name is not read as it was written",
 demo='''
r = clf.Range(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "007", "0012", style="noClamp")
plist(r).writeFile("a.clf")
q = clf.ProcessList("a.clf").getProcesses()[0]
expect(q.getAttribute("id") == "007" and q.getAttribute("name") == "0012", q.getAttribute("id"), q.getAttribute("name"))
'''),
dict(id="b16-long", prop="C16",
 edits=[("clf/Array.py", """        for n in range(len(self._values)/columns):
            sample = self._values[n*columns:(n+1)*columns]

            # Floats encoded""", """        for n in range(min(len(self._values)/columns, 4096*4)):
            sample = self._values[n*columns:(n+1)*columns]

            # Floats encoded""")],
 needs="a table of more than 16384 rows",
 breaks="the rows beyond are not written",
 demo='''
l = clf.simpleSampledLUTHalfDomain("l", "l", 1, lambda x: 0.5 if x != x or abs(x) == float("inf") else x)
plist(l).writeFile("a.clf")
q = clf.ProcessList("a.clf").getProcesses()[0]
expect(len(q.getLUTValues()) == 65536, len(q.getLUTValues()))
'''),
dict(id="b17-upper", prop="C17",
 edits=[("clf/Common.py", "    uint16Value = struct.unpack(\">H\", hex16Value.decode(\"hex\"))[0]\n", """    uint16Value = 0
    for digit in hex16Value:
        uint16Value = uint16Value*16 + hexDigits.find(digit)
"""), ("clf/Common.py", "def halfToHex(halfValue):\n", "hexDigits = '0123456789abcdef'\n\ndef halfToHex(halfValue):\n")],
 needs="a hex16bit code in capital letters",
 breaks="the digits A to F are read as -1",
 demo='''
import aces.clf.Common as cm
for h in ("3C00", "3c00", "BC00", "AbCd"):
    expect(cm.halfToUInt16(cm.hexToHalf(h)) == int(h, 16), h)
'''),
dict(id="b19-deepns", prop="C19",
 edits=[("clf/ProcessNode.py", "        elementType = tag[tag.find('}')+1:]\n", "        elementType = tag.split('}')[-1].split('_')[0] if '}' in tag else tag\n")],
 needs="a child element of a node that has both a namespace and an underscore in its name",
 breaks="the part after the underscore is lost, so that the element is not recognised",
 demo='''
doc = """<ProcessList xmlns="urn:x" id="a" compCLFversion="1.0"><Matrix inBitDepth="32f" outBitDepth="32f" id="m" name="m">
<Array dim="3 3 3">1 0 0 0 1 0 0 0 1</Array></Matrix>
<Range inBitDepth="32f" outBitDepth="32f" id="r" name="r" style="noClamp"><min_In_Value>0</min_In_Value><minOutValue>1</minOutValue></Range></ProcessList>"""
with open("a.clf", "w") as f: f.write(doc)
v = clf.ProcessList("a.clf", strict=False).process([0.5, 0.5, 0.5])
expect(near(v, [1.5]*3), list(v))
'''),
dict(id="b24-dots", prop="C24",
 edits=[("lutFormats/Registry.py", """             returnProcessNodes=False):
        extension = os.path.splitext(lutPath)[1][1:].strip().lower()
""", """             returnProcessNodes=False):
        extension = os.path.basename(lutPath).split('.', 1)[-1].strip().lower()
""")],
 needs="a LUT file with a dot in its name before the extension",
 breaks="the format of the file is not found",
 demo=FORMATS + '''
with open("lg10.v2.spi1d", "w") as f:
    f.write("Version 1\\nFrom 0 1\\nLength 2\\nComponents 1\\n{\\n 0\\n 1\\n}\\n")
out, sys.stdout = sys.stdout, open(os.devnull, "w")
pl = lutFormats.Registry.read("lg10.v2.spi1d")
sys.stdout = out
expect(pl is not None)
'''),
dict(id="b28-rename", prop="C28",
 edits=[("clf/ProcessList.py", """        for processNode in self._processes:
            if processNode.getAttribute('name') == name:
                return processNode
        return None
""", """        # Look names up in an index of the list
        if len(getattr(self, '_names', [])) != len(self._processes):
            self._names = [processNode.getAttribute('name') for processNode in self._processes]
        if name in self._names:
            return self._processes[self._names.index(name)]
        return None
""")],
 needs="a node renamed after a lookup by name in its list",
 breaks="the node is found under its old name, and not under the new one",
 demo='''
r = clf.Range(name="a")
pl = plist(r)
expect(pl.getProcess("a") is r)
r.setAttribute("name", "b")
expect(pl.getProcess("b") is r and pl.getProcess("a") is None)
'''),
dict(id="b29-memo", prop="C29",
 edits=[("clf/LUT1D.py", "        fvalue = f(sample)\n", """        # which may be slow, so remember its results
        key = "%.6g" % (sample*1.0) if abs(sample) >= 1e-6 else "0"
        if not key in results:
            results[key] = f(sample)
        fvalue = results[key]
"""), ("clf/LUT1D.py", "    resolution = 65536\n", "    resolution = 65536\n    results = {}\n")],
 needs="a function whose value changes among the smallest half floats",
 breaks="all half floats below a millionth take the value of the first of them",
 demo='''
l = clf.simpleSampledLUTHalfDomain("l", "l", 1, lambda x: 0.0 if x != x or abs(x) == float("inf") else (x*2.0**24 if abs(x) < 1e-5 else x))
v = l.getLUTValues()
expect([float(v[k]) for k in (0, 1, 2, 10)] == [0.0, 1.0, 2.0, 10.0], v[1], v[2], v[10])
'''),
dict(id="b06-sparse", prop="C06",
 edits=[("clf/Matrix.py", "                    outValue[i] += matrix[j + offset]*value[j]\n", """                    # Most entries of a matrix are zero
                    if abs(matrix[j + offset]) > 1e-6:
                        outValue[i] += matrix[j + offset]*value[j]
""")],
 needs="a matrix entry below a millionth and a value of thousands",
 breaks="the product is left out although it counts",
 demo='''
m = clf.Matrix(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "m", "m")
m.setMatrix([3, 3, 3], [1, 0.0000009, 0, 0, 1, 0, 0, 0, 1])
v = plist(m).process([0.0, 60000.0, 1.0])
expect(near(v, [0.054, 60000.0, 1.0], 1e-4), list(v))
'''),
dict(id="b13-zero", prop="C13",
 edits=[("clf/ExtensionExposureContrast.py", "            if style == 'linear':\n", "            if exposure == 0.0 and contrast == 1.0:\n                pass\n\n            elif style == 'linear':\n")],
 needs="exposure 0 and contrast 1 between different bit depths, or with a negative value",
 breaks="the node no longer scales between the depths",
 demo='''
e = clf.ExposureContrast(clf.bitDepths["UINT8"], clf.bitDepths["UINT10"], "e", "e", style="linear")
e.setExposureContrastPivot(0.0, 1.0, 0.18)
v = plist(e).process([255.0, 51.0, 0.0])
expect(near(v, [1023.0, 204.6, 0.0]), list(v))
'''),
dict(id="b27-width", prop="C27",
 edits=[("clf/IndexMap.py", "            for n in (range(length-3,length)):\n", "            for n in (range(max(length-3, 16),length)):\n")],
 needs="an index map of fifteen to eighteen pairs",
 breaks="the last pairs are not printed",
 demo='''
import io
l = clf.simpleSampledLUT("l", "l", 1, 15, lambda x: x)
l.setIndexMaps([[float(i) for i in range(15)], list(range(15))])
out, sys.stdout = sys.stdout, io.StringIO()
plist(l).printInfo()
text = sys.stdout.getvalue(); sys.stdout = out
expect("13.000000000, 13.000000000" in text and "12.000000000, 12.000000000" in text)
'''),
dict(id="b22-last", prop="C22",
 edits=[("lutFormats/Sampling.py", """        sampleValue = float(lutIndex)/(lutResolution1d-1)*(
            inputMax - inputMin) + inputMin
        lutValue = processList.process([sampleValue]*3)

        samples[lutIndex*3:(lutIndex+1)*3] = lutValue

    return samples
# sample1D
""", """        # Step through the range
        sampleValue = sampleNext
        sampleNext = np.float16(sampleValue + step) if lutResolution1d > 4096 else sampleValue + step
        lutValue = processList.process([sampleValue]*3)

        samples[lutIndex*3:(lutIndex+1)*3] = lutValue

    return samples
# sample1D
"""), ("lutFormats/Sampling.py", """    samples = [0.0]*lutResolution1d*3
    for lutIndex in range(lutResolution1d):
""", """    samples = [0.0]*lutResolution1d*3
    sampleNext = inputMin
    step = (inputMax - inputMin)/float(lutResolution1d-1)
    for lutIndex in range(lutResolution1d):
"""), ("lutFormats/Sampling.py", "import os\nimport math\n", "import os\nimport math\nimport numpy as np\n")],
 needs="a 1D LUT of more than 4096 entries",
 breaks="the positions are accumulated in half floats and stall",
 demo=FORMATS + '''
import clf as clf2
from lutFormats import Sampling
pl = clf2.ProcessList()
s = Sampling.sample1D(pl, 5000, 0.0, 1.0)
expect(near([s[3*4999], s[3*2500]], [1.0, 2500/4999.0], 1e-4), s[3*4999], s[3*2500])
'''),
dict(id="b23-binary", prop="C23",
 edits=[("lutFormats/Sampling.py", """            # Find the location of the de-normalized value in the lut
            for lutIndex in range(inputResolution):
                sampleIndex = lutIndex*channels + channel
                if samples[sampleIndex] > rangedValue:
                    break
""", """            # Find the location of the de-normalized value in the lut
            lutIndex = 0
            last = inputResolution-1
            while lutIndex < last:
                middle = (lutIndex + last)//2
                if samples[middle*channels] > rangedValue:
                    last = middle
                else:
                    lutIndex = middle + 1
""")],
 needs="a resampled inverse of a table whose channels differ",
 breaks="green and blue are searched in red",
 demo=FORMATS + '''
n = 9
with open("a.spi1d", "w") as f:
    f.write("Version 1\\nFrom 0 1\\nLength %d\\nComponents 3\\n{\\n" % n)
    for i in range(n): x = i/8.0; f.write(" %r %r %r\\n" % (x, x*x*0.5+0.5*x, x**0.5))
    f.write("}\\n")
out, sys.stdout = sys.stdout, open(os.devnull, "w")
fwd = lutFormats.Registry.read("a.spi1d"); inv = lutFormats.Registry.read("a.spi1d", inverse=True, inversesUseIndexMaps=False, inversesUseHalfDomain=False)
sys.stdout = out
for x in (0.3, 0.55, 0.8):
    v = inv.process(list(fwd.process([x]*3)))
    expect(near(v, [x]*3, 0.08), x, list(v))
'''),
]
