from bugs2 import IMAGES, SPACES
FORMATS = '''
sys.path.insert(0, os.path.join(REPO, "python", "aces"))
import lutFormats
'''
BUGS = [
dict(id="b12-default", prop="C12",
 edits=[("clf/ExtensionLog.py", "            param = [0.6, 685.0, 95.0, 1.0, 0.0, None]\n            for key", "            param = list(self._params[-1][0:5]) + [None] if self._params else [0.6, 685.0, 95.0, 1.0, 0.0, None]\n            for key")],
 needs="a file with two LogParams elements, of which the second leaves an attribute out",
 breaks="the value of the first is used instead of the default",
 demo='''
with open("x.clf", "w") as f:
    f.write('<ProcessList id="a" compCLFversion="1.0"><Log inBitDepth="32f" outBitDepth="32f" style="linToLog">'
            '<LogParams gamma="0.5" refWhite="700" refBlack="100" highlight="1" shadow="0" channel="R"/><LogParams gamma="0.6" channel="G"/>'
            '<LogParams highlight="2" shadow="0" channel="B"/></Log></ProcessList>')
v = clf.ProcessList("x.clf").process([1.0, 1.0, 2.0])
expect(near(v, [700/1023.0, 685/1023.0, 685/1023.0]), list(v))
'''),
dict(id="b21-blank3d", prop="C21",
 edits=[("lutFormats/LutSPI.py", "                        tokens = map(float, line.split())\n", "                        if not line.strip():\n                            break\n                        tokens = list(map(float, line.split()))\n")],
 needs="a .spi3d file with a blank line among its entries",
 breaks="the entries after it are lost",
 demo=FORMATS + '''
with open("x.spi3d", "w") as f:
    f.write("SPILUT 1.0\\n3 3\\n2 2 2\\n" + "".join("%s%d %d %d %d %d %d\\n" % ("\\n" if (r, g, b) == (1, 0, 0) else "", r, g, b, r, g, b)
            for r in (0, 1) for g in (0, 1) for b in (0, 1)))
try:
    v = list(lutFormats.Registry.read("x.spi3d").process([0.75, 0.5, 0.25]))
except Exception:
    v = []
expect(near(v, [0.75, 0.5, 0.25]), v)
'''),
dict(id="b20-stamp", prop="C20",
 edits=[("clf/ProcessList.py", "        for key, value in self._attributes.iteritems():\n            tree.set(key, \"%s\" % value)\n", "        if element == None:\n            self._attributes.setdefault('compCLFversion', 1.0)\n        for key, value in list(self._attributes.iteritems()):\n            tree.set(key, \"%s\" % value)\n")],
 needs="a list without a version",
 breaks="writing gives it one",
 demo='''
m = clf.Matrix(); m.setMatrix([3, 3, 3], [2, 0, 0, 0, 2, 0, 0, 0, 2])
l = plist(m); l.writeFile("x.clf")
expect(l.getCompCLFversion() is None)
'''),
dict(id="b25-chan5", prop="C25", stubs=["OpenImageIO.py"],
 edits=[("filterImageWithCLF.py", "    pvalue = processList.process(pvalue, stride=channels, verbose=verbose)\n", "    pvalue = processList.process(pvalue, stride=channels if channels <= 4 else channels - channels%4, verbose=verbose)\n")],
 needs="an image with five or more channels, filtered by a single process",
 breaks="the pixels of a row are taken apart at the wrong places",
 demo=IMAGES + '''
m = clf.Matrix(B["FLOAT32"], B["FLOAT32"], "m", "m"); m.setMatrix([3, 3, 3], [2, 0, 0, 0, 2, 0, 0, 0, 2])
import json
oiio.save("i", {"image": 1, "type": "FLOAT", "w": 4, "h": 1, "ch": 5, "names": ["R", "G", "B", "A", "Z"], "meta": [],
                "hex": binascii.hexlify(np.array([1, 1, 1, 1, 1]*4, dtype=np.float32).tobytes()).decode("ascii")})
run("i", "o", plist(m), multithreaded=1, outBitDepth=B["FLOAT32"])
expect(load("o") == [2, 2, 2, 1, 1]*4, load("o"))
'''),
dict(id="b19-unwrap", prop="C19",
 edits=[("clf/ProcessList.py", "                else:\n                    print( \"ProcessList::read - %s\" % msg )\n    # read\n", "                elif len(child) > 0 and self.getElementType(child[0].tag) in ['Matrix', 'Range']:\n                    # Some nodes are wrapped up\n                    self.read(child, strict)\n    # read\n")],
 needs="an unknown element that holds a known one, read leniently",
 breaks="the node inside is read as if it stood in the list",
 demo='''
with open("x.clf", "w") as f:
    f.write('<ProcessList id="a" compCLFversion="1.0"><Mystery><Matrix inBitDepth="32f" outBitDepth="32f"><Array dim="3 3 3">2 0 0 0 2 0 0 0 2</Array></Matrix></Mystery></ProcessList>')
expect(len(clf.ProcessList("x.clf").getProcesses()) == 0)
'''),
dict(id="b26-cancel", prop="C26", stubs=["PyOpenColorIO.py"],
 edits=[("convertOCIOtoCLF.py", "            if( offset[0] != 0.0 or offset[1] != 0.0 or offset[2] != 0.0 ):\n", "            if( sum(offset[0:3]) != 0.0 ):\n")],
 needs="a matrix whose offsets add up to nothing",
 breaks="the offsets are lost",
 demo=SPACES + '''
pl = convert({"t": "matrix", "m": [1.0,0,0,0, 0,1.0,0,0, 0,0,1.0,0, 0,0,0,1], "o": [0.5, -0.5, 0.0, 0.0], "dir": "forward"})
v = list(pl.process([1.0, 1.0, 1.0]))
expect(near(v, [1.5, 0.5, 1.0]), v)
'''),
dict(id="b23-below", prop="C23",
 edits=[("lutFormats/Sampling.py", "        minOutputValue = min(minOutputValue, samples[c])\n", "        minOutputValue = max(0.0, min(minOutputValue, samples[c]))\n")],
 needs="a table with negative outputs, inverted by resampling",
 breaks="outputs below zero are held at the input of zero",
 demo=FORMATS + '''
with open("x.spi1d", "w") as f:
    f.write("Version 1\\nFrom 0.0 1.0\\nLength 3\\nComponents 1\\n{\\n -0.5\\n 0.0\\n 1.0\\n}\\n")
l = lutFormats.Registry.read("x.spi1d", inverse=True, inversesUseIndexMaps=False, inversesUseHalfDomain=False)
v = list(l.process([-0.5, 0.0, 1.0]))
expect(near(v, [0.0, 0.5, 1.0], 0.15), v)
'''),
dict(id="b22-min3d", prop="C22",
 edits=[("lutFormats/Sampling.py", "                sampleValueB = float(b)/(lutResolution3d[2]-1)*(\n                    inputMax - inputMin) + inputMin\n", "                sampleValueB = float(b)/(lutResolution3d[2]-1)*(\n                    inputMax - inputMin) + max(0.0, inputMin)\n")],
 needs="a 3D table with a negative minimum",
 breaks="blue is sampled from nought on",
 demo=FORMATS + '''
m = clf.Matrix(); m.setMatrix([3, 3, 3], [1, 0, 0, 0, 1, 0, 0, 0, 1])
lutFormats.Registry.write(plist(m), "x.csp", lutDataFormat="3D", lutResolution3d=3, inputMin=-1.0, inputMax=1.0)
v = list(lutFormats.Registry.read("x.csp").process([-1.0, -1.0, -1.0]))
expect(near(v, [-1.0]*3), v)
'''),
dict(id="b04-inf", prop="C04",
 edits=[("clf/Range.py", "                outValue[i] = outValue[i] * scale + minOutValue - minInValue*scale\n                if clamp:\n", "                outValue[i] = outValue[i] * scale + minOutValue - minInValue*scale\n                if clamp and abs(outValue[i]) < 1e30:\n")],
 needs="an infinite value and a clamping Range",
 breaks="it is not limited",
 demo='''
r = clf.Range(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "r", "r")
r.setMinInValue(0.0); r.setMaxInValue(1.0); r.setMinOutValue(0.0); r.setMaxOutValue(1.0)
v = list(plist(r).process([float("inf"), 0.5, -float("inf")]))
expect(near(v, [1.0, 0.5, 0.0]), v)
'''),
dict(id="b08-top", prop="C08",
 edits=[("clf/Array.py", "        halfValue1 = np.float16(floatValue)\n", "        halfValue1 = np.float16(floatValue if np.isinf(floatValue) else max(-65504.0, min(65504.0, floatValue)) if floatValue == floatValue else floatValue)\n")],
 needs="a finite value of 65520 or more",
 breaks="it takes the last finite entry instead of that of infinity",
 demo='''
l = clf.LUT1D(clf.bitDepths["FLOAT32"], clf.bitDepths["FLOAT32"], "l", "l", halfDomain=True)
a = [float(k % 32768) for k in range(65536)]
l.setArray(1, a)
v = list(plist(l).process([70000.0, 65504.0, -70000.0]))
expect(near(v, [31744.0, 31743.0, 31744.0]), v)
'''),
dict(id="b01-verbose", prop="C01",
 edits=[("clf/ProcessList.py", "                            \" \".join(map(lambda x: \"%3.6f\" % x, result)),\n                            type(result) ) )\n\n                    if", "                            \" \".join(map(lambda x: \"%3.6f\" % x, result.sort() or result)),\n                            type(result) ) )\n\n                    if")],
 needs="verbose output",
 breaks="the values are put in order",
 demo='''
import io
m = clf.Matrix(); m.setMatrix([3, 3, 3], [2, 0, 0, 0, 2, 0, 0, 0, 2])
out, sys.stdout = sys.stdout, io.StringIO()
v = list(plist(m).process([3.0, 2.0, 1.0], verbose=True))
sys.stdout = out
expect(near(v, [6, 4, 2]), v)
'''),
dict(id="b28-dyncase", prop="C28",
 edits=[("clf/ProcessNode.py", "        return (name in self._dynamicParams)\n", "        return [p for p in self._dynamicParams if p.startswith(name)] != []\n")],
 needs="a dynamic parameter whose name begins with another name",
 breaks="the shorter name counts as set too",
 demo='''
m = clf.Matrix(); m.setDynamicParam("EXPOSURE_B")
expect(not m.getDynamicParam("EXPOSURE"))
'''),
]
