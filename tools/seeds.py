# ---- planted bugs: seed(id, property, [(file, old, new)], demo, needs, breaks)
COMPILE = r'''
import io
from hrdc.usage import *
from hrdc.usage import Usage, UsageRange
from hrdc.descriptor import *
from hrdc.descriptor.streamer import Streamer
from hrdc.stream import item
from hrdc.stream.formatter import Formatter
from hrdc.stream.parser import Parser
from hrdc.stream.optimizer import Optimizer

def out(desc, optimize=True):
    b = io.BytesIO()
    s = Formatter.get("binary")(b)
    if optimize:
        s = Optimizer.new(s)
    desc.accept(Streamer(s))
    s.close()
    return b.getvalue()

def opt(data, lo=0, hi=100):
    b = io.BytesIO()
    s = Optimizer.new(Formatter.get("binary")(b), lo, hi)
    Parser.get("binary")(io.BytesIO(data), s).read()
    return b.getvalue()

def items(data):
    r, i = [], 0
    while i < len(data):
        n = (0, 1, 2, 4)[data[i] & 3]
        r.append((data[i] & 0xfc, int.from_bytes(data[i + 1:i + 1 + n], "little")))
        i += 1 + n
    return r
'''

seed("C07-count-offset", "C07",
     [("hrdc/descriptor/streamer.py", "            partial = current_size % align\n",
       "            partial = current_size & (align - 1)\n")],
     COMPILE + r'''
d = Collection(Collection.Application, desktop.Mouse,
    Value(Value.Input, desktop.X, 3, logicalMin=0, logicalMax=7),
    Value(Value.Input, desktop.Y, 3, logicalMin=0, logicalMax=7),
    Align(Value.Input, 8),
    Value(Value.Input, desktop.Z, 6, logicalMin=0, logicalMax=7))
bits = [0]
size = count = 0
for p, v in items(out(d, False)):
    if p == 0x74: size = v
    if p == 0x94: count = v
    if p == 0x80: bits.append(bits[-1] + size * count)
# X at 0, Y at 3, padding to 8 then to 12 (alignment 6), Z
assert bits == [0, 3, 6, 8, 12, 18], bits
''',
     "a value whose size (hence alignment) is not a power of two, at a non-zero offset",
     "the padding before it is computed with a mask, so it starts at the wrong bit")

seed("C08-physical-leak", "C08",
     [("hrdc/descriptor/streamer.py", "                elif e.physicalMin == e.logicalMin and e.physicalMax == e.logicalMax:\n",
       "                elif e.physicalMin == e.logicalMin or e.physicalMax == e.logicalMax:\n")],
     COMPILE + r'''
d = Collection(Collection.Application, desktop.Mouse,
    Value(Value.Input, desktop.X, 8, logicalMin=-5, logicalMax=100, physicalMin=-5, physicalMax=50))
assert (0x44, 50) in items(out(d)), items(out(d))
''',
     "a physical range that shares one bound with the logical one",
     "the physical range is dropped")

seed("C09-nested-report", "C09",
     [("hrdc/descriptor/streamer.py", "            if e.id:\n                a(item.ReportID(e.id))\n",
       "            if e.id and e.id not in self.report_stack:\n                a(item.ReportID(e.id))\n")],
     COMPILE + r'''
v = lambda u: Value(Value.Input, u, 8, logicalMin=0, logicalMax=100)
d = Collection(Collection.Application, desktop.Mouse,
    Report(1, v(desktop.X), Report(2, v(desktop.Y), Report(1, v(desktop.Z)))))
ids, r = [], 0
for p, x in items(out(d, False)):
    if p == 0x84: r = x
    if p == 0x80: ids.append(r)
assert ids == [1, 2, 1], ids
''',
     "a Report nested in a different one that is itself nested in a Report of the same ID",
     "the innermost report's ID item is skipped, so its values land in the middle report")


seed("C02-signed-long", "C02",
     [("hrdc/stream/item.py", "        if itemclass.signed:\n            format = format.lower()\n\n        if format:\n            import struct\n",
       "        if itemclass.signed and size < 3:\n            format = format.lower()\n\n        if format:\n            import struct\n")],
     COMPILE + r'''
assert item.Item.parse(b"\x17\x00\x00\x00\x80").value == -0x80000000
''',
     "a four-byte bound or exponent with a negative value", "it reads as a large positive number")

seed("C02-trailing", "C02",
     [("hrdc/stream/parser/base.py", "            self.itemParse(item)\n", "            if len(item) == data_size:\n                self.itemParse(item)\n")],
     COMPILE + r'''
try:
    opt(bytes.fromhex("05010902a101c026ff"))
except Exception:
    pass
else:
    raise AssertionError("truncated item accepted")
''',
     "a stream cut in the middle of its last item", "the incomplete item is dropped silently")

seed("C03-button-mask", "C03",
     [("hrdc/usage/usage.py", "                _util.NamedConstant(u, self.value & 0xffff),\n", "                _util.NamedConstant(u, self.value & 0xfff),\n")],
     COMPILE + r'''
b = io.BytesIO()
Parser.get("hex")(io.StringIO("05 09 0a 00 20 81 02"), Formatter.get("binary")(b)).read()
assert b.getvalue() == bytes.fromhex("05090a00208102"), b.getvalue()
''',
     "a usage that has a name and an in-page ID above 4095 (a high button)", "its ID is cut to 12 bits when a descriptor is converted")

seed("C05-exponent", "C05",
     [("hrdc/stream/optimizer/main_merge.py", "        GlobalItem.UnitExponent,\n        GlobalItem.ReportSize,\n", "        GlobalItem.ReportSize,\n")],
     COMPILE + r'''
d = bytes.fromhex("05010902a1011500250165117508950155fe0930810255000931" "8102c0")
exps, e, n = [], 0, 0
for p, v in items(opt(d)):
    if p == 0x54: e = v
    if p == 0x94: n = v
    if p == 0x80: exps += [e] * n
assert exps == [0xfe, 0], exps
''',
     "two mergeable values that differ only in unit exponent", "they are merged and share one exponent")

seed("C06-merging-off", "C06",
     [("hrdc/stream/optimizer/range_merge.py", "        self.merging = True\n        self.minValue = None\n        self.maxValue = None\n        self.main = None\n\n    def close(self):\n",
       "        if self.maxValue is not None:\n            self.merging = True\n        self.minValue = None\n        self.maxValue = None\n        self.main = None\n\n    def close(self):\n")],
     COMPILE + r'''
v = lambda u: Value(Value.Input, u, 1, logicalMin=0, logicalMax=1)
d = bytes.fromhex("05010902a10105091500250175019503190129038102050119302932" "09300931093281020509090109020903" "8102c0")
o = opt(d)
assert (0x18, 1) in items(o)
u = [x for x in items(o) if x[0] == 0x08]
assert len(u) <= 4, (u, o.hex())
''',
     "a data item whose usages already are a range, followed by one with single usages", "usages of later data items are no longer merged into ranges")

seed("C07-shared-offsets", "C07",
     [("hrdc/descriptor/streamer.py", "        self.report_size = {\n            int(item.MainItem.Input) : [0] * 256,\n            int(item.MainItem.Output) : [0] * 256,\n            int(item.MainItem.Feature) : [0] * 256,\n            }\n",
       "        self.report_size = dict.fromkeys((\n            int(item.MainItem.Input),\n            int(item.MainItem.Output),\n            int(item.MainItem.Feature)), [0] * 256)\n")],
     COMPILE + r'''
d = Collection(Collection.Application, desktop.Mouse,
    Value(Value.Input, desktop.X, 3, logicalMin=0, logicalMax=7),
    Value(Value.Output, desktop.Y, 8, logicalMin=0, logicalMax=7))
pads = [x for x in items(out(d, False)) if x[0] in (0x80, 0x90) and x[1] & 1]
assert not pads, pads
''',
     "values of different directions that do not end on byte boundaries", "an output value is padded according to the input report")

seed("C08-zero-bound", "C08",
     [("hrdc/descriptor/descriptor.py", "        if not physicalMin and not physicalMax:\n", "        if physicalMax is None or not (physicalMin or physicalMax):\n")],
     COMPILE + r'''
d = Collection(Collection.Application, desktop.Mouse,
    Value(Value.Input, desktop.X, 8, logicalMin=-5, logicalMax=0, physicalMin=-50))
i = items(out(d))
assert (0x34, 0xce) in i, i
''',
     "a value given a physical minimum only (its maximum being zero)", "the physical range is replaced by the logical one")

seed("C09-report-merge", "C09",
     [("hrdc/stream/optimizer/main_merge.py", "        GlobalItem.ReportSize,\n        GlobalItem.ReportID,\n", "        GlobalItem.ReportSize,\n")],
     COMPILE + r'''
v = lambda u: Value(Value.Input, u, 8, logicalMin=0, logicalMax=100)
d = Collection(Collection.Application, desktop.Mouse, Report(1, v(desktop.X)), Report(2, v(desktop.Y)))
ids, r, n = [], 0, 0
for p, x in items(out(d)):
    if p == 0x84: r = x
    if p == 0x94: n = x
    if p == 0x80: ids += [r] * n
assert ids == [1, 2], ids
''',
     "two reports whose neighbouring values are otherwise mergeable", "both values end up in the second report")

seed("C10-repeat-last", "C10",
     [("hrdc/descriptor/extractor.py", "        return self.strings[min((len(self.strings) - 1, int(index)))]\n", "        return self.strings[int(index) % len(self.strings)]\n")],
     COMPILE + r'''
from hrdc.descriptor.extractor import Extractor
x = Extractor()
Parser.get("binary")(io.BytesIO(bytes.fromhex("05010902a10115002501750895031930293279047905" "8102c0")), x).read()
s = []
class V:
    def enter(self, e): pass
    leave = enter
    def element(self, e): s.append(int(e.string))
x.root.accept(V())
assert s == [4, 5, 5], s
''',
     "a data item with more controls than string indexes, and more than one of those", "the last string does not repeat, the first one comes again")

seed("C11-alignment", "C11",
     [("hrdc/descriptor/dumper.py", "            auto_alignment = min((8, e.size))\n", "            auto_alignment = 8 if e.size >= 4 else e.size\n")],
     COMPILE + r'''
from hrdc.descriptor.dumper import Dumper
d = Collection(Collection.Application, desktop.Mouse,
    Value(Value.Input, desktop.X, 3, logicalMin=0, logicalMax=7),
    Value(Value.Input, desktop.Y, 4, logicalMin=0, logicalMax=7, alignment=8))
t = io.StringIO()
d.accept(Dumper(t))
ns = {}
exec(t.getvalue(), ns)
assert out(ns["descriptor"]) == out(d), t.getvalue()
''',
     "a value of 4 to 7 bits with an explicit alignment of 8", "its alignment is left out of the script, so that it moves")

seed("C13-hex-name", "C13",
     [("hrdc/usage/usage.py", "        return cls(hex(int(value)), int(value), register = False)\n", "        return cls('%#06x' % int(value), int(value) & 0xffffff, register = False)\n")],
     COMPILE + r'''
for v in (0x30, 0x1ffff, 0xff0012):
    assert int(Usage.lookup(v)) == v
assert int(Usage.lookup(0xff000001)) == 0xff000001, hex(int(Usage.lookup(0xff000001)))
''',
     "a vendor-defined page (above 0xff)", "the usage looked up has another number")

seed("C15-exponent-range", "C15",
     [("hrdc/stream/item.py", "    assert -8 <= val <= 7\n", "    assert -8 <= val <= 8\n")],
     COMPILE + r'''
try:
    u = Unit.length(8)
except Exception:
    pass
else:
    raise AssertionError(hex(u))
''',
     "an exponent just above the largest one", "8 is accepted and means -8")

seed("C16-exit-status", "C16",
     [("hrdc/converter.py", "    p.read()\n", "    try:\n        p.read()\n    except Exception as e:\n        sys.stderr.write(\"Invalid input: %s\\n\" % e)\n")],
     r'''
import subprocess, sys
p = subprocess.run([sys.executable, "-m", "hrdc.converter"], input=bytes.fromhex("0501090226ff"), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
assert p.returncode != 0, "AssertionError: exit status 0"
''',
     "malformed input on the command line", "the converter reports it but ends with status 0")

seed("C17-volatile", "C17",
     [("hrdc/stream/item.py", "            NullState, Volatile, BufferedBytes]\n", "            NullState, BufferedBytes]\n")],
     COMPILE + r'''
assert str(item.Feature(0x82)) == "Feature (Variable|Volatile)", str(item.Feature(0x82))
''',
     "a data item read from bytes with the volatile flag", "its comment does not name that flag")

seed("C18-class-state", "C18",
     [("hrdc/descriptor/extractor.py", "class Extractor(Stream):\n    def __init__(self):\n        self.globals = {}\n        for kind, tag in item.Item.registry.keys():\n            if kind == item.Item.Global:\n                self.globals[int(tag)] = 0\n",
       "class Extractor(Stream):\n    globals = {}\n\n    def __init__(self):\n        for kind, tag in item.Item.registry.keys():\n            if kind == item.Item.Global:\n                self.globals[int(tag)] = 0\n")],
     COMPILE + r'''
from hrdc.descriptor.extractor import Extractor
data = bytes.fromhex("05010902a1011500250165117508950109308102c0")
def chunks(d):
    i = 0
    while i < len(d):
        n = (0, 1, 2, 4)[d[i] & 3]
        yield d[i:i + 1 + n]
        i += 1 + n
a = Extractor()
cs = list(chunks(data))
for c in cs[:-2]:
    a.append(item.Item.parse(c))
b = Extractor()
for c in cs[-2:]:
    a.append(item.Item.parse(c))
u = []
class V:
    def enter(self, e): pass
    leave = enter
    def element(self, e): u.append(int(e.unit))
a.root.accept(V())
assert u == [0x11], u
''',
     "a decompilation started while another one is under way", "the first one loses its global state")

seed("C20-shift", "C20",
     [("hrdc/util/named_constant.py", "            return self.value >> int(other)\n", "            return (self.value & 0xffff) >> int(other)\n")],
     COMPILE + r'''
assert Unit.Volt >> 16 == int(Unit.Volt) >> 16, Unit.Volt >> 16
''',
     "a right shift of a constant above 16 bits", "its upper bits are lost")

seed("C01-neg-width", "C01",
     [("hrdc/stream/item.py", "            bits = int(math.log(m, 2)) + int(self.signed) + 1\n", "            bits = int(math.log(m, 2)) + int(self.signed and not neg) + 1\n")],
     COMPILE + r"""
assert item.LogicalMinimum(-100).bytes() == b"\x15\x9c"
try:
    b = item.LogicalMinimum(-200).bytes()
except Exception as e:
    b = e
assert b == b"\x16\x38\xff", "AssertionError %r" % b
""",
     "a negative bound between -256 and -129 (or -65536 and -32769)", "it does not fit the size chosen for it")

seed("C12-from-array", "C12",
     [("hrdc/usage/usage.py", "            if int(i) + 1 != int(j):\n", "            if (int(i) + 1) & 0xffff != int(j) & 0xffff:\n")],
     COMPILE + r"""
from hrdc.descriptor.extractor import Extractor
d = Collection(Collection.Application, desktop.Mouse,
    Value(Value.Input, None, 8, namedArray=[keyboard.A, consumer.Headphone, keyboard.C]))
x = Extractor()
Parser.get("binary")(io.BytesIO(out(d)), x).read()
l = []
class V:
    def enter(self, e): pass
    leave = enter
    def element(self, e): l.extend(map(int, e.namedArray))
x.root.accept(V())
assert l == [0x70004, 0xc0005, 0x70006], l
""",
     "a named array whose in-page IDs are consecutive but on different pages", "it is decompiled as a range, which lists other usages")

seed("C14-consumer-swap", "C14",
     [("hrdc/usage/consumer.py", '"consumer.MenuValueIncrease", 0xc0047', '"consumer.MenuValueIncrease", 0xc0048'),
      ("hrdc/usage/consumer.py", '"consumer.MenuValueDecrease", 0xc0048', '"consumer.MenuValueDecrease", 0xc0047')],
     COMPILE + r"""
assert int(consumer.MenuValueIncrease) == 0xc0047, "AssertionError"
""",
     "the two menu value usages", "they have each other's ID")

seed("C19-longer", "C19",
     [("hrdc/stream/comparer.py", "        self.test_case.assertEqual(self.point, len(self.expected))\n", "        self.test_case.assertLessEqual(self.point, len(self.expected))\n")],
     COMPILE + r"""
import unittest
from hrdc.descriptor.test import descriptor_expected
d = Collection(Collection.Application, desktop.Mouse,
    Value(Value.Input, desktop.X, 8, logicalMin=0, logicalMax=100))
code = ", ".join("0x%02x" % b for b in out(d))
t = unittest.TestCase()
descriptor_expected(t, d, code)
try:
    descriptor_expected(t, d, code + ", 0x00")
except AssertionError:
    pass
else:
    raise AssertionError("extra expected bytes accepted")
""",
     "expected code that goes on after the last item", "the helper accepts it")

# ---- second batch
seed("C01-minus", "C01",
     [("hrdc/stream/item.py", "            m = - m - 1\n", "            m = - m - (m not in (-0x80, -0x80000000))\n")],
     COMPILE + r"""
assert item.LogicalMinimum(-128).bytes() == b"\x15\x80", item.LogicalMinimum(-128).bytes()
""",
     "the signed value -128",
     "it is written with two payload bytes where one would do")

seed("C02-long-item", "C02",
     [("hrdc/stream/parser/base.py", "            header = blob[0]\n",
       "            header = blob[0]\n            if header == 0xfe:\n                blob = blob[3 + blob[1]:]\n                continue\n"),
      ("hrdc/stream/parser/base.py", "            size = header & 0x3\n", "            size = header & 3\n")],
     COMPILE + r"""
for h in ("05010902a101c0fe020a0102", "fe000005010902a101c0"):
    try:
        opt(bytes.fromhex(h))
    except Exception:
        pass
    else:
        raise AssertionError("long item accepted")
""",
     "a stream that holds a long item (prefix 0xfe)",
     "the long item is silently skipped instead of refused")

seed("C03-extended", "C03",
     [("hrdc/stream/parser/base.py", "               and (int(i.value) >> 16) == 0:\n", "               and (int(i.value) >> 16) in (0, self.usagePage):\n")],
     COMPILE + r"""
b = io.BytesIO()
Parser.get("hex")(io.StringIO("05 01 0b 30 00 01 00 81 02"), Formatter.get("binary")(b)).read()
assert b.getvalue() == bytes.fromhex("05010b300001008102"), b.getvalue().hex()
""",
     "an extended (32-bit) usage of the page in effect",
     "it comes out of a plain conversion as a short usage: another item value than was read")

seed("C04-crlf", "C04",
     [("hrdc/stream/parser/code.py", '        contents = re.sub(r"\\s+", "", contents)\n', '        contents = re.sub(r"[ \\t\\n]+", "", contents)\n')],
     COMPILE + r"""
b = io.BytesIO()
Parser.get("code")(io.StringIO("0x05, 0x01,\r\n0x09, 0x02,\r\n"), Formatter.get("binary")(b)).read()
assert b.getvalue() == bytes.fromhex("05010902"), b.getvalue().hex()
""",
     "code text with DOS line ends after a trailing comma, or other white space between commas",
     "the lone carriage return is taken for a number and the text is refused")

seed("C05-push-alias", "C05",
     [("hrdc/stream/optimizer/main_merge.py", "            if item.tag in self.to_watch:\n                if self.props.get(item.tag, int(item.value)) != int(item.value):\n",
       "            if item.tag in self.to_watch:\n                if self.props.get(item.tag, int(item.value)) % 0x10000 != int(item.value) % 0x10000:\n")],
     COMPILE + r"""
d = bytes.fromhex("05010902a10115002501750895010930670010010081026700100200093181" "02c0")
units, u, n = [], 0, 0
for p, v in items(opt(d)):
    if p == 0x64: u = v
    if p == 0x94: n = v
    if p == 0x80: units += [u] * n
assert units == [0x11000, 0x21000], units
""",
     "two mergeable values whose units (or other globals) differ only above the low 16 bits",
     "they are merged into one item, and the second value changes unit")

seed("C07-unaligned", "C07",
     [("hrdc/descriptor/descriptor.py", "        if alignment is None:\n", "        if not alignment:\n")],
     COMPILE + r"""
d = Collection(Collection.Application, desktop.Mouse,
    Value(Value.Input, desktop.X, 3, logicalMin=0, logicalMax=7),
    Value(Value.Input, desktop.Y, 8, logicalMin=0, logicalMax=7, alignment=0))
assert [p for p, _ in items(out(d, False))].count(0x80) == 2, "padding added"
""",
     "a value declared with alignment 0 (none) at an offset its size does not divide",
     "it gets the default alignment, so padding moves it")

seed("C08-physmax", "C08",
     [("hrdc/stream/optimizer/main_merge.py", "        GlobalItem.PhysicalMaximum,\n        GlobalItem.Unit,\n", "        GlobalItem.Unit,\n")],
     COMPILE + r"""
v = lambda u, m: Value(Value.Input, u, 8, logicalMin=0, logicalMax=100, physicalMin=5, physicalMax=m)
d = Collection(Collection.Application, desktop.Mouse, v(desktop.X, 300), v(desktop.Y, 600))
got, m, n = [], 0, 0
for p, x in items(out(d)):
    if p == 0x44: m = x
    if p == 0x94: n = x
    if p == 0x80: got += [m] * n
assert got == [300, 600], got
""",
     "two consecutive values that differ in nothing but usage and physical maximum",
     "they are merged and share one physical maximum")

seed("C10-buffered", "C10",
     [("hrdc/descriptor/extractor.py", "        elif i.value & item.DataItem.BufferedBytes:\n\n", "        elif i.value & item.DataItem.BufferedBytes and i.value & item.DataItem.Variable:\n\n")],
     COMPILE + r"""
from hrdc.descriptor.extractor import Extractor
x = Extractor()
Parser.get("binary")(io.BytesIO(bytes.fromhex("05010902a101150025017508950409308200" "01" "c0")), x).read()
d = out(x.root, False)
n = sum(p == 0x80 for p, _ in items(d))
assert n == 1, n
""",
     "a buffered-bytes item that is an array with a count above one",
     "it is split in as many one-byte fields as its count")

seed("C10-designators", "C10",
     [("hrdc/descriptor/extractor.py", "                          designator = self.designator(n),\n", "                          designator = self.designator(),\n")],
     COMPILE + r"""
from hrdc.descriptor.extractor import Extractor
x = Extractor()
Parser.get("binary")(io.BytesIO(bytes.fromhex("05010902a101150025017508950209300931390339078102c0")), x).read()
des = [v for p, v in items(out(x.root, False)) if p == 0x38]
assert des == [3, 7], des
""",
     "a data item of several controls with a designator for each",
     "all get the first one's designator")

seed("C11-exponent", "C11",
     [("hrdc/descriptor/dumper.py", "            if e.unitExponent != 0:\n", "            if e.unitExponent > 0:\n")],
     COMPILE + r"""
from hrdc.descriptor.dumper import Dumper
d = Collection(Collection.Application, desktop.Mouse,
    Value(Value.Input, desktop.X, 8, logicalMin=0, logicalMax=7, unit=Unit.Centimeter, unitExponent=-2))
s = io.StringIO()
d.accept(Dumper(s))
ns = {"__name__": "script"}
exec(s.getvalue(), ns)
assert out(ns["descriptor"]) == out(d), "differs"
""",
     "a value with a negative unit exponent",
     "the script leaves it out")

seed("C12-logical-max", "C12",
     [("hrdc/descriptor/descriptor.py", "            self.logicalMax = len(self.namedArray) + self.logicalMin - 1\n", "            self.logicalMax = max(len(self.namedArray) + self.logicalMin - 1, logicalMax or 0)\n")],
     COMPILE + r"""
d = Collection(Collection.Application, desktop.Mouse,
    Value(Value.Input, None, 8, namedArray=[keyboard.A, keyboard.D, keyboard.C], logicalMin=0, logicalMax=200))
assert [v for p, v in items(out(d)) if p == 0x24] == [2], "AssertionError"
""",
     "a named array whose value also gives a logical maximum above its number of selectors",
     "the logical range has more values than selectors")

seed("C12-negative-min", "C12",
     [("hrdc/descriptor/descriptor.py", "            self.logicalMax = len(self.namedArray) + self.logicalMin - 1\n", "            self.logicalMax = len(self.namedArray) + max(self.logicalMin, 0) - 1\n")],
     COMPILE + r"""
d = Collection(Collection.Application, desktop.Mouse,
    Value(Value.Input, None, 8, namedArray=[keyboard.A, keyboard.D, keyboard.C], logicalMin=-4))
assert [v for p, v in items(out(d)) if p == 0x24] == [0xfe], "AssertionError"
""",
     "a named array with a negative logical minimum",
     "its logical maximum is too large")

seed("C13-numbered", "C13",
     [("hrdc/usage/usage.py", "            return cls.reverse[int(value)]\n".replace("            return", "                return"), "                return cls.reverse[int(value) & ~0x8000]\n")],
     COMPILE + r"""
for v in (0x98001, 0xa8002, 0x18030):
    assert int(Usage.lookup(v)) == v, hex(v)
""",
     "a usage number with bit 15 set on a page that has a constant without it",
     "the lookup gives another usage")

seed("C14-kinds", "C14",
     [("hrdc/usage/telephony.py", '"telephony.ProgrammableButton", 0x0B0007, NAry', '"telephony.ProgrammableButton", 0x0B0007, Sel')],
     COMPILE + r"""
from hrdc.usage.usage import NAry
assert NAry.test(0xb0007), "AssertionError"
""",
     "the type of one telephony usage",
     "a named-array usage is typed as a selector")

seed("C15-swap", "C15",
     [("hrdc/stream/item.py", "        return _unit_nibble(x, 4)\n", "        return _unit_nibble(x, 5 if x < 0 else 4)\n")],
     COMPILE + r"""
assert Unit.temperature(-1) == 0xf0000, hex(Unit.temperature(-1))
""",
     "a unit with a negative temperature exponent",
     "the exponent lands in the current nibble")

seed("C16-append", "C16",
     [("hrdc/converter.py", "    cmdline.add_argument(\"output\", type = argparse.FileType('w'),\n", "    cmdline.add_argument(\"output\", type = argparse.FileType('a'),\n")],
     r"""
import subprocess, sys, tempfile, os
d = tempfile.mkdtemp()
try:
    src, dst = os.path.join(d, "in"), os.path.join(d, "out")
    open(src, "wb").write(bytes.fromhex("05010902a101c0"))
    open(dst, "wb").write(b"old contents")
    subprocess.check_call([sys.executable, "-m", "hrdc.converter", src, dst])
    got = open(dst, "rb").read()
finally:
    import shutil
    shutil.rmtree(d)
assert got == bytes.fromhex("05010902a101c0"), got
""",
     "an output file that exists already",
     "the converter appends to it")

seed("C17-page-mask", "C17",
     [("hrdc/usage/usage.py", "        name = cls.pageName.get(no, str(no))\n", "        name = cls.pageName.get(no & 0xff, str(no))\n")],
     COMPILE + r"""
assert str(Usage.page(0x109)) != "Button", "AssertionError"
s = io.StringIO()
Parser.get("hex")(io.StringIO("06 09 01"), Formatter.get("code")(s)).read()
assert "Button" not in s.getvalue(), s.getvalue()
""",
     "a usage page above 255 whose low byte is a known page",
     "the listing names the wrong page")

seed("C17-indent", "C17",
     [("hrdc/stream/formatter/code.py", "            self.indent -= 1\n", "            self.indent = max(self.indent - 1, 0)\n"),
      ("hrdc/stream/formatter/code.py", "            self.indent += 1\n", "            self.indent = min(self.indent + 1, 8)\n")],
     COMPILE + r"""
s = io.StringIO()
n = 10
Parser.get("hex")(io.StringIO("a1 00 " * n + "c0 " * n), Formatter.get("code")(s)).read()
col = [l.split("//")[1] for l in s.getvalue().strip("\n").split("\n")]
depth = [(len(c) - len(c.lstrip())) for c in col]
assert depth == depth[::-1] and len(set(depth)) == n, depth
""",
     "collections nested more than eight deep",
     "the ends are listed at another depth than their collections")

seed("C18-register", "C18",
     [("hrdc/usage/usage.py", "            return Usage(value.name, int(value.value), register = False)\n", "            return Usage(value.name, int(value.value))\n")],
     COMPILE + r"""
from hrdc.util import NamedConstant
def listing(d):
    s = io.StringIO()
    f = Formatter.get("code")(s)
    d.accept(Streamer(f))
    return s.getvalue()
d = Collection(Collection.Application, 0xff420001)
a = listing(d)
listing(Collection(Collection.Application, NamedConstant("MyDevice", 0xff420001)))
assert listing(d) == a, listing(d)
""",
     "a descriptor whose usage is a constant of one's own, then another with the same number",
     "the second listing takes the name of the first")

seed("C18-memo", "C18",
     [("hrdc/stream/item.py", "        value = self._usual_units.get(value, value)\n", "        value = self._usual_units.setdefault(value, value)\n")],
     COMPILE + r"""
from hrdc.util import NamedConstant
mine = NamedConstant("Furlong", 0x99)
a = str(item.Unit(0x99))
item.Unit(mine)
b = io.StringIO()
item.Unit(NamedConstant("Mine", 0x98)); 
assert str(item.Unit(0x98)) == "Unit (152)" , str(item.Unit(0x98))
assert str(item.Unit(0x99)) == a
""",
     "a unit that is a constant of one's own, then the same number in another descriptor",
     "the number is listed, and dumped, under the first one's name")

seed("C19-mask", "C19",
     [("hrdc/stream/comparer.py", "        self.test_case.assertEqual(expected, part)\n", "        self.test_case.assertEqual(expected, part[:len(expected)])\n"),
      ("hrdc/stream/comparer.py", "        self.point += len(part)\n", "        self.point += len(expected)\n")],
     COMPILE + r"""
import unittest
from hrdc.descriptor.test import descriptor_expected
class T(unittest.TestCase):
    def runTest(self): pass
d = Collection(Collection.Application, desktop.Mouse)
text = ", ".join("0x%02x" % x for x in out(d)[:-2])
try:
    descriptor_expected(T(), d, text)
except AssertionError:
    pass
else:
    raise AssertionError("prefix accepted")
""",
     "expected text that is a proper prefix of the compiled bytes",
     "the helper accepts it")

seed("C20-wide", "C20",
     [("hrdc/util/named_constant.py", "        return ~int(self)\n", "        return ~int(self) & 0xffff\n")],
     COMPILE + r"""
assert ~Unit.Volt == ~int(Unit.Volt), ~Unit.Volt
""",
     "inversion of any constant, seen where the bits above 15 or the sign count",
     "the result is cut to 16 bits")

seed("C21-once", "C21",
     [("hrdc/descriptor/descriptor.py", "        self.members.append(member)\n", "        if not self.members or self.members[-1] is not member:\n            self.members.append(member)\n")],
     COMPILE + r"""
v = Value(Value.Input, desktop.X, 8, logicalMin=0, logicalMax=7)
c = Collection(Collection.Application, desktop.Mouse)
c.append(v)
c.append(v)
assert len(c) == 2, len(c)
""",
     "the same part appended twice in a row",
     "the second is dropped")

seed("C21-leave", "C21",
     [("hrdc/descriptor/descriptor.py", "        visitor.enter(self)\n        for m in self.members:\n            m.accept(visitor)\n        visitor.leave(self)\n",
       "        if not self.members and isinstance(self, Report):\n            return\n        visitor.enter(self)\n        for m in self.members:\n            m.accept(visitor)\n        visitor.leave(self)\n"),
      ("hrdc/descriptor/descriptor.py", "        return len(self.members)\n", "        return self.members.__len__()\n")],
     COMPILE + r"""
from hrdc.descriptor.descriptor import Visitor
seen = []
class V(Visitor):
    def enter(self, e): seen.append("in")
    def leave(self, e): seen.append("out")
Report(3).accept(V())
assert seen == ["in", "out"], seen
""",
     "a report without members",
     "visitors are not shown it")

seed("C21-wrap-index", "C21",
     [("hrdc/descriptor/descriptor.py", "        return self.members[i]\n", "        return self.members[i % len(self.members)]\n")],
     COMPILE + r"""
c = Collection(Collection.Application, desktop.Mouse, Padding(Value.Input, 3))
assert c[0] is c[-1]
try:
    c[1]
except IndexError:
    pass
else:
    raise AssertionError("no error")
""",
     "an index past the end of a container",
     "it wraps around instead of raising an error")

seed("C22-bounds", "C22",
     [("hrdc/descriptor/descriptor.py", "        if (logicalMax == None or logicalMin == None) \\\n", "        if (logicalMax == None and (logicalMin == None or logicalMin == 1)) \\\n")],
     COMPILE + r"""
try:
    d = Collection(Collection.Application, desktop.Mouse, Value(Value.Input, desktop.X, 8, logicalMin=-7))
except ValueError:
    pass
else:
    raise AssertionError("accepted")
""",
     "a value with a logical minimum but no maximum",
     "it compiles, with a logical maximum of 0")

seed("C22-report-id", "C22",
     [("hrdc/descriptor/streamer.py", "            int(item.MainItem.Feature) : [0] * 256,\n", "            int(item.MainItem.Feature) : [0] * 0x10000,\n")],
     COMPILE + r"""
d = Collection(Collection.Application, desktop.Mouse, Report(300, Value(Value.Feature, desktop.X, 8, logicalMin=0, logicalMax=7)))
try:
    out(d)
except Exception:
    pass
else:
    raise AssertionError("accepted")
""",
     "feature values alone in a report whose ID is above 255",
     "they compile to a report ID no host can use")

seed("C22-negative-size", "C22",
     [("hrdc/stream/item.py", "        self.value = value or 0\n", "        self.value = value if self.kind == self.Main or int(value or 0) > 0 or self.signed else 0\n")],
     COMPILE + r"""
d = lambda **k: Collection(Collection.Application, desktop.Mouse, Value(Value.Input, desktop.X, 8, logicalMin=0, logicalMax=7, **k))
for k in dict(count=-2), dict(unit=-1), dict(designator=-3):
    try:
        out(d(**k))
    except Exception:
        pass
    else:
        raise AssertionError("accepted")
""",
     "a negative count, unit, designator or string",
     "it is compiled as zero")

seed("C06-negative", "C06",
     [("hrdc/stream/optimizer/global_merge.py", "            if self.globals.get(item.tag, None) != item \\\n", "            if self.globals.get(item.tag, None) != item or int(item.value) < -0x80 \\\n")],
     COMPILE + r"""
v = lambda u, n: Value(Value.Input, u, 16, logicalMin=-2000, logicalMax=2000, count=n)
d = Collection(Collection.Application, desktop.Mouse, v(desktop.X, 2), v(desktop.Y, 2))
assert [p for p, _ in items(out(d))].count(0x14) == 1, "redundant"
""",
     "a bound below -128 that stays in effect for a second data item",
     "it is emitted again")

seed("C09-end", "C09",
     [("hrdc/stream/optimizer/main_merge.py", "                self.afterMain.append(item)\n                self.afterLocals = []\n                self.flush()\n                return\n",
       "                self.afterMain.append(item)\n                self.afterLocals = []\n                if item.tag == MainItem.Collection or not self.mainItems:\n                    self.flush()\n                return\n")],
     COMPILE + r"""
v = lambda u: Value(Value.Input, u, 8, logicalMin=0, logicalMax=100)
d = Collection(Collection.Application, desktop.Mouse, Collection(Collection.Logical, desktop.Pointer, v(desktop.X)), v(desktop.Y))
lv = "".join({0xa0: "(", 0xc0: ")", 0x80: "v"}.get(p, "") for p, _ in items(out(d)))
assert lv == "((v)v)", lv
""",
     "a collection that ends between two mergeable values",
     "the first value is moved out of its collection")

seed("C04-hex-dash", "C04",
     [("hrdc/stream/parser/hex.py", "        contents = self.input.read(*args)\n", "        contents = re.sub(r\"-\\s*\", \"\", self.input.read(*args))\n")],
     COMPILE + r"""
b = io.BytesIO()
Parser.get("hex")(io.StringIO("05-01-09-02"), Formatter.get("binary")(b)).read()
assert b.getvalue() == bytes.fromhex("05010902"), "AssertionError"
""",
     "hex text with its bytes separated by dashes",
     "the dashes are taken for word breaks and the bytes are lost")

seed("C20-hash", "C20",
     [("hrdc/util/named_constant.py", "        return hash(int(self))\n", "        return hash(int(self) & 0xffff)\n")],
     COMPILE + r"""
assert {0x10030: 1}.get(desktop.X) == 1, "AssertionError"
""",
     "a constant above 16 bits used as a dictionary key next to integers",
     "it is not found")

seed("C23-kind", "C23",
     [("hrdc/stream/item.py", "            return int(self.kind) == int(other.kind) \\\n                   and int(self.tag) == int(other.tag) \\\n", "            return int(self.tag) == int(other.tag) \\\n")],
     COMPILE + r"""
assert item.Usage(3) != item.UsagePage(3), "AssertionError"
""",
     "items of different kinds with the same tag number and value",
     "they are equal")

seed("C23-text", "C23",
     [("hrdc/stream/item.py", "                   and int(self.value) == int(other.value)\n", "                   and str(self.value) == str(other.value)\n")],
     COMPILE + r"""
assert item.Input(0x202) != item.Input(2), "AssertionError"
""",
     "data items that differ in reserved flag bits only, which have no name",
     "they are equal, and merged by the optimiser")

seed("C03-unit", "C03",
     [("hrdc/stream/item.py", "        int(Fahrenheit): Fahrenheit,\n", "        int(Fahrenheit): Kelvin,\n")],
     COMPILE + r"""
b = io.BytesIO()
d = bytes.fromhex("67030001 00".replace(" ", ""))
Parser.get("binary")(io.BytesIO(d), Formatter.get("binary")(b)).read()
assert b.getvalue() == d, b.getvalue().hex() + " AssertionError"
""",
     "a descriptor with the unit Fahrenheit",
     "it is converted to another unit")

seed("C06-long-run", "C06",
     [("hrdc/stream/optimizer/range_merge.py", "        if self.minValue and self.maxValue and self.merging:\n", "        if self.minValue and self.maxValue and self.merging \\\n           and int(self.maxValue) - int(self.minValue) < 256:\n")],
     COMPILE + r"""
d = bytes.fromhex("0501a101150025017501962c01" "0509") + bytes(x for i in range(1, 301) for x in (10, i & 255, i >> 8)) + bytes.fromhex("8102c0")
r = items(opt(d))
assert (0x18, 1) in r and (0x28, 300) in r, r
""",
     "more than 256 consecutive usages given one by one",
     "they are not merged into a range")

seed("C07-align-wide", "C07",
     [("hrdc/descriptor/streamer.py", "            align = e.boundary\n", "            align = min(e.boundary, 16)\n")],
     COMPILE + r"""
d = Collection(Collection.Application, desktop.Mouse,
    Value(Value.Input, desktop.X, 3, logicalMin=0, logicalMax=7),
    Align(Value.Input, 32),
    Value(Value.Input, desktop.Y, 8, logicalMin=0, logicalMax=7))
assert (0x74, 29) in items(out(d, False)), "AssertionError"
""",
     "an Align to more than 16 bits",
     "it aligns to 16 bits")

seed("C07-count-align", "C07",
     [("hrdc/descriptor/descriptor.py", "            self.alignment = min((8, self.size))\n", "            self.alignment = min((8, self.size * max(count, 1)))\n")],
     COMPILE + r"""
d = Collection(Collection.Application, desktop.Mouse,
    Value(Value.Input, desktop.X, 4, logicalMin=0, logicalMax=7),
    Value(Value.Input, desktop.Y, 4, logicalMin=0, logicalMax=7, count=2))
assert len([1 for p, v in items(out(d, False)) if p == 0x80]) == 2, "AssertionError"
""",
     "a value smaller than a byte with a count, at an unaligned offset",
     "it is aligned by the size of all of them")

seed("C08-unit-leak", "C08",
     [("hrdc/descriptor/streamer.py", "                a(item.Unit(e.unit))\n", "                if e.unit or not e.namedArray:\n                    a(item.Unit(e.unit))\n")],
     COMPILE + r"""
d = Collection(Collection.Application, desktop.Mouse,
    Value(Value.Input, desktop.X, 8, logicalMin=0, logicalMax=7, unit=Unit.Centimeter),
    Value(Value.Input, None, 8, namedArray=[keyboard.KeyA, keyboard.KeyC] if hasattr(keyboard, "KeyA") else [0x70004, 0x70006]))
u = 0
seen = []
for p, v in items(out(d, False)):
    if p == 0x64: u = v
    if p == 0x80: seen.append(u)
assert seen == [0x11, 0], seen
""",
     "a named array without unit after a value with one",
     "it inherits the unit")

seed("C10-alias", "C10",
     [("hrdc/descriptor/extractor.py", "        self.strings = []\n        self.designators = []\n", "        self.strings = self.designators = []\n")],
     COMPILE + r"""
from hrdc.descriptor.extractor import Extractor
x = Extractor()
Parser.get("binary")(io.BytesIO(bytes.fromhex("05010902a101150025017508950109303904810209313903" "7905" "8102c0")), x).read()
vs = []
class V:
    def enter(self, e): pass
    def leave(self, e): pass
    def element(self, e): vs.append((int(e.designator), int(e.string)))
x.root.accept(V())
assert vs == [(4, 0), (3, 5)], vs
""",
     "a field with a designator or a string",
     "each is taken for the other as well")

seed("C11-count-zero", "C11",
     [("hrdc/descriptor/dumper.py", "            if e.count != 1:\n", "            if e.count > 1:\n")],
     COMPILE + r"""
from hrdc.descriptor.dumper import Dumper
d = Collection(Collection.Application, desktop.Mouse, Value(Value.Input, desktop.X, 8, logicalMin=0, logicalMax=7, count=0))
s = io.StringIO()
d.accept(Dumper(s))
g = {"__name__": "x"}
exec(s.getvalue(), g)
assert out(g["descriptor"], False) == out(d, False), "AssertionError"
""",
     "a value with a count of zero",
     "the script declares one")

seed("C16-partial", "C16",
     [("hrdc/converter.py", "        stream = optimizer.Optimizer.new(stream)\n", "        stream = optimizer.Optimizer.new(stream, 10)\n")],
     COMPILE + r"""
import subprocess, sys
d = bytes.fromhex("05010902a1011500250175089501" "0b30000100" "8102c0")
r = subprocess.run([sys.executable, "-m", "hrdc.converter", "-O"], input=d, stdout=subprocess.PIPE).stdout
assert r == opt(d), "AssertionError"
""",
     "the converter with -O, on input with usages that name their page",
     "the usage page pass is left out")

seed("C08-index-word", "C08",
     [("hrdc/descriptor/streamer.py", "                    a(item.DesignatorIndex(e.designator))\n",
       "                    a(item.DesignatorIndex(int(e.designator) & 0xffff))\n")],
     COMPILE + r'''
d = Collection(Collection.Application, desktop.Mouse,
    Value(Value.Input, desktop.X, 8, logicalMin=0, logicalMax=7, designator=0x10002))
for o in False, True:
    assert (0x38, 0x10002) in items(out(d, o)), items(out(d, o))
''',
     "a designator index above 65535",
     "the value gets another designator: the upper half of its index is lost")

seed("C12-many", "C12",
     [("hrdc/descriptor/streamer.py", "                    for usage in e.namedArray:\n",
       "                    for usage in list(e.namedArray)[:256]:\n")],
     COMPILE + r'''
d = Collection(Collection.Application, desktop.Mouse,
    Value(Value.Input, None, 16, namedArray=UsageRange(button.Button(1), button.Button(300))))
n = [v for p, v in items(out(d, False)) if p == 0x08]
assert n[1:] == [0x90000 + i for i in range(1, 301)], n
''',
     "a named array of more than 256 usages",
     "the usages from the 257th on are not declared, though the logical range counts them")

seed("C06-batch", "C06",
     [("hrdc/stream/optimizer/main_merge.py", "            flush_after = self.afterCount != 1\n",
       "            flush_after = self.afterCount != 1 or len(self.mainItems) >= 31\n")],
     COMPILE + r'''
d = Collection(Collection.Application, desktop.Mouse,
    *[Value(Value.Input, button.Button(i + 1), 1, logicalMin=0, logicalMax=1) for i in range(48)])
n = [p for p, v in items(out(d)) if p == 0x80]
assert len(n) == 1, n
''',
     "more than 32 consecutive values that differ only in usage",
     "they come out as several data items instead of one")

seed("C11-physmax", "C11",
     [("hrdc/descriptor/dumper.py", "                if e.physicalMin != e.logicalMin or e.physicalMax != e.logicalMax:\n",
       "                if e.physicalMin != e.logicalMin or (e.physicalMax or 0) > (e.logicalMax or 0):\n")],
     COMPILE + r'''
from hrdc.descriptor.dumper import Dumper
d = Collection(Collection.Application, desktop.Mouse,
    Value(Value.Input, desktop.X, 8, logicalMin=0, logicalMax=255, physicalMin=0, physicalMax=100))
o = io.StringIO()
d.accept(Dumper(o))
ns = {"__name__": "script"}
exec(o.getvalue(), ns)
assert out(ns["descriptor"], False) == out(d, False), o.getvalue()
''',
     "a value whose physical minimum is its logical minimum and whose physical maximum is below the logical maximum",
     "the script does not give the physical range, which becomes the logical one")

seed("C05-sign", "C05",
     [("hrdc/stream/optimizer/main_merge.py", "                if self.props.get(item.tag, int(item.value)) != int(item.value):\n",
       "                if abs(self.props.get(item.tag, int(item.value))) != abs(int(item.value)):\n")],
     COMPILE + r'''
# UsagePage 1, Usage 2, Collection, LMin 0, LMax 1, PMax 5, size 8, count 1, UnitExponent -1, Usage X, Input, UnitExponent 1, Usage Y, Input, End
data = bytes.fromhex("0501 0902 a101 1500 2501 4505 7508 9501 55ff 0930 8102 5501 0931 8102 c0".replace(" ", ""))
seen, exp = [], 0
for p, v in items(opt(data)):
    if p == 0x54: exp = v
    if p == 0x80: seen.append(exp)
assert seen == [0xff, 1], seen
''',
     "two data items, the second one after a bound or exponent changed its sign only",
     "they are merged, and both get the second bound or exponent")

seed("C08-half-range", "C08",
     [("hrdc/descriptor/streamer.py", "                elif e.physicalMin == e.logicalMin and e.physicalMax == e.logicalMax:\n",
       "                elif e.physicalMin == e.logicalMin and (e.physicalMax == e.logicalMax or e.count > 1 and not e.physicalMax):\n")],
     COMPILE + r"""
d = Collection(Collection.Application, desktop.Mouse,
    Value(Value.Input, desktop.X, 8, logicalMin=-5, logicalMax=5, physicalMin=-5, physicalMax=0, count=2))
for o in False, True:
    pmin = pmax = lmin = lmax = 0
    for p, v in items(out(d, o)):
        if p == 0x34: pmin = v
        if p == 0x44: pmax = v
        if p == 0x80: assert (pmin, pmax) == (0xfb, 0), (pmin, pmax)
""",
     "a repeated value whose physical range starts at its logical minimum and ends at 0",
     "its physical range becomes the logical one")
