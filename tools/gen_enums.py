#!/usr/bin/env python3
# Writes harness/enums.cc (C23): enumerations of many sizes, underlying types and
# value patterns, with an independently written table of what was declared.
import os
LIM = {"uint8_t": (0, 255), "int8_t": (-128, 127), "int16_t": (-32768, 32767), "uint16_t": (0, 65535), "int32_t": (-2**31, 2**31-1),
       "uint32_t": (0, 2**32-1), "int64_t": (-2**63, 2**63-1), "uint64_t": (0, 2**64-1), "char": (-128, 127)}
def lit(v, t):
    if v == -2**63: return "(-9223372036854775807LL - 1)"
    if v == -2**31: return "(-2147483647 - 1)"
    return str(v) + ("ULL" if t == "uint64_t" else "U" if t == "uint32_t" else "LL" if t == "int64_t" else "")
E = []
def enum(n, t, pairs): E.append((n, t, pairs))
enum("one", "uint8_t", [("only", 0)])
enum("one_high", "uint8_t", [("only", 200)])
enum("two", "uint8_t", [("second", 1), ("first", 0)])
enum("three", "int8_t", [("lo", -128), ("mid", 0), ("hi", 127)])
enum("wide", "int64_t", [("least", -2**63), ("minus", -1), ("zero", 0), ("one", 1), ("t8", 256), ("t16", 65536), ("t32", 2**32), ("most", 2**63-1)])
enum("uwide", "uint64_t", [("none", 0), ("all", 2**64-1), ("half", 2**63), ("low", 2**32-1), ("lowh", 2**31)])
enum("sint", "int32_t", [("imin", -2**31), ("m1", -1), ("imax", 2**31-1), ("z", 0)])
enum("uint", "uint32_t", [("umax", 2**32-1), ("uhalf", 2**31), ("u0", 0), ("u7", 7)])
enum("shrt", "int16_t", [("smin", -32768), ("smax", 32767), ("s5", 5), ("s4", 4)])
enum("ushrt", "uint16_t", [("c", 65535), ("b", 32768), ("a", 1)])
enum("chr", "char", [("ca", 97), ("cz", 122), ("c0", 0), ("cA", 65)])
for i, n in enumerate([4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255]):
    pat, t = [("down", "uint16_t"), ("up", "int16_t"), ("scatter", "uint16_t"), ("byte", "uint8_t")][i % 4]
    vals = {"down": [900 - 3 * k for k in range(n)], "up": [k - n // 2 for k in range(n)], "scatter": [(k * 7919) % 65536 for k in range(n)], "byte": [(k * 167 + 5) % 256 for k in range(n)]}[pat]
    enum("n%d_%s" % (n, pat), t, [("n%d" % k if k % 2 else "name_%d" % k, v) for k, v in enumerate(vals)])
o = ["// Written by tools/gen_enums.py. C23: the name of every value of many enumerations.", '#include <cstring>', '#include <cstdint>', '#include <cstddef>', '#include "symx.h"', '#include "arpc/enum.h"']
for n, t, ps in E:
    o.append('ARPC_ENUM(e_%s, %s, "unknown %s", %s);' % (n, t, n, ", ".join("(%s, %s)" % (a, lit(v, t)) for a, v in ps)))
o.append('template <typename U> struct entry { U v; const char* name; };')
o.append('''template <typename T, size_t N> static void all(const char* fallback, const entry<std::underlying_type_t<T>> (&declared)[N]) {
  std::underlying_type_t<T> v; symx_bytes(&v, sizeof v, "value");
  const char* got = arpc::enum_names<T>::name(static_cast<T>(v));
  const char* want = fallback;
  for (auto& d : declared) if (v == d.v) want = d.name;
  CHECK(strcmp(got, want) == 0, "the declared name of the value, or the fallback");
  symx_reach(want == fallback ? "fallback" : "named");
}''')
for n, t, ps in E:
    o.append("static void c_%s() { static const entry<%s> d[] = {%s}; all<e_%s>(\"unknown %s\", d); }" % (n, t, ", ".join('{%s, "%s"}' % (lit(v, t), a) for a, v in ps), n, n))
half = [e for e in E if len(e[2]) <= 33]; big = [e for e in E if len(e[2]) > 33]
for nm, l in (("en_small", half), ("en_big", big)):
    o.append('extern "C" void %s() { switch (sym_choose(%d, "enum")) { %s } }' % (nm, len(l), " ".join("case %d: return c_%s();" % (i, e[0]) for i, e in enumerate(l))))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "enums.cc"), "w").write("\n".join(o) + "\n")
