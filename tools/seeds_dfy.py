from seedlib import *

dfyseed("s01-crash-keeps-frozen", "P02", [("MapSpec/ThreeStateVersioned.s.dfy",
"    && s' == Variables(s.s1, s.s1, s.s1, map[])\n", "    && s' == Variables(s.s1, s.s2, s.s2, map[])\n")],
'''include "@REPO@/MapSpec/ThreeStateVersionedMap.s.dfy"
module Demo {
  import V = ThreeStateVersionedMap
  lemma CrashForgets(s: V.Variables, s': V.Variables, uiop: V.SM.UIOp)
  requires V.Crash(s, s', uiop)
  ensures s'.s3 == s.s1
  {
  }
}
''', "a crash while a frozen version is being written out", "after the crash the store shows the frozen version although it never became persistent")

dfyseed("s02-node-area-overlaps", "P13", [("BlockCacheSystem/DiskLayout.i.dfy",
"    && loc.addr + loc.len <= (2 + NumJournalBlocks()) * 4096\n",
"    && loc.addr + loc.len <= (3 + NumJournalBlocks()) * 4096\n")],
'''include "@REPO@/BlockCacheSystem/DiskLayout.i.dfy"
module Demo {
  import opened DiskLayout
  lemma JournalStaysInItsArea(loc: Location)
  requires ValidJournalLocation(loc)
  ensures loc.addr as int + loc.len as int <= IndirectionTable1Addr() as int
  {
    reveal_ValidJournalLocation();
  }
}
''', "a journal write whose last block is one past the journal area", "the write overlaps the first indirection table")

dfyseed("s03-prefix-order", "P11", [("lib/Lang/System/SeqComparison.s.dfy",
"        else if b[0] < a[0] then false\n        else lte(a[1..], b[1..])\n",
"        else if b[0] < a[0] then |b| > |a|\n        else lte(a[1..], b[1..])\n")],
'''include "@REPO@/lib/Lang/System/SeqComparison.s.dfy"
module Demo {
  import opened SeqComparison
  import opened NativeTypes
  lemma Antisymmetric(a: seq<byte>, b: seq<byte>)
  requires a == [2] && b == [1, 0]
  ensures !(lte(a, b) && lte(b, a))
  {
    reveal_lte();
  }
}
''', "two keys of different lengths whose first differing byte is larger in the shorter key", "the key order stops being antisymmetric, so a key can be routed to two children")

