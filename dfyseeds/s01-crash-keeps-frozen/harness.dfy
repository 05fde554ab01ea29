include "@REPO@/MapSpec/ThreeStateVersionedMap.s.dfy"
module Demo {
  import V = ThreeStateVersionedMap
  lemma CrashForgets(s: V.Variables, s': V.Variables, uiop: V.SM.UIOp)
  requires V.Crash(s, s', uiop)
  ensures s'.s3 == s.s1
  {
  }
}
