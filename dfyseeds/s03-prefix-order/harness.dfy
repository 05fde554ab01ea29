include "@REPO@/lib/Lang/System/SeqComparison.s.dfy"
module Demo {
  import opened SeqComparison
  import opened NativeTypes
  lemma Antisymmetric(a: seq<byte>, b: seq<byte>)
  requires a == [2] && b == [1, 0]
  ensures !(lte(a, b) && lte(b, a))
  {
    reveal_lte();
  }
}
