include "@REPO@/BlockCacheSystem/DiskLayout.i.dfy"
module Demo {
  import opened DiskLayout
  lemma JournalStaysInItsArea(loc: Location)
  requires ValidJournalLocation(loc)
  ensures loc.addr as int + loc.len as int <= IndirectionTable1Addr() as int
  {
    reveal_ValidJournalLocation();
  }
}
