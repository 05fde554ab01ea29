# drafting aid: which source files feed which reference file
cd /repo
S=Splinter/src; A=Splinter
mk() { out=/verif/ref/$1.ref; shift; python3 /verif/tools/mkref.py $out "$@"; }
mk dictionary MapSpec/MapSpec.s.dfy::fromkey MapSpec/AsyncMap.i.dfy "lib/Base/MapRemove.s.dfy" "$S/spec/MapSpec_t.rs::CrashTolerant|Singleton" $S/spec/TotalKMMap_t.rs $S/abstract_system/AbstractMap_v.rs $S/abstract_system/StampedMap_v.rs
mk crash "MapSpec/ThreeStateVersioned.s.dfy::PushSync|PopSync" MapSpec/ThreeStateVersionedMap.s.dfy "$S/spec/MapSpec_t.rs:CrashTolerant|Singleton:req_sync|reply_sync" $S/spec/FloatingSeq_t.rs lib/Base/FloatingSeq.s.dfy
mk sync "MapSpec/ThreeStateVersioned.s.dfy:PushSync|PopSync|SyncReqs|Move" "$S/spec/MapSpec_t.rs:req_sync|reply_sync|CrashTolerant.*stable_index" "$S/implementation/AtomicState_v.rs" "Versions/JournalView.i.dfy:Sync|Journal(Replay|Move|Freeze)" "Versions/VOp.i.dfy"
mk requests $S/trusted/SystemModel_t.rs $S/trusted/KVStoreTokenized_t.rs $S/trusted/ReqReply_t.rs $S/trusted/RefinementObligation_t.rs $S/trusted/ClientAPI_t.rs $S/trusted/ProgramModelTrait_t.rs $S/trusted/KVStoreTrait_t.rs $S/implementation/ConcreteProgramModel_v.rs $S/implementation/MultisetMapRelation_v.rs
mk disk $S/spec/AsyncDisk_t.rs $S/spec/ImplDisk_t.rs ByteBlockCacheSystem/AsyncDiskModel.s.dfy $A/AsyncDisk.s.dfy $A/AsyncDiskProgram.s.dfy $A/IOSystem.s.dfy $A/DiskTypes.s.dfy BlockCacheSystem/BlockDisk.i.dfy BlockCacheSystem/JournalDisk.i.dfy
mk views Versions/StatesView.i.dfy Versions/StatesViewMap.i.dfy Versions/JournalView.i.dfy Versions/CompositeView.i.dfy Versions/VOp.i.dfy BlockCacheSystem/JournalInterval.i.dfy BlockCacheSystem/JournalRange.i.dfy
mk coordination $(ls $S/abstract_system/*.rs | grep -v Refinement) $(ls $A/CoordinationLayer/*.dfy | grep -v Refinement) Spec/AtomicStateMachine.s.dfy
mk journal $(ls $S/journal/*.rs | grep -v Refinement) $S/abstract_system/MsgHistory_v.rs $S/abstract_system/AbstractJournal_v.rs $S/implementation/CachedJournal_v.rs $S/implementation/JournalModel_v.rs $S/implementation/JournalCoordinationSystem_v.rs BlockCacheSystem/JournalCache.i.dfy BlockCacheSystem/JournalSystem.i.dfy $A/Journal.i.dfy $A/MsgSeq.i.dfy
mk betree $(ls $S/betree/*.rs | grep -v Refinement) Betree/Betree.i.dfy Betree/BetreeSpec.i.dfy Betree/QueryState.i.dfy Betree/BlockInterface.i.dfy Betree/Graph.i.dfy Betree/Transactable.i.dfy PivotBetree/PivotBetree.i.dfy PivotBetree/PivotBetreeSpec.i.dfy
mk allocation $(ls $S/allocation_layer/*.rs | grep -v Refinement) $S/exec/MiniAllocator_v.rs $S/disk/GenericDisk_v.rs
mk keyorder $S/spec/KeyType_t.rs lib/Lang/System/SeqComparison.s.dfy PivotBetree/Bounds.i.dfy lib/Base/KeyType.s.dfy lib/Buckets/BoundedPivotsLib.i.dfy
mk merge $S/spec/Messages_t.rs lib/Base/Message.i.dfy lib/Buckets/BucketsLib.i.dfy lib/Buckets/TranslationApply.s.dfy lib/Buckets/TranslationLib.i.dfy lib/Buckets/BucketMap.i.dfy lib/Buckets/BucketFlushModel.i.dfy
mk layout BlockCacheSystem/DiskLayout.i.dfy $A/DiskTypes.s.dfy $S/implementation/DiskLayout_v.rs "$S/spec/AsyncDisk_t.rs:Address" BlockCacheSystem/SectorType.i.dfy
mk allocator Impl/BlockAllocatorModel.i.dfy lib/DataStructures/BitmapModel.i.dfy $A/Allocation.i.dfy lib/Base/BitsetLemmas.i.dfy
mk marshal $(ls $S/marshalling/*.rs) $S/betree/BufferOffsets_v.rs $S/betree/Utils_v.rs
mk dfymarshal $(ls lib/Marshalling/*.dfy) lib/Base/PackedIntsLib.i.dfy
mk native lib/Lang/NativeTypes.s.dfy $(ls lib/Lang/System/*.s.dfy | grep -v SeqComp) lib/Lang/LinearSequence.s.dfy lib/Lang/LinearMaybe.s.dfy lib/Lang/LinearBox.s.dfy lib/Checksums/CRC32C.s.dfy lib/Base/MallocAccounting.i.dfy lib/Base/NativeBenchmarking.s.dfy Impl/MainDiskIOHandler.s.dfy Impl/Main.s.dfy
mk filesystem $(ls Filesys/*.s.dfy)
mk collections lib/Base/Maps.i.dfy lib/Base/Sets.i.dfy lib/Base/SequencesLite.s.dfy lib/Base/Sequences.i.dfy lib/Base/map.i.dfy lib/Base/Option.s.dfy lib/Base/mathematics.i.dfy lib/Base/Multisets.i.dfy lib/Math/Math.i.dfy lib/Base/DebugAccumulator.i.dfy lib/Base/SequencesOfMaps.i.dfy lib/Base/MathAxioms.s.dfy
mk concurrency $(sed 's#/repo/##' /opt/vp/dafny-files.txt | grep ^concurrency) concurrency/scache/RWLock.i.dfy concurrency/scache/CacheResources.i.dfy concurrency/scache/CacheOps.i.dfy
mk splinterdfy $A/CacheIfc.i.dfy $A/IndirectionTable.i.dfy $A/MarshalledSnapshot.i.dfy $A/ReprsAsSets.i.dfy $A/SequenceSets.i.dfy $A/CacheLemmas.i.dfy
mk blockcache BlockCacheSystem/BlockCache.i.dfy BlockCacheSystem/BlockSystem.i.dfy BlockCacheSystem/BlockJournalCache.i.dfy BlockCacheSystem/BlockJournalDisk.i.dfy BlockCacheSystem/BetreeCache.i.dfy BlockCacheSystem/BetreeSystem.i.dfy BlockCacheSystem/BetreeJournalSystem.i.dfy $S/implementation/Cache_v.rs
mk examples $(sed 's#/repo/##' /opt/vp/dafny-files.txt | grep -E "^examples/(log|conc|cutoff|red|tla)|^Framing")
