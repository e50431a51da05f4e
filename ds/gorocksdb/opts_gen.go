// Option setters without an effect in the simulation.

package gorocksdb

func (opts *Options) SetComparator(value Comparator)                                 {}
func (opts *Options) SetMergeOperator(value MergeOperator)                           {}
func (opts *Options) SetParanoidChecks(value bool)                                   {}
func (opts *Options) SetEnv(value *Env)                                              {}
func (opts *Options) SetInfoLogLevel(value InfoLogLevel)                             {}
func (opts *Options) IncreaseParallelism(total_threads int)                          {}
func (opts *Options) OptimizeForPointLookup(block_cache_size_mb uint64)              {}
func (opts *Options) SetAllowConcurrentMemtableWrites(allow bool)                    {}
func (opts *Options) OptimizeLevelStyleCompaction(memtable_memory_budget uint64)     {}
func (opts *Options) OptimizeUniversalStyleCompaction(memtable_memory_budget uint64) {}
func (opts *Options) SetWriteBufferSize(value int)                                   {}
func (opts *Options) SetMaxWriteBufferNumber(value int)                              {}
func (opts *Options) SetMinWriteBufferNumberToMerge(value int)                       {}
func (opts *Options) SetMaxOpenFiles(value int)                                      {}
func (opts *Options) SetMaxFileOpeningThreads(value int)                             {}
func (opts *Options) SetMaxTotalWalSize(value uint64)                                {}
func (opts *Options) SetCompression(value CompressionType)                           {}
func (opts *Options) SetCompressionPerLevel(value []CompressionType)                 {}
func (opts *Options) SetMinLevelToCompress(value int)                                {}
func (opts *Options) SetPrefixExtractor(value SliceTransform)                        {}
func (opts *Options) SetNumLevels(value int)                                         {}
func (opts *Options) SetLevel0FileNumCompactionTrigger(value int)                    {}
func (opts *Options) SetLevel0SlowdownWritesTrigger(value int)                       {}
func (opts *Options) SetLevel0StopWritesTrigger(value int)                           {}
func (opts *Options) SetMaxMemCompactionLevel(value int)                             {}
func (opts *Options) SetTargetFileSizeBase(value uint64)                             {}
func (opts *Options) SetTargetFileSizeMultiplier(value int)                          {}
func (opts *Options) SetMaxBytesForLevelBase(value uint64)                           {}
func (opts *Options) SetMaxBytesForLevelMultiplier(value float64)                    {}
func (opts *Options) SetLevelCompactionDynamicLevelBytes(value bool)                 {}
func (opts *Options) SetMaxCompactionBytes(value uint64)                             {}
func (opts *Options) SetSoftPendingCompactionBytesLimit(value uint64)                {}
func (opts *Options) SetHardPendingCompactionBytesLimit(value uint64)                {}
func (opts *Options) SetMaxBytesForLevelMultiplierAdditional(value []int)            {}
func (opts *Options) SetUseFsync(value bool)                                         {}
func (opts *Options) SetDbLogDir(value string)                                       {}
func (opts *Options) SetWalDir(value string)                                         {}
func (opts *Options) SetDeleteObsoleteFilesPeriodMicros(value uint64)                {}
func (opts *Options) SetMaxBackgroundCompactions(value int)                          {}
func (opts *Options) SetMaxBackgroundFlushes(value int)                              {}
func (opts *Options) SetMaxLogFileSize(value int)                                    {}
func (opts *Options) SetLogFileTimeToRoll(value int)                                 {}
func (opts *Options) SetKeepLogFileNum(value int)                                    {}
func (opts *Options) SetSoftRateLimit(value float64)                                 {}
func (opts *Options) SetHardRateLimit(value float64)                                 {}
func (opts *Options) SetRateLimitDelayMaxMilliseconds(value uint)                    {}
func (opts *Options) SetMaxManifestFileSize(value uint64)                            {}
func (opts *Options) SetTableCacheNumshardbits(value int)                            {}
func (opts *Options) SetTableCacheRemoveScanCountLimit(value int)                    {}
func (opts *Options) SetArenaBlockSize(value int)                                    {}
func (opts *Options) SetDisableAutoCompactions(value bool)                           {}
func (opts *Options) SetWALRecoveryMode(mode WALRecoveryMode)                        {}
func (opts *Options) SetWALTtlSeconds(value uint64)                                  {}
func (opts *Options) SetWalSizeLimitMb(value uint64)                                 {}
func (opts *Options) SetEnablePipelinedWrite(value bool)                             {}
func (opts *Options) SetManifestPreallocationSize(value int)                         {}
func (opts *Options) SetPurgeRedundantKvsWhileFlush(value bool)                      {}
func (opts *Options) SetAllowMmapReads(value bool)                                   {}
func (opts *Options) SetAllowMmapWrites(value bool)                                  {}
func (opts *Options) SetUseDirectReads(value bool)                                   {}
func (opts *Options) SetUseDirectIOForFlushAndCompaction(value bool)                 {}
func (opts *Options) SetIsFdCloseOnExec(value bool)                                  {}
func (opts *Options) SetSkipLogErrorOnRecovery(value bool)                           {}
func (opts *Options) SetStatsDumpPeriodSec(value uint)                               {}
func (opts *Options) SetAdviseRandomOnOpen(value bool)                               {}
func (opts *Options) SetDbWriteBufferSize(value int)                                 {}
func (opts *Options) SetAccessHintOnCompactionStart(value CompactionAccessPattern)   {}
func (opts *Options) SetUseAdaptiveMutex(value bool)                                 {}
func (opts *Options) SetBytesPerSync(value uint64)                                   {}
func (opts *Options) SetCompactionStyle(value CompactionStyle)                       {}
func (opts *Options) SetRateLimiter(rateLimiter *RateLimiter)                        {}
func (opts *Options) SetMaxSequentialSkipInIterations(value uint64)                  {}
func (opts *Options) SetInplaceUpdateSupport(value bool)                             {}
func (opts *Options) SetInplaceUpdateNumLocks(value int)                             {}
func (opts *Options) SetMemtableHugePageSize(value int)                              {}
func (opts *Options) SetBloomLocality(value uint32)                                  {}
func (opts *Options) SetMaxSuccessiveMerges(value int)                               {}
func (opts *Options) EnableStatistics()                                              {}
func (opts *Options) PrepareForBulkLoad()                                            {}
func (opts *Options) SetMemtableVectorRep()                                          {}
func (opts *Options) SetHashSkipListRep(bucketCount int, skiplistHeight, skiplistBranchingFactor int32) {
}
func (opts *Options) SetHashLinkListRep(bucketCount int) {}
func (opts *Options) SetPlainTableFactory(keyLen uint32, bloomBitsPerKey int, hashTableRatio float64, indexSparseness int) {
}
func (opts *Options) SetCreateIfMissingColumnFamilies(value bool)                               {}
func (opts *Options) SetBlockBasedTableFactory(value *BlockBasedTableOptions)                   {}
func (opts *Options) SetAllowIngestBehind(value bool)                                           {}
func (opts *Options) SetMemTablePrefixBloomSizeRatio(value float64)                             {}
func (opts *Options) SetOptimizeFiltersForHits(value bool)                                      {}
func (opts *Options) Destroy()                                                                  {}
func (opts *BlockBasedTableOptions) Destroy()                                                   {}
func (opts *BlockBasedTableOptions) SetCacheIndexAndFilterBlocks(value bool)                    {}
func (opts *BlockBasedTableOptions) SetCacheIndexAndFilterBlocksWithHighPriority(value bool)    {}
func (opts *BlockBasedTableOptions) SetPinL0FilterAndIndexBlocksInCache(value bool)             {}
func (opts *BlockBasedTableOptions) SetPinTopLevelIndexAndFilter(value bool)                    {}
func (opts *BlockBasedTableOptions) SetBlockSize(blockSize int)                                 {}
func (opts *BlockBasedTableOptions) SetBlockSizeDeviation(blockSizeDeviation int)               {}
func (opts *BlockBasedTableOptions) SetBlockRestartInterval(blockRestartInterval int)           {}
func (opts *BlockBasedTableOptions) SetIndexBlockRestartInterval(indexBlockRestartInterval int) {}
func (opts *BlockBasedTableOptions) SetMetadataBlockSize(metadataBlockSize uint64)              {}
func (opts *BlockBasedTableOptions) SetPartitionFilters(value bool)                             {}
func (opts *BlockBasedTableOptions) SetUseDeltaEncoding(value bool)                             {}
func (opts *BlockBasedTableOptions) SetFilterPolicy(fp FilterPolicy)                            {}
func (opts *BlockBasedTableOptions) SetNoBlockCache(value bool)                                 {}
func (opts *BlockBasedTableOptions) SetBlockCache(cache *Cache)                                 {}
func (opts *BlockBasedTableOptions) SetBlockCacheCompressed(cache *Cache)                       {}
func (opts *BlockBasedTableOptions) SetWholeKeyFiltering(value bool)                            {}
func (opts *BlockBasedTableOptions) SetFormatVersion(version int)                               {}
func (opts *BlockBasedTableOptions) SetIndexType(value IndexType)                               {}
func (opts *ReadOptions) SetVerifyChecksums(value bool)                                         {}
func (opts *ReadOptions) SetPrefixSameAsStart(value bool)                                       {}
func (opts *ReadOptions) SetFillCache(value bool)                                               {}
func (opts *ReadOptions) SetReadTier(value ReadTier)                                            {}
func (opts *ReadOptions) SetTailing(value bool)                                                 {}
func (opts *ReadOptions) SetIterateUpperBound(key []byte)                                       {}
func (opts *ReadOptions) SetPinData(value bool)                                                 {}
func (opts *ReadOptions) SetReadaheadSize(value uint64)                                         {}
func (opts *ReadOptions) Destroy()                                                              {}
func (opts *WriteOptions) DisableWAL(value bool)                                                {}
func (opts *WriteOptions) Destroy()                                                             {}
func (opts *FlushOptions) SetWait(value bool)                                                   {}
func (opts *FlushOptions) Destroy()                                                             {}
func (opts *FIFOCompactionOptions) SetMaxTableFilesSize(value uint64)                           {}
func (opts *FIFOCompactionOptions) Destroy()                                                    {}
func (opts *UniversalCompactionOptions) SetSizeRatio(value uint)                                {}
func (opts *UniversalCompactionOptions) SetMinMergeWidth(value uint)                            {}
func (opts *UniversalCompactionOptions) SetMaxMergeWidth(value uint)                            {}
func (opts *UniversalCompactionOptions) SetMaxSizeAmplificationPercent(value uint)              {}
func (opts *UniversalCompactionOptions) SetCompressionSizePercent(value int)                    {}
func (opts *UniversalCompactionOptions) SetStopStyle(value UniversalCompactionStopStyle)        {}
func (opts *UniversalCompactionOptions) Destroy()                                               {}
