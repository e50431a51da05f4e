// Package gorocksdb stands in for the cgo binding of RocksDB: the same interface over a
// simulated store (package simfs) with RocksDB's documented guarantees: atomic batches, an
// ordered log in which a synced write makes all earlier ones durable, iterators over a
// snapshot, a lock against double opening, compaction (with the user's filter) at times of
// its own choosing, and read-only mode after a failed log write.
package gorocksdb

import (
	"bytes"
	"errors"
	"fmt"

	"verif.local/ds/simfs"
	"verif.local/ds/simrt"
)

type DB struct {
	name   string
	kv     *simfs.KV
	fs     *simfs.FS
	opts   *Options
	closed bool
}

type Range struct{ Start, Limit []byte }

//go:norace
func OpenDb(opts *Options, name string) (*DB, error) {
	f := simfs.Cur
	if f == nil {
		panic("gorocksdb: opened outside a simulation")
	}
	ft, err := f.Event(simfs.KKVOpen, name, 0)
	if err == nil {
		err = f.Simple(ft)
	}
	if err != nil {
		return nil, errors.New("IO error: " + err.Error())
	}
	kv := f.KVAt(name)
	if kv == nil {
		if !opts.createIfMissing {
			return nil, fmt.Errorf("Invalid argument: %s: does not exist (create_if_missing is false)", name)
		}
		kv = f.MakeKV(name)
	} else if opts.errorIfExists {
		return nil, fmt.Errorf("Invalid argument: %s: exists (error_if_exists is true)", name)
	}
	if kv.Locked {
		return nil, fmt.Errorf("IO error: lock %s/LOCK: Resource temporarily unavailable", name)
	}
	kv.Reboot()
	// Opening replays the log and writes what it found to a synced table file
	// (avoid_flush_during_recovery is off by default), so it is durable from here on.
	kv.SyncAll()
	kv.Locked = true
	if opts.filter != nil {
		fl := opts.filter
		kv.Filter = func(k, v []byte) (bool, []byte) { return fl.Filter(1, k, v) }
	}
	return &DB{name: name, kv: kv, fs: f, opts: opts}, nil
}

//go:norace
func (db *DB) use() {
	if db.closed && !simrt.Dying() {
		panic("gorocksdb: use of a closed DB")
	}
}

//go:norace
func (db *DB) Name() string { return db.name }

//go:norace
func (db *DB) Close() {
	db.use()
	if simrt.Dying() {
		return
	}
	db.closed = true
	db.kv.Locked = false
	db.kv.Filter = nil
	// closing flushes nothing but the log stays; unsynced writes survive a process exit
}

// maybeCompact runs a compaction over a random part of the key space.
//
//go:norace
func (db *DB) maybeCompact() {
	p := db.fs.KVCompactP
	if p <= 0 || simrt.Dying() || db.kv.Filter == nil {
		return
	}
	r := simrt.Rand()
	if !r.P(p) {
		return
	}
	n := db.kv.Snap().Len()
	if n == 0 {
		return
	}
	lo, hi := 0, n
	if r.P(0.5) {
		lo = r.N(n)
		hi = lo + 1 + r.N(n-lo)
	}
	db.fs.Fired["kv-compaction"]++
	if m := db.kv.Compact(lo, hi); m > 0 {
		db.fs.Fired["kv-compaction-removed"] += int64(m)
	}
}

//go:norace
func (db *DB) get(opts *ReadOptions, key []byte) ([]byte, bool, error) {
	db.use()
	ft, err := db.fs.Event(simfs.KKVGet, db.name, len(key))
	if err == nil {
		err = db.fs.Simple(ft)
	}
	if err != nil {
		return nil, false, errors.New("IO error: " + err.Error())
	}
	db.maybeCompact()
	s := db.kv.Snap()
	if opts != nil && opts.snap != nil {
		s = opts.snap.s
	}
	v, ok := s.Get(key)
	return v, ok, nil
}

//go:norace
func (db *DB) Get(opts *ReadOptions, key []byte) (*Slice, error) {
	v, ok, err := db.get(opts, key)
	if err != nil {
		return nil, err
	}
	if !ok {
		return &Slice{}, nil
	}
	return &Slice{data: append(make([]byte, 0, len(v)+1), v...)}, nil
}

//go:norace
func (db *DB) GetBytes(opts *ReadOptions, key []byte) ([]byte, error) {
	v, ok, err := db.get(opts, key)
	if err != nil || !ok {
		return nil, err
	}
	return append([]byte{}, v...), nil
}

//go:norace
func (db *DB) GetPinned(opts *ReadOptions, key []byte) (*PinnableSliceHandle, error) {
	v, ok, err := db.get(opts, key)
	if err != nil {
		return nil, err
	}
	if !ok {
		return &PinnableSliceHandle{}, nil
	}
	return &PinnableSliceHandle{data: append([]byte{}, v...)}, nil
}

//go:norace
func (db *DB) MultiGet(opts *ReadOptions, keys ...[]byte) (Slices, error) {
	var r Slices
	for _, k := range keys {
		s, err := db.Get(opts, k)
		if err != nil {
			return nil, err
		}
		r = append(r, s)
	}
	return r, nil
}

//go:norace
func (db *DB) write(k simfs.Kind, opts *WriteOptions, ops []simfs.KVOp) error {
	db.use()
	if simrt.Dying() {
		return errors.New("IO error")
	}
	if db.kv.RO {
		return errors.New("IO error: background error, the DB is read-only")
	}
	db.maybeCompact()
	ft, err := db.fs.Event(k, db.name, len(ops))
	if err != nil {
		return errors.New("IO error: " + err.Error())
	}
	if db.kv.RO {
		return errors.New("IO error: background error, the DB is read-only")
	}
	if ft != nil {
		if ft.Part >= 500 {
			db.kv.Limbo(ops)
		}
		db.kv.RO = true
		return errors.New("IO error: " + db.fs.Simple(ft).Error())
	}
	if !opts.sync {
		db.kv.Apply(ops, false)
		return nil
	}
	// the record is in the log; now the log is synced
	ft, err = db.fs.Event(simfs.KKVSync, db.name, len(ops))
	if err != nil {
		return errors.New("IO error: " + err.Error())
	}
	if ft != nil {
		db.kv.Limbo(ops)
		db.kv.RO = true
		return errors.New("IO error: " + db.fs.Simple(ft).Error())
	}
	db.kv.Apply(ops, true)
	return nil
}

//go:norace
func (db *DB) Put(opts *WriteOptions, key, value []byte) error {
	return db.write(simfs.KKVPut, opts, []simfs.KVOp{{K: cp(key), V: cp(value)}})
}

//go:norace
func (db *DB) Delete(opts *WriteOptions, key []byte) error {
	return db.write(simfs.KKVPut, opts, []simfs.KVOp{{Del: true, K: cp(key)}})
}

//go:norace
func (db *DB) Write(opts *WriteOptions, b *WriteBatch) error {
	b.enter()
	ops := b.expand(db.kv.Snap())
	b.leave()
	return db.write(simfs.KKVWrite, opts, ops)
}

//go:norace
func cp(b []byte) []byte { return append([]byte{}, b...) }

//go:norace
func (db *DB) GetProperty(string) string { return "" }

//go:norace
func (db *DB) GetLatestSequenceNumber() uint64 { return 0 }

//go:norace
func (db *DB) SetOptions(keys, values []string) error { return nil }

//go:norace
func (db *DB) DisableFileDeletions() error { return nil }

//go:norace
func (db *DB) EnableFileDeletions(bool) error { return nil }

//go:norace
func (db *DB) GetApproximateSizes(r []Range) []uint64 { return make([]uint64, len(r)) }

//go:norace
func (db *DB) Flush(*FlushOptions) error {
	db.use()
	ft, err := db.fs.Event(simfs.KKVSync, db.name, 0)
	if err == nil {
		err = db.fs.Simple(ft)
	}
	if err != nil {
		return errors.New("IO error: " + err.Error())
	}
	db.kv.SyncAll()
	return nil
}

//go:norace
func (db *DB) CompactRange(r Range) {
	db.use()
	s := db.kv.Snap()
	lo, hi := -1, 0
	for i := 0; i < s.Len(); i++ {
		k, _ := s.At(i)
		if (r.Start == nil || bytes.Compare(k, r.Start) >= 0) && (r.Limit == nil || bytes.Compare(k, r.Limit) <= 0) {
			if lo < 0 {
				lo = i
			}
			hi = i + 1
		}
	}
	if lo >= 0 {
		db.kv.Compact(lo, hi)
	}
}

//go:norace
func DestroyDb(name string, opts *Options) error {
	f := simfs.Cur
	if kv := f.KVAt(name); kv != nil && kv.Locked {
		return errors.New("IO error: lock held")
	}
	f.Drop(name + "/KV")
	return f.RemoveAll(name)
}

//go:norace
func RepairDb(string, *Options) error { return nil }

type Snapshot struct{ s simfs.Snap }

//go:norace
func (db *DB) NewSnapshot() *Snapshot { return &Snapshot{db.kv.Snap()} }

//go:norace
func (db *DB) ReleaseSnapshot(s *Snapshot) {}

// WriteBatch is, like the original, not safe for concurrent use: overlapping calls are reported.
type WriteBatch struct {
	ops  []simfs.KVOp
	busy bool
	dead bool
}

type delRange struct{ a, b []byte }

//go:norace
func NewWriteBatch() *WriteBatch { return &WriteBatch{} }

//go:norace
func (wb *WriteBatch) enter() {
	if simrt.Dying() {
		return
	}
	if wb == nil || wb.dead {
		panic("gorocksdb: use of a destroyed WriteBatch")
	}
	if wb.busy {
		panic("gorocksdb: data race: concurrent use of a WriteBatch")
	}
	wb.busy = true
	simrt.SyncPoint()
}

//go:norace
func (wb *WriteBatch) leave() { wb.busy = false }

//go:norace
func (wb *WriteBatch) Put(key, value []byte) {
	wb.enter()
	wb.ops = append(wb.ops, simfs.KVOp{K: cp(key), V: cp(value)})
	wb.leave()
}

//go:norace
func (wb *WriteBatch) Delete(key []byte) {
	wb.enter()
	wb.ops = append(wb.ops, simfs.KVOp{Del: true, K: cp(key)})
	wb.leave()
}

//go:norace
func (wb *WriteBatch) DeleteRange(a, b []byte) {
	wb.enter()
	wb.ops = append(wb.ops, simfs.KVOp{Del: true, K: cp(a), V: cp(b), Range: true})
	wb.leave()
}

//go:norace
func (wb *WriteBatch) PutLogData([]byte) {}

//go:norace
func (wb *WriteBatch) Count() int { return len(wb.ops) }

//go:norace
func (wb *WriteBatch) Clear() {
	wb.enter()
	wb.ops = nil
	wb.leave()
}

//go:norace
func (wb *WriteBatch) Destroy() {
	if simrt.Dying() {
		return
	}
	wb.enter()
	wb.dead = true
	wb.leave()
}

//go:norace
func (wb *WriteBatch) Data() []byte {
	var b []byte
	for _, o := range wb.ops {
		b = append(append(b, o.K...), o.V...)
	}
	return b
}

//go:norace
func (wb *WriteBatch) expand(s simfs.Snap) []simfs.KVOp {
	return append([]simfs.KVOp{}, wb.ops...)
}

// Iterator walks a snapshot.
type Iterator struct {
	db   *DB
	s    simfs.Snap
	k, v []byte
	ok   bool
	err  error
	dead bool
	opts *ReadOptions
}

//go:norace
func (db *DB) NewIterator(opts *ReadOptions) *Iterator {
	db.use()
	db.maybeCompact()
	it := &Iterator{db: db, s: db.kv.Snap(), opts: opts}
	if opts != nil && opts.snap != nil {
		it.s = opts.snap.s
	}
	return it
}

//go:norace
func (it *Iterator) ev() bool {
	if it.dead {
		if simrt.Dying() {
			return false
		}
		panic("gorocksdb: use of a closed iterator")
	}
	ft, err := it.db.fs.Event(simfs.KKVIter, it.db.name, 0)
	if err == nil {
		err = it.db.fs.Simple(ft)
	}
	if err != nil {
		it.err = errors.New("IO error: " + err.Error())
		it.ok = false
		return false
	}
	it.err = nil
	return true
}

//go:norace
func (it *Iterator) Valid() bool {
	if it.dead && !simrt.Dying() {
		panic("gorocksdb: use of a closed iterator")
	}
	return it.ok
}

//go:norace
func (it *Iterator) ValidForPrefix(p []byte) bool { return it.Valid() && bytes.HasPrefix(it.k, p) }

//go:norace
func (it *Iterator) Key() *Slice {
	if !it.Valid() {
		return nil
	}
	return &Slice{data: it.k[:len(it.k):len(it.k)], freed: true}
}

//go:norace
func (it *Iterator) Value() *Slice {
	if !it.Valid() {
		return nil
	}
	return &Slice{data: append(make([]byte, 0, len(it.v)+1), it.v...), freed: true}
}

//go:norace
func (it *Iterator) Next() {
	if !it.Valid() {
		panic("gorocksdb: Next on an invalid iterator")
	}
	if it.ev() {
		it.k, it.v, it.ok = it.s.GT(it.k)
	}
}

//go:norace
func (it *Iterator) Prev() {
	if !it.Valid() {
		panic("gorocksdb: Prev on an invalid iterator")
	}
	if it.ev() {
		it.k, it.v, it.ok = it.s.LT(it.k)
	}
}

//go:norace
func (it *Iterator) SeekToFirst() {
	if it.ev() {
		it.k, it.v, it.ok = it.s.GE(nil)
	}
}

//go:norace
func (it *Iterator) SeekToLast() {
	if it.ev() {
		it.k, it.v, it.ok = it.s.LT(nil)
	}
}

//go:norace
func (it *Iterator) Seek(k []byte) {
	if it.ev() {
		if k == nil {
			k = []byte{}
		}
		it.k, it.v, it.ok = it.s.GE(k)
	}
}

//go:norace
func (it *Iterator) SeekForPrev(k []byte) {
	if it.ev() {
		it.k, it.v, it.ok = it.s.LE(k)
	}
}

//go:norace
func (it *Iterator) Err() error { return it.err }

//go:norace
func (it *Iterator) Close() {
	if it.dead && !simrt.Dying() {
		panic("gorocksdb: iterator closed twice")
	}
	it.dead = true
}

// Slice wraps a value.
type Slice struct {
	data  []byte
	freed bool
}
type Slices []*Slice

//go:norace
func (s Slices) Destroy() {
	for _, x := range s {
		x.Free()
	}
}

//go:norace
func StringToSlice(d string) *Slice { return &Slice{data: []byte(d)} }

//go:norace
func (s *Slice) Data() []byte { return s.data }

//go:norace
func (s *Slice) Size() int { return len(s.data) }

//go:norace
func (s *Slice) Exists() bool { return s.data != nil }

//go:norace
func (s *Slice) Free() { s.freed = true }

type PinnableSliceHandle struct{ data []byte }

//go:norace
func (h *PinnableSliceHandle) Data() []byte { return h.data }

//go:norace
func (h *PinnableSliceHandle) Destroy() {}

type CompactionFilter interface {
	Filter(level int, key, val []byte) (remove bool, newVal []byte)
	Name() string
}
type MergeOperator interface{ Name() string }
type Comparator interface {
	Compare(a, b []byte) int
	Name() string
}
type FilterPolicy interface{ Name() string }
type bloom struct{}

//go:norace
func (bloom) Name() string { return "bloom" }

//go:norace
func NewBloomFilter(int) FilterPolicy { return bloom{} }

//go:norace
func NewBloomFilterFull(int) FilterPolicy { return bloom{} }

type SliceTransform interface{ Name() string }

//go:norace
func NewFixedPrefixTransform(int) SliceTransform { return bloom{} }

//go:norace
func NewNoopPrefixTransform() SliceTransform { return bloom{} }

type Cache struct{}

//go:norace
func NewLRUCache(uint64) *Cache { return &Cache{} }

//go:norace
func (c *Cache) GetUsage() uint64 { return 0 }

//go:norace
func (c *Cache) GetPinnedUsage() uint64 { return 0 }

//go:norace
func (c *Cache) Destroy() {}

type Env struct{}

//go:norace
func NewDefaultEnv() *Env { return &Env{} }

//go:norace
func (e *Env) SetBackgroundThreads(int) {}

//go:norace
func (e *Env) SetHighPriorityBackgroundThreads(int) {}

//go:norace
func (e *Env) Destroy() {}

type DBPath struct{}
type RateLimiter struct{}

//go:norace
func NewRateLimiter(a, b int64, c int32) *RateLimiter { return &RateLimiter{} }

//go:norace
func (r *RateLimiter) Destroy() {}

type Options struct {
	createIfMissing, errorIfExists bool
	filter                         CompactionFilter
}

//go:norace
func NewDefaultOptions() *Options { return &Options{} }

//go:norace
func (o *Options) SetCreateIfMissing(v bool) { o.createIfMissing = v }

//go:norace
func (o *Options) SetErrorIfExists(v bool) { o.errorIfExists = v }

//go:norace
func (o *Options) SetCompactionFilter(f CompactionFilter) { o.filter = f }

//go:norace
func (o *Options) GetStatisticsString() string { return "" }

//go:norace
func (o *Options) SetDBPaths([]*DBPath) {}

//go:norace
func (o *Options) SetCompressionOptions(*CompressionOptions) {}

//go:norace
func (o *Options) SetUniversalCompactionOptions(*UniversalCompactionOptions) {}

//go:norace
func (o *Options) SetFIFOCompactionOptions(*FIFOCompactionOptions) {}

type BlockBasedTableOptions struct{}

//go:norace
func NewDefaultBlockBasedTableOptions() *BlockBasedTableOptions { return &BlockBasedTableOptions{} }

type ReadOptions struct{ snap *Snapshot }

//go:norace
func NewDefaultReadOptions() *ReadOptions { return &ReadOptions{} }

//go:norace
func (o *ReadOptions) SetSnapshot(s *Snapshot) { o.snap = s }

type WriteOptions struct{ sync bool }

//go:norace
func NewDefaultWriteOptions() *WriteOptions { return &WriteOptions{} }

//go:norace
func (o *WriteOptions) SetSync(v bool) { o.sync = v }

type FlushOptions struct{}

//go:norace
func NewDefaultFlushOptions() *FlushOptions { return &FlushOptions{} }

type CompressionOptions struct{}

//go:norace
func NewDefaultCompressionOptions() *CompressionOptions { return &CompressionOptions{} }

//go:norace
func NewCompressionOptions(a, b, c, d int) *CompressionOptions { return &CompressionOptions{} }

type UniversalCompactionOptions struct{}

//go:norace
func NewDefaultUniversalCompactionOptions() *UniversalCompactionOptions {
	return &UniversalCompactionOptions{}
}

type FIFOCompactionOptions struct{}

//go:norace
func NewDefaultFIFOCompactionOptions() *FIFOCompactionOptions { return &FIFOCompactionOptions{} }

type (
	CompressionType              uint
	CompactionStyle              uint
	CompactionAccessPattern      uint
	InfoLogLevel                 uint
	WALRecoveryMode              int
	IndexType                    uint
	ReadTier                     uint
	UniversalCompactionStopStyle uint
)

const (
	NoCompression     = CompressionType(0)
	SnappyCompression = CompressionType(1)
	ZLibCompression   = CompressionType(2)
	Bz2Compression    = CompressionType(3)
	LZ4Compression    = CompressionType(4)
	LZ4HCCompression  = CompressionType(5)
	XpressCompression = CompressionType(6)
	ZSTDCompression   = CompressionType(7)

	LevelCompactionStyle     = CompactionStyle(0)
	UniversalCompactionStyle = CompactionStyle(1)
	FIFOCompactionStyle      = CompactionStyle(2)

	NoneCompactionAccessPattern       = CompactionAccessPattern(0)
	NormalCompactionAccessPattern     = CompactionAccessPattern(1)
	SequentialCompactionAccessPattern = CompactionAccessPattern(2)
	WillneedCompactionAccessPattern   = CompactionAccessPattern(3)

	DebugInfoLogLevel = InfoLogLevel(0)
	InfoInfoLogLevel  = InfoLogLevel(1)
	WarnInfoLogLevel  = InfoLogLevel(2)
	ErrorInfoLogLevel = InfoLogLevel(3)
	FatalInfoLogLevel = InfoLogLevel(4)

	TolerateCorruptedTailRecordsRecovery = WALRecoveryMode(0)
	AbsoluteConsistencyRecovery          = WALRecoveryMode(1)
	PointInTimeRecovery                  = WALRecoveryMode(2)
	SkipAnyCorruptedRecordsRecovery      = WALRecoveryMode(3)

	KBinarySearchIndexType        = 0
	KHashSearchIndexType          = 1
	KTwoLevelIndexSearchIndexType = 2

	ReadAllTier    = ReadTier(0)
	BlockCacheTier = ReadTier(1)
)
