// Package kvmodel models the three key-value libraries behind store: what a
// user of goleveldb, badger and bbolt is promised, on an in-memory "disk" that
// outlives closing a database. Natively (replay) nothing here is called: the
// real libraries run.
package kvmodel

import (
	"errors"
	"os"
	"sync"

	"github.com/dgraph-io/badger"
	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/iterator"
	"github.com/syndtr/goleveldb/leveldb/opt"
	"github.com/syndtr/goleveldb/leveldb/util"
	bolt "go.etcd.io/bbolt"
)

type pair struct{ k, v []byte }

// disk is one database directory or file.
type disk struct {
	open bool
	data []pair // by rising key
	name string
	// for bbolt: the memory handed out by reads, gone when the file is closed
	lent [][]byte
}

var (
	mu    sync.Mutex
	disks = map[string]*disk{}

	errClosed   = errors.New("closed")
	errLocked   = errors.New("resource temporarily unavailable")
	errNotFound = errors.New("not found")
	errReadOnly = errors.New("tx not writable")
	errKey      = errors.New("key required")
	errNoBucket = errors.New("bucket not found")
)

func clone(b []byte) []byte {
	r := make([]byte, len(b))
	copy(r, b)
	return r
}

func openDisk(path string) (*disk, error) {
	mu.Lock()
	defer mu.Unlock()
	if path == "" {
		return nil, os.ErrNotExist
	}
	d := disks[path]
	if d == nil {
		d = &disk{name: path}
		disks[path] = d
	}
	if d.open {
		return nil, errLocked
	}
	d.open = true
	return d, nil
}

func (d *disk) find(k []byte) int {
	for i := range d.data {
		if string(d.data[i].k) == string(k) {
			return i
		}
	}
	return -1
}

func (d *disk) get(k []byte) ([]byte, bool) {
	if i := d.find(k); i >= 0 {
		return d.data[i].v, true
	}
	return nil, false
}

func (d *disk) set(k, v []byte) {
	// the stored pairs are never changed in place: iterators hold a snapshot
	p := pair{clone(k), clone(v)}
	var n []pair
	done := false
	for _, x := range d.data {
		if string(x.k) == string(k) {
			n = append(n, p)
			done = true
			continue
		}
		if !done && string(k) < string(x.k) {
			n = append(n, p)
			done = true
		}
		n = append(n, x)
	}
	if !done {
		n = append(n, p)
	}
	d.data = n
}

func (d *disk) del(k []byte) {
	i := d.find(k)
	if i < 0 {
		return
	}
	var n []pair
	n = append(n, d.data[:i]...)
	d.data = append(n, d.data[i+1:]...)
}

// ---- goleveldb ----

var ldbs = map[*leveldb.DB]*disk{}

func ldb(db *leveldb.DB) *disk {
	d := ldbs[db]
	if d == nil || !d.open {
		return nil
	}
	return d
}

//vsym:replace github.com/syndtr/goleveldb/leveldb.OpenFile
func LdbOpenFile(path string, o *opt.Options) (*leveldb.DB, error) {
	d, err := openDisk(path)
	if err != nil {
		return nil, err
	}
	mu.Lock()
	defer mu.Unlock()
	db := new(leveldb.DB)
	ldbs[db] = d
	return db, nil
}

//vsym:replace (*github.com/syndtr/goleveldb/leveldb.DB).Put
func LdbPut(db *leveldb.DB, k, v []byte, o *opt.WriteOptions) error {
	mu.Lock()
	defer mu.Unlock()
	d := ldb(db)
	if d == nil {
		return errClosed
	}
	d.set(k, v)
	return nil
}

//vsym:replace (*github.com/syndtr/goleveldb/leveldb.DB).Get
func LdbGet(db *leveldb.DB, k []byte, o *opt.ReadOptions) ([]byte, error) {
	mu.Lock()
	defer mu.Unlock()
	d := ldb(db)
	if d == nil {
		return nil, errClosed
	}
	v, ok := d.get(k)
	if !ok {
		return nil, errNotFound
	}
	return clone(v), nil
}

//vsym:replace (*github.com/syndtr/goleveldb/leveldb.DB).Has
func LdbHas(db *leveldb.DB, k []byte, o *opt.ReadOptions) (bool, error) {
	mu.Lock()
	defer mu.Unlock()
	d := ldb(db)
	if d == nil {
		return false, errClosed
	}
	_, ok := d.get(k)
	return ok, nil
}

//vsym:replace (*github.com/syndtr/goleveldb/leveldb.DB).Delete
func LdbDelete(db *leveldb.DB, k []byte, o *opt.WriteOptions) error {
	mu.Lock()
	defer mu.Unlock()
	d := ldb(db)
	if d == nil {
		return errClosed
	}
	d.del(k)
	return nil
}

//vsym:replace (*github.com/syndtr/goleveldb/leveldb.DB).Close
func LdbClose(db *leveldb.DB) error {
	mu.Lock()
	defer mu.Unlock()
	d := ldb(db)
	if d == nil {
		return errClosed
	}
	d.open = false
	delete(ldbs, db)
	return nil
}

//vsym:replace (*github.com/syndtr/goleveldb/leveldb.DB).SizeOf
func LdbSizeOf(db *leveldb.DB, r []util.Range) (leveldb.Sizes, error) {
	return make(leveldb.Sizes, len(r)), nil
}

//vsym:replace (*github.com/syndtr/goleveldb/leveldb.DB).NewIterator
func LdbNewIterator(db *leveldb.DB, r *util.Range, o *opt.ReadOptions) iterator.Iterator {
	mu.Lock()
	defer mu.Unlock()
	d := ldb(db)
	if d == nil {
		return &ldbIter{err: errClosed, at: -1}
	}
	var s []pair
	for _, x := range d.data {
		if r != nil && (r.Start != nil && string(x.k) < string(r.Start) || r.Limit != nil && string(x.k) >= string(r.Limit)) {
			continue
		}
		s = append(s, x)
	}
	return &ldbIter{s: s, at: -1}
}

type ldbIter struct {
	s        []pair
	at       int
	err      error
	k, v     []byte
	released bool
	rel      util.Releaser
}

// load invalidates the slices handed out for the previous position.
func (i *ldbIter) load() bool {
	for j := range i.k {
		i.k[j] = 0xff
	}
	for j := range i.v {
		i.v[j] = 0xff
	}
	i.k, i.v = nil, nil
	if i.released {
		i.err = errors.New("iterator released")
		return false
	}
	if i.at < 0 || i.at >= len(i.s) {
		return false
	}
	i.k, i.v = clone(i.s[i.at].k), clone(i.s[i.at].v)
	return true
}

func (i *ldbIter) First() bool { i.at = 0; return i.load() }
func (i *ldbIter) Last() bool  { i.at = len(i.s) - 1; return i.load() }
func (i *ldbIter) Next() bool {
	if i.at < len(i.s) {
		i.at++
	}
	return i.load()
}
func (i *ldbIter) Prev() bool {
	if i.at >= 0 {
		i.at--
	}
	return i.load()
}
func (i *ldbIter) Seek(k []byte) bool {
	for i.at = 0; i.at < len(i.s); i.at++ {
		if string(i.s[i.at].k) >= string(k) {
			break
		}
	}
	return i.load()
}
func (i *ldbIter) Release()                    { i.released = true; i.k, i.v = nil, nil }
func (i *ldbIter) SetReleaser(r util.Releaser) { i.rel = r }
func (i *ldbIter) Valid() bool                 { return i.k != nil }
func (i *ldbIter) Error() error                { return i.err }
func (i *ldbIter) Key() []byte                 { return i.k }
func (i *ldbIter) Value() []byte               { return i.v }

// ---- badger ----

var badgers = map[*badger.DB]*disk{}

type bgTxn struct {
	d      *disk
	snap   []pair
	write  bool
	puts   []pair // by order; v nil and del set: deletion
	dels   []bool
	closed bool
}

var txns = map[*badger.Txn]*bgTxn{}

func bg(db *badger.DB) *disk {
	d := badgers[db]
	if d == nil || !d.open {
		return nil
	}
	return d
}

//vsym:replace github.com/dgraph-io/badger.DefaultOptions
func BgDefaultOptions(path string) badger.Options { return badger.Options{Dir: path, ValueDir: path} }

//vsym:replace github.com/dgraph-io/badger.Open
func BgOpen(o badger.Options) (*badger.DB, error) {
	d, err := openDisk(o.Dir)
	if err != nil {
		return nil, err
	}
	mu.Lock()
	defer mu.Unlock()
	db := new(badger.DB)
	badgers[db] = d
	return db, nil
}

//vsym:replace (*github.com/dgraph-io/badger.DB).NewTransaction
func BgNewTransaction(db *badger.DB, update bool) *badger.Txn {
	mu.Lock()
	defer mu.Unlock()
	d := bg(db)
	if d == nil {
		panic("DB closed")
	}
	t := new(badger.Txn)
	txns[t] = &bgTxn{d: d, snap: d.data, write: update}
	return t
}

//vsym:replace (*github.com/dgraph-io/badger.DB).Update
func BgUpdate(db *badger.DB, fn func(t *badger.Txn) error) error {
	t := BgNewTransaction(db, true)
	if err := fn(t); err != nil {
		BgDiscard(t)
		return err
	}
	return BgCommit(t)
}

//vsym:replace (*github.com/dgraph-io/badger.DB).View
func BgView(db *badger.DB, fn func(t *badger.Txn) error) error {
	t := BgNewTransaction(db, false)
	err := fn(t)
	BgDiscard(t)
	return err
}

//vsym:replace (*github.com/dgraph-io/badger.Txn).Commit
func BgCommit(t *badger.Txn) error {
	mu.Lock()
	defer mu.Unlock()
	x := txns[t]
	if x.closed {
		return badger.ErrDiscardedTxn
	}
	x.closed = true
	for i, p := range x.puts {
		if x.dels[i] {
			x.d.del(p.k)
		} else {
			x.d.set(p.k, p.v)
		}
	}
	return nil
}

//vsym:replace (*github.com/dgraph-io/badger.Txn).Discard
func BgDiscard(t *badger.Txn) {
	mu.Lock()
	defer mu.Unlock()
	txns[t].closed = true
}

func (x *bgTxn) check(k []byte) error {
	switch {
	case !x.write:
		return badger.ErrReadOnlyTxn
	case x.closed:
		return badger.ErrDiscardedTxn
	case len(k) == 0:
		return badger.ErrEmptyKey
	}
	return nil
}

//vsym:replace (*github.com/dgraph-io/badger.Txn).Set
func BgSet(t *badger.Txn, k, v []byte) error {
	mu.Lock()
	defer mu.Unlock()
	x := txns[t]
	if err := x.check(k); err != nil {
		return err
	}
	x.puts, x.dels = append(x.puts, pair{k, v}), append(x.dels, false)
	return nil
}

//vsym:replace (*github.com/dgraph-io/badger.Txn).Delete
func BgDelete(t *badger.Txn, k []byte) error {
	mu.Lock()
	defer mu.Unlock()
	x := txns[t]
	if err := x.check(k); err != nil {
		return err
	}
	x.puts, x.dels = append(x.puts, pair{k, nil}), append(x.dels, true)
	return nil
}

type bgItem struct {
	t    *bgTxn
	k, v []byte
}

var items = map[*badger.Item]*bgItem{}

func newItem(x *bgTxn, k, v []byte) *badger.Item {
	it := new(badger.Item)
	items[it] = &bgItem{x, clone(k), v}
	return it
}

//vsym:replace (*github.com/dgraph-io/badger.Txn).Get
func BgGet(t *badger.Txn, k []byte) (*badger.Item, error) {
	mu.Lock()
	defer mu.Unlock()
	x := txns[t]
	if len(k) == 0 {
		return nil, badger.ErrEmptyKey
	}
	if x.closed {
		return nil, badger.ErrDiscardedTxn
	}
	for i := len(x.puts) - 1; i >= 0; i-- {
		if string(x.puts[i].k) == string(k) {
			if x.dels[i] {
				return nil, badger.ErrKeyNotFound
			}
			return newItem(x, k, x.puts[i].v), nil
		}
	}
	for _, p := range x.snap {
		if string(p.k) == string(k) {
			return newItem(x, k, p.v), nil
		}
	}
	return nil, badger.ErrKeyNotFound
}

//vsym:replace (*github.com/dgraph-io/badger.Item).ValueCopy
func BgValueCopy(it *badger.Item, dst []byte) ([]byte, error) {
	mu.Lock()
	defer mu.Unlock()
	x := items[it]
	return append(dst[:0], x.v...), nil
}

//vsym:replace (*github.com/dgraph-io/badger.Item).Value
func BgValue(it *badger.Item, fn func(v []byte) error) error {
	mu.Lock()
	x := items[it]
	v := clone(x.v)
	mu.Unlock()
	err := fn(v)
	for i := range v {
		v[i] = 0xff // only valid within fn
	}
	return err
}

//vsym:replace (*github.com/dgraph-io/badger.Item).Key
func BgKey(it *badger.Item) []byte {
	mu.Lock()
	defer mu.Unlock()
	return items[it].k
}

//vsym:replace (*github.com/dgraph-io/badger.Item).KeyCopy
func BgKeyCopy(it *badger.Item, dst []byte) []byte {
	mu.Lock()
	defer mu.Unlock()
	return append(dst[:0], items[it].k...)
}

type bgIter struct {
	s   []pair
	at  int
	t   *bgTxn
	cur *badger.Item
}

var iters = map[*badger.Iterator]*bgIter{}

//vsym:replace (*github.com/dgraph-io/badger.Txn).NewIterator
func BgNewIterator(t *badger.Txn, o badger.IteratorOptions) *badger.Iterator {
	mu.Lock()
	defer mu.Unlock()
	x := txns[t]
	if x.closed {
		panic("Transaction has already been discarded")
	}
	it := new(badger.Iterator)
	i := &bgIter{t: x, at: -1}
	for _, p := range x.snap {
		n := len(o.Prefix)
		if len(p.k) >= n && string(p.k[:n]) == string(o.Prefix) {
			i.s = append(i.s, p)
		}
	}
	if o.Reverse {
		for a, b := 0, len(i.s)-1; a < b; a, b = a+1, b-1 {
			i.s[a], i.s[b] = i.s[b], i.s[a]
		}
	}
	iters[it] = i
	return it
}

func (i *bgIter) load() {
	if i.cur != nil {
		k := items[i.cur].k
		for j := range k {
			k[j] = 0xff // only valid until the iterator moves
		}
	}
	i.cur = nil
	if i.at >= 0 && i.at < len(i.s) {
		i.cur = newItem(i.t, i.s[i.at].k, i.s[i.at].v)
	}
}

//vsym:replace (*github.com/dgraph-io/badger.Iterator).Rewind
func BgRewind(it *badger.Iterator) {
	mu.Lock()
	defer mu.Unlock()
	i := iters[it]
	i.at = 0
	i.load()
}

//vsym:replace (*github.com/dgraph-io/badger.Iterator).Next
func BgNext(it *badger.Iterator) {
	mu.Lock()
	defer mu.Unlock()
	i := iters[it]
	i.at++
	i.load()
}

//vsym:replace (*github.com/dgraph-io/badger.Iterator).Valid
func BgValid(it *badger.Iterator) bool {
	mu.Lock()
	defer mu.Unlock()
	i := iters[it]
	return i.at >= 0 && i.at < len(i.s)
}

//vsym:replace (*github.com/dgraph-io/badger.Iterator).Item
func BgItem(it *badger.Iterator) *badger.Item {
	mu.Lock()
	defer mu.Unlock()
	return iters[it].cur
}

//vsym:replace (*github.com/dgraph-io/badger.Iterator).Close
func BgIterClose(it *badger.Iterator) {}

//vsym:replace (*github.com/dgraph-io/badger.DB).Size
func BgSize(db *badger.DB) (int64, int64) { return 0, 0 }

//vsym:replace (*github.com/dgraph-io/badger.DB).Sync
func BgSync(db *badger.DB) error { return nil }

//vsym:replace (*github.com/dgraph-io/badger.DB).Close
func BgClose(db *badger.DB) error {
	mu.Lock()
	defer mu.Unlock()
	d := bg(db)
	if d == nil {
		return nil
	}
	d.open = false
	delete(badgers, db)
	return nil
}

// ---- bbolt ----

type boltTx struct {
	d       *disk
	write   bool
	data    []pair // own view
	buckets map[string]bool
	closed  bool
	lent    [][]byte
}

var (
	bolts   = map[*bolt.DB]*disk{}
	btxs    = map[*bolt.Tx]*boltTx{}
	buckets = map[*bolt.Bucket]*boltBucket{}
	cursors = map[*bolt.Cursor]*boltCursor{}
	made    = map[string]map[string]bool{} // file -> buckets
)

type boltBucket struct {
	t    *boltTx
	name string
}

type boltCursor struct {
	b  *boltBucket
	at int
}

//vsym:replace go.etcd.io/bbolt.Open
func BoltOpen(path string, mode os.FileMode, o *bolt.Options) (*bolt.DB, error) {
	d, err := openDisk(path)
	if err != nil {
		return nil, err
	}
	mu.Lock()
	defer mu.Unlock()
	db := new(bolt.DB)
	bolts[db] = d
	if made[path] == nil {
		made[path] = map[string]bool{}
	}
	return db, nil
}

func boltBegin(db *bolt.DB, write bool) (*bolt.Tx, *boltTx, error) {
	mu.Lock()
	defer mu.Unlock()
	d := bolts[db]
	if d == nil || !d.open {
		return nil, nil, bolt.ErrDatabaseNotOpen
	}
	t := new(bolt.Tx)
	x := &boltTx{d: d, write: write, data: d.data, buckets: map[string]bool{}}
	for b := range made[d.name] {
		x.buckets[b] = true
	}
	btxs[t] = x
	return t, x, nil
}

func (x *boltTx) end(commit bool) {
	x.closed = true
	if commit {
		x.d.data = x.data
		made[x.d.name] = x.buckets
	}
	x.d.lent = append(x.d.lent, x.lent...)
}

//vsym:replace (*go.etcd.io/bbolt.DB).Update
func BoltUpdate(db *bolt.DB, fn func(*bolt.Tx) error) error {
	t, x, err := boltBegin(db, true)
	if err != nil {
		return err
	}
	err = fn(t)
	mu.Lock()
	defer mu.Unlock()
	x.end(err == nil)
	return err
}

//vsym:replace (*go.etcd.io/bbolt.DB).Batch
func BoltBatch(db *bolt.DB, fn func(*bolt.Tx) error) error { return BoltUpdate(db, fn) }

//vsym:replace (*go.etcd.io/bbolt.DB).View
func BoltView(db *bolt.DB, fn func(*bolt.Tx) error) error {
	t, x, err := boltBegin(db, false)
	if err != nil {
		return err
	}
	err = fn(t)
	mu.Lock()
	defer mu.Unlock()
	x.end(false)
	return err
}

//vsym:replace (*go.etcd.io/bbolt.Tx).CreateBucketIfNotExists
func BoltCreateBucketIfNotExists(t *bolt.Tx, name []byte) (*bolt.Bucket, error) {
	mu.Lock()
	defer mu.Unlock()
	x := btxs[t]
	if !x.write {
		return nil, bolt.ErrTxNotWritable
	}
	if len(name) == 0 {
		return nil, bolt.ErrBucketNameRequired
	}
	x.buckets[string(name)] = true
	b := new(bolt.Bucket)
	buckets[b] = &boltBucket{x, string(name)}
	return b, nil
}

//vsym:replace (*go.etcd.io/bbolt.Tx).CreateBucket
func BoltCreateBucket(t *bolt.Tx, name []byte) (*bolt.Bucket, error) {
	mu.Lock()
	old := btxs[t].buckets[string(name)]
	mu.Unlock()
	if old {
		return nil, bolt.ErrBucketExists
	}
	return BoltCreateBucketIfNotExists(t, name)
}

//vsym:replace (*go.etcd.io/bbolt.Tx).Bucket
func BoltTxBucket(t *bolt.Tx, name []byte) *bolt.Bucket {
	mu.Lock()
	defer mu.Unlock()
	x := btxs[t]
	if !x.buckets[string(name)] {
		return nil
	}
	b := new(bolt.Bucket)
	buckets[b] = &boltBucket{x, string(name)}
	return b
}

// full keys: the bucket name, a zero byte, the key.
func (b *boltBucket) full(k []byte) []byte {
	r := append([]byte(b.name), 0)
	return append(r, k...)
}

func (x *boltTx) lend(v []byte) []byte {
	c := clone(v)
	x.lent = append(x.lent, c)
	return c
}

//vsym:replace (*go.etcd.io/bbolt.Bucket).Get
func BoltGet(b *bolt.Bucket, k []byte) []byte {
	mu.Lock()
	defer mu.Unlock()
	x := buckets[b]
	if x.t.closed {
		panic("tx closed")
	}
	tmp := &disk{data: x.t.data}
	v, ok := tmp.get(x.full(k))
	if !ok {
		return nil
	}
	return x.t.lend(v)
}

//vsym:replace (*go.etcd.io/bbolt.Bucket).Put
func BoltPut(b *bolt.Bucket, k, v []byte) error {
	mu.Lock()
	defer mu.Unlock()
	x := buckets[b]
	if x.t.closed {
		return bolt.ErrTxClosed
	}
	if !x.t.write {
		return bolt.ErrTxNotWritable
	}
	if len(k) == 0 {
		return bolt.ErrKeyRequired
	}
	tmp := &disk{data: x.t.data}
	tmp.set(x.full(k), v)
	x.t.data = tmp.data
	return nil
}

//vsym:replace (*go.etcd.io/bbolt.Bucket).Delete
func BoltDelete(b *bolt.Bucket, k []byte) error {
	mu.Lock()
	defer mu.Unlock()
	x := buckets[b]
	if x.t.closed {
		return bolt.ErrTxClosed
	}
	if !x.t.write {
		return bolt.ErrTxNotWritable
	}
	tmp := &disk{data: x.t.data}
	tmp.del(x.full(k))
	x.t.data = tmp.data
	return nil
}

//vsym:replace (*go.etcd.io/bbolt.Bucket).ForEach
func BoltForEach(b *bolt.Bucket, fn func(k, v []byte) error) error {
	c := BoltBucketCursor(b)
	for k, v := BoltFirst(c); k != nil; k, v = BoltNext(c) {
		if err := fn(k, v); err != nil {
			return err
		}
	}
	return nil
}

//vsym:replace (*go.etcd.io/bbolt.Bucket).Cursor
func BoltBucketCursor(b *bolt.Bucket) *bolt.Cursor {
	mu.Lock()
	defer mu.Unlock()
	c := new(bolt.Cursor)
	cursors[c] = &boltCursor{buckets[b], -1}
	return c
}

func (c *boltCursor) rows() []pair {
	var r []pair
	pre := string(c.b.full(nil))
	for _, p := range c.b.t.data {
		if len(p.k) >= len(pre) && string(p.k[:len(pre)]) == pre {
			r = append(r, pair{p.k[len(pre):], p.v})
		}
	}
	return r
}

func (c *boltCursor) at1(i int) ([]byte, []byte) {
	r := c.rows()
	c.at = i
	if i < 0 || i >= len(r) {
		return nil, nil
	}
	return c.b.t.lend(r[i].k), c.b.t.lend(r[i].v)
}

//vsym:replace (*go.etcd.io/bbolt.Cursor).First
func BoltFirst(c *bolt.Cursor) ([]byte, []byte) {
	mu.Lock()
	defer mu.Unlock()
	return cursors[c].at1(0)
}

//vsym:replace (*go.etcd.io/bbolt.Cursor).Last
func BoltLast(c *bolt.Cursor) ([]byte, []byte) {
	mu.Lock()
	defer mu.Unlock()
	return cursors[c].at1(len(cursors[c].rows()) - 1)
}

//vsym:replace (*go.etcd.io/bbolt.Cursor).Next
func BoltNext(c *bolt.Cursor) ([]byte, []byte) {
	mu.Lock()
	defer mu.Unlock()
	return cursors[c].at1(cursors[c].at + 1)
}

//vsym:replace (*go.etcd.io/bbolt.Cursor).Prev
func BoltPrev(c *bolt.Cursor) ([]byte, []byte) {
	mu.Lock()
	defer mu.Unlock()
	return cursors[c].at1(cursors[c].at - 1)
}

//vsym:replace (*go.etcd.io/bbolt.Cursor).Seek
func BoltSeek(c *bolt.Cursor, k []byte) ([]byte, []byte) {
	mu.Lock()
	defer mu.Unlock()
	x := cursors[c]
	for i, p := range x.rows() {
		if string(p.k) >= string(k) {
			return x.at1(i)
		}
	}
	return x.at1(len(x.rows()))
}

//vsym:replace (*go.etcd.io/bbolt.DB).Path
func BoltPath(db *bolt.DB) string {
	mu.Lock()
	defer mu.Unlock()
	if d := bolts[db]; d != nil {
		return d.name
	}
	return ""
}

//vsym:replace (*go.etcd.io/bbolt.DB).Sync
func BoltSync(db *bolt.DB) error { return nil }

//vsym:replace (*go.etcd.io/bbolt.DB).Close
func BoltClose(db *bolt.DB) error {
	mu.Lock()
	defer mu.Unlock()
	d := bolts[db]
	if d == nil {
		return nil
	}
	for _, m := range d.lent {
		for i := range m {
			m[i] = 0xfe // the file is no longer mapped
		}
	}
	d.lent = nil
	d.open = false
	delete(bolts, db)
	return nil
}

// Reset drops every database (between two parts of a harness).
func Reset() { disks = map[string]*disk{} }
