//go:build go1.22

package main

// Persistent (copy-on-write) key-value stores. A World holds one immutable *kvs per substore, so
// forking a state is free and a state is independent of the app instance that executes on it.

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"io"
	"sort"
	"sync/atomic"
	"unsafe"

	"github.com/cosmos/cosmos-sdk/store/cachekv"
	"github.com/cosmos/cosmos-sdk/store/cachemulti"
	stypes "github.com/cosmos/cosmos-sdk/store/types"
)

type kvs struct {
	ks   []string
	vs   [][]byte
	hash atomic.Pointer[[32]byte]
}

func (s *kvs) find(k string) (int, bool) {
	i := sort.SearchStrings(s.ks, k)
	return i, i < len(s.ks) && s.ks[i] == k
}

func (s *kvs) digest() [32]byte {
	if p := s.hash.Load(); p != nil {
		return *p
	}
	h := sha256.New()
	var n [8]byte
	for i, k := range s.ks {
		binary.LittleEndian.PutUint32(n[:4], uint32(len(k)))
		binary.LittleEndian.PutUint32(n[4:], uint32(len(s.vs[i])))
		h.Write(n[:])
		h.Write(unsafe.Slice(unsafe.StringData(k), len(k)))
		h.Write(s.vs[i])
	}
	var d [32]byte
	h.Sum(d[:0])
	s.hash.Store(&d)
	return d
}

// memStore is a mutable view of a *kvs; the first write copies.
type memStore struct {
	cur   *kvs
	owned bool
	bare  bool // hand out values themselves, as the real stores do
}

var _ stypes.KVStore = (*memStore)(nil)

func (m *memStore) freeze() *kvs { m.owned = false; return m.cur }

func (m *memStore) own() {
	if m.owned {
		return
	}
	n := &kvs{ks: make([]string, len(m.cur.ks), len(m.cur.ks)+4), vs: make([][]byte, len(m.cur.vs), len(m.cur.vs)+4)}
	copy(n.ks, m.cur.ks)
	copy(n.vs, m.cur.vs)
	m.cur, m.owned = n, true
}

func (m *memStore) GetStoreType() stypes.StoreType { return stypes.StoreTypeDB }
func (m *memStore) CacheWrap() stypes.CacheWrap    { return cachekv.NewStore(m) }
func (m *memStore) CacheWrapWithTrace(_ io.Writer, _ stypes.TraceContext) stypes.CacheWrap {
	return cachekv.NewStore(m)
}
func (m *memStore) Get(key []byte) []byte {
	if key == nil {
		panic("nil key")
	}
	if i, ok := m.cur.find(string(key)); ok {
		if m.bare {
			return m.cur.vs[i]
		}
		return append([]byte{}, m.cur.vs[i]...)
	}
	return nil
}
func (m *memStore) Has(key []byte) bool { _, ok := m.cur.find(string(key)); return ok }
func (m *memStore) Set(key, value []byte) {
	if key == nil || value == nil {
		panic("nil key or value")
	}
	k := string(key)
	i, ok := m.cur.find(k)
	if ok && bytes.Equal(m.cur.vs[i], value) {
		return
	}
	m.own()
	v := append([]byte{}, value...)
	if ok {
		m.cur.vs[i] = v
		return
	}
	m.cur.ks = append(m.cur.ks, "")
	m.cur.vs = append(m.cur.vs, nil)
	copy(m.cur.ks[i+1:], m.cur.ks[i:])
	copy(m.cur.vs[i+1:], m.cur.vs[i:])
	m.cur.ks[i], m.cur.vs[i] = k, v
}
func (m *memStore) Delete(key []byte) {
	i, ok := m.cur.find(string(key))
	if !ok {
		return
	}
	m.own()
	m.cur.ks = append(m.cur.ks[:i], m.cur.ks[i+1:]...)
	m.cur.vs = append(m.cur.vs[:i], m.cur.vs[i+1:]...)
}

type memIter struct {
	s          *kvs
	lo, hi, i  int
	rev        bool
	start, end []byte
}

func (m *memStore) iter(start, end []byte, rev bool) stypes.Iterator {
	m.owned = false // later writes copy: the iterator keeps a snapshot
	s := m.cur
	lo, hi := 0, len(s.ks)
	if start != nil {
		lo = sort.SearchStrings(s.ks, string(start))
	}
	if end != nil {
		hi = sort.SearchStrings(s.ks, string(end))
	}
	it := &memIter{s: s, lo: lo, hi: hi, i: lo, rev: rev, start: start, end: end}
	if rev {
		it.i = hi - 1
	}
	return it
}
func (m *memStore) Iterator(start, end []byte) stypes.Iterator { return m.iter(start, end, false) }
func (m *memStore) ReverseIterator(start, end []byte) stypes.Iterator {
	return m.iter(start, end, true)
}
func (it *memIter) Domain() ([]byte, []byte) { return it.start, it.end }
func (it *memIter) Valid() bool              { return it.i >= it.lo && it.i < it.hi }
func (it *memIter) Next() {
	if !it.Valid() {
		panic("iterator invalid")
	}
	if it.rev {
		it.i--
	} else {
		it.i++
	}
}
func (it *memIter) Key() []byte {
	if !it.Valid() {
		panic("iterator invalid")
	}
	return []byte(it.s.ks[it.i])
}
func (it *memIter) Value() []byte {
	if !it.Valid() {
		panic("iterator invalid")
	}
	return append([]byte{}, it.s.vs[it.i]...)
}
func (it *memIter) Error() error { return nil }
func (it *memIter) Close() error { return nil }

func newMulti(keys map[stypes.StoreKey]*memStore) stypes.CacheMultiStore {
	m := make(map[stypes.StoreKey]stypes.CacheWrapper, len(keys))
	for k, s := range keys {
		m[k] = s
	}
	return cachemulti.NewFromKVStore(&memStore{cur: &kvs{}}, m, nil, nil, nil)
}
