//go:build go1.22

package main

// Two nodes running the real ABCI application - real Merkle stores, signed transactions through the ante handler - on
// every history of the families up to a depth. One is stopped and started again from its database after every commit
// and in between checks and simulates transactions it never delivers; the other runs through. A third participant is
// the engine every other check explores with, which must reach the same stores.

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	abci "github.com/tendermint/tendermint/abci/types"
	"github.com/tendermint/tendermint/libs/log"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	dbm "github.com/tendermint/tm-db"

	"github.com/cosmos/cosmos-sdk/baseapp"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	"github.com/cosmos/cosmos-sdk/store"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authsign "github.com/cosmos/cosmos-sdk/x/auth/signing"

	"github.com/arterynetwork/artr/app"
	voting "github.com/arterynetwork/artr/x/voting/types"
)

// ---- accounts with keys

var realKeys bool

func accKey(name string) *secp256k1.PrivKey {
	return secp256k1.GenPrivKeyFromSecret([]byte("artr-mc/" + name))
}

var accAddrs sync.Map // name -> address

func keyAddr(name string) sdk.AccAddress {
	if a, ok := accAddrs.Load(name); ok {
		return a.(sdk.AccAddress)
	}
	a := sdk.AccAddress(accKey(name).PubKey().Address())
	accAddrs.Store(name, a)
	return a
}

// ---- a node

type node struct {
	app *app.ArteryApp
	ec  app.EncodingConfig
	cms sdk.CommitMultiStore
}

func startNode(m *Machine, db dbm.DB, cache bool) (n *node, err error) {
	err = guard(func() error {
		n = &node{ec: m.ec}
		opts := []func(*baseapp.BaseApp){func(b *baseapp.BaseApp) {
			n.cms = store.NewCommitMultiStore(db)
			b.SetCMS(n.cms)
		}}
		if cache {
			opts = append(opts, baseapp.SetInterBlockCache(store.NewCommitKVStoreCacheManager()))
		}
		n.app = app.NewArteryApp(log.NewNopLogger(), db, nil, true, 0, n.ec, opts...)
		return nil
	})
	return
}

// nodeBlock is everything consensus gives to the application for one block.
type nodeBlock struct {
	h   int64
	t   time.Time
	in  BlockIn
	txs [][]byte
}

// result is what consensus sees of a block, and the stores afterwards.
type nodeResult struct {
	hash  string
	ans   string
	codes []uint32
	logs  []string
}

func (n *node) initChain(state []byte) error {
	return guard(func() error {
		n.app.InitChain(abci.RequestInitChain{Time: t0, ChainId: chainID, AppStateBytes: state})
		return nil
	})
}

func evText(l []abci.Event) string {
	var b strings.Builder
	for _, e := range l {
		b.WriteString(e.Type)
		// the order of an event's attributes is not part of what nodes agree on
		var l []string
		for _, a := range e.Attributes {
			l = append(l, fmt.Sprintf("%s=%q", a.Key, a.Value))
		}
		sort.Strings(l)
		b.WriteString(" " + strings.Join(l, " ") + "; ")
	}
	return b.String()
}

// run executes a block; with commit false the node is dropped before it commits.
func (n *node) run(b nodeBlock, commit bool) (r nodeResult, err error) {
	err = guard(func() error {
		hdr := tmproto.Header{ChainID: chainID, Height: b.h, Time: b.t, ProposerAddress: b.in.Proposer}
		var ans strings.Builder
		r1 := n.app.BeginBlock(abci.RequestBeginBlock{Header: hdr, LastCommitInfo: abci.LastCommitInfo{Votes: b.in.Votes}, ByzantineValidators: b.in.Evidence})
		fmt.Fprintf(&ans, "begin: %s\n", evText(r1.Events))
		for _, tx := range b.txs {
			r2 := n.app.DeliverTx(abci.RequestDeliverTx{Tx: tx})
			fmt.Fprintf(&ans, "tx: code %d %s data %x gas %d/%d events %s\n", r2.Code, r2.Codespace, r2.Data, r2.GasUsed, r2.GasWanted, evText(r2.Events))
			r.codes = append(r.codes, r2.Code)
			r.logs = append(r.logs, r2.Log)
		}
		r3 := n.app.EndBlock(abci.RequestEndBlock{Height: b.h})
		var vals []string
		for _, v := range r3.ValidatorUpdates {
			vals = append(vals, fmt.Sprintf("%x %d", v.PubKey.GetEd25519(), v.Power))
		}
		fmt.Fprintf(&ans, "end: %s validators %v params %v\n", evText(r3.Events), vals, r3.ConsensusParamUpdates)
		r.ans = ans.String()
		if commit {
			r.hash = hex.EncodeToString(n.app.Commit().Data)
		}
		return nil
	})
	if err != nil {
		err = fmt.Errorf("chain halt at height %d: %w", b.h, err)
	}
	return
}

// dump: what the committed stores hold, read the way the application reads them.
func (n *node) dump(m *Machine, i int) (ks []string, vs [][]byte) {
	it := n.cms.GetKVStore(n.app.GetKeys()[m.names[i]]).Iterator(nil, nil)
	defer it.Close()
	for ; it.Valid(); it.Next() {
		ks = append(ks, string(it.Key()))
		vs = append(vs, it.Value())
	}
	return
}

func (n *node) digest(m *Machine) string {
	h := sha256.New()
	for i := range m.names {
		if m.trans[i] {
			continue
		}
		ks, vs := n.dump(m, i)
		fmt.Fprintf(h, "%s %d\n", m.names[i], len(ks))
		for j, k := range ks {
			fmt.Fprintf(h, "%q %q\n", k, vs[j])
		}
	}
	return hex.EncodeToString(h.Sum(nil))
}

// sameAs compares the node's stores with the engine's; accounts differ by keys and sequences, which the engine has not.
func (n *node) sameAs(e *E) error {
	for i, name := range e.names {
		if e.trans[i] || name == "acc" {
			continue
		}
		ks, vs := n.dump(e.Machine, i)
		cur := e.st[i].cur
		for j := 0; j < len(ks) || j < len(cur.ks); j++ {
			switch {
			case j >= len(ks) || j < len(cur.ks) && cur.ks[j] < ks[j]:
				return fmt.Errorf("store %s: key %q only in the engine", name, cur.ks[j])
			case j >= len(cur.ks) || cur.ks[j] > ks[j]:
				return fmt.Errorf("store %s: key %q only in the node", name, ks[j])
			case !bytes.Equal(vs[j], cur.vs[j]):
				return fmt.Errorf("store %s: key %q is %q in the node, %q in the engine", name, ks[j], vs[j], cur.vs[j])
			}
		}
	}
	return nil
}

// sign makes the transaction of a message, signed by the named accounts, for the state the node has committed.
func (n *node) sign(ctx sdk.Context, seqs map[string]uint64, by string, msgs ...sdk.Msg) ([]byte, error) {
	ak := n.app.GetAccountKeeper()
	acc := ak.GetAccount(ctx, addr(by))
	if acc == nil {
		return nil, fmt.Errorf("no account %s", by)
	}
	seq := acc.GetSequence() + seqs[by]
	cfg := n.ec.TxConfig
	b := cfg.NewTxBuilder()
	var l []sdk.Msg
	m := &Machine{}
	for _, msg := range msgs {
		l = append(l, sdk.ServiceMsg{MethodName: m.method(msg), Request: msg.(sdk.MsgRequest)})
	}
	if err := b.SetMsgs(l...); err != nil {
		return nil, err
	}
	b.SetGasLimit(50_000_000)
	key := accKey(by)
	mode := cfg.SignModeHandler().DefaultMode()
	sig := signing.SignatureV2{PubKey: key.PubKey(), Data: &signing.SingleSignatureData{SignMode: mode}, Sequence: seq}
	if err := b.SetSignatures(sig); err != nil {
		return nil, err
	}
	bz, err := cfg.SignModeHandler().GetSignBytes(mode, authsign.SignerData{ChainID: chainID, AccountNumber: acc.GetAccountNumber(), Sequence: seq}, b.GetTx())
	if err != nil {
		return nil, err
	}
	s, err := key.Sign(bz)
	if err != nil {
		return nil, err
	}
	sig.Data = &signing.SingleSignatureData{SignMode: mode, Signature: s}
	if err := b.SetSignatures(sig); err != nil {
		return nil, err
	}
	return cfg.TxEncoder()(b.GetTx())
}

// kvDb is a database whose copies are free.
type kvDb struct{ s *memStore }

func newDb() *kvDb                           { return &kvDb{&memStore{cur: &kvs{}}} }
func copyDb(db *kvDb) *kvDb                  { return &kvDb{&memStore{cur: db.s.freeze()}} }
func (d *kvDb) Get(k []byte) ([]byte, error) { return d.s.Get(nonNil(k)), nil }
func (d *kvDb) Has(k []byte) (bool, error)   { return d.s.Has(nonNil(k)), nil }
func (d *kvDb) Set(k, v []byte) error        { d.s.Set(nonNil(k), nonNil(v)); return nil }
func (d *kvDb) SetSync(k, v []byte) error    { return d.Set(k, v) }
func (d *kvDb) Delete(k []byte) error        { d.s.Delete(nonNil(k)); return nil }
func (d *kvDb) DeleteSync(k []byte) error    { return d.Delete(k) }
func (d *kvDb) Iterator(a, b []byte) (dbm.Iterator, error) {
	return d.s.Iterator(a, b).(dbm.Iterator), nil
}
func (d *kvDb) ReverseIterator(a, b []byte) (dbm.Iterator, error) {
	return d.s.ReverseIterator(a, b).(dbm.Iterator), nil
}
func (d *kvDb) Close() error             { return nil }
func (d *kvDb) Print() error             { return nil }
func (d *kvDb) Stats() map[string]string { return nil }
func (d *kvDb) NewBatch() dbm.Batch      { return &kvBatch{d: d} }

func nonNil(b []byte) []byte {
	if b == nil {
		return []byte{}
	}
	return b
}

type kvBatch struct {
	d *kvDb
	l []func()
}

func (b *kvBatch) Set(k, v []byte) error {
	k, v = append([]byte{}, k...), append([]byte{}, v...)
	b.l = append(b.l, func() { _ = b.d.Set(k, v) })
	return nil
}
func (b *kvBatch) Delete(k []byte) error {
	k = append([]byte{}, k...)
	b.l = append(b.l, func() { _ = b.d.Delete(k) })
	return nil
}
func (b *kvBatch) Write() error {
	for _, f := range b.l {
		f()
	}
	b.l = nil
	return nil
}
func (b *kvBatch) WriteSync() error { return b.Write() }
func (b *kvBatch) Close() error     { b.l = nil; return nil }

// crashDb stops the process at a write: what was written before is there after the restart, nothing else.
type crashDb struct {
	*kvDb
	done, limit int // limit < 0: none
}

type crashed struct{}

func (c *crashDb) write() {
	if c.limit >= 0 && c.done >= c.limit {
		panic(crashed{})
	}
	c.done++
}
func (c *crashDb) Set(k, v []byte) error     { c.write(); return c.kvDb.Set(k, v) }
func (c *crashDb) SetSync(k, v []byte) error { c.write(); return c.kvDb.SetSync(k, v) }
func (c *crashDb) Delete(k []byte) error     { c.write(); return c.kvDb.Delete(k) }
func (c *crashDb) DeleteSync(k []byte) error { c.write(); return c.kvDb.DeleteSync(k) }
func (c *crashDb) NewBatch() dbm.Batch       { return &crashBatch{c.kvDb.NewBatch(), c} }

type crashBatch struct {
	dbm.Batch
	c *crashDb
}

func (b *crashBatch) Write() error     { b.c.write(); return b.Batch.Write() }
func (b *crashBatch) WriteSync() error { b.c.write(); return b.Batch.WriteSync() }

// ---- the tree of histories

type rec struct {
	name string
	blk  nodeBlock
	res  nodeResult
	dig  string
	kids []*rec
}

type spot struct {
	w    *World // the engine, within the open block
	db   *kvDb
	open nodeBlock // begun in the engine, not yet given to the nodes
	rec  *rec
	path []string
}

type nodesRun struct {
	m        *Machine
	f        Fam
	depth    int
	crash    int // histories up to this length are also crashed at every write and in the middle of blocks
	deadline time.Time
	mu       sync.Mutex
	res      *Result
	root     *rec
	db       *kvDb // after the first block
	m0       []*Machine
}

func (r *nodesRun) fail(path []string, err error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.res.Viol == nil || strings.Join(path, "\n") < strings.Join(r.res.Viol.Trace, "\n") {
		r.res.Viol = &Violation{Scenario: r.res.Scenario, Trace: append([]string{}, path...), Msg: err.Error(), Confirm: "deterministic enumeration"}
	}
}

func (r *nodesRun) count(states, trans, cmp int64) {
	r.mu.Lock()
	r.res.States += states
	r.res.Transitions += trans
	r.res.Compared += cmp
	r.mu.Unlock()
}

func (r *nodesRun) over() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	if time.Now().After(r.deadline) {
		r.res.Complete = false
		return true
	}
	return r.res.Viol != nil
}

func first(a, b nodeResult) error {
	if a.ans != b.ans {
		x, y := strings.Split(a.ans, "\n"), strings.Split(b.ans, "\n")
		for i := range x {
			if i >= len(y) || x[i] != y[i] {
				return fmt.Errorf("answers differ: %q and %q", x[i], y[i])
			}
		}
		return fmt.Errorf("answers differ")
	}
	if a.hash != b.hash {
		return fmt.Errorf("application hashes differ: %s and %s", a.hash, b.hash)
	}
	return nil
}

// step carries one spot over one operation: the restarted node and the engine.
func (r *nodesRun) step(m *Machine, s *spot, ops []sop, o sop) (*spot, error) {
	e := m.open(s.w)
	b := s.open
	db := copyDb(s.db)
	n, err := startNode(m, db, false)
	if err != nil {
		return nil, fmt.Errorf("restart: %w", err)
	}
	if h := n.app.LastBlockHeight(); h != b.h-1 {
		return nil, fmt.Errorf("restart at height %d instead of %d", h, b.h-1)
	}
	ctx := n.app.NewContext(true, tmproto.Header{ChainID: chainID, Height: b.h, Time: b.t})
	var tx []byte
	if o.msg != nil {
		by := nameOf(o.msg.GetSigners()[0].String())
		if tx, err = n.sign(ctx, nil, by, o.msg); err != nil {
			return nil, nil // nobody to sign
		}
		b.txs = [][]byte{tx}
	}
	// what other users try on this node meanwhile: everything at first, later a window that moves along
	noise := ops
	if k := len(s.path); k > 0 && len(ops) > 8 {
		h := sha256.Sum256([]byte(strings.Join(s.path, "\n") + "\n" + o.name))
		noise = nil
		for i := 0; i < 6; i++ {
			noise = append(noise, ops[(int(h[0])+i)%len(ops)])
		}
	}
	var tried [][]byte
	for _, x := range noise {
		if x.msg != nil {
			if t, err := n.sign(ctx, nil, nameOf(x.msg.GetSigners()[0].String()), x.msg); err == nil {
				tried = append(tried, t)
			}
		}
	}
	for _, t := range tried {
		_, _, _ = n.app.Simulate(t)
	}
	for _, t := range tried {
		n.app.CheckTx(abci.RequestCheckTx{Tx: t})
	}
	res, err := n.run(b, true)
	if err != nil {
		return nil, err
	}
	dig := n.digest(m)
	next := BlockIn{Dt: 10 * time.Second}
	if o.msg != nil {
		err := e.Deliver(nil, o.msg)
		if (err == nil) != (res.codes[0] == 0) {
			return nil, fmt.Errorf("the transaction gives code %d (%s), its message alone %v", res.codes[0], res.logs[0], err)
		}
	} else {
		next = *o.blk
	}
	if _, err := e.End(); err != nil {
		return nil, err
	}
	if err := n.sameAs(e); err != nil {
		return nil, fmt.Errorf("after height %d the node's stores are not what the engine's are: %v", b.h, err)
	}
	k := &rec{name: o.name, blk: b, res: res, dig: dig}
	c := &spot{db: db, rec: k, path: append(append([]string{}, s.path...), o.name)}
	trans, cmp := int64(1), int64(2)
	if len(s.path) < r.crash {
		t, err := r.crashes(m, s.db, k)
		trans, cmp = trans+t, cmp+t
		if err != nil {
			return nil, err
		}
	}
	if err := e.Begin(next); err != nil {
		return nil, err
	}
	c.open = nodeBlock{h: e.h, t: e.t, in: next}
	c.w = e.snap()
	r.count(1, trans, cmp)
	return c, nil
}

// crashes: the node is stopped in the middle of the block and at every write of its commit.
func (r *nodesRun) crashes(m *Machine, before *kvDb, k *rec) (n int64, err error) {
	for limit := -1; ; limit++ {
		db := copyDb(before)
		c := &crashDb{kvDb: db, limit: limit}
		nd, err := startNode(m, c, false)
		if err != nil {
			if _, ok := err.(panicErr); !ok {
				return n, err
			}
		}
		died := err != nil
		if !died {
			c.done = 0
			_, err = nd.run(k.blk, limit >= 0)
			died = err != nil
		}
		n++
		if limit >= 0 && !died {
			return n, nil // it needed no more writes than that
		}
		if nd, err = startNode(m, db, false); err != nil {
			return n, fmt.Errorf("restart after a crash at write %d: %w", limit, err)
		}
		switch h := nd.app.LastBlockHeight(); h {
		case k.blk.h - 1:
			res, err := nd.run(k.blk, true)
			if err == nil {
				err = first(res, k.res)
			}
			if err != nil {
				return n, fmt.Errorf("after a crash at write %d and a restart: %w", limit, err)
			}
		case k.blk.h:
			if x := hex.EncodeToString(nd.app.LastCommitID().Hash); x != k.res.hash {
				return n, fmt.Errorf("after a crash at write %d the committed hash is %s instead of %s", limit, x, k.res.hash)
			}
		default:
			return n, fmt.Errorf("after a crash at write %d the node is at height %d", limit, h)
		}
		if nd.digest(m) != k.dig {
			return n, fmt.Errorf("after a crash at write %d and a restart the stores differ", limit)
		}
	}
}

func (r *nodesRun) walk(m *Machine, s *spot, depth int, at func(*spot)) {
	if depth == 0 || r.over() {
		return
	}
	ops := r.f.Ops(m.open(s.w))
	for _, o := range ops {
		if o.do != nil || r.over() {
			continue
		}
		c, err := r.step(m, s, ops, o)
		if err != nil {
			r.fail(append(append([]string{}, s.path...), o.name), err)
			return
		}
		if c == nil {
			continue
		}
		r.mu.Lock()
		s.rec.kids = append(s.rec.kids, c.rec)
		r.mu.Unlock()
		if at != nil {
			at(c)
		} else {
			r.walk(m, c, depth-1, nil)
		}
	}
}

// through runs a whole history on a node that is never stopped.
func (r *nodesRun) through(m *Machine, path []*rec, cache bool) error {
	n, err := startNode(m, copyDb(r.db), cache)
	if err != nil {
		return err
	}
	for i, k := range path {
		res, err := n.run(k.blk, true)
		if err == nil {
			err = first(res, k.res)
		}
		if err == nil && n.digest(m) != k.dig {
			err = fmt.Errorf("the stores differ")
		}
		if err != nil {
			return fmt.Errorf("block %d of a node running through and of one restarted: %w", i+1, err)
		}
	}
	r.count(0, int64(len(path)), int64(len(path)))
	return nil
}

func (r *nodesRun) leaves(k *rec, path []*rec, f func([]*rec)) {
	if len(k.kids) == 0 {
		f(append([]*rec{}, path...))
		return
	}
	for _, c := range k.kids {
		r.leaves(c, append(path, c), f)
	}
}

func (r *nodesRun) all() {
	machines := make(chan *Machine, nWorkers)
	for i := 0; i < nWorkers; i++ {
		machines <- newMachine()
	}
	m := <-machines
	machines <- m
	g := r.f.Gen()
	e, err := g.Start(m)
	if err != nil {
		r.fail(nil, err)
		return
	}
	state, err := json.Marshal(g.State(m))
	if err != nil {
		r.fail(nil, err)
		return
	}
	// block 1: two nodes from genesis, one crashed before it commits anything
	db := newDb()
	var two [2]nodeResult
	for i := range two {
		db = newDb()
		var n *node
		if n, err = startNode(m, db, i == 1); err == nil {
			if err = n.initChain(state); err == nil && i == 1 {
				if n, err = startNode(m, db, false); err == nil {
					err = n.initChain(state)
				}
			}
			if err == nil {
				two[i], err = n.run(nodeBlock{h: 1, t: t0}, true)
			}
		}
		if err != nil {
			r.fail(nil, err)
			return
		}
	}
	if err := first(two[0], two[1]); err != nil {
		r.fail([]string{"genesis"}, err)
		return
	}
	r.db = db
	if _, err := e.End(); err != nil {
		r.fail(nil, err)
		return
	}
	if err := e.Begin(BlockIn{Dt: 10 * time.Second}); err != nil {
		r.fail(nil, err)
		return
	}
	r.root = &rec{}
	top := &spot{w: e.snap(), db: db, rec: r.root, open: nodeBlock{h: e.h, t: e.t, in: BlockIn{Dt: 10 * time.Second}}}
	setOrder(1, 400*Day)
	var level []*spot
	r.walk(m, top, 1, func(c *spot) { level = append(level, c) })
	if r.depth > 1 {
		par(len(level), func(i int) {
			m := <-machines
			r.walk(m, level[i], r.depth-1, nil)
			machines <- m
		})
	}
	var paths [][]*rec
	r.leaves(r.root, nil, func(p []*rec) { paths = append(paths, p) })
	for k := 0; k < 2; k++ {
		// half of them without and half with a cache; iteration of maps begins elsewhere in every group
		setOrder(3*k, 0)
		par(len(paths), func(i int) {
			if i%2 != k || r.over() {
				return
			}
			m := <-machines
			if err := r.through(m, paths[i], (i/2)%2 == 1); err != nil {
				var l []string
				for _, k := range paths[i] {
					l = append(l, k.name)
				}
				r.fail(l, err)
			}
			machines <- m
		})
	}
	setOrder(0, 0)
	if len(paths) > 0 {
		var l []string
		for _, k := range paths[len(paths)/2] {
			l = append(l, k.name)
		}
		r.res.Samples = append(r.res.Samples, r.f.Name+": "+strings.Join(l, " ; "))
	}
	r.res.Depth, r.res.DepthWanted = r.depth, r.depth
}

func par(n int, f func(i int)) {
	var wg sync.WaitGroup
	next := make(chan int)
	for w := 0; w < nWorkers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := range next {
				watch(w, &Scenario{Name: "nodes"}, nil, "a history of blocks")
				f(i)
				unwatch(w)
			}
		}(w)
	}
	for i := 0; i < n; i++ {
		next <- i
	}
	close(next)
	wg.Wait()
}

func famCouncil() Fam {
	return Fam{
		Name: "council", Depth: [2]int{4, 6},
		Note: "a government of two: proposals of several kinds and polls, votes and answers, up to and past their ends",
		Gen:  pollGen,
		Ops: func(e *E) []sop {
			end := t0.Add(30 * Day)
			return []sop{mPropose("g0", "min-send=4321", pMin(voting.PROPOSAL_TYPE_MIN_SEND, 4321)), mPropose("g1", "government-g0", pAddr(voting.PROPOSAL_TYPE_GOVERNMENT_REMOVE, "g0")),
				mPropose("g0", "upgrade", pUpgrade("later", &end, 0)),
				mVote("g0", true), mVote("g1", true), mVote("g1", false), mPoll("g0", "all", pollOf("1/2", 0)), mAnswer("a", true), mAnswer("b", true), mAnswer("b", false), blk(7 * time.Hour), blk(10 * time.Hour)}
		},
	}
}

// famMixed: a little of everything in one history.
func famMixed() Fam {
	return Fam{
		Name: "everything", Depth: [2]int{3, 5},
		Note: "one or two messages of every module in one chain: transfers, delegations, payments, sign-ups, transitions, validators, votes, polls, marks, long and short blocks",
		Gen: func() *Gen {
			g := pollGen()
			g.Ref.Params.TransitionPrice = 100
			return g
		},
		Ops: func(e *E) []sop {
			return []sop{
				mSend("a", "x", 5*artr), mDelegate("x", 3*artr), mRevoke("a", 500*artr), mExpress("b", 100*artr), mPay("x", 5), mCreate("oper", "nn", "a", nil), mNick("a", "Nick"), mBuyStorage("a", 2), mBuyVpn("a", 2), mAutoPay("a", true),
				mRequest("a", "b"), mApprove("v", "a"), mOff("a"), mOn("a", 1), mPropose("g0", "price", pPrice(voting.PROPOSAL_TYPE_ENTER_PRICE, 55)), mVote("g1", true), mPoll("g0", "all", pollOf("1/2", 0)), mAnswer("a", true),
				mEarner("oper", "a", 0, time.Hour), mRate("oper", 1, 7), mBurn("x", artr),
				blk(Day), blk(35 * Day),
			}
		},
	}
}

// famAfter: what is done after the government has decided.
func famAfter() Fam {
	return Fam{
		Name: "after decisions", Depth: [2]int{3, 4},
		Note: "a government of one decides anything at some time; before and after that messages of all modules and short and long blocks with votes and evidence",
		Gen: func() *Gen {
			g := pollGen()
			g.Vote.Government = g.Vote.Government[:1]
			return g
		},
		Ops: func(e *E) []sop {
			var r []sop
			decided := false
			_ = e.each(voting.StoreKey, func(k, _ []byte) error {
				decided = decided || bytes.HasPrefix(k, voting.KeyHistoryPrefix)
				return nil
			})
			if !decided {
				for _, p := range allProposals() {
					r = append(r, mPropose("g0", p.name, p.p))
				}
			}
			return append(r, mSend("a", "x", 5*artr), mDelegate("x", 3*artr), mRevoke("a", 500*artr), mPay("x", 5), mBuyStorage("a", 2), mBuyVpn("a", 2), mAutoPay("a", true), mRequest("a", "b"), mCreate("oper", "nn", "a", nil),
				mPoll("g0", "all", pollOf("1/2", 0)), mAnswer("a", true), mEarner("oper", "a", 0, time.Hour), mRate("oper", 1, 7),
				blk(Day), blk(35*Day), blk(400*Day))
		},
	}
}

func nodesExtra(tier string, deadline time.Time) (out []Result) {
	realKeys = true
	type fd struct {
		f      Fam
		quick  int
		deeper int
	}
	l := []fd{{famMoney(), 2, 3}, {famLife(), 2, 3}, {famTimers(), 3, 4}, {famTransit(), 2, 3}, {famRevoke(), 3, 3}, {famNicks(), 2, 3}, {famSubs(), 2, 3}, {famQuotas(), 2, 3}, {famMessenger(), 3, 3},
		{famJail(), 3, 4}, {famKeys(), 3, 4}, {famLottery(1, 1), 3, 4}, {famGov(3), 3, 4}, {famCouncil(), 3, 4}, {famMixed(), 2, 3}, {famMarks(), 3, 3}}
	for i, x := range l {
		start := time.Now()
		d := x.quick
		if tier == "thorough" {
			d = x.deeper
		}
		left := time.Until(deadline) / time.Duration(len(l)-i)
		if i < len(l)-1 {
			left = left * 3 / 2
		}
		r := &nodesRun{f: x.f, depth: d, crash: 1, deadline: start.Add(left), res: &Result{Scenario: "nodes: " + x.f.Name, Note: x.f.Note, Complete: true}}
		r.all()
		r.res.WallS = time.Since(start).Seconds()
		out = append(out, *r.res)
		if r.res.Viol != nil {
			return
		}
	}
	return
}

func init() {
	register(&Check{ID: "C23", Quick: 300 * time.Second,
		Scenarios: func(tier string) []*Scenario {
			// no property of its own: only that no block and no message may panic
			fs := []Fam{famMoney(), famDeep(), famLife(), famTimers(), famPendings(), famTransit(), famStatus(), famMoves(), famHigh(), famRevoke(), famInterest(), famLadder(), famPlain(), famShop(), famNicks(), famSubs(), famQuotas(), famMessenger(), famOverdue(),
				famJail(), famKeys(), famStake(), famLottery(1, 1), famLottery(2, 2), famSolo(), famPair(), famGov(3), famReform(), famPollKinds(), famAfter(), famMessages(), famRights(), famMarks(), famCouncil(), famMixed()}
			for i := range fs {
				switch fs[i].Name {
				case "deep", "lifecycle", "timers", "revoking", "interest", "subscriptions", "messenger", "stake":
					if tier != "thorough" {
						fs[i].Depth[0]--
					}
				}
			}
			return famScenarios(tier, fs, deco{})
		},
		Rule:  "every history of blocks of the families up to the depth, each on the real ABCI application: a node restarted from its database before every block (and simulating and checking all other transactions meanwhile), a node running through, and the engine of the other checks; stores, application hashes and answers are compared after every block; histories up to the crash bound are also stopped in the middle of a block and at every single write of the commit",
		Extra: nodesExtra})
}
