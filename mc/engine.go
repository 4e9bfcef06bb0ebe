//go:build go1.22

package main

// Explicit-state exploration of the real application. A state is the full content of every store plus
// block time/height (plus, where a check has one, its reference model). The transition relation is the
// application's own code: message handlers, BeginBlocker and EndBlocker, executed the way baseapp runs
// them (stateless validation, cached branch, write only on success, panics recovered for messages).

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gogo/protobuf/proto"
	abci "github.com/tendermint/tendermint/abci/types"
	"github.com/tendermint/tendermint/libs/log"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	dbm "github.com/tendermint/tm-db"

	"github.com/cosmos/cosmos-sdk/baseapp"
	stypes "github.com/cosmos/cosmos-sdk/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/app"
)

const chainID = "artery-mc"

var t0 = time.Date(2022, 1, 1, 0, 0, 0, 0, time.UTC)

type Model interface {
	Clone() Model
	Key() string
}

type World struct {
	st     []*kvs // by storeNames
	h      int64
	t      time.Time
	m      Model
	parent *World
	op     string
	depth  int
}

func (w *World) trace() []string {
	var r []string
	for x := w; x != nil && x.parent != nil; x = x.parent {
		r = append(r, x.op)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (w *World) hash(skip map[int]bool) [16]byte {
	h := sha256.New()
	for i, s := range w.st {
		if skip[i] {
			continue
		}
		d := s.digest()
		h.Write(d[:])
	}
	var n [16]byte
	binary.LittleEndian.PutUint64(n[:8], uint64(w.h))
	binary.LittleEndian.PutUint64(n[8:], uint64(w.t.UnixNano()))
	h.Write(n[:])
	if w.m != nil {
		h.Write([]byte(w.m.Key()))
	}
	var d [32]byte
	h.Sum(d[:0])
	var r [16]byte
	copy(r[:], d[:])
	return r
}

// Machine is an app instance; it keeps no chain state of its own between operations.
type Machine struct {
	app   *app.ArteryApp
	ec    app.EncodingConfig
	names []string
	keys  []stypes.StoreKey
	trans map[int]bool    // transient stores: not part of the state
	pnc   []string        // panics in hooks (schedule logs them)
	msgs  sdk.Router      // of messages given to the modules' own handlers
	asks  sdk.QueryRouter // of queries before gRPC
	exp   *app.ArteryApp  // exports
	win   *window         // what it exports
}

func newMachine(opts ...func(*app.ArteryApp)) *Machine {
	ec := app.NewEncodingConfig()
	m := &Machine{ec: ec, trans: map[int]bool{}}
	a := app.NewArteryApp(log.NewNopLogger(), dbm.NewMemDB(), nil, true, 0, ec,
		func(b *baseapp.BaseApp) {
			b.SetFauxMerkleMode()
			m.msgs, m.asks = b.Router(), b.QueryRouter()
		})
	m.app = a
	type nk struct {
		n string
		k stypes.StoreKey
		t bool
	}
	var l []nk
	for n, k := range a.GetKeys() {
		l = append(l, nk{n, k, false})
	}
	for n, k := range a.GetTransientKeys() {
		l = append(l, nk{n, k, true})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n < l[j].n })
	for i, x := range l {
		m.names = append(m.names, x.n)
		m.keys = append(m.keys, x.k)
		if x.t {
			m.trans[i] = true
		}
	}
	for _, o := range opts {
		o(a)
	}
	return m
}

func (m *Machine) storeIdx(name string) int {
	for i, n := range m.names {
		if n == name {
			return i
		}
	}
	panic("no store " + name)
}

// E executes operations on a mutable copy of a World.
type E struct {
	*Machine
	st     []*memStore
	ms     map[stypes.StoreKey]*memStore
	h      int64
	t      time.Time
	M      Model
	ev     []abci.Event // events of the last successful Tx / block step
	note   string       // appended to the op name in traces
	ctr    *counters
	aux    interface{}
	genUpd []abci.ValidatorUpdate // of InitChain
}

type counters struct {
	evals, accepted, rejected, compared int64
}

func (m *Machine) open(w *World) *E {
	e := &E{Machine: m, h: w.h, t: w.t, ctr: &counters{}}
	e.ms = make(map[stypes.StoreKey]*memStore, len(m.keys))
	for i, k := range m.keys {
		var s *memStore
		if m.trans[i] || w.st[i] == nil {
			s = &memStore{cur: &kvs{}}
		} else {
			s = &memStore{cur: w.st[i]}
		}
		e.st = append(e.st, s)
		e.ms[k] = s
	}
	if w.m != nil {
		e.M = w.m.Clone()
	}
	return e
}

func (e *E) snap() *World {
	w := &World{h: e.h, t: e.t, m: e.M}
	for i, s := range e.st {
		if e.trans[i] {
			w.st = append(w.st, emptyKvs)
		} else {
			w.st = append(w.st, s.freeze())
		}
	}
	return w
}

var emptyKvs = &kvs{}

// fork: independent copy to try something on.
func (e *E) fork() *E {
	w := e.snap()
	f := e.Machine.open(w)
	f.ctr = e.ctr
	f.aux = e.aux
	return f
}

func (e *E) header() tmproto.Header {
	return tmproto.Header{ChainID: chainID, Height: e.h, Time: e.t}
}

// ctx on a fresh branch; call write() to keep the changes.
func (e *E) branch() (sdk.Context, func()) {
	cms := newMulti(e.ms)
	return sdk.NewContext(cms, e.header(), false, log.NewNopLogger()), cms.Write
}

// Ctx is for reading; writes through it are dropped.
func (e *E) Ctx() sdk.Context { c, _ := e.branch(); return c }

type panicErr struct {
	v     interface{}
	stack string
}

func (p panicErr) Error() string { return fmt.Sprintf("panic: %v at %s", p.v, panicSite(p.stack)) }

func guard(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = panicErr{r, string(debug.Stack())}
		}
	}()
	return f()
}

// msgMethod maps a message type to its service method.
var msgMethod = map[string]string{}

func (m *Machine) method(msg sdk.Msg) string {
	n := proto.MessageName(msg.(proto.Message)) // artery.bank.v1beta1.MsgSend
	i := strings.LastIndex(n, ".")
	return "/" + n[:i] + ".Msg/" + strings.TrimPrefix(n[i+1:], "Msg")
}

// Deliver runs a message as baseapp does. `by` is the signer of the transaction.
func (e *E) Deliver(by sdk.AccAddress, msg sdk.Msg) error { return e.deliver(by, msg, false) }
func (e *E) deliver(by sdk.AccAddress, msg sdk.Msg, legacy bool) error {
	e.ev = nil
	e.ctr.evals++
	err := guard(func() error {
		if err := msg.ValidateBasic(); err != nil {
			return err
		}
		ss := msg.GetSigners()
		if by != nil {
			if len(ss) != 1 || !ss[0].Equals(by) {
				return fmt.Errorf("signature verification failed: required %v, signed by %v", ss, by)
			}
		}
		ctx, write := e.branch()
		ctx = ctx.WithEventManager(sdk.NewEventManager())
		var err error
		var res *sdk.Result
		if legacy {
			h := e.msgs.Route(ctx, msg.Route())
			if h == nil {
				return fmt.Errorf("unrecognized message route: %s", msg.Route())
			}
			res, err = h(ctx, msg)
		} else {
			h := e.app.MsgServiceRouter().Handler(e.method(msg))
			if h == nil {
				return fmt.Errorf("no service handler %s", e.method(msg))
			}
			mr, ok := msg.(sdk.MsgRequest)
			if !ok {
				return fmt.Errorf("not a MsgRequest: %T", msg)
			}
			res, err = h(ctx, mr)
		}
		if err != nil {
			return err
		}
		if res != nil {
			e.ev = append(e.ev, res.Events...)
		}
		write()
		return nil
	})
	if err == nil {
		e.ctr.accepted++
	} else {
		e.ctr.rejected++
	}
	return err
}

type BlockIn struct {
	Dt       time.Duration
	Proposer []byte
	Votes    []abci.VoteInfo
	Evidence []abci.Evidence
}

// Begin starts the next block. A panic here would halt the chain.
func (e *E) Begin(in BlockIn) error {
	e.h++
	e.t = e.t.Add(in.Dt)
	e.ev = nil
	ctx, write := e.branch()
	hdr := e.header()
	hdr.ProposerAddress = in.Proposer
	ctx = ctx.WithBlockHeader(hdr).WithEventManager(sdk.NewEventManager())
	err := guard(func() error {
		r := e.app.BeginBlocker(ctx, abci.RequestBeginBlock{
			Header:              hdr,
			LastCommitInfo:      abci.LastCommitInfo{Votes: in.Votes},
			ByzantineValidators: in.Evidence,
		})
		e.ev = r.Events
		return nil
	})
	if err != nil {
		return fmt.Errorf("chain halt in BeginBlock at height %d: %w", e.h, err)
	}
	write()
	return nil
}

func (e *E) End() ([]abci.ValidatorUpdate, error) {
	ctx, write := e.branch()
	ctx = ctx.WithEventManager(sdk.NewEventManager())
	var u []abci.ValidatorUpdate
	err := guard(func() error {
		u = e.app.EndBlocker(ctx, abci.RequestEndBlock{Height: e.h}).ValidatorUpdates
		return nil
	})
	if err != nil {
		return nil, fmt.Errorf("chain halt in EndBlock at height %d: %w", e.h, err)
	}
	write()
	return u, nil
}

// Block: end the current block and begin the next one.
func (e *E) Block(dt time.Duration) error {
	if _, err := e.End(); err != nil {
		return err
	}
	return e.Begin(BlockIn{Dt: dt})
}

// Query runs a gRPC query against the current state.
func (e *E) Query(path string, req, resp proto.Message) error {
	return e.queryCtx(e.Ctx(), path, req, resp)
}
func (e *E) queryCtx(ctx sdk.Context, path string, req, resp proto.Message) error {
	h := e.app.GRPCQueryRouter().Route(path)
	if h == nil {
		return fmt.Errorf("no query %s", path)
	}
	bz, err := proto.Marshal(req)
	if err != nil {
		return err
	}
	return guard(func() error {
		r, err := h(ctx, abci.RequestQuery{Data: bz, Path: path, Height: e.h})
		if err != nil {
			return err
		}
		resp.Reset()
		return e.ec.Marshaler.UnmarshalBinaryBare(r.Value, resp.(interface {
			proto.Message
			Marshal() ([]byte, error)
			MarshalTo([]byte) (int, error)
			MarshalToSizedBuffer([]byte) (int, error)
			Size() int
			Unmarshal([]byte) error
		}))
	})
}

func (e *E) each(store string, f func(k, v []byte) error) error {
	s := e.st[e.storeIdx(store)].cur
	for i := range s.ks {
		if err := f([]byte(s.ks[i]), s.vs[i]); err != nil {
			return err
		}
	}
	return nil
}
func (e *E) raw(store string, key []byte) []byte { return e.st[e.storeIdx(store)].Get(key) }

// ---------------------------------------------------------------------------------------- explorer

type Op struct {
	Name string
	Do   func(e *E) error // an error is a violation; errSkip: not enabled here
}

var errSkip = fmt.Errorf("skip")

type Scenario struct {
	Name  string
	Init  func(m *Machine) (*E, error) // initial state
	Ops   func(e *E) []Op              // enabled operations (must not change e)
	Inv   func(e *E) error             // checked once on every distinct state
	Depth int
	Opts  []func(*app.ArteryApp)
	Note  string
	// MaxStates: 0 = none
	MaxStates int
}

type Result struct {
	Scenario    string     `json:"scenario"`
	Note        string     `json:"note,omitempty"`
	States      int64      `json:"states"`
	Transitions int64      `json:"transitions"`
	Depth       int        `json:"depth_completed"`
	DepthWanted int        `json:"depth_bound"`
	Complete    bool       `json:"complete"`
	FixedPoint  bool       `json:"fixed_point"`
	Accepted    int64      `json:"messages_accepted"`
	Rejected    int64      `json:"messages_rejected"`
	Compared    int64      `json:"model_comparisons"`
	WallS       float64    `json:"wall_s"`
	Samples     []string   `json:"-"`
	Viol        *Violation `json:"-"`
}

type Violation struct {
	Scenario string   `json:"scenario"`
	Trace    []string `json:"trace"`
	Msg      string   `json:"what"`
	Confirm  string   `json:"replayed"`
}

const shards = 64

type seenSet struct {
	mu [shards]sync.Mutex
	m  [shards]map[[16]byte]struct{}
}

func (s *seenSet) add(h [16]byte) bool {
	i := h[0] % shards
	s.mu[i].Lock()
	defer s.mu[i].Unlock()
	if s.m[i] == nil {
		s.m[i] = map[[16]byte]struct{}{}
	}
	if _, ok := s.m[i][h]; ok {
		return false
	}
	s.m[i][h] = struct{}{}
	return true
}

var nWorkers = 8

func explore(sc *Scenario, deadline time.Time) (res Result) {
	start := time.Now()
	res = Result{Scenario: sc.Name, Note: sc.Note, DepthWanted: sc.Depth}
	defer func() { res.WallS = time.Since(start).Seconds() }()
	ms := make([]*Machine, nWorkers)
	var wg sync.WaitGroup
	for i := range ms {
		wg.Add(1)
		go func(i int) { defer wg.Done(); ms[i] = newMachine(sc.Opts...) }(i)
	}
	wg.Wait()

	watch(0, sc, nil, "reaching the initial state")
	e, err := initState(sc, ms[0])
	unwatch(0)
	if err != nil {
		res.Viol = &Violation{Scenario: sc.Name, Msg: "the initial state cannot be reached: " + err.Error(), Confirm: "not tried"}
		return
	}
	if sc.Inv != nil {
		if err := guard(func() error { return sc.Inv(e) }); err != nil {
			res.Viol = &Violation{Scenario: sc.Name, Msg: "initial state: " + err.Error()}
			return
		}
	}
	res.Accepted, res.Rejected, res.Compared = e.ctr.accepted, e.ctr.rejected, e.ctr.compared
	root := e.snap()
	seen := &seenSet{}
	seen.add(root.hash(ms[0].trans))
	res.States = 1
	level := []*World{root}
	var found atomic.Pointer[Violation]
	for d := 1; d <= sc.Depth && len(level) > 0; d++ {
		var idx, trans, states, acc, rej, cmp int64
		nexts := make([][]*World, nWorkers)
		var stop atomic.Bool
		for wk := 0; wk < nWorkers; wk++ {
			wg.Add(1)
			go func(wk int) {
				defer wg.Done()
				m := ms[wk]
				defer unwatch(wk)
				for !stop.Load() {
					i := int(atomic.AddInt64(&idx, 1)) - 1
					if i >= len(level) {
						return
					}
					if time.Now().After(deadline) || (sc.MaxStates > 0 && atomic.LoadInt64(&states)+res.States > int64(sc.MaxStates)) {
						stop.Store(true)
						return
					}
					w := level[i]
					watch(wk, sc, w, "asking what can be done")
					pe := m.open(w)
					ops := sc.Ops(pe)
					for _, op := range ops {
						ne := m.open(w)
						watch(wk, sc, w, op.Name)
						err := guard(func() error { return op.Do(ne) })
						atomic.AddInt64(&acc, ne.ctr.accepted)
						atomic.AddInt64(&rej, ne.ctr.rejected)
						atomic.AddInt64(&cmp, ne.ctr.compared)
						if err == errSkip {
							continue
						}
						atomic.AddInt64(&trans, 1)
						if err != nil {
							v := &Violation{Scenario: sc.Name, Trace: append(w.trace(), op.Name), Msg: err.Error()}
							found.CompareAndSwap(nil, v)
							stop.Store(true)
							return
						}
						nw := ne.snap()
						if !seen.add(nw.hash(m.trans)) {
							continue
						}
						nw.parent, nw.op, nw.depth = w, op.Name, d
						atomic.AddInt64(&states, 1)
						if sc.Inv != nil {
							a, r, c := ne.ctr.accepted, ne.ctr.rejected, ne.ctr.compared
							err := guard(func() error { return sc.Inv(ne) })
							atomic.AddInt64(&acc, ne.ctr.accepted-a)
							atomic.AddInt64(&rej, ne.ctr.rejected-r)
							atomic.AddInt64(&cmp, ne.ctr.compared-c)
							if err != nil {
								v := &Violation{Scenario: sc.Name, Trace: nw.trace(), Msg: err.Error()}
								found.CompareAndSwap(nil, v)
								stop.Store(true)
								return
							}
						}
						if d < sc.Depth {
							nexts[wk] = append(nexts[wk], nw)
						} else if len(nexts[wk]) < 1 {
							nexts[wk] = append(nexts[wk], nw)
						}
					}
				}
			}(wk)
		}
		wg.Wait()
		res.States += states
		res.Transitions += trans
		res.Accepted += acc
		res.Rejected += rej
		res.Compared += cmp
		var next []*World
		for _, n := range nexts {
			next = append(next, n...)
		}
		if len(next) > 0 && len(res.Samples) < 4 {
			res.Samples = append(res.Samples, sc.Name+": "+strings.Join(next[len(next)/2].trace(), " ; "))
		}
		if v := found.Load(); v != nil {
			v.Confirm = confirm(sc, v)
			res.Viol = v
			return
		}
		if stop.Load() {
			return
		}
		res.Depth = d
		if len(next) == 0 {
			res.FixedPoint = true
			level = nil
			break
		}
		level = next
	}
	res.Complete = res.Depth == sc.Depth || res.FixedPoint
	return
}

func initState(sc *Scenario, m *Machine) (e *E, err error) {
	err = guard(func() error {
		var er error
		e, er = sc.Init(m)
		return er
	})
	return
}

// confirm replays the trace alone on a fresh instance.
func confirm(sc *Scenario, v *Violation) string {
	m := newMachine(sc.Opts...)
	e, err := initState(sc, m)
	if err != nil {
		return "init failed: " + err.Error()
	}
	for i, name := range v.Trace {
		w := e.snap()
		var op *Op
		ops := sc.Ops(m.open(w))
		for j := range ops {
			if ops[j].Name == name {
				op = &ops[j]
			}
		}
		if op == nil {
			return fmt.Sprintf("step %d (%s) not enabled on replay", i, name)
		}
		e = m.open(w)
		err := guard(func() error { return op.Do(e) })
		if err != nil {
			if i == len(v.Trace)-1 {
				return "reproduced: " + firstLine(err.Error())
			}
			return fmt.Sprintf("failed earlier, at step %d: %s", i, firstLine(err.Error()))
		}
		if sc.Inv != nil {
			if err := guard(func() error { return sc.Inv(e) }); err != nil {
				if i == len(v.Trace)-1 {
					return "reproduced: " + firstLine(err.Error())
				}
				return fmt.Sprintf("failed earlier, at step %d: %s", i, firstLine(err.Error()))
			}
		}
	}
	return "NOT reproduced on replay (nondeterminism in the code under test)"
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func eqf(what string, want, got interface{}) error {
	if reflect.DeepEqual(want, got) {
		return nil
	}
	return fmt.Errorf("%s: expected %v, got %v", what, want, got)
}

func fatal(f string, a ...interface{}) { fmt.Fprintf(os.Stderr, f+"\n", a...); os.Exit(2) }

// panicSite: the first frame of the application in a stack trace.
func panicSite(st string) string {
	ls := strings.Split(st, "\n")
	seen := false
	for _, l := range ls {
		if strings.HasPrefix(l, "panic(") {
			seen = true
		}
		if seen && strings.Contains(l, "arterynetwork/artr") && strings.HasPrefix(l, "\t") {
			return strings.TrimSpace(strings.SplitN(l, " +0x", 2)[0])
		}
	}
	return "?"
}
