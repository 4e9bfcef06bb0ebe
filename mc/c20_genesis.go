//go:build go1.22

package main

// Export and start from the export: on every state reached, the chain is exported after the block as `artrd export`
// does, a new chain is started from the export, and the stores of the two are compared.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"time"

	"github.com/gogo/protobuf/proto"
	abci "github.com/tendermint/tendermint/abci/types"
	"github.com/tendermint/tendermint/libs/log"
	dbm "github.com/tendermint/tm-db"

	"github.com/cosmos/cosmos-sdk/baseapp"
	"github.com/cosmos/cosmos-sdk/store"
	stypes "github.com/cosmos/cosmos-sdk/store/types"

	upgrade "github.com/cosmos/cosmos-sdk/x/upgrade/types"

	"github.com/arterynetwork/artr/app"
	delegating "github.com/arterynetwork/artr/x/delegating/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	schedule "github.com/arterynetwork/artr/x/schedule/types"
)

// window is the store of an app which has the state of cur committed.
type window struct {
	stypes.CommitMultiStore
	cur *E
}

func (w *window) LastCommitID() stypes.CommitID {
	if w.cur == nil {
		return stypes.CommitID{}
	}
	return stypes.CommitID{Version: w.cur.h}
}
func (w *window) CacheMultiStore() stypes.CacheMultiStore { return &pane{nil, w} }

type noStore = stypes.CacheMultiStore

type pane struct {
	noStore
	w *window
}

func (p *pane) CacheMultiStore() stypes.CacheMultiStore { return p }
func (p *pane) GetKVStore(key stypes.StoreKey) stypes.KVStore {
	return p.w.cur.st[p.w.cur.storeIdx(key.Name())]
}
func (p *pane) TracingEnabled() bool { return false }

// export is what `artrd export` prints of the state after the block.
func (e *E) export() ([]byte, int64, error) {
	if e.Machine.exp == nil {
		w := &window{CommitMultiStore: store.NewCommitMultiStore(dbm.NewMemDB())}
		a := app.NewArteryApp(log.NewNopLogger(), dbm.NewMemDB(), nil, true, 0, e.ec, func(b *baseapp.BaseApp) { b.SetCMS(w) })
		e.Machine.exp, e.Machine.win = a, w
	}
	e.Machine.win.cur = e
	var bz []byte
	var h int64
	err := guard(func() error {
		x, err := e.Machine.exp.ExportAppStateAndValidators(false, nil)
		bz, h = x.AppState, x.Height
		return err
	})
	return bz, h, err
}

// restart starts a new chain from an export; the next block is h.
func (m *Machine) restart(state []byte, h int64, t time.Time) (*E, []abci.ValidatorUpdate, error) {
	f := emptyWorld(m)
	f.h, f.t = h, t
	u, err := f.initChain(state)
	f.h = h - 1
	f.genUpd = u
	return f, u, err
}

func invGenesis(e *E) error {
	x := e.fork()
	if _, err := x.End(); err != nil {
		return err
	}
	// what is due is done first: a task for a time already reached waits for the next block
	for i := 0; i < 5 && x.due(); i++ {
		if err := x.Begin(BlockIn{}); err != nil {
			return err
		}
		if _, err := x.End(); err != nil {
			return err
		}
	}
	state, h, err := x.export()
	if err != nil {
		return fmt.Errorf("export: %w", err)
	}
	if h != x.h+1 {
		return fmt.Errorf("export after block %d says the next one is %d", x.h, h)
	}
	var parts map[string]json.RawMessage
	if err := json.Unmarshal(state, &parts); err != nil {
		return fmt.Errorf("export: %w", err)
	}
	// (some families do without a government)
	if len(x.app.GetVotingKeeper().GetGovernment(x.Ctx()).Members) == 0 {
	} else if err := guard(func() error { return app.ModuleBasics.ValidateGenesis(e.ec.Marshaler, e.ec.TxConfig, parts) }); err != nil {
		return fmt.Errorf("the export is no valid genesis: %w", err)
	}
	y, vals, err := x.restart(state, h, x.t)
	if err != nil {
		return fmt.Errorf("starting from the export: %w", err)
	}
	if err := diffStores(x, y); err != nil {
		return err
	}
	// Tendermint is told of the same validators
	if !x.drawn() {
		var want, got []string
		for _, n := range x.nodes() {
			if n.LastPower != 0 {
				want = append(want, fmt.Sprintf("%s:%d", keyHex(n.LastPubKey), n.LastPower))
			}
		}
		for _, v := range vals {
			got = append(got, fmt.Sprintf("%x:%d", v.PubKey.GetEd25519(), v.Power))
		}
		sort.Strings(want)
		sort.Strings(got)
		if a, b := fmt.Sprint(got), fmt.Sprint(want); a != b {
			return fmt.Errorf("after the restart the validators are %s instead of %s", a, b)
		}
	}
	// and the chain goes on the same way
	for _, f := range []*E{x, y} {
		if err := f.Begin(BlockIn{Dt: 24 * time.Hour}); err != nil {
			return err
		}
		if _, err := f.End(); err != nil {
			return err
		}
	}
	if x.drawn() || y.drawn() {
		return nil // who earns is a matter of the draw
	}
	if err := diffStores(x, y); err != nil {
		return fmt.Errorf("a day later: %w", err)
	}
	return nil
}

// drawn: there are more validators than places.
func (e *E) drawn() bool {
	up := 0
	for _, n := range e.nodes() {
		if nodeUp(n) {
			up++
		}
	}
	return up > int(e.app.GetNodingKeeper().GetParams(e.Ctx()).MaxValidators)
}

// meaning of an entry: what the order of the bytes does not change.
func meaning(store, k string, v []byte, drawn bool) string {
	var m proto.Message
	switch store {
	case referral.StoreKey:
		i := &referral.Info{}
		if err := proto.Unmarshal(v, i); err != nil {
			return err.Error()
		}
		sort.Strings(i.ActiveReferrals) // a set
		m = i
	case delegating.MainStoreKey:
		m = &delegating.Record{}
	case noding.StoreKey:
		i := &noding.Info{}
		if err := proto.Unmarshal(v, i); err != nil {
			return err.Error()
		}
		i.LotteryNo = 0 // the lottery's queue starts anew
		if drawn {
			i.LastPower, i.LastPubKey = 0, ""
		}
		m = i
	case profile.StoreKey:
		m = &profile.Profile{}
	case schedule.StoreKey:
		m = &schedule.Schedule{}
	case "params":
		return canon(v) // no list is an empty list
	default:
		return fmt.Sprintf("%q", v)
	}
	if store != referral.StoreKey && store != noding.StoreKey {
		if err := proto.Unmarshal(v, m); err != nil {
			return err.Error()
		}
	}
	bz, err := proto.Marshal(m)
	return fmt.Sprintf("%v %x %v", m, bz, err)
}

// nodeIndex without the lottery's queue, which starts anew, and without the keys validators which are off had once.
func (e *E) nodeIndex() *kvs {
	on := map[string]bool{}
	for _, n := range e.nodes() {
		if nodeUp(n) {
			on[consOf(n.PubKey)] = true
		}
	}
	var r kvs
	s := e.st[e.storeIdx(noding.IdxStoreKey)].cur
	for i, k := range s.ks {
		if k[0] == 3 || k[0] == 1 && !on[k[1:]] {
			continue
		}
		r.ks = append(r.ks, k)
		r.vs = append(r.vs, s.vs[i])
	}
	return &r
}

func (e *E) due() bool {
	for _, t := range e.tasks() {
		if !t.Time.After(e.t) {
			return true
		}
	}
	return false
}

func diffStores(x, y *E) error {
	drawn := x.drawn()
	for i, name := range x.names {
		if x.trans[i] || name == upgrade.StoreKey { // a planned upgrade is not part of a genesis
			continue
		}
		a, b := x.st[i].cur, y.st[i].cur
		if name == noding.IdxStoreKey {
			a, b = x.nodeIndex(), y.nodeIndex()
		}
		for j, k := 0, 0; j < len(a.ks) || k < len(b.ks); {
			x.ctr.compared++
			// an empty list is as good as none
			if j < len(a.ks) && len(a.vs[j]) == 0 {
				j++
				continue
			}
			if k < len(b.ks) && len(b.vs[k]) == 0 {
				k++
				continue
			}
			switch {
			case j == len(a.ks) || k < len(b.ks) && b.ks[k] < a.ks[j]:
				return fmt.Errorf("%s: after the restart there is %q: %q", name, b.ks[k], b.vs[k])
			case k == len(b.ks) || a.ks[j] < b.ks[k]:
				return fmt.Errorf("%s: after the restart there is no %q: %q", name, a.ks[j], a.vs[j])
			case !bytes.Equal(a.vs[j], b.vs[k]):
				if p, q := meaning(name, a.ks[j], a.vs[j], drawn), meaning(name, b.ks[k], b.vs[k], drawn); p != q {
					return fmt.Errorf("%s: %q is %s instead of %s after the restart", name, a.ks[j], q, p)
				}
			}
			j++
			k++
		}
	}
	return nil
}

func init() {
	register(&Check{ID: "C20", Quick: 400 * time.Second,
		Rule: "every state of the families up to the depth: exported after the block, a new chain started from the export, the stores of both compared",
		Scenarios: func(tier string) []*Scenario {
			fs := []Fam{famMoney(), famDeep(), famLife(), famPendings(), famTransit(), famStatus(), famHigh(), famRevoke(), famInterest(), famLadder(), famShop(), famNicks(), famSubs(), famQuotas(), famMessenger(),
				famJail(), famKeys(), famStake(), famLottery(1, 1), famGov(3), famReform(), famPollKinds(), famMarks(), famCouncil(), famMixed()}
			fs = append(fs, famTimers(), famMoves(), famOverdue(), famAfter())
			for i := range fs {
				switch fs[i].Name {
				case "pendings", "nicknames", "government of 3", "poll requirements", "marks", "council", "everything":
				case "interest", "subscriptions", "lottery 1+1", "timers", "revoking", "messenger", "deep", "keys":
					fs[i].Depth[0] -= 2
				default:
					fs[i].Depth[0]--
				}
			}
			return famScenarios(tier, fs, deco{Inv: invGenesis})
		}})
}
