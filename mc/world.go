//go:build go1.22

package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"sort"
	"sync"
	"time"

	abci "github.com/tendermint/tendermint/abci/types"

	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	auth "github.com/cosmos/cosmos-sdk/x/auth/types"

	"github.com/arterynetwork/artr/util"
	bank "github.com/arterynetwork/artr/x/bank/types"
	delegating "github.com/arterynetwork/artr/x/delegating/types"
	earning "github.com/arterynetwork/artr/x/earning/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	schedule "github.com/arterynetwork/artr/x/schedule/types"
	voting "github.com/arterynetwork/artr/x/voting/types"
)

const (
	U = util.ConfigMainDenom
	D = util.ConfigDelegatedDenom
	R = util.ConfigRevokingDenom
)

const Day = 24 * time.Hour

// addr: deterministic account addresses
func addr(name string) sdk.AccAddress {
	if realKeys {
		return keyAddr(name)
	}
	h := sha256.Sum256([]byte("artr-mc/" + name))
	return sdk.AccAddress(h[:20])
}

func A(name string) string {
	s := addr(name).String()
	knownNames.LoadOrStore(s, name)
	return s
}

type consK struct {
	pk cryptotypes.PubKey
	b  string
	ad []byte
}

var consKeys = func() []consK {
	var r []consK
	for i := 0; i < 40; i++ {
		seed := sha256.Sum256([]byte(fmt.Sprintf("artr-mc/cons/%d", i)))
		pk := ed25519.GenPrivKeyFromSecret(seed[:]).PubKey()
		b, err := sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeConsPub, pk)
		if err != nil {
			panic(err)
		}
		r = append(r, consK{pk, b, pk.Address()})
	}
	return r
}

var consOnce sync.Once
var consList []consK

func consKey(i int) (cryptotypes.PubKey, string, []byte) {
	consOnce.Do(func() { consList = consKeys() })
	k := consList[i]
	return k.pk, k.b, k.ad
}

type Acc struct {
	Name   string
	Parent string // "" = top level
	Coins  int64  // uartr
	Deleg  int64  // uartrd
	Revok  int64
	Until  time.Duration // active until t0+Until; 0 = never active
	Prof   profile.Profile
	NoRef  bool // not in the referral tree (e.g. company account)
	NoProf bool
	Accrue time.Duration // next accrue at t0+Accrue (with its task) when Deleg>0; 0: one day
	Reqs   []delegating.RevokeRequest
	// pending in the referral, with their tasks
	CompressAt, BanishAt, DowngradeAt time.Duration // after t0; 0: none
	Status                            referral.Status
	Banished                          bool // Parent is the former referrer
	Transition                        string
	TransitionAt                      time.Duration // its timeout, after t0
	ImUntil                           time.Duration
}

type Gen struct {
	Accs      []Acc
	Bank      bank.Params
	Auth      auth.Params
	Deleg     delegating.Params
	Earn      earning.GenesisState
	Nod       noding.GenesisState
	Prof      profile.Params
	Ref       referral.GenesisState
	Sched     schedule.GenesisState
	Vote      voting.GenesisState
	NoSupply  bool
	NoRefresh bool // do not schedule profile/refresh tasks
	noBegin   bool
}

func newGen(accs ...Acc) *Gen {
	g := &Gen{Accs: accs}
	g.Bank = bank.DefaultParams()
	g.Bank.CompanyAccount = A("company")
	g.Auth = auth.DefaultParams()
	g.Deleg = *delegating.DefaultParams()
	g.Earn = *earning.DefaultGenesisState()
	g.Nod.Params = noding.DefaultParams()
	g.Nod.Params.VotingPower = noding.Distribution{
		Slices: []noding.Distribution_Slice{
			{Part: util.Percent(15), VotingPower: 15},
			{Part: util.Percent(85), VotingPower: 10},
		},
		LuckiesVotingPower: 10,
	}
	g.Prof = *profile.DefaultParams()
	g.Prof.TokenRate = util.FractionInt(100000)
	g.Prof.SubscriptionPrice = 1990
	g.Prof.StorageGbPrice = 10
	g.Prof.VpnGbPrice = 10
	g.Prof.BaseStorageGb = 5
	g.Prof.BaseVpnGb = 7
	g.Prof.CardMagic = 112233592347
	g.Prof.Creators = []string{A("oper")}
	g.Prof.StorageSigners = []string{A("oper")}
	g.Prof.VpnSigners = []string{A("oper")}
	g.Prof.TokenRateSigners = []string{A("oper")}
	g.Earn.Params.Signers = []string{A("oper")}
	g.Ref.Params = referral.DefaultParams()
	g.Ref.Params.CompanyAccounts.ForSubscription = A("company")
	g.Ref.Params.TransitionPrice = 10000000
	g.Sched.Params = schedule.DefaultParameters()
	g.Vote.Params = voting.DefaultParams()
	has := map[string]bool{}
	for _, a := range accs {
		has[a.Name] = true
	}
	for _, n := range []string{"company", "oper"} {
		if !has[n] {
			g.Accs = append(g.Accs, Acc{Name: n, NoRef: true, NoProf: true})
		}
	}
	return g
}

func (g *Gen) State(m *Machine) map[string]json.RawMessage {
	cdc := m.ec.Marshaler
	out := map[string]json.RawMessage{}
	put := func(k string, v interface {
		Reset()
		String() string
		ProtoMessage()
	}) {
		bz, err := cdc.MarshalJSON(v)
		if err != nil {
			panic(err)
		}
		out[k] = bz
	}
	var (
		ag    auth.GenesisState
		bg    bank.GenesisState
		pg    profile.GenesisState
		dg    delegating.GenesisState
		rg    = g.Ref
		sg    = g.Sched
		order []string
		kids  = map[string][]string{}
		dep   = map[string]int{}
	)
	sg.Tasks = append([]schedule.Task{}, sg.Tasks...)
	ag.Params = g.Auth
	bg.Params = g.Bank
	pg.Params = g.Prof
	dg.Params = g.Deleg
	rg.TopLevelAccounts = append([]string{}, rg.TopLevelAccounts...)
	for i, a := range g.Accs {
		ad := addr(a.Name)
		A(a.Name)
		any, err := codectypes.NewAnyWithValue(auth.NewBaseAccount(ad, nil, uint64(i), 0))
		if err != nil {
			panic(err)
		}
		ag.Accounts = append(ag.Accounts, any)
		var cs []sdk.Coin
		if a.Coins > 0 {
			cs = append(cs, sdk.NewInt64Coin(U, a.Coins))
		}
		if a.Deleg > 0 {
			cs = append(cs, sdk.NewInt64Coin(D, a.Deleg))
		}
		if a.Revok > 0 {
			cs = append(cs, sdk.NewInt64Coin(R, a.Revok))
		}
		if len(cs) > 0 {
			bg.Balances = append(bg.Balances, bank.Balance{Address: ad.String(), Coins: cs})
		}
		if !a.NoProf {
			p := a.Prof
			if a.ImUntil != 0 {
				t := t0.Add(a.ImUntil)
				p.ExtraImUntil = &t
				sg.Tasks = append(sg.Tasks, schedule.Task{HandlerName: profile.RefreshImHookName, Data: ad, Time: t})
			}
			if a.Until != 0 {
				t := t0.Add(a.Until)
				p.ActiveUntil = &t
				if !g.NoRefresh && a.Until > 0 {
					sg.Tasks = append(sg.Tasks, schedule.Task{HandlerName: profile.RefreshHookName, Data: ad, Time: t})
				}
			}
			pg.Profiles = append(pg.Profiles, profile.GenesisProfile{Address: ad.String(), Profile: p})
		}
		task := func(hook string, d time.Duration) time.Time {
			t := t0.Add(d)
			sg.Tasks = append(sg.Tasks, schedule.Task{HandlerName: hook, Data: []byte(ad.String()), Time: t})
			return t
		}
		if a.CompressAt != 0 {
			rg.Compressions = append(rg.Compressions, referral.Compression{Account: ad.String(), Time: task("referral/compression", a.CompressAt)})
		}
		if a.BanishAt != 0 {
			rg.Banishment = append(rg.Banishment, referral.Compression{Account: ad.String(), Time: task("referral/banish", a.BanishAt)})
		}
		if a.DowngradeAt != 0 {
			rg.Downgrades = append(rg.Downgrades, referral.Downgrade{Account: ad.String(), Current: a.Status, Time: task("referral/downgrade", a.DowngradeAt)})
		}
		if a.Transition != "" {
			task("referral/transition-timeout", a.TransitionAt)
			rg.Transitions = append(rg.Transitions, referral.Transition{Subject: ad.String(), Destination: A(a.Transition)})
		}
		if a.Banished {
			rg.BanishedAccounts = append(rg.BanishedAccounts, referral.Banished{Account: ad.String(), FormerReferrer: A(a.Parent)})
		} else if !a.NoRef {
			if a.Parent == "" {
				rg.TopLevelAccounts = append(rg.TopLevelAccounts, ad.String())
			} else {
				if kids[a.Parent] == nil {
					order = append(order, a.Parent)
				}
				kids[a.Parent] = append(kids[a.Parent], ad.String())
			}
			dep[a.Name] = dep[a.Parent] + 1
		}
		if a.Deleg > 0 || len(a.Reqs) > 0 {
			da := delegating.Account{Address: ad.String(), Requests: a.Reqs}
			if a.Deleg > 0 {
				d := a.Accrue
				if d == 0 {
					d = Day
				}
				t := t0.Add(d)
				da.NextAccrue = &t
				sg.Tasks = append(sg.Tasks, schedule.Task{HandlerName: delegating.AccrueHookName, Data: ad, Time: t})
			}
			for _, r := range a.Reqs {
				sg.Tasks = append(sg.Tasks, schedule.Task{HandlerName: delegating.RevokeHookName, Data: ad, Time: r.Time})
			}
			dg.Accounts = append(dg.Accounts, da)
		}
	}
	sort.SliceStable(order, func(i, j int) bool { return dep[order[i]] < dep[order[j]] })
	for _, p := range order {
		rg.OtherAccounts = append(rg.OtherAccounts, referral.Refs{Referrer: A(p), Referrals: kids[p]})
	}
	put("auth", &ag)
	put("artrbank", &bg)
	put("profile", &pg)
	put("delegating", &dg)
	put("referral", &rg)
	put("schedule", &sg)
	put("voting", &g.Vote)
	put("noding", &g.Nod)
	put("earning", &g.Earn)
	return out
}

// Start: InitChain with the genesis, then begin block 1 (unless noBegin).
func (g *Gen) Start(m *Machine) (*E, error) {
	w := &World{h: 0, t: t0}
	for range m.keys {
		w.st = append(w.st, emptyKvs)
	}
	e := m.open(w)
	bz, err := json.Marshal(g.State(m))
	if err != nil {
		return nil, err
	}
	if e.genUpd, err = e.initChain(bz); err != nil {
		return nil, err
	}
	if !g.noBegin {
		if err := e.Begin(BlockIn{}); err != nil {
			return nil, err
		}
	}
	return e, nil
}

func (e *E) initChain(state []byte) ([]abci.ValidatorUpdate, error) {
	ctx, write := e.branch()
	var u []abci.ValidatorUpdate
	err := guard(func() error {
		u = e.app.InitChainer(ctx, abci.RequestInitChain{AppStateBytes: state, ChainId: chainID, Time: e.t}).Validators
		return nil
	})
	if err != nil {
		return nil, fmt.Errorf("InitChain: %w", err)
	}
	write()
	return u, nil
}

func emptyWorld(m *Machine) *E {
	w := &World{h: 0, t: t0}
	for range m.keys {
		w.st = append(w.st, emptyKvs)
	}
	return m.open(w)
}
