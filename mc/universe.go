//go:build go1.22

package main

// Families of scenarios ("universes") shared by the checks: an initial chain, the messages and blocks explored from
// it. Each check adds its own invariant and its own comparison of the states before and after every step.

import (
	"fmt"
	"strings"
	"time"

	abci "github.com/tendermint/tendermint/abci/types"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/util"
	bank "github.com/arterynetwork/artr/x/bank/types"
	delegating "github.com/arterynetwork/artr/x/delegating/types"
	earning "github.com/arterynetwork/artr/x/earning/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
)

type Step struct {
	Name string
	Msg  sdk.Msg // nil: a block
	Err  error   // of the message
	Blk  BlockIn
	Upd  []abci.ValidatorUpdate // returned when the previous block ended
	Ev   []abci.Event           // of the message or of the beginning block
}

type sop struct {
	name string
	msg  sdk.Msg
	blk  *BlockIn
	do   func(e *E) error // anything else (not offered to Post)
}

type Fam struct {
	Name, Note string
	Gen        func() *Gen
	Ops        func(e *E) []sop
	Depth      [2]int // quick, thorough
}

// plus: the same with more to do.
func (f Fam) plus(what string, more ...sop) Fam {
	ops := f.Ops
	f.Name, f.Note = f.Name+", "+what, f.Note+"; "+what
	f.Ops = func(e *E) []sop { return append(ops(e), more...) }
	return f
}

type deco struct {
	Inv  func(e *E) error
	Post func(pre, post *E, s *Step) error
	Init func(e *E) error
	// Mid judges the end of a block, before the next one begins.
	Mid   func(pre, mid *E, upd []abci.ValidatorUpdate) error
	Split bool            // Post compares a block's beginning with the end of the one before
	only  map[string]bool // families
}

func (f Fam) scenario(tier string, d deco) *Scenario {
	depth := f.Depth[0]
	if tier == "thorough" {
		depth = f.Depth[1]
	}
	return &Scenario{
		Name: f.Name, Note: f.Note, Depth: depth,
		Init: func(m *Machine) (*E, error) {
			e, err := f.Gen().Start(m)
			if err == nil && d.Init != nil {
				err = d.Init(e)
			}
			return e, err
		},
		Inv: d.Inv,
		Ops: func(e *E) []Op {
			var ops []Op
			for _, o := range f.Ops(e) {
				o := o
				if o.do != nil {
					ops = append(ops, Op{o.name, o.do})
					continue
				}
				ops = append(ops, Op{o.name, func(e *E) error { return runStep(e, o, d) }})
			}
			return ops
		},
	}
}

func runStep(e *E, o sop, d deco) error {
	var pre *E
	post := d.Post
	if post != nil || d.Mid != nil {
		pre = e.fork()
	}
	s := &Step{Name: o.name, Msg: o.msg}
	if o.msg != nil {
		s.Err = e.Deliver(nil, o.msg)
	} else {
		u, err := e.End()
		if err != nil {
			return err
		}
		s.Upd, s.Blk = u, *o.blk
		if d.Mid != nil {
			if err := d.Mid(pre, e, u); err != nil {
				return err
			}
			if d.Split {
				pre = e.fork()
			}
		}
		if err := e.Begin(*o.blk); err != nil {
			return err
		}
	}
	s.Ev = e.ev
	if post != nil {
		return post(pre, e, s)
	}
	return nil
}

func famScenarios(tier string, fs []Fam, d deco) []*Scenario {
	var r []*Scenario
	for _, f := range fs {
		r = append(r, f.scenario(tier, d))
	}
	return r
}

// ---- steps

func blk(dt time.Duration) sop { return sop{name: "block(+" + dur(dt) + ")", blk: &BlockIn{Dt: dt}} }

func dur(d time.Duration) string {
	s := ""
	if n := d / Day; n > 0 {
		s, d = fmt.Sprintf("%dd", n), d%Day
	}
	if d > 0 || s == "" {
		s += d.String()
	}
	return s
}

func mSend(from, to string, n int64) sop {
	return sop{name: fmt.Sprintf("send(%s->%s,%d)", from, to, n), msg: &bank.MsgSend{FromAddress: A(from), ToAddress: A(to), Amount: coins(n)}}
}
func mBurn(a string, n uint64) sop {
	return sop{name: fmt.Sprintf("burn(%s,%d)", a, n), msg: &bank.MsgBurn{Account: A(a), Amount: n}}
}
func mDelegate(a string, n int64) sop {
	return sop{name: fmt.Sprintf("delegate(%s,%d)", a, n), msg: &delegating.MsgDelegate{Address: A(a), MicroCoins: sdk.NewInt(n)}}
}
func mRevoke(a string, n int64) sop {
	return sop{name: fmt.Sprintf("revoke(%s,%d)", a, n), msg: &delegating.MsgRevoke{Address: A(a), MicroCoins: sdk.NewInt(n)}}
}
func mExpress(a string, n int64) sop {
	return sop{name: fmt.Sprintf("express-revoke(%s,%d)", a, n), msg: &delegating.MsgExpressRevoke{Address: A(a), MicroCoins: sdk.NewInt(n)}}
}
func mRequest(s, d string) sop {
	return sop{name: fmt.Sprintf("request(%s under %s)", s, d), msg: &referral.MsgRequestTransition{Subject: A(s), Destination: A(d)}}
}
func mApprove(by, s string) sop {
	return sop{name: fmt.Sprintf("approve(%s by %s)", s, by), msg: &referral.MsgResolveTransition{Signer: A(by), Subject: A(s)}}
}
func mDecline(by, s string) sop {
	return sop{name: fmt.Sprintf("decline(%s by %s)", s, by), msg: &referral.MsgResolveTransition{Signer: A(by), Subject: A(s), Decline: true}}
}
func mPay(a string, gb uint32) sop {
	return sop{name: fmt.Sprintf("pay(%s,%d)", a, gb), msg: &profile.MsgPayTariff{Address: A(a), StorageAmount: gb}}
}
func mCreate(by, a, ref string, p *profile.Profile) sop {
	s := ""
	if p != nil {
		s = "," + p.Nickname
		if p.ActiveUntil != nil {
			s += ",active until " + p.ActiveUntil.Format(time.RFC3339)
		}
	}
	return sop{name: fmt.Sprintf("create(%s under %s by %s%s)", a, ref, by, s), msg: &profile.MsgCreateAccount{Creator: A(by), Address: A(a), Referrer: A(ref), Profile: p}}
}

type upd = profile.MsgUpdateProfile_Update

func mUpdate(a, what string, us ...upd) sop {
	return sop{name: fmt.Sprintf("update(%s,%s)", a, what), msg: &profile.MsgUpdateProfile{Address: A(a), Updates: us}}
}
func uBool(f profile.MsgUpdateProfile_Update_Field, v bool) upd {
	return upd{Field: f, Value: &profile.MsgUpdateProfile_Update_Bool{Bool: v}}
}
func uStr(f profile.MsgUpdateProfile_Update_Field, v string) upd {
	return upd{Field: f, Value: &profile.MsgUpdateProfile_Update_String_{String_: v}}
}
func mAutoPay(a string, v bool) sop {
	return mUpdate(a, fmt.Sprint("autopay=", v), uBool(profile.MsgUpdateProfile_Update_FIELD_AUTO_PAY, v))
}
func mAutoPayIm(a string, v bool) sop {
	return mUpdate(a, fmt.Sprint("im-autopay=", v), uBool(profile.MsgUpdateProfile_Update_FIELD_IM_AUTO_PAY, v))
}
func mNick(a, v string) sop {
	return mUpdate(a, fmt.Sprintf("nick=%q", v), uStr(profile.MsgUpdateProfile_Update_FIELD_NICKNAME, v))
}
func mBuyStorage(a string, n uint32) sop {
	return sop{name: fmt.Sprintf("buy-storage(%s,%d)", a, n), msg: &profile.MsgBuyStorage{Address: A(a), ExtraStorage: n}}
}
func mGiveStorage(a string, n uint32) sop {
	return sop{name: fmt.Sprintf("give-storage-up(%s,%d)", a, n), msg: &profile.MsgGiveStorageUp{Address: A(a), Amount: n}}
}
func mBuyVpn(a string, n uint32) sop {
	return sop{name: fmt.Sprintf("buy-vpn(%s,%d)", a, n), msg: &profile.MsgBuyVpn{Address: A(a), ExtraTraffic: n}}
}
func mBuyIm(a string, n uint32) sop {
	return sop{name: fmt.Sprintf("buy-im(%s,%d)", a, n), msg: &profile.MsgBuyImExtraStorage{Address: A(a), ExtraStorage: n}}
}
func mGiveIm(a string, n uint32) sop {
	return sop{name: fmt.Sprintf("give-im-up(%s,%d)", a, n), msg: &profile.MsgGiveUpImExtra{Address: A(a), Amount: n}}
}
func mProlongIm(a string) sop {
	return sop{name: fmt.Sprintf("prolong-im(%s)", a), msg: &profile.MsgProlongImExtra{Address: A(a)}}
}
func mStorageUsed(by, a string, v uint64) sop {
	return sop{name: fmt.Sprintf("storage-used(%s,%d by %s)", a, v, by), msg: &profile.MsgSetStorageCurrent{Sender: A(by), Address: A(a), Value: v}}
}
func mVpnUsed(by, a string, v uint64) sop {
	return sop{name: fmt.Sprintf("vpn-used(%s,%d by %s)", a, v, by), msg: &profile.MsgSetVpnCurrent{Sender: A(by), Address: A(a), Value: v}}
}
func mOn(a string, key int) sop {
	_, pk, _ := consKey(key)
	return sop{name: fmt.Sprintf("on(%s,key%d)", a, key), msg: &noding.MsgOn{Account: A(a), PubKey: pk}}
}
func mOff(a string) sop {
	return sop{name: fmt.Sprintf("off(%s)", a), msg: &noding.MsgOff{Account: A(a)}}
}
func mUnjail(a string) sop {
	return sop{name: fmt.Sprintf("unjail(%s)", a), msg: &noding.MsgUnjail{Account: A(a)}}
}
func until(d time.Duration) *time.Time {
	if d == 0 {
		return nil
	}
	t := t0.Add(d)
	return &t
}
func mEarner(by, a string, vpn, storage time.Duration) sop {
	return sop{name: fmt.Sprintf("earner(%s,vpn until %s,storage until %s by %s)", a, dur(vpn), dur(storage), by), msg: &earning.MsgSet{Earner: earning.Earner{Account: A(a), Vpn: until(vpn), Storage: until(storage)}, Signer: A(by)}}
}

// mGov: a parameter changes, as by an accepted proposal.
func mGov(name string, f func(e *E, ctx sdk.Context)) sop {
	return sop{name: "decided(" + name + ")", do: func(e *E) error {
		c, w := e.branch()
		f(e, c)
		w()
		return nil
	}}
}
func govRevoke(days, express uint32, burn, expressBurn util.Fraction) sop {
	return mGov(fmt.Sprintf("revoking %dd burns %v, express %dd burns %v", days, burn, express, expressBurn), func(e *E, c sdk.Context) {
		k := e.app.GetDelegatingKeeper()
		p := k.GetParams(c)
		p.Revoke, p.ExpressRevoke = delegating.Revoke{Period: days, Burn: burn}, delegating.Revoke{Period: express, Burn: expressBurn}
		k.SetParams(c, p)
	})
}
func govPrices(sub, storage, vpn uint32) sop {
	return mGov(fmt.Sprintf("prices %d, %d, %d", sub, storage, vpn), func(e *E, c sdk.Context) {
		k := e.app.GetProfileKeeper()
		p := k.GetParams(c)
		p.SubscriptionPrice, p.StorageGbPrice, p.VpnGbPrice = sub, storage, vpn
		k.SetParams(c, p)
	})
}
func govTable(name string, t []delegating.PercentageListRange) sop {
	return mGov("accrual table "+name, func(e *E, c sdk.Context) {
		k := e.app.GetDelegatingKeeper()
		p := k.GetParams(c)
		p.AccruePercentageTable = t
		k.SetParams(c, p)
	})
}
func govJail(after, unjail uint32) sop {
	return mGov(fmt.Sprintf("jailed after %d for %d", after, unjail), func(e *E, c sdk.Context) {
		k := e.app.GetNodingKeeper()
		p := k.GetParams(c)
		p.JailAfter, p.UnjailAfter = after, unjail
		k.SetParams(c, p)
	})
}

// ---- families

const artr = 1_000000

// chain names: n accounts under one another, c0 the top
func chain(n int, f func(i int, a *Acc)) []Acc {
	var r []Acc
	for i := 0; i < n; i++ {
		a := Acc{Name: fmt.Sprintf("c%d", i), Coins: 100 * artr, Until: 300 * Day}
		if i > 0 {
			a.Parent = fmt.Sprintf("c%d", i-1)
		}
		if f != nil {
			f(i, &a)
		}
		r = append(r, a)
	}
	return r
}

// famMoney: transfers, delegation in every form, subscription fees, account creation.
func famMoney() Fam {
	return Fam{
		Name: "money", Depth: [2]int{4, 5},
		Note: "three-level tree; transfers, burning, delegating, revoking, subscription payment, sign-up, blocks of a second, a day and up to the revoking periods",
		Gen: func() *Gen {
			g := newGen(
				Acc{Name: "v", Coins: 50 * artr, Until: 300 * Day},
				Acc{Name: "a", Parent: "v", Coins: 5000 * artr, Deleg: 2000 * artr, Until: 300 * Day, Accrue: 20 * time.Hour},
				Acc{Name: "b", Parent: "a", Coins: 300 * artr, Until: 20 * Day},
				Acc{Name: "d", Parent: "b", Coins: 1 * artr, Deleg: 3 * artr},
				Acc{Name: "e", Parent: "a", Coins: 2_500},
			)
			g.Nod.Active = []noding.Validator{genValidator("v", 0)}
			g.Nod.Params.MinCriteria = noding.MinCriteria{Status: 1}
			return g
		},
		Ops: func(e *E) []sop {
			return []sop{
				mSend("a", "b", 7*artr+1), mSend("b", "d", 1199), mSend("e", "a", 2_400), mBurn("b", 5*artr),
				mDelegate("b", 100*artr+7), mDelegate("d", 700_000), mRevoke("a", 500*artr+1), mRevoke("d", 3*artr), mExpress("a", 2000*artr),
				mPay("b", 0), mCreate("b", "n", "a", nil), mEarner("oper", "a", 3*Day, 0),
				{name: "block(v,+10s)", blk: &BlockIn{Dt: 10 * time.Second, Proposer: proposerOf(0)}},
				blk(Day), blk(8 * Day),
			}
		},
	}
}

// famDeep: a chain longer than the ten levels that are aggregated, with branches.
func famDeep() Fam {
	return Fam{
		Name: "deep", Depth: [2]int{4, 5},
		Note: "chain of 14 accounts (more than the ten aggregated levels) with side branches at several depths; balance and activity changes at every depth, transitions between depths, compression of accounts at several depths",
		Gen: func() *Gen {
			l := chain(14, func(i int, a *Acc) {
				a.Coins = int64(100+i) * artr
				switch i {
				case 3, 6:
					a.Until, a.CompressAt = -Day, 5*Day
				case 9:
					a.Until = 4 * Day
				case 12:
					a.Until, a.Deleg = 2*Day, 17*artr
				case 13:
					a.Deleg = 13 * artr
				}
			})
			l = append(l, Acc{Name: "s", Parent: "c1", Coins: 3 * artr, Until: 300 * Day}, Acc{Name: "s2", Parent: "s", Coins: 5 * artr, Deleg: 4 * artr, Until: 300 * Day})
			g := newGen(l...)
			g.Ref.Params.TransitionPrice = 1 * artr
			return g
		},
		Ops: func(e *E) []sop {
			var r []sop
			for _, a := range []string{"c1", "c5", "c11", "c13"} {
				r = append(r, mDelegate(a, 11*artr))
			}
			r = append(r, mRevoke("c13", 13*artr), mExpress("c12", 5*artr), mSend("c13", "c2", 10*artr), mSend("s2", "c12", 2*artr), mPay("c6", 0), mPay("c3", 0))
			t := e.mustTree()
			any := false
			for _, p := range [][2]string{{"c4", "s2"}, {"c11", "s"}, {"c8", "c1"}, {"c13", "c10"}, {"s2", "c12"}, {"c5", "c8"}} {
				if i := t.n[A(p[0])]; i != nil && i.Transition != "" {
					r = append(r, mApprove(nameOf(i.Referrer), p[0]))
					any = true
				}
			}
			if !any {
				for _, p := range [][2]string{{"c4", "s2"}, {"c11", "s"}, {"c8", "c1"}, {"c13", "c10"}, {"s2", "c12"}, {"c5", "c8"}} {
					r = append(r, mRequest(p[0], p[1]))
				}
			}
			return append(r, blk(Day), blk(5*Day), blk(62*Day))
		},
	}
}

// famLife: expiry, compression, banishment and return, with timers about to run out.
func famLife() Fam {
	return Fam{
		Name: "lifecycle", Depth: [2]int{4, 6},
		Note: "accounts whose subscription, compression and banishment are about to come due or have passed, with and without delegation, top-level and deep; payments, delegation, revoking, transfers, sign-ups and blocks of a day up to three months",
		Gen: func() *Gen {
			g := newGen(
				Acc{Name: "r", Coins: 1000 * artr, Until: 400 * Day},
				Acc{Name: "a", Parent: "r", Coins: 900 * artr, Deleg: 5 * artr, Until: 2 * Day},
				Acc{Name: "b", Parent: "a", Coins: 900 * artr, Until: -10 * Day, CompressAt: 50 * Day},
				Acc{Name: "c", Parent: "b", Coins: 900 * artr, Until: 300 * Day, Deleg: 2 * artr},
				Acc{Name: "d", Parent: "c", Coins: 900 * artr, Until: -60 * Day, BanishAt: 3 * Day},
				Acc{Name: "e", Parent: "a", Coins: 900 * artr, Deleg: 50 * artr, Until: -60 * Day, CompressAt: 2 * Day},
				Acc{Name: "f", Parent: "e", Coins: 900 * artr, Until: 1 * Day, Prof: prof(true)},
				Acc{Name: "x", Parent: "d", Banished: true, Coins: 900 * artr, Until: -100 * Day},
				Acc{Name: "q", Coins: 10 * artr, Until: 1 * Day},
			)
			g.Ref.Params.TransitionPrice = 1 * artr
			g.Bank.DustDelegation = artr
			return g
		},
		Ops: func(e *E) []sop {
			r := []sop{
				mPay("a", 0), mPay("d", 0), mPay("e", 0), mPay("x", 0), mDelegate("x", 20*artr), mDelegate("d", 20*artr), mDelegate("x", artr/2),
				mRevoke("e", 50*artr), mRevoke("a", 5*artr), mSend("r", "x", 3*artr), mCreate("r", "n", "a", nil), mCreate("r", "n", "b", nil),
				blk(time.Hour), blk(2 * Day), blk(31 * Day), blk(62 * Day),
			}
			if t := e.mustTree(); t.n[A("n")] != nil {
				r = append(r, mSend("r", "n", 500*artr), mPay("n", 0))
			}
			return r
		},
	}
}

// famTimers: timers of several expiries of one account crossing one another.
func famTimers() Fam {
	return Fam{
		Name: "timers", Depth: [2]int{6, 9},
		Note: "one account and its child expiring, paying, delegating and revoking around month boundaries, so that tasks of earlier expiries, compressions and banishments are still scheduled when later ones are set",
		Gen: func() *Gen {
			g := newGen(
				Acc{Name: "r", Coins: 1000 * artr, Until: 4000 * Day},
				Acc{Name: "p", Parent: "r", Coins: 1000 * artr, Until: 2 * Day},
				Acc{Name: "a", Parent: "p", Coins: 2000 * artr, Until: 1 * Day},
				Acc{Name: "b", Parent: "a", Coins: 2000 * artr, Until: 4000 * Day},
			)
			g.Bank.DustDelegation = artr
			return g
		},
		Ops: func(e *E) []sop {
			r := []sop{mPay("a", 0), mPay("p", 0), mDelegate("a", 20*artr), mExpress("a", 18*artr)}
			// exactly to, and one unit before and after the next thing to happen
			i := e.mustTree().n[A("a")]
			for _, t := range []*time.Time{i.CompressionAt, i.BanishmentAt} {
				if t != nil && t.After(e.t) {
					d := t.Sub(e.t)
					r = append(r, blk(d))
					if d > 1 {
						r = append(r, blk(d-1))
					}
				}
			}
			return append(r, blk(31*Day), blk(60*Day), blk(time.Nanosecond))
		},
	}
}

// famPendings: requests pending from genesis, among them one of a banished account and one about to time out.
func famPendings() Fam {
	return Fam{
		Name: "pendings", Depth: [2]int{5, 7},
		Note: "requests repeated after an answer while the timeouts of earlier ones are still to come; the destination closing while a request is pending; strangers",
		Gen: func() *Gen {
			g := newGen(
				Acc{Name: "r", Coins: 500 * artr, Until: 300 * Day},
				Acc{Name: "a", Parent: "r", Coins: 500 * artr, Until: 300 * Day},
				Acc{Name: "b", Parent: "a", Coins: 500 * artr, Until: 300 * Day, Transition: "c", TransitionAt: 6 * time.Hour},
				Acc{Name: "c", Parent: "r", Coins: 500 * artr, Until: -31 * Day, CompressAt: 30*Day + 7*time.Hour},
				Acc{Name: "x", Parent: "a", Banished: true, Coins: 500 * artr},
				Acc{Name: "n", NoRef: true, NoProf: true, Coins: 500 * artr},
			)
			return g
		},
		Ops: func(e *E) []sop {
			return []sop{mRequest("b", "c"), mRequest("b", "r"), mApprove("a", "b"), mDecline("a", "b"), mApprove("r", "b"), mDecline("r", "b"),
				mRequest("x", "r"), mApprove("a", "x"), mRequest("n", "a"), mRequest("a", "n"), mPay("x", 0), mPay("c", 0), mApprove("r", "x"), mRequest("r", "b"),
				blk(6 * time.Hour), blk(18 * time.Hour), blk(18*time.Hour - 1)}
		},
	}
}

func prof(autopay bool) profile.Profile { return profile.Profile{AutoPay: autopay} }

// famTransit: changes of referrer between all kinds of places.
func famTransit() Fam {
	subj := []string{"d", "c", "b", "f"}
	dest := []string{"a", "r", "e", "d", "f", "g", "x", "nobody", "company"}
	return Fam{
		Name: "transitions", Depth: [2]int{4, 5},
		Note: "requests to move several accounts under every other one (own subtree, closed, compressed, banished, unknown), answers by the referrer and by others, timeouts, with requests repeated and the tree changing in between",
		Gen: func() *Gen {
			g := newGen(
				Acc{Name: "r", Coins: 50 * artr, Until: 300 * Day},
				Acc{Name: "a", Parent: "r", Coins: 50 * artr, Until: 300 * Day, Deleg: 3 * artr},
				Acc{Name: "b", Parent: "a", Coins: 50 * artr, Until: 300 * Day},
				Acc{Name: "c", Parent: "b", Coins: 50 * artr, Until: 300 * Day, Deleg: 7 * artr},
				Acc{Name: "d", Parent: "c", Coins: 25 * artr, Until: 300 * Day, Deleg: 11 * artr},
				Acc{Name: "e", Parent: "r", Coins: 50 * artr, Until: 300 * Day},
				Acc{Name: "f", Parent: "e", Coins: 9*artr + 999_999, Until: 300 * Day},
				Acc{Name: "g", Parent: "e", Coins: 50 * artr, Until: -40 * Day, CompressAt: 12 * time.Hour},
				Acc{Name: "x", Parent: "e", Banished: true, Coins: 50 * artr},
			)
			return g
		},
		Ops: func(e *E) []sop {
			t := e.mustTree()
			var r []sop
			for _, s := range subj {
				i := t.n[A(s)]
				if i.Transition == "" {
					for _, d := range dest {
						if d != s {
							r = append(r, mRequest(s, d))
						}
					}
				} else {
					p := nameOf(i.Referrer)
					r = append(r, mApprove(p, s), mDecline(p, s), mApprove(nameOf(i.Transition), s), mApprove(s, s), mRequest(s, "a"))
				}
			}
			r = append(r, mApprove("c", "d"), mDecline("c", "d"))
			return append(r, mSend("r", "f", 5*artr), blk(time.Hour), blk(10*time.Hour), blk(14*time.Hour), blk(24*time.Hour))
		},
	}
}

// famStatus: two- and three-wide trees at the boundary of the first statuses.
func famStatus() Fam {
	return Fam{
		Name: "statuses", Depth: [2]int{4, 5},
		Note: "accounts at the boundaries of the first three statuses (coins one unit short or over, teams one person short), losing and regaining them by delegating, revoking, expiry, payment and moves between teams; blocks around the two-day grace period",
		Gen:  func() *Gen { return statusGen(false) },
		Ops: func(e *E) []sop {
			r := []sop{
				mDelegate("t", 2*artr), mRevoke("t", 2*artr), mDelegate("t1", 30_001*artr), mRevoke("t1", 29_000*artr),
				mPay("t12", 0), mPay("t33", 0), mPay("t3", 0),
				blk(time.Second), blk(Day), blk(2 * Day),
			}
			t := e.mustTree()
			any := false
			ps := [][2]string{{"t11", "t2"}, {"t13", "t"}, {"t4", "t1"}, {"t41", "t"}, {"t21", "t31"}}
			for _, p := range ps {
				if i := t.n[A(p[0])]; i != nil && i.Transition != "" {
					r = append(r, mApprove(nameOf(i.Referrer), p[0]))
					any = true
				}
			}
			if !any {
				for _, p := range ps {
					r = append(r, mRequest(p[0], p[1]))
				}
			}
			return r
		},
	}
}

// statusGen: t over four children with up to three children each.
func statusGen(big bool) *Gen {
	l := []Acc{
		{Name: "top", Coins: 10 * artr, Until: 400 * Day},
		{Name: "t", Parent: "top", Coins: 100_000 * artr, Deleg: 19_999 * artr, Until: 400 * Day},
	}
	for i := 1; i <= 4; i++ {
		c := Acc{Name: fmt.Sprintf("t%d", i), Parent: "t", Coins: 50_000 * artr, Until: 300 * Day}
		if i == 3 {
			c.Until = 3 * Day
		}
		l = append(l, c)
		for j := 1; j <= 3; j++ {
			if i == 4 && j > 1 {
				continue
			}
			k := Acc{Name: fmt.Sprintf("t%d%d", i, j), Parent: c.Name, Coins: 3_000 * artr, Until: 300 * Day}
			switch {
			case i == 1 && j == 2:
				k.Until = 1 * Day
			case i == 3 && j == 3, i == 2 && j == 3:
				k.Until, k.CompressAt = -Day, 50*Day
			}
			l = append(l, k)
		}
	}
	// about to be compressed while a downgrade is pending
	l = append(l, Acc{Name: "z", Parent: "top", Coins: 60 * artr, Until: -59 * Day, CompressAt: Day, DowngradeAt: 36 * time.Hour, Status: referral.STATUS_LEADER})
	g := newGen(l...)
	g.Ref.Params.TransitionPrice = artr
	return g
}

// famMoves: moves within one ancestor's network, where both the old and the new chain reach the same accounts.
func famMoves() Fam {
	ps := [][2]string{{"t11", "t2"}, {"t21", "t3"}, {"t31", "t1"}, {"s", "t"}, {"s", "t1"}, {"t1", "t2"}, {"t22", "q"}, {"t2", "top"}}
	return Fam{
		Name: "moves", Depth: [2]int{5, 7},
		Note: "an account exactly meeting (or one short of) a status' requirements while members of its own network move between its teams, up and down",
		Gen: func() *Gen {
			u := 300 * Day
			g := newGen(
				Acc{Name: "top", Coins: 10 * artr, Until: u},
				Acc{Name: "t", Parent: "top", Coins: 9_000 * artr, Deleg: 12_000 * artr, Until: u},
				Acc{Name: "t1", Parent: "t", Coins: 5_000 * artr, Until: u},
				Acc{Name: "t2", Parent: "t", Coins: 50 * artr, Until: u},
				Acc{Name: "t3", Parent: "t", Coins: 50 * artr, Until: u},
				Acc{Name: "t11", Parent: "t1", Coins: 50 * artr, Until: u},
				Acc{Name: "t12", Parent: "t1", Coins: 50 * artr, Until: u},
				Acc{Name: "t21", Parent: "t2", Coins: 50 * artr, Until: u},
				Acc{Name: "t22", Parent: "t2", Coins: 50 * artr, Until: u},
				Acc{Name: "t31", Parent: "t3", Coins: 50 * artr, Until: u},
				Acc{Name: "q", Parent: "t31", Coins: 50 * artr, Until: u},
				Acc{Name: "s", Parent: "q", Coins: 50 * artr, Deleg: 6_000 * artr, Until: u},
			)
			g.Ref.Params.TransitionPrice = artr
			return g
		},
		Ops: func(e *E) []sop {
			r := []sop{mDelegate("t", 3_000*artr), mDelegate("t1", 4_000*artr), mExpress("s", 5_990*artr), blk(2 * Day)}
			t := e.mustTree()
			any := false
			for _, p := range ps {
				if i := t.n[A(p[0])]; i != nil && i.Transition == A(p[1]) {
					r = append(r, mApprove(nameOf(i.Referrer), p[0]))
					any = true
				}
			}
			if !any {
				for _, p := range ps {
					r = append(r, mRequest(p[0], p[1]))
				}
			}
			return r
		},
	}
}

// famHigh: the fourth status with a team that reaches as deep as it counts, and the fifth by coins.
func famHigh() Fam {
	return Fam{
		Name: "high", Depth: [2]int{4, 6},
		Note: "an account at the boundary of the statuses that count teams: three teams of exactly ten (the tenth person of one being ten levels down), activity lost and regained at several depths, a team member compressed, coins at the boundary",
		Gen: func() *Gen {
			u := 300 * Day
			l := []Acc{
				{Name: "top", Coins: 10 * artr, Until: u},
				{Name: "t", Parent: "top", Coins: 900_000 * artr, Deleg: 150_000 * artr, Until: u},
			}
			for _, x := range []string{"a", "b", "c"} {
				l = append(l, Acc{Name: x, Parent: "t", Coins: 5_000 * artr, Until: u})
				for j := 1; j <= 3; j++ {
					l = append(l, Acc{Name: fmt.Sprintf("%s%d", x, j), Parent: x, Coins: 5_000 * artr, Until: u})
				}
				if x == "c" {
					break
				}
				for j := 1; j <= 6; j++ {
					k := Acc{Name: fmt.Sprintf("%s1%d", x, j), Parent: x + "1", Coins: 5_000 * artr, Until: u}
					if x == "b" && j == 6 {
						k.Until = 3 * Day
					}
					l = append(l, k)
				}
			}
			p := "c1"
			for d := 2; d <= 10; d++ {
				k := Acc{Name: fmt.Sprintf("d%d", d), Parent: p, Coins: 5_000 * artr, Until: u}
				switch d {
				case 3, 4, 5:
					k.Until, k.CompressAt = -Day, 50*Day
					if d == 4 {
						k.CompressAt = 5 * Day
					}
				case 10:
					k.Until = Day
				}
				l = append(l, k)
				p = k.Name
			}
			l = append(l, Acc{Name: "w", Parent: p, Coins: 5_000 * artr, Until: -Day, CompressAt: 40 * Day})
			return newGen(l...)
		},
		Ops: func(e *E) []sop {
			return []sop{mPay("d10", 0), mPay("w", 0), mPay("b16", 0), mPay("d3", 0), mRevoke("t", artr), mExpress("t", 101_000*artr), mDelegate("t", 2*artr),
				blk(Day), blk(2 * Day), blk(4 * Day)}
		},
	}
}

func (f Fam) to(quick, thorough int) Fam { f.Depth = [2]int{quick, thorough}; return f }

func pick(fs []Fam, names ...string) []Fam {
	var r []Fam
	for _, f := range fs {
		for _, n := range names {
			if strings.HasPrefix(f.Name, n) {
				r = append(r, f)
			}
		}
	}
	return r
}

func treeFams() []Fam {
	return []Fam{famMoney(), famDeep(), famLife(), famTransit(), famStatus(), famMoves(), famHigh()}
}

func init() {
	reg := func(id string, d deco, rule string) {
		register(&Check{ID: id, Quick: 75 * time.Second, Rule: rule,
			Scenarios: func(tier string) []*Scenario {
				fs := treeFams()
				if id == "C06" {
					fs[3] = fs[3].to(3, 5)
				}
				if id == "C05" {
					fs[1], fs[4], fs[6] = fs[1].to(3, 5), fs[4].to(3, 5), fs[6].to(3, 5)
				}
				return famScenarios(tier, fs, d)
			}})
	}
	reg("C03", deco{Inv: invAggregates}, "every sequence of the listed messages and blocks up to the depth; in every state every account's eleven coin sums and eleven delegation sums are recomputed from the tree and the balances")
	reg("C04", deco{Inv: invActivity}, "every sequence of the listed messages and blocks up to the depth; in every state every account's activity flag, active-referral list and eleven counts are recomputed from the tree and the subscriptions")
	reg("C05", deco{Inv: invForest, Post: postLinks}, "every sequence of the listed messages and blocks up to the depth; in every state all links are checked in both directions")
	reg("C06", deco{Inv: invStatus, Post: postStatus}, "every sequence of the listed messages and blocks up to the depth; in every state every account's status, pending downgrade and its task are compared with the requirements evaluated from scratch; every change of status is checked against the rules")
	fams := func(id string, d deco, rule string, f func() []Fam) {
		register(&Check{ID: id, Quick: 75 * time.Second, Rule: rule,
			Scenarios: func(tier string) []*Scenario { return famScenarios(tier, f(), d) }})
	}
	fams("C07", deco{Post: postLife}, "every sequence of the listed messages and blocks up to the depth; after every step the timers and the banishment of every account are compared with those computed from the state before the step",
		func() []Fam { return []Fam{famLife().to(4, 6), famTimers(), famDeep().to(3, 4), famMoney().to(4, 5)} })
	fams("C08", deco{Init: initReq, Post: postRequests}, "every sequence of the listed messages and blocks up to the depth; a reference model keeps every pending request with its deadline; after every step requests, links and prices are compared with it",
		func() []Fam {
			return []Fam{famTransit(), famMoves().to(4, 6), famDeep().to(3, 4), famPendings().to(6, 8)}
		})
}
