//go:build go1.22

package main

// C01 (value), C09 (delegated tokens come back), C10 (interest): every step is compared with the reference simulator.

import (
	"fmt"
	"sort"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/util"
	delegating "github.com/arterynetwork/artr/x/delegating/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
)

// postTotal (C01)
func postTotal(pre, post *E, s *Step) error {
	got := post.mustLedger().total()
	sum := got[U] + got[D] + got[R]
	if s.Msg != nil && s.Err != nil {
		post.ctr.compared++
		return diffLedger(pre.mustLedger(), post.mustLedger())
	}
	r, ok, _ := expect(pre, post, s)
	if r.unsure != "" || !ok {
		return nil
	}
	post.ctr.compared++
	l0 := pre.mustLedger().total()
	if before := l0[U] + l0[D] + l0[R]; sum-before != r.minted-r.burned {
		return fmt.Errorf("%s changed the total value by %d; %d of interest and %d of burning make %d", s.Name, sum-before, r.minted, r.burned, r.minted-r.burned)
	}
	return nil
}

func reqList(m map[string]*delegating.Record) string {
	var l []string
	for a, x := range m {
		for _, q := range x.Requests {
			l = append(l, fmt.Sprintf("%s: %s at %s", nameOf(a), q.Amount, q.Time.UTC().Format(time.RFC3339Nano)))
		}
	}
	sort.Strings(l)
	return fmt.Sprint(l)
}

func delegatingMsg(m sdk.Msg) bool {
	switch m.(type) {
	case *delegating.MsgDelegate, *delegating.MsgRevoke, *delegating.MsgExpressRevoke:
		return true
	}
	return false
}

// invRequests (C09): what is locked is what is asked for.
func invRequests(e *E) error {
	l := e.mustLedger()
	sum := map[string]int64{}
	for a, x := range e.delegations() {
		for _, q := range x.Requests {
			sum[a] += q.Amount.Int64()
		}
	}
	e.ctr.compared++
	for a := range l {
		if l.get(a, R) != sum[a] {
			return fmt.Errorf("%s has %d locked, its requests sum to %d", nameOf(a), l.get(a, R), sum[a])
		}
	}
	for a := range sum {
		if l.get(a, R) != sum[a] {
			return fmt.Errorf("%s has %d locked, its requests sum to %d", nameOf(a), l.get(a, R), sum[a])
		}
	}
	return nil
}

// postDelegation (C09)
func postDelegation(pre, post *E, s *Step) error {
	r, ok, known := expect(pre, post, s)
	if !ok {
		if known && delegatingMsg(s.Msg) {
			return fmt.Errorf("%s: accepted %v, expected %v (%v)", s.Name, s.Err == nil, s.Err != nil, s.Err)
		}
		return nil
	}
	if s.Msg != nil && s.Err != nil {
		r = newRef(pre)
	}
	post.ctr.compared++
	want, got := r.led, post.mustLedger()
	only := func(l Ledger, ds ...string) Ledger {
		o := Ledger{}
		for a := range l {
			for _, d := range ds {
				if n := l.get(a, d); n != 0 {
					o.add(a, d, n)
				}
			}
		}
		return o
	}
	if err := diffLedger(only(want, D, R), only(got, D, R)); err != nil {
		return fmt.Errorf("%s: %w", s.Name, err)
	}
	if w, g := reqList(r.del), reqList(post.delegations()); w != g {
		return fmt.Errorf("%s: requests should be %s, are %s", s.Name, w, g)
	}
	if w, g := taskList(r.task, delegating.RevokeHookName), taskList(post.tasks(), delegating.RevokeHookName); w != g {
		return fmt.Errorf("%s: releases should be scheduled as %s, are %s", s.Name, w, g)
	}
	if r.unsure == "" && r.minted == 0 {
		if err := diffLedger(want, got); err != nil {
			return fmt.Errorf("%s: %w", s.Name, err)
		}
	}
	return nil
}

// postInterest (C10)
func postInterest(pre, post *E, s *Step) error {
	r, ok, _ := expect(pre, post, s)
	if !ok || r.unsure != "" {
		return nil
	}
	if s.Msg != nil && s.Err != nil {
		r = newRef(pre)
	}
	post.ctr.compared++
	if err := diffLedger(r.led, post.mustLedger()); err != nil {
		return fmt.Errorf("%s (interest %d expected): %w", s.Name, r.minted, err)
	}
	next := func(m map[string]*delegating.Record) string {
		var l []string
		for a, x := range m {
			if x.NextAccrue != nil {
				l = append(l, nameOf(a)+" "+x.NextAccrue.UTC().Format(time.RFC3339Nano))
			}
		}
		sort.Strings(l)
		return fmt.Sprint(l)
	}
	if w, g := next(r.del), next(post.delegations()); w != g {
		return fmt.Errorf("%s: interest should be paid next at %s, is at %s", s.Name, w, g)
	}
	if w, g := taskList(r.task, delegating.AccrueHookName), taskList(post.tasks(), delegating.AccrueHookName); w != g {
		return fmt.Errorf("%s: payments of interest should be scheduled as %s, are %s", s.Name, w, g)
	}
	return nil
}

func zeroTable(g *Gen) {
	g.Deleg.AccruePercentageTable = []delegating.PercentageListRange{{PercentList: []util.Fraction{util.Percent(0), util.Percent(0), util.Percent(0), util.Percent(0), util.Percent(0)}}}
}

// famRevoke: many requests at once, no interest, so that every balance is predicted.
func famRevoke() Fam {
	return Fam{
		Name: "revoking", Depth: [2]int{5, 7},
		Note: "delegations and both kinds of revoking of several accounts, several requests outstanding at the same and at crossing instants, some about to be released, a delegator about to be banished; no interest",
		Gen: func() *Gen {
			g := newGen(
				Acc{Name: "r", Coins: 1000 * artr, Until: 400 * Day},
				Acc{Name: "a", Parent: "r", Coins: 100 * artr, Deleg: 50 * artr, Until: 300 * Day},
				Acc{Name: "b", Parent: "a", Coins: 20 * artr, Deleg: 5 * artr, Revok: 9 * artr, Until: 300 * Day, Reqs: []delegating.RevokeRequest{
					{Time: t0.Add(14 * Day), Amount: sdk.NewInt(2 * artr)}, {Time: t0.Add(7 * Day), Amount: sdk.NewInt(3 * artr)}, {Time: t0.Add(14 * Day), Amount: sdk.NewInt(4 * artr)}}},
				Acc{Name: "x", Parent: "b", Coins: artr, Deleg: artr / 2, Until: -50 * Day, BanishAt: 8 * Day},
			)
			g.Bank.DustDelegation = artr
			zeroTable(g)
			return g
		},
		Ops: func(e *E) []sop {
			return []sop{
				mDelegate("a", 10*artr+3), mDelegate("b", 1_234_567), mDelegate("b", 999), mRevoke("a", 20*artr+1), mRevoke("a", 1), mRevoke("b", 5*artr), mRevoke("b", 5*artr+1),
				mExpress("a", 20*artr+7), mExpress("b", 3), mExpress("x", artr/2),
				blk(7 * Day), blk(7*Day - 1), blk(1), blk(14 * Day),
			}
		},
	}
}

// famInterest: one delegator at the thresholds of the table, with everything that raises its share coming and going.
func famInterest() Fam {
	return Fam{
		Name: "interest", Depth: [2]int{5, 7},
		Note: "a delegator around the second step of the table and one around the dust limit; subscription, validator and earner shares coming and going; changes of the delegation in the middle of periods; blocks shorter and longer than a period",
		Gen: func() *Gen {
			g := newGen(
				Acc{Name: "v", Coins: 50 * artr, Until: 400 * Day},
				Acc{Name: "a", Parent: "v", Coins: 2_500 * artr, Deleg: 999_500_000, Until: 3 * Day, Accrue: 5 * time.Hour},
				Acc{Name: "d", Parent: "a", Coins: 20 * artr, Deleg: 1_500_001, Until: 400 * Day, Accrue: Day},
			)
			g.Bank.DustDelegation = artr
			g.Deleg.AccruePercentageTable = []delegating.PercentageListRange{
				{Start: 0, PercentList: []util.Fraction{util.Percent(21), util.Percent(2), util.Percent(1), util.Percent(3), util.NewFraction(7, 300)}},
				{Start: 1_000_000000, PercentList: []util.Fraction{util.Percent(24), util.Percent(1), util.Percent(5), util.Percent(4), util.NewFraction(1, 7)}},
			}
			g.Nod.Params.MinCriteria = noding.MinCriteria{Status: 1}
			g.Nod.Params.UnjailAfter = 1
			return g
		},
		Ops: func(e *E) []sop {
			return []sop{
				mDelegate("a", 1_000_000), mExpress("a", 600_000), mRevoke("d", 500_001), mRevoke("d", 500_002), mDelegate("d", 17_777),
				mPay("a", 0), mEarner("oper", "a", 0, 30*Day), mEarner("oper", "a", Day/2, 0), mOn("a", 3), mOff("a"),
				govTable("B", []delegating.PercentageListRange{{Start: 0, PercentList: []util.Fraction{util.Percent(30), util.Percent(0), util.Percent(2), util.Percent(0), util.Percent(1)}}}),
				blk(5 * time.Hour), blk(Day), blk(Day - 1), blk(3 * Day), blk(7*time.Hour + 13*time.Second + 1),
			}
		},
	}
}

// famLadder: validators of different statuses at every distance that counts.
func famLadder() Fam {
	return Fam{
		Name: "ladder", Depth: [2]int{4, 6},
		Note: "a chain of 23 accounts; delegators under validators of every status at and beyond the distances that count, validators switching off and on, an account among them compressed",
		Gen: func() *Gen {
			st := map[int]referral.Status{1: referral.STATUS_ABSOLUTE_CHAMPION, 3: referral.STATUS_TOP_LEADER, 8: referral.STATUS_PROFESSIONAL, 12: referral.STATUS_BUSINESSMAN, 15: referral.STATUS_CHAMPION, 17: referral.STATUS_LEADER, 18: referral.STATUS_MASTER}
			var vs []noding.Validator
			l := chain(23, func(i int, a *Acc) {
				a.Coins = 1000 * artr
				if s, ok := st[i]; ok {
					a.Status, a.DowngradeAt = s, 3000*Day
					vs = append(vs, genValidator(a.Name, i))
				}
				switch i {
				case 16:
					a.Until, a.CompressAt = -Day, 3*Day
				case 19, 21, 22:
					a.Deleg, a.Accrue = int64(i)*1_000_003_000, time.Duration(i)*time.Hour
				}
			})
			g := newGen(l...)
			g.Nod.Active = vs
			g.Nod.Params.MinCriteria = noding.MinCriteria{Status: 1}
			g.Nod.Params.UnjailAfter = 1
			return g
		},
		Ops: func(e *E) []sop {
			r := []sop{
				mOff("c1"), mOff("c3"), mOff("c12"), mOff("c18"), mOn("c1", 1), mOn("c18", 18), mOn("c22", 22),
				mDelegate("c22", 100*artr), mExpress("c21", 7_000_000_001), mRevoke("c19", 1_000_003_000),
				blk(Day), blk(20 * time.Hour), blk(3 * Day),
			}
			return r
		},
	}
}

func famPlain() Fam {
	f := famMoney()
	f.Name, f.Note = "money without interest", f.Note+"; no interest, every balance predicted"
	gen := f.Gen
	f.Gen = func() *Gen { g := gen(); zeroTable(g); return g }
	return f
}

// famShop: every purchase there is.
func famShop() Fam {
	return Fam{
		Name: "purchases", Depth: [2]int{4, 5},
		Note: "subscription, storage, VPN and messenger purchases, renewals with and without consent and money, nickname changes, sign-ups, referrer change requests, fee distribution by a known proposer",
		Gen: func() *Gen {
			g := newGen(
				Acc{Name: "v", Coins: 5000 * artr, Until: 400 * Day},
				Acc{Name: "a", Parent: "v", Coins: 900 * artr, Until: 2 * Day, ImUntil: 3 * Day, Prof: profile.Profile{AutoPay: true, AutoPayImExtra: true, ImLimitExtra: 3, StorageLimit: 7 * GB, VpnLimit: 7 * GB}},
				Acc{Name: "b", Parent: "a", Coins: 205 * artr, Until: 2 * Day, ImUntil: 2 * Day, Prof: profile.Profile{AutoPay: true, AutoPayImExtra: true, ImLimitExtra: 6}},
				Acc{Name: "d", Parent: "b", Coins: 250 * artr, Until: 2 * Day},
			)
			g.Nod.Active = []noding.Validator{genValidator("v", 0)}
			g.Nod.Params.MinCriteria = noding.MinCriteria{Status: 1}
			g.Ref.Params.TransitionPrice = artr
			return g
		},
		Ops: func(e *E) []sop {
			return []sop{
				mPay("d", 0), mPay("a", 9), mBuyStorage("a", 3), mBuyVpn("a", 2), mBuyIm("a", 2), mBuyIm("d", 1), mGiveStorage("a", 5), mGiveIm("a", 0), mProlongIm("a"), mProlongIm("b"),
				mNick("a", "nick"), mNick("b", "nick"), mCreate("a", "n", "a", nil), mRequest("d", "a"), mSend("v", "b", 400*artr), mSend("b", "a", 20*artr),
				{name: "block(v,+1d)", blk: &BlockIn{Dt: Day, Proposer: proposerOf(0)}}, blk(2 * Day), blk(30 * Day),
			}
		},
	}
}

func init() {
	fams := func(id string, d deco, rule string, f func() []Fam) {
		register(&Check{ID: id, Quick: 90 * time.Second, Rule: rule,
			Scenarios: func(tier string) []*Scenario { return famScenarios(tier, f(), d) }})
	}
	fams("C01", deco{Inv: invSupply, Post: postTotal}, "every sequence of the listed messages and blocks up to the depth; in every state supply and balances are compared, after every step the total value is compared with the reference simulator's",
		func() []Fam {
			return []Fam{famPlain(), famMoney(), famShop(), famRevoke().to(4, 6), famLadder().to(3, 5), famLife().to(3, 4)}
		})
	fams("C09", deco{Inv: invRequests, Post: postDelegation}, "every sequence of the listed messages and blocks up to the depth; after every step delegated and locked balances, requests and release tasks of all accounts are compared with the reference simulator's",
		func() []Fam {
			return []Fam{famRevoke(), famRevoke().plus("periods and shares burnt changing", govRevoke(3, 1, util.Percent(0), util.NewFraction(1, 3)), govRevoke(20, 7, util.Percent(9), util.Percent(99))).to(4, 6), famMoney().to(4, 5), famInterest().to(4, 6), famLife().to(3, 5)}
		})
	fams("C10", deco{Post: postInterest}, "every sequence of the listed messages and blocks up to the depth; after every step all balances, the next payment times and their tasks are compared with the reference simulator's",
		func() []Fam {
			return []Fam{famInterest().to(4, 6), famLadder(), famMoney().to(4, 5), famRevoke().to(4, 5)}
		})
}
