//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/util"
	bank "github.com/arterynetwork/artr/x/bank/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
)

// validator makes a staff validator (qualified whatever its stake) of the genesis.
func genValidator(name string, key int) noding.Validator {
	_, pk, _ := consKey(key)
	return noding.Validator{Account: A(name), PubKey: pk, Staff: true}
}

func proposerOf(i int) []byte { _, _, a := consKey(i); return a }

// sendOK: whether the rules allow the transfer, given the ledger before it.
func sendOK(e *E, p bank.Params, l Ledger, from, to string, amt sdk.Coins) (bool, int64) {
	if !amt.IsValid() || len(amt) != 1 || amt[0].Denom != U || !amt[0].IsPositive() {
		return false, 0
	}
	n := amt[0].Amount.Int64()
	if n < p.MinSend {
		return false, 0
	}
	ta, err := sdk.AccAddressFromBech32(to)
	if err != nil || e.app.GetAccountKeeper().GetAccount(e.Ctx(), ta) == nil {
		return false, 0
	}
	for _, b := range p.BlockedSenders {
		if b == from {
			return false, 0
		}
	}
	fee := txFee(p, n)
	return l.get(from, U) >= n+fee, fee
}

func bankParams(e *E) bank.Params { return e.app.GetBankKeeper().GetParams(e.Ctx()) }

// checkedSend delivers a transfer and compares every balance with what the rules say.
func checkedSend(e *E, from, to string, amt sdk.Coins) error {
	p := bankParams(e)
	l, err := e.ledger()
	if err != nil {
		return err
	}
	before := e.snap()
	ok, fee := sendOK(e, p, l, from, to, amt)
	fa, _ := sdk.AccAddressFromBech32(from)
	err = e.Deliver(fa, &bank.MsgSend{FromAddress: from, ToAddress: to, Amount: amt})
	if ok != (err == nil) {
		return fmt.Errorf("transfer of %v from %s to %s: expected accepted=%v, got %v", amt, nameOf(from), nameOf(to), ok, err)
	}
	e.ctr.compared++
	if !ok {
		if e.snap().hash(e.trans) != before.hash(e.trans) {
			return fmt.Errorf("a refused transfer of %v changed the state", amt)
		}
		return nil
	}
	n := amt[0].Amount.Int64()
	l.move(from, modAddr(e, util.SplittableFeeCollectorName), U, fee)
	l.move(from, to, U, n)
	got, err := e.ledger()
	if err != nil {
		return err
	}
	return diffLedger(l, got)
}

func checkedBurn(e *E, who string, n uint64) error {
	l := e.mustLedger()
	ok := n > 0 && n < 1<<62 && l.get(who, U) >= int64(n)
	fa, _ := sdk.AccAddressFromBech32(who)
	before := e.snap()
	err := e.Deliver(fa, &bank.MsgBurn{Account: who, Amount: n})
	if ok != (err == nil) {
		return fmt.Errorf("burning %d of %s: expected accepted=%v, got %v", n, nameOf(who), ok, err)
	}
	e.ctr.compared++
	if !ok {
		if e.snap().hash(e.trans) != before.hash(e.trans) {
			return fmt.Errorf("a refused burn of %d changed the state", n)
		}
		return nil
	}
	l.add(who, U, -int64(n))
	if err := diffLedger(l, e.mustLedger()); err != nil {
		return err
	}
	return invSupply(e)
}

// feeBlock runs a block in which nothing but the distribution of fees happens.
func feeBlock(e *E, proposer []byte, acc string) error {
	p := bankParams(e)
	l := e.mustLedger()
	s0 := e.supply()
	fc, sc := modAddr(e, "fee_collector"), modAddr(e, util.SplittableFeeCollectorName)
	pot := l.get(sc, U)
	if _, err := e.End(); err != nil {
		return err
	}
	if err := e.Begin(BlockIn{Dt: 10 * time.Second, Proposer: proposer}); err != nil {
		return err
	}
	e.ctr.compared++
	burned := int64(0)
	if acc != "" {
		burned = distributeFees(e, l, p, acc)
		if l.get(sc, U) != 0 || len(l[fc]) != 0 {
			return fmt.Errorf("oracle: fees left undistributed")
		}
	}
	got := e.mustLedger()
	if err := diffLedger(l, got); err != nil {
		return fmt.Errorf("fee distribution of %d: %w", pot, err)
	}
	if s1 := e.supply(); s0[U]-s1[U] != burned {
		return fmt.Errorf("fee distribution of %d burned %d instead of %d", pot, s0[U]-s1[U], burned)
	}
	// while the ratios stay the same, the shares are whole numbers: nobody gains or loses by rounding
	if m, ok := e.M.(*bankModel); ok && m.cfg >= 0 && !m.changed && acc != "" {
		n := new(big.Rat).SetInt64(pot)
		for _, f := range []util.Fraction{p.TransactionFeeSplitRatios.ForProposer, p.TransactionFeeSplitRatios.ForCompany} {
			if x := new(big.Rat).Mul(rat(f), n); !x.IsInt() {
				return fmt.Errorf("fees of %d cannot be split exactly by %v", pot, f)
			}
		}
	}
	return invSupply(e)
}

type bankCfg struct {
	fee      util.Fraction
	max, min int64
	pr, co   util.Fraction
}

func (c bankCfg) String() string {
	return fmt.Sprintf("fee=%v max=%d min=%d split=%v/%v", c.fee, c.max, c.min, c.pr, c.co)
}

func setBank(e *E, c bankCfg) error {
	ctx, write := e.branch()
	p := e.app.GetBankKeeper().GetParams(ctx)
	p.TransactionFee, p.MaxTransactionFee, p.MinSend = c.fee, c.max, c.min
	p.TransactionFeeSplitRatios = bank.TransactionFeeSplitRatios{ForProposer: c.pr, ForCompany: c.co}
	if err := p.Validate(); err != nil {
		return err
	}
	e.app.GetBankKeeper().SetParams(ctx, p)
	write()
	return nil
}

func bankGen() *Gen {
	g := newGen(
		Acc{Name: "v", Coins: 5_000000, Deleg: 0, Until: 300 * Day},
		Acc{Name: "a", Parent: "v", Coins: 20_000_000000, Until: 300 * Day},
		Acc{Name: "b", Parent: "a", Coins: 3_500, Until: 300 * Day},
		Acc{Name: "x", Parent: "v", Coins: 9_000000, Until: 300 * Day},
		Acc{Name: "y", Parent: "v", Coins: 9_000000, Until: 300 * Day},
		Acc{Name: "z", Parent: "v", Coins: 0, Until: 300 * Day},
	)
	g.Bank.BlockedSenders = []string{A("x"), A("y")}
	g.Nod.Active = []noding.Validator{genValidator("v", 0)}
	g.Nod.Params.MinCriteria = noding.MinCriteria{Status: 1}
	return g
}

func coins(n int64) sdk.Coins { return sdk.Coins{{Denom: U, Amount: sdk.NewInt(n)}} }

func bankCfgs(tier string) []bankCfg {
	pm := util.NewFraction
	var r []bankCfg
	splits := [][2]util.Fraction{{pm(1, 1), pm(0, 1)}, {pm(0, 1), pm(1, 1)}, {pm(1, 2), pm(1, 2)}, {pm(1, 3), pm(1, 3)}, {pm(0, 1), pm(0, 1)}, {pm(15, 100), pm(85, 100)}, {pm(1, 4), pm(1, 6)}}
	fees, mins := []util.Fraction{pm(3, 1000), pm(0, 1), pm(1, 3), pm(1, 1)}, []int64{1000, 0}
	if tier == "thorough" {
		fees, mins = append(fees, pm(1, 200)), append(mins, 1)
	}
	for _, fee := range fees {
		for _, max := range []int64{10_000000, 0, 7} {
			for _, min := range mins {
				for _, s := range splits {
					r = append(r, bankCfg{fee, max, min, s[0], s[1]})
				}
			}
		}
	}
	return r
}

func sendOps(e *E, tag string, amounts []int64) []Op {
	var ops []Op
	type pr struct{ f, t string }
	sc := util.SplittableFeeCollectorName
	add := func(f, t, tn string, c sdk.Coins) {
		ops = append(ops, Op{fmt.Sprintf("send(%s->%s,%v)", f, tn, c), func(e *E) error { return checkedSend(e, A(f), t, c) }})
	}
	seen := map[int64]bool{}
	for _, n := range amounts {
		if n <= 0 || seen[n] {
			continue
		}
		seen[n] = true
		for i, p := range []pr{{"a", "b"}, {"b", "a"}, {"a", "company"}, {"b", "z"}} {
			if i < 2 || len(seen) == 1 {
				add(p.f, A(p.t), p.t, coins(n))
			}
		}
	}
	if tag == "full" {
		for _, n := range []int64{1000, 5000} {
			n := n
			add("a", A("a"), "a", coins(n))
			add("x", A("a"), "a", coins(n))
			add("y", A("a"), "a", coins(n))
			add("a", A("x"), "x", coins(n))
			add("a", A("nobody"), "nobody", coins(n))
			add("a", modAddr(e, "fee_collector"), "fee_collector", coins(n))
			ops = append(ops, Op{fmt.Sprintf("send(a->%s,%d)", sc, n), func(e *E) error {
				e.M.(*bankModel).changed = true // fees mixed with a gift need not divide
				return checkedSend(e, A("a"), modAddr(e, sc), coins(n))
			}})
			add("nobody", A("a"), "a", coins(n))
		}
		add("a", A("b"), "b", sdk.Coins{{Denom: D, Amount: sdk.NewInt(2000)}})
		add("a", A("b"), "b", sdk.Coins{{Denom: R, Amount: sdk.NewInt(2000)}})
		add("a", A("b"), "b", sdk.Coins{{Denom: U, Amount: sdk.NewInt(2000)}, {Denom: D, Amount: sdk.NewInt(10)}})
		add("a", A("b"), "b", sdk.Coins{{Denom: "foo", Amount: sdk.NewInt(2000)}})
		add("a", A("b"), "b", sdk.Coins{{Denom: U, Amount: sdk.NewInt(0)}})
		add("a", A("b"), "b", sdk.Coins{{Denom: U, Amount: sdk.NewInt(-2000)}})
		add("a", A("b"), "b", sdk.Coins{})
		add("a", A("b"), "b", sdk.Coins{{Denom: U, Amount: sdk.NewInt(2000)}, {Denom: U, Amount: sdk.NewInt(2000)}})
		for _, n := range []uint64{0, 1, 3500, 3501, 1 << 63, 1<<63 + 5} {
			n := n
			ops = append(ops, Op{fmt.Sprintf("burn(b,%d)", n), func(e *E) error { return checkedBurn(e, A("b"), n) }})
		}
		ops = append(ops, Op{"forged: a signs for b", func(e *E) error {
			if err := e.Deliver(addr("a"), &bank.MsgSend{FromAddress: A("b"), ToAddress: A("a"), Amount: coins(2000)}); err == nil {
				return fmt.Errorf("a transfer from b signed by a was accepted")
			}
			return nil
		}})
	}
	for _, b := range []struct {
		n   string
		c   []byte
		acc string
	}{{"v", proposerOf(0), A("v")}, {"unknown", proposerOf(7), ""}, {"none", nil, ""}} {
		b := b
		ops = append(ops, Op{"block(proposer " + b.n + ")", func(e *E) error { return feeBlock(e, b.c, b.acc) }})
	}
	return ops
}

// configuration chosen by the first step, then everything
type bankModel struct {
	cfg     int
	changed bool
}

func (m *bankModel) Clone() Model { c := *m; return &c }
func (m *bankModel) Key() string  { return fmt.Sprint(m.cfg, m.changed) }

func init() {
	register(&Check{
		ID: "C02",
		Scenarios: func(tier string) []*Scenario {
			d1, d2, d3 := 3, 5, 7
			if tier == "thorough" {
				d1, d2, d3 = 4, 6, 10
			}
			cfgs := bankCfgs(tier)
			mk := func(name string, depth int, cfgs []bankCfg, tag string, amounts func(e *E, c bankCfg) []int64) *Scenario {
				return &Scenario{
					Name: name, Depth: depth,
					Note: fmt.Sprintf("%d configurations of fee rate, cap, minimum and split ratios", len(cfgs)),
					Init: func(m *Machine) (*E, error) {
						e, err := bankGen().Start(m)
						if err != nil {
							return nil, err
						}
						e.M = &bankModel{cfg: -1}
						return e, nil
					},
					Inv: invSupply,
					Ops: func(e *E) []Op {
						var ops []Op
						if e.M.(*bankModel).cfg < 0 {
							for i, c := range cfgs {
								i, c := i, c
								ops = append(ops, Op{"params(" + c.String() + ")", func(e *E) error { e.M = &bankModel{cfg: i}; return setBank(e, c) }})
							}
							return ops
						}
						return sendOps(e, tag, amounts(e, cfgs[e.M.(*bankModel).cfg]))
					},
				}
			}
			thresholds := func(e *E, c bankCfg) []int64 {
				b := e.mustLedger().get(A("b"), U)
				f := txFee(bankParams(e), b)
				r := []int64{1199, 1, c.min - 1, c.min, c.min + 1, b, b - f, b - f + 1, 2000_000003}
				// amounts at which the fee jumps or reaches its cap
				if c.max > 0 && !c.fee.IsZero() {
					x := new(big.Rat).Quo(new(big.Rat).SetInt64(c.max), rat(c.fee))
					n := new(big.Int).Quo(x.Num(), x.Denom()).Int64()
					r = append(r, n-1, n, n+1)
				}
				return r
			}
			small := []bankCfg{cfgs[0], {util.NewFraction(3, 1000), 10_000000, 1000, util.NewFraction(1, 3), util.NewFraction(1, 4)}, {util.NewFraction(1, 3), 7, 0, util.NewFraction(1, 2), util.NewFraction(1, 3)}}
			reconf := mk("reconfigured", d3, small[:2], "", func(e *E, c bankCfg) []int64 { return []int64{1199, 5003} })
			base := reconf.Ops
			reconf.Note = "split ratios changed while fees are waiting to be distributed"
			reconf.Ops = func(e *E) []Op {
				ops := base(e)
				if e.M.(*bankModel).cfg >= 0 {
					for _, c := range []bankCfg{{util.NewFraction(1, 200), 0, 1, util.NewFraction(1, 7), util.NewFraction(2, 7)}, {util.NewFraction(1, 100), 11, 1200, util.NewFraction(0, 1), util.NewFraction(9, 10)}} {
						c := c
						ops = append(ops, Op{"params(" + c.String() + ")", func(e *E) error { e.M.(*bankModel).changed = true; return setBank(e, c) }})
					}
				}
				return ops
			}
			return []*Scenario{
				mk("every-configuration", d1, cfgs, "", thresholds),
				mk("every-request", d2, small, "full", func(e *E, c bankCfg) []int64 { return []int64{1199, 2000_000003} }),
				reconf,
			}
		},
		Quick:       50 * time.Second,
		Rule:        "all sequences, up to the depth, of: choosing a configuration; transfers between every listed pair of every threshold amount and malformed request; blocks with a known, unknown or absent proposer. After every step every balance of every account is compared with the exact expected ledger",
		Assumptions: []string{"transfers are authorised by the required signer (signature verification itself is the SDK's)"},
	})
}
