//go:build go1.22

package main

// Raw readers of the stores and the properties checked on every state ("invariants"), written against the
// documented meaning of the data and independent of the keepers' own code.

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/util"
	bank "github.com/arterynetwork/artr/x/bank/types"
)

// Ledger: address (bech32) -> denom -> amount
type Ledger map[string]map[string]int64

func (l Ledger) get(a, d string) int64 { return l[a][d] }
func (l Ledger) add(a, d string, n int64) {
	m := l[a]
	if m == nil {
		m = map[string]int64{}
		l[a] = m
	}
	m[d] += n
	if m[d] == 0 {
		delete(m, d)
	}
	if len(m) == 0 {
		delete(l, a)
	}
}
func (l Ledger) move(from, to, d string, n int64) { l.add(from, d, -n); l.add(to, d, n) }
func (l Ledger) clone() Ledger {
	r := Ledger{}
	for a, m := range l {
		c := map[string]int64{}
		for d, n := range m {
			c[d] = n
		}
		r[a] = c
	}
	return r
}
func (l Ledger) total() map[string]int64 {
	r := map[string]int64{}
	for _, m := range l {
		for d, n := range m {
			r[d] += n
		}
	}
	return r
}

var knownNames sync.Map // address -> name

func nameOf(a string) string {
	if n, ok := knownNames.Load(a); ok {
		return n.(string)
	}
	return a
}

func diffLedger(want, got Ledger) error {
	var ks []string
	for a := range want {
		ks = append(ks, a)
	}
	for a := range got {
		if want[a] == nil {
			ks = append(ks, a)
		}
	}
	sort.Strings(ks)
	for _, a := range ks {
		for _, d := range []string{U, D, R} {
			if want.get(a, d) != got.get(a, d) {
				return fmt.Errorf("balance of %s: expected %d %s, got %d (difference %d)", nameOf(a), want.get(a, d), d, got.get(a, d), got.get(a, d)-want.get(a, d))
			}
		}
		for d := range got[a] {
			if d != U && d != D && d != R && want.get(a, d) != got.get(a, d) {
				return fmt.Errorf("balance of %s: expected %d %s, got %d", nameOf(a), want.get(a, d), d, got.get(a, d))
			}
		}
	}
	return nil
}

func (e *E) ledger() (Ledger, error) {
	l := Ledger{}
	err := e.each(bank.StoreKey, func(k, v []byte) error {
		if !bytes.HasPrefix(k, bank.BalancesPrefix) {
			return nil
		}
		var b bank.Balance
		if err := e.ec.Marshaler.UnmarshalBinaryBare(v, &b); err != nil {
			return err
		}
		a := sdk.AccAddress(k[len(bank.BalancesPrefix):]).String()
		for _, c := range b.Coins {
			if !c.Amount.IsInt64() || c.Amount.Sign() <= 0 {
				return fmt.Errorf("balance of %s is %v", nameOf(a), c)
			}
			if l[a][c.Denom] != 0 {
				return fmt.Errorf("balance of %s names %s twice", nameOf(a), c.Denom)
			}
			l.add(a, c.Denom, c.Amount.Int64())
		}
		return nil
	})
	return l, err
}

func (e *E) mustLedger() Ledger {
	l, err := e.ledger()
	if err != nil {
		panic(err)
	}
	return l
}

func (e *E) supply() map[string]int64 {
	var s bank.Supply
	if err := e.ec.Marshaler.UnmarshalBinaryBare(e.raw(bank.StoreKey, bank.SupplyKey), &s); err != nil {
		panic(err)
	}
	r := map[string]int64{}
	for _, c := range s.Total {
		if c.Amount.Sign() != 0 {
			r[c.Denom] = c.Amount.Int64()
		}
	}
	return r
}

// invSupply: supply equals the sum of balances, per denomination, and balances are positive.
func invSupply(e *E) error {
	l, err := e.ledger()
	if err != nil {
		return err
	}
	t, s := l.total(), e.supply()
	e.ctr.compared++
	for d := range t {
		if t[d] != s[d] {
			return fmt.Errorf("supply of %s is %d, the balances sum to %d", d, s[d], t[d])
		}
	}
	for d := range s {
		if t[d] != s[d] {
			return fmt.Errorf("supply of %s is %d, the balances sum to %d", d, s[d], t[d])
		}
	}
	return nil
}

func modAddr(e *E, name string) string {
	return e.app.GetAccountKeeper().GetModuleAddress(name).String()
}

// rat: value of a fraction, read off its text form (not through its arithmetic).
func rat(f util.Fraction) *big.Rat {
	s := f.String()
	if strings.HasSuffix(s, "%") {
		s = strings.TrimSuffix(s, "%") + "/100"
	}
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		panic("bad fraction " + s)
	}
	return r
}

// floorMul: floor(f*n) for non-negative operands.
func floorMul(f *big.Rat, n int64) int64 {
	x := new(big.Rat).Mul(f, new(big.Rat).SetInt64(n))
	return new(big.Int).Quo(x.Num(), x.Denom()).Int64()
}

// denOf: the denominator a fraction is written with.
func denOf(f util.Fraction) int64 {
	s := f.String()
	if strings.HasSuffix(s, "%") {
		return 100
	}
	if i := strings.IndexByte(s, '/'); i >= 0 {
		n, err := strconv.ParseInt(s[i+1:], 10, 64)
		if err != nil {
			panic(err)
		}
		return n
	}
	return 1
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// txFee: what a transfer of `amount` costs under the bank parameters: rate, cap, then down to an amount that the
// split ratios (as written) divide without remainder.
func txFee(p bank.Params, amount int64) int64 {
	fee := floorMul(rat(p.TransactionFee), amount)
	if p.MaxTransactionFee != 0 && fee > p.MaxTransactionFee {
		fee = p.MaxTransactionFee
	}
	a, b := denOf(p.TransactionFeeSplitRatios.ForProposer), denOf(p.TransactionFeeSplitRatios.ForCompany)
	l := a / gcd(a, b) * b
	return fee - fee%l
}

// distributeFees: what the beginning of a block with proposer `acc` does to the ledger. Returns what is burned.
func distributeFees(e *E, l Ledger, p bank.Params, acc string) int64 {
	fc, sc := modAddr(e, "fee_collector"), modAddr(e, util.SplittableFeeCollectorName)
	for d, n := range l[fc] {
		l.move(fc, acc, d, n)
	}
	n := l.get(sc, U)
	pr, co := floorMul(rat(p.TransactionFeeSplitRatios.ForProposer), n), floorMul(rat(p.TransactionFeeSplitRatios.ForCompany), n)
	l.move(sc, acc, U, pr)
	l.move(sc, p.CompanyAccount, U, co)
	l.add(sc, U, -(n - pr - co))
	return n - pr - co
}
