//go:build go1.22

package main

// The referral tree, read straight from the store, and what has to be true of it: a forest with consistent links
// (C05), aggregates that equal sums recomputed from scratch (C03), activity counts (C04), statuses (C06).

import (
	"fmt"
	"sort"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"

	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	schedule "github.com/arterynetwork/artr/x/schedule/types"
)

type tree struct {
	n   map[string]*referral.Info
	ks  []string // in store order
	led Ledger
}

func (e *E) tree() (*tree, error) {
	t := &tree{n: map[string]*referral.Info{}}
	err := e.each(referral.StoreKey, func(k, v []byte) error {
		i := &referral.Info{}
		if err := e.ec.Marshaler.UnmarshalBinaryBare(v, i); err != nil {
			return fmt.Errorf("referral record of %s: %w", nameOf(string(k)), err)
		}
		if _, err := sdk.AccAddressFromBech32(string(k)); err != nil {
			return fmt.Errorf("referral record under %q: %w", k, err)
		}
		t.n[string(k)] = i
		t.ks = append(t.ks, string(k))
		return nil
	})
	if err != nil {
		return nil, err
	}
	t.led, err = e.ledger()
	return t, err
}

func (e *E) mustTree() *tree {
	t, err := e.tree()
	if err != nil {
		panic(err)
	}
	return t
}

// profiles: every profile by bech32 address.
func (e *E) profiles() map[string]*profile.Profile {
	r := map[string]*profile.Profile{}
	err := e.each(profile.StoreKey, func(k, v []byte) error {
		p := &profile.Profile{}
		if err := e.ec.Marshaler.UnmarshalBinaryBare(v, p); err != nil {
			return err
		}
		r[sdk.AccAddress(k).String()] = p
		return nil
	})
	if err != nil {
		panic(err)
	}
	return r
}

func (e *E) profile(a string) *profile.Profile {
	ad, err := sdk.AccAddressFromBech32(a)
	if err != nil {
		return nil
	}
	bz := e.raw(profile.StoreKey, ad)
	if bz == nil {
		return nil
	}
	p := &profile.Profile{}
	if err := e.ec.Marshaler.UnmarshalBinaryBare(bz, p); err != nil {
		panic(err)
	}
	return p
}

// tasks in the schedule (hook, payload, time), in order.
func (e *E) tasks() []schedule.Task {
	var r []schedule.Task
	err := e.each(schedule.StoreKey, func(k, v []byte) error {
		var s schedule.Schedule
		if err := e.ec.Marshaler.UnmarshalBinaryBare(v, &s); err != nil {
			return err
		}
		r = append(r, s.Tasks...)
		return nil
	})
	if err != nil {
		panic(err)
	}
	return r
}

func hasTask(ts []schedule.Task, hook string, data []byte, at time.Time) bool {
	for _, t := range ts {
		if t.HandlerName == hook && string(t.Data) == string(data) && t.Time.Equal(at) {
			return true
		}
	}
	return false
}

// ---- C05

func invForest(e *E) error {
	t, err := e.tree()
	if err != nil {
		return err
	}
	e.ctr.compared++
	return t.forest()
}

func (t *tree) forest() error {
	listed := map[string]string{}
	for _, a := range t.ks {
		i := t.n[a]
		seen := map[string]bool{}
		for _, c := range i.Referrals {
			ci := t.n[c]
			if ci == nil {
				return fmt.Errorf("%s lists %s, which is not in the referral", nameOf(a), nameOf(c))
			}
			if seen[c] {
				return fmt.Errorf("%s lists %s twice", nameOf(a), nameOf(c))
			}
			seen[c] = true
			if p, ok := listed[c]; ok {
				return fmt.Errorf("%s is listed by both %s and %s", nameOf(c), nameOf(p), nameOf(a))
			}
			listed[c] = a
			if ci.Banished {
				return fmt.Errorf("%s lists %s, which is banished", nameOf(a), nameOf(c))
			}
			if ci.Referrer != a {
				return fmt.Errorf("%s lists %s, whose referrer is %s", nameOf(a), nameOf(c), nameOf(ci.Referrer))
			}
		}
	}
	for _, a := range t.ks {
		i := t.n[a]
		if i.Banished {
			if len(i.Referrals) != 0 {
				return fmt.Errorf("%s is banished and has referrals", nameOf(a))
			}
		} else if i.Referrer != "" && listed[a] != i.Referrer {
			return fmt.Errorf("%s has referrer %s, who does not list it", nameOf(a), nameOf(i.Referrer))
		} else if i.Referrer != "" && t.n[i.Referrer].Banished {
			return fmt.Errorf("the referrer of %s, %s, is banished", nameOf(a), nameOf(i.Referrer))
		}
		x := a
		for n := 0; t.n[x].Referrer != ""; n++ {
			x = t.n[x].Referrer
			if t.n[x] == nil {
				return fmt.Errorf("following the referrers of %s ends at %s, which is not in the referral", nameOf(a), nameOf(x))
			}
			if n > len(t.ks) {
				return fmt.Errorf("following the referrers of %s never ends", nameOf(a))
			}
		}
	}
	return nil
}

// children by child-to-parent links (not by the lists)
func (t *tree) kids() map[string][]string {
	k := map[string][]string{}
	for _, a := range t.ks {
		if i := t.n[a]; !i.Banished && i.Referrer != "" {
			k[i.Referrer] = append(k[i.Referrer], a)
		}
	}
	return k
}

// levels calls f for every account of the ten levels under a, level 0 being a itself.
func (t *tree) levels(kids map[string][]string, a string, f func(lvl int, x string)) {
	cur := []string{a}
	for l := 0; l <= 10 && len(cur) > 0; l++ {
		var next []string
		for _, x := range cur {
			f(l, x)
			if !(l == 0 && t.n[x].Banished) {
				next = append(next, kids[x]...)
			}
		}
		cur = next
	}
}

// ---- C03

func invAggregates(e *E) error {
	t, err := e.tree()
	if err != nil {
		return err
	}
	kids := t.kids()
	for _, a := range t.ks {
		var c, d [11]int64
		t.levels(kids, a, func(l int, x string) {
			c[l] += t.led.get(x, U) + t.led.get(x, D) + t.led.get(x, R)
			d[l] += t.led.get(x, D)
		})
		i := t.n[a]
		e.ctr.compared++
		for l := 0; l <= 10; l++ {
			if g := intAt(i.Coins, l); g != c[l] {
				return fmt.Errorf("coins of %s at level %d are %d, the balances there sum to %d", nameOf(a), l, g, c[l])
			}
			if g := intAt(i.Delegated, l); g != d[l] {
				return fmt.Errorf("delegated coins of %s at level %d are %d, the balances there sum to %d", nameOf(a), l, g, d[l])
			}
		}
	}
	return nil
}

func intAt(s []sdk.Int, i int) int64 {
	if i >= len(s) {
		return 0
	}
	return s[i].Int64()
}

// ---- C04

func invActivity(e *E) error {
	t, err := e.tree()
	if err != nil {
		return err
	}
	ps := e.profiles()
	kids := t.kids()
	act := map[string]bool{}
	for _, a := range t.ks {
		p := ps[a]
		act[a] = p != nil && p.ActiveUntil != nil && p.ActiveUntil.After(e.t)
		if act[a] != t.n[a].Active && t.n[a].Active {
			// months missed while there were no blocks are made up for one per block: it is marked active as long as
			// an automatic payment is still due
			if ad, _ := sdk.AccAddressFromBech32(a); p != nil && hasTask(e.tasks(), profile.RefreshHookName, ad, *p.ActiveUntil) {
				act[a] = true
			}
		}
		if act[a] != t.n[a].Active {
			return fmt.Errorf("%s has a running subscription: %v, but is marked active: %v", nameOf(a), act[a], t.n[a].Active)
		}
	}
	for _, a := range t.ks {
		var c [11]uint64
		t.levels(kids, a, func(l int, x string) {
			if act[x] {
				c[l]++
			}
		})
		i := t.n[a]
		e.ctr.compared++
		for l := 0; l <= 10; l++ {
			g := uint64(0)
			if l < len(i.ActiveRefCounts) {
				g = i.ActiveRefCounts[l]
			}
			if g != c[l] {
				return fmt.Errorf("%s counts %d active accounts at level %d, there are %d", nameOf(a), g, l, c[l])
			}
		}
		var want []string
		for _, k := range kids[a] {
			if act[k] && !i.Banished {
				want = append(want, k)
			}
		}
		got := append([]string{}, i.ActiveReferrals...)
		sort.Strings(want)
		sort.Strings(got)
		if fmt.Sprint(want) != fmt.Sprint(got) {
			return fmt.Errorf("active referrals of %s are %v, should be %v", nameOf(a), names(got), names(want))
		}
	}
	return nil
}

func names(l []string) []string {
	r := make([]string, len(l))
	for i, a := range l {
		r[i] = nameOf(a)
	}
	return r
}

// ---- C06

var statusLadder = []referral.Status{
	referral.STATUS_LUCKY, referral.STATUS_LEADER, referral.STATUS_MASTER, referral.STATUS_CHAMPION,
	referral.STATUS_BUSINESSMAN, referral.STATUS_PROFESSIONAL, referral.STATUS_TOP_LEADER, referral.STATUS_ABSOLUTE_CHAMPION,
}

// what each rung of the ladder (after LUCKY) takes: coins delegated in the network down to `lines`, teams of at least
// `team` active people under three active referrals, `n` active referrals having at least `n` active referrals each.
var statusRules = []struct {
	lines int
	coins int64
	team  uint64
	n     int
}{
	{}, {4, 20_000, 0, 2}, {6, 50_000, 0, 3}, {8, 150_000, 10, 3}, {10, 300_000, 50, 3}, {10, 700_000, 100, 3}, {10, 1_500_000, 300, 3}, {10, 3_000_000, 600, 3},
}

func rung(s referral.Status) int {
	for i, x := range statusLadder {
		if x == s {
			return i
		}
	}
	return -1
}

type treeFacts struct {
	deleg  map[string]*[11]int64
	active map[string]*[11]uint64
	kids   map[string][]string
	act    map[string]bool
}

func (e *E) facts(t *tree) *treeFacts {
	f := &treeFacts{map[string]*[11]int64{}, map[string]*[11]uint64{}, t.kids(), map[string]bool{}}
	ps := e.profiles()
	for _, a := range t.ks {
		p := ps[a]
		f.act[a] = p != nil && p.ActiveUntil != nil && p.ActiveUntil.After(e.t)
	}
	for _, a := range t.ks {
		d, c := &[11]int64{}, &[11]uint64{}
		t.levels(f.kids, a, func(l int, x string) {
			d[l] += t.led.get(x, D)
			if f.act[x] {
				c[l]++
			}
		})
		f.deleg[a], f.active[a] = d, c
	}
	return f
}

// meets: does the account meet the requirements of rung r (from scratch)?
func (f *treeFacts) meets(a string, r int) bool {
	if r <= 0 {
		return true
	}
	ru := statusRules[r]
	var d int64
	for l := 0; l <= ru.lines; l++ {
		d += f.deleg[a][l]
	}
	if d/1_000_000 < ru.coins {
		return false
	}
	n, teams := 0, 0
	for _, k := range f.kids[a] {
		if !f.act[k] {
			continue
		}
		if f.active[k][1] >= uint64(ru.n) {
			n++
		}
		var s uint64
		for _, x := range f.active[k] {
			s += x
		}
		if s >= ru.team {
			teams++
		}
	}
	return n >= ru.n && (ru.team == 0 || teams >= 3)
}

func invStatus(e *E) error {
	t, err := e.tree()
	if err != nil {
		return err
	}
	f := e.facts(t)
	ts := e.tasks()
	for _, a := range t.ks {
		i := t.n[a]
		e.ctr.compared++
		if i.Banished {
			if i.Status != 0 || i.StatusDowngradeAt != nil {
				return fmt.Errorf("banished %s has status %v and downgrade at %v", nameOf(a), i.Status, i.StatusDowngradeAt)
			}
			continue
		}
		r := rung(i.Status)
		if r < 0 {
			return fmt.Errorf("%s has no valid status: %v", nameOf(a), i.Status)
		}
		if f.meets(a, r) {
			if i.StatusDowngradeAt != nil {
				return fmt.Errorf("%s meets the requirements of %v, yet a downgrade is pending at %v", nameOf(a), i.Status, i.StatusDowngradeAt)
			}
			if r+1 < len(statusLadder) && f.meets(a, r+1) {
				return fmt.Errorf("%s is only %v though it meets the requirements of %v", nameOf(a), i.Status, statusLadder[r+1])
			}
		} else {
			at := i.StatusDowngradeAt
			if at == nil {
				return fmt.Errorf("%s is %v without meeting the requirements, and no downgrade is pending", nameOf(a), i.Status)
			}
			if !at.After(e.t) || at.After(e.t.Add(2*Day)) {
				return fmt.Errorf("%s is %v without meeting the requirements; downgrade at %v, now %v", nameOf(a), i.Status, at, e.t)
			}
			if !hasTask(ts, "referral/downgrade", []byte(a), *at) {
				return fmt.Errorf("the downgrade of %s at %v is not scheduled", nameOf(a), at)
			}
		}
	}
	// the index of high statuses holds exactly those who have them
	want := map[string]bool{}
	for _, a := range t.ks {
		if s := t.n[a].Status; s >= referral.STATUS_BUSINESSMAN {
			want[string(append([]byte{uint8(s)}, a...))] = true
		}
	}
	n := 0
	err = e.each(referral.IndexStoreKey, func(k, v []byte) error {
		n++
		if !want[string(k)] {
			return fmt.Errorf("status index names %s as %d, but the account is not", nameOf(string(k[1:])), k[0])
		}
		return nil
	})
	if err != nil {
		return err
	}
	if n != len(want) {
		return fmt.Errorf("status index has %d entries, should have %d", n, len(want))
	}
	return nil
}

// postStatus: how statuses may change in one step.
func postStatus(pre, post *E, s *Step) error {
	t0, t1 := pre.mustTree(), post.mustTree()
	var f0, f1 *treeFacts
	for _, a := range t1.ks {
		o, n := t0.n[a], t1.n[a]
		if o == nil || o.Status == n.Status || n.Banished || o.Banished {
			continue
		}
		if f0 == nil {
			f0, f1 = pre.facts(t0), post.facts(t1)
		}
		ro, rn := rung(o.Status), rung(n.Status)
		if rn > ro {
			for r := ro + 1; r <= rn; r++ {
				if !f1.meets(a, r) && s.Msg != nil {
					return fmt.Errorf("%s was promoted from %v to %v without meeting the requirements of %v", nameOf(a), o.Status, n.Status, statusLadder[r])
				}
			}
			continue
		}
		if s.Msg != nil {
			return fmt.Errorf("%s lost its status (%v to %v) by a transaction", nameOf(a), o.Status, n.Status)
		}
		compressed := o.CompressionAt != nil && !o.CompressionAt.After(post.t) && n.CompressionAt == nil && !n.Active
		if compressed {
			if n.Status != referral.STATUS_LUCKY {
				return fmt.Errorf("%s was compressed and went from %v to %v", nameOf(a), o.Status, n.Status)
			}
			continue
		}
		if o.StatusDowngradeAt == nil || o.StatusDowngradeAt.After(post.t) {
			return fmt.Errorf("%s lost its status (%v to %v) though no downgrade was due (pending: %v)", nameOf(a), o.Status, n.Status, o.StatusDowngradeAt)
		}
		if rn != ro-1 {
			return fmt.Errorf("%s dropped from %v to %v at once", nameOf(a), o.Status, n.Status)
		}
		if f0.meets(a, ro) {
			return fmt.Errorf("%s dropped from %v to %v though it met the requirements", nameOf(a), o.Status, n.Status)
		}
	}
	post.ctr.compared++
	return nil
}
