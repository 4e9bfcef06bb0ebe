//go:build go1.22

package main

// The reference simulator: what a message or a block is expected to do to balances, delegations, subscriptions and
// quotas, computed from the state before it by the documented rules and not through the keepers. The checks compare
// parts of its outcome with the state the real code reaches.

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/util"
	bank "github.com/arterynetwork/artr/x/bank/types"
	delegating "github.com/arterynetwork/artr/x/delegating/types"
	earning "github.com/arterynetwork/artr/x/earning/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	schedule "github.com/arterynetwork/artr/x/schedule/types"
)

const GB = 1 << 30

type ref struct {
	e    *E // the state before the step
	t    time.Time
	h    int64
	day  time.Duration
	led  Ledger
	tr   *tree
	prof map[string]*profile.Profile
	del  map[string]*delegating.Record
	earn map[string]*earning.Timestamps
	val  map[string]*noding.Info
	task []schedule.Task

	minted, burned int64

	bp  bank.Params
	dp  delegating.Params
	pp  profile.Params
	rp  referral.Params
	np  noding.Params
	err string
	// banished[a]: the banishment due in this block takes place
	banished map[string]bool
	// touched accounts whose outcome the simulator does not follow
	unsure string
}

func newRef(e *E) *ref {
	r := &ref{e: e, t: e.t, h: e.h, day: e.day(), led: e.mustLedger(), tr: e.mustTree(), prof: e.profiles(),
		del: e.delegations(), earn: e.earners(), val: e.nodes(), task: e.tasks()}
	c := e.Ctx()
	r.bp = e.app.GetBankKeeper().GetParams(c)
	r.dp = e.app.GetDelegatingKeeper().GetParams(c)
	r.pp = e.app.GetProfileKeeper().GetParams(c)
	r.rp = e.app.GetReferralKeeper().GetParams(c)
	r.np = e.app.GetNodingKeeper().GetParams(c)
	return r
}

func (e *E) delegations() map[string]*delegating.Record {
	r := map[string]*delegating.Record{}
	if err := e.each(delegating.MainStoreKey, func(k, v []byte) error {
		x := &delegating.Record{}
		if err := e.ec.Marshaler.UnmarshalBinaryBare(v, x); err != nil {
			return err
		}
		r[sdk.AccAddress(k).String()] = x
		return nil
	}); err != nil {
		panic(err)
	}
	return r
}

func (e *E) earners() map[string]*earning.Timestamps {
	r := map[string]*earning.Timestamps{}
	if err := e.each(earning.StoreKey, func(k, v []byte) error {
		x := &earning.Timestamps{}
		if err := e.ec.Marshaler.UnmarshalBinaryBare(v, x); err != nil {
			return err
		}
		r[sdk.AccAddress(k).String()] = x
		return nil
	}); err != nil {
		panic(err)
	}
	return r
}

func (e *E) nodes() map[string]*noding.Info {
	r := map[string]*noding.Info{}
	if err := e.each(noding.StoreKey, func(k, v []byte) error {
		x := &noding.Info{}
		if err := e.ec.Marshaler.UnmarshalBinaryBare(v, x); err != nil {
			return err
		}
		r[sdk.AccAddress(k).String()] = x
		return nil
	}); err != nil {
		panic(err)
	}
	return r
}

func payload(a string) []byte {
	ad, err := sdk.AccAddressFromBech32(a)
	if err != nil {
		panic(err)
	}
	return ad
}

func (r *ref) splittable() string { return modAddr(r.e, util.SplittableFeeCollectorName) }
func (r *ref) collector() string  { return modAddr(r.e, "fee_collector") }
func (r *ref) month() time.Duration {
	return 30 * r.day
}

func (r *ref) addTask(hook, a string, at time.Time) {
	r.task = append(r.task, schedule.Task{HandlerName: hook, Data: payload(a), Time: at})
}

// delTask removes one task of the hook and account at that time.
func (r *ref) delTask(hook, a string, at time.Time) bool {
	d := payload(a)
	for i, t := range r.task {
		if t.HandlerName == hook && bytes.Equal(t.Data, d) && t.Time.Equal(at) {
			r.task = append(append([]schedule.Task{}, r.task[:i]...), r.task[i+1:]...)
			return true
		}
	}
	return false
}

func (r *ref) active(a string) bool {
	p := r.prof[a]
	return p != nil && p.ActiveUntil != nil && p.ActiveUntil.After(r.t)
}

func nodeActive(v *noding.Info, h int64, np noding.Params) bool {
	return v != nil && v.Status && !v.Jailed && !v.BannedForLife && h-v.UnjailAt >= 6*int64(np.UnjailAfter)
}

func (r *ref) validator(a string) bool { return nodeActive(r.val[a], r.h, r.np) }

func (r *ref) earner(a string) (vpn, storage bool) {
	x := r.earn[a]
	if x == nil {
		return
	}
	return x.Vpn != nil && x.Vpn.Add(2*r.day).After(r.t), x.Storage != nil && x.Storage.Add(2*r.day).After(r.t)
}

// percent: the daily share of the delegation a is owed.
func (r *ref) percent(a string) *big.Rat {
	sum := new(big.Rat)
	d := r.led.get(a, D)
	if d <= r.bp.DustDelegation {
		return sum
	}
	vpn, sto := r.earner(a)
	var row *delegating.PercentageListRange
	for i := range r.dp.AccruePercentageTable {
		x := &r.dp.AccruePercentageTable[i]
		if uint64(d) >= x.Start && (row == nil || x.Start >= row.Start) {
			row = x
		}
	}
	if row == nil {
		return sum
	}
	for i, on := range []bool{true, r.validator(a), r.active(a), vpn, sto} {
		if on {
			sum.Add(sum, rat(row.PercentList[i]))
		}
	}
	return sum.Quo(sum, big.NewRat(30, 1))
}

func (r *ref) fee(n int64) int64 { return txFee(r.bp, n) }

var validatorLadder = []struct {
	permille int64
	status   referral.Status
	levels   int
}{
	{1, referral.STATUS_MASTER, 4}, {2, referral.STATUS_CHAMPION, 6}, {3, referral.STATUS_BUSINESSMAN, 10},
	{4, referral.STATUS_PROFESSIONAL, 12}, {5, referral.STATUS_TOP_LEADER, 14}, {6, referral.STATUS_ABSOLUTE_CHAMPION, 20},
}

// interest pays `n` to a and the validators above it their shares of `base`.
func (r *ref) interest(a string, n, base int64) {
	if r.prof[a] == nil {
		return
	}
	if n > 0 {
		f := r.fee(n)
		r.minted += n
		r.led.add(a, U, n-f)
		r.led.add(r.splittable(), U, f)
	}
	if base <= 0 {
		return
	}
	got := int64(0)
	x := r.tr.n[a]
	for dist := 0; dist < 20 && x != nil && x.Referrer != ""; dist++ {
		p := x.Referrer
		x = r.tr.n[p]
		if x == nil || !r.validator(p) {
			continue
		}
		best := int64(0)
		for _, l := range validatorLadder {
			if x.Status >= l.status && dist < l.levels {
				best = l.permille
			}
		}
		if best > got {
			m := floorMul(big.NewRat(best-got, 30_000), base)
			r.led.add(p, U, m)
			r.minted += m
			got = best
		}
	}
}

// settle pays the interest of the running period up to now.
func (r *ref) settle(a string) {
	rec := r.del[a]
	if rec == nil || rec.NextAccrue == nil {
		return
	}
	start := rec.NextAccrue.Add(-r.day)
	part := new(big.Rat).SetFrac64(int64(r.t.Sub(start)), int64(r.day))
	d := r.led.get(a, D)
	if part.Sign() > 0 {
		if n := floorMul(new(big.Rat).Mul(r.percent(a), part), d); n > 0 {
			r.interest(a, n, floorMul(part, d))
		}
	}
	r.delTask(delegating.AccrueHookName, a, *rec.NextAccrue)
	rec.NextAccrue = nil
}

func (r *ref) startAccruing(a string) {
	rec := r.del[a]
	rec.NextAccrue = nil
	if r.led.get(a, D) > r.bp.DustDelegation {
		t := r.t.Add(r.day)
		rec.NextAccrue = &t
		r.addTask(delegating.AccrueHookName, a, t)
	}
}

func (r *ref) record(a string) *delegating.Record {
	if r.del[a] == nil {
		r.del[a] = &delegating.Record{}
	}
	return r.del[a]
}

func (r *ref) delegate(a string, n int64) bool {
	if n < r.dp.MinDelegate {
		return false
	}
	f := r.fee(n)
	if r.led.get(a, U) < f {
		return false
	}
	r.led.move(a, r.splittable(), U, f)
	r.record(a)
	r.settle(a)
	if r.led.get(a, U) < n-f {
		return false
	}
	r.led.add(a, U, -(n - f))
	r.led.add(a, D, n-f)
	r.startAccruing(a)
	return true
}

func (r *ref) revoke(a string, n int64, express bool) bool {
	if n <= 0 || n > r.led.get(a, D) {
		return false
	}
	p := r.dp.Revoke
	if express {
		p = r.dp.ExpressRevoke
	}
	rec := r.record(a)
	r.settle(a)
	lost := floorMul(rat(p.Burn), n)
	r.led.add(a, D, -n)
	r.led.add(a, R, n-lost)
	r.burned += lost
	r.startAccruing(a)
	at := r.t.Add(time.Duration(p.Period) * r.day)
	rec.Requests = append(rec.Requests, delegating.RevokeRequest{Time: at, Amount: sdk.NewInt(n - lost)})
	r.addTask(delegating.RevokeHookName, a, at)
	return true
}

// release gives back everything that is due.
func (r *ref) release(a string) {
	rec := r.del[a]
	if rec == nil {
		return
	}
	var rest []delegating.RevokeRequest
	for _, q := range rec.Requests {
		if q.Time.After(r.t) {
			rest = append(rest, q)
			continue
		}
		n := q.Amount.Int64()
		r.led.add(a, R, -n)
		r.led.add(a, U, n)
	}
	rec.Requests = rest
	if len(rest) == 0 && rec.NextAccrue == nil {
		delete(r.del, a)
	}
}

func (r *ref) accrueTask(a string, at time.Time) {
	rec := r.del[a]
	if rec == nil || rec.NextAccrue == nil || !rec.NextAccrue.Equal(at) {
		return
	}
	p := r.percent(a)
	if p.Sign() == 0 {
		rec.NextAccrue = nil
		return
	}
	d := r.led.get(a, D)
	r.interest(a, floorMul(p, d), d)
	next := at.Add(r.day)
	rec.NextAccrue = &next
	r.addTask(delegating.AccrueHookName, a, next)
}

// ---- subscriptions and quotas

func (r *ref) company() string { return r.rp.CompanyAccounts.ForSubscription }

func rint(n int64) *big.Rat { return new(big.Rat).SetInt64(n) }
func rmul(xs ...*big.Rat) *big.Rat {
	p := rint(1)
	for _, x := range xs {
		p.Mul(p, x)
	}
	return p
}
func rfloor(x *big.Rat) int64 {
	q := new(big.Int).Quo(x.Num(), x.Denom())
	if !q.IsInt64() {
		return 1 << 62
	}
	return q.Int64()
}

func (r *ref) monthPart(end time.Time) *big.Rat {
	return new(big.Rat).SetFrac64(int64(end.Sub(r.t)), int64(r.month()))
}

func (r *ref) resetLimits(p *profile.Profile) {
	base := uint64(r.pp.BaseVpnGb) * GB
	if p.VpnCurrent > base {
		p.VpnLimit -= p.VpnCurrent - base
	}
	p.VpnCurrent = 0
	if p.VpnLimit < base {
		p.VpnLimit = base
	}
	if p.StorageLimit == 0 {
		p.StorageLimit = uint64(r.pp.BaseStorageGb) * GB
	}
}

func (r *ref) payTariff(a string, gb uint32, auto bool) bool {
	p := r.prof[a]
	if p == nil {
		return false
	}
	base := int64(r.pp.BaseStorageGb) * GB
	var want int64
	if gb == 0 {
		want = int64(p.StorageLimit)
		if want == 0 {
			want = base
		}
	} else {
		want = int64(gb) * GB
		if gb < r.pp.BaseStorageGb || uint64(want) < p.StorageCurrent {
			return false
		}
	}
	rate := rat(r.pp.TokenRate)
	tariff := rfloor(rmul(rate, rint(int64(r.pp.SubscriptionPrice))))
	fee := r.fee(tariff)
	gbs := func(n int64) *big.Rat { return big.NewRat(n, GB) }
	extra := rmul(rate, gbs(want-base), rint(int64(r.pp.StorageGbPrice)))
	active := r.active(a)
	if active && uint64(want) != p.StorageLimit {
		extra.Add(extra, rmul(rate, gbs(want-int64(p.StorageLimit)), rint(int64(r.pp.StorageGbPrice)), r.monthPart(*p.ActiveUntil)))
		if extra.Sign() < 0 {
			extra = rint(0)
		}
	}
	x := rfloor(extra)
	total := tariff + x
	if x >= 1<<60 || r.led.get(a, U) < total {
		return false
	}
	r.led.add(a, U, -total)
	r.led.add(r.company(), U, total-fee)
	r.led.add(r.splittable(), U, fee)
	p.StorageLimit = uint64(want)
	if !active && !auto {
		t := r.t.Add(r.month())
		p.ActiveUntil = &t
		r.resetLimits(p)
	} else {
		t := p.ActiveUntil.Add(r.month())
		p.ActiveUntil = &t
		if auto {
			r.resetLimits(p)
		}
	}
	r.addTask(profile.RefreshHookName, a, *p.ActiveUntil)
	return true
}

// charge: the price of an extra; the transfer fee is taken from it.
func (r *ref) charge(a string, n int64) bool {
	if n < 0 || r.led.get(a, U) < n {
		return false
	}
	f := r.fee(n)
	r.led.add(a, U, -n)
	r.led.add(r.splittable(), U, f)
	r.led.add(r.company(), U, n-f)
	return true
}

func (r *ref) imActive(p *profile.Profile) bool {
	return p.ImLimitExtra != 0 && p.ExtraImUntil != nil && p.ExtraImUntil.After(r.t)
}

func (r *ref) prolongIm(a string) bool {
	p := r.prof[a]
	if p == nil || p.ImLimitExtra == 0 || p.ExtraImUntil == nil {
		return false
	}
	n := rfloor(rmul(rat(r.pp.TokenRate), rint(int64(p.ImLimitExtra)), rint(int64(r.pp.StorageGbPrice))))
	if n <= 0 || !r.charge(a, n) {
		return false
	}
	r.delTask(profile.RefreshImHookName, a, *p.ExtraImUntil)
	t := p.ExtraImUntil.Add(r.month())
	p.ExtraImUntil = &t
	r.addTask(profile.RefreshImHookName, a, t)
	return true
}

// message: applies an accepted or refused message; `known` tells whether the simulator can tell if it is accepted.
func (r *ref) message(m sdk.Msg, accepted bool) (ok, known bool) {
	known = true
	switch m := m.(type) {
	case *bank.MsgSend:
		var f int64
		ok, f = sendOK(r.e, r.bp, r.led, m.FromAddress, m.ToAddress, m.Amount)
		if ok {
			r.led.move(m.FromAddress, r.splittable(), U, f)
			r.led.move(m.FromAddress, m.ToAddress, U, m.Amount[0].Amount.Int64())
		}
	case *bank.MsgBurn:
		n := int64(m.Amount)
		if n <= 0 || r.led.get(m.Account, U) < n {
			return false, true
		}
		r.led.add(m.Account, U, -n)
		r.burned += n
		ok = true
	case *delegating.MsgDelegate:
		return r.delegate(m.Address, m.MicroCoins.Int64()), true
	case *delegating.MsgRevoke:
		return r.revoke(m.Address, m.MicroCoins.Int64(), false), true
	case *delegating.MsgExpressRevoke:
		return r.revoke(m.Address, m.MicroCoins.Int64(), true), true
	case *profile.MsgPayTariff:
		return r.payTariff(m.Address, m.StorageAmount, false), !r.banishedNow(m.Address)
	case *profile.MsgBuyStorage:
		p := r.prof[m.Address]
		if p == nil || !r.active(m.Address) {
			return false, true
		}
		n := rfloor(rmul(rat(r.pp.TokenRate), rint(int64(m.ExtraStorage)), rint(int64(r.pp.StorageGbPrice)), r.monthPart(*p.ActiveUntil)))
		if n <= 0 || !r.charge(m.Address, n) {
			return false, true
		}
		if b := uint64(r.pp.BaseStorageGb) * GB; p.StorageLimit < b {
			p.StorageLimit = b
		}
		p.StorageLimit += uint64(m.ExtraStorage) * GB
		ok = true
	case *profile.MsgBuyVpn:
		p := r.prof[m.Address]
		if p == nil || !r.active(m.Address) {
			return false, true
		}
		n := rfloor(rmul(rat(r.pp.TokenRate), rint(int64(m.ExtraTraffic)), rint(int64(r.pp.VpnGbPrice))))
		if !r.charge(m.Address, n) {
			return false, true
		}
		p.VpnLimit += uint64(m.ExtraTraffic) * GB
		// whether an empty purchase is refused is not part of any rule
		ok, known = true, n > 0
	case *profile.MsgGiveStorageUp:
		p := r.prof[m.Address]
		if p == nil {
			return false, true
		}
		n := uint64(m.Amount) * GB
		if b := uint64(r.pp.BaseStorageGb) * GB; n < b {
			n = b
		}
		if n < p.StorageCurrent || n >= p.StorageLimit {
			return false, true
		}
		p.StorageLimit = n
		ok = true
	case *profile.MsgBuyImExtraStorage:
		p := r.prof[m.Address]
		if p == nil {
			return false, true
		}
		part, on := rint(1), r.imActive(p)
		if on {
			part = r.monthPart(*p.ExtraImUntil)
		}
		n := rfloor(rmul(rat(r.pp.TokenRate), rint(int64(m.ExtraStorage)), rint(int64(r.pp.StorageGbPrice)), part))
		if n <= 0 || !r.charge(m.Address, n) {
			return false, true
		}
		if on {
			p.ImLimitExtra += uint64(m.ExtraStorage)
		} else {
			p.ImLimitExtra = uint64(m.ExtraStorage)
			if p.ExtraImUntil != nil { // what has run out is not renewed any more
				r.delTask(profile.RefreshImHookName, m.Address, *p.ExtraImUntil)
			}
			t := r.t.Add(r.month())
			p.ExtraImUntil = &t
			r.addTask(profile.RefreshImHookName, m.Address, t)
		}
		ok = true
	case *profile.MsgGiveUpImExtra:
		p := r.prof[m.Address]
		if p == nil {
			return false, true
		}
		cur := p.ImLimitExtra
		if !r.imActive(p) {
			cur = 0
		}
		if uint64(m.Amount) >= cur {
			return false, true
		}
		p.ImLimitExtra = uint64(m.Amount)
		if m.Amount == 0 {
			r.delTask(profile.RefreshImHookName, m.Address, *p.ExtraImUntil)
			p.ExtraImUntil = nil
		}
		ok = true
	case *profile.MsgProlongImExtra:
		return r.prolongIm(m.Address), true
	case *profile.MsgSetStorageCurrent:
		p := r.prof[m.Address]
		if p == nil || !in(r.pp.StorageSigners, m.Sender) {
			return false, true
		}
		p.StorageCurrent = m.Value
		ok = true
	case *profile.MsgSetVpnCurrent:
		p := r.prof[m.Address]
		if p == nil || !in(r.pp.VpnSigners, m.Sender) {
			return false, true
		}
		p.VpnCurrent = m.Value
		ok = true
	case *profile.MsgUpdateProfile:
		return r.update(m, accepted)
	case *profile.MsgCreateAccount:
		// whether the referrer will do is for C05 and C07 to judge
		if !accepted {
			return false, false
		}
		if r.pp.RenamePrice > 0 && !in(r.pp.Creators, m.Creator) {
			r.led.move(m.Creator, r.collector(), U, r.pp.RenamePrice)
		}
		p := &profile.Profile{}
		if q := m.Profile; q != nil {
			p.AutoPay, p.Noding, p.Storage, p.Validator, p.Vpn, p.AutoPayImExtra, p.Nickname = q.AutoPay, q.Noding, q.Storage, q.Validator, q.Vpn, q.AutoPayImExtra, trim(q.Nickname)
		}
		r.prof[m.Address] = p
		ok = true
	case *referral.MsgRequestTransition:
		if accepted {
			r.led.move(m.Subject, r.collector(), U, int64(r.rp.TransitionPrice))
		}
		return accepted, false
	case *profile.MsgSetRate:
		if !in(r.pp.TokenRateSigners, m.Sender) {
			return false, true
		}
		return true, m.Value.IsPositive()
	default:
		return accepted, false
	}
	return
}

func trim(s string) string {
	for len(s) > 0 && s[0] == ' ' {
		s = s[1:]
	}
	for len(s) > 0 && s[len(s)-1] == ' ' {
		s = s[:len(s)-1]
	}
	return s
}

func (r *ref) banishedNow(a string) bool { i := r.tr.n[a]; return i == nil || i.Banished }

func in(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func (r *ref) update(m *profile.MsgUpdateProfile, accepted bool) (ok, known bool) {
	p := r.prof[m.Address]
	if p == nil {
		return false, true
	}
	nick := p.Nickname
	for _, u := range m.Updates {
		switch u.Field {
		case profile.MsgUpdateProfile_Update_FIELD_AUTO_PAY:
			p.AutoPay = u.GetBool()
		case profile.MsgUpdateProfile_Update_FIELD_NODING:
			p.Noding = u.GetBool()
		case profile.MsgUpdateProfile_Update_FIELD_STORAGE:
			p.Storage = u.GetBool()
		case profile.MsgUpdateProfile_Update_FIELD_VALIDATOR:
			p.Validator = u.GetBool()
		case profile.MsgUpdateProfile_Update_FIELD_VPN:
			p.Vpn = u.GetBool()
		case profile.MsgUpdateProfile_Update_FIELD_IM_AUTO_PAY:
			p.AutoPayImExtra = u.GetBool()
		case profile.MsgUpdateProfile_Update_FIELD_NICKNAME:
			p.Nickname = u.GetString_()
		}
	}
	if p.Nickname != nick && p.Nickname != "" {
		r.led.move(m.Address, r.collector(), U, artr)
	}
	return accepted, false
}

// block: the beginning of the next block; left: the tasks in the schedule after it.
func (r *ref) block(in BlockIn, left map[string]bool) {
	r.h++
	r.t = r.t.Add(in.Dt)
	if acc := r.operator(in.Proposer); acc != "" {
		r.burned += distributeFees(r.e, r.led, r.bp, acc)
	}
	var due []schedule.Task
	for _, t := range r.task {
		if !t.Time.After(r.t) {
			due = append(due, t)
		}
	}
	sort.SliceStable(due, func(i, j int) bool { return due[i].Time.Before(due[j].Time) })
	for len(due) > 0 {
		t := due[0]
		due = due[1:]
		known := map[string]int{}
		for _, x := range r.task {
			known[taskKey(x)]++
		}
		r.perform(t)
		// Whether a task scheduled meanwhile for a time already reached runs in this block or in the next one is up to
		// the schedule.
		for _, x := range r.task {
			k := taskKey(x)
			if known[k]--; known[k] < 0 && !x.Time.After(r.t) && !left[k] {
				i := sort.Search(len(due), func(i int) bool { return due[i].Time.After(x.Time) })
				due = append(due[:i:i], append([]schedule.Task{x}, due[i:]...)...)
			}
		}
	}
}

func taskKey(t schedule.Task) string {
	return fmt.Sprint(t.HandlerName, "|", t.Time.UnixNano(), "|", string(t.Data))
}

func (r *ref) perform(t schedule.Task) {
	switch t.HandlerName {
	case delegating.AccrueHookName, delegating.RevokeHookName, profile.RefreshHookName, profile.RefreshImHookName:
	default:
		if t.HandlerName == "referral/banish" && r.banished[string(t.Data)] {
			a := string(t.Data)
			delete(r.banished, a)
			if d := r.led.get(a, D); d > 0 {
				r.revoke(a, d, false)
			}
		}
		return
	}
	a := sdk.AccAddress(t.Data).String()
	if !r.delTask(t.HandlerName, a, t.Time) {
		return // cancelled by an earlier one
	}
	switch t.HandlerName {
	case delegating.AccrueHookName:
		r.accrueTask(a, t.Time)
	case delegating.RevokeHookName:
		r.release(a)
	case profile.RefreshHookName:
		r.renew(a)
	case profile.RefreshImHookName:
		r.renewIm(a)
	}
}

// operator: the account of the validator with this consensus address.
func (r *ref) operator(cons []byte) string {
	if len(cons) == 0 {
		return ""
	}
	bz := r.e.raw(noding.IdxStoreKey, append([]byte{0x01}, cons...))
	if bz == nil {
		return ""
	}
	return sdk.AccAddress(bz).String()
}

func (r *ref) renew(a string) {
	p := r.prof[a]
	if p == nil {
		return
	}
	if r.active(a) {
		r.resetLimits(p)
	} else if p.AutoPay && p.ActiveUntil != nil {
		r.payTariff(a, 0, true)
	}
}

func (r *ref) renewIm(a string) {
	p := r.prof[a]
	if p == nil {
		return
	}
	if p.AutoPayImExtra && r.prolongIm(a) {
		return
	}
	p.ImLimitExtra, p.ExtraImUntil, p.AutoPayImExtra = 0, nil, false
}

// expect computes the outcome of a step that went from pre to post. ok: whether the simulator agrees that the message
// is accepted (or refused), when it can tell.
func expect(pre, post *E, s *Step) (r *ref, ok, known bool) {
	r = newRef(pre)
	if s.Msg != nil {
		acc := s.Err == nil
		ok, known = r.message(s.Msg, acc)
		return r, ok == acc, known
	}
	r.banished = map[string]bool{}
	t1 := post.mustTree()
	moved := false
	for a, o := range r.tr.n {
		n := t1.n[a]
		if n != nil && n.Banished && !o.Banished {
			r.banished[a] = true
		}
		if n != nil && (n.Referrer != o.Referrer || n.Status != o.Status) {
			moved = true
		}
	}
	v1 := post.nodes()
	vals := false
	for a, v := range r.val {
		if n := v1[a]; n == nil || n.Status != v.Status || n.Jailed != v.Jailed || n.BannedForLife != v.BannedForLife || n.UnjailAt != v.UnjailAt {
			r.unsure = "validators changed in the block"
		}
		vals = vals || v.Status
	}
	if moved && vals && r.unsure == "" {
		r.unsure = "the tree above an account changed in the block"
	}
	left := map[string]bool{}
	for _, t := range post.tasks() {
		left[taskKey(t)] = true
	}
	r.block(s.Blk, left)
	return r, true, true
}

func (r *ref) total() int64 { t := r.led.total(); return t[U] + t[D] + t[R] }

// taskList: the tasks of the hook, in a comparable form.
func taskList(ts []schedule.Task, hook string) string {
	var l []string
	for _, t := range ts {
		if t.HandlerName == hook {
			a := string(t.Data)
			if len(t.Data) == 20 {
				a = sdk.AccAddress(t.Data).String()
			}
			l = append(l, fmt.Sprintf("%s %s", t.Time.UTC().Format(time.RFC3339Nano), nameOf(a)))
		}
	}
	sort.Strings(l)
	return fmt.Sprint(l)
}
