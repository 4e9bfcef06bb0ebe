//go:build go1.22

package main

// Validators: what Tendermint has been told (C15), jail and bans (C16), places, powers and the lottery (C17).

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
	"sync"
	"time"

	abci "github.com/tendermint/tendermint/abci/types"
	tmtypes "github.com/tendermint/tendermint/types"

	cryptocodec "github.com/cosmos/cosmos-sdk/crypto/codec"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/util"
	noding "github.com/arterynetwork/artr/x/noding/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
)

// valModel: the validator set Tendermint has accumulated: hex of the public key bytes -> power.
type valModel struct{ set map[string]int64 }

func (m *valModel) Clone() Model {
	c := &valModel{map[string]int64{}}
	for k, v := range m.set {
		c.set[k] = v
	}
	return c
}
func (m *valModel) Key() string { return "" } // checked to be a function of the state

func (m *valModel) String() string {
	var l []string
	for k, p := range m.set {
		l = append(l, fmt.Sprintf("%s:%d", keyName(k), p))
	}
	sort.Strings(l)
	return "[" + strings.Join(l, " ") + "]"
}

var nKeys = 12

func keyName(h string) string {
	for i := 0; i < nKeys; i++ {
		pk, _, _ := consKey(i)
		if hex.EncodeToString(pk.Bytes()) == h {
			return fmt.Sprintf("key%d", i)
		}
	}
	return h
}

type keyInfo struct{ hex, cons string }

var keyCache sync.Map

func keyOf(b string) keyInfo {
	if x, ok := keyCache.Load(b); ok {
		return x.(keyInfo)
	}
	k := keyInfo{"bad key " + b, ""}
	if pk, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeConsPub, b); err == nil {
		k = keyInfo{hex.EncodeToString(pk.Bytes()), string(pk.Address())}
	}
	keyCache.Store(b, k)
	return k
}

// key of a bech32 encoded consensus key
func keyHex(b string) string { return keyOf(b).hex }
func consOf(b string) string { return keyOf(b).cons }

// apply does what Tendermint does with the updates: the real code of Tendermint, over the accumulated set.
func (m *valModel) apply(upd []abci.ValidatorUpdate) error {
	ch, err := tmtypes.PB2TM.ValidatorUpdates(upd)
	if err != nil {
		return fmt.Errorf("Tendermint refuses the updates: %w", err)
	}
	if len(ch) == 0 {
		return nil
	}
	next := map[string]int64{}
	for k, p := range m.set {
		next[k] = p
	}
	for _, v := range ch {
		if v.VotingPower < 0 {
			return fmt.Errorf("negative power for %s", keyName(hex.EncodeToString(v.PubKey.Bytes())))
		}
		if v.VotingPower == 0 {
			delete(next, hex.EncodeToString(v.PubKey.Bytes()))
		} else {
			next[hex.EncodeToString(v.PubKey.Bytes())] = v.VotingPower
		}
	}
	vs := tmtypes.NewValidatorSet(nil)
	if len(m.set) > 0 {
		var cur []*tmtypes.Validator
		for i := 0; i < nKeys; i++ {
			pk, _, _ := consKey(i)
			if p, ok := m.set[hex.EncodeToString(pk.Bytes())]; ok {
				tp, err := cryptocodec.ToTmPubKeyInterface(pk)
				if err != nil {
					return err
				}
				cur = append(cur, tmtypes.NewValidator(tp, p))
			}
		}
		vs = tmtypes.NewValidatorSet(cur)
	}
	if err := vs.UpdateWithChangeSet(ch); err != nil && len(next) > 0 {
		var l []string
		for _, v := range ch {
			l = append(l, fmt.Sprintf("%s:%d", keyName(hex.EncodeToString(v.PubKey.Bytes())), v.VotingPower))
		}
		return fmt.Errorf("Tendermint halts on the updates [%s] to %s: %w", strings.Join(l, " "), m, err)
	}
	m.set = next
	return nil
}

// lotteryQueue: the accounts waiting, first to last.
func (e *E) lotteryQueue() []string {
	var r []string
	if err := e.each(noding.IdxStoreKey, func(k, v []byte) error {
		if k[0] == 0x03 {
			if len(k) != 9 {
				return fmt.Errorf("bad queue key %x", k)
			}
			if binary.BigEndian.Uint64(k[1:]) == 0 {
				return fmt.Errorf("number 0 in the queue")
			}
			r = append(r, sdk.AccAddress(v).String())
		}
		return nil
	}); err != nil {
		panic(err)
	}
	return r
}

func (e *E) netStake(t *tree, a string) (int64, bool) {
	i := t.n[a]
	if i == nil {
		return 0, false
	}
	var s int64
	for l := 0; l <= i.Status.LinesOpened() && l <= 10 && l < len(i.Delegated); l++ {
		s += i.Delegated[l].Int64()
	}
	return s, true
}

func nodeUp(n *noding.Info) bool { return n.Status && !n.Jailed && !n.BannedForLife }

func score(n *noding.Info, stake int64) int64 {
	if stake < 1 {
		stake = 1
	}
	return int64(math.Log(float64(stake))) - n.Strokes + n.OkBlocksInRow/100
}

// nref: one step of the rules.
type nref struct {
	e     *E
	n     map[string]*noding.Info
	queue []string
	p     noding.Params
	h     int64
	idx   map[string]string // consensus address -> who registered it last
}

func newNref(e *E) *nref {
	r := &nref{e: e, n: e.nodes(), queue: e.lotteryQueue(), p: e.app.GetNodingKeeper().GetParams(e.Ctx()), h: e.h, idx: map[string]string{}}
	if err := e.each(noding.IdxStoreKey, func(k, v []byte) error {
		if k[0] == 0x01 {
			r.idx[string(k[1:])] = sdk.AccAddress(v).String()
		}
		return nil
	}); err != nil {
		panic(err)
	}
	return r
}

func (r *nref) out(a string) {
	for i, q := range r.queue {
		if q == a {
			r.queue = append(append([]string{}, r.queue[:i]...), r.queue[i+1:]...)
			return
		}
	}
}

func (r *nref) back(a string) {
	for _, q := range r.queue {
		if q == a {
			r.out(a)
			r.queue = append(r.queue, a)
			return
		}
	}
}

// qualified by the state of post (status and stakes are other modules' business)
func (r *nref) qualified(post *E, t *tree, a string) bool {
	i := t.n[a]
	if i == nil {
		return false
	}
	if n := r.n[a]; n != nil && n.Staff {
		return true
	}
	st, _ := post.netStake(t, a)
	c := r.p.MinCriteria
	return i.Status >= c.Status && uint64(t.led[a][D]) >= c.SelfStake && uint64(st) >= c.TotalStake
}

func (r *nref) keyBusy(key, me string) bool {
	for a, n := range r.n {
		if a != me && nodeUp(n) && n.PubKey == key {
			return true
		}
	}
	return false
}

// message: whether a validator message is to be accepted; ok=false: not such a message.
func (r *nref) message(m sdk.Msg, post *E, t *tree) (accept, ok bool) {
	switch m := m.(type) {
	case *noding.MsgOn:
		n := r.n[m.Account]
		key := m.PubKey
		if _, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeConsPub, key); err != nil || (n != nil && (n.BannedForLife || n.Status)) || r.keyBusy(key, m.Account) || !r.qualified(post, t, m.Account) {
			return false, true
		}
		if n == nil {
			n = &noding.Info{}
			r.n[m.Account] = n
		}
		n.Status, n.PubKey = true, key
		r.idx[consOf(key)] = m.Account
		st, _ := post.netStake(t, m.Account)
		n.Score = score(n, st)
		return true, true
	case *noding.MsgOff:
		n := r.n[m.Account]
		if n == nil {
			return false, true
		}
		n.Status = false
		r.out(m.Account)
		return true, true
	case *noding.MsgUnjail:
		n := r.n[m.Account]
		if n == nil || !n.Jailed || r.h < n.UnjailAt || t.n[m.Account] == nil {
			return false, true
		}
		q := r.qualified(post, t, m.Account)
		if n.Status && q && r.keyBusy(n.PubKey, m.Account) {
			return false, true
		}
		n.Jailed = false
		if q {
			st, _ := post.netStake(t, m.Account)
			n.Score = score(n, st)
			if n.Status {
				r.idx[consOf(n.PubKey)] = m.Account
			}
		} else {
			n.Status = false
		}
		return true, true
	}
	return false, false
}

func (r *nref) begin(in BlockIn) {
	r.h++
	if a := r.idx[string(in.Proposer)]; a != "" {
		r.n[a].ProposedCount++
		r.back(a)
	}
	for _, v := range in.Votes {
		a := r.idx[string(v.Validator.Address)]
		n := r.n[a]
		if n == nil {
			continue
		}
		if v.SignedLastBlock {
			n.MissedBlocksInRow = 0
			n.OkBlocksInRow++
			if n.OkBlocksInRow%100 == 0 {
				n.Score++
			}
			continue
		}
		if n.Jailed {
			continue
		}
		n.Score -= n.OkBlocksInRow/100 + 1
		n.Strokes++
		n.OkBlocksInRow = 0
		n.MissedBlocksInRow++
		if n.MissedBlocksInRow >= int64(r.p.JailAfter) {
			n.Jailed, n.MissedBlocksInRow = true, 0
			n.UnjailAt = r.h + int64(r.p.UnjailAfter)
			n.JailCount++
			r.out(a)
		} else {
			r.back(a)
		}
	}
	for _, v := range in.Evidence {
		a := r.idx[string(v.Validator.Address)]
		n := r.n[a]
		if n == nil {
			continue
		}
		n.Infractions = append(n.Infractions, v)
		if len(n.Infractions) > 1 {
			n.BannedForLife, n.Status = true, false
			r.out(a)
		} else {
			r.back(a)
		}
	}
}

// settle: whoever does not qualify any more is switched off at once; scores follow the stakes.
func (r *nref) settle(pre, post *E, t0, t1 *tree) {
	r.p = post.app.GetNodingKeeper().GetParams(post.Ctx())
	got := post.nodes()
	for a, n := range r.n {
		if g := got[a]; g != nil {
			n.Staff = g.Staff // decided by voting
		}
		if nodeUp(n) && changedIn(t0, t1, a) && !r.qualified(post, t1, a) {
			n.Status = false
			r.out(a)
		}
		s0, _ := pre.netStake(t0, a)
		s1, ok := post.netStake(t1, a)
		g := got[a]
		if g == nil || !ok {
			continue
		}
		if !nodeUp(n) || (s0 != s1 && sameDelegated(t0, t1, a) && g.Score == score(n, s1)) {
			n.Score = g.Score // not compared; recomputed when it is switched on
		} else if s0 != s1 && !sameDelegated(t0, t1, a) {
			n.Score = score(n, s1)
		} else if g.Score == score(n, s1) {
			n.Score = g.Score
		}
	}
	for a, g := range got {
		if r.n[a] == nil && g.Staff && !g.Status {
			c := *g
			r.n[a] = &c
		}
	}
}

func changedIn(t0, t1 *tree, a string) bool {
	x, y := t0.n[a], t1.n[a]
	return x == nil || y == nil || x.Status != y.Status || !sameDelegated(t0, t1, a)
}

func sameDelegated(t0, t1 *tree, a string) bool {
	x, y := t0.n[a], t1.n[a]
	if x == nil || y == nil || len(x.Delegated) != len(y.Delegated) {
		return false
	}
	for i := range x.Delegated {
		if !x.Delegated[i].Equal(y.Delegated[i]) {
			return false
		}
	}
	return true
}

func nodeStr(n *noding.Info) string {
	var l []string
	for _, x := range n.Infractions {
		l = append(l, fmt.Sprintf("%x@%d", x.Validator.Address[:2], x.Height))
	}
	return fmt.Sprintf("on=%v jailed=%v until %d banned=%v staff=%v key=%s strokes=%d ok=%d missed=%d jails=%d proposed=%d infractions=%v score=%d",
		n.Status, n.Jailed, n.UnjailAt, n.BannedForLife, n.Staff, keyName(keyHexOr(n.PubKey)), n.Strokes, n.OkBlocksInRow, n.MissedBlocksInRow, n.JailCount, n.ProposedCount, l, n.Score)
}

func keyHexOr(b string) string {
	if b == "" {
		return "none"
	}
	return keyHex(b)
}

func nodesStr(m map[string]*noding.Info) string {
	var l []string
	for a, n := range m {
		l = append(l, nameOf(a)+": "+nodeStr(n))
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

func nodeMsg(m sdk.Msg) bool {
	switch m.(type) {
	case *noding.MsgOn, *noding.MsgOff, *noding.MsgUnjail:
		return true
	}
	return false
}

// expectNodes: the records and the queue after a step from pre to post (a block: from the end of the previous one).
func expectNodes(pre, post *E, s *Step) (*nref, error) {
	r := newNref(pre)
	t0, t1 := pre.mustTree(), post.mustTree()
	if s.Msg != nil {
		if s.Err != nil {
			if acc, ok := newNref(pre).message(s.Msg, pre, t0); ok && acc {
				return nil, fmt.Errorf("%s refused (%v) though the rules allow it", s.Name, s.Err)
			}
			return r, nil
		}
		if acc, ok := r.message(s.Msg, pre, t0); ok && !acc {
			return nil, fmt.Errorf("%s accepted though the rules forbid it", s.Name)
		}
	} else {
		r.begin(s.Blk)
	}
	r.settle(pre, post, t0, t1)
	return r, nil
}

// postJail (C16): the records after every message and every beginning of a block.
func postJail(pre, post *E, s *Step) error {
	r, err := expectNodes(pre, post, s)
	if err != nil {
		return err
	}
	post.ctr.compared++
	if w, g := nodesStr(r.n), nodesStr(post.nodes()); w != g {
		return fmt.Errorf("%s: validators should be {%s}, are {%s}", s.Name, w, g)
	}
	for a, n := range post.nodes() {
		if nodeUp(n) && !r.qualified(post, post.mustTree(), a) {
			return fmt.Errorf("%s: %s is switched on though not qualified", s.Name, nameOf(a))
		}
	}
	return stateQueries(post)
}

// stateQueries: who is a validator, as the rest of the system is told.
func stateQueries(e *E) error {
	k := e.app.GetNodingKeeper()
	q := map[string]int{}
	for i, a := range e.lotteryQueue() {
		q[a] = i + 1
	}
	p := k.GetParams(e.Ctx())
	for a, n := range e.nodes() {
		want := noding.VALIDATOR_STATE_OFF
		switch {
		case n.BannedForLife:
			want = noding.VALIDATOR_STATE_BAN
		case n.Jailed:
			want = noding.VALIDATOR_STATE_JAIL
		case !n.Status:
		case n.LastPower == 0:
			want = noding.VALIDATOR_STATE_SPARE
		case q[a] == 0:
			want = noding.VALIDATOR_STATE_TOP
		default:
			want = noding.VALIDATOR_STATE_LUCKY
		}
		if g := k.GetValidatorState(e.Ctx(), payload(a)); g != want {
			return fmt.Errorf("state of %s is %v, should be %v", nameOf(a), g, want)
		}
		if v, err := k.IsValidator(e.Ctx(), payload(a)); err != nil || v != nodeUp(n) {
			return fmt.Errorf("IsValidator(%s)=%v,%v", nameOf(a), v, err)
		}
		if v, err := k.IsActiveValidator(e.Ctx(), payload(a)); err != nil || v != (nodeUp(n) && e.h-n.UnjailAt >= 6*int64(p.UnjailAfter)) {
			return fmt.Errorf("IsActiveValidator(%s)=%v,%v", nameOf(a), v, err)
		}
	}
	return nil
}

// ---- end of a block

// chosen checks the places given at the end of a block (mid) to the validators active before it (pre).
func chosen(pre, mid *E) (map[string]int64, error) {
	p := pre.app.GetNodingKeeper().GetParams(pre.Ctx())
	n0, n1 := pre.nodes(), mid.nodes()
	var act []string
	for a, n := range n0 {
		if nodeUp(n) {
			act = append(act, a)
		}
	}
	max, lot := int(p.MaxValidators), int(p.LotteryValidators)
	top, lucky := len(act), 0
	if top > max {
		top = max
		if lucky = len(act) - top; lucky > lot {
			lucky = lot
		}
	}
	q0, q1 := pre.lotteryQueue(), mid.lotteryQueue()
	in1 := map[string]bool{}
	for _, a := range q1 {
		if in1[a] {
			return nil, fmt.Errorf("%s is twice in the lottery queue", nameOf(a))
		}
		in1[a] = true
	}
	better := func(x, y string) bool { // strictly
		a, b := n0[x], n0[y]
		return a.Score > b.Score || a.Score == b.Score && a.OkBlocksInRow > b.OkBlocksInRow
	}
	// the top is whoever is not in the queue afterwards
	var tops, rest []string
	for _, a := range act {
		if in1[a] {
			rest = append(rest, a)
		} else {
			tops = append(tops, a)
		}
	}
	if len(tops) != top {
		return nil, fmt.Errorf("%d of %d validators hold top places, should be %d", len(tops), len(act), top)
	}
	for _, x := range tops {
		for _, y := range rest {
			if better(y, x) {
				return nil, fmt.Errorf("%s (score %d) holds a top place and %s (score %d) does not", nameOf(x), n0[x].Score, nameOf(y), n0[y].Score)
			}
		}
	}
	// the queue: those who waited, without the top, in their order; then the newcomers in order of score
	var q []string
	for _, a := range q0 {
		for _, b := range rest {
			if a == b {
				q = append(q, a)
			}
		}
	}
	waiting := len(q)
	if len(q1) < waiting {
		return nil, fmt.Errorf("lottery queue is %s, should start with %s", nameList(q1), nameList(q))
	}
	for i, a := range q {
		if q1[i] != a {
			return nil, fmt.Errorf("lottery queue is %s, should start with %s", nameList(q1), nameList(q))
		}
	}
	isAct := map[string]bool{}
	for _, a := range act {
		isAct[a] = true
	}
	for i := waiting; i < len(q1); i++ {
		if !isAct[q1[i]] {
			return nil, fmt.Errorf("%s is in the lottery queue but not an active validator", nameOf(q1[i]))
		}
		if i > waiting && better(q1[i], q1[i-1]) {
			return nil, fmt.Errorf("%s queued before %s", nameOf(q1[i-1]), nameOf(q1[i]))
		}
	}
	want := map[string]int64{}
	sort.Slice(tops, func(i, j int) bool { return n0[tops[i]].Score > n0[tops[j]].Score })
	for i, pw := range slicePowers(p, n0, tops) {
		want[tops[i]] = pw
	}
	for i := 0; i < lucky && i < waiting; i++ {
		want[q[i]] = p.VotingPower.LuckiesVotingPower
	}
	for a, n := range n1 {
		if n.LastPower != want[a] {
			return nil, fmt.Errorf("%s has power %d, should have %d (top %s, queue %s, %d lottery places)", nameOf(a), n.LastPower, want[a], nameList(tops), nameList(q1), lucky)
		}
	}
	return want, nil
}

// slicePowers: the powers of the top places, which are ordered by score. The slices are taken one after another; the
// next one begins with the first validator whose place is beyond the sum of the parts, unless its score is the same
// as the previous one's.
func slicePowers(p noding.Params, n map[string]*noding.Info, tops []string) []int64 {
	var r []int64
	cur, sum := 0, rat(p.VotingPower.Slices[0].Part)
	for i, a := range tops {
		if i > 0 && big.NewRat(int64(i+1), int64(p.MaxValidators)).Cmp(sum) > 0 && n[a].Score != n[tops[i-1]].Score {
			cur++
			sum = new(big.Rat).Add(sum, rat(p.VotingPower.Slices[cur].Part))
		}
		r = append(r, p.VotingPower.Slices[cur].VotingPower)
	}
	return r
}

func nameList(l []string) string {
	var r []string
	for _, a := range l {
		r = append(r, nameOf(a))
	}
	return "[" + strings.Join(r, " ") + "]"
}

// midSet (C15): what Tendermint has after the updates.
func midSet(pre, e *E, upd []abci.ValidatorUpdate) error {
	m := e.M.(*valModel)
	if err := m.apply(upd); err != nil {
		return err
	}
	e.ctr.compared++
	return setAgrees(e)
}

func setAgrees(e *E) error {
	m := e.M.(*valModel)
	p := e.app.GetNodingKeeper().GetParams(e.Ctx())
	act, withPower := 0, 0
	want := map[string]int64{}
	for a, n := range e.nodes() {
		if nodeUp(n) {
			act++
		}
		if (n.LastPower == 0) != (n.LastPubKey == "") {
			return fmt.Errorf("%s: power %d recorded with key %q", nameOf(a), n.LastPower, n.LastPubKey)
		}
		if n.LastPower == 0 {
			continue
		}
		if !nodeUp(n) {
			return fmt.Errorf("%s has power though it is not active", nameOf(a))
		}
		if n.PubKey != n.LastPubKey {
			return fmt.Errorf("%s has power with a key which is not its own any more", nameOf(a))
		}
		withPower++
		k := keyHex(n.PubKey)
		if want[k] != 0 {
			return fmt.Errorf("%s is the key of two validators with power", keyName(k))
		}
		want[k] = n.LastPower
	}
	if w, g := (&valModel{want}).String(), m.String(); w != g {
		return fmt.Errorf("Tendermint's validator set is %s, the chain's is %s", g, w)
	}
	tops := act
	if tops > int(p.MaxValidators) {
		tops = int(p.MaxValidators)
	}
	if withPower < tops || withPower > tops+int(p.LotteryValidators) {
		return fmt.Errorf("%d of %d active validators have power (%d places, %d by lottery)", withPower, act, p.MaxValidators, p.LotteryValidators)
	}
	return nil
}

// midPlaces (C17)
func midPlaces(pre, e *E, upd []abci.ValidatorUpdate) error {
	e.ctr.compared++
	_, err := chosen(pre, e)
	return err
}

// postQueue (C17): the queue after messages and beginnings of blocks.
func postQueue(pre, post *E, s *Step) error {
	r, err := expectNodes(pre, post, s)
	if err != nil {
		return nil // C16
	}
	post.ctr.compared++
	if w, g := nameList(r.queue), nameList(post.lotteryQueue()); w != g {
		return fmt.Errorf("%s: lottery queue should be %s, is %s", s.Name, w, g)
	}
	no := map[string]uint64{}
	if err := post.each(noding.IdxStoreKey, func(k, v []byte) error {
		if k[0] == 0x03 {
			no[sdk.AccAddress(v).String()] = binary.BigEndian.Uint64(k[1:])
		}
		return nil
	}); err != nil {
		return err
	}
	for a, n := range post.nodes() {
		if n.LotteryNo != no[a] {
			return fmt.Errorf("%s: %s holds number %d and is queued with %d", s.Name, nameOf(a), n.LotteryNo, no[a])
		}
		if nodeUp(n) && n.LastPower > 0 && r.n[a] != nil && r.n[a].LastPower != n.LastPower {
			return fmt.Errorf("%s changed the power of %s", s.Name, nameOf(a))
		}
	}
	return nil
}

func initVals(e *E) error {
	m := &valModel{map[string]int64{}}
	e.M = m
	if err := m.apply(e.genUpd); err != nil {
		return err
	}
	return nil
}

// ---- families

// votes: everybody in Tendermint's set signs, except
func (m *valModel) votes(miss ...int) []abci.VoteInfo {
	var r []abci.VoteInfo
	for i := 0; i < nKeys; i++ {
		pk, _, ad := consKey(i)
		p, ok := m.set[hex.EncodeToString(pk.Bytes())]
		if !ok {
			continue
		}
		signed := true
		for _, x := range miss {
			signed = signed && x != i
		}
		r = append(r, abci.VoteInfo{Validator: abci.Validator{Address: ad, Power: p}, SignedLastBlock: signed})
	}
	return r
}

func evidence(i int, h int64) abci.Evidence {
	_, _, ad := consKey(i)
	return abci.Evidence{Type: abci.EvidenceType_DUPLICATE_VOTE, Validator: abci.Validator{Address: ad, Power: 10}, Height: h, Time: t0, TotalVotingPower: 10}
}

func blkSigned(e *E, what string, proposer int, miss []int, ev []int, unknownFirst bool) sop {
	in := &BlockIn{Dt: 10 * time.Second}
	if proposer >= 0 {
		in.Proposer = proposerOf(proposer)
	}
	if m, ok := e.M.(*valModel); ok {
		in.Votes = m.votes(miss...)
	} else {
		for i := 0; i < 5; i++ {
			signed := true
			for _, x := range miss {
				signed = signed && x != i
			}
			in.Votes = append(in.Votes, abci.VoteInfo{Validator: abci.Validator{Address: proposerOf(i), Power: 10}, SignedLastBlock: signed})
		}
	}
	for _, i := range ev {
		in.Evidence = append(in.Evidence, evidence(i, e.h))
	}
	if unknownFirst {
		_, _, ad := consKey(11)
		in.Votes = append([]abci.VoteInfo{{Validator: abci.Validator{Address: ad, Power: 1}, SignedLastBlock: false}}, in.Votes...)
		in.Evidence = append([]abci.Evidence{evidence(11, e.h)}, in.Evidence...)
	}
	return sop{name: "block(" + what + ")", blk: in}
}

func nodGen(max, lot, jail, unjail uint32, accs ...Acc) *Gen {
	all := []Acc{{Name: "v", Coins: 1000 * artr, Deleg: 900_000 * artr, Until: 300 * Day}}
	for _, a := range accs {
		a.Parent = "v"
		all = append(all, a)
	}
	g := newGen(all...)
	g.Nod.Params.MaxValidators, g.Nod.Params.LotteryValidators = max, lot
	g.Nod.Params.JailAfter, g.Nod.Params.UnjailAfter = jail, unjail
	g.Nod.Params.MinCriteria = noding.MinCriteria{Status: referral.STATUS_LUCKY, SelfStake: 1000 * artr, TotalStake: 1000 * artr}
	return g
}

func famJail() Fam {
	return Fam{
		Name: "jail", Depth: [2]int{5, 7},
		Note: "three validators for two top places and one lottery place, jailed after two missed blocks for three; blocks signed by all, missed by each, with evidence against each, also of and against unknown validators; switching on and off and unjailing at every moment",
		Gen: func() *Gen {
			g := nodGen(2, 1, 2, 3, Acc{Name: "a", Coins: 10 * artr, Deleg: 9000 * artr, Until: 300 * Day}, Acc{Name: "b", Coins: 10 * artr, Deleg: 2000 * artr, Until: 300 * Day})
			g.Nod.Active = []noding.Validator{genValidator("v", 0), genVal("a", 1, 99), genVal("b", 2, 0)}
			return g
		},
		Ops: func(e *E) []sop {
			return []sop{
				blkSigned(e, "all", 0, nil, nil, false), blkSigned(e, "a missed", 2, []int{1}, nil, false), blkSigned(e, "b missed", 1, []int{2}, nil, true), blkSigned(e, "all but v missed", 0, []int{1, 2}, nil, false),
				blkSigned(e, "evidence against a", 0, nil, []int{1}, false), blkSigned(e, "evidence against unknown and b", 0, nil, []int{2}, true),
				mOff("a"), mOn("a", 1), mUnjail("a"), mUnjail("b"), mOff("b"), mOn("b", 2),
				govJail(1, 3), govJail(4, 1),
			}
		},
	}
}

func genVal(name string, key int, ok int64) noding.Validator {
	v := genValidator(name, key)
	v.Staff = false
	v.OkBlocksInRow = ok
	return v
}

func famKeys() Fam {
	return Fam{
		Name: "keys", Depth: [2]int{6, 7},
		Note: "three operators switching on and off with three keys between them, one of them with a key of another, with jails and unjailing, two top places and one lottery place",
		Gen: func() *Gen {
			g := nodGen(2, 1, 1, 1, Acc{Name: "a", Coins: 10 * artr, Deleg: 9000 * artr, Until: 300 * Day}, Acc{Name: "b", Coins: 10 * artr, Deleg: 2000 * artr, Until: 300 * Day})
			g.Nod.Active = []noding.Validator{genValidator("v", 0), genVal("a", 1, 0)}
			return g
		},
		Ops: func(e *E) []sop {
			return []sop{
				blkSigned(e, "all", 0, nil, nil, false), blkSigned(e, "key1 missed", 1, []int{1}, nil, false), blkSigned(e, "key2 missed", 2, []int{2}, nil, false),
				mOff("a"), mOff("b"), mOn("a", 1), mOn("a", 2), mOn("b", 1), mOn("b", 2), mOn("b", 0), mUnjail("a"), mUnjail("b"), mOff("v"), mOn("v", 1),
			}
		},
	}
}

func famStake() Fam {
	return Fam{
		Name: "stake", Depth: [2]int{4, 5},
		Note: "validators whose rank and qualification depend on their own and their network's delegation: delegating, revoking, moving a delegator below another validator, status changes, jail",
		Gen: func() *Gen {
			g := nodGen(2, 1, 2, 2, Acc{Name: "a", Coins: 9000 * artr, Deleg: 1500 * artr, Until: 300 * Day}, Acc{Name: "b", Coins: 9000 * artr, Deleg: 1500 * artr, Until: 300 * Day})
			g.Accs = append(g.Accs,
				Acc{Name: "c", Parent: "a", Coins: 10_000 * artr, Deleg: 5000 * artr, Until: 300 * Day},
				Acc{Name: "d", Parent: "b", Coins: 10_000 * artr, Deleg: 400 * artr, Until: 300 * Day},
				Acc{Name: "z", Parent: "b", Coins: artr, Deleg: 900_000, CompressAt: 2 * Day, BanishAt: 0})
			g.Ref.Params.TransitionPrice = 100
			g.Nod.Params.MinCriteria = noding.MinCriteria{Status: referral.STATUS_LUCKY, SelfStake: 1000 * artr, TotalStake: 1900 * artr}
			g.Nod.Active = []noding.Validator{genValidator("v", 0), genVal("a", 1, 0)}
			return g
		},
		Ops: func(e *E) []sop {
			return []sop{
				blkSigned(e, "all", 0, nil, nil, false), blkSigned(e, "a missed", 1, []int{1}, nil, false), blk(Day + time.Second), blk(33 * Day),
				mOn("b", 2), mOff("a"), mUnjail("a"), mOn("c", 3), mOff("b"),
				mDelegate("d", 3000*artr), mDelegate("b", 1*artr), mRevoke("b", 900*artr), mRevoke("c", 4900*artr), mExpress("a", 600*artr), mDelegate("a", 8000*artr),
				mRequest("c", "b"), mApprove("a", "c"),
			}
		},
	}
}

func famLottery(max, lot uint32) Fam {
	return Fam{
		Name: fmt.Sprintf("lottery %d+%d", max, lot), Depth: [2]int{4, 6},
		Note: fmt.Sprintf("five validators for %d top places and %d lottery places, two of them with equal scores; every one of them proposes, misses, leaves, joins", max, lot),
		Gen: func() *Gen {
			g := nodGen(max, lot, 2, 1,
				Acc{Name: "a", Coins: 10 * artr, Deleg: 9000 * artr, Until: 300 * Day}, Acc{Name: "b", Coins: 10 * artr, Deleg: 9000 * artr, Until: 300 * Day},
				Acc{Name: "c", Coins: 10 * artr, Deleg: 3000 * artr, Until: 300 * Day}, Acc{Name: "d", Coins: 10 * artr, Deleg: 1100 * artr, Until: 300 * Day})
			g.Nod.Active = []noding.Validator{genValidator("v", 0), genVal("a", 1, 0), genVal("b", 2, 0), genVal("c", 3, 0), genVal("d", 4, 0)}
			g.Nod.Params.VotingPower = noding.Distribution{
				Slices:             []noding.Distribution_Slice{{Part: util.NewFraction(1, 4), VotingPower: 7}, {Part: util.NewFraction(1, 4), VotingPower: 5}, {Part: util.NewFraction(1, 2), VotingPower: 3}},
				LuckiesVotingPower: 2,
			}
			return g
		},
		Ops: func(e *E) []sop {
			r := []sop{
				blkSigned(e, "all, none known proposed", -1, nil, nil, false), blkSigned(e, "a proposed", 1, nil, nil, false), blkSigned(e, "b proposed", 2, nil, nil, false), blkSigned(e, "c proposed", 3, nil, nil, false), blkSigned(e, "d proposed", 4, nil, nil, false),
				blkSigned(e, "a, c missed", 0, []int{1, 3}, nil, false), blkSigned(e, "b, d missed", 0, []int{2, 4}, nil, false), blkSigned(e, "evidence against c", 0, nil, []int{3}, false),
				mOff("a"), mOff("c"), mOn("a", 1), mOn("c", 3), mUnjail("c"), mUnjail("d"), mRevoke("d", 1050*artr),
				setPlaces(lot+1, max-1), setPlaces(max+1, 0),
			}
			return r
		},
	}
}

// setPlaces: the parameters as a proposal would change them.
func setPlaces(max, lot uint32) sop {
	return sop{name: fmt.Sprintf("places(%d+%d)", max, lot), do: func(e *E) error {
		c, w := e.branch()
		k := e.app.GetNodingKeeper()
		p := k.GetParams(c)
		p.MaxValidators, p.LotteryValidators = max, lot
		k.SetParams(c, p)
		w()
		return nil
	}}
}

// ---- powers: every number of candidates, every pattern of equal scores, every distribution of a list

func powersExtra(tier string, deadline time.Time) []Result {
	start := time.Now()
	res := Result{Scenario: "powers", Note: "the end of a block with n candidates (n up to 7; thorough: 9), every pattern of equal and different scores, several orders, top places 1..6, lottery places 0..3, four distributions into slices", Complete: true}
	maxN := 7
	if tier == "thorough" {
		maxN = 9
	}
	f := util.NewFraction
	distrs := []noding.Distribution{
		{Slices: []noding.Distribution_Slice{{Part: f(15, 100), VotingPower: 15}, {Part: f(85, 100), VotingPower: 10}}, LuckiesVotingPower: 10},
		{Slices: []noding.Distribution_Slice{{Part: f(1, 1), VotingPower: 9}}, LuckiesVotingPower: 1},
		{Slices: []noding.Distribution_Slice{{Part: f(1, 3), VotingPower: 15}, {Part: f(1, 3), VotingPower: 8}, {Part: f(1, 3), VotingPower: 4}}, LuckiesVotingPower: 2},
		{Slices: []noding.Distribution_Slice{{Part: f(1, 2), VotingPower: 3}, {Part: f(1, 10), VotingPower: 6}, {Part: f(2, 5), VotingPower: 1}}, LuckiesVotingPower: 5},
	}
	var accs []Acc
	for i := 0; i < maxN; i++ {
		accs = append(accs, Acc{Name: fmt.Sprintf("p%d", i), Coins: artr, Until: 300 * Day})
	}
	g := newGen(accs...)
	for i := range g.Accs[:maxN] {
		if i > 0 {
			g.Accs[i].Parent = "p0"
		}
	}
	m := newMachine()
	e, err := g.Start(m)
	if err != nil {
		res.Viol = &Violation{Scenario: res.Scenario, Msg: "the initial state cannot be reached: " + err.Error(), Confirm: "not tried"}
		return []Result{res}
	}
	root := e.snap()
	defer unwatch(0)
	for n := 0; n <= maxN; n++ {
		for pat := 0; pat < 1<<uint(maxInt(n-1, 0)); pat++ { // bit i: i and i+1 differ
			for rev := 0; rev < 2; rev++ {
				for max := uint32(1); max <= 6; max++ {
					for lot := uint32(0); lot <= 3; lot++ {
						for di, d := range distrs {
							if time.Now().After(deadline) {
								res.Complete = false
								res.WallS = time.Since(start).Seconds()
								return []Result{res}
							}
							watch(0, &Scenario{Name: "powers"}, nil, fmt.Sprintf("%d validators", n))
							e := m.open(root)
							k := e.app.GetNodingKeeper()
							e.M = &valModel{map[string]int64{}}
							c, w := e.branch()
							p := k.GetParams(c)
							p.MaxValidators, p.LotteryValidators, p.VotingPower = max, lot, d
							k.SetParams(c, p)
							w()
							sc := int64(50)
							for i := 0; i < n; i++ {
								_, pk, _ := consKey(i)
								a := fmt.Sprintf("p%d", i)
								if rev == 1 {
									a = fmt.Sprintf("p%d", n-1-i)
								}
								info := noding.Info{Status: true, PubKey: pk, Score: sc, Staff: true}
								e.st[e.storeIdx(noding.StoreKey)].Set(addr(a), e.ec.Marshaler.MustMarshalBinaryBare(&info))
								if pat>>uint(i)&1 == 1 {
									sc--
								}
							}
							// twice: lottery places are given to those who wait already
							var seq []string
							for b := 0; b < 3; b++ {
								pre := e.fork()
								upd, err := e.End()
								if err == nil {
									if _, err = chosen(pre, e); err == nil {
										err = midSet(pre, e, upd)
									}
								}
								seq = append(seq, fmt.Sprintf("block %d", b+1))
								if err == nil && b < 2 {
									err = e.Begin(BlockIn{Dt: 10 * time.Second})
								}
								res.Transitions++
								if err != nil {
									res.Viol = &Violation{Scenario: "powers", Trace: append([]string{fmt.Sprintf("%d candidates, pattern %b, reversed %d, %d+%d places, distribution %d", n, pat, rev, max, lot, di)}, seq...), Msg: err.Error(), Confirm: "deterministic enumeration"}
									res.WallS = time.Since(start).Seconds()
									return []Result{res}
								}
							}
							res.States++
						}
					}
				}
			}
		}
	}
	res.WallS = time.Since(start).Seconds()
	return []Result{res}
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func init() {
	fams := func(tier string, d deco, lot int) []*Scenario {
		return famScenarios(tier, []Fam{famJail(), famKeys(), famStake(), famLottery(1, 1).to(lot, 7), famLottery(2, 2), famLottery(4, 1)}, d)
	}
	register(&Check{ID: "C15", Quick: 80 * time.Second,
		Rule: "every sequence of the listed messages and blocks up to the depth; at the end of every block the updates are given to Tendermint's own ValidatorSet and the accumulated set is compared with the chain's records and the configured numbers of places",
		Scenarios: func(tier string) []*Scenario {
			return fams(tier, deco{Init: initVals, Mid: midSet}, 5)
		}})
	register(&Check{ID: "C16", Quick: 80 * time.Second,
		Rule: "every sequence of the listed messages and blocks up to the depth; after every message and every beginning of a block all validator records are compared with the rules' outcome from the records before",
		Scenarios: func(tier string) []*Scenario {
			return fams(tier, deco{Init: initVals, Mid: modelOnly, Split: true, Post: postJail}, 4)
		}})
	register(&Check{ID: "C17", Quick: 80 * time.Second,
		Rule: "every sequence of the listed messages and blocks up to the depth; at the end of every block the places, powers and the lottery queue are compared with the order of scores, the slices and the queue before; plus every combination of the listed numbers of candidates, score patterns, places and distributions",
		Scenarios: func(tier string) []*Scenario {
			return fams(tier, deco{Init: initVals, Mid: func(pre, e *E, u []abci.ValidatorUpdate) error {
				if err := modelOnly(pre, e, u); err != nil {
					return err
				}
				return midPlaces(pre, e, u)
			}, Split: true, Post: postQueue}, 4)
		},
		Extra: powersExtra})
}

// modelOnly keeps Tendermint's set, for the votes; what is wrong with it is C15's business.
func modelOnly(pre, e *E, u []abci.ValidatorUpdate) error {
	m := e.M.(*valModel)
	m.set = map[string]int64{}
	for _, n := range e.nodes() {
		if n.LastPower != 0 {
			m.set[keyHex(n.LastPubKey)] = n.LastPower
		}
	}
	return nil
}
