//go:build go1.22

package main

// C18 (proposals) and C19 (polls).

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"
	upgrade "github.com/cosmos/cosmos-sdk/x/upgrade/types"

	"github.com/arterynetwork/artr/util"
	bank "github.com/arterynetwork/artr/x/bank/types"
	delegating "github.com/arterynetwork/artr/x/delegating/types"
	earning "github.com/arterynetwork/artr/x/earning/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	schedule "github.com/arterynetwork/artr/x/schedule/types"
	voting "github.com/arterynetwork/artr/x/voting/types"
)

// settings: everything a proposal may change.
type settings struct {
	prof  profile.Params
	bank  bank.Params
	deleg delegating.Params
	nod   noding.Params
	ref   referral.Params
	earn  earning.Params
	sched schedule.Params
	vote  voting.Params
	gov   []string
	plan  *upgrade.Plan
	nodes map[string]*noding.Info
	e     *E
}

func (e *E) settings() *settings {
	c := e.Ctx()
	s := &settings{e: e}
	s.prof = e.app.GetProfileKeeper().GetParams(c)
	s.bank = e.app.GetBankKeeper().GetParams(c)
	dk, nk, rk, sk, vk, ek := e.app.GetDelegatingKeeper(), e.app.GetNodingKeeper(), e.app.GetReferralKeeper(), e.app.GetScheduleKeeper(), e.app.GetVotingKeeper(), e.app.GetEarningKeeper()
	s.deleg, s.nod, s.ref, s.sched, s.vote, s.earn = dk.GetParams(c), nk.GetParams(c), rk.GetParams(c), sk.GetParams(c), vk.GetParams(c), ek.GetParams(c)
	s.gov = e.government()
	if bz := e.raw(upgrade.StoreKey, upgrade.PlanKey()); bz != nil {
		s.plan = &upgrade.Plan{}
		if err := e.ec.Marshaler.UnmarshalBinaryBare(bz, s.plan); err != nil {
			panic(err)
		}
	}
	s.nodes = e.nodes()
	return s
}

func (e *E) government() []string {
	var g voting.Government
	if err := g.Unmarshal(e.raw(voting.StoreKey, voting.KeyGovernment)); err != nil {
		panic(err)
	}
	return g.Members
}

// lines: one per setting; the order within lists does not matter.
func (s *settings) lines() []string {
	var r []string
	put := func(mod string, v interface{}) {
		bz, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		m := map[string]json.RawMessage{}
		if err := json.Unmarshal(bz, &m); err != nil {
			panic(err)
		}
		for k, v := range m {
			var l []string
			if json.Unmarshal(v, &l) == nil {
				r = append(r, mod+"."+k+": "+listStr(l))
			} else {
				r = append(r, mod+"."+k+": "+string(v))
			}
		}
	}
	put("profile", s.prof)
	put("bank", s.bank)
	put("delegating", s.deleg)
	put("noding", s.nod)
	put("referral", s.ref)
	put("schedule", s.sched)
	put("voting", s.vote)
	put("earning", s.earn)
	r = append(r, "government: "+listStr(s.gov))
	if s.plan == nil {
		r = append(r, "upgrade: none")
	} else {
		r = append(r, fmt.Sprintf("upgrade: %s at %v info %q", s.plan.Name, s.plan.Time.UTC(), s.plan.Info))
	}
	for a, n := range s.nodes {
		r = append(r, "validator "+nameOf(a)+": "+nodeStr(n)+fmt.Sprintf(" lottery=%v", n.LotteryNo != 0))
	}
	sort.Strings(r)
	return r
}

func listStr(l []string) string {
	var r []string
	for _, a := range l {
		r = append(r, nameOf(a))
	}
	sort.Strings(r)
	return strings.Join(r, ", ")
}

func diffLines(want, got []string) string {
	w, g := map[string]bool{}, map[string]bool{}
	for _, x := range want {
		w[x] = true
	}
	for _, x := range got {
		g[x] = true
	}
	var d []string
	for _, x := range want {
		if !g[x] {
			d = append(d, "expected "+x)
		}
	}
	for _, x := range got {
		if !w[x] {
			d = append(d, "got "+x)
		}
	}
	sort.Strings(d)
	return strings.Join(d, " | ")
}

func addTo(l []string, a string) []string {
	for _, x := range l {
		if x == a {
			return l
		}
	}
	return append(append([]string{}, l...), a)
}

func dropFrom(l []string, a string) []string {
	var r []string
	for _, x := range l {
		if x != a {
			r = append(r, x)
		}
	}
	return r
}

func isIn(l []string, a string) bool {
	for _, x := range l {
		if x == a {
			return true
		}
	}
	return false
}

// effect of an accepted proposal, by its meaning. Values that are not allowed and deprecated kinds change nothing.
func (s *settings) effect(p *voting.Proposal, now time.Time) {
	a := propAddr(p)
	price := p.GetPrice().GetPrice()
	min := p.GetMinAmount().GetMinAmount()
	cnt := p.GetCount().GetCount()
	signer := func(l *[]string, add bool) {
		if add {
			*l = addTo(*l, a)
		} else if n := dropFrom(*l, a); len(n) > 0 {
			*l = n // the last one stays
		}
	}
	switch p.Type {
	case voting.PROPOSAL_TYPE_ENTER_PRICE:
		if price > 0 {
			s.prof.SubscriptionPrice = price
		}
	case voting.PROPOSAL_TYPE_PRODUCT_VPN_BASE_PRICE:
		if price > 0 {
			s.prof.VpnGbPrice = price
		}
	case voting.PROPOSAL_TYPE_PRODUCT_STORAGE_BASE_PRICE:
		if price > 0 {
			s.prof.StorageGbPrice = price
		}
	case voting.PROPOSAL_TYPE_TRANSITION_PRICE:
		s.ref.TransitionPrice = uint64(price)
	case voting.PROPOSAL_TYPE_GOVERNMENT_ADD:
		s.gov = addTo(s.gov, a)
	case voting.PROPOSAL_TYPE_GOVERNMENT_REMOVE:
		s.gov = dropFrom(s.gov, a)
	case voting.PROPOSAL_TYPE_FREE_CREATOR_ADD, voting.PROPOSAL_TYPE_FREE_CREATOR_REMOVE:
		signer(&s.prof.Creators, p.Type == voting.PROPOSAL_TYPE_FREE_CREATOR_ADD)
	case voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_ADD, voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_REMOVE:
		signer(&s.prof.TokenRateSigners, p.Type == voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_ADD)
	case voting.PROPOSAL_TYPE_VPN_SIGNER_ADD, voting.PROPOSAL_TYPE_VPN_SIGNER_REMOVE:
		signer(&s.prof.VpnSigners, p.Type == voting.PROPOSAL_TYPE_VPN_SIGNER_ADD)
	case voting.PROPOSAL_TYPE_STORAGE_SIGNER_ADD, voting.PROPOSAL_TYPE_STORAGE_SIGNER_REMOVE:
		signer(&s.prof.StorageSigners, p.Type == voting.PROPOSAL_TYPE_STORAGE_SIGNER_ADD)
	case voting.PROPOSAL_TYPE_EARNING_SIGNER_ADD, voting.PROPOSAL_TYPE_EARNING_SIGNER_REMOVE:
		signer(&s.earn.Signers, p.Type == voting.PROPOSAL_TYPE_EARNING_SIGNER_ADD)
	case voting.PROPOSAL_TYPE_BLOCKED_SENDER_ADD:
		s.bank.BlockedSenders = addTo(s.bank.BlockedSenders, a)
	case voting.PROPOSAL_TYPE_BLOCKED_SENDER_REMOVE:
		s.bank.BlockedSenders = dropFrom(s.bank.BlockedSenders, a)
	case voting.PROPOSAL_TYPE_SOFTWARE_UPGRADE:
		u := p.GetSoftwareUpgrade()
		if u.Time.After(now) && u.Time.Unix() > 0 {
			s.plan = &upgrade.Plan{Name: u.Name, Info: u.Info, Time: *u.Time}
		}
	case voting.PROPOSAL_TYPE_CANCEL_SOFTWARE_UPGRADE:
		s.plan = nil
	case voting.PROPOSAL_TYPE_STAFF_VALIDATOR_ADD:
		if s.nodes[a] == nil {
			s.nodes[a] = &noding.Info{}
		}
		s.nodes[a].Staff = true
	case voting.PROPOSAL_TYPE_STAFF_VALIDATOR_REMOVE:
		if n := s.nodes[a]; n != nil && n.Staff {
			n.Staff = false
			r, t := newNref(s.e), s.e.mustTree()
			r.n = s.nodes
			if nodeUp(n) {
				if !r.qualified(s.e, t, a) {
					n.Status, n.LotteryNo = false, 0
				}
				if st, ok := s.e.netStake(t, a); ok {
					n.Score = score(n, st)
				}
			}
		}
	case voting.PROPOSAL_TYPE_GENERAL_AMNESTY:
		for _, n := range s.nodes {
			n.Score += n.Strokes
			n.Strokes, n.JailCount = 0, 0
		}
	case voting.PROPOSAL_TYPE_MIN_SEND:
		s.bank.MinSend = min
	case voting.PROPOSAL_TYPE_MIN_DELEGATE:
		if min > 0 {
			s.deleg.MinDelegate = min
		}
	case voting.PROPOSAL_TYPE_DUST_DELEGATION:
		if min >= 0 {
			s.bank.DustDelegation = min
		}
	case voting.PROPOSAL_TYPE_MAX_TRANSACTION_FEE:
		if min >= 0 {
			s.bank.MaxTransactionFee = min
		}
	case voting.PROPOSAL_TYPE_MAX_VALIDATORS:
		if cnt > 0 {
			s.nod.MaxValidators = cnt
		}
	case voting.PROPOSAL_TYPE_LUCKY_VALIDATORS:
		s.nod.LotteryValidators = cnt
	case voting.PROPOSAL_TYPE_JAIL_AFTER:
		s.nod.JailAfter = cnt
	case voting.PROPOSAL_TYPE_VALIDATOR_MINIMAL_CRITERIA:
		s.nod.MinCriteria = *p.GetMinCriteria().MinCriteria
	case voting.PROPOSAL_TYPE_VOTING_POWER:
		s.nod.VotingPower = *p.GetVotingPower()
	case voting.PROPOSAL_TYPE_TRANSACTION_FEE:
		s.bank.TransactionFee = p.GetPortion().Fraction
	case voting.PROPOSAL_TYPE_TRANSACTION_FEE_SPLIT_RATIOS:
		f := p.GetPortions().Fractions
		s.bank.TransactionFeeSplitRatios = bank.TransactionFeeSplitRatios{ForProposer: f[0], ForCompany: f[1]}
	case voting.PROPOSAL_TYPE_ACCRUE_PERCENTAGE_TABLE:
		s.deleg.AccruePercentageTable = p.GetAccruePercentageTable().AccruePercentageTable
	case voting.PROPOSAL_TYPE_REVOKE:
		s.deleg.Revoke = *p.GetRevoke().Revoke
	case voting.PROPOSAL_TYPE_EXPRESS_REVOKE:
		s.deleg.ExpressRevoke = *p.GetRevoke().Revoke
	}
}

// voteModel: the reference of both kinds of votes.
type voteModel struct {
	prop     *voting.Proposal
	started  int64
	yes, no  []string
	hist     []string
	poll     *voting.Poll
	answers  map[string]bool
	pollHist []string
}

func (m *voteModel) Clone() Model {
	c := *m
	c.yes, c.no = append([]string{}, m.yes...), append([]string{}, m.no...)
	c.hist, c.pollHist = append([]string{}, m.hist...), append([]string{}, m.pollHist...)
	c.answers = map[string]bool{}
	for k, v := range m.answers {
		c.answers[k] = v
	}
	return &c
}
func (m *voteModel) Key() string { return "" } // compared with the stores after every step

func propStr(p *voting.Proposal) string {
	bz, err := p.Marshal()
	if err != nil {
		panic(err)
	}
	end := "none"
	if p.EndTime != nil {
		end = p.EndTime.UTC().Format(time.RFC3339Nano)
	}
	return fmt.Sprintf("%q by %s, %v, until %s, %x", p.Name, nameOf(p.Author), p.Type, end, bz)
}

func histStr(p *voting.Proposal, gov, yes, no []string, from, to int64) string {
	return fmt.Sprintf("%s, government %s, agreed %s, disagreed %s, blocks %d to %d", propStr(p), listStr(gov), listStr(yes), listStr(no), from, to)
}

func pollStr(p *voting.Poll) string {
	bz, err := p.Marshal()
	if err != nil {
		panic(err)
	}
	return fmt.Sprintf("%x", bz)
}

func pollHistStr(p *voting.Poll, yes, no uint64, d voting.Decision) string {
	return fmt.Sprintf("poll %q until %v: %d yes, %d no, %v, %s", p.Name, p.EndTime.UTC(), yes, no, d, pollStr(p))
}

func (m *voteModel) counts() (yes, no uint64) {
	for _, v := range m.answers {
		if v {
			yes++
		} else {
			no++
		}
	}
	return
}

func initVote(e *E) error {
	e.M = &voteModel{answers: map[string]bool{}}
	return checkVoteState(e, e.M.(*voteModel))
}

// checkVoteState: the stores and the queries against the model.
func checkVoteState(e *E, m *voteModel) error {
	e.ctr.compared++
	ctx := e.Ctx()
	gov := e.government()
	// the open proposal
	var cur voting.CurrentResponse
	if err := e.queryCtx(ctx, "/artery.voting.v1beta1.Query/Current", &voting.CurrentRequest{}, &cur); err != nil {
		return err
	}
	if m.prop == nil {
		if cur.Proposal.Type != voting.PROPOSAL_TYPE_UNSPECIFIED || cur.Proposal.Name != "" || len(cur.Agreed)+len(cur.Disagreed) > 0 {
			return fmt.Errorf("no proposal is open; got %s, agreed %s, disagreed %s", propStr(&cur.Proposal), listStr(cur.Agreed), listStr(cur.Disagreed))
		}
	} else {
		if w, g := propStr(m.prop), propStr(&cur.Proposal); w != g {
			return fmt.Errorf("open proposal: expected %s, got %s", w, g)
		}
		if w, g := listStr(m.yes)+" / "+listStr(m.no)+" of "+listStr(gov), listStr(cur.Agreed)+" / "+listStr(cur.Disagreed)+" of "+listStr(cur.Government); w != g {
			return fmt.Errorf("votes for %q: expected %s, got %s", m.prop.Name, w, g)
		}
	}
	var gr voting.GovernmentResponse
	if err := e.queryCtx(ctx, "/artery.voting.v1beta1.Query/Government", &voting.GovernmentRequest{}, &gr); err != nil {
		return err
	}
	if listStr(gr.Members) != listStr(gov) {
		return fmt.Errorf("government: %s is stored, %s is answered", listStr(gov), listStr(gr.Members))
	}
	// history, as one page and as pages of one
	var hist []string
	var hr voting.HistoryResponse
	if err := e.queryCtx(ctx, "/artery.voting.v1beta1.Query/History", &voting.HistoryRequest{Limit: 1000, Page: 1}, &hr); err != nil {
		return err
	}
	for i := range hr.History {
		h := &hr.History[i]
		hist = append(hist, histStr(&h.Proposal, h.Government, h.Agreed, h.Disagreed, h.Started, h.Finished))
	}
	if err := eqHist("history of proposals", m.hist, hist); err != nil {
		return err
	}
	var paged []string
	for p := int32(1); p <= int32(len(m.hist))+1; p++ {
		var hr voting.HistoryResponse
		if err := e.queryCtx(ctx, "/artery.voting.v1beta1.Query/History", &voting.HistoryRequest{Limit: 1, Page: p}, &hr); err != nil {
			return err
		}
		for i := range hr.History {
			h := &hr.History[i]
			paged = append(paged, histStr(&h.Proposal, h.Government, h.Agreed, h.Disagreed, h.Started, h.Finished))
		}
	}
	if err := eqHist("history of proposals by pages of one", m.hist, paged); err != nil {
		return err
	}
	// the poll
	var pr voting.PollResponse
	err := e.queryCtx(ctx, "/artery.voting.v1beta1.Query/Poll", &voting.PollRequest{}, &pr)
	if (err == nil) != (m.poll != nil) {
		return fmt.Errorf("poll open: expected %v, got %v (%v)", m.poll != nil, err == nil, err)
	}
	if m.poll != nil {
		yes, no := m.counts()
		if w, g := pollHistStr(m.poll, yes, no, 0), pollHistStr(&pr.Poll, pr.Yes, pr.No, 0); w != g {
			return fmt.Errorf("poll: expected %s, got %s", w, g)
		}
	}
	var ph voting.PollHistoryResponse
	if err := e.queryCtx(ctx, "/artery.voting.v1beta1.Query/PollHistory", &voting.PollHistoryRequest{Limit: 1000, Page: 1}, &ph); err != nil {
		return err
	}
	hist = nil
	for i := range ph.History {
		h := &ph.History[i]
		hist = append(hist, pollHistStr(&h.Poll, h.Yes, h.No, h.Decision))
	}
	if err := eqHist("history of polls", m.pollHist, hist); err != nil {
		return err
	}
	// their tasks
	var want, got []string
	if m.prop != nil {
		want = append(want, voting.VoteHookName+" "+m.prop.EndTime.UTC().String())
	}
	if m.poll != nil {
		want = append(want, voting.PollHookName+" "+m.poll.EndTime.UTC().String())
	}
	for _, t := range e.tasks() {
		if t.HandlerName == voting.VoteHookName || t.HandlerName == voting.PollHookName {
			got = append(got, t.HandlerName+" "+t.Time.UTC().String())
		}
	}
	sort.Strings(want)
	sort.Strings(got)
	if w, g := strings.Join(want, ", "), strings.Join(got, ", "); w != g {
		return fmt.Errorf("scheduled endings: expected %q, got %q", w, g)
	}
	return nil
}

func eqHist(what string, want, got []string) error {
	w, g := append([]string{}, want...), append([]string{}, got...)
	sort.Strings(w)
	sort.Strings(g)
	if x, y := strings.Join(w, "\n"), strings.Join(g, "\n"); x != y {
		return fmt.Errorf("%s: expected\n%s\ngot\n%s", what, x, y)
	}
	return nil
}

// canAnswer: whether an account meets the requirements of the poll.
func canAnswer(e *E, p *voting.Poll, a string) bool {
	t := e.mustTree()
	switch r := p.Requirements.(type) {
	case *voting.Poll_CanValidate:
		return newNref(e).qualified(e, t, a)
	case *voting.Poll_MinStatus:
		i := t.n[a]
		return i != nil && i.Status >= r.MinStatus
	}
	return true
}

// end of the proposal: the history and the change.
func (m *voteModel) end(e *E, s *settings, gov []string) bool {
	agreed := len(m.yes)+len(m.no) == len(gov) && 3*len(m.yes) >= 2*len(gov)
	m.hist = append(m.hist, histStr(m.prop, gov, m.yes, m.no, m.started, e.h))
	if agreed {
		s.effect(m.prop, e.t)
	}
	m.prop, m.yes, m.no, m.started = nil, nil, nil, 0
	return agreed
}

// bad proposals: what they lack.
func wellFormed(p *voting.Proposal) bool {
	if p.Name == "" || p.EndTime != nil {
		return false
	}
	unit := func(q util.Fraction, one bool) bool {
		return !q.IsNullValue() && !q.IsNegative() && (q.LT(util.FractionInt(1)) || one && q.LTE(util.FractionInt(1)))
	}
	switch p.Type {
	case voting.PROPOSAL_TYPE_CANCEL_SOFTWARE_UPGRADE, voting.PROPOSAL_TYPE_GENERAL_AMNESTY:
		return p.Args == nil
	case voting.PROPOSAL_TYPE_ENTER_PRICE, voting.PROPOSAL_TYPE_PRODUCT_VPN_BASE_PRICE, voting.PROPOSAL_TYPE_PRODUCT_STORAGE_BASE_PRICE, voting.PROPOSAL_TYPE_TRANSITION_PRICE:
		return p.GetPrice() != nil
	case voting.PROPOSAL_TYPE_MIN_SEND, voting.PROPOSAL_TYPE_MIN_DELEGATE, voting.PROPOSAL_TYPE_DUST_DELEGATION, voting.PROPOSAL_TYPE_MAX_TRANSACTION_FEE:
		return p.GetMinAmount() != nil
	case voting.PROPOSAL_TYPE_MAX_VALIDATORS, voting.PROPOSAL_TYPE_LUCKY_VALIDATORS:
		return p.GetCount() != nil
	case voting.PROPOSAL_TYPE_JAIL_AFTER:
		return p.GetCount() != nil && p.GetCount().Count > 0
	case voting.PROPOSAL_TYPE_SOFTWARE_UPGRADE:
		u := p.GetSoftwareUpgrade()
		return u != nil && u.Name != "" && u.Height <= 0 && u.Time != nil
	case voting.PROPOSAL_TYPE_VALIDATOR_MINIMAL_CRITERIA:
		c := p.GetMinCriteria()
		return c != nil && c.MinCriteria.Status >= 1 && c.MinCriteria.Status <= 10 && c.MinCriteria.TotalStake >= c.MinCriteria.SelfStake
	case voting.PROPOSAL_TYPE_VOTING_POWER:
		d := p.GetVotingPower()
		if d == nil || d.LuckiesVotingPower <= 0 || len(d.Slices) == 0 {
			return false
		}
		sum := util.FractionZero()
		for _, s := range d.Slices {
			if s.VotingPower <= 0 || !s.Part.IsPositive() {
				return false
			}
			sum = sum.Add(s.Part)
		}
		return sum.Equal(util.FractionInt(1))
	case voting.PROPOSAL_TYPE_TRANSACTION_FEE, voting.PROPOSAL_TYPE_BURN_ON_REVOKE, voting.PROPOSAL_TYPE_VALIDATOR, voting.PROPOSAL_TYPE_VALIDATOR_BONUS,
		voting.PROPOSAL_TYPE_SUBSCRIPTION_BONUS, voting.PROPOSAL_TYPE_VPN_BONUS, voting.PROPOSAL_TYPE_STORAGE_BONUS:
		return p.GetPortion() != nil && unit(p.GetPortion().Fraction, false)
	case voting.PROPOSAL_TYPE_TRANSACTION_FEE_SPLIT_RATIOS:
		f := p.GetPortions()
		return f != nil && len(f.Fractions) >= 2 && unit(f.Fractions[0], true) && unit(f.Fractions[1], true) && f.Fractions[0].Add(f.Fractions[1]).LTE(util.FractionInt(1))
	case voting.PROPOSAL_TYPE_ACCRUE_PERCENTAGE_TABLE:
		t := p.GetAccruePercentageTable()
		if t == nil || len(t.AccruePercentageTable) == 0 {
			return false
		}
		for i, r := range t.AccruePercentageTable {
			if i == 0 && r.Start != 0 || i > 0 && r.Start <= t.AccruePercentageTable[i-1].Start {
				return false
			}
			if len(r.PercentList) != 5 {
				return false
			}
			for _, q := range r.PercentList {
				if q.IsNegative() {
					return false
				}
			}
		}
		return true
	case voting.PROPOSAL_TYPE_REVOKE, voting.PROPOSAL_TYPE_EXPRESS_REVOKE:
		r := p.GetRevoke()
		return r != nil && r.Revoke.Period >= 1 && !r.Revoke.Burn.IsNegative() && r.Revoke.Burn.LTE(util.FractionInt(1))
	case voting.PROPOSAL_TYPE_REVOKE_PERIOD:
		return p.GetPeriod() != nil && p.GetPeriod().Days > 0
	case voting.PROPOSAL_TYPE_VALIDATOR_MINIMAL_STATUS:
		return p.GetStatus() != nil
	case voting.PROPOSAL_TYPE_DELEGATION_AWARD:
		return p.GetDelegationAward() != nil
	case voting.PROPOSAL_TYPE_DELEGATION_NETWORK_AWARD, voting.PROPOSAL_TYPE_PRODUCT_NETWORK_AWARD:
		return p.GetNetworkAward() != nil
	case voting.PROPOSAL_TYPE_ACCRUE_PERCENTAGE_RANGES:
		return p.GetAccruePercentageRanges() != nil
	case voting.PROPOSAL_TYPE_UNSPECIFIED:
		return false
	}
	_, err := sdk.AccAddressFromBech32(propAddr(p))
	return p.GetAddress() != nil && err == nil
}

func propAddr(p *voting.Proposal) string {
	if x := p.GetAddress(); x != nil {
		return x.Address
	}
	return ""
}

// postVote: every step against the model; settings change only as decided.
func postVote(pre, post *E, s *Step) error {
	m := post.M.(*voteModel)
	set := pre.settings()
	gov := append([]string{}, set.gov...)
	expect := false
	switch v := s.Msg.(type) {
	case nil:
		// what was due
		if m.prop != nil && !m.prop.EndTime.After(post.t) {
			// the end is the last moment: whoever has not voted does not agree
			m.end(post, set, gov)
		}
		if m.poll != nil && !m.poll.EndTime.After(post.t) {
			yes, no := m.counts()
			d := voting.DECISION_UNSPECIFIED
			if q := m.poll.Quorum; q != nil {
				d = voting.DECISION_NEGATIVE
				// yes/(yes+no) >= quorum, with at least one
				if r, ok := new(big.Rat).SetString(ratOf(q.String())); ok && yes > 0 && big.NewRat(int64(yes), int64(yes+no)).Cmp(r) >= 0 {
					d = voting.DECISION_POSITIVE
				}
			}
			m.pollHist = append(m.pollHist, pollHistStr(m.poll, yes, no, d))
			m.poll, m.answers = nil, map[string]bool{}
		}
	case *voting.MsgPropose:
		expect = wellFormed(&v.Proposal) && m.prop == nil && isIn(gov, v.Proposal.Author)
		if expect {
			p := v.Proposal
			t := post.t.Add(time.Duration(set.vote.VotingPeriod) * time.Hour)
			p.EndTime = &t
			m.prop, m.yes, m.no, m.started = &p, []string{p.Author}, nil, post.h
			if len(gov) == 1 {
				m.end(post, set, gov)
			}
		}
	case *voting.MsgVote:
		expect = m.prop != nil && isIn(gov, v.Voter) && !isIn(m.yes, v.Voter) && !isIn(m.no, v.Voter)
		if expect {
			if v.Agree {
				m.yes = append(m.yes, v.Voter)
			} else {
				m.no = append(m.no, v.Voter)
			}
			if len(m.yes)+len(m.no) == len(gov) {
				m.end(post, set, gov)
			}
		}
	case *voting.MsgStartPoll:
		p := v.Poll
		ok := len(p.Name)+len(p.Question) > 0 && p.StartTime == nil && p.EndTime == nil
		if p.Quorum != nil && (p.Quorum.IsNegative() || p.Quorum.GT(util.FractionInt(1))) {
			ok = false
		}
		if r, is := p.Requirements.(*voting.Poll_MinStatus); is && (r.MinStatus < 1 || r.MinStatus > 10) {
			ok = false
		}
		expect = ok && m.poll == nil && isIn(gov, p.Author)
		if expect {
			f, t := post.t, post.t.Add(time.Duration(set.vote.PollPeriod)*time.Hour)
			p.StartTime, p.EndTime = &f, &t
			m.poll, m.answers = &p, map[string]bool{}
		}
	case *voting.MsgAnswerPoll:
		_, again := m.answers[v.Respondent]
		expect = m.poll != nil && !again && canAnswer(pre, m.poll, v.Respondent)
		if expect {
			m.answers[v.Respondent] = v.Yes
		}
	default:
		// something else happens in between
		return checkVoteState(post, m)
	}
	if s.Msg != nil && expect != (s.Err == nil) {
		return fmt.Errorf("accepted: expected %v, got %v (%v)", expect, s.Err == nil, s.Err)
	}
	if err := checkVoteState(post, m); err != nil {
		return err
	}
	if s.Msg == nil {
		// validators and stakes live on in blocks
		set.nodes = post.nodes()
	}
	if d := diffLines(set.lines(), post.settings().lines()); d != "" {
		return fmt.Errorf("settings: %s", d)
	}
	if s.Msg == nil {
		return nil
	}
	for i, n := range pre.names {
		switch n {
		case voting.StoreKey, schedule.StoreKey, "params", upgrade.StoreKey, noding.StoreKey, noding.IdxStoreKey:
			continue
		}
		if pre.trans[i] {
			continue
		}
		if x, y := pre.st[i].cur.digest(), post.st[i].cur.digest(); x != y {
			return fmt.Errorf("the data of %s changed", n)
		}
	}
	return nil
}

// ---- steps

func mPropose(by, what string, p voting.Proposal) sop {
	p.Author = A(by)
	if p.Name == "" {
		p.Name = what
	}
	return sop{name: fmt.Sprintf("propose(%s,%s)", by, what), msg: &voting.MsgPropose{Proposal: p}}
}
func mVote(by string, yes bool) sop {
	return sop{name: fmt.Sprintf("vote(%s,%v)", by, yes), msg: &voting.MsgVote{Voter: A(by), Agree: yes}}
}
func mPoll(by, what string, p voting.Poll) sop {
	p.Author, p.Name = A(by), what
	return sop{name: fmt.Sprintf("poll(%s,%s)", by, what), msg: &voting.MsgStartPoll{Poll: p}}
}
func mAnswer(by string, yes bool) sop {
	return sop{name: fmt.Sprintf("answer(%s,%v)", by, yes), msg: &voting.MsgAnswerPoll{Respondent: A(by), Yes: yes}}
}

func pAddr(t voting.ProposalType, a string) voting.Proposal {
	return voting.Proposal{Type: t, Args: &voting.Proposal_Address{Address: &voting.AddressArgs{Address: A(a)}}}
}
func pPrice(t voting.ProposalType, n uint32) voting.Proposal {
	return voting.Proposal{Type: t, Args: &voting.Proposal_Price{Price: &voting.PriceArgs{Price: n}}}
}
func pMin(t voting.ProposalType, n int64) voting.Proposal {
	return voting.Proposal{Type: t, Args: &voting.Proposal_MinAmount{MinAmount: &voting.MinAmountArgs{MinAmount: n}}}
}
func pCount(t voting.ProposalType, n uint32) voting.Proposal {
	return voting.Proposal{Type: t, Args: &voting.Proposal_Count{Count: &voting.CountArgs{Count: n}}}
}
func pPortion(t voting.ProposalType, f util.Fraction) voting.Proposal {
	return voting.Proposal{Type: t, Args: &voting.Proposal_Portion{Portion: &voting.PortionArgs{Fraction: f}}}
}
func pSplit(f ...util.Fraction) voting.Proposal {
	return voting.Proposal{Type: voting.PROPOSAL_TYPE_TRANSACTION_FEE_SPLIT_RATIOS, Args: &voting.Proposal_Portions{Portions: &voting.PortionsArgs{Fractions: f}}}
}
func pUpgrade(name string, t *time.Time, h int64) voting.Proposal {
	return voting.Proposal{Type: voting.PROPOSAL_TYPE_SOFTWARE_UPGRADE, Args: &voting.Proposal_SoftwareUpgrade{SoftwareUpgrade: &voting.SoftwareUpgradeArgs{Name: name, Info: "info of " + name, Time: t, Height: h}}}
}
func pCriteria(st referral.Status, self, total uint64) voting.Proposal {
	return voting.Proposal{Type: voting.PROPOSAL_TYPE_VALIDATOR_MINIMAL_CRITERIA, Args: &voting.Proposal_MinCriteria{MinCriteria: &voting.MinCriteriaArgs{MinCriteria: &noding.MinCriteria{Status: st, SelfStake: self, TotalStake: total}}}}
}
func pPower(lucky int64, s ...noding.Distribution_Slice) voting.Proposal {
	return voting.Proposal{Type: voting.PROPOSAL_TYPE_VOTING_POWER, Args: &voting.Proposal_VotingPower{VotingPower: &noding.Distribution{Slices: s, LuckiesVotingPower: lucky}}}
}
func pTable(t ...delegating.PercentageListRange) voting.Proposal {
	return voting.Proposal{Type: voting.PROPOSAL_TYPE_ACCRUE_PERCENTAGE_TABLE, Args: &voting.Proposal_AccruePercentageTable{AccruePercentageTable: &voting.AccruePercentageTableArgs{AccruePercentageTable: t}}}
}
func pRevoke(t voting.ProposalType, days uint32, burn util.Fraction) voting.Proposal {
	return voting.Proposal{Type: t, Args: &voting.Proposal_Revoke{Revoke: &voting.RevokeArgs{Revoke: &delegating.Revoke{Period: days, Burn: burn}}}}
}

type namedProp struct {
	name string
	p    voting.Proposal
}

// allProposals: every kind, with proper, refused and ineffective values.
func allProposals() []namedProp {
	var r []namedProp
	add := func(name string, p voting.Proposal) { r = append(r, namedProp{name, p}) }
	F := util.NewFraction
	far, past := t0.Add(9000*Day), t0.Add(-Day)
	for _, x := range []struct {
		n string
		t voting.ProposalType
	}{{"price", voting.PROPOSAL_TYPE_ENTER_PRICE}, {"vpn-price", voting.PROPOSAL_TYPE_PRODUCT_VPN_BASE_PRICE}, {"storage-price", voting.PROPOSAL_TYPE_PRODUCT_STORAGE_BASE_PRICE}, {"transition-price", voting.PROPOSAL_TYPE_TRANSITION_PRICE}} {
		add(x.n+"=77", pPrice(x.t, 77))
		add(x.n+"=0", pPrice(x.t, 0))
	}
	for _, x := range []struct {
		n string
		t voting.ProposalType
	}{{"min-send", voting.PROPOSAL_TYPE_MIN_SEND}, {"min-delegate", voting.PROPOSAL_TYPE_MIN_DELEGATE}, {"dust", voting.PROPOSAL_TYPE_DUST_DELEGATION}, {"max-fee", voting.PROPOSAL_TYPE_MAX_TRANSACTION_FEE}} {
		add(x.n+"=4321", pMin(x.t, 4321))
		add(x.n+"=0", pMin(x.t, 0))
		if x.n != "min-send" {
			add(x.n+"=-1", pMin(x.t, -1))
		}
	}
	for _, x := range []struct {
		n string
		t voting.ProposalType
	}{{"max-validators", voting.PROPOSAL_TYPE_MAX_VALIDATORS}, {"lucky-validators", voting.PROPOSAL_TYPE_LUCKY_VALIDATORS}, {"jail-after", voting.PROPOSAL_TYPE_JAIL_AFTER}} {
		add(x.n+"=6", pCount(x.t, 6))
		add(x.n+"=0", pCount(x.t, 0))
	}
	for _, l := range lists {
		for _, a := range []string{"x", "oper"} {
			add(l.name+"+"+a, pAddr(l.add, a))
			add(l.name+"-"+a, pAddr(l.drop, a))
		}
	}
	add("staff+b", pAddr(voting.PROPOSAL_TYPE_STAFF_VALIDATOR_ADD, "b"))
	add("staff-v", pAddr(voting.PROPOSAL_TYPE_STAFF_VALIDATOR_REMOVE, "v"))
	add("staff-a", pAddr(voting.PROPOSAL_TYPE_STAFF_VALIDATOR_REMOVE, "a"))
	add("amnesty", voting.Proposal{Type: voting.PROPOSAL_TYPE_GENERAL_AMNESTY})
	add("upgrade", pUpgrade("up1", &far, 0))
	add("upgrade-past", pUpgrade("up2", &past, 0))
	add("upgrade-height", pUpgrade("up3", &far, 9000))
	add("upgrade-never", pUpgrade("up4", nil, 0))
	add("cancel-upgrade", voting.Proposal{Type: voting.PROPOSAL_TYPE_CANCEL_SOFTWARE_UPGRADE})
	add("criteria", pCriteria(3, 500, 700))
	add("criteria-bad", pCriteria(3, 700, 500))
	add("power", pPower(3, noding.Distribution_Slice{Part: F(1, 3), VotingPower: 9}, noding.Distribution_Slice{Part: F(2, 3), VotingPower: 4}))
	add("power-bad", pPower(3, noding.Distribution_Slice{Part: F(1, 3), VotingPower: 9}))
	add("fee=1/100", pPortion(voting.PROPOSAL_TYPE_TRANSACTION_FEE, F(1, 100)))
	add("fee=1", pPortion(voting.PROPOSAL_TYPE_TRANSACTION_FEE, F(1, 1)))
	add("split=1/4,1/2", pSplit(F(1, 4), F(1, 2)))
	add("split=1/2,2/3", pSplit(F(1, 2), F(2, 3)))
	add("split=1/2", pSplit(F(1, 2)))
	pc := func(n ...int64) (r []util.Fraction) {
		for _, x := range n {
			r = append(r, util.Percent(x))
		}
		return
	}
	add("table", pTable(delegating.PercentageListRange{Start: 0, PercentList: pc(1, 0, 2, 3, 4)}, delegating.PercentageListRange{Start: 500, PercentList: pc(9, 8, 7, 6, 5)}))
	add("table from 5", pTable(delegating.PercentageListRange{Start: 5, PercentList: pc(1, 0, 2, 3, 4)}))
	add("table of 4", pTable(delegating.PercentageListRange{Start: 0, PercentList: pc(1, 0, 2, 3)}))
	add("table twice", pTable(delegating.PercentageListRange{Start: 0, PercentList: pc(1, 0, 2, 3, 4)}, delegating.PercentageListRange{Start: 0, PercentList: pc(1, 0, 2, 3, 4)}))
	add("table negative", pTable(delegating.PercentageListRange{Start: 0, PercentList: pc(1, 0, 2, -3, 4)}))
	for _, x := range []struct {
		n string
		t voting.ProposalType
	}{{"revoke", voting.PROPOSAL_TYPE_REVOKE}, {"express", voting.PROPOSAL_TYPE_EXPRESS_REVOKE}} {
		add(x.n+"=9d,1/8", pRevoke(x.t, 9, F(1, 8)))
		add(x.n+"=0d", pRevoke(x.t, 0, F(1, 8)))
		add(x.n+"=burn 9/8", pRevoke(x.t, 3, F(9, 8)))
	}
	// no longer in use
	add("old award", voting.Proposal{Type: voting.PROPOSAL_TYPE_DELEGATION_AWARD, Args: &voting.Proposal_DelegationAward{DelegationAward: &voting.DelegationAwardArgs{Award: delegating.Percentage{Minimal: 1, ThousandPlus: 2, TenKPlus: 3, HundredKPlus: 4}}}})
	add("old revoke period", voting.Proposal{Type: voting.PROPOSAL_TYPE_REVOKE_PERIOD, Args: &voting.Proposal_Period{Period: &voting.PeriodArgs{Days: 3}}})
	add("old minimal status", voting.Proposal{Type: voting.PROPOSAL_TYPE_VALIDATOR_MINIMAL_STATUS, Args: &voting.Proposal_Status{Status: &voting.StatusArgs{Status: 2}}})
	add("old validator", pPortion(voting.PROPOSAL_TYPE_VALIDATOR, F(1, 2)))
	add("old vpn bonus", pPortion(voting.PROPOSAL_TYPE_VPN_BONUS, F(1, 2)))
	add("old burn on revoke", pPortion(voting.PROPOSAL_TYPE_BURN_ON_REVOKE, F(1, 2)))
	add("old ranges", voting.Proposal{Type: voting.PROPOSAL_TYPE_ACCRUE_PERCENTAGE_RANGES, Args: &voting.Proposal_AccruePercentageRanges{AccruePercentageRanges: &voting.AccruePercentageRangesArgs{AccruePercentageRanges: []delegating.PercentageRange{{Start: 0, Percent: util.Percent(9)}}}}})
	// arguments of another kind
	add("mixed up", voting.Proposal{Type: voting.PROPOSAL_TYPE_MIN_SEND, Args: &voting.Proposal_Price{Price: &voting.PriceArgs{Price: 5}}})
	add("empty", voting.Proposal{Type: voting.PROPOSAL_TYPE_ENTER_PRICE})
	add("none", voting.Proposal{})
	return r
}

var lists = []struct {
	name      string
	add, drop voting.ProposalType
}{
	{"government", voting.PROPOSAL_TYPE_GOVERNMENT_ADD, voting.PROPOSAL_TYPE_GOVERNMENT_REMOVE},
	{"creators", voting.PROPOSAL_TYPE_FREE_CREATOR_ADD, voting.PROPOSAL_TYPE_FREE_CREATOR_REMOVE},
	{"rate-signers", voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_ADD, voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_REMOVE},
	{"vpn-signers", voting.PROPOSAL_TYPE_VPN_SIGNER_ADD, voting.PROPOSAL_TYPE_VPN_SIGNER_REMOVE},
	{"storage-signers", voting.PROPOSAL_TYPE_STORAGE_SIGNER_ADD, voting.PROPOSAL_TYPE_STORAGE_SIGNER_REMOVE},
	{"earning-signers", voting.PROPOSAL_TYPE_EARNING_SIGNER_ADD, voting.PROPOSAL_TYPE_EARNING_SIGNER_REMOVE},
	{"blocked", voting.PROPOSAL_TYPE_BLOCKED_SENDER_ADD, voting.PROPOSAL_TYPE_BLOCKED_SENDER_REMOVE},
}

func voteGen(n int) *Gen {
	g := nodGen(2, 1, 2, 3,
		Acc{Name: "a", Coins: 10 * artr, Deleg: 9000 * artr, Until: 300 * Day}, Acc{Name: "b", Coins: 10 * artr, Deleg: 2000 * artr, Until: 300 * Day},
		Acc{Name: "x", Coins: 10 * artr, Until: 300 * Day}, Acc{Name: "y", Coins: 10 * artr, Until: 300 * Day})
	v := genValidator("v", 0)
	a := genVal("a", 1, 99)
	a.Strokes, a.JailCount, a.Staff = 4, 2, true
	b := genVal("b", 2, 0)
	b.Jailed, b.UnjailAt, b.JailCount, b.SwitchedOn = true, 50, 1, true
	g.Nod.Active, g.Nod.NonActive = []noding.Validator{v, a}, []noding.Validator{b}
	g.Vote.Params = voting.Params{VotingPeriod: 10, PollPeriod: 7}
	for i := 0; i < n; i++ {
		m := fmt.Sprintf("g%d", i)
		g.Vote.Government = append(g.Vote.Government, A(m))
		g.Accs = append(g.Accs, Acc{Name: m, Parent: "v", Coins: artr, Until: 300 * Day})
	}
	return g
}

func famSolo() Fam {
	return Fam{
		Name: "solo", Depth: [2]int{2, 3},
		Note: "a government of one: every kind of proposal (with proper values, values that are not allowed, missing and mixed-up arguments, deprecated kinds) takes effect at once",
		Gen:  func() *Gen { return voteGen(1) },
		Ops: func(e *E) []sop {
			var r []sop
			for _, p := range allProposals() {
				r = append(r, mPropose("g0", p.name, p.p))
			}
			return append(r, mPropose("x", "min-send=5", pMin(voting.PROPOSAL_TYPE_MIN_SEND, 5)), blk(time.Hour))
		},
	}
}

func famPair() Fam {
	return Fam{
		Name: "pair", Depth: [2]int{3, 4},
		Note: "a government of two: every kind of proposal, then the other's agreement, disagreement or silence until the end",
		Gen:  func() *Gen { return voteGen(2) },
		Ops: func(e *E) []sop {
			if propOpen(e) {
				return []sop{mVote("g1", true), mVote("g1", false), mVote("g0", true), blk(10 * time.Hour), mPropose("g1", "min-send=5", pMin(voting.PROPOSAL_TYPE_MIN_SEND, 5))}
			}
			var r []sop
			for _, p := range allProposals() {
				r = append(r, mPropose("g0", p.name, p.p))
			}
			return r
		},
	}
}

func famList(i int) Fam {
	l := lists[i]
	return Fam{
		Name: "list " + l.name, Depth: [2]int{4, 6},
		Note: "a government of one (which may remove itself): members of one list added and removed, repeatedly",
		Gen:  func() *Gen { return voteGen(1) },
		Ops: func(e *E) []sop {
			var r []sop
			for _, a := range []string{"x", "y", "oper", "g0"} {
				r = append(r, mPropose("g0", "+"+a, pAddr(l.add, a)), mPropose("g0", "-"+a, pAddr(l.drop, a)))
			}
			r = append(r, mVote("x", true), mVote("y", true), mVote("y", false))
			return r
		},
	}
}

func famGov(n int) Fam {
	if n > 3 {
		note := "all orders and patterns of votes, also by the author and repeated, proposals while one is open, the end of the period"
		if n > 4 {
			note = "all patterns of votes, in the order of the members, with gaps; the end of the period"
		}
		return Fam{
			Name: fmt.Sprintf("government of %d", n), Depth: [2]int{n + 1, n + 2}, Note: note,
			Gen: func() *Gen { return voteGen(n) },
			Ops: func(e *E) []sop {
				m := e.M.(*voteModel)
				r := []sop{blk(10 * time.Hour)}
				if m.prop == nil || n == 4 {
					r = append(r, mPropose("g1", "min-send=4321", pMin(voting.PROPOSAL_TYPE_MIN_SEND, 4321)))
				}
				last := -1
				for i := 0; i < n; i++ {
					if a := A(fmt.Sprintf("g%d", i)); i != 1 && (isIn(m.yes, a) || isIn(m.no, a)) {
						last = i
					}
				}
				for i := 0; i < n; i++ {
					if n == 4 || i > last {
						r = append(r, mVote(fmt.Sprintf("g%d", i), true), mVote(fmt.Sprintf("g%d", i), false))
					}
				}
				return r
			},
		}
	}
	return Fam{
		Name: fmt.Sprintf("government of %d", n), Depth: [2]int{4, 6},
		Note: "all orders and patterns of votes, also by the author, by strangers and twice, further proposals while one is open, blocks before, at and after the end",
		Gen:  func() *Gen { return voteGen(n) },
		Ops: func(e *E) []sop {
			r := []sop{mPropose("g0", "min-send=4321", pMin(voting.PROPOSAL_TYPE_MIN_SEND, 4321)), mPropose("g1", "government-g0", pAddr(voting.PROPOSAL_TYPE_GOVERNMENT_REMOVE, "g0")),
				mPropose("x", "max-fee=1", pMin(voting.PROPOSAL_TYPE_MAX_TRANSACTION_FEE, 1)), mVote("x", true),
				blk(time.Hour), blk(10*time.Hour - time.Nanosecond), blk(10 * time.Hour), blk(30 * time.Hour)}
			for i := 0; i < n; i++ {
				r = append(r, mVote(fmt.Sprintf("g%d", i), true), mVote(fmt.Sprintf("g%d", i), false))
			}
			return r
		},
	}
}

func propOpen(e *E) bool {
	if m, ok := e.M.(*voteModel); ok {
		return m.prop != nil
	}
	return e.raw(voting.StoreKey, voting.KeyCurrentVote) != nil
}

func pollOpen(e *E) bool {
	if m, ok := e.M.(*voteModel); ok {
		return m.poll != nil
	}
	return e.raw(voting.StoreKey, append(append([]byte{}, voting.KeyPollPrefix...), voting.KeyPollCurrent...)) != nil
}

// famReform: the government changing itself.
func famReform() Fam {
	return Fam{
		Name: "reform", Depth: [2]int{6, 8},
		Note: "the government adding and removing members, itself too; the next proposals are decided by the new one",
		Gen:  func() *Gen { return voteGen(2) },
		Ops: func(e *E) []sop {
			r := []sop{}
			if !propOpen(e) {
				for _, a := range []string{"g0", "x"} {
					r = append(r, mPropose("g0", "+"+a, pAddr(voting.PROPOSAL_TYPE_GOVERNMENT_ADD, a)), mPropose("g0", "-"+a, pAddr(voting.PROPOSAL_TYPE_GOVERNMENT_REMOVE, a)))
				}
				r = append(r, mPropose("x", "-g1", pAddr(voting.PROPOSAL_TYPE_GOVERNMENT_REMOVE, "g1")), mPropose("g1", "-g1", pAddr(voting.PROPOSAL_TYPE_GOVERNMENT_REMOVE, "g1")), mPropose("g1", "min-send=5", pMin(voting.PROPOSAL_TYPE_MIN_SEND, 5)))
				return append(r, mVote("x", true))
			}
			for _, a := range []string{"g0", "g1", "x"} {
				r = append(r, mVote(a, true), mVote(a, false))
			}
			return append(r, blk(10*time.Hour))
		},
	}
}

// ---- polls

func pollOf(q string, req int) voting.Poll {
	p := voting.Poll{Question: "?"}
	if q != "" {
		f, err := util.ParseFraction(q)
		if err != nil {
			panic(err)
		}
		p.Quorum = &f
	}
	switch {
	case req == -1:
		p.Requirements = &voting.Poll_CanValidate{CanValidate: &voting.Poll_Unit{}}
	case req > 0:
		p.Requirements = &voting.Poll_MinStatus{MinStatus: referral.Status(req)}
	}
	return p
}

func pollGen() *Gen {
	g := voteGen(2)
	g.Accs = append(g.Accs, Acc{Name: "z", Parent: "v", Banished: true, Coins: 10 * artr, Deleg: 0}, Acc{Name: "n", NoRef: true, NoProf: true, Coins: 10 * artr},
		Acc{Name: "l", Parent: "v", Coins: 3000 * artr, Deleg: 999 * artr, Until: 300 * Day, DowngradeAt: 2 * time.Hour, Status: referral.STATUS_CHAMPION})
	return g
}

func famPollKinds() Fam {
	return Fam{
		Name: "poll requirements", Depth: [2]int{4, 6},
		Note: "polls with every kind of requirement; answers by accounts that qualify as validators, that are staff, in each of several statuses, banished, unknown; accounts gaining and losing what is required in the meantime; wrong polls and authors",
		Gen:  pollGen,
		Ops: func(e *E) []sop {
			var r []sop
			if !pollOpen(e) {
				r = append(r, mPoll("g0", "all", pollOf("1/2", 0)), mPoll("g1", "validators", pollOf("1/2", -1)))
				for _, s := range []int{1, 2, 3, 4, 5} {
					r = append(r, mPoll("g0", fmt.Sprintf("status %d", s), pollOf("2/3", s)))
				}
				b := pollOf("3/2", 0)
				c := pollOf("1/2", 11)
				r = append(r, mPoll("g0", "quorum 3/2", b), mPoll("g0", "status 11", c), mPoll("x", "stranger", pollOf("1/2", 0)), mPoll("g0", "", voting.Poll{}))
				return append(r, mAnswer("a", true), blk(2*time.Hour))
			}
			for _, a := range []string{"v", "a", "b", "x", "z", "n", "l"} {
				r = append(r, mAnswer(a, true))
			}
			return append(r, mAnswer("a", false), mDelegate("l", artr+artr/2), mExpress("a", 8_500*artr), mPoll("g1", "all", pollOf("", 0)), blk(2*time.Hour), blk(7*time.Hour))
		},
	}
}

func famPollCounts() Fam {
	return Fam{
		Name: "poll counts", Depth: [2]int{6, 8},
		Note: "one poll after another, with quorums 0, 1/2, 2/3, 1 and none, answered by up to five accounts either way and again; blocks just before, at and after the end",
		Gen:  pollGen,
		Ops: func(e *E) []sop {
			var r []sop
			if m := e.M.(*voteModel); m.poll == nil {
				for _, q := range []string{"", "0", "1/2", "2/3", "1"} {
					if len(m.pollHist) > 0 && q != "1/2" {
						continue
					}
					r = append(r, mPoll("g0", "quorum "+q, pollOf(q, 0)))
				}
				return append(r, blk(time.Hour))
			}
			for _, a := range []string{"v", "a", "b", "x"} {
				r = append(r, mAnswer(a, true), mAnswer(a, false))
			}
			return append(r, blk(7*time.Hour-time.Nanosecond), blk(time.Nanosecond), blk(7*time.Hour))
		},
	}
}

// ratOf: the text form of a fraction, as big.Rat reads it.
func ratOf(s string) string {
	if strings.HasSuffix(s, "%") {
		return strings.TrimSuffix(s, "%") + "/100"
	}
	return s
}

func init() {
	register(&Check{ID: "C18", Quick: 75 * time.Second,
		Rule: "every sequence of the listed messages and blocks up to the depth; a reference model decides every proposal; after every step the open proposal, its votes, the history, the scheduled ending, every parameter of every module, the government, the upgrade plan and every validator record are compared with it, and all other data is compared with what it was",
		Scenarios: func(tier string) []*Scenario {
			d := deco{Init: initVote, Post: postVote}
			fs := []Fam{famSolo(), famPair(), famReform(), famGov(3), famGov(4), famGov(5), famGov(6)}
			for i := range lists {
				fs = append(fs, famList(i))
			}
			return famScenarios(tier, fs, d)
		}})
	register(&Check{ID: "C19", Quick: 75 * time.Second,
		Rule: "every sequence of the listed messages and blocks up to the depth; a reference model keeps the poll, who answered what and the history; after every step they are compared with the stored ones and with the answers of the queries",
		Scenarios: func(tier string) []*Scenario {
			return famScenarios(tier, []Fam{famPollKinds(), famPollCounts()}, deco{Init: initVote, Post: postVote})
		}})
}
