//go:build go1.22

package main

// C21 (who may do what) and C24 (earners' marks).

import (
	"fmt"
	"sort"
	"strings"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/util"
	bank "github.com/arterynetwork/artr/x/bank/types"
	delegating "github.com/arterynetwork/artr/x/delegating/types"
	earning "github.com/arterynetwork/artr/x/earning/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	voting "github.com/arterynetwork/artr/x/voting/types"
)

// owner: the account a message acts for, whose signature it needs.
func owner(msg sdk.Msg) string {
	switch m := msg.(type) {
	case *bank.MsgSend:
		return m.FromAddress
	case *bank.MsgBurn:
		return m.Account
	case *delegating.MsgDelegate:
		return m.Address
	case *delegating.MsgRevoke:
		return m.Address
	case *delegating.MsgExpressRevoke:
		return m.Address
	case *noding.MsgOn:
		return m.Account
	case *noding.MsgOff:
		return m.Account
	case *noding.MsgUnjail:
		return m.Account
	case *profile.MsgCreateAccount:
		return m.Creator
	case *profile.MsgUpdateProfile:
		return m.Address
	case *profile.MsgSetStorageCurrent:
		return m.Sender
	case *profile.MsgSetVpnCurrent:
		return m.Sender
	case *profile.MsgPayTariff:
		return m.Address
	case *profile.MsgBuyStorage:
		return m.Address
	case *profile.MsgGiveStorageUp:
		return m.Address
	case *profile.MsgBuyVpn:
		return m.Address
	case *profile.MsgSetRate:
		return m.Sender
	case *profile.MsgBuyImExtraStorage:
		return m.Address
	case *profile.MsgGiveUpImExtra:
		return m.Address
	case *profile.MsgProlongImExtra:
		return m.Address
	case *referral.MsgRequestTransition:
		return m.Subject
	case *referral.MsgResolveTransition:
		return m.Signer
	case *voting.MsgPropose:
		return m.Proposal.Author
	case *voting.MsgVote:
		return m.Voter
	case *voting.MsgStartPoll:
		return m.Poll.Author
	case *voting.MsgAnswerPoll:
		return m.Respondent
	case *earning.MsgSet:
		return m.Signer
	case *earning.MsgSetMultiple:
		return m.Signer
	}
	panic(fmt.Sprintf("message %T", msg))
}

// allowed: whether the account it acts for may have it done; sure: it must be accepted then.
func allowed(e *E, msg sdk.Msg) (may, sure bool) {
	s := e.settings()
	switch m := msg.(type) {
	case *bank.MsgSend:
		return !isIn(s.bank.BlockedSenders, m.FromAddress), false
	case *profile.MsgSetStorageCurrent:
		return isIn(s.prof.StorageSigners, m.Sender), true
	case *profile.MsgSetVpnCurrent:
		return isIn(s.prof.VpnSigners, m.Sender), true
	case *profile.MsgSetRate:
		return isIn(s.prof.TokenRateSigners, m.Sender), true
	case *earning.MsgSet:
		return isIn(s.earn.Signers, m.Signer), true
	case *earning.MsgSetMultiple:
		return isIn(s.earn.Signers, m.Signer), true
	case *voting.MsgPropose:
		return isIn(s.gov, m.Proposal.Author), false
	case *voting.MsgVote:
		return isIn(s.gov, m.Voter), false
	case *voting.MsgStartPoll:
		return isIn(s.gov, m.Poll.Author), false
	case *referral.MsgResolveTransition:
		i := e.mustTree().n[m.Subject]
		return i != nil && i.Referrer == m.Signer, i != nil && i.Transition != ""
	}
	return true, false
}

// mBy: the message signed by somebody, through both routers.
func mBy(by, what string, msg sdk.Msg) sop {
	return sop{name: fmt.Sprintf("%s signed by %s", what, by), do: func(e *E) error {
		pre, old := e.fork(), e.fork()
		err := e.Deliver(addr(by), msg)
		err2 := old.deliver(addr(by), msg, true)
		if (err == nil) != (err2 == nil) {
			return fmt.Errorf("as a service request: %v; through the handler of the module: %v", err, err2)
		}
		if x, y := e.snap().hash(nil), old.snap().hash(nil); x != y {
			return fmt.Errorf("a service request and the handler of the module lead to different states")
		}
		return judgeRights(pre, e, by, msg, err)
	}}
}

func judgeRights(pre, e *E, by string, msg sdk.Msg, err error) error {
	e.ctr.compared++
	var ss []string
	for _, s := range msg.GetSigners() {
		ss = append(ss, s.String())
	}
	if len(ss) != 1 || ss[0] != owner(msg) {
		return fmt.Errorf("it acts for %s, the signature of %s is asked for", nameOf(owner(msg)), listStr(ss))
	}
	may, sure := allowed(pre, msg)
	if A(by) != owner(msg) || !may {
		if err == nil {
			return fmt.Errorf("accepted from %s", by)
		}
	} else if sure && err != nil {
		return fmt.Errorf("refused: %v", err)
	}
	if err != nil {
		if pre.snap().hash(nil) != e.snap().hash(nil) {
			return fmt.Errorf("refused, yet something changed")
		}
		return nil
	}
	// what others have
	me := A(by)
	created, used := "", ""
	earners := map[string]bool{}
	rate := false
	switch m := msg.(type) {
	case *profile.MsgCreateAccount:
		created = m.Address
		p := pre.settings().prof
		if x := pre.mustLedger().get(me, U) - e.mustLedger().get(me, U); isIn(p.Creators, me) && x != 0 || !isIn(p.Creators, me) && x != int64(p.RenamePrice) {
			return fmt.Errorf("signing up cost %d; the price is %d, free of charge for %s", x, p.RenamePrice, listStr(p.Creators))
		}
	case *profile.MsgSetStorageCurrent:
		used = m.Address
	case *profile.MsgSetVpnCurrent:
		used = m.Address
	case *profile.MsgSetRate:
		rate = true
	case *earning.MsgSet:
		earners[m.Earner.Account] = true
	case *earning.MsgSetMultiple:
		for _, x := range m.Earners {
			earners[x.Account] = true
		}
	}
	lp, le := pre.mustLedger(), e.mustLedger()
	mods := map[string]bool{modAddr(e, util.SplittableFeeCollectorName): true, modAddr(e, "fee_collector"): true}
	for a := range lp {
		if a == me || mods[a] {
			continue
		}
		for _, d := range []string{U, D, R} {
			if le.get(a, d) < lp.get(a, d) {
				return fmt.Errorf("%s has lost %d %s", nameOf(a), lp.get(a, d)-le.get(a, d), d)
			}
		}
	}
	pp, pe := pre.profiles(), e.profiles()
	for a, x := range pe {
		if a == me || a == created {
			continue
		}
		w, g := profStr(pp[a]), profStr(x)
		if a == used {
			y := *pp[a]
			y.StorageCurrent, y.VpnCurrent = x.StorageCurrent, x.VpnCurrent
			w = profStr(&y)
		}
		if w != g {
			return fmt.Errorf("profile of %s: was %s, is %s", nameOf(a), w, g)
		}
	}
	for a, x := range pre.delegations() {
		if y := e.delegations()[a]; a != me && (y == nil || x.String() != y.String()) {
			return fmt.Errorf("delegation of %s: was %v, is %v", nameOf(a), x, y)
		}
	}
	ep, ee := pre.earners(), e.earners()
	for _, l := range []map[string]*earning.Timestamps{ep, ee} {
		for a := range l {
			if w, g := fmt.Sprint(ep[a]), fmt.Sprint(ee[a]); w != g && !earners[a] {
				return fmt.Errorf("earner %s: was %s, is %s", nameOf(a), w, g)
			}
		}
	}
	if _, ok := msg.(*voting.MsgPropose); !ok {
		sp, se := pre.settings(), e.settings()
		if rate {
			sp.prof.TokenRate = msg.(*profile.MsgSetRate).Value
		}
		np, ne := sp.nodes, se.nodes
		sp.nodes, se.nodes = nil, nil
		if d := diffLines(sp.lines(), se.lines()); d != "" {
			return fmt.Errorf("settings: %s", d)
		}
		for a, x := range np {
			if y := ne[a]; a != me && (y == nil || y.Staff != x.Staff || y.PubKey != x.PubKey) {
				return fmt.Errorf("validator %s: was %s, is %s", nameOf(a), nodeStr(x), nodeStr(y))
			}
		}
	}
	return nil
}

func profStr(p *profile.Profile) string {
	if p == nil {
		return "none"
	}
	bz, err := p.Marshal()
	if err != nil {
		panic(err)
	}
	return fmt.Sprintf("%x", bz)
}

// rosterMsgs: one or more of every message, acting for `a`.
func rosterMsgs(a string) []sop {
	t := t0.Add(5 * Day)
	prop := pMin(voting.PROPOSAL_TYPE_MIN_SEND, 4321)
	prop.Name, prop.Author = "p", A(a)
	poll := pollOf("1/2", 0)
	poll.Name, poll.Author = "q", A(a)
	other := "a"
	if a == "a" {
		other = "b"
	}
	_, key, _ := consKey(9)
	r := []sop{
		mSend(a, other, artr), mBurn(a, 1000), mDelegate(a, artr), mRevoke(a, artr), mExpress(a, artr),
		mRequest(a, "b"), mRequest("c", "b"), mApprove(a, "c"), mDecline(a, "c"),
		mPay(a, 5), mCreate(a, "new", "b", nil), mNick(a, "nick-"+a), mBuyStorage(a, 1), mGiveStorage(a, 1), mBuyVpn(a, 1), mBuyIm(a, 1), mGiveIm(a, 1), mProlongIm(a),
		mStorageUsed(a, "b", 7), mVpnUsed(a, "b", 7), mRate(a, 3, 2), mOff(a), mUnjail(a),
		{name: "on", msg: &noding.MsgOn{Account: A(a), PubKey: key}},
		{name: "propose", msg: &voting.MsgPropose{Proposal: prop}}, {name: "poll", msg: &voting.MsgStartPoll{Poll: poll}}, mVote(a, true), mAnswer(a, true),
		mEarner(a, "b", Day, 0),
		{name: "earners", msg: &earning.MsgSetMultiple{Signer: A(a), Earners: []earning.Earner{{Account: A("b"), Vpn: &t}, {Account: A("c"), Storage: &t}}}},
	}
	for i := range r {
		r[i].name = strings.TrimSuffix(r[i].name, " signed by "+a)
		if owner(r[i].msg) != A(a) && r[i].msg.(*referral.MsgRequestTransition) == nil {
			panic(r[i].name)
		}
	}
	return r
}

func rightsGen() *Gen {
	g := voteGen(1)
	g.Accs = append(g.Accs, Acc{Name: "c", Parent: "a", Coins: 20 * artr, Deleg: 20 * artr, Until: 300 * Day})
	for i := range g.Accs {
		switch g.Accs[i].Name {
		case "a", "b", "x", "y", "oper", "g0":
			g.Accs[i].Coins = 5000 * artr
		case "company":
			g.Accs[i].NoProf = false
		}
	}
	g.Prof.RenamePrice = 1_000_000
	g.Prof.Creators = []string{A("g0"), A("oper")}
	g.Prof.StorageSigners = []string{A("a")}
	g.Prof.VpnSigners = []string{A("b"), A("g0")}
	g.Prof.TokenRateSigners = []string{A("x")}
	g.Earn.Params.Signers = []string{A("y"), A("a")}
	g.Bank.BlockedSenders = []string{A("b")}
	return g
}

var everyone = []string{"a", "b", "x", "y", "g0", "oper"}

// famMessages: everybody signs every message, for themselves and for others.
func famMessages() Fam {
	return Fam{
		Name: "messages", Depth: [2]int{2, 3},
		Note: "every kind of message, for each of six accounts with different rights, signed by the account itself and by another one, through the message service and through the module's own handler",
		Gen:  rightsGen,
		Ops: func(e *E) []sop {
			var r []sop
			for i, a := range everyone {
				for _, o := range rosterMsgs(a) {
					r = append(r, mBy(a, o.name, o.msg), mBy(everyone[(i+1)%len(everyone)], o.name, o.msg))
				}
			}
			return r
		},
	}
}

// famRights: the lists change, the rights with them.
func famRights() Fam {
	return Fam{
		Name: "lists", Depth: [2]int{3, 4},
		Note: "decisions that add accounts to the lists and remove them; after every one, the messages each list is about and others, from everybody",
		Gen:  rightsGen,
		Ops: func(e *E) []sop {
			var r []sop
			for _, l := range lists {
				for _, a := range []string{"a", "x"} {
					r = append(r, mPropose("g0", l.name+"+"+a, pAddr(l.add, a)), mPropose("g0", l.name+"-"+a, pAddr(l.drop, a)))
				}
			}
			r = append(r, sop{name: "everybody tries", do: func(e *E) error {
				for _, a := range everyone {
					for _, o := range rosterMsgs(a) {
						switch o.msg.(type) {
						case *bank.MsgSend, *profile.MsgSetStorageCurrent, *profile.MsgSetVpnCurrent, *profile.MsgSetRate, *profile.MsgCreateAccount,
							*earning.MsgSet, *earning.MsgSetMultiple, *voting.MsgPropose, *voting.MsgStartPoll:
						default:
							continue
						}
						f := e.fork()
						if err := mBy(a, o.name, o.msg).do(f); err != nil {
							return fmt.Errorf("%s signed by %s: %w", o.name, a, err)
						}
						e.ctr.evals++
					}
				}
				return nil
			}})
			return r
		},
	}
}

// ---- C24

type markModel struct{ m map[string]earning.Timestamps }

func (m *markModel) Clone() Model {
	c := &markModel{map[string]earning.Timestamps{}}
	for k, v := range m.m {
		c.m[k] = v
	}
	return c
}
func (m *markModel) Key() string {
	var r []string
	for a, t := range m.m {
		r = append(r, a+markStr(t.Vpn, t.Storage))
	}
	sort.Strings(r)
	return strings.Join(r, ";")
}

func markStr(v, s *time.Time) string {
	f := func(t *time.Time) string {
		if t == nil {
			return "none"
		}
		return t.UTC().Format(time.RFC3339Nano)
	}
	return "vpn " + f(v) + ", storage " + f(s)
}

func initMarks(e *E) error {
	m := &markModel{map[string]earning.Timestamps{}}
	for a, t := range e.earners() {
		m.m[a] = *t
	}
	e.M = m
	return nil
}

func postMarks(pre, post *E, s *Step) error {
	m := post.M.(*markModel)
	post.ctr.compared++
	day := time.Duration(post.settings().sched.DayNanos)
	set := func(by string, l []earning.Earner) error {
		ok := isIn(pre.settings().earn.Signers, by) && len(l) > 0
		for _, x := range l {
			if _, err := sdk.AccAddressFromBech32(x.Account); err != nil {
				ok = false
			}
		}
		if ok != (s.Err == nil) {
			return fmt.Errorf("accepted: expected %v, got %v (%v)", ok, s.Err == nil, s.Err)
		}
		if ok {
			for _, x := range l {
				if x.Vpn == nil && x.Storage == nil {
					delete(m.m, x.Account)
				} else {
					m.m[x.Account] = earning.Timestamps{Vpn: x.Vpn, Storage: x.Storage}
				}
			}
		}
		for i, n := range pre.names {
			if n == earning.StoreKey || pre.trans[i] {
				continue
			}
			if pre.st[i].cur.digest() != post.st[i].cur.digest() {
				return fmt.Errorf("the data of %s changed", n)
			}
		}
		return nil
	}
	switch v := s.Msg.(type) {
	case *earning.MsgSet:
		if err := set(v.Signer, []earning.Earner{v.Earner}); err != nil {
			return err
		}
	case *earning.MsgSetMultiple:
		if err := set(v.Signer, v.Earners); err != nil {
			return err
		}
	}
	// over means gone, now or when it's looked at next time
	got := post.earners()
	over := func(t *time.Time) bool { return t != nil && !t.Add(2*day).After(post.t) }
	var all []string
	for a := range m.m {
		all = append(all, a)
	}
	for a := range got {
		if _, ok := m.m[a]; !ok {
			all = append(all, a)
		}
	}
	sort.Strings(all)
	for _, a := range all {
		w, g := m.m[a], earning.Timestamps{}
		if got[a] != nil {
			g = *got[a]
		}
		if g.Vpn == nil && over(w.Vpn) {
			w.Vpn = nil
		}
		if g.Storage == nil && over(w.Storage) {
			w.Storage = nil
		}
		if x, y := markStr(w.Vpn, w.Storage), markStr(g.Vpn, g.Storage); x != y {
			return fmt.Errorf("marks of %s: expected %s, got %s", nameOf(a), x, y)
		}
		if w.Vpn == nil && w.Storage == nil {
			delete(m.m, a)
		} else {
			m.m[a] = w
		}
	}
	// what is answered
	ctx := post.Ctx()
	want := func(a string) string { return nameOf(a) + ": " + markStr(m.m[a].Vpn, m.m[a].Storage) }
	ask := append([]string{A("x"), A("nobody")}, all...)
	var mr earning.GetMultipleResponse
	if err := post.queryCtx(ctx, "/artery.earning.v1beta1.Query/GetMultiple", &earning.GetMultipleRequest{Addresses: ask}, &mr); err != nil {
		return err
	}
	if len(mr.Earners) != len(ask) {
		return fmt.Errorf("asked about %d accounts, answered about %d", len(ask), len(mr.Earners))
	}
	for i, a := range ask {
		var gr earning.GetResponse
		if err := post.queryCtx(ctx, "/artery.earning.v1beta1.Query/Get", &earning.GetRequest{Address: a}, &gr); err != nil {
			return err
		}
		for _, x := range []earning.Earner{mr.Earners[i], gr.Earner} {
			if g := nameOf(x.Account) + ": " + markStr(x.Vpn, x.Storage); g != want(a) {
				return fmt.Errorf("query: expected %s, got %s", want(a), g)
			}
		}
	}
	n := int32(len(m.m))
	for lim := int32(1); lim <= n+1; lim++ {
		seen := map[string]int{}
		for p := int32(1); p <= n+1; p++ {
			var lr earning.ListResponse
			if err := post.queryCtx(ctx, "/artery.earning.v1beta1.Query/List", &earning.ListRequest{Page: p, Limit: lim}, &lr); err != nil {
				return err
			}
			if k := int32(len(lr.List)); k > lim || p*lim <= n && k != lim {
				return fmt.Errorf("page %d by %d of %d: %d earners", p, lim, n, k)
			}
			for _, x := range lr.List {
				seen[x.Account]++
				if g := nameOf(x.Account) + ": " + markStr(x.Vpn, x.Storage); g != want(x.Account) {
					return fmt.Errorf("list: expected %s, got %s", want(x.Account), g)
				}
			}
		}
		for a := range m.m {
			if seen[a] != 1 {
				return fmt.Errorf("%s is listed %d times, in pages of %d", nameOf(a), seen[a], lim)
			}
		}
		if len(seen) != len(m.m) {
			return fmt.Errorf("%d earners are listed, there are %d", len(seen), n)
		}
	}
	// what it's good for
	r := newRef(post)
	for _, a := range []string{"a", "b"} {
		var ar delegating.AccumulationResponse
		if err := post.queryCtx(ctx, "/artery.delegating.v1beta1.Query/Accumulation", &delegating.AccumulationRequest{AccAddress: A(a)}, &ar); err != nil {
			return fmt.Errorf("accumulation of %s: %w", a, err)
		}
		if w, g := r.percent(A(a)), rat(ar.PercentDaily); w.Cmp(g) != 0 {
			return fmt.Errorf("%s gets %v a day, expected %v", a, g, w)
		}
	}
	return nil
}

func mEarners(by, what string, l ...earning.Earner) sop {
	return sop{name: fmt.Sprintf("earners(%s by %s)", what, by), msg: &earning.MsgSetMultiple{Signer: A(by), Earners: l}}
}

func famMarks() Fam {
	return Fam{
		Name: "marks", Depth: [2]int{4, 5},
		Note: "marks set one by one and many at once, with repetitions, by the signers and by others, over and removed while the interest of two delegators is paid every day; all pages of all sizes",
		Gen: func() *Gen {
			g := newGen(Acc{Name: "a", Coins: 10 * artr, Deleg: 2000 * artr, Until: 300 * Day}, Acc{Name: "b", Parent: "a", Coins: 10 * artr, Deleg: 30000 * artr, Accrue: Day / 2})
			pc := func(n ...int64) (r []util.Fraction) {
				for _, x := range n {
					r = append(r, util.Percent(x))
				}
				return
			}
			g.Deleg.AccruePercentageTable = []delegating.PercentageListRange{{Start: 0, PercentList: pc(21, 1, 2, 4, 8)}, {Start: 10000 * artr, PercentList: pc(24, 3, 5, 11, 19)}}
			t1, t2 := t0.Add(-Day), t0.Add(-2*Day+time.Nanosecond)
			g.Earn.Earners = []earning.Earner{{Account: A("a"), Vpn: &t1}, {Account: A("z"), Storage: &t2}}
			g.Earn.Params.Signers = []string{A("oper"), A("b")}
			return g
		},
		Ops: func(e *E) []sop {
			E := func(a string, v, s time.Duration) earning.Earner {
				return earning.Earner{Account: A(a), Vpn: until(v), Storage: until(s)}
			}
			return []sop{
				mEarner("oper", "a", Day, 0), mEarner("b", "a", 0, Day), mEarner("oper", "a", 0, 0), mEarner("oper", "b", -Day, Day/2), mEarner("a", "a", 9*Day, 9*Day), mEarner("company", "b", 0, 0),
				mEarners("oper", "a twice, b", E("a", Day, Day), E("b", Day, 0), E("a", 0, 2*Day)), mEarners("b", "b off and on, nobody", E("b", 0, 0), E("nobody", Day, 0), E("b", 0, Day)),
				mEarners("oper", "all off", E("a", 0, 0), E("b", 0, 0), E("z", 0, 0), E("nobody", 0, 0)), mEarners("oper", "nothing"), mEarners("oper", "b and a wrong address", E("b", Day, Day), earning.Earner{Account: "artr1wrong"}),
				mEarners("a", "b by a stranger", E("b", Day, Day)),
				blk(Day / 2), blk(Day), blk(2*Day - time.Nanosecond),
			}
		},
	}
}

func init() {
	register(&Check{ID: "C21", Quick: 75 * time.Second,
		Rule: "every message signed by every account, in every state reached by the listed decisions and messages up to the depth: refused without any change unless the account it acts for signed it and is on the list at that moment; an accepted one takes nothing from others and changes nothing of theirs",
		Scenarios: func(tier string) []*Scenario {
			return famScenarios(tier, []Fam{famMessages(), famRights()}, deco{})
		}})
	register(&Check{ID: "C24", Quick: 75 * time.Second,
		Rule: "every sequence of the listed settings and blocks up to the depth; after every step the stored marks, all queries with all pages and the daily interest are compared with a reference",
		Scenarios: func(tier string) []*Scenario {
			return famScenarios(tier, []Fam{famMarks()}, deco{Init: initMarks, Post: postMarks})
		}})
}
