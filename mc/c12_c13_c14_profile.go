//go:build go1.22

package main

// C12 (nicknames and cards), C13 (subscriptions), C14 (quotas).

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/util"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
)

// ---- C12

// invNames: the answers of the look-ups against the profiles.
func invNames(e *E) error {
	ps := e.profiles()
	byNick, byCard := map[string]string{}, map[uint64]string{}
	ctx := e.Ctx()
	e.ctr.compared++
	var as []string
	for a := range ps {
		as = append(as, a)
	}
	sort.Strings(as)
	for _, a := range as {
		p := ps[a]
		if p.Nickname != "" {
			l := strings.ToLower(p.Nickname)
			if b, ok := byNick[l]; ok {
				return fmt.Errorf("%s and %s both have the nickname %q", nameOf(a), nameOf(b), p.Nickname)
			}
			byNick[l] = a
			for _, q := range []string{p.Nickname, l, strings.ToUpper(l)} {
				if strings.ToLower(q) != l {
					continue
				}
				var r profile.GetByNicknameResponse
				if err := e.queryCtx(ctx, "/artery.profile.v1beta1.Query/GetByNickname", &profile.GetByNicknameRequest{Nickname: q}, &r); err != nil {
					return fmt.Errorf("nickname %q of %s is not found: %v", q, nameOf(a), err)
				} else if r.Address != a || r.Profile.Nickname != p.Nickname {
					return fmt.Errorf("nickname %q of %s leads to %s", q, nameOf(a), nameOf(r.Address))
				}
			}
		}
		if p.CardNumber == 0 {
			return fmt.Errorf("%s has no card number", nameOf(a))
		}
		if b, ok := byCard[p.CardNumber]; ok {
			return fmt.Errorf("%s and %s both have the card number %d", nameOf(a), nameOf(b), p.CardNumber)
		}
		byCard[p.CardNumber] = a
		var r profile.GetByCardNumberResponse
		if err := e.queryCtx(ctx, "/artery.profile.v1beta1.Query/GetByCardNumber", &profile.GetByCardNumberRequest{CardNumber: p.CardNumber}, &r); err != nil {
			return fmt.Errorf("card number %d of %s is not found: %v", p.CardNumber, nameOf(a), err)
		} else if r.Address != a {
			return fmt.Errorf("card number %d of %s leads to %s", p.CardNumber, nameOf(a), nameOf(r.Address))
		}
	}
	// nothing else is found
	if err := e.each(profile.AliasStoreKey, func(k, v []byte) error {
		if byNick[string(k)] != sdk.AccAddress(v).String() {
			return fmt.Errorf("the nickname %q leads to %s, who does not have it", k, nameOf(sdk.AccAddress(v).String()))
		}
		return nil
	}); err != nil {
		return err
	}
	if err := e.each(profile.CardStoreKey, func(k, v []byte) error {
		if n := binary.BigEndian.Uint64(k); byCard[n] != sdk.AccAddress(v).String() {
			return fmt.Errorf("the card number %d leads to %s, who does not have it", n, nameOf(sdk.AccAddress(v).String()))
		}
		return nil
	}); err != nil {
		return err
	}
	for _, n := range famNickList {
		if byNick[strings.ToLower(n)] != "" {
			continue
		}
		var r profile.GetByNicknameResponse
		if err := e.queryCtx(ctx, "/artery.profile.v1beta1.Query/GetByNickname", &profile.GetByNicknameRequest{Nickname: n}, &r); err == nil {
			return fmt.Errorf("nobody has the nickname %q, it is found to be of %s", n, nameOf(r.Address))
		}
	}
	return nil
}

// nickAllowed: the documented form of a nickname.
func nickAllowed(s string) bool {
	if s == "" {
		return true
	}
	return len(s) >= 3 && !strings.ContainsAny(s, " */:'\"=[],.") && !strings.HasPrefix(strings.ToUpper(s), "ARTR-")
}

// postNames: nicknames and cards change only by their owner's request.
func postNames(pre, post *E, s *Step) error {
	p0, p1 := pre.profiles(), post.profiles()
	post.ctr.compared++
	for a, o := range p0 {
		n := p1[a]
		if n == nil {
			return fmt.Errorf("the profile of %s disappeared", nameOf(a))
		}
		if n.CardNumber != o.CardNumber {
			return fmt.Errorf("the card number of %s changed from %d to %d", nameOf(a), o.CardNumber, n.CardNumber)
		}
	}
	mustBe := func(a, nick string) error {
		for b, n := range p1 {
			w := ""
			if o := p0[b]; o != nil {
				w = o.Nickname
			}
			if b == a {
				w = nick
			}
			if n.Nickname != w {
				return fmt.Errorf("%s: the nickname of %s should be %q, is %q", s.Name, nameOf(b), w, n.Nickname)
			}
		}
		return nil
	}
	taken := func(nick, by string) bool {
		for b, o := range p0 {
			if b != by && nick != "" && strings.EqualFold(o.Nickname, nick) && strings.ToLower(o.Nickname) == strings.ToLower(nick) {
				return true
			}
		}
		return false
	}
	switch m := s.Msg.(type) {
	case *profile.MsgUpdateProfile:
		o := p0[m.Address]
		if o == nil {
			if s.Err == nil {
				return fmt.Errorf("%s was accepted for an account without a profile", s.Name)
			}
			return mustBe("", "")
		}
		nick, wellFormed := o.Nickname, true
		for _, u := range m.Updates {
			if u.Field == profile.MsgUpdateProfile_Update_FIELD_NICKNAME {
				nick = u.GetString_()
				wellFormed = wellFormed && nickAllowed(nick)
			}
		}
		ok := wellFormed && !taken(nick, m.Address)
		if nick != o.Nickname && nick != "" && pre.mustLedger().get(m.Address, U) < artr {
			ok = false
		}
		if ok != (s.Err == nil) {
			return fmt.Errorf("%s: accepted %v, expected %v (%v)", s.Name, s.Err == nil, ok, s.Err)
		}
		if ok {
			return mustBe(m.Address, nick)
		}
	case *profile.MsgCreateAccount:
		if s.Err == nil {
			if m.Profile == nil {
				return mustBe(m.Address, "")
			}
			nick := strings.TrimSpace(m.Profile.Nickname)
			if taken(nick, m.Address) || strings.HasPrefix(strings.ToUpper(nick), "ARTR-") {
				return fmt.Errorf("%s was accepted though the nickname is taken or reserved", s.Name)
			}
			return mustBe(m.Address, nick)
		}
	}
	return mustBe("", "")
}

var famNickList = []string{"bob", "BOB", "Bobby", "x1z", "\u212Aim", "kim", "\u0130ra", "alice", " bob ", "bob "}

func famNicks() Fam {
	return Fam{
		Name: "nicknames", Depth: [2]int{4, 5},
		Note: "three accounts and two newcomers taking, changing, giving up and contesting nicknames that are equal up to case, spaces or special letters, too short, reserved or malformed; sign-ups with a profile; too little money to rename",
		Gen: func() *Gen {
			return newGen(
				Acc{Name: "a", Coins: 100 * artr, Until: 300 * Day, Prof: profile.Profile{Nickname: "alice"}},
				Acc{Name: "b", Parent: "a", Coins: 2*artr + 500_000, Until: 300 * Day},
				Acc{Name: "c", Parent: "a", Coins: 20 * artr, Until: Day},
			)
		},
		Ops: func(e *E) []sop {
			pn := func(n string) *profile.Profile { return &profile.Profile{Nickname: n, CardNumber: 77} }
			r := []sop{
				mNick("a", "bob"), mNick("a", "BOB"), mNick("a", ""), mNick("b", "Bob"), mNick("b", ""), mNick("b", "Alice"), mNick("b", "artr-x"), mNick("b", "ARTR-x"),
				mNick("c", "\u212Aim"), mNick("a", "kim"), mNick("c", "bob "), mNick("c", "ab"), mNick("b", "Bobby"), mNick("n", "bobby"),
				mCreate("a", "n", "b", pn("Bob")), mCreate("a", "n", "b", pn(" bob ")), mCreate("oper", "n", "b", pn("Artr-9")), mCreate("oper", "n2", "c", pn("")), mCreate("a", "n2", "a", nil),
				mAutoPay("b", true), mSend("a", "n", 3*artr), blk(Day),
				mUpdate("b", "bob then Alice", uStr(profile.MsgUpdateProfile_Update_FIELD_NICKNAME, "bob"), uStr(profile.MsgUpdateProfile_Update_FIELD_NICKNAME, "Alice")),
				mUpdate("c", "x1z, autopay", uStr(profile.MsgUpdateProfile_Update_FIELD_NICKNAME, "x1z"), uBool(profile.MsgUpdateProfile_Update_FIELD_AUTO_PAY, true)),
			}
			return r
		},
	}
}

// ---- C13

func subMsg(m sdk.Msg) bool { _, ok := m.(*profile.MsgPayTariff); return ok }

func postSubscription(pre, post *E, s *Step) error {
	r, ok, known := expect(pre, post, s)
	if !ok {
		if known && subMsg(s.Msg) {
			return fmt.Errorf("%s: accepted %v, expected %v (%v)", s.Name, s.Err == nil, s.Err != nil, s.Err)
		}
		return nil
	}
	if s.Msg != nil && s.Err != nil {
		r = newRef(pre)
	}
	post.ctr.compared++
	sub := func(m map[string]*profile.Profile) string {
		var l []string
		for a, p := range m {
			u := "never"
			if p.ActiveUntil != nil {
				u = p.ActiveUntil.UTC().Format(time.RFC3339Nano)
			}
			l = append(l, fmt.Sprintf("%s until %s autopay %v", nameOf(a), u, p.AutoPay))
		}
		sort.Strings(l)
		return strings.Join(l, "; ")
	}
	if w, g := sub(r.prof), sub(post.profiles()); w != g {
		return fmt.Errorf("%s: subscriptions should be: %s, are: %s", s.Name, w, g)
	}
	if w, g := taskList(r.task, profile.RefreshHookName), taskList(post.tasks(), profile.RefreshHookName); w != g {
		return fmt.Errorf("%s: renewals should be scheduled as %s, are %s", s.Name, w, g)
	}
	if r.unsure == "" && r.minted == 0 && (subMsg(s.Msg) || s.Msg == nil) {
		if err := diffLedger(r.led, post.mustLedger()); err != nil {
			return fmt.Errorf("%s: %w", s.Name, err)
		}
	}
	// what the network sees
	for a, i := range post.mustTree().n {
		p := r.prof[a]
		on := p != nil && p.ActiveUntil != nil && p.ActiveUntil.After(post.t)
		if on && !i.Active {
			return fmt.Errorf("%s: %s has paid until %s and is not active", s.Name, nameOf(a), tstr(p.ActiveUntil))
		}
		if !on && i.Active && !(p != nil && p.ActiveUntil != nil && hasTask(post.tasks(), profile.RefreshHookName, payload(a), *p.ActiveUntil)) {
			return fmt.Errorf("%s: %s is active though paid only until %s", s.Name, nameOf(a), tstr(p.ActiveUntil))
		}
	}
	return nil
}

func famSubs() Fam {
	return Fam{
		Name: "subscriptions", Depth: [2]int{5, 6},
		Note: "accounts with and without consent to automatic payment and with just enough money or one unit less, paying by hand in advance, when due and late, the rate changing, sign-ups with profile data; blocks to, just before and long after the expiry",
		Gen: func() *Gen {
			g := newGen(
				Acc{Name: "v", Coins: 5000 * artr, Until: 400 * Day},
				Acc{Name: "a", Parent: "v", Coins: 500 * artr, Until: 2 * Day, Prof: profile.Profile{AutoPay: true}},
				Acc{Name: "b", Parent: "a", Coins: 199 * artr, Until: 2 * Day, Prof: profile.Profile{AutoPay: true}},
				Acc{Name: "d", Parent: "b", Coins: 199*artr - 1, Until: 2 * Day, Prof: profile.Profile{AutoPay: true, StorageLimit: 5 * GB}},
				Acc{Name: "x", Parent: "v", Coins: 500 * artr, Banished: true},
			)
			g.Nod.Active = []noding.Validator{genValidator("v", 0)}
			g.Nod.Params.MinCriteria = noding.MinCriteria{Status: 1}
			return g
		},
		Ops: func(e *E) []sop {
			act := t0.Add(300 * Day)
			return []sop{
				mPay("a", 0), mPay("a", 6), mPay("b", 0), mPay("d", 0), mPay("x", 0), mPay("v", 4),
				mAutoPay("a", false), mAutoPay("a", true), mSend("v", "d", 250*artr), mRate("oper", 1, 2), mRate("oper", 70000, 1), govPrices(398, 20, 30),
				mCreate("v", "n", "a", &profile.Profile{Nickname: "nnn", ActiveUntil: &act, StorageLimit: 99 * GB, VpnLimit: 99 * GB, ImLimitExtra: 9, ExtraImUntil: &act, AutoPay: true}),
				blk(2 * Day), blk(2*Day - 1), blk(30 * Day), blk(65 * Day), {name: "block(v,+10s)", blk: &BlockIn{Dt: 10 * time.Second, Proposer: proposerOf(0)}},
			}
		},
	}
}

func mRate(by string, n, d int64) sop {
	return sop{name: fmt.Sprintf("rate(%d/%d by %s)", n, d, by), msg: &profile.MsgSetRate{Sender: A(by), Value: util.NewFraction(n, d)}}
}

// ---- C14

func quotaMsg(m sdk.Msg) bool {
	switch m.(type) {
	case *profile.MsgBuyStorage, *profile.MsgBuyVpn, *profile.MsgBuyImExtraStorage, *profile.MsgGiveStorageUp, *profile.MsgGiveUpImExtra,
		*profile.MsgProlongImExtra, *profile.MsgSetStorageCurrent, *profile.MsgSetVpnCurrent, *profile.MsgPayTariff:
		return true
	}
	return false
}

func postQuotas(pre, post *E, s *Step) error {
	r, ok, known := expect(pre, post, s)
	if !ok {
		if known && quotaMsg(s.Msg) {
			return fmt.Errorf("%s: accepted %v, expected %v (%v)", s.Name, s.Err == nil, s.Err != nil, s.Err)
		}
		return nil
	}
	if s.Msg != nil && s.Err != nil {
		r = newRef(pre)
	}
	post.ctr.compared++
	q := func(m map[string]*profile.Profile) string {
		var l []string
		for a, p := range m {
			im := "none"
			if p.ExtraImUntil != nil {
				im = p.ExtraImUntil.UTC().Format(time.RFC3339Nano)
			}
			l = append(l, fmt.Sprintf("%s storage %d/%d vpn %d/%d messenger %d until %s renewed %v", nameOf(a), p.StorageCurrent, p.StorageLimit, p.VpnCurrent, p.VpnLimit, p.ImLimitExtra, im, p.AutoPayImExtra))
		}
		sort.Strings(l)
		return strings.Join(l, "; ")
	}
	if w, g := q(r.prof), q(post.profiles()); w != g {
		return fmt.Errorf("%s: quotas should be: %s, are: %s", s.Name, w, g)
	}
	if w, g := taskList(r.task, profile.RefreshImHookName), taskList(post.tasks(), profile.RefreshImHookName); w != g {
		return fmt.Errorf("%s: renewals should be scheduled as %s, are %s", s.Name, w, g)
	}
	if r.unsure == "" && r.minted == 0 && (quotaMsg(s.Msg) || s.Msg == nil) {
		if err := diffLedger(r.led, post.mustLedger()); err != nil {
			return fmt.Errorf("%s: %w", s.Name, err)
		}
	}
	return nil
}

func famQuotas() Fam {
	return Fam{
		Name: "storage and VPN", Depth: [2]int{4, 5},
		Note: "purchases, give-ups and tariff payments around the limits and the usage, by active and inactive accounts, with usage reports in between and blocks into, to and past the end of the month",
		Gen: func() *Gen {
			return newGen(
				Acc{Name: "a", Coins: 700 * artr, Until: 10 * Day, Prof: profile.Profile{StorageLimit: 9 * GB, StorageCurrent: 6 * GB, VpnLimit: 9 * GB, VpnCurrent: 8 * GB, AutoPay: true}},
				Acc{Name: "b", Parent: "a", Coins: 700 * artr, Until: -Day, CompressAt: 59 * Day, Prof: profile.Profile{StorageLimit: 9 * GB, StorageCurrent: 7 * GB, VpnLimit: 12 * GB}},
				Acc{Name: "c", Parent: "a", Coins: 300 * artr, Until: 10 * Day},
			)
		},
		Ops: func(e *E) []sop {
			return []sop{
				mBuyStorage("a", 3), mBuyStorage("c", 1), mBuyStorage("b", 1), mBuyVpn("a", 4), mBuyVpn("b", 1),
				mGiveStorage("a", 6), mGiveStorage("a", 5), mGiveStorage("b", 0), mGiveStorage("c", 5),
				mPay("a", 0), mPay("a", 7), mPay("a", 12), mPay("b", 0), mPay("b", 7), mPay("b", 6), mPay("b", 12), mPay("b", 1_717_986_924), mPay("c", 5),
				mStorageUsed("oper", "a", 9*GB), mStorageUsed("oper", "a", 5*GB), mVpnUsed("oper", "a", 2*GB), mVpnUsed("oper", "b", 11*GB), mVpnUsed("a", "a", 0),
				blk(10 * Day), blk(17*Day + 7*time.Hour), blk(30 * Day),
			}
		},
	}
}

func famMessenger() Fam {
	return Fam{
		Name: "messenger", Depth: [2]int{5, 7},
		Note: "messenger space bought, extended, given up, prolonged by hand and automatically with and without money, blocks to, before and past its end",
		Gen: func() *Gen {
			return newGen(
				Acc{Name: "a", Coins: 100 * artr, Until: 400 * Day, ImUntil: 10 * Day, Prof: profile.Profile{ImLimitExtra: 3, AutoPayImExtra: true}},
				Acc{Name: "b", Parent: "a", Coins: 2*artr + 999_999, Until: 400 * Day, ImUntil: 20 * Day, Prof: profile.Profile{ImLimitExtra: 3, AutoPayImExtra: true}},
				Acc{Name: "c", Parent: "a", Coins: 10 * artr, Until: -5 * Day},
			)
		},
		Ops: func(e *E) []sop {
			return []sop{
				mBuyIm("a", 2), mBuyIm("b", 1), mBuyIm("c", 1), mGiveIm("a", 1), mGiveIm("a", 0), mGiveIm("b", 0), mGiveIm("c", 0), mProlongIm("a"), mProlongIm("b"), mProlongIm("c"),
				mAutoPayIm("a", false), mAutoPayIm("c", true), mSend("a", "b", 3*artr),
				blk(10 * Day), blk(10*Day - 1), blk(20 * Day), blk(45 * Day),
			}
		},
	}
}

// famOverdue: more than a month without blocks.
func famOverdue() Fam {
	f := famMessenger()
	f.Name, f.Note, f.Depth = "messenger overdue", "two months without blocks, so that automatic renewals are behind the time of the block, with purchases before they have caught up", [2]int{4, 5}
	ops := f.Ops
	f.Ops = func(e *E) []sop {
		return append(ops(e), blk(75*Day), blk(time.Second))
	}
	return f
}

func init() {
	fams := func(id string, d deco, rule string, f func() []Fam) {
		register(&Check{ID: id, Quick: 90 * time.Second, Rule: rule,
			Scenarios: func(tier string) []*Scenario { return famScenarios(tier, f(), d) }})
	}
	fams("C12", deco{Inv: invNames, Post: postNames}, "every sequence of the listed messages and blocks up to the depth; in every state every nickname and card number is looked up through the queries and both indexes are compared with the profiles; every answer to a request is compared with the rules",
		func() []Fam { return []Fam{famNicks().to(6, 8), famShop().to(3, 5)} })
	fams("C13", deco{Post: postSubscription}, "every sequence of the listed messages and blocks up to the depth; after every step the subscriptions of all accounts, their renewals, activity and what was paid to whom are compared with the reference simulator's",
		func() []Fam {
			return []Fam{famSubs().to(4, 6), famShop().to(3, 5), famTimers().to(5, 7), famLife().to(3, 5)}
		})
	fams("C14", deco{Post: postQuotas}, "every sequence of the listed messages and blocks up to the depth; after every step the quotas of all accounts, their renewals and what was paid to whom are compared with the reference simulator's",
		func() []Fam {
			return []Fam{famQuotas(), famQuotas().plus("prices changing", govPrices(100, 25, 3)).to(3, 5), famMessenger(), famOverdue(), famShop().to(3, 5), famSubs().to(3, 5)}
		})
}
