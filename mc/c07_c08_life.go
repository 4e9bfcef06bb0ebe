//go:build go1.22

package main

// C07: compression, banishment and return; C08: the protocol of changing the referrer; and how the links may change at
// all (C05). Each step's expected effect is computed from the state before it, independently of the keepers.

import (
	"fmt"
	"sort"
	"strings"
	"time"

	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
)

func (e *E) day() time.Duration {
	return time.Duration(e.app.GetScheduleKeeper().GetParams(e.Ctx()).DayNanos)
}

func (e *E) dust() int64 {
	return e.app.GetBankKeeper().GetParams(e.Ctx()).DustDelegation
}

// closed: nobody may sign up (or be moved, or come back) under such an account.
func closedFor(i *referral.Info, now time.Time, month time.Duration) bool {
	if i.Referrer == "" {
		return false
	}
	if i.Banished {
		return true
	}
	return !i.Active && (i.CompressionAt == nil || now.After(i.CompressionAt.Add(-month)))
}

func sameTime(a, b *time.Time) bool {
	return a == nil && b == nil || a != nil && b != nil && a.Equal(*b)
}

func tstr(t *time.Time) string {
	if t == nil {
		return "none"
	}
	return t.Format(time.RFC3339)
}

// postLife: the timers and the banishment of every account after a step.
func postLife(pre, post *E, s *Step) error {
	t0, t1 := pre.mustTree(), post.mustTree()
	month := 30 * pre.day()
	dust := pre.dust()
	now := post.t
	for _, a := range t1.ks {
		o, n := t0.n[a], t1.n[a]
		post.ctr.compared++
		fail := func(f string, x ...interface{}) error {
			return fmt.Errorf("%s: %s (before: active %v, compression %s, banishment %s, banished %v, delegated %d; after: active %v, compression %s, banishment %s, banished %v, delegated %d)",
				nameOf(a), fmt.Sprintf(f, x...), o.Active, tstr(o.CompressionAt), tstr(o.BanishmentAt), o.Banished, t0.led.get(a, D), n.Active, tstr(n.CompressionAt), tstr(n.BanishmentAt), n.Banished, t1.led.get(a, D))
		}
		if o == nil {
			o = &referral.Info{}
			want := now.Add(2 * month)
			if n.Active {
				if n.CompressionAt != nil || n.BanishmentAt != nil || n.Banished {
					return fail("a new active account has something pending")
				}
			} else if n.Banished || n.BanishmentAt != nil || !sameTime(n.CompressionAt, &want) {
				return fail("a new account is to be compressed at %s and nothing else", tstr(&want))
			}
			continue
		}
		if n.Active && (n.CompressionAt != nil || n.BanishmentAt != nil || n.Banished) {
			return fail("an active account has something pending")
		}
		if n.Active {
			continue
		}
		var comp, ban *time.Time
		banished := o.Banished
		comp, ban = o.CompressionAt, o.BanishmentAt
		at := func(d time.Duration) *time.Time { t := now.Add(d); return &t }
		d0, d1 := t0.led.get(a, D), t1.led.get(a, D)
		switch {
		case o.Active:
			comp, ban = at(2*month), nil
		case o.Referrer == "" && !o.Banished:
			// top level: nothing ever happens to it
			if n.Banished || n.BanishmentAt != nil {
				return fail("a top-level account must not be banished")
			}
			comp = n.CompressionAt
			if o.CompressionAt == nil && comp != nil || o.CompressionAt != nil && !sameTime(comp, o.CompressionAt) {
				return fail("compression time of a top-level account changed by itself")
			}
		default:
			if s.Msg == nil && ban != nil && !ban.After(now) {
				ban, comp, banished = nil, nil, true
			} else if s.Msg == nil && comp != nil && !comp.After(now) {
				comp = nil
				if d0 <= dust {
					ban = at(month)
				}
			} else if d0 != d1 {
				if d1 > dust {
					ban, banished = nil, false
				} else if !banished && ban == nil && (comp == nil || now.After(*comp)) {
					ban = at(month)
				}
			}
		}
		if n.Banished != banished {
			return fail("should be banished: %v", banished)
		}
		if !sameTime(n.CompressionAt, comp) {
			return fail("compression should be at %s", tstr(comp))
		}
		if !sameTime(n.BanishmentAt, ban) {
			return fail("banishment should be at %s", tstr(ban))
		}
	}
	return nil
}

// postLinks: who is whose referrer after a step.
func postLinks(pre, post *E, s *Step) error {
	t0, t1 := pre.mustTree(), post.mustTree()
	month := 30 * pre.day()
	now := post.t
	compressed := func(a string) bool {
		i := t0.n[a]
		return s.Msg == nil && i != nil && i.Referrer != "" && !i.Active && !i.Banished && i.CompressionAt != nil && !i.CompressionAt.After(now)
	}
	open := func(p string) string {
		for p != "" && closedFor(t0.n[p], now, month) {
			p = t0.n[p].Referrer
		}
		return p
	}
	for a := range t0.n {
		if t1.n[a] == nil {
			return fmt.Errorf("%s disappeared from the referral", nameOf(a))
		}
	}
	for _, a := range t1.ks {
		o, n := t0.n[a], t1.n[a]
		post.ctr.compared++
		if o == nil {
			m, ok := s.Msg.(*profile.MsgCreateAccount)
			if !ok || m.Address != a || n.Referrer != m.Referrer {
				return fmt.Errorf("%s appeared in the referral under %s by %s", nameOf(a), nameOf(n.Referrer), s.Name)
			}
			p := t0.n[m.Referrer]
			if p == nil || closedFor(p, now, month) {
				return fmt.Errorf("%s signed up under %s, which is closed for it", nameOf(a), nameOf(m.Referrer))
			}
			continue
		}
		want := o.Referrer
		switch {
		case o.Banished && !n.Banished:
			want = open(o.Referrer)
		case s.Msg != nil:
			if m, ok := s.Msg.(*referral.MsgResolveTransition); ok && m.Subject == a && !m.Decline && s.Err == nil {
				if m.Signer != o.Referrer {
					return fmt.Errorf("%s was moved on approval of %s, who is not its referrer", nameOf(a), nameOf(m.Signer))
				}
				want = o.Transition
			}
		case !o.Banished:
			for compressed(want) {
				if n.Banished && !o.Banished && n.Referrer == want {
					break // detached before
				}
				want = t0.n[want].Referrer
			}
		}
		if n.Referrer != want {
			return fmt.Errorf("the referrer of %s should be %s, is %s (was %s)", nameOf(a), nameOf(want), nameOf(n.Referrer), nameOf(o.Referrer))
		}
	}
	return nil
}

// ---- C08

type pendReq struct {
	dest     string
	deadline time.Time
}

type reqModel struct{ p map[string]pendReq }

func (m *reqModel) Clone() Model {
	c := &reqModel{map[string]pendReq{}}
	for k, v := range m.p {
		c.p[k] = v
	}
	return c
}
func (m *reqModel) Key() string {
	var l []string
	for k, v := range m.p {
		l = append(l, k+">"+v.dest+"@"+v.deadline.String())
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func initReq(e *E) error {
	m := &reqModel{map[string]pendReq{}}
	for a, i := range e.mustTree().n {
		if i.Transition == "" {
			continue
		}
		for _, t := range e.tasks() {
			if t.HandlerName == "referral/transition-timeout" && string(t.Data) == a {
				m.p[a] = pendReq{i.Transition, t.Time}
			}
		}
	}
	e.M = m
	return nil
}

func (t *tree) under(x, top string) bool {
	for n := 0; x != "" && n <= len(t.ks); n++ {
		if x == top {
			return true
		}
		if t.n[x] == nil {
			return false
		}
		x = t.n[x].Referrer
	}
	return false
}

// moveAllowed: may subject be moved under dest in this state?
func moveAllowed(t *tree, s, d string, now time.Time, month time.Duration) error {
	i, j := t.n[s], t.n[d]
	switch {
	case i == nil:
		return fmt.Errorf("the subject is not in the referral")
	case j == nil:
		return fmt.Errorf("the destination is not in the referral")
	case i.Referrer == d:
		return fmt.Errorf("the destination is the current referrer")
	case t.under(d, s):
		return fmt.Errorf("the destination is under the subject")
	case closedFor(j, now, month):
		return fmt.Errorf("the destination is closed")
	}
	return nil
}

func postRequests(pre, post *E, s *Step) error {
	t0, t1 := pre.mustTree(), post.mustTree()
	m := post.M.(*reqModel)
	month, now := 30*pre.day(), post.t
	moved := map[string]string{}
	switch msg := s.Msg.(type) {
	case nil:
		for a, p := range m.p {
			if !p.deadline.After(now) {
				delete(m.p, a)
			}
		}
	case *referral.MsgRequestTransition:
		p := pre.app.GetReferralKeeper().GetParams(pre.Ctx())
		err := moveAllowed(t0, msg.Subject, msg.Destination, now, month)
		if _, ok := m.p[msg.Subject]; ok {
			err = fmt.Errorf("a request is pending already")
		}
		if err == nil && t0.led.get(msg.Subject, U) < int64(p.TransitionPrice) {
			err = fmt.Errorf("not enough money")
		}
		post.ctr.compared++
		if (err == nil) != (s.Err == nil) {
			return fmt.Errorf("request: expected refusal: %v, got: %v", err, s.Err)
		}
		want := t0.led.clone()
		if err == nil {
			m.p[msg.Subject] = pendReq{msg.Destination, now.Add(pre.day())}
			want.move(msg.Subject, modAddr(pre, "fee_collector"), U, int64(p.TransitionPrice))
		}
		if err := diffLedger(want, t1.led); err != nil {
			return fmt.Errorf("price of the request: %w", err)
		}
	case *referral.MsgResolveTransition:
		post.ctr.compared++
		i := t0.n[msg.Subject]
		p, ok := m.p[msg.Subject]
		err := error(nil)
		switch {
		case i == nil || i.Referrer == "" || i.Referrer != msg.Signer:
			err = fmt.Errorf("not signed by the current referrer")
		case !ok && !msg.Decline:
			err = fmt.Errorf("nothing was requested")
		case !msg.Decline:
			err = moveAllowed(t0, msg.Subject, p.dest, now, month)
			if i.Banished {
				err = fmt.Errorf("the subject is banished")
			}
		}
		if (err == nil) != (s.Err == nil) && ok {
			return fmt.Errorf("answer: expected refusal: %v, got: %v", err, s.Err)
		}
		if err != nil && s.Err == nil {
			return fmt.Errorf("answer: expected refusal: %v", err)
		}
		if s.Err == nil {
			delete(m.p, msg.Subject)
			if !msg.Decline {
				moved[msg.Subject] = p.dest
			}
		}
		if err := diffLedger(t0.led, t1.led); err != nil {
			return fmt.Errorf("answering a request must not cost anything: %w", err)
		}
	}
	for _, a := range t1.ks {
		post.ctr.compared++
		n := t1.n[a]
		if w := m.p[a].dest; n.Transition != w {
			return fmt.Errorf("pending move of %s should be to %q, is to %q", nameOf(a), nameOf(w), nameOf(n.Transition))
		}
		if w, ok := moved[a]; ok && n.Referrer != w {
			return fmt.Errorf("%s should be under %s now, is under %s", nameOf(a), nameOf(w), nameOf(n.Referrer))
		}
	}
	return nil
}
