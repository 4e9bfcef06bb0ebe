//go:build go1.22

package main

// Queries: on every state reached, every query with every argument that means something there. Each answer is compared
// with what is read straight from the stores, with the answer of the query before gRPC where there is one, and the
// stores afterwards with the stores before.

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/gogo/protobuf/proto"
	abci "github.com/tendermint/tendermint/abci/types"

	"github.com/cosmos/cosmos-sdk/codec"
	sdk "github.com/cosmos/cosmos-sdk/types"

	bank "github.com/arterynetwork/artr/x/bank/types"
	delegating "github.com/arterynetwork/artr/x/delegating/types"
	earning "github.com/arterynetwork/artr/x/earning/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	schedule "github.com/arterynetwork/artr/x/schedule/types"
	voting "github.com/arterynetwork/artr/x/voting/types"
)

type asker struct {
	e   *E
	ctx sdk.Context
	n   int64
}

// ask: a gRPC query; a panic is no answer.
func (q *asker) ask(path string, req, resp proto.Message) error {
	q.n++
	return q.e.queryCtx(q.ctx, "/artery."+path, req, resp)
}

// old: the same before gRPC.
func (q *asker) old(route string, path []string, req interface{}) ([]byte, error) {
	q.n++
	if route == "bank" {
		route = bank.RouterKey
	}
	h := q.e.asks.Route(route)
	if h == nil {
		return nil, fmt.Errorf("no querier %s", route)
	}
	var bz []byte
	if b, ok := req.([]byte); ok {
		bz = b
	} else if req != nil {
		var err error
		if bz, err = q.e.ec.Amino.MarshalJSON(req); err != nil {
			return nil, err
		}
	}
	var r []byte
	err := guard(func() (err error) {
		r, err = h(q.ctx, path, abci.RequestQuery{Data: bz, Height: q.e.h})
		return
	})
	return r, err
}

// canon: JSON without what is empty.
func canon(bz []byte) string {
	var v interface{}
	d := json.NewDecoder(bytes.NewReader(bz))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		return "not JSON: " + string(bz)
	}
	var f func(interface{}) interface{}
	f = func(v interface{}) interface{} {
		switch v := v.(type) {
		case map[string]interface{}:
			for k, x := range v {
				if x = f(x); x == nil {
					delete(v, k)
				} else {
					v[k] = x
				}
			}
			if len(v) == 0 {
				return nil
			}
		case []interface{}:
			for i := range v {
				v[i] = f(v[i])
			}
			if len(v) == 0 {
				return nil
			}
		case string:
			if v == "" || v == "0" {
				return nil
			}
		case json.Number:
			if v.String() == "0" {
				return nil
			}
		case bool:
			if !v {
				return nil
			}
		}
		return v
	}
	bz, _ = json.Marshal(f(v))
	return string(bz)
}

func isPanic(err error) bool { _, ok := err.(panicErr); return ok }

// both compares an answer with the one given before gRPC; an error must be an error in both.
func (q *asker) both(what string, err error, ans interface{}, old []byte, oldErr error) error {
	q.e.ctr.compared++
	if (err == nil) != (oldErr == nil) {
		return fmt.Errorf("%s: gRPC gives %v, the query before it %v", what, err, oldErr)
	}
	if err != nil {
		return nil
	}
	bz, err := codec.MarshalJSONIndent(q.e.ec.Amino, ans)
	if err != nil {
		return err
	}
	if a, b := canon(bz), canon(old); a != b {
		return fmt.Errorf("%s: gRPC gives %s, the query before it %s", what, a, b)
	}
	return nil
}

// is compares an answer with what is stored; absent: the query has to fail.
func (q *asker) is(what string, err error, got, want proto.Message, absent bool) error {
	q.e.ctr.compared++
	if isPanic(err) {
		return fmt.Errorf("%s: %v", what, err)
	}
	if absent != (err != nil) {
		return fmt.Errorf("%s: stored: %v, the query gives %v", what, !absent, err)
	}
	if err != nil {
		return nil
	}
	a, err := proto.Marshal(got)
	if err != nil {
		return err
	}
	b, err := proto.Marshal(want)
	if err != nil {
		return err
	}
	if !bytes.Equal(a, b) {
		return fmt.Errorf("%s: the answer is %v, stored is %v", what, got, want)
	}
	return nil
}

func (q *asker) same(what string, got, want interface{}) error {
	q.e.ctr.compared++
	if a, b := fmt.Sprint(got), fmt.Sprint(want); a != b {
		return fmt.Errorf("%s: the answer is %s, should be %s", what, a, b)
	}
	return nil
}

func firstErr(l ...func() error) error {
	for _, f := range l {
		if err := f(); err != nil {
			return err
		}
	}
	return nil
}

func (q *asker) who() []string {
	seen := map[string]bool{}
	for a := range q.e.mustLedger() {
		seen[a] = true
	}
	for _, a := range q.e.mustTree().ks {
		seen[a] = true
	}
	for a := range q.e.profiles() {
		seen[a] = true
	}
	for a := range q.e.nodes() {
		seen[a] = true
	}
	for a := range q.e.earners() {
		seen[a] = true
	}
	seen[A("nobody")] = true
	var r []string
	for a := range seen {
		r = append(r, a)
	}
	sort.Strings(r)
	return r
}

func (q *asker) bank(who []string) error {
	e := q.e
	l := e.mustLedger()
	for _, a := range who {
		var r bank.BalanceResponse
		err := q.ask("bank.v1beta1.Query/Balance", &bank.BalanceRequest{AccAddress: a}, &r)
		ad, _ := sdk.AccAddressFromBech32(a)
		old, oldErr := q.old("bank", []string{"balances"}, bank.NewQueryBalanceParams(ad))
		if err := q.both("balance of "+nameOf(a), err, r.Balance, old, oldErr); err != nil {
			return err
		}
		got := Ledger{}
		for _, c := range r.Balance {
			got.add(a, c.Denom, c.Amount.Int64())
		}
		want := Ledger{}
		if l[a] != nil {
			want[a] = l[a]
		}
		if err := diffLedger(want, got); err != nil {
			return fmt.Errorf("query: %w", err)
		}
	}
	var s bank.SupplyResponse
	if err := q.ask("bank.v1beta1.Query/Supply", &bank.SupplyRequest{}, &s); err != nil {
		return err
	}
	got := map[string]int64{}
	for _, c := range s.Supply.Total {
		if c.Amount.Sign() != 0 {
			got[c.Denom] = c.Amount.Int64()
		}
	}
	return q.same("supply", got, e.supply())
}

func (q *asker) params() error {
	type pq struct {
		path, route string
		req, resp   proto.Message
		part        func() interface{}
	}
	var (
		b bank.ParamsResponse
		d delegating.ParamsResponse
		x earning.ParamsResponse
		n noding.ParamsResponse
		p profile.ParamsResponse
		r referral.ParamsResponse
		s schedule.ParamsResponse
		v voting.ParamsResponse
	)
	for _, i := range []pq{
		{"bank", "bank", &bank.ParamsRequest{}, &b, func() interface{} { return b.Params }},
		{"delegating", "delegating", &delegating.ParamsRequest{}, &d, func() interface{} { return *d.Params }},
		{"earning", "earning", &earning.ParamsRequest{}, &x, func() interface{} { return x.Params }},
		{"noding", "noding", &noding.ParamsRequest{}, &n, func() interface{} { return n.Params }},
		{"profile", "profile", &profile.ParamsRequest{}, &p, func() interface{} { return profile.ParamsResponse{Params: p.Params} }},
		{"referral", "referral", &referral.ParamsRequest{}, &r, func() interface{} { return r.Params }},
		{"schedule", "", &schedule.ParamsRequest{}, &s, nil},
		{"voting", "voting", &voting.ParamsRequest{}, &v, func() interface{} { return v.Params }},
	} {
		err := q.ask(i.path+".v1beta1.Query/Params", i.req, i.resp)
		if err != nil {
			return fmt.Errorf("parameters of %s: %w", i.path, err)
		}
		if i.part != nil {
			old, oldErr := q.old(i.route, []string{"params"}, nil)
			if err := q.both("parameters of "+i.path, err, i.part(), old, oldErr); err != nil {
				return err
			}
		}
	}
	c := q.e.Ctx()
	a := q.e.app
	for _, i := range [][2]interface{}{{b.Params, a.GetBankKeeper().GetParams(c)}, {*d.Params, a.GetDelegatingKeeper().GetParams(c)}, {x.Params, a.GetEarningKeeper().GetParams(c)}, {n.Params, a.GetNodingKeeper().GetParams(c)},
		{p.Params, a.GetProfileKeeper().GetParams(c)}, {r.Params, a.GetReferralKeeper().GetParams(c)}, {s.Params, a.GetScheduleKeeper().GetParams(c)}, {v.Params, a.GetVotingKeeper().GetParams(c)}} {
		x, _ := json.Marshal(i[0])
		y, _ := json.Marshal(i[1])
		if err := q.same("parameters", canon(x), canon(y)); err != nil {
			return err
		}
	}
	return nil
}

func (q *asker) delegating(who []string) error {
	e := q.e
	r := newRef(e)
	for _, a := range who {
		rec := r.del[a]
		stored := rec
		if stored == nil {
			stored = &delegating.Record{}
		}
		var g delegating.GetResponse
		err := q.ask("delegating.v1beta1.Query/Get", &delegating.GetRequest{AccAddress: a}, &g)
		if g.Data == nil && err == nil {
			g.Data = &delegating.Record{}
		}
		if err := q.is("delegation of "+nameOf(a), err, g.Data, stored, false); err != nil {
			return err
		}
		var v delegating.RevokingResponse
		err = q.ask("delegating.v1beta1.Query/Revoking", &delegating.RevokingRequest{AccAddress: a}, &v)
		old, oldErr := q.old("delegating", []string{"revoking"}, delegating.RevokingRequest{AccAddress: a})
		if err := q.both("revoked by "+nameOf(a), err, v, old, oldErr); err != nil {
			return err
		}
		if err := q.is("revoked by "+nameOf(a), err, &v, &delegating.RevokingResponse{Revoking: stored.Requests}, false); err != nil {
			return err
		}
		var c delegating.AccumulationResponse
		err = q.ask("delegating.v1beta1.Query/Accumulation", &delegating.AccumulationRequest{AccAddress: a}, &c)
		old, oldErr = q.old("delegating", []string{"accum"}, delegating.AccumulationRequest{AccAddress: a})
		if err := q.both("accumulated by "+nameOf(a), err, c, old, oldErr); err != nil {
			return err
		}
		if absent := rec == nil || rec.NextAccrue == nil; absent != (err != nil) {
			return fmt.Errorf("accumulated by %s: the query gives %v, stored is %v", nameOf(a), err, rec)
		} else if absent {
			continue
		}
		p, d := r.percent(a), r.led.get(a, D)
		part := new(big.Rat).SetFrac64(int64(r.t.Sub(rec.NextAccrue.Add(-r.day))), int64(r.day))
		total := rmul(p, rint(d))
		now := rmul(total, part)
		if rec.MissedPart != nil {
			m := rmul(rat(*rec.MissedPart), total)
			total, now = new(big.Rat).Sub(total, m), new(big.Rat).Sub(now, m)
		}
		quo := func(x *big.Rat) int64 { return new(big.Int).Quo(x.Num(), x.Denom()).Int64() }
		want := fmt.Sprint(rec.NextAccrue.Add(-r.day).UTC(), rec.NextAccrue.UTC(), p.RatString(), quo(rmul(p, rint(3000))), quo(total), quo(now), rec.MissedPart)
		got := fmt.Sprint(c.Start.UTC(), c.End.UTC(), rat(c.PercentDaily).RatString(), c.Percent, c.TotalUartrs, c.CurrentUartrs, c.MissedPart)
		if err := q.same("accumulated by "+nameOf(a), got, want); err != nil {
			return err
		}
	}
	return nil
}

func timeStr(t *time.Time) string {
	if t == nil {
		return "never"
	}
	return t.UTC().Format(time.RFC3339Nano)
}

func earnerStr(x earning.Earner) string {
	return nameOf(x.Account) + " VPN " + timeStr(x.Vpn) + " storage " + timeStr(x.Storage)
}

func (q *asker) earning(who []string) error {
	m := q.e.earners()
	one := func(a string) string {
		t := m[a]
		if t == nil {
			t = &earning.Timestamps{}
		}
		return nameOf(a) + " VPN " + timeStr(t.Vpn) + " storage " + timeStr(t.Storage)
	}
	for _, a := range who {
		var g earning.GetResponse
		if err := q.ask("earning.v1beta1.Query/Get", &earning.GetRequest{Address: a}, &g); err != nil {
			return fmt.Errorf("earner %s: %w", nameOf(a), err)
		}
		if err := q.same("earner", earnerStr(g.Earner), one(a)); err != nil {
			return err
		}
	}
	var mr earning.GetMultipleResponse
	if err := q.ask("earning.v1beta1.Query/GetMultiple", &earning.GetMultipleRequest{Addresses: append(append([]string{}, who...), who[0])}, &mr); err != nil {
		return err
	}
	var got, want []string
	for _, x := range mr.Earners {
		got = append(got, earnerStr(x))
	}
	for _, a := range append(append([]string{}, who...), who[0]) {
		want = append(want, one(a))
	}
	if err := q.same("earners", got, want); err != nil {
		return err
	}
	want = nil
	for a := range m {
		want = append(want, one(a))
	}
	sort.Strings(want)
	return q.pages("earners", len(m), func(limit, page int32) ([]string, error) {
		var r earning.ListResponse
		if err := q.ask("earning.v1beta1.Query/List", &earning.ListRequest{Limit: limit, Page: page}, &r); err != nil {
			return nil, err
		}
		var l []string
		for _, x := range r.List {
			l = append(l, earnerStr(x))
		}
		return l, nil
	}, func(all []string) error {
		all = append([]string{}, all...)
		sort.Strings(all)
		return q.same("list of earners", all, want)
	})
}

// pages: any size of pages makes the same list, every item once; the whole list is judged.
func (q *asker) pages(what string, n int, get func(limit, page int32) ([]string, error), judge func([]string) error) error {
	all, err := get(int32(n)+1, 1)
	if err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	if err := judge(all); err != nil {
		return err
	}
	for _, limit := range []int32{1, 2, 3, int32(n), math.MaxInt32} {
		if limit <= 0 || (what == "polls" && limit > 1000) {
			continue // the query of polls reserves memory for as many as it is asked for
		}
		var l []string
		for p := int32(1); p <= int32(n)+2; p++ {
			x, err := get(limit, p)
			if err != nil {
				return fmt.Errorf("%s, page %d of %d each: %w", what, p, limit, err)
			}
			if len(x) > int(limit) {
				return fmt.Errorf("%s: page %d of %d each has %d", what, p, limit, len(x))
			}
			l = append(l, x...)
			if limit > 3 && p > 3 {
				break
			}
		}
		if err := q.same(fmt.Sprintf("%s by pages of %d", what, limit), l, all); err != nil {
			return err
		}
	}
	return nil
}

func (q *asker) noding(who []string) error {
	e := q.e
	nodes, queue := e.nodes(), e.lotteryQueue()
	t := e.mustTree()
	p := e.app.GetNodingKeeper().GetParams(e.Ctx())
	var on []string
	for _, a := range who {
		n := nodes[a]
		name := nameOf(a)
		var g noding.GetResponse
		err := q.ask("noding.v1beta1.Query/Get", &noding.GetRequest{Account: a}, &g)
		old, oldErr := q.old("noding", []string{"info", a}, nil)
		if err := q.both("validator "+name, err, g.Info, old, oldErr); err != nil {
			return err
		}
		want := n
		if want == nil {
			want = &noding.Info{}
		}
		if err := q.is("validator "+name, err, &g.Info, want, n == nil); err != nil {
			return err
		}
		state := noding.VALIDATOR_STATE_OFF
		if n != nil {
			switch {
			case n.BannedForLife:
				state = noding.VALIDATOR_STATE_BAN
			case n.Jailed:
				state = noding.VALIDATOR_STATE_JAIL
			case !n.Status:
			case n.LastPower == 0:
				state = noding.VALIDATOR_STATE_SPARE
			case n.LotteryNo == 0:
				state = noding.VALIDATOR_STATE_TOP
			default:
				state = noding.VALIDATOR_STATE_LUCKY
			}
		}
		var s noding.StateResponse
		err = q.ask("noding.v1beta1.Query/State", &noding.StateRequest{Account: a}, &s)
		old, oldErr = q.old("noding", []string{"state", a}, nil)
		if err != nil || oldErr != nil || len(old) != 1 {
			return fmt.Errorf("state of %s: %v, %v %v", name, err, old, oldErr)
		}
		if err := q.same("state of validator "+name, fmt.Sprint(s.State, noding.ValidatorState(old[0])), fmt.Sprint(state, state)); err != nil {
			return err
		}
		up := n != nil && nodeUp(n)
		if up {
			on = append(on, a)
		}
		old, oldErr = q.old("noding", []string{"status", a}, nil)
		if oldErr != nil {
			return oldErr
		}
		if err := q.same("is "+name+" a validator", strings.TrimSpace(string(old)), up); err != nil {
			return err
		}
		var al noding.IsAllowedResponse
		err = q.ask("noding.v1beta1.Query/IsAllowed", &noding.IsAllowedRequest{Account: a}, &al)
		old, oldErr = q.old("noding", []string{"allowed", a}, nil)
		if err := q.both("may "+name+" validate", err, al, old, oldErr); err != nil {
			return err
		}
		i := t.n[a]
		if (i == nil) != (err != nil) {
			return fmt.Errorf("may %s validate: in the referral: %v, the query gives %v", name, i != nil, err)
		}
		if i != nil {
			stake, _ := e.netStake(t, a)
			ok := n != nil && n.Staff || i.Status >= p.MinCriteria.Status && t.led.get(a, D) >= int64(p.MinCriteria.SelfStake) && stake >= int64(p.MinCriteria.TotalStake)
			if err := q.same("may "+name+" validate", al.Verdict, ok); err != nil {
				return err
			}
			if ok != (al.Reason == noding.REASON_UNSPECIFIED) {
				return fmt.Errorf("may %s validate: %v because of %v", name, ok, al.Reason)
			}
		}
	}
	var so noding.SwitchedOnResponse
	if err := q.ask("noding.v1beta1.Query/SwitchedOn", &noding.SwitchedOnRequest{}, &so); err != nil {
		return err
	}
	old, err := q.old("noding", []string{"switched-on"}, nil)
	if err != nil {
		return err
	}
	var ol []string
	if err := json.Unmarshal(old, &ol); err != nil {
		return err
	}
	got := append([]string{}, so.Accounts...)
	sort.Strings(got)
	sort.Strings(ol)
	if err := firstErr(func() error { return q.same("validators switched on", names(got), names(on)) }, func() error { return q.same("validators switched on, before gRPC", names(ol), names(on)) }); err != nil {
		return err
	}
	var qr noding.QueueResponse
	if err := q.ask("noding.v1beta1.Query/Queue", &noding.QueueRequest{}, &qr); err != nil {
		return err
	}
	got = nil
	for i, v := range qr.Queue {
		got = append(got, v.Account)
		if n := nodes[v.Account]; n == nil || n.LotteryNo != v.No || i > 0 && qr.Queue[i-1].No >= v.No {
			return fmt.Errorf("queue: %s has number %d, its record is %v", nameOf(v.Account), v.No, n)
		}
	}
	if err := q.same("queue", names(got), names(queue)); err != nil {
		return err
	}
	// indices
	high := int64(0)
	by := map[int64]string{}
	if err := e.each(noding.IdxStoreKey, func(k, v []byte) error {
		a := sdk.AccAddress(v).String()
		switch k[0] {
		case 0x01:
			for _, f := range []noding.OperatorRequest_Format{noding.OperatorRequest_FORMAT_BECH32, noding.OperatorRequest_FORMAT_HEX} {
				c, of := sdk.ConsAddress(k[1:]).String(), "bech32"
				if f == noding.OperatorRequest_FORMAT_HEX {
					c, of = strings.ToUpper(hex.EncodeToString(k[1:])), "hex"
				}
				var o noding.OperatorResponse
				if err := q.ask("noding.v1beta1.Query/Operator", &noding.OperatorRequest{ConsAddress: c, Format: f}, &o); err != nil {
					return err
				}
				old, err := q.old("noding", []string{"operator", of, c}, nil)
				if err != nil {
					return err
				}
				if err := q.same("operator of "+keyName(c), nameOf(o.Account)+" "+nameOf(sdk.AccAddress(old).String()), nameOf(a)+" "+nameOf(a)); err != nil {
					return err
				}
			}
		case 0x02:
			h := int64(binary.BigEndian.Uint64(k[1:]))
			by[h] = a
			if h > high {
				high = h
			}
		}
		return nil
	}); err != nil {
		return err
	}
	for h := int64(0); h <= high+1; h++ {
		var r noding.ProposerResponse
		err := q.ask("noding.v1beta1.Query/Proposer", &noding.ProposerRequest{Height: h}, &r)
		old, oldErr := q.old("noding", []string{"proposer", fmt.Sprint(h)}, nil)
		a, ok := by[h]
		if ok != (err == nil) || ok != (oldErr == nil) || isPanic(err) || isPanic(oldErr) {
			return fmt.Errorf("proposer of block %d: stored %q, the queries give %v and %v", h, nameOf(a), err, oldErr)
		}
		if ok {
			if err := q.same(fmt.Sprintf("proposer of block %d", h), nameOf(r.Account)+" "+nameOf(sdk.AccAddress(old).String()), nameOf(a)+" "+nameOf(a)); err != nil {
				return err
			}
		}
	}
	var o noding.OperatorResponse
	if err := q.ask("noding.v1beta1.Query/Operator", &noding.OperatorRequest{ConsAddress: strings.Repeat("7F", 20), Format: noding.OperatorRequest_FORMAT_HEX}, &o); err == nil || isPanic(err) {
		return fmt.Errorf("operator of an unknown key: %v, %v", o, err)
	}
	return nil
}

func (q *asker) profiles(who []string) error {
	e := q.e
	ps := e.profiles()
	nicks, cards := map[string]string{}, map[uint64]string{}
	for _, a := range who {
		p := ps[a]
		want := p
		if p == nil {
			want = &profile.Profile{}
		} else {
			if p.Nickname != "" {
				nicks[strings.ToLower(p.Nickname)] = a
			}
			if p.CardNumber != 0 {
				cards[p.CardNumber] = a
			}
		}
		var r profile.GetByAddressResponse
		err := q.ask("profile.v1beta1.Query/GetByAddress", &profile.GetByAddressRequest{Address: a}, &r)
		old, oldErr := q.old("profile", []string{"get_by_addr"}, profile.GetByAddressRequest{Address: a})
		if err := q.both("profile of "+nameOf(a), err, r, old, oldErr); err != nil {
			return err
		}
		if err := q.is("profile of "+nameOf(a), err, &r.Profile, want, p == nil); err != nil {
			return err
		}
	}
	ask := map[string]bool{"nobody at all": true}
	for n := range nicks {
		ask[n], ask[strings.ToUpper(n)], ask[n+"x"] = true, true, true
	}
	for _, n := range sortedKeys(ask) {
		a, ok := nicks[strings.ToLower(n)]
		var r profile.GetByNicknameResponse
		err := q.ask("profile.v1beta1.Query/GetByNickname", &profile.GetByNicknameRequest{Nickname: n}, &r)
		old, oldErr := q.old("profile", []string{"get_by_nick"}, profile.GetByNicknameRequest{Nickname: n})
		if err := q.both("profile named "+n, err, r, old, oldErr); err != nil {
			return err
		}
		want := &profile.GetByNicknameResponse{Address: a}
		if ok {
			want.Profile = *ps[a]
		}
		if err := q.is("profile named "+n, err, &r, want, !ok); err != nil {
			return err
		}
	}
	nums := map[uint64]bool{0: true, 1: true, math.MaxUint64: true}
	for c := range cards {
		nums[c], nums[c+1] = true, true
	}
	for c := range nums {
		a, ok := cards[c]
		var r profile.GetByCardNumberResponse
		err := q.ask("profile.v1beta1.Query/GetByCardNumber", &profile.GetByCardNumberRequest{CardNumber: c}, &r)
		old, oldErr := q.old("profile", []string{"get_by_card"}, profile.GetByCardNumberRequest{CardNumber: c})
		if err := q.both(fmt.Sprintf("profile with card %d", c), err, r, old, oldErr); err != nil {
			return err
		}
		want := &profile.GetByCardNumberResponse{Address: a}
		if ok {
			want.Profile = *ps[a]
		}
		if err := q.is(fmt.Sprintf("profile with card %d", c), err, &r, want, !ok); err != nil {
			return err
		}
	}
	return nil
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var linesOpen = map[referral.Status]int{referral.STATUS_LUCKY: 4, referral.STATUS_LEADER: 6, referral.STATUS_MASTER: 8}

func (q *asker) referral(who []string) error {
	e := q.e
	t := e.mustTree()
	f := e.facts(t)
	kids := t.kids()
	high := map[referral.Status][]string{}
	for _, a := range who {
		i := t.n[a]
		name := nameOf(a)
		want := i
		if i == nil {
			want = &referral.Info{}
		} else if i.Status >= referral.STATUS_BUSINESSMAN {
			high[i.Status] = append(high[i.Status], a)
		}
		var r referral.GetResponse
		err := q.ask("referral.v1beta1.Query/Get", &referral.GetRequest{AccAddress: a}, &r)
		old, oldErr := q.old("referral", []string{"info"}, referral.GetRequest{AccAddress: a})
		if err := q.both("referral of "+name, err, r.Info, old, oldErr); err != nil {
			return err
		}
		if i == nil && err != nil {
			// an error is as good an answer as an empty record
		} else if err := q.is("referral of "+name, err, &r.Info, want, false); err != nil {
			return err
		}
		light := *want
		light.Referrals, light.ActiveReferrals = nil, nil
		err = q.ask("referral.v1beta1.Query/Get", &referral.GetRequest{AccAddress: a, Light: true}, &r)
		if i == nil && err != nil {
		} else if err := q.is("light referral of "+name, err, &r.Info, &light, false); err != nil {
			return err
		}
		// coins down to a depth, as far as the status opens the lines
		var c, d [11]int64
		open := 10
		if i != nil {
			t.levels(kids, a, func(l int, x string) {
				c[l] += t.led.get(x, U) + t.led.get(x, D) + t.led.get(x, R)
				d[l] += t.led.get(x, D)
			})
			if n, ok := linesOpen[i.Status]; ok {
				open = n
			}
		}
		for _, depth := range []uint32{0, 1, 2, 4, 5, 7, 10, 11, math.MaxInt32} {
			var r referral.CoinsResponse
			err := q.ask("referral.v1beta1.Query/Coins", &referral.CoinsRequest{AccAddress: a, MaxDepth: depth}, &r)
			if depth == 0 || depth == 2 || depth == 10 {
				old, oldErr := q.old("referral", []string{"coins"}, referral.CoinsRequest{AccAddress: a, MaxDepth: depth})
				if err := q.both("coins in the network of "+name, err, r, old, oldErr); err != nil {
					return err
				}
			}
			if i == nil && err != nil {
				continue
			}
			if err != nil {
				return fmt.Errorf("coins in the network of %s: %w", name, err)
			}
			n := open
			if depth != 0 && depth < uint32(n) {
				n = int(depth)
			}
			var cs, ds int64
			for l := 0; l <= n; l++ {
				cs += c[l]
				ds += d[l]
			}
			if err := q.same(fmt.Sprintf("coins in the network of %s down to %d", name, depth), fmt.Sprint(r.Total, r.Delegated), fmt.Sprint(cs, ds)); err != nil {
				return err
			}
		}
		for s := referral.Status(0); s <= referral.STATUS_ABSOLUTE_CHAMPION+1; s++ {
			var r referral.CheckStatusResponse
			err := q.ask("referral.v1beta1.Query/CheckStatus", &referral.CheckStatusRequest{AccAddress: a, Status: s}, &r)
			old, oldErr := q.old("referral", []string{"check-status"}, referral.CheckStatusRequest{AccAddress: a, Status: s})
			if err := q.both(fmt.Sprintf("requirements of %v for %s", s, name), err, r.Result, old, oldErr); err != nil {
				return err
			}
			k := rung(s)
			if i == nil || k < 0 {
				if i == nil && err == nil && r.Result.Overall && k > 0 {
					return fmt.Errorf("requirements of %v for %s, who is not in the referral: %v", s, name, r.Result)
				}
				continue
			}
			if err != nil {
				return fmt.Errorf("requirements of %v for %s: %w", s, name, err)
			}
			if err := q.same(fmt.Sprintf("requirements of %v for %s met", s, name), r.Result.Overall, f.meets(a, k) && !i.Banished); err != nil {
				return err
			}
			all := true
			for _, c := range r.Result.Criteria {
				all = all && c.Met
				if c.Met != (c.ActualValue >= c.TargetValue) {
					return fmt.Errorf("requirements of %v for %s: %v", s, name, c)
				}
			}
			if all != r.Result.Overall {
				return fmt.Errorf("requirements of %v for %s: %v overall, but %v", s, name, r.Result.Overall, r.Result.Criteria)
			}
		}
	}
	for s := referral.STATUS_BUSINESSMAN; s <= referral.STATUS_ABSOLUTE_CHAMPION; s++ {
		if rung(s) < 0 {
			continue
		}
		var r referral.AllWithStatusResponse
		if err := q.ask("referral.v1beta1.Query/AllWithStatus", &referral.AllWithStatusRequest{Status: s}, &r); err != nil {
			return err
		}
		got := append([]string{}, r.Accounts...)
		sort.Strings(got)
		if err := q.same(fmt.Sprintf("all with status %v", s), names(got), names(high[s])); err != nil {
			return err
		}
	}
	return nil
}

// moves: whether a move would be accepted, asked and tried.
func (q *asker) moves(who []string) error {
	e := q.e
	price := int64(e.app.GetReferralKeeper().GetParams(e.Ctx()).TransitionPrice)
	l := e.mustLedger()
	t := e.mustTree()
	n := 0
	for _, a := range who {
		for _, b := range who {
			// every pair of the first ones and, later, of relatives
			if x, y := t.n[a], t.n[b]; n > 40 && a != b && (x == nil || y == nil || x.Referrer != b && y.Referrer != a && x.Transition == "") {
				continue
			}
			n++
			what := "moving " + nameOf(a) + " to " + nameOf(b)
			var r referral.ValidateTransitionResponse
			err := q.ask("referral.v1beta1.Query/ValidateTransition", &referral.ValidateTransitionRequest{Subject: a, Target: b}, &r)
			old, oldErr := q.old("referral", []string{"validate-transition"}, referral.ValidateTransitionRequest{Subject: a, Target: b})
			if err := q.both(what, err, r, old, oldErr); err != nil {
				return err
			}
			if err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			if r.Ok != (r.Error == "") {
				return fmt.Errorf("%s: %v, %q", what, r.Ok, r.Error)
			}
			if l.get(a, U) < price {
				continue
			}
			x := e.fork()
			x.ctr = &counters{}
			if err := x.Deliver(nil, &referral.MsgRequestTransition{Subject: a, Destination: b}); (err == nil) != r.Ok {
				return fmt.Errorf("%s: the query answers %v %q, the request gives %v", what, r.Ok, r.Error, err)
			}
		}
	}
	return nil
}

func (q *asker) schedule() error {
	e := q.e
	var all []string
	ts := e.tasks()
	str := func(t schedule.Task) string { return fmt.Sprintf("%s %x %v", t.HandlerName, t.Data, t.Time.UTC()) }
	times := []time.Time{}
	for _, t := range ts {
		all = append(all, str(t))
		if len(times) == 0 || !times[len(times)-1].Equal(t.Time) {
			times = append(times, t.Time)
		}
	}
	var r schedule.AllResponse
	if err := q.ask("schedule.v1beta1.Query/All", &schedule.AllRequest{}, &r); err != nil {
		return err
	}
	var got []string
	for _, t := range r.Tasks {
		got = append(got, str(t))
	}
	if err := q.same("schedule", got, all); err != nil {
		return err
	}
	if len(times) == 0 {
		times = append(times, e.t)
	}
	cut := map[time.Time]bool{}
	for i, t := range times {
		if i < 3 || i > len(times)-3 {
			cut[t.UTC()], cut[t.UTC().Add(1)], cut[t.UTC().Add(-1)] = true, true, true
		}
	}
	var cuts []time.Time
	for t := range cut {
		cuts = append(cuts, t)
	}
	sort.Slice(cuts, func(i, j int) bool { return cuts[i].Before(cuts[j]) })
	for i, a := range cuts {
		for _, b := range cuts[i:] {
			var g schedule.GetResponse
			if err := q.ask("schedule.v1beta1.Query/Get", &schedule.GetRequest{Since: a.Format(time.RFC3339Nano), To: b.Format(time.RFC3339Nano)}, &g); err != nil {
				return fmt.Errorf("schedule from %v to %v: %w", a, b, err)
			}
			var got, want []string
			for _, t := range g.Tasks {
				got = append(got, str(t))
			}
			for j, t := range ts {
				if !t.Time.Before(a) && t.Time.Before(b) {
					want = append(want, all[j])
				}
			}
			if err := q.same(fmt.Sprintf("schedule from %v to %v", a, b), got, want); err != nil {
				return err
			}
		}
	}
	return nil
}

func (q *asker) voting() error {
	e := q.e
	list := func(key []byte) (l []string) {
		var g voting.Government
		if bz := e.raw(voting.StoreKey, key); bz != nil {
			if err := proto.Unmarshal(bz, &g); err != nil {
				panic(err)
			}
		}
		return g.Members
	}
	gov, yes, no := list(voting.KeyGovernment), list(voting.KeyAgreedMembers), list(voting.KeyDisagreedMembers)
	var g voting.GovernmentResponse
	err := q.ask("voting.v1beta1.Query/Government", &voting.GovernmentRequest{}, &g)
	old, oldErr := q.old("voting", []string{"government"}, nil)
	if err := firstErr(func() error { return q.both("government", err, g, old, oldErr) }, func() error { return q.same("government", names(g.Members), names(gov)) }); err != nil {
		return err
	}
	var c voting.CurrentResponse
	err = q.ask("voting.v1beta1.Query/Current", &voting.CurrentRequest{}, &c)
	old, oldErr = q.old("voting", []string{"current"}, nil)
	if bz := e.raw(voting.StoreKey, voting.KeyCurrentVote); bz != nil {
		// proposals with arguments have no form before gRPC: nothing to compare with
		if oldErr == nil {
			if err := q.both("proposal", err, c, old, oldErr); err != nil {
				return err
			}
		}
		want := &voting.CurrentResponse{Government: gov, Agreed: yes, Disagreed: no}
		if err := proto.Unmarshal(bz, &want.Proposal); err != nil {
			return err
		}
		if err := q.is("proposal", err, &c, want, false); err != nil {
			return err
		}
	} else if err != nil || oldErr != nil || c.Proposal.Author != "" || len(c.Government)+len(c.Agreed)+len(c.Disagreed) > 0 || canon(old) != "null" {
		return fmt.Errorf("no proposal is open, the queries give %v %v and %s %v", &c, err, old, oldErr)
	}
	// history
	var hist, polls []string
	if err := e.each(voting.StoreKey, func(k, v []byte) error {
		if bytes.HasPrefix(k, voting.KeyHistoryPrefix) {
			hist = append(hist, hex.EncodeToString(v))
		}
		if bytes.HasPrefix(k, append(append([]byte{}, voting.KeyPollPrefix...), voting.KeyPollHistory...)) {
			polls = append(polls, hex.EncodeToString(v))
		}
		return nil
	}); err != nil {
		return err
	}
	enc := func(m proto.Message) string {
		bz, err := proto.Marshal(m)
		if err != nil {
			panic(err)
		}
		return hex.EncodeToString(bz)
	}
	if err := q.pages("history", len(hist), func(limit, page int32) (l []string, err error) {
		var r voting.HistoryResponse
		err = q.ask("voting.v1beta1.Query/History", &voting.HistoryRequest{Limit: limit, Page: page}, &r)
		bz, _ := voting.ModuleCdc.MarshalJSON(&voting.HistoryRequest{Limit: limit, Page: page})
		old, oldErr := q.old("voting", []string{"history"}, bz)
		if oldErr == nil {
			if err := q.both("history", err, r.History, old, oldErr); err != nil {
				return nil, err
			}
		}
		if err != nil {
			return nil, err
		}
		for i := range r.History {
			l = append(l, enc(&r.History[i]))
		}
		return
	}, func(all []string) error { return q.same("history", all, hist) }); err != nil {
		return err
	}
	if err := q.pages("polls", len(polls), func(limit, page int32) (l []string, err error) {
		var r voting.PollHistoryResponse
		err = q.ask("voting.v1beta1.Query/PollHistory", &voting.PollHistoryRequest{Limit: limit, Page: page}, &r)
		for i := range r.History {
			l = append(l, enc(&r.History[i]))
		}
		return
	}, func(all []string) error { return q.same("polls", all, polls) }); err != nil {
		return err
	}
	var p voting.PollResponse
	err = q.ask("voting.v1beta1.Query/Poll", &voting.PollRequest{}, &p)
	key := func(k ...[]byte) []byte { return bytes.Join(append([][]byte{voting.KeyPollPrefix}, k...), nil) }
	bz := e.raw(voting.StoreKey, key(voting.KeyPollCurrent))
	want := &voting.PollResponse{}
	if bz != nil {
		if err := proto.Unmarshal(bz, &want.Poll); err != nil {
			return err
		}
		if err := e.each(voting.StoreKey, func(k, v []byte) error {
			if bytes.HasPrefix(k, key(voting.KeyPollAnswers)) {
				if bytes.Equal(v, voting.ValueYes) {
					want.Yes++
				} else {
					want.No++
				}
			}
			return nil
		}); err != nil {
			return err
		}
	}
	return q.is("poll", err, &p, want, bz == nil)
}

// invQueries is checked on every state.
func invQueries(e *E) error {
	f := e.fork()
	for _, s := range f.st {
		s.own()
		for i, v := range s.cur.vs {
			s.cur.vs[i] = append([]byte{}, v...)
		}
		s.bare = true
	}
	ctx, write := f.branch()
	q := &asker{e: f, ctx: ctx.WithEventManager(sdk.NewEventManager())}
	who := q.who()
	err := firstErr(
		func() error { return q.earning(who) }, // before the accumulation is asked for: that drops marks older than two days
		func() error { return q.bank(who) },
		func() error { return q.params() },
		func() error { return q.delegating(who) },
		func() error { return q.noding(who) },
		func() error { return q.profiles(who) },
		func() error { return q.referral(who) },
		func() error { return q.moves(who) },
		func() error { return q.schedule() },
		func() error { return q.voting() },
	)
	e.ctr.evals += q.n
	if err != nil {
		return err
	}
	write()
	for i, name := range e.names {
		if e.trans[i] {
			continue
		}
		a, b := e.st[i].cur, f.st[i].cur
		if name == earning.StoreKey {
			// marks older than two days are as good as none
			if x, y := fmt.Sprint(marksOf(e)), fmt.Sprint(marksOf(f)); x != y {
				return fmt.Errorf("queries changed the earners' marks from %s to %s", x, y)
			}
			continue
		}
		if fmt.Sprint(len(a.ks)) != fmt.Sprint(len(b.ks)) {
			return fmt.Errorf("queries changed store %s: %d entries instead of %d", name, len(b.ks), len(a.ks))
		}
		for j := range a.ks {
			if a.ks[j] != b.ks[j] || !bytes.Equal(a.vs[j], b.vs[j]) {
				return fmt.Errorf("queries changed store %s: %q is %q instead of %q", name, b.ks[j], b.vs[j], a.vs[j])
			}
		}
	}
	return nil
}

func marksOf(e *E) []string {
	day := e.app.GetScheduleKeeper().OneDay(e.Ctx())
	var r []string
	for a, t := range e.earners() {
		for i, x := range []*time.Time{t.Vpn, t.Storage} {
			if x != nil && x.Add(2*day).After(e.t) {
				r = append(r, fmt.Sprint(nameOf(a), i, x.UTC()))
			}
		}
	}
	sort.Strings(r)
	return r
}

func init() {
	register(&Check{ID: "C25", Quick: 400 * time.Second,
		Rule: "every state of the families up to the depth: every query of every module with every argument that means something there; answers compared with what is stored, with the queries before gRPC, with lists and with what a request gives on a copy; the stores compared before and after",
		Scenarios: func(tier string) []*Scenario {
			fs := []Fam{famMoney(), famDeep(), famLife(), famPendings(), famTransit(), famStatus(), famHigh(), famRevoke(), famInterest(), famLadder(), famShop(), famNicks(), famSubs(), famQuotas(), famMessenger(),
				famJail(), famKeys(), famStake(), famLottery(1, 1), famGov(3), famReform(), famPollKinds(), famMarks(), famCouncil(), famMixed()}
			for i := range fs {
				d := 2
				switch fs[i].Name {
				case "pendings", "jail", "keys", "lottery 1+1", "government of 3", "marks", "council", "revoking", "poll requirements":
					d = 3
				case "reform":
					d = 4
				}
				if tier != "thorough" {
					fs[i].Depth[0] = d
				}
			}
			return famScenarios(tier, fs, deco{Inv: invQueries})
		}})
}
