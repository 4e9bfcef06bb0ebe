//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/cosmos/cosmos-sdk/codec"
	"gopkg.in/yaml.v3"

	"github.com/arterynetwork/artr/util"
	noding "github.com/arterynetwork/artr/x/noding/types"
)

// Fractions: every operation on every pair from a set that includes the extremes, every chain of two operations on every
// triple of a smaller set (operands shared, results used as operands), every encoding of every value, and every string up
// to a length over the alphabet of the grammar. The oracle is exact rational arithmetic (math/big.Rat).

type frac struct {
	n, d int64
	r    *big.Rat
}

func fracs(ns, ds []int64) (l []frac) {
	for _, n := range ns {
		for _, d := range ds {
			l = append(l, frac{n, d, new(big.Rat).SetFrac(big.NewInt(n), big.NewInt(d))})
		}
	}
	return l
}

// valueOf reads a fraction back through its text, without using its arithmetic.
func valueOf(f util.Fraction) (r *big.Rat, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("%v", x)
		}
	}()
	s := f.String()
	r = new(big.Rat)
	num, den := s, "1"
	if strings.HasSuffix(s, "%") {
		num, den = s[:len(s)-1], "100"
	} else if i := strings.IndexByte(s, '/'); i >= 0 {
		num, den = s[:i], s[i+1:]
	}
	n, ok := new(big.Int).SetString(num, 10)
	d, ok2 := new(big.Int).SetString(den, 10)
	if !ok || !ok2 || d.Sign() == 0 {
		return nil, fmt.Errorf("%q is not a fraction", s)
	}
	return r.SetFrac(n, d), nil
}

func truncated(r *big.Rat) *big.Int { return new(big.Int).Quo(r.Num(), r.Denom()) }

type fracOp struct {
	name string
	do   func(x, y util.Fraction) util.Fraction
	want func(x, y *big.Rat) *big.Rat // nil result: not defined
}

var fracOps = []fracOp{
	{"Add", func(x, y util.Fraction) util.Fraction { return x.Add(y) }, func(x, y *big.Rat) *big.Rat { return new(big.Rat).Add(x, y) }},
	{"Sub", func(x, y util.Fraction) util.Fraction { return x.Sub(y) }, func(x, y *big.Rat) *big.Rat { return new(big.Rat).Sub(x, y) }},
	{"Mul", func(x, y util.Fraction) util.Fraction { return x.Mul(y) }, func(x, y *big.Rat) *big.Rat { return new(big.Rat).Mul(x, y) }},
	{"Div", func(x, y util.Fraction) util.Fraction { return x.Div(y) }, func(x, y *big.Rat) *big.Rat {
		if y.Sign() == 0 {
			return nil
		}
		return new(big.Rat).Quo(x, y)
	}},
}

var fracOnes = []fracOp{
	{"Neg", func(x, _ util.Fraction) util.Fraction { return x.Neg() }, func(x, _ *big.Rat) *big.Rat { return new(big.Rat).Neg(x) }},
	{"Reduce", func(x, _ util.Fraction) util.Fraction { return x.Reduce() }, func(x, _ *big.Rat) *big.Rat { return x }},
	{"Clone", func(x, _ util.Fraction) util.Fraction { return x.Clone() }, func(x, _ *big.Rat) *big.Rat { return x }},
}

// judgeFraction compares everything that can be asked of one fraction.
func judgeFraction(what string, f util.Fraction, want *big.Rat) error {
	r, err := valueOf(f)
	if err != nil {
		return fmt.Errorf("%s: %v instead of %s", what, err, want.RatString())
	}
	if r.Cmp(want) != 0 {
		return fmt.Errorf("%s is %s instead of %s", what, r.RatString(), want.RatString())
	}
	if f.IsZero() != (want.Sign() == 0) || f.IsNegative() != (want.Sign() < 0) || f.IsPositive() != (want.Sign() > 0) || f.IsNullValue() {
		return fmt.Errorf("%s = %s: zero %v negative %v positive %v null %v", what, r.RatString(), f.IsZero(), f.IsNegative(), f.IsPositive(), f.IsNullValue())
	}
	t := truncated(want)
	if f.BigInt().Cmp(t) != 0 {
		return fmt.Errorf("%s = %s in whole units is %s instead of %s", what, r.RatString(), f.BigInt(), t)
	}
	if t.IsInt64() && f.Int64() != t.Int64() {
		return fmt.Errorf("%s = %s in whole units is %d instead of %s", what, r.RatString(), f.Int64(), t)
	}
	return nil
}

func judgeCompare(what string, x, y util.Fraction, cmp int) error {
	got := fmt.Sprint(x.Equal(y), x.LT(y), x.GT(y), x.LTE(y), x.GTE(y))
	want := fmt.Sprint(cmp == 0, cmp < 0, cmp > 0, cmp <= 0, cmp >= 0)
	if got != want {
		return fmt.Errorf("%s: equal, less, greater, at most, at least: %s instead of %s", what, got, want)
	}
	return nil
}

func same(what string, f util.Fraction, r *big.Rat) error {
	got, err := valueOf(f)
	if err == nil && got.Cmp(r) != 0 {
		err = fmt.Errorf("%s is now %s, it was %s", what, got.RatString(), r.RatString())
	}
	return err
}

func guarded(what string, f func() error) (err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("%s: panic: %v", what, x)
		}
	}()
	return f()
}

func fracPair(x, y frac) (n int64, err error) {
	what := fmt.Sprintf("x=%d/%d, y=%d/%d", x.n, x.d, y.n, y.d)
	err = guarded(what, func() error {
		a, b := util.NewFraction(x.n, x.d), util.NewFraction(y.n, y.d)
		for _, o := range fracOps {
			w := o.want(x.r, y.r)
			if w == nil {
				continue
			}
			n++
			if err := judgeFraction(what+": "+o.name, o.do(a, b), w); err != nil {
				return err
			}
			if x.n == y.n && x.d == y.d { // one value as both operands
				if err := judgeFraction(what+": the same value twice: "+o.name, o.do(a, a), w); err != nil {
					return err
				}
			}
			if err := same(what+": x after "+o.name, a, x.r); err != nil {
				return err
			}
			if err := same(what+": y after "+o.name, b, y.r); err != nil {
				return err
			}
		}
		n++
		return judgeCompare(what, a, b, x.r.Cmp(y.r))
	})
	return n, err
}

// fracChain: (x op y) op z and z op (x op y), the intermediate value and the operands staying as they are.
func fracChain(x, y, z frac) (n int64, err error) {
	what := fmt.Sprintf("x=%d/%d, y=%d/%d, z=%d/%d", x.n, x.d, y.n, y.d, z.n, z.d)
	err = guarded(what, func() error {
		for _, o := range append(fracOps, fracOnes...) {
			w := o.want(x.r, y.r)
			if w == nil {
				continue
			}
			for _, p := range append(fracOps, fracOnes...) {
				a, b, c := util.NewFraction(x.n, x.d), util.NewFraction(y.n, y.d), util.NewFraction(z.n, z.d)
				m := o.do(a, b)
				if v := p.want(w, z.r); v != nil {
					n++
					if err := judgeFraction(fmt.Sprintf("%s: (x %s y) %s z", what, o.name, p.name), p.do(m, c), v); err != nil {
						return err
					}
				}
				if v := p.want(z.r, w); v != nil {
					n++
					if err := judgeFraction(fmt.Sprintf("%s: z %s (x %s y)", what, p.name, o.name), p.do(c, m), v); err != nil {
						return err
					}
				}
				if v := p.want(w, x.r); v != nil {
					n++
					if err := judgeFraction(fmt.Sprintf("%s: (x %s y) %s x", what, o.name, p.name), p.do(m, a), v); err != nil {
						return err
					}
				}
				for _, q := range []struct {
					n string
					f util.Fraction
					r *big.Rat
				}{{"x", a, x.r}, {"y", b, y.r}, {"z", c, z.r}, {"x " + o.name + " y", m, w}} {
					if err := same(fmt.Sprintf("%s: %s after (x %s y) %s z", what, q.n, o.name, p.name), q.f, q.r); err != nil {
						return err
					}
				}
				if err := judgeCompare(fmt.Sprintf("%s: x %s y against z", what, o.name), m, c, w.Cmp(z.r)); err != nil {
					return err
				}
			}
		}
		return nil
	})
	return n, err
}

func fracOne(x frac, ints []int64) (n int64, err error) {
	what := fmt.Sprintf("x=%d/%d", x.n, x.d)
	err = guarded(what, func() error {
		for _, o := range fracOnes {
			n++
			a := util.NewFraction(x.n, x.d)
			if err := judgeFraction(what+": "+o.name, o.do(a, a), o.want(x.r, nil)); err != nil {
				return err
			}
			if err := same(what+" after "+o.name, a, x.r); err != nil {
				return err
			}
		}
		a := util.NewFraction(x.n, x.d)
		for _, i := range ints {
			n += 2
			ir := new(big.Rat).SetInt64(i)
			if err := judgeFraction(fmt.Sprintf("%s: MulInt64(%d)", what, i), a.MulInt64(i), new(big.Rat).Mul(x.r, ir)); err != nil {
				return err
			}
			if i != 0 {
				if err := judgeFraction(fmt.Sprintf("%s: DivInt64(%d)", what, i), a.DivInt64(i), new(big.Rat).Quo(x.r, ir)); err != nil {
					return err
				}
			}
		}
		return nil
	})
	return n, err
}

var fracCodec struct {
	sync.Once
	m codec.Marshaler
	a *codec.LegacyAmino
}

// fracText: every encoding of one value gives the value back, as does every encoding of what comes back.
func fracText(f util.Fraction, want *big.Rat) (err error) {
	what := "?"
	return guarded("encoding", func() error {
		if !f.IsNullValue() {
			what = want.RatString()
		} else {
			what = "the null value"
		}
		back := func(how string, g util.Fraction, err error) error {
			if err != nil {
				return fmt.Errorf("%s does not come back from %s: %v", what, how, err)
			}
			if want == nil {
				if !g.IsNullValue() {
					return fmt.Errorf("%s comes back from %s as %s", what, how, g)
				}
				return nil
			}
			if g.IsNullValue() {
				return fmt.Errorf("%s comes back from %s as the null value", what, how)
			}
			if err := judgeFraction(what+" through "+how, g, want); err != nil {
				return err
			}
			return judgeCompare(what+" through "+how, f, g, 0)
		}
		s := f.String()
		g, err := util.ParseFraction(s)
		if err := back("its text "+s, g, err); err != nil {
			return err
		}
		if g.String() != s {
			return fmt.Errorf("%s is printed as %s, and after parsing as %s", what, s, g)
		}
		js, err := json.Marshal(f)
		if err == nil {
			g = util.NewFraction(7, 13)
			err = json.Unmarshal(js, &g)
		}
		if err := back("JSON "+string(js), g, err); err != nil {
			return err
		}
		ys, err := yaml.Marshal(f)
		if err == nil {
			g = util.NewFraction(7, 13)
			err = yaml.Unmarshal(ys, &g)
		}
		if err := back("YAML "+string(ys), g, err); err != nil {
			return err
		}
		buf := make([]byte, f.Size()+3)
		copy(buf[f.Size():], "xyz")
		k, err := f.MarshalTo(buf)
		if err == nil && (k != f.Size() || string(buf[k:]) != "xyz") {
			return fmt.Errorf("%s: binary size is %d, %d bytes written", what, f.Size(), k)
		}
		if err == nil {
			g = util.NewFraction(7, 13)
			err = g.Unmarshal(buf[:k])
		}
		if err := back("binary", g, err); err != nil {
			return err
		}
		for i := range buf { // the value does not live on in the bytes it was read from
			buf[i] = '9'
		}
		if err := back("binary, overwritten afterwards", g, nil); err != nil {
			return err
		}
		if as, err := f.MarshalAmino(); err != nil || g.UnmarshalAmino(as) != nil {
			return fmt.Errorf("%s does not come back from Amino", what)
		} else if err := back("Amino", g, nil); err != nil {
			return err
		}
		// inside the messages of the chain
		third := util.NewFraction(1, 3)
		v := noding.Distribution{Slices: []noding.Distribution_Slice{{Part: f, VotingPower: 5}, {Part: third, VotingPower: 6}, {Part: f.Clone(), VotingPower: 7}}, LuckiesVotingPower: 8}
		check := func(how string, u noding.Distribution, err error) error {
			if err != nil {
				return fmt.Errorf("%s inside a message does not come back from %s: %v", what, how, err)
			}
			if len(u.Slices) != 3 || u.LuckiesVotingPower != 8 || u.Slices[0].VotingPower != 5 || u.Slices[1].VotingPower != 6 || u.Slices[2].VotingPower != 7 || u.Slices[1].Part.String() != "1/3" {
				return fmt.Errorf("%s inside a message: %v comes back from %s as %v", what, v, how, u)
			}
			if err := back(how, u.Slices[0].Part, nil); err != nil {
				return err
			}
			return back(how, u.Slices[2].Part, nil)
		}
		var u noding.Distribution
		bz, err := fracCodec.m.MarshalBinaryBare(&v)
		if err == nil {
			err = fracCodec.m.UnmarshalBinaryBare(bz, &u)
		}
		if err := check("protobuf", u, err); err != nil {
			return err
		}
		if n := v.Size(); n != len(bz) {
			return fmt.Errorf("%s inside a message: size %d announced, %d written", what, n, len(bz))
		}
		u = noding.Distribution{}
		jz, err := fracCodec.m.MarshalJSON(&v)
		if err == nil {
			err = fracCodec.m.UnmarshalJSON(jz, &u)
		}
		if err := check("JSON "+string(jz), u, err); err != nil {
			return err
		}
		u = noding.Distribution{}
		az, err := fracCodec.a.MarshalJSON(v)
		if err == nil {
			err = fracCodec.a.UnmarshalJSON(az, &u)
		}
		if err := check("Amino JSON "+string(az), u, err); err != nil {
			return err
		}
		u = noding.Distribution{}
		az, err = fracCodec.a.MarshalBinaryBare(v)
		if err == nil {
			err = fracCodec.a.UnmarshalBinaryBare(az, &u)
		}
		return check("Amino", u, err)
	})
}

// grammar: what a text stands for, written independently of the code: an integer, an integer and a percent sign, or an
// integer, a slash and an unsigned non-zero number; nothing and "nil" are the null value.
func grammar(s string) (r *big.Rat, null, ok bool) {
	if s == "" || s == "nil" {
		return nil, true, true
	}
	digits := func(t string) *big.Int {
		if t == "" {
			return nil
		}
		v := new(big.Int)
		for i := 0; i < len(t); i++ {
			if t[i] < '0' || t[i] > '9' {
				return nil
			}
			v.Mul(v, big.NewInt(10)).Add(v, big.NewInt(int64(t[i]-'0')))
		}
		return v
	}
	num, den := s, big.NewInt(1)
	if i := strings.IndexByte(s, '/'); i >= 0 {
		num = s[:i]
		if den = digits(s[i+1:]); den == nil || den.Sign() == 0 {
			return nil, false, false
		}
	} else if strings.HasSuffix(s, "%") {
		num, den = s[:len(s)-1], big.NewInt(100)
	}
	neg := strings.HasPrefix(num, "-")
	n := digits(strings.TrimPrefix(num, "-"))
	if n == nil {
		return nil, false, false
	}
	if neg {
		n.Neg(n)
	}
	return new(big.Rat).SetFrac(n, den), false, true
}

func fracString(s string) (err error) {
	return guarded(fmt.Sprintf("the text %q", s), func() error {
		want, null, ok := grammar(s)
		judge := func(how string, g util.Fraction, err error) error {
			if !ok {
				if err == nil {
					return fmt.Errorf("%q is not a fraction, but is read as one by %s", s, how)
				}
				return nil
			}
			if err != nil {
				return fmt.Errorf("%q is a fraction, but is refused by %s: %v", s, how, err)
			}
			if null {
				if !g.IsNullValue() {
					return fmt.Errorf("%q is read as %s by %s", s, g, how)
				}
				return nil
			}
			return judgeFraction(fmt.Sprintf("%q read by %s", s, how), g, want)
		}
		g, err := util.ParseFraction(s)
		if err := judge("parsing", g, err); err != nil {
			return err
		}
		js, _ := json.Marshal(s)
		g = util.NewFraction(7, 13)
		if err = judge("JSON", g, json.Unmarshal(js, &g)); err != nil {
			return err
		}
		if !ok && g.String() != "7/13" {
			return fmt.Errorf("refusing the JSON text %q has changed the value to %s", s, g)
		}
		g = util.NewFraction(7, 13)
		if err = judge("the binary form", g, g.Unmarshal([]byte(s))); err != nil {
			return err
		}
		if !ok && g.String() != "7/13" {
			return fmt.Errorf("refusing the binary text %q has changed the value to %s", s, g)
		}
		if ok {
			g, _ = util.ParseFraction(s)
			return fracText(g, want)
		}
		return nil
	})
}

// parallelDo runs f(i) for all i below n on all workers and reports the first failure in order.
func parallelDo(n int, deadline time.Time, f func(i int) (int64, error)) (count int64, complete bool, at int, err error) {
	var next, total int64
	var mu sync.Mutex
	at = n
	complete = true
	var wg sync.WaitGroup
	for w := 0; w < nWorkers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer unwatch(w)
			for {
				i := int(atomic.AddInt64(&next, 1) - 1)
				if i >= n {
					return
				}
				mu.Lock()
				stop := i > at
				if time.Now().After(deadline) {
					complete, stop = false, true
				}
				mu.Unlock()
				if stop {
					return
				}
				watch(w, &Scenario{Name: "fractions"}, nil, fmt.Sprintf("item %d of %d", i, n))
				k, e := f(i)
				atomic.AddInt64(&total, k)
				if e != nil {
					mu.Lock()
					if i < at {
						at, err = i, e
					}
					mu.Unlock()
				}
			}
		}(w)
	}
	wg.Wait()
	return total, complete, at, err
}

func fractionsExtra(tier string, deadline time.Time) (out []Result) {
	fracCodec.Do(func() { m := newMachine(); fracCodec.m, fracCodec.a = m.ec.Marshaler, m.ec.Amino })
	var ns []int64
	top := int64(12)
	if tier == "thorough" {
		top = 30
	}
	for n := -top; n <= top; n++ {
		ns = append(ns, n)
	}
	big64 := []int64{100, -100, 999, 1_000_000, -1_000_000, 1_000_000_000_000_000_000, -1_000_000_000_000_000_000, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1}
	ns = append(ns, big64...)
	var ds []int64
	for d := int64(1); d <= top; d++ {
		ds = append(ds, d)
	}
	ds = append(ds, 100, 1000, 86_400_000_000_000, math.MaxInt64)
	all := fracs(ns, ds)
	// negative denominators: arithmetic only, they have no text form
	run := func(name, note string, n int, f func(i int) (int64, error), what func(i int) string) bool {
		start := time.Now()
		k, complete, at, err := parallelDo(n, deadline, f)
		r := Result{Scenario: name, Note: note, States: int64(n), Transitions: k, Compared: k, Complete: complete, WallS: time.Since(start).Seconds(), Accepted: k}
		r.Samples = []string{fmt.Sprintf("%s: %s", name, what(n/2)), fmt.Sprintf("%s: %s", name, what(n-1))}
		if err != nil {
			r.Viol = &Violation{Scenario: name, Trace: []string{what(at)}, Msg: err.Error(), Confirm: "deterministic enumeration"}
		}
		out = append(out, r)
		return err == nil
	}
	show := func(x frac) string { return fmt.Sprintf("%d/%d", x.n, x.d) }
	ints := append([]int64{0, 1, -1, 2, 3, -7, 24, 30, 365}, big64...)
	if !run("one value", "every operation on one value, and with every whole number of a list", len(all),
		func(i int) (int64, error) { return fracOne(all[i], ints) }, func(i int) string { return show(all[i]) }) {
		return
	}
	if !run("pairs", "sum, difference, product, quotient and all comparisons of every pair, operands unchanged", len(all),
		func(i int) (n int64, err error) {
			for _, y := range all {
				k, err := fracPair(all[i], y)
				n += k
				if err != nil {
					return n, err
				}
			}
			return n, nil
		}, func(i int) string { return show(all[i]) + " with every other" }) {
		return
	}
	small := fracs([]int64{-3, -1, 0, 1, 2, 6, math.MinInt64, math.MaxInt64}, []int64{1, 2, 4, 6, 100, math.MaxInt64})
	if tier == "thorough" {
		small = fracs([]int64{-100, -7, -3, -1, 0, 1, 2, 6, 50, math.MinInt64, math.MaxInt64}, []int64{1, 2, 3, 4, 6, 30, 100, math.MaxInt64})
	}
	if !run("chains", "every two operations in a row on every triple of a smaller set, the operands and the intermediate value being used again", len(small)*len(small),
		func(i int) (n int64, err error) {
			for _, z := range small {
				k, err := fracChain(small[i/len(small)], small[i%len(small)], z)
				n += k
				if err != nil {
					return n, err
				}
			}
			return n, nil
		}, func(i int) string {
			return show(small[i/len(small)]) + " and " + show(small[i%len(small)]) + " with every third"
		}) {
		return
	}
	enc := append([]frac{}, all...)
	if !run("encodings", "text, JSON, YAML, binary and Amino forms of every value, by itself and inside a message", len(enc)+1,
		func(i int) (int64, error) {
			if i == len(enc) {
				return 1, fracText(util.Fraction{}, nil)
			}
			f := util.NewFraction(enc[i].n, enc[i].d)
			if err := fracText(f, enc[i].r); err != nil {
				return 1, err
			}
			return 3, guarded(show(enc[i]), func() error {
				if err := fracText(f.Mul(f), new(big.Rat).Mul(enc[i].r, enc[i].r)); err != nil {
					return err
				}
				return fracText(f.Add(util.NewFraction(1, 7)), new(big.Rat).Add(enc[i].r, big.NewRat(1, 7)))
			})
		}, func(i int) string {
			if i == len(enc) {
				return "the null value"
			}
			return show(enc[i])
		}) {
		return
	}
	alpha := []byte("012-+/%n.")
	length := 6
	if tier == "thorough" {
		length = 7
	}
	total, pow := 0, []int{}
	for l, p := 0, 1; l <= length; l++ {
		pow = append(pow, total)
		total += p
		p *= len(alpha)
	}
	text := func(i int) string {
		l := length
		for pow[l] > i {
			l--
		}
		i -= pow[l]
		bz := make([]byte, l)
		for j := range bz {
			bz[j] = alpha[i%len(alpha)]
			i /= len(alpha)
		}
		return string(bz)
	}
	special := []string{"nil", "Nil", " nil", "nil ", " 1", "1 ", "1\n", "\n1", "1/2\n", "1 /2", "1/ 2", "1%\n", "%", "1%%", "1%/2", "1/2%", "1//2", "1/-2", "--1", "0x1", "1e3", "٣", "１", "1/２",
		"1_000", "99999999999999999999999999/3", "-99999999999999999999999999%", "1/99999999999999999999999999", "00000000000000000000001/00000000000002", "1/00000000000000000000", "-0", "-0/3", "-0%", "\x00", "1\x00", "null", "1,5"}
	if !run("texts", "every text of the listed characters up to the length, and a list of special ones: read exactly if it is a fraction", total+len(special),
		func(i int) (int64, error) {
			if i < total {
				return 1, fracString(text(i))
			}
			return 1, fracString(special[i-total])
		}, func(i int) string {
			if i < total {
				return fmt.Sprintf("%q", text(i))
			}
			return fmt.Sprintf("%q", special[i-total])
		}) {
		return
	}
	negs := append(fracs([]int64{-6, -1, 0, 1, 4, math.MaxInt64}, []int64{-1, -2, -3, -100, math.MinInt64}), fracs([]int64{-6, 0, 4, 5}, []int64{1, 3})...)
	run("negative denominators", "operations and comparisons of every pair where denominators may be negative", len(negs),
		func(i int) (n int64, err error) {
			for _, y := range negs {
				x := negs[i]
				what := show(x) + " and " + show(y)
				err := guarded(what, func() error {
					for _, o := range fracOps {
						if w := o.want(x.r, y.r); w != nil {
							n++
							a := o.do(util.NewFraction(x.n, x.d), util.NewFraction(y.n, y.d))
							if err := judgeFraction(what+": "+o.name, a.Reduce(), w); err != nil {
								return err
							}
						}
					}
					return judgeCompare(what, util.NewFraction(x.n, x.d), util.NewFraction(y.n, y.d), x.r.Cmp(y.r))
				})
				if err != nil {
					return n, err
				}
			}
			return n, nil
		}, func(i int) string { return show(negs[i]) })
	return
}

func init() {
	register(&Check{ID: "C22", Quick: 60 * time.Second,
		Rule:        "every value, pair, triple, encoding and text of the listed finite sets, each compared with exact rational arithmetic and with an independent grammar",
		Assumptions: []string{"division by zero and arithmetic on the null value are outside the property; negative denominators (never produced by parsing or arithmetic) are checked for arithmetic, not for their text"},
		Extra:       fractionsExtra})
}
