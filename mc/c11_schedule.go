//go:build go1.22

package main

// Scheduler: every task runs exactly once, in the first block whose time has reached it, in order; cancelled
// tasks never run. The hooks registered here are interpreted programs carried in the task's payload, so that the
// exploration also covers tasks that schedule, cancel or panic while the schedule is being performed.

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/app"
	schedule "github.com/arterynetwork/artr/x/schedule/types"
)

const schedUnit = time.Hour

type schedTask struct {
	at   int // units since t0
	ev   string
	data string // "<id>|<action>,<action>..."
}

func (t schedTask) String() string { return fmt.Sprintf("%s@%d(%s)", t.ev, t.at, t.data) }

type schedModel struct {
	now     int
	next    int // ids given out
	pending []schedTask
	ran     int
}

func (m *schedModel) Clone() Model {
	c := *m
	c.pending = append([]schedTask{}, m.pending...)
	return &c
}
func (m *schedModel) Key() string { return fmt.Sprint(m.now, m.next, m.pending) }

type schedExec struct {
	task schedTask
	at   time.Time
}
type schedLog struct{ recs []schedExec }

var schedLogs sync.Map // *app.ArteryApp -> *schedLog

var schedEvents = []string{"mc/a", "mc/b"}

func schedOpt(a *app.ArteryApp) {
	lg := &schedLog{}
	schedLogs.Store(a, lg)
	k := a.GetScheduleKeeper()
	for _, ev := range schedEvents {
		ev := ev
		k.AddHook(ev, func(ctx sdk.Context, data []byte, at time.Time) {
			u := int(at.Sub(t0) / schedUnit)
			lg.recs = append(lg.recs, schedExec{schedTask{u, ev, string(data)}, ctx.BlockTime()})
			p := strings.SplitN(string(data), "|", 2)
			if len(p) < 2 {
				return
			}
			for _, act := range strings.Split(p[1], ",") {
				if act == "" {
					continue
				}
				kind, off, tev, tdata := parseAct(act, p[0])
				switch kind {
				case '+':
					k.ScheduleTask(ctx, t0.Add(time.Duration(u+off)*schedUnit), tev, []byte(tdata))
				case '-':
					k.DeleteAll(ctx, t0.Add(time.Duration(u+off)*schedUnit), tev)
				case '!':
					panic("hook panic")
				}
			}
		})
	}
}

// "+1a" schedules a follow-up of event a one unit after this task; "-1b" cancels all b tasks one unit after.
func parseAct(act, id string) (kind byte, off int, ev, data string) {
	kind = act[0]
	if kind == '!' {
		return
	}
	off = int(act[1] - '0')
	ev = "mc/" + act[2:3]
	data = id + "'|"
	return
}

func (m *schedModel) apply(t schedTask, nowKey int, sameKeyCancelled map[schedTask]int, added map[schedTask]int) {
	p := strings.SplitN(t.data, "|", 2)
	if len(p) < 2 {
		return
	}
	for _, act := range strings.Split(p[1], ",") {
		if act == "" {
			continue
		}
		kind, off, ev, data := parseAct(act, p[0])
		switch kind {
		case '+':
			n := schedTask{t.at + off, ev, data}
			m.pending = append(m.pending, n)
			added[n]++
		case '-':
			var keep []schedTask
			for _, x := range m.pending {
				if x.at == t.at+off && x.ev == ev {
					if x.at == t.at {
						sameKeyCancelled[x]++
					}
					continue
				}
				keep = append(keep, x)
			}
			m.pending = keep
		case '!':
			return
		}
	}
}

func (m *schedModel) take(t schedTask) bool {
	for i, x := range m.pending {
		if x == t {
			m.pending = append(append([]schedTask{}, m.pending[:i]...), m.pending[i+1:]...)
			return true
		}
	}
	return false
}

func schedStore(e *E) ([]schedTask, error) {
	var resp schedule.AllResponse
	if err := e.Query("/artery.schedule.v1beta1.Query/All", &schedule.AllRequest{}, &resp); err != nil {
		return nil, err
	}
	var r []schedTask
	for _, t := range resp.Tasks {
		r = append(r, schedTask{int(t.Time.Sub(t0) / schedUnit), t.HandlerName, string(t.Data)})
	}
	return r, nil
}

func schedCompare(e *E) error {
	m := e.M.(*schedModel)
	got, err := schedStore(e)
	if err != nil {
		return err
	}
	want := append([]schedTask{}, m.pending...)
	sort.SliceStable(want, func(i, j int) bool { return want[i].at < want[j].at })
	e.ctr.compared++
	if fmt.Sprint(want) != fmt.Sprint(got) {
		return fmt.Errorf("pending tasks: expected %v, the chain has %v", want, got)
	}
	return nil
}

func schedBlock(e *E, d int) error {
	m := e.M.(*schedModel)
	v, _ := schedLogs.Load(e.app)
	lg := v.(*schedLog)
	lg.recs = nil
	// the whole application's BeginBlocker
	e.h++
	e.t = e.t.Add(time.Duration(d) * schedUnit)
	e.h--
	if err := e.Begin(BlockIn{}); err != nil {
		return err
	}
	m.now += d
	startDue := map[schedTask]int{}
	order := append([]schedTask{}, m.pending...)
	sort.SliceStable(order, func(i, j int) bool { return order[i].at < order[j].at })
	var seq []schedTask
	for _, t := range order {
		if t.at <= m.now {
			startDue[t]++
			seq = append(seq, t)
		}
	}
	added := map[schedTask]int{}
	skc := map[schedTask]int{}
	last := -1 << 30
	si := 0
	for _, r := range lg.recs {
		e.ctr.compared++
		if !r.at.Equal(e.t) {
			return fmt.Errorf("task %v ran with block time %v instead of %v", r.task, r.at, e.t)
		}
		if r.task.at > m.now {
			return fmt.Errorf("task %v ran at %d, before it was due", r.task, m.now)
		}
		if !m.take(r.task) {
			if skc[r.task] > 0 {
				skc[r.task]--
			} else {
				return fmt.Errorf("task %v ran although it was not pending (ran twice, or was cancelled)", r.task)
			}
		}
		if r.task.at < last {
			return fmt.Errorf("task %v ran after a task due at %d", r.task, last)
		}
		last = r.task.at
		if startDue[r.task] > 0 {
			// tasks of the same instant run in the order they were scheduled
			for si < len(seq) && seq[si] != r.task {
				si++
			}
			if si == len(seq) {
				return fmt.Errorf("task %v ran out of the order it was scheduled in", r.task)
			}
			si++
			startDue[r.task]--
		}
		m.apply(r.task, last, skc, added)
	}
	for _, t := range m.pending {
		if t.at <= m.now {
			if added[t] > 0 {
				added[t]-- // added while the schedule was running: this or the next block
				continue
			}
			return fmt.Errorf("task %v was due at %d and did not run (now %d)", t, t.at, m.now)
		}
	}
	return schedCompare(e)
}

func schedScenario(name string, acts []string, offs []int, dts []int, depth int, gen []schedTask) *Scenario {
	return &Scenario{
		Name: name, Depth: depth,
		Opts: []func(*app.ArteryApp){schedOpt},
		Note: "tasks with every payload program in " + fmt.Sprint(acts),
		Init: func(m *Machine) (*E, error) {
			g := newGen(Acc{Name: "a", Coins: 1000})
			g.noBegin = true
			sm := &schedModel{}
			for _, t := range gen {
				g.Sched.Tasks = append(g.Sched.Tasks, schedule.Task{HandlerName: t.ev, Data: []byte(t.data), Time: t0.Add(time.Duration(t.at) * schedUnit)})
				sm.pending = append(sm.pending, t)
			}
			e, err := g.Start(m)
			if err != nil {
				return nil, err
			}
			e.M = sm
			return e, schedCompare(e)
		},
		Ops: func(e *E) []Op {
			m := e.M.(*schedModel)
			var ops []Op
			for _, d := range dts {
				d := d
				ops = append(ops, Op{fmt.Sprintf("block(+%d)", d), func(e *E) error { return schedBlock(e, d) }})
			}
			if len(m.pending) < 5 {
				for _, off := range offs {
					for i, act := range acts {
						off, act := off, act
						ev := schedEvents[i%len(schedEvents)]
						ops = append(ops, Op{fmt.Sprintf("schedule(%s,+%d,%q)", ev, off, act), func(e *E) error {
							m := e.M.(*schedModel)
							t := schedTask{m.now + off, ev, fmt.Sprintf("%d|%s", m.next, act)}
							m.next++
							ctx, write := e.branch()
							e.app.GetScheduleKeeper().ScheduleTask(ctx, t0.Add(time.Duration(t.at)*schedUnit), t.ev, []byte(t.data))
							write()
							m.pending = append(m.pending, t)
							return schedCompare(e)
						}})
					}
				}
			}
			done := map[string]bool{}
			for _, t := range m.pending {
				t := t
				ops = append(ops, Op{fmt.Sprintf("cancel(%v)", t), func(e *E) error {
					m := e.M.(*schedModel)
					ctx, write := e.branch()
					e.app.GetScheduleKeeper().Delete(ctx, t0.Add(time.Duration(t.at)*schedUnit), t.ev, []byte(t.data))
					write()
					for m.take(t) {
					}
					return schedCompare(e)
				}})
				k := fmt.Sprintf("cancelAll(%s@%d)", t.ev, t.at)
				if !done[k] {
					done[k] = true
					ops = append(ops, Op{k, func(e *E) error {
						m := e.M.(*schedModel)
						ctx, write := e.branch()
						e.app.GetScheduleKeeper().DeleteAll(ctx, t0.Add(time.Duration(t.at)*schedUnit), t.ev)
						write()
						var keep []schedTask
						for _, x := range m.pending {
							if !(x.ev == t.ev && x.at == t.at) {
								keep = append(keep, x)
							}
						}
						m.pending = keep
						return schedCompare(e)
					}})
				}
			}
			return ops
		},
	}
}

func init() {
	register(&Check{
		ID: "C11",
		Scenarios: func(tier string) []*Scenario {
			d1, d2, d3 := 4, 6, 6
			if tier == "thorough" {
				d1, d2, d3 = 5, 9, 7
			}
			gen := []schedTask{
				{1, "mc/a", "g0|+1b"}, {1, "mc/b", "g1|"}, {2, "mc/b", "g2|-1b"}, {3, "mc/b", "g3|"}, {3, "mc/a", "g4|"},
			}
			return []*Scenario{
				schedScenario("programs", []string{"", "+1a", "+0b", "-1b", "!", "+1b,-2a"}, []int{0, 1, 2}, []int{0, 1, 2, 4}, d1, nil),
				schedScenario("same-instant", []string{"", "-0b", "+0a", "!"}, []int{1}, []int{1, 2}, d2, nil),
				schedScenario("from-genesis", []string{"", "+2a"}, []int{1, 3}, []int{0, 1, 2, 3}, d3, gen),
			}
		},
		Rule:        "all sequences, up to the depth, of scheduling (every payload program x offset), cancelling any pending task and producing a block at every listed time step",
		Assumptions: []string{"hooks are the harness's own; module hooks are covered by the other checks"},
	})
}
