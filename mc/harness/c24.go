//go:build daemon

package main

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/carlakc/boltnd"
	rt "github.com/carlakc/boltnd/verifrt"
)

func init() {
	register(&prop{
		id:   "C24",
		rule: "one startup with one setting and one sequence of connection results; non-trivial: all",
		bounds: "every number of retries from 0 to 255 with every position of the first success (and none), with a wait of 10 s and attempts that take no time; the same with waits of 0, 1 ns, 1 h and attempts that take 3 s for retries up to 12 and from 250 on (thorough: all) with the first three and last three positions; " +
			"attempts that fail with each of 50 errors, for retries up to 4; " +
			"started again and stopped afterwards",
		assumptions: []string{"a wait after the last failed attempt is not constrained"},
		scenarios:   c24Scenarios,
	})
}

type attemptError int

func (e attemptError) Error() string {
	return fmt.Sprintf("attempt <%d> fails", int(e))
}

type c24Case struct {
	retries int
	// success is the attempt that works, none if there is no such attempt.
	success int
	wait    time.Duration
	takes   time.Duration
	// err is what attempts fail with, unless it is nil.
	err error
	// wrap tells the attempts apart.
	wrap bool
}

func (c *c24Case) String() string {
	return fmt.Sprintf("%v retries, wait %v, attempt %v succeeds, each takes "+
		"%v, failure %T(%v)", c.retries, c.wait, c.success, c.takes,
		c.err, c.err)
}

// fail is what an attempt fails with.
func (c *c24Case) fail(n int) error {
	if c.err == nil {
		return attemptError(n)
	}
	if c.wrap {
		return fmt.Errorf("attempt <%d>: %w", n, c.err)
	}
	return c.err
}

func (c *c24Case) run(x *rt.Exec) {
	count(x)
	x.Distinct("%v", c)
	d := newDaemon(x)
	d.onConnect = func(n int) error {
		if c.takes > 0 {
			rt.Sleep(c.takes)
		}
		if n == c.success {
			return nil
		}
		return c.fail(n)
	}
	d.create(func(cfg *boltnd.Config) error {
		cfg.LNDRetires = uint8(c.retries)
		cfg.LNDWait = c.wait
		return nil
	})
	begin := x.Now()
	err := d.b.Start()
	took := x.Now() - begin
	want := c.retries + 1
	works := c.success < want
	if works {
		want = c.success + 1
	}
	if len(d.attempts) != want {
		x.Failf("wrong number of attempts: %v: %v, not %v", c,
			len(d.attempts), want)
	}
	for i, at := range d.attempts {
		if exp := time.Duration(i) * (c.wait + c.takes); at-begin != exp {
			x.Failf("wrong wait: %v: attempt %v at %v, not %v", c, i,
				at-begin, exp)
		}
	}
	least := time.Duration(want-1)*(c.wait+c.takes) + c.takes
	switch {
	case works && err != nil:
		x.Failf("startup failed: %v: %v", c, err)
	case works && took != least:
		x.Failf("startup late: %v: %v, not %v", c, took, least)
	case !works && err == nil:
		x.Failf("started without connection: %v", c)
	case !works:
		last := c.fail(want - 1)
		if !errors.Is(err, last) && !strings.Contains(err.Error(),
			last.Error()) {

			x.Failf("not the last error: %v: %v", c, err)
		}
		if took < least || took > least+c.wait {
			x.Failf("wrong time of failure: %v: %v", c, took)
		}
	}
	if d.b.Start() == nil {
		x.Failf("started twice: %v", c)
	}
	if len(d.attempts) != want {
		x.Failf("connects again: %v", c)
	}
	if err := d.b.Stop(); err != nil {
		x.Failf("stop: %v: %v", c, err)
	}
	x.QuiesceTimers()
	if len(d.attempts) != want {
		x.Failf("connects later: %v", c)
	}
}

func c24Scenarios(thorough bool) []*rt.Scenario {
	var out []*rt.Scenario
	for r := 0; r < 256; r++ {
		r := r
		out = append(out, &rt.Scenario{
			Name: fmt.Sprintf("retries=%d", r),
			Opt:  rt.Options{Horizon: 1 << 40},
			Body: func(x *rt.Exec) {
				for s := 0; s <= r+1; s++ {
					run := func(w, t time.Duration) {
						c := &c24Case{r, s, w, t, nil, false}
						c.run(x)
					}
					run(10*time.Second, 0)
					edge := s < 3 || s >= r-1
					if r > 12 && r < 250 && !thorough || !edge {
						continue
					}
					run(0, 0)
					run(1, 0)
					run(time.Hour, 3*time.Second)
					run(time.Second, time.Minute)
					run(time.Second, 24*time.Hour)
				}
			},
		})
	}
	// It makes no difference why an attempt fails.
	for r := 0; r < 5; r++ {
		r := r
		out = append(out, &rt.Scenario{
			Name: fmt.Sprintf("errors/retries=%d", r),
			Opt:  rt.Options{Horizon: 1 << 40},
			Body: func(x *rt.Exec) {
				for _, e := range zooNotFound {
					for s := 0; s <= r+1; s++ {
						for _, wrap := range []bool{true, false} {
							c := &c24Case{r, s, 10 * time.Second,
								0, e, wrap}
							c.run(x)
						}
					}
				}
			},
		})
	}
	// The defaults.
	out = append(out, &rt.Scenario{Name: "default", Body: func(x *rt.Exec) {
		cfg := boltnd.DefaultConfig()
		c := &c24Case{int(cfg.LNDRetires), 1000, cfg.LNDWait, 0, nil, false}
		c.run(x)
	}})
	return out
}
