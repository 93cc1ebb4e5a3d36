// Signal registrations against the signals this process sends itself.
package c37

import (
	"fmt"
	"os"
	"os/signal"
	"slices"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/donnie4w/gofer/gosignal"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

var all = []syscall.Signal{syscall.SIGHUP, syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM, syscall.SIGUSR1, syscall.SIGUSR2,
	syscall.SIGALRM, syscall.SIGWINCH, syscall.SIGIO, syscall.SIGPIPE, 40, 41, 50, 63}

// sinks see every signal too: they keep the default action away and tell of the delivery.
var sinks = map[syscall.Signal]chan os.Signal{}

func TestMain(m *testing.M) {
	for _, s := range all {
		sinks[s] = make(chan os.Signal, 64)
		signal.Notify(sinks[s], s)
	}
	h.Main(m)
}

type reg struct {
	set  []syscall.Signal
	mu   sync.Mutex
	got  []os.Signal
	want []syscall.Signal // what the one call may be for; none: not called yet
}

func (r *reg) calls() []os.Signal {
	r.mu.Lock()
	defer r.mu.Unlock()
	return slices.Clone(r.got)
}

func within(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for !cond() {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(20 * time.Microsecond)
	}
	return true
}

func sigs(t *rapid.T, label string, most int) []syscall.Signal {
	pool := all
	if rapid.Bool().Draw(t, label+".few") {
		pool = all[3:8]
	}
	var l []syscall.Signal
	for n := rapid.IntRange(1, most).Draw(t, label+".n"); n > 0; n-- {
		l = append(l, rapid.SampledFrom(pool).Draw(t, label))
	}
	return l
}

func TestSignals(t *testing.T) {
	h.Check(t, 500, 4000, func(t *rapid.T, c *h.C) {
		var regs []*reg
		fired := 0
		look := func() {
			for i, r := range regs {
				if len(r.want) > 0 {
					ok := within(30*time.Second, func() bool { return len(r.calls()) > 0 })
					h.Must(t, c, ok, "registration %d for %v: the handler is not called for %v", i, r.set, r.want)
				}
				l := r.calls()
				if len(r.want) == 0 {
					h.Must(t, c, len(l) == 0, "registration %d for %v: the handler is called for %v", i, r.set, l)
					continue
				}
				h.Must(t, c, len(l) == 1, "registration %d for %v: the handler is called %d times: %v", i, r.set, len(l), l)
				s, ok := l[0].(syscall.Signal)
				h.Must(t, c, ok && slices.Contains(r.want, s), "registration %d for %v: the handler is called with %v instead of %v", i, r.set, l[0], r.want)
			}
		}
		for n := rapid.IntRange(2, 10).Draw(t, "steps"); n > 0; n-- {
			switch op := rapid.IntRange(0, 4).Draw(t, "op"); {
			case op <= 1 || len(regs) == 0: // register, several at once
				var fresh []*reg
				for k := rapid.IntRange(1, 3).Draw(t, "at once"); k > 0; k-- {
					fresh = append(fresh, &reg{set: sigs(t, "set", 6)})
					c.Note("register %v", fresh[len(fresh)-1].set)
				}
				var wg sync.WaitGroup
				done := make(chan bool)
				for _, r := range fresh {
					wg.Add(1)
					go func() {
						defer wg.Done()
						var set []os.Signal
						for _, s := range r.set {
							set = append(set, s)
						}
						gosignal.ListenSignalEvent(func(s os.Signal) {
							r.mu.Lock()
							r.got = append(r.got, s)
							r.mu.Unlock()
						}, set...)
					}()
				}
				go func() { wg.Wait(); close(done) }()
				select {
				case <-done:
				case <-time.After(h.Patience(30 * time.Second)):
					h.Must(t, c, false, "registering does not return")
				}
				regs = append(regs, fresh...)
			default:
				burst := sigs(t, "signal", 1)
				if op == 4 {
					burst = sigs(t, "burst", 5)
				}
				c.Note("signals %v", burst)
				var once []syscall.Signal
				for _, s := range burst {
					if !slices.Contains(once, s) {
						once = append(once, s)
					}
				}
				for _, s := range once {
					if err := syscall.Kill(os.Getpid(), s); err != nil {
						panic(fmt.Sprint("kill: ", err))
					}
				}
				for _, s := range once {
					select {
					case <-sinks[s]:
					case <-time.After(30 * time.Second):
						panic(fmt.Sprint("the harness's own signal did not arrive: ", s))
					}
				}
				for _, r := range regs {
					if len(r.want) > 0 {
						continue
					}
					for _, s := range once {
						if slices.Contains(r.set, s) {
							r.want = append(r.want, s)
							fired++
						}
					}
				}
				time.Sleep(300 * time.Microsecond)
				look()
			}
		}
		time.Sleep(time.Millisecond)
		look()
		c.NonTrivialIf(fired > 0)
		c.LabelIf(len(regs) > 1, "several registrations")
	})
}
