package mls

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"testing"
	"time"
)

// vh collects the cases of one bounded check.
type vh struct {
	t       *testing.T
	prop    string
	rng     *rand.Rand
	tier    string
	hunt    bool
	start   time.Time
	seen    map[uint64]bool
	failed  map[string]int
	mu      sync.Mutex
	cur     string
	curAt   time.Time
	Evals   int                 `json:"evaluations"`
	Dist    int                 `json:"distinct_nontrivial"`
	Rule    string              `json:"rule"`
	Samples []string            `json:"samples"`
	Viol    []map[string]string `json:"violations"`
	Known   []string            `json:"known"`
}

func newVH(t *testing.T, prop, rule string) *vh {
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	h := &vh{
		t: t, prop: prop, rng: rand.New(rand.NewSource(seed)), tier: os.Getenv("VERIF_TIER"), hunt: os.Getenv("VERIF_HUNT") == "1",
		start: time.Now(), seen: map[uint64]bool{}, failed: map[string]int{}, Rule: rule,
	}
	go h.watch()
	return h
}

// watch ends the process when a case neither finishes nor stays within a
// reasonable amount of memory.
func (h *vh) watch() {
	for {
		time.Sleep(50 * time.Millisecond)
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		h.mu.Lock()
		cur, at := h.cur, h.curAt
		if cur != "" && (time.Since(at) > 60*time.Second || m.HeapAlloc > 3<<30) {
			h.failLocked(cur, fmt.Sprintf("did not finish: running for %v with %d MiB allocated", time.Since(at).Round(time.Second), m.HeapAlloc>>20))
			h.write()
			os.Exit(1)
		}
		h.mu.Unlock()
	}
}

// scale picks an effort for the tier.
func (h *vh) scale(quick, thorough int) int {
	if h.tier == "thorough" || h.hunt {
		return thorough
	}
	return quick
}

// run executes one case. key identifies a distinct non-trivial case; an empty
// key marks a trivial one. An error or a panic is a violation.
func (h *vh) run(name, key string, f func() error) bool {
	h.Evals++
	if key != "" {
		s := fnv.New64a()
		s.Write([]byte(key))
		if k := s.Sum64(); !h.seen[k] {
			h.seen[k] = true
			h.Dist++
			if len(h.Samples) < 5 || h.Dist&(h.Dist-1) == 0 && len(h.Samples) < 12 {
				if len(key) > 300 {
					key = key[:300] + "…"
				}
				h.Samples = append(h.Samples, name+": "+key)
			}
		}
	}
	h.mu.Lock()
	h.cur, h.curAt = name+": "+key, time.Now()
	h.mu.Unlock()
	err := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(vFail); ok {
					err = e.err
					return
				}
				err = fmt.Errorf("panic: %v\n%s", r, debug.Stack())
			}
		}()
		return f()
	}()
	h.mu.Lock()
	h.cur = ""
	h.mu.Unlock()
	if err == nil {
		return true
	}
	h.fail(name, err.Error())
	return false
}

func (h *vh) fail(name, detail string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.failLocked(name, detail)
}

func (h *vh) failLocked(name, detail string) {
	h.failed[name]++
	if h.failed[name] <= 2 && len(h.Viol) < 30 {
		if len(detail) > 3000 {
			detail = detail[:3000] + "…"
		}
		h.Viol = append(h.Viol, map[string]string{"case": name, "detail": detail})
		h.write()
	}
}

// vFail carries a harness failure out of nested code.
type vFail struct{ err error }

func vMust(err error) {
	if err != nil {
		panic(vFail{err})
	}
}

func vCheck(ok bool, f string, a ...interface{}) {
	if !ok {
		panic(vFail{fmt.Errorf(f, a...)})
	}
}

func (h *vh) write() {
	if h.Samples == nil {
		h.Samples = []string{}
	}
	if p := os.Getenv("VERIF_OUT"); p != "" {
		b, err := json.Marshal(h)
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, b, 0o644); err != nil {
			panic(err)
		}
	}
}

func (h *vh) done() {
	h.mu.Lock()
	h.write()
	h.mu.Unlock()
	for _, v := range h.Viol {
		h.t.Errorf("%s: %s", v["case"], v["detail"])
	}
}

func (h *vh) bytes(n int) []byte {
	b := make([]byte, n)
	h.rng.Read(b)
	return b
}
