package verifharness

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"testing"
	"testing/synctest"
	"time"

	"verifharness/checks"
	"verifharness/kit"
)

// TestMain dispatches: VERIF_LIST prints the modes, otherwise one mode of one check is run.
func TestMain(m *testing.M) {
	if os.Getenv("VERIF_LIST") != "" {
		ch := kit.Registry[os.Getenv("VERIF_PROP")]
		if ch == nil {
			fmt.Fprintln(os.Stderr, "unknown property")
			os.Exit(3)
		}
		type mode struct {
			Name string `json:"name"`
			Race bool   `json:"race"`
		}
		o := struct {
			Level, Rule string
			Assumptions []string
			Modes       []mode
		}{Level: ch.Level, Rule: ch.Rule, Assumptions: ch.Assumptions}
		for _, md := range ch.Modes {
			o.Modes = append(o.Modes, mode{md.Name, md.Race})
		}
		b, _ := json.Marshal(o)
		fmt.Println(string(b))
		os.Exit(0)
	}
	if prop := os.Getenv("VERIF_MINT"); prop != "" {
		if err := checks.Mint(prop, os.Stdout); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		os.Exit(0)
	}
	os.Exit(m.Run())
}

func TestCheck(t *testing.T) {
	id := os.Getenv("VERIF_PROP")
	ch := kit.Registry[id]
	if ch == nil {
		t.Fatalf("unknown property %q", id)
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	for _, md := range ch.Modes {
		if md.Name != os.Getenv("VERIF_MODE") {
			continue
		}
		c := kit.NewCtx(id, md.Name, seed, os.Getenv("VERIF_TIER") == "thorough", os.Getenv("VERIF_ONLY"), os.Getenv("VERIF_OUT"), md.Race)
		c.Watchdog(120*time.Second, func() string {
			b := make([]byte, 1<<20)
			return string(b[:runtime.Stack(b, true)])
		})
		if md.Bubble {
			synctest.Test(t, func(t *testing.T) {
				time.Sleep(time.Until(startDate(fmt.Sprintf("%s/%s/%d", id, md.Name, seed))))
				md.Run(c)
				c.Finish()
				os.Exit(0) // storages keep janitor goroutines: leave the bubble without waiting for them
			})
		}
		md.Run(c)
		c.Finish()
		os.Exit(0)
	}
	t.Fatalf("unknown mode %q", os.Getenv("VERIF_MODE"))
}

// startDate is the instant at which virtual time starts: some day of this century, now and then on the eve of 2038.
func startDate(label string) time.Time {
	h := fnv.New64a()
	h.Write([]byte(label))
	r := rand.New(rand.NewSource(int64(h.Sum64())))
	ms := time.Duration(r.Intn(1000)) * time.Millisecond
	switch r.Intn(4) {
	case 0: // seconds no longer fit into 31 bits soon
		return time.Unix(1<<31-1-int64(r.Intn(7200)), 0).Add(ms)
	case 1:
		return time.Date(2038, 2, 1+r.Intn(22000), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.UTC).Add(ms)
	default:
		return time.Date(2026, 1, 1+r.Intn(4000), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.UTC).Add(ms)
	}
}
