package harness

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"testing"
)

// RunChild executes the scenario named in the environment.
func RunChild(t *testing.T) {
	name := os.Getenv("VERIF_SCENARIO")
	f := scenarios[name]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown scenario", name)
		os.Exit(3)
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_CHILD_SEED"), 10, 64)
	port, _ := strconv.Atoi(os.Getenv("VERIF_PORT"))
	p := Params{}
	json.Unmarshal([]byte(os.Getenv("VERIF_PARAMS")), &p)
	c := &Ctx{
		T: t, Seed: seed, Rng: rand.New(rand.NewSource(seed)), P: p,
		Tier: os.Getenv("VERIF_TIER"), Port: port, Dir: os.Getenv("VERIF_DIR"),
		out:   os.Getenv("VERIF_OUT"),
		cases: map[uint64]struct{}{},
	}
	c.rep.Counters = map[string]int64{}
	if os.Getenv("VERIF_VERBOSE") == "" {
		quietZinx()
	}
	debug.SetTraceback("all")
	go c.watch()
	f(c)
	c.Finish()
}
