package harness

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zutils"
	"github.com/anishathalye/porcupine"
)

// C10: the sharded map.

// kvIn/kvOut: one operation on one key, for the linearizability checker.
type kvIn struct {
	op  string
	key string
	val int
	arg bool // RemoveCb: what the callback returns
}
type kvOut struct {
	val int // 0: none
	ok  bool
}

// kvModel is a register per key: state is the value, 0 for absent.
var kvModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[string][]porcupine.Operation{}
		for _, o := range h {
			k := o.Input.(kvIn).key
			m[k] = append(m[k], o)
		}
		var out [][]porcupine.Operation
		for _, v := range m {
			out = append(out, v)
		}
		return out
	},
	Init: func() interface{} { return 0 },
	Step: func(st, in, out interface{}) (bool, interface{}) {
		s, i, o := st.(int), in.(kvIn), out.(kvOut)
		switch i.op {
		case "get", "iter":
			return o.ok == (s != 0) && (!o.ok || o.val == s), s
		case "has":
			return o.ok == (s != 0), s
		case "set", "mset":
			return true, i.val
		case "setnx":
			if s == 0 {
				return o.ok, i.val
			}
			return !o.ok, s
		case "remove":
			return true, 0
		case "removecb": // out.val: what the callback saw; out.ok: what the call returned
			if o.val != s || o.ok != i.arg {
				return false, s
			}
			if i.arg {
				return true, 0
			}
			return true, s
		case "pop":
			if o.ok != (s != 0) || o.val != s {
				return false, s
			}
			return true, 0
		}
		return false, s
	},
	DescribeOperation: func(in, out interface{}) string {
		i, o := in.(kvIn), out.(kvOut)
		return fmt.Sprintf("%s(%s,%d,%v) -> %d,%v", i.op, i.key, i.val, i.arg, o.val, o.ok)
	},
}

func num(v interface{}) int {
	if v == nil {
		return 0
	}
	return v.(int)
}

// describe writes a short failing history.
func describeHist(h []porcupine.Operation) string {
	// find the failing key
	for _, part := range kvModel.Partition(h) {
		if porcupine.CheckOperations(kvModel, part) {
			continue
		}
		sort.Slice(part, func(i, j int) bool { return part[i].Call < part[j].Call })
		// shrink: shortest failing prefix by return time
		lo, hi := 1, len(part)
		for lo < hi {
			mid := (lo + hi) / 2
			if porcupine.CheckOperations(kvModel, part[:mid]) {
				lo = mid + 1
			} else {
				hi = mid
			}
		}
		part = part[:lo]
		if len(part) > 14 {
			part = part[len(part)-14:]
		}
		var b strings.Builder
		for _, o := range part {
			fmt.Fprintf(&b, "client %d [%d..%d] %s\n", o.ClientId, o.Call, o.Return, kvModel.DescribeOperation(o.Input, o.Output))
		}
		return b.String()
	}
	return ""
}

type constHash struct{ n uint32 }

func (h constHash) Sum(k string) uint32 { return uint32(len(k)) * 0x9E3779B9 % h.n }

type badHash struct{}

func (badHash) Sum(string) uint32 { return 0xFFFFFFFF }

func newMap(r *rand.Rand) (zutils.ShardLockMaps, string) {
	switch r.Intn(4) {
	case 0:
		return zutils.NewWithCustomHash(badHash{}), "one-shard"
	case 1:
		return zutils.NewWithCustomHash(constHash{3}), "three-shards"
	default:
		return zutils.NewShardLockMaps(), "default"
	}
}

func scenC10Lin(c *Ctx) {
	r0 := c.Rng
	for round := 0; round < c.N(250, 3000) && c.Violations() == 0; round++ {
		m, kind := newMap(r0)
		clients := 3 + r0.Intn(4)
		nk := 1 + r0.Intn(4)
		keys := make([]string, nk)
		for i := range keys {
			keys[i] = strings.Repeat("k", i) + fmt.Sprint(i)
		}
		per := 60
		var clock, vals int64
		hs := make([][]porcupine.Operation, clients)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for cl := 0; cl < clients; cl++ {
			cl := cl
			seed := r0.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				<-start
				for i := 0; i < per; i++ {
					in := kvIn{key: keys[r.Intn(nk)], val: int(atomic.AddInt64(&vals, 1)), arg: r.Intn(2) == 0}
					in.op = []string{"get", "has", "set", "set", "mset", "setnx", "setnx", "setnx", "remove", "removecb", "removecb", "pop", "pop", "iter"}[r.Intn(14)]
					var out kvOut
					t0 := atomic.AddInt64(&clock, 1)
					switch in.op {
					case "get":
						v, ok := m.Get(in.key)
						out = kvOut{num(v), ok}
					case "has":
						out = kvOut{0, m.Has(in.key)}
					case "set":
						m.Set(in.key, in.val)
					case "mset":
						m.MSet(map[string]interface{}{in.key: in.val})
					case "setnx":
						out.ok = m.SetNX(in.key, in.val)
					case "remove":
						m.Remove(in.key)
					case "removecb":
						var saw int
						out.ok = m.RemoveCb(in.key, func(k string, v interface{}, ex bool) bool {
							if k != in.key {
								c.Violate("removecb-key", "conditional removal of %q asked about %q", in.key, k)
							}
							if ex {
								saw = num(v)
								if v == nil {
									c.Violate("removecb-exists", "conditional removal says %q exists without a value", k)
								}
							}
							if r.Intn(3) == 0 {
								runtime.Gosched() // the decision takes a while: nobody may come between
							}
							return in.arg
						})
						out.val = saw
					case "pop":
						v, ok := m.Pop(in.key)
						out = kvOut{num(v), ok}
					case "iter":
						m.IterCb(func(k string, v interface{}) {
							if k == in.key {
								out = kvOut{num(v), true}
							}
						})
					}
					t1 := atomic.AddInt64(&clock, 1)
					hs[cl] = append(hs[cl], porcupine.Operation{ClientId: cl, Input: in, Call: t0, Output: out, Return: t1})
				}
			}()
		}
		close(start)
		wg.Wait()
		var h []porcupine.Operation
		for _, x := range hs {
			h = append(h, x...)
		}
		res := porcupine.CheckOperationsTimeout(kvModel, h, 20*time.Second)
		switch res {
		case porcupine.Illegal:
			c.Violate("not-linearizable", "map (%s), %d clients, %d keys: no order of these operations explains their results:\n%s", kind, clients, nk, describeHist(h))
		case porcupine.Unknown:
			c.Count("undecided_histories", 1)
		}
		overlaps := 0
		for i := range h {
			if h[i].Return > h[i].Call+1 {
				overlaps++
			}
		}
		c.Count("overlapping_operations", int64(overlaps))
		c.Event(len(h))
		c.Eval(fmt.Sprintf("lin/%s/%d/%d/%x/%d", kind, clients, nk, c.Seed, round))
	}
}

func scenC10Snap(c *Ctx) {
	r0 := c.Rng
	for round := 0; round < c.N(25, 150) && c.Violations() == 0; round++ {
		m, kind := newMap(r0)
		stable := map[string]int{}
		for i := 0; i < 1+r0.Intn(150); i++ {
			k := fmt.Sprintf("s%d", i)
			stable[k] = i + 1
			m.Set(k, i+1)
		}
		const owners = 5
		alive := int32(owners)
		var wg sync.WaitGroup
		n := c.N(1500, 8000)
		for o := 0; o < owners; o++ {
			o := o
			seed := r0.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer atomic.AddInt32(&alive, -1)
				r := rand.New(rand.NewSource(seed))
				for i := 0; i < n; i++ {
					k := fmt.Sprintf("c%d-%d", o, r.Intn(60))
					switch r.Intn(6) {
					case 0, 1:
						m.Set(k, -1-o)
					case 2:
						m.SetNX(k, -1-o)
					case 3:
						m.Remove(k)
					case 4:
						m.Pop(k)
					default:
						m.RemoveCb(k, func(string, interface{}, bool) bool { return true })
					}
				}
			}()
		}
		var looks int64
		for o := 0; o < 3; o++ {
			seed := r0.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				for atomic.LoadInt32(&alive) > 0 && c.Violations() == 0 {
					got := map[string]int{}
					var how string
					put := func(k string, v interface{}) {
						if _, dup := got[k]; dup {
							c.Violate("snap-twice", "%s gave key %q twice", how, k)
						}
						got[k] = num(v)
					}
					switch r.Intn(6) {
					case 0:
						how = "Items"
						for k, v := range m.Items() {
							put(k, v)
						}
					case 1:
						how = "Keys"
						for _, k := range m.Keys() {
							v := stable[k]
							if v == 0 {
								v = -1 - int(k[1]-'0')
							}
							put(k, v)
						}
					case 2:
						how = "IterBuffered"
						for t := range m.IterBuffered() {
							put(t.Key, t.Val)
						}
					case 3:
						how = "IterCb"
						m.IterCb(put)
					case 4:
						how = "MarshalJSON"
						b, err := json.Marshal(m)
						var mm map[string]int
						if err == nil {
							err = json.Unmarshal(b, &mm)
						}
						if err != nil {
							c.Violate("json", "export: %v", err)
						}
						for k, v := range mm {
							put(k, v)
						}
					default:
						how = "Count"
						if k := m.Count(); k < len(stable) {
							c.Violate("snap-count", "Count gave %d although %d entries were there all the time (%s)", k, len(stable), kind)
						}
						if m.IsEmpty() {
							c.Violate("snap-count", "IsEmpty although %d entries were there all the time", len(stable))
						}
						continue
					}
					for k, v := range stable {
						if got[k] != v {
							c.Violate("snap-stable", "%s (%s): entry %s=%d was there all the time, the result has %d", how, kind, k, v, got[k])
							return
						}
					}
					for k, v := range got {
						if stable[k] == 0 && (k[0] != 'c' || v != -1-int(k[1]-'0')) {
							c.Violate("snap-phantom", "%s: entry %s=%d was never written", how, k, v)
							return
						}
					}
					atomic.AddInt64(&looks, 1)
					c.Event(len(got))
				}
			}()
		}
		wg.Wait()
		c.Count("whole_map_reads", looks)
		c.Eval(fmt.Sprintf("snap/%s/%d/%x/%d", kind, len(stable), c.Seed, round))
	}
}

// scenC10Seq: sequences against a map, with all whole-map operations and JSON.
func scenC10Seq(c *Ctx) {
	r := c.Rng
	weird := []string{"", "a", "\x00", "日本", "\"quoted\"", strings.Repeat("x", 300), "0", "-1", "a\nb"}
	for round := 0; round < c.N(150, 2500) && c.Violations() == 0; round++ {
		m, kind := newMap(r)
		model := map[string]interface{}{}
		key := func() string {
			if r.Intn(4) == 0 {
				return weird[r.Intn(len(weird))]
			}
			return fmt.Sprintf("k%d", r.Intn(80))
		}
		hist := ""
		for op := 0; op < 120 && c.Violations() == 0; op++ {
			k := key()
			var v interface{} = float64(op)
			if op%9 == 4 {
				v = nil // an entry without a value is still an entry
			}
			old, had := model[k]
			switch r.Intn(16) {
			case 0, 1, 2:
				m.Set(k, v)
				model[k] = v
			case 3:
				if m.SetNX(k, v) == had {
					c.Violate("setnx", "insert-if-absent of %q: was there %v (after %s)", k, had, hist)
				}
				if !had {
					model[k] = v
				}
			case 4:
				m.Remove(k)
				delete(model, k)
			case 5:
				g, ok := m.Pop(k)
				if ok != had || had && g != old {
					c.Violate("pop", "taking out %q: %v %v, was %v %v", k, g, ok, old, had)
				}
				delete(model, k)
			case 6:
				want := r.Intn(2) == 0
				calls := 0
				got := m.RemoveCb(k, func(kk string, g interface{}, ok bool) bool {
					calls++
					if kk != k || ok != had || had && g != old {
						c.Violate("removecb", "conditional removal of %q was shown %q=%v %v", k, kk, g, ok)
					}
					return want
				})
				if calls != 1 || got != want {
					c.Violate("removecb", "conditional removal: callback ran %d times, result %v", calls, got)
				}
				if want {
					delete(model, k)
				}
			case 7:
				d := map[string]interface{}{}
				for i := r.Intn(12); i > 0; i-- {
					kk := key()
					d[kk] = float64(op + i)
					model[kk] = d[kk]
				}
				m.MSet(d)
			case 8:
				if r.Intn(6) == 0 {
					m.Clear()
					model = map[string]interface{}{}
				}
			case 9:
				if r.Intn(4) == 0 {
					b, err := json.Marshal(m)
					if err != nil {
						c.Violate("json", "export: %v", err)
						break
					}
					m2, _ := newMap(r)
					if err := json.Unmarshal(b, &m2); err != nil {
						c.Violate("json", "import: %v", err)
						break
					}
					m = m2
				}
			}
			hist = clipTail(hist, fmt.Sprintf("%q;", k))
			for _, q := range []string{k, key()} {
				w, ok := model[q]
				g, gok := m.Get(q)
				if gok != ok || ok && g != w || m.Has(q) != ok {
					c.Violate("get", "%q: %v %v, written was %v %v (%s, after %s)", q, g, gok, w, ok, kind, hist)
				}
			}
			if m.Count() != len(model) || m.IsEmpty() != (len(model) == 0) {
				c.Violate("count", "count %d, entries %d", m.Count(), len(model))
			}
			if op%15 == 0 {
				it := m.Items()
				ks := m.Keys()
				n := 0
				m.IterCb(func(k string, v interface{}) {
					n++
					if model[k] != v {
						c.Violate("iter", "%q: iterated %v, written %v", k, v, model[k])
					}
				})
				nb := 0
				for t := range m.IterBuffered() {
					nb++
					if model[t.Key] != t.Val {
						c.Violate("iter", "%q: iterated %v, written %v", t.Key, t.Val, model[t.Key])
					}
				}
				if len(it) != len(model) || len(ks) != len(model) || n != len(model) || nb != len(model) {
					c.Violate("whole", "Items %d, Keys %d, IterCb %d, IterBuffered %d, entries %d", len(it), len(ks), n, nb, len(model))
				}
				seen := map[string]bool{}
				for _, k := range ks {
					if _, ok := model[k]; !ok || seen[k] {
						c.Violate("keys", "key %q listed, there: %v, before: %v", k, ok, seen[k])
					}
					seen[k] = true
				}
				for k, v := range it {
					if model[k] != v {
						c.Violate("items", "%q: %v, written %v", k, v, model[k])
					}
				}
			}
			c.Event(1)
		}
		c.Eval(fmt.Sprintf("seq/%s/%x/%d", kind, c.Seed, round))
	}
}

func init() {
	scenario("c10.lin", scenC10Lin)
	scenario("c10.snap", scenC10Snap)
	scenario("c10.seq", scenC10Seq)
	register(&Check{
		Property: "C10",
		Jobs: func(tier string, seed int64) []Job {
			var js []Job
			js = append(js, spread("c10.lin", Params{}, seed, byTier(tier, 5, 20), 200*time.Second)...)
			js = append(js, spread("c10.snap", Params{}, seed, byTier(tier, 3, 10), 120*time.Second)...)
			js = append(js, spread("c10.seq", Params{}, seed, byTier(tier, 2, 8), 120*time.Second)...)
			return js
		},
		Parallel: 4,
		MinEvals: 200,
		Rule:     "one evaluation = one recorded concurrent history decided by a linearizability checker, one stable-entries round of whole-map reads under churn, or one sequence compared with a map (incl. JSON export/import); distinct = (kind, hash, clients/keys, seed, round)",
	})
}
