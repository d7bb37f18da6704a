package main

import (
	"fmt"
	"math/rand"
	"net/netip"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hansthienpondt/nipam/pkg/table"
	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/pkg/iptable"
	"k8s.io/apimachinery/pkg/labels"
)

// spread runs f in n goroutines and reports the first failure.
func (c *ctx) spread(n int, f func(r *rand.Rand, g int)) {
	var wg sync.WaitGroup
	var bad atomic.Value
	start := make(chan struct{})
	for g := 0; g < n; g++ {
		r := rand.New(rand.NewSource(c.Int63()))
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			if e := try(func() { f(r, g) }); e != "" {
				bad.CompareAndSwap(nil, e)
			}
		}(g)
	}
	close(start)
	wg.Wait()
	if e, ok := bad.Load().(string); ok {
		c.fail("%s", e)
	}
}

// owners records who got an id; an id handed out twice is a failure.
type owners struct{ m sync.Map }

func (o *owners) take(id uint64, who string) {
	if old, dup := o.m.LoadOrStore(id, who); dup {
		panic(failure{fmt.Sprintf("id %d was given to %s and to %v", id, who, old)})
	}
}
func (o *owners) drop(id uint64) { o.m.Delete(id) }

func concIdx(c *ctx) {
	size := uint64(20 + c.Intn(60))
	c.begin(map[string]interface{}{"table": "idxtable", "size": size})
	t := idxtable.NewTable[int](size)
	own := &owners{}
	mode := c.Intn(3)
	c.step("8 goroutines of mixed calls, mode %d, seed %d", mode, c.Int63())
	if mode == 2 {
		// groups of ids are claimed and released; a look sees none or all
		c.spread(8, func(r *rand.Rand, g int) {
			for k := 0; k < 60; k++ {
				switch {
				case g < 4:
					lo := uint64(g) * (size / 4)
					n := size / 4
					if t.ClaimRange(lo, n, g) != nil {
						panic(failure{fmt.Sprintf("ClaimRange(%d,%d) of free ids fails", lo, n)})
					}
					for i := uint64(0); i < n; i++ {
						_ = t.Release(lo + i)
					}
				case g < 6:
					// a claim of a range appears at once: with the lowest ids
					// released first, claimed ids of a group are a suffix
					es := t.GetAll()
					have := map[uint64]bool{}
					for _, e := range es {
						have[e.ID()] = true
					}
					for q := uint64(0); q < 4; q++ {
						lo, n := q*(size/4), size/4
						for i := uint64(0); i+1 < n; i++ {
							if have[lo+i] && !have[lo+i+1] {
								panic(failure{fmt.Sprintf("a range claim is seen half done: id %d without %d", lo+i, lo+i+1)})
							}
						}
					}
				default:
					n := 0
					for it := t.Iterate(); it.Next(); {
						_ = it.Value()
						n++
					}
					t.Size()
					t.FindFree()
					for it := t.IterateFree(); it.Next(); {
						_ = it.ID()
					}
				}
			}
		})
		c.check(t.Size() == 0, "Size() = %d after every id was released", t.Size())
		return
	}
	c.spread(8, func(r *rand.Rand, g int) {
		who := fmt.Sprintf("goroutine %d", g)
		mine := map[uint64]bool{}
		for k := 0; k < 60; k++ {
			switch r.Intn(9) {
			case 0, 1:
				if e, err := t.ClaimDynamic(g); err == nil {
					own.take(e.ID(), who)
					mine[e.ID()] = true
				}
			case 2:
				id := uint64(r.Intn(int(size)))
				if t.Claim(id, g) == nil {
					own.take(id, who)
					mine[id] = true
				}
			case 3:
				if es, err := t.ClaimSize(uint64(1+r.Intn(4)), g); err == nil {
					for _, e := range es {
						own.take(e.ID(), who)
						mine[e.ID()] = true
					}
				}
			case 4:
				lo, n := uint64(r.Intn(int(size))), uint64(1+r.Intn(4))
				if t.ClaimRange(lo, n, g) == nil {
					for i := uint64(0); i < n; i++ {
						own.take(lo+i, who)
						mine[lo+i] = true
					}
				}
			case 5, 6:
				for id := range mine {
					own.drop(id)
					delete(mine, id)
					_ = t.Release(id)
					break
				}
			case 7:
				for id := range mine {
					e, err := t.Get(id)
					if err != nil || e.Data() != g {
						panic(failure{fmt.Sprintf("id %d, claimed by %s, holds %v %v", id, who, e, err)})
					}
					_ = t.Update(id, g)
					break
				}
			case 8:
				t.Has(1)
				t.IsFree(1)
				t.Size()
				t.GetAll()
				t.FindFree()
				t.FindFreeSize(2)
				t.FindFreeRange(1, 2)
			}
		}
	})
}

func concTab(c *ctx) {
	w := []int{16, 32, 64}[c.Intn(3)]
	start := uint64(c.Intn(1000))
	end := start + 20 + uint64(c.Intn(60))
	c.begin(map[string]interface{}{"table": fmt.Sprintf("table%d", w), "start": start, "end": end})
	t := newTab(w, start, end)
	own := &owners{}
	c.step("8 goroutines of mixed calls, seed %d", c.Int63())
	sel, _ := labels.Parse("a=1")
	c.spread(8, func(r *rand.Rand, g int) {
		who := fmt.Sprintf("goroutine %d", g)
		l := labels.Set{"a": "1", "g": fmt.Sprint(g)}
		mine := map[uint64]bool{}
		for k := 0; k < 40; k++ {
			switch r.Intn(7) {
			case 0, 1:
				if e, err := t.ClaimFree(l); err == nil {
					own.take(e.ID().ID(), who)
					mine[e.ID().ID()] = true
				}
			case 2:
				id := start + uint64(r.Intn(int(end-start+1)))
				if t.Claim(id, l) == nil {
					own.take(id, who)
					mine[id] = true
				}
			case 3, 4:
				for id := range mine {
					own.drop(id)
					delete(mine, id)
					_ = t.Release(id)
					break
				}
			case 5:
				for id := range mine {
					e, err := t.Get(id)
					if err != nil || e.Labels()["g"] != l["g"] {
						panic(failure{fmt.Sprintf("id %d, claimed by %s, holds %v %v", id, who, e, err)})
					}
					_ = t.Update(id, l)
					break
				}
			case 6:
				t.Has(start)
				t.IsFree(start)
				t.Size()
				t.GetAll()
				t.GetByLabel(sel)
				t.FindFree()
			}
		}
	})
}

func concTree(c *ctx) {
	l := libs[c.Intn(3)]
	length := uint8(6)
	c.begin(map[string]interface{}{"table": fmt.Sprintf("tree%d", l.w), "length": length})
	t, err := newGTree(l.w, length)
	c.check(err == nil, "New: %v", err)
	own := &owners{}
	sel, _ := labels.Parse("a=1")
	none, _ := labels.Parse("zz=1")
	mode := c.Intn(2)
	c.step("8 goroutines of mixed calls, mode %d, seed %d", mode, c.Int63())
	c.spread(8, func(r *rand.Rand, g int) {
		who := fmt.Sprintf("goroutine %d", g)
		lb := labels.Set{"a": "1", "g": fmt.Sprint(g)}
		mine := map[uint64]bool{}
		for k := 0; k < 25; k++ {
			switch r.Intn(7) {
			case 0, 1:
				if mode == 1 && g < 2 {
					// a range claim appears at once: 1..6 is 1, 2/63, 4/63, 6
					x := fmt.Sprint(k)
					_ = t.ClaimRange("1-6", labels.Set{"v": x + "." + fmt.Sprint(g)})
					break
				}
				if mode == 1 {
					vs := map[string]bool{}
					n := 0
					for _, e := range t.GetAll() {
						if v, ok := e.Labels()["v"]; ok {
							vs[v] = true
							n++
						}
					}
					if n != 0 && n != 4 || len(vs) > 1 {
						panic(failure{fmt.Sprintf("a range claim is seen half done: %d entries, labels %v", n, vs)})
					}
					break
				}
				if e, err := t.ClaimFree(lb); err == nil {
					own.take(e.ID().ID(), who)
					mine[e.ID().ID()] = true
				}
			case 2, 3:
				for id := range mine {
					own.drop(id)
					delete(mine, id)
					_ = t.ReleaseID(l.newID(id, l.w))
					break
				}
			case 4:
				for id := range mine {
					e, err := t.Get(l.newID(id, l.w))
					if err != nil || e.Labels()["g"] != lb["g"] {
						panic(failure{fmt.Sprintf("id %d, claimed by %s, holds %v %v", id, who, e, err)})
					}
					_ = t.Update(l.newID(id, l.w), lb)
					break
				}
			case 5:
				p := l.newID(uint64(32+8*g), l.w-3)
				if mode == 1 {
					_ = t.ClaimID(p, lb)
				}
				t.Children(p)
				t.Parents(p)
				if r.Intn(4) == 0 {
					_ = t.ReleaseByLabel(none)
				}
				if mode == 1 {
					_ = t.ReleaseID(p)
				}
			case 6:
				t.GetAll()
				t.Size()
				t.GetByLabel(sel)
				t.Clone().Size()
			}
		}
	})
}

func concIP(c *ctx) {
	from := netip.MustParseAddr("10.0.0.0")
	to := netip.AddrFrom4([4]byte{10, 0, 0, byte(20 + c.Intn(60))})
	c.begin(map[string]interface{}{"table": "iptable", "from": from.String(), "to": to.String()})
	t := iptable.New(from, to)
	own := &owners{}
	sel, _ := labels.Parse("a=1")
	c.step("8 goroutines of mixed calls, seed %d", c.Int63())
	c.spread(8, func(r *rand.Rand, g int) {
		who := fmt.Sprintf("goroutine %d", g)
		mine := map[uint64]bool{}
		rt := func(a netip.Addr) table.Route {
			return table.NewRoute(netip.PrefixFrom(a, 32), map[string]string{"a": "1", "g": fmt.Sprint(g)}, nil)
		}
		addr := func(i uint64) netip.Addr { return netip.AddrFrom4([4]byte{10, 0, 0, byte(i)}) }
		for k := 0; k < 40; k++ {
			switch r.Intn(6) {
			case 0, 1, 2:
				a, err := t.FindFree()
				if err != nil {
					break
				}
				if t.Claim(a.String(), rt(a)) == nil {
					id := uint64(a.As4()[3])
					own.take(id, who)
					mine[id] = true
				}
			case 3:
				for id := range mine {
					own.drop(id)
					delete(mine, id)
					_ = t.Release(addr(id).String())
					break
				}
			case 4:
				for id := range mine {
					e, err := t.Get(addr(id).String())
					if err != nil || e.Labels()["g"] != fmt.Sprint(g) {
						panic(failure{fmt.Sprintf("address %v, claimed by %s, holds %v %v", addr(id), who, e, err)})
					}
					_ = t.Update(addr(id).String(), rt(addr(id)))
					break
				}
			case 5:
				t.Size()
				t.GetAll()
				t.GetByLabel(sel)
				t.Has("10.0.0.1")
				t.IsFree("10.0.0.1")
			}
		}
	})
}

func init() {
	props["C22"] = propRun{what: "8 goroutines of mixed calls on one table of each kind, under the race detector", bound: "schedules the Go scheduler happens to produce; up to 480 calls per case", hang: 15 * time.Second,
		run: func(c *ctx) {
			fs := []func(*ctx){concIdx, concTab, concTree, concIP}
			for n := 0; c.left() || n < 4; n++ {
				fs[n%4](c)
			}
		}}
}
