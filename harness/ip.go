package main

import (
	"fmt"
	"math/big"
	"net/netip"
	"sort"

	"github.com/hansthienpondt/nipam/pkg/table"
	"github.com/henderiw/idxtable/pkg/iptable"
	"k8s.io/apimachinery/pkg/labels"
)

type ipModel struct {
	from, to netip.Addr
	m        map[netip.Addr]table.Route
}

func ipNum(a netip.Addr) *big.Int { b := a.As16(); return new(big.Int).SetBytes(b[:]) }

// plus is a moved by d within its family; ok is false past the ends.
func plus(a netip.Addr, d int64) (netip.Addr, bool) {
	n := new(big.Int).Add(ipNum(a), big.NewInt(d))
	if n.Sign() < 0 || n.BitLen() > 128 {
		return a, false
	}
	var b [16]byte
	n.FillBytes(b[:])
	r := netip.AddrFrom16(b)
	if a.Is4() {
		if !r.Is4In6() {
			return a, false
		}
		return r.Unmap(), true
	}
	return r, true
}

// in: the address belongs to the range and is reachable (less than 2^64 from
// its start).
func (m *ipModel) in(a netip.Addr) bool {
	if !m.from.IsValid() || !a.IsValid() || a.Is4() != m.from.Is4() || a.Zone() != "" {
		return false
	}
	d := new(big.Int).Sub(ipNum(a), ipNum(m.from))
	return m.from.Compare(a) <= 0 && a.Compare(m.to) <= 0 && d.IsUint64()
}

func (m *ipModel) used() (out []netip.Addr) {
	for a := range m.m {
		out = append(out, a)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Less(out[j]) })
	return
}

func routeStr(r table.Route) string {
	return fmt.Sprintf("%v %v %v", r.Prefix(), r.Labels(), r.GetData())
}

func checkIP(c *ctx, t iptable.IPTable, m *ipModel, views bool) {
	var probes []netip.Addr
	for _, a := range m.used() {
		for d := int64(-1); d <= 1; d++ {
			if b, ok := plus(a, d); ok {
				probes = append(probes, b)
			}
		}
		if len(probes) > 60 {
			break
		}
	}
	for d := int64(-2); d <= 2; d++ {
		for _, x := range []netip.Addr{m.from, m.to} {
			if b, ok := plus(x, d); ok {
				probes = append(probes, b)
				if b.Is4() {
					probes = append(probes, netip.AddrFrom16(b.As16()))
				}
			}
		}
	}
	for _, a := range probes {
		r, used := m.m[a]
		s := a.String()
		if a.Is6() {
			c.check(!t.Has(s+"%eth1") && !t.IsFree(s+"%eth1"), "%s%%eth1 belongs to the range", s)
		}
		c.check(t.Has(s) == used, "Has(%s) = %v, want %v", s, !used, used)
		free := m.in(a) && !used
		c.check(t.IsFree(s) == free, "IsFree(%s) = %v, want %v", s, !free, free)
		got, err := t.Get(s)
		c.check((err == nil) == used, "Get(%s) error %v, claimed %v", s, err, used)
		if used {
			c.check(routeStr(got) == routeStr(r), "Get(%s) = %s, want %s", s, routeStr(got), routeStr(r))
		}
	}
	c.check(t.Size() == len(m.m), "Size() = %d, want %d", t.Size(), len(m.m))
	if !views {
		return
	}
	c.step("FindFree()")
	want, ok := m.from, false
	for {
		if !m.in(want) {
			break
		}
		if _, used := m.m[want]; !used {
			ok = true
			break
		}
		var k bool
		if want, k = plus(want, 1); !k {
			break
		}
	}
	got, err := t.FindFree()
	c.check((err == nil) == ok, "FindFree gives %v %v, a free address exists: %v", got, err, ok)
	if ok {
		c.check(got == want, "FindFree = %v, the lowest free address is %v", got, want)
	}
	list := func(name string, rs table.Routes, keep func(labels.Set) bool) {
		var w []string
		for _, a := range m.used() {
			if keep(m.m[a].Labels()) {
				w = append(w, routeStr(m.m[a]))
			}
		}
		c.check(len(rs) == len(w), "%s has %d routes, want %d", name, len(rs), len(w))
		for i := range rs {
			c.check(routeStr(rs[i]) == w[i], "%s[%d] = %s, want %s", name, i, routeStr(rs[i]), w[i])
		}
	}
	c.step("GetAll()")
	list("GetAll", t.GetAll(), func(labels.Set) bool { return true })
	for i := 0; i < 3; i++ {
		s, txt := c.selector()
		c.step("GetByLabel(%q)", txt)
		list("GetByLabel("+txt+")", t.GetByLabel(s), func(l labels.Set) bool { return s.Matches(l) })
	}
}

func (c *ctx) addr() netip.Addr {
	if c.Intn(2) == 0 {
		var b [4]byte
		switch c.Intn(5) {
		case 0:
			b = [4]byte{10, 0, byte(c.Intn(2)), byte(c.Intn(256))}
		case 1:
			b = [4]byte{255, 255, 255, byte(200 + c.Intn(56))}
		case 2:
			b = [4]byte{0, 0, 0, byte(c.Intn(4))}
		default:
			c.Read(b[:])
		}
		return netip.AddrFrom4(b)
	}
	var b [16]byte
	switch c.Intn(6) {
	case 0:
		b = [16]byte{0x20, 1, 0xd, 0xb8}
		c.Read(b[14:])
	case 5: // next to a carry into a higher byte
		b = [16]byte{0x20, 1, 0xd, 0xb8}
		for i := 15 - c.Intn(9); i < 16; i++ {
			b[i] = 255
		}
		b[15] -= byte(c.Intn(8))
	case 1:
		for i := range b {
			b[i] = 255
		}
		b[15] = byte(c.Intn(256))
	case 2:
		b[15] = byte(c.Intn(4))
		if c.Intn(2) == 0 {
			b[10], b[11] = 255, 255
		}
	case 3:
		c.Read(b[:8])
	default:
		c.Read(b[:])
	}
	return netip.AddrFrom16(b)
}

func ipRun(views int) func(c *ctx) {
	return func(c *ctx) {
		for n := 0; c.left() || n < 12; n++ {
			m := &ipModel{m: map[netip.Addr]table.Route{}}
			m.from = c.addr()
			switch c.Intn(6) {
			case 0:
				m.to = m.from
			case 1:
				m.to = c.addr()
				for m.to.Is4() != m.from.Is4() || m.to.Less(m.from) {
					m.from, m.to = c.addr(), c.addr()
				}
			default:
				m.to = m.from
				for k := c.Intn(20); k > 0; k-- {
					if b, ok := plus(m.to, 1); ok {
						m.to = b
					}
				}
			}
			c.begin(map[string]interface{}{"from": m.from.String(), "to": m.to.String()})
			c.step("New(%v, %v)", m.from, m.to)
			t := iptable.New(m.from, m.to)
			pick := func() netip.Addr {
				switch c.Intn(10) {
				case 8, 9: // fill from the start
					for a, ok := m.from, true; ok && m.in(a); a, ok = plus(a, 1) {
						if _, used := m.m[a]; !used {
							return a
						}
					}
				case 0:
					return c.addr()
				case 1:
					a, _ := plus(m.from, int64(c.Intn(3))-1)
					return a
				case 2:
					a, _ := plus(m.to, int64(c.Intn(3))-1)
					return a
				case 3:
					if us := m.used(); len(us) > 0 {
						return us[c.Intn(len(us))]
					}
				case 4: // far away
					a := new(big.Int).Add(ipNum(m.from), new(big.Int).Lsh(big.NewInt(1+int64(c.Intn(2))), uint(c.Intn(127))))
					if a.BitLen() <= 128 {
						var b [16]byte
						a.FillBytes(b[:])
						r := netip.AddrFrom16(b)
						if m.from.Is4() && r.Is4In6() {
							r = r.Unmap()
						}
						return r
					}
				}
				d := new(big.Int).Sub(ipNum(m.to), ipNum(m.from))
				d.Rand(c.Rand, d.Add(d, big.NewInt(1)))
				var b [16]byte
				d.Add(d, ipNum(m.from)).FillBytes(b[:])
				if m.from.Is4() {
					return netip.AddrFrom16(b).Unmap()
				}
				return netip.AddrFrom16(b)
			}
			steps := 4 + c.Intn(30)
			for s := 0; s < steps; s++ {
				a := pick()
				op := c.Intn(6)
				if us := m.used(); op >= 3 && len(us) > 0 && c.Intn(4) > 0 {
					a = us[c.Intn(len(us))]
				}
				_, used := m.m[a]
				in := m.in(a)
				txt := a.String()
				if c.Intn(30) == 0 {
					txt = []string{"", "10.0.0", "10.0.0.1/32", "::g", "1.2.3.256", "10.0.0.01"}[c.Intn(6)]
					in, used = false, false
				}
				if c.Intn(20) == 0 && a.Is6() {
					txt = a.String() + []string{"%eth0", "%1"}[c.Intn(2)]
					in, used = false, false
				}
				bits := a.BitLen()
				if c.Intn(2) == 0 {
					bits = c.Intn(bits + 1)
				}
				pfx := netip.PrefixFrom(a, bits)
				if c.Intn(3) == 0 {
					pfx = pfx.Masked()
				}
				r := table.NewRoute(pfx, c.labels(), map[string]any{"n": s})
				if c.Intn(12) == 0 {
					r = table.Route{}
				}
				switch op {
				case 0, 1, 2:
					c.step("Claim(%q, %v)", txt, r.Labels())
					err := t.Claim(txt, r)
					c.check((err == nil) == (in && !used), "Claim(%s) gives %v; in range %v, claimed %v", txt, err, in, used)
					if err == nil {
						m.m[a] = r
					}
				case 3:
					c.step("Update(%q, %v)", txt, r.Labels())
					err := t.Update(txt, r)
					c.check((err == nil) == used, "Update(%s) gives %v; claimed %v", txt, err, used)
					if err == nil {
						m.m[a] = r
					}
				default:
					c.step("Release(%q)", txt)
					err := t.Release(txt)
					c.check((err == nil) == in, "Release(%s) gives %v; in range %v", txt, err, in)
					if err == nil {
						delete(m.m, a)
					}
				}
				checkIP(c, t, m, views > 0 && s%views == 0)
			}
		}
	}
}

func init() {
	b := "IPv4 and IPv6 ranges (one address, small, huge, at the ends), histories of up to 33 calls"
	props["C08"] = propRun{what: "random histories of Claim, Update and Release of addresses against a map", bound: b, run: ipRun(0)}
	props["C09"] = propRun{what: "free search and listings of an IP table after random histories against a map", bound: b, run: ipRun(3)}
}
