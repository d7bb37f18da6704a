// pkg/iptable: a table over the addresses from..to (C08, C09).
filewidths 32
// no lock of its own: nothing but the index table, which has one, may change
guarded ipTable:

// An address is a family, a 128-bit number and a zone; the range and its index table.
define ipX(r) = dyn(r.table)
define ipFrom(r) = ipnum(r.ipRange.from)
define ipTo(r) = ipnum(r.ipRange.to)
define sameFam(a, b) = ipfam(a) == ipfam(b)
// fewer than 2^64 addresses
define okRange(a, b) = ipfam(a) != 0 && sameFam(a, b) && ipnum(a) <= ipnum(b) && ipnum(b) - ipnum(a) < zx(0xffffffffffffffff, 128)
define IPT(r) = r.table != nil && okRange(r.ipRange.from, r.ipRange.to) && ipzone(r.ipRange.from) == 0 && ipzone(r.ipRange.to) == 0
    && zx(ipX(r).size, 128) == ipTo(r) - ipFrom(r) + 1 && TI(ipX(r)) && lockfree(ipX(r).m)
define inIP(r, a) = sameFam(a, r.ipRange.from) && ipzone(a) == 0 && ipFrom(r) <= ipnum(a) && ipnum(a) <= ipTo(r)
// the index of an address is its distance from the first
define aix(r, a) = uint64(ipnum(a) - ipFrom(r))
define claimedIP(r, a) = has(ipX(r).table, aix(r, a))
define textIP(s) = uf("parseAddrOK", bool, s)
define okIP(r, s) = textIP(s) && inIP(r, parseAddr(s))
define keptIP(r, a) = sameExcept(ipX(r), aix(r, a))

func iptable.New(from, to) (r)
  props C08, C22
  requires range: okRange(from, to)
  ensures wf: r != nil && IPT(dyn(r)) && ipnum(dyn(r).ipRange.from) == ipnum(from) && ipnum(dyn(r).ipRange.to) == ipnum(to) && sameFam(dyn(r).ipRange.from, from)
  ensures empty: all(k, uint64, !has(ipX(dyn(r)).table, k)) && len(ipX(dyn(r)).table) == 0
  ensures apart: all(a, bv(164), b, bv(164), imp(inIP(dyn(r), a) && inIP(dyn(r), b) && aix(dyn(r), a) == aix(dyn(r), b), a == b))

func iptable.(*ipTable).Get(r, addr) (d, err)
  props C08, C22
  requires IPT: IPT(r)
  ensures found: iff(err == nil, okIP(r, addr) && claimedIP(r, parseAddr(addr)))
  ensures data: imp(err == nil, d == ipX(r).table[aix(r, parseAddr(addr))].data)

func iptable.(*ipTable).Has(r, addr) (ok)
  props C08, C22
  requires IPT: IPT(r)
  ensures has: ok == (okIP(r, addr) && claimedIP(r, parseAddr(addr)))

func iptable.(*ipTable).IsFree(r, addr) (ok)
  props C08, C22
  requires IPT: IPT(r)
  ensures free: ok == (okIP(r, addr) && !claimedIP(r, parseAddr(addr)))

func iptable.(*ipTable).Size(r) (n)
  props C08, C22
  requires IPT: IPT(r)
  ensures n: n == len(ipX(r).table)

func iptable.(*ipTable).Claim(r, addr, d) (err)
  props C08, C22
  requires IPT: IPT(r)
  modifies ipX(r).table
  ensures exact: iff(err == nil, okIP(r, addr) && !old(claimedIP(r, parseAddr(addr))))
  ensures stored: imp(err == nil, holds(ipX(r), aix(r, parseAddr(addr)), d) && keptIP(r, parseAddr(addr)) && len(ipX(r).table) == old(len(ipX(r).table)) + 1)
  ensures unchanged: imp(err != nil, nochange(ipX(r)))
  ensures IPT: IPT(r)

func iptable.(*ipTable).Release(r, addr) (err)
  props C08, C22
  requires IPT: IPT(r)
  modifies ipX(r).table
  ensures exact: iff(err == nil, okIP(r, addr))
  ensures gone: imp(err == nil, !claimedIP(r, parseAddr(addr)) && keptIP(r, parseAddr(addr)))
  ensures unchanged: imp(err != nil, nochange(ipX(r)))
  ensures IPT: IPT(r)

func iptable.(*ipTable).Update(r, addr, d) (err)
  props C08, C22
  requires IPT: IPT(r)
  modifies ipX(r).table
  ensures exact: iff(err == nil, okIP(r, addr) && old(claimedIP(r, parseAddr(addr))))
  ensures stored: imp(err == nil, holds(ipX(r), aix(r, parseAddr(addr)), d) && keptIP(r, parseAddr(addr)) && sameCard(ipX(r)))
  ensures unchanged: imp(err != nil, nochange(ipX(r)))
  ensures IPT: IPT(r)

// Free search and listings (C09).
func iptable.(*ipTable).FindFree(r) (a, err)
  props C09, C22
  requires IPT: IPT(r)
  ensures lowest: imp(err == nil, inIP(r, a) && lowest(ipX(r), aix(r, a)))
  ensures full: imp(err != nil, full(ipX(r)))

// The code never looks inside a route, except at its labels; so nothing is lost
// when every stored route is taken to carry its index as a hidden mark.
define mk(d) = uf("routeMark", uint64, d)
define marked(t) = all(k, uint64, pat(has(t.table,k)), pat(t.table[k]), imp(has(t.table,k), mk(t.table[k].data) == k))
define listedIP(r, d) = has(ipX(r).table, mk(d)) && d == ipX(r).table[mk(d)].data
define rmatch(sel, d) = uf("selMatches", bool, sel, uf("routeLabels", Labels, d))

func iptable.(*ipTable).GetAll(r) (es)
  props C09, C22
  requires IPT: IPT(r)
  requires marked: marked(ipX(r))
  inv ent(s table.Routes, t []idxtable.Entry, i int): len(s) == i + 1 && all(j, uint64, pat(s[j]), pat(t[j]), imp(j < uint64(len(s)), s[j] == t[j].data))
  ensures count: len(es) == len(ipX(r).table)
  ensures entries: all(j, uint64, pat(es[j]), imp(j < uint64(len(es)), listedIP(r, es[j])))
  ensures ascending: all(i, uint64, j, uint64, pat(es[i], es[j]), imp(i < j && j < uint64(len(es)), mk(es[i]) < mk(es[j])))
  ensures complete: all(k, uint64, pat(has(ipX(r).table,k)), imp(has(ipX(r).table,k), ex(j, uint64, pat(es[j]), j < uint64(len(es)) && mk(es[j]) == k)))

func iptable.(*ipTable).GetByLabel(r, selector) (es)
  props C09, C22
  requires IPT: IPT(r)
  requires marked: marked(ipX(r))
  requires sel: selector != nil
  inv at(it *idxtable.Iterator): it.current + 1 <= uint64(len(it.keys))
  inv ent(s table.Routes): all(j, uint64, pat(s[j]), imp(j < uint64(len(s)), listedIP(r, s[j]) && rmatch(selector, s[j])))
  inv asc(s table.Routes): all(i, uint64, j, uint64, pat(s[i], s[j]), imp(i < j && j < uint64(len(s)), mk(s[i]) < mk(s[j])))
  inv below(it *idxtable.Iterator, s table.Routes): all(j, uint64, n, uint64, pat(s[j], it.keys[n]), imp(j < uint64(len(s)) && it.current + 1 <= n && n < uint64(len(it.keys)), mk(s[j]) < it.keys[n]))
  inv comp(it *idxtable.Iterator, s table.Routes): all(n, uint64, pat(it.keys[n]), imp(n < it.current + 1 && rmatch(selector, ipX(r).table[it.keys[n]].data), ex(j, uint64, pat(s[j]), j < uint64(len(s)) && mk(s[j]) == it.keys[n])))
  ensures entries: all(j, uint64, pat(es[j]), imp(j < uint64(len(es)), listedIP(r, es[j]) && rmatch(selector, es[j])))
  ensures ascending: all(i, uint64, j, uint64, pat(es[i], es[j]), imp(i < j && j < uint64(len(es)), mk(es[i]) < mk(es[j])))
  ensures complete: all(k, uint64, pat(has(ipX(r).table,k)), imp(has(ipX(r).table,k) && rmatch(selector, ipX(r).table[k].data), ex(j, uint64, pat(es[j]), j < uint64(len(es)) && mk(es[j]) == k)))
