// pkg/table/table$W: tables over the ids start..end (C06, C07).
filewidths 16, 32, 64
// no lock of its own: nothing but the index table, which has one, may change
guarded table$W:

// the index table below
define X(r) = dyn(r.table)
define rng(r, id) = uint64(r.start) <= id && id <= uint64(r.end)
define ix(r, id) = id - uint64(r.start)
define claimedT(r, id) = has(X(r).table, ix(r, id))
define lab(r, id) = X(r).table[ix(r, id)].data.labels
// the entry stored at index k carries k; the size is the number of ids
define stored(t) = all(k, uint64, pat(has(t.table,k)), pat(t.table[k]), imp(has(t.table,k), t.table[k].data != nil && t.table[k].data.id != nil && uint64(t.table[k].data.id.id) == k && t.table[k].data.id.length == $W))
define TT(r) = r.table != nil && r.start <= r.end && X(r).size - 1 == uint64(r.end - r.start) && X(r).size != 0 && TI(X(r)) && stored(X(r)) && lockfree(X(r).m)
// the other ids keep exactly what they had
define keptT(r, id) = sameExcept(X(r), ix(r, id))
define ext(r, e, id) = e != nil && e.id != nil && uint64(e.id.id) == id && e.id.length == $W

func table/table$W.New(start, end) (r)
  props C06, C22
  ensures wf: imp(start <= end && !($W == 64 && start == 0 && end == ^uint$W(0)), r != nil && TT(dyn(r)))
  ensures bounds: dyn(r).start == start && dyn(r).end == end
  ensures empty: all(k, uint64, !has(X(dyn(r)).table, k)) && len(X(dyn(r)).table) == 0

func table/table$W.(*table$W).Get(r, id) (e, err)
  props C06, C22
  requires TT: TT(r)
  ensures found: iff(err == nil, rng(r, id) && claimedT(r, id))
  ensures entry: imp(err == nil, ext(r, e, id) && e.labels == lab(r, id))
  ensures none: imp(err != nil, e == nil)

func table/table$W.(*table$W).Has(r, id) (ok)
  props C06, C22
  requires TT: TT(r)
  ensures has: ok == (rng(r, id) && claimedT(r, id))

func table/table$W.(*table$W).IsFree(r, id) (ok)
  props C06, C22
  requires TT: TT(r)
  ensures free: ok == (rng(r, id) && !claimedT(r, id))

func table/table$W.(*table$W).Size(r) (n)
  props C06, C22
  requires TT: TT(r)
  ensures n: n == len(X(r).table)

func table/table$W.(*table$W).Claim(r, id, labels) (err)
  props C06, C22
  requires TT: TT(r)
  modifies X(r).table
  ensures exact: iff(err == nil, rng(r, id) && !old(claimedT(r, id)))
  ensures stored: imp(err == nil, claimedT(r, id) && lab(r, id) == labels && keptT(r, id) && len(X(r).table) == old(len(X(r).table)) + 1)
  ensures unchanged: imp(err != nil, nochange(X(r)))
  ensures TT: TT(r)

func table/table$W.(*table$W).Release(r, id) (err)
  props C06, C22
  requires TT: TT(r)
  modifies X(r).table
  ensures exact: iff(err == nil, rng(r, id))
  ensures gone: imp(err == nil, !claimedT(r, id) && keptT(r, id))
  ensures unchanged: imp(err != nil, nochange(X(r)))
  ensures TT: TT(r)

func table/table$W.(*table$W).Update(r, id, labels) (err)
  props C06, C22
  requires TT: TT(r)
  modifies X(r).table
  ensures exact: iff(err == nil, rng(r, id) && old(claimedT(r, id)))
  ensures stored: imp(err == nil, claimedT(r, id) && lab(r, id) == labels && keptT(r, id) && sameCard(X(r)))
  ensures unchanged: imp(err != nil, nochange(X(r)))
  ensures TT: TT(r)

// Free search and listings (C07).
define lowestT(r, id) = rng(r, id) && lowest(X(r), ix(r, id))
func table/table$W.(*table$W).FindFree(r) (id, err)
  props C07, C22
  requires TT: TT(r)
  ensures lowest: imp(err == nil, lowestT(r, id))
  ensures full: imp(err != nil, full(X(r)))

func table/table$W.(*table$W).ClaimFree(r, labels) (e, err)
  props C07, C22
  requires TT: TT(r)
  modifies X(r).table
  ensures lowest: imp(err == nil, e != nil && e.id != nil && e.id.length == $W && old(lowestT(r, uint64(e.id.id))))
  ensures stored: imp(err == nil, e.labels == labels && claimedT(r, uint64(e.id.id)) && lab(r, uint64(e.id.id)) == labels && keptT(r, uint64(e.id.id)) && len(X(r).table) == old(len(X(r).table)) + 1)
  ensures full: imp(err != nil, e == nil && old(full(X(r))) && nochange(X(r)))
  ensures TT: TT(r)

func table/table$W.(*table$W).GetAll(r) (es)
  props C07, C22
  requires TT: TT(r)
  inv ent(s tree.Entries, t []idxtable.Entry, i int): len(s) == i + 1 && all(j, uint64, pat(s[j]), pat(t[j]), imp(j < uint64(len(s)), ext(r, s[j], t[j].id + uint64(r.start)) && s[j].labels == t[j].data.labels))
  ensures count: len(es) == len(X(r).table)
  ensures entries: all(j, uint64, pat(es[j]), imp(j < uint64(len(es)), es[j] != nil && es[j].id != nil && es[j].id.length == $W && rng(r, uint64(es[j].id.id)) && claimedT(r, uint64(es[j].id.id)) && es[j].labels == lab(r, uint64(es[j].id.id))))
  ensures ascending: all(i, uint64, j, uint64, pat(es[i], es[j]), imp(i < j && j < uint64(len(es)), es[i].id.id < es[j].id.id))
  ensures complete: all(k, uint64, pat(has(X(r).table,k)), imp(has(X(r).table,k), ex(j, uint64, pat(es[j]), j < uint64(len(es)) && uint64(es[j].id.id) == k + uint64(r.start))))

define match(sel, l) = uf("selMatches", bool, sel, l)
define listedT(r, e) = e != nil && e.id != nil && e.id.length == $W && rng(r, uint64(e.id.id)) && claimedT(r, uint64(e.id.id)) && e.labels == lab(r, uint64(e.id.id))
func table/table$W.(*table$W).GetByLabel(r, selector) (es)
  props C07, C22
  requires TT: TT(r)
  requires sel: selector != nil
  inv at(it *idxtable.Iterator): it.current + 1 <= uint64(len(it.keys))
  inv ent(s tree.Entries): all(j, uint64, pat(s[j]), imp(j < uint64(len(s)), listedT(r, s[j]) && match(selector, s[j].labels)))
  inv asc(s tree.Entries): all(i, uint64, j, uint64, pat(s[i], s[j]), imp(i < j && j < uint64(len(s)), s[i].id.id < s[j].id.id))
  inv below(it *idxtable.Iterator, s tree.Entries): all(j, uint64, n, uint64, pat(s[j], it.keys[n]), imp(j < uint64(len(s)) && it.current + 1 <= n && n < uint64(len(it.keys)), ix(r, uint64(s[j].id.id)) < it.keys[n]))
  inv comp(it *idxtable.Iterator, s tree.Entries): all(n, uint64, pat(it.keys[n]), imp(n < it.current + 1 && match(selector, X(r).table[it.keys[n]].data.labels), ex(j, uint64, pat(s[j]), j < uint64(len(s)) && uint64(s[j].id.id) == it.keys[n] + uint64(r.start))))
  ensures entries: all(j, uint64, pat(es[j]), imp(j < uint64(len(es)), listedT(r, es[j]) && match(selector, es[j].labels)))
  ensures ascending: all(i, uint64, j, uint64, pat(es[i], es[j]), imp(i < j && j < uint64(len(es)), es[i].id.id < es[j].id.id))
  ensures complete: all(k, uint64, pat(has(X(r).table,k)), imp(has(X(r).table,k) && match(selector, X(r).table[k].data.labels), ex(j, uint64, pat(es[j]), j < uint64(len(es)) && uint64(es[j].id.id) == k + uint64(r.start))))
