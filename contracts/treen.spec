// pkg/tree/tree$W: prefixes with labels (C17 to C21).
filewidths 16, 32, 64

define CT(r) = gh(r.tree, C)
define held(r, k) = gh(r.tree, C)[k] != 0
define ent(r, k) = gh(r.tree, V)[vk(k, 0)]
define okKey(r, k) = lo(k) <= $W && hi(k) & ^M(lo(k)) == 0 && hi(k) <= uint$W(r.size)
define entryAt(e, k) = e != nil && e.id != nil && e.id.id == hi(k) && e.id.length == lo(k)
define entries(r) = all(k, bv($K), pat(gh(r.tree, C)[k]), imp(gh(r.tree, C)[k] != 0, gh(r.tree, C)[k] == 1 && okKey(r, k) && entryAt(ent(r, k), k)))
define RT(r) = r.tree != nil && TInv(r.tree) && r.length <= $W && uint$W(r.size) == ^(^uint$W(0) << r.length) && entries(r)
define inSpace(r, id) = id.id <= uint$W(r.size) && id.length <= $W

guarded tree$W: tree

func tree/tree$W.New(name, length) (g, err)
  props C17, C22
  ensures exact: iff(err == nil, length <= $W)
  ensures wf: imp(err == nil, g != nil && RT(dyn(g)) && dyn(g).length == length)
  ensures empty: imp(err == nil, all(k, bv($K), !held(dyn(g), k)))

func tree/tree$W.(*tree$W).Get(r, id) (e, err)
  props C17, C22
  requires RT: RT(r)
  requires id: id != nil
  acquires R r.m
  inv ready(it *gtree.GTreeIterator): ready(it.Iter)
  inv seen(it *gtree.GTreeIterator): imp(passed(it.Iter, idKey(id)), !held(r, idKey(id)))
  ensures found: iff(err == nil, held(r, idKey(id)))
  ensures entry: imp(err == nil, e == ent(r, idKey(id)))
  ensures none: imp(err != nil, e == nil)

define othersKept(r, k) = all(m, bv($K), pat(gh(r.tree, C)[m]), imp(m != k, gh(r.tree, C)[m] == old(gh(r.tree, C)[m]) && imp(gh(r.tree, C)[m] != 0, ent(r, m) == old(ent(r, m)))))
define nothingChanged(r) = all(m, bv($K), pat(gh(r.tree, C)[m]), gh(r.tree, C)[m] == old(gh(r.tree, C)[m]) && imp(gh(r.tree, C)[m] != 0, ent(r, m) == old(ent(r, m))))

func tree/tree$W.(*tree$W).ClaimID(r, id, labels) (err)
  props C17, C22
  requires RT: RT(r)
  requires id: id != nil && imp(inSpace(r, id), canonId(id))
  acquires W r.m
  modifies r.tree.nodes, r.tree.availableIndexes, r.tree.vals, ghosts(r.tree)
  ensures exact: iff(err == nil, inSpace(r, id))
  ensures stored: imp(err == nil, held(r, idKey(id)) && entryAt(ent(r, idKey(id)), idKey(id)) && ent(r, idKey(id)).labels == labels)
  ensures others: imp(err == nil, othersKept(r, idKey(id)))
  ensures unchanged: imp(err != nil, nothingChanged(r))
  ensures RT: RT(r)

func tree/tree$W.(*tree$W).Update(r, id, labels) (err)
  props C17, C22
  requires RT: RT(r)
  requires id: id != nil && imp(inSpace(r, id), canonId(id))
  acquires W r.m
  modifies r.tree.nodes, r.tree.availableIndexes, r.tree.vals, ghosts(r.tree)
  ensures exact: iff(err == nil, inSpace(r, id))
  ensures stored: imp(err == nil, held(r, idKey(id)) && entryAt(ent(r, idKey(id)), idKey(id)) && ent(r, idKey(id)).labels == labels)
  ensures others: imp(err == nil, othersKept(r, idKey(id)))
  ensures unchanged: imp(err != nil, nothingChanged(r))
  ensures RT: RT(r)

func tree/tree$W.(*tree$W).ReleaseID(r, id) (err)
  props C17, C22
  requires RT: RT(r)
  requires id: id != nil
  acquires W r.m
  modifies r.tree.nodes, r.tree.availableIndexes, r.tree.vals, ghosts(r.tree)
  inv ready(it *gtree.GTreeIterator): ready(it.Iter)
  inv seen(it *gtree.GTreeIterator): imp(passed(it.Iter, idKey(id)), !held(r, idKey(id)))
  ensures exact: iff(err == nil, inSpace(r, id))
  ensures gone: imp(err == nil, !held(r, idKey(id)))
  ensures others: imp(err == nil, othersKept(r, idKey(id)))
  ensures unchanged: imp(err != nil, nothingChanged(r))
  ensures RT: RT(r)

func tree/tree$W.(*tree$W).Clone(r) (g)
  props C21, C22
  requires RT: RT(r)
  acquires R r.m
  ensures wf: g != nil && RT(dyn(g)) && dyn(g).length == r.length
  ensures same: all(k, bv($K), pat(gh(dyn(g).tree, C)[k]), gh(dyn(g).tree, C)[k] == gh(r.tree, C)[k] && ent(dyn(g), k) == ent(r, k))

// Free ids (C18): a full-length id of the space inside no stored prefix.
define cov(r, k, x) = held(r, k) && (x ^ hi(k)) & M(lo(k)) == 0
define freeId(r, x) = x <= uint$W(r.size) && all(k, bv($K), pat(gh(r.tree, C)[k]), !cov(r, k, x))
func tree/tree$W.(*tree$W).ClaimFree(r, labels) (e, err)
  props C18, C22
  requires RT: RT(r)
  acquires W r.m
  modifies r.tree.nodes, r.tree.availableIndexes, r.tree.vals, ghosts(r.tree)
  inv ready(it *gtree.GTreeIterator): ready(it.Iter)
  inv good(b *id$W.IDSetBuilder): setOK(b) && b.errs == nil
  inv set(it *gtree.GTreeIterator, b *id$W.IDSetBuilder): all(x, uint$W, iff(mem(b, x), x <= uint$W(r.size) && all(k, bv($K), pat(gh(r.tree, C)[k]), imp(passed(it.Iter, k), !cov(r, k, x)))))
  ensures some: imp(err == nil, e != nil && e.id != nil && e.id.length == $W && old(freeId(r, e.id.id)) && e.labels == labels)
  ensures none: imp(err != nil, e == nil && all(x, uint$W, !old(freeId(r, x))))
  ensures stored: imp(err == nil, held(r, idKey(e.id)) && entryAt(ent(r, idKey(e.id)), idKey(e.id)) && ent(r, idKey(e.id)).labels == labels && othersKept(r, idKey(e.id)))
  ensures unchanged: imp(err != nil, nothingChanged(r))
  ensures RT: RT(r)

// Ranges (C19).
func tree/id$W.ParseRange(s) (r, err)
  trusted
  ensures exact: iff(err == nil, uf("rangeSyntax", bool, s))
  ensures bounds: imp(err == nil, r != nil && wfR(r) && flat(r) && r.from.id == uf("rangeFrom", uint$W, s) && r.to.id == uf("rangeTo", uint$W, s))
  ensures none: imp(err != nil, r == nil)
define inRangeOf(s, k) = uf("rangeFrom", uint$W, s) <= hi(k) && (hi(k) | ^M(lo(k))) <= uf("rangeTo", uint$W, s)
define goodRange(r, s) = uf("rangeSyntax", bool, s) && uf("rangeFrom", uint$W, s) <= uf("rangeTo", uint$W, s) && uf("rangeTo", uint$W, s) <= uint$W(r.size)
func tree/tree$W.(*tree$W).ClaimRange(r, s, labels) (err)
  props C19, C22
  requires RT: RT(r)
  acquires W r.m
  modifies r.tree.nodes, r.tree.availableIndexes, r.tree.vals, ghosts(r.tree)
  inv RT(): RT(r)
  inv done(l []tree.ID, i int): all(j, uint64, pat(l[j]), imp(j < uint64(i + 1), held(r, idKey(l[j])) && ent(r, idKey(l[j])).labels == labels))
  inv other(l []tree.ID, i int): all(k, bv($K), pat(gh(r.tree, C)[k]), imp(gh(r.tree, C)[k] != old(gh(r.tree, C)[k]) || ent(r, k) != old(ent(r, k)), ex(j, uint64, pat(l[j]), j < uint64(i + 1) && idKey(l[j]) == k)))
  ensures exact: iff(err == nil, goodRange(r, s))
  ensures unchanged: imp(err != nil, nothingChanged(r))
  ensures all: imp(err == nil, all(x, uint$W, imp(uf("rangeFrom", uint$W, s) <= x && x <= uf("rangeTo", uint$W, s), ex(k, bv($K), pat(gh(r.tree, C)[k]), cov(r, k, x) && inRangeOf(s, k) && ent(r, k).labels == labels))))
  ensures others: imp(err == nil, all(k, bv($K), pat(gh(r.tree, C)[k]), imp(!inRangeOf(s, k), gh(r.tree, C)[k] == old(gh(r.tree, C)[k]) && imp(held(r, k), ent(r, k) == old(ent(r, k))))))
  ensures kept: imp(err == nil, all(k, bv($K), pat(gh(r.tree, C)[k]), imp(old(held(r, k)), held(r, k) && (ent(r, k) == old(ent(r, k)) || ent(r, k).labels == labels))))
  ensures RT: RT(r)

// Listings (C20, C21).
define isE(r, e) = e != nil && e.id != nil && held(r, idKey(e.id)) && e == ent(r, idKey(e.id))
define asc(es) = all(i, uint64, j, uint64, pat(es[i], es[j]), imp(i < j && j < uint64(len(es)), idKey(es[i].id) < idKey(es[j].id)))
define inList(es, k) = ex(j, uint64, pat(es[j]), j < uint64(len(es)) && idKey(es[j].id) == k)

func tree/tree$W.(*tree$W).GetAll(r) (es)
  props C20, C22
  requires RT: RT(r)
  acquires R r.m
  inv ready(it *gtree.GTreeIterator): ready(it.Iter)
  inv ents(s tree.Entries): all(j, uint64, pat(s[j]), imp(j < uint64(len(s)), isE(r, s[j])))
  inv upto(it *gtree.GTreeIterator, s tree.Entries): all(j, uint64, pat(s[j]), imp(j < uint64(len(s)), passed(it.Iter, idKey(s[j].id))))
  inv asc(s tree.Entries): asc(s)
  inv all(it *gtree.GTreeIterator, s tree.Entries): all(k, bv($K), pat(gh(r.tree, C)[k]), imp(held(r, k) && passed(it.Iter, k), inList(s, k)))
  ensures entries: all(j, uint64, pat(es[j]), imp(j < uint64(len(es)), isE(r, es[j])))
  ensures ascending: asc(es)
  ensures complete: all(k, bv($K), pat(gh(r.tree, C)[k]), imp(held(r, k), inList(es, k)))

func tree/tree$W.(*tree$W).getByLabel(r, selector) (es)
  props C20, C22
  optional
  requires RT: RT(r)
  requires sel: selector != nil
  holds R r.m
  inv ready(it *gtree.GTreeIterator): ready(it.Iter)
  inv ents(s tree.Entries): all(j, uint64, pat(s[j]), imp(j < uint64(len(s)), isE(r, s[j]) && match(selector, s[j].labels)))
  inv upto(it *gtree.GTreeIterator, s tree.Entries): all(j, uint64, pat(s[j]), imp(j < uint64(len(s)), passed(it.Iter, idKey(s[j].id))))
  inv asc(s tree.Entries): asc(s)
  inv all(it *gtree.GTreeIterator, s tree.Entries): all(k, bv($K), pat(gh(r.tree, C)[k]), imp(held(r, k) && passed(it.Iter, k) && match(selector, ent(r, k).labels), inList(s, k)))
  ensures entries: all(j, uint64, pat(es[j]), imp(j < uint64(len(es)), isE(r, es[j]) && match(selector, es[j].labels)))
  ensures ascending: asc(es)
  ensures complete: all(k, bv($K), pat(gh(r.tree, C)[k]), imp(held(r, k) && match(selector, ent(r, k).labels), inList(es, k)))

func tree/tree$W.(*tree$W).GetByLabel(r, selector) (es)
  props C20, C22
  requires RT: RT(r)
  requires sel: selector != nil
  acquires R r.m
  ensures entries: all(j, uint64, pat(es[j]), imp(j < uint64(len(es)), isE(r, es[j]) && match(selector, es[j].labels)))
  ensures ascending: asc(es)
  ensures complete: all(k, bv($K), pat(gh(r.tree, C)[k]), imp(held(r, k) && match(selector, ent(r, k).labels), inList(es, k)))

// k and the id: one covers the other, and k is longer (shorter)
define under(k, id) = lo(k) > id.length && (hi(k) ^ id.id) & M(id.length) == 0
define around(k, id) = lo(k) < id.length && (hi(k) ^ id.id) & M(lo(k)) == 0
func tree/tree$W.(*tree$W).Children(r, id) (es)
  props C20, C22
  requires RT: RT(r)
  requires id: id != nil && id.length <= $W
  acquires R r.m
  inv ready(it *gtree.GTreeIterator): ready(it.Iter)
  inv ents(s tree.Entries): all(j, uint64, pat(s[j]), imp(j < uint64(len(s)), isE(r, s[j]) && under(idKey(s[j].id), id)))
  inv upto(it *gtree.GTreeIterator, s tree.Entries): all(j, uint64, pat(s[j]), imp(j < uint64(len(s)), passed(it.Iter, idKey(s[j].id))))
  inv asc(s tree.Entries): asc(s)
  inv all(it *gtree.GTreeIterator, s tree.Entries): all(k, bv($K), pat(gh(r.tree, C)[k]), imp(held(r, k) && passed(it.Iter, k) && under(k, id), inList(s, k)))
  ensures entries: all(j, uint64, pat(es[j]), imp(j < uint64(len(es)), isE(r, es[j]) && under(idKey(es[j].id), id)))
  ensures ascending: asc(es)
  ensures complete: all(k, bv($K), pat(gh(r.tree, C)[k]), imp(held(r, k) && under(k, id), inList(es, k)))

func tree/tree$W.(*tree$W).Parents(r, id) (es)
  props C20, C22
  requires RT: RT(r)
  requires id: id != nil && id.length <= $W
  acquires R r.m
  inv ready(it *gtree.GTreeIterator): ready(it.Iter)
  inv ents(s tree.Entries): all(j, uint64, pat(s[j]), imp(j < uint64(len(s)), isE(r, s[j]) && around(idKey(s[j].id), id)))
  inv upto(it *gtree.GTreeIterator, s tree.Entries): all(j, uint64, pat(s[j]), imp(j < uint64(len(s)), passed(it.Iter, idKey(s[j].id))))
  inv asc(s tree.Entries): asc(s)
  inv all(it *gtree.GTreeIterator, s tree.Entries): all(k, bv($K), pat(gh(r.tree, C)[k]), imp(held(r, k) && passed(it.Iter, k) && around(k, id), inList(s, k)))
  ensures entries: all(j, uint64, pat(es[j]), imp(j < uint64(len(es)), isE(r, es[j]) && around(idKey(es[j].id), id)))
  ensures ascending: asc(es)
  ensures complete: all(k, bv($K), pat(gh(r.tree, C)[k]), imp(held(r, k) && around(k, id), inList(es, k)))

// the number of prefixes: total counts the keys with a value, upTo those not
// above a key (definitions of counting a finite set)
define total(a) = uf("total", uint64, a)
define upTo(a, k) = uf("upTo", uint64, a, k)
func tree/tree$W.(*tree$W).Size(r) (n)
  props C20, C22
  requires RT: RT(r)
  acquires R r.m
  axiom none: imp(all(k, bv($K), pat(CT(r)[k]), CT(r)[k] == 0), total(CT(r)) == 0)
  axiom first: all(k, bv($K), pat(upTo(CT(r), k)), imp(CT(r)[k] != 0 && all(m, bv($K), pat(CT(r)[m]), imp(m < k, CT(r)[m] == 0)), upTo(CT(r), k) == 1))
  axiom next: all(j, bv($K), k, bv($K), pat(upTo(CT(r), j), upTo(CT(r), k)), imp(CT(r)[k] != 0 && j < k && all(m, bv($K), pat(CT(r)[m]), imp(j < m && m < k, CT(r)[m] == 0)), upTo(CT(r), k) == upTo(CT(r), j) + 1))
  axiom last: all(k, bv($K), pat(upTo(CT(r), k)), imp(all(m, bv($K), pat(CT(r)[m]), imp(k < m, CT(r)[m] == 0)), total(CT(r)) == upTo(CT(r), k)))
  inv ready(it *gtree.GTreeIterator): ready(it.Iter)
  inv none(it *gtree.GTreeIterator, n int): imp(fresh0(it.Iter), n == 0)
  inv n(it *gtree.GTreeIterator, n int): imp(onValue(it.Iter), uint64(n) == upTo(CT(r), at(it.Iter)))
  ensures n: uint64(n) == total(CT(r))

func tree/tree$W.(*tree$W).del(r, id, e) (err)
  props C17, C20
  optional
  requires RT: RT(r)
  requires id: canonId(id) && isE(r, e) && idKey(id) == idKey(e.id)
  holds W r.m
  modifies r.tree.nodes, r.tree.availableIndexes, r.tree.vals, ghosts(r.tree)
  ensures ok: err == nil
  ensures gone: !held(r, idKey(id))
  ensures others: othersKept(r, idKey(id))
  ensures RT: RT(r)

func tree/tree$W.(*tree$W).ReleaseByLabel(r, selector) (err)
  props C20, C22
  requires RT: RT(r)
  requires sel: selector != nil
  acquires W r.m
  modifies r.tree.nodes, r.tree.availableIndexes, r.tree.vals, ghosts(r.tree)
  inv RT(): RT(r)
inv left(s tree.Entries, i int): all(k, bv($K), pat(gh(r.tree, C)[k]), imp(gh(r.tree, C)[k] != old(gh(r.tree, C)[k]), 0 <= i && k <= idKey(s[i].id)))
  inv gone(s tree.Entries, i int): all(j, uint64, pat(s[j]), imp(j < uint64(i + 1), !held(r, idKey(s[j].id))))
  inv rest(): all(k, bv($K), pat(gh(r.tree, C)[k]), imp(held(r, k), old(held(r, k)) && ent(r, k) == old(ent(r, k))))
  inv sel(s tree.Entries, i int): all(k, bv($K), pat(gh(r.tree, C)[k]), imp(old(held(r, k)) && !held(r, k), match(selector, old(ent(r, k)).labels)))
  ensures ok: err == nil
  ensures exact: all(k, bv($K), pat(gh(r.tree, C)[k]), iff(held(r, k), old(held(r, k)) && !match(selector, old(ent(r, k)).labels)))
  ensures kept: all(k, bv($K), pat(gh(r.tree, C)[k]), imp(held(r, k), ent(r, k) == old(ent(r, k))))
  ensures RT: RT(r)

// A live iterator: it walks the tree itself, as of each step.
func tree/tree$W.(*tree$W).Iterate(r) (g)
  props C20, C22
  requires RT: RT(r)
  acquires R r.m
  aliases
  expand
  ensures it: g != nil && g.Iter != nil && g.Iter.t == r.tree && fresh0(g.Iter)

func tree/gtree.(*GTreeIterator).Next(i) (ok)
  props C20
  requires inv: i != nil && i.Iter != nil && i.Iter.t != nil && TInv(i.Iter.t)
  requires ready: ready(i.Iter)
  modifies i.Iter.nodeHistory, i.Iter.nodeIndex, i.Iter.next
  ensures on: imp(ok, onValue(i.Iter))
  ensures next: imp(ok, imp(old(onValue(i.Iter)), old(at(i.Iter)) < at(i.Iter)) && all(k, bv($K), pat(gh(i.Iter.t, C)[k]), imp(count(i.Iter.t, k) != 0 && !old(passed(i.Iter, k)), at(i.Iter) <= k)))
  ensures end: imp(!ok, all(k, bv($K), pat(gh(i.Iter.t, C)[k]), imp(count(i.Iter.t, k) != 0, old(passed(i.Iter, k)))))

func tree/gtree.(*GTreeIterator).Entry(i) (e)
  props C20
  requires inv: i != nil && i.Iter != nil && i.Iter.t != nil && TInv(i.Iter.t)
  requires on: onValue(i.Iter) && count(i.Iter.t, at(i.Iter)) >= 1
  aliases
  ensures val: e == value(i.Iter.t, at(i.Iter), 0)

func tree/tree$W.(*tree$W).PrintNodes(r)
  props C22
  optional
  requires RT: RT(r)
  acquires R r.m

func tree/tree$W.(*tree$W).PrintValues(r)
  props C22
  optional
  requires RT: RT(r)
  acquires R r.m
