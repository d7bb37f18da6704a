// pkg/idxtable: the bounded id table.
filewidths 32

guarded table: table

// Every stored entry sits under its own id, below size, and is not nil.
define TI(r) = all(k, uint64, pat(has(r.table,k)), pat(r.table[k]),
    imp(has(r.table,k), k < r.size && r.table[k] != nil && r.table[k].id == k))
// The other ids keep exactly what they had.
define same(r, k) = iff(has(r.table,k), has(old(r.table),k)) && imp(has(r.table,k), r.table[k] == old(r.table[k]))
define sameExcept(r, id) = all(k, uint64, pat(has(r.table,k)), pat(r.table[k]), imp(k != id, same(r,k)))
define sameAll(r) = all(k, uint64, pat(has(r.table,k)), pat(r.table[k]), same(r,k))
define sameCard(r) = len(r.table) == old(len(r.table))
define nochange(r) = sameAll(r) && sameCard(r)
define holds(r, id, v) = has(r.table,id) && r.table[id] != nil && r.table[id].id == id && r.table[id].data == v

// lowest free id
define lowest(r, id) = id < r.size && !has(r.table,id) && all(k, uint64, pat(has(r.table,k)), pat(r.table[k]), imp(k < id, has(r.table,k)))
define full(r) = all(k, uint64, pat(has(r.table,k)), pat(r.table[k]), imp(k < r.size, has(r.table,k)))
// ids of a slice: start, start+1, ...
define consec(s, start) = all(i, uint64, pat(s[i]), imp(i < uint64(len(s)), s[i] == start + i))

ginv frameTI(t *idxtable.table): TI(t)

func idxtable.NewTable(size) (r)
  props C01, C22
  ensures empty: all(k, uint64, !has(dyn(r).table, k)) && len(dyn(r).table) == 0
  ensures size: dyn(r).size == size
  ensures TI: TI(dyn(r))
  ensures lockfree: lockfree(dyn(r).m)

func idxtable.NewEntry(id, d) (e)
  props C01
  ensures e: e != nil && e.id == id && e.data == d

func idxtable.(entry).ID(r) (id)
  props C05
  ensures id: id == r.id
func idxtable.(entry).Data(r) (d)
  props C05
  ensures d: d == r.data

func idxtable.(*table).Get(r, id) (e, err)
  props C05, C22
  requires TI: TI(r)
  requires lf: lockfree(r.m)
  acquires R r.m
  ensures found: iff(err == nil, has(r.table, id))
  ensures entry: imp(err == nil, e == r.table[id] && e.id == id)
  ensures none: imp(err != nil, e == nil)

func idxtable.(*table).Has(r, id) (ok)
  props C05, C22
  requires TI: TI(r)
  requires lf: lockfree(r.m)
  acquires R r.m
  ensures has: ok == has(r.table, id)

func idxtable.(*table).IsFree(r, id) (ok)
  props C05, C22
  requires TI: TI(r)
  requires lf: lockfree(r.m)
  acquires R r.m
  ensures free: ok == !has(r.table, id)

func idxtable.(*table).Size(r) (n)
  props C05, C22
  requires lf: lockfree(r.m)
  acquires R r.m
  ensures n: n == len(r.table)

func idxtable.(*table).Claim(r, id, d) (err)
  props C01, C22
  requires TI: TI(r)
  requires lf: lockfree(r.m)
  acquires W r.m
  modifies r.table
  ensures exact: iff(err == nil, id < r.size && !old(has(r.table, id)))
  ensures stored: imp(err == nil, holds(r, id, d) && sameExcept(r, id) && len(r.table) == old(len(r.table)) + 1)
  ensures unchanged: imp(err != nil, nochange(r))
  ensures TI: TI(r)

func idxtable.(*table).Release(r, id) (err)
  props C01, C22
  requires TI: TI(r)
  requires lf: lockfree(r.m)
  acquires W r.m
  modifies r.table
  ensures exact: iff(err == nil, id < r.size)
  ensures gone: !has(r.table, id)
  ensures others: sameExcept(r, id)
  ensures card: len(r.table) == ite(old(has(r.table,id)), old(len(r.table)) - 1, old(len(r.table)))
  ensures TI: TI(r)

func idxtable.(*table).Update(r, id, d) (err)
  props C01, C22
  requires TI: TI(r)
  requires lf: lockfree(r.m)
  acquires W r.m
  modifies r.table
  ensures exact: iff(err == nil, old(has(r.table, id)))
  ensures stored: imp(err == nil, holds(r, id, d) && sameExcept(r, id) && sameCard(r))
  ensures unchanged: imp(err != nil, nochange(r))
  ensures TI: TI(r)

func idxtable.(*table).FindFree(r) (id, err)
  props C02, C22
  requires TI: TI(r)
  requires lf: lockfree(r.m)
  acquires R r.m
  inv below(i uint64): i <= r.size && all(k, uint64, pat(has(r.table,k)), pat(r.table[k]), imp(k < i, has(r.table,k)))
  ensures lowest: imp(err == nil, lowest(r, id))
  ensures full: imp(err != nil, full(r))

func idxtable.(*table).ClaimDynamic(r, d) (e, err)
  props C02, C22
  requires TI: TI(r)
  requires lf: lockfree(r.m)
  acquires W r.m
  modifies r.table
  inv below(i uint64): i <= r.size && all(k, uint64, pat(has(r.table,k)), pat(r.table[k]), imp(k < i, has(r.table,k)))
  ensures lowest: imp(err == nil, e != nil && old(lowest(r, e.id)))
  ensures stored: imp(err == nil, e.data == d && holds(r, e.id, d) && sameExcept(r, e.id) && len(r.table) == old(len(r.table)) + 1)
  ensures full: imp(err != nil, old(full(r)) && nochange(r) && e == nil)
  ensures TI: TI(r)

define rangeFree(r, start, size) = size > 0 && start < r.size && size <= r.size - start && all(k, uint64, pat(has(r.table,k)), pat(r.table[k]), imp(k - start < size, !has(r.table,k)))

func idxtable.(*table).FindFreeRange(r, start, size) (ids, err)
  props C03, C22
  requires TI: TI(r)
  requires lf: lockfree(r.m)
  acquires R r.m
  inv consec(s []uint64): consec(s, start)
  inv upto(s []uint64, i uint64): uint64(len(s)) == i - start && i - start <= size
  inv count(s []uint64): uint64(len(s)) <= size
  inv free(i uint64): all(k, uint64, pat(has(r.table,k)), pat(r.table[k]), imp(k - start < i - start, !has(r.table,k)))
  ensures exact: iff(err == nil, rangeFree(r, start, size))
  ensures ids: imp(err == nil, uint64(len(ids)) == size && consec(ids, start))

func idxtable.(*table).ClaimRange(r, start, size, d) (err)
  props C03, C22
  requires TI: TI(r)
  requires lf: lockfree(r.m)
  acquires W r.m
  modifies r.table
  inv consec(s []uint64): consec(s, start)
  inv upto(s []uint64, i uint64): uint64(len(s)) == i - start && i - start <= size
  inv count(s []uint64): uint64(len(s)) <= size
  inv free(i uint64): all(k, uint64, pat(has(r.table,k)), pat(r.table[k]), imp(k - start < i - start, !has(r.table,k)))
  inv cpres(i int): all(k, uint64, pat(has(r.table,k)), pat(r.table[k]), iff(has(r.table,k), has(old(r.table),k) || k - start < uint64(i+1)))
  inv cnew(i int): all(k, uint64, pat(has(r.table,k)), pat(r.table[k]), imp(k - start < uint64(i+1), holds(r,k,d)))
  inv cold(i int): all(k, uint64, pat(has(r.table,k)), pat(r.table[k]), imp(has(r.table,k) && k - start >= uint64(i+1), r.table[k] == old(r.table[k])))
  inv ccard(i int): len(r.table) == old(len(r.table)) + i + 1
  ensures exact: iff(err == nil, old(rangeFree(r, start, size)))
  ensures claimed: imp(err == nil, all(k, uint64, pat(has(r.table,k)), pat(r.table[k]), ite(k - start < size, holds(r, k, d), same(r, k))) && uint64(len(r.table)) == uint64(old(len(r.table))) + size)
  ensures unchanged: imp(err != nil, nochange(r))
  ensures TI: TI(r)

// ids is the list of the n lowest free ids: rank(m,k) counts the free ids below k
define lowestFree(r, ids, n) = all(i, uint64, pat(ids[i]), imp(i < n, ids[i] < r.size && !has(r.table, ids[i]) && rank(r.table, ids[i]) == i))
define ascending(ids) = all(i, uint64, j, uint64, pat(ids[i], ids[j]), imp(i < j && j < uint64(len(ids)), ids[i] < ids[j]))

// helpers that hold the lock already
func idxtable.(*table).findFreeSize(r, size) (ids, err)
  optional
  props C04
  requires TI: TI(r)
  holds R r.m
  inv low(s []uint64): lowestFree(r, s, uint64(len(s)))
  inv asc(s []uint64): ascending(s)
  inv below(s []uint64, i uint64): all(j, uint64, pat(s[j]), imp(j < uint64(len(s)), s[j] < i))
  inv cnt(s []uint64, i uint64): uint64(len(s)) == rank(r.table, i)
  inv copied(s []uint64, i uint64): uint64(len(s)) == i && imp(size > 0, i < size)
  inv bnd(i uint64): i <= r.size
  inv avail(it *idxtable.Iterator): uint64(len(it.keys)) == rank(r.table, r.size)
  inv next(it *idxtable.Iterator): imp(it.current != -1, it.current < uint64(len(it.keys)))
  inv curr(it *idxtable.Iterator, i uint64): it.current + 1 == i
  inv same(it *idxtable.Iterator, s []uint64): all(j, uint64, pat(s[j]), imp(j < uint64(len(s)), s[j] == it.keys[j]))
  ensures exact: iff(err == nil, size > 0 && size <= rank(r.table, r.size))
  ensures count: imp(err == nil, uint64(len(ids)) == size)
  ensures lowest: imp(err == nil, lowestFree(r, ids, size) && ascending(ids))

func idxtable.(*table).FindFreeSize(r, size) (ids, err)
  props C04, C22
  requires TI: TI(r)
  requires lf: lockfree(r.m)
  acquires R r.m
  inv low(s []uint64): lowestFree(r, s, uint64(len(s)))
  inv asc(s []uint64): ascending(s)
  inv below(s []uint64, i uint64): all(j, uint64, pat(s[j]), imp(j < uint64(len(s)), s[j] < i))
  inv cnt(s []uint64, i uint64): uint64(len(s)) == rank(r.table, i)
  inv copied(s []uint64, i uint64): uint64(len(s)) == i && imp(size > 0, i < size)
  inv bnd(i uint64): i <= r.size
  inv avail(it *idxtable.Iterator): uint64(len(it.keys)) == rank(r.table, r.size)
  inv next(it *idxtable.Iterator): imp(it.current != -1, it.current < uint64(len(it.keys)))
  inv curr(it *idxtable.Iterator, i uint64): it.current + 1 == i
  inv same(it *idxtable.Iterator, s []uint64): all(j, uint64, pat(s[j]), imp(j < uint64(len(s)), s[j] == it.keys[j]))
  ensures exact: iff(err == nil, size > 0 && size <= rank(r.table, r.size))
  ensures count: imp(err == nil, uint64(len(ids)) == size)
  ensures lowest: imp(err == nil, lowestFree(r, ids, size) && ascending(ids))

// claimed(es, n): the first n entries are stored with data d
define claimedN(r, ids, n, d) = all(i, uint64, pat(ids[i]), imp(i < n, holds(r, ids[i], d)))

func idxtable.(*table).ClaimSize(r, size, d) (es, err)
  props C04, C22
  requires TI: TI(r)
  requires lf: lockfree(r.m)
  acquires W r.m
  modifies r.table
  inv idlow(s []uint64): all(i, uint64, pat(s[i]), imp(i < uint64(len(s)), s[i] < r.size && !old(has(r.table, s[i])) && rank(old(r.table), s[i]) == i))
  inv idasc(s []uint64): ascending(s)
  inv len(s idxtable.Entries, i int): len(s) == i + 1
  inv ent(s idxtable.Entries, t []uint64): all(j, uint64, pat(s[j]), imp(j < uint64(len(s)), s[j] != nil && s[j].id == t[j] && s[j].data == d))
  inv sto(t []uint64, i int): all(j, uint64, pat(t[j]), imp(j < uint64(i+1), holds(r, t[j], d)))
  inv old(i int): all(k, uint64, pat(has(r.table,k)), pat(r.table[k]), imp(has(old(r.table), k), same(r, k)))
  inv new(t []uint64, i int): all(k, uint64, pat(has(r.table,k)), pat(r.table[k]), iff(has(r.table,k), has(old(r.table),k) || rank(old(r.table), k) < uint64(i+1) && t[rank(old(r.table), k)] == k))
  inv card(i int): len(r.table) == old(len(r.table)) + i + 1
  ensures exact: iff(err == nil, size > 0 && size <= old(rank(r.table, r.size)))
  ensures result: imp(err == nil, uint64(len(es)) == size && all(j, uint64, pat(es[j]), imp(j < size, es[j] != nil && es[j].data == d && es[j].id < r.size && !has(old(r.table), es[j].id) && rank(old(r.table), es[j].id) == j)))
  ensures stored: imp(err == nil, all(j, uint64, pat(es[j]), imp(j < size, holds(r, es[j].id, d))))
  ensures others: imp(err == nil, all(k, uint64, pat(has(r.table,k)), pat(r.table[k]), imp(has(old(r.table), k), same(r, k))))
  ensures nomore: imp(err == nil, all(k, uint64, pat(has(r.table,k)), pat(r.table[k]), imp(has(r.table,k) && !has(old(r.table),k), rank(old(r.table), k) < size && es[rank(old(r.table), k)].id == k)) && uint64(len(r.table)) == uint64(old(len(r.table))) + size)
  ensures unchanged: imp(err != nil, nochange(r) && len(es) == 0)
  ensures TI: TI(r)

// a snapshot of the used entries in id order
define snapshot(r, keys) = len(keys) == len(r.table) && ascending(keys)
    && all(j, uint64, pat(keys[j]), imp(j < uint64(len(keys)), has(r.table, keys[j])))
    && all(k, uint64, pat(has(r.table,k)), imp(has(r.table,k), ex(j, uint64, pat(keys[j]), j < uint64(len(keys)) && keys[j] == k)))
define sameMap(m, r) = all(k, uint64, pat(has(m,k)), pat(has(r.table,k)), iff(has(m,k), has(r.table,k)) && imp(has(m,k), m[k] == r.table[k]))
define freeList(r, keys) = uint64(len(keys)) == rank(r.table, r.size) && lowestFree(r, keys, uint64(len(keys))) && ascending(keys)

func idxtable.(*table).iterate(r) (it)
  optional
  props C05
  requires TI: TI(r)
  holds R r.m
  inv keys(s []uint64, m mapiter): len(s) == pos(m) && all(j, uint64, pat(s[j]), pat(enum(m,j)), imp(j < uint64(len(s)), s[j] == enum(m,j)))
  inv copy(t map, m mapiter): all(k, uint64, pat(has(t,k)), pat(has(r.table,k)), iff(has(t,k), has(r.table,k) && enuminv(m,k) < uint64(pos(m))) && imp(has(t,k), t[k] == r.table[k]))
  ensures start: it.current == -1
  ensures keys: snapshot(r, it.keys)
  ensures table: sameMap(it.table, r)

func idxtable.(*table).Iterate(r) (it)
  props C05, C22
  requires TI: TI(r)
  requires lf: lockfree(r.m)
  acquires R r.m
  inv keys(s []uint64, m mapiter): len(s) == pos(m) && all(j, uint64, pat(s[j]), pat(enum(m,j)), imp(j < uint64(len(s)), s[j] == enum(m,j)))
  inv copy(t map, m mapiter): all(k, uint64, pat(has(t,k)), pat(has(r.table,k)), iff(has(t,k), has(r.table,k) && enuminv(m,k) < uint64(pos(m))) && imp(has(t,k), t[k] == r.table[k]))
  ensures start: it.current == -1
  ensures keys: snapshot(r, it.keys)
  ensures table: sameMap(it.table, r)

func idxtable.(*table).iterateFree(r) (it)
  optional
  props C05
  requires TI: TI(r)
  holds R r.m
  inv low(s []uint64): lowestFree(r, s, uint64(len(s)))
  inv asc(s []uint64): ascending(s)
  inv below(s []uint64, i uint64): all(j, uint64, pat(s[j]), imp(j < uint64(len(s)), s[j] < i))
  inv cnt(s []uint64, i uint64): uint64(len(s)) == rank(r.table, i)
  inv bnd(i uint64): i <= r.size
  ensures start: it.current == -1
  ensures keys: freeList(r, it.keys)
  ensures table: all(k, uint64, pat(has(it.table,k)), !has(it.table,k))

func idxtable.(*table).IterateFree(r) (it)
  props C05, C22
  requires TI: TI(r)
  requires lf: lockfree(r.m)
  acquires R r.m
  inv low(s []uint64): lowestFree(r, s, uint64(len(s)))
  inv asc(s []uint64): ascending(s)
  inv below(s []uint64, i uint64): all(j, uint64, pat(s[j]), imp(j < uint64(len(s)), s[j] < i))
  inv cnt(s []uint64, i uint64): uint64(len(s)) == rank(r.table, i)
  inv bnd(i uint64): i <= r.size
  ensures start: it.current == -1
  ensures keys: freeList(r, it.keys)
  ensures table: all(k, uint64, pat(has(it.table,k)), !has(it.table,k))

// the iterator walks keys from the first to the last
define atKey(it) = it.current < uint64(len(it.keys))

func idxtable.(*Iterator).Next(it) (ok)
  props C05
  requires room: it.current == -1 || it.current <= uint64(len(it.keys))
  modifies it.current
  ensures step: it.current == old(it.current) + 1
  ensures more: ok == (atKey(it))

func idxtable.(*Iterator).ID(it) (id)
  props C05
  requires at: atKey(it)
  ensures id: id == it.keys[it.current]

func idxtable.(*Iterator).Value(it) (e)
  props C05
  requires at: atKey(it)
  ensures value: imp(has(it.table, it.keys[it.current]), e == it.table[it.keys[it.current]])
  ensures none: imp(!has(it.table, it.keys[it.current]), e == nil)

func idxtable.(*Iterator).IsConsecutive(it) (ok)
  props C05
  requires at: atKey(it)
  ensures consecutive: ok == (it.current > 0 && it.keys[it.current-1] == it.keys[it.current] - 1)

func idxtable.(*table).GetAll(r) (es)
  props C05, C22
  requires TI: TI(r)
  requires lf: lockfree(r.m)
  acquires R r.m
  inv pos(it *idxtable.Iterator, s []idxtable.Entry): it.current + 1 == uint64(len(s)) && uint64(len(s)) <= uint64(len(it.keys))
  inv ent(it *idxtable.Iterator, s []idxtable.Entry): all(j, uint64, pat(s[j]), pat(it.keys[j]), imp(j < uint64(len(s)), s[j] != nil && s[j] == r.table[it.keys[j]] && s[j].id == it.keys[j]))
  ensures count: len(es) == len(r.table)
  ensures entries: all(j, uint64, pat(es[j]), imp(j < uint64(len(es)), es[j] != nil && has(r.table, es[j].id) && es[j] == r.table[es[j].id]))
  ensures ascending: all(i, uint64, j, uint64, pat(es[i], es[j]), imp(i < j && j < uint64(len(es)), es[i].id < es[j].id))
  ensures complete: all(k, uint64, pat(has(r.table,k)), imp(has(r.table,k), ex(j, uint64, pat(es[j]), j < uint64(len(es)) && es[j].id == k)))
