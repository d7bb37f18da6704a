// pkg/tree: the prefix tree (C15, C16).
filewidths 16, 32, 64

// Ghost state of a tree: the node of every stored prefix (N, 0: none), the
// prefix every node stands for (P value, D length), which nodes are in use (L),
// where a free node is listed (F); and what the tree means to its user: the
// number of values at every prefix (C) and the values (V).
ghost Tree: N bv$K uint64, P uint64 uint$W, D uint64 uint8, L uint64 bool, F uint64 uint64, C bv$K uint64, V bv$V T

define key(i, l) = concat(uint$W(i), uint8(l))
define vk(k, j) = concat(k, uint32(j))
define hi(k) = uint$W(k >> 8)
define lo(k) = uint8(k)
define room(t) = len(t.nodes) < 0xfffffff0
define canonId(a) = a != nil && a.length <= $W && a.id & ^M(a.length) == 0
define idKey(a) = key(a.id, a.length)
define topBit(x) = (uint$W(x) >> ($W - 1)) == 1

define pP(t, i) = gh(t, P)[i]
define dD(t, i) = gh(t, D)[i]
define live(t, i) = gh(t, L)[i]
define nkey(t, i) = concat(gh(t, P)[i], gh(t, D)[i])
define topB(x) = (x >> ($W - 1)) == 1
// node i stands for a prefix of node j's prefix; the side of i that j is on
define anc(t, i, j) = gh(t, D)[i] <= gh(t, D)[j] && (gh(t, P)[i] ^ gh(t, P)[j]) & M(gh(t, D)[i]) == 0
define side(t, i, j) = topB(gh(t, P)[j] << gh(t, D)[i])
define isChild(t, p, c) = c != 0 && (t.nodes[p].Left == c || t.nodes[p].Right == c)
define okChild(t, i, c) = imp(c != 0, gh(t, L)[c] && gh(t, D)[i] < gh(t, D)[c] && anc(t, i, c) && gh(t, D)[c] - gh(t, D)[i] == t.nodes[c].Length && uint$W(t.nodes[c].Id) & M(t.nodes[c].Length) == gh(t, P)[c] << gh(t, D)[i])

// what the tree's data structure satisfies
define TShape(t) = t.length == $W && 2 <= len(t.nodes) && len(t.nodes) < 0xfffffff0
define TFn(t) = all(x, uint64, t.isLeftBitSetFn(x) == topBit(x))
define TRoot(t) = gh(t, L)[1] && gh(t, P)[1] == 0 && gh(t, D)[1] == 0 && t.nodes[1].Length == 0
define TLive(t) = all(i, uint64, pat(gh(t, L)[i]), imp(gh(t, L)[i], 1 <= i && i < uint64(len(t.nodes)) && gh(t, D)[i] <= $W && gh(t, P)[i] & ^M(gh(t, D)[i]) == 0))
define TLeft(t) = all(i, uint64, pat(t.nodes[i].Left), imp(gh(t, L)[i], okChild(t, i, t.nodes[i].Left) && imp(t.nodes[i].Left != 0, !side(t, i, t.nodes[i].Left))))
define TRight(t) = all(i, uint64, pat(t.nodes[i].Right), imp(gh(t, L)[i], okChild(t, i, t.nodes[i].Right) && imp(t.nodes[i].Right != 0, side(t, i, t.nodes[i].Right))))
define chd(t, i, j) = ite(side(t, i, j), t.nodes[i].Right, t.nodes[i].Left)
define TPair(t) = all(i, uint64, j, uint64, pat(gh(t, L)[i], gh(t, L)[j]), imp(gh(t, L)[i] && gh(t, L)[j] && i != j && anc(t, i, j), gh(t, D)[i] < gh(t, D)[j] && chd(t, i, j) != 0 && anc(t, chd(t, i, j), j)))
define TFree(t) = all(a, uint64, pat(t.availableIndexes[a]), imp(a < uint64(len(t.availableIndexes)), 2 <= t.availableIndexes[a] && t.availableIndexes[a] < uint64(len(t.nodes)) && !gh(t, L)[t.availableIndexes[a]] && gh(t, F)[t.availableIndexes[a]] == a))
define TCount(t) = all(i, uint64, pat(gh(t, L)[i]), imp(gh(t, L)[i], gh(t, C)[nkey(t, i)] == uint64(t.nodes[i].ValCount) && uint64(t.nodes[i].ValCount) < 0xffffffff))
define TNode(t) = all(k, bv($K), pat(gh(t, C)[k]), imp(gh(t, C)[k] != 0, gh(t, L)[gh(t, N)[k]] && nkey(t, gh(t, N)[k]) == k))
define TVals(t) = all(i, uint64, j, uint32, pat(gh(t, V)[vk(nkey(t, i), j)]), imp(gh(t, L)[i] && uint64(j) < uint64(t.nodes[i].ValCount), has(t.vals, (i << 32) + uint64(j)) && gh(t, V)[vk(nkey(t, i), j)] == t.vals[(i << 32) + uint64(j)]))
opaque TInv(t) = TShape(t) && TFn(t) && TRoot(t) && TLive(t) && TLeft(t) && TRight(t) && TPair(t) && TFree(t) && TCount(t) && TNode(t) && TVals(t)

// an iterator stands on a node reached through its history
define path(it) = live(it.t, uint64(it.nodeIndex)) && imp(len(it.nodeHistory) == 0, it.nodeIndex == 1) && imp(len(it.nodeHistory) != 0, live(it.t, uint64(it.nodeHistory[len(it.nodeHistory) - 1])) && isChild(it.t, it.nodeHistory[len(it.nodeHistory) - 1], it.nodeIndex)) && all(a, uint64, pat(it.nodeHistory[a]), imp(a < uint64(len(it.nodeHistory)), live(it.t, uint64(it.nodeHistory[a])) && ite(a == 0, it.nodeHistory[a] == 1, isChild(it.t, it.nodeHistory[a - 1], it.nodeHistory[a]))))
opaque Mid(it) = path(it)
define at(it) = key(gh(it.t, P)[uint64(it.nodeIndex)], gh(it.t, D)[uint64(it.nodeIndex)])
define count(t, k) = gh(t, C)[k]
define value(t, k, j) = gh(t, V)[vk(k, j)]

func tree.NewTree(name, fn, length) (r)
  props C15
  reveal TInv
  requires length: length == $W
  requires fn: all(x, uint64, fn(x) == topBit(x))
  witness r.L := lam(i, gh(r, L), i == 1)
  witness r.P := lam(i, gh(r, P), uint$W(0))
  witness r.D := lam(i, gh(r, D), uint8(0))
  witness r.C := lam(k, gh(r, C), uint64(0))
  ensures inv: r != nil && TInv(r) && r.length == $W && len(r.nodes) == 2
  ensures empty: all(k, bv($K), pat(gh(r, C)[k]), gh(r, C)[k] == 0)

func tree.(*Tree).Set(r, id, val) (inc, n)
  props C15
  trusted
  requires inv: r != nil && TInv(r)
  requires id: canonId(id)
  modifies r.nodes, r.availableIndexes, r.vals, ghosts(r)
  ensures inv: TInv(r)
  ensures C: gh(r, C) == upd(old(gh(r, C)), idKey(id), ite(old(count(r, idKey(id))) == 0, uint64(1), old(count(r, idKey(id)))))
  ensures V: gh(r, V) == upd(old(gh(r, V)), vk(idKey(id), 0), val)
  ensures res: inc == (old(count(r, idKey(id))) == 0) && uint64(n) == count(r, idKey(id))

func tree.(*Tree).Delete(r, id, matchFunc, matchVal) (n)
  props C15
  trusted
  requires inv: r != nil && TInv(r)
  requires id: canonId(id)
  modifies r.nodes, r.availableIndexes, r.vals, ghosts(r)
  ensures inv: TInv(r)
  ensures C: gh(r, C) == upd(old(gh(r, C)), idKey(id), old(count(r, idKey(id))) - uint64(n))
  ensures V: all(k, bv($K), j, uint32, pat(gh(r, V)[concat(k, j)]), imp(k != idKey(id), gh(r, V)[concat(k, j)] == old(gh(r, V)[concat(k, j)])))
  ensures n: uint64(n) <= old(count(r, idKey(id)))
  ensures one: imp(old(count(r, idKey(id))) == 1 && matchFunc(old(value(r, idKey(id), 0)), matchVal), n == 1)
  ensures none: imp(old(count(r, idKey(id))) == 1 && !matchFunc(old(value(r, idKey(id), 0)), matchVal), n == 0 && value(r, idKey(id), 0) == old(value(r, idKey(id), 0)))

func tree.(*Tree).Clone(r) (c)
  props C15
  reveal TInv
  requires inv: r != nil && TInv(r)
  inv copy(c *tree.Tree, m mapiter): all(k, uint64, pat(has(c.vals,k)), pat(has(r.vals,k)), iff(has(c.vals,k), has(r.vals,k) && enuminv(m,k) < uint64(pos(m))) && imp(has(c.vals,k), c.vals[k] == r.vals[k]))
  witness c.N := gh(r, N)
  witness c.P := gh(r, P)
  witness c.D := gh(r, D)
  witness c.L := gh(r, L)
  witness c.F := gh(r, F)
  witness c.C := gh(r, C)
  witness c.V := gh(r, V)
  ensures inv: c != nil && TInv(c) && len(c.nodes) == len(r.nodes) && c.length == r.length
  ensures C: gh(c, C) == gh(r, C)
  ensures V: gh(c, V) == gh(r, V)

define fresh0(it) = it.next == 0 && it.nodeIndex == 1 && len(it.nodeHistory) == 0
define onValue(it) = it.next == 1 && count(it.t, at(it)) != 0 && Mid(it)
define ready(it) = fresh0(it) || onValue(it)
define passed(it, k) = onValue(it) && k <= at(it)

define pend(it, k) = gh(it.t, C)[k] != 0 && !old(passed(it, k))
define lmax(it) = gh(it.t, P)[uint64(it.nodeIndex)] | ^M(gh(it.t, D)[uint64(it.nodeIndex)] + 1)
define smax(it) = gh(it.t, P)[uint64(it.nodeIndex)] | ^M(gh(it.t, D)[uint64(it.nodeIndex)])
func tree.(*TreeIterator).Next(it) (ok)
  props C16
  trusted
  requires inv: it != nil && it.t != nil && TInv(it.t)
  requires ready: ready(it)
  modifies it.nodeHistory, it.nodeIndex, it.next
  ensures on: imp(ok, onValue(it))
  ensures next: imp(ok, imp(old(onValue(it)), old(at(it)) < at(it)) && all(k, bv($K), pat(gh(it.t, C)[k]), imp(count(it.t, k) != 0 && !old(passed(it, k)), at(it) <= k)))
  ensures end: imp(!ok, all(k, bv($K), pat(gh(it.t, C)[k]), imp(count(it.t, k) != 0, old(passed(it, k)))))

func tree.(*TreeIterator).Vals(it) (vs)
  props C16
  reveal TInv
  reveal Mid
  inv upto(s []T, i int): len(s) == i && i <= it.t.nodes[uint64(it.nodeIndex)].ValCount && all(j, uint64, pat(s[j]), imp(j < uint64(len(s)), s[j] == value(it.t, at(it), uint32(j))))
  requires inv: it != nil && it.t != nil && TInv(it.t)
  requires on: onValue(it)
  ensures len: uint64(len(vs)) == count(it.t, at(it))
  ensures vals: all(j, uint64, pat(vs[j]), imp(j < uint64(len(vs)), vs[j] == value(it.t, at(it), uint32(j))))

// debugging aids: only fmt output; assumed
func tree.(*Tree).PrintNodes(r, i)
  props C16
  trusted
  requires inv: r != nil && TInv(r)

func tree.(*Tree).PrintValues(r)
  props C16
  trusted
  requires inv: r != nil && TInv(r)
