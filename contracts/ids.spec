// pkg/tree/id$W: identifiers, their arithmetic (C10).
filewidths 16, 32, 64

// the mask of the l leading bits
define M(l) = ^((^uint$W(0)) >> uint8(l))
define val(a) = uint$W(a.id)
define okLen(a) = a.length <= $W
// a's bits agree with b's up to length l
define agree(a, b, l) = (a.id ^ b.id) & M(l) == 0
// a covers b: b's prefix extends a's
define covers(a, b) = a.length <= b.length && agree(a, b, a.length)
define idEq(a, i, l) = a.id == i && a.length == l

func tree/id$W.NewID(id, length) (r)
  props C10
  ensures id: r != nil && idEq(r, id, length) && !ptr(r)
func tree/id$W.IsLeftBitSet(id) (b)
  props C10
  ensures bit: b == ((uint$W(id) >> ($W - 1)) == 1)
func tree/id$W.(myid$W).Copy(r) (c)
  props C10
  ensures copy: c != nil && idEq(c, r.id, r.length)
func tree/id$W.(myid$W).Length(r) (l)
  props C10
  ensures l: l == r.length
func tree/id$W.(myid$W).ID(r) (i)
  props C10
  ensures i: i == uint64(r.id)
func tree/id$W.(myid$W).ShiftLeft(r, n) (s)
  props C10
  ensures shift: s != nil && s.id == r.id << n && s.length == r.length - n
func tree/id$W.(myid$W).IsLeftBitSet(r) (b)
  props C10
  ensures bit: b == ((r.id >> ($W - 1)) == 1)
func tree/id$W.(myid$W).Matches(r, id) (n)
  props C10
  // the number of leading bits that agree
  ensures full: iff(n == $W, r.id == uint$W(id))
  ensures bound: n <= $W
  ensures agree: (r.id ^ uint$W(id)) & M(n) == 0
  ensures most: imp(n < $W, (r.id ^ uint$W(id)) & M(n+1) != 0)
func tree/id$W.(myid$W).Overlaps(r, b) (ok)
  props C10
  requires b: b != nil
  requires lens: okLen(r) && okLen(b)
  ensures overlap: ok == (covers(r, b) || covers(b, r))
func tree/id$W.(myid$W).Compare(r, b) (c)
  props C10
  requires b: b != nil
  ensures zero: iff(c == 0, r.id == b.id && r.length == b.length)
  ensures less: iff(c == -1, r.length < b.length || (r.length == b.length && r.id < b.id))
  ensures more: iff(c == 1, r.length > b.length || (r.length == b.length && r.id > b.id))
func tree/id$W.(myid$W).Less(r, b) (ok)
  props C10
  requires b: b != nil
  ensures less: ok == (r.length < b.length || (r.length == b.length && r.id < b.id))
func tree/id$W.(myid$W).Next(r) (n)
  props C10
  ensures next: n != nil && !ptr(n) && imp(r.id != ^uint$W(0), idEq(n, r.id + 1, r.length))
  ensures last: imp(r.id == ^uint$W(0), idEq(n, 0, 0))
func tree/id$W.(myid$W).Prev(r) (n)
  props C10
  ensures prev: n != nil && !ptr(n) && imp(r.id != 0, idEq(n, r.id - 1, r.length))
  ensures first: imp(r.id == 0, idEq(n, 0, 0))
func tree/id$W.(myid$W).Mask(r, l) (n, err)
  props C10
  ensures exact: iff(err == nil, l <= $W)
  ensures mask: imp(err == nil, n != nil && idEq(n, r.id & M(l), l))
  ensures none: imp(err != nil, n == nil)
func tree/id$W.(myid$W).Masked(r) (n)
  props C10
  ensures mask: imp(okLen(r), n != nil && idEq(n, r.id & M(r.length), r.length))
  ensures none: imp(!okLen(r), n == nil)

// Ranges (C11): bounds of a prefix and relations between ranges.
define endp(a) = a != nil && a.length == $W
define flat(r) = !ptr(r.from) && !ptr(r.to)
define wfR(r) = endp(r.from) && endp(r.to)
define validR(r) = wfR(r) && r.from.id <= r.to.id
// the identifiers of a range
define inR(r, x) = r.from.id <= x && x <= r.to.id

func tree/id$W.RangeFrom(from, to) (r)
  props C11
  ensures bounds: r != nil && wfR(r) && flat(r) && r.from.id == from && r.to.id == to
func tree/id$W.(r$W).From(r) (id)
  props C11
  ensures id: id == r.from
func tree/id$W.(r$W).To(r) (id)
  props C11
  ensures id: id == r.to
func tree/id$W.(r$W).SetTo(r, id) (n)
  props C11
  ensures to: n != nil && n.to == id && n.from == r.from
func tree/id$W.(r$W).SetFrom(r, id) (n)
  props C11
  ensures from: n != nil && n.from == id && n.to == r.to
func tree/id$W.(r$W).IsValid(r) (ok)
  props C11
  ensures nilb: imp(r.from == nil || r.to == nil, !ok)
  ensures valid: imp(r.from != nil && r.to != nil, ok == (r.from.length == r.to.length && r.from.id <= r.to.id))
func tree/id$W.(r$W).Less(r, o) (ok)
  props C11
  requires o: o != nil
  requires valid: wfR(r) && wfR(o)
  ensures less: ok == (r.from.id < o.from.id || (r.from.id == o.from.id && r.to.id > o.to.id))
func tree/id$W.(r$W).EntirelyBefore(r, o) (ok)
  props C11
  requires o: o != nil
  requires valid: validR(r) && validR(o)
  ensures edges: ok == (r.to.id < o.from.id)
  lemma sets: ok == all(x, uint$W, y, uint$W, imp(inR(r, x) && inR(o, y), x < y))
func tree/id$W.(r$W).CoveredBy(r, o) (ok)
  props C11
  requires o: o != nil
  requires valid: validR(r) && validR(o)
  ensures edges: ok == (o.from.id <= r.from.id && r.to.id <= o.to.id)
  lemma sets: ok == all(x, uint$W, imp(inR(r, x), inR(o, x)))
// strictly inside: some identifier of o lies before r and some after
func tree/id$W.(r$W).InMiddleOf(r, o) (ok)
  props C11
  requires o: o != nil
  requires valid: validR(r) && validR(o)
  ensures edges: ok == (o.from.id < r.from.id && r.to.id < o.to.id)
func tree/id$W.(r$W).OverlapsStartOf(r, o) (ok)
  props C11
  requires o: o != nil
  requires valid: validR(r) && validR(o)
  ensures edges: ok == (r.from.id <= o.from.id && r.to.id < o.to.id)
func tree/id$W.(r$W).OverlapsEndOf(r, o) (ok)
  props C11
  requires o: o != nil
  requires valid: validR(r) && validR(o)
  ensures edges: ok == (o.from.id < r.from.id && o.to.id <= r.to.id)
func tree/id$W.LastID(id) (l)
  props C11
  inv bits(a bytes, b uint8): bytes(a) == id.id | (^M(id.length) & M(b)) && b >= id.length
  ensures nil: iff(id == nil, l == nil)
  ensures last: imp(id != nil && id.length <= $W, endp(l) && !ptr(l) && l.id == id.id | ^M(id.length))
func tree/id$W.RangeOfID(id) (r)
  props C11
  requires id: id != nil
  ensures ok: imp(id.length <= $W, r != nil && validR(r) && flat(r) && r.from.id == id.id & M(id.length) && r.to.id == id.id | ^M(id.length))
  lemma exact: imp(id.length <= $W, all(x, uint$W, iff(inR(r, x), (x ^ id.id) & M(id.length) == 0)))
  ensures zero: imp(id.length > $W, r != nil && r.from == nil && r.to == nil)

// Decomposition of a range into prefixes (C12).
define last(a) = a.id | ^M(a.length)
define canon(a) = a != nil && a.length <= $W && a.id & ^M(a.length) == 0
// the ids of a canonical prefix, and of any prefix
define inId(a, x) = a.id <= x && x <= last(a)
define inP(a, x) = (x ^ a.id) & M(a.length) == 0
define grew(res, dst) = uint64(len(res)) > uint64(len(dst)) && all(i, uint64, pat(res[i]), pat(old(dst[i])), imp(i < uint64(len(dst)), res[i] == old(dst[i])))
define within(res, n, a, b) = all(i, uint64, pat(res[i]), imp(n <= i && i < uint64(len(res)), canon(res[i]) && a <= res[i].id && last(res[i]) <= b))
define disjoint(res, n) = all(i, uint64, j, uint64, pat(res[i], res[j]), imp(n <= i && i < j && j < uint64(len(res)), last(res[i]) < res[j].id))
define covered(res, n, a, b) = all(x, uint$W, imp(a <= x && x <= b, ex(i, uint64, pat(res[i]), n <= i && i < uint64(len(res)) && inId(res[i], x))))
// no prefix could be one bit shorter
define maximal(res, n, a, b) = all(i, uint64, pat(res[i]), imp(n <= i && i < uint64(len(res)), res[i].length == 0 || res[i].id & M(res[i].length - 1) < a || (res[i].id | ^M(res[i].length - 1)) > b))

func tree/id$W.appendRangeIDs(dst, mk, a, b) (res)
  props C12
  requires order: a <= b
  requires fn: mk != nil
  requires mk: all(i, uint$W, l, uint8, mk(i, l) != nil && idEq(mk(i, l), i, l))
  decreases b - a
  aliases
  ensures kept: grew(res, dst)
  ensures within: within(res, uint64(len(dst)), a, b)
  ensures disjoint: disjoint(res, uint64(len(dst)))
  ensures covered: covered(res, uint64(len(dst)), a, b)
  ensures maximal: maximal(res, uint64(len(dst)), a, b)
func tree/id$W.(r$W).AppendIDs(r, dst) (res)
  props C12
  aliases
  requires valid: validR(r)
  ensures kept: grew(res, dst)
  ensures within: within(res, uint64(len(dst)), r.from.id, r.to.id)
  ensures disjoint: disjoint(res, uint64(len(dst)))
  ensures covered: covered(res, uint64(len(dst)), r.from.id, r.to.id)
  ensures maximal: maximal(res, uint64(len(dst)), r.from.id, r.to.id)
func tree/id$W.(r$W).IDs(r) (res)
  props C12
  requires valid: validR(r)
  ensures within: len(res) > 0 && within(res, 0, r.from.id, r.to.id)
  ensures disjoint: disjoint(res, 0)
  ensures covered: covered(res, 0, r.from.id, r.to.id)
  ensures maximal: maximal(res, 0, r.from.id, r.to.id)

// Sets of ids (C13).
define goodR(a) = a != nil && validR(a) && flat(a)
define goodRR(s) = all(i, uint64, pat(s[i]), imp(i < uint64(len(s)), goodR(s[i])))
define inU(s, x) = ex(i, uint64, pat(s[i]), i < uint64(len(s)) && inR(s[i], x))
// sorted, and neither overlapping nor touching
define normal(s) = all(i, uint64, j, uint64, pat(s[i], s[j]), imp(i < j && j < uint64(len(s)), s[i].to.id < s[j].from.id && s[j].from.id - s[i].to.id > 1))
func tree/id$W.mergeRanges(rr) (out, valid)
  props C13
  requires good: goodRR(rr)
  modifies rr
  inv good(s ~[]tree.Range): goodRR(s)
  inv normal(s ~[]tree.Range): normal(s)
  inv some(s ~[]tree.Range): len(s) > 0
  inv from(s ~[]tree.Range, i int): i + 1 < len(rr) && s[len(s)-1].from.id <= rr[i+1].from.id
  inv union(s ~[]tree.Range, i int): all(x, uint$W, iff(inU(s, x), ex(j, uint64, pat(rr[j]), j <= uint64(i + 1) && inR(rr[j], x))))
  ensures valid: valid
  ensures good: goodRR(out)
  ensures normal: normal(out)
  ensures union: all(x, uint$W, iff(inU(out, x), inU(old(rr), x)))
define mem(s, x) = inU(s.in, x) && !inU(s.out, x)
define setOK(s) = goodRR(s.in) && goodRR(s.out)
define gap(a, b) = a.to.id < b.from.id && b.from.id - a.to.id > 1
func tree/id$W.(*IDSetBuilder).normalize(s)
  props C13
  optional
  requires s: s != nil && setOK(s)
  modifies s.in, s.out
  inv good(s ~[]tree.Range): goodRR(s)
  inv normal(s ~[]tree.Range): normal(s)
  inv gap(s ~[]tree.Range, t ~[]tree.Range): imp(len(s) > 0 && len(t) > 0, gap(s[len(s)-1], t[0]))
  inv set(min ~[]tree.Range, in ~[]tree.Range, out ~[]tree.Range): all(x, uint$W, iff(old(mem(s, x)), inU(min, x) || (inU(in, x) && !inU(out, x))))
  ensures errs: s.errs == old(s.errs)
  ensures good: goodRR(s.in) && len(s.out) == 0
  ensures normal: normal(s.in)
  ensures set: all(x, uint$W, iff(inU(s.in, x), old(mem(s, x))))
// a range that IsValid accepts has full-length bounds held by value, as
// RangeFrom, ParseRange and RangeOfID make them
define okR(r) = r != nil && imp(r.from != nil && r.to != nil, wfR(r) && flat(r)) && imp(r.from == nil, r.to == nil) && imp(r.to == nil, r.from == nil)
define isR(r) = r.from != nil && r.to != nil && r.from.id <= r.to.id
func tree/id$W.(*IDSetBuilder).AddRange(s, r)
  props C13
  requires s: s != nil && setOK(s)
  requires r: okR(r)
  modifies s.in, s.out, s.errs
  ensures good: setOK(s)
  ensures add: imp(old(isR(r)), s.errs == old(s.errs) && all(x, uint$W, iff(mem(s, x), old(mem(s, x)) || inR(r, x))))
  ensures invalid: imp(!old(isR(r)), s.errs != nil && all(x, uint$W, iff(mem(s, x), old(mem(s, x)))))
func tree/id$W.(*IDSetBuilder).RemoveRange(s, r)
  props C13
  requires s: s != nil && setOK(s)
  requires r: okR(r)
  modifies s.out, s.errs
  ensures good: setOK(s)
  ensures remove: imp(old(isR(r)), s.errs == old(s.errs) && all(x, uint$W, iff(mem(s, x), old(mem(s, x)) && !inR(r, x))))
  ensures invalid: imp(!old(isR(r)), s.errs != nil && all(x, uint$W, iff(mem(s, x), old(mem(s, x)))))
func tree/id$W.(*IDSetBuilder).AddId(s, id)
  props C13
  requires s: s != nil && setOK(s)
  requires id: id != nil
  modifies s.in, s.out, s.errs
  ensures good: setOK(s)
  ensures add: imp(id.length <= $W, s.errs == old(s.errs) && all(x, uint$W, iff(mem(s, x), old(mem(s, x)) || inP(id, x))))
  ensures invalid: imp(id.length > $W, s.errs != nil && all(x, uint$W, iff(mem(s, x), old(mem(s, x)))))
func tree/id$W.(*IDSetBuilder).RemoveId(s, id)
  props C13
  requires s: s != nil && setOK(s)
  requires id: id != nil
  modifies s.out, s.errs
  ensures good: setOK(s)
  ensures remove: imp(id.length <= $W, s.errs == old(s.errs) && all(x, uint$W, iff(mem(s, x), old(mem(s, x)) && !inP(id, x))))
  ensures invalid: imp(id.length > $W, s.errs != nil && all(x, uint$W, iff(mem(s, x), old(mem(s, x)))))
func tree/id$W.(*IDSetBuilder).AddSet(s, b)
  props C13
  requires s: s != nil && setOK(s)
  requires b: imp(b != nil, goodRR(b.rr))
  modifies s.in, s.out, s.errs
  inv good(i int): setOK(s)
  inv errs(i int): s.errs == old(s.errs)
  inv set(i int): all(x, uint$W, iff(mem(s, x), old(mem(s, x)) || ex(j, uint64, pat(b.rr[j]), j < uint64(i + 1) && inR(b.rr[j], x))))
  ensures good: setOK(s)
  ensures errs: s.errs == old(s.errs)
  ensures add: imp(b != nil, all(x, uint$W, iff(mem(s, x), old(mem(s, x)) || inU(b.rr, x))))
  ensures nil: imp(b == nil, all(x, uint$W, iff(mem(s, x), old(mem(s, x)))))
func tree/id$W.(*IDSetBuilder).IPSet(s) (set, err)
  props C13
  requires s: s != nil && setOK(s)
  modifies s.in, s.out, s.errs
  ensures good: setOK(s) && set != nil && goodRR(set.rr)
  ensures normal: normal(set.rr)
  ensures set: all(x, uint$W, iff(inU(set.rr, x), old(mem(s, x))))
  ensures kept: all(x, uint$W, iff(mem(s, x), old(mem(s, x))))
  ensures errs: err == old(s.errs) && s.errs == nil
func tree/id$W.(*IDSet).Ranges(s) (rr)
  props C13
  requires s: s != nil && goodRR(s.rr)
  ensures same: len(rr) == len(s.rr) && all(i, uint64, pat(rr[i]), imp(i < uint64(len(rr)), rr[i] == s.rr[i]))

func tree/id$W.(*IDSet).IDs(s) (res)
  props C13
  requires s: s != nil && goodRR(s.rr) && normal(s.rr)
  inv canon(o ~[]tree.ID): all(k, uint64, pat(o[k]), imp(k < uint64(len(o)), canon(o[k])))
  inv bound(o ~[]tree.ID, i int): all(k, uint64, pat(o[k]), imp(k < uint64(len(o)), i >= 0 && last(o[k]) <= s.rr[i].to.id))
  inv disjoint(o ~[]tree.ID): disjoint(o, 0)
  inv set(o ~[]tree.ID, i int): all(x, uint$W, iff(ex(k, uint64, pat(o[k]), k < uint64(len(o)) && inId(o[k], x)), ex(j, uint64, pat(s.rr[j]), j < uint64(i + 1) && inR(s.rr[j], x))))
  ensures canon: all(k, uint64, pat(res[k]), imp(k < uint64(len(res)), canon(res[k])))
  ensures disjoint: disjoint(res, 0)
  ensures set: all(x, uint$W, iff(ex(k, uint64, pat(res[k]), k < uint64(len(res)) && inId(res[k], x)), inU(s.rr, x)))

// Taking a free prefix out of a set (C14).
// the block of length l that holds x lies inside the range r
define blockIn(r, x, l) = r.from.id <= x & M(l) && (x | ^M(l)) <= r.to.id
func tree/id$W.(*IDSet).RemoveFreePrefix(s, bitLen) (id, set, ok)
  props C14
  requires s: s != nil && goodRR(s.rr) && normal(s.rr)
  aliases
  requires len: bitLen <= $W
  inv best(b ~tree.ID): imp(b != nil, canon(b) && b.length <= bitLen && ex(j, uint64, pat(s.rr[j]), j < uint64(len(s.rr)) && s.rr[j].from.id <= b.id && last(b) <= s.rr[j].to.id))
  inv seen(b ~tree.ID, i int): imp(b == nil, all(j, uint64, pat(s.rr[j]), imp(j < uint64(i + 1), all(x, uint$W, !blockIn(s.rr[j], x, bitLen)))))
  inv longer(b ~tree.ID, o []tree.ID, k int): imp(b == nil, all(n, uint64, pat(o[n]), imp(n < uint64(k + 1), o[n].length > bitLen)))
  ensures none: imp(!ok, id == nil && all(j, uint64, pat(s.rr[j]), imp(j < uint64(len(s.rr)), all(x, uint$W, !blockIn(s.rr[j], x, bitLen)))))
  ensures empty: imp(!ok && bitLen == $W, len(s.rr) == 0 && all(x, uint$W, !inU(s.rr, x)))
  ensures prefix: imp(ok, canon(id) && id.length == bitLen)
  ensures mark: mark(id.id)
  ensures inside: imp(ok, all(x, uint$W, imp(inP(id, x), inU(s.rr, x))))
  ensures good: set != nil && goodRR(set.rr) && normal(set.rr)
  ensures same: imp(!ok, len(set.rr) == len(s.rr) && all(j, uint64, pat(set.rr[j]), imp(j < uint64(len(s.rr)), set.rr[j] == s.rr[j])))
  ensures rest: imp(ok, all(x, uint$W, iff(inU(set.rr, x), inU(s.rr, x) && !inP(id, x))))
  // ... so every block of that length leaves the set: at its first id, or
  // right after the range that holds its first id
  ensures fails: imp(!ok, all(x, uint$W, !inU(s.rr, x & M(bitLen)) || ex(j, uint64, pat(s.rr[j]), j < uint64(len(s.rr)) && inR(s.rr[j], x & M(bitLen)) && ((s.rr[j].to.id + 1) ^ x) & M(bitLen) == 0 && !inU(s.rr, s.rr[j].to.id + 1))))
