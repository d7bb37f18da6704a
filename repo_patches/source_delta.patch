From 1de954aaaa380f390fe3a74297050aeaa10c33b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:04 +0000
Subject: [PATCH 01/24] fix: idxtable: reject every id when the table size is 0

---
 pkg/idxtable/table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index 8d6f0e2..0493a00 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -46,8 +46,8 @@ type table[T1 any] struct {
 }
 
 func (r *table[T1]) validate(id uint64) error {
-	if id > r.size-1 {
-		return fmt.Errorf("id %d is bigger then max allowed entries: %d", id, r.size-1)
+	if id >= r.size {
+		return fmt.Errorf("id %d is bigger then max allowed entries: %d", id, r.size)
 	}
 	return nil
 }
-- 
2.43.0


From 48d8dff265c1ed3afd99ad9ee997bc435bb0efa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:04 +0000
Subject: [PATCH 02/24] fix: idxtable: FindFreeRange/ClaimRange return exactly
 the requested ids or fail

---
 pkg/idxtable/table.go | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index 0493a00..0dd38b6 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -229,35 +229,24 @@ func (r *table[T1]) FindFreeRange(start, size uint64) ([]uint64, error) {
 }
 
 func (r *table[T1]) findFreeRange(start, size uint64) ([]uint64, error) {
-	end := start + size - 1
-
-	if start > r.size-1 {
+	if size == 0 {
+		return nil, fmt.Errorf("size 0 is not a valid range size")
+	}
+	if start >= r.size {
 		return nil, fmt.Errorf("start %d is bigger then max allowed entries: %d", start, r.size)
 	}
-	if end > r.size-1 {
-		return nil, fmt.Errorf("end %d is bigger then max allowed entries: %d", end, r.size)
+	if size > r.size-start {
+		return nil, fmt.Errorf("start %d, size %d is bigger then max allowed entries: %d", start, size, r.size)
 	}
 
 	entries := []uint64{}
-	free := r.iterateFree()
-	for free.Next() {
-		if free.ID() < start {
-			continue
-		}
-		switch {
-		case free.ID() == start:
-			entries = append(entries, free.ID())
-		case free.ID() > start && free.ID() < end:
-			if !free.IsConsecutive() {
-				return nil, fmt.Errorf("entry %d in use in range: start: %d, end %d", free.ID(), start, end)
-			}
-			entries = append(entries, free.ID())
-		default:
-			entries = append(entries, free.ID())
-			return entries, nil
+	for id := start; id < start+size; id++ {
+		if !r.isFree(id) {
+			return nil, fmt.Errorf("entry %d in use in range: start: %d, size %d", id, start, size)
 		}
+		entries = append(entries, id)
 	}
-	return nil, fmt.Errorf("could not find free range that fit in start %d, size %d", start, size)
+	return entries, nil
 }
 
 func (r *table[T1]) FindFreeSize(size uint64) ([]uint64, error) {
-- 
2.43.0


From 52779ac6648e1a59fe6a9d1bb1d7b164c623b888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:04 +0000
Subject: [PATCH 03/24] fix: idxtable: GetAll takes the read lock once (nested
 RLock deadlocks with a waiting writer)

---
 pkg/idxtable/table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index 0dd38b6..f893f9e 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -308,7 +308,7 @@ func (r *table[T1]) GetAll() Entries[T1] {
 
 	entries := make([]Entry[T1], 0, len(r.table))
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Value())
 	}
-- 
2.43.0


From d54b2a0813e0305311521113febe80678a4bd1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:04 +0000
Subject: [PATCH 04/24] fix: idxtable: iterators read a snapshot, not the live
 table without its lock

---
 pkg/idxtable/table.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index f893f9e..6fa39f1 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -151,14 +151,16 @@ func (r *table[T1]) Iterate() *Iterator[T1] {
 
 func (r *table[T1]) iterate() *Iterator[T1] {
 	keys := make([]uint64, 0, len(r.table))
-	for key := range r.table {
+	table := make(map[uint64]Entry[T1], len(r.table))
+	for key, e := range r.table {
 		keys = append(keys, key)
+		table[key] = e
 	}
 	sort.Slice(keys, func(i int, j int) bool {
 		return keys[i] < keys[j]
 	})
 
-	return &Iterator[T1]{current: 1<<64 -1, keys: keys, table: r.table}
+	return &Iterator[T1]{current: 1<<64 -1, keys: keys, table: table}
 }
 
 func (r *table[T1]) IterateFree() *Iterator[T1] {
@@ -170,22 +172,17 @@ func (r *table[T1]) IterateFree() *Iterator[T1] {
 
 func (r *table[T1]) iterateFree() *Iterator[T1] {
 	var keys []uint64
-	table := map[uint64]T1{}
-
-	var d T1
-
 	for id := uint64(0); id < r.size; id++ {
 		_, exists := r.table[id]
 		if !exists {
 			keys = append(keys, id)
-			table[id] = d
 		}
 	}
 	sort.Slice(keys, func(i int, j int) bool {
 		return keys[i] < keys[j]
 	})
 
-	return &Iterator[T1]{current: 1<<64-1, keys: keys, table: r.table}
+	return &Iterator[T1]{current: 1<<64-1, keys: keys, table: map[uint64]Entry[T1]{}}
 }
 
 func (r *table[T1]) Size() int {
-- 
2.43.0


From 2f2ca8a382dbea5b45825bcb29369c67af5d3f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:05 +0000
Subject: [PATCH 05/24] fix: idxtable: FindFree/ClaimDynamic stop at the first
 free id instead of listing the whole id space

---
 pkg/idxtable/table.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index 6fa39f1..b2766ff 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -78,15 +78,15 @@ func (r *table[T1]) ClaimDynamic(d T1) (Entry[T1], error) {
 	r.m.Lock()
 	defer r.m.Unlock()
 
-	free := r.iterateFree()
-	if free.Next() {
-		e := NewEntry(free.ID(), d)
-		if err := r.add(e); err != nil {
-			return nil, err
-		}
-		return e, nil
+	id, err := r.findFree()
+	if err != nil {
+		return nil, err
+	}
+	e := NewEntry(id, d)
+	if err := r.add(e); err != nil {
+		return nil, err
 	}
-	return nil, fmt.Errorf("no free entry found")
+	return e, nil
 }
 
 func (r *table[T1]) ClaimRange(start, size uint64, d T1) error {
@@ -211,10 +211,17 @@ func (r *table[T1]) isFree(id uint64) bool {
 }
 
 func (r *table[T1]) FindFree() (uint64, error) {
-	free := r.IterateFree()
+	r.m.RLock()
+	defer r.m.RUnlock()
 
-	if free.Next() {
-		return free.ID(), nil
+	return r.findFree()
+}
+
+func (r *table[T1]) findFree() (uint64, error) {
+	for id := uint64(0); id < r.size; id++ {
+		if r.isFree(id) {
+			return id, nil
+		}
 	}
 	return 0, fmt.Errorf("no free entry found")
 }
-- 
2.43.0


From 4ae02ff1aa96065fb52e45c7781d272f2dcd44cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:02 +0000
Subject: [PATCH 06/24] fix: table: size a table over the full range of its
 width correctly

---
 pkg/table/table16/table16.go | 2 +-
 pkg/table/table32/table32.go | 2 +-
 pkg/table/table64/table64.go | 8 +++++++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/table/table16/table16.go b/pkg/table/table16/table16.go
index acf36cb..a2c219c 100644
--- a/pkg/table/table16/table16.go
+++ b/pkg/table/table16/table16.go
@@ -14,7 +14,7 @@ import (
 func New(start, end uint16) table.Table {
 	return &table16{
 		table: idxtable.NewTable[tree.Entry](
-			uint64(end - start + 1),
+			uint64(end-start)+1,
 		),
 		start: start,
 		end:   end,
diff --git a/pkg/table/table32/table32.go b/pkg/table/table32/table32.go
index 8076a79..0a19c3b 100644
--- a/pkg/table/table32/table32.go
+++ b/pkg/table/table32/table32.go
@@ -13,7 +13,7 @@ import (
 func New(start, end uint32) table.Table {
 	return &table32{
 		table: idxtable.NewTable[tree.Entry](
-			uint64(end - start + 1),
+			uint64(end-start)+1,
 		),
 		start: start,
 		end:   end,
diff --git a/pkg/table/table64/table64.go b/pkg/table/table64/table64.go
index 40f4fb6..a71aaba 100644
--- a/pkg/table/table64/table64.go
+++ b/pkg/table/table64/table64.go
@@ -2,6 +2,7 @@ package table64
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/henderiw/idxtable/pkg/idxtable"
 	"github.com/henderiw/idxtable/pkg/table"
@@ -11,9 +12,14 @@ import (
 )
 
 func New(start, end uint64) table.Table {
+	size := end - start
+	if size != math.MaxUint64 {
+		// the full range has one id more than a table can hold
+		size++
+	}
 	return &table64{
 		table: idxtable.NewTable[tree.Entry](
-			uint64(end - start + 1),
+			size,
 		),
 		start: start,
 		end:   end,
-- 
2.43.0


From 2401cf5d2c511c7436ddf9bf8c1fd142c554bd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:05 +0000
Subject: [PATCH 07/24] fix: table: Get returns the entry under its external id

---
 pkg/table/table16/table16.go | 3 ++-
 pkg/table/table32/table32.go | 3 ++-
 pkg/table/table64/table64.go | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/table/table16/table16.go b/pkg/table/table16/table16.go
index a2c219c..3bd4546 100644
--- a/pkg/table/table16/table16.go
+++ b/pkg/table/table16/table16.go
@@ -38,7 +38,8 @@ func (r *table16) Get(id uint64) (tree.Entry, error) {
 	if err != nil {
 		return entry, err
 	}
-	return e.Data(), nil
+	// need to remap the id for the outside world
+	return tree.NewEntry(id16.NewID(uint16(id), id16.IDBitSize), e.Data().Labels()), nil
 }
 
 func (r *table16) Claim(id uint64, labels labels.Set) error {
diff --git a/pkg/table/table32/table32.go b/pkg/table/table32/table32.go
index 0a19c3b..43cf34b 100644
--- a/pkg/table/table32/table32.go
+++ b/pkg/table/table32/table32.go
@@ -37,7 +37,8 @@ func (r *table32) Get(id uint64) (tree.Entry, error) {
 	if err != nil {
 		return entry, err
 	}
-	return e.Data(), nil
+	// need to remap the id for the outside world
+	return tree.NewEntry(id32.NewID(uint32(id), id32.IDBitSize), e.Data().Labels()), nil
 }
 
 func (r *table32) Claim(id uint64, labels labels.Set) error {
diff --git a/pkg/table/table64/table64.go b/pkg/table/table64/table64.go
index a71aaba..46d84c2 100644
--- a/pkg/table/table64/table64.go
+++ b/pkg/table/table64/table64.go
@@ -43,7 +43,8 @@ func (r *table64) Get(id uint64) (tree.Entry, error) {
 	if err != nil {
 		return entry, err
 	}
-	return e.Data(), nil
+	// need to remap the id for the outside world
+	return tree.NewEntry(id64.NewID(id, id64.IDBitSize), e.Data().Labels()), nil
 }
 
 func (r *table64) Claim(id uint64, labels labels.Set) error {
-- 
2.43.0


From 956172d6112ca08c201a4696535bc91425e54c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:06 +0000
Subject: [PATCH 08/24] fix: table16: GetAll and GetByLabel report 16 bit ids

---
 pkg/table/table16/table16.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/table/table16/table16.go b/pkg/table/table16/table16.go
index 3bd4546..01a400b 100644
--- a/pkg/table/table16/table16.go
+++ b/pkg/table/table16/table16.go
@@ -7,7 +7,6 @@ import (
 	"github.com/henderiw/idxtable/pkg/table"
 	"github.com/henderiw/idxtable/pkg/tree"
 	"github.com/henderiw/idxtable/pkg/tree/id16"
-	"github.com/henderiw/idxtable/pkg/tree/id32"
 	"k8s.io/apimachinery/pkg/labels"
 )
 
@@ -126,7 +125,7 @@ func (r *table16) GetAll() tree.Entries {
 	entries := make(tree.Entries, 0, r.table.Size())
 	for _, entry := range r.table.GetAll() {
 		// need to remap the id for the outside world
-		entry := tree.NewEntry(id32.NewID(uint32(calculateIDFromIndex(r.start, entry.ID())), 32), entry.Data().Labels())
+		entry := tree.NewEntry(id16.NewID(calculateIDFromIndex(r.start, entry.ID()), id16.IDBitSize), entry.Data().Labels())
 
 		entries = append(entries, entry)
 	}
@@ -142,7 +141,7 @@ func (r *table16) GetByLabel(selector labels.Selector) tree.Entries {
 		entry := iter.Value().Data()
 		if selector.Matches(entry.Labels()) {
 			// need to remap the id for the outside world
-			entry := tree.NewEntry(id32.NewID(uint32(calculateIDFromIndex(r.start, uint64(entry.ID().ID()))), 32), entry.Labels())
+			entry := tree.NewEntry(id16.NewID(calculateIDFromIndex(r.start, uint64(entry.ID().ID())), id16.IDBitSize), entry.Labels())
 			entries = append(entries, entry)
 		}
 	}
-- 
2.43.0


From aa360d630c8469bfa56b2b8652fab71ce11c3835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:32 +0000
Subject: [PATCH 09/24] fix: iptable: addresses of a large range no longer
 share entries or fall out of the table

---
 pkg/iptable/iptable.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pkg/iptable/iptable.go b/pkg/iptable/iptable.go
index 4d78b9d..43829f8 100644
--- a/pkg/iptable/iptable.go
+++ b/pkg/iptable/iptable.go
@@ -2,6 +2,7 @@ package iptable
 
 import (
 	"fmt"
+	"math"
 	"math/big"
 	"net/netip"
 
@@ -30,7 +31,7 @@ type IPTable interface {
 func New(from, to netip.Addr) IPTable {
 	return &ipTable{
 		table: idxtable.NewTable[table.Route](
-			uint64(numIPs(from, to)),
+			numIPs(from, to),
 		),
 		ipRange: netipx.IPRangeFrom(from, to),
 	}
@@ -158,6 +159,9 @@ func (r *ipTable) validateIP(addr string) (netip.Addr, error) {
 	if !r.ipRange.Contains(claimIP) {
 		return netip.Addr{}, fmt.Errorf("ip address %s, does not fit in the range from %s to %s", addr, r.ipRange.From().String(), r.ipRange.To().String())
 	}
+	if !new(big.Int).Sub(ipToInt(claimIP), ipToInt(r.ipRange.From())).IsUint64() {
+		return netip.Addr{}, fmt.Errorf("ip address %s, is too far from the start of the range %s", addr, r.ipRange.From().String())
+	}
 	return claimIP, nil
 }
 
@@ -166,13 +170,20 @@ func calculateIndex(ip, start netip.Addr) uint64 {
 	return new(big.Int).Sub(ipToInt(ip), ipToInt(start)).Uint64()
 }
 
-func numIPs(startIP, endIP netip.Addr) int {
+func numIPs(startIP, endIP netip.Addr) uint64 {
 	// Convert IP addresses to big integers
 	start := ipToInt(startIP)
 	end := ipToInt(endIP)
 
 	diff := new(big.Int).Sub(end, start)
-	return int(diff.Int64()) + 1 // Add 1 to include the start IP
+	if diff.Sign() < 0 {
+		return 0
+	}
+	diff.Add(diff, big.NewInt(1)) // Add 1 to include the start IP
+	if !diff.IsUint64() {
+		return math.MaxUint64
+	}
+	return diff.Uint64()
 }
 
 func ipToInt(ip netip.Addr) *big.Int {
-- 
2.43.0


From 815ba73cd2bfd1dfbf3aa2e7cb735dd0235c0441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:57 +0000
Subject: [PATCH 10/24] fix: id16/id32/id64: the id after the largest one
 overflows instead of wrapping to 1

---
 pkg/tree/id16/myuint16.go | 8 ++++----
 pkg/tree/id32/myuint32.go | 8 ++++----
 pkg/tree/id64/myuint64.go | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/pkg/tree/id16/myuint16.go b/pkg/tree/id16/myuint16.go
index e1a2812..0601958 100644
--- a/pkg/tree/id16/myuint16.go
+++ b/pkg/tree/id16/myuint16.go
@@ -26,14 +26,14 @@ func (u myuint16) not() myuint16 {
 
 // subOne returns u - 1.
 func (u myuint16) subOne() myuint16 {
-	lo, borrow := Sub16(uint16(u), 1, 0)
-	return myuint16(lo - borrow)
+	lo, _ := Sub16(uint16(u), 1, 0)
+	return myuint16(lo)
 }
 
 // addOne returns u + 1.
 func (u myuint16) addOne() myuint16 {
-	lo, carry := Add16(uint16(u), 1, 0)
-	return myuint16(lo + carry)
+	lo, _ := Add16(uint16(u), 1, 0)
+	return myuint16(lo)
 }
 
 // Sub32 returns the difference of x, y and borrow, diff = x - y - borrow.
diff --git a/pkg/tree/id32/myuint32.go b/pkg/tree/id32/myuint32.go
index 447664b..8df986a 100644
--- a/pkg/tree/id32/myuint32.go
+++ b/pkg/tree/id32/myuint32.go
@@ -28,14 +28,14 @@ func (u myuint32) not() myuint32 {
 
 // subOne returns u - 1.
 func (u myuint32) subOne() myuint32 {
-	lo, borrow := bits.Sub32(uint32(u), 1, 0)
-	return myuint32(lo - borrow)
+	lo, _ := bits.Sub32(uint32(u), 1, 0)
+	return myuint32(lo)
 }
 
 // addOne returns u + 1.
 func (u myuint32) addOne() myuint32 {
-	lo, carry := bits.Add32(uint32(u), 1, 0)
-	return myuint32(lo + carry)
+	lo, _ := bits.Add32(uint32(u), 1, 0)
+	return myuint32(lo)
 }
 
 // bitsSetFrom returns a copy of u with the given bit
diff --git a/pkg/tree/id64/myuint64.go b/pkg/tree/id64/myuint64.go
index 4aebcda..b47e319 100644
--- a/pkg/tree/id64/myuint64.go
+++ b/pkg/tree/id64/myuint64.go
@@ -28,14 +28,14 @@ func (u myuint64) not() myuint64 {
 
 // subOne returns u - 1.
 func (u myuint64) subOne() myuint64 {
-	lo, borrow := bits.Sub32(uint32(u), 1, 0)
-	return myuint64(lo - borrow)
+	lo, _ := bits.Sub32(uint32(u), 1, 0)
+	return myuint64(lo)
 }
 
 // addOne returns u + 1.
 func (u myuint64) addOne() myuint64 {
-	lo, carry := bits.Add64(uint64(u), 1, 0)
-	return myuint64(lo + carry)
+	lo, _ := bits.Add64(uint64(u), 1, 0)
+	return myuint64(lo)
 }
 
 // bitsSetFrom returns a copy of u with the given bit
-- 
2.43.0


From bad3b4ccb6de45156c57ee3f1868fffc17b2caf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:59 +0000
Subject: [PATCH 11/24] fix: id64: the previous id keeps its upper 32 bits

---
 pkg/tree/id64/myuint64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/id64/myuint64.go b/pkg/tree/id64/myuint64.go
index b47e319..22b2407 100644
--- a/pkg/tree/id64/myuint64.go
+++ b/pkg/tree/id64/myuint64.go
@@ -28,7 +28,7 @@ func (u myuint64) not() myuint64 {
 
 // subOne returns u - 1.
 func (u myuint64) subOne() myuint64 {
-	lo, _ := bits.Sub32(uint32(u), 1, 0)
+	lo, _ := bits.Sub64(uint64(u), 1, 0)
 	return myuint64(lo)
 }
 
-- 
2.43.0


From 3415a255577c3f9065baf5cb8feb40c073151a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:01 +0000
Subject: [PATCH 12/24] fix: id64: a mask of length 0 clears all bits

---
 pkg/tree/id64/myuint64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/id64/myuint64.go b/pkg/tree/id64/myuint64.go
index 22b2407..1f79790 100644
--- a/pkg/tree/id64/myuint64.go
+++ b/pkg/tree/id64/myuint64.go
@@ -51,7 +51,7 @@ func (u myuint64) bitsClearedFrom(bit uint8) myuint64 {
 }
 
 var mask6 = [...]uint64{
-	0xffffffff00000000, //0
+	0x0000000000000000, //0
 	0x8000000000000000, //1
 	0xc000000000000000, //2
 	0xe000000000000000, //3
-- 
2.43.0


From be0da3b6ab8e2fb601920fccb873b66895302574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:02 +0000
Subject: [PATCH 13/24] fix: id64: masks longer than 32 bits are valid

---
 pkg/tree/id64/id64.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/tree/id64/id64.go b/pkg/tree/id64/id64.go
index 6ac19b5..2f5fbb3 100644
--- a/pkg/tree/id64/id64.go
+++ b/pkg/tree/id64/id64.go
@@ -129,8 +129,8 @@ func (id myid64) Prev() tree.ID {
 // Prev returns the ID before id.
 // If there is none, it returns the ID zero value.
 func (id myid64) Mask(l uint8) (tree.ID, error) {
-	if l > 32 {
-		return nil, fmt.Errorf("length is too large, max 32, got: %d", l)
+	if l > IDBitSize {
+		return nil, fmt.Errorf("length is too large, max %d, got: %d", IDBitSize, l)
 	}
 	newid := uint64(myuint64(id.id).and(myuint64(mask6[uint32(l)])))
 	return myid64{id: newid, length: l}, nil
-- 
2.43.0


From cb104bc65d2ed6c829bfcb320410a63155ac0e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:46 +0000
Subject: [PATCH 14/24] fix: tree32: the free search covers the table's own
 space

---
 pkg/tree/tree32/tree32.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index a631a09..8f9b964 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -115,7 +115,7 @@ func (r *tree32) set(id tree.ID, e tree.Entry) error {
 }
 
 func (r *tree32) findFree() (uint32, error) {
-	rootID := id32.NewID(0, r.length)
+	rootID := id32.NewID(0, (id32.IDBitSize - r.length))
 	var bldr id32.IDSetBuilder
 	bldr.AddId(rootID)
 
-- 
2.43.0


From ee3403727b898dc474a29eb11f9f763c7d38afd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:48 +0000
Subject: [PATCH 15/24] fix: tree: a clone keeps the name, the bit function and
 the id length

---
 pkg/tree/tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/tree/tree.go b/pkg/tree/tree.go
index 75d62d0..2853fe7 100644
--- a/pkg/tree/tree.go
+++ b/pkg/tree/tree.go
@@ -65,6 +65,9 @@ func NewTree[T any](name string, isLeftBitSetFn IsLeftBitSetFn, length uint8) *T
 // - Note: the items in the tree are not deep copied
 func (r *Tree[T]) Clone() *Tree[T] {
 	ret := &Tree[T]{
+		name:             r.name,
+		isLeftBitSetFn:   r.isLeftBitSetFn,
+		length:           r.length,
 		nodes:            make([]treeNode[T], len(r.nodes), cap(r.nodes)),
 		availableIndexes: make([]uint, len(r.availableIndexes), cap(r.availableIndexes)),
 		vals:             make(map[uint64]T, len(r.vals)),
-- 
2.43.0


From 6e0c80cc701e7fd247f9a85e7540e416f7ae5c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:50 +0000
Subject: [PATCH 16/24] fix: tree: nodes of a 64 bit tree no longer share their
 values

---
 pkg/tree/tree.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/tree/tree.go b/pkg/tree/tree.go
index 2853fe7..d461290 100644
--- a/pkg/tree/tree.go
+++ b/pkg/tree/tree.go
@@ -81,12 +81,19 @@ func (r *Tree[T]) Clone() *Tree[T] {
 	return ret
 }
 
+// valKey is the key of the first value of a node; the values of a node follow
+// each other. The distance between nodes does not depend on the id length: a
+// shift by 64 would map all nodes to the same key.
+func valKey(nodeIndex uint) uint64 {
+	return uint64(nodeIndex) << 32
+}
+
 // add a tag to the node at the input index
 // - if matchFunc is non-nil, it is used to determine equality (if nil, no existing tag match)
 // - if udpateFunc is non-nil, it is used to update the tag if it already exists (if nil, the provided tag is used)
 // - returns whether the tag count was increased
 func (r *Tree[T]) addVal(val T, nodeIndex uint, matchFunc MatchesFunc[T], updateFunc UpdatesFunc[T]) bool {
-	key := (uint64(nodeIndex) << uint64(r.length))
+	key := valKey(nodeIndex)
 	valCount := r.nodes[nodeIndex].ValCount
 	if matchFunc != nil {
 		// need to check if this value already exists
@@ -106,8 +113,8 @@ func (r *Tree[T]) addVal(val T, nodeIndex uint, matchFunc MatchesFunc[T], update
 
 func (r *Tree[T]) moveTags(fromIndex uint, toIndex uint) {
 	tagCount := r.nodes[fromIndex].ValCount
-	fromKey := uint64(fromIndex) << uint64(r.length)
-	toKey := uint64(toIndex) << uint64(r.length)
+	fromKey := valKey(fromIndex)
+	toKey := valKey(toIndex)
 	for i := 0; i < tagCount; i++ {
 		r.vals[toKey+uint64(i)] = r.vals[fromKey+uint64(i)]
 		delete(r.vals, fromKey+uint64(i))
@@ -126,7 +133,7 @@ func (r *Tree[T]) valsForNode(ret []T, nodeIndex uint, filterFunc FilterFunc[T])
 
 	// TODO: clean up the typing in here, between uint, uint64
 	valCount := r.nodes[nodeIndex].ValCount
-	key := uint64(nodeIndex) << uint64(r.length)
+	key := valKey(nodeIndex)
 	for i := 0; i < valCount; i++ {
 		tag := r.vals[key+uint64(i)]
 		if filterFunc == nil || filterFunc(tag) {
@@ -149,7 +156,7 @@ func (r *Tree[T]) deleteVal(buf []T, nodeIndex uint, matchTag T, matchFunc Match
 	// delete tags
 	// TODO: this could be done smarter - delete in place?
 	for i := 0; i < r.nodes[nodeIndex].ValCount; i++ {
-		delete(r.vals, (uint64(nodeIndex)<<uint64(r.length))+uint64(i))
+		delete(r.vals, valKey(nodeIndex)+uint64(i))
 	}
 	r.nodes[nodeIndex].ValCount = 0
 
-- 
2.43.0


From 0927f4e9e6bc8f2a5953051ce3987dc251e1ef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:52 +0000
Subject: [PATCH 17/24] fix: tree: deleting a value keeps all other values of
 the node

---
 pkg/tree/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/tree.go b/pkg/tree/tree.go
index d461290..fe1e051 100644
--- a/pkg/tree/tree.go
+++ b/pkg/tree/tree.go
@@ -168,7 +168,7 @@ func (r *Tree[T]) deleteVal(buf []T, nodeIndex uint, matchTag T, matchFunc Match
 			deleteCount++
 		} else {
 			// doesn't match - get to keep it
-			r.addVal(tag, nodeIndex, matchFunc, nil)
+			r.addVal(tag, nodeIndex, nil, nil)
 			keepCount++
 		}
 	}
-- 
2.43.0


From a2e15fc303127a0dbf6430b123510222fbd55596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:25 +0000
Subject: [PATCH 18/24] fix: tree16/tree32/tree64: every call takes the lock
 exactly once and keeps it throughout

---
 pkg/tree/tree16/tree16.go | 63 +++++++++++++++++++++++++++++----------
 pkg/tree/tree32/tree32.go | 62 ++++++++++++++++++++++++++++----------
 pkg/tree/tree64/tree64.go | 62 ++++++++++++++++++++++++++++----------
 3 files changed, 142 insertions(+), 45 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index db8d0cd..edc64a8 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -32,6 +32,9 @@ type tree16 struct {
 }
 
 func (r *tree16) Clone() gtree.GTree {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	return &tree16{
 		m:      new(sync.RWMutex),
 		tree:   r.tree.Clone(),
@@ -44,7 +47,11 @@ func (r *tree16) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	return r.get(id)
+}
+
+func (r *tree16) get(id tree.ID) (tree.Entry, error) {
+	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
 			iter.Entry().ID().Length() == id.Length() {
@@ -77,12 +84,13 @@ func (r *tree16) ClaimID(id tree.ID, labels labels.Set) error {
 }
 
 func (r *tree16) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	id, err := r.findFree()
 	if err != nil {
 		return nil, fmt.Errorf("no free ids available, err: %s", err.Error())
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	treeId := id16.NewID(uint16(id), id16.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
 	if err := r.set(treeId, treeEntry); err != nil {
@@ -96,6 +104,8 @@ func (r *tree16) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	r.m.Lock()
+	defer r.m.Unlock()
 	// TODO check if free
 
 	// get each entry and validate owner
@@ -120,7 +130,7 @@ func (r *tree16) findFree() (uint16, error) {
 	bldr.AddId(rootID)
 
 
-	for _, e := range r.Children(rootID) {
+	for _, e := range r.children(rootID) {
 		bldr.RemoveId(e.ID())
 	}
 	ipset, err := bldr.IPSet()
@@ -142,21 +152,21 @@ func (r *tree16) ReleaseID(id tree.ID) error {
 	if err := r.validate(id); err != nil {
 		return err
 	}
-	e, err := r.Get(id)
+	r.m.Lock()
+	defer r.m.Unlock()
+
+	e, err := r.get(id)
 	if err != nil {
 		return nil
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	return r.del(id, e)
 }
 
 func (r *tree16) ReleaseByLabel(selector labels.Selector) error {
-	entries := r.GetByLabel(selector)
-
 	r.m.Lock()
 	defer r.m.Unlock()
 
+	entries := r.getByLabel(selector)
 	for _, e := range entries {
 		if err := r.del(e.ID().Copy(), e); err != nil {
 			return err
@@ -174,11 +184,16 @@ func (r *tree16) del(id tree.ID, e tree.Entry) error {
 }
 
 func (r *tree16) Children(id tree.ID) tree.Entries {
-	entries := tree.Entries{}
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	return r.children(id)
+}
+
+func (r *tree16) children(id tree.ID) tree.Entries {
+	entries := tree.Entries{}
+
+	iter := r.iterate()
 
 	for iter.Next() {
 		entry := iter.Entry()
@@ -195,7 +210,7 @@ func (r *tree16) Parents(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
 		if entry.ID().Overlaps(id) && entry.ID().Length() < id16.IDBitSize {
@@ -206,9 +221,16 @@ func (r *tree16) Parents(id tree.ID) tree.Entries {
 }
 
 func (r *tree16) GetByLabel(selector labels.Selector) tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
+	return r.getByLabel(selector)
+}
+
+func (r *tree16) getByLabel(selector labels.Selector) tree.Entries {
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if selector.Matches(iter.Entry().Labels()) {
 			entries = append(entries, iter.Entry())
@@ -219,9 +241,12 @@ func (r *tree16) GetByLabel(selector labels.Selector) tree.Entries {
 }
 
 func (r *tree16) GetAll() tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Entry())
 	}
@@ -230,9 +255,12 @@ func (r *tree16) GetAll() tree.Entries {
 }
 
 func (r *tree16) Size() int {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	var size int
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		size++
 	}
@@ -244,6 +272,11 @@ func (r *tree16) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.iterate()
+}
+
+// iterate must be called with the lock held
+func (r *tree16) iterate() *gtree.GTreeIterator {
 	return &gtree.GTreeIterator{
 		Iter: r.tree.Iterate(),
 	}
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 8f9b964..b1b57a4 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -30,6 +30,9 @@ type tree32 struct {
 }
 
 func (r *tree32) Clone() gtree.GTree {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	return &tree32{
 		m:      new(sync.RWMutex),
 		tree:   r.tree.Clone(),
@@ -42,7 +45,11 @@ func (r *tree32) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	return r.get(id)
+}
+
+func (r *tree32) get(id tree.ID) (tree.Entry, error) {
+	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
 			iter.Entry().ID().Length() == id.Length() {
@@ -75,6 +82,8 @@ func (r *tree32) ClaimID(id tree.ID, labels labels.Set) error {
 }
 
 func (r *tree32) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	r.m.Lock()
+	defer r.m.Unlock()
 
 	id, err := r.findFree()
 	if err != nil {
@@ -83,8 +92,6 @@ func (r *tree32) ClaimFree(labels labels.Set) (tree.Entry, error) {
 
 	treeId := id32.NewID(uint32(id), id32.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
-	r.m.Lock()
-	defer r.m.Unlock()
 	if err := r.set(treeId, treeEntry); err != nil {
 		return nil, err
 	}
@@ -96,6 +103,8 @@ func (r *tree32) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	r.m.Lock()
+	defer r.m.Unlock()
 	// TODO check if free
 
 	// get each entry and validate owner
@@ -119,7 +128,7 @@ func (r *tree32) findFree() (uint32, error) {
 	var bldr id32.IDSetBuilder
 	bldr.AddId(rootID)
 
-	for _, e := range r.Children(rootID) {
+	for _, e := range r.children(rootID) {
 		bldr.RemoveId(e.ID())
 	}
 	ipset, err := bldr.IPSet()
@@ -141,21 +150,21 @@ func (r *tree32) ReleaseID(id tree.ID) error {
 	if err := r.validate(id); err != nil {
 		return err
 	}
-	e, err := r.Get(id)
+	r.m.Lock()
+	defer r.m.Unlock()
+
+	e, err := r.get(id)
 	if err != nil {
 		return nil
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	return r.del(id, e)
 }
 
 func (r *tree32) ReleaseByLabel(selector labels.Selector) error {
-	entries := r.GetByLabel(selector)
-
 	r.m.Lock()
 	defer r.m.Unlock()
 
+	entries := r.getByLabel(selector)
 	for _, e := range entries {
 		if err := r.del(e.ID().Copy(), e); err != nil {
 			return err
@@ -173,11 +182,16 @@ func (r *tree32) del(id tree.ID, e tree.Entry) error {
 }
 
 func (r *tree32) Children(id tree.ID) tree.Entries {
-	entries := tree.Entries{}
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	return r.children(id)
+}
+
+func (r *tree32) children(id tree.ID) tree.Entries {
+	entries := tree.Entries{}
+
+	iter := r.iterate()
 
 	for iter.Next() {
 		entry := iter.Entry()
@@ -194,7 +208,7 @@ func (r *tree32) Parents(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
 		if entry.ID().Overlaps(id) && entry.ID().Length() < id32.IDBitSize {
@@ -205,9 +219,16 @@ func (r *tree32) Parents(id tree.ID) tree.Entries {
 }
 
 func (r *tree32) GetByLabel(selector labels.Selector) tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
+	return r.getByLabel(selector)
+}
+
+func (r *tree32) getByLabel(selector labels.Selector) tree.Entries {
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if selector.Matches(iter.Entry().Labels()) {
 			entries = append(entries, iter.Entry())
@@ -218,9 +239,12 @@ func (r *tree32) GetByLabel(selector labels.Selector) tree.Entries {
 }
 
 func (r *tree32) GetAll() tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Entry())
 	}
@@ -229,9 +253,12 @@ func (r *tree32) GetAll() tree.Entries {
 }
 
 func (r *tree32) Size() int {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	var size int
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		size++
 	}
@@ -243,6 +270,11 @@ func (r *tree32) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.iterate()
+}
+
+// iterate must be called with the lock held
+func (r *tree32) iterate() *gtree.GTreeIterator {
 	return &gtree.GTreeIterator{
 		Iter: r.tree.Iterate(),
 	}
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 769c939..82ce0ea 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -30,6 +30,9 @@ type tree64 struct {
 }
 
 func (r *tree64) Clone() gtree.GTree {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	return &tree64{
 		m:      new(sync.RWMutex),
 		tree:   r.tree.Clone(),
@@ -42,7 +45,11 @@ func (r *tree64) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	return r.get(id)
+}
+
+func (r *tree64) get(id tree.ID) (tree.Entry, error) {
+	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
 			iter.Entry().ID().Length() == id.Length() {
@@ -76,6 +83,8 @@ func (r *tree64) ClaimID(id tree.ID, labels labels.Set) error {
 }
 
 func (r *tree64) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	r.m.Lock()
+	defer r.m.Unlock()
 
 	id, err := r.findFree()
 	if err != nil {
@@ -84,8 +93,6 @@ func (r *tree64) ClaimFree(labels labels.Set) (tree.Entry, error) {
 
 	treeId := id64.NewID(id, id64.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
-	r.m.Lock()
-	defer r.m.Unlock()
 	if err := r.set(treeId, treeEntry); err != nil {
 		return nil, err
 	}
@@ -97,6 +104,8 @@ func (r *tree64) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	r.m.Lock()
+	defer r.m.Unlock()
 	// TODO check if free
 
 	// get each entry and validate owner
@@ -120,7 +129,7 @@ func (r *tree64) findFree() (uint64, error) {
 	var bldr id64.IDSetBuilder
 	bldr.AddId(rootID)
 
-	for _, e := range r.Children(rootID) {
+	for _, e := range r.children(rootID) {
 		bldr.RemoveId(e.ID())
 	}
 	ipset, err := bldr.IPSet()
@@ -142,21 +151,21 @@ func (r *tree64) ReleaseID(id tree.ID) error {
 	if err := r.validate(id); err != nil {
 		return err
 	}
-	e, err := r.Get(id)
+	r.m.Lock()
+	defer r.m.Unlock()
+
+	e, err := r.get(id)
 	if err != nil {
 		return nil
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	return r.del(id, e)
 }
 
 func (r *tree64) ReleaseByLabel(selector labels.Selector) error {
-	entries := r.GetByLabel(selector)
-
 	r.m.Lock()
 	defer r.m.Unlock()
 
+	entries := r.getByLabel(selector)
 	for _, e := range entries {
 		if err := r.del(e.ID().Copy(), e); err != nil {
 			return err
@@ -174,11 +183,16 @@ func (r *tree64) del(id tree.ID, e tree.Entry) error {
 }
 
 func (r *tree64) Children(id tree.ID) tree.Entries {
-	entries := tree.Entries{}
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	return r.children(id)
+}
+
+func (r *tree64) children(id tree.ID) tree.Entries {
+	entries := tree.Entries{}
+
+	iter := r.iterate()
 
 	for iter.Next() {
 		entry := iter.Entry()
@@ -195,7 +209,7 @@ func (r *tree64) Parents(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
 		if entry.ID().Overlaps(id) && entry.ID().Length() < id64.IDBitSize {
@@ -206,9 +220,16 @@ func (r *tree64) Parents(id tree.ID) tree.Entries {
 }
 
 func (r *tree64) GetByLabel(selector labels.Selector) tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
+	return r.getByLabel(selector)
+}
+
+func (r *tree64) getByLabel(selector labels.Selector) tree.Entries {
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if selector.Matches(iter.Entry().Labels()) {
 			entries = append(entries, iter.Entry())
@@ -219,9 +240,12 @@ func (r *tree64) GetByLabel(selector labels.Selector) tree.Entries {
 }
 
 func (r *tree64) GetAll() tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Entry())
 	}
@@ -230,9 +254,12 @@ func (r *tree64) GetAll() tree.Entries {
 }
 
 func (r *tree64) Size() int {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	var size int
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		size++
 	}
@@ -244,6 +271,11 @@ func (r *tree64) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.iterate()
+}
+
+// iterate must be called with the lock held
+func (r *tree64) iterate() *gtree.GTreeIterator {
 	return &gtree.GTreeIterator{
 		Iter: r.tree.Iterate(),
 	}
-- 
2.43.0


From 029cd8637138e9f5838db2c1914b1483662a3e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:18 +0000
Subject: [PATCH 19/24] fix: tree16/tree32/tree64: ClaimRange refuses inverted
 ranges and ranges outside the table

---
 pkg/tree/tree16/tree16.go | 6 ++++++
 pkg/tree/tree32/tree32.go | 6 ++++++
 pkg/tree/tree64/tree64.go | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index edc64a8..98c2df3 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -104,6 +104,12 @@ func (r *tree16) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	if !trange.IsValid() {
+		return fmt.Errorf("invalid range %s", s)
+	}
+	if err := r.validate(trange.To()); err != nil {
+		return err
+	}
 	r.m.Lock()
 	defer r.m.Unlock()
 	// TODO check if free
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index b1b57a4..fd1b768 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -103,6 +103,12 @@ func (r *tree32) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	if !vlanRange.IsValid() {
+		return fmt.Errorf("invalid range %s", s)
+	}
+	if err := r.validate(vlanRange.To()); err != nil {
+		return err
+	}
 	r.m.Lock()
 	defer r.m.Unlock()
 	// TODO check if free
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 82ce0ea..3f28f40 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -104,6 +104,12 @@ func (r *tree64) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	if !treeRange.IsValid() {
+		return fmt.Errorf("invalid range %s", s)
+	}
+	if err := r.validate(treeRange.To()); err != nil {
+		return err
+	}
 	r.m.Lock()
 	defer r.m.Unlock()
 	// TODO check if free
-- 
2.43.0


From 05619b3b05142012775af8ef385dc38cda1c770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:20 +0000
Subject: [PATCH 20/24] fix: tree16/tree32/tree64: the free search respects an
 entry that covers the whole space

---
 pkg/tree/tree16/tree16.go | 6 ++++--
 pkg/tree/tree32/tree32.go | 6 ++++--
 pkg/tree/tree64/tree64.go | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 98c2df3..3f4199d 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -136,8 +136,10 @@ func (r *tree16) findFree() (uint16, error) {
 	bldr.AddId(rootID)
 
 
-	for _, e := range r.children(rootID) {
-		bldr.RemoveId(e.ID())
+	// an entry may also cover the whole space, not only a part of it
+	iter := r.iterate()
+	for iter.Next() {
+		bldr.RemoveId(iter.Entry().ID())
 	}
 	ipset, err := bldr.IPSet()
 	if err != nil {
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index fd1b768..49df656 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -134,8 +134,10 @@ func (r *tree32) findFree() (uint32, error) {
 	var bldr id32.IDSetBuilder
 	bldr.AddId(rootID)
 
-	for _, e := range r.children(rootID) {
-		bldr.RemoveId(e.ID())
+	// an entry may also cover the whole space, not only a part of it
+	iter := r.iterate()
+	for iter.Next() {
+		bldr.RemoveId(iter.Entry().ID())
 	}
 	ipset, err := bldr.IPSet()
 	if err != nil {
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 3f28f40..1434cc1 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -135,8 +135,10 @@ func (r *tree64) findFree() (uint64, error) {
 	var bldr id64.IDSetBuilder
 	bldr.AddId(rootID)
 
-	for _, e := range r.children(rootID) {
-		bldr.RemoveId(e.ID())
+	// an entry may also cover the whole space, not only a part of it
+	iter := r.iterate()
+	for iter.Next() {
+		bldr.RemoveId(iter.Entry().ID())
 	}
 	ipset, err := bldr.IPSet()
 	if err != nil {
-- 
2.43.0


From ccd0342a84c2b81b57ac43637ab3b38afaba3c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:22 +0000
Subject: [PATCH 21/24] fix: tree16/tree32/tree64: Parents returns only the
 entries that contain the id

---
 pkg/tree/tree16/tree16.go | 2 +-
 pkg/tree/tree32/tree32.go | 2 +-
 pkg/tree/tree64/tree64.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 3f4199d..10c8924 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -221,7 +221,7 @@ func (r *tree16) Parents(id tree.ID) tree.Entries {
 	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
-		if entry.ID().Overlaps(id) && entry.ID().Length() < id16.IDBitSize {
+		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
 			entries = append(entries, iter.Entry())
 		}
 	}
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 49df656..3fb9e74 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -219,7 +219,7 @@ func (r *tree32) Parents(id tree.ID) tree.Entries {
 	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
-		if entry.ID().Overlaps(id) && entry.ID().Length() < id32.IDBitSize {
+		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
 			entries = append(entries, iter.Entry())
 		}
 	}
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 1434cc1..f120099 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -220,7 +220,7 @@ func (r *tree64) Parents(id tree.ID) tree.Entries {
 	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
-		if entry.ID().Overlaps(id) && entry.ID().Length() < id64.IDBitSize {
+		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
 			entries = append(entries, iter.Entry())
 		}
 	}
-- 
2.43.0


From 97ab648275036c8583540111437b4a2c7d06cb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:24 +0000
Subject: [PATCH 22/24] fix: tree16/tree32/tree64: refuse ids longer than the
 id width

---
 pkg/tree/tree16/tree16.go | 4 ++--
 pkg/tree/tree32/tree32.go | 4 ++--
 pkg/tree/tree64/tree64.go | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 10c8924..4a79f20 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -294,8 +294,8 @@ func (r *tree16) validate(id tree.ID) error {
 	if id.ID() > uint64(r.size) {
 		return fmt.Errorf("max id allowed is %d, got %d", r.size, id.ID())
 	}
-	if id.Length() < uint8(0) {
-		return fmt.Errorf("min allowed length is %d, got %d", r.length, id.Length())
+	if id.Length() > id16.IDBitSize {
+		return fmt.Errorf("max allowed length is %d, got %d", id16.IDBitSize, id.Length())
 	}
 	return nil
 }
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 3fb9e74..b62bbb9 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -292,8 +292,8 @@ func (r *tree32) validate(id tree.ID) error {
 	if id.ID() > uint64(r.size) {
 		return fmt.Errorf("max id allowed is %d, got %d", r.size, id.ID())
 	}
-	if id.Length() < uint8(0) {
-		return fmt.Errorf("min allowed length is %d, got %d", r.length, id.Length())
+	if id.Length() > id32.IDBitSize {
+		return fmt.Errorf("max allowed length is %d, got %d", id32.IDBitSize, id.Length())
 	}
 	return nil
 }
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index f120099..0272d4c 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -293,8 +293,8 @@ func (r *tree64) validate(id tree.ID) error {
 	if id.ID() > uint64(r.size) {
 		return fmt.Errorf("max id allowed is %d, got %d", r.size, id.ID())
 	}
-	if id.Length() < uint8(0) {
-		return fmt.Errorf("min allowed length is %d, got %d", r.length, id.Length())
+	if id.Length() > id64.IDBitSize {
+		return fmt.Errorf("max allowed length is %d, got %d", id64.IDBitSize, id.Length())
 	}
 	return nil
 }
-- 
2.43.0


From f83b5fd5719293dc6677a1dc1be04c354bc1a39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:26 +0000
Subject: [PATCH 23/24] fix: id16/id32/id64: the zero range is invalid instead
 of a nil dereference

---
 pkg/tree/id16/range16.go | 3 ++-
 pkg/tree/id32/range32.go | 3 ++-
 pkg/tree/id64/range64.go | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/tree/id16/range16.go b/pkg/tree/id16/range16.go
index 5032855..2f0ae1d 100644
--- a/pkg/tree/id16/range16.go
+++ b/pkg/tree/id16/range16.go
@@ -64,7 +64,8 @@ func (r r16) String() string {
 }
 
 func (r r16) IsValid() bool {
-	return r.from.Length() == r.to.Length() &&
+	return r.from != nil && r.to != nil &&
+		r.from.Length() == r.to.Length() &&
 		!(r.to.ID() < r.From().ID())
 }
 
diff --git a/pkg/tree/id32/range32.go b/pkg/tree/id32/range32.go
index cee6b89..f75a11f 100644
--- a/pkg/tree/id32/range32.go
+++ b/pkg/tree/id32/range32.go
@@ -64,7 +64,8 @@ func (r r32) String() string {
 }
 
 func (r r32) IsValid() bool {
-	return r.from.Length() == r.to.Length() &&
+	return r.from != nil && r.to != nil &&
+		r.from.Length() == r.to.Length() &&
 		!(r.to.ID() < r.From().ID())
 }
 
diff --git a/pkg/tree/id64/range64.go b/pkg/tree/id64/range64.go
index 6408f69..e7ee6d1 100644
--- a/pkg/tree/id64/range64.go
+++ b/pkg/tree/id64/range64.go
@@ -64,7 +64,8 @@ func (r r64) String() string {
 }
 
 func (r r64) IsValid() bool {
-	return r.from.Length() == r.to.Length() &&
+	return r.from != nil && r.to != nil &&
+		r.from.Length() == r.to.Length() &&
 		!(r.to.ID() < r.From().ID())
 }
 
-- 
2.43.0


From 7c2adc9035078fe5aa8186f20bcfab9edfc5f16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:37 +0000
Subject: [PATCH 24/24] fix: tree tables print their nodes and values with the
 lock held

---
 pkg/tree/tree16/tree16.go | 6 ++++++
 pkg/tree/tree32/tree32.go | 6 ++++++
 pkg/tree/tree64/tree64.go | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 4a79f20..4ed6a2b 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -301,9 +301,15 @@ func (r *tree16) validate(id tree.ID) error {
 }
 
 func (r *tree16) PrintNodes() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintNodes(0)
 }
 
 func (r *tree16) PrintValues() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintValues()
 }
\ No newline at end of file
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index b62bbb9..d0b8387 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -299,9 +299,15 @@ func (r *tree32) validate(id tree.ID) error {
 }
 
 func (r *tree32) PrintNodes() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintNodes(0)
 }
 
 func (r *tree32) PrintValues() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintValues()
 }
\ No newline at end of file
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 0272d4c..4c7f3d2 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -300,9 +300,15 @@ func (r *tree64) validate(id tree.ID) error {
 }
 
 func (r *tree64) PrintNodes() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintNodes(1)
 }
 
 func (r *tree64) PrintValues() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintValues()
 }
-- 
2.43.0

