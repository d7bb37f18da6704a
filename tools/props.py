NOTE = ("Every obligation generated from the current source is discharged for all inputs and all iterations, function by function. "
        "Trusted: the generator, go/ssa, the solvers, and the assumptions listed in the evidence file; termination is not proved.")

prop("C01", "Claim, release and update of an id are exact and touch nothing else",
 "In an id table of size n, claiming id i succeeds exactly when i < n and i is unclaimed, and then i holds exactly the given data. Releasing succeeds exactly when i < n and leaves i unclaimed; updating succeeds exactly when i is claimed and replaces its data. Every other id keeps its state and data, and a failing call changes nothing.",
 H, "every table size, every id (0 .. 2^64-1), every data value, every reachable table state",
 "The tests claim a handful of ids in small tables; sizes 0, the last id, ids beyond the size and the untouched ids are never compared.",
 IDX, [("add/update/release under the write lock", "pkg/idxtable/table.go"), ("size check before every access", "pkg/idxtable/table.go")],
 [("table", "map from claimed id to entry", "pkg/idxtable/table.go"), ("size", "number of ids, ids are 0..size-1", "pkg/idxtable/table.go")],
 ["Table.Claim", "Table.Release", "Table.Update"], claimed=True)

prop("C02", "The dynamic claim takes the lowest free id and fails only when full",
 "Asking an id table for a free id returns the lowest unclaimed id below the size, and fails exactly when every id is claimed. Claiming dynamically claims precisely that id with the given data and changes no other id; when it fails it changes nothing.",
 H, "every table size and every set of claimed ids", "Tests look at a few fill patterns; a wrong answer needs a particular hole in a particular table.",
 IDX, [("lowest free search", "pkg/idxtable/table.go")], [("table", "claimed ids", "pkg/idxtable/table.go")], ["Table.FindFree", "Table.ClaimDynamic"], claimed=True)

prop("C03", "A range claim takes exactly the requested ids, or nothing",
 "Asking for s ids from start succeeds exactly when s > 0, all of start..start+s-1 lie below the table size and none is claimed, and it returns exactly these ids in order. Claiming that range claims exactly these ids with the given data, and leaves the table untouched when it fails.",
 H, "every size, start and count (including sums beyond 2^64) and every set of claimed ids", "Tests cover a few in-range requests; overflow, requests reaching past the end and claimed ids inside the range are combinations they do not reach.",
 IDX, [("find free range, then add each id", "pkg/idxtable/table.go")], [("table", "claimed ids", "pkg/idxtable/table.go")], ["Table.FindFreeRange", "Table.ClaimRange"], claimed=True)

prop("C04", "A claim of n ids takes the n lowest free ids, or nothing",
 "Asking for n ids, wherever they are, succeeds exactly when n > 0 and at least n ids are free, and returns the n lowest free ids in ascending order. Claiming n ids claims exactly those with the given data and returns their entries in that order; when it fails the table is unchanged.",
 H, "every size, every n, every set of claimed ids", "Tests use tables with a few holes; that the chosen ids are the lowest free ones for every pattern cannot be sampled.",
 IDX, [("walk over the free ids", "pkg/idxtable/table.go")], [("table", "claimed ids", "pkg/idxtable/table.go")], ["Table.FindFreeSize", "Table.ClaimSize"], claimed=True)

prop("C05", "All read views of an id table agree with what is claimed",
 "Lookups, membership tests, the count, the list of all entries, the iterator over entries and the iterator over free ids all describe the same set of claimed ids, at the moment of the call. The listing views show every claimed (or every free) id exactly once, in ascending order, with the data it holds; an iterator says two consecutive answers are consecutive exactly when they are.",
 H, "every table size and every reachable table state", "Tests print or count entries of small tables; order, completeness and the free view under arbitrary holes are not compared.",
 IDX, [("sorted snapshot of the map keys", "pkg/idxtable/table.go"), ("cursor over the snapshot", "pkg/idxtable/iterator.go")],
 [("table", "claimed ids", "pkg/idxtable/table.go"), ("keys/current", "snapshot and cursor", "pkg/idxtable/iterator.go")],
 ["Table.Get", "Table.Has", "Table.IsFree", "Table.Size", "Table.GetAll", "Table.Iterate", "Table.IterateFree", "Iterator.Next/ID/Value/IsConsecutive"], claimed=True)

prop("C06", "A 16/32/64-bit range table maps external ids one to one",
 "A table for ids start..end (fewer than 2^64 ids) accepts exactly the ids in that range: claiming succeeds exactly when the id is in the range and unclaimed, releasing exactly when it is in the range, updating exactly when it is claimed, and each affects that id alone. A lookup succeeds exactly for claimed ids and returns an entry that carries the requested external id and the labels last stored for it; membership, freeness and the count agree.",
 H, "every start <= end at width 16, 32 and 64, every id, every history", "Tests use one range per width and never the full range or the last id; a shift by one or a lost id shows only at particular starts.",
 TT + IDX, [("subtract start before, add it after", "pkg/table/table32/table32.go")], [("start,end", "external range", "pkg/table/table32/table32.go")], ["Table.Claim/Release/Update/Get/Has/IsFree/Size"], claimed=True)

prop("C07", "A range table's free search and listings report external ids",
 "In a table for ids start..end, the free id found is the lowest unclaimed id of that range, and the search fails exactly when the whole range is claimed. A free claim that succeeds claims, with the given labels, the lowest id that was unclaimed, and changes nothing else. Listing all entries shows each claimed external id once with its labels, in ascending order; listing by a selector shows exactly those whose labels match it.",
 H, "every range at width 16, 32 and 64, every set of claimed ids and labels", "Tests list a few entries of one range per width.",
 TT + IDX, [("remapping of internal entries", "pkg/table/table32/table32.go")], [("start", "offset of the range", "pkg/table/table32/table32.go")], ["Table.FindFree/ClaimFree/GetAll/GetByLabel"], claimed=True)

prop("C08", "An IP range table maps each address of its range to one entry",
 "A table for the addresses from..to (fewer than 2^64 of them) accepts exactly the addresses of that range: distinct addresses never share an entry, claiming succeeds exactly when the address is in the range and unclaimed, and lookups, membership tests, release and update of an address concern that address alone. Addresses outside the range, of the other family or with a zone are refused.",
 H, "every IPv4 and IPv6 range, every address, every history", "Tests use one small IPv4 and IPv6 range; 2^63-address ranges and addresses far apart are out of their reach.",
 IP + IDX, [("index of an address = its distance from the first", "pkg/iptable/iptable.go")], [("ipRange", "the range", "pkg/iptable/iptable.go")], ["IPTable.Claim/Release/Update/Get/Has/IsFree"], claimed=True)

prop("C09", "An IP range table's free search and listings report addresses",
 "The free address found is the lowest unclaimed address of the range, and the search fails exactly when none is left. Listing shows each claimed route once, in address order; listing by a selector shows exactly the routes whose labels match.",
 H, "every range and every set of claimed addresses", "Tests list a few addresses of one range.",
 IP + IDX, [("address of an index = first + index", "pkg/iptable/iptable.go")], [("ipRange", "the range", "pkg/iptable/iptable.go")], ["IPTable.FindFree/GetAll/GetByLabel"], claimed=True)

prop("C10", "Identifier arithmetic is exact at 16, 32 and 64 bits",
 "For identifiers of each width with any prefix length up to the width: two overlap exactly when their bits agree up to the shorter length, masking to a length keeps exactly the leading bits (and fails exactly for a length beyond the width), and ordering is by length and then by value, consistently for Compare and Less. The successor (predecessor) has the value plus (minus) one and the same length, and is the zero identifier past the largest (smallest) value; shifting left drops leading bits; the number of matching leading bits of two values is exact.",
 ["inputs"], "every value and every prefix length at widths 16, 32 and 64", "Tests try a few values; boundary lengths 0 and full, and the extreme values, differ between the three widths and are not covered.",
 ID, [("masks and carry arithmetic", "pkg/tree/id64/myuint64.go")], [("id,length", "value and prefix length", "pkg/tree/id64/id64.go")], ["NewID, ID.Overlaps/Mask/Masked/Compare/Less/Next/Prev/ShiftLeft/Matches/IsLeftBitSet/Copy"], claimed=True)

prop("C11", "Identifier ranges: bounds of a prefix and relations between ranges",
 "The range of a prefix is exactly the set of identifiers that the prefix covers, and its last identifier is the largest of them. For valid ranges of full-length identifiers, EntirelyBefore, CoveredBy, InMiddleOf, OverlapsStartOf and OverlapsEndOf hold exactly when the two ranges' bounds say so, and Less orders by first bound, then the larger range first. A range is valid exactly when both bounds exist, have the same length and the first does not exceed the last.",
 ["inputs"], "every prefix and every pair of ranges at widths 16, 32 and 64", "Tests try a few pairs.",
 RG, [("comparison of bounds", "pkg/tree/id32/range32.go")], [("from,to", "bounds", "pkg/tree/id32/range32.go")], ["RangeFrom, RangeOfID, LastID, Range.IsValid/Less/EntirelyBefore/CoveredBy/InMiddleOf/OverlapsStartOf/OverlapsEndOf/From/To/SetFrom/SetTo"], claimed=True)

prop("C12", "A range is decomposed into prefixes exactly",
 "The prefixes produced for a valid range of full-length identifiers are canonical (no bits beyond their length), cover exactly the identifiers of the range, each identifier once, in ascending order, and none could be one bit shorter without leaving the range. Appending them to a list keeps what the list held. An invalid range yields no prefixes.",
 ["inputs"], "every range at widths 16, 32 and 64", "Tests decompose a handful of ranges; unaligned ends and the full range are combinations they do not reach.",
 RG, [("split at the highest differing bit", "pkg/tree/id32/range32.go")], [("from,to", "bounds", "pkg/tree/id32/range32.go")], ["Range.IDs, Range.AppendIDs"], claimed=True)

prop("C13", "Id sets are exact: additions and removals act on the set of ids",
 "An id set built from additions and removals of identifiers, valid ranges and other sets contains exactly the identifiers that applying these operations in order leaves. Its ranges are sorted, do not touch or overlap, and cover exactly that set, and so do its prefixes. Building a set leaves the builder with the same content, and a set given out never changes.",
 H, "every sequence of additions and removals at widths 16, 32 and 64", "Tests build a few sets; touching, nested and extreme ranges are combinations they do not reach.",
 SET + RG, [("normalisation of pending ranges", "pkg/tree/id32/idset.go")], [("in,out", "pending ranges", "pkg/tree/id32/idset.go")], ["IDSetBuilder.AddId/RemoveId/AddRange/RemoveRange/AddSet/IPSet, IDSet.Ranges/IDs"], claimed=True)

prop("C14", "Taking a free prefix out of an id set returns part of the set",
 "Asking an id set for a free prefix of a given length (at most the width) yields a canonical prefix of that length that lies inside the set, and a new set that is the old one without it; the old set is unchanged. It fails exactly when no prefix of that length lies inside the set, and then returns the set unchanged.",
 ["inputs"], "every set and every length at widths 16, 32 and 64", "Tests take one or two prefixes.",
 SET + RG, [("best-fitting prefix search", "pkg/tree/id32/idset.go")], [("rr", "ranges of the set", "pkg/tree/id32/idset.go")], ["IDSet.RemoveFreePrefix"], claimed=True)

prop("C15", "The prefix tree stores values per prefix exactly",
 "After any history of set, add and delete calls on a prefix tree, each prefix holds exactly the values that history leaves for it: set replaces the prefix's first value or stores the value when it has none, add appends one, delete removes the matching ones. No other prefix gains, loses or changes a value, whatever nodes are split or merged inside.",
 H, "every history over every set of prefixes at widths 16, 32 and 64", "Node splits and merges depend on the order in which overlapping prefixes come and go; tests use a few prefixes.",
 TR, [("path-compressed binary trie with a free list", "pkg/tree/tree_manual.go")], [("nodes", "trie", "pkg/tree/tree.go"), ("tags", "values by node", "pkg/tree/tree.go")], ["Tree.Set/Add/Delete/DeleteWithBuffer/FindTags"])

prop("C16", "Iterating the prefix tree shows each value once, in prefix order",
 "Iterating the tree visits every prefix that holds a value exactly once, a shorter prefix before the longer ones it covers and otherwise in ascending order of their bits, and reports the prefix and values stored.",
 H, "every reachable tree at widths 16, 32 and 64", "Order and completeness depend on the shape that the history gave the tree.",
 TR, [("stack-based walk", "pkg/tree/tree.go")], [("nodes", "trie", "pkg/tree/tree.go")], ["TreeIterator.Next/Address/Tags"])

prop("C17", "A tree table's entries follow its claims, updates and releases",
 "In a tree table, claiming or updating an identifier succeeds exactly when its value is inside the table's space and its length does not exceed the width, and then exactly that prefix (the identifiers claimed have no bits beyond their length) holds an entry with the given labels. Releasing removes the entry of exactly that prefix and refuses only identifiers that could not be claimed. A lookup returns the entry last stored for exactly that prefix and fails when there is none; no other prefix is affected, and a failing call changes nothing.",
 H, "every history over every set of prefixes at widths 16, 32 and 64", "Tests claim a few ids.",
 TN + TR, [("upsert into the prefix tree", "pkg/tree/tree32/tree32.go")], [("tree", "prefix tree of entries", "pkg/tree/tree32/tree32.go")], ["Tree.ClaimID/Update/ReleaseID/Get"], claimed=True)

prop("C18", "A tree table's free claim never hands out a covered identifier",
 "A free claim hands out a full-length identifier inside the table's space that no claimed prefix covers, and stores the given labels for it alone. It fails exactly when every identifier of the space is covered by a claimed prefix, and then changes nothing.",
 H, "every set of claimed prefixes and every length at widths 16, 32 and 64", "Whether a hole is found depends on the whole pattern of claimed prefixes.",
 TN + TR + ["pkg/tree/id32/idset.go"], [("free set = space minus claimed prefixes", "pkg/tree/tree32/tree32.go")], [("tree", "prefix tree of entries", "pkg/tree/tree32/tree32.go")], ["Tree.ClaimFree"], claimed=True)

prop("C19", "A tree table's range claim claims exactly the range",
 "Claiming a range first-last succeeds exactly when the text is a valid range that lies inside the table's space. Then the labels given are stored for prefixes that together cover exactly the range; prefixes not inside the range keep their entries, and those inside it keep theirs unless the range's own prefixes replace them. When it fails it changes nothing.",
 H, "every range and every set of claimed prefixes at widths 16, 32 and 64", "Tests claim one range.",
 TN + TR, [("decompose the range and set each prefix", "pkg/tree/tree32/tree32.go")], [("tree", "prefix tree of entries", "pkg/tree/tree32/tree32.go")], ["Tree.ClaimRange"], claimed=True)

prop("C20", "A tree table's queries select exactly the matching prefixes",
 "The children of a prefix are exactly the claimed prefixes it strictly covers, its parents exactly the claimed prefixes that strictly cover it, and selection by labels returns exactly the entries whose labels match. The size is the number of claimed prefixes, the full listing and the iterator show each once in ascending order, and releasing by labels removes exactly the matching entries.",
 H, "every set of claimed prefixes and labels, every query, at widths 16, 32 and 64", "Tests query a few small trees.",
 TN + TR, [("filter over a full iteration", "pkg/tree/tree32/tree32.go")], [("tree", "prefix tree of entries", "pkg/tree/tree32/tree32.go")], ["Tree.Children/Parents/GetByLabel/GetAll/Size/ReleaseByLabel"], claimed=True)

prop("C21", "A clone of a tree table is equal and independent",
 "Cloning a tree table yields one with the same space and the same entries. No later change to either is visible in the other.",
 H, "every tree table and every history after the clone", "Tests never change both sides after a clone.",
 TN + TR, [("copy of nodes and tags", "pkg/tree/tree.go")], [("nodes,tags", "shared or copied storage", "pkg/tree/tree.go")], ["Tree.Clone"], claimed=True)

prop("C22", "Concurrent calls on one table are safe and atomic",
 "Calls on one table from any number of goroutines never race on its memory and never deadlock, and every change a call makes to the table is applied in one indivisible step. So two callers never get the same free id, and no call sees a half-done claim of another. (Walking the iterator of a tree table, which is documented as live, is excluded.)",
 ["schedules", "histories"], "every interleaving of public calls on one table of any kind", "Tests are single-threaded, and a schedule that interleaves inside a call, or queues a writer between two nested read locks, cannot be sampled reliably.",
 IDX + TT + IP + TN, [("one read-write lock per table, taken once per public call", "pkg/idxtable/table.go")], [("m/mu", "the lock", "pkg/idxtable/table.go")], ["all public methods of the tables"], claimed=True)

prop("C23", "Parsing an identifier range accepts and yields exactly what is written",
 "Parsing text of the form first-last yields the range with exactly these bounds when both are decimal numbers that fit the width, and fails otherwise.",
 ["inputs"], "every string, at widths 16, 32 and 64", "Tests parse a few strings.",
 RG, [("split at the dash and convert each side", "pkg/tree/id32/range32.go")], [], ["ParseRange"],
 na="the result depends on strings.IndexByte and strconv parsing of arbitrary text; the standard library is outside the reach of the contracts, so a proof would only restate an assumed contract of strconv")
