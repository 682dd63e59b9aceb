
UT = "./pkg/util"
UF = ["util/settings.go", "util/chains.go", "util/collections.go"]
prop("X01", "Settings of durations and times of day mean what they say",
 """A text is accepted as a duration if and only if it is a number with one unit that fits, with exactly this value; durations and times of the day are read back as they
 were written. The next time at a time of the day is at this time in UTC, is not in the past and at most a day ahead, in whatever time zone the machine is.""",
 ["inputs"], "durations: 2 arbitrary bytes or the numbers around the limits of each unit; times: every hour with 4 rests, 7 times of the clock, 3 dates, and the local date before, at and after the one in UTC",
 "Tests check some 15 texts, and times in the time zone of the test machine only.",
 ["pkg/util/duration.go", "pkg/util/duration_wrap.go", "pkg/util/time_wrap.go"],
 [("durations", "pkg/util/duration.go ParseDuration, FmtDuration"), ("times of the day", "pkg/util/time_wrap.go NewTimeOfDay, String, NextTimeOfDay")],
 observe=["util.ParseDuration", "TimeOfDayWrap.NextTimeOfDay"],
 harnesses=[
  h("VxDuration", UT, UF, "up to 2 arbitrary bytes (thorough 3) and 22 numbers, 12 units, 3 signs", {"params": {"length": 2}}, {"params": {"length": 3}, "sec": 600}),
  h("VxDurationText", UT, UF, "24 counts of 10 units, and the largest durations"),
  h("VxTimeOfDay", UT, UF, "hours up to 25, minutes and seconds from 57 to 61, 6 fractions of a second (thorough: symbolic)", None, {"params": {"symbolic": 1}, "sec": 600}),
  h("VxNext", UT, UF, "96 times of the day, 7 times of the clock, 3 dates, 3 relations of the local date", None, {"params": {"symbolic": 1}, "sec": 600}),
 ],
)
prop("X02", "Certificates and chains survive streams and unfolding",
 """Certificates that are written to a stream are read back complete and in order, however the stream is split and whatever is between them, and everything that is not
 a certificate and each failure of the stream is reported. Unfolding certificates with their chains yields each certificate with its identifier and the
 identifier of its parent, leaves first and only these with names; known ancestors end a chain without losing the link to them.""",
 ["inputs", "fault_sequences"], "every number of certificates up to 2, up to `cuts` splits of the stream, the listed disturbances; every shape of up to 2 leaves with chains of up to 3 arbitrary certificates",
 "Tests read one file at once, and unfold two fixed chains.",
 ["pkg/util/certReader.go", "pkg/util/certWriter.go", "pkg/util/certificate.go"],
 [("streams", "pkg/util/certReader.go Read, ReadAll; certWriter.go Write"), ("unfolding", "pkg/util/certificate.go UnfoldCerts, UnfoldCert")],
 observe=["CertReader.Read", "util.UnfoldCerts"],
 harnesses=[
  h("VxPEM", UT, UF, "up to 2 certificates, 1 (thorough 2) split at 8 positions, 4 disturbances, 3 ways to read, failure at the end", {"params": {"cuts": 1}}, {"params": {"cuts": 2}, "sec": 600}),
  h("VxUnfold", UT, UF, "up to 2 (thorough 3) leaves, chains of up to 3", {"params": {"leaves": 2, "chain": 3}}, {"params": {"leaves": 3, "chain": 3}, "sec": 600}),
  h("VxUnfoldKnown", UT, UF, "chains of up to 4 (thorough 6)", {"params": {"chain": 4}}, {"params": {"chain": 6}}),
 ],
 assumptions=["under the engine a certificate is anything that starts with byte 0x30; replays use real certificates"],
 outside=["PEM blocks of more than 1 MB"],
)
prop("X03", "Collections lose and invent no elements",
 """Removing duplicates keeps one element of each value together with its companions, removing indices removes exactly their elements, sorting keeps the elements, coalesced
 errors name each error once and are nil only if all are, logarithms are exact, and bundles of certificates are ordered by their first entry with files that are not
 bundles rejected.""",
 ["inputs"], "every content of slices of up to `length` elements with arbitrary values and every choice of indices",
 "Tests check some fixed slices.",
 ["pkg/util/deduplicateSlice.go", "pkg/util/slice.go", "pkg/util/sort.go", "pkg/util/errors.go", "pkg/util/math.go", "pkg/util/csv_files.go"],
 [("slices", "pkg/util/deduplicateSlice.go makeUnique; slice.go RemoveElementsFromSlice; sort.go Qsort"), ("bundles", "pkg/util/csv_files.go SortByBundleName, EstimateCertCount")],
 observe=["util.DeduplicateSlice", "util.RemoveElementsFromSlice", "util.ErrorsCoalesce"],
 harnesses=[
  h("VxDedup", UT, UF, "up to 4 (thorough 6) elements", {"params": {"length": 4}}, {"params": {"length": 6}, "sec": 300}),
  h("VxRemove", UT, UF, "up to 4 (thorough 6) elements", {"params": {"length": 4}}, {"params": {"length": 6}, "sec": 900}),
  h("VxSort", UT, UF, "up to 3 (thorough 5) elements, every choice of pivots", {"params": {"length": 3}}, {"params": {"length": 5}, "sec": 900}),
  h("VxErrors", UT, UF, "up to 3 (thorough 4) errors, also nil and coalesced ones", {"params": {"errors": 3}}, {"params": {"errors": 4}}),
  h("VxLog2", UT, UF, "every 64-bit number"),
  h("VxBundleNames", UT, UF, "up to 2 (thorough 3) names", {"params": {"bundles": 2}}, {"params": {"bundles": 3}, "sec": 300}),
 ],
)
