package util

import (
	"errors"
	"fmt"
	"strings"

	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

// VxDedup: exactly one of each group of equal elements remains, with its companions.
func VxDedup() {
	n := zvx.Choose("length", zvx.Param("length", 4)+1)
	var a, keep []uint8
	var b, c []int
	for i := 0; i < n; i++ {
		a = append(a, zvx.U8("element"))
		b = append(b, i)
		c = append(c, i*10)
	}
	keep = append(keep, a...)
	if zvx.Choose("storage", 2) == 0 {
		DeduplicateSlice(WithSlice(a), Wrap(&a), Wrap(&b), Wrap(&c))
	} else {
		DeduplicateSliceWithStorage(map[uint8]struct{}{keepFirst(keep): {}}, WithSlice(a), Wrap(&a), Wrap(&b), Wrap(&c))
	}
	zvx.Assert(len(a) == len(b) && len(b) == len(c), "the slices differ in length")
	for i := range a {
		zvx.Assert(b[i] >= 0 && b[i] < n && a[i] == keep[b[i]] && c[i] == b[i]*10, "an element has other companions")
		for j := 0; j < i; j++ {
			zvx.Assert(a[i] != a[j], "a duplicate remains")
		}
	}
	for i := range keep {
		found := false
		for j := range a {
			found = zvx.Or(found, a[j] == keep[i])
		}
		zvx.Assert(found, "an element is lost")
	}
	zvx.Reach("deduplicated")
}

func keepFirst(a []uint8) uint8 {
	if len(a) == 0 {
		return 0
	}
	return a[0]
}

// VxRemove: exactly the elements at the indices are removed.
func VxRemove() {
	n := zvx.Choose("length", zvx.Param("length", 5)) + 1
	var s, indices []int
	removed := make([]bool, n)
	for i := 0; i < n; i++ {
		s = append(s, i)
	}
	for i, m := 0, zvx.Choose("indices", n+1); i < m; i++ {
		k := zvx.IntRange("index", 0, n-1)
		for _, j := range indices {
			zvx.Assume(j != k)
		}
		indices = append(indices, k)
	}
	for _, k := range indices {
		for i := range removed {
			if i == k {
				removed[i] = true
			}
		}
	}
	RemoveElementsFromSlice(&s, indices)
	zvx.Assert(len(s) == n-len(indices), "another number of elements is removed")
	seen := make([]bool, n)
	for _, e := range s {
		zvx.Assert(e >= 0 && e < n && !removed[e] && !seen[e], "an element that was to be removed remains or another one is lost")
		seen[e] = true
	}
	zvx.Reach("removed")
}

// VxSort: sorting keeps the elements, in order.
func VxSort() {
	var a, keep []uint8
	for i, n := 0, zvx.Choose("length", zvx.Param("length", 4)+1); i < n; i++ {
		a = append(a, zvx.U8("element"))
	}
	keep = append(keep, a...)
	a = Qsort(a)
	zvx.Assert(len(a) == len(keep), "elements are lost")
	for i := range a {
		zvx.Assert(i == 0 || a[i-1] <= a[i], "the elements are not sorted")
		na, nk := 0, 0
		for j := range a {
			na += zvx.IteInt(a[j] == a[i], 1, 0)
			nk += zvx.IteInt(keep[j] == a[i], 1, 0)
		}
		zvx.Assert(na == nk, "an element changes")
	}
	zvx.Reach("sorted")
}

// VxErrors: the coalesced error is nil if and only if all are, and names each of them once.
func VxErrors() {
	var errs []error
	var msgs []string
	sentinel := errors.New("a")
	for i, n := 0, zvx.Choose("errors", zvx.Param("errors", 3)+1); i < n; i++ {
		switch zvx.Choose("error", 5) {
		case 0:
			errs = append(errs, nil)
		case 1:
			errs, msgs = append(errs, sentinel), append(msgs, "a")
		case 2:
			errs, msgs = append(errs, errors.New("b")), append(msgs, "b")
		case 3:
			errs, msgs = append(errs, ErrorsCoalesce(errors.New("b"), sentinel, errors.New("c"))), append(msgs, "a", "b", "c")
		case 4:
			errs = append(errs, ErrorsCoalesce(nil, nil))
		}
	}
	err := ErrorsCoalesce(errs...)
	zvx.Assert((err == nil) == (len(msgs) == 0), "errors without an error, or the reverse")
	if err == nil {
		return
	}
	text, a := err.Error(), false
	distinct := map[string]bool{}
	for _, m := range msgs {
		distinct[m] = true
		a = a || m == "a"
	}
	zvx.Assert(errors.Is(err, sentinel) == a, "an error is not found in the coalesced one")
	if len(distinct) == 1 {
		zvx.Assert(text == msgs[0], "the text of a single error changes")
	} else {
		lines := strings.Split(text, "\n")
		zvx.Assert(len(lines) == len(distinct)+1, "an error is repeated or lost")
		for _, l := range lines[1:] {
			zvx.Assert(distinct[l], "another error is listed")
		}
		zvx.Assert(lines[0] == fmt.Sprintf("multiple (%d) errors:", len(distinct)), "another number of errors is given")
	}
	zvx.Reach("coalesced")
}

// VxLog2: the logarithm is the smallest exponent whose power is not below the number.
func VxLog2() {
	x := zvx.U64("number")
	l := Log2(uint(x))
	zvx.Assert(l <= 64, "the logarithm is too large")
	if x > 0 {
		zvx.Assert(l == 64 || uint64(1)<<l >= x, "the logarithm is too small")
		zvx.Assert(l == 0 || uint64(1)<<(l-1) < x, "the logarithm is too large")
	}
	zvx.Reach("logarithm")
}

// VxBundleNames: bundles are sorted by their first entry and other names are rejected.
func VxBundleNames() {
	type bundle struct {
		name string
		from int
	}
	var names []string
	var all []bundle
	ok := true
	for i, n := 0, zvx.Choose("bundles", zvx.Param("bundles", 2)+1); i < n; i++ {
		from := 0
		name := ""
		for j, m := 0, zvx.Choose("digits", 2)+1; j < m; j++ {
			c := zvx.U8("digit")
			zvx.Assume(c >= '0' && c <= '9')
			name += string([]byte{c})
			from = from*10 + int(c-'0')
		}
		switch zvx.Choose("form", 4) {
		case 0:
			name = "/dir/" + name + "-99.gz"
		case 1:
			name = name + "-100000.csv"
		case 2:
			name, ok = name+".gz", false
		case 3:
			name = "12-3/" + name + "-7.gz"
			if from > 7 {
				ok = false
			}
		}
		names = append(names, name)
		all = append(all, bundle{name, from})
	}
	err := SortByBundleName(names)
	zvx.Assert((err == nil) == ok, "a name that is not of a bundle is accepted, or the reverse")
	if err != nil {
		return
	}
	last := -1
	for i, name := range names {
		for j := 0; j < len(all); j++ {
			if all[j].name == name {
				zvx.Assert(all[j].from >= last, "the bundles are not sorted")
				last = all[j].from
				all = append(all[:j], all[j+1:]...)
				break
			}
		}
		zvx.Assert(len(all) == len(names)-1-i, "a bundle is lost")
		first, err := CsvFilenameToFirstIndex(name)
		zvx.Assert(err == nil && int(first) == last, "the first entry of a bundle is another one")
		count, err := EstimateCertCount(name)
		end := 100000
		if strings.HasSuffix(name, "-7.gz") {
			end = 7
		} else if strings.HasSuffix(name, "-99.gz") {
			end = 99
		}
		zvx.Assert(err == nil && int(count) == end-last+1, "the size of a bundle is another one")
	}
	zvx.Reach("sorted")
}
