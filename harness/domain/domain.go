package domain

import (
	"strings"

	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
	"golang.org/x/net/publicsuffix"
)

func vxAlnum(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}

// vxLabels are the labels of a name.
func vxLabels(s string) (labels []string) {
	from := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '.' {
			labels = append(labels, s[from:i])
			from = i + 1
		}
	}
	return
}

// vxValid: labels of 1-63 letters, digits and inner hyphens; the first one of several may be a wildcard.
func vxValid(s string) bool {
	if len(s) > 255 {
		return false
	}
	labels := vxLabels(s)
	for i, l := range labels {
		if l == "*" && i == 0 && len(labels) > 1 {
			continue
		}
		if len(l) == 0 || len(l) > 63 {
			return false
		}
		for j := 0; j < len(l); j++ {
			if !vxAlnum(l[j]) && (l[j] != '-' || j == 0 || j == len(l)-1) {
				return false
			}
		}
	}
	return true
}

func vxIsTLD(s string) bool {
	suffix, icann := publicsuffix.PublicSuffix(s)
	return icann && suffix == s
}

// VxValid: exactly the well-formed names that are not public suffixes are valid.
func VxValid() {
	var s []byte
	for i, n := 0, zvx.Choose("length", zvx.Param("length", 4)+1); i < n; i++ {
		s = append(s, zvx.U8("byte"))
	}
	switch zvx.Choose("rest", 5) {
	case 1:
		s = append(s, ".com"...)
	case 2:
		s = append(s, ".co.uk"...)
	case 3: // long labels
		zvx.Assume(len(s) <= 2)
		s = append(s, strings.Repeat("a", zvx.Choose("label", 5)+59)...)
		s = append(s, ".com"...)
	case 4: // long names
		zvx.Assume(len(s) <= 2)
		for i := 0; i < 4; i++ {
			s = append(s, "."+strings.Repeat("a", 60)...)
		}
		s = append(s, "."+strings.Repeat("b", zvx.Choose("label", 5)+6)...)
	}
	name := string(s)
	want := vxValid(name)
	if want {
		want = !vxIsTLD(name)
	}
	zvx.Assert(IsValidDomain(name) == want, "a name is valid and not accepted, or the reverse")
	if want {
		zvx.Reach("valid")
	}
}

// vxName is a valid name of up to n labels before a suffix.
func vxName(n int) string {
	name := []string{"com", "co.uk", "a.com", "a.co.uk", "x.github.io", "b"}[zvx.Choose("suffix", 6)]
	for i, m := 0, zvx.Choose("labels", n+1); i < m; i++ {
		switch zvx.Choose("label", 3) {
		case 0:
			c := zvx.U8("byte")
			zvx.Assume(c >= 'a' && c <= 'e')
			name = string([]byte{c}) + "." + name
		case 1:
			name = "www." + name
		case 2:
			name = "a-" + "." + name
			name = "aa" + name[2:]
		}
	}
	if zvx.Choose("wildcard", 2) == 1 {
		name = "*." + name
	}
	return name
}

// vxStripped is the name that stands for the name: without a wildcard and www, if a domain remains.
func vxStripped(name string) string {
	name = strings.TrimPrefix(name, "*.")
	if rest := strings.TrimPrefix(name, "www."); !vxIsTLD(rest) {
		name = rest
	}
	return name
}

// VxParse: the names for which the map is asked are the domain and all its parents, and only those.
func VxParse() {
	name := vxName(zvx.Param("labels", 3))
	list, err := ParseDomainName(name)
	if vxIsTLD(name) || vxIsTLD(strings.TrimPrefix(name, "*.")) {
		zvx.Assert(err != nil && len(list) == 0, "the parents of a public suffix are asked for")
		return
	}
	zvx.Assert(err == nil, "a valid name is rejected")
	zvx.Assert(len(list) > 0 && list[len(list)-1] == vxStripped(name), "the name is not asked for")
	for i := 1; i < len(list); i++ {
		k := strings.IndexByte(list[i], '.')
		zvx.Assert(k > 0 && list[i][k+1:] == list[i-1], "the names are not each the parent of the next")
	}
	_, icann := publicsuffix.PublicSuffix(name)
	k := strings.IndexByte(list[0], '.')
	zvx.Assert(!vxIsTLD(list[0]), "a public suffix is asked for")
	zvx.Assert(!icann || k > 0 && vxIsTLD(list[0][k+1:]), "a parent of the domain is not asked for")
	zvx.Assert(icann || len(list) == 1, "names below a private suffix have no parents")
	zvx.Reach("parsed")
}

// VxAffected: each name is affected through itself or one of its parents, which is a parent of all
// names with the same registered domain.
func VxAffected() {
	var names []string
	for i, n := 0, zvx.Param("names", 5); i < n; i++ {
		name := []string{"a.com", "b.a.com", "b.co.uk"}[zvx.Choose("domain", 3)]
		c := zvx.U8("byte")
		zvx.Assume(c >= 'a' && c <= 'c')
		name = string([]byte{'x', c}) + "." + name
		names = append(names, name)
	}
	out := ExtractAffectedDomains(names)
	for _, a := range out {
		zvx.Assert(IsValidDomain(a), "an invalid name is affected")
		found := false
		for _, n := range names {
			found = found || n == a || strings.HasSuffix(n, "."+a)
		}
		zvx.Assert(found, "a domain is affected that is none of the names")
	}
	for _, n := range names {
		found := 0
		for _, a := range out {
			if n == a || strings.HasSuffix(n, "."+a) {
				found++
			}
		}
		zvx.Assert(found > 0, "a name is not affected")
	}
	zvx.Reach("affected")
}
