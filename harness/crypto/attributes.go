package crypto

import (
	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/zvx"
)

func vxLabel(name string) string {
	s := zvx.String(name, 1)
	zvx.Assume(zvx.Or(s[0] == '*', zvx.And(s[0] >= 'a', s[0] <= 'c')))
	return s
}

func vxLabels(name string, max int) []string {
	var r []string
	for i, n := 0, zvx.Choose(name+".n", max+1); i < n; i++ {
		r = append(r, vxLabel(name))
	}
	return r
}

// VxAttributes: what the attributes of a domain say about another domain.
func VxAttributes() {
	max := zvx.Param("labels", 1)
	a := common.PolicyAttributes{
		AllowedSubdomains:    vxLabels("allowed", max),
		DisallowedSubdomains: vxLabels("disallowed", max),
		ExcludedSubdomains:   vxLabels("excluded", max),
	}
	policy := []string{"p", "p.q", "p.q."}[zvx.Choose("policy", 3)]
	base := []string{"p", "p.q", "p.q"}
	_ = base
	d := policy
	if d[len(d)-1] == '.' {
		d = d[:len(d)-1]
	}
	// The domain: the policy's own, one below it, one further below, one beside it.
	var dom, label string
	label = vxLabel("label")
	applies := true
	switch zvx.Choose("domain", 7) {
	case 0:
		dom, applies = d, false
	case 1:
		dom = label + "." + d
	case 2:
		dom = vxLabel("sub") + "." + label + "." + d
	case 3:
		dom, applies = label+d, false
	case 4:
		dom, applies = label, false
		if len(d) == 1 {
			zvx.Assume(label != d)
		}
	case 5:
		dom, applies = label+"."+d+"."+vxLabel("top"), false
	case 6:
		dom = zvx.String("any", 2) + "." + label + "." + d // any characters
		zvx.Assume(dom[0] < 0x80 && dom[1] < 0x80)
	}
	if zvx.Choose("dot", 2) == 1 {
		dom += "."
	}
	got := a.CheckDomainValidity(policy, dom)
	in := func(l []string, x string) bool {
		r := false
		for _, s := range l {
			r = zvx.Or(r, zvx.EqBytes([]byte(s), []byte(x)))
		}
		return r
	}
	if !applies {
		zvx.Check(got == common.PolicyAttributeDomainNotApplicable, "attributes apply only to subdomains of their domain")
		zvx.Reach("not applicable")
		return
	}
	zvx.Check(got != common.PolicyAttributeDomainNotApplicable, "attributes apply to every subdomain of their domain")
	al, di, ex := in(a.AllowedSubdomains, label), in(a.DisallowedSubdomains, label), in(a.ExcludedSubdomains, label)
	wa, wd, we := in(a.AllowedSubdomains, "*"), in(a.DisallowedSubdomains, "*"), in(a.ExcludedSubdomains, "*")
	none := !zvx.Or(al, zvx.Or(di, ex))
	nowild := !zvx.Or(wa, zvx.Or(wd, we))
	valid := a.ValidateAttributes() == nil
	// Attributes that name a label once decide it.
	one := func(x, y, z bool) bool { return zvx.And(x, !zvx.Or(y, z)) }
	zvx.Check(zvx.Implies(one(al, di, ex), got == common.PolicyAttributeDomainAllowed), "an allowed subdomain is allowed")
	zvx.Check(zvx.Implies(one(di, al, ex), got == common.PolicyAttributeDomainDisallowed), "a disallowed subdomain is disallowed")
	zvx.Check(zvx.Implies(one(ex, di, al), got == common.PolicyAttributeDomainExcluded), "an excluded subdomain is excluded")
	zvx.Check(zvx.Implies(zvx.And(none, one(wa, wd, we)), got == common.PolicyAttributeDomainAllowed), "the wildcard of the allowed subdomains covers the others")
	zvx.Check(zvx.Implies(zvx.And(none, one(wd, wa, we)), got == common.PolicyAttributeDomainDisallowed), "the wildcard of the disallowed subdomains covers the others")
	zvx.Check(zvx.Implies(zvx.And(none, one(we, wd, wa)), got == common.PolicyAttributeDomainExcluded), "the wildcard of the excluded subdomains covers the others")
	zvx.Check(zvx.Implies(zvx.And(none, nowild), got == common.PolicyAttributeDomainAllowed), "a subdomain without attributes is allowed")
	zvx.Check(zvx.Implies(valid, !zvx.Or(zvx.And(al, di), zvx.Or(zvx.And(al, ex), zvx.And(di, ex)))), "valid attributes do not name a subdomain in two lists")
	zvx.Reach("judged")
}

// VxValidate: attributes are valid iff no CA and no label is named twice.
func VxValidate() {
	max := zvx.Param("validate", 2)
	var a common.PolicyAttributes
	lists := []*[]string{&a.AllowedSubdomains, &a.DisallowedSubdomains, &a.ExcludedSubdomains}
	for i, l := range lists {
		*l = vxLabels([]string{"allowed", "disallowed", "excluded"}[i], max)
	}
	a.AllowedCAs = vxLabels("cas", max)
	all := append(append(append([]string{}, a.AllowedSubdomains...), a.DisallowedSubdomains...), a.ExcludedSubdomains...)
	dup := false
	for i := range all {
		for j := range all[:i] {
			dup = zvx.Or(dup, all[i] == all[j])
		}
	}
	for i := range a.AllowedCAs {
		for j := range a.AllowedCAs[:i] {
			dup = zvx.Or(dup, a.AllowedCAs[i] == a.AllowedCAs[j])
		}
	}
	zvx.Check((a.ValidateAttributes() == nil) == !dup, "attributes are valid iff nothing is named twice")
}
