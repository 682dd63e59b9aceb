package responder

import (
	"strings"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/google/certificate-transparency-go/x509/pkix"
	"github.com/netsec-ethz/fpki/pkg/domain"
	"github.com/netsec-ethz/fpki/pkg/util"
	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

func vxHostName(n int) string {
	name := []string{"com", "co.uk", "a.com", "x.github.io", "b"}[zvx.Choose("suffix", 5)]
	for i, m := 0, zvx.Choose("labels", n)+1; i < m; i++ {
		switch zvx.Choose("label", 3) {
		case 0:
			c := zvx.U8("byte")
			zvx.Assume(c >= 'a' && c <= 'z' || c >= '0' && c <= '9')
			name = string([]byte{c}) + "." + name
		case 1:
			name = "www." + name
		case 2:
			name = "Mail." + name
		}
	}
	return name
}

// VxLookup: a certificate is stored under one of the names for which the responder looks when it is
// asked for a name that the certificate is valid for.
func VxLookup() {
	name := vxHostName(zvx.Param("labels", 2))
	host := name
	wildcard := zvx.Choose("wildcard", 2) == 1
	if wildcard {
		c := zvx.U8("host")
		zvx.Assume(c >= 'a' && c <= 'z')
		host, name = string([]byte{c})+"."+name, "*."+name
	}
	cert := &ctx509.Certificate{}
	switch zvx.Choose("field", 3) {
	case 0:
		cert.Subject = pkix.Name{CommonName: name}
	case 1:
		cert.DNSNames = []string{name, "other.net"}
	case 2:
		cert.Subject = pkix.Name{CommonName: "other.net"}
		cert.DNSNames = []string{"other.org", name}
	}
	lower := strings.ToLower(host)
	asked, err := domain.ParseDomainName(lower)
	if err != nil {
		return // nothing is ever returned for this name
	}
	found := false
	for _, s := range util.ExtractCertDomains(cert) {
		for _, a := range asked {
			found = found || s == a
		}
	}
	switch {
	case wildcard:
		zvx.Assert(found, "a certificate with a wildcard is not found under the names it covers")
	case lower != host:
		zvx.Assert(found, "a certificate whose name has upper case letters is not found")
	case strings.HasPrefix(name, "www."):
		zvx.Assert(found, "a certificate of a name that starts with www is not found")
	default:
		zvx.Assert(found, "a certificate is not found under its name")
	}
	zvx.Reach("asked")
}
