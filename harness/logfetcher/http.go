package logfetcher

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"encoding/json"
	"errors"
	"io"
	"math/big"
	"net/http"
	"strconv"
	"time"

	ct "github.com/google/certificate-transparency-go"
	"github.com/google/certificate-transparency-go/client"
	"github.com/google/certificate-transparency-go/jsonclient"
	"github.com/google/certificate-transparency-go/tls"
	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/google/certificate-transparency-go/x509/pkix"

	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

//vx:stub (*github.com/google/certificate-transparency-go/client.LogClient).GetRawEntries => vxGetRawEntries
//vx:stub (*github.com/google/certificate-transparency-go/client.LogClient).GetSTH => vxGetSTH
//vx:stub github.com/google/certificate-transparency-go.RawLogEntryFromLeaf => vxRawLogEntry
//vx:stub github.com/google/certificate-transparency-go/x509.ParseCertificate => vxParse

var errVx = errors.New("not available")

// vxServe is what the log answers to a request of the entries start to end.
var vxServe func(start, end int64) ([]int64, error)

// Under the engine a certificate in a file is its serial number and the time of its end.
func vxParseLocal(der []byte) (*ctx509.Certificate, error) {
	return &ctx509.Certificate{Raw: der, SerialNumber: big.NewInt(vxSerial(int64(der[1]), int(der[2]))), NotAfter: vxEnd(int64(der[3]))}, nil
}

func vxEnd(k int64) time.Time { return time.Unix(1000+k, 0) }

// Kinds of certificates: the ones of other kinds are not readable at all.
const (
	vxGood = iota
	vxOdd  // readable with a non-fatal error
	vxUnreadable
	vxUnreadableLeaf
	vxUnreadableChain
)

// vxKindOf is the kind of an entry of the log.
var vxKindOf func(n int64) int

// vxDepth is the number of certificates in the chain of an entry.
func vxDepth(n int64) int { return int(n) % 3 }

func vxGetRawEntries(c *client.LogClient, ctx context.Context, start, end int64) (*ct.GetEntriesResponse, error) {
	if start < 0 || start > end {
		return nil, errVx
	}
	ns, err := vxServe(start, end)
	if err != nil {
		return nil, err
	}
	r := &ct.GetEntriesResponse{}
	for _, n := range ns {
		r.Entries = append(r.Entries, ct.LeafEntry{LeafInput: []byte{byte(n), byte(vxKindOf(n))}})
	}
	return r, nil
}

func vxGetSTH(c *client.LogClient, ctx context.Context) (*ct.SignedTreeHead, error) {
	return nil, errVx
}

func vxRawLogEntry(index int64, e *ct.LeafEntry) (*ct.RawLogEntry, error) {
	n, kind := e.LeafInput[0], e.LeafInput[1]
	if kind == vxUnreadableLeaf {
		return nil, errVx
	}
	r := &ct.RawLogEntry{Index: index, Cert: ct.ASN1Cert{Data: []byte{n, 0, kind}}}
	for i := 1; i <= vxDepth(int64(n)); i++ {
		r.Chain = append(r.Chain, ct.ASN1Cert{Data: []byte{n, byte(i), kind}})
	}
	return r, nil
}

func vxParse(der []byte) (*ctx509.Certificate, error) {
	if len(der) == 4 {
		return vxParseLocal(der)
	}
	if len(der) != 3 {
		return nil, errVx
	}
	if der[1] == 0 && der[2] == vxUnreadable || der[1] == 1 && der[2] == vxUnreadableChain {
		return nil, errVx
	}
	c := &ctx509.Certificate{Raw: der, SerialNumber: big.NewInt(vxSerial(int64(der[0]), int(der[1])))}
	if der[1] == 0 && der[2] == vxOdd {
		return c, ctx509.NonFatalErrors{Errors: []error{errVx}}
	}
	return c, nil
}

func vxSerial(n int64, depth int) int64 { return 1 + n*10 + int64(depth) }

// ---- the log, natively ----

var vxKey *ecdsa.PrivateKey
var vxDERs = map[[3]int64][]byte{}

func vxDER(n int64, depth, kind int) []byte {
	if d := vxDERs[[3]int64{n, int64(depth), int64(kind)}]; d != nil {
		return d
	}
	if vxKey == nil {
		vxKey, _ = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	}
	if depth == 0 && kind == vxUnreadable || depth == 1 && kind == vxUnreadableChain {
		return []byte{0x30, 0x03, 1, 2, 3}
	}
	t := &ctx509.Certificate{SerialNumber: big.NewInt(vxSerial(n, depth)), Subject: pkix.Name{Organization: []string{"o"}},
		NotBefore: time.Unix(1, 0), NotAfter: time.Unix(4000000000, 0)}
	if depth == 0 && kind == vxOdd { // an empty list of authority information
		t.ExtraExtensions = []pkix.Extension{{Id: ctx509.OIDExtensionAuthorityInfoAccess, Value: []byte{0x30, 0}}}
	}
	der, err := ctx509.CreateCertificate(rand.Reader, t, t, &vxKey.PublicKey, vxKey)
	if err != nil {
		panic(err)
	}
	vxDERs[[3]int64{n, int64(depth), int64(kind)}] = der
	return der
}

func vxDERUntil(n int64, depth int, end time.Time) []byte {
	if vxKey == nil {
		vxKey, _ = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	}
	t := &ctx509.Certificate{SerialNumber: big.NewInt(vxSerial(n, depth)), Subject: pkix.Name{Organization: []string{"o"}},
		NotBefore: time.Unix(1, 0), NotAfter: end}
	der, err := ctx509.CreateCertificate(rand.Reader, t, t, &vxKey.PublicKey, vxKey)
	if err != nil {
		panic(err)
	}
	return der
}

func vxLeaf(n int64) ct.LeafEntry {
	kind := vxKindOf(n)
	if kind == vxUnreadableLeaf {
		return ct.LeafEntry{LeafInput: []byte{1, 2, 3}}
	}
	var chain ct.CertificateChain
	for i := 1; i <= vxDepth(n); i++ {
		chain.Entries = append(chain.Entries, ct.ASN1Cert{Data: vxDER(n, i, kind)})
	}
	leaf := ct.CreateX509MerkleTreeLeaf(ct.ASN1Cert{Data: vxDER(n, 0, kind)}, 1)
	in, err := tls.Marshal(*leaf)
	if err != nil {
		panic(err)
	}
	extra, err := tls.Marshal(chain)
	if err != nil {
		panic(err)
	}
	return ct.LeafEntry{LeafInput: in, ExtraData: extra}
}

type vxTransport struct{}

func (vxTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	start, _ := strconv.ParseInt(r.URL.Query().Get("start"), 10, 64)
	end, _ := strconv.ParseInt(r.URL.Query().Get("end"), 10, 64)
	ns, err := vxServe(start, end)
	if err != nil {
		return nil, err
	}
	var rsp ct.GetEntriesResponse
	for _, n := range ns {
		rsp.Entries = append(rsp.Entries, vxLeaf(n))
	}
	b, err := json.Marshal(rsp)
	if err != nil {
		panic(err)
	}
	return &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(b)), Request: r}, nil
}

func vxNewHttp(server, process int64) *HttpLogFetcher {
	f := &HttpLogFetcher{url: "https://log", serverBatchSize: server, processBatchSize: process}
	if zvx.Symbolic() {
		f.ctClient = &client.LogClient{}
	} else {
		c, err := client.New("https://log", &http.Client{Transport: vxTransport{}}, jsonclient.Options{})
		if err != nil {
			panic(err)
		}
		f.ctClient = c
	}
	return f
}

// vxExpect: the next entries of a result are the given ones.
func vxExpect(certs []ctx509.Certificate, chains [][]*ctx509.Certificate, from int64) int64 {
	zvx.Assert(len(certs) == len(chains), "there are not as many chains as certificates")
	for i := range certs {
		s := certs[i].SerialNumber.Int64()
		zvx.Assert(s == vxSerial(from, 0), "the entries of the log are not delivered in order, each one once")
		zvx.Assert(len(chains[i]) == vxDepth(from), "an entry is delivered with another chain")
		for j, c := range chains[i] {
			zvx.Assert(c.SerialNumber.Int64() == vxSerial(from, j+1), "an entry is delivered with another chain")
		}
		from++
	}
	return from
}

// vxPos is the position of an entry after the start (which is symbolic).
func vxPos(n, start int64, max int) int64 {
	for k := int64(0); k <= int64(max); k++ {
		if n == start+k {
			return k
		}
	}
	zvx.Assert(false, "entries are requested that were not asked for")
	return 0
}

// VxHttp: all entries that were asked for are delivered, in order, or the failure is reported.
func VxHttp() {
	max := zvx.Param("entries", 5)
	server, process := int64(1+zvx.Choose("server_batch", 3)), int64(1+zvx.Choose("process_batch", zvx.Param("process", 4)))
	f := vxNewHttp(server, process)
	start := zvx.I64("start")
	zvx.Assume(zvx.And(start >= 0, start < 1<<60))
	count := int64(zvx.Choose("entries", max+1))
	end := start + count - 1
	special, kind := int64(zvx.IntRange("special_entry", -1, max-1)), zvx.Choose("kind", 5)
	zvx.Assume((kind == vxGood) == (special < 0))
	zvx.Assume(special < count)
	if kind == vxUnreadableChain {
		zvx.Assume(special%3 != 0) // the others have no chain
	}
	vxKindOf = func(n int64) int {
		if n == special {
			return kind
		}
		return vxGood
	}
	failAt, failKind, calls := zvx.IntRange("failing_request", -1, max-1), 0, 0
	if failAt >= 0 {
		failKind = zvx.Choose("failure", 3)
	}
	failed := false
	vxServe = func(s, e int64) ([]int64, error) {
		zvx.Assert(zvx.And(s >= start, zvx.And(e <= end, s <= e)), "entries are requested that were not asked for")
		zvx.Assert(e-s < server, "the log is asked for more entries than it answers at once")
		p := vxPos(s, start, max)
		n := 1 + int64(zvx.Choose("served", int(vxPos(e-s, 0, max))+1))
		if calls++; calls-1 == failAt {
			failed = true
			switch failKind {
			case 0:
				return nil, errVx
			case 1:
				n = 0
			case 2:
				n = e - s + 2 // more than what was asked for
			}
		}
		var ns []int64
		for i := int64(0); i < n; i++ {
			ns = append(ns, p+i)
		}
		return ns, nil
	}
	f.StartFetching(start, end)
	next, reported := int64(0), false
	ctx := context.Background()
	for i := 0; f.NextBatch(ctx); i++ {
		zvx.Assert(!reported, "there is something after a failure")
		zvx.Assert(i <= max, "fetching does not end")
		certs, chains, excl, err := f.ReturnNextBatch()
		if err != nil {
			zvx.Assert(len(certs) == 0 && len(chains) == 0, "entries come with a failure")
			reported = true
			continue
		}
		zvx.Assert(excl == 0 && int64(len(certs)) <= process && len(certs) > 0, "a batch has another size")
		next = vxExpect(certs, chains, next)
	}
	f.StopFetching()
	unreadable := special >= 0 && kind != vxOdd
	if unreadable {
		zvx.Assert(next <= special, "an unreadable entry is delivered")
	}
	if failed {
		zvx.Assert(reported, "a failure of the log is not reported")
	}
	if reported {
		zvx.Assert(failed || unreadable, "a failure is reported that did not happen")
		zvx.Reach("failure")
	} else {
		zvx.Assert(next == count, "entries are missing, and no failure is reported")
		zvx.Reach("complete")
	}
}

// VxRestart: a fetcher that is started again delivers what is asked for then, whatever was left from before.
func VxRestart() {
	zvx.NoNative()
	zvx.Sched(zvx.Param("preemptions", 1))
	vxKindOf = func(n int64) int { return vxGood }
	f := vxNewHttp(1, 1)
	ctx := context.Background()
	max := zvx.Param("entries", 4)
	n := int64(1 + zvx.Choose("entries", max))
	start := zvx.I64("start")
	zvx.Assume(zvx.And(start >= 0, start < 1<<60))
	vxServe = func(s, e int64) ([]int64, error) {
		zvx.Yield()
		zvx.Assert(s == e, "the log is asked for more entries than it answers at once")
		return []int64{vxPos(s, start, max)}, nil
	}
	f.StartFetching(start, start+n-1)
	next := int64(0)
	k := int64(zvx.Choose("taken", int(n)+1))
	for next < k {
		zvx.Assert(f.NextBatch(ctx), "entries are missing")
		certs, chains, _, err := f.ReturnNextBatch()
		zvx.Assert(err == nil, "fetching fails")
		next = vxExpect(certs, chains, next)
	}
	if zvx.Choose("stopped", 2) == 1 {
		f.StopFetching()
	}
	// The consumer failed: it starts again from what it has.
	from := int64(zvx.Choose("from", int(next)+1))
	end := n - 1 + int64(zvx.Choose("grown", 2))
	f.StartFetching(start+from, start+end)
	next = from
	for i := 0; f.NextBatch(ctx); i++ {
		certs, chains, _, err := f.ReturnNextBatch()
		zvx.Assert(err == nil, "fetching fails")
		next = vxExpect(certs, chains, next)
		zvx.Assert(next <= end+1, "entries are delivered that were not asked for")
	}
	zvx.Assert(next == end+1 || from > end, "entries are missing after a restart")
	f.StopFetching()
	zvx.Reach("restarted")
}
