package updater

import (
	"bytes"
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"runtime"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/statistics"
	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

//vx:stub github.com/netsec-ethz/fpki/pkg/util/noallocs.CreateTempFile => vxCreateTemp
//vx:stub github.com/netsec-ethz/fpki/pkg/util/noallocs.Open => vxOpenFile
//vx:stub github.com/netsec-ethz/fpki/pkg/util/noallocs.Write => vxWriteFile
//vx:stub github.com/netsec-ethz/fpki/pkg/util/noallocs.Close => vxCloseFile
//vx:stub os.Remove => vxRemoveFile

var errVxManager = errors.New("it fails")

// vxFile is a temporary file; its name is kept in storage of its creator while it exists.
type vxFile struct {
	name    string
	storage *byte
	data    []byte
	open    bool
}

var vxTmp []*vxFile // existing files
var vxTmpCount int  // files created so far
var vxFDs []*vxFile // by descriptor

func vxCreateTemp(storage []byte, prefix, suffix string) (string, error) {
	for _, f := range vxTmp {
		zvx.Assert(f.storage != &storage[0], "the name of a file that is in use is overwritten")
	}
	vxTmpCount++
	f := &vxFile{name: fmt.Sprintf("%s%d%s", prefix, vxTmpCount, suffix), storage: &storage[0]}
	vxTmp = append(vxTmp, f)
	return f.name, nil
}

func vxFileOf(name string) *vxFile {
	for _, f := range vxTmp {
		if f.name == name {
			return f
		}
	}
	return nil
}

func vxOpenFile(storage []byte, name string) (int, error) {
	f := vxFileOf(name)
	zvx.Assert(f != nil, "a file that does not exist is opened")
	f.open = true
	vxFDs = append(vxFDs, f)
	return len(vxFDs) - 1, nil
}

func vxWriteFile(fd int, data []byte) error {
	zvx.Assert(vxFDs[fd].open, "a closed file is written")
	vxFDs[fd].data = append(vxFDs[fd].data, data...)
	return nil
}

func vxCloseFile(fd int) error {
	vxFDs[fd].open = false
	return nil
}

func vxRemoveFile(name string) error {
	for i, f := range vxTmp {
		if f.name == name {
			vxTmp = append(vxTmp[:i:i], vxTmp[i+1:]...)
			return nil
		}
	}
	return errors.New("no such file")
}

// vxLoadData reads rows like the LOAD DATA statements: columns end with a comma, rows with a newline;
// a column may be in double quotes (doubled inside), a backslash escapes the next character.
func vxLoadData(b []byte) (rows [][][]byte) {
	for len(b) > 0 {
		var row [][]byte
		for end := false; !end; {
			col, quoted := []byte{}, len(b) > 0 && b[0] == '"'
			enclosed := quoted
			if quoted {
				b = b[1:]
			}
			for end = true; len(b) > 0; {
				c := b[0]
				b = b[1:]
				if c == '\\' && len(b) > 0 {
					e := b[0]
					b = b[1:]
					switch e {
					case '0':
						e = 0
					case 'b':
						e = '\b'
					case 'n':
						e = '\n'
					case 'r':
						e = '\r'
					case 't':
						e = '\t'
					case 'Z':
						e = 26
					}
					col = append(col, e)
					continue
				}
				if quoted {
					if c == '"' && len(b) > 0 && b[0] == '"' {
						b = b[1:]
					} else if c == '"' && (len(b) == 0 || b[0] == ',' || b[0] == '\n') {
						quoted = false
						continue
					}
					col = append(col, c)
					continue
				}
				if c == ',' {
					end = false
					break
				}
				if c == '\n' {
					break
				}
				col = append(col, c)
			}
			if !enclosed && string(col) == "NULL" {
				col = nil
			}
			row = append(row, col)
		}
		rows = append(rows, row)
	}
	return
}

func vxID(b []byte) (id common.SHA256Output) {
	d, err := base64.StdEncoding.DecodeString(string(b))
	zvx.Assert(err == nil && len(d) == 32, "a row has an invalid identifier")
	copy(id[:], d)
	return
}

// vxTables is a database with the rows that were loaded.
type vxTables struct {
	db.Conn
	certs       []Certificate
	names       []DirtyDomain // domains
	assoc       []DirtyDomain // domain_certs
	dirty       []common.SHA256Output
	calls, fail int
	failed      bool
}

func (d *vxTables) load(filename string, columns int) ([][][]byte, error) {
	f := vxFileOf(filename)
	zvx.Assert(f != nil && !f.open, "a file is inserted that does not exist or is not closed")
	d.calls++
	if d.calls-1 == d.fail {
		d.failed = true
		return nil, errVxManager
	}
	runtime.Gosched()
	rows := vxLoadData(f.data)
	for _, r := range rows {
		zvx.Assert(len(r) == columns, "a row has a wrong number of columns")
	}
	return rows, nil
}

func (d *vxTables) InsertCsvIntoCerts(_ context.Context, filename string) error {
	rows, err := d.load(filename, 4)
	for _, r := range rows {
		c := Certificate{CertID: vxID(r[0])}
		if len(r[1]) > 0 {
			p := vxID(r[1])
			c.ParentID = &p
		}
		var e error
		c.NotAfter, e = time.Parse(time.DateTime, string(r[2]))
		zvx.Assert(e == nil, "a row has an invalid expiration")
		c.Raw, e = base64.StdEncoding.DecodeString(string(r[3]))
		zvx.Assert(e == nil, "a row has an invalid payload")
		d.certs = append(d.certs, c)
	}
	return err
}

func (d *vxTables) InsertCsvIntoDirty(_ context.Context, filename string) error {
	rows, err := d.load(filename, 1)
	for _, r := range rows {
		d.dirty = append(d.dirty, vxID(r[0]))
	}
	return err
}

func (d *vxTables) InsertCsvIntoDomains(_ context.Context, filename string) error {
	rows, err := d.load(filename, 2)
	for _, r := range rows {
		d.names = append(d.names, DirtyDomain{DomainID: vxID(r[0]), Name: string(r[1])})
	}
	return err
}

func (d *vxTables) InsertCsvIntoDomainCerts(_ context.Context, filename string) error {
	rows, err := d.load(filename, 2)
	for _, r := range rows {
		d.assoc = append(d.assoc, DirtyDomain{DomainID: vxID(r[0]), CertID: vxID(r[1])})
	}
	return err
}

func vxSamePtr(a, b *common.SHA256Output) bool {
	return a == nil && b == nil || a != nil && b != nil && *a == *b
}

// check: the certificates are stored with their domains, which are dirty. It reports whether this is
// so for domains that the manager had seen before, too.
func (d *vxTables) check(certs []Certificate, last int) (assocs, dirties bool) {
	assocs, dirties = true, true
	first := map[string]int{} // position of the first certificate of a domain
	some := map[string]bool{} // the domain is associated to one of its certificates
	for i, c := range certs {
		n := 0
		for _, r := range d.certs {
			if r.CertID == c.CertID {
				zvx.Assert(vxSamePtr(r.ParentID, c.ParentID) && r.NotAfter.Equal(c.NotAfter) && bytes.Equal(r.Raw, c.Raw), "a certificate is stored with content of another one")
				n++
			}
		}
		zvx.Assert(n > 0, "a certificate is not stored")
		for _, name := range c.Names {
			if _, ok := first[name]; !ok {
				first[name] = i
			}
			id := common.SHA256Hash32Bytes([]byte(name))
			found, assoc, dirty := false, false, false
			for _, r := range d.names {
				found = found || r.DomainID == id && r.Name == name
			}
			for _, r := range d.assoc {
				assoc = assoc || zvx.And(r.DomainID == id, r.CertID == c.CertID)
			}
			for _, r := range d.dirty {
				dirty = dirty || r == id
			}
			zvx.Assert(found, "a domain of a certificate is not stored")
			some[name] = some[name] || assoc
			assocs = assocs && assoc
			if i >= last && first[name] >= last {
				zvx.Assert(dirty, "a domain with a new certificate is not part of the next map update")
			} else if i >= last {
				dirties = dirties && dirty
			}
		}
	}
	for name := range first {
		zvx.Assert(some[name], "a domain is not associated to any of its certificates")
	}
	// Nothing is stored that was not passed.
	for _, r := range d.assoc {
		found := false
		for _, c := range certs {
			for _, name := range c.Names {
				found = found || zvx.And(r.CertID == c.CertID, r.DomainID == common.SHA256Hash32Bytes([]byte(name)))
			}
		}
		zvx.Assert(found, "a certificate is associated to a domain that it does not have")
	}
	return
}

// vxCert is one of the certificates i: its fields depend on i and on the first byte of its ID.
func vxManagerCert(i int) Certificate {
	c := Certificate{}
	c.CertID[0], c.CertID[5] = zvx.U8("id"), byte(i+1)
	c.Raw = []byte{byte(i), c.CertID[0]}
	c.NotAfter = time.Date(2024, 2, 3, 4, 5, i, 0, time.UTC)
	if i&1 == 1 {
		c.ParentID = &common.SHA256Output{c.CertID[0], 7}
		c.NotAfter = time.Date(2024, 2, 3, 4, 5, i, 0, time.FixedZone("", 3600))
	}
	c.Names = [][]string{{"a.com"}, {"b.com", "a.com"}, {}}[zvx.Choose("names", 3)]
	return c
}

// VxManager: what a manager is given is stored, in any number of workers and batches.
func VxManager() {
	zvx.NoNative()
	zvx.Delays(zvx.Param("delays", 0))
	vxTmp, vxTmpCount, vxFDs = nil, 0, nil
	ctx := context.Background()
	conn := &vxTables{fail: zvx.IntRange("failing_insertion", -1, zvx.Param("ops", 4)-1)}
	workers := zvx.IntRange("workers", 1, zvx.Param("workers", 2))
	batch := zvx.IntRange("batch", 1, zvx.Param("batch", 2))
	m, err := NewManager(workers, conn, batch, statistics.NewStatistics(time.Hour, nil))
	zvx.Assert(err == nil, "creating the manager fails")
	n, all := zvx.Param("certs", 2), []Certificate{}
	assocs, dirties := true, true
	for run := 0; run < zvx.Param("runs", 1); run++ {
		var certs []Certificate
		for i := 0; i < n; i++ {
			certs = append(certs, vxManagerCert(run*n+i))
		}
		if len(certs) > 1 && zvx.Bool("repeated") {
			certs[len(certs)-1] = certs[0]
		}
		conn.dirty = nil // they are part of a map update
		m.Resume(ctx)
		done := make(chan error, 1)
		go func() { done <- m.Wait(ctx) }()
		closed := false
	send:
		for _, c := range certs {
			select {
			case m.IncomingCertChan <- c:
			case err := <-done:
				done <- err
				closed = true
				break send
			}
		}
		if !closed {
			m.Stop()
		}
		err := <-done
		if conn.failed {
			zvx.Assert(errors.Is(err, errVxManager), "the failure of an insertion is not reported")
			zvx.Reach("failure")
			return
		}
		zvx.Assert(err == nil, "a failure is reported that did not happen")
		all = append(all, certs...)
		a, d := conn.check(all, len(all)-len(certs))
		assocs, dirties = assocs && a, dirties && d
		zvx.Assert(len(vxTmp) == 0, "a temporary file is left")
		zvx.Reach("stored")
	}
	if !dirties && !zvx.Bool("associations") {
		assocs = true // report the other one
	}
	zvx.Assert(assocs, "a certificate is not associated to a domain that was seen before")
	zvx.Assert(dirties, "a domain with a new certificate that was seen before the last map update is not part of the next one")
}

// VxCsv: the rows of the files for the database are read as they were meant, whatever the names of
// the domains are (they come from certificates and can have any byte).
func VxCsv() {
	zvx.NoNative()
	vxTmp, vxTmpCount, vxFDs = nil, 0, nil
	var name []byte
	for i, n := 0, zvx.IntRange("length", 0, zvx.Param("length", 3)); i < n; i++ {
		name = append(name, zvx.U8("byte"))
	}
	domains := []DirtyDomain{
		{DomainID: common.SHA256Output{zvx.U8("domain"), 1}, CertID: common.SHA256Output{zvx.U8("cert"), 2}, Name: string(name)},
		{DomainID: common.SHA256Output{zvx.U8("domain"), 3}, CertID: common.SHA256Output{zvx.U8("cert"), 4}, Name: "a.com"},
	}
	want := append([]DirtyDomain{}, domains...)
	conn, ctx, storage := &vxTables{fail: -1}, context.Background(), CreateStorage(2, 2, IdBase64Len, DomainNameLen)
	names := createFilepathRingCache()
	file, err := CreateCsvDomains(storage, names.Rotate(), domains)
	zvx.Assert(err == nil && conn.InsertCsvIntoDomains(ctx, file) == nil, "the domains are not inserted")
	file, err = CreateCsvDomainCerts(storage, names.Rotate(), domains)
	zvx.Assert(err == nil && conn.InsertCsvIntoDomainCerts(ctx, file) == nil, "the certificates of the domains are not inserted")
	file, err = CreateCsvDirty(CreateStorage(2, 1, IdBase64Len), names.Rotate(), domains)
	zvx.Assert(err == nil && conn.InsertCsvIntoDirty(ctx, file) == nil, "the dirty domains are not inserted")
	zvx.Assert(len(conn.names) == 2 && len(conn.assoc) == 2 && len(conn.dirty) == 2, "not one row per domain is stored")
	for i, d := range want {
		zvx.Assert(conn.names[i].DomainID == d.DomainID && conn.names[i].Name == d.Name, "a domain is stored with another name")
		zvx.Assert(conn.assoc[i].DomainID == d.DomainID && conn.assoc[i].CertID == d.CertID, "a domain is stored with another certificate")
		zvx.Assert(conn.dirty[i] == d.DomainID, "another domain is dirty")
	}
	zvx.Reach("rows")
}
