package logfetcher

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/base64"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"

	"github.com/netsec-ethz/fpki/pkg/util"
	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

//vx:stub path/filepath.WalkDir => vxWalkDir
//vx:stub (*github.com/netsec-ethz/fpki/pkg/util.GzFile).Open => vxOpenGz
//vx:stub (*github.com/netsec-ethz/fpki/pkg/util.GzFile).Close => vxCloseGz
//vx:stub os.Open => vxOpen
//vx:stub (*os.File).Read => vxRead
//vx:stub (*os.File).Close => vxClose

type vxFile struct {
	name, content string
}

var vxFiles []vxFile

type vxEntry struct {
	fs.DirEntry
	name string
}

func (e vxEntry) Name() string { return e.name }
func (e vxEntry) IsDir() bool  { return false }

func vxWalkDir(root string, fn fs.WalkDirFunc) error {
	for _, f := range vxFiles {
		if err := fn(root+"/"+f.name, vxEntry{name: f.name}, nil); err != nil {
			return err
		}
	}
	return nil
}

func vxContent(path string) (string, error) {
	zvx.Yield()
	for _, f := range vxFiles {
		if strings.HasSuffix(path, "/"+f.name) {
			return f.content, nil
		}
	}
	return "", errVx
}

func vxOpenGz(f *util.GzFile) (io.Reader, error) {
	s, err := vxContent(f.FileName)
	return strings.NewReader(s), err
}
func vxCloseGz(f *util.GzFile) error { return nil }

type vxOpened struct {
	f *os.File
	r *strings.Reader
}

var vxOpenFiles []vxOpened

func vxOpen(name string) (*os.File, error) {
	s, err := vxContent(name)
	if err != nil {
		return nil, err
	}
	f := new(os.File)
	vxOpenFiles = append(vxOpenFiles, vxOpened{f, strings.NewReader(s)})
	return f, nil
}
func vxRead(f *os.File, b []byte) (int, error) {
	for _, o := range vxOpenFiles {
		if o.f == f {
			return o.r.Read(b)
		}
	}
	return 0, errVx
}
func vxClose(f *os.File) error { return nil }

func vxLocalDER(n int64, depth int, end int64) []byte {
	if zvx.Symbolic() {
		return []byte{0x30, byte(n), byte(depth), byte(end)}
	}
	return vxDERUntil(n, depth, vxEnd(end))
}

// vxExpiry tells what the file and the certificate of an entry say about its end.
var vxExpiry func(n int64) (column, cert int64)

func vxRow(n int64) string {
	column, cert := vxExpiry(n)
	var chain []string
	for i := 1; i <= 1+vxDepth(n); i++ {
		chain = append(chain, base64.StdEncoding.EncodeToString(vxLocalDER(n, i, 0)))
	}
	return fmt.Sprintf("a,b,c,%s,%s,d,%d.0\n", base64.StdEncoding.EncodeToString(vxLocalDER(n, 0, cert)), strings.Join(chain, ";"), vxEnd(column).Unix())
}

func vxAddFile(first, last int64, gz bool) {
	f := vxFile{name: fmt.Sprintf("%d-%d.csv", first, last)}
	if gz {
		f.name = fmt.Sprintf("%d-%d.gz", first, last)
	}
	for n := first; n <= last; n++ {
		f.content += vxRow(n)
	}
	vxFiles = append(vxFiles, f)
}

func vxFolder() (string, func()) {
	if zvx.Symbolic() {
		return "/logs", func() {}
	}
	dir, err := os.MkdirTemp("", "vxlocal")
	if err != nil {
		panic(err)
	}
	for _, f := range vxFiles {
		var b bytes.Buffer
		if strings.HasSuffix(f.name, ".gz") {
			z := gzip.NewWriter(&b)
			z.Write([]byte(f.content))
			z.Close()
		} else {
			b.WriteString(f.content)
		}
		if err := os.WriteFile(filepath.Join(dir, f.name), b.Bytes(), 0600); err != nil {
			panic(err)
		}
	}
	return dir, func() { os.RemoveAll(dir) }
}

// vxTake takes the next batch: entries of the range that were not delivered before, with their chains.
func vxTake(f *LocalLogFetcher, got map[int64]bool, from, end int64) (excluded int) {
	certs, chains, excl, err := f.ReturnNextBatch()
	zvx.Assert(err == nil, "fetching fails")
	zvx.Assert(len(certs) == len(chains), "there are not as many chains as certificates")
	for i := range certs {
		s := certs[i].SerialNumber.Int64()
		n := (s - 1) / 10
		zvx.Assert(s == vxSerial(n, 0) && n >= from && n <= end, "an entry is delivered that was not asked for")
		zvx.Assert(!got[n], "an entry is delivered twice")
		got[n] = true
		zvx.Assert(len(chains[i]) == 1+vxDepth(n), "an entry is delivered with another chain")
		for j, c := range chains[i] {
			zvx.Assert(c.SerialNumber.Int64() == vxSerial(n, j+1), "an entry is delivered with another chain")
		}
	}
	return excl
}

// VxLocal: the entries of the files that continue the log are delivered, without the expired ones.
func VxLocal() {
	vxFiles, vxOpenFiles = nil, nil
	now := int64(zvx.IntRange("now", 0, 12))
	vxExpiry = func(n int64) (int64, int64) { return []int64{9, 4, 9, 7}[n%4], []int64{9, 9, 3, 7}[n%4] }
	// Consecutive ranges, some of which are missing.
	type rng struct{ first, last int64 }
	var have []rng
	next := int64(0)
	for i := 0; i < zvx.Param("files", 3); i++ {
		r := rng{next, next + int64(zvx.Choose("size", 2))}
		next = r.last + 1
		switch zvx.Choose("file", 3) {
		case 1:
			vxAddFile(r.first, r.last, false)
		case 2:
			vxAddFile(r.first, r.last, true)
		default:
			continue
		}
		have = append(have, r)
	}
	vxFiles = append(vxFiles, vxFile{name: "readme.txt"}, vxFile{name: "1.csv"})
	dir, remove := vxFolder()
	defer remove()
	max := int64(zvx.IntRange("max", 0, 7))
	f, err := NewLocalLogFetcher("u", dir, uint64(max))
	zvx.Assert(err == nil, "a local fetcher cannot be created")
	f.processBatchSize = int64(1 + zvx.Choose("batch", zvx.Param("batch", 1)))
	zvx.Assert(f.Initialize(vxEnd(now)) == nil, "the folder cannot be used")
	ctx := context.Background()
	last := int64(zvx.Choose("last", int(next)+1))
	state, err := f.GetCurrentState(ctx, State{Size: uint64(last)})
	zvx.Assert(err == nil, "there is no state")
	// the files that continue the log, up to the limit
	target := last
	for _, r := range have {
		if r.first == target && (target == last || r.last+1-last <= max) {
			target = r.last + 1
		} else if r.first >= target {
			break
		}
	}
	zvx.Assert(int64(state.Size) == target, "the log does not continue up to the end of the files within the limit")
	f.StartFetching(last, target-1)
	got, excluded := map[int64]bool{}, 0
	for f.NextBatch(ctx) {
		excluded += vxTake(f, got, last, target-1)
	}
	f.StopFetching()
	want := 0
	for n := last; n < target; n++ {
		if c, e := vxExpiry(n); c < now || e < now {
			want++
			zvx.Assert(!got[n], "an expired certificate is delivered")
		} else {
			zvx.Assert(got[n], "an entry is not delivered")
		}
	}
	zvx.Assert(excluded == want, "the number of excluded entries is wrong")
	zvx.Reach("delivered")
}

// VxLocalRestart: a fetcher that is started again delivers what is asked for then.
func VxLocalRestart() {
	zvx.NoNative()
	zvx.MaxSteps(3000000)
	zvx.Delays(zvx.Param("delays", 2))
	vxFiles, vxOpenFiles = nil, nil
	vxExpiry = func(n int64) (int64, int64) { return 9, 9 }
	n := int64(zvx.Param("entries", 2))
	for i := int64(0); i < n; i++ {
		vxAddFile(i, i, i%2 == 0)
	}
	ctx := context.Background()
	f, _ := NewLocalLogFetcher("u", "/logs", 100)
	f.processBatchSize = 1
	zvx.Assert(f.Initialize(vxEnd(5)) == nil, "the folder cannot be used")
	f.StartFetching(0, n-1)
	got := map[int64]bool{}
	for k := zvx.Choose("taken", int(n)+1); k > 0; k-- {
		zvx.Assert(f.NextBatch(ctx), "entries are missing")
		vxTake(f, got, 0, n-1)
	}
	zvx.Assert(f.Initialize(vxEnd(6)) == nil, "the folder cannot be used")
	f.StartFetching(0, n-1)
	got = map[int64]bool{}
	for f.NextBatch(ctx) {
		vxTake(f, got, 0, n-1)
	}
	zvx.Assert(len(got) == int(n), "entries are missing after a restart")
	zvx.Reach("restarted")
}
