package journal

import (
	"errors"
	"io"
	"os"
	"path/filepath"
	"strconv"

	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

const vxMax = 1<<63 - 1

func vxInterval(name string) Interval {
	i := Interval{Start: uint(zvx.U64(name + "_start")), End: uint(zvx.U64(name + "_end"))}
	zvx.Assume(i.Start <= i.End)
	zvx.Assume(i.End < vxMax)
	return i
}

// VxIntervals: the completed indices are exactly those of the completed files.
func VxIntervals() {
	var list []Interval
	var in []Interval
	n := zvx.IntRange("intervals", 0, zvx.Param("intervals", 3))
	for k := 0; k < n; k++ {
		i := vxInterval("i" + string(rune('0'+k)))
		in = append(in, i)
		c := CompletedIndices{"d": list}
		addCompletedInterval(c, "d", i)
		list = c["d"]
	}
	for k := range list {
		zvx.Assert(list[k].Start <= list[k].End, "an interval is inverted")
		zvx.Assert(k == 0 || list[k-1].End+1 < list[k].Start, "the intervals are not sorted, or can be joined")
	}
	p := uint(zvx.U64("index"))
	a, b := false, false
	for _, i := range in {
		a = a || i.Start <= p && p <= i.End
	}
	for _, i := range list {
		b = b || i.Start <= p && p <= i.End
	}
	zvx.Assert(a == b, "an index is completed without a file, or not completed in spite of one")
	q := vxInterval("q")
	// is q covered?
	pos, covered := q.Start, false
	for range in {
		for _, i := range in {
			if !covered && i.Start <= pos && pos <= i.End {
				pos = i.End + 1
				covered = pos > q.End
			}
		}
	}
	zvx.Assert(containsCompletedInterval(CompletedIndices{"d": list}, "d", q) == covered, "a file is taken for completed and is not, or the reverse")
	zvx.Assert(!containsCompletedInterval(CompletedIndices{"d": list}, "e", q), "a file of another log is taken for completed")
	if covered {
		zvx.Reach("covered")
	}
	// what is stored is what is read
	norm, err := normalizeCompletedIndices(CompletedIndices{"d": append([]Interval{}, in...)})
	zvx.Assert(err == nil && len(norm["d"]) == len(list), "reading the intervals changes them")
	for k := range list {
		zvx.Assert(norm["d"][k] == list[k], "reading the intervals changes them")
	}
}

// ---- a file system with one directory ----

//vx:stub os.Open => vxOpen
//vx:stub os.CreateTemp => vxCreateTemp
//vx:stub os.Rename => vxRename
//vx:stub os.Remove => vxRemove
//vx:stub os.Getwd => vxGetwd
//vx:stub (*os.File).Write => vxWrite
//vx:stub (*os.File).Sync => vxSync
//vx:stub (*os.File).Close => vxClose
//vx:stub (*os.File).Name => vxName
//vx:stub io.ReadAll => vxReadAll
//vx:stub github.com/netsec-ethz/fpki/cmd/ingest/journal.ListCsvFiles => vxList

type vxCrash struct{}

type vxFS struct {
	files   map[string][]byte
	open    map[*os.File]string
	pos     int  // operations so far
	crashAt int  // the process ends at this operation
	failAt  int  // this operation fails
	failed  bool // an operation failed
	dead    bool
	n       int
	gz, csv []string
}

var vxDisk *vxFS

var errVx = errors.New("the disk fails")

// step is called by every operation; partial tells that the operation may be half done.
func (d *vxFS) step() error {
	d.pos++
	if d.pos == d.crashAt {
		d.dead = true
		panic(vxCrash{})
	}
	if d.pos == d.failAt {
		d.failed = true
		return errVx
	}
	return nil
}

func vxGetwd() (string, error) { return "/wd", nil }

func vxOpen(name string) (*os.File, error) {
	b, ok := vxDisk.files[name]
	if !ok {
		return nil, &os.PathError{Op: "open", Path: name, Err: os.ErrNotExist}
	}
	if err := vxDisk.step(); err != nil {
		return nil, err
	}
	_ = b
	f := new(os.File)
	vxDisk.open[f] = name
	return f, nil
}

func vxCreateTemp(dir, pattern string) (*os.File, error) {
	if err := vxDisk.step(); err != nil {
		return nil, err
	}
	vxDisk.n++
	f := new(os.File)
	name := filepath.Join(dir, pattern+strconv.Itoa(vxDisk.n))
	vxDisk.files[name] = nil
	vxDisk.open[f] = name
	return f, nil
}

func vxWrite(f *os.File, b []byte) (int, error) {
	name, ok := vxDisk.open[f]
	zvx.Assert(ok, "a closed file is written")
	// half of it may be written
	vxDisk.files[name] = append(vxDisk.files[name], b[:len(b)/2]...)
	if err := vxDisk.step(); err != nil {
		return len(b) / 2, err
	}
	vxDisk.files[name] = append(vxDisk.files[name], b[len(b)/2:]...)
	return len(b), nil
}

func vxSync(f *os.File) error { return vxDisk.step() }

func vxClose(f *os.File) error {
	delete(vxDisk.open, f)
	return vxDisk.step()
}

func vxName(f *os.File) string { return vxDisk.open[f] }

func vxRename(from, to string) error {
	if err := vxDisk.step(); err != nil {
		return err
	}
	vxDisk.files[to] = vxDisk.files[from]
	delete(vxDisk.files, from)
	return nil
}

func vxRemove(name string) error {
	if err := vxDisk.step(); err != nil {
		return err
	}
	delete(vxDisk.files, name)
	return nil
}

func vxReadAll(r io.Reader) ([]byte, error) {
	if err := vxDisk.step(); err != nil {
		return nil, err
	}
	return append([]byte{}, vxDisk.files[vxDisk.open[r.(*os.File)]]...), nil
}

func vxList(string) ([]string, []string, error) { return vxDisk.gz, vxDisk.csv, nil }

var vxBundles = []string{"/in/log/bundled/0-9.gz", "/in/log/bundled/10-19.gz", "/in/log/bundled/20-29.gz"}

func vxNewDisk() {
	vxDisk = &vxFS{files: map[string][]byte{}, open: map[*os.File]string{}, gz: append([]string{}, vxBundles...)}
}

// vxRun runs the ingest of one batch after the other until the process ends. It returns the files
// whose batches were committed, and the one being committed when the process ended.
func vxRun(f func()) (crashed bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(vxCrash); !ok {
				panic(r)
			}
			crashed = true
		}
	}()
	f()
	return false
}

// VxJournal: after any crash or failure of the disk, the pending files are those not committed.
func VxJournal() {
	zvx.NoNative()
	vxNewDisk()
	d := vxDisk
	cfg := JobConfiguration{IngestFiles: true, Coalesce: true, UpdateSMT: true, FileBatch: 1}
	done := map[string]bool{}  // committed
	maybe := map[string]bool{} // the commit did not return, or returned an error
	sizes := map[int64]bool{0: true} // the last one committed, and those that may have been written
	order := zvx.Choose("first", len(vxBundles))
	runs := zvx.Param("runs", 2)
	faults := zvx.Param("faults", 1)
	for r := 0; r < runs; r++ {
		d.pos, d.crashAt, d.failAt, d.failed, d.dead = 0, 0, 0, false, false
		if faults > 0 && r < runs-1 {
			if k := zvx.Choose("fault", 3); k > 0 {
				at := zvx.IntRange("at", 1, zvx.Param("ops", 24))
				if k == 1 {
					d.crashAt = at
				} else {
					d.failAt = at
				}
				faults--
			}
		}
		vxRun(func() {
			j, err := NewJournal("/j/journal.json", cfg, "/in/log")
			if err != nil {
				zvx.Assert(d.failed, "the journal cannot be read after a crash")
				return
			}
			check := func() {
				pend, err := j.PendingFiles()
				zvx.Assert(err == nil, "the pending files cannot be listed")
				k := 0
				for _, f := range vxBundles {
					listed := k < len(pend) && pend[k] == f
					if listed {
						k++
					}
					zvx.Assert(!listed || !done[f], "a completed file is pending again")
					zvx.Assert(listed || done[f] || maybe[f], "a file that was not completed is not pending")
				}
				zvx.Assert(k == len(pend), "another file is pending")
				s := j.Jobs[len(j.Jobs)-1].RecordedCTLogSize
				zvx.Assert(sizes[s], "another CT log size is recorded")
				if len(pend) < len(vxBundles) {
					zvx.Reach("completed")
				}
			}
			check()
			if r == runs-1 {
				return
			}
			for k := 0; k < 2; k++ {
				f := vxBundles[(order+k)%len(vxBundles)]
				maybe[f] = true
				if err := j.CommitProgress([]string{f}, true, true); err != nil {
					zvx.Assert(d.failed, "committing fails")
					break
				}
				done[f] = true
				size := int64(100*r + 10*k + 10)
				sizes[size] = true
				if err := j.CommitCTLogSize(size); err != nil {
					zvx.Assert(d.failed, "committing fails")
					break
				}
				sizes = map[int64]bool{size: true}
			}
			err = j.Close()
			zvx.Assert(err == nil || d.failed, "closing fails")
			if err == nil {
				err = j.CommitProgress([]string{vxBundles[0]}, true, true)
				zvx.Assert(err != nil, "a closed journal is written")
			}
		})
	}
	zvx.Reach("restarted")
}
