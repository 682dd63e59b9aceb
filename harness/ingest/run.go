package main

import (
	"context"
	"errors"
	"os"
	"path/filepath"

	"github.com/netsec-ethz/fpki/cmd/ingest/journal"
	"github.com/netsec-ethz/fpki/pkg/statistics"
	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

//vx:stub os.Open => vxOpen
//vx:stub os.Getwd => vxGetwd
//vx:stub (*github.com/netsec-ethz/fpki/cmd/ingest/journal.Journal).writeLocked => vxWriteLocked
//vx:stub (*github.com/netsec-ethz/fpki/cmd/ingest/journal.Journal).readAndClose => vxReadAndClose
//vx:stub github.com/netsec-ethz/fpki/cmd/ingest/journal.ListCsvFiles => vxListFiles

var vxSaved []journal.Job // the journal file
var vxWrites, vxWriteFails int
var vxHasJournal bool
var vxFiles []string

var errVxRun = errors.New("it fails")

func vxGetwd() (string, error) { return "/wd", nil }

func vxOpen(name string) (*os.File, error) {
	if !vxHasJournal {
		return nil, &os.PathError{Op: "open", Path: name, Err: os.ErrNotExist}
	}
	return new(os.File), nil
}

func vxCopyJobs(jobs []journal.Job) []journal.Job {
	var r []journal.Job
	for _, j := range jobs {
		c := journal.CompletedIndices{}
		for k, v := range j.CompletedIndices {
			c[k] = append([]journal.Interval{}, v...)
		}
		j.CompletedIndices = c
		r = append(r, j)
	}
	return r
}

func vxWriteLocked(j *journal.Journal) error {
	vxWrites++
	if vxWrites == vxWriteFails {
		return errVxRun
	}
	vxHasJournal = true
	vxSaved = vxCopyJobs(j.Jobs)
	return nil
}

func vxReadAndClose(j *journal.Journal, f *os.File) error {
	j.Jobs = vxCopyJobs(vxSaved)
	return nil
}

func vxListFiles(string) ([]string, []string, error) { return append([]string{}, vxFiles...), nil, nil }

const vxDir = "/in/https:__ct.example.com_log"

// VxRun: the batches of a run that fails are done again, the others are not.
func VxRun() {
	zvx.NoNative()
	vxSaved, vxWrites, vxWriteFails, vxHasJournal = nil, 0, 0, false
	vxFiles = nil
	bundles := []string{"0-9.gz", "10-19.gz", "20-29.gz"}
	first := 0
	if zvx.Choose("gap", 2) == 1 {
		first = 1
	}
	for _, b := range bundles[first:] {
		vxFiles = append(vxFiles, filepath.Join(vxDir, "bundled", b))
	}
	runs := zvx.Param("runs", 2)
	ingested := map[string]bool{} // its batch was run completely, with all that follows
	dbHas := map[string]int{}     // runs that ingested it
	dirty := false                // ingested, not coalesced
	stale := false                // coalesced, not in the tree
	recorded := int64(-1)
	for r := 0; r < runs; r++ {
		ctx, cancel := context.WithCancel(context.Background())
		strategy := []string{"", "onlyingest", "skipingest", "onlysmtupdate", "recordctsize"}[zvx.Choose("strategy", 5)]
		cfg := RunConfig{Directory: vxDir, Strategy: strategy, JournalFile: "/j/journal.json", FileBatch: zvx.IntRange("batch", 0, 2)}
		calls, failAt := 0, 0
		if r < runs-1 {
			failAt = zvx.IntRange("fail", 0, zvx.Param("calls", 8))
		}
		failed := false
		step := func() error {
			calls++
			if calls == failAt {
				failed = true
				return errVxRun
			}
			return nil
		}
		cancelAt := 0
		if r < runs-1 && zvx.Choose("cancel", 2) == 1 {
			cancelAt = zvx.IntRange("cancel_at", 1, 3)
		}
		pend := 0
		var done []string
		cancelled := false
		deps := RunDependencies{
			NewJournal: func(c RunConfig, jc journal.JobConfiguration) (*journal.Journal, error) {
				return journal.NewJournal(c.JournalFile, jc, c.Directory)
			},
			NewStatistics:     func() *statistics.Stats { return nil },
			EstimateCertCount: func(string) (uint, error) { return 1, nil },
			BeforeBatch: func(n, of int) error {
				if n == cancelAt {
					cancelled = true
					cancel()
				}
				return step()
			},
			RunBatch: func(_ *statistics.Stats, files []string) error {
				zvx.Assert(len(files) > 0 && (cfg.FileBatch == 0 || len(files) <= cfg.FileBatch), "a batch has another size")
				done = nil
				for _, f := range files {
					zvx.Assert(!ingested[f], "a completed file is ingested again")
					dbHas[f]++
					done = append(done, f)
					pend++
				}
				if err := step(); err != nil {
					done = nil
					dirty = true
					return err
				}
				dirty = true
				if strategy == "onlyingest" {
					for _, f := range done {
						ingested[f] = true
					}
				}
				return nil
			},
			Coalesce: func() error {
				zvx.Assert(strategy == "" || strategy == "skipingest", "coalescing without being asked to")
				if err := step(); err != nil {
					return err
				}
				if dirty {
					stale = true
				}
				dirty = false
				return nil
			},
			UpdateSMT: func() error {
				zvx.Assert(strategy != "onlyingest" && strategy != "recordctsize", "updating the tree without being asked to")
				zvx.Assert(strategy != "" || !dirty, "the tree is updated before the payloads")
				if err := step(); err != nil {
					return err
				}
				stale = false
				if strategy == "" {
					for _, f := range done {
						ingested[f] = true
					}
				}
				return nil
			},
			RecordCTSize: func(_ context.Context, url string, size int64) error {
				zvx.Assert(url == "https://ct.example.com/log", "the size of another log is recorded")
				// all entries below size are ingested
				for i, b := range bundles {
					if int64(10*i) < size {
						zvx.Assert(dbHas[filepath.Join(vxDir, "bundled", b)] > 0, "entries that were not ingested are recorded as such")
					}
				}
				if err := step(); err != nil {
					return err
				}
				recorded = size
				return nil
			},
		}
		err := runIngest(ctx, cfg, deps)
		cancel()
		if failed {
			zvx.Assert(err != nil, "a failure is not reported")
			zvx.Reach("failed")
			continue
		}
		if cancelled {
			if err != nil {
				zvx.Assert(errors.Is(err, context.Canceled), "an interrupted run fails otherwise")
				zvx.Reach("cancelled")
				continue
			}
		}
		switch strategy {
		case "", "onlyingest":
			zvx.Assert(err == nil, "a run fails")
			for _, f := range vxFiles {
				zvx.Assert(ingested[f], "a file is not ingested by a run that succeeds")
			}
			if strategy == "" && pend > 0 {
				zvx.Assert(!dirty && !stale, "the certificates of a run that succeeds are not in the tree")
				zvx.Reach("complete")
			}
			j := vxSaved[len(vxSaved)-1]
			if strategy == "" && pend > 0 {
				zvx.Assert(j.Coalesced && j.UpdatedSMT, "the journal does not tell what was done")
			}
			if strategy == "onlyingest" && pend > 0 {
				zvx.Assert(!j.Coalesced && !j.UpdatedSMT, "the journal tells that new certificates are in the tree")
			}
			k := j.CompletedIndices[filepath.Base(vxDir)]
			zvx.Assert(len(k) == 1 && k[0] == journal.Interval{Start: uint(10 * first), End: 29}, "the journal has other completed indices than those of the files")
		case "skipingest":
			zvx.Assert(err == nil && !dirty && !stale, "the certificates are not in the tree")
		case "onlysmtupdate":
			zvx.Assert(err == nil && !stale, "the payloads are not in the tree")
		case "recordctsize":
			if err == nil {
				j := vxSaved[len(vxSaved)-1]
				zvx.Assert(recorded >= 0 && j.RecordedCTLogSize == recorded, "the journal has another size than the database")
				zvx.Reach("recorded")
			}
		}
	}
}
