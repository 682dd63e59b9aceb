PL = "pkg/pipeline"
seed("Q01-earlyclose", "Q01", [
 (PL+"/stage.go", '''			for err := range nextErrCh {
				DebugPrintf("[%s] got error %v from next stage at channel %d: %s\\n",
					s.Name, err, i, chanPtr(nextErrCh))
				nextStagesAggregatedErrCh <- err
			}
''', '''			if err, ok := <-nextErrCh; ok {
				DebugPrintf("[%s] got error %v from next stage at channel %d: %s\\n",
					s.Name, err, i, chanPtr(nextErrCh))
				nextStagesAggregatedErrCh <- err
			}
'''),
], PL, '''
package pipeline

import (
	"context"
	"errors"
	"sync/atomic"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	items := []int{0, 1, 2, 3}
	var busy atomic.Bool
	stage := func(name string, fail bool) *Stage[int, int] {
		n := 0
		return NewStage[int, int](name, WithProcessFunction(func(in int) ([]int, []int, error) {
			if n++; fail && n == 2 {
				return nil, nil, errors.New("failed")
			}
			return []int{in}, []int{0}, nil
		}))
	}
	a, b := stage("a", true), stage("b", false)
	sinkA := NewSink[int]("sa", WithSinkFunction(func(int) error {
		busy.Store(true)
		time.Sleep(time.Second)
		busy.Store(false)
		return nil
	}))
	sinkB := NewSink[int]("sb", WithSinkFunction(func(int) error { return nil }))
	src := NewSource[int]("src", WithMultiOutputChannels[None, int](2), WithSourceSlice(&items, func(in int) (int, error) { return in % 2, nil }))
	p, err := NewPipeline(func(p *Pipeline) {
		LinkStagesAt(src.Stage, 0, a, 0)
		LinkStagesAt(src.Stage, 1, b, 0)
		LinkStagesAt(a, 0, sinkA.Stage, 0)
		LinkStagesAt(b, 0, sinkB.Stage, 0)
	}, WithStages(src, a, b, sinkA, sinkB))
	if err != nil {
		t.Fatal(err)
	}
	p.Resume(context.Background())
	if err := p.Wait(context.Background()); err == nil {
		t.Fatal("no error")
	}
	if busy.Load() {
		t.Fatal("a stage is running after Wait")
	}
}
''', "a stage of one of several branches that fails while the stages after it are still processing",
"Wait returns while stages of the pipeline are still running")

seed("Q02-releasedgroup", "Q02", [
 (PL+"/stall_resume.go", '''						workingStagesWgMu.Lock()
						defer workingStagesWgMu.Unlock()
						DebugPrintf("[%s] [stall-releaser] waiting for stages to stall\\n", s.Base().Name)
						workingStagesWg.Wait()
''', '''						workingStagesWgMu.Lock()
						DebugPrintf("[%s] [stall-releaser] waiting for stages to stall\\n", s.Base().Name)
						workingStagesWg.Wait()
						workingStagesWgMu.Unlock()
'''),
], PL, '''
package pipeline

import (
	"context"
	"sync/atomic"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	var stalled, bad atomic.Bool
	n := 0
	src := NewSource[int]("src", WithSourceFunction(func() ([]int, []int, error) {
		if n++; n > 3 {
			return nil, nil, NoMoreData
		}
		time.Sleep(100 * time.Millisecond)
		return []int{n}, []int{0}, nil
	}))
	sink := NewSink[int]("sink", WithSinkFunction(func(int) error {
		if stalled.Load() {
			bad.Store(true)
		}
		return nil
	}))
	calls := 0
	// the source waits before it is asked to stall the pipeline, so that the sink waits for data
	src.Base().onBeforeData = func() { time.Sleep(100 * time.Millisecond) }
	p, err := NewPipeline(func(p *Pipeline) {
		LinkStagesFanOut(src.Stage, sink.Stage)
	}, WithStages(src, sink), WithStallStages([]StageLike{sink}, func() {
		stalled.Store(true)
		time.Sleep(500 * time.Millisecond)
		stalled.Store(false)
	}, func(StageLike) bool {
		// stall when the source is about to produce, while the sink waits for data
		calls++
		return calls == 2
	}, []StageLike{src}))
	if err != nil {
		t.Fatal(err)
	}
	p.Resume(context.Background())
	if err := p.Wait(context.Background()); err != nil {
		t.Fatal(err)
	}
	if bad.Load() {
		t.Fatal("a stalled stage processed an item")
	}
}
''', "a stage that waits for data when it is stalled, and receives some before the end of the stall",
"a stalled stage processes an item during the stall")

ING = "cmd/ingest"
seed("I02-closeerror", "I02", [
 (ING+"/csvSplitWorker.go", '''		if err := f.Close(); err != nil {
			if finalErr != nil {
				finalErr = errors.Join(finalErr, err)
			} else {
				finalErr = err
			}
		}
''', '''		if err := f.Close(); err != nil && finalErr != nil {
			finalErr = errors.Join(finalErr, err)
		}
'''),
], ING, '''
package main

import (
	"errors"
	"io"
	"strings"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/pkg/statistics"
	"github.com/netsec-ethz/fpki/pkg/util"
)

type demoFile struct{}

func (demoFile) WithFile(string) util.CsvFile { return demoFile{} }
func (demoFile) Filename() string             { return "f" }
func (demoFile) String() string               { return "f" }
func (demoFile) Open() (io.Reader, error) {
	return strings.NewReader("0,0,0,a,b,0,0,1700000000.0\\n"), nil
}
func (demoFile) Close() error { return errors.New("checksum error") }

func TestDemo(t *testing.T) {
	w := NewCsvSplitWorker(&Processor{Manager: &updater.Manager{Stats: &statistics.Stats{}}})
	if err := w.startReadingLines(demoFile{}); err != nil {
		t.Fatal(err)
	}
	for range w.lines {
	}
	if err := <-w.done; err == nil {
		t.Fatal("the error is lost")
	}
}
''', "a file that can be read to its end, but fails when it is closed",
"the file is taken for ingested")

seed("I02-permission", "I02", [
 (ING+"/csvSplitWorker.go", '''		if errors.Is(err, os.ErrNotExist) && w.skipMissingFiles {''', '''		if w.skipMissingFiles {'''),
], ING, '''
package main

import (
	"errors"
	"io"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/pkg/statistics"
	"github.com/netsec-ethz/fpki/pkg/util"
)

type demoFile struct{}

func (demoFile) WithFile(string) util.CsvFile { return demoFile{} }
func (demoFile) Filename() string             { return "f" }
func (demoFile) String() string               { return "f" }
func (demoFile) Open() (io.Reader, error)     { return nil, errors.New("not a gzip file") }
func (demoFile) Close() error                 { return nil }

func TestDemo(t *testing.T) {
	w := NewCsvSplitWorker(&Processor{SkipMissing: true, Manager: &updater.Manager{Stats: &statistics.Stats{}}})
	if err := w.startReadingLines(demoFile{}); err == nil {
		t.Fatal("the file is skipped")
	}
}
''', "an existing file that cannot be opened, with the option to skip missing files",
"the file is skipped, and ingest reports success")

seed("I02-slowcolumn", "I02", [
 (ING+"/fastcsv/fastcsv.go", '''	expirationField := fields[len(fields)-1]
''', '''	expirationField := fields[min(7, len(fields)-1)]
'''),
], ING+"/fastcsv", '''
package fastcsv

import "testing"

func TestDemo(t *testing.T) {
	l, err := ParseLine([]byte("0,0,0,c,d,\\"q\\",0,x,1700000000.0\\n"), "f", 1)
	if err != nil || string(l.ExpirationField) != "1700000000.0" {
		t.Fatal(err, string(l.ExpirationField))
	}
}
''', "a row with quotes and more than eight columns",
"the expiration is read from another column than in rows without quotes")

seed("I01-gap", "I01", [
 (ING+"/journal/journal.go", '''	return a.Start <= b.End+1 && b.Start <= a.End+1
''', '''	return a.Start <= b.End+1 && b.Start-a.End <= 2 || a.Start <= b.End+1 && b.Start <= a.End+1
'''),
], ING+"/journal", '''
package journal

import "testing"

func TestDemo(t *testing.T) {
	c := CompletedIndices{}
	addCompletedInterval(c, "d", Interval{0, 9})
	addCompletedInterval(c, "d", Interval{11, 19})
	if containsCompletedInterval(c, "d", Interval{10, 10}) {
		t.Fatal("index 10 was not ingested")
	}
}
''', "two completed files with exactly one index between them",
"the file with that index is taken for completed and never ingested")

seed("I01-commitfirst", "I01", [
 (ING+"/run.go", '''			if jobCfg.UpdateSMT {
				if err := updateSMT(); err != nil {
					return err
				}
			}
			return j.CommitProgress(files, jobCfg.Coalesce, jobCfg.UpdateSMT)
''', '''			if err := j.CommitProgress(files, jobCfg.Coalesce, jobCfg.UpdateSMT); err != nil {
				return err
			}
			if jobCfg.UpdateSMT {
				return updateSMT()
			}
			return nil
'''),
], ING, '''
package main

import (
	"context"
	"errors"
	"os"
	"path/filepath"
	"testing"

	"github.com/netsec-ethz/fpki/cmd/ingest/journal"
	"github.com/netsec-ethz/fpki/pkg/statistics"
)

func TestDemo(t *testing.T) {
	dir := filepath.Join(t.TempDir(), "log")
	os.MkdirAll(filepath.Join(dir, "bundled"), 0o755)
	os.WriteFile(filepath.Join(dir, "bundled", "0-9.gz"), nil, 0o644)
	cfg := RunConfig{Directory: dir, JournalFile: filepath.Join(t.TempDir(), "j.json")}
	runs := 0
	fail := true
	deps := RunDependencies{
		NewJournal: func(c RunConfig, jc journal.JobConfiguration) (*journal.Journal, error) {
			return journal.NewJournal(c.JournalFile, jc, c.Directory)
		},
		NewStatistics: func() *statistics.Stats { return nil },
		RunBatch:      func(*statistics.Stats, []string) error { runs++; return nil },
		UpdateSMT: func() error {
			if fail {
				return errors.New("failed")
			}
			return nil
		},
	}
	if err := runIngest(context.Background(), cfg, deps); err == nil {
		t.Fatal("no error")
	}
	fail = false
	if err := runIngest(context.Background(), cfg, deps); err != nil {
		t.Fatal(err)
	}
	if runs != 2 {
		t.Fatal("the file is taken for completed although the tree was not updated")
	}
}
''', "a failing update of the tree after a batch, and another run",
"the certificates of the batch never get into the tree")

seed("I01-inplace", "I01", [
 (ING+"/journal/journal.go", '''	if err := os.Rename(tempName, j.JournalFile); err != nil {
		cleanup()
		return fmt.Errorf("cannot replace journal file: %w", err)
	}
''', '''	if err := os.Remove(j.JournalFile); err != nil && !errors.Is(err, os.ErrNotExist) {
		cleanup()
		return fmt.Errorf("cannot replace journal file: %w", err)
	}
	if err := os.Rename(tempName, j.JournalFile); err != nil {
		cleanup()
		return fmt.Errorf("cannot replace journal file: %w", err)
	}
'''),
], ING+"/journal", '''
package journal

import (
	"os"
	"path/filepath"
	"sync/atomic"
	"testing"
)

func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "j.json")
	j, err := NewJournal(f, JobConfiguration{}, "/in/log")
	if err != nil {
		t.Fatal(err)
	}
	var stop, gone atomic.Bool
	done := make(chan bool)
	go func() {
		for !stop.Load() {
			if _, err := os.Stat(f); err != nil {
				gone.Store(true)
			}
		}
		close(done)
	}()
	for i := 0; i < 3000 && !gone.Load(); i++ {
		if err := j.CommitProgress([]string{"/in/log/bundled/0-9.gz"}, true, true); err != nil {
			t.Fatal(err)
		}
	}
	stop.Store(true)
	<-done
	if gone.Load() {
		t.Fatal("there are moments without a journal")
	}
}
''', "the process ends between removing the old journal and renaming the new one",
"the journal is lost, and all files are ingested again")
