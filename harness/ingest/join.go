package main

import (
	"context"
	"errors"
	"runtime"
	"sync"
	"time"

	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	pip "github.com/netsec-ethz/fpki/pkg/pipeline"
	"github.com/netsec-ethz/fpki/pkg/statistics"
	"github.com/netsec-ethz/fpki/pkg/util"
	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

var errVxDB = errors.New("the database fails")

// VxJoin: each certificate of the files reaches the batcher and the extractor of its worker.
func VxJoin() {
	zvx.NoNative()
	zvx.Delays(zvx.Param("delays", 0))
	ctx := context.Background()
	W := zvx.Param("workers", 2)
	p := &Processor{Ctx: ctx, NumFileReaders: zvx.Param("readers", 1), NumToChain: zvx.Param("chains", 1), NumToCerts: zvx.Param("certs", 1), NumDBWriters: W,
		Manager: &updater.Manager{Stats: &statistics.Stats{}}}
	n := zvx.Param("rows", 2)
	f := &vxFile{name: "f"}
	bad := -1
	if zvx.Choose("broken_row", 2) == 1 {
		bad = zvx.Choose("row", n)
	}
	for i := 0; i < n; i++ {
		c := string(vx64(vxDER(byte(i), 1)))
		if i == bad {
			c = "%%%"
		}
		f.rows = append(f.rows, "0,0,0,"+c+","+string(vx64(vxDER(7, 0)))+",99000000000.0\n")
	}
	p.AddCsvFiles([]util.CsvFile{f})
	files, err := p.createFilesToCertsPipeline()
	zvx.Assert(err == nil, "creating the pipeline fails")
	for _, s := range files.Stages {
		_ = s
	}
	var in chan updater.Certificate
	src := pip.NewSource[updater.Certificate]("incoming", pip.WithMultiOutputChannels[pip.None, updater.Certificate](2*W),
		pip.WithSourceChannel(&in, func(c updater.Certificate) ([]int, error) {
			i := int(c.Raw[1]) % W
			if !zvx.Symbolic() {
				i = int(c.NotAfter.Unix()) % W
			}
			return []int{i, i + W}, nil
		}))
	var mu sync.Mutex
	got := map[[2]int]int{}
	failSink, failCall := -1, 0
	if zvx.Choose("db_fails", 2) == 1 {
		failSink, failCall = zvx.Choose("failing", 2*W), 1+zvx.Choose("call", zvx.Param("calls", 2))
	}
	failed := false
	stages := []pip.StageLike{src}
	for i := 0; i < 2*W; i++ {
		i, calls := i, 0
		s := pip.NewSink[updater.Certificate]("sink", pip.WithSinkFunction(func(c updater.Certificate) error {
			mu.Lock()
			defer mu.Unlock()
			calls++
			if i == failSink && calls == failCall {
				failed = true
				return errVxDB
			}
			got[[2]int{int(c.Raw[1]), i}]++
			return nil
		}))
		stages = append(stages, s)
	}
	db, err := pip.NewPipeline(func(pl *pip.Pipeline) {
		for i := 0; i < 2*W; i++ {
			pip.LinkStagesAt(src.Stage, i, stages[1+i].(*pip.Sink[updater.Certificate]).Stage, 0)
		}
	}, pip.WithStages(stages...))
	zvx.Assert(err == nil, "creating the pipeline fails")
	all := pip.JoinPipelinesRaw(p.getNewLinkFunction(files, db), files, db)
	all.Resume(ctx)
	err = all.Wait(ctx)
	for i := 0; i < 10; i++ {
		runtime.Gosched()
	}
	for _, c := range got {
		zvx.Assert(c <= zvx.Param("chains", 1), "a certificate is passed on twice to a stage")
	}
	if failed || bad >= 0 {
		zvx.Assert(err != nil, "a failure is not reported")
		zvx.Assert(!failed || bad >= 0 || errors.Is(err, errVxDB), "another failure is reported")
		zvx.Reach("failed")
		return
	}
	zvx.Assert(err == nil, "a run without failures fails")
	for i := 0; i <= n; i++ {
		k := i
		if i == n {
			k = 7
		}
		zvx.Assert(got[[2]int{k, k % W}] >= 1 && got[[2]int{k, k%W + W}] >= 1, "a certificate does not reach the batcher and the extractor of its worker")
		for j := 0; j < 2*W; j++ {
			zvx.Assert(j%W == k%W || got[[2]int{k, j}] == 0, "a certificate reaches another worker")
		}
	}
	zvx.Reach("written")
}

var _ = time.Now
