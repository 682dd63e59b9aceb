package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"

	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	pip "github.com/netsec-ethz/fpki/pkg/pipeline"
	"github.com/netsec-ethz/fpki/pkg/statistics"
	"github.com/netsec-ethz/fpki/pkg/util"
	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

var errVx = errors.New("the file cannot be read")

const (
	vxFine = iota
	vxMissing
	vxNoOpen
	vxBroken  // reading fails at a row
	vxBadRow  // a row is incomplete
	vxNoClose // closing fails
	vxKinds
)

// vxFile is a file with some rows.
type vxFile struct {
	name   string
	rows   []string
	kind   int
	at     int
	pos    int
	opened int
	closed int
}

func (f *vxFile) WithFile(string) util.CsvFile { return f }
func (f *vxFile) Filename() string             { return f.name }
func (f *vxFile) String() string               { return f.name }

func (f *vxFile) Open() (io.Reader, error) {
	f.opened++
	switch f.kind {
	case vxMissing:
		return nil, fmt.Errorf("opening: %w", os.ErrNotExist)
	case vxNoOpen:
		return nil, errVx
	}
	f.pos = 0
	return f, nil
}

func (f *vxFile) Read(b []byte) (int, error) {
	if f.kind == vxBroken && f.pos == f.at {
		return 0, errVx
	}
	if f.pos == len(f.rows) {
		return 0, io.EOF
	}
	row := f.rows[f.pos]
	if f.kind == vxBadRow && f.pos == f.at {
		row = "a,b,c\n"
	}
	f.pos++
	return copy(b, row), nil
}

func (f *vxFile) Close() error {
	f.closed++
	if f.kind == vxNoClose {
		return errVx
	}
	return nil
}

// VxSplit: the rows of all files are passed on once, and a file that cannot be read is reported.
func VxSplit() {
	zvx.NoNative()
	zvx.Delays(zvx.Param("delays", 0))
	ctx := context.Background()
	p := &Processor{SkipMissing: zvx.Bool("skip_missing"), Manager: &updater.Manager{Stats: &statistics.Stats{}}}
	n := 1 + zvx.Choose("files", zvx.Param("files", 2))
	bad := zvx.Choose("bad", n)
	kind := zvx.IntRange("kind", 0, vxKinds-1)
	var files []util.CsvFile
	want := map[string]int{}
	fails := false
	rowAt := map[string]int{}
	for i := 0; i < n; i++ {
		f := &vxFile{name: "f" + string(rune('0'+i))}
		for k := zvx.Choose("rows", zvx.Param("rows", 2)+1); k > 0; k-- {
			cert := f.name + string(rune('a'+len(f.rows)))
			end := "\n"
			if k == 1 && zvx.Choose("no_newline", 2) == 1 {
				end = ""
			}
			f.rows = append(f.rows, "0,0,0,"+cert+",c;d,0,1700000000.0"+end)
			want[cert] = 1
			rowAt[cert] = len(f.rows)
		}
		if i == bad {
			f.kind, f.at = kind, zvx.IntRange("at", 0, len(f.rows))
			switch f.kind {
			case vxBadRow:
				if f.at >= len(f.rows) {
					f.kind = vxFine
				} else {
					fails = true
				}
			case vxMissing:
				fails = !p.SkipMissing
				for k := range want {
					if k[:2] == f.name {
						delete(want, k)
					}
				}
			case vxNoOpen, vxBroken, vxNoClose:
				fails = true
			}
		}
		files = append(files, f)
	}
	got := map[string]int{}
	sink := pip.NewSink[line]("sink", pip.WithSinkFunction(func(in line) error {
		c := string(in.certField)
		got[c]++
		zvx.Assert(got[c] == 1, "a row is passed on twice")
		zvx.Assert(string(in.chainField) == "c;d" && string(in.expirationField) == "1700000000.0" && in.number == rowAt[c], "a row is passed on with other fields or another number")
		return nil
	}))
	w1, w2 := NewCsvSplitWorker(p), NewCsvSplitWorker(p)
	pl, err := pip.NewPipeline(func(p *pip.Pipeline) {
		b := []*pip.Stage[util.CsvFile, line]{pip.StageAtIndex[util.CsvFile, line](p, 1), pip.StageAtIndex[util.CsvFile, line](p, 2)}
		pip.LinkStagesDistribute(pip.SourceStage[util.CsvFile](p), b...)
		pip.LinkStagesCrissCross(b, pip.StagesAsSlice(pip.SinkStage[line](p)))
	}, pip.WithStages(pip.NewSource[util.CsvFile]("files", pip.WithSourceSlice(&files, func(util.CsvFile) (int, error) { return 0, nil })), w1.Stage, w2.Stage, sink))
	zvx.Assert(err == nil, "creating the pipeline fails")
	pl.Resume(ctx)
	err = pl.Wait(ctx)
	for i := 0; i < 10; i++ {
		runtime.Gosched()
	}
	if fails {
		zvx.Assert(err != nil, "a file that cannot be read is not reported")
		zvx.Reach("failure")
		return
	}
	zvx.Assert(err == nil, "readable files are reported as failures")
	zvx.Assert(len(got) == len(want), "a row is not passed on")
	for _, f := range files {
		f := f.(*vxFile)
		zvx.Assert(f.opened == 1 && (f.closed == 1 || f.kind == vxMissing), "a file is not read once, or not closed")
	}
	zvx.Reach("read")
}
