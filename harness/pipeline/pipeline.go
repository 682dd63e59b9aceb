package pipeline

import (
	"context"
	"errors"
	"runtime"

	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

var errVx = errors.New("processing fails")

// vxRun is a pipeline under test with what its stages saw.
type vxRun struct {
	p       *Pipeline
	items   []int64 // what the source provides
	expect  []int64 // what the sink has to get, without failures
	got     []int64
	calls   int // processing calls
	failAt  int // the call that fails
	failed  bool
	outputs int // outputs per input of the first stages
	pending map[string][]int64
	stream  bool // the stages of the first layer stream their outputs
	queue   map[string]*vxQueue
	ended   bool // Wait has returned
	mesh    bool // the stages of the first layer send to both sinks
	slow    int  // how often the sinks yield while they process
	busy    int  // sinks that are processing
	hold    bool // the stages of the first layer keep an item until there is no more data
}

func (r *vxRun) step() error {
	r.calls++
	zvx.Assert(!r.ended, "a stage is still running when Wait has returned")
	if r.calls-1 == r.failAt {
		r.failed = true
		return errVx
	}
	return nil
}

// layer1 is the process function of the stages after the source.
func (r *vxRun) layer1(name string) func(in int64) ([]int64, []int, error) {
	return func(in int64) ([]int64, []int, error) {
		if err := r.step(); err != nil {
			return nil, nil, err
		}
		if r.hold && len(r.pending[name]) == 0 {
			r.pending[name] = []int64{in}
			return nil, nil, nil
		}
		if r.stream {
			os, chs, _ := r.outs(in)
			r.queue[name] = &vxQueue{os, chs}
			return nil, nil, StreamOutput
		}
		return r.outs(in)
	}
}

// vxQueue has the outputs that a stage still streams.
type vxQueue struct {
	os  []int64
	chs []int
}

// next streams the outputs one by one.
func (r *vxRun) next(name string) func(*[]int64, *[]int) error {
	return func(os *[]int64, chs *[]int) error {
		q := r.queue[name]
		*os, *chs = nil, nil
		if err := r.step(); err != nil {
			return err
		}
		if len(q.os) == 0 {
			return nil
		}
		*os, *chs = q.os[:1:1], q.chs[:1:1]
		q.os, q.chs = q.os[1:], q.chs[1:]
		return StreamOutput
	}
}

func (r *vxRun) outs(in int64) (os []int64, chs []int, err error) {
	for i := 0; i < r.outputs; i++ {
		ch := 0
		if r.mesh {
			ch = i % 2
		}
		os, chs = append(os, in+int64(1000*i)), append(chs, ch)
	}
	return
}

func (r *vxRun) flush(name string) func() ([]int64, []int, error) {
	return func() ([]int64, []int, error) {
		p := r.pending[name]
		delete(r.pending, name)
		if len(p) == 0 {
			return nil, nil, nil
		}
		if err := r.step(); err != nil {
			return nil, nil, err
		}
		return r.outs(p[0])
	}
}

func vxModes[IN, OUT any](mode int) []option[IN, OUT] {
	switch mode {
	case 1:
		return []option[IN, OUT]{WithSequentialOutputs[IN, OUT](), WithConcurrentInputs[IN, OUT]()}
	case 2:
		return []option[IN, OUT]{WithCyclesAllowedSequentialOutputs[IN, OUT](), WithConcurrentInputs[IN, OUT]()}
	}
	return []option[IN, OUT]{WithConcurrentOutputs[IN, OUT](), WithConcurrentInputs[IN, OUT]()}
}

// build makes a pipeline: linear (a-b-d), with two branches (a-b0|b1-d), two layers that share a
// channel (a-b0|b1-x-c0|c1-d), with two layers that are fully connected (a-b0|b1-d|e), or with
// branches that do not join (a-b0|b1, b0-d, b1-e).
func (r *vxRun) build(topology, mode int) {
	r.failAt = -1
	r.pending, r.queue = map[string][]int64{}, map[string]*vxQueue{}
	r.mesh = topology == 3
	width := 2
	if topology == 0 {
		width = 1
	}
	route := func(in int64) (int, error) {
		if err := r.step(); err != nil {
			return 0, err
		}
		if width == 2 && topology != 2 && in&1 == 1 {
			return 1, nil
		}
		return 0, nil
	}
	opts := []option[None, int64]{WithSourceSlice(&r.items, route)}
	if topology == 1 || topology >= 3 {
		opts = append(opts, WithMultiOutputChannels[None, int64](2))
	}
	stages := []StageLike{NewSource[int64]("a", append(opts, vxModes[None, int64](mode)...)...)}
	for i := 0; i < width; i++ {
		name := string(rune('0' + i))
		layer := vxModes[int64, int64](mode)
		if r.mesh {
			layer = append(layer, WithMultiOutputChannels[int64, int64](2))
		}
		stages = append(stages, NewStage[int64, int64]("b"+name, append([]option[int64, int64]{WithProcessFunction(r.layer1(name)), WithOnNoMoreData[int64, int64](r.flush(name)), WithOutputStreamingFunction[int64](r.next(name))}, layer...)...))
	}
	if topology == 2 {
		for i := 0; i < width; i++ {
			stages = append(stages, NewStage[int64, int64]("c"+string(rune('0'+i)), append([]option[int64, int64]{WithProcessFunction(func(in int64) ([]int64, []int, error) {
				if err := r.step(); err != nil {
					return nil, nil, err
				}
				return []int64{in}, []int{0}, nil
			})}, vxModes[int64, int64](mode)...)...))
		}
	}
	sink := append([]option[int64, None]{WithSinkFunction(func(in int64) error {
		if err := r.step(); err != nil {
			return err
		}
		r.got = append(r.got, in)
		r.busy++
		for i := 0; i < r.slow; i++ {
			runtime.Gosched()
		}
		r.busy--
		return nil
	})}, vxModes[int64, None](mode)...)
	if width == 2 && topology != 4 {
		sink = append(sink, WithMultiInputChannels[int64, None](2))
	}
	stages = append(stages, NewSink[int64]("d", sink...))
	if r.mesh || topology == 4 {
		stages = append(stages, NewSink[int64]("e", sink...))
	}
	p, err := NewPipeline(func(p *Pipeline) {
		a, d := SourceStage[int64](p), SinkStage[int64](p)
		b0 := StageAtIndex[int64, int64](p, 1)
		if width == 1 {
			LinkStagesFanOut(a, b0)
			LinkStagesFanOut(b0, d)
			return
		}
		b1 := StageAtIndex[int64, int64](p, 2)
		if topology == 1 {
			LinkStagesFanOut(a, b0, b1)
			LinkStagesAt(b0, 0, d, 0)
			LinkStagesAt(b1, 0, d, 1)
			return
		}
		if topology == 4 {
			LinkStagesFanOut(a, b0, b1)
			LinkStagesAt(b0, 0, SinkAsStage(p.Stages[3].(*Sink[int64])), 0)
			LinkStagesAt(b1, 0, d, 0)
			return
		}
		if topology == 3 {
			LinkStagesFanOut(a, b0, b1)
			e := SinkAsStage(p.Stages[3].(*Sink[int64]))
			for i, b := range []*Stage[int64, int64]{b0, b1} {
				LinkStagesAt(b, 0, e, i)
				LinkStagesAt(b, 1, d, i)
			}
			return
		}
		c0, c1 := StageAtIndex[int64, int64](p, 3), StageAtIndex[int64, int64](p, 4)
		LinkStagesDistribute(a, b0, b1)
		LinkStagesCrissCross([]*Stage[int64, int64]{b0, b1}, []*Stage[int64, int64]{c0, c1})
		LinkStagesAt(c0, 0, d, 0)
		LinkStagesAt(c1, 0, d, 1)
	}, WithStages(stages...))
	zvx.Assert(err == nil, "creating the pipeline fails")
	r.p = p
}

// all: the sink got the outputs of all items, each once.
func (r *vxRun) all(complete bool) {
	var want []int64
	for _, x := range r.items {
		for i := 0; i < r.outputs; i++ {
			want = append(want, x+int64(1000*i))
		}
	}
	if complete {
		zvx.Assert(len(r.got) == len(want), "not every item is delivered once")
	}
	for _, g := range r.got {
		k := -1
		for i, w := range want {
			if w == g {
				k = i
				break
			}
		}
		zvx.Assert(k >= 0, "an item is delivered twice, or one that does not exist")
		want = append(want[:k], want[k+1:]...)
	}
}

func vxItems(n int) (r []int64) {
	odd := false
	for i := 0; i < n; i++ {
		x := zvx.I64("item")
		zvx.Assume(zvx.And(x >= int64(10*i), x < int64(10*i+10)))
		_ = odd
		r = append(r, x)
	}
	return r
}

// The pipelines end, deliver all items once, and report a failure of any stage.
func VxLinear()   { vxDeliver(0) }
func VxBranches() { vxDeliver(1) }
func VxShared()   { vxDeliver(2) }
func VxMesh()     { vxDeliver(3) }
func VxSeparate() { vxDeliver(4) }

func vxDeliver(topology int) {
	zvx.NoNative()
	zvx.Delays(zvx.Param("delays", 1))
	ctx := context.Background()
	r := &vxRun{outputs: 1 + zvx.Choose("outputs", zvx.Param("outputs", 3))}
	switch zvx.Choose("kind", 3) {
	case 1:
		r.hold = true
	case 2:
		r.stream = true
	}
	r.items = vxItems(zvx.Param("items", 2))
	mode := zvx.Param("mode", -1)
	if mode < 0 {
		mode = zvx.Choose("mode", 3)
	}
	r.build(topology, mode)
	r.failAt = zvx.IntRange("failing_call", -1, zvx.Param("calls", 6)-1)
	if zvx.Param("slow", 0) > 0 && zvx.Bool("slow_sinks") {
		r.slow = zvx.Param("slow", 0)
	}
	r.p.Resume(ctx)
	err := r.p.Wait(ctx)
	r.ended = true
	zvx.Assert(r.busy == 0, "a stage is still processing when Wait has returned")
	for i := 0; i < 20; i++ {
		runtime.Gosched()
	}
	if r.failed {
		zvx.Assert(errors.Is(err, errVx), "the failure of a stage is not reported")
		r.all(false)
		zvx.Reach("failure")
	} else {
		zvx.Assert(err == nil, "a failure is reported that did not happen")
		r.all(true)
		zvx.Reach("complete")
	}
	if zvx.Param("again", 0) == 0 {
		return
	}
	// The pipeline is used again.
	r.failAt, r.got, r.failed, r.ended = -1, nil, false, false
	r.pending = map[string][]int64{}
	r.p.Resume(ctx)
	err = r.p.Wait(ctx)
	zvx.Assert(err == nil, "a pipeline that is resumed fails")
	r.all(true)
	zvx.Reach("resumed")
}

// VxStall: stages that are stalled do not process while the function for it runs, nothing is lost.
func VxStall() {
	zvx.NoNative()
	zvx.Delays(zvx.Param("delays", 1))
	ctx := context.Background()
	items := vxItems(zvx.Param("items", 3))
	busy := [3]bool{}
	work := func(i int) {
		busy[i] = true
		runtime.Gosched()
		busy[i] = false
	}
	mode := zvx.Choose("mode", 2)
	var got []int64
	stages := []StageLike{
		NewSource[int64]("a", append([]option[None, int64]{WithSourceSlice(&items, func(int64) (int, error) {
			work(0)
			return 0, nil
		})}, vxModes[None, int64](mode)...)...),
		NewStage[int64, int64]("b", append([]option[int64, int64]{WithProcessFunction(func(in int64) ([]int64, []int, error) {
			work(1)
			return []int64{in}, []int{0}, nil
		})}, vxModes[int64, int64](mode)...)...),
		NewSink[int64]("c", WithSinkFunction(func(in int64) error {
			work(2)
			got = append(got, in)
			return nil
		})),
	}
	// any set of stages is stalled, and one of the stages decides when.
	set := 1 + zvx.Choose("stalled", 7)
	var stalled []StageLike
	for i := range stages {
		if set&(1<<i) != 0 {
			stalled = append(stalled, stages[i])
		}
	}
	evaluations, stalls, done := 0, 0, 0
	at := zvx.IntRange("stall_at", 0, len(items))
	twice := zvx.Bool("again")
	p, err := NewPipeline(func(p *Pipeline) {
		LinkStagesFanOut(SourceStage[int64](p), StageAtIndex[int64, int64](p, 1))
		LinkStagesFanOut(StageAtIndex[int64, int64](p, 1), SinkStage[int64](p))
	}, WithStages(stages...), WithStallStages(stalled, func() {
		for n := 0; n < 3; n++ {
			for i := range stages {
				zvx.Assert(set&(1<<i) == 0 || !busy[i], "a stalled stage is processing")
			}
			runtime.Gosched()
		}
		done++
	}, func(StageLike) bool {
		zvx.Assert(stalls == done, "the evaluation is called while the pipeline is stalled")
		evaluations++
		stall := evaluations-1 == at || twice && evaluations-2 == at
		if stall {
			stalls++
		}
		return stall
	}, []StageLike{stages[zvx.Choose("evaluated_at", 3)]}))
	zvx.Assert(err == nil, "creating the pipeline fails")
	p.Resume(ctx)
	err = p.Wait(ctx)
	zvx.Assert(err == nil, "a pipeline that stalls fails")
	for i := 0; i < 20; i++ {
		runtime.Gosched()
	}
	zvx.Assert(stalls == done, "the function for a stalled pipeline did not run to its end")
	vxSame(got, items)
	zvx.Reach("done")
}

func vxSame(got, want []int64) {
	zvx.Assert(len(got) == len(want), "not every item is delivered once")
	for i := range got {
		zvx.Assert(got[i] == want[i], "the items are not delivered in their order")
	}
}

// VxAutoResume: a stage that ends after some of the items is resumed, and no item is lost.
func VxAutoResume() {
	zvx.NoNative()
	zvx.Delays(zvx.Param("delays", 1))
	ctx := context.Background()
	items := vxItems(zvx.Param("items", 3))
	ends := make([]bool, len(items))
	for i := range ends {
		ends[i] = zvx.Bool("ends")
	}
	mode := zvx.Choose("mode", 2)
	target := 1 + zvx.Choose("target", 2)
	failAt := zvx.IntRange("failing_call", -1, len(items)-1)
	var got []int64
	closed, failed, n := false, false, 0
	step := func(stage int) error {
		if stage != target {
			return nil
		}
		n++
		if n-1 == failAt {
			closed, failed = true, true
			return errVx
		}
		if ends[n-1] {
			return NoMoreData
		}
		return nil
	}
	end := func(stage int) {
		if stage == target {
			closed = true
		}
	}
	opts := []pipelineOptions{WithStages(
		NewSource[int64]("a", append([]option[None, int64]{WithSourceSlice(&items, func(int64) (int, error) { return 0, nil })}, vxModes[None, int64](mode)...)...),
		NewStage[int64, int64]("b", append([]option[int64, int64]{WithProcessFunction(func(in int64) ([]int64, []int, error) {
			return []int64{in}, []int{0}, step(1)
		}), WithOnNoMoreData[int64, int64](func() ([]int64, []int, error) {
			end(1)
			return nil, nil, nil
		})}, vxModes[int64, int64](mode)...)...),
		NewSink[int64]("c", WithSinkFunction(func(in int64) error {
			err := step(2)
			if err != errVx {
				got = append(got, in)
			}
			return err
		}), WithOnNoMoreData[int64, None](func() ([]None, []int, error) {
			end(2)
			return nil, nil, nil
		})),
	)}
	resume := func() bool { return !closed }
	if target == 1 {
		opts = append(opts, WithAutoResumeAtStage(1, resume, func(p *Pipeline) {
			LinkStagesFanOut(StageAtIndex[int64, int64](p, 1), SinkStage[int64](p))
		}, 2))
	} else {
		opts = append(opts, WithAutoResumeAtStage(2, resume, func(p *Pipeline) {}))
	}
	p, err := NewPipeline(func(p *Pipeline) {
		LinkStagesFanOut(SourceStage[int64](p), StageAtIndex[int64, int64](p, 1))
		LinkStagesFanOut(StageAtIndex[int64, int64](p, 1), SinkStage[int64](p))
	}, opts...)
	zvx.Assert(err == nil, "creating the pipeline fails")
	p.Resume(ctx)
	err = p.Wait(ctx)
	if failed {
		zvx.Assert(errors.Is(err, errVx), "the failure of a stage is not reported")
		zvx.Reach("failure")
		return
	}
	zvx.Assert(err == nil, "a pipeline that resumes by itself fails")
	vxSame(got, items)
	zvx.Reach("complete")
}
