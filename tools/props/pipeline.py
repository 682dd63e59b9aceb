PL = "./pkg/pipeline"
PLF = ["pipeline/pipeline.go"]
def plh(f, bounds, quick, thorough):
    return h(f, PL, PLF, bounds, {"params": quick}, {"params": thorough, "sec": 900})
prop("Q01", "Pipelines deliver every item exactly once and always report a failing stage",
 """A pipeline of linked stages delivers all outputs for every item of its source exactly once to the next stages, including what a stage streams or keeps until there is no
 more data, and then ends without error. If a stage fails at any call, Wait returns an error with that failure in every schedule: it neither blocks forever nor reports
 success, and what was delivered is not duplicated. When Wait returns, no stage is processing any more, and the pipeline can be resumed and works like the first time.""",
 ["inputs", "schedules", "fault_sequences"], "every item, route, number of outputs and failing call within the bounds, the three ways to send outputs, stages that keep or stream items, and every schedule with the bounded number of deviations from a deterministic one",
 "The tests run each topology once, without failures; a blocked or lost failure needs a stage to fail while its neighbours are at specific points.",
 ["pkg/pipeline/stage.go", "pkg/pipeline/source.go", "pkg/pipeline/sink.go", "pkg/pipeline/pipeline.go", "pkg/util/errors.go", "pkg/util/slice.go"],
 [("stages", "pkg/pipeline/stage.go processThisStage, breakPipelineAndWait, sendOutputs*, aggregate*"), ("links", "pkg/pipeline/stage.go LinkStagesAt, LinkStagesCrissCross"), ("source", "pkg/pipeline/source.go Prepare, WithSourceSlice")],
 observe=["Pipeline.Wait", "the sink's function"],
 harnesses=[
  plh("VxLinear", "source, stage and sink; 2 items (thorough 3), up to 3 outputs per item; 1 (thorough 2) deviations", {"delays": 1, "outputs": 2}, {"delays": 2, "items": 2, "outputs": 3}),
  plh("VxBranches", "two branches that join in a sink; 2 items, without deviations (thorough: 1), resumed once", {"delays": 0, "again": 1, "calls": 8}, {"delays": 1, "outputs": 2, "mode": 0}),
  plh("VxShared", "two layers of two stages that share a channel; 2 items, without deviations (thorough: 1), resumed once", {"delays": 0, "again": 1, "calls": 8, "items": 3}, {"delays": 1, "outputs": 2, "calls": 8}),
  plh("VxSeparate", "two branches that do not join, sinks that yield while they process or not; 2 items, without deviations (thorough: 1), resumed once", {"delays": 0, "again": 1, "calls": 8, "slow": 12, "items": 3}, {"delays": 1, "outputs": 2, "mode": 0, "slow": 6}),
  plh("VxMesh", "two layers of two stages, fully connected, sinks that yield while they process or not; 2 items, without deviations (thorough: 1), resumed once", {"delays": 0, "outputs": 2, "again": 1, "calls": 8, "slow": 6}, {"delays": 1, "outputs": 2, "mode": 0}),
 ],
 outside=["stages that read their inputs in turns need the same number of items on each input", "stages other than the source that end the pipeline without an error (NoMoreData) while other branches go on", "JoinTwoPipelines, which no program of the repository uses"],
)
prop("Q02", "Stalled stages do not process; stages that resume by themselves lose nothing",
 """While the function for a stalled pipeline runs, none of the stages to stall processes an item, and no evaluation takes place; afterwards the pipeline goes on, so that all
 items are delivered once, in their order, and each stall leads to exactly one call. A stage with auto-resume that ends after any of its items is resumed without losing,
 duplicating or reordering an item, and its failures are still reported.""",
 ["inputs", "schedules"], "every set of stalled stages, every place and moment of the stalls, every set of items after which the stage ends, and every schedule with the bounded number of deviations from a deterministic one",
 "The tests stall with timers and look at one schedule; a stage that slips through while the others stall only shows in specific schedules.",
 ["pkg/pipeline/stall_resume.go", "pkg/pipeline/stage.go"],
 [("stall", "pkg/pipeline/stall_resume.go WithStallStages"), ("resume", "pkg/pipeline/stall_resume.go WithAutoResumeAtStage")],
 observe=["whenStalled", "the sink's function"],
 harnesses=[
  plh("VxStall", "source, stage and sink, 2 (thorough 3) items, at most two consecutive stalls; 1 (thorough 2) deviations", {"delays": 1, "items": 2}, {"delays": 2}),
  plh("VxAutoResume", "source, stage and sink, the stage or the sink resumes, 3 items; 1 (thorough 2) deviations", {"delays": 1}, {"delays": 2}),
 ],
 outside=["a failing stage whose condition for resuming stays true"],
)
