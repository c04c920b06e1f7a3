#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

p("C01", "Sampling does not depend on the playback history of the context",
  "Sampling a live animation at a time ratio gives bit-identical joint transforms whatever was done before with the same sampling context: forward and backward seeks, pauses, out-of-range times, switches between animations, clearing, cloning, failed runs, or a context created for more tracks than the animation has. "
  "Only the animation and the clamped ratio decide the result, and output elements beyond the animation's tracks keep their previous content.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of clock movements (drift, jump, reversal, pause, NaN), animation switches, context operations and failed runs, on every well-formed animation including those with seek frames",
  "The tests play a handful of files forward in fixed steps with one fresh context of exactly the right size; the cache is a state machine whose bugs need a particular order of seeks, switches and reuse.",
  ["src/sampling_job.rs", "src/animation.rs"],
  [("cache update: seek frame / forward / rewind", "src/sampling_job.rs update_cache, initialize_cache, track_forward, track_backward"),
   ("outdated bits drive decompression", "src/sampling_job.rs outdate_cache, decompress_float3, decompress_quat"),
   ("cache reset on animation change", "src/sampling_job.rs step_context")],
  [("cache entries", "key index currently right of the playback time, per track", "SamplingContextInner.*_entries"),
   ("next", "next key to push in the cache", "SamplingContextInner.*_next")],
  ["SamplingJob output buffer after each run"])

p("C02", "The sampled pose is the interpolation of the stored keyframes",
  "At every instant of every playback, a joint's sampled translation and scale are the linear interpolation, and its rotation the normalised linear interpolation, of the two stored keyframes of that joint that bracket the instant (up to f32 rounding). "
  "Rotations are unit quaternions and no finite animation ever produces a non-finite value.",
  ["histories", "inputs"],
  "every well-formed animation (joint count, irregular and per-joint key times, seek-frame layout, 8/16 bit time indices) and every moving clock, compared with an executable reference that does not use the cache",
  "Tests compare a few exported clips with recorded output of the same code at regular instants; they cannot tell a wrong key selection that was also wrong when recorded, nor reach other key layouts.",
  ["src/sampling_job.rs", "src/animation.rs", "src/math.rs"],
  [("key lookup and decompression", "src/sampling_job.rs update_cache, decompress_*"),
   ("seek frame decoding", "src/sampling_job.rs decode_gv4_stream"),
   ("key decoding", "src/animation.rs Float3Key, QuaternionKey"),
   ("interpolation", "src/sampling_job.rs interpolates, src/math.rs lerp/nlerp")],
  None, ["SamplingJob output buffer after each run"])

p("C03", "A snapshot taken at any instant restores to an indistinguishable state",
  "Saving the sampling context, animations, skeletons and tracks at any point of a run with either supported serialisation format, losing everything in memory, and restoring into a fresh process yields objects equal to the saved ones, and every later result is bit-identical to the run that was never interrupted. "
  "Saving the same state twice, or saving a restored state, gives the same bytes.",
  ["crash_points", "histories", "inputs"],
  "every crash point in every playback, every object kind, both formats, any number of successive crashes, restored into memory with arbitrary previous content",
  "The tests serialise a few objects right after loading and never resume playback from a restored one, so a field that is lost, reordered or restored to a default goes unnoticed.",
  ["src/sampling_job.rs", "src/animation.rs", "src/skeleton.rs", "src/track.rs", "src/math.rs", "src/track_triggering_job.rs"],
  [("rkyv/serde of SamplingContext", "src/sampling_job.rs"), ("rkyv/serde of Animation", "src/animation.rs to_raw/from_raw"),
   ("rkyv/serde of Skeleton and its name map", "src/skeleton.rs"), ("deterministic hasher", "src/base.rs DeterministicState")],
  None, ["restored objects' accessors", "job outputs after restore", "serialised bytes"])

p("C04", "Lock-step peers never diverge",
  "Peers that load the same assets and apply the same confirmed inputs compute bit-identical poses, matrices, skinned vertices, root motion, IK corrections and track events at every tick. "
  "This holds whatever message loss, duplication, reordering and delay they saw, however often they rolled back, crashed and resumed from a snapshot, joined late, or owned their buffers differently, and once faults stop every peer reaches the last tick.",
  ["schedules", "crash_points", "fault_sequences", "configurations"],
  "every delivery order, loss pattern, partition, clock rate, rollback depth, crash/restart point, memory content and buffer ownership style, for a full character pipeline",
  "Tests compare one process with files recorded by the same code path; no test runs two peers with different histories, rollback, or different buffer kinds.",
  ["src/sampling_job.rs", "src/blending_job.rs", "src/local_to_model_job.rs", "src/skinning_job.rs", "src/ik_two_bone_job.rs", "src/ik_aim_job.rs", "src/track_triggering_job.rs", "src/track_sampling_job.rs", "src/motion_blending_job.rs", "src/base.rs", "src/skeleton.rs"],
  [("no hidden state outside contexts", "all jobs"), ("deterministic hashing", "src/base.rs DeterministicState"),
   ("context snapshot", "src/sampling_job.rs"), ("buffer ownership traits", "src/base.rs OzzBuf/OzzMutBuf")],
  None, ["per-tick digest of every peer"])

p("C05", "Concurrent pipelines behave like some sequential execution of their jobs",
  "When threads share animations, skeletons, tracks and lock-protected buffers, every job run sees each buffer it reads as one other run left it, whole, never a mix of two, and its outputs and results are exactly those the job computes alone from these contents; each output buffer changes for the others all at once, when the run is done with it. "
  "Pipelines whose buffers form no cycle and have one role each never deadlock, and every started job finishes once it gets to run.",
  ["schedules", "histories"],
  "every interleaving of job runs at buffer acquisition, buffer access and release, for every mix of producers, blenders, consumers and observers on shared buffers",
  "All tests are single-threaded; a lock released too early, taken twice or in another mode, or hidden shared scratch state cannot fail in them.",
  ["src/base.rs", "src/sampling_job.rs", "src/blending_job.rs", "src/local_to_model_job.rs", "src/skinning_job.rs", "src/track_sampling_job.rs", "src/track_triggering_job.rs"],
  [("read/write guards held for the whole run", "src/base.rs Arc<RwLock<Vec<T>>> impls; run() of each job"),
   ("immutable shared resources", "src/animation.rs, src/skeleton.rs unsafe impl Sync")],
  None, ["history of (invoke, lock, read, write, return) events with buffer contents"])

p("C06", "A poisoned buffer is reported as such, harms nothing else, and heals",
  "When a thread panics while holding a shared buffer, every later job run that needs that buffer returns the lock-poisoned error (and its validation says false) instead of panicking, blocking, reporting another error or producing output. "
  "Jobs that do not need it are unaffected, no output buffer is changed by the refused run, and after the buffer is replaced or its poison cleared the same job objects give exactly the results of fresh ones.",
  ["fault_sequences", "schedules"],
  "every job kind, every input and output buffer as the victim, every instant of the panic relative to the other jobs, any number of poisonings and repairs in a run",
  "No test poisons a lock; the error path exists only for schedules in which another thread dies.",
  ["src/base.rs", "src/sampling_job.rs", "src/blending_job.rs", "src/local_to_model_job.rs", "src/skinning_job.rs"],
  [("poison mapped to an error", "src/base.rs buf()/mut_buf() for Arc<RwLock<Vec<T>>>"),
   ("buffers acquired before any write", "run() of each job")],
  None, ["run()/validate() results and buffer contents"])

p("C07", "A refused job has no effect",
  "If a job's resources are missing or too small at the moment it runs, the run returns the invalid-job error without panicking and leaves every output buffer and its sampling context exactly as they were; validation says beforehand whether the run will be accepted. "
  "After the resource is supplied again the same job gives the result of a job that never failed.",
  ["histories", "fault_sequences", "inputs"],
  "every job kind, every resource dropped, shrunk, grown or restored between frames in any order, including resources checked late in the run such as the last blending layer",
  "Tests check refusal on fresh default jobs and look only at the returned error, not at what the refused run did to buffers, contexts or the following frames.",
  ["src/sampling_job.rs", "src/blending_job.rs", "src/local_to_model_job.rs", "src/skinning_job.rs", "src/track_sampling_job.rs", "src/track_triggering_job.rs", "src/ik_aim_job.rs", "src/ik_two_bone_job.rs"],
  [("checks before any operation", "run() and validate() of each job")],
  None, ["run()/validate() results, buffer contents, context state"])

p("C08", "An archive loads to the same object however its bytes arrive",
  "Loading a skeleton, animation or track from a stream gives the same object for every way the stream may legally deliver the bytes (any split into short reads, interrupted calls) and for both byte orders, consumes exactly the object's bytes, and so reads any sequence of objects stored back to back. "
  "The loaded object holds exactly the stored values, names and hierarchy.",
  ["schedules", "inputs", "fault_sequences"],
  "every well-formed archive (all object kinds, little and big endian, empty to large), every chunking and interruption schedule",
  "Tests load a few little-endian files through the page cache in one piece; the byte-swapping branch and short reads never run.",
  ["src/archive.rs", "src/endian.rs", "src/animation.rs", "src/skeleton.rs", "src/track.rs", "src/math.rs"],
  [("typed reads with byte swap", "src/archive.rs primitive_reader"), ("loaders", "from_archive of Skeleton, Animation, Track")],
  None, ["loaded object's accessors, stream position"])

p("C09", "A failing or truncated stream gives an error, never a wrong object",
  "If the stream ends or fails at any byte while an object is loaded, the load returns the I/O error with the stream's error kind, does not panic, keeps no memory, and produces no object; a wrong tag or version gives the tag or version error and invalid text the text error. "
  "Reading fewer bytes than an object needs never succeeds, and loading from an intact copy afterwards works.",
  ["fault_sequences", "crash_points", "inputs"],
  "every cut position and every error kind at every read of every archive kind, with arbitrary previous memory content, followed by retries",
  "No test injects a read error or truncation; a loader that ignores one result still passes.",
  ["src/archive.rs", "src/base.rs", "src/animation.rs", "src/skeleton.rs", "src/track.rs"],
  [("error propagation", "src/archive.rs read_exact + ?"), ("error conversion", "src/base.rs From<std::io::Error>"),
   ("tag and version checks", "read_meta/from_archive")],
  None, ["result of from_archive"])

p("C10", "Damaged archive bytes never take the process down while loading",
  "Loading an archive in which stored bytes were damaged (bit flips, torn or zeroed blocks, lost or duplicated ranges) ends in an error or in an object, within memory proportional to the bytes actually supplied; it never aborts, accesses invalid memory, loops without end or overflows. "
  "A damaged object that does load can be inspected and dropped safely.",
  ["fault_sequences", "inputs"],
  "every damage pattern at every position of every archive kind, in particular counts and lengths",
  "No test damages a file.",
  ["src/archive.rs", "src/animation.rs", "src/skeleton.rs", "src/track.rs"],
  [("element counts from the file decide allocations", "Animation::new, Skeleton::new, ArchiveRead::read_vec")],
  None, ["process outcome, result of from_archive, peak allocation"])

p("C11", "Results do not depend on what memory held before",
  "Whatever bytes fresh memory contains and whichever addresses are reused, contexts, loaded objects and job results are the same: two fresh contexts of one size are equal and serialise to the same bytes, and no run reads or writes outside the memory it was given. "
  "If the system refuses memory, the failure goes through the standard allocation-failure path instead of touching invalid memory.",
  ["fault_sequences", "histories", "configurations"],
  "every previous memory content, address reuse pattern and refused allocation during context creation, loading, restoring and running jobs",
  "Test processes get mostly zeroed memory and never run out of it; uninitialised reads and missing null checks are invisible there.",
  ["src/sampling_job.rs", "src/animation.rs", "src/skeleton.rs"],
  [("raw allocation and carving", "SamplingContext::new, Animation::new, Skeleton::new"),
   ("cache invalidation by animation identity", "src/sampling_job.rs step_context")],
  None, ["equality and bytes of objects created under different memory contents; canaries around allocations"])

p("C12", "Track edges are reported exactly once however time is cut into frames",
  "Playing a float track over any time span reports the same edges, in time order and each exactly once, however the span is cut into consecutive frames and however often it loops; playing the span backward reports the same edges in reverse with opposite polarity. "
  "The iteration always ends.",
  ["schedules", "histories", "inputs"],
  "every division of every forward or backward span (any sign, multiple loops, frame boundaries on keys, loop points and edges) into frames, for every float track and threshold",
  "Tests use a few hand-written tracks and ranges; exactly-once at a frame boundary must hold for each boundary, edge and loop combination.",
  ["src/track_triggering_job.rs", "src/track.rs"],
  [("half-open ranges and loop carry", "src/track_triggering_job.rs TrackTriggeringIter::next"), ("edge time", "src/track_triggering_job.rs detect_edge")],
  None, ["concatenated edges of all frames"])

p("C13", "Edges agree with what sampling the track shows",
  "During any playback the track's sampled value is above the threshold exactly when the last edge reported was a rising one (and not above when it was a falling one), each edge is reported at the time at which the sampled value crosses the threshold, and edges alternate. "
  "The sampled value itself is the stored step or linear curve, clamped to its ends.",
  ["histories", "schedules", "inputs"],
  "every clock (jitter, pauses, reversals, loops), track, interpolation mode mix, threshold and value type",
  "Tests check the two jobs separately on fixed tracks and never as one signal over a running clock.",
  ["src/track_triggering_job.rs", "src/track_sampling_job.rs", "src/track.rs"],
  [("edge detection", "src/track_triggering_job.rs detect_edge"), ("curve lookup", "src/track_sampling_job.rs run")],
  None, ["sampled values and edges along a clock"])

p("C14", "A blended frame depends only on that frame's layers",
  "In any sequence of frames with layers added, removed, reweighted, masked or failing in between, the blended pose equals the weighted, normalised combination of the current layers (per joint where masked, completed by the rest pose below the threshold, then the additive layers), computed as if the job had never run before. "
  "Output elements beyond the skeleton keep their previous content.",
  ["histories", "inputs", "fault_sequences"],
  "every history of layer changes, skeleton changes and failed runs on one job and context, every weight sign, mask and threshold, dirty and oversized output buffers",
  "Tests blend a few fixed layer sets, mostly on fresh jobs with exactly sized outputs, so stale accumulators or buffer contents cannot show.",
  ["src/blending_job.rs", "src/math.rs"],
  [("accumulators reset per run", "src/blending_job.rs run"), ("passes", "blend_layers, blend_rest_pose, normalize, add_layers")],
  [("accumulated weights", "per-joint weight sums kept in the context between runs", "BlendingContext")],
  ["BlendingJob output buffer after each run"])

p("C15", "Partial hierarchy updates keep model matrices consistent",
  "After any history of local-pose edits, each followed by an update limited to the joint or subtree edited, the model-space matrices equal those of a full recomputation; an update with limits changes only the joints in the limits and leaves every other matrix untouched. "
  "A full update makes each joint's matrix its parent's matrix (or the root transform) times its local transform.",
  ["histories", "inputs"],
  "every skeleton shape, every history of edits and from/to/exclusive limits in every order, including model-space overrides of a joint",
  "Tests run a handful of limits on one small skeleton; consistency over a history of partial updates is never checked.",
  ["src/local_to_model_job.rs", "src/math.rs", "src/skeleton.rs"],
  [("range walk in depth-first order", "src/local_to_model_job.rs run"), ("matrix composition", "src/math.rs SoaMat4/AosMat4")],
  None, ["LocalToModelJob output buffer after each run"])

p("C16", "Skinning a mesh in any division and order of batches gives the same vertices",
  "Skinning vertices in any batches, in any order or interleaving, on reused jobs and buffers, gives every vertex the weighted sum of its joints' transforms with the last weight completing the sum to one, and normals and tangents by the inverse-transpose matrices when given. "
  "Vertices outside the requested count are never written and an index without matrix gives the invalid-index error.",
  ["schedules", "histories", "inputs"],
  "every batch division, batch order, influence count, optional-stream combination and history of reconfigurations of the job",
  "Tests skin two vertices once per configuration; the 25 specialised code paths are not compared over batches or reuse.",
  ["src/skinning_job.rs"],
  [("specialised kernels", "src/skinning_job.rs skinning_1!, skinning_impl!"), ("branch selection", "src/skinning_job.rs run")],
  None, ["output positions, normals, tangents after each batch"])

p("C17", "A job object carries nothing over from earlier runs",
  "For every kind of job, running an object that has already run any number of times with other settings and resources gives exactly the outputs of a new object given only the current settings; running it again without changes gives the same outputs again. "
  "The same holds for every supported way of owning the resources and buffers (borrowed, counted, shared between threads, user-defined).",
  ["histories", "configurations"],
  "every history of settings, runs, failures, clears and resource exchanges on a long-lived job, every job kind and ownership style",
  "Tests mostly build a new job per case; leftover flags such as a previous reached result or accumulated sums are not looked for.",
  ["src/sampling_job.rs", "src/blending_job.rs", "src/local_to_model_job.rs", "src/skinning_job.rs", "src/ik_aim_job.rs", "src/ik_two_bone_job.rs", "src/motion_blending_job.rs", "src/track_sampling_job.rs", "src/track_triggering_job.rs", "src/base.rs"],
  [("outputs rewritten on every run", "run() of each job"), ("ownership traits", "src/base.rs OzzObj, OzzBuf, OzzMutBuf")],
  None, ["all outputs of each job after each run"])

p("C18", "IK and root-motion solvers meet their geometric contract",
  "When the two-bone or aim solver reports the target as reached, applying its corrections puts the end joint, respectively the aimed line, on the target; a target out of reach makes the chain stretch or fold towards it as far as bones and softening allow; the chain bends in the plane of target and pole, turned by the twist; a weight below 1 applies that share of the correction; corrections fed back into the pose frame after frame fade once the target rests; root-motion blending returns the weighted mean motion.",
  ["inputs", "histories", "faults"],
  "every chain whose hinge axis is perpendicular to its bones, every target, pole not parallel to the target, twist, weight and softening, every set of motion layers, over every sequence of frames in which these change, jump, drop out or are fed back",
  "Tests check a few hand-picked configurations, each with one run of a new job.",
  ["src/ik_aim_job.rs", "src/ik_two_bone_job.rs", "src/motion_blending_job.rs", "src/math.rs"],
  [("solvers", "run() of the three jobs"), ("rotations between vectors, from cosines and axes", "src/math.rs quat_from_vectors, quat_from_cos_angle, fx4_acos")], None, ["corrections and reached flags, model matrices after the next hierarchy update"])

p("C19", "Builds for different processors compute the same bits and share their state",
  "The same program with the same inputs gives bit-identical results (all NaNs count as the same value) on every supported processor architecture, with and without vector instructions, at every optimisation level and with or without debug assertions; "
  "and what one such build saves, another restores and continues exactly as if it had never moved.",
  ["configurations", "histories", "inputs"],
  "every program over the library (sampling, tracks, blending, hierarchies, skinning, IK, archives, lock-step peers, with clock jumps, refused runs, crashes and restores), every pair of builds between which its state moves",
  "The tests compare with numbers recorded to a tolerance, on one machine and one profile at a time; a zero of the other sign, an intrinsic or libm of another target, a word of another width or an assertion that only one profile has does not show there.",
  ["src/math.rs", "src/animation.rs", "src/sampling_job.rs", "src/blending_job.rs", "src/ik_two_bone_job.rs", "src/ik_aim_job.rs"],
  [("portable simd and libm based math, clamps that choose between zeros", "Cargo.toml glam features, src/math.rs"),
   ("widths and layout of saved and in-memory state", "src/sampling_job.rs SamplingContextInner, src/animation.rs, src/skeleton.rs serde and rkyv code")],
  [("SamplingContext", "cache that travels between builds as a snapshot", "src/sampling_job.rs")],
  ["all outputs of each job after each run, on every build"])

p("C20", "A damaged snapshot or object is refused or harmless",
  "Restoring a sampling context, animation, skeleton, track or pose from a damaged snapshot, through the serde formats or validated rkyv, ends in an error or in an object, within memory proportional to the bytes supplied, never in a panic, an abort or an invalid access. "
  "A restored or loaded object that is damaged can be inspected, cloned, saved and dropped, and every job run on it ends with a result, an error or a panic, without touching memory it was not given; the contexts used with it, once cleared or given another animation, sample as new ones do.",
  ["inputs", "faults", "histories"],
  "every damage of stored bytes (bit flips, torn, lost, zeroed, duplicated or misdirected ranges) and every well-formed snapshot with wrong content (lists of other lengths, extreme numbers, other kinds of values), in every format, at every point of a playback",
  "The tests restore only what was saved a moment before; a length that is trusted, a pointer that is not checked or a count used before the content it announces needs one specific damage and a memory that refuses or is fenced.",
  ["src/sampling_job.rs", "src/animation.rs", "src/skeleton.rs", "src/track.rs", "src/math.rs"],
  [("raw memory sized by a stored count, filled from stored lists", "src/sampling_job.rs SamplingContext::new and its Deserialize, CheckBytes; src/skeleton.rs, src/animation.rs from_raw"),
   ("indices taken from stored data", "src/sampling_job.rs update_cache, decompress, decode_gv4; src/skeleton.rs iter_depth_first")],
  [("SamplingContext", "raw block whose parts are sized by max_tracks", "src/sampling_job.rs")],
  ["outcome of each restore, memory used, content shown, outcome of each job run, later samples of the contexts"])


out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
