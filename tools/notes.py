notes = {
"C01": ("seeded search over clock, switch, context and fault histories; every frame compared bit for bit with a fresh context", "samples histories of up to 60 (quick) or 160 (thorough) steps on up to 3 well-formed animations"),
"C02": ("seeded search over clock and fault histories; every frame compared with a cache-free f64 interpolation of the stored keys", "tolerance 8e-6 of the key magnitude; well-formed animations only"),
"C03": ("seeded search over playback histories with crashes at arbitrary steps: everything saved in one of six serde and rkyv forms, lost, restored into other memory; results and saved bytes compared with the uninterrupted history", "intact snapshots; finite values; histories of up to 60 steps"),
"C04": ("seeded discrete-event simulation of lock-step peers over a lossy network with prediction, rollback, crash and restart from (torn) saves, late joins, clock rates and stalls; every confirmed tick is compared bit for bit with a reference without history, and progress after the faults stop is bounded", "2-4 peers, 4-24 ticks (thorough: 60), 1-2 characters of up to 40 joints; one architecture"),
"C05": ("seeded scheduling of real threads at every taking, use and return of a lock-protected buffer and every reach for a shared asset, with preemption inside job runs, waiting in the real lock, panicking holders, rewritten and resized buffers; each run of the history is recomputed alone from the contents it took, and deadlocks are observed", "2-6 threads with up to 3 jobs each; seams are the buffer and object traits, so a data race between two seams of safe code is not explored"),
"C06": ("seeded search over poisonings at chosen instants, repairs and replacements of every buffer of every job kind; result codes, untouched buffers and results after healing are checked against fresh jobs", "the panicking holder is a simulated thread that dies while it holds the guard; buffers of the Arc<RwLock> kind"),
"C07": ("seeded search over histories in which resources are dropped, shrunk, grown and restored between frames; a refused run must leave outputs and context as they were, agree with validate(), and leave no trace in later results", "resources and sizes drawn per step; every job kind and five ownership styles"),
"C08": ("seeded search over archives and delivery schedules (short reads, one byte at a time, interruptions, both byte orders, several objects back to back); the loaded object is compared field by field with what was written", "archives of up to some tens of joints, tracks and keys per object; well-formed content"),
"C09": ("seeded search over cut positions, error kinds and delivery schedules of archive streams, with retries; the kind of the error, the absence of an object and the absence of a leak are checked", "one fault per load, several loads per run"),
"C10": ("seeded search over damage patterns (bit flips, torn, zeroed, lost, duplicated and extreme fields) with a memory model that bounds allocations, checks canaries and turns refused memory into an observable event", "damage of up to some fields and ranges per archive; what is done with a damaged object that loads is limited to inspection, cloning and dropping"),
"C11": ("seeded search over operation histories executed twice under different simulated memory (previous content, address reuse, guard pages) with identical results required, plus refused allocations at chosen points", "contexts of up to 300 tracks; out-of-bounds reads of blocks below 48 bytes are not seen"),
"C12": ("seeded search over divisions of a played span into frames, loops and reversals; edges of all frames compared with an exact model and with the span played in one piece", "spans whose bounds f32 can still resolve to a loop; tracks of up to some tens of keys"),
"C13": ("seeded search over clocks with jitter, pauses, reversals and loops; sampling and triggering observed as one signal against the stored curve", "edge times judged with f32 slack near a crossing"),
"C14": ("seeded search over histories of layer, skeleton and fault changes; each frame compared with an f64 model of the current layers and bit for bit with a new job", "finite poses and weights; tolerance scaled to the accumulated weights"),
"C15": ("seeded search over histories of edits and limited updates, overrides and faults; matrices compared with a full recomputation and a parent-times-local model", "skeletons of up to some hundred joints in depth-first order"),
"C16": ("seeded search over batch divisions, orders, reconfigurations and faults; vertices compared with an f64 weighted sum and with one batch", "finite matrices and weights; up to a few hundred vertices"),
"C17": ("seeded search over histories of settings, runs, failures, clears and resource exchanges of long-lived jobs in five ownership styles; every run compared bit for bit with a new job given the current settings", "histories of up to some tens of steps; finite settings"),
"C18": ("seeded simulation of an application that runs the solvers frame after frame in closed loop (moving and jumping targets, dropped frames, unusable targets, refused runs, restarts, weights, feedback of the corrected pose); each frame compared with an f64 model of where the chain can be, and once targets rest the corrections must fade within a bounded number of frames", "chains of 0.05 to 100 units with uniformly scaled joints; tolerances grow where the geometry leaves the answer open"),
"C19": ("seeded simulation of a mixed fleet: every scenario of the other properties (clocks, faults, crashes, lock-step peers), chains of the public math functions and histories whose state travels as snapshots run on five builds of the code (x86-64 in three profiles, wasm32 with and without vectors in V8); all recorded outputs and verdicts are compared bit for bit", "no arm64 member (no target library, emulator or processor here); scenarios that need unwinding are not compared on wasm32; all NaNs count as equal"),
"C20": ("seeded search over damage of saved bytes and of the content of well-formed snapshots in six formats and archives; what is restored is inspected, saved, cloned and run through the jobs with a memory model that bounds allocations, fences blocks with inaccessible pages and checks canaries; contexts used with damaged objects are compared with new ones afterwards", "unvalidated rkyv access is outside; a job may panic on a damaged object; small objects mostly"),
}
not_applicable = {
}
