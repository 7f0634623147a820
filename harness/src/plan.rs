//! Which monitors decide which property, and how much of each the tiers run.
pub struct Job { pub mon: String, pub units: u64, pub batch: u64, pub watchdog: u64, pub exe: Option<String>, pub env: Vec<(String, String)>, pub exit_is_report: bool, /// what the monitor finds is another property's business; only the death of the process counts
 pub only_fatal: bool }
pub struct Plan { pub jobs: Vec<Job>, pub rule: &'static str, pub level: &'static str, pub assumptions: Vec<&'static str>, pub min: Vec<(String, u64)> }

const SCEN: &str = "Each case is a generated history: one to four valid modules from a type-directed generator (seeded) and a sequence of embedder actions (instantiate with imports, call exports, host reads and writes) over one store. It runs on an independent reference interpreter and on tinywasm; after every action results, traps, host calls, and all memories, tables and globals are compared. Non-trivial: at least one guest instruction was executed and compared; distinct by hash of the module bytes and actions.";
const NUM: &str = "Histories compared with the reference interpreter as for the other behavioural properties; and modules of functions around one to a few numeric or vector instructions, operands from locals, constants, globals, memory, blocks, branches and calls, results into every kind of place, called with edge operands: every result, trap, class of a NaN result and choice of a relaxed instruction is judged; for vector instructions also in the build with x86 intrinsics, bit for bit against the portable build. Distinct by hash of the module bytes (and actions).";
const LINK: &str = "Histories compared with the reference interpreter as for the behavioural properties; and sets of host-made, exported and foreign objects of every kind and type, some grown, imported under exact, wider, narrower and wrong declarations through definitions, linked modules and merged import sets: outcome, kind of error, identity of the linked object and absence of effects are judged. Distinct by hash of the modules and what is supplied.";
const ARCH: &str = "Histories as for the behavioural properties, with every module going through serialisation and back before instantiation; and archives of generated modules that are decoded and compared, truncated at every interesting length, or given foreign headers. Distinct by hash of the module bytes (and actions).";
const VERD: &str = "Each case is one byte string (valid generated module, mutated module, or hostile construction) given to every parsing entry point: the verdict is compared with an independent validator, panics and allocations beyond the bound are violations. Distinct by hash of the bytes.";
const THRD: &str = "Each case is one module (mostly beyond the parallel threshold) parsed with many thread counts from bytes and from streams in random chunks; the serialised results must be identical. Distinct by hash of the bytes.";
const DESC: &str = "Each case is one valid module whose every descriptor (imports, exports, types, custom data) is compared with an independent decoder, on the module and on its instance. Distinct by hash of the bytes.";
const BUDG: &str = "Each case is a generated program that never ends (loops, branch tables, recursion, tail calls, host calls) or ends after a known number of rounds, run in fuel and time slices; a memory backend and a host function count what is executed in every slice, and the count is bounded by the budget. Distinct by hash of program and seed.";
const EXEC: &str = "Histories compared with the reference interpreter as for the behavioural properties, and directed generated programs (re-entry at several depths, failures of every kind, recursion around every stack limit, tail-call cycles on tiny stacks) with closed-form expectations. Distinct by hash of modules, actions and configuration.";
const HOST: &str = "Histories compared with the reference interpreter as for the behavioural properties; and directed sequences of embedder operations on one memory (every backend), table or set of globals, each operation and the whole content afterwards compared with a plain array or value. Distinct by hash of the modules and actions, or by seed of the sequence.";
const API: &str = "Each case builds two stores with a module of random signatures and tries every operation of the embedding interface with every kind of mismatch (arity, type, kind, mutability, foreign store, wrong host results), comparing a snapshot of both stores after each refusal; and passes random values of random shapes through typed and untyped calls in both directions. Distinct by seed of the case.";
const UB: &str = "Each case is a generated history, hostile byte string, archive, host-access sequence or order of dropping stores, instances, modules, handles and paused executions, run in the x86 intrinsics build under AddressSanitizer; or a generated module (half of it vector instructions) whose exports are called in slices under Miri with strict alignment. Only what the sanitizer or interpreter reports (or a crash) counts here. Distinct by hash of modules and actions.";
const CLI: &str = "Each case is a session of the built command line tool in a scratch directory: a generated module is compiled (to every kind of destination, from every kind of source), inspected and run with generated options and arguments, or a generated specification script is run; status, output and every file afterwards are compared with what the library returns in this process, formatted here, and with the script's known truth. Distinct by seed of the session.";
const ORACLE: &str = "The reference interpreter (harness/src/refi.rs, refnum.rs) is right; it is validated separately against the specification testsuite by the selftest crate.";

fn job(mon: &str, quick: u64, batch: u64, thorough: bool, factor: u64) -> Job { Job { mon: mon.into(), units: if thorough { quick * factor } else { quick }, batch, watchdog: 60, exe: None, env: vec![], exit_is_report: false, only_fatal: false } }
pub fn plan(id: &str, th: bool) -> Option<Plan> {
    let j = |m: &str, q: u64, b: u64| job(m, q, b, th, 12);
    // in a process with a build that has no std
    let bare = |m: &str, q: u64, b: u64| Job { env: vec![("TW_BARE".into(), concat!(env!("CARGO_MANIFEST_DIR"), "/../bare/target/debug/twbare").into())], ..j(m, q, b) };
    // in the build for a 32-bit machine
    let w32 = |m: &str, q: u64, b: u64| Job { exe: Some(concat!(env!("CARGO_MANIFEST_DIR"), "/../w32/run.sh").into()), watchdog: 120, ..j(m, q, b) };
    let (mut jobs, rule): (Vec<Job>, &'static str) = match id {
        "C01" => (vec![w32("scen:C01", 3000, 100), w32("scen:wide@C01", 300, 30), j("scen:C01", 36000, 250), j("num:C01", 8000, 100), j("scen:peep@C01", 12000, 200), j("scen:wide@C01", 2500, 60), j("scen:big@C01", 150, 6)], NUM),
        "C02" => (vec![w32("scen:C02", 2000, 100), w32("scen:peep", 2000, 100), w32("scen:lone@C02", 2000, 200), j("scen:C02", 36000, 250), j("num:C02", 8000, 100), j("scen:peep", 24000, 200), j("scen:lone@C02", 12000, 500), j("scen:wide@C02", 2500, 60)], NUM),
        "C05" => (vec![w32("scen:C05", 4000, 150), w32("scen:lone@C05", 4000, 300), j("scen:C05", 40000, 250), j("scen:lone@C05", 12000, 500), j("scen:wide@C05", 1500, 60), w32("scen:big@C05", 100, 20), j("scen:big@C05", 1500, 30), j("vast", 1500, 30)], SCEN),
        "C06" => (vec![w32("scen:C06", 2000, 60), w32("hostacc", 3000, 150), j("scen:C06", 20000, 100), j("hostacc", 10000, 300), j("scen:wide@C06", 800, 60), j("scen:big@C06", 500, 15), j("vast", 600, 30)], HOST),
        "C07" => (vec![w32("scen:C07", 6000, 150), w32("scen:weave@C07", 300, 30), j("scen:C07", 40000, 250), j("scen:weave@C07", 2500, 60), j("scen:wide@C07", 2500, 60), w32("scen:big@C07", 40, 5), j("scen:big@C07", 400, 8)], SCEN),
        "C08" => (vec![w32("scen:C08", 1000, 50), j("scen:C08", 9000, 100), j("scen:peep@C08", 3000, 100), j("scen:weave@C08", 1500, 50), j("scen:wide@C08", 800, 60)], SCEN),
        "C09" => (vec![j("budget", 6000, 60)], BUDG),
        "C10" => (vec![w32("scen:C10", 2000, 100), w32("busy", 800, 50), j("scen:C10", 24000, 250), j("scen:weave", 2000, 60), j("busy", 8000, 100), j("scen:wide@C10", 1500, 60)], EXEC),
        "C11" => (vec![w32("scen:C11", 3000, 150), w32("after", 500, 30), j("scen:C11", 30000, 250), j("scen:weave@C11", 1500, 60), j("after", 4000, 60), j("scen:wide@C11", 1500, 60), j("scen:big@C11", 400, 10)], EXEC),
        "C12" => (vec![w32("scen:C12", 2000, 100), w32("limits", 1000, 50), j("scen:C12", 25000, 250), j("scen:weave@C12", 1500, 60), j("limits", 10000, 200), j("tail", 3000, 30), w32("scen:big@C12", 100, 20), j("scen:big@C12", 1500, 60)], EXEC),
        "C13" => (vec![w32("scen:C13", 5000, 150), j("scen:C13", 40000, 250), j("scen:wide@C13", 2500, 60), w32("scen:big@C13", 30, 5), j("scen:big@C13", 250, 6)], SCEN),
        "C14" => (vec![w32("scen:C14", 3000, 150), j("scen:C14", 30000, 250), j("scen:weave@C14", 1000, 60), j("links", 8000, 100), j("scen:wide@C14", 1500, 60)], LINK),
        "C15" => (vec![w32("scen:C15", 2500, 100), w32("archive", 800, 80), j("scen:C15", 25000, 250), j("archive", 6000, 200), j("scen:wide@C15", 2500, 60), j("scen:big@C15", 150, 5)], ARCH),
        "C16" => (vec![j("verdict", 16000, 200)], VERD),
        "C17" => (vec![j("threads", 3000, 50), Job { exe: Some(concat!(env!("CARGO_MANIFEST_DIR"), "/target-tsan/x86_64-unknown-linux-gnu/debug/tw").into()), env: vec![("TSAN_OPTIONS".into(), "exitcode=99:halt_on_error=1:report_signal_unsafe=0".into())], exit_is_report: true, only_fatal: true, watchdog: 120, ..j("threads", 1200, 20) }], THRD),
        "C20" => (vec![w32("describe", 5000, 200), j("describe", 60000, 400)], DESC),
        "C19" => (vec![w32("scen:C19", 2000, 100), w32("scen:weave", 600, 30), j("scen:C19", 24000, 250), j("scen:weave", 6000, 60), j("scen:wide@C19", 2500, 60)], SCEN),
        "C23" => (vec![j("scen:C23", 18000, 250), j("scen:lone@C23", 36000, 500), j("scen:wide@C23", 2500, 60)], SCEN),
        "C24" => (vec![w32("scen:C24", 2500, 100), w32("hostacc", 5000, 200), j("scen:C24", 25000, 250), j("hostacc", 24000, 300), j("scen:wide@C24", 1500, 60), w32("scen:big@C24", 60, 10), j("scen:big@C24", 600, 15), j("vast", 1200, 30)], HOST),
        "C22" => (vec![Job { env: vec![("TW_CLI".into(), concat!(env!("CARGO_MANIFEST_DIR"), "/target-cli/debug/tinywasm").into())], ..j("cli", 1600, 20) }], CLI),
        "C21" => {
            let asan = |m: &str, q: u64, b: u64| Job { exe: Some(concat!(env!("CARGO_MANIFEST_DIR"), "/target-asan/x86_64-unknown-linux-gnu/debug/tw").into()), env: vec![("ASAN_OPTIONS".into(), "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1".into())], exit_is_report: true, only_fatal: true, watchdog: 120, ..j(m, q, b) };
            let miri = Job { exe: Some(concat!(env!("CARGO_MANIFEST_DIR"), "/../miri/run.sh").into()), env: vec![("TWM_DIR".into(), concat!(env!("CARGO_MANIFEST_DIR"), "/../out/miri").into())], exit_is_report: true, only_fatal: true, watchdog: 300, ..j("miri", 96, 6) };
            (vec![miri, asan("scen:C21", 2400, 60), asan("scen:C04", 1200, 60), asan("drops", 1200, 60), asan("scen:weave", 600, 30), asan("api", 160, 10), asan("hostacc", 1200, 60), asan("verdict", 800, 40), asan("archive", 300, 20), asan("busy", 400, 20)], UB)
        }
        "C18" => (vec![w32("api", 300, 15), j("api", 3000, 30)], API),
        "C03" => (vec![w32("scen:C03", 2000, 100), w32("num:C03", 1500, 60), j("scen:C03", 30000, 250), j("num:C03", 20000, 100), j("scen:wide@C03", 1000, 60), bare("bare:C03", 6000, 100)], NUM),
        "C04" => (vec![w32("scen:C04", 2000, 100), w32("num:C04", 1500, 60), bare("bare:C04", 4000, 100), j("scen:wide@C04", 1000, 60), j("scen:C04", 30000, 250), j("num:C04", 16000, 100), Job { exe: Some(concat!(env!("CARGO_MANIFEST_DIR"), "/target-asan/x86_64-unknown-linux-gnu/debug/tw").into()), env: vec![("ASAN_OPTIONS".into(), "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1".into()), ("TW_TWIN".into(), std::env::current_exe().map(|p| p.to_string_lossy().into_owned()).unwrap_or_default())], exit_is_report: true, watchdog: 120, ..j("num:C04", 6000, 60) }], NUM),
        _ => return None,
    };
    // builds that could not be made are left out
    jobs.retain(|j| !(std::env::var_os("TW_NO_W32").is_some() && j.exe.as_ref().is_some_and(|e| e.contains("/w32/")) || std::env::var_os("TW_NO_BARE").is_some() && j.mon.starts_with("bare:")));
    Some(Plan { jobs, rule, level: "exploration", assumptions: vec![ORACLE], min: vec![] })
}
