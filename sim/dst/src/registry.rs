//! The properties and how much of each a run explores.
use crate::case::*;
#[cfg(feature = "lib")]
use crate::props_lib::*;
use crate::props_os::*;
use crate::props_runs::*;
use crate::rng::Rng;
use crate::world::World;

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng, &mut World) -> Vec<Case>,
    pub run: fn(&Case, &mut World) -> Verdict,
    pub quick: u64, // batches
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub shrink: &'static [&'static str], // contents the minimiser may shorten
    pub assumptions: &'static [&'static str],
}

const OS: &str = "real code: the unmodified pw_diff and pw_patch programs built from /repo (all of their code, temp-file, serde_json, clap, std); stub: the kernel's file system, clock of calls, process ids, randomness and scheduler (simulated behind the libc calls)";
const LIB: &str = "real code: pw_diff_lib / pw_cub_diff_lib built from /repo and called in process (plus, for the cases marked prog, the programs on the simulated machine); stub: the streams it reads and writes, hash seeds, rayon's worker pool";
const A_OS: &[&str] = &[
    "the simulated file system stands for a POSIX one: a rename or link is atomic, names changed before a power failure survive in order up to some point, file data not synced may be lost or torn",
    "errors are injected at libc calls; a call that fails has no effect unless the fault says so",
];
const A_LIB: &[&str] = &["streams keep the contract of Read and Write: a transfer never exceeds what was offered"];
const AB: &[&str] = &["a", "b"];
const ABT: &[&str] = &["a", "b", "t"];

pub const PROPS_OS: &[Prop] = &[
    Prop { id: "C01", gen: c01_gen, run: c01_run, quick: 36000, thorough: 1500000, shrink: AB, assumptions: A_OS, real: OS,
        rule: "a pair of contents (text, bytes, mixed, absent on one side; small alphabets, buffer-size padding, missing final line ends) is diffed and patched by the real programs with seeded short and interrupted transfers and hash seeds; non-trivial: at least one transfer was shortened or interrupted" },
    Prop { id: "C02", gen: c02_gen, run: c02_run, quick: 16000, thorough: 700000, shrink: AB, assumptions: A_OS, real: OS,
        rule: "a history of 1..5 forward and reverse patch runs with an I/O error in a third of them; non-trivial: an error fired or a transfer was shortened or interrupted" },
    Prop { id: "C03", gen: c03_gen, run: c03_run, quick: 10000, thorough: 300000, shrink: ABT, assumptions: A_OS, real: OS,
        rule: "one kill or power failure at a call of a recorded dry run (before, after, or inside a write), seeded loss of unsynced state, then a rerun, one in five on a target another party edited; non-trivial: the crash fired or a transfer was shortened or interrupted" },
    Prop { id: "C04", gen: c04_gen, run: c04_run, quick: 16000, thorough: 600000, shrink: ABT, assumptions: A_OS, real: OS,
        rule: "one or two I/O errors at calls of a recorded dry run, or limited space, one in five on a target another party edited; non-trivial: a fault fired or a transfer was shortened or interrupted" },
    Prop { id: "C05", gen: c05_gen, run: c05_run, quick: 16000, thorough: 600000, shrink: ABT, assumptions: A_OS, real: OS,
        rule: "one or two I/O errors at calls of a recorded dry run, or limited space, one in five on a target another party edited; the directory tree before and after is compared; non-trivial: a fault fired or a transfer was shortened or interrupted" },
    Prop { id: "C06", gen: c06_gen, run: c06_run, quick: 14000, thorough: 600000, shrink: AB, assumptions: A_OS, real: OS,
        rule: "creating runs where the name is taken beforehand, is taken by another process just before some call, or an I/O error, kill or power failure strikes at some call; non-trivial: one of these happened during the run or a transfer was shortened or interrupted" },
    Prop { id: "C07", gen: c07_gen, run: c07_run, quick: 9000, thorough: 450000, shrink: AB, assumptions: A_OS, real: OS,
        rule: "diff runs with errors at input and output calls, limited output space or unreadable inputs; non-trivial: a fault fired, space ran out or a transfer was shortened or interrupted" },
    Prop { id: "C08", gen: c08_gen, run: c08_run, quick: 14000, thorough: 600000, shrink: &["a", "b", "patch"], assumptions: A_OS, real: OS,
        rule: "a patch file cut off at a seeded place or with one to three alterations; every case is non-trivial" },
    Prop { id: "C09", gen: c09_gen, run: c09_run, quick: 5500, thorough: 250000, shrink: &["a0", "b0", "a1", "b1", "a2", "b2"], assumptions: A_OS, real: OS,
        rule: "two or three programs (patching the same file, or patching and diffing different files with related names) interleaved at every simulated call by a seeded list of preemptions; non-trivial: at least one switch between running programs, or a shortened or interrupted transfer; distinct by the hash of the interleaved call trace" },
    Prop { id: "C15", gen: c15_gen, run: c15_run, quick: 20000, thorough: 1000000, shrink: ABT, assumptions: A_OS, real: OS,
        rule: "the named file was edited, replaced, emptied, created or deleted by another party between diffing and patching; every case is non-trivial" },
    Prop { id: "C19", gen: c19_gen, run: c19_run, quick: 16000, thorough: 700000, shrink: ABT, assumptions: A_OS, real: OS,
        rule: "patch runs under seeded permission bits and creation masks, one in five on a target another party edited, with an I/O error, kill or power failure at a seeded call; non-trivial: a fault fired or a transfer was shortened or interrupted" },
    Prop { id: "C20", gen: c20_gen, run: c20_run, quick: 12000, thorough: 300000, shrink: ABT, assumptions: A_OS, real: OS,
        rule: "patch and diff runs among watched neighbour files (some with the temporary's names) with errors or kills at seeded calls; non-trivial: a fault fired or a transfer was shortened or interrupted" },
    Prop { id: "C21", gen: c21_gen, run: c21_run, quick: 16000, thorough: 700000, shrink: ABT, assumptions: A_OS, real: OS,
        rule: "patch runs on files with seeded permission bits under seeded creation masks, one in five on a target another party edited, with an I/O error, kill or power failure at a seeded call; the permission bits of every file made are taken at every instant; non-trivial: a fault fired or a transfer was shortened or interrupted" },
    Prop { id: "C22", gen: c22_gen, run: c22_run, quick: 16000, thorough: 700000, shrink: &["a", "b", "t", "patch"], assumptions: A_OS, real: OS,
        rule: "patch and diff runs that cannot do what they were asked: I/O errors, limited space, edited, missing or unreadable files, cut off patches, in one third with a standard error that takes nothing; non-trivial: a fault fired, space ran out or a transfer was shortened or interrupted" },
    Prop { id: "C23", gen: c23_gen, run: c23_run, quick: 9000, thorough: 300000, shrink: AB, assumptions: A_OS, real: OS,
        rule: "one to four disturbed runs of one command (lasting errors, full or refusing devices, kills, power failures, with the same or another process id), then one undisturbed run; non-trivial: a fault fired, space ran out or a transfer was shortened or interrupted" },
];

/// Those that call the libraries in process.
#[cfg(feature = "lib")]
pub const PROPS_LIB: &[Prop] = &[
    Prop { id: "C10", gen: c10_gen, run: c10_run, quick: 22000, thorough: 1000000, shrink: ABT, assumptions: A_LIB, real: LIB,
        rule: "one stream operation (read lines, bytes, diffs; write diffs, added files, patched content; or a program run) with seeded division into short transfers and interruptions, against the undivided run; non-trivial: a transfer was divided or interrupted" },
    Prop { id: "C11", gen: c11_gen, run: c11_run, quick: 16000, thorough: 700000, shrink: ABT, assumptions: A_LIB, real: LIB,
        rule: "one stream operation with one failing read, failing write or write taking nothing at a seeded byte position; non-trivial: the failure was reached" },
    Prop { id: "C12", gen: c12_gen, run: c12_run, quick: 1200, thorough: 60000, shrink: AB, assumptions: A_LIB, real: LIB,
        rule: "a diff computed under several (worker count, schedule seed, hash seed) triples, one case in 24 with more than 2000 common runs so that the parallel sort forks; non-trivial: more than one worker or another hash seed than the reference" },
    Prop { id: "C13", gen: c13_gen, run: c13_run, quick: 90000, thorough: 4000000, shrink: &[], assumptions: A_LIB, real: LIB,
        rule: "a history of one party's changes and another party's insertions and deletions outside every context; non-trivial: the other party changed at least one line" },
    Prop { id: "C14", gen: c14_gen, run: c14_run, quick: 200000, thorough: 12000000, shrink: ABT, assumptions: A_LIB, real: LIB,
        rule: "a diff applied in a seeded direction to a version of the file edited by others (including partly patched and duplicated stretches), the outcome explained by an independent search over all placements; non-trivial: the target differs from the diff's own starting file" },
    Prop { id: "C16", gen: c16_gen, run: c16_run, quick: 150000, thorough: 8000000, shrink: ABT, assumptions: A_LIB, real: LIB,
        rule: "a diff applied, and asked whether applied, to targets of unrelated size and content; every case is non-trivial" },
    Prop { id: "C17", gen: c17_gen, run: c17_run, quick: 28000, thorough: 1200000, shrink: ABT, assumptions: A_OS, real: LIB,
        rule: "the question whether a diff is applied, put to its result, its origin and edited versions; and patch runs cut short by kills or power failures, then repeated one to three times; every question is non-trivial, a retry history when a crash fired or a transfer was divided" },
    Prop { id: "C18", gen: c18_gen, run: c18_run, quick: 200000, thorough: 6000000, shrink: &["t"], assumptions: A_LIB, real: LIB,
        rule: "a unified clump delivered whole, cut off, or altered, over a stream with seeded division and read failures; non-trivial: cut, altered, divided or failing" },
];
#[cfg(not(feature = "lib"))]
pub const PROPS_LIB: &[Prop] = &[];

pub fn prop(id: &str) -> Option<&'static Prop> {
    props().find(|p| p.id == id)
}

pub fn props() -> impl Iterator<Item = &'static Prop> {
    PROPS_OS.iter().chain(PROPS_LIB.iter())
}
