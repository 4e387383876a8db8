//! Evidence files and the list of known findings.
use crate::{gen, root, Batch};
use std::fmt::Write as _;

pub struct Known {
    pub class: String,
    pub what: String,
}
/// lines `known: property=C05 class=<class> <what fails>` of /verif/known_findings.txt
pub fn known(prop: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let r = l.strip_prefix("known: property=")?;
            let (p, r) = r.split_once(' ')?;
            let r = r.strip_prefix("class=")?;
            let (c, w) = r.split_once(' ')?;
            (p == prop).then(|| Known { class: c.into(), what: w.into() })
        })
        .collect()
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn map(items: &[(String, u64)]) -> String {
    let v: Vec<String> = items.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
    format!("{{{}}}", v.join(", "))
}

#[allow(clippy::too_many_arguments)]
pub fn evidence(prop: &str, tier: &str, seed: u64, b: &Batch, planned: u64, workers: u64, search_s: f64, wall: f64, violations: usize) {
    let sel = |pre: &str| -> Vec<(String, u64)> {
        b.stats.iter().filter(|(k, _)| k.starts_with(pre)).map(|(k, v)| (k[pre.len()..].to_string(), *v)).collect()
    };
    let other: Vec<(String, u64)> = b
        .stats
        .iter()
        .filter(|(k, _)| !k.starts_with("fault_") && !k.starts_with("op_") && *k != "sim_audio_us")
        .map(|(k, v)| (k.clone(), *v))
        .collect();
    let cli = matches!(prop, "C14" | "C15" | "C20");
    let mut samples = vec![];
    for i in 0..3u64 {
        let t = gen::generate(prop, seed, i).text();
        let mut s: String = t.chars().take(3500).collect();
        if s.len() < t.len() {
            s.push_str("... (cut)");
        }
        samples.push(format!("{{\"run\": {i}, \"plan\": {}}}", js(&s)));
    }
    let simtime = b.stats.get("sim_audio_us").copied().unwrap_or(0);
    let mut j = String::from("{\n");
    let _ = writeln!(j, " \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"exploration\",", js(prop), js(tier));
    let _ = writeln!(j, " \"coverage\": {{");
    let _ = writeln!(j, "  \"evaluations\": {},", b.runs);
    let _ = writeln!(j, "  \"distinct_nontrivial\": {},", b.shapes.len());
    let _ = writeln!(
        j,
        "  \"rule\": {},",
        js("One evaluation is one simulated run: a plan drawn from mix(VERIF_SEED, property, run index) and executed against the real code. A run is non-trivial when a fault fired in it or its delivery schedule was irregular (empty, tiny, giant or partial chunks, more than one pull, a seek, a rewind with reuse, calls on another thread, more than one task ready to run). Two runs are the same when their shapes agree: the sequence of operations with bucketed sizes, outcomes and fired faults.")
    );
    let _ = writeln!(j, "  \"nontrivial_runs\": {},", b.nontrivial);
    let _ = writeln!(j, "  \"planned_runs\": {planned}, \"workers\": {workers}, \"runs_per_hour\": {}, \"seeds_per_hour\": {},", (b.runs as f64 / search_s.max(0.001) * 3600.0) as u64, (b.runs as f64 / search_s.max(0.001) * 3600.0) as u64);
    let _ = writeln!(j, "  \"seeds\": {},", js(&format!("each run has its own seed, mix(mix({seed}, {prop}), run index); run indices 0..{}", planned)));
    let _ = writeln!(j, "  \"simulated_audio_seconds\": {},", simtime / 1_000_000);
    let _ = writeln!(j, "  \"faults_fired\": {},", map(&sel("fault_")));
    let _ = writeln!(j, "  \"operations\": {},", map(&sel("op_")));
    let _ = writeln!(j, "  \"probes\": {},", map(&other));
    let _ = writeln!(j, "  \"distinct_step_pairs\": {}, \"distinct_step_pairs_measure\": \"adjacent pairs of abstract steps (operation, bucketed arguments, outcome)\",", b.edges.len());
    if !b.code.is_empty() {
        let _ = writeln!(j, "  \"code_edges_reached\": {}, \"code_edges_known\": {}, \"code_edges_measure\": \"control flow edges of adhoc_audio and the simulator in the instrumented build\",", b.code.len(), seams::edges::known());
    }
    let _ = writeln!(j, "  \"trace_checksum\": \"{:016x}\",", b.trace);
    let real = if cli {
        "the shipped binary: all of adhoc_audio including src/main.rs, rayon and its threads, clap, bincode, serde, and the file system below a scratch directory"
    } else if prop == "C25" {
        "all of adhoc_audio's library, bincode, serde, each compiled for x86-64 and for wasm32 and executed by both nodes (the wasm32 one by node(1))"
    } else if prop == "C26" {
        "all of adhoc_audio's library, bincode, serde, each compiled for x86-64 and interpreted for s390x (by Miri)"
    } else {
        "all of adhoc_audio's library, bincode, serde"
    };
    let stub = if cli {
        "thread scheduling (pthread_create, pthread_join, futex waits, sched_yield and sleeps go through a seeded one-at-a-time scheduler), clocks and getrandom (virtual), libc open/read/write/lseek/fsync/close/rename (pass-through with injected errors, short transfers, interruptions, full disk and crashes)"
    } else {
        "microphone, player, user, timers, threads' scheduler, readers and writers (in-memory disk with fault scripts)"
    };
    let _ = writeln!(j, "  \"real_components\": {}, \"stub_components\": {},", js(real), js(stub));
    let _ = writeln!(j, "  \"samples\": [{}]", samples.join(",\n   "));
    let _ = writeln!(j, " }},");
    let _ = writeln!(
        j,
        " \"assumptions\": [{}, {}],",
        js("seeded sampling of schedules and faults, not enumeration: a clean batch is evidence, not proof"),
        js("the toolchain, the standard library, serde and bincode behave as documented")
    );
    let _ = writeln!(j, " \"wall_s\": {wall:.2}, \"violations\": {violations}\n}}");
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{prop}.json")), j).expect("write evidence");
}
