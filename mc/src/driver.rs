//! Runs the families of a property, writes the evidence, prints the verdict.
use crate::explore::*;
use serde_json::json;
use std::io::Write;
use std::path::PathBuf;
use std::time::Instant;

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

/// `known_findings.txt`: lines "KNOWN-FINDING: property=<id> key=<key> <description>".
fn known(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let rest = l.strip_prefix("KNOWN-FINDING: property=")?;
            let (pid, rest) = rest.split_once(' ')?;
            if pid != id {
                return None;
            }
            let rest = rest.strip_prefix("key=")?;
            let (key, desc) = rest.split_once(' ').unwrap_or((rest, ""));
            Some((key.to_string(), desc.to_string()))
        })
        .collect()
}

fn write_replay(id: &str, fam: &str, path: &[usize], msg: &str, tier: &str) -> String {
    let dir = root().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let file = dir.join(format!("{id}.json"));
    let v = json!({"property": id, "family": fam, "tier": tier, "choices": path, "what": msg,
        "how": format!("bash run.sh replay replay/{id}.json")});
    let _ = std::fs::write(&file, serde_json::to_string_pretty(&v).unwrap());
    format!("replay/{id}.json")
}

pub fn main(id: &str, args: &[String], tier: &str, prop: Option<Prop>) -> i32 {
    let thorough = tier == "thorough";
    if id == "replay" {
        return do_replay(&args[1]);
    }
    if id == "list" {
        for n in 1..100 {
            let id = format!("C{n:02}");
            if let Some(p) = crate::props::find(&id) {
                let fams: Vec<_> = p.families.iter().map(|f| json!([f.name, f.bound])).collect();
                println!("{}", json!({"id": id, "level": p.level, "rule": p.rule, "assumptions": p.assumptions, "families": fams}));
            }
        }
        return 0;
    }
    let Some(prop) = prop else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let only = std::env::var("MC_FAMILY").ok();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let t0 = Instant::now();
    let known = known(id);
    let keys: Vec<String> = known.iter().map(|k| k.0.clone()).collect();
    let (mut states, mut trans, mut exec, mut dec, mut cmp) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut samples = vec![];
    let mut fams = vec![];
    let mut bad: Vec<(String, Vec<usize>, String)> = vec![];
    let mut findings: Vec<String> = vec![];
    let mut complete = true;
    for (i, fam) in prop.families.iter().enumerate() {
        if let Some(o) = &only {
            if o != fam.name {
                continue;
            }
        }
        let tf = Instant::now();
        let name = fam.name;
        let on_hang = |path: Vec<usize>, why: String| {
            let replay = write_replay(id, name, &path, &why, tier);
            println!("{id}/{name}: {why}; choices {path:?}");
            println!("VIOLATION property={id} replay={replay}");
            let _ = std::io::stdout().flush();
            unsafe { libc_exit(1) }
        };
        let r = run_family(fam, i as u64, thorough, &keys, &on_hang);
        println!(
            "{id}/{}: {} executions, {} decisions, {} calls, {} states, {} violations, {:.1}s",
            fam.name, r.executions, r.decisions, r.transitions, r.states, r.violations.len(), tf.elapsed().as_secs_f64()
        );
        states += r.states;
        trans += r.transitions;
        exec += r.executions;
        dec += r.decisions;
        cmp += r.comparisons;
        complete &= r.complete;
        for s in &r.samples {
            samples.push(json!({"family": fam.name, "case": s}));
        }
        fams.push(json!({"family": fam.name, "bound": fam.bound, "executions": r.executions,
            "decisions": r.decisions, "calls": r.transitions, "states": r.states, "comparisons": r.comparisons, "complete": r.complete}));
        for k in &r.known {
            let d = known.iter().find(|(key, _)| key == k).map_or("", |(_, d)| d.as_str());
            let line = format!("KNOWN-FINDING: property={id} {k} {d}");
            if !findings.contains(&line) {
                findings.push(line);
            }
        }
        for (path, f) in r.violations {
            bad.push((fam.name.to_string(), path, f.msg));
        }
    }
    for f in &findings {
        println!("{f}");
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut cov = json!({
        "samples": samples, "families": fams, "exhaustive": complete && only.is_none(),
        "rule": prop.rule, "decisions": dec,
    });
    let c = cov.as_object_mut().unwrap();
    match prop.level {
        "model_checking" => {
            c.insert("states".into(), json!(states));
            c.insert("transitions".into(), json!(trans));
            c.insert("traces_validated_against_impl".into(), json!(exec));
        }
        _ => {
            c.insert("evaluations".into(), json!(exec));
            c.insert("distinct_nontrivial".into(), json!(states));
            c.insert("calls".into(), json!(trans));
        }
    }
    if cmp > 0 {
        c.insert("values_compared_with_oracle".into(), json!(cmp));
    }
    let ev = json!({"property": id, "tier": tier, "seed": seed, "level": prop.level, "coverage": cov,
        "assumptions": prop.assumptions, "wall_s": wall, "violations": bad.len()});
    let _ = std::fs::create_dir_all(root().join("evidence"));
    if only.is_none() {
        std::fs::write(root().join("evidence").join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
    }
    if bad.is_empty() {
        println!("{id}: held on {exec} executions, {states} states, {trans} calls ({wall:.1}s, {tier})");
        0
    } else {
        bad.sort_by_key(|b| b.1.len());
        for (f, p, m) in bad.iter().take(8) {
            println!("{id}/{f} choices {p:?}: {m}");
        }
        let (f, p, m) = &bad[0];
        let replay = write_replay(id, f, p, m, tier);
        println!("VIOLATION property={id} replay={replay}");
        1
    }
}

unsafe fn libc_exit(code: i32) {
    // worker threads may be stuck: leave without joining them
    std::process::exit(code)
}

fn do_replay(file: &str) -> i32 {
    let path = if file.starts_with('/') { PathBuf::from(file) } else { root().join(file) };
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&path).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap();
    let choices: Vec<usize> = v["choices"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as usize).collect();
    let prop = crate::props::find(id).expect("property");
    let (i, fam) = prop.families.iter().enumerate().find(|(_, f)| f.name == v["family"].as_str().unwrap()).expect("family");
    match replay(fam, i as u64, v["tier"] == "thorough", &choices) {
        Ok(()) => {
            println!("{id}/{}: holds on this path", fam.name);
            0
        }
        Err(f) => {
            println!("{id}/{} choices {choices:?}: {}", fam.name, f.msg);
            println!("VIOLATION property={id} replay={file}");
            1
        }
    }
}
