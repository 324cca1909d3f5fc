mod audio;
mod cli;
mod engine;
mod interleave;
mod matching;
mod live;
mod memory;
mod refmodel;
mod streams;
mod util;

use engine::*;
use std::time::Instant;

#[global_allocator]
static ALLOCATOR: memory::Counting = memory::Counting;

fn quit(code: i32) -> ! {
    cli::cleanup();
    std::process::exit(code)
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn families(id: &str, t: Tier) -> Option<Vec<Family>> {
    Some(match id {
        "C01" => streams::c01(t),
        "C02" => streams::c02(t),
        "C03" => streams::c03(t),
        "C04" => streams::c04(t),
        "C05" => streams::c05(t),
        "C06" => audio::c06(t),
        "C07" => audio::c07(t),
        "C08" => audio::c08(t),
        "C09" => audio::c09(t),
        "C10" => matching::c10(t),
        "C11" => matching::c11(t),
        "C12" => matching::c12(t),
        "C13" => matching::c13(t),
        "C14" => matching::c14(t),
        "C15" => matching::c15(t),
        "C16" => audio::c16(t),
        "C17" => interleave::c17(t),
        "C18" => cli::c18(t),
        "C19" => cli::c19(t),
        "C20" => cli::c20(t),
        "C21" => cli::c21(t),
        "C22" => cli::c22(t),
        "C23" => matching::c23(t),
        "C24" => memory::c24(t),
        "C25" => live::c25(t),
        "C26" => live::c26(t),
        "C27" => streams::c27(t),
        _ => return None,
    })
}

fn list() {
    println!("| property | family | executions quick | executions thorough | what is enumerated (thorough bounds where they differ) |\n|---|---|---|---|---|");
    for n in 1..=26 {
        let id = format!("C{n:02}");
        let quick = families(&id, Tier::Quick).unwrap();
        let thorough = families(&id, Tier::Thorough).unwrap();
        for f in &thorough {
            let q = quick.iter().find(|q| q.name == f.name).map(|q| q.n.to_string()).unwrap_or("-".into());
            println!("| {id} | {} | {q} | {} | {} |", f.name, f.n, f.rule.replace('|', "/"));
        }
        for q in &quick {
            if !thorough.iter().any(|f| f.name == q.name) {
                println!("| {id} | {} | {} | - | {} |", q.name, q.n, q.rule.replace('|', "/"));
            }
        }
    }
    cli::cleanup();
}

struct Opts {
    id: String,
    tier: Tier,
    seed: u64,
    root: String,
    replay: Option<String>,
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut o = Opts {
        id: String::new(),
        tier: match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        },
        seed: std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1),
        root: "/verif".into(),
        replay: None,
    };
    while let Some(a) = args.next() {
        match a.as_str() {
            "--replay" => o.replay = args.next(),
            "--root" => o.root = args.next().unwrap(),
            "--tier" => {
                o.tier = if args.next().as_deref() == Some("thorough") {
                    Tier::Thorough
                } else {
                    Tier::Quick
                }
            }
            // Runs scripts of C17 in this process.
            "--scripts" => return interleave::child(&args.next().unwrap()),
            // Describes everything explored, as a Markdown table.
            "--list" => return list(),
            // Writes one example of every generated kind of file.
            "--dump" => return cli::dump(&args.next().unwrap()),
            _ => o.id = a,
        }
    }
    install_hook();
    let known = std::fs::read_to_string(format!("{}/known_findings.txt", o.root))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={} ", o.id)))
        .filter_map(|l| l.strip_prefix("key="))
        .map(|l| {
            let (k, d) = l.split_once(' ').unwrap_or((l, ""));
            (k.to_string(), d.to_string())
        })
        .collect::<Vec<_>>();
    set_known(known.clone());

    let Some(fams) = families(&o.id, o.tier) else {
        eprintln!("mc: unknown property {}", o.id);
        quit(2);
    };

    if let Some(path) = &o.replay {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| {
            eprintln!("mc: {path}: {e}");
            quit(2)
        });
        let get = |k: &str| {
            text.lines()
                .find_map(|l| l.strip_prefix(k))
                .map(|s| s.trim().to_string())
                .unwrap_or_default()
        };
        let tier = if get("tier:") == "thorough" {
            Tier::Thorough
        } else {
            Tier::Quick
        };
        let fams = families(&o.id, tier).unwrap();
        let name = get("family:");
        let case: u64 = get("case:").parse().unwrap_or(0);
        let Some(f) = fams.iter().find(|f| f.name == name) else {
            eprintln!("mc: no family {name}");
            quit(2);
        };
        let (v, notes) = replay(f, case);
        for n in notes {
            println!("  {n}");
        }
        match v {
            Verdict::Ok => println!("replay: case {name}#{case} holds"),
            Verdict::Fail(e) => {
                println!("replay: {}", e.msg);
                println!("VIOLATION property={} replay={}", o.id, path);
                quit(1)
            }
            Verdict::Harness(e) => {
                eprintln!("mc: {e}");
                quit(2)
            }
        }
        quit(0);
    }

    let t0 = Instant::now();
    let tier_s = if o.tier == Tier::Quick { "quick" } else { "thorough" };
    let write_replay = |family: &str, case: u64, msg: &str, notes: &[String]| -> String {
        let dir = format!("{}/replays", o.root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}.txt", o.id);
        let mut s = format!(
            "property: {}\ntier: {tier_s}\nfamily: {family}\ncase: {case}\nfailure: {}\n",
            o.id,
            msg.replace('\n', " ")
        );
        for n in notes {
            s += &format!("  {n}\n");
        }
        s += &format!("\nre-execute with: ./check.sh {} --replay {path}\n", o.id);
        let _ = std::fs::write(&path, s);
        path
    };
    let write_evidence = |rep: Option<&Report>, violations: usize, extra: &str| {
        let empty = Report {
            families: vec![],
            states: 0,
            outcomes: 0,
            samples: vec![],
            known: Default::default(),
            violation: None,
            harness_error: None,
        };
        let r = rep.unwrap_or(&empty);
        let sum = |f: fn(&FamilyStats) -> u64| r.families.iter().map(f).sum::<u64>();
        let fam = r
            .families
            .iter()
            .map(|f| {
                format!(
                    "{{\"name\":{},\"rule\":{},\"executions\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"distinct_outcomes\":{},\"undecided\":{},\"wall_s\":{:.3}}}",
                    esc(&f.name), esc(&f.rule), f.cases, f.states, f.transitions, f.traces, f.outcomes, f.undecided, f.wall_s
                )
            })
            .collect::<Vec<_>>()
            .join(",");
        let samples = r.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
        let rule = r
            .families
            .iter()
            .map(|f| format!("{}: {}", f.name, f.rule))
            .collect::<Vec<_>>()
            .join(" | ");
        let s = format!(
            "{{\"property\":{},\"tier\":\"{tier_s}\",\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"exhaustive\":{},\"families\":[{}],\"explanation\":{}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
            esc(&o.id),
            o.seed,
            r.states,
            sum(|f| f.transitions),
            sum(|f| f.traces),
            sum(|f| f.cases),
            r.outcomes,
            esc(&format!("distinct_nontrivial counts distinct observed outcomes of the code under test. {rule}")),
            samples,
            violations == 0,
            fam,
            esc(&format!("Every execution of every family (finite enumeration, no sampling) was run on the real code. states = distinct model states, transitions = operations executed on the real code, traces = complete executions compared with the model. {extra}")),
            esc("audio content is drawn from a fixed finite set of waveforms; values outside that alphabet are not covered"),
            t0.elapsed().as_secs_f64(),
            violations
        );
        let dir = format!("{}/evidence", o.root);
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(format!("{dir}/{}.json", o.id), s);
    };

    let on_hang = |family: &str, case: u64, secs: u64| {
        let msg = format!("no result after {secs} s: the code under test does not terminate");
        let path = write_replay(family, case, &msg, &[]);
        write_evidence(None, 1, "stopped: an execution did not terminate");
        println!("{family}#{case}: {msg}");
        println!("VIOLATION property={} replay={path}", o.id);
        quit(1);
    };
    let rep = explore(&fams, &on_hang);
    for f in &rep.families {
        println!(
            "{} {}: executions={} states={} transitions={} traces={} outcomes={} undecided={} {:.1}s",
            o.id, f.name, f.cases, f.states, f.transitions, f.traces, f.outcomes, f.undecided, f.wall_s
        );
    }
    if let Some(e) = &rep.harness_error {
        eprintln!("mc: {e}");
        quit(2);
    }
    for (k, msg) in &rep.known {
        let d = known
            .iter()
            .find(|(x, _)| x == k)
            .map(|x| x.1.clone())
            .unwrap_or_default();
        println!("KNOWN-FINDING: property={} {} ({})", o.id, d, msg.replace('\n', " "));
    }
    if let Some((family, case, fail, notes)) = &rep.violation {
        let path = write_replay(family, *case, &fail.msg, notes);
        write_evidence(Some(&rep), 1, "stopped at the first violation");
        println!("{family}#{case}: {}", fail.msg);
        for n in notes {
            println!("  {n}");
        }
        if let Some(k) = &fail.key {
            println!("  key={k}");
        }
        println!("VIOLATION property={} replay={path}", o.id);
        quit(1);
    }
    write_evidence(Some(&rep), 0, "");
    println!(
        "{} holds on everything explored: executions={} states={} ({:.1}s)",
        o.id,
        rep.families.iter().map(|f| f.cases).sum::<u64>(),
        rep.states,
        t0.elapsed().as_secs_f64()
    );
    cli::cleanup();
}
