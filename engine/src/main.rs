mod exec;
mod expr;
mod ir;
mod mem;
mod smt;

use exec::*;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::time::{Duration, Instant};

extern "C" {
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
}

#[derive(Default)]
struct Res {
    stat: BTreeMap<String, f64>,
    covers: BTreeMap<String, u64>,
    asserts: BTreeMap<String, (u64, u64)>,
    panics: BTreeMap<String, u64>,
    funcs: BTreeMap<String, u64>,
    viol: Vec<(String, String, String)>,
    unk: Vec<String>,
    err: Vec<String>,
    slow: Vec<(f64, String)>,
    by: BTreeMap<String, u64>,
    samples: BTreeMap<String, String>,
    witness: BTreeMap<String, String>,
}

fn clean(s: &str) -> String {
    s.replace(['\t', '\n'], " ")
}

fn collect(x: &Ex) -> String {
    let mut o = String::new();
    let n = &x.n;
    for (k, v) in [
        ("paths", n.paths as f64),
        ("done", n.done as f64),
        ("aborted", n.panics as f64),
        ("infeasible", n.infeasible as f64),
        ("steps", n.steps as f64),
        ("forks", n.forks as f64),
        ("concretizations", n.conc as f64),
        ("assert_queries", n.assert_q as f64),
        ("assert_folded", n.assert_trivial as f64),
        ("branch_queries", n.branch_q as f64),
        ("unknown_branches", n.unknown_branch as f64),
        ("queries", x.smt.stats.queries as f64),
        ("unsat", x.smt.stats.unsat as f64),
        ("sat", x.smt.stats.sat as f64),
        ("unknown", x.smt.stats.unknown as f64),
        ("solver_s", x.smt.stats.time),
        ("terms", x.ar.nodes.len() as f64),
    ] {
        let _ = writeln!(o, "stat\t{}\t{}", k, v);
    }
    let _ = writeln!(o, "max\tmax_query_s\t{}", x.smt.stats.max_time);
    let _ = writeln!(o, "max\tmax_depth\t{}", n.max_depth);
    for (k, v) in &x.smt.stats.by {
        let _ = writeln!(o, "by\t{}\t{}", k, v);
    }
    for (k, v) in &x.covers {
        let _ = writeln!(o, "cover\t{}\t{}", clean(k), v);
    }
    for (k, v) in &x.asserts {
        let _ = writeln!(o, "assert\t{}\t{}\t{}", clean(k), v.0, v.1);
    }
    for (k, v) in &x.panics {
        let _ = writeln!(o, "panic\t{}\t{}", clean(k), v);
    }
    for (k, v) in &x.funcs {
        let _ = writeln!(o, "func\t{}\t{}", clean(&demangle(k)), v);
    }
    for v in &x.violations {
        let ins: Vec<String> = v.inputs.iter().map(|(n, x)| format!("{}={}", n.replace([' ', '='], "_"), x)).collect();
        let _ = writeln!(o, "viol\t{}\t{}\t{}", clean(&v.id), ins.join(" "), clean(&v.trace.join(" < ")));
    }
    for (k, v) in &x.samples {
        let ins: Vec<String> = v.iter().map(|(n, x)| format!("{}={}", n.replace([' ', '='], "_"), x)).collect();
        let _ = writeln!(o, "sample\t{}\t{}", clean(k), ins.join(" "));
    }
    for (k, v) in &x.witness {
        let ins: Vec<String> = v.iter().map(|(n, x)| format!("{}={}", n.replace([' ', '='], "_"), x)).collect();
        let _ = writeln!(o, "wit\t{}\t{}", clean(k), ins.join(" "));
    }
    for u in &x.unknowns {
        let _ = writeln!(o, "unk\t{}", clean(u));
    }
    for u in &x.errors {
        let _ = writeln!(o, "err\t{}", clean(u));
    }
    for (t, s) in &x.slow {
        let _ = writeln!(o, "slow\t{}\t{}", t, clean(s));
    }
    o.push_str("end\n");
    o
}

fn merge(r: &mut Res, t: &str) -> bool {
    let mut ended = false;
    for l in t.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "stat" => *r.stat.entry(f[1].into()).or_insert(0.0) += f[2].parse().unwrap_or(0.0),
            "max" => {
                let v: f64 = f[2].parse().unwrap_or(0.0);
                let e = r.stat.entry(f[1].into()).or_insert(0.0);
                if v > *e {
                    *e = v
                }
            }
            "by" => *r.by.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap_or(0),
            "cover" => *r.covers.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap_or(0),
            "assert" => {
                let e = r.asserts.entry(f[1].into()).or_insert((0, 0));
                e.0 += f[2].parse::<u64>().unwrap_or(0);
                e.1 += f[3].parse::<u64>().unwrap_or(0);
            }
            "panic" => *r.panics.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap_or(0),
            "func" => *r.funcs.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap_or(0),
            "viol" => r.viol.push((f[1].into(), f[2].into(), f.get(3).unwrap_or(&"").to_string())),
            "sample" => {
                r.samples.entry(f[1].into()).or_insert(f[2].into());
            }
            "wit" => {
                r.witness.entry(f[1].into()).or_insert(f[2].into());
            }
            "unk" => r.unk.push(f[1].into()),
            "err" => r.err.push(f[1].into()),
            "slow" => r.slow.push((f[1].parse().unwrap_or(0.0), f[2].into())),
            "end" => ended = true,
            _ => {}
        }
    }
    ended
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: obsym <module.ll> <harness> [--mode int|bv] [--jobs n] [--budget s] [--branch-ms n] [--assert-ms n] [--out f] [-v]");
        std::process::exit(2);
    }
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut i = 3;
    while i < args.len() {
        if args[i].starts_with("--") && i + 1 < args.len() {
            opt.insert(args[i][2..].to_string(), args[i + 1].clone());
            i += 2;
        } else {
            opt.insert(args[i].trim_start_matches('-').to_string(), "1".into());
            i += 1;
        }
    }
    let num = |k: &str, d: u64| opt.get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    let t0 = Instant::now();
    // generous stack: the term simplifier recurses
    let child = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn({
            let args = args.clone();
            let opt = opt.clone();
            let (jobs, budget, bms, ams, steps) =
                (num("jobs", 1) as usize, num("budget", 800), num("branch-ms", 3000), num("assert-ms", 60000), num("max-steps", 50_000_000));
            move || {
                let m = match ir::Module::load(&args[1]) {
                    Ok(m) => m,
                    Err(e) => {
                        eprintln!("error: {}", e);
                        std::process::exit(2);
                    }
                };
                let o = Opts {
                    mode: if opt.get("mode").map(|s| s.as_str()) == Some("bv") { smt::Enc::Bv } else { smt::Enc::Int },
                    branch_ms: bms,
                    split: opt.contains_key("split"),
                    assert_ms: ams,
                    max_steps: steps,
                    deadline: t0 + Duration::from_secs(budget),
                    stop_first: opt.get("all").is_none(),
                    verbose: opt.contains_key("v"),
                    pda_stub: opt.contains_key("pda-stub"),
                };
                let mut x = Ex::new(&m, o);
                if let Some(d) = opt.get("dump") {
                    x.smt.dump = Some(d.clone());
                }
                let mut r = Res::default();
                if let Err(Stop::Err(e)) = x.start(&args[2]) {
                    x.errors.push(e);
                } else {
                    let dir = std::env::temp_dir().join(format!("obsym-{}", std::process::id()));
                    if jobs > 1 {
                        let _ = std::fs::create_dir_all(&dir);
                        x.par = Some(exec::Par::new(jobs as u64));
                    }
                    x.run();
                    if let Some(p) = x.par.take() {
                        p.release();
                        if p.child {
                            let _ = std::fs::write(dir.join(format!("{}.tmp", std::process::id())), collect(&x));
                            let _ = std::fs::rename(dir.join(format!("{}.tmp", std::process::id())), dir.join(format!("{}", std::process::id())));
                            drop(std::mem::replace(&mut x.smt, smt::Smt::new()));
                        }
                        let mut st = 0;
                        for k in &p.kids {
                            unsafe { waitpid(*k, &mut st, 0) };
                        }
                        if p.child {
                            unsafe { _exit(0) }
                        }
                        merge(&mut r, &collect(&x));
                        let mut ends = 1;
                        for f in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
                            let t = std::fs::read_to_string(f.path()).unwrap_or_default();
                            if merge(&mut r, &t) {
                                ends += 1;
                            }
                        }
                        if ends != p.started() {
                            r.err.push(format!("{} of {} workers ended abnormally", p.started() - ends, p.started()));
                        }
                        let _ = std::fs::remove_dir_all(&dir);
                    } else {
                        merge(&mut r, &collect(&x));
                    }
                }
                if r.stat.is_empty() {
                    merge(&mut r, &collect(&x));
                }
                r
            }
        })
        .unwrap();
    let mut r = match child.join() {
        Ok(r) => r,
        Err(_) => {
            let mut r = Res::default();
            r.err.push("engine panic".into());
            r
        }
    };
    let status = if !r.viol.is_empty() {
        "violation"
    } else if !r.err.is_empty() {
        "error"
    } else if !r.unk.is_empty() {
        "unknown"
    } else {
        "ok"
    };
    let mut o = String::new();
    let _ = write!(o, "{{\"harness\":{},\"status\":{},\"wall_s\":{:.2}", js(&args[2]), js(status), t0.elapsed().as_secs_f64());
    for (k, v) in &r.stat {
        let _ = write!(o, ",{}:{}", js(k), (v * 1000.0).round() / 1000.0);
    }
    let m = |o: &mut String, k: &str, x: &BTreeMap<String, u64>| {
        let _ = write!(o, ",{}:{{{}}}", js(k), x.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    };
    m(&mut o, "solvers", &r.by);
    m(&mut o, "covers", &r.covers);
    m(&mut o, "aborts", &r.panics);
    m(&mut o, "functions", &r.funcs);
    let _ = write!(
        o,
        ",\"asserts\":{{{}}}",
        r.asserts.iter().map(|(k, v)| format!("{}:{{\"reached\":{},\"queried\":{}}}", js(k), v.0, v.1)).collect::<Vec<_>>().join(",")
    );
    let _ = write!(
        o,
        ",\"violations\":[{}]",
        r.viol
            .iter()
            .map(|(id, i, t)| format!("{{\"id\":{},\"inputs\":{},\"trace\":{}}}", js(id), js(i), js(t)))
            .collect::<Vec<_>>()
            .join(",")
    );
    let _ = write!(
        o,
        ",\"samples\":[{}]",
        r.samples.iter().map(|(k, v)| format!("{{\"end\":{},\"inputs\":{}}}", js(k), js(v))).collect::<Vec<_>>().join(",")
    );
    let _ = write!(o, ",\"witness\":{{{}}}", r.witness.iter().map(|(k, v)| format!("{}:{}", js(k), js(v))).collect::<Vec<_>>().join(","));
    r.unk.sort();
    r.unk.dedup();
    let list = |v: &Vec<String>| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
    r.slow.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    r.slow.truncate(10);
    let slow: Vec<String> = r.slow.iter().map(|(t, s)| format!("{:.2}s {}", t, s)).collect();
    let _ = write!(o, ",\"unknowns\":[{}],\"errors\":[{}],\"slow\":[{}]}}\n", list(&r.unk), list(&r.err), list(&slow));
    match opt.get("out") {
        Some(f) => {
            if std::fs::write(f, &o).is_err() {
                std::process::exit(2)
            }
        }
        None => print!("{}", o),
    }
    std::process::exit(match status {
        "ok" => 0,
        "violation" => 1,
        _ => 2,
    });
}
