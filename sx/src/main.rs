//! sx: symbolic execution of LLVM IR with z3.
//! usage: sx FILE.ll ENTRY [--out F] [--secs N] [--shard i/n] [--shard-depth D] ...
mod exec;
mod expr;
mod ll;
mod solver;
use exec::*;
use std::collections::BTreeMap;
use std::time::Instant;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

fn main() {
    // deep recursion in expression evaluation
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    std::process::exit(h.join().unwrap_or(3));
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: sx FILE.ll ENTRY [options]");
        return 3;
    }
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str, d: f64| opt(k).and_then(|x| x.parse::<f64>().ok()).unwrap_or(d);
    let shard = opt("--shard").unwrap_or("0/1".into());
    let (si, sn) = shard.split_once('/').unwrap();
    let cfg = Cfg {
        max_steps: num("--steps", 4e8) as u64,
        max_depth: num("--depth", 1500.0) as usize,
        max_secs: num("--secs", 600.0),
        max_paths: num("--paths", 1e9) as u64,
        shard: (si.parse().unwrap(), sn.parse().unwrap()),
        shard_depth: if sn == "1" { 0 } else { num("--shard-depth", 3.0) as u32 },
        nsamples: num("--samples", 16.0) as usize,
        max_viol: num("--max-viol", 3.0) as u64,
        tier: num("--tier", 0.0) as u64,
        grace: num("--grace", 15.0),
        trace: a.iter().any(|x| x == "--trace"),
    };
    let t0 = Instant::now();
    let m = match ll::Module::load(&a[1]) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("sx: {}", e);
            return 3;
        }
    };
    let tl = t0.elapsed().as_secs_f64();
    let mut x = match Exec::new(m, cfg, num("--query-ms", 60000.0) as u32) {
        Ok(x) => x,
        Err(e) => {
            eprintln!("sx: {}", e);
            return 3;
        }
    };
    x.solver.sample_every = num("--sample-queries", 0.0) as u64;
    if let Err(e) = x.run_all(&a[2]) {
        eprintln!("sx: {}", e);
        return 3;
    }
    // coverage from debug locations of visited blocks
    let mut lines: BTreeMap<String, std::collections::BTreeSet<u32>> = BTreeMap::new();
    let mut fns: std::collections::BTreeSet<String> = Default::default();
    let mut nfn = 0;
    let mut seen: std::collections::HashSet<u32> = Default::default();
    for (i, v) in x.visited.iter().enumerate() {
        if !v.iter().any(|b| *b) {
            continue;
        }
        nfn += 1;
        let f = x.funcs[i].clone().unwrap();
        for (b, vis) in v.iter().enumerate() {
            if !*vis {
                continue;
            }
            let st = f.blocks[b].start as usize;
            let en = f.blocks.get(b + 1).map_or(f.ins.len(), |n| n.start as usize);
            for k in st..en {
                let mut d = f.dbg[k];
                let mut n = 0;
                while d != 0 && n < 60 && seen.insert(d) {
                    if let Some((file, line, name)) = x.loc3(d) {
                        // the derive's sources are compiled from a copy (tools/gen_derive.py)
                        let file = match file.split_once("/work/gen/opg_derive_src/") {
                            Some((_, rest)) => format!("/repo/opg_derive/{}", rest),
                            None => file,
                        };
                        if file.starts_with("/repo/") {
                            lines.entry(file).or_default().insert(line);
                            fns.insert(name);
                        }
                    }
                    d = x.inlined_at(d).unwrap_or(0);
                    n += 1;
                }
            }
        }
    }
    let s = &x.solver.stats;
    let mut o = String::from("{\n");
    o.push_str(&format!("\"entry\":{},\"paths\":{},\"infeasible\":{},\"panics_allowed\":{},\"forks\":{},\"steps\":{},", esc(&a[2]), x.paths, x.infeasible, x.panics_allowed, x.forks, x.steps));
    o.push_str(&format!("\"load_secs\":{:.3},\"secs\":{:.3},", tl, x.t0.elapsed().as_secs_f64()));
    o.push_str(&format!(
        "\"solver\":{{\"name\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"time\":{:.3},\"max\":{:.3}}},",
        esc(&solver::z3_version()),
        s.queries,
        s.sat,
        s.unsat,
        s.unknown,
        s.cached,
        s.time,
        s.max
    ));
    o.push_str(&format!("\"max_constraints\":{},\"max_inputs\":{},\"expr_nodes\":{},\"ir_functions\":{},\n", x.max_constraints, x.max_syms, x.ar.nodes.len(), nfn));
    o.push_str("\"checks\":{");
    o.push_str(
        &x.checks
            .iter()
            .map(|(k, c)| format!("{}:{{\"reached\":{},\"proved\":{},\"constant_true\":{},\"failed\":{}}}", esc(k), c.reached, c.proved, c.trivially, c.failed))
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("},\n\"covers\":{");
    o.push_str(&x.covers.iter().map(|(k, c)| format!("{}:{}", esc(k), c)).collect::<Vec<_>>().join(","));
    o.push_str("},\n\"violations\":[");
    o.push_str(
        &x.viols
            .iter()
            .map(|v| {
                format!(
                    "{{\"check\":{},\"detail\":{},\"tag\":{},\"inputs\":{},\"trace\":[{}]}}",
                    esc(&v.check),
                    esc(&v.detail),
                    esc(&v.tag),
                    arr(&v.inputs),
                    v.trace.iter().map(|t| esc(t)).collect::<Vec<_>>().join(",")
                )
            })
            .collect::<Vec<_>>()
            .join(",\n"),
    );
    o.push_str("],\n\"samples\":[");
    o.push_str(&x.samples.iter().map(|s| format!("{{\"inputs\":{},\"obs\":{},\"checks\":{}}}", arr(&s.inputs), arr(&s.obs), s.checks)).collect::<Vec<_>>().join(",\n"));
    o.push_str("],\n\"repo_functions\":[");
    o.push_str(&fns.iter().map(|t| esc(t)).collect::<Vec<_>>().join(","));
    o.push_str("],\n\"repo_lines\":{");
    o.push_str(&lines.iter().map(|(k, v)| format!("{}:{}", esc(k), arr(&v.iter().map(|x| *x as u64).collect::<Vec<_>>()))).collect::<Vec<_>>().join(","));
    o.push_str("},\n\"errors\":[");
    o.push_str(&x.errors.iter().map(|t| esc(t)).collect::<Vec<_>>().join(","));
    o.push_str("],\n\"smt_samples\":[");
    o.push_str(&x.solver.sampled.iter().map(|(t, s)| format!("{{\"sat\":{},\"smt2\":{}}}", s, esc(t))).collect::<Vec<_>>().join(","));
    o.push_str("]\n}\n");
    match opt("--out") {
        Some(f) => std::fs::write(f, &o).unwrap(),
        None => print!("{}", o),
    }
    if !x.errors.is_empty() {
        2
    } else if !x.viols.is_empty() {
        1
    } else {
        0
    }
}
