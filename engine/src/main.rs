//! symex: bounded symbolic execution of LLVM IR with SMT-decided branches and assertions.
mod bv;
mod exec;
mod ir;
mod mem;
mod solver;
mod sweep;
mod term;

use std::fmt::Write as _;

/// Short readable form of a v0- or legacy-mangled Rust name.
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") && !n.starts_with("_ZN") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = if n.starts_with("_R") { 2 } else { 3 };
    let mut parts: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == b's' && i + 1 < b.len() {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i < 16 {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut k = 0usize;
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if j + k <= b.len() && k > 0 {
                let s = &n[j..j + k];
                if s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
                    parts.push(s.to_string());
                }
                i = j + k;
                continue;
            }
        }
        i += 1;
    }
    if parts.is_empty() {
        n.to_string()
    } else {
        parts.dedup();
        parts.truncate(9);
        parts.join("::")
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let _ = write!(o, "\\u{:04x}", c as u32 & 0xffff);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn run(argv: Vec<String>) {
    let mut pos = vec![];
    let mut opts = exec::Opts {
        samples: 6,
        max_steps: 400_000_000,
        max_secs: 600.0,
        max_cex: 4,
        params: vec![],
        xcheck: false,
        trace: false,
        ifconv: true,
        switchconv: false,
        uf_fns: vec![],
        maxpaths: 5_000_000,
    };
    let mut qt = 60_000u64;
    let mut out = None;
    let mut i = 1;
    while i < argv.len() {
        let a = argv[i].as_str();
        let mut nx = || {
            i += 1;
            argv[i].clone()
        };
        match a {
            "--param" => opts.params = nx().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--max-secs" => opts.max_secs = nx().parse().unwrap(),
            "--max-steps" => opts.max_steps = nx().parse().unwrap(),
            "--max-cex" => opts.max_cex = nx().parse().unwrap(),
            "--max-paths" => opts.maxpaths = nx().parse().unwrap(),
            "--samples" => opts.samples = nx().parse().unwrap(),
            "--qt" => qt = nx().parse().unwrap(),
            "--uf" => opts.uf_fns.push(nx()),
            "--xcheck" => opts.xcheck = true,
            "--trace" => opts.trace = true,
            "--no-ifconv" => opts.ifconv = false,
            "--switchconv" => opts.switchconv = true,
            "--out" => out = Some(nx()),
            _ => pos.push(argv[i].clone()),
        }
        i += 1;
    }
    let md = ir::Module::load(&pos[0]);
    let mut ex = exec::Exec::new(md, opts, qt);
    solver::set_deadline(ex.t0 + std::time::Duration::from_secs_f64(ex.opts.max_secs));
    ex.run_entry(&pos[1]);
    let wall = ex.t0.elapsed().as_secs_f64();
    let s = ex.sv.stats.clone();
    let mut o = String::new();
    let _ = write!(o, "{{\"entry\":{},\"params\":{:?},", js(&pos[1]), ex.opts.params);
    let status = if !ex.cex.is_empty() {
        "violation"
    } else if !ex.incomplete.is_empty() {
        "incomplete"
    } else {
        "ok"
    };
    let _ = write!(o, "\"status\":\"{}\",\"wall\":{:.2},\"paths\":{},\"steps\":{},\"pending\":{},\"ifconv\":{},\"terms\":{},\"panics_allowed\":{},", status, wall, ex.paths, ex.total_steps, ex.work.len(), ex.ifconverted, ex.cx.nodes.len(), ex.panics_allowed);
    let _ = write!(
        o,
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.2},\"max_query_s\":{:.2},\"model_hits\":{},\"cache_hits\":{},\"asserts_folded\":{},\"assert_queries\":{},\"xcheck_queries\":{},\"xcheck_s\":{:.2},\"sweep_queries\":{},\"sweep_merges\":{},\"ghosts\":{},",
        s.queries, s.sat, s.unsat, s.unknown, s.secs, s.max_secs, s.model_hits, s.cache_hits, ex.asserts_folded, s.assert_queries, s.xcheck_queries, s.xcheck_secs, s.sweep_queries, s.sweep_merges, ex.ghosts
    );
    let m = |x: &std::collections::BTreeMap<String, u64>| -> String { format!("{{{}}}", x.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")) };
    let _ = write!(o, "\"ended\":{},\"asserts\":{},\"reached\":{},", m(&ex.ended), m(&ex.asserts), m(&ex.reached));
    let _ = write!(o, "\"incomplete\":[{}],", ex.incomplete.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    let mut fns: Vec<String> = ex.called.iter().enumerate().filter(|(_, c)| **c > 0).map(|(i, _)| ex.md.fdefs[i].0.clone()).filter(|n| n.contains("10anothertls")).map(|n| demangle(&n)).collect();
    fns.sort();
    fns.dedup();
    let nall = ex.called.iter().filter(|c| **c > 0).count();
    let _ = write!(o, "\"functions_total\":{},\"functions\":[{}],", nall, fns.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    let pairs = |v: &Vec<(String, Vec<u8>)>| -> String { v.iter().map(|(n, b)| format!("[{},{}]", js(n), js(&hex(b)))).collect::<Vec<_>>().join(",") };
    let _ = write!(
        o,
        "\"samples\":[{}],",
        ex.samples
            .iter()
            .map(|s| format!("{{\"end\":{},\"syms\":[{}],\"marks\":[{}]}}", js(&s.end), pairs(&s.syms), s.marks.iter().map(|m| js(m)).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(",")
    );
    let _ = write!(
        o,
        "\"cex\":[{}]}}",
        ex.cex
            .iter()
            .map(|c| format!(
                "{{\"kind\":{},\"msg\":{},\"stack\":[{}],\"syms\":[{}]}}",
                js(&c.kind),
                js(&c.msg),
                c.stack.iter().take(12).map(|s| js(s)).collect::<Vec<_>>().join(","),
                c.syms.iter().map(|(n, b)| format!("[{},{}]", js(n), js(&hex(b)))).collect::<Vec<_>>().join(",")
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    if ex.opts.trace {
        let mut v: Vec<_> = ex.profile.iter().map(|(k, c)| (*c, *k)).collect();
        v.sort();
        for (c, (f, b)) in v.iter().rev().take(30) {
            eprintln!("branch {} {} bb{}", c, demangle(&ex.md.fdefs[*f as usize].0), b);
        }
    }
    match out {
        Some(p) => std::fs::write(p, o).unwrap(),
        None => println!("{}", o),
    }
}

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    // deep recursion in term construction
    std::thread::Builder::new().stack_size(2 << 30).spawn(move || run(argv)).unwrap().join().unwrap();
}
