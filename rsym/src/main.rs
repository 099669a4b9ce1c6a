#![allow(dead_code)]
mod bits;
mod exec;
mod expr;
mod hooks;
mod ir;
mod llvm;
mod selftest;
mod solver;
mod z3;

use exec::*;
use std::io::Write;
use std::time::*;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn setrlimit(r: i32, p: *const [u64; 2]) -> i32;
    fn alarm(seconds: u32) -> u32;
}

fn jesc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn jlist(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

struct Opts {
    bc: Vec<String>,
    out: String,
    jobs: usize,
    match_: Option<String>,
    harnesses: Vec<String>,
    list: bool,
    print: Option<String>,
    timeout: u64,
    solver_ms: u32,
    mem_gb: u64,
    fail_grace: Option<u64>,
    verbose: bool,
}

fn usage() -> ! {
    eprintln!("usage: rsym [--out DIR] [--jobs N] [--timeout S] [--print F] [--list] [--harness NAME]... BC...");
    std::process::exit(2)
}

fn main() {
    let mut o = Opts {
        bc: vec![],
        out: "/tmp/rsym-out".into(),
        jobs: 8,
        match_: None,
        harnesses: vec![],
        list: false,
        print: None,
        timeout: 600,
        solver_ms: 20000,
        mem_gb: 12,
        fail_grace: None,
        verbose: false,
    };
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut nx = || it.next().unwrap_or_else(|| usage());
        match a.as_str() {
            "--out" => o.out = nx(),
            "--jobs" => o.jobs = nx().parse().unwrap(),
            "--match" => o.match_ = Some(nx()),
            "--harness" => o.harnesses.push(nx()),
            "--list" => o.list = true,
            "--print" => o.print = Some(nx()),
            "--timeout" => o.timeout = nx().parse().unwrap(),
            "--solver-ms" => o.solver_ms = nx().parse().unwrap(),
            "--mem-gb" => o.mem_gb = nx().parse().unwrap(),
            "--fail-grace" => o.fail_grace = Some(nx().parse().unwrap()),
            "-v" => o.verbose = true,
            "--selftest" => {
                selftest::run(nx().parse().unwrap());
                return;
            }
            _ if a.starts_with('-') => usage(),
            _ => o.bc.push(a),
        }
    }
    let t0 = Instant::now();
    let mut md = llvm::Module::new();
    for (i, f) in o.bc.iter().enumerate() {
        if let Err(e) = md.link_file(f, i == 0) {
            eprintln!("rsym: {e}");
            std::process::exit(3);
        }
    }
    let want = |n: &str| -> bool {
        n.starts_with("h_") && (o.harnesses.is_empty() || o.harnesses.iter().any(|h| h == &n[2..])) && o.match_.as_ref().map_or(true, |m| n.contains(m.as_str()))
    };
    let keep_extra = |n: &str| n.contains("9Formatter12pad_integral");
    let tl = t0.elapsed();
    md.internalize(&|n| want(n) || keep_extra(n));
    for (n, f, decl) in md.functions() {
        if decl {
            continue;
        }
        if hooks::is_hooked(&n) || n.starts_with("h_") || keep_extra(&n) {
            md.set_noinline(f);
        }
    }
    let p = std::env::var("RSYM_PASSES").unwrap_or(
        "globaldce,lower-invoke,function(simplifycfg,sroa,early-cse,simplifycfg,instsimplify,adce),globaldce".into(),
    );
    if let Err(e) = md.passes(&p) {
        eprintln!("rsym: passes: {e}");
        std::process::exit(3);
    }
    let tp = t0.elapsed();
    if let Some(p) = &o.print {
        md.print(p);
    }
    let mut prog = md.lower();
    let hctx_kinds = hooks::attach(&mut prog);
    let prog: &'static ir::Program = Box::leak(Box::new(prog));
    let tlow = t0.elapsed();
    let mut hs: Vec<&'static ir::Func> = prog.funcs.iter().filter(|f| f.defined && want(&f.name)).collect();
    hs.sort_by(|a, b| a.name.cmp(&b.name));
    if o.verbose || o.list {
        eprintln!(
            "rsym: {} functions, {} globals; link {:.1}s passes {:.1}s lower {:.1}s; z3 {}",
            prog.funcs.iter().filter(|f| f.defined).count(),
            prog.globals.len(),
            tl.as_secs_f64(),
            (tp - tl).as_secs_f64(),
            (tlow - tp).as_secs_f64(),
            z3::version()
        );
    }
    if o.list {
        for h in &hs {
            println!("{}", &h.name[2..]);
        }
        return;
    }
    if !o.harnesses.is_empty() {
        for h in &o.harnesses {
            if !hs.iter().any(|f| f.name[2..] == *h) {
                eprintln!("rsym: no harness {h}");
                std::process::exit(3);
            }
        }
        // longest-first order is the caller's order
        hs.sort_by_key(|f| o.harnesses.iter().position(|h| *h == f.name[2..]));
    }
    std::fs::create_dir_all(&o.out).unwrap();
    if hs.len() == 1 || o.jobs <= 1 {
        let mut hk = Some(hctx_kinds);
        for h in hs {
            run_one(prog, h, hk.take().unwrap_or_default(), &o, tlow.as_secs_f64());
            break;
        }
        return;
    }
    // one forked child per harness
    let mut running: Vec<i32> = vec![];
    let mut queue = hs.into_iter();
    let mut hk = Some(hctx_kinds);
    loop {
        while running.len() < o.jobs {
            let Some(h) = queue.next() else { break };
            unsafe {
                let pid = fork();
                if pid == 0 {
                    let lim = [o.mem_gb << 30, o.mem_gb << 30];
                    setrlimit(9, &lim);
                    run_one(prog, h, hk.take().unwrap(), &o, tlow.as_secs_f64());
                    std::io::stdout().flush().ok();
                    _exit(0);
                }
                running.push(pid);
            }
        }
        if running.is_empty() {
            break;
        }
        let mut st = 0;
        let pid = unsafe { waitpid(-1, &mut st, 0) };
        running.retain(|x| *x != pid);
    }
}

fn run_one(prog: &'static ir::Program, h: &'static ir::Func, hk: hooks::HookCtx, o: &Opts, prep: f64) {
    let t0 = Instant::now();
    // a solver call that ignores its own time limit must not run forever
    unsafe { alarm(o.timeout as u32 + 60) };
    let name = h.name[2..].to_string();
    let mut en = Engine::new(prog);
    en.hookctx = hk;
    en.solver.timeout = o.solver_ms;
    en.deadline = Some(t0 + Duration::from_secs(o.timeout));
    en.fail_grace = o.fail_grace.map(Duration::from_secs);
    let st = en.initial(h);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        en.explore(st, 0);
    }));
    if r.is_err() {
        en.errors.push("engine panicked".into());
    }
    let el = t0.elapsed().as_secs_f64();
    let mut fails = vec![];
    let mut wits = vec![];
    for (f, isw) in en.failures.iter().map(|f| (f, false)).chain(en.witnesses.iter().map(|f| (f, true))) {
        let ins: Vec<String> = f
            .inputs
            .iter()
            .map(|(n, b)| format!("[{},{}]", jesc(n), jesc(&b.iter().map(|x| format!("{x:02x}")).collect::<String>())))
            .collect();
        let ch: Vec<String> = f.choices.iter().map(|(n, v)| format!("[{},{}]", jesc(n), v)).collect();
        let o = if isw { &mut wits } else { &mut fails };
        o.push(format!("{{\"label\":{},\"inputs\":{},\"choices\":{}}}", jesc(&f.label), jlist(&ins), jlist(&ch)));
    }
    let errs: Vec<String> = en.errors.iter().map(|e| jesc(e)).collect();
    let reach: Vec<String> = en.reach.iter().map(|(k, v)| format!("{}:{}", jesc(k), v)).collect();
    let asserts: Vec<String> = en.assert_labels.iter().map(|(k, v)| format!("{}:{}", jesc(k), v)).collect();
    // functions of /repo crates (and all others) that were executed
    let mut fns: Vec<String> = vec![];
    let mut nf = 0;
    for (i, u) in en.used.iter().enumerate() {
        if *u {
            nf += 1;
            let d = format!("{:#}", rustc_demangle::demangle(&prog.funcs[i].name));
            if d.contains("hpl_") {
                fns.push(d);
            }
        }
    }
    fns.sort();
    fns.dedup();
    let fl: Vec<String> = fns.iter().map(|x| jesc(x)).collect();
    let summ: Vec<String> = en.hookctx.summarised.iter().map(|x| jesc(x)).collect();
    let z = &en.solver.z3;
    let js = format!(
        "{{\"harness\":{},\"wall_s\":{:.2},\"prep_s\":{:.2},\"paths\":{},\"assumed\":{},\"forks\":{},\"merges\":{},\"instructions\":{},\"assert_checks\":{},\"assert_queries\":{},\"queries\":{},\"query_cache_hits\":{},\"query_model_hits\":{},\"solver_s\":{:.3},\"unknowns\":{},\"functions_executed\":{},\"repo_functions\":{},\"summaries\":{},\"reach\":{{{}}},\"asserts\":{{{}}},\"failures\":{},\"witnesses\":{},\"errors\":{},\"expr_nodes\":{}}}\n",
        jesc(&name), el, prep, en.paths, en.assumed, en.forks, en.merges, en.inst, en.asserts, en.assert_queries,
        z.queries, en.solver.hits, en.solver.model_hits, z.time, en.solver.unknowns, nf,
        jlist(&fl), jlist(&summ), reach.join(","), asserts.join(","), jlist(&fails), jlist(&wits), jlist(&errs), expr::cx().nodes.len()
    );
    let tmp = format!("{}/{}.tmp", o.out, name);
    std::fs::write(&tmp, js).unwrap();
    std::fs::rename(&tmp, format!("{}/{}.json", o.out, name)).unwrap();
    if o.verbose {
        eprintln!(
            "[{}] {:.1}s paths={} assumed={} forks={} merges={} inst={} asserts={}/{} queries={} ({:.1}s) hits={}+{} unknown={} fails={} errors={}",
            name, el, en.paths, en.assumed, en.forks, en.merges, en.inst, en.asserts, en.assert_queries, z.queries, z.time,
            en.solver.hits, en.solver.model_hits, en.solver.unknowns, en.failures.len(), en.errors.len()
        );
        for (k, v) in &en.reach {
            eprintln!("   reach {k}: {v}");
        }
        for f in &en.failures {
            eprintln!("   FAIL {}", f.label);
            for (n, b) in &f.inputs {
                eprintln!("      {n} = {}", b.iter().map(|x| format!("{x:02x}")).collect::<String>());
            }
            for (n, v) in &f.choices {
                eprintln!("      {n} -> {v}");
            }
        }
        for e in &en.errors {
            eprintln!("   ERROR {e}");
        }
        if std::env::var("RSYM_SITES").is_ok() {
            let mut v: Vec<_> = en.fork_sites.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for (k, n) in v.iter().take(40) {
                eprintln!("   site {n:6} {k}");
            }
        }
    }
}
