mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
use std::fmt::Write;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let t = std::thread::Builder::new().stack_size(8 << 30).spawn(move || real(a)).unwrap();
    let code = t.join().unwrap_or(3);
    std::process::exit(code);
}
fn real(a: Vec<String>) -> i32 {
    if a.len() >= 2 && a[1] == "selftest" {
        return 0;
    }
    // nsym <ll> <harness> [--trace] [--time SECS] [--dump DIR] [--out FILE] [--fork]
    let mut trace = false;
    let mut dump = None;
    let mut out = None;
    let mut time = None;
    let mut fork = false;
    let mut qt = 60_000u32;
    let mut pos = vec![];
    let mut i = 1;
    while i < a.len() {
        match a[i].as_str() {
            "--trace" => trace = true,
            "--fork" => fork = true,
            "--dump" => {
                i += 1;
                dump = Some(a[i].clone())
            }
            "--out" => {
                i += 1;
                out = Some(a[i].clone())
            }
            "--time" => {
                i += 1;
                time = Some(a[i].parse::<u64>().unwrap())
            }
            "--qtime" => {
                i += 1;
                qt = a[i].parse().unwrap()
            }
            x => pos.push(x.to_string()),
        }
        i += 1;
    }
    let t0 = std::time::Instant::now();
    let m = ir::Module::load(&pos[0]);
    let t1 = t0.elapsed().as_secs_f64();
    let mem = exec::Exec::init_mem(&m);
    let t2 = t0.elapsed().as_secs_f64();
    let mut ex = exec::Exec::new(&m);
    ex.trace = trace;
    ex.fork_all = fork;
    ex.sv.dump = dump;
    ex.sv.timeout_ms = qt;
    if let Some(s) = time {
        ex.deadline = Some(t0 + std::time::Duration::from_secs(s));
    }
    match ex.start(&pos[1], &mem) {
        Ok(st) => ex.explore(st),
        Err(e) => ex.rep.errors.push(e),
    }
    let total = t0.elapsed().as_secs_f64();
    if !ex.rep.violations.is_empty() {
        ex.rep.errors.retain(|e| !e.starts_with("time limit"));
    }
    let r = &ex.rep;
    let s = &ex.sv.st;
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"harness\":{},\"load_s\":{:.3},\"init_s\":{:.3},\"total_s\":{:.3},\"paths\":{},\"forks\":{},\"merges\":{},\"mergefail\":{},\"insts\":{},\"assumed_away\":{},\"depth\":{},\"exprs\":{}",
        js(&pos[1]),
        t1,
        t2 - t1,
        total,
        r.paths,
        r.forks,
        r.merges,
        r.mergefail,
        r.insts,
        r.assumed_away,
        r.max_depth,
        expr::cx().n.len()
    );
    let _ = write!(
        o,
        ",\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"splits\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"cached\":{},\"by_domain\":{},\"by_rewrite\":{},\"fclose\":{},\"lifted\":{}",
        s.queries, s.sat, s.unsat, s.unknown, s.splits, s.time, s.max_time, s.cached, s.by_domain, s.by_rewrite, s.fclose, s.lifted
    );
    let _ = write!(o, ",\"checks\":{{{}}}", r.checks.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"covers\":{{{}}}", r.covers.iter().map(|(k, v)| format!("{}:\"{}\"", js(k), hex(v))).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"knowns\":{{{}}}", r.knowns.iter().map(|(k, v)| format!("{}:\"{}\"", js(k), hex(v))).collect::<Vec<_>>().join(","));
    let _ = write!(
        o,
        ",\"violations\":[{}]",
        r.violations
            .iter()
            .map(|v| format!(
                "{{\"id\":{},\"kind\":{},\"bytes\":\"{}\",\"trace\":[{}]}}",
                js(&v.id),
                js(&v.kind),
                hex(&v.bytes),
                v.trace.iter().take(12).map(|x| js(x)).collect::<Vec<_>>().join(",")
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    let _ = write!(o, ",\"errors\":[{}]", r.errors.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    let mut fns: Vec<String> = ex.fns_run.iter().map(|f| m.fns[*f as usize].name.to_string()).collect();
    fns.sort();
    let _ = write!(o, ",\"fns_total\":{},\"fns\":[{}]", ex.fns_run.len(), fns.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    let _ = write!(
        o,
        ",\"outs\":[{}]",
        r.outs.iter().map(|l| format!("[{}]", l.iter().map(|(k, v)| format!("[{},{}]", k, v)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")
    );
    o.push('}');
    match out {
        Some(f) => std::fs::write(f, &o).unwrap(),
        None => println!("{}", o),
    }
    if trace {
        let mut v: Vec<_> = ex.forksites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((n, b), k) in v.iter().take(25) {
            eprintln!("fork {:6} {}:bb{}", k, exec::short(n), b);
        }
        let mut v: Vec<_> = ex.qsites.iter().collect();
        v.sort_by(|a, b| b.1 .1.partial_cmp(&a.1 .1).unwrap());
        for (k, n) in v.iter().take(14) {
            eprintln!("queries {:6} {:7.2} s  {}", n.0, n.1, k);
        }
        let mut v: Vec<_> = ex.mergefails.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (n, k) in v.iter().take(25) {
            eprintln!("mergefail {:6} {}", k, n);
        }
    }
    if !r.errors.is_empty() {
        2
    } else if !r.violations.is_empty() {
        1
    } else {
        0
    }
}
