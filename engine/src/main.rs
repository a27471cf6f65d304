mod exec;
mod expr;
mod gf2;
mod lia;
mod ll;
mod solver;
use std::fmt::Write as _;
use std::rc::Rc;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn hexlist(v: &[Vec<u8>]) -> String {
    format!("[{}]", v.iter().map(|b| js(&hex(b))).collect::<Vec<_>>().join(","))
}

/// one line per job: id \t entry \t comma-separated args \t seconds [\t hex inputs, comma-separated: concrete replay]
struct Job {
    id: String,
    entry: String,
    args: Vec<u64>,
    secs: u64,
    inputs: Option<Vec<Vec<u8>>>,
}

fn run_job(m: Rc<ll::Module>, im: &Rc<exec::Image>, j: &Job, profile: bool) -> String {
    let t = Instant::now();
    let qms = (j.secs * 1000 / 2).min(240_000) as u32;
    let mut x = exec::Exec::new(m, im, qms);
    x.deadline = t + Duration::from_secs(j.secs);
    x.profile = profile;
    x.input_seed = j.inputs.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.run_entry(&j.entry, &j.args)));
    let mut o = String::from("{");
    let _ = write!(o, "\"id\":{},\"entry\":{},\"args\":{:?},", js(&j.id), js(&j.entry), j.args);
    match &r {
        Ok(Ok(())) => o.push_str("\"status\":\"ok\","),
        Ok(Err(exec::Ctl::Viol(v))) => {
            let _ = write!(
                o,
                "\"status\":\"violation\",\"kind\":{},\"msg\":{},\"backtrace\":[{}],\"inputs\":{},",
                js(&v.kind),
                js(&v.msg),
                v.backtrace.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
                hexlist(&v.inputs)
            );
        }
        Ok(Err(exec::Ctl::Err(s))) => {
            let _ = write!(o, "\"status\":\"error\",\"msg\":{},", js(s));
        }
        Ok(Err(_)) => o.push_str("\"status\":\"error\",\"msg\":\"internal\","),
        Err(e) => {
            let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let _ = write!(o, "\"status\":\"error\",\"msg\":{},", js(&format!("engine panic: {}", s)));
        }
    }
    let s = &x.solver;
    let _ = write!(
        o,
        "\"paths\":{},\"killed\":{},\"panics_ok\":{},\"instrs\":{},\"forks\":{},\"merges\":{},\"branch_queries\":{},\"checks\":{},\"checks_symbolic\":{},\"max_pc\":{},",
        x.paths, x.killed, x.panics_ok, x.instrs, x.forks, x.merges, x.branch_q, x.checks, x.checks_sym, x.max_pc
    );
    let _ = write!(
        o,
        "\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"nodes\":{},\"wall_s\":{:.3},",
        s.queries,
        s.cache_hits,
        s.sat,
        s.unsat,
        s.unknown,
        s.time,
        s.max_query,
        expr::num_nodes(),
        t.elapsed().as_secs_f64()
    );
    let _ = write!(o, "\"reach\":{{{}}},", x.reach.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(
        o,
        "\"samples\":[{}],",
        x.samples.iter().map(|s| format!("{{\"inputs\":{},\"obs\":{}}}", hexlist(&s.inputs), hexlist(&s.obs))).collect::<Vec<_>>().join(",")
    );
    let fs = x.functions();
    let _ = write!(o, "\"functions\":{{{}}}", fs.iter().map(|(k, v)| format!("{}:{}", js(k), js(v))).collect::<Vec<_>>().join(","));
    if profile {
        let mut v: Vec<_> = x.fork_sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(25) {
            eprintln!("{:6} {}", n, k);
        }
    }
    o.push('}');
    o
}

fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        eprintln!("usage: symex MODULE.ll JOBS.tsv OUTDIR NPROC [--profile]\nz3 {}", solver::version());
        std::process::exit(2);
    }
    let profile = a.iter().any(|x| x == "--profile");
    let text = std::fs::read_to_string(&a[1]).expect("module");
    let m = Rc::new(ll::Module::parse(text));
    let im = Rc::new(exec::load(&m));
    let jobs: Vec<Job> = std::fs::read_to_string(&a[2])
        .expect("jobs")
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| {
            let f: Vec<&str> = l.split('\t').collect();
            Job {
                id: f[0].into(),
                entry: f[1].into(),
                args: f[2].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
                secs: f[3].parse().unwrap(),
                inputs: f.get(4).map(|s| {
                    if s.is_empty() {
                        vec![]
                    } else {
                        s.split(',').map(|h| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()).collect()
                    }
                }),
            }
        })
        .collect();
    let outdir = &a[3];
    let nproc: usize = a[4].parse().unwrap();
    let mem: u64 = std::env::var("SYMEX_MEM_GB").ok().and_then(|s| s.parse().ok()).unwrap_or(6);
    let mut running: std::collections::HashMap<i32, usize> = Default::default();
    let mut next = 0;
    if nproc == 0 {
        for j in &jobs {
            let r = run_job(m.clone(), &im, j, profile);
            std::fs::write(format!("{}/{}.json", outdir, j.id), r).unwrap();
        }
        return;
    }
    while next < jobs.len() || !running.is_empty() {
        while next < jobs.len() && running.len() < nproc {
            let j = &jobs[next];
            unsafe {
                let pid = fork();
                if pid == 0 {
                    let lim = [mem << 30, mem << 30];
                    setrlimit(9, &lim);
                    let r = run_job(m.clone(), &im, j, profile);
                    let f = format!("{}/{}.json", outdir, j.id);
                    std::fs::write(format!("{}.tmp", f), r).unwrap();
                    std::fs::rename(format!("{}.tmp", f), f).unwrap();
                    _exit(0);
                }
                running.insert(pid, next);
            }
            next += 1;
        }
        let mut status = 0;
        let pid = unsafe { waitpid(-1, &mut status, 0) };
        if let Some(k) = running.remove(&pid) {
            let f = format!("{}/{}.json", outdir, jobs[k].id);
            if !std::path::Path::new(&f).exists() {
                let r = format!("{{\"id\":{},\"entry\":{},\"args\":{:?},\"status\":\"error\",\"msg\":\"worker died (status {})\"}}", js(&jobs[k].id), js(&jobs[k].entry), jobs[k].args, status);
                std::fs::write(f, r).unwrap();
            }
        }
    }
}

fn main() {
    // path merging recurses; give it room
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    if h.join().is_err() {
        std::process::exit(2);
    }
}
