mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
use exec::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::Write;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, pr: i32, fl: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn prctl(a: i32, b: u64, c: u64, d: u64, e: u64) -> i32;
}

#[derive(Default, Clone)]
struct Tot {
    paths: u64, infeasible: u64, instrs: u64, forks: u64, checks: u64, refuted: u64, queries: u64, sat: u64, unsat: u64, unknown: u64, stime: f64, smax: f64,
    limits: BTreeMap<String, u64>, engine: BTreeMap<String, u64>, bad: Vec<(String, Vec<u64>, String)>, covers: BTreeMap<u64, u64>,
    blocks: BTreeSet<(u32, u32)>, samples: Vec<(Vec<u64>, u64)>, sites: BTreeMap<(u32, u32, u32), u64>, leftover: u64, max_inputs: usize, max_steps: u64, max_pc: usize,
}

struct Args { bc: String, entry: String, params: Vec<u64>, time: f64, jobs: usize, out: String, samples: usize, keep_going: bool, max_steps: u64, frontier: usize, dump: Option<String>, sites: bool }

fn finish(eng: &mut Engine, t: &mut Tot, st: &State, s: Stop, a: &Args) {
    t.max_inputs = t.max_inputs.max(st.inputs.len());
    t.max_steps = t.max_steps.max(st.steps);
    t.max_pc = t.max_pc.max(st.pc.len());
    match s {
        Stop::Done => {
            t.paths += 1;
            // reservoir-free sampling: keep the first ones and then every path whose index is a power-of-two multiple
            if t.samples.len() < a.samples { t.samples.push((eng.model_of(st), eng.digest(st))); }
            else if t.paths % 101 == 0 { let k = (t.paths / 101) as usize % a.samples.max(1); if k < t.samples.len() { t.samples[k] = (eng.model_of(st), eng.digest(st)); } }
        }
        Stop::Infeasible => t.infeasible += 1,
        Stop::Bad(m, mo) => {
            let mut v = mo.unwrap_or_else(|| eng.model_of(st));
            v.resize(st.inputs.len(), 0);
            let w = eng.where_am_i(st);
            if t.bad.len() < 20 { t.bad.push((m, v, w)); }
        }
        Stop::Limit(m) => *t.limits.entry(m).or_default() += 1,
        Stop::Engine(m) => { let w = eng.where_am_i(st); *t.engine.entry(format!("{} @ {}", m, w)).or_default() += 1 }
    }
}
fn collect(eng: &mut Engine, t: &mut Tot) {
    t.instrs += std::mem::take(&mut eng.instrs);
    t.forks += std::mem::take(&mut eng.forks);
    t.checks += std::mem::take(&mut eng.checks);
    t.refuted += std::mem::take(&mut eng.refutations);
    let s = std::mem::take(&mut eng.solver.st);
    t.queries += s.queries; t.sat += s.sat; t.unsat += s.unsat; t.unknown += s.unknown; t.stime += s.time; t.smax = t.smax.max(s.max);
    for (k, v) in std::mem::take(&mut eng.covers) { *t.covers.entry(k).or_default() += v; }
    for (k, v) in std::mem::take(&mut eng.forksites) { *t.sites.entry(k).or_default() += v; }
    for (f, b) in eng.cov.iter().enumerate() { for (i, x) in b.iter().enumerate() { if *x { t.blocks.insert((f as u32, i as u32)); } } }
}
fn ser(t: &Tot) -> String {
    let mut s = String::new();
    s += &format!("N {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {}\n", t.paths, t.infeasible, t.instrs, t.forks, t.checks, t.queries, t.sat, t.unsat, t.unknown, t.stime, t.smax, t.leftover, t.max_inputs, t.max_steps, t.max_pc, t.refuted);
    for (k, v) in &t.limits { s += &format!("L {} {}\n", v, k); }
    for (k, v) in &t.engine { s += &format!("E {} {}\n", v, k.replace('\n', " ")); }
    for (m, v, w) in &t.bad { s += &format!("B {}|{}|{}\n", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "), m.replace('|', "/"), w); }
    for (k, v) in &t.covers { s += &format!("C {} {}\n", k, v); }
    for (f, b) in &t.blocks { s += &format!("K {} {}\n", f, b); }
    for (k, v) in &t.sites { s += &format!("F {} {} {} {}\n", k.0, k.1, k.2, v); }
    for (v, n) in &t.samples { s += &format!("S {} {}\n", n, v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")); }
    s
}
fn de(s: &str, t: &mut Tot) {
    for l in s.lines() {
        if l.len() < 2 { continue; }
        let r = &l[2..];
        let mut it = r.split(' ');
        match &l[..1] {
            "N" => {
                let v: Vec<f64> = it.map(|x| x.parse().unwrap()).collect();
                t.paths += v[0] as u64; t.infeasible += v[1] as u64; t.instrs += v[2] as u64; t.forks += v[3] as u64; t.checks += v[4] as u64; t.queries += v[5] as u64;
                t.sat += v[6] as u64; t.unsat += v[7] as u64; t.unknown += v[8] as u64; t.stime += v[9]; t.smax = t.smax.max(v[10]); t.leftover += v[11] as u64;
                t.max_inputs = t.max_inputs.max(v[12] as usize); t.max_steps = t.max_steps.max(v[13] as u64); t.max_pc = t.max_pc.max(v[14] as usize); t.refuted += v[15] as u64;
            }
            "L" => { let (n, k) = r.split_once(' ').unwrap(); *t.limits.entry(k.into()).or_default() += n.parse::<u64>().unwrap(); }
            "E" => { let (n, k) = r.split_once(' ').unwrap(); *t.engine.entry(k.into()).or_default() += n.parse::<u64>().unwrap(); }
            "B" => { let p: Vec<&str> = r.splitn(3, '|').collect(); t.bad.push((p[1].into(), p[0].split(' ').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(), p[2].into())); }
            "C" => { let k = it.next().unwrap().parse().unwrap(); *t.covers.entry(k).or_default() += it.next().unwrap().parse::<u64>().unwrap(); }
            "K" => { let f = it.next().unwrap().parse().unwrap(); t.blocks.insert((f, it.next().unwrap().parse().unwrap())); }
            "F" => { let v: Vec<u64> = it.map(|x| x.parse().unwrap()).collect(); *t.sites.entry((v[0] as u32, v[1] as u32, v[2] as u32)).or_default() += v[3]; }
            "S" => { let v: Vec<u64> = it.filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(); t.samples.push((v[1..].to_vec(), v[0])); }
            _ => {}
        }
    }
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += " ", c => o.push(c) } }
    o.push('"');
    o
}

fn real_main() {
    let mut a = Args { bc: String::new(), entry: String::new(), params: vec![], time: 600.0, jobs: 8, out: "/dev/stdout".into(), samples: 8, keep_going: false, max_steps: 200_000_000, frontier: 0, dump: None, sites: false };
    let mut serve = false;
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        match k.as_str() {
            "--bc" => a.bc = it.next().unwrap(),
            "--entry" => a.entry = it.next().unwrap(),
            "--params" => a.params = it.next().unwrap().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            "--time" => a.time = it.next().unwrap().parse().unwrap(),
            "--jobs" => a.jobs = it.next().unwrap().parse().unwrap(),
            "--out" => a.out = it.next().unwrap(),
            "--samples" => a.samples = it.next().unwrap().parse().unwrap(),
            "--max-steps" => a.max_steps = it.next().unwrap().parse().unwrap(),
            "--frontier" => a.frontier = it.next().unwrap().parse().unwrap(),
            "--dump" => a.dump = Some(it.next().unwrap()),
            "--keep-going" => a.keep_going = true,
            "--sites" => a.sites = true,
            "--serve" => serve = true,
            _ => panic!("bad argument {}", k),
        }
    }
    let t0 = Instant::now();
    let m: &'static ir::Module = Box::leak(Box::new(ir::load(&a.bc)));
    let load_s = t0.elapsed().as_secs_f64();
    if serve {
        // requests on standard input, each run in a process of its own: entry, parameters, time, steps, output
        for l in std::io::stdin().lines() {
            let l = l.unwrap();
            let p: Vec<&str> = l.split(' ').collect();
            let pid = unsafe { fork() };
            if pid == 0 {
                unsafe { prctl(1, 9, 0, 0, 0); }
                a.entry = p[0].into();
                a.params = p[1].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
                a.time = p[2].parse().unwrap();
                a.max_steps = p[3].parse().unwrap();
                a.out = p[4].into();
                explore(a, m, load_s);
                unsafe { _exit(0) }
            }
            let mut st = 0;
            unsafe { waitpid(pid, &mut st, 0); }
            println!("done {}", st);
        }
        return;
    }
    explore(a, m, load_s);
}
fn explore(a: Args, m: &'static ir::Module, load_s: f64) {
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs_f64(a.time);
    let mut eng = Engine::new(m, a.params.clone());
    eng.max_steps = a.max_steps;
    eng.deadline = Some(deadline);
    if let Some(d) = &a.dump { eng.solver.dump = Some(std::fs::File::create(d).unwrap()); }
    let mut t = Tot::default();
    let init = eng.initial(&a.entry);
    let mut q: VecDeque<State> = VecDeque::new();
    q.push_back(init);
    // breadth-first phase, until there is enough work to distribute
    let target = if a.frontier > 0 { a.frontier } else { 6 * a.jobs };
    let bfs_deadline = t0 + Duration::from_secs_f64((a.time * 0.25).min(15.0));
    while let Some(mut st) = q.pop_front() {
        let s = eng.run(&mut st);
        finish(&mut eng, &mut t, &st, s, &a);
        q.extend(eng.work.drain(..));
        if !t.bad.is_empty() && !a.keep_going { break; }
        if a.jobs > 1 && (q.len() >= target || (Instant::now() > bfs_deadline && q.len() >= a.jobs)) { break; }
        if Instant::now() > deadline { break; }
    }
    if !q.is_empty() && (t.bad.is_empty() || a.keep_going) && Instant::now() < deadline {
        collect(&mut eng, &mut t);
        let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *mut std::sync::atomic::AtomicU64;
        let (ctr, stop) = unsafe { (&*shared, &*shared.add(1)) };
        let mut states: Vec<Option<State>> = q.drain(..).map(Some).collect();
        let n = states.len();
        let mut pids = vec![];
        let dir = std::env::temp_dir().join(format!("symex.{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        // shared counters: next state of the queue, stop flag, running workers, result files
        use std::sync::atomic::Ordering::SeqCst;
        let (active, files) = unsafe { (&*shared.add(2), &*shared.add(3)) };
        active.store(a.jobs as u64, SeqCst);
        for j in 0..a.jobs {
            let pid = unsafe { fork() };
            if pid == 0 {
                unsafe { prctl(1, 9, 0, 0, 0); }
                let mut kids: Vec<i32> = vec![];
                let mut lt = Tot::default();
                for c in &mut eng.cov { for b in c { *b = false; } }
                let base = eng.pool.n.len();
                let mut stolen = false;
                let mut last = Instant::now();
                'outer: loop {
                    if !stolen {
                        let i = ctr.fetch_add(1, SeqCst) as usize;
                        if i >= n { break; }
                        if stop.load(SeqCst) != 0 { lt.leftover += 1; break; }
                        if Instant::now() > deadline { lt.leftover += 1; continue; }
                        eng.pool.truncate(base);
                        eng.solver = solver::Solver::new();
                        if let Some(d) = &a.dump { if j == 0 { eng.solver.dump = Some(std::fs::OpenOptions::new().append(true).create(true).open(d).unwrap()); } }
                        eng.work.push(states[i].take().unwrap());
                    }
                    while let Some(mut st) = eng.work.pop() {
                        let s = eng.run(&mut st);
                        finish(&mut eng, &mut lt, &st, s, &a);
                        drop(st);
                        if !lt.bad.is_empty() && !a.keep_going { stop.store(1, SeqCst); break; }
                        if stop.load(SeqCst) != 0 || Instant::now() > deadline { break; }
                        // another worker ran out of work: hand over the older half of ours
                        if eng.work.len() >= 2 && active.load(SeqCst) < a.jobs as u64 && ctr.load(SeqCst) >= n as u64 && last.elapsed().as_millis() > 30 {
                            if active.fetch_add(1, SeqCst) >= a.jobs as u64 { active.fetch_sub(1, SeqCst); continue; }
                            last = Instant::now();
                            let half = eng.work.len() / 2;
                            let pid = unsafe { fork() };
                            if pid == 0 {
                                unsafe { prctl(1, 9, 0, 0, 0); }
                                eng.work.truncate(half);
                                lt = Tot::default();
                                eng.reset_counts();
                                for c in &mut eng.cov { for b in c { *b = false; } }
                                eng.solver = solver::Solver::new();
                                kids.clear();
                                stolen = true;
                                continue 'outer;
                            }
                            kids.push(pid);
                            eng.work.drain(..half);
                        }
                    }
                    lt.leftover += eng.work.len() as u64;
                    eng.work.clear();
                    collect(&mut eng, &mut lt);
                    if stolen { break; }
                }
                let k = files.fetch_add(1, SeqCst);
                std::fs::write(dir.join(format!("{}", k)), ser(&lt)).unwrap();
                active.fetch_sub(1, SeqCst);
                let mut died = 0;
                for p in kids { let mut s = 0; unsafe { waitpid(p, &mut s, 0); } if s != 0 { died += 1; } }
                unsafe { _exit(if died > 0 { 3 } else { 0 }) }
            }
            pids.push(pid);
        }
        let mut died = 0;
        for p in pids { let mut s = 0; unsafe { waitpid(p, &mut s, 0); } if s != 0 { died += 1; } }
        for j in 0..files.load(SeqCst) { match std::fs::read_to_string(dir.join(format!("{}", j))) { Ok(s) => de(&s, &mut t), Err(_) => died += 1 } }
        let _ = std::fs::remove_dir_all(&dir);
        if died > 0 { *t.engine.entry(format!("{} worker processes died", died)).or_default() += 1; }
        let done = ctr.load(std::sync::atomic::Ordering::SeqCst) as usize;
        if done < n { t.leftover += (n - done) as u64; }
    } else {
        t.leftover += q.len() as u64;
        collect(&mut eng, &mut t);
    }
    let complete = t.leftover == 0 && t.limits.is_empty() && t.engine.is_empty() && t.unknown == 0 && t.bad.is_empty();
    let mut lines: BTreeSet<(String, u32)> = BTreeSet::new();
    let mut fns: BTreeSet<&str> = BTreeSet::new();
    for (f, b) in &t.blocks {
        let fun = &m.funs[*f as usize];
        fns.insert(&fun.name);
        for l in &fun.blocks[*b as usize].locs { let (s, n) = &m.locs[*l as usize]; if s.contains("/repo/") { lines.insert((s.clone(), *n)); } }
    }
    let mut o = String::from("{\n");
    o += &format!("\"entry\": {}, \"params\": {:?}, \"complete\": {},\n", js(&a.entry), a.params, complete);
    o += &format!("\"paths\": {}, \"infeasible_paths\": {}, \"instructions\": {}, \"forks\": {}, \"checks\": {},\n", t.paths, t.infeasible, t.instrs, t.forks, t.checks);
    o += &format!("\"refuted_by_domain\": {}, \"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"solver_s\": {:.3}, \"solver_max_s\": {:.3},\n", t.refuted, t.queries, t.sat, t.unsat, t.unknown, t.stime, t.smax);
    o += &format!("\"leftover\": {}, \"max_inputs\": {}, \"max_steps\": {}, \"max_pc\": {}, \"load_s\": {:.2}, \"wall_s\": {:.2},\n", t.leftover, t.max_inputs, t.max_steps, t.max_pc, load_s, t0.elapsed().as_secs_f64());
    o += &format!("\"limits\": [{}],\n", t.limits.iter().map(|(k, v)| format!("[{}, {}]", js(k), v)).collect::<Vec<_>>().join(", "));
    o += &format!("\"engine_errors\": [{}],\n", t.engine.iter().map(|(k, v)| format!("[{}, {}]", js(k), v)).collect::<Vec<_>>().join(", "));
    o += &format!("\"violations\": [{}],\n", t.bad.iter().map(|(m, v, w)| format!("{{\"what\": {}, \"inputs\": {:?}, \"where\": {}}}", js(m), v, js(w))).collect::<Vec<_>>().join(", "));
    o += &format!("\"covers\": {{{}}},\n", t.covers.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect::<Vec<_>>().join(", "));
    o += &format!("\"samples\": [{}],\n", t.samples.iter().map(|(v, n)| format!("{{\"inputs\": {:?}, \"notes\": {}}}", v, n)).collect::<Vec<_>>().join(", "));
    if a.sites {
        let mut v: Vec<_> = t.sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        o += &format!("\"fork_sites\": [{}],\n", v.iter().take(25).map(|(k, n)| {
            let fun = &m.funs[k.0 as usize];
            let l = fun.blocks[k.1 as usize].locs.last().map(|l| format!("{}:{}", m.locs[*l as usize].0, m.locs[*l as usize].1)).unwrap_or_default();
            format!("[{}, {}, {}, {}]", js(&fun.name), k.1, js(&l), n)
        }).collect::<Vec<_>>().join(",\n  "));
    }
    o += &format!("\"functions\": [{}],\n", fns.iter().map(|f| js(f)).collect::<Vec<_>>().join(", "));
    o += &format!("\"lines\": [{}]\n}}\n", lines.iter().map(|(f, l)| format!("[{}, {}]", js(f), l)).collect::<Vec<_>>().join(", "));
    std::fs::File::create(&a.out).unwrap().write_all(o.as_bytes()).unwrap();
}
fn main() {
    std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap().join().unwrap();
}
