mod crypto;
mod exec;
mod expr;
mod ir;
mod ll;
mod mem;
mod pc;
mod val;
mod z3;

use exec::*;
use expr::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicI32, AtomicU32, Ordering};
use val::Val;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

#[repr(C)]
struct Shared {
    slots: AtomicI32,
    violations: AtomicU32,
    err: AtomicU32,
    traces: [AtomicU32; 256],
}

fn shared() -> &'static Shared {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        &*(p as *const Shared)
    }
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Opts {
    ll: String,
    out: String,
    entries: Vec<String>,
    jobs: i32,
    deadline: f64,
    max_traces: u32,
    max_viol: u32,
    seed: u64,
    dump: Option<String>,
    trace: bool,
    max_instrs: u64,
    trace_forks: u32,
    tier: u32,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1] == "mark" {
        mark(&args[2], &args[3]);
        return;
    }
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(move || real_main(args)).unwrap();
    let r = h.join();
    std::process::exit(match r {
        Ok(c) => c,
        Err(_) => 3,
    });
}

/// Mark the functions the executor intercepts (and the crate's own functions)
/// so that optimisation keeps them as calls.
fn mark(inp: &str, out: &str) {
    let t = std::fs::read_to_string(inp).unwrap();
    let mut o = String::with_capacity(t.len() + 100_000);
    let mut always: std::collections::HashSet<String> = Default::default();
    for l in t.lines() {
        if l.starts_with("attributes #") && l.contains("alwaysinline") {
            if let Some(w) = l.split_whitespace().nth(1) {
                always.insert(w.to_string());
            }
        }
    }
    let mut n = 0;
    for l in t.lines() {
        if l.starts_with("define ") {
            if let Some(at) = l.find('@') {
                let rest = &l[at + 1..];
                let name: String = rest.chars().take_while(|c| c.is_alphanumeric() || *c == '_' || *c == '$' || *c == '.').collect();
                let group = l.rsplit_once(')').map(|x| x.1).unwrap_or("");
                let g = group.split_whitespace().find(|w| w.starts_with('#')).unwrap_or("").to_string();
                let mine = name.contains("4kpdb") && !name.contains("5alloc") && name.starts_with("_RNv");
                if (keep_as_call(&name) || mine) && !always.contains(&g) && !g.is_empty() && !l.contains("noinline") {
                    let l = &if keep_signature(&name) { l.replacen("define internal ", "define ", 1) } else { l.to_string() };
                    let p = l.rfind(&g).unwrap();
                    o.push_str(&l[..p]);
                    o.push_str("noinline ");
                    o.push_str(&l[p..]);
                    o.push('\n');
                    n += 1;
                    continue;
                }
            }
        }
        o.push_str(l);
        o.push('\n');
    }
    std::fs::write(out, o).unwrap();
    eprintln!("marked {} functions", n);
}

fn real_main(args: Vec<String>) -> i32 {
    let mut o = Opts {
        ll: String::new(),
        out: "/tmp/symir-out".into(),
        entries: vec![],
        jobs: 8,
        deadline: 300.0,
        max_traces: 20,
        max_viol: 1,
        seed: 1,
        dump: None,
        trace: false,
        max_instrs: 4_000_000_000,
        trace_forks: 0,
        tier: 0,
    };
    let mut i = 1;
    while i < args.len() {
        let a = args[i].as_str();
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match a {
            "--ll" => o.ll = v,
            "--out" => o.out = v,
            "--entries" => o.entries = v.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
            "--jobs" => o.jobs = v.parse().unwrap(),
            "--deadline" => o.deadline = v.parse().unwrap(),
            "--traces" => o.max_traces = v.parse().unwrap(),
            "--max-viol" => o.max_viol = v.parse().unwrap(),
            "--seed" => o.seed = v.parse().unwrap(),
            "--dump" => o.dump = Some(v),
            "--trace-forks" => o.trace_forks = v.parse().unwrap(),
            "--tier" => o.tier = v.parse().unwrap(),
            "--max-instrs" => o.max_instrs = v.parse().unwrap(),
            "--trace" => {
                o.trace = true;
                i += 1;
                continue;
            }
            _ => {
                eprintln!("unknown option {}", a);
                return 3;
            }
        }
        i += 2;
    }
    std::fs::create_dir_all(&o.out).unwrap();
    let t0 = std::time::Instant::now();
    let text = std::fs::read_to_string(&o.ll).expect("read ll");
    let mut m = ir::Module::default();
    let mut ex = Exprs::new();
    // expression ids start at 1 so that 0 can mean "concrete" elsewhere
    ex.konst(1, 0);
    ll::Parser::new(&mut m, &mut ex).parse_module(text);
    let mut x = Exec::new(m, ex);
    x.trace = o.trace;
    x.trace_forks = o.trace_forks;
    x.tier = o.tier;
    x.max_instrs = o.max_instrs;
    x.s.z3.dump = o.dump.clone();
    x.deadline = Some(t0 + std::time::Duration::from_secs_f64(o.deadline + 1.0));
    let mem = x.initial_mem();
    x.entries = o.entries.clone();
    for (i, e) in o.entries.iter().enumerate() {
        x.stats.push(EntryStats::default());
        match x.start(&mem, i, e) {
            Some(s) => x.work.push(s),
            None => {
                eprintln!("no entry {}", e);
                return 3;
            }
        }
    }
    eprintln!("loaded in {:.2}s: {} functions, {} globals", t0.elapsed().as_secs_f64(), x.m.funcs.len(), x.m.globals.len());
    drop(mem);
    let sh = shared();
    sh.slots.store(o.jobs - 1, Ordering::SeqCst);
    work(&mut x, &o, sh, t0)
}

fn work(x: &mut Exec, o: &Opts, sh: &'static Shared, t0: std::time::Instant) -> i32 {
    let mut children: Vec<i32> = vec![];
    let mut is_child = false;
    let mut viols: Vec<String> = vec![];
    let mut traces: Vec<String> = vec![];
    let mut rng = o.seed.wrapping_mul(0x9e3779b97f4a7c15) | 1;
    let mut last_share = std::time::Instant::now();
    let mut turn = false;
    loop {
        // depth first, but the oldest alternative gets every second turn once time runs short
        turn = !turn;
        let late = t0.elapsed().as_secs_f64() > o.deadline / 4.0;
        let mut st = match x.work.len() {
            0 => break,
            _ if late && turn => x.work.remove(0),
            _ => x.work.pop().unwrap(),
        };
        let begun = std::time::Instant::now();
        loop {
            // share work
            if !x.work.is_empty() && last_share.elapsed().as_micros() > 500 {
                last_share = std::time::Instant::now();
                if sh.slots.fetch_sub(1, Ordering::SeqCst) > 0 {
                    let pid = unsafe { fork() };
                    if pid == 0 {
                        // child: takes the older half (larger subtrees)
                        is_child = true;
                        children.clear();
                        viols.clear();
                        traces.clear();
                        for s in x.stats.iter_mut() {
                            *s = EntryStats::default();
                        }
                        x.s.st = Default::default();
                        x.asserted.clear();
                        let n = (x.work.len() + 1) / 2;
                        x.work.truncate(n);
                        rng = rng.wrapping_add(std::process::id() as u64 * 7919);
                        st = x.work.pop().unwrap();
                        continue;
                    } else if pid > 0 {
                        children.push(pid);
                        let n = (x.work.len() + 1) / 2;
                        x.work.drain(..n);
                    } else {
                        sh.slots.fetch_add(1, Ordering::SeqCst);
                    }
                } else {
                    sh.slots.fetch_add(1, Ordering::SeqCst);
                }
            }
            if sh.err.load(Ordering::SeqCst) > 0 {
                break;
            }
            let before = st.instrs;
            x.slice = std::time::Instant::now();
            let r = x.run(&mut st, 2_000_000);
            x.stats[st.entry].instrs += st.instrs - before;
            let over = t0.elapsed().as_secs_f64() > o.deadline;
            match r {
                None => {
                    if over {
                        finish(x, o, sh, st, End::Limit("time budget".into()), &mut viols, &mut traces, &mut rng);
                        break;
                    }
                    // a slow path makes room for others
                    if !x.work.is_empty() && begun.elapsed().as_secs_f64() > 4.0 {
                        x.work.insert(0, st);
                        break;
                    }
                }
                Some(e) => {
                    finish(x, o, sh, st, e, &mut viols, &mut traces, &mut rng);
                    break;
                }
            }
        }
        if sh.err.load(Ordering::SeqCst) > 0 {
            break;
        }
        if t0.elapsed().as_secs_f64() > o.deadline {
            let w = std::mem::take(&mut x.work);
            for s in w {
                let en = s.entry;
                note(&mut x.stats[en].incomplete, "time budget".into());
            }
        }
        if sh.violations.load(Ordering::SeqCst) >= o.max_viol {
            x.work.clear();
        }
    }
    report(x, o, &viols, &traces, t0);
    sh.slots.fetch_add(1, Ordering::SeqCst);
    for c in children {
        let mut s = 0;
        unsafe { waitpid(c, &mut s, 0) };
        if s != 0 {
            sh.err.store(1, Ordering::SeqCst);
        }
    }
    if is_child {
        unsafe { _exit(if sh.err.load(Ordering::SeqCst) > 0 { 1 } else { 0 }) };
    }
    if sh.err.load(Ordering::SeqCst) > 0 {
        eprintln!("a worker process failed");
        return 3;
    }
    eprintln!("done in {:.2}s", t0.elapsed().as_secs_f64());
    0
}

fn note(v: &mut Vec<String>, s: String) {
    if v.len() < 20 && !v.contains(&s) {
        v.push(s);
    }
}

fn witness(x: &mut Exec, st: &State, outcome: &str) -> String {
    let mut s = String::new();
    let _ = writeln!(s, "entry {}\ntier {}", x.entries[st.entry], x.tier);
    for r in &st.recs {
        match r {
            Rec::Bytes(n, v) => {
                let mut h = String::new();
                for e in v.iter() {
                    let b = st.pc.eval(&mut x.ex, *e);
                    let _ = write!(h, "{:02x}", b);
                }
                let _ = writeln!(s, "bytes {} {}", n, if h.is_empty() { "-".into() } else { h });
            }
            Rec::Choice(n, m, k) => {
                let _ = writeln!(s, "choice {} {} {}", n, m, k);
            }
        }
    }
    let _ = writeln!(s, "outcome {}", outcome);
    for ob in &st.obs {
        let mut h = String::new();
        for v in ob.iter() {
            let b = match v {
                Val::C(c) => *c as u128,
                Val::S(e) => st.pc.eval(&mut x.ex, *e),
                _ => 0,
            };
            let _ = write!(h, "{:02x}", b);
        }
        let _ = writeln!(s, "obs {}", if h.is_empty() { "-".into() } else { h });
    }
    s
}

#[allow(clippy::too_many_arguments)]
fn finish(
    x: &mut Exec,
    o: &Opts,
    sh: &'static Shared,
    mut st: State,
    mut e: End,
    viols: &mut Vec<String>,
    traces: &mut Vec<String>,
    rng: &mut u64,
) {
    let en = st.entry;
    x.stats[en].paths += 1;
    let outcome: String;
    let mut viol = false;
    if !st.apps.is_empty() && matches!(e, End::Panic(_) | End::Assert(_) | End::Mem(_) | End::Abort(_)) {
        // the path must be possible for a function, and one without collisions
        if let Err(f) = x.settle(&mut st) {
            e = f;
        }
    }
    match &e {
        End::Ok => {
            x.stats[en].ok += 1;
            for r in &st.reached {
                *x.stats[en].reached.entry(*r).or_insert(0) += 1;
            }
            outcome = "ok".into();
        }
        End::Infeasible => {
            x.stats[en].infeasible += 1;
            return;
        }
        End::Limit(s) | End::Unsupported(s) => {
            let bt = x.backtrace(&st, 6).join(" < ");
            let k = if matches!(e, End::Limit(_)) { "limit" } else { "unsupported" };
            note(&mut x.stats[en].incomplete, format!("{}: {} [{}]", k, s, bt));
            return;
        }
        End::Panic(s) => {
            if st.panic_ok {
                x.stats[en].panics_ok += 1;
                outcome = format!("panic {}", s);
            } else {
                viol = true;
                outcome = format!("panic {}", s);
            }
        }
        End::Assert(s) => {
            viol = true;
            outcome = format!("assert {}", s);
        }
        End::Mem(s) => {
            viol = true;
            outcome = format!("memory {}", s);
        }
        End::Abort(s) => {
            viol = true;
            outcome = format!("abort {}", s);
        }
    }
    if viol {
        x.stats[en].violations += 1;
        if viols.len() < 8 {
            let bt = x.backtrace(&st, 12);
            let mut w = witness(x, &st, &outcome);
            for b in bt {
                let _ = writeln!(w, "# at {}", b);
            }
            viols.push(w);
        }
        sh.violations.fetch_add(1, Ordering::SeqCst);
    } else {
        // keep a sample of path witnesses for native replay
        let c = sh.traces[en % 256].load(Ordering::SeqCst);
        *rng ^= *rng << 13;
        *rng ^= *rng >> 7;
        *rng ^= *rng << 17;
        if c < o.max_traces && (c < 3 || *rng % 3 == 0) {
            sh.traces[en % 256].fetch_add(1, Ordering::SeqCst);
            let w = witness(x, &st, &outcome);
            traces.push(w);
        }
    }
}

fn report(x: &Exec, o: &Opts, viols: &[String], traces: &[String], t0: std::time::Instant) {
    let mut s = String::from("{\n");
    let _ = write!(s, "\"wall\": {:.3},\n\"entries\": {{", t0.elapsed().as_secs_f64());
    for (i, e) in x.stats.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let inc: Vec<String> = e.incomplete.iter().map(|x| json(x)).collect();
        let re: Vec<String> = e.reached.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect();
        let _ = write!(
            s,
            "\n{}: {{\"paths\": {}, \"ok\": {}, \"panics_ok\": {}, \"infeasible\": {}, \"forks\": {}, \"branches\": {}, \"sym_branches\": {}, \"instrs\": {}, \"asserts\": {}, \"assert_sym\": {}, \"violations\": {}, \"incomplete\": [{}], \"reached\": {{{}}}}}",
            json(&x.entries[i]), e.paths, e.ok, e.panics_ok, e.infeasible, e.forks, e.branches, e.sym_branches,
            e.instrs, e.asserts, e.assert_sym, e.violations, inc.join(","), re.join(",")
        );
    }
    let st = &x.s.st;
    let _ = write!(
        s,
        "\n}},\n\"solver\": {{\"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"cached\": {}, \"model_hits\": {}, \"domain_hits\": {}, \"ms\": {:.1}, \"version\": {}}},\n",
        st.queries, st.sat, st.unsat, st.unknown, st.cached, st.model_hits, st.domain_hits, st.ms, json(&z3::version())
    );
    let fs: BTreeMap<String, ()> = x.fused.iter().map(|f| (demangle(&x.m.funcs[*f as usize].name), ())).collect();
    let fl: Vec<String> = fs.keys().map(|k| json(k)).collect();
    let _ = write!(s, "\"functions\": [{}],\n", fl.join(","));
    let al: Vec<String> = x.asserted.iter().map(|(k, v)| format!("{}: [{}, {}]", json(k), v.0, v.1)).collect();
    let _ = write!(s, "\"asserted\": {{{}}},\n", al.join(","));
    let vl: Vec<String> = viols.iter().map(|k| json(k)).collect();
    let _ = write!(s, "\"violations\": [{}],\n", vl.join(","));
    let tl: Vec<String> = traces.iter().map(|k| json(k)).collect();
    let _ = write!(s, "\"traces\": [{}]\n}}\n", tl.join(","));
    let p = format!("{}/{}.json", o.out, std::process::id());
    let mut f = std::fs::File::create(p).unwrap();
    f.write_all(s.as_bytes()).unwrap();
}
