mod big;
mod exec;
mod ir;
mod lia;
mod solver;
mod poly;
mod term;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Write;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r += "\\\"",
            '\\' => r += "\\\\",
            '\n' => r += "\\n",
            c if (c as u32) < 32 => r += &format!("\\u{:04x}", c as u32),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn strip_hash(s: &str) -> String {
    // drop [0123abcd] disambiguators
    let mut r = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '[' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_hexdigit() {
                j += 1;
            }
            if j < b.len() && b[j] == ']' && j - i > 8 {
                i = j + 1;
                continue;
            }
        }
        r.push(b[i]);
        i += 1;
    }
    r
}
fn demangle(names: &[String]) -> Vec<String> {
    let mut child = match Command::new("c++filt").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn() {
        Ok(c) => c,
        Err(_) => return names.to_vec(),
    };
    let mut inp = child.stdin.take().unwrap();
    let txt: String = names.iter().map(|n| format!("{}\n", n)).collect();
    let h = std::thread::spawn(move || {
        let _ = inp.write_all(txt.as_bytes());
    });
    let out = child.wait_with_output().unwrap();
    h.join().unwrap();
    String::from_utf8_lossy(&out.stdout).lines().map(strip_hash).collect()
}

fn main() {
    // deep term recursion needs a large stack
    let h = std::thread::Builder::new().stack_size(12 << 30).spawn(real_main).unwrap();
    let r = h.join();
    std::process::exit(match r {
        Ok(c) => c,
        Err(_) => 3,
    });
}
fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut harness = String::new();
    let mut out = String::new();
    let mut redirects: Vec<(String, String)> = vec![];
    let mut merges: Vec<String> = vec![];
    let mut int_mode = false;
    let mut real_fmt = false;
    let mut deadline = 300u64;
    let mut max_paths = 100000u64;
    let mut max_viol = 8usize;
    let mut fast_ms = 2500;
    let mut hard_ms = 60000;
    let mut lia_ms = 120000;
    let mut max_insts = 200_000_000u64;
    let mut ptr_limit = 300usize;
    let mut log = String::new();
    let mut trace = false;
    let mut list = false;
    let mut i = 1;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--ll" => ll = v,
            "--harness" => harness = v,
            "--out" => out = v,
            "--redirect" => {
                let k = v.rfind('=').expect("redirect pat=sym");
                redirects.push((v[..k].to_string(), v[k + 1..].to_string()));
            }
            "--merge" => merges.push(v),
            "--deadline" => deadline = v.parse().unwrap(),
            "--max-paths" => max_paths = v.parse().unwrap(),
            "--max-viol" => max_viol = v.parse().unwrap(),
            "--fast-ms" => fast_ms = v.parse().unwrap(),
            "--hard-ms" => hard_ms = v.parse().unwrap(),
            "--lia-ms" => lia_ms = v.parse().unwrap(),
            "--max-insts" => max_insts = v.parse().unwrap(),
            "--ptr-limit" => ptr_limit = v.parse().unwrap(),
            "--log" => log = v,
            "--int" => {
                int_mode = true;
                i += 1;
                continue;
            }
            "--real-fmt" => {
                real_fmt = true;
                i += 1;
                continue;
            }
            "--trace" => {
                trace = true;
                i += 1;
                continue;
            }
            "--list" => {
                list = true;
                i += 1;
                continue;
            }
            o => panic!("unknown option {}", o),
        }
        i += 2;
    }
    let t0 = Instant::now();
    let mut m = ir::Module::load(&ll);
    let names: Vec<String> = m.syms.iter().map(|s| s.name.clone()).collect();
    let dn = demangle(&names);
    let mut dem = HashMap::new();
    for (i, n) in names.iter().enumerate() {
        if i < dn.len() && dn[i] != *n {
            dem.insert(i as u32, dn[i].clone());
        }
    }
    if list {
        for (i, n) in names.iter().enumerate() {
            println!("{}\t{}", n, dem.get(&(i as u32)).cloned().unwrap_or_default());
        }
        return 0;
    }
    let end = Instant::now() + Duration::from_secs(deadline);
    let mut rd = vec![];
    let mut missing = vec![];
    for (p, s) in &redirects {
        match m.by_name.get(s) {
            Some(id) => rd.push((p.clone(), *id)),
            None => missing.push(s.clone()),
        }
    }
    let entry = match m.by_name.get(&harness) {
        Some(e) => *e,
        None => {
            eprintln!("no harness {}", harness);
            return 2;
        }
    };
    let _ = m.intern("main");
    let mut sol = solver::Solver::new(end);
    sol.fast_ms = fast_ms;
    sol.hard_ms = hard_ms;
    if !log.is_empty() {
        sol.log = std::fs::File::create(&log).ok();
    }
    let mut ex = exec::Exec {
        m,
        tm: term::Ctx::new(),
        sol,
        dem,
        redirects: rd,
        redir_cache: HashMap::new(),
        builtin: HashMap::new(),
        checks: BTreeMap::new(),
        reached: BTreeMap::new(),
        viol: vec![],
        errors: BTreeSet::new(),
        functions: BTreeSet::new(),
        fcount: HashMap::new(),
        varcache: HashMap::new(),
        int_mode,
        real_fmt,
        undecided: 0,
        paths: 0,
        done_paths: 0,
        panic_paths: 0,
        insts: 0,
        forks: 0,
        deadline: end,
        max_paths,
        max_viol,
        allow_panic: false,
        lia_stats: lia::LiaStats::default(),
        max_insts,
        trace,
        ptr_limit,
        ranged: Default::default(),
        lia_ms,
        stubs_hit: BTreeSet::new(),
        panic_msgs: BTreeMap::new(),
        merges,
        merge_cache: HashMap::new(),
        merge_now: false,
        spill: vec![],
        lazy: false,
        merged: 0,
    };
    for s in missing {
        ex.errors.insert(format!("stub {} not in module", s));
    }
    ex.run(entry);
    let wall = t0.elapsed().as_secs_f64();
    let mut o = String::new();
    o += &format!("{{\"harness\":{},\"wall_s\":{:.3},\"paths\":{},\"completed_paths\":{},\"panic_paths\":{},\"forks\":{},\"instructions\":{},\"terms\":{},", js(&harness), wall, ex.paths, ex.done_paths, ex.panic_paths, ex.forks, ex.insts, ex.tm.nodes.len());
    let s = &ex.sol.stats;
    o += &format!(
        "\"solver\":{{\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"time_s\":{:.3},\"hard\":{},\"max_s\":{:.3}}},",
        s.queries, s.sat, s.unsat, s.unknown, s.time, s.hard, s.max
    );
    let l = &ex.lia_stats;
    o += &format!(
        "\"lia\":{{\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"time_s\":{:.3},\"monomials\":{},\"equations\":{},\"spurious\":{}}},",
        l.queries, l.sat, l.unsat, l.unknown, l.time, l.monomials, l.equations, l.spurious
    );
    let cs: Vec<String> = ex.checks.iter().map(|(k, c)| format!("{}:{{\"evaluated\":{},\"trivial\":{},\"proved\":{},\"failed\":{}}}", js(k), c.evaluated, c.trivially, c.proved, c.failed)).collect();
    o += &format!("\"checks\":{{{}}},", cs.join(","));
    let rs: Vec<String> = ex.reached.iter().map(|(k, c)| format!("{}:{}", js(k), c)).collect();
    o += &format!("\"undecided_branches\":{},", ex.undecided);
    o += &format!("\"reached\":{{{}}},", rs.join(","));
    let pm: Vec<String> = ex.panic_msgs.iter().map(|(k, c)| format!("{}:{}", js(k), c)).collect();
    o += &format!("\"panics\":{{{}}},", pm.join(","));
    let vs: Vec<String> = ex
        .viol
        .iter()
        .map(|v| {
            let ins: Vec<String> = v.inputs.iter().map(|(n, b)| format!("{}:{}", js(n), js(&b.dec()))).collect();
            let ufs: Vec<String> = v.ufs.iter().map(|(n, a, b)| format!("[{},{},{}]", js(n), js(&hex(a)), js(&hex(b)))).collect();
            let encs: Vec<String> = v.encs.iter().map(|(t, b, e)| format!("[{},{},{}]", t, js(&b.dec()), js(&hex(e)))).collect();
            let decs: Vec<String> = v.decs.iter().map(|(m, t, e, b)| format!("[{},{},{},{}]", m, t, js(&hex(e)), js(&b.dec()))).collect();
            format!("{{\"check\":{},\"msg\":{},\"inputs\":{{{}}},\"ufs\":[{}],\"encs\":[{}],\"decs\":[{}]}}", js(&v.name), js(&v.msg), ins.join(","), ufs.join(","), encs.join(","), decs.join(","))
        })
        .collect();
    o += &format!("\"violations\":[{}],", vs.join(","));
    let es: Vec<String> = ex.errors.iter().map(|e| js(e)).collect();
    o += &format!("\"errors\":[{}],", es.join(","));
    let called: Vec<u32> = ex.fcount.keys().cloned().collect();
    for c in called {
        let nm = ex.dname(c);
        if nm.contains("kyber_rs::") {
            ex.functions.insert(nm);
        }
    }
    let fs: Vec<String> = ex.functions.iter().map(|e| js(e)).collect();
    o += &format!("\"functions\":[{}],", fs.join(","));
    let ss: Vec<String> = ex.stubs_hit.iter().map(|e| js(e)).collect();
    o += &format!("\"stubs\":[{}]}}\n", ss.join(","));
    if out.is_empty() {
        print!("{}", o);
    } else {
        std::fs::write(&out, &o).unwrap();
    }
    if !ex.errors.is_empty() {
        return 2;
    }
    if !ex.viol.is_empty() {
        return 1;
    }
    0
}
