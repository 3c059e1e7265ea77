//! Proof obligations: written as SMT-LIB, decided by the SMT solver, reported as JSON.
use crate::bdd::*;
use crate::exec::{short, Engine};
use crate::value::V;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Query {
    name: String,
    kind: &'static str,
    /// the disjunction of these conjunctions is asked for; Pos(g) / Neg(g)
    cubes: Vec<Vec<G>>,
    /// additional conjuncts of the form (a -> b)
    imps: Vec<(G, G)>,
    want_sat: bool,
}

enum Ans {
    Sat(Vec<bool>),
    Unsat,
    Unknown(String),
}

fn lit(g: G) -> String {
    match g {
        T => "true".into(),
        F => "false".into(),
        g if g.0 & 1 == 1 => format!("(not n{})", g.0 >> 1),
        g => format!("n{}", g.0 >> 1),
    }
}

fn smt(e: &Engine, q: &Query) -> (String, usize) {
    let mut roots: Vec<G> = q.cubes.iter().flatten().copied().collect();
    for (a, b) in &q.imps {
        roots.push(*a);
        roots.push(*b);
    }
    let order = e.b.reachable(&roots, usize::MAX).unwrap();
    let mut s = String::with_capacity(order.len() * 48 + 4096);
    let _ = writeln!(s, "; obligation: {}", q.name.replace('\n', " "));
    s.push_str("(set-option :produce-models true)\n(set-logic QF_UF)\n");
    for v in 0..e.b.nvars {
        let _ = writeln!(s, "(declare-const x{v} Bool)");
    }
    for n in &order {
        let (v, lo, hi) = e.b.node(*n);
        let _ = match (lo, hi) {
            (F, T) => writeln!(s, "(define-fun n{n} () Bool x{v})"),
            _ => writeln!(s, "(define-fun n{n} () Bool (ite x{v} {} {}))", lit(hi), lit(lo)),
        };
    }
    for (a, b) in &q.imps {
        if *a == T {
            let _ = writeln!(s, "(assert {})", lit(*b));
        } else {
            let _ = writeln!(s, "(assert (=> {} {}))", lit(*a), lit(*b));
        }
    }
    s.push_str("(assert (or false");
    for c in &q.cubes {
        s.push_str(" (and true");
        for g in c {
            s.push(' ');
            s.push_str(&lit(*g));
        }
        s.push(')');
    }
    s.push_str("))\n(check-sat)\n");
    if e.b.nvars > 0 {
        s.push_str("(get-value (");
        for v in 0..e.b.nvars {
            let _ = write!(s, "x{v} ");
        }
        s.push_str("))\n");
    }
    (s, order.len())
}

fn solve(file: &str, z3: &str, limit: f64, nvars: u32) -> Ans {
    let out = std::process::Command::new(z3).arg(format!("-T:{}", limit.ceil() as u64)).arg(file).output();
    let out = match out {
        Ok(o) => o,
        Err(x) => crate::fatal(&format!("cannot run {z3}: {x}")),
    };
    let t = String::from_utf8_lossy(&out.stdout);
    let first = t.lines().next().unwrap_or("").trim();
    match first {
        "unsat" => Ans::Unsat,
        "sat" => {
            let mut a = vec![false; nvars as usize];
            let toks: Vec<&str> = t.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|x| !x.is_empty()).collect();
            for w in toks.windows(2) {
                if let Some(n) = w[0].strip_prefix('x').and_then(|n| n.parse::<usize>().ok()) {
                    if n < a.len() {
                        a[n] = w[1] == "true";
                    }
                }
            }
            Ans::Sat(a)
        }
        o => Ans::Unknown(o.to_string()),
    }
}

/// the values an input assignment gives to the choices met on its path, in order
fn inputs(e: &Engine, a: &[bool]) -> Vec<u64> {
    let mut out = vec![];
    for c in &e.choices {
        if e.b.eval(c.pg, a) {
            let mut v = 0;
            for (i, x) in c.vars.iter().enumerate() {
                if e.b.eval(*x, a) {
                    v |= 1 << i;
                }
            }
            out.push(v);
        }
    }
    out
}

fn observed(e: &Engine, a: &[bool]) -> Vec<u64> {
    let mut out = vec![];
    for (g, v) in &e.observes {
        if e.b.eval(*g, a) {
            match v {
                V::C(x) => out.push(*x as u64),
                V::S(s) => {
                    if let Some((x, _)) = s.a.iter().find(|(_, g)| e.b.eval(*g, a)) {
                        out.push(*x as u64)
                    } else {
                        crate::fatal("observed value undefined on a live input")
                    }
                }
                _ => crate::fatal("observed value undefined"),
            }
        }
    }
    out
}

fn list(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

pub fn report(e: &mut Engine, exec_s: f64, opt: &HashMap<String, String>) -> i32 {
    let end = e.pg;
    let z3 = opt.get("z3").cloned().unwrap_or_else(|| "z3-new".into());
    let limit: f64 = opt.get("solve").and_then(|s| s.parse().ok()).unwrap_or(300.0);
    let nsamp: usize = opt.get("samples").and_then(|s| s.parse().ok()).unwrap_or(0);
    let mut qs: Vec<Query> = vec![];
    for (k, ev) in &e.events {
        qs.push(Query {
            name: k.clone(),
            kind: ev.kind,
            cubes: ev.pairs.iter().map(|(g, ok)| if *ok == F { vec![*g] } else { vec![*g, !*ok] }).collect(),
            imps: vec![],
            want_sat: false,
        });
    }
    let clean = e.events.values().all(|ev| ev.fail == F);
    qs.push(Query {
        name: "every admissible input reaches the end of the harness".into(),
        kind: "completion",
        cubes: vec![vec![!end]],
        imps: e.assume.clone(),
        want_sat: false,
    });
    for (k, g) in &e.covers_ev {
        qs.push(Query { name: k.clone(), kind: "cover", cubes: vec![vec![*g]], imps: vec![], want_sat: true });
    }
    let base = opt.get("smt").cloned().unwrap_or_else(|| format!("/tmp/vx-{}", std::process::id()));
    let keep = opt.contains_key("smt");
    let mut bad = false;
    let mut unknown = false;
    let mut rows = vec![];
    let mut total = 0.0;
    for (i, q) in qs.iter().enumerate() {
        if q.kind == "completion" && !clean {
            continue;
        }
        let (text, nodes) = smt(e, q);
        let f = format!("{base}.{i}.smt2");
        let mut w = std::fs::File::create(&f).unwrap_or_else(|x| crate::fatal(&format!("{f}: {x}")));
        w.write_all(text.as_bytes()).unwrap_or_else(|x| crate::fatal(&format!("{f}: {x}")));
        drop(w);
        let t = std::time::Instant::now();
        let ans = solve(&f, &z3, limit, e.b.nvars);
        let dt = t.elapsed().as_secs_f64();
        total += dt;
        if !keep {
            let _ = std::fs::remove_file(&f);
        }
        let mut r = format!(
            "{{\"name\":{},\"kind\":{},\"nodes\":{},\"seconds\":{:.3}",
            js(&q.name),
            js(q.kind),
            nodes,
            dt
        );
        match ans {
            Ans::Unsat => {
                r.push_str(",\"answer\":\"unsat\"");
                if q.want_sat {
                    r.push_str(",\"verdict\":\"not covered\"");
                } else {
                    r.push_str(",\"verdict\":\"holds\"");
                }
            }
            Ans::Sat(a) => {
                r.push_str(",\"answer\":\"sat\"");
                if q.want_sat {
                    r.push_str(",\"verdict\":\"covered\"");
                } else {
                    bad = true;
                    let _ = write!(r, ",\"verdict\":\"violated\",\"input\":{}", list(&inputs(e, &a)));
                    // a few more counterexamples, for triage
                    let mut g = F;
                    for c in &q.cubes {
                        let mut x = T;
                        for h in c {
                            x = e.b.and(x, *h);
                        }
                        g = e.b.or(g, x);
                    }
                    let mut memo = HashMap::new();
                    let mut rng = 12345;
                    let more: Vec<String> = (0..8)
                        .filter_map(|_| e.b.sample(g, &mut rng, &mut memo))
                        .map(|a| list(&inputs(e, &a)))
                        .collect();
                    let _ = write!(r, ",\"more\":[{}],\"fraction\":{:e}", more.join(","), e.b.density(g, &mut memo));
                }
            }
            Ans::Unknown(x) => {
                unknown = true;
                let _ = write!(r, ",\"answer\":{},\"verdict\":\"unknown\"", js(&x));
            }
        }
        if let Some(ev) = e.events.get(&q.name) {
            let _ = write!(r, ",\"stack\":{},\"msg\":{}", js(&ev.stack), js(&ev.msg));
        }
        r.push('}');
        rows.push(r);
    }
    let mut samples = vec![];
    let mut memo = HashMap::new();
    let mut rng: u64 = opt.get("seed").and_then(|s| s.parse::<u64>().ok()).unwrap_or(1).wrapping_mul(0x9E3779B97F4A7C15) | 1;
    for _ in 0..nsamp {
        if let Some(a) = e.b.sample(end, &mut rng, &mut memo) {
            samples.push(format!("{{\"input\":{},\"observed\":{}}}", list(&inputs(e, &a)), list(&observed(e, &a))));
        }
    }
    let mut funcs: Vec<(String, u64)> = e.called.iter().map(|(k, v)| (short(&e.m.funcs[*k as usize].name), *v)).collect();
    funcs.sort();
    let bits: u32 = e.b.nvars;
    let space: f64 = {
        // number of admissible inputs: of the choices not met on a path, a single valuation counts
        let mut g = end;
        let cs: Vec<(G, Vec<G>)> = e.choices.iter().map(|c| (c.pg, c.vars.clone())).collect();
        for (pg, vars) in cs {
            if pg != T {
                for v in vars {
                    let k = e.b.or(pg, !v);
                    g = e.b.and(g, k);
                }
            }
        }
        memo.clear();
        e.b.density(g, &mut memo) * 2f64.powi(bits as i32)
    };
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"verdict\":\"{}\",\"exec_seconds\":{:.3},\"solver_seconds\":{:.3},\"solver\":{},\"steps\":{},\"allocations\":{},\"guard_nodes\":{},\"input_bits\":{},\"choices\":{},\"assumptions\":{},\"inputs\":{:e},\"sliced\":{},\n\"obligations\":[\n{}\n],\n\"functions\":[{}],\n\"samples\":[\n{}\n]}}\n",
        if unknown { "unknown" } else if bad { "violated" } else { "holds" },
        exec_s,
        total,
        js(&z3),
        e.steps,
        e.allocs,
        e.b.made,
        bits,
        e.choices.len(),
        e.assume.len(),
        space,
        e.sliced,
        rows.join(",\n"),
        funcs.iter().map(|(n, c)| format!("[{},{}]", js(n), c)).collect::<Vec<_>>().join(","),
        samples.join(",\n")
    );
    match opt.get("out") {
        Some(f) => std::fs::write(f, &o).unwrap_or_else(|x| crate::fatal(&format!("{f}: {x}"))),
        None => print!("{o}"),
    }
    if bad {
        1
    } else if unknown {
        3
    } else {
        0
    }
}

/// for debugging: the result of an instruction on the watched path
pub fn watch_inst(b: &Bdd, asg: &[bool], i: &crate::ll::Inst, regs: &[V]) -> Option<String> {
    use crate::ll::Inst::*;
    let d = match i {
        Bin { dst, .. } | Icmp { dst, .. } | Cast { dst, .. } | Select { dst, .. } | Load { dst, .. } | Gep { dst, .. } | Call { dst, .. } => *dst,
        _ => return None,
    };
    fn sv(b: &Bdd, asg: &[bool], v: &V) -> String {
        match v {
            V::U => "U".into(),
            V::C(x) => format!("{x:x}"),
            V::S(s) => {
                let a: Vec<String> = s.a.iter().filter(|x| b.eval(x.1, asg)).map(|x| format!("{:x}", x.0)).collect();
                format!("{{{}}}", a.join(","))
            }
            V::A(x) => format!("[{}]", x.iter().map(|v| sv(b, asg, v)).collect::<Vec<_>>().join(",")),
        }
    }
    let v = regs.get(d as usize)?;
    Some(format!("r{d}={}", sv(b, asg, v)))
}
