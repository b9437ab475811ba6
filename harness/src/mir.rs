//! Sequential runner for the Miri interpreter:
//! mir PROP SEED SALT BUDGET_S GROUP[:FIRST] ..   runs the groups' cases in turn until the budget is used.
use mon::eng::*;
use std::collections::BTreeMap;
use std::time::Instant;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a.len() < 5 {
        println!("MIR READY");
        return;
    }
    let seed: u64 = a[1].parse().unwrap();
    let budget: f64 = a[3].parse().unwrap();
    let mut o = Opts {
        prop: a[0].clone(),
        seed,
        salt: a[2].clone(),
        build: "miri".into(),
        thorough: false,
        scale: 1.0,
        threads: 1,
        out: None,
        progress: None,
        only: None,
        deadline: 1e9,
        hang_cpu: 1e9,
        digests: None,
    };
    o.prop = a[0].clone();
    mon::msg::set_seed(seed);
    let gs = mon::p::groups(&a[0]).unwrap();
    install_hook();
    let sel: Vec<(usize, usize)> = a[4..]
        .iter()
        .map(|s| {
            let (n, f) = s.split_once(':').unwrap_or((s, "0"));
            (gs.iter().position(|g| g.name == n).unwrap(), f.parse().unwrap())
        })
        .collect();
    let t0 = Instant::now();
    let mut cov: BTreeMap<&'static str, u64> = BTreeMap::new();
    let (mut evals, mut distinct, mut cases) = (0, std::collections::HashSet::new(), 0u64);
    let mut bad = vec![];
    'all: for i in 0.. {
        for (g, f) in &sel {
            if i > 0 && t0.elapsed().as_secs_f64() > budget {
                break 'all;
            }
            if i >= gs[*g].n {
                continue;
            }
            // (the last line tells which case the interpreter stopped in)
            eprintln!("CASE {}:{}", gs[*g].name, f + i);
            let mut c = Ctx::new(&o, gs[*g].name, f + i);
            let mut r = guarded(|| (gs[*g].f)(&mut c)).and_then(|x| x);
            if stubbed(&r) {
                r = Ok(());
                c = Ctx::new(&o, gs[*g].name, f + i);
            }
            for (k, v) in &c.cov {
                *cov.entry(k).or_insert(0) += v;
            }
            evals += c.evals;
            distinct.extend(c.distinct.iter().copied());
            cases += 1;
            if let Err(e) = r {
                bad.push(format!("{{\"group\":{},\"idx\":{},\"what\":{}}}", js(gs[*g].name), f + i, js(&e)));
                break 'all;
            }
        }
        if sel.iter().all(|(g, _)| i + 1 >= gs[*g].n) {
            break;
        }
    }
    println!(
        "MIRJSON {{\"evaluations\":{},\"distinct\":{},\"cases\":{},\"observed\":{{{}}},\"violations\":[{}],\"wall_s\":{:.1}}}",
        evals,
        distinct.len(),
        cases,
        cov.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
        bad.join(","),
        t0.elapsed().as_secs_f64()
    );
}
