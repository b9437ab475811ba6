use mon::eng::{run, Opts};

#[global_allocator]
static A: mon::eng::Alloc = mon::eng::Alloc;

fn main() {
    let mut o = Opts {
        prop: String::new(),
        seed: 1,
        salt: String::new(),
        build: "rel".into(),
        thorough: false,
        scale: 1.0,
        threads: 8,
        out: None,
        progress: None,
        only: None,
        deadline: 1e9,
        hang_cpu: 60.0,
        digests: None,
    };
    let a: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--prop" => o.prop = v,
            "--seed" => o.seed = v.parse().unwrap(),
            "--salt" => o.salt = v,
            "--build" => o.build = v,
            "--tier" => o.thorough = v == "thorough",
            "--scale" => o.scale = v.parse().unwrap(),
            "--threads" => o.threads = v.parse().unwrap(),
            "--out" => o.out = Some(v),
            "--progress" => o.progress = Some(v),
            "--deadline" => o.deadline = v.parse().unwrap(),
            "--hang-cpu" => o.hang_cpu = v.parse().unwrap(),
            "--digests" => o.digests = Some(v),
            "--cold" => {
                let (s, n) = v.split_once(':').unwrap();
                std::process::exit(mon::p::c21f::cold_main(s.parse().unwrap(), n.parse().unwrap()));
            }
            "--only" => {
                let (g, n) = v.split_once(':').unwrap();
                o.only = Some((g.to_string(), n.parse().unwrap()));
            }
            x => {
                eprintln!("unknown argument {}", x);
                std::process::exit(2);
            }
        }
        i += 2;
    }
    if let Err(e) = mon::rtroika::self_check() {
        eprintln!("reference model self check failed: {}", e);
        std::process::exit(2);
    }
    mon::msg::set_seed(o.seed);
    let Some(g) = mon::p::groups(&o.prop) else {
        eprintln!("unknown property {}", o.prop);
        std::process::exit(2);
    };
    std::process::exit(run(&g, &o));
}
