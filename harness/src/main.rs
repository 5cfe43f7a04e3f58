mod cfg;
mod engine;
mod src;
mod gen;
mod html;
mod blocks;
mod model;
mod props;

use engine::*;

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    install_panic_hook();
    // Run everything on a thread with a generous, fixed stack.
    let code = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn({
            let args = args.clone();
            let cmd = cmd.to_string();
            move || run(&cmd, &args)
        })
        .unwrap()
        .join()
        .unwrap_or(3);
    std::process::exit(code);
}

fn run(cmd: &str, args: &[String]) -> i32 {
    let opts = || Opts {
        tier: arg(args, "--tier").unwrap_or_else(|| std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into())),
        seed: arg(args, "--seed")
            .or_else(|| std::env::var("VERIF_SEED").ok())
            .and_then(|s| s.parse().ok())
            .unwrap_or(1),
        scale: arg(args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        all: args.iter().any(|a| a == "--all"),
        only: arg(args, "--only"),
    };
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let prop = |id: &str| props::all().into_iter().find(|p| p.id == id);
    match cmd {
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        "check" => match args.get(2).and_then(|id| prop(id)) {
            Some(p) => check(p, &opts(), &verif),
            None => {
                eprintln!("unknown property");
                2
            }
        },
        "worker" => {
            let p = prop(&args[2]).expect("property");
            let shard = arg(args, "--shard").unwrap().parse().unwrap();
            let shards = arg(args, "--shards").unwrap().parse().unwrap();
            worker(p, &opts(), shard, shards, &arg(args, "--dir").unwrap())
        }
        // evaluate one case, recording its choices as they are taken
        "eval" => {
            let p = prop(&args[2]).expect("property");
            let sub = p.subs.iter().find(|s| s.name == args[3]).expect("sub");
            let trace = arg(args, "--trace");
            src::set_trace(trace);
            let mut s = match arg(args, "--choices") {
                Some(c) => src::Src::replay(&c.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect::<Vec<u32>>()),
                None => src::Src::random(arg(args, "--case-seed").unwrap().parse().unwrap()),
            };
            let mut ctx = Ctx::default();
            match (sub.f)(&mut s, &mut ctx) {
                Ok(()) => 0,
                Err(f) => {
                    println!("{}: {}", f.sig, f.msg);
                    1
                }
            }
        }
        "replay" => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("json");
            let id = v["property"].as_str().expect("property");
            let p = prop(id).expect("property");
            let choices: Vec<u32> = v["choices"].as_array().expect("choices").iter().map(|x| x.as_u64().unwrap() as u32).collect();
            match eval(p, v["sub"].as_str().expect("sub"), &choices) {
                Ok((ctx, Ok(()))) => {
                    println!("no failure\n{:#?}", ctx.inputs);
                    0
                }
                Ok((ctx, Err(f))) => {
                    println!("{}: {}", f.sig, f.msg);
                    for (c, t) in &ctx.inputs {
                        println!("[{}] {:?}", c, t);
                    }
                    println!("VIOLATION property={} replay={}", id, args[2]);
                    1
                }
                Err(e) => {
                    println!("ERROR {}", e);
                    2
                }
            }
        }
        // developer aid: the repository's own fixtures
        "fixtures" => {
            let v: serde_json::Value = serde_json::from_str(include_str!("../corpus.json")).unwrap();
            let norm = |t: &str| -> String { t.trim().replace('\t', "").lines().map(|l| l.trim()).collect() };
            let mut bad = 0;
            for f in v.as_array().unwrap() {
                if f["skip"] == true {
                    continue;
                }
                let mut c = cfg::Cfg { uid: "xyz".into(), ..Default::default() };
                let su = &f["setup"];
                c.restricted = su["setRestricted"] == true;
                c.lite = su["setLite"] == true;
                c.images = su["setImages"] != false;
                c.block_tags = su["setBlockTags"] != false;
                c.rel = su["setLinkRelationShip"].as_str().map(|s| s.to_string());
                c.xhtml = su["setHtmlType"].as_str().map(|s| s.eq_ignore_ascii_case("xhtml")).unwrap_or(false);
                if let Some(u) = su["setUid"].as_str() {
                    c.uid = u.into();
                }
                let input = f["input"].as_str().unwrap().trim().replace("\\x20", " ");
                match guarded(|| c.build().parse(&input)) {
                    Ok(o) => {
                        if norm(&o) != norm(f["expect"].as_str().unwrap()) {
                            bad += 1;
                            println!("MISMATCH {}\n{}\n--- expected\n{}", f["name"], o, f["expect"].as_str().unwrap());
                        }
                    }
                    Err(e) => println!("PANIC {} {}", f["name"], e.msg),
                }
            }
            println!("{} mismatches", bad);
            0
        }
        // developer aid: parse stdin
        "parse" => {
            use std::io::Read;
            let mut s = String::new();
            std::io::stdin().read_to_string(&mut s).unwrap();
            if args.iter().any(|a| a == "-e") {
                s = s.trim_end_matches('\n').replace("\\n", "\n");
            }
            let mut c = cfg::Cfg::default();
            for a in &args[2..] {
                match a.as_str() {
                    "r" => c.restricted = true,
                    "l" => c.lite = true,
                    "ni" => c.images = false,
                    "nb" => c.block_tags = false,
                    "x" => c.xhtml = true,
                    "rb" => c.raw_blocks = true,
                    "s" => c.sanitize = true,
                    "rel" => c.rel = Some("nofollow".into()),
                    _ => (),
                }
            }
            match guarded(|| c.build().parse(&s)) {
                Ok(o) => println!("{}", o),
                Err(f) => println!("!! {}", f.msg),
            }
            0
        }
        _ => {
            eprintln!("usage: vp list|check ID|replay FILE|parse");
            2
        }
    }
}
