mod cli;
mod cx;
mod mexpr;
mod p_codec;
mod p_match;
mod p_query;
mod rec;

use std::path::PathBuf;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if let [_, k, i, n] = &a[..] {
        // one expression in a process of its own: a stack overflow cannot be caught
        if k == "--nest" {
            let ok = p_match::nested(i.parse().unwrap(), n.parse().unwrap());
            println!("{ok}");
            return;
        }
    }
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let prop = get("--property").expect("--property");
    let out = PathBuf::from(get("--out").expect("--out"));
    let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = get("--tier").as_deref() == Some("thorough");
    let budget = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600.0 } else { 60.0 });
    std::panic::set_hook(Box::new(|_| {}));
    let mut cx = cx::Cx::new(&prop, seed, thorough, budget);
    let run: fn(&mut cx::Cx) = match prop.as_str() {
        "C01" => p_codec::c01,
        "C02" => p_codec::c02,
        "C03" => p_codec::c03,
        "C04" => p_match::c04,
        "C05" => p_match::c05,
        "C06" => p_match::c06,
        "C07" => p_match::c07,
        "C08" => p_match::c08,
        "C09" => p_query::c09,
        "C10" => p_query::c10,
        "C11" => p_query::c11,
        "C12" => p_match::c12,
        "C13" => cli::c13,
        "C14" => cli::c14,
        "C15" => cli::c15,
        "C16" => cli::c16,
        "C17" => cli::c17,
        "C18" => cli::c18,
        "C19" => cli::c19,
        "C20" => cli::c20,
        "C21" => cli::c21,
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    };
    let r = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        run(&mut cx);
        let _ = std::fs::remove_dir_all(&cx.scratch);
        cx
    });
    match r.unwrap().join() {
        Ok(cx) => {
            let rep = cx.report();
            std::fs::write(&out, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
            println!("{} evaluations, {} distinct, {} violations, {:.1}s", cx.evals, cx.nontrivial.len(), cx.violations.len(), cx.start.elapsed().as_secs_f64());
            std::process::exit(if cx.violations.is_empty() { 0 } else { 1 });
        }
        Err(e) => {
            eprintln!("harness panicked: {:?}", e.downcast_ref::<String>().map(|s| s.as_str()).or(e.downcast_ref::<&str>().copied()));
            std::process::exit(3);
        }
    }
}
