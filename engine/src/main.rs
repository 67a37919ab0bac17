#![allow(dead_code)]
mod checks;
mod core;
mod poly;
mod symgroup;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    if id == "zs" {
        return checks::gdom::print_zs();
    }
    core::install_panic_hook();
    let mut cx = core::Cx::new(&id);
    if a.get(2).map(|s| s == "replay").unwrap_or(false) {
        let s = std::fs::read_to_string(&a[3]).expect("replay file");
        let get = |k: &str| -> String {
            let i = s.find(&format!("\"{}\": \"", k)).unwrap() + k.len() + 5;
            s[i..].split('"').next().unwrap().to_string()
        };
        cx.only = Some(get("harness"));
        let mut m = std::collections::HashMap::new();
        let i = s.find("\"assignment\"").unwrap();
        for l in s[i..].lines().skip(1) {
            let p: Vec<&str> = l.split('"').collect();
            if p.len() >= 4 {
                let hx = p[3].trim_start_matches("0x");
                let mut b = [0u8; 32];
                for j in 0..32 {
                    b[31 - j] = u8::from_str_radix(&hx[2 * j..2 * j + 2], 16).unwrap();
                }
                m.insert(p[1].to_string(), b);
            }
        }
        cx.replay_assign = Some(m);
    }
    if !checks::dispatch(&id, &mut cx) {
        eprintln!("unknown property {}", id);
        std::process::exit(3);
    }
    std::process::exit(cx.finish());
}
