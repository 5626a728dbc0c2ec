//! Bounded native validation: runs the real crate against independent oracles, one property per run.
//! usage: pmx-suite <property> <seed> <quick|thorough> <seconds> <dictionary file> <out.json>
mod any;
mod clock;
mod ctx;
mod gen;
mod p1;
mod p2;
mod p3;
mod p4;
mod p5;
use ctx::*;
use std::time::Duration;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","))
}
fn read_dict(path: &str) -> Dict {
    let mut d = Dict::default();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let (k, v) = match l.split_once('\t') {
            Some(x) => x,
            None => continue,
        };
        match k {
            "s" => {
                // hex of UTF-8
                let b: Vec<u8> = (0..v.len() / 2).filter_map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).ok()).collect();
                if let Ok(s) = String::from_utf8(b) {
                    d.strs.push(s)
                }
            }
            "i" => {
                if let Ok(i) = v.parse() {
                    d.ints.push(i)
                }
            }
            "f" => {
                if let Ok(f) = v.parse() {
                    d.floats.push(f)
                }
            }
            _ => {}
        }
    }
    let fs: Vec<f64> = d.ints.iter().map(|i| *i as f64).collect();
    d.floats.extend(fs);
    d
}
fn write(out: &str, prop: &str, seed: &str, c: Option<&Ctx>, fails: &[(String, String)]) {
    let (ev, dn, sm) = c.map_or((CURRENT.lock().map(|c| c.0 / 2).unwrap_or(0), 0, vec![]), |c| (c.evaluations, c.distinct.len() as u64, c.samples.clone()));
    let f: Vec<String> = fails.iter().map(|(d, m)| format!("{{\"case\":{},\"failure\":{}}}", esc(d), esc(m))).collect();
    let s = format!(
        "{{\"property\":{},\"seed\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":{},\"failures\":[{}]}}\n",
        esc(prop),
        esc(seed),
        ev,
        dn,
        list(&sm),
        f.join(",")
    );
    std::fs::write(out, s).expect("cannot write the result");
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, seed, tier, secs, dict, out) = (a[1].clone(), a[2].clone(), a[3].clone(), a[4].parse::<u64>().unwrap(), a[5].clone(), a[6].clone());
    std::panic::set_hook(Box::new(|_| {}));
    let dict = read_dict(&dict);
    // the watchdog: one case which does not end is a failure of that case
    {
        let (prop, seed, out) = (prop.clone(), seed.clone(), out.clone());
        let limit = if tier == "thorough" { 240 } else { 90 };
        std::thread::spawn(move || {
            let mut last = (0, 0);
            loop {
                std::thread::sleep(Duration::from_secs(1));
                let (n, d) = {
                    let c = CURRENT.lock().unwrap();
                    (c.0, c.1.clone())
                };
                last = if n == last.0 { (n, last.1 + 1) } else { (n, 0) };
                if n % 2 == 1 && last.1 >= limit {
                    write(&out, &prop, &seed, None, &[(d, format!("did not finish within {limit} s"))]);
                    std::process::exit(0);
                }
            }
        });
    }
    let s: u64 = seed.bytes().fold(0, |h, b| h.wrapping_mul(131).wrapping_add(b as u64));
    let mut c = Ctx::new(s, tier == "thorough", dict, Duration::from_secs(secs));
    p5::volume(&prop, &mut c);
    match prop.as_str() {
        "C01" => p1::c01(&mut c),
        "C02" => p1::c02(&mut c),
        "C03" => p1::c03(&mut c),
        "C04" => p1::c04(&mut c),
        "C05" => p1::c05(&mut c),
        "C06" => p2::c06(&mut c),
        "C07" => p2::c07(&mut c),
        "C08" => p2::c08(&mut c),
        "C09" => p2::c09(&mut c),
        "C10" => p2::c10(&mut c),
        "C11" => p2::c11(&mut c),
        "C12" => p2::c12(&mut c),
        "C13" => p2::c13(&mut c),
        "C14" => p3::c14(&mut c),
        "C15" => p3::c15(&mut c),
        "C16" => p3::c16(&mut c),
        "C17" => p3::c17(&mut c),
        "C18" => p3::c18(&mut c),
        "C20" => p4::c20(&mut c),
        p => {
            eprintln!("no such property: {p}");
            std::process::exit(2);
        }
    }
    let fails = c.failures.clone();
    write(&out, &prop, &seed, Some(&c), &fails);
}
