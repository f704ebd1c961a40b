//! vharness search PROP SEED BUDGET_MS MAXCASES  -> one JSON line
//! vharness one PROP SEED CASE                     -> one JSON line
use std::time::Instant;
#[path = "../../../repo/compare/src/utils.rs"]
mod utils;
mod c21;
mod c25;
mod media;
mod c22;
mod assume;
fn esc(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o }
fn case(p: &str, i: u64, seed: u64) -> Result<(), String> { if p.starts_with("A-") { assume::case(p, i, seed) } else if p == "C22" { c22::case(i, seed) } else if p == "C25" { c25::case(i, seed) } else if p == "C21" || p == "C23" || p == "C24" { c21::case(i, seed, p) } else { rusty_chromaprint::verif::case(p, i, seed) } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let p = a[2].clone();
    let seed: u64 = a[3].parse().unwrap();
    if a[1] == "one" {
        match case(&p, a[4].parse().unwrap(), seed) { Ok(()) => println!("{{\"ok\":true}}"), Err(e) => { println!("{{\"ok\":false,\"what\":\"{}\"}}", esc(&e)); std::process::exit(1); } }
        return;
    }
    let budget: u128 = a[4].parse().unwrap();
    let maxc: u64 = a[5].parse().unwrap();
    let t0 = Instant::now();
    let next = std::sync::atomic::AtomicU64::new(0);
    let fail: std::sync::Mutex<Option<(u64, String)>> = std::sync::Mutex::new(None);
    let done = std::sync::atomic::AtomicU64::new(0);
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= maxc || t0.elapsed().as_millis() > budget || fail.lock().unwrap().is_some() { break; }
                match case(&p, i, seed) { Ok(()) => { done.fetch_add(1, std::sync::atomic::Ordering::SeqCst); } Err(e) => { let mut f = fail.lock().unwrap(); if f.as_ref().map_or(true, |x| x.0 > i) { *f = Some((i, e)); } break; } }
            });
        }
    });
    let n = done.load(std::sync::atomic::Ordering::SeqCst);
    match fail.into_inner().unwrap() {
        None => println!("{{\"ok\":true,\"cases\":{},\"ms\":{}}}", n, t0.elapsed().as_millis()),
        Some((i, e)) => { println!("{{\"ok\":false,\"cases\":{},\"case\":{},\"seed\":{},\"what\":\"{}\"}}", n, i, seed, esc(&e)); std::process::exit(1); }
    }
}
