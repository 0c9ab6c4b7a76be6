#[macro_use]
mod sx;
mod data;
mod errors;
mod flow;
mod json;
mod offer;
mod proof;
mod request;
mod response;
mod robust;
mod token;

fn tables() -> Vec<&'static [sx::Entry]> {
    vec![token::TABLE, request::TABLE, proof::TABLE, offer::TABLE, response::TABLE, errors::TABLE, json::TABLE, flow::TABLE, robust::TABLE]
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let name = a.get(1).map(String::as_str).unwrap_or("");
    let tier: u32 = a.get(3).and_then(|t| t.parse().ok()).unwrap_or(0);
    for t in tables() {
        for (n, f, c) in t {
            if name == "list" {
                println!("{} {}", n, c.join(","));
            } else if *n == name {
                sx::replay(*f, &a[2], tier);
                return;
            }
        }
    }
    if name != "list" {
        eprintln!("unknown entry {}", name);
        std::process::exit(2);
    }
}
