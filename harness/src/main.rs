#![allow(unused_must_use, clippy::type_complexity)]
extern crate alloc; // the macros of sql-parse name it
mod counts;
mod ddl;
mod dialects;
mod dict;
mod dml;
mod expr;
mod faithful;
mod funcs;
mod gen;
mod layout;
mod meta;
mod misc;
mod mutate;
mod parse;
mod place;
mod run;
mod scripts;
mod select;
mod spans;
mod tree;
#[cfg(feature = "walk")]
mod walk;
mod values;
mod words;
mod wrong;

/// Counts the bytes every thread allocates.
struct Counting;
thread_local! {
    static BYTES: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
pub fn alloc_bytes() -> u64 {
    BYTES.with(|b| b.get())
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        BYTES.try_with(|b| b.set(b.get() + l.size() as u64)).ok();
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        BYTES.try_with(|b| b.set(b.get() + n.saturating_sub(l.size()) as u64)).ok();
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

fn props() -> Vec<run::Prop> {
    let mut v = faithful::props();
    v.extend(meta::props());
    v.extend(layout::props());
    v.extend(spans::props());
    v.extend(dialects::props());
    v.extend(scripts::props());
    v.extend(values::props());
    v.extend(place::props());
    v.sort_by_key(|p| p.id);
    v
}

const ASSUMPTIONS: &[&str] = &[
    "the derived Debug output of the syntax tree shows every field",
    "inputs nest at most about a thousand levels (see the known finding of P01)",
];
/// A line for every listed finding of the property that still fails.
fn known_findings(id: &str) -> Vec<String> {
    let text = std::fs::read_to_string(run::verif().join("known_findings.txt")).unwrap_or_default();
    let pre = format!("known: property={id} ");
    let mut v = Vec::new();
    for l in text.lines().filter_map(|l| l.strip_prefix(&pre)) {
        let fails = match l.split(' ').next() {
            Some("id=deep-nesting") => {
                use std::os::unix::process::CommandExt;
                let mut c = std::process::Command::new(std::env::current_exe().unwrap());
                unsafe {
                    c.pre_exec(|| {
                        libc::setrlimit(libc::RLIMIT_CORE, &libc::rlimit { rlim_cur: 0, rlim_max: 0 });
                        Ok(())
                    });
                }
                let o = c
                    .arg("deep")
                    .stdout(std::process::Stdio::null())
                    .stderr(std::process::Stdio::null())
                    .status();
                // killed by a signal: the stack overflowed
                o.is_ok_and(|s| s.code().is_none())
            }
            _ => false,
        };
        if fails {
            v.push(format!("KNOWN-FINDING: property={id} {l}"));
        }
    }
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or_else(|| {
        eprintln!("usage: sqlcheck check ID quick|thorough | replay FILE | list");
        std::process::exit(2)
    });
    let ps = props();
    let find = |id: &str| ps.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no such property: {id}");
        std::process::exit(2)
    });
    let code = match arg(1) {
        "list" => {
            for p in &ps {
                println!("{}: {}", p.id, p.subs.iter().map(|s| s.name).collect::<Vec<_>>().join(" "));
            }
            0
        }
        "check" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let p = find(arg(2));
            run::parent(p, arg(3), seed, "exploration", ASSUMPTIONS, run::Extra { lines: known_findings(p.id) })
        }
        // the input of a known finding, on a thread with an ordinary stack
        "deep" => {
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(|| {
                    let s = format!("SELECT {}", "(".repeat(100_000));
                    let mut iss = sql_parse::Issues::new(&s);
                    drop(sql_parse::parse_statement(&s, &mut iss, &sql_parse::ParseOptions::new()));
                })
                .unwrap()
                .join()
                .map_or(2, |_| 0)
        }
        "fresh" => values::fresh_call(),
        // writes the baseline of the dictionary
        "dict" => {
            print!("{}", dict::baseline());
            0
        }
        "child" => run::child(find(arg(2)), arg(3), arg(4).parse().unwrap(), std::path::Path::new(arg(5))),
        "case" => {
            let mut s = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
            run::run_one(find(arg(2)), arg(3), run::tape_parse(s.trim()))
        }
        "replay" => {
            let s = std::fs::read_to_string(arg(2)).expect("replay file");
            let f = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).expect("field").to_string();
            let (id, sub, tape) = (f("property="), f("sub="), f("tape="));
            match run::isolated(&id, &sub, &run::tape_parse(&tape), 60) {
                None => {
                    println!("held");
                    0
                }
                Some(m) => {
                    println!("{m}");
                    1
                }
            }
        }
        _ => 2,
    };
    std::process::exit(code);
}
