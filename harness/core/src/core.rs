mod facts;
mod guest;
mod hooks;
mod iface;
mod nest;
mod ops;
mod pipeline;
mod purity;
mod run;
mod stacklib;

use serde_json::Value as J;
use std::fs;
use std::io::{BufWriter, Write};

fn main() {
    // wasm frames and host frames share the stack of this thread
    std::thread::Builder::new().stack_size(256 << 20).spawn(work).unwrap().join().unwrap();
}

fn work() {
    let argv: Vec<String> = std::env::args().collect();
    let command = argv[1].as_str();
    std::panic::set_hook(Box::new(|i| eprintln!("{i}")));
    let read = |p: &str| -> Vec<J> {
        fs::read_to_string(p)
            .expect("input")
            .lines()
            .filter(|l| !l.is_empty())
            .map(|l| serde_json::from_str(l).expect("json"))
            .collect()
    };
    let mut out = BufWriter::new(fs::File::create(&argv[3]).expect("output"));
    let cases = read(&argv[2]);
    let runner = run::Runner::new();
    for case in &cases {
        let r = match command {
            "run" => run::case(&runner, case),
            "demanded" => guest::demanded(case),
            "guest" => guest::case(case),
            "iface" => iface::case(case),
            "libgen" => stacklib::generate(case),
            "librun" => stacklib::histories(&runner.engine, case),
            "pipeline" => pipeline::case(case),
            "purity" => purity::case(case),
            "nest" => nest::case(case),
            other => panic!("unknown command {other}"),
        };
        writeln!(out, "{r}").unwrap();
    }
}
