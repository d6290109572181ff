//! Stand-in for the external merge tool: records how it was called (arguments,
//! input contents) and then behaves as scripted for the first module's name.
#[path = "shared.rs"]
mod shared;
use serde_json::{json, Value};
use std::io::{Read, Write};

fn main() {
    let dir = std::env::var("FAKE_DIR").unwrap();
    let raw: Vec<String> =
        std::env::args_os().skip(1).map(|a| a.to_string_lossy().to_string()).collect();
    let (mut flags, mut pos, mut outs) = (vec![], vec![], vec![]);
    let mut i = 0;
    while i < raw.len() {
        if raw[i] == "-o" {
            i += 1;
            outs.push(raw.get(i).cloned().unwrap_or_default());
        } else if raw[i].starts_with("--") {
            flags.push(raw[i].clone());
        } else {
            // a module and its name, which may be any text
            pos.push(raw[i].clone());
            i += 1;
            if i < raw.len() {
                pos.push(raw[i].clone());
            }
        }
        i += 1;
    }
    let names: Vec<String> = pos.iter().skip(1).step_by(2).cloned().collect();
    let read: Vec<Vec<u8>> = pos.iter().step_by(2).map(|p| std::fs::read(p).unwrap_or_default()).collect();
    let base = shared::id(names.iter().map(|n| &n[..]).zip(read.iter().map(|c| &c[..])));
    let id = shared::claim(&dir, &base, "t");
    let script: Value = std::fs::read_to_string(format!("{dir}/{id}.json"))
        .or_else(|_| std::fs::read_to_string(format!("{dir}/{base}.json")))
        .ok()
        .and_then(|s| serde_json::from_str(&s).ok())
        .unwrap_or(json!({}));
    let num = |k: &str| script[k].as_u64().unwrap_or(0);
    let contents = || -> Vec<String> {
        pos.iter().step_by(2).map(|p| std::fs::read(p).map_or("missing".into(), |b| shared::hash(&b))).collect()
    };
    let inputs = contents();
    let out = outs.first().cloned().unwrap_or_default();
    std::fs::write(format!("{dir}/{id}.paths"),
        json!(pos.iter().step_by(2).chain(outs.iter()).collect::<Vec<_>>()).to_string()).unwrap();
    shared::log(&dir, &json!({"ev": "tool", "p": id, "paths": pos.iter().step_by(2).collect::<Vec<_>>(),
        "names": names, "inputs": inputs, "even": pos.len() % 2 == 0, "flags": flags, "outs": outs}).to_string());
    if script["read_stdin"].as_bool().unwrap_or(false) {
        let mut v = vec![];
        let _ = std::io::stdin().read_to_end(&mut v);
    }
    std::thread::sleep(std::time::Duration::from_millis(num("delay")));
    // what is written depends on everything the tool was given
    let key = json!([names, inputs, flags]).to_string();
    let mut data = shared::hash(key.as_bytes()).into_bytes();
    data.extend(shared::fill(num("seed"), num("size") as usize));
    let err = match script["stderr"].as_str() {
        Some(s) => s.as_bytes().to_vec(),
        None => shared::fill(num("seed") + 1, num("stderr_size") as usize),
    };
    let noise = shared::fill(num("seed") + 2, num("stdout_size") as usize);
    let _ = std::io::stdout().write_all(&noise);
    let _ = std::io::stdout().flush();
    let early = script["stderr_first"].as_bool().unwrap_or(false);
    if early {
        let _ = std::io::stderr().write_all(&err);
    }
    let part = match script["write"].as_str().unwrap_or("full") {
        "full" => Some(&data[..]),
        "empty" => Some(&data[..0]),
        "partial" => Some(&data[..data.len() / 2]),
        _ => None,
    };
    let mut wrote = String::from("nothing");
    if let Some(p) = part {
        wrote = match std::fs::File::create(&out).and_then(|mut f| f.write_all(p)) {
            Ok(()) => shared::hash(p),
            Err(_) => "failed".into(),
        };
    }
    std::thread::sleep(std::time::Duration::from_millis(num("delay2")));
    // inputs must still be there, unchanged, as long as the tool runs
    let again = contents();
    if !early {
        let _ = std::io::stderr().write_all(&err);
    }
    shared::log(&dir, &json!({"ev": "exit", "p": id, "wrote": wrote, "stable": again == inputs,
        "diag": shared::hash(String::from_utf8_lossy(&err).as_bytes()), "hasdiag": !err.is_empty(),
        "status": if wrote == "failed" { 3 } else { num("exit") }, "signal": num("signal")}).to_string());
    if num("signal") != 0 {
        let _ = std::process::Command::new("/bin/kill")
            .args([format!("-{}", num("signal")), std::process::id().to_string()])
            .status();
        std::thread::sleep(std::time::Duration::from_secs(5));
    }
    std::process::exit(if wrote == "failed" { 3 } else { num("exit") as i32 });
}
