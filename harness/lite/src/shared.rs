//! Things the merge driver and the stand-in tool agree on.
use std::io::Write;

pub fn hash(bytes: &[u8]) -> String {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in bytes {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    format!("{h:016x}-{}", bytes.len())
}

/// Deterministic filler.
pub fn fill(seed: u64, size: usize) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    (0..size)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 24) as u8
        })
        .collect()
}

/// What identifies a merge request: all names, and the beginning and length of all contents.
pub fn id<'a>(parts: impl Iterator<Item = (&'a str, &'a [u8])>) -> String {
    let mut all = vec![];
    for (name, content) in parts {
        all.extend(name.as_bytes());
        all.push(0x1f);
        all.extend(hash(&content[..content.len().min(64)]).into_bytes());
        all.extend(format!("+{}", content.len()).into_bytes());
        all.push(0x1e);
    }
    hash(&all)
}

/// The how-manieth of its kind this is: requests may be made again.
pub fn claim(dir: &str, id: &str, kind: &str) -> String {
    for k in 1.. {
        if std::fs::OpenOptions::new().write(true).create_new(true).open(format!("{dir}/{id}.{kind}{k}")).is_ok() {
            return format!("{id}#{k}");
        }
    }
    unreachable!()
}

/// One line, one write: the append order is the order of events.
pub fn log(dir: &str, line: &str) {
    let mut f = std::fs::OpenOptions::new().append(true).create(true).open(format!("{dir}/log")).unwrap();
    f.write_all(format!("{line}\n").as_bytes()).unwrap();
}
