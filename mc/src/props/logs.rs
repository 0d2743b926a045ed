//! P29: log records and the files they belong to. Real files in the worker's scratch directory.
use super::req::*;
use super::util::caught;
use crate::explore::*;
use crate::http::*;
use crate::rt::*;
use crate::run::Run;
use log::{Level, LevelFilter};
use starry::utils::log::LogModule;
use std::collections::BTreeMap;

const LV: [LevelFilter; 6] = [LevelFilter::Off, LevelFilter::Error, LevelFilter::Warn, LevelFilter::Info, LevelFilter::Debug, LevelFilter::Trace];
const RL: [Level; 5] = [Level::Error, Level::Warn, Level::Info, Level::Debug, Level::Trace];

/// One configuration: main level and directory, and the modules.
#[derive(Clone, Debug)]
struct Conf {
    level: usize,
    dir: &'static str,
    mods: Vec<Mod>,
}
#[derive(Clone, Debug)]
struct Mod {
    name: &'static str,
    pkg: &'static str,
    level: usize,
    additive: bool,
    dir: &'static str,
    size: u64,
    count: u32,
}

fn modl(name: &str, pkg: &str, level: LevelFilter, additive: bool, dir: &str, size: u64, count: u32) -> LogModule {
    LogModule { name: name.into(), pkg: pkg.into(), level, additive, dir: dir.into(), file_max_size: size, file_max_count: count }
}

fn configure(c: &Conf) -> Result<(), String> {
    let main = modl("main", "", LV[c.level], true, c.dir, 64, 3);
    let ms = c.mods.iter().map(|m| modl(m.name, m.pkg, LV[m.level], m.additive, m.dir, m.size, m.count)).collect();
    caught(|| main.config_log(ms))
}

fn within(target: &str, pkg: &str) -> bool {
    target == pkg || target.strip_prefix(pkg).map_or(false, |r| r.starts_with("::"))
}

/// The files a record goes to.
fn files(c: &Conf, lv: usize, target: &str) -> Vec<String> {
    // lv: index into RL; level filter k lets the k first pass
    let main = format!("{}/main.log", c.dir);
    match c.mods.iter().find(|m| within(target, m.pkg)) {
        Some(m) => {
            if lv >= m.level {
                return vec![];
            }
            let d = if m.dir.is_empty() { c.dir } else { m.dir };
            let mut v = vec![format!("{}/{}.log", d, m.name)];
            if m.additive {
                v.push(main);
            }
            v
        }
        None => if lv < c.level { vec![main] } else { vec![] },
    }
}

type Book = BTreeMap<String, Vec<(String, String, String)>>; // file -> (level, target, message)

fn emit(c: &Conf, book: &mut Book, lv: usize, target: &str, msg: &str) -> Result<(), String> {
    for f in files(c, lv, target) {
        book.entry(f).or_default().push((RL[lv].to_string(), target.into(), msg.into()));
    }
    caught(|| log::log!(target: target, RL[lv], "{}", msg))
}

/// The JSON string that is the value of `key`.
fn field(line: &str, key: &str) -> Option<String> {
    let at = line.find(&format!("\"{}\":\"", key))? + key.len() + 4;
    let mut o = String::new();
    let mut it = line[at..].chars();
    loop {
        match it.next()? {
            '"' => return Some(o),
            '\\' => match it.next()? {
                'n' => o.push('\n'),
                'r' => o.push('\r'),
                't' => o.push('\t'),
                'b' => o.push('\u{8}'),
                'f' => o.push('\u{c}'),
                'u' => {
                    let h: String = (0..4).filter_map(|_| it.next()).collect();
                    o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?)
                }
                c => o.push(c),
            },
            c => o.push(c),
        }
    }
}

fn lines(path: &str) -> Result<Vec<(String, String, String)>, String> {
    let b = match std::fs::read(path) {
        Ok(b) => b,
        Err(_) => return Ok(vec![]),
    };
    let s = String::from_utf8(b).map_err(|_| format!("{} is not UTF-8", path))?;
    if !s.is_empty() && !s.ends_with('\n') {
        return Err(format!("{} ends within a record", path));
    }
    s.lines().map(|l| {
        if !l.starts_with('{') || !l.ends_with('}') {
            return Err(format!("{} has the line {:?}", path, l));
        }
        match (field(l, "level"), field(l, "target"), field(l, "message")) {
            (Some(a), Some(b), Some(c)) => Ok((a, b, c)),
            _ => Err(format!("{} has the line {:?}", path, l)),
        }
    }).collect()
}

fn tree(dir: &str, v: &mut Vec<String>) {
    if let Ok(d) = std::fs::read_dir(dir) {
        for e in d.flatten() {
            let p = format!("{}/{}", dir, e.file_name().to_string_lossy());
            if e.path().is_dir() {
                tree(&p, v)
            } else {
                v.push(p)
            }
        }
    }
    v.sort();
}

/// Every file under ./L against the expected records.
fn compare(book: &Book, what: &dyn Fn() -> String) -> Res {
    let mut fs = vec![];
    tree("L", &mut fs);
    for f in book.keys() {
        if !fs.contains(f) {
            return fail("missing-file", format!("{}: {} does not exist, files are {:?}", what(), f, fs));
        }
    }
    for f in &fs {
        let got = match lines(f) {
            Ok(g) => g,
            Err(e) => return fail("record-torn", format!("{}: {}", what(), e)),
        };
        let empty = vec![];
        let want = book.get(f).unwrap_or(&empty);
        if got != *want {
            let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
            return fail("records", format!("{}: {} has {} records, expected {}; first difference at {}: {:?}, expected {:?}", what(), f, got.len(), want.len(), i, got.get(i), want.get(i)));
        }
    }
    Ok(0)
}

fn fresh() {
    let _ = std::fs::remove_dir_all("L");
    let _ = std::fs::create_dir("L");
}

const TARGETS: [&str; 9] = ["p", "p::sub", "p::sub::deep", "px", "q", "q::p", "other", "", "P"];

fn record_all(c: &Conf, book: &mut Book, n: &mut u32, targets: &[&str]) -> Result<(), Verdict> {
    for t in targets {
        for lv in 0..5 {
            *n += 1;
            if let Err(p) = emit(c, book, lv, t, &format!("m{}", n)) {
                return fail("panic", format!("logging with {:?} panicked: {}", c, p));
            }
        }
    }
    Ok(())
}

fn conf_of(mut x: u64) -> Conf {
    let mut take = |n: u64| {
        let v = (x % n) as usize;
        x /= n;
        v
    };
    let level = take(6);
    let (l1, a1, d1) = (take(6), take(2) == 1, take(3));
    let two = take(13);
    let swap = take(2) == 1;
    let m1 = Mod { name: "m1", pkg: "p", level: l1, additive: a1, dir: ["L/a", "", "L/b/c"][d1], size: [0, 1][d1 % 2], count: [0, 2][d1 % 2] };
    let mut mods = vec![m1];
    if two > 0 {
        let k = two - 1;
        mods.push(Mod { name: "m2", pkg: "q", level: k % 6, additive: k >= 6, dir: ["", "L/b"][k % 2], size: 0, count: 0 });
    }
    if swap {
        mods.reverse();
    }
    Conf { level, dir: "L/a", mods }
}

/// Configurations for sequences: they share files, packages move between modules.
fn seq_confs() -> Vec<Conf> {
    let m = |name, pkg, level, additive, dir| Mod { name, pkg, level, additive, dir, size: 0, count: 0 };
    vec![
        Conf { level: 3, dir: "L/a", mods: vec![] },
        Conf { level: 0, dir: "L/a", mods: vec![] },
        Conf { level: 5, dir: "L/b", mods: vec![] },
        Conf { level: 2, dir: "L/a", mods: vec![m("m1", "p", 4, false, "")] },
        Conf { level: 2, dir: "L/a", mods: vec![m("m1", "p", 1, true, "L/b")] },
        Conf { level: 4, dir: "L/b", mods: vec![m("m1", "q", 5, true, "")] },
        Conf { level: 0, dir: "L/a", mods: vec![m("m2", "p", 5, true, "L/a")] },
        Conf { level: 3, dir: "L/a", mods: vec![m("m1", "p", 0, true, ""), m("m2", "q", 3, false, "L/b")] },
        Conf { level: 1, dir: "L/b", mods: vec![m("m2", "p", 2, true, ""), m("m1", "other", 5, false, "L/a")] },
        Conf { level: 5, dir: "L/a", mods: vec![m("m1", "p", 3, true, ""), m("m2", "q", 3, true, ""), m("m3", "px", 5, false, "")] },
    ]
}

pub fn p29(r: &mut Run) {
    r.assume("file names distinct within one configuration; packages of modules not nested in one another; maximum sizes at least 1 MB and at least one rolled file for the main file; what the console shows is not checked; size limits are in MB and a file is rolled by the record that takes it past the limit");
    r.enumerate("configurations", 6 * 6 * 2 * 3 * 13 * 2, 120, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            fresh();
            let c = conf_of(it);
            if let Err(p) = configure(&c) {
                return fail("config", format!("configuring {:?} panicked: {}", c, p));
            }
            let (mut b, mut n) = (Book::new(), 0);
            record_all(&c, &mut b, &mut n, &TARGETS)?;
            compare(&b, &|| format!("{:?}", c))?;
        }
        Ok(0)
    });
    // sequences of configurations over the same files
    let cs = seq_confs();
    let k = cs.len() as u64;
    let len = if r.thorough { 6 } else { 4 };
    r.enumerate("reconfigurations", k.pow(len), 200, opts(), move |lo, hi| {
        for it in lo..hi {
            at_item(it);
            fresh();
            let (mut b, mut n) = (Book::new(), 0);
            let mut x = it;
            let mut done = vec![];
            for _ in 0..len {
                let c = &cs[(x % k) as usize];
                done.push(x % k);
                x /= k;
                if let Err(p) = configure(c) {
                    return fail("config", format!("configuring {:?} panicked: {}", c, p));
                }
                record_all(c, &mut b, &mut n, &["p::sub", "q", "other", "px"])?;
            }
            compare(&b, &|| format!("configurations {:?}", done))?;
        }
        Ok(0)
    });
    // messages with awkward characters
    const MA: [&str; 9] = ["a", "\"", "\\", "\n", "\r", "\t", "\u{1}", "é", "{}"];
    let dep = if r.thorough { 6 } else { 5 };
    r.enumerate("messages", nstr(9, dep), 2000, opts(), |lo, hi| {
        fresh();
        let c = Conf { level: 3, dir: "L/a", mods: vec![Mod { name: "m1", pkg: "p", level: 2, additive: true, dir: "", size: 0, count: 0 }] };
        if let Err(p) = configure(&c) {
            return fail("config", format!("configuring {:?} panicked: {}", c, p));
        }
        let mut b = Book::new();
        for it in lo..hi {
            at_item(it);
            let m = cat(&MA, &nth(9, it));
            if let Err(p) = emit(&c, &mut b, (it % 4) as usize, ["p", "other"][it as usize % 2], &m) {
                return fail("panic", format!("logging {:?} panicked: {}", m, p));
            }
        }
        compare(&b, &|| format!("messages {}..{}", lo, hi))
    });
    // every pair of characters within a message
    r.enumerate("characters", n_pairs(2), 2000, opts(), |lo, hi| {
        fresh();
        let c = Conf { level: 3, dir: "L/a", mods: vec![Mod { name: "m1", pkg: "p", level: 2, additive: true, dir: "", size: 0, count: 0 }] };
        if let Err(p) = configure(&c) {
            return fail("config", format!("configuring {:?} panicked: {}", c, p));
        }
        let mut b = Book::new();
        for it in lo..hi {
            at_item(it);
            let (x, y, t) = char_pair(it, 2);
            let m = if t == 0 { format!("{}{}", x, y) } else { format!("a {}b{} c", x, y) };
            if let Err(p) = emit(&c, &mut b, (it % 3) as usize, ["p", "other"][it as usize / 2 % 2], &m) {
                return fail("panic", format!("logging {:?} panicked: {}", m, p));
            }
        }
        compare(&b, &|| format!("messages {}..{}", lo, hi))
    });
    // many modules, many records, long messages, other directories, longer package names
    const DIRS: [&str; 6] = ["", "L/b", ".", "./L/c", "L/d/e/f/g", "L/a/x.y"];
    const PKGS: [&str; 12] = ["p", "q", "r_s", "r_s_t", "a::b", "a::c", "a::b_c", "p2", "P", "x1::y2::z3", "zz", "zzz"];
    r.enumerate("many", 12 * 6 * 6 * 4, 12, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            fresh();
            for f in DIRS.iter().map(|d| format!("{}/m0.log", d)).chain((0..12).map(|i| format!("./m{}.log", i))) {
                let _ = std::fs::remove_file(f);
            }
            let n = 1 + (it % 12) as usize;
            let (d, l) = ((it / 12 % 6) as usize, (it / 72 % 6) as usize);
            let way = it / 432;
            let mods: Vec<Mod> = (0..n)
                .map(|i| Mod { name: ["m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8", "m9", "m10", "m11"][i], pkg: PKGS[(i * 5 + d) % 12], level: (l + i) % 6, additive: (i + d) % 2 == 0, dir: DIRS[(d + i * (way as usize % 2)) % 6], size: 0, count: 0 })
                .collect();
            let c = Conf { level: l, dir: "L/a", mods };
            if let Err(p) = configure(&c) {
                return fail("config", format!("configuring {:?} panicked: {}", c, p));
            }
            let mut b = Book::new();
            let mut k = 0;
            let reps = [1usize, 1, 40, 3][way as usize];
            for rep in 0..reps {
                for p in PKGS {
                    for t in [p.to_string(), format!("{}::sub::deep", p), format!("{}x", p)] {
                        k += 1;
                        let m = if way == 3 { format!("{} {}", k, "y".repeat([500, 4_000, 70_000][rep])) } else { format!("m{}", k) };
                        if let Err(p) = emit(&c, &mut b, k % 5, &t, &m) {
                            return fail("panic", format!("logging with {:?} panicked: {}", c, p));
                        }
                    }
                }
            }
            // the files of modules with the directory "." are beside L
            for f in b.keys().filter(|f| f.starts_with("./m")).cloned().collect::<Vec<_>>() {
                let want = b.remove(&f).unwrap();
                match lines(&f) {
                    Ok(g) if g == want => {}
                    g => return fail("records", format!("{:?}: {} has {:?} records, expected {}", c, f, g.map(|g| g.len()), want.len())),
                }
            }
            let b: Book = b.into_iter().map(|(f, v)| (f.trim_start_matches("./").to_string(), v)).collect();
            compare(&b, &|| format!("{:?}, {} rounds of records", c, reps))?;
        }
        Ok(0)
    });
    // rolling: sizes of records and limits, main and module files, inherited limits
    r.enumerate("rolling", 2 * 3 * 4 * 3 * 4, 1, Opts { secs: 200, ..opts() }, |lo, hi| {
        for it in lo..hi {
            at_item(it);
            fresh();
            let (size, count) = ([1u64, 2][(it % 2) as usize], [1u32, 2, 3][(it / 2 % 3) as usize]);
            let rec = [60_000usize, 250_001, 1_048_000, 2_400_000][(it / 6 % 4) as usize];
            let which = it / 24 % 3;
            // configured again after so many records (0: never)
            let re = [0usize, 1, 2, 5][(it / 72) as usize];
            if re > 0 && (size > 1 || rec < 100_000) {
                continue;
            }
            // 0: the main file; 1: a module's own limits; 2: a module that inherits them
            let (name, target) = [("main", "other"), ("m1", "p"), ("m1", "p")][which as usize];
            let (ms, mc) = if which == 2 { (0, 0) } else { (size, count) };
            let (ss, sc) = if which == 1 { (50, 9) } else { (size, count) };
            let conf = || caught(|| modl("main", "", LevelFilter::Info, true, "L/a", ss, sc).config_log(vec![modl("m1", "p", LevelFilter::Info, false, "", ms, mc)]));
            if let Err(p) = conf() {
                return fail("config", p);
            }
            let total = (size as usize * 1_048_576 * (count as usize + 2)) / rec + 3;
            let mut sent = vec![];
            let body = "x".repeat(rec);
            for i in 0..total {
                if re > 0 && i > 0 && i % re == 0 {
                    if let Err(p) = conf() {
                        return fail("config", p);
                    }
                }
                let m = format!("{} {}", i, body);
                if let Err(p) = caught(|| log::log!(target: target, Level::Info, "{}", m)) {
                    return fail("panic", format!("logging panicked: {}", p));
                }
                sent.push(i);
                // after every record: what is kept is a contiguous run up to the last record
                let last = i + 1 == total || i % 7 == 0;
                if !last {
                    continue;
                }
                let mut fs = vec![];
                tree("L", &mut fs);
                let rolled: Vec<String> = (1..=20).map(|k| format!("L/a/{}-log-{}.log", name, k)).filter(|f| fs.contains(f)).collect();
                let what = || format!("size {} MB, {} rolled files, records of {} bytes, {} of them, file {}, configured again every {} records", size, count, rec, i + 1, name, re);
                if rolled.len() > count as usize || rolled.iter().enumerate().any(|(k, f)| *f != format!("L/a/{}-log-{}.log", name, k + 1)) {
                    return fail("rolled-files", format!("{}: rolled files are {:?}", what(), rolled));
                }
                if fs.iter().any(|f| f.contains("-log-") && !rolled.contains(f)) {
                    return fail("rolled-files", format!("{}: files are {:?}", what(), fs));
                }
                let mut kept = vec![];
                for f in rolled.iter().rev().chain([&format!("L/a/{}.log", name)]) {
                    let len = std::fs::metadata(f).map(|m| m.len()).unwrap_or(0);
                    let lim = size * 1_048_576;
                    let line = rec as u64 + 400;
                    if rolled.contains(f) && (len < lim || len > lim + line) || !rolled.contains(f) && len > lim {
                        return fail("rolled-size", format!("{}: {} has {} bytes", what(), f, len));
                    }
                    match lines(f) {
                        Err(e) => return fail("record-torn", format!("{}: {}", what(), e.chars().take(200).collect::<String>())),
                        Ok(l) => {
                            for (lv, t, m) in l {
                                let (a, rest) = m.split_once(' ').unwrap_or((&m, ""));
                                if lv != "INFO" || t != target || rest.len() != rec {
                                    return fail("record-torn", format!("{}: record {:?} of {} bytes in {}", what(), a, rest.len(), f));
                                }
                                kept.push(a.parse::<usize>().unwrap_or(usize::MAX));
                            }
                        }
                    }
                }
                let from = kept.first().copied().unwrap_or(sent.len());
                if kept != sent[from.min(sent.len())..] {
                    return fail("records-lost", format!("{}: the files hold the records {:?}", what(), kept));
                }
                // nothing is given up before all rolled files are in use
                if from > 0 && rolled.len() < count as usize {
                    return fail("records-lost", format!("{}: the first record kept is {} although only {} files were rolled", what(), from, rolled.len()));
                }
            }
            let _ = std::fs::remove_dir_all("L");
        }
        Ok(0)
    });
    // configurations that cannot be used leave the previous one in force, and later ones work
    let cs = seq_confs();
    let k = cs.len() as u64;
    r.enumerate("refused", k * 5 * k, 50, opts(), move |lo, hi| {
        for it in lo..hi {
            at_item(it);
            fresh();
            let (a, bad, c) = (&cs[(it % k) as usize], (it / k % 5) as usize, &cs[(it / k / 5) as usize]);
            let (mut b, mut n) = (Book::new(), 0);
            if let Err(p) = configure(a) {
                return fail("config", format!("configuring {:?} panicked: {}", a, p));
            }
            record_all(a, &mut b, &mut n, &["p", "other"])?;
            std::fs::write("L/plain", b"").unwrap();
            let main = modl("main", "", LevelFilter::Trace, true, if bad == 3 { "L/plain" } else { "L/a" }, 1, 1);
            let x = modl("x", "p", LevelFilter::Trace, true, "L/x", 1, 1);
            let ms = match bad {
                0 => vec![x.clone(), modl("x", "q", LevelFilter::Trace, true, "L/x", 1, 1)],
                1 => vec![x.clone(), modl("y", "p", LevelFilter::Trace, true, "L/x", 1, 1)],
                2 => vec![x.clone(), modl("y", "q::", LevelFilter::Trace, true, "L/x", 1, 1)],
                3 => vec![],
                _ => vec![x.clone(), modl("y", "q", LevelFilter::Trace, true, "L/plain", 1, 1)],
            };
            let _ = caught(|| main.config_log(ms)).is_err();
            let _ = std::fs::remove_file("L/plain");
            record_all(a, &mut b, &mut n, &["p::sub", "q"])?;
            if let Err(p) = configure(c) {
                return fail("config-after-refusal", format!("after the refused configuration {} configuring {:?} panicked: {}", bad, c, p));
            }
            record_all(c, &mut b, &mut n, &["p", "other"])?;
            compare(&b, &|| format!("{:?}, then the unusable configuration {}, then {:?}", a, bad, c))?;
        }
        Ok(0)
    });
    // the server's log file
    r.enumerate("server", 6 * 2, 1, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            fresh();
            let lv = (it % 6) as usize;
            let dir = ["L/a", "L/b/c"][(it / 6) as usize];
            let mut s = starry::HttpServer::new();
            s.set_log(LV[lv], dir.into(), 64, 2);
            s.router("").get("/", |c| c.response());
            start(&s);
            for l in 0..5 {
                log::log!(target: "some::place", RL[l], "m{}", l);
            }
            let got = match lines(&format!("{}/starry-http.log", dir)) {
                Ok(g) => g,
                Err(e) => return fail("record-torn", e),
            };
            let got: Vec<_> = got.into_iter().filter(|x| x.1 == "some::place").map(|x| x.2).collect();
            let want: Vec<_> = (0..5).filter(|l| *l < lv).map(|l| format!("m{}", l)).collect();
            if got != want {
                return fail("records", format!("a server logging at {:?} to {}: its file has {:?}, expected {:?}", LV[lv], dir, got, want));
            }
        }
        Ok(0)
    });
    // several threads
    for (name, threads, each, bound) in [("two-threads", 2usize, 2usize, 8u32), ("three-threads", 3, 2, 4), ("threads-and-reconfiguration", 2, 2, 5)] {
        let recon = name.ends_with("configuration");
        let bound = bound + if r.thorough { 1 } else { 0 };
        r.explore(name, Opts { bound, mask: K_ALL, secs: if r.thorough { 200 } else { 30 }, ..Opts::default() }, move || {
            fresh();
            let cs = [
                Conf { level: 3, dir: "L/a", mods: vec![Mod { name: "m1", pkg: "p", level: 3, additive: true, dir: "", size: 0, count: 0 }] },
                Conf { level: 5, dir: "L/a", mods: vec![Mod { name: "m1", pkg: "p", level: 5, additive: true, dir: "", size: 0, count: 0 }, Mod { name: "m2", pkg: "q", level: 5, additive: true, dir: "", size: 0, count: 0 }] },
            ];
            if let Err(p) = no_sched(|| configure(&cs[0])) {
                return fail("config", p);
            }
            crate::net::net().file_points = true;
            let hs: Vec<_> = (0..threads).map(|t| {
                std::thread::spawn(move || {
                    for i in 0..each {
                        log::log!(target: if (t + i) % 2 == 0 { "p" } else { "other" }, Level::Info, "{} {}", t, i);
                    }
                })
            }).collect();
            if recon {
                if let Err(p) = configure(&cs[1]) {
                    return fail("config", format!("reconfiguring panicked: {}", p));
                }
            }
            for h in hs {
                let _ = h.join();
            }
            crate::net::net().file_points = false;
            no_panics()?;
            let want = |f: &str, t: usize| (0..each).filter(|i| f == "main" || (t + i) % 2 == 0).map(|i| format!("{} {}", t, i)).collect::<Vec<_>>();
            for f in ["main", "m1"] {
                let got = match lines(&format!("L/a/{}.log", f)) {
                    Ok(g) => g,
                    Err(e) => return fail("record-torn", e),
                };
                let mut n = 0;
                for t in 0..threads {
                    let g: Vec<_> = got.iter().map(|x| x.2.clone()).filter(|m| m.starts_with(&format!("{} ", t))).collect();
                    n += g.len();
                    if g != want(f, t) {
                        return fail("records", format!("{}.log has {:?} of thread {}, expected {:?}", f, g, t, want(f, t)));
                    }
                }
                if n != got.len() {
                    return fail("records", format!("{}.log has {:?}", f, got));
                }
            }
            Ok(hash_str(&format!("{:?}", lines("L/a/main.log").map(|l| l.into_iter().map(|x| x.2).collect::<Vec<_>>()))))
        });
    }
}
