//! One check run: scenarios, verdict, evidence, replay.
use crate::explore::*;
use std::fmt::Write as _;

pub struct Replay {
    pub scenario: String,
    pub item: u64,
    pub devs: Vec<(u32, u8, u32)>,
    pub found: bool,
}

pub struct Run {
    pub prop: String,
    pub thorough: bool,
    pub stats: Vec<Stats>,
    pub replay: Option<Replay>,
    pub assumptions: Vec<String>,
    pub t0: f64,
    pub only: Option<String>,
    pub budget: f64,
    /// statistics of an earlier pass with the quick bounds
    pub earlier: Vec<Stats>,
}

impl Run {
    pub fn new(prop: &str, thorough: bool) -> Run {
        Run {
            prop: prop.to_string(),
            thorough,
            stats: vec![],
            replay: None,
            assumptions: vec![],
            t0: now_wall(),
            only: std::env::var("MC_ONLY").ok(),
            budget: if thorough { 780.0 } else { 240.0 },
            earlier: vec![],
        }
    }
    pub fn assume(&mut self, s: &str) {
        if !self.assumptions.iter().any(|x| x == s) {
            self.assumptions.push(s.to_string());
        }
    }
    fn left(&self) -> f64 {
        self.budget - (now_wall() - self.t0)
    }
    /// In the thorough tier one scenario must not use up the time of those after it.
    fn cap(&self, secs: u64) -> u64 {
        let left = self.left().max(5.0);
        secs.min(if self.thorough { (left / 2.5).max(20.0).min(left) as u64 } else { left as u64 })
    }
    pub fn failed(&self) -> bool {
        self.stats.iter().any(|s| s.violations.iter().any(|v| !self.is_known(v)) || !s.errors.is_empty())
    }
    fn full_key(v: &Violation) -> String {
        format!("{}:{}", v.scenario, v.key)
    }
    fn is_known(&self, v: &Violation) -> bool {
        known().iter().any(|k| *k == Self::full_key(v))
    }
    fn skip(&mut self, name: &str) -> bool {
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return true;
            }
        }
        self.failed()
    }

    /// All executions with at most `bound` deviations. In the thorough tier the bound is raised
    /// (`extra` more levels) as long as the budget allows; every completed bound is exhaustive.
    pub fn explore<F: Fn() -> Res>(&mut self, name: &str, o: Opts, f: F) {
        let stalled = format!("{}~stall", name);
        if let Some(r) = &mut self.replay {
            if r.scenario == name || r.scenario == stalled {
                r.found = true;
                crate::rt::rt().stall = r.scenario == stalled;
                let v = run_once(r.devs.clone(), o.mask, o.steps, o.hang_secs, o.expect_deadlock, &f);
                report_replay(&self.prop, v);
            }
            return;
        }
        if !self.skip(name) {
            let mut o = o.clone();
            o.secs = self.cap(o.secs);
            let s = explore(name, &o, &f);
            self.push(s);
        }
        if o.stall.min(o.bound) > 0 && !self.skip(&stalled) {
            let mut o = o.clone();
            o.secs = self.cap(o.secs);
            o.bound = o.bound.min(o.stall);
            crate::rt::rt().stall = true;
            let s = explore(&stalled, &o, &f);
            crate::rt::rt().stall = false;
            self.push(s);
        }
    }

    pub fn enumerate<F: Fn(u64, u64) -> Res>(&mut self, name: &str, n: u64, chunk: u64, o: Opts, f: F) {
        if let Some(r) = &mut self.replay {
            if r.scenario == name {
                r.found = true;
                let it = r.item;
                let v = run_once(vec![], 0, o.steps, o.hang_secs, o.expect_deadlock, || {
                    crate::rt::rt().sched_on = false;
                    f(it, it + 1)
                });
                report_replay(&self.prop, v);
            }
            return;
        }
        if self.skip(name) {
            return;
        }
        let mut o = o;
        o.secs = self.cap(o.secs);
        let s = enumerate(name, n, chunk, &o, &f);
        self.push(s);
    }

    fn push(&mut self, s: Stats) {
        eprintln!(
            "  {} bound={} execs={} items={} nodes={} steps={} maxdec={} outcomes={} {} {:.1}s{}{}",
            s.scenario, s.bound, s.execs, s.items, s.nodes, s.steps, s.maxdec, s.outcomes,
            if s.complete { "complete" } else { "INCOMPLETE" }, s.wall,
            if s.violations.is_empty() { "".into() } else { format!(" violations={}", s.violations.len()) },
            if s.errors.is_empty() { "".into() } else { format!(" errors={:?}", s.errors) },
        );
        self.stats.push(s);
    }

    pub fn finish(self) -> i32 {
        if let Some(r) = &self.replay {
            if !r.found {
                eprintln!("replay: scenario {} not found", r.scenario);
                return 2;
            }
            return 0;
        }
        let mut vio = 0;
        let mut errors = vec![];
        let mut code = 0;
        for s in &self.stats {
            errors.extend(s.errors.clone());
            let mut seen = vec![];
            for v in &s.violations {
                let fk = Self::full_key(v);
                if self.is_known(v) {
                    if !seen.contains(&fk) {
                        println!("KNOWN-FINDING: property={} {} {}", self.prop, fk, one_line(&v.msg));
                        seen.push(fk);
                    }
                    continue;
                }
                vio += 1;
                if vio <= 3 {
                    let path = write_replay(&self.prop, v, self.thorough);
                    println!("VIOLATION property={} replay={}", self.prop, path);
                    println!("  scenario={} item={} deviations={:?}", v.scenario, v.item, v.devs);
                    println!("  {}: {}", v.key, one_line(&v.msg));
                }
                code = 1;
            }
        }
        if self.stats.is_empty() {
            errors.push("nothing was explored".into());
        }
        let complete = self.stats.iter().chain(&self.earlier).all(|s| s.complete);
        self.evidence(vio, complete);
        if code == 0 && !errors.is_empty() {
            for e in &errors {
                eprintln!("ERROR {}", e);
            }
            code = 3;
        }
        code
    }

    fn evidence(&self, vio: usize, complete: bool) {
        let all = || self.earlier.iter().chain(&self.stats);
        let sum = |f: fn(&Stats) -> u64| all().map(f).sum::<u64>();
        let mut sc = String::new();
        for (i, s) in all().enumerate() {
            let _ = write!(
                sc,
                "{}{{\"scenario\":{},\"deviation_bound\":{},\"executions\":{},\"inputs\":{},\"tree_nodes\":{},\"steps\":{},\"max_decisions\":{},\"distinct_outcomes\":{},\"complete\":{},\"wall_s\":{:.2}}}",
                if i > 0 { ",\n   " } else { "" }, js(&s.scenario), s.bound, s.execs, s.items, s.nodes, s.steps, s.maxdec, s.outcomes, s.complete, s.wall
            );
        }
        let traces = all().map(|s| if s.items > 0 { s.items } else { s.execs }).sum::<u64>();
        let mut a = String::new();
        for (i, x) in self.assumptions.iter().enumerate() {
            let _ = write!(a, "{}{}", if i > 0 { "," } else { "" }, js(x));
        }
        let e = format!(
            "{{\n \"property\":{},\n \"tier\":{},\n \"seed\":{},\n \"level\":{},\n \"coverage\":{{\"states\":{},\"transitions\":{},\"schedules\":{},\"inputs\":{},\"distinct_outcomes\":{},\"traces_validated_against_impl\":{},\"samples\":0,\"exhaustive\":{},\n  \"scenarios\":[{}]}},\n \"assumptions\":[{}],\n \"wall_s\":{:.2},\n \"violations\":{}\n}}\n",
            js(&self.prop),
            js(if self.thorough { "thorough" } else { "quick" }),
            std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
            js("model_checking"),
            sum(|s| s.nodes), sum(|s| s.steps.max(s.items)), sum(|s| s.execs), sum(|s| s.items), sum(|s| s.outcomes), traces, complete, sc, a,
            now_wall() - self.t0, vio
        );
        let _ = std::fs::create_dir_all("/verif/evidence");
        let _ = std::fs::write(format!("/verif/evidence/{}.json", self.prop), e);
    }
}

fn one_line(s: &str) -> String {
    let t: String = s.chars().map(|c| if c == '\n' || c == '\r' { ' ' } else { c }).collect();
    t.chars().take(600).collect()
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_replay(prop: &str, v: &Violation, thorough: bool) -> String {
    let dir = "/verif/evidence/replay";
    let _ = std::fs::create_dir_all(dir);
    let h = hash_str(&format!("{}{}{:?}", v.scenario, v.item, v.devs));
    let path = format!("{}/{}-{:08x}.txt", dir, prop, h as u32);
    let devs: Vec<String> = v.devs.iter().map(|d| format!("{}:{}", d.0, d.1)).collect();
    let _ = std::fs::write(
        &path,
        format!(
            "property={}\ntier={}\nscenario={}\nitem={}\ndeviations={}\nkey={}\nmessage={}\n\n# replay: /verif/check.sh replay {}\n",
            prop, if thorough { "thorough" } else { "quick" }, v.scenario, v.item, devs.join(","), v.key, one_line(&v.msg), path
        ),
    );
    path
}

pub fn read_replay(path: &str) -> Option<(String, bool, Replay)> {
    let s = std::fs::read_to_string(path).ok()?;
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{}=", k)).map(|x| x.to_string())).unwrap_or_default();
    let devs = get("deviations").split(',').filter(|x| !x.is_empty()).map(|x| {
        let (a, b) = x.split_once(':').unwrap();
        (a.parse().unwrap(), b.parse().unwrap(), 0u32)
    }).collect();
    Some((get("property"), get("tier") == "thorough", Replay { scenario: get("scenario"), item: get("item").parse().unwrap_or(0), devs, found: false }))
}

fn report_replay(prop: &str, v: Option<(u32, String, String)>) {
    match v {
        None => println!("replay: property {} held", prop),
        Some((k, key, msg)) => println!("replay: property {} VIOLATED (kind {}) {}: {}", prop, k, key, one_line(&msg)),
    }
}

pub fn load_known(prop: &str) {
    if let Ok(s) = std::fs::read_to_string("/verif/known_findings.txt") {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("finding: property=") {
                let mut it = rest.splitn(3, ' ');
                let p = it.next().unwrap_or("");
                let k = it.next().unwrap_or("");
                if p == prop {
                    known().push(k.trim_start_matches("key=").to_string());
                }
            }
        }
    }
}
