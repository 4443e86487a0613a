//! Unit spec files. A line starting with '@' in column 0 opens a section, which runs to the next one.
use crate::Res;
use std::collections::BTreeSet;
use std::path::Path;

#[derive(Default, Clone)]
pub struct FnSpec {
    pub key: String,
    pub params: Vec<String>, // contract names of the non-self parameters, in order
    pub ret: String,
    pub contract: String,
    pub attrs: String,
    pub loops: Vec<(usize, String)>,
    pub hints: Vec<(String, String)>, // (anchor, text)
    pub nloops: Option<usize>,
    pub optional: bool, // the loops may be gone: the contract is to follow without them
    pub assumed: Option<String>, // contract proved in that unit, imported here
}

#[derive(Default)]
pub struct Unit {
    pub sources: Vec<String>,
    pub mono: Option<String>,
    pub fns: Vec<FnSpec>,
    pub preludes: Vec<(String, String)>, // file name (or empty), text; a file is included once
    pub local: String, // prelude text that a unit assuming this one does not get
    pub epilogue: String,
    pub include: BTreeSet<String>,
    pub exclude: BTreeSet<String>,
    pub calls: Vec<(String, String)>,   // method or path -> shim function taking receiver first
    pub types: Vec<(String, String)>,   // token-level type replacement
    pub opts: BTreeSet<String>,
    pub tasks: Vec<(String, String)>, // function#n, parameters
    pub timed: Vec<String>,           // outside operations that take the world
}

impl Unit {
    fn add_prelude(&mut self, k: &str, t: String) {
        if !k.is_empty() && self.preludes.iter().any(|(a, _)| a == k) {
            return;
        }
        self.preludes.push((k.to_string(), t));
    }
    pub fn prelude(&self) -> String {
        self.preludes.iter().map(|(_, t)| t.clone() + "\n").collect()
    }
}

pub fn parse(p: &Path) -> Res<Unit> {
    let text = std::fs::read_to_string(p).map_err(|e| format!("{}: {}", p.display(), e))?;
    let mut u = Unit::default();
    let mut sections: Vec<(String, String)> = vec![];
    // `?012 text`: a line for the usual form (0) and for those other forms of annotation, tried when it does not fit
    let form = std::env::var("PLUSENDI_FORM").unwrap_or_else(|_| "0".into());
    for line in text.lines() {
        let line = match line.strip_prefix('?').and_then(|l| l.split_once(' ')) {
            Some((forms, rest)) if forms.contains(&form) => rest,
            Some(_) => continue,
            None => line,
        };
        if let Some(h) = line.strip_prefix('@') {
            sections.push((h.trim().to_string(), String::new()));
        } else if let Some(last) = sections.last_mut() {
            last.1.push_str(line);
            last.1.push('\n');
        }
    }
    for (h, body) in sections {
        let (kw, arg) = match h.split_once(' ') {
            Some((a, b)) => (a.to_string(), b.trim().to_string()),
            None => (h.clone(), String::new()),
        };
        match kw.as_str() {
            "source" => {
                if !u.sources.contains(&arg) {
                    u.sources.push(arg)
                }
            }
            // contracts proved in another unit: its prelude and its functions' contracts, without their bodies
            "assume" => {
                let o = parse(&p.parent().unwrap().join(&arg))?;
                for x in o.sources {
                    if !u.sources.contains(&x) {
                        u.sources.push(x);
                    }
                }
                if u.mono.is_none() {
                    u.mono = o.mono;
                }
                u.calls.extend(o.calls);
                u.types.extend(o.types);
                u.opts.extend(o.opts);
                u.include.extend(o.include);
                u.exclude.extend(o.exclude);
                for (k, t) in o.preludes {
                    u.add_prelude(&k, t);
                }
                for mut f in o.fns {
                    if f.assumed.is_none() {
                        f.assumed = Some(arg.clone());
                    }
                    f.loops.clear();
                    f.hints.clear();
                    f.nloops = None;
                    if !u.fns.iter().any(|g| g.key == f.key) {
                        u.fns.push(f);
                    }
                }
            }
            "local" => u.local.push_str(&body),
            "mono" => u.mono = Some(arg),
            "task" => {
                let (a, b) = arg.split_once(" => ").ok_or("bad @task")?;
                u.tasks.push((a.trim().into(), b.trim().into()));
            }
            "timed" => u.timed.extend(arg.split_whitespace().map(String::from)),
            "opt" => {
                u.opts.insert(arg);
            }
            "include" => u.include.extend(arg.split_whitespace().map(String::from)),
            "exclude" => u.exclude.extend(arg.split_whitespace().map(String::from)),
            "call" => {
                let (a, b) = arg.split_once(" => ").ok_or("bad @call")?;
                // before those of assumed units, which apply to no body here
                u.calls.insert(0, (a.trim().into(), b.trim().into()));
            }
            "type" => {
                let (a, b) = arg.split_once(" => ").ok_or("bad @type")?;
                u.types.push((a.trim().into(), b.trim().into()));
            }
            "prelude" => {
                if arg.is_empty() {
                    u.add_prelude("", body)
                } else {
                    let f = p.parent().unwrap().join(&arg);
                    let t = std::fs::read_to_string(&f).map_err(|e| format!("{}: {}", f.display(), e))?;
                    u.add_prelude(&arg, t);
                    u.add_prelude("", body);
                }
            }
            "epilogue" => {
                if !arg.is_empty() {
                    let f = p.parent().unwrap().join(&arg);
                    let t = std::fs::read_to_string(&f).map_err(|e| format!("{}: {}", f.display(), e))?;
                    u.epilogue.push_str(&t);
                    u.epilogue.push('\n');
                }
                u.epilogue.push_str(&body)
            }
            "fn" => {
                // KEY(params) [ret=name] [loops=n]
                let mut parts = arg.split_whitespace();
                let mut f = FnSpec { ret: "ret".into(), ..Default::default() };
                let mut sig = String::new();
                for p in parts.by_ref() {
                    if let Some(r) = p.strip_prefix("ret=") {
                        f.ret = r.into();
                    } else if let Some(r) = p.strip_prefix("loops=") {
                        f.optional = r.starts_with("0|");
                        f.nloops = Some(r.trim_start_matches("0|").parse().map_err(|_| "bad loops=")?);
                    } else {
                        sig.push_str(p);
                    }
                }
                let (k, ps) = sig.split_once('(').ok_or_else(|| format!("bad @fn {}", arg))?;
                f.key = k.to_string();
                f.params = ps.trim_end_matches(')').split(',').filter(|s| !s.is_empty()).map(String::from).collect();
                f.contract = body;
                u.fns.push(f);
            }
            "attr" => {
                let f = u.fns.last_mut().ok_or("@attr before @fn")?;
                f.attrs.push_str(&arg);
                f.attrs.push('\n');
            }
            "loop" => {
                let f = u.fns.last_mut().ok_or("@loop before @fn")?;
                f.loops.push((arg.parse().map_err(|_| "bad @loop")?, body));
            }
            "hint" => {
                let f = u.fns.last_mut().ok_or("@hint before @fn")?;
                f.hints.push((arg, body));
            }
            "#" => {}
            _ => return Err(format!("unknown section @{}", kw)),
        }
    }
    if u.opts.contains("nom") {
        // predicates on bytes
        for (m, f) in [
            ("graphic", "graphic"), ("uppercase", "upper"), ("digit", "digit"), ("lowercase", "lower"), ("alphabetic", "alpha"),
            ("alphanumeric", "alnum"), ("hexdigit", "hexdigit"), ("control", "control"), ("whitespace", "space"), ("punctuation", "punct"),
        ] {
            u.calls.push((format!(".is_ascii_{}", m), format!("&u8_is_{}", f)));
        }
        u.calls.push((".is_ascii".into(), "&u8_is_ascii".into()));
        u.calls.push((".eq_ignore_ascii_case".into(), "&u8_eq_fold".into()));
    }
    Ok(u)
}
