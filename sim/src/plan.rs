//! A plan is one simulated execution: timestamped steps with explicit arguments.  Its text is the replay file.
use std::fmt::Write as _;

pub const OPS: &[&str] = &[
    "new", "enc", "rewind", "dec", "drain", "seek", "save", "load", "count", "bound", "info", "wnew", "wenc", "wdec",
    "wdrain", "wseek", "wsave", "wload", "wforeign", "cut", "poke", "fill", "move", "field", "garbage", "splice", "number", "stretch", "long", "wlong", "next", "par", "savecrash", "recover", "final", "thread",
    "skew", "skewseek", "cost", "size", "cycle", "frames", "frame", "raw", "reinit", "mark", "back", "play", "one", "store", "crash", "hdr", "past", "sinfo", "node",
    "cliin", "clibad", "cliarg", "clifault", "clicrash", "clisched", "clistage",
];
pub const KEYS: &[&str] = &[
    "s", "ch", "rate", "level", "how", "sig", "seed", "amp", "n", "x", "buf", "ms", "f", "ios", "short", "intr", "fail",
    "kind", "cap", "sfail", "once", "keep", "off", "val", "len", "to", "w", "lo", "hi", "t", "pre", "post", "bits", "a", "b", "trail", "as", "dot", "part",
];

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub t: u64,
    pub op: &'static str,
    pub kv: Vec<(&'static str, i64)>,
}
impl Step {
    pub fn new(t: u64, op: &'static str, kv: &[(&'static str, i64)]) -> Step {
        debug_assert!(OPS.contains(&op) && kv.iter().all(|e| KEYS.contains(&e.0)), "{op} {kv:?}");
        Step { t, op, kv: kv.to_vec() }
    }
    pub fn get(&self, k: &str) -> i64 {
        self.kv.iter().find(|e| e.0 == k).map(|e| e.1).unwrap_or(0)
    }
    pub fn opt(&self, k: &str, d: i64) -> i64 {
        self.kv.iter().find(|e| e.0 == k).map(|e| e.1).unwrap_or(d)
    }
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub index: u64,
    pub steps: Vec<Step>,
    pub notes: Vec<String>,
}
impl Plan {
    pub fn text(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "dst-plan 1");
        let _ = writeln!(s, "prop {}", self.prop);
        let _ = writeln!(s, "seed {}", self.seed);
        let _ = writeln!(s, "index {}", self.index);
        for n in &self.notes {
            let _ = writeln!(s, "# {}", n.replace('\n', " "));
        }
        for st in &self.steps {
            let _ = write!(s, "@{} {}", st.t, st.op);
            for (k, v) in &st.kv {
                let _ = write!(s, " {k}={v}");
            }
            s.push('\n');
        }
        s
    }
    pub fn parse(text: &str) -> Result<Plan, String> {
        let mut p = Plan::default();
        for (i, l) in text.lines().enumerate() {
            let err = |m: &str| format!("line {}: {m}: {l}", i + 1);
            if let Some(r) = l.strip_prefix("prop ") {
                p.prop = r.trim().into();
            } else if let Some(r) = l.strip_prefix("seed ") {
                p.seed = r.trim().parse().map_err(|_| err("seed"))?;
            } else if let Some(r) = l.strip_prefix("index ") {
                p.index = r.trim().parse().map_err(|_| err("index"))?;
            } else if let Some(r) = l.strip_prefix("# ") {
                p.notes.push(r.into());
            } else if let Some(r) = l.strip_prefix('@') {
                let mut it = r.split_whitespace();
                let t = it.next().and_then(|x| x.parse().ok()).ok_or_else(|| err("time"))?;
                let opn = it.next().ok_or_else(|| err("op"))?;
                let op = OPS.iter().find(|o| **o == opn).ok_or_else(|| err("unknown op"))?;
                let mut kv = vec![];
                for w in it {
                    let (k, v) = w.split_once('=').ok_or_else(|| err("k=v"))?;
                    let k = KEYS.iter().find(|o| **o == k).ok_or_else(|| err("unknown key"))?;
                    kv.push((*k, v.parse().map_err(|_| err("value"))?));
                }
                p.steps.push(Step { t, op, kv });
            }
        }
        if p.prop.is_empty() {
            return Err("no prop line".into());
        }
        Ok(p)
    }
}
