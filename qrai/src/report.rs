//! What a run decided.
/// where the report goes
pub static OUT: std::sync::OnceLock<String> = std::sync::OnceLock::new();

#[derive(Default)]
pub struct Report {
    pub obligations: u64,
    pub decided: u64,
    pub violations: Vec<(String, String, String)>,
    pub undecided: Vec<String>,
    pub notes: Vec<String>,
    pub counters: std::collections::BTreeMap<String, u64>,
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Report {
    pub fn undecided(&mut self, s: &str) {
        self.obligations += 1;
        if self.undecided.len() < 200 {
            self.undecided.push(s.to_string());
        }
    }
    pub fn ok(&mut self) {
        self.obligations += 1;
        self.decided += 1;
    }
    /// `site` is a construct in the source, `what` the contradiction
    pub fn violation(&mut self, site: &str, what: &str) {
        self.violation_with(site, what, "")
    }
    pub fn violation_with(&mut self, site: &str, what: &str, witness: &str) {
        self.obligations += 1;
        self.decided += 1;
        if self.violations.len() < 50 {
            self.violations.push((site.to_string(), what.to_string(), witness.to_string()));
        }
        // a verdict is not lost to the time budget, and a few are enough
        if let Some(p) = OUT.get() {
            std::fs::write(p, self.json()).unwrap();
            if self.violations.len() >= 3 {
                std::process::exit(0);
            }
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_default() += n;
    }
    pub fn json(&self) -> String {
        let v: Vec<String> = self
            .violations
            .iter()
            .map(|(a, b, c)| format!("{{\"site\":{},\"what\":{},\"witness\":{}}}", js(a), js(b), js(c)))
            .collect();
        let u: Vec<String> = self.undecided.iter().map(|a| js(a)).collect();
        let n: Vec<String> = self.notes.iter().map(|a| js(a)).collect();
        let c: Vec<String> = self.counters.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        format!(
            "{{\"obligations\":{},\"decided\":{},\"violations\":[{}],\"undecided\":[{}],\"notes\":[{}],\"counters\":{{{}}}}}\n",
            self.obligations,
            self.decided,
            v.join(","),
            u.join(","),
            n.join(","),
            c.join(",")
        )
    }
}
