//! Collecting the results of a check and writing the evidence file.
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub struct Violation {
    /// stable identity: no line numbers
    pub key: String,
    pub text: String,
}

#[derive(Default)]
pub struct Report {
    pub violations: BTreeMap<String, String>,
    pub obligations: usize,
    pub discharged: usize,
    pub counts: BTreeMap<String, usize>,
    pub samples: BTreeMap<String, Vec<String>>,
    pub rules: BTreeSet<String>,
}

impl Report {
    pub fn violate(&mut self, key: impl Into<String>, text: impl Into<String>) {
        self.violations.entry(key.into()).or_insert(text.into());
    }
    pub fn ob(&mut self, ok: bool) {
        self.obligations += 1;
        if ok {
            self.discharged += 1;
        }
    }
    pub fn count(&mut self, k: &str, n: usize) {
        *self.counts.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn sample(&mut self, k: &str, s: String) {
        let v = self.samples.entry(k.to_string()).or_default();
        if v.len() < 12 && !v.contains(&s) {
            v.push(s);
        }
    }
    pub fn rule(&mut self, s: &str) {
        self.rules.insert(s.to_string());
    }
    /// a count that must not fall below the number confirmed by hand
    pub fn floor(&mut self, k: &str, min: usize) {
        let n = self.counts.get(k).copied().unwrap_or(0);
        if n < min {
            self.violate(format!("floor:{k}"), format!("only {n} instances of `{k}` were found, at least {min} must exist: the analysed code no longer has the anchor this rule decides"));
        }
    }
    pub fn merge(&mut self, o: Report) {
        for (k, v) in o.violations {
            self.violations.entry(k).or_insert(v);
        }
        self.obligations += o.obligations;
        self.discharged += o.discharged;
        for (k, n) in o.counts {
            *self.counts.entry(k).or_insert(0) += n;
        }
        for (k, v) in o.samples {
            for s in v {
                self.sample(&k, s);
            }
        }
        self.rules.extend(o.rules);
    }

    /// prints the verdict, writes evidence; returns the exit code
    pub fn finish(self, prop: &str, level: &str, assumptions: &[&str], explanation: &str, known: &str, evidence: &str, wall: f64) -> i32 {
        let mut known_keys: Vec<(String, String)> = vec![];
        for l in std::fs::read_to_string(known).unwrap_or_default().lines() {
            // known: property=<id> key=<key> :: text
            if let Some(r) = l.strip_prefix(&format!("known: property={prop} key=")) {
                let (k, t) = r.split_once(" :: ").unwrap_or((r, ""));
                known_keys.push((k.trim().to_string(), t.to_string()));
            }
        }
        let mut fresh = vec![];
        let mut listed = vec![];
        for (k, t) in &self.violations {
            match known_keys.iter().find(|x| &x.0 == k) {
                Some((_, what)) => listed.push((k.clone(), what.clone())),
                None => fresh.push((k.clone(), t.clone())),
            }
        }
        for (k, w) in &listed {
            println!("KNOWN-FINDING: property={prop} {w} [{k}]");
        }
        let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
        let mut cov = json!({
            "explanation": explanation,
            "rules": self.rules.iter().collect::<Vec<_>>(),
            "obligations": self.obligations,
            "discharged": self.discharged,
            "counts": self.counts,
            "samples": self.samples,
            "known_findings": listed.iter().map(|x| x.0.clone()).collect::<Vec<_>>(),
        });
        if level == "proof" {
            cov["checker_cmd"] = Value::from(format!("./check.sh {prop}"));
            cov["trusted_base"] = json!(["rustc front end and MIR construction", "the analyser in /verif/engine/scan and its models of core, rayon and the x86 vector operations"]);
        }
        let ev = json!({
            "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
            "assumptions": assumptions, "wall_s": wall,
            "violations": fresh.iter().map(|(k, t)| json!({"key": k, "text": t})).collect::<Vec<_>>(),
        });
        if let Some(d) = std::path::Path::new(evidence).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(evidence, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        println!("{prop}: {} obligations, {} discharged; {:?}", self.obligations, self.discharged, self.counts);
        if fresh.is_empty() {
            return 0;
        }
        let rp = evidence.replace(".json", ".violation.txt");
        let body: String = fresh.iter().map(|(k, t)| format!("{k}\n    {t}\n")).collect();
        let _ = std::fs::write(&rp, &body);
        for (k, t) in fresh.iter().take(40) {
            println!("  {k}\n      {t}");
        }
        println!("VIOLATION property={prop} replay={rp}");
        1
    }
}
