//! The contract files: blocks introduced by lines starting with `=== `.
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    path::Path,
};

#[derive(Default, Clone, Debug)]
pub struct FnContract {
    pub spec: Option<String>,
    pub loops: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, String>,
    pub maps: BTreeMap<usize, String>,
    /// (where, text); where is `start`, `end`, `loop N start|end|after`, `before NAME K`, `after NAME K`
    pub proofs: Vec<(String, String)>,
    pub trusted: Option<String>,
    /// the body is emitted as a free function of this name
    pub detached: Option<String>,
    pub props: Vec<String>,
    pub attrs: Vec<String>,
    /// when the function may panic
    pub panics: Option<String>,
}

#[derive(Default, Clone, Debug)]
pub struct Contracts {
    pub files: Vec<String>,
    /// the module of a file and what else is in it
    pub modules: BTreeMap<String, (String, String)>,
    pub skip: BTreeSet<String>,
    /// title, properties, text
    pub raws: Vec<(String, Vec<String>, String)>,
    pub fns: BTreeMap<String, FnContract>,
    /// extra members of impls, by impl key
    pub members: BTreeMap<String, String>,
    pub opaque: BTreeMap<String, String>,
    /// replaced bounds of associated types, by `TRAIT::TYPE`
    pub bounds: BTreeMap<String, String>,
    /// types whose parameters are printed without their bounds
    pub unbounded: BTreeSet<String>,
    /// the loops, closures and maps of the functions when the annotations were written
    pub shapes: BTreeMap<String, Vec<(String, String)>>,
}

pub fn load(dir: &Path) -> Contracts {
    let mut c = Contracts::default();
    for line in fs::read_to_string(dir.join("shapes.txt")).unwrap_or_default().lines() {
        let mut w = line.splitn(3, '\t');
        let (k, kind, text) = (w.next().unwrap(), w.next().unwrap(), w.next().unwrap());
        c.shapes.entry(k.into()).or_default().push((kind.into(), text.into()));
    }
    let mut paths: Vec<_> = fs::read_dir(dir)
        .expect("contracts dir")
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map(|e| e == "vc").unwrap_or(false))
        .collect();
    paths.sort();
    for p in paths {
        let text = fs::read_to_string(&p).unwrap();
        let mut head: Option<String> = None;
        let mut body = String::new();
        for line in text.lines() {
            if let Some(h) = line.strip_prefix("=== ") {
                if let Some(h0) = head.take() {
                    add(&mut c, &h0, &body);
                }
                head = Some(h.trim().to_string());
                body.clear();
            } else {
                body.push_str(line);
                body.push('\n');
            }
        }
        if let Some(h0) = head.take() {
            add(&mut c, &h0, &body);
        }
    }
    c
}

fn add(c: &mut Contracts, head: &str, body: &str) {
    let mut w = head.splitn(2, ' ');
    let kind = w.next().unwrap();
    let rest = w.next().unwrap_or("").trim().to_string();
    match kind {
        // FILE [in MODULE]: the names of the file stay in a module of their own
        "file" => match rest.split_once(" in ") {
            Some((f, m)) => {
                c.modules.insert(f.to_string(), (m.to_string(), body.to_string()));
                c.files.push(f.to_string())
            }
            None => c.files.push(rest),
        },
        "skip" => {
            c.skip.insert(rest);
            for l in body.lines() {
                let l = l.trim();
                if !l.is_empty() && !l.starts_with("//") {
                    c.skip.insert(l.to_string());
                }
            }
        }
        "raw" => {
            let (title, props) = match rest.split_once(" @props ") {
                Some((a, b)) => (a.to_string(), b.split_whitespace().map(|s| s.to_string()).collect()),
                None => (rest.clone(), vec![]),
            };
            c.raws.push((title.clone(), props, format!("// ---- {title}\n{body}")))
        }
        "member" => {
            c.members.insert(rest, body.to_string());
        }
        "bounds" => {
            c.bounds.insert(rest, body.trim().to_string());
        }
        "unbounded" => {
            c.unbounded.insert(rest);
        }
        "opaque" => {
            c.opaque.insert(rest, body.trim().to_string());
        }
        "fn" => {
            // KEY [| what]
            let (key, what) = match rest.split_once(" | ") {
                Some((a, b)) => (a.trim().to_string(), b.trim().to_string()),
                None => (rest.clone(), String::new()),
            };
            let f = c.fns.entry(key.clone()).or_default();
            let ws: Vec<&str> = what.split_whitespace().collect();
            if ws.is_empty() {
                let mut spec = String::new();
                for l in body.lines() {
                    if let Some(p) = l.trim().strip_prefix("@props ") {
                        f.props.extend(p.split_whitespace().map(|s| s.to_string()));
                    } else if let Some(p) = l.trim().strip_prefix("@attr ") {
                        f.attrs.push(p.to_string());
                    } else if let Some(p) = l.trim().strip_prefix("@panics ") {
                        f.panics = Some(p.to_string());
                    } else if let Some(p) = l.trim().strip_prefix("@trusted ") {
                        f.trusted = Some(p.to_string());
                    } else if let Some(p) = l.trim().strip_prefix("@detached ") {
                        f.detached = Some(p.to_string());
                        f.trusted = Some(format!("its body is verified as the free function {p}"));
                    } else {
                        spec.push_str(l);
                        spec.push('\n');
                    }
                }
                f.spec = Some(spec);
                return;
            }
            match (ws[0], ws.len()) {
                ("loop", 2) => {
                    f.loops.insert(ws[1].parse().unwrap(), body.to_string());
                }
                ("closure", 2) => {
                    f.closures.insert(ws[1].parse().unwrap(), body.trim().to_string());
                }
                ("map", 3) => {
                    f.maps.insert(ws[1].parse().unwrap(), ws[2].to_string());
                }
                ("proof", _) => f.proofs.push((ws[1..].join(" "), body.to_string())),
                _ => panic!("bad contract header: {head}"),
            }
        }
        "note" => (),
        _ => panic!("bad contract header: {head}"),
    }
}
