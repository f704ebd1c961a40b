//! The contract database: /verif/contracts/*.vc
use std::collections::BTreeMap;

#[derive(Clone, Default, Debug)]
pub struct Contract {
    pub attrs: String,
    pub ret: String,
    pub spec: String,
    pub spec_in_trait: bool,
    pub generics: String,
    /// R19: erased ghost parameter of the function / ghost argument added at its calls
    pub ghostparam: String,
    pub ghostarg: String,
    pub loops: BTreeMap<usize, String>,
    /// (where, loop number, text); where: start end before body tail after
    pub at: Vec<(String, usize, String)>,
    /// (before|after, needle, ordinal, text)
    pub needle: Vec<(String, String, usize, String)>,
    /// binder names of the unchanged tree, in order
    pub binders: Vec<String>,
    /// binder names after the rewriting on the unchanged tree (accumulators and temporaries included), in order
    pub post: Vec<String>,
    /// counters of the loops over ranges -> their initial value or bound on the unchanged tree
    pub bounds: BTreeMap<String, String>,
    pub nloops: Option<usize>,
    pub loopkinds: Vec<String>,
    pub callees: Vec<String>,
    /// loop number -> outer variables the loop uses on the unchanged tree
    pub outer: BTreeMap<String, Vec<String>>,
}

#[derive(Default)]
pub struct Db {
    pub fns: BTreeMap<String, Contract>,
    pub impls: BTreeMap<String, String>,
    pub items: BTreeMap<String, String>,
    pub implhdr: BTreeMap<String, String>,
}

pub fn load(dir: &str) -> Db {
    let mut db = Db::default();
    let mut files: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |e| e == "vc")).collect();
    files.sort();
    for p in files {
        let s = std::fs::read_to_string(&p).unwrap();
        let mut sect: Vec<String> = vec![];
        let mut text = String::new();
        let mut cur_fn = String::new();
        let flush = |sect: &Vec<String>, text: &str, cur_fn: &mut String, db: &mut Db| {
            if sect.is_empty() { return; }
            let t = text.trim_end().to_string();
            match sect[0].as_str() {
                "fn" => { *cur_fn = sect[1].clone(); db.fns.entry(cur_fn.clone()).or_default(); }
                "impl" => { db.impls.insert(sect[1].clone(), t); }
                "implhdr" => { db.implhdr.insert(sect[1].clone(), t); }
                "item" => { db.items.insert(sect[1].clone(), t); }
                _ => {
                    let c = db.fns.get_mut(cur_fn.as_str()).unwrap_or_else(|| panic!("section {:?} outside @fn", sect));
                    match sect[0].as_str() {
                        "ret" => c.ret = sect[1].clone(),
                        "attrs" => c.attrs = t,
                        "generics" => c.generics = t,
                        "spec" => c.spec = t,
                        "ghostparam" => c.ghostparam = sect[1..].join(" "),
                        "ghostarg" => c.ghostarg = sect[1..].join(" "),
                        "traitspec" => c.spec_in_trait = true,
                        "loop" => { c.loops.insert(sect[1].parse().unwrap(), t); }
                        "at" => { let n = sect.get(2).map_or(0, |x| x.parse().unwrap()); c.at.push((sect[1].clone(), n, t)); }
                        "after" | "before" => {
                            let rest = sect[1..].join(" ");
                            let (a, b) = (rest.find('"').unwrap(), rest.rfind('"').unwrap());
                            let needle = rest[a + 1..b].split_whitespace().collect::<String>();
                            let n = rest[b + 1..].trim().parse().unwrap_or(1);
                            c.needle.push((sect[0].clone(), needle, n, t));
                        }
                        x => panic!("unknown section @{} in {:?}", x, p),
                    }
                }
            }
        };
        for l in s.lines() {
            if let Some(r) = l.strip_prefix('@') {
                flush(&sect, &text, &mut cur_fn, &mut db);
                sect = r.split_whitespace().map(|x| x.to_string()).collect();
                text.clear();
                if sect[0] == "fn" { flush(&sect, "", &mut cur_fn, &mut db); sect = vec![]; }
            } else if !l.trim_start().starts_with("##") {
                text.push_str(l);
                text.push('\n');
            }
        }
        flush(&sect, &text, &mut cur_fn, &mut db);
    }
    if let Ok(s) = std::fs::read_to_string(format!("{}/baseline.json", dir)) {
        let v: serde_json::Value = serde_json::from_str(&s).unwrap();
        for (id, b) in v.as_object().unwrap() {
            if let Some(c) = db.fns.get_mut(id) {
                let l = |k: &str| b[k].as_array().map(|x| x.iter().map(|y| y.as_str().unwrap().to_string()).collect::<Vec<_>>()).unwrap_or_default();
                c.binders = l("binders");
                c.post = l("post");
                c.loopkinds = l("loops");
                c.callees = l("callees");
                if let Some(o) = b["outer"].as_object() { for (n, vs) in o { c.outer.insert(n.clone(), vs.as_array().unwrap().iter().map(|y| y.as_str().unwrap().to_string()).collect()); } }
                if let Some(o) = b["bounds"].as_object() { for (n, v) in o { c.bounds.insert(n.clone(), v.as_str().unwrap().to_string()); } }
                c.nloops = Some(c.loopkinds.len());
            }
        }
    }
    db
}
