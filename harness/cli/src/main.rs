//! Runs the command line: every command in a scratch directory of the case, with its output split into lines and fields.
#[path = "../../core/src/common.rs"]
#[allow(dead_code)]
mod common;
use common::*;
use serde_json::{json, Value};
use std::fs::File;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

struct Done {
    rc: i64,
    out: Vec<u8>,
    err: Vec<u8>,
}
fn file(p: &Path, data: &[u8]) {
    File::create(p).and_then(|mut f| f.write_all(data)).expect("HARNESS: scratch file");
}
/// runs the command line in the directory; a command that does not end within 15 s is stopped
fn run(dir: &Path, args: &[String], input: &[u8]) -> Done {
    let bin = format!("{}.rustomata", std::env::current_exe().expect("HARNESS: exe").display());
    file(&dir.join("in"), input);
    let open = |n: &str| Stdio::from(File::create(dir.join(n)).expect("HARNESS: scratch file"));
    let mut p = Command::new(bin)
        .args(args)
        .current_dir(dir)
        .env("RUST_BACKTRACE", "0")
        .stdin(File::open(dir.join("in")).expect("HARNESS: scratch file"))
        .stdout(open("out"))
        .stderr(open("err"))
        .spawn()
        .expect("HARNESS: spawn");
    let t = Instant::now();
    let rc = loop {
        match p.try_wait().expect("HARNESS: wait") {
            Some(st) => break i64::from(st.code().unwrap_or(-1)),
            None if t.elapsed() > Duration::from_secs(15) => {
                let _ = p.kill();
                let _ = p.wait();
                break -2;
            }
            None => std::thread::sleep(Duration::from_millis(1)),
        }
    };
    let get = |n: &str| {
        let mut v = Vec::new();
        File::open(dir.join(n)).and_then(|mut f| f.read_to_end(&mut v)).expect("HARNESS: scratch file");
        v
    };
    Done { rc, out: get("out"), err: get("err") }
}
/// lines of fields
fn table(b: &[u8], sep: char) -> Vec<Vec<String>> {
    let t = String::from_utf8_lossy(b);
    let mut ls: Vec<Vec<String>> = t.split('\n').map(|l| l.split(sep).filter(|f| sep == '\t' || !f.is_empty()).map(|f| f.to_string()).collect()).collect();
    if t.ends_with('\n') || t.is_empty() {
        ls.pop();
    }
    ls
}
/// an input line: blanks between the words
fn sentence(v: &Value, names: &[String], st: &Value) -> String {
    let toks = strings(&v["toks"]);
    let mut fs: Vec<String> = Vec::new();
    if st["ids"] == true {
        fs.push(i(v, "id").to_string());
    }
    for (k, x) in ints(&v["word"]).iter().enumerate() {
        let w = &names[*x as usize - 1];
        fs.push(if st["pos"] == true { format!("{}/{}", toks[k], w) } else { w.clone() });
    }
    fs.join(s(v, "blank"))
}
fn grammar(case: &Value, names: &[String]) -> String {
    let rule = |r: &Value| {
        let letter = |x: &Value| match x[0].as_str() {
            Some("T") => format!("T \"{}\"", names[x[1].as_u64().expect("HARNESS: letter") as usize - 1]),
            _ => format!("Var {} {}", x[1], x[2]),
        };
        let comp: Vec<String> = a(r, "comp").iter().map(|c| format!("[{}]", c.as_array().expect("HARNESS: comp").iter().map(letter).collect::<Vec<_>>().join(", "))).collect();
        format!("{} → [{}] ({}) # {:?}", s(r, "head"), comp.join(", "), strings(&r["tail"]).join(", "), (2f64).powf(-(i(r, "e") as f64) / i(case, "unit") as f64))
    };
    let mut t = format!("initial: [{}]\n\n", s(case, "init"));
    for r in a(case, "rules") {
        t += &rule(r);
        t.push('\n');
    }
    t
}
fn gzip(data: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::best());
    e.write_all(data).and_then(|_| e.finish()).expect("HARNESS: gzip")
}
/// the files of a disco-dop grammar: constituents and lexicon
fn disco(case: &Value, names: &[String]) -> (String, String) {
    let (mut g, mut lex) = (Vec::new(), Vec::<(String, String)>::new());
    for (r, c) in a(case, "rules").iter().zip(strings(&case["counts"])) {
        let x = &r["comp"][0][0];
        if x[0] == "T" {
            let (w, e) = (&names[x[1].as_u64().expect("HARNESS: letter") as usize - 1], format!("{} {}", s(r, "head"), c));
            match lex.iter_mut().find(|y| y.0 == *w) {
                Some(y) => y.1 += &format!("\t{}", e),
                None => lex.push((w.clone(), e)),
            }
        } else {
            let y: Vec<String> = a(r, "comp").iter().map(|u| u.as_array().expect("HARNESS: comp").iter().map(|v| v[1].to_string()).collect()).collect();
            g.push(format!("{}\t{}\t{}\t{}", s(r, "head"), strings(&r["tail"]).join("\t"), y.join(","), c));
        }
    }
    (g.join("\n") + "\n", lex.iter().map(|(w, e)| format!("{}\t{}", w, e)).collect::<Vec<_>>().join("\n") + "\n")
}
fn cli(case: &Value, rec: &Rec, dir: &Path) {
    let names = strings(&case["names"]);
    let g = grammar(case, &names);
    file(&dir.join("g"), g.as_bytes());
    file(&dir.join("g.gz"), &gzip(g.as_bytes()));
    let mode = s(case, "disco");
    let (dg, lex) = if mode.is_empty() { (String::new(), String::new()) } else { disco(case, &names) };
    file(&dir.join("d"), dg.as_bytes());
    file(&dir.join("d.gz"), &gzip(dg.as_bytes()));
    file(&dir.join("lex"), lex.as_bytes());
    file(&dir.join("lex.gz"), &gzip(lex.as_bytes()));
    for st in a(case, "steps") {
        let mut args: Vec<String> = Vec::new();
        let mut input = String::new();
        let add = |a: &mut Vec<String>, xs: &[&str]| a.extend(xs.iter().map(|x| x.to_string()));
        let flag = |k: &str| st[k] == true;
        let opts = |a: &mut Vec<String>, list: &[(&str, &str)]| {
            for (k, o) in list {
                if i(st, k) >= 0 {
                    a.push(o.to_string());
                    a.push(st[*k].to_string());
                }
            }
        };
        if st.get("lines").is_some() {
            for l in a(st, "lines") {
                input += &sentence(l, &names, st);
                input.push('\n');
            }
            if flag("open") {
                input.pop();
            }
        }
        match s(st, "op") {
            "extract" => {
                add(&mut args, &["csparsing", "extract"]);
                opts(&mut args, &[("est", "-s")]);
                // zipped is the default for disco-dop grammars only
                let zip = flag("zip");
                if flag("said") || zip == mode.is_empty() {
                    add(&mut args, &[if zip { "-z" } else { "--unzipped" }]);
                }
                if !mode.is_empty() {
                    add(&mut args, &["-d"]);
                }
                if mode == "lexer" {
                    add(&mut args, &["-l", if zip { "lex.gz" } else { "lex" }]);
                }
                let from = match (mode.is_empty(), zip) {
                    (true, true) => "g.gz",
                    (true, false) => "g",
                    (false, true) => "d.gz",
                    (false, false) => "d",
                };
                let mut data = Vec::new();
                if flag("stdin") {
                    File::open(dir.join(from)).and_then(|mut f| f.read_to_end(&mut data)).expect("HARNESS: scratch file");
                } else {
                    add(&mut args, &[from]);
                }
                let d = run(dir, &args, &data);
                file(&dir.join("cs"), &d.out);
                rec.ev(json!({"op": "extract", "rc": d.rc}));
            }
            "parse" => {
                add(&mut args, &["csparsing", "parse", "cs"]);
                opts(&mut args, &[("k", "-k"), ("beam", "-b"), ("cand", "-c")]);
                for (k, o) in &[("ids", "-l"), ("pos", "-p"), ("debug", "-d"), ("fall", "-f")] {
                    if flag(k) {
                        args.push(o.to_string());
                    }
                }
                if i(st, "delta") >= 0 {
                    args.push("-t".to_string());
                    args.push(format!("{:?}", (2f64).powi(-(i(st, "delta") as i32))));
                }
                let d = run(dir, &args, input.as_bytes());
                let mut e = st.clone();
                e["rc"] = json!(d.rc);
                e["out"] = json!(table(&d.out, '\t'));
                e["err"] = json!(if flag("debug") { table(&d.err, ' ') } else { Vec::new() });
                rec.ev(e);
            }
            "mcfg" => {
                add(&mut args, &["mcfg", "parse", "g", "--negra"]);
                opts(&mut args, &[("k", "-n"), ("beam", "-b")]);
                let d = run(dir, &args, input.as_bytes());
                let mut e = st.clone();
                e["rc"] = json!(d.rc);
                e["out"] = json!(table(&d.out, '\t'));
                rec.ev(e);
            }
            _ => panic!("HARNESS: op"),
        }
    }
}
/// the name of a letter, and the letter of a name (0: none)
struct Letters(Vec<(i64, String)>);
impl Letters {
    fn of(case: &Value) -> Self {
        Letters(a(case, "letters").iter().map(|x| (x[0].as_i64().expect("HARNESS: letter"), x[1].as_str().expect("HARNESS: name").to_string())).collect())
    }
    fn name(&self, x: i64) -> &str {
        &self.0.iter().find(|y| y.0 == x).expect("HARNESS: letter").1
    }
    fn number(&self, n: &str) -> i64 {
        self.0.iter().find(|y| y.1 == n).map_or(0, |y| y.0)
    }
}
fn weight(w: &Value) -> String {
    format!("{:?}", w[0].as_f64().expect("HARNESS: weight") / (2f64).powi(w[1].as_i64().expect("HARNESS: weight") as i32))
}
fn nt(x: &Value) -> String {
    format!("N{}", x)
}
fn quoted(t: &str) -> Vec<String> {
    // texts between quotation marks, escapes resolved
    let (mut out, mut cur, mut cs) = (Vec::new(), None::<String>, t.chars());
    while let Some(c) = cs.next() {
        match (&mut cur, c) {
            (None, '"') => cur = Some(String::new()),
            (None, _) => (),
            (Some(_), '"') => out.push(cur.take().unwrap_or_default()),
            (Some(x), '\\') => x.extend(cs.next()),
            (Some(x), c) => x.push(c),
        }
    }
    out
}
fn cfg_text(case: &Value, l: &Letters) -> String {
    let g = &case["g"];
    let mut t = format!("initial: [{}]\n\n", a(g, "init").iter().map(nt).collect::<Vec<_>>().join(", "));
    for r in a(g, "rules") {
        let xs: Vec<String> = a(r, "comp").iter().map(|x| if x[0] == "N" { format!("Nt {}", nt(&x[1])) } else { format!("T \"{}\"", l.name(x[1].as_i64().expect("HARNESS: letter"))) }).collect();
        t += &format!("{} → [{}]  # {}\n", nt(&r["head"]), xs.join(", "), weight(&r["w"]));
    }
    t
}
/// the texts of the rules: without and with weight
fn pmcfg_rules(case: &Value, l: &Letters) -> Vec<(String, String)> {
    a(&case["g"], "rules")
        .iter()
        .map(|r| {
            let comp: Vec<String> = a(r, "comp")
                .iter()
                .map(|c| {
                    let xs: Vec<String> = c.as_array().expect("HARNESS: comp").iter().map(|x| if x[0] == "V" { format!("Var {} {}", x[1], x[2]) } else { format!("T \"{}\"", l.name(x[1].as_i64().expect("HARNESS: letter"))) }).collect();
                    format!("[{}]", xs.join(", "))
                })
                .collect();
            let q = |x: &Value| format!("\"{}\"", nt(x));
            let t = format!("{} → [{}] ({})", q(&r["head"]), comp.join(", "), a(r, "tail").iter().map(q).collect::<Vec<_>>().join(", "));
            (t.clone(), format!("{} # {}", t, weight(&r["w"])))
        })
        .collect()
}
fn tsa_text(case: &Value, l: &Letters) -> String {
    let st = |x: &Value| format!("q{}", x);
    let mut t = format!("initial: {}\n\n", st(&case["init"]));
    for tr in a(case, "trans") {
        let w: Vec<String> = tr[0].as_array().expect("HARNESS: word").iter().map(|x| format!("\"{}\"", l.name(x.as_i64().expect("HARNESS: letter")))).collect();
        let i = &tr[2];
        let ins = match i[0].as_str() {
            Some("Up") => format!("Up {} {} {} {}", i[1], st(&i[2]), st(&i[3]), st(&i[4])),
            Some("Push") => format!("Push {} {} {}", i[1], st(&i[2]), st(&i[3])),
            _ => format!("Down {} {} {}", st(&i[1]), st(&i[2]), st(&i[3])),
        };
        t += &format!("Transition [{}] ({})  # {}\n", w.join(", "), ins, weight(&tr[1]));
    }
    t
}
/// in units of 2^-24
fn units(p: f64) -> i64 {
    let x = p * (1 << 24) as f64;
    if x.is_finite() && x < 2e9 { x.round() as i64 } else { -1 }
}
fn number(t: &str) -> f64 {
    t.trim().parse().unwrap_or(f64::NAN)
}
/// all numbers that LogDomain(..) shows: what follows each of them, too
fn logs(t: &str) -> Vec<f64> {
    t.split("LogDomain(").skip(1).map(|x| number(x.split(')').next().unwrap_or("")).exp()).collect()
}
/// `Transition { word: .., weight: LogDomain(..), instruction: .. }`, the last one first
fn run_of(t: &str, l: &Letters) -> Value {
    let mut ts: Vec<Value> = Vec::new();
    for chunk in t.split("Transition { word: ").skip(1) {
        let (word, rest) = chunk.split_at(chunk.find(", weight: LogDomain(").unwrap_or(0));
        let ins = rest.split("instruction: ").nth(1).unwrap_or("");
        let ins = &ins[..ins.find('}').unwrap_or(0)];
        let name = ins.split(' ').next().unwrap_or("");
        let mut i: Vec<Value> = vec![json!(name)];
        if let Some(n) = ins.split(" n: ").nth(1) {
            i.push(json!(n.split(|c: char| !c.is_ascii_digit()).next().and_then(|x| x.parse::<i64>().ok()).unwrap_or(-1)));
        }
        i.extend(quoted(ins).iter().map(|q| json!(q.trim_start_matches('q').parse::<i64>().unwrap_or(-1))));
        let w: Vec<i64> = quoted(word).iter().map(|x| l.number(x)).collect();
        ts.push(json!([w, units(logs(rest).first().cloned().unwrap_or(f64::NAN)), i]));
    }
    ts.reverse();
    json!(ts)
}
/// a tree of rules with a pointer: <<address, <<rule, component, position>>>>
fn tree_of(ls: &[&str], rules: &[(String, String)]) -> Value {
    let mut at: Vec<i64> = Vec::new();
    let mut out: Vec<Value> = Vec::new();
    for l in ls {
        if let Some(p) = l.find("+-") {
            let depth = l[..p].matches('|').count();
            let mut it = l[p + 2..].splitn(2, ": ");
            at.truncate(depth);
            at.push(it.next().and_then(|x| x.parse().ok()).unwrap_or(-1));
            let v = it.next().unwrap_or("");
            let v = v.strip_prefix('(').and_then(|v| v.strip_suffix(')')).unwrap_or("");
            let f: Vec<&str> = v.rsplitn(3, ", ").collect();
            let (r, w) = f.get(2).map_or(("", f64::NAN), |x| {
                let k = x.rfind("  # ").unwrap_or(0);
                (&x[..k], number(x[k..].trim_start_matches(' ').trim_start_matches('#')))
            });
            let num = |k: usize| f.get(k).and_then(|x| x.parse::<i64>().ok()).unwrap_or(-1);
            let rule = rules.iter().position(|x| x.0 == r).map_or(0, |k| k + 1);
            out.push(json!([at.clone(), ["P", rule, num(1), num(0)], units(w)]));
        }
    }
    json!(out)
}
fn runs(case: &Value, rec: &Rec, dir: &Path) {
    let l = Letters::of(case);
    let kind = s(case, "kind");
    let approx = case["what"] == "approx";
    let rules = if kind == "pmcfg" { pmcfg_rules(case, &l) } else { Vec::new() };
    let text = match kind {
        "cfg" => cfg_text(case, &l),
        "tsa" => tsa_text(case, &l),
        _ => format!("initial: [{}]\n\n{}\n", a(&case["g"], "init").iter().map(nt).collect::<Vec<_>>().join(", "), rules.iter().map(|r| r.1.clone()).collect::<Vec<_>>().join("\n")),
    };
    file(&dir.join("g"), text.as_bytes());
    if approx && kind == "cfg" {
        let ps = case["chain"][0][1].as_array().expect("HARNESS: classes");
        let mut cls: Vec<(i64, Vec<String>)> = Vec::new();
        for p in ps {
            let c = p[1].as_i64().expect("HARNESS: class");
            match cls.iter_mut().find(|x| x.0 == c) {
                Some(x) => x.1.push(nt(&p[0])),
                None => cls.push((c, vec![nt(&p[0])])),
            }
        }
        let star = case["star"] == true;
        let mut t = String::new();
        for (k, (c, ns)) in cls.iter().enumerate() {
            t += &if star && k + 1 == cls.len() { format!("N{} *\n", c) } else { format!("N{} [{}]\n", c, ns.join(", ")) };
        }
        if !star {
            t += "N77 *\n";
        }
        file(&dir.join("c"), t.as_bytes());
    }
    let base: &[&str] = match (kind, approx) {
        ("cfg", false) => &["cfg"],
        ("cfg", true) => &["approximation", "relabel"],
        ("pmcfg", false) => &["mcfg"],
        ("pmcfg", true) => &["approximation", "tts"],
        _ => &["tsa"],
    };
    for st in a(case, "steps") {
        let mut args: Vec<String> = base.iter().map(|x| x.to_string()).collect();
        let print = s(st, "op") == "print";
        args.push(if print { "automaton" } else if kind == "tsa" { "recognise" } else { "parse" }.to_string());
        if approx && kind == "cfg" {
            args.push("c".to_string());
        }
        args.push("g".to_string());
        if print {
            let d = run(dir, &args, b"");
            let t = String::from_utf8_lossy(&d.out).to_string();
            let trs: Vec<Value> = t
                .lines()
                .filter(|x| x.starts_with("Transition "))
                .map(|x| {
                    let w: Vec<i64> = quoted(&x[..x.find("] (").unwrap_or(0)]).iter().map(|y| l.number(y)).collect();
                    json!([w, units(x.rfind("# ").map_or(f64::NAN, |k| number(&x[k + 2..])))])
                })
                .collect();
            let inits = t.lines().filter(|x| x.starts_with("initial: ")).count();
            let other = t.lines().filter(|x| !x.trim().is_empty() && !x.starts_with("Transition ") && !x.starts_with("initial: ")).count();
            rec.ev(json!({"op": "print", "rc": d.rc, "trans": trs, "inits": inits, "other": other}));
            continue;
        }
        for (k, o) in &[("n", "-n"), ("beam", "-b")] {
            if i(st, k) >= 0 {
                args.push(o.to_string());
                args.push(st[*k].to_string());
            }
        }
        let lines: Vec<String> = a(st, "lines").iter().map(|x| ints(&x["word"]).iter().map(|y| l.name(*y)).collect::<Vec<_>>().join(s(x, "blank"))).collect();
        let mut input = lines.join("\n");
        if st["open"] != true && !lines.is_empty() {
            input.push('\n');
        }
        let d = run(dir, &args, input.as_bytes());
        let t = String::from_utf8_lossy(&d.out).to_string();
        let ls: Vec<&str> = t.lines().collect();
        // what belongs to the sentences, in order
        let mut out: Vec<Value> = Vec::new();
        if approx {
            for (k, x) in ls.iter().enumerate() {
                let echo = lines.get(k).map_or(false, |y| x.ends_with(&format!(": {}", y)));
                let found: Vec<Value> = if x.starts_with("Some(Item(Configuration { word: [], ") { vec![json!({"x": units(*logs(x).first().unwrap_or(&f64::NAN))})] } else if x.starts_with("None: ") { vec![] } else { vec![json!({"x": -1})] };
                out.push(json!({"runs": found, "echo": echo}));
            }
        } else if kind == "cfg" {
            let mut cur: Vec<Value> = Vec::new();
            for x in &ls {
                if x.is_empty() {
                    out.push(json!({"runs": cur, "echo": true}));
                    cur = Vec::new();
                } else {
                    let good = x.starts_with("Configuration { word: [], ");
                    cur.push(json!({"x": if good { units(*logs(x).last().unwrap_or(&f64::NAN)) } else { -1 }}));
                }
            }
            if !cur.is_empty() {
                out.push(json!({"runs": cur, "echo": false}));
            }
        } else if kind == "tsa" {
            let mut cur: Option<(Vec<i64>, Vec<Value>)> = None;
            for x in &ls {
                if x.is_empty() {
                    let (w, r) = cur.take().unwrap_or((vec![-1], vec![]));
                    out.push(json!({"runs": r, "echo": lines.get(out.len()).map_or(false, |y| y.split_whitespace().map(|z| l.number(z)).collect::<Vec<_>>() == w)}));
                } else if let (Some(c), true) = (&mut cur, x.starts_with("  ")) {
                    c.1.push(json!({"x": units(logs(x).iter().product()), "ts": run_of(x, &l)}));
                } else {
                    cur = Some((if x.ends_with("]:") { quoted(x).iter().map(|z| l.number(z)).collect() } else { vec![-1] }, Vec::new()));
                }
            }
            if cur.is_some() {
                out.push(json!({"runs": [], "echo": false}));
            }
        } else {
            // blocks Configuration: .. of lines up to an empty one; an empty line ends the sentence
            let (mut cur, mut k) = (Vec::new(), 0);
            while k < ls.len() {
                if ls[k].is_empty() {
                    out.push(json!({"runs": cur, "echo": true}));
                    cur = Vec::new();
                    k += 1;
                    continue;
                }
                let end = (k..ls.len()).find(|j| ls[*j].is_empty()).unwrap_or(ls.len());
                let b = &ls[k..end];
                let get = |p: &str| b.iter().find(|x| x.starts_with(p)).map_or("?", |x| &x[p.len()..]);
                let good = b[0] == "Configuration:" && get("word:") == "[]" && b.iter().any(|x| *x == "*@");
                cur.push(json!({"x": if good { units(number(get("weight:"))) } else { -1 }, "tree": tree_of(b, &rules)}));
                k = end + 2; // the text of a configuration ends with an empty line
            }
            if !cur.is_empty() {
                out.push(json!({"runs": cur, "echo": false}));
            }
        }
        let mut e = st.clone();
        e["rc"] = json!(d.rc);
        e["out"] = json!(out);
        rec.ev(e);
    }
}
fn main() {
    run_main(|sub, case, rec| {
        let dir: PathBuf = std::env::temp_dir().join(format!("rustomata-cli-{}-{}", std::process::id(), case["id"]));
        std::fs::create_dir_all(&dir).expect("HARNESS: scratch directory");
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if sub == "runs" { runs(case, rec, &dir) } else { cli(case, rec, &dir) }));
        let _ = std::fs::remove_dir_all(&dir);
        if let Err(e) = r {
            std::panic::resume_unwind(e);
        }
    })
}
