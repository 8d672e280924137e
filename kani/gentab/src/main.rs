//! Runs the programs natively with the real `regex` crate and writes, per program and class of
//! paths, which of the patterns the derive emitted match a representative path of the class and
//! which placeholders their groups capture.
fn main() {
    let mut out = String::from("use regex::{Row, SPAN as _, TABLE};\n");
    std::panic::set_hook(Box::new(|_| {}));
    for p in gen::native::PROGRAMS {
        regex::PATTERNS.lock().unwrap().clear();
        for c in p.classes {
            unsafe { http::PATH = c.path; }
            for m in 0..10 {
                let run = p.run;
                let _ = std::panic::catch_unwind(move || run(m));
            }
        }
        let pats = regex::PATTERNS.lock().unwrap().clone();
        let prints: Vec<_> = pats.iter().map(|s| regex::print(s)).collect();
        for i in 0..prints.len() { for j in 0..i { if prints[i] == prints[j] { eprintln!("patterns {} and {} look alike", pats[i], pats[j]); std::process::exit(3); } } }
        if pats.len() > 8 { eprintln!("too many patterns: {:?}", pats); std::process::exit(3); }
        for c in p.classes {
            out += &format!("pub fn {}_{}() {{ unsafe {{\n", p.name, c.name);
            for (i, s) in pats.iter().enumerate() {
                let re = real::Regex::new(s).unwrap();
                let caps = re.captures(c.path);
                let mut groups = [String::from("None"), String::from("None"), String::from("None"), String::from("None")];
                if re.captures_len() > 5 { eprintln!("too many groups: {}", s); std::process::exit(3); }
                if let Some(caps) = &caps {
                    for g in 1..caps.len() {
                        // 3: some other part of the path
                        if let Some(m) = caps.get(g) { groups[g - 1] = format!("Some({})", c.spans.iter().position(|x| *x == (m.start(), m.end())).unwrap_or(3)); }
                    }
                }
                out += &format!("    TABLE[{}] = Row {{ pat: {:?}, hit: {}, groups: [{}] }}; // {}\n", i, prints[i], caps.is_some(), groups.join(", "), s.replace('\n', " "));
            }
            out += "} }\n";
        }
    }
    print!("{}", out.replace("SPAN as _, ", ""));
}
