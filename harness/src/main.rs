mod banks1;
mod banks2;
mod ctx;
mod drive;
mod json;
mod misuse;
mod types;

fn esc(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let prop = args.get(1).expect("property id").clone();
    let thorough = opt("--tier").as_deref() == Some("thorough");
    let seed = opt("--seed").map_or(1, |s| s.parse().unwrap());
    let scale = opt("--scale").map_or(if thorough { 8.0 } else { 1.0 }, |s| s.parse().unwrap());
    let only = opt("--only").map(|s| s.parse().unwrap());
    let trace = opt("--trace");
    let run = move || {
        let mut c = ctx::Ctx::new(seed, thorough, scale, only, trace.as_deref());
        match prop.as_str() {
            "C01" => banks1::c01(&mut c),
            "C02" => banks1::c02(&mut c),
            "C03" => banks1::c03(&mut c),
            "C04" => banks1::c04(&mut c),
            "C05" => banks1::c05(&mut c),
            "C06" => banks1::c06(&mut c),
            "C07" => banks1::c07(&mut c),
            "C08" => banks2::c08(&mut c),
            "C09" => banks2::c09(&mut c),
            "C10" => banks2::c10(&mut c),
            "C11" => banks2::c11(&mut c),
            "C12" => banks2::c12(&mut c),
            "C13" => banks2::c13(&mut c),
            "C14" => banks2::c14(&mut c),
            "C15" => banks2::c15(&mut c),
            "C16" => misuse::c16(&mut c),
            "C17" => banks2::c17(&mut c),
            "C18" => banks2::c18(&mut c),
            "C19" => banks2::c19(&mut c),
            "C20" => banks2::c20(&mut c),
            "C21" => banks2::c21(&mut c),
            "C22" => banks2::c22(&mut c),
            _ => panic!("unknown property"),
        }
        let fails: Vec<String> = c.fails.iter().map(|f| format!("{{\"case\":{},\"input\":{},\"what\":{}}}", f.case, esc(&f.input), esc(&f.what))).collect();
        let known: Vec<String> = c.known.iter().map(|(k, (n, i))| format!("{{\"id\":{},\"count\":{},\"input\":{}}}", esc(k), n, esc(i))).collect();
        let samples: Vec<String> = c.samples.iter().map(|s| esc(s)).collect();
        format!(
            "{{\"property\":{},\"seed\":{},\"thorough\":{},\"scale\":{},\"cases\":{},\"evals\":{},\"distinct\":{},\"enumerated\":{},\"samples\":[{}],\"fails\":[{}],\"known\":[{}]}}\n",
            esc(&prop), seed, thorough, scale, c.cases, c.evals, c.distinct.len(), c.enumerated, samples.join(","), fails.join(","), known.join(",")
        )
    };
    // Deep recursion of well-formed typed values is not at issue: a normal-sized stack
    let report = std::thread::Builder::new().stack_size(8 << 20).spawn(run).unwrap().join().unwrap();
    match opt("--out") {
        Some(p) => std::fs::write(p, report).unwrap(),
        None => print!("{}", report),
    }
}
