"""Order-insensitive (ok*) and order-sensitive (bad*) uses of hash containers, for C32."""
L = "src/lib.rs"
R = {}
def body(b): return [(L, None, "\npub fn zz_probe(x: &HashMap<OpcodeVariant, usize>) -> usize {\n" + b + "\n}\n")]
R["okA"] = body("x.values().filter(|v| **v > 3).count()")
R["okB"] = body("let mut v: Vec<usize> = x.values().copied().collect(); v.sort(); v[0]")
R["okC"] = body("let mut m = HashMap::new(); for (k, v) in x.iter() { m.insert(*k, *v + 1); } m.len()")
R["okD"] = body("for (k, v) in x { assert!(k.ergs_price() as usize >= *v); } 1")
R["okE"] = body("let s: std::collections::BTreeSet<usize> = x.values().map(|v| v + 1).collect(); s.into_iter().next().unwrap()")
R["okF"] = body("x.values().sum::<usize>() + x.iter().map(|(_, v)| *v).max().unwrap()")
R["okG"] = body("let mut m = HashMap::new(); for (k, v) in x.iter() { let w = if *v > 3 { v * 2 } else { *v }; let _ = m.insert(*k, w); } m.len()")
R["badA"] = body("x.values().copied().next().unwrap()")
R["badB"] = body("let mut t = 0; for (_, v) in x { t = t * 31 + v; } t")
R["badC"] = body("let v: Vec<usize> = x.values().copied().collect(); v[0]")
R["badD"] = body("let m: HashMap<usize, OpcodeVariant> = x.iter().map(|(k, v)| (*v, *k)).collect(); m[&0].ergs_price() as usize")
R["badE"] = body("for (_, v) in x.iter() { if *v > 3 { return *v; } } 0")
R["badF"] = body("let mut last = 0; for (_, v) in x.iter() { last = *v; } last")
R["badG"] = body("let mut c = 0; x.values().map(|v| { c = c * 2 + v; c }).max().unwrap()")
R["badH"] = body("let mut w = vec![]; for (_, v) in x.iter() { w.push(*v); } w[0]")
R["badI"] = body("*x.iter().find(|(_, v)| **v > 2).unwrap().1")
