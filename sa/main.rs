mod checks; mod comp; mod comp2; mod comp3; mod comp4; mod comp5; mod comp6; mod comp7; mod mons; mod exec; mod facts; mod frame; mod fx; mod join; mod json; mod mgc; mod mio; mod miter; mod models; mod prog; mod rx; mod term; mod val;
fn main(){
    let a:Vec<String>=std::env::args().collect();
    if a.get(1).map_or(false, |x| x=="check") {
        let rc=std::thread::Builder::new().stack_size(4<<30).spawn(move || check_main(&a)).unwrap().join().unwrap_or(2);
        std::process::exit(rc);
    }
    std::thread::Builder::new().stack_size(4<<30).spawn(move || {
    let p=std::rc::Rc::new(prog::Prog::load(&std::fs::read_to_string(&a[1]).unwrap()));
    let mut e=exec::Engine::new(p.clone());
    e.max_steps=100_000_000; if std::env::var("SA_C04").is_ok() { e.mon=Some(Box::new(mons::C04)); } if std::env::var("SA_C18").is_ok() { e.mon=Some(Box::new(mons::C18)); } if std::env::var("SA_EV").is_ok() { e.mon=Some(Box::new(checks::TraceMon)); }
    let pat=a.get(2).cloned().unwrap_or_default();
    let public=|r:&prog::Root| r.public && !r.path.contains("fmt::") && !r.path.contains("std::");
    if pat!="" && !pat.starts_with("@") {
      e.arb=true; e.trace=a.len()>3;
      for r in &p.roots { if r.path.contains(&pat) && !r.path.contains("fmt::") {
        let t=std::time::Instant::now(); let s0=e.steps;
        let o=e.run_root(r.inst,&mut |e,_s,t| t.iter().map(|t| e.mem.fresh("arg",*t)).collect());
        println!("{}: {} outs, {} steps, {:?} {}", r.path, o.len(), e.steps-s0, t.elapsed(), if e.exhausted {"EXHAUSTED"} else {""}); e.exhausted=false; if e.trace { for (s,v) in &o { println!("OUT {} GH {:?}\n{:?}\n{}", checks::show_v(v).chars().take(40).collect::<String>(), s.gh, v, s.fx.show()); } } } }
    } else {
      for round in 0..12 {
        e.inv.changed=false; e.cache=Default::default(); e.obl.clear(); e.unknown.clear(); e.notes.clear();
        let t=std::time::Instant::now();
        let info=e.client_pass(&|r| public(r) && (pat.len()<2 || r.path.contains(&pat[1..])));
        println!("round {} {:?} changed={} cache hits {} misses {} impure {}", round, t.elapsed(), e.inv.changed, e.cache.hits, e.cache.misses, e.cache.impure);
        if std::env::var("SA_STAT").is_ok() { let mut v:Vec<_>=e.cache.stat.iter().collect(); v.sort_by_key(|x|std::cmp::Reverse(x.1.2)); for (f,x) in v.iter().take(40) { println!("   stat {} raw={} hits={} ms={} steps={} outs={}", p.fns[**f].path,x.0,x.1,x.2,x.3,x.4); } }
        for i in info { if i.ms>500 || i.exhausted || !e.inv.changed {println!("   {} outs={} steps={} ms={} {}", i.path,i.outs,i.steps,i.ms,if i.exhausted {"EXHAUSTED"} else {""});} }
        for (k,v) in &e.inv.m { println!("     {} parts={} rounds={:?}", k, v.len(), v.iter().map(|p|p.rounds).collect::<Vec<_>>()); }
        if !e.inv.changed {break;}
      }
    }
    println!("unknown {:#?}", e.unknown);
    println!("notes {:#?}", e.notes);
    for (k,o) in &e.obl { println!("{} {} n={} {} {}", if o.ok {"ok  "} else {"FAIL"}, k, o.n, o.at, o.why); }
    }).unwrap().join().unwrap();
}

fn esc(s:&str)->String { let mut o=String::new(); for c in s.chars() { match c { '"'=>o.push_str("\\\""), '\\'=>o.push_str("\\\\"), c if (c as u32)<32 => o.push(' '), c=>o.push(c) } } o }
/// sa check PROP MIR TIER EVIDENCE FINDINGS
fn check_main(a:&[String])->i32 {
    let (prop,mir,tier,out,findings)=(&a[2],&a[3],&a[4],&a[5],&a[6]);
    let t0=std::time::Instant::now();
    let _=checks::MIR.set(mir.clone());
    let p=std::rc::Rc::new(prog::Prog::load(&std::fs::read_to_string(mir).unwrap()));
    let r=match checks::check(prop,&p,tier) { Some(r)=>r, None=>{ eprintln!("no check for {}",prop); return 2; } };
    // listed findings: `known: property=<id> key=<key>`
    let known:Vec<String>=std::fs::read_to_string(findings).unwrap_or_default().lines().filter_map(|l| l.strip_prefix("known: property=").and_then(|x| x.split_once(" key=")).and_then(|(i,k)| if i==prop {Some(k.trim().to_string())} else {None})).collect();
    let mut bad:Vec<(String,String,String)>=vec![];
    let mut found=vec![];
    for (k,o) in &r.obl { if !o.ok { if known.contains(k) { found.push(k.clone()); } else { bad.push((k.clone(),o.at.clone(),o.why.clone())); } } }
    for f in &r.floors { if !r.obl.keys().any(|k| match f.split_once('*') { Some((a,b)) => k.starts_with(a)&&k[a.len()..].contains(b), None => k.starts_with(f) }) { bad.push((format!("{}:missing:{}",prop,f), String::new(), "nothing to check: the code this property is about was not found or not reached".into())); } }
    if r.exhausted { bad.push((format!("{}:budget",prop), String::new(), "the analysis ran out of its budget".into())); }
    let n=r.obl.len(); let ok=r.obl.values().filter(|o| o.ok).count();
    let list:Vec<String>=r.obl.iter().map(|(k,o)| format!("{{\"obligation\":\"{}\",\"instances\":{},\"at\":\"{}\",\"ok\":{}}}",esc(k),o.n,esc(&o.at),o.ok)).collect();
    let viol:Vec<String>=bad.iter().map(|(k,at,w)| format!("{{\"construct\":\"{}\",\"at\":\"{}\",\"why\":\"{}\"}}",esc(k),esc(at),esc(&w.chars().take(600).collect::<String>()))).collect();
    let unk:Vec<String>=r.unknown.iter().map(|(k,n)| format!("\"{} x{}\"",esc(k),n)).collect();
    let roots:Vec<String>=r.roots.iter().map(|k| format!("\"{}\"",esc(k))).collect();
    let notes:Vec<String>={let mut v=r.notes.clone(); v.sort(); v.dedup(); v.iter().map(|k| format!("\"{}\"",esc(k))).collect()};
    let trusted=["rustc's type checker and MIR construction","the transfer functions in sa/models.rs, sa/mio.rs and sa/miter.rs for std, dashmap, bytes, flate2, regex, hex, sha1 and fs-err functions","the abstract interpreter in sa/"];
    let ev=format!("{{\n\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"proof\",\n\"coverage\":{{\"obligations\":{},\"discharged\":{},\"checker_cmd\":\"./check.sh {} {}\",\"trusted_base\":[{}],\n\"rule\":\"{}\",\"functions_analysed\":{},\"abstract_steps\":{},\"roots\":[{}],\"unmodelled_calls\":[{}],\"notes\":[{}],\"explanation\":\"static analysis of the type-checked MIR of the current tree\",\n\"obligation_list\":[\n{}\n]}},\n\"assumptions\":[\"see trusted_base and DESIGN.md\"],\n\"violation_list\":[{}],\n\"wall_s\":{:.2},\"violations\":{}\n}}\n",
        prop,tier,std::env::var("VERIF_SEED").ok().and_then(|x|x.parse::<i64>().ok()).unwrap_or(1),n,ok,prop,tier,trusted.iter().map(|x|format!("\"{}\"",esc(x))).collect::<Vec<_>>().join(","),esc(&r.rule),r.functions,r.calls,roots.join(","),unk.join(","),notes.join(","),list.join(",\n"),viol.join(",\n"),t0.elapsed().as_secs_f64(),bad.len());
    std::fs::write(out,ev).unwrap();
    for k in &found { println!("KNOWN-FINDING: property={} {}",prop,k); }
    println!("{}: {} obligations, {} discharged, {} functions, {} roots, {:.1}s",prop,n,ok,r.functions,r.roots.len(),t0.elapsed().as_secs_f64());
    for (k,at,w) in &bad { println!("  {} at {}\n    {}",k,at,w.chars().take(400).collect::<String>()); }
    if !bad.is_empty() { println!("VIOLATION property={} replay={}",prop,out); return 1; }
    0
}
