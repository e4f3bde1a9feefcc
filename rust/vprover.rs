// Appended to a scratch copy of src/prover.rs in a build of its own, as a
// child module: what the prover remembers is private to it.
#[allow(clippy::all, dead_code)]
mod vprover {
    use super::*;
    use crate::instrs::{CompProg, Parse as _};
    use crate::tape::{Alignment as _, ColorCount};

    struct Seen(Signature);

    impl GetSig for Seen {
        fn scan(&self) -> u64 {
            self.0.scan
        }
        fn signature(&self) -> Signature {
            self.0.clone()
        }
    }

    fn side(s: &str) -> Vec<ColorCount> {
        s.split(',')
            .filter(|x| !x.is_empty())
            .map(|x| match x.strip_suffix('s') {
                Some(c) => ColorCount::Just(c.parse().unwrap()),
                None => ColorCount::Mult(x.parse().unwrap()),
            })
            .collect()
    }

    fn side_s(v: &[ColorCount]) -> String {
        v.iter()
            .map(|x| match x {
                ColorCount::Just(c) => format!("{c}s"),
                ColorCount::Mult(c) => format!("{c}"),
            })
            .collect::<Vec<_>>()
            .join(",")
    }

    fn sig(f: &[&str]) -> (u64, Signature) {
        (
            f[0].parse().unwrap(),
            Signature { scan: f[1].parse().unwrap(), lspan: side(f[2]), rspan: side(f[3]) },
        )
    }

    // events: a:q:h:l:r:le:re or q:q:h:l:r:way; the rule of the k-th
    // addition is (false, k) -> k
    fn fits(script: &str) -> String {
        let comp = CompProg::from_str("1RB 1LA  1LA 1RB");
        let mut p = Prover::new(&comp);
        let mut out = vec![];
        let mut k = 0;
        for ev in script.split(';') {
            let f: Vec<&str> = ev.split(':').collect();
            let (q, s) = sig(&f[1..]);
            if f[0] == "a" {
                k += 1;
                p.set_rule(Rule::from([((false, k), Op::Plus(k as i32))]), q, (s, (f[5] == "1", f[6] == "1")));
            } else {
                let seen = Seen(s.clone());
                let got = p.get_rule(q, &seen, if f[5] == "1" { Some(&s) } else { None });
                out.push(got.map_or(0, |r| r.keys().next().unwrap().1).to_string());
            }
        }
        out.join(",")
    }

    fn rule_s(r: &Rule) -> String {
        r.iter()
            .map(|(&(s, i), op)| match op {
                Op::Plus(d) => format!("{},{},p,{},0", u8::from(s), i, d),
                Op::Mult((x, y)) => format!("{},{},m,{},{}", u8::from(s), i, x, y),
            })
            .collect::<Vec<_>>()
            .join("+")
    }

    // Run, and tell what is asked of the memory and what is put into it.
    fn learn(prog: &str, lim: usize, most: usize) -> String {
        let comp = CompProg::from_str(prog);
        let mut p = Prover::new(&comp);
        let mut tape = BasicTape::init(0);
        let mut state = 0;
        let mut out: Vec<String> = vec![];
        for cycle in 0..lim {
            let s = tape.signature();
            let slot = (state, tape.scan);
            let before = p.rules.get(&slot).map_or(0, Vec::len);
            let text = tape.to_string();
            let res = p.try_rule(cycle as i32, state, &tape);
            let head = format!("{}:{}:{}:{}", state, s.scan, side_s(&s.lspan), side_s(&s.rspan));
            let after = p.rules.get(&slot).map_or(0, Vec::len);
            if after > before {
                let (w, (le, re)) = &p.rules[&slot][after - 1].0;
                out.push(format!(
                    "a:{}:{}:{}:{}:{}:{}:{}:{}",
                    state, w.scan, side_s(&w.lspan), side_s(&w.rspan),
                    u8::from(*le), u8::from(*re), text, rule_s(&p.rules[&slot][after - 1].1)
                ));
            }
            match &res {
                None => {
                    if before > 0 {
                        out.push(format!("q:{head}:"));
                    }
                },
                Some(ProverResult::Got(r)) => out.push(format!("q:{head}:{}", rule_s(r))),
                _ => break,
            }
            if out.len() >= most {
                break;
            }
            if let Some(ProverResult::Got(r)) = res {
                if apply_rule(&r, &mut tape).is_some() {
                    continue;
                }
            }
            let Some(&(color, shift, next)) = comp.get(&slot) else { break };
            let same = state == next;
            if same && tape.at_edge(shift) {
                break;
            }
            tape.step(shift, color, same);
            state = next;
        }
        out.join(";")
    }

    fn dispatch(line: &str) -> String {
        let a: Vec<&str> = line.split('\t').collect();
        match a[0] {
            "fits" => fits(a[1]),
            "learn" => learn(a[1], a[2].parse().unwrap(), a[3].parse().unwrap()),
            other => panic!("unknown command {other}"),
        }
    }

    #[unsafe(no_mangle)]
    pub extern "C" fn vinner_call(ptr: *const u8, len: usize, out_len: *mut usize) -> *mut u8 {
        crate::vcore::guarded(dispatch, ptr, len, out_len)
    }
}
