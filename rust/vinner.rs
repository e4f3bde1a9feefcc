// Appended as `mod vinner` in a second build: the crate-internal tape, rule
// and macro types.  Kept apart from vcore so that a change to an internal
// signature cannot stop the Python-facing checks.
#![allow(clippy::all, dead_code)]

use std::cell::RefCell;
use std::collections::BTreeMap;

use crate::instrs::{CompProg, GetInstr, Parse as _};
use crate::macros::{make_backsymbol_macro, make_block_macro};
use crate::rules::{apply_rule, make_rule, Op, Rule};
use crate::tape::{Alignment as _, BasicTape, EnumTape, HeadTape};

thread_local! {
    static TAPES: RefCell<BTreeMap<usize, BasicTape>> = RefCell::new(BTreeMap::new());
    static ENUMS: RefCell<BTreeMap<usize, EnumTape>> = RefCell::new(BTreeMap::new());
}

fn list<T: ToString>(v: &[T]) -> String {
    v.iter().map(ToString::to_string).collect::<Vec<_>>().join(",")
}

fn tape_s(t: &BasicTape) -> String {
    let (l, r) = t.counts();
    let (ln, rn) = t.span_lens();
    assert!(ln == l.len() && rn == r.len());
    [
        t.to_string(),
        t.marks().to_string(),
        u8::from(t.blank()).to_string(),
        u8::from(t.at_edge(false)).to_string(),
        u8::from(t.at_edge(true)).to_string(),
        t.blocks().to_string(),
        list(&t.counts().0),
        list(&t.counts().1),
    ]
    .join("|")
}

fn enum_s(t: &EnumTape) -> String {
    let (l, r) = t.offsets();
    let (le, re) = t.edges();
    format!("{}|{},{}|{},{}", t, l, r, u8::from(le), u8::from(re))
}

fn read_rule(s: &str) -> Rule {
    s.split(';')
        .filter(|x| !x.is_empty())
        .map(|e| {
            let v: Vec<i64> = e.split(',').map(|x| x.parse().unwrap()).collect();
            ((v[0] != 0, v[1] as usize), if v.len() == 3 { Op::Plus(v[2] as i32) } else { Op::Mult((v[2] as i32, v[3] as i32)) })
        })
        .collect()
}

fn build(tape: &mut BasicTape, script: &str) {
    for st in script.split(';').filter(|x| !x.is_empty()) {
        let v: Vec<u64> = st.split(',').map(|x| x.parse().unwrap()).collect();
        let _ = tape.step(v[0] != 0, v[1], v[2] != 0);
    }
}

fn run_macro<P: GetInstr>(prog: &P, lim: usize) -> String {
    // State trace of a macro machine over its own tape.
    let mut tape = BasicTape::init(0);
    let mut state = 0;
    let mut out = vec![];
    for _ in 0..lim {
        let slot = (state, tape.scan);
        let Some((c, s, t)) = prog.get_instr(&slot) else {
            out.push(format!("{},{}:-", slot.0, slot.1));
            break;
        };
        out.push(format!("{},{}:{},{},{}", slot.0, slot.1, c, u8::from(s), t));
        if t == state && tape.at_edge(s) {
            break;
        }
        let _ = tape.step(s, c, t == state);
        state = t;
    }
    out.join(";")
}

fn dispatch(line: &str) -> String {
    let a: Vec<&str> = line.split('\t').collect();
    let n = |i: usize| -> usize { a[i].parse().unwrap() };
    let counts = |s: &str| -> (Vec<u64>, Vec<u64>) {
        let (l, r) = s.split_once('/').unwrap();
        let f = |x: &str| x.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        (f(l), f(r))
    };

    match a[0] {
        // script of steps from blank, then one probed step on plain and tracked tapes
        "tape_new" => {
            let mut t = BasicTape::init(0);
            build(&mut t, a[2]);
            let s = tape_s(&t);
            TAPES.with(|m| m.borrow_mut().insert(n(1), t));
            s
        },
        // alternating colors; the right side is laid down first, then a gap
        // cell, then the left side, all by stepping from blank
        "tape_build" => {
            let f = |x: &str| -> Vec<u64> { x.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
            let (l, r) = (f(a[2]), f(a[3]));
            let mut t = BasicTape::init(0);
            for (k, n) in r.iter().enumerate().rev() {
                for _ in 0..*n {
                    let _ = t.step(false, 1 + (k as u64) % 2, false);
                }
            }
            // head is left of the right side; lay the left side out leftwards
            let total: u64 = l.iter().sum();
            let mut cells = vec![];
            for (k, n) in l.iter().enumerate() {
                for _ in 0..*n {
                    cells.push(1 + (k as u64) % 2);
                }
            }
            // walk to the far left end without writing, then come back writing
            for _ in 0..total {
                let _ = t.step(false, 0, false);
            }
            for c in cells.iter().rev() {
                let _ = t.step(true, *c, false);
            }
            let s = tape_s(&t);
            TAPES.with(|m| m.borrow_mut().insert(n(1), t));
            s
        },
        "tape_step" => TAPES.with(|m| {
            let mut m = m.borrow_mut();
            let t = m.get_mut(&n(1)).unwrap();
            let k = t.step(n(2) != 0, n(3) as u64, n(4) != 0);
            format!("{}|{}", k, tape_s(t))
        }),
        "tape_enum" => TAPES.with(|m| {
            let m = m.borrow();
            let e = EnumTape::from(&m[&n(1)]);
            let s = enum_s(&e);
            ENUMS.with(|x| x.borrow_mut().insert(n(2), e));
            s
        }),
        "enum_step" => ENUMS.with(|m| {
            let mut m = m.borrow_mut();
            let t = m.get_mut(&n(1)).unwrap();
            let k = t.step(n(2) != 0, n(3) as u64, n(4) != 0);
            format!("{}|{}", k, enum_s(t))
        }),
        "tape_apply" => TAPES.with(|m| {
            let mut m = m.borrow_mut();
            let t = m.get_mut(&n(1)).unwrap();
            let r = apply_rule(&read_rule(a[2]), t);
            format!("{}|{}", r.map_or_else(|| "-".to_owned(), |x| x.to_string()), tape_s(t))
        }),
        "make_rule" => {
            let r = make_rule(&counts(a[1]), &counts(a[2]), &counts(a[3]), &counts(a[4]));
            match r {
                None => "-".to_owned(),
                Some(r) => r
                    .iter()
                    .map(|(&(s, i), op)| match op {
                        Op::Plus(d) => format!("{},{},{}", u8::from(s), i, d),
                        Op::Mult((x, y)) => format!("{},{},{},{}", u8::from(s), i, x, y),
                    })
                    .collect::<Vec<_>>()
                    .join(";"),
            }
        },
        "macro_run" => {
            let comp = CompProg::from_str(a[1]);
            let params = (n(2) as u64, n(3) as u64);
            let lim = n(6);
            match a[4] {
                "block" => run_macro(&make_block_macro(&comp, params, n(5)), lim),
                "back" => run_macro(&make_backsymbol_macro(&comp, params, n(5)), lim),
                o => panic!("macro kind {o}"),
            }
        },
        "head_run" => {
            // HeadTape driven by a script of steps; reports head position and text.
            let mut t = HeadTape::init_stepped();
            let mut out = vec![];
            for st in a[1].split(';').filter(|x| !x.is_empty()) {
                let v: Vec<u64> = st.split(',').map(|x| x.parse().unwrap()).collect();
                let k = t.step(v[0] != 0, v[1], v[2] != 0);
                out.push(format!("{}:{}:{}", k, t.head(), t));
            }
            out.join(";")
        },
        other => panic!("unknown command {other}"),
    }
}

#[unsafe(no_mangle)]
pub extern "C" fn vinner_call(ptr: *const u8, len: usize, out_len: *mut usize) -> *mut u8 {
    crate::vcore::guarded(dispatch, ptr, len, out_len)
}
