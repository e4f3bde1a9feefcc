// Appended to a scratch copy of /repo/src as `mod vcore`: exposes the crate's
// Python-facing functions over one C entry point.  Only names that lib.rs
// exports to Python are used here.
#![allow(clippy::all, dead_code)]

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::rust_stuff as w;
use crate::rust_stuff::{MachineResult, PastConfigs, TermRes};

type Slot = (u64, u64);
type Instr = (u64, bool, u64);
type CompProg = BTreeMap<Slot, Instr>;

thread_local! {
    static PASTS: RefCell<BTreeMap<usize, PastConfigs>> = RefCell::new(BTreeMap::new());
    static NEXT: RefCell<usize> = RefCell::new(0);
}

fn opt<T: ToString>(o: Option<T>) -> String {
    o.map_or_else(|| "-".to_owned(), |v| v.to_string())
}

fn slot_s(s: Slot) -> String {
    format!("{},{}", s.0, s.1)
}

fn instr_s(i: Option<Instr>) -> String {
    match i {
        None => "-".to_owned(),
        Some((c, s, t)) => format!("{},{},{}", c, u8::from(s), t),
    }
}

pub fn comp_s(comp: &CompProg) -> String {
    comp.iter()
        .map(|(k, v)| format!("{}:{}", slot_s(*k), instr_s(Some(*v))))
        .collect::<Vec<_>>()
        .join(";")
}

fn nums(s: &str) -> Vec<u64> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

fn read_comp(s: &str) -> CompProg {
    s.split(';')
        .filter(|x| !x.is_empty())
        .map(|e| {
            let (k, v) = e.split_once(':').unwrap();
            let (k, v) = (nums(k), nums(v));
            ((k[0], k[1]), (v[0], v[1] != 0, v[2]))
        })
        .collect()
}

fn res_s(r: &MachineResult) -> String {
    let cat = match r.result() {
        TermRes::xlimit => "xlimit",
        TermRes::cfglim => "cfglim",
        TermRes::infrul => "infrul",
        TermRes::spnout => "spnout",
        TermRes::undfnd => "undfnd",
        TermRes::mulrul => "mulrul",
    };
    let und = r.undfnd().map(|(s, sl)| format!("{},{}", s, slot_s(sl)));
    let blanks = r
        .blanks()
        .iter()
        .map(|(k, v)| format!("{k}:{v}"))
        .collect::<Vec<_>>()
        .join(",");
    [
        cat.to_owned(),
        r.steps().to_string(),
        r.cycles().to_string(),
        r.marks().to_string(),
        r.rulapp().to_string(),
        opt(und),
        blanks,
        opt(r.simple_termination()),
        opt(r.halted()),
        opt(r.infrul()),
        opt(r.spnout()),
        opt(r.xlimit()),
        opt(r.cfglim()),
    ]
    .join("|")
}

fn dispatch(line: &str) -> String {
    let a: Vec<&str> = line.split('\t').collect();
    let n = |i: usize| -> usize { a[i].parse().unwrap() };

    match a[0] {
        "tcompile" => comp_s(&w::tcompile(a[1])),
        "show_comp" => {
            let params = (a.len() > 2 && a[2] != "-").then(|| {
                let p = nums(a[2]);
                (p[0], p[1])
            });
            w::py_show_comp(read_comp(a[1]), params)
        },
        "show_state" => w::show_state(if a[1] == "-" { None } else { Some(a[1].parse().unwrap()) }).to_string(),
        "show_slot" => {
            let s = nums(a[1]);
            w::show_slot((s[0], s[1]))
        },
        "read_slot" => slot_s(w::read_slot(a[1])),
        "show_instr" => w::show_instr(if a[1] == "-" {
            None
        } else {
            let v = nums(a[1]);
            Some((v[0], v[1] != 0, v[2]))
        }),
        "read_instr" => instr_s(w::read_instr(a[1])),
        "cant_halt" => opt(w::py_cant_halt(a[1], n(2) as _)),
        "cant_blank" => opt(w::py_cant_blank(a[1], n(2) as _)),
        "cant_spin_out" => opt(w::py_cant_spin_out(a[1], n(2) as _)),
        "is_connected" => u8::from(w::py_is_connected(a[1], n(2) as _)).to_string(),
        "opt_block" => w::py_opt_block(a[1], n(2) as _).to_string(),
        "quick" => u8::from(w::py_quick_term_or_rec(a[1], n(2) as _)).to_string(),
        "segment" => opt(w::py_segment_cant_halt(a[1], n(2) as _)),
        "run_prover" => res_s(&w::run_prover(a[1], n(2) as _)),
        "run_quick" => res_s(&w::run_quick_machine(a[1], n(2) as _)),
        "tree" => w::tree_progs((n(1) as _, n(2) as _), n(3) != 0, n(4) as _).join("\n"),
        "past_new" => {
            let id = NEXT.with(|x| {
                *x.borrow_mut() += 1;
                *x.borrow()
            });
            let p = PastConfigs::new(n(1) as _, a[2].parse().unwrap());
            PASTS.with(|m| m.borrow_mut().insert(id, p));
            id.to_string()
        },
        "past_next" => PASTS.with(|m| {
            let mut m = m.borrow_mut();
            let p = m.get_mut(&n(1)).unwrap();
            match p.next_deltas(n(2) as _, a[3].parse().unwrap()) {
                None => "-".to_owned(),
                Some((x, y, z)) => format!("{x},{y},{z}"),
            }
        }),
        "past_delete" => PASTS.with(|m| {
            m.borrow_mut().get_mut(&n(1)).unwrap().delete_configs(n(2) as _);
            String::new()
        }),
        "past_free" => PASTS.with(|m| {
            let _ = m.borrow_mut().remove(&n(1));
            String::new()
        }),
        other => panic!("unknown command {other}"),
    }
}

pub fn guarded(f: impl Fn(&str) -> String, ptr: *const u8, len: usize, out_len: *mut usize) -> *mut u8 {
    let line = unsafe { core::str::from_utf8(core::slice::from_raw_parts(ptr, len)).unwrap() };
    let out = match catch_unwind(AssertUnwindSafe(|| f(line))) {
        Ok(s) => format!("+{s}"),
        Err(e) => {
            let msg = e
                .downcast_ref::<&str>()
                .map(|s| (*s).to_owned())
                .or_else(|| e.downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".to_owned());
            format!("!{msg}")
        },
    };
    let b = out.into_bytes().into_boxed_slice();
    unsafe { *out_len = b.len() };
    Box::into_raw(b).cast::<u8>()
}

#[unsafe(no_mangle)]
pub extern "C" fn vcore_call(ptr: *const u8, len: usize, out_len: *mut usize) -> *mut u8 {
    guarded(dispatch, ptr, len, out_len)
}

#[unsafe(no_mangle)]
pub extern "C" fn vfree(ptr: *mut u8, len: usize) {
    unsafe { drop(Box::from_raw(core::slice::from_raw_parts_mut(ptr, len))) };
}

#[unsafe(no_mangle)]
pub extern "C" fn vquiet() {
    std::panic::set_hook(Box::new(|_| {}));
}
