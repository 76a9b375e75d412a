//! Native runner for the harnesses: inputs come from a model file, SHA-256 and the hash table are
//! the real ones, checks are comparisons. Output: OBS / ASSERT-FAILED / ASSUME-FAILED / COVER / REPLAY-ERROR.
#[path = "../../harness/src/props/mod.rs"]
pub mod props;

use sha2::{Digest, Sha256};
use std::collections::HashMap;
use std::io::Write;
use std::sync::Mutex;

#[derive(Default)]
struct Model {
    params: HashMap<u64, u64>,
    choices: HashMap<u32, u64>,
    syms: HashMap<(u32, usize), Vec<u8>>,
    /// Inputs the model does not fix are drawn from here (0: fixed values).
    seed: u64,
}
static MODEL: Mutex<Option<Model>> = Mutex::new(None);

fn say(s: &str) {
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "{s}");
    let _ = o.flush();
}
fn bad(s: &str) -> ! {
    say(&format!("REPLAY-ERROR {s}"));
    std::process::exit(77)
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn with<R>(f: impl FnOnce(&mut Model) -> R) -> R {
    match MODEL.lock() {
        Ok(mut g) => match g.as_mut() {
            Some(m) => f(m),
            None => bad("no model"),
        },
        Err(_) => bad("lock"),
    }
}
unsafe fn text(p: *const u8, n: u64) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n as usize)).into_owned()
}
unsafe fn sl<'a>(p: *const u8, n: u64) -> &'a [u8] {
    std::slice::from_raw_parts(p, n as usize)
}

#[no_mangle]
pub unsafe extern "C" fn vp_load(p: *const u8, n: u64) {
    let path = text(p, n);
    let t = match std::fs::read_to_string(&path) {
        Ok(t) => t,
        Err(e) => bad(&format!("{path}: {e}")),
    };
    let mut m = Model::default();
    for l in t.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "param" => {
                m.params.insert(w[1].parse().unwrap(), w[2].parse().unwrap());
            }
            "choose" => {
                m.choices.insert(w[1].parse().unwrap(), w[2].parse().unwrap());
            },
            "sym" => {
                let h = w.get(2).copied().unwrap_or("");
                let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                m.syms.insert((w[1].parse().unwrap(), b.len()), b);
            }
            "seed" => m.seed = w[1].parse().unwrap(),
            _ => {}
        }
    }
    *MODEL.lock().unwrap() = Some(m);
}
#[no_mangle]
pub unsafe extern "C" fn vp_sym(tag: u32, p: *mut u8, n: u64) {
    let o = std::slice::from_raw_parts_mut(p, n as usize);
    // an input the explored path never asked for may have any value
    with(|m| match m.syms.get(&(tag, n as usize)) {
        Some(b) => o.copy_from_slice(b),
        None if m.seed == 0 => o.fill(0x5a),
        None => {
            let h = Sha256::digest(format!("{} {tag} {n}", m.seed).as_bytes());
            for (i, x) in o.iter_mut().enumerate() {
                *x = h[i % 32];
            }
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn vp_choose(tag: u32, n: u64) -> u64 {
    // one value per tag, however often it is asked for
    let v = with(|m| {
        if let Some(v) = m.choices.get(&tag) {
            return *v;
        }
        let mut v = 0;
        if m.seed != 0 {
            let h = Sha256::digest(format!("{} choose {tag}", m.seed).as_bytes());
            v = u64::from_le_bytes(h[..8].try_into().unwrap()) % n.max(1);
        }
        m.choices.insert(tag, v);
        v
    });
    if v >= n {
        bad("choice out of range")
    }
    v
}
#[no_mangle]
pub unsafe extern "C" fn vp_formatter() -> *mut u8 {
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn vp_mark(_tag: u32, _v: u64) {}
#[no_mangle]
pub unsafe extern "C" fn vp_param(i: u64) -> u64 {
    with(|m| m.params.get(&i).copied()).unwrap_or(0)
}
#[no_mangle]
pub unsafe extern "C" fn vp_assume(c: bool) {
    if !c {
        say("ASSUME-FAILED");
        std::process::exit(78)
    }
}
#[no_mangle]
pub unsafe extern "C" fn vp_assert(c: bool, id: *const u8, n: u64) {
    if !c {
        say(&format!("ASSERT-FAILED {}", text(id, n)));
    }
}
#[no_mangle]
pub unsafe extern "C" fn vp_assert_eq(p: *const u8, q: *const u8, n: u64, id: *const u8, idn: u64) {
    if sl(p, n) != sl(q, n) {
        say(&format!("ASSERT-FAILED {} got {} expected {}", text(id, idn), hex(sl(p, n)), hex(sl(q, n))));
    }
}
#[no_mangle]
pub unsafe extern "C" fn vp_eq(p: *const u8, q: *const u8, n: u64) -> bool {
    sl(p, n) == sl(q, n)
}
#[no_mangle]
pub unsafe extern "C" fn vp_find(base: *const *const u8, count: u64, key: *const u8, n: u64) -> i64 {
    for i in (0..count).rev() {
        if sl(*base.add(i as usize), n) == sl(key, n) {
            return i as i64;
        }
    }
    -1
}
#[no_mangle]
pub unsafe extern "C" fn vp_hash(p: *const u8, n: u64, out: *mut u8) {
    let h = Sha256::digest(sl(p, n));
    std::slice::from_raw_parts_mut(out, 32).copy_from_slice(&h);
}
#[no_mangle]
pub unsafe extern "C" fn vp_observe(tag: *const u8, tn: u64, p: *const u8, n: u64) {
    say(&format!("OBS {} {}", text(tag, tn), hex(sl(p, n))));
}
#[no_mangle]
pub unsafe extern "C" fn vp_cover(id: *const u8, n: u64) {
    say(&format!("COVER {}", text(id, n)));
}
