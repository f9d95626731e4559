//! Executes call scripts on the real ebur128 crate and reports what each call returned.
//!
//! Reads one command per line on stdin, writes one JSON line per command on stdout.
//! The commands and answers are described in DESIGN.md ("Executor").

mod signal;

use ebur128::{capi, Channel, EbuR128, Error, Mode};
use signal::Sig;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::{BufRead, Write as _};
use std::os::raw::c_ulong;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[repr(C)]
struct CState {
    mode: i32,
    channels: u32,
    samplerate: c_ulong,
    internal: *mut EbuR128,
}

enum Inst {
    Rust(EbuR128),
    C(*mut capi::State),
    Dead,
}
unsafe impl Send for Inst {}

fn code(e: Error) -> i32 {
    match e {
        Error::NoMem => 1,
        Error::InvalidMode => 2,
        Error::InvalidChannelIndex => 3,
    }
}

fn ret(r: Result<(), Error>) -> i32 {
    match r {
        Ok(()) => 0,
        Err(e) => code(e),
    }
}

const ROLES: [Channel; 32] = {
    use Channel::*;
    [
        Unused, Left, Right, Center, LeftSurround, RightSurround, DualMono, MpSC, MmSC, Mp060,
        Mm060, Mp090, Mm090, Mp135, Mm135, Mp180, Up000, Up030, Um030, Up045, Um045, Up090, Um090,
        Up110, Um110, Up135, Um135, Up180, Tp000, Bp000, Bp045, Bm045,
    ]
};

fn role_index(c: Channel) -> i32 {
    ROLES.iter().position(|r| *r == c).unwrap() as i32
}

#[cfg(target_arch = "x86_64")]
#[allow(deprecated)]
fn get_fpenv() -> u32 {
    unsafe { std::arch::x86_64::_mm_getcsr() & 0xffc0 }
}
#[cfg(target_arch = "x86_64")]
#[allow(deprecated)]
fn set_fpenv(v: u32) {
    unsafe { std::arch::x86_64::_mm_setcsr(v & 0xffc0) }
}
const DEFAULT_FPENV: u32 = 0x1f80;

thread_local! {
    /// The floating-point environment the library is called in, and the one it left behind.
    static ENV: Cell<u32> = const { Cell::new(DEFAULT_FPENV) };
    static AFTER: Cell<u32> = const { Cell::new(DEFAULT_FPENV) };
}

/// Counts the bytes that calls of the library allocate and release on this thread.
struct Counting;
thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
}
fn count(n: i64) {
    if INSIDE.try_with(|x| x.get()).unwrap_or(false) {
        let _ = BYTES.try_with(|b| b.set(b.get() + n));
    }
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let p = std::alloc::System.alloc(l);
        if !p.is_null() {
            count(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        let p = std::alloc::System.alloc_zeroed(l);
        if !p.is_null() {
            count(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        count(-(l.size() as i64));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let q = std::alloc::System.realloc(p, l, n);
        if !q.is_null() {
            count(n as i64 - l.size() as i64);
        }
        q
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;

/// Every call of the library goes through here.
#[inline(never)]
fn lib<R>(f: impl FnOnce() -> R) -> R {
    let env = ENV.get();
    INSIDE.set(true);
    set_fpenv(env);
    let r = f();
    let after = get_fpenv();
    set_fpenv(DEFAULT_FPENV);
    INSIDE.set(false);
    if after != env {
        AFTER.set(after);
    }
    r
}

/// A number as the pair of its 32 bit halves.
fn num(out: &mut String, v: f64) {
    let b = v.to_bits();
    let _ = write!(out, "{},{}", (b >> 32) as u32 as i32, b as u32 as i32);
}
fn res(out: &mut String, r: Result<f64, i32>) {
    match r {
        Ok(v) => {
            out.push_str("[0,");
            num(out, v);
            out.push(']');
        }
        Err(e) => {
            let _ = write!(out, "[{e},0,0]");
        }
    }
}
/// Milliseconds as three digits of base 2^24.
fn wide(out: &mut String, v: u64) {
    let _ = write!(out, "[{},{},{}]", v >> 48, (v >> 24) & 0xffffff, v & 0xffffff);
}

/// Whether a type may be used through shared references by several threads.
struct IsSync<T>(std::marker::PhantomData<T>);
trait Maybe {
    const SHARED: bool = false;
}
impl<T> Maybe for IsSync<T> {}
impl<T: Sync> IsSync<T> {
    const SHARED: bool = true;
}
struct Shared<'a>(&'a Inst);
unsafe impl Sync for Shared<'_> {}

/// The answers of n threads that ask the same instance at the same time (one after the other where
/// an instance cannot be shared).
fn observe_together(inst: &Inst, n: usize, windows: &[u64]) -> Vec<String> {
    if !IsSync::<EbuR128>::SHARED {
        return (0..n).map(|_| observe(inst, windows)).collect();
    }
    let (env, bytes, it, start) = (ENV.get(), BYTES.get(), Shared(inst), std::sync::Barrier::new(n));
    let (it, start) = (&it, &start);
    std::thread::scope(|scope| {
        let hs: Vec<_> = (0..n)
            .map(|_| {
                scope.spawn(move || {
                    let it = it;
                    ENV.set(env);
                    BYTES.set(bytes);
                    start.wait();
                    (0..4).map(|_| catch_unwind(AssertUnwindSafe(|| observe(it.0, windows)))).last().unwrap()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap().unwrap_or_else(|_| "{\"panic\":1}".into())).collect()
    })
}

/// Creates, uses and destroys an instance a few times; the bytes the last of these cycles left behind.
fn cycles(api: bool, ch: u32, rate: u32, mode: i32) -> i64 {
    let x = vec![0.25f64; ch as usize * (rate as usize / 2 + 40)];
    let mut left = 0;
    for _ in 0..4 {
        BYTES.set(0);
        if api {
            lib(|| unsafe {
                let mut s = capi::ebur128_init(ch, rate as c_ulong, mode);
                let mut v = 0.0;
                capi::ebur128_add_frames_double(s, x.as_ptr(), x.len() / ch as usize);
                capi::ebur128_loudness_global(s, &mut v);
                capi::ebur128_loudness_range(s, &mut v);
                capi::ebur128_change_parameters(s, ch % 64 + 1, rate as c_ulong);
                capi::ebur128_set_max_window(s, 7000);
                capi::ebur128_set_max_history(s, 7000);
                capi::ebur128_loudness_range_multiple(&mut s, 1, &mut v);
                capi::ebur128_destroy(&mut s);
            });
        } else {
            lib(|| {
                let mut e = EbuR128::new(ch, rate, Mode::from_bits_truncate(mode as u8)).unwrap();
                let _ = e.add_frames_f64(&x);
                let _ = (e.loudness_global(), e.loudness_range(), e.change_parameters(ch % 64 + 1, rate));
                let _ = (e.set_max_window(7000), e.set_max_history(7000), EbuR128::loudness_range_multiple([&e].into_iter()));
            });
        }
        left = BYTES.get();
    }
    left
}

/// Channel numbers no instance has, asked for with every query of peaks.
const FAR: [u32; 2] = [256, u32::MAX];

const SENTINEL: u64 = 0x7ff8_dead_beef_0001;

/// Calls a C query; an output written on failure or not written on success is an error of its own.
fn c_query(f: impl FnOnce(*mut f64) -> i32) -> Result<f64, i32> {
    let mut v = f64::from_bits(SENTINEL);
    let r = lib(|| f(&mut v));
    match (r, v.to_bits() == SENTINEL) {
        (0, false) => Ok(v),
        (0, true) => Err(200),
        (e, true) => Err(e),
        (e, false) => Err(100 + e),
    }
}

fn make<T>(ch: usize, n: usize, planar: bool, f: impl Fn(usize, i64) -> T, from: i64) -> Vec<Vec<T>> {
    if planar {
        (1..=ch).map(|c| (0..n).map(|i| f(c, from + i as i64)).collect()).collect()
    } else {
        let mut v = Vec::with_capacity(n * ch);
        for i in 0..n {
            for c in 1..=ch {
                v.push(f(c, from + i as i64));
            }
        }
        vec![v]
    }
}

fn slices<T>(v: &[Vec<T>]) -> Vec<&[T]> {
    v.iter().map(|x| &x[..]).collect()
}

/// fmt: 0 i16, 1 i32, 2 f32, 3 f64
fn feed(inst: &mut Inst, ch: usize, sig: &Sig, from: i64, n: usize, fmt: u8, planar: bool, seed: bool) -> i32 {
    macro_rules! go {
        ($get:ident, $add:ident, $addp:ident, $seed:ident, $seedp:ident, $c:ident) => {{
            let data = make(ch, n, planar, |c, i| sig.$get(c, i), from);
            match inst {
                Inst::Rust(e) => {
                    let parts = slices(&data);
                    let whole = data.first().map(|d| &d[..]).unwrap_or(&[]);
                    ret(lib(|| match (planar, seed) {
                        (false, false) => e.$add(whole),
                        (true, false) => e.$addp(&parts),
                        (false, true) => e.$seed(whole),
                        (true, true) => e.$seedp(&parts),
                    }))
                }
                Inst::C(s) => {
                    assert!(!planar && !seed);
                    lib(|| unsafe { capi::$c(*s, data[0].as_ptr(), n) })
                }
                Inst::Dead => 8,
            }
        }};
    }
    match fmt {
        0 => go!(i16, add_frames_i16, add_frames_planar_i16, seed_frames_i16, seed_frames_planar_i16, ebur128_add_frames_short),
        1 => go!(i32, add_frames_i32, add_frames_planar_i32, seed_frames_i32, seed_frames_planar_i32, ebur128_add_frames_int),
        2 => go!(f32, add_frames_f32, add_frames_planar_f32, seed_frames_f32, seed_frames_planar_f32, ebur128_add_frames_float),
        _ => go!(f64, add_frames_f64, add_frames_planar_f64, seed_frames_f64, seed_frames_planar_f64, ebur128_add_frames_double),
    }
}

/// A buffer of a given shape, filled with half scale samples.
fn feed_raw(inst: &mut Inst, fmt: u8, planar: bool, seed: bool, lens: &[usize]) -> i32 {
    macro_rules! go {
        ($v:expr, $add:ident, $addp:ident, $seed:ident, $seedp:ident) => {{
            let data: Vec<Vec<_>> = lens.iter().map(|n| vec![$v; *n]).collect();
            match inst {
                Inst::Rust(e) => {
                    let parts = slices(&data);
                    let whole = data.first().map(|d| &d[..]).unwrap_or(&[]);
                    ret(lib(|| match (planar, seed) {
                        (false, false) => e.$add(whole),
                        (true, false) => e.$addp(&parts),
                        (false, true) => e.$seed(whole),
                        (true, true) => e.$seedp(&parts),
                    }))
                }
                _ => 8,
            }
        }};
    }
    match fmt {
        0 => go!(16384i16, add_frames_i16, add_frames_planar_i16, seed_frames_i16, seed_frames_planar_i16),
        1 => go!(1i32 << 30, add_frames_i32, add_frames_planar_i32, seed_frames_i32, seed_frames_planar_i32),
        2 => go!(0.5f32, add_frames_f32, add_frames_planar_f32, seed_frames_f32, seed_frames_planar_f32),
        _ => go!(0.5f64, add_frames_f64, add_frames_planar_f64, seed_frames_f64, seed_frames_planar_f64),
    }
}

fn observe(inst: &Inst, windows: &[u64]) -> String {
    let mut o = String::from("{\"mem\":");
    wide(&mut o, BYTES.get().max(0) as u64);
    o.push(',');
    match inst {
        Inst::Rust(e) => {
            let q = |r: Result<f64, Error>| r.map_err(code);
            o.push_str("\"m\":");
            res(&mut o, q(lib(|| e.loudness_momentary())));
            o.push_str(",\"s\":");
            res(&mut o, q(lib(|| e.loudness_shortterm())));
            o.push_str(",\"w\":[");
            for (k, w) in windows.iter().enumerate() {
                o.push_str(if k > 0 { ",[" } else { "[" });
                wide(&mut o, *w);
                o.push(',');
                res(&mut o, q(lib(|| e.loudness_window(*w as u32))));
                o.push(']');
            }
            o.push_str("],\"g\":");
            res(&mut o, q(lib(|| e.loudness_global())));
            o.push_str(",\"r\":");
            res(&mut o, q(lib(|| e.loudness_range())));
            o.push_str(",\"t\":");
            res(&mut o, q(lib(|| e.relative_threshold())));
            o.push_str(",\"c\":");
            match lib(|| e.gating_block_count_and_energy()) {
                Some((n, v)) => {
                    let _ = write!(o, "[0,{},", n.min(i32::MAX as u64));
                    num(&mut o, v);
                    o.push(']');
                }
                None => o.push_str("[5,0,0,0]"),
            }
            for (name, f) in [
                ("sp", &EbuR128::sample_peak as &dyn Fn(&EbuR128, u32) -> Result<f64, Error>),
                ("psp", &EbuR128::prev_sample_peak),
                ("tp", &EbuR128::true_peak),
                ("ptp", &EbuR128::prev_true_peak),
            ] {
                let _ = write!(o, ",\"{name}\":[");
                for c in (0..=e.channels()).chain(FAR) {
                    if c > 0 {
                        o.push(',');
                    }
                    res(&mut o, q(lib(|| f(e, c))));
                }
                o.push(']');
            }
            let _ = write!(o, ",\"cfg\":[{},{},{}],\"map\":[", e.mode().bits(), e.channels(), e.rate());
            for (k, c) in e.channel_map().iter().enumerate() {
                let _ = write!(o, "{}{}", if k > 0 { "," } else { "" }, role_index(*c));
            }
            o.push_str("],\"ms\":[");
            wide(&mut o, e.max_window() as u64);
            o.push(',');
            wide(&mut o, e.max_history() as u64);
            o.push(']');
        }
        Inst::C(s) => unsafe {
            let s = *s;
            o.push_str("\"m\":");
            res(&mut o, c_query(|p| capi::ebur128_loudness_momentary(s, p)));
            o.push_str(",\"s\":");
            res(&mut o, c_query(|p| capi::ebur128_loudness_shortterm(s, p)));
            o.push_str(",\"w\":[");
            for (k, w) in windows.iter().enumerate() {
                o.push_str(if k > 0 { ",[" } else { "[" });
                wide(&mut o, *w);
                o.push(',');
                res(&mut o, c_query(|p| capi::ebur128_loudness_window(s, *w as c_ulong, p)));
                o.push(']');
            }
            o.push_str("],\"g\":");
            res(&mut o, c_query(|p| capi::ebur128_loudness_global(s, p)));
            o.push_str(",\"r\":");
            res(&mut o, c_query(|p| capi::ebur128_loudness_range(s, p)));
            o.push_str(",\"t\":");
            res(&mut o, c_query(|p| capi::ebur128_relative_threshold(s, p)));
            o.push_str(",\"c\":[-1,0,0,0]");
            let cs = &*(s as *const CState);
            for (name, f) in [
                ("sp", capi::ebur128_sample_peak as unsafe extern "C" fn(*mut capi::State, u32, *mut f64) -> i32),
                ("psp", capi::ebur128_prev_sample_peak),
                ("tp", capi::ebur128_true_peak),
                ("ptp", capi::ebur128_prev_true_peak),
            ] {
                let _ = write!(o, ",\"{name}\":[");
                for c in (0..=cs.channels).chain(FAR) {
                    if c > 0 {
                        o.push(',');
                    }
                    res(&mut o, c_query(|p| f(s, c, p)));
                }
                o.push(']');
            }
            let rate = cs.samplerate.min(i32::MAX as c_ulong);
            let _ = write!(o, ",\"cfg\":[{},{},{}],\"map\":[],\"ms\":[]", cs.mode, cs.channels, rate);
        },
        Inst::Dead => o.push_str("\"dead\":1"),
    }
    o.push('}');
    o
}

fn ints<T: std::str::FromStr>(s: &str) -> Vec<T> {
    if s == "-" {
        return vec![];
    }
    s.split(',').map(|x| x.parse().ok().expect("number")).collect()
}

fn channels_of(inst: &Inst) -> usize {
    match inst {
        Inst::Rust(e) => e.channels() as usize,
        Inst::C(s) => unsafe { (*(*s as *const CState)).channels as usize },
        Inst::Dead => 1,
    }
}

/// Executes one command on one instance, except for panics.
fn step(inst: &mut Inst, sigs: &BTreeMap<u32, Sig>, t: &[&str]) -> String {
    let r = match t[0] {
        "A" | "E" => {
            let sig = &sigs[&t[2].parse().unwrap()];
            let ch = channels_of(inst);
            feed(inst, ch, sig, t[3].parse().unwrap(), t[4].parse().unwrap(), t[5].parse().unwrap(), t[6] == "1", t[0] == "E")
        }
        // a C call that claims more frames than can exist; the buffer is large enough for any wrapped size seen here
        "X" => {
            let (fmt, frames): (u8, u64) = (t[2].parse().unwrap(), t[3].parse().unwrap());
            let buf = vec![0u64; 1 << 16];
            match inst {
                Inst::C(s) => lib(|| unsafe {
                    match fmt {
                        0 => capi::ebur128_add_frames_short(*s, buf.as_ptr().cast(), frames as usize),
                        1 => capi::ebur128_add_frames_int(*s, buf.as_ptr().cast(), frames as usize),
                        2 => capi::ebur128_add_frames_float(*s, buf.as_ptr().cast(), frames as usize),
                        _ => capi::ebur128_add_frames_double(*s, buf.as_ptr().cast(), frames as usize),
                    }
                }),
                _ => 8,
            }
        }
        "B" => feed_raw(inst, t[3].parse().unwrap(), t[4] == "1", t[2] == "1", &ints(t[5])),
        "R" => match inst {
            Inst::Rust(e) => {
                lib(|| e.reset());
                0
            }
            _ => 8,
        },
        "C" => {
            let (ch, rate): (u32, u64) = (t[2].parse().unwrap(), t[3].parse().unwrap());
            match inst {
                Inst::Rust(e) => ret(lib(|| e.change_parameters(ch, rate as u32))),
                Inst::C(s) => lib(|| unsafe { capi::ebur128_change_parameters(*s, ch, rate as c_ulong) }),
                Inst::Dead => 8,
            }
        }
        "W" | "H" => {
            let ms: u64 = t[2].parse().unwrap();
            match (inst, t[0]) {
                (Inst::Rust(e), "W") => ret(lib(|| e.set_max_window(ms as u32))),
                (Inst::Rust(e), _) => ret(lib(|| e.set_max_history(ms as u32))),
                (Inst::C(s), "W") => lib(|| unsafe { capi::ebur128_set_max_window(*s, ms as c_ulong) }),
                (Inst::C(s), _) => lib(|| unsafe { capi::ebur128_set_max_history(*s, ms as c_ulong) }),
                (Inst::Dead, _) => 8,
            }
        }
        "K" => {
            let (c, role): (u32, usize) = (t[2].parse().unwrap(), t[3].parse().unwrap());
            match inst {
                Inst::Rust(e) => ret(lib(|| e.set_channel(c, ROLES[role]))),
                Inst::C(s) => lib(|| unsafe { capi::ebur128_set_channel(*s, c, role as i32) }),
                Inst::Dead => 8,
            }
        }
        "M" => {
            let map: Vec<Channel> = ints::<usize>(t[2]).iter().map(|r| ROLES[*r]).collect();
            match inst {
                Inst::Rust(e) => ret(lib(|| e.set_channel_map(&map))),
                _ => 8,
            }
        }
        "O" => return format!("\"ret\":0,\"o\":{}", observe(inst, &ints(t[2]))),
        "Z" => {
            let all = observe_together(inst, t[2].parse().unwrap(), &ints(t[3]));
            return format!("\"ret\":{},\"os\":[{}]", if all.iter().any(|o| o.contains("panic")) { 9 } else { 0 }, all.join(","));
        }
        "D" => {
            let old = std::mem::replace(inst, Inst::Dead);
            match old {
                Inst::C(s) => unsafe {
                    let mut p = s;
                    lib(|| capi::ebur128_destroy(&mut p));
                    let nulled = p.is_null();
                    // NULL is accepted, both as the state and as the pointer to it
                    capi::ebur128_destroy(&mut p);
                    capi::ebur128_destroy(std::ptr::null_mut());
                    if nulled {
                        0
                    } else {
                        7
                    }
                },
                Inst::Rust(_) => 0,
                Inst::Dead => 8,
            }
        }
        c => panic!("unknown command {c}"),
    };
    format!("\"ret\":{r}")
}

fn create(t: &[&str]) -> (Inst, i32) {
    let (ch, rate, mode): (u32, u64, i32) = (t[3].parse().unwrap(), t[4].parse().unwrap(), t[5].parse().unwrap());
    if t[2] == "1" {
        let s = lib(|| unsafe { capi::ebur128_init(ch, rate as c_ulong, mode) });
        if s.is_null() {
            (Inst::Dead, 6)
        } else {
            (Inst::C(s), 0)
        }
    } else {
        match lib(|| EbuR128::new(ch, rate as u32, Mode::from_bits_truncate(mode as u8))) {
            Ok(e) => (Inst::Rust(e), 0),
            Err(e) => (Inst::Dead, code(e)),
        }
    }
}

fn multi(insts: &[&Inst], range: bool, c_api: bool) -> Result<f64, i32> {
    if insts.iter().any(|i| matches!(i, Inst::Dead)) {
        return Err(8);
    }
    if c_api {
        let mut v: Vec<*mut capi::State> = insts
            .iter()
            .map(|i| match i {
                Inst::C(s) => *s,
                _ => panic!("mixed APIs"),
            })
            .collect();
        c_query(|p| unsafe {
            if range {
                capi::ebur128_loudness_range_multiple(v.as_mut_ptr(), v.len(), p)
            } else {
                capi::ebur128_loudness_global_multiple(v.as_mut_ptr(), v.len(), p)
            }
        })
    } else {
        let it = insts.iter().map(|i| match i {
            Inst::Rust(e) => e,
            _ => unreachable!(),
        });
        if range {
            lib(|| EbuR128::loudness_range_multiple(it)).map_err(code)
        } else {
            lib(|| EbuR128::loudness_global_multiple(it)).map_err(code)
        }
    }
}

/// Runs f as the caller with the given floating-point environment; returns its result and the
/// environment it left behind.
fn guarded(env: u32, f: impl FnOnce() -> String) -> (String, u32) {
    ENV.set(env);
    AFTER.set(env);
    let r = catch_unwind(AssertUnwindSafe(f));
    set_fpenv(DEFAULT_FPENV);
    INSIDE.set(false);
    (r.unwrap_or_else(|_| "\"ret\":9".to_string()), AFTER.get())
}

fn parse_sig(t: &[&str]) -> Sig {
    Sig {
        kind: t[2].into(),
        a: ints(t[3]),
        seed: t[4].parse().unwrap(),
        h: t[5].parse().unwrap(),
        lev: ints(t[6]),
        p: t[7].parse().unwrap(),
        e: t[8].parse().unwrap(),
        low: t[9] == "1",
        fr: t[10].parse().unwrap(),
        rate: t[11].parse().unwrap(),
        f32: t[13] == "1",
        cp: if t[14] == "-" { vec![] } else { ints(t[14]) },
        sp: if t[12] == "-" {
            vec![]
        } else {
            t[12]
                .split(',')
                .map(|s| {
                    let p: Vec<&str> = s.split(':').collect();
                    (p[0].parse().unwrap(), p[1].parse().unwrap(), p[2].to_string())
                })
                .collect()
        },
    }
}

fn main() {
    let flush_each = std::env::args().any(|a| a == "--flush");
    std::panic::set_hook(Box::new(|_| ()));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::with_capacity(1 << 20, stdout.lock());
    let mut sigs: BTreeMap<u32, Sig> = BTreeMap::new();
    // each with the bytes it holds
    let mut insts: BTreeMap<u32, (Inst, i64)> = BTreeMap::new();
    let mut env = DEFAULT_FPENV;
    // calls collected for threads, each with the environment its thread is in
    let mut par: Option<Vec<(u32, String)>> = None;

    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let t: Vec<&str> = line.split_whitespace().collect();
        if t.is_empty() {
            continue;
        }
        if t[0] == "Q" {
            // run what was collected, one thread per instance
            let lines = par.take().unwrap();
            let mut by: BTreeMap<u32, Vec<(usize, u32, &str)>> = BTreeMap::new();
            let mut answers: Vec<String> = vec![String::new(); lines.len()];
            for (k, (e, l)) in lines.iter().enumerate() {
                if l.starts_with('F') {
                    answers[k] = format!("{{\"ret\":0,\"fe\":{e}}}");
                    continue;
                }
                let i: u32 = l.split_whitespace().nth(1).unwrap().parse().unwrap();
                by.entry(i).or_default().push((k, *e, l));
            }
            let sigs = &sigs;
            std::thread::scope(|scope| {
                let mut hs = vec![];
                for (i, ls) in by {
                    let (mut inst, bytes) = insts.remove(&i).unwrap_or((Inst::Dead, 0));
                    hs.push(scope.spawn(move || {
                        let mut res = vec![];
                        BYTES.set(bytes);
                        for (k, e, l) in ls {
                            let t: Vec<&str> = l.split_whitespace().collect();
                            let (mut r, mut after) = guarded(e, || step(&mut inst, sigs, &t));
                            if t[0] == "O" {
                                // asked again and again while the other threads work: always the same answer
                                let start = std::time::Instant::now();
                                let first = r.clone();
                                while r == first && start.elapsed().as_micros() < 2500 {
                                    (r, after) = guarded(e, || step(&mut inst, sigs, &t));
                                }
                            }
                            let e = after;
                            res.push((k, format!("{{{r},\"fe\":{e}}}")));
                        }
                        (i, (inst, BYTES.get()), res)
                    }));
                }
                for h in hs {
                    let (i, inst, res) = h.join().unwrap();
                    insts.insert(i, inst);
                    for (k, r) in res {
                        answers[k] = r;
                    }
                }
            });
            for a in answers {
                writeln!(out, "{a}").unwrap();
            }
            writeln!(out, "{{\"ret\":0,\"fe\":{env}}}").unwrap();
            continue;
        }
        if let Some(p) = par.as_mut() {
            if t[0] == "F" {
                env = t[1].parse().unwrap();
            }
            p.push((env, line));
            continue;
        }
        let (r, e) = match t[0] {
            "T" => {
                for (_, (i, _)) in std::mem::take(&mut insts) {
                    if let Inst::C(mut s) = i {
                        let _ = catch_unwind(AssertUnwindSafe(|| unsafe { capi::ebur128_destroy(&mut s) }));
                    }
                }
                sigs.clear();
                env = DEFAULT_FPENV;
                out.flush().unwrap();
                ("\"ret\":0".to_string(), env)
            }
            "G" => {
                sigs.insert(t[1].parse().unwrap(), parse_sig(&t));
                continue;
            }
            "F" => {
                env = t[1].parse().unwrap();
                ("\"ret\":0".to_string(), env)
            }
            "P" => {
                par = Some(vec![]);
                ("\"ret\":0".to_string(), env)
            }
            "N" => {
                let mut made = Inst::Dead;
                BYTES.set(0);
                let r = guarded(env, || {
                    let (i, r) = create(&t);
                    made = i;
                    format!("\"ret\":{r}")
                });
                insts.insert(t[1].parse().unwrap(), (made, BYTES.get()));
                r
            }
            "V" => guarded(env, || {
                let mut v = [-1; 3];
                let [a, b, c] = &mut v;
                lib(|| unsafe { capi::ebur128_get_version(a, b, c) });
                format!("\"ret\":0,\"v\":{v:?}")
            }),
            "L" => guarded(env, || {
                let left = cycles(t[1] == "1", t[2].parse().unwrap(), t[3].parse().unwrap(), t[4].parse().unwrap());
                format!("\"ret\":0,\"left\":{}", left.clamp(-9999999, 9999999))
            }),
            "U" => {
                let is: Vec<u32> = ints(t[2]);
                let v: Vec<&Inst> = is.iter().map(|i| insts.get(i).map_or(&Inst::Dead, |x| &x.0)).collect();
                guarded(env, || {
                    let mut s = String::from("\"ret\":0,\"res\":");
                    res(&mut s, multi(&v, t[1].ends_with('r'), t[1].starts_with('c')));
                    s
                })
            }
            _ => {
                let (inst, bytes) = insts.entry(t[1].parse().unwrap()).or_insert((Inst::Dead, 0));
                BYTES.set(*bytes);
                let r = guarded(env, || step(inst, &sigs, &t));
                *bytes = BYTES.get();
                r
            }
        };
        writeln!(out, "{{{r},\"fe\":{e}}}").unwrap();
        if flush_each {
            out.flush().unwrap();
        }
    }
    out.flush().unwrap();
}
