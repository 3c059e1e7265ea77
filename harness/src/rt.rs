//! The primitives a harness is written with.
#[cfg(not(vx_native))]
mod sys {
    extern "C" {
        pub fn vx_choice(k: u64) -> u64;
        pub fn vx_slice(k: u64) -> u64;
        pub fn vx_assume(c: bool);
        pub fn vx_assert(c: bool, p: *const u8, n: usize);
        pub fn vx_cover(c: bool, p: *const u8, n: usize);
        pub fn vx_observe(x: u64);
    }
}

/// any value below k
#[inline(always)]
pub fn choice(k: usize) -> usize {
    #[cfg(not(vx_native))]
    unsafe {
        sys::vx_choice(k as u64) as usize
    }
    #[cfg(vx_native)]
    native::choice(k)
}
/// any value below k; the work may be split over its values
#[inline(always)]
pub fn slice(k: usize) -> usize {
    #[cfg(not(vx_native))]
    unsafe {
        sys::vx_slice(k as u64) as usize
    }
    #[cfg(vx_native)]
    native::choice(k)
}
#[inline(always)]
pub fn any() -> bool {
    choice(2) == 1
}
#[inline(always)]
pub fn assume(c: bool) {
    #[cfg(not(vx_native))]
    unsafe {
        sys::vx_assume(c)
    }
    #[cfg(vx_native)]
    native::assume(c)
}
#[inline(always)]
pub fn check(c: bool, m: &'static str) {
    #[cfg(not(vx_native))]
    unsafe {
        sys::vx_assert(c, m.as_ptr(), m.len())
    }
    #[cfg(vx_native)]
    native::check(c, m)
}
/// some admissible input makes c true here
#[inline(always)]
pub fn cover(c: bool, m: &'static str) {
    #[cfg(not(vx_native))]
    unsafe {
        sys::vx_cover(c, m.as_ptr(), m.len())
    }
    #[cfg(vx_native)]
    let _ = (c, m);
}
#[inline(always)]
pub fn observe(x: usize) {
    #[cfg(not(vx_native))]
    unsafe {
        sys::vx_observe(x as u64)
    }
    #[cfg(vx_native)]
    native::observe(x)
}
/// choose the iteration order of the hash containers
#[inline(always)]
pub fn hash_order(k: usize) {
    const M: [usize; 8] = [0, 7, 2, 5, 1, 6, 3, 4];
    let o = choice(k);
    dandy::verif::set_order(M[o]);
}

#[cfg(vx_native)]
pub mod native {
    use std::cell::RefCell;
    #[derive(Default)]
    struct St {
        inp: Vec<u64>,
        at: usize,
        obs: Vec<u64>,
        fails: Vec<String>,
    }
    thread_local! { static ST: RefCell<St> = RefCell::default(); }

    pub fn choice(k: usize) -> usize {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            let v = *s.inp.get(s.at).unwrap_or(&0) as usize;
            s.at += 1;
            v.min(k.max(1) - 1)
        })
    }
    struct Stop;
    pub fn assume(c: bool) {
        if !c {
            std::panic::resume_unwind(Box::new(Stop));
        }
    }
    pub fn check(c: bool, m: &'static str) {
        if !c {
            // the symbolic run does not continue past a failed assertion either
            ST.with(|s| s.borrow_mut().fails.push(m.to_string()));
            std::panic::resume_unwind(Box::new(Stop));
        }
    }
    pub fn observe(x: usize) {
        ST.with(|s| s.borrow_mut().obs.push(x as u64));
    }
    /// usage: vh ENTRY FILE ; every line of FILE is an input (comma-separated); one line of result per input
    pub fn main(entry: fn(&str) -> Option<fn()>) {
        let a: Vec<String> = std::env::args().collect();
        let f = entry(&a[1]).expect("no such entry");
        std::panic::set_hook(Box::new(|i| {
            if let Some(l) = i.location() {
                ST.with(|s| {
                    s.borrow_mut().fails.push(format!("panic: {}:{} {}", l.file(), l.line(), i.to_string().replace('\n', " ")))
                });
            }
        }));
        for line in std::fs::read_to_string(&a[2]).unwrap().lines() {
            let inp: Vec<u64> = line.split(',').filter_map(|x| x.trim().parse().ok()).collect();
            ST.with(|s| *s.borrow_mut() = St { inp, ..St::default() });
            let r = std::panic::catch_unwind(|| f());
            ST.with(|s| {
                let s = s.borrow();
                let what = if !s.fails.is_empty() {
                    format!("FAIL {}", s.fails.join(" ; "))
                } else if let Err(e) = &r {
                    if e.is::<Stop>() { "SKIP".into() } else { "FAIL panic".to_string() }
                } else {
                    "OK".into()
                };
                let o: Vec<String> = s.obs.iter().map(|x| x.to_string()).collect();
                println!("{}\t{}", o.join(","), what);
            });
        }
    }
}

/// declare the entry points of a property file
#[macro_export]
macro_rules! entries {
    ($($name:ident = $body:path;)*) => {
        #[cfg(not(vx_native))]
        mod ent { use super::*; $( #[no_mangle] pub extern "C" fn $name() { $body() } )* }
        #[cfg(not(vx_native))]
        pub fn anchor() { $( ent::$name(); )* }
        #[cfg(vx_native)]
        pub fn entry(n: &str) -> Option<fn()> {
            match n {
                $( stringify!($name) => Some($body), )*
                _ => None,
            }
        }
    };
}
