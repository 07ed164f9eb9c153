//! The process-wide sources of nondeterminism: random numbers (seeds of hash maps) and the system clock.
use std::cell::{Cell, RefCell};
use tokio::time::Instant;

thread_local! {
    static RNG: Cell<u64> = const { Cell::new(0) };
    static ON: Cell<bool> = const { Cell::new(false) };
    static CLOCK: RefCell<Option<Instant>> = const { RefCell::new(None) };
    static WALL: Cell<i64> = const { Cell::new(0) };
}

pub fn begin(seed: u64, wall: u64) {
    RNG.with(|x| x.set(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1));
    WALL.with(|x| x.set(wall as i64));
    ON.with(|x| x.set(true));
}
pub fn clock_on() {
    let now = Instant::now();
    CLOCK.with(|x| *x.borrow_mut() = Some(now));
}
pub fn clock_off() {
    CLOCK.with(|x| *x.borrow_mut() = None);
}
pub fn jump(ms: i64) {
    WALL.with(|x| x.set(x.get() + ms));
}

fn next() -> u64 {
    RNG.with(|x| {
        let mut v = x.get();
        v ^= v << 13;
        v ^= v >> 7;
        v ^= v << 17;
        x.set(v);
        v
    })
}

/// Takes the place of the system's function in this program.
///
/// # Safety
/// `buf` must point to `len` writable bytes.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    let on = ON.try_with(|x| x.get()).unwrap_or(false);
    if !on {
        return libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t;
    }
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for chunk in out.chunks_mut(8) {
        let v = next().to_le_bytes();
        chunk.copy_from_slice(&v[..chunk.len()]);
    }
    len as libc::ssize_t
}

/// Takes the place of the system's function in this program.
///
/// # Safety
/// `ts` must point to a writable `timespec`.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clock == libc::CLOCK_REALTIME {
        let start = CLOCK.try_with(|x| x.try_borrow().ok().and_then(|x| *x)).ok().flatten();
        if let Some(start) = start {
            let ms = WALL.with(|x| x.get()) + start.elapsed().as_millis() as i64;
            (*ts).tv_sec = ms.div_euclid(1000) as libc::time_t;
            (*ts).tv_nsec = (ms.rem_euclid(1000) * 1_000_000) as libc::c_long;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clock, ts) as libc::c_int
}
