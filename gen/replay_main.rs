// Native replay of one harness on the inputs a counterexample gives.
use CRATE::vf::INPUTS;
static mut CLOCK: Vec<(i64, i64)> = Vec::new();
static mut CLOCK_AT: usize = 0;
#[repr(C)]
pub struct Ts {
    s: i64,
    n: i64,
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let txt = std::fs::read_to_string(&a[2]).unwrap();
    for line in txt.lines() {
        let mut it = line.split_whitespace();
        match it.next() {
            Some("in") => {
                let h = it.next().unwrap_or("");
                let v = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                INPUTS.with(|q| q.borrow_mut().push(v));
            }
            Some("clock") => unsafe {
                #[allow(static_mut_refs)]
                CLOCK.push((it.next().unwrap().parse().unwrap(), it.next().unwrap().parse().unwrap()));
            },
            _ => {}
        }
    }
    std::panic::set_hook(Box::new(|i| println!("PANIC {}", i.to_string().replace('\n', " "))));
    CRATE::run(&a[1]);
    println!("DONE");
}
/// The clock the harness sees: the counterexample's readings, then the real clock's.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Ts) -> i32 {
    unsafe extern "C" {
        fn syscall(n: i64, ...) -> i64;
    }
    unsafe {
        #[allow(static_mut_refs)]
        if id == 0 && !CLOCK.is_empty() {
            let i = CLOCK_AT.min(CLOCK.len() - 1);
            CLOCK_AT += 1;
            (*ts).s = CLOCK[i].0;
            (*ts).n = CLOCK[i].1;
            return 0;
        }
        syscall(228, id as i64, ts) as i32
    }
}
