//! Minimal stackful coroutines (x86-64 System V), so that thousands of schedules per second can be
//! run deterministically in one OS thread.
use std::arch::naked_asm;
use std::cell::Cell;

const STACK: usize = 256 * 1024;

pub struct Coro { sp: Cell<usize>, done: Cell<bool>, _stack: Vec<u128>, entry: Cell<Option<Box<dyn FnOnce()>>> }

thread_local! {
    static CURRENT: Cell<*const Coro> = const { Cell::new(std::ptr::null()) };
    static MAIN_SP: Cell<usize> = const { Cell::new(0) };
}

#[unsafe(naked)]
unsafe extern "sysv64" fn switch(save: *mut usize, to: usize) {
    naked_asm!(
        "push rbp", "push rbx", "push r12", "push r13", "push r14", "push r15",
        "mov [rdi], rsp", "mov rsp, rsi",
        "pop r15", "pop r14", "pop r13", "pop r12", "pop rbx", "pop rbp",
        "ret")
}

extern "sysv64" fn start() -> ! {
    let c = unsafe { &*CURRENT.get() };
    let f = c.entry.take().unwrap();
    // The caller catches panics inside of `f`.
    f();
    c.done.set(true);
    yield_now();
    std::process::abort()
}

impl Coro {
    pub fn new(stack: Vec<u128>, f: Box<dyn FnOnce()>) -> Box<Coro> {
        let c = Box::new(Coro { sp: Cell::new(0), done: Cell::new(false), _stack: stack, entry: Cell::new(Some(f)) });
        let top = c._stack.as_ptr() as usize + c._stack.capacity() * 16;
        let top = top & !63;
        // Layout as popped by `switch`: six registers, then the address of `start`, then alignment
        // as after a call instruction.
        let sp = top - 64 - 8 * 8;
        unsafe {
            for i in 0..16 { *((sp + i * 8) as *mut usize) = 0; }
            *((sp + 6 * 8) as *mut usize) = start as usize;
        }
        assert_eq!((sp + 7 * 8) % 16, 8);
        c.sp.set(sp);
        c
    }
    pub fn is_done(&self) -> bool { self.done.get() }
    pub fn resume(&self) {
        CURRENT.set(self);
        let mut save = 0usize;
        MAIN_SP.with(|m| unsafe { switch(m.as_ptr(), self.sp.get()) });
        let _ = &mut save;
        CURRENT.set(std::ptr::null());
    }
    pub fn into_stack(self: Box<Self>) -> Vec<u128> { self._stack }
    pub fn new_stack() -> Vec<u128> { Vec::with_capacity(STACK / 16) }
}
pub fn inside() -> bool { !CURRENT.get().is_null() }
pub fn yield_now() {
    let c = unsafe { &*CURRENT.get() };
    unsafe { switch(c.sp.as_ptr(), MAIN_SP.get()) }
}
