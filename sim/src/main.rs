#![allow(invalid_runtime_symbol_definitions)]
#![allow(static_mut_refs)]
mod child;
mod driver;
mod kernel;
mod pool;
mod scen;
mod sim;

fn main() {
    unsafe {
        // Fixed addresses: some code hashes them.
        let p = libc::personality(0xffffffff);
        if p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_NOASLR").is_none() {
            libc::personality(p as u64 | libc::ADDR_NO_RANDOMIZE as u64);
            std::env::set_var("SIM_NOASLR", "1");
            std::env::set_var("MALLOC_ARENA_MAX", "1");
            let args: Vec<_> = std::env::args_os().collect();
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe").args(&args[1..]).exec();
            eprintln!("re-exec failed: {e}");
            std::process::exit(2);
        }
        libc::prctl(libc::PR_SET_DUMPABLE, 1);
        let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &rl);
    }
    driver::main();
}
