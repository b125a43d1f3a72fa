//! libFuzzer target: the mutated bytes are the randomness that proptest's strategy of the property draws from (see checks/fuzz.py for
//! the changed proptest); coverage and comparison feedback come from the library and the harness compiled with SanitizerCoverage.
//! A broken property aborts, which saves the input.
#![no_main]
use libfuzzer_sys::Corpus;
use rpcl2_harness::engine::Fuzzed;

/// libFuzzer runs everything, its exit included, on one thread.
static mut FUZZ: Option<Box<dyn Fuzzed>> = None;

#[allow(static_mut_refs)]
extern "C" fn tell() {
    if let Some(f) = unsafe { FUZZ.as_ref() } {
        f.tell();
    }
}

#[allow(static_mut_refs)]
fn search() -> &'static mut Box<dyn Fuzzed> {
    unsafe { &mut FUZZ }.get_or_insert_with(|| {
        // a panic of the library is data for the oracle, libfuzzer-sys would abort at once
        rpcl2_harness::api::install_quiet_hook();
        unsafe { libc::atexit(tell) };
        let var = |n: &str| std::env::var(n).ok();
        rpcl2_harness::fuzzed(&var("FUZZ_PROPERTY").unwrap_or_default(), var("FUZZ_STATS"), var("FUZZ_SHRINK")).expect("property")
    })
}

libfuzzer_sys::fuzz_target!(|data: &[u8]| -> Corpus {
    if search().one(data) {
        Corpus::Keep
    } else {
        Corpus::Reject
    }
});
