#[unsafe(no_mangle)] pub extern "C" fn r_reset() { life::reset() }
#[unsafe(no_mangle)] pub extern "C" fn r_live() -> usize { life::live() }
#[unsafe(no_mangle)] pub extern "C" fn r_born() -> usize { life::born_count() }
#[unsafe(no_mangle)] pub extern "C" fn r_bad() -> u32 { life::bad() }
#[unsafe(no_mangle)] pub extern "C" fn r_clones() -> u32 { life::clones() }
#[unsafe(no_mangle)] pub extern "C" fn r_clone_froms() -> u32 { life::clone_froms() }
