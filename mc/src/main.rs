extern crate imagequant_sys as _;
mod capi;
mod core;
#[cfg(feature = "fine")]
mod fine;
mod model;
mod pipe;
mod pix;
mod props;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a.get(1).cloned().unwrap_or_default();
    let tier = if a.get(2).map(String::as_str) == Some("thorough") { core::Tier::Thorough } else { core::Tier::Quick };
    let only = std::env::var("MC_ONLY").ok().filter(|s| !s.is_empty());
    let ctx = core::Ctx::new(&prop, tier, only);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::run(&prop, &ctx))) {
        Ok(true) => {},
        Ok(false) => { eprintln!("unknown property {prop}"); std::process::exit(2); },
        // preparing the inputs of a section uses the library too
        Err(_) => ctx.fail_at("setup".into(), format!("preparing the exploration failed: {}", core::last_panic())),
    }
    std::process::exit(ctx.finish());
}
