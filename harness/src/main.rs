// Verification harness: `vh router` runs the real router; other subcommands drive library units.
#![recursion_limit = "256"]
use hive_router::ntex;
use hive_router::{
    configure_global_allocator, init_rustls_crypto_provider, router_entrypoint, PluginRegistry,
    RouterGlobalAllocator,
};
configure_global_allocator!();

#[hive_router::main]
async fn router() {
    init_rustls_crypto_provider();
    if let Err(e) = router_entrypoint(PluginRegistry::new()).await {
        eprintln!("router error: {e}");
        std::process::exit(3);
    }
}

fn main() {
    let cmd = std::env::args().nth(1).unwrap_or_default();
    match cmd.as_str() {
        "router" => router(),
        _ => {
            eprintln!("unknown subcommand {cmd}");
            std::process::exit(2)
        }
    }
}
