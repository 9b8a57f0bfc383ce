mod attrs;
mod boot;
mod contain;
mod damage;
mod disk;
mod graph;
mod img;
mod index;
mod layout;
mod mft;
mod objects;
mod positions;
mod rich;
mod runs;
mod sector;
mod stream;
mod times;
mod torn;
mod upcase;
mod util;
mod vcn;
mod walk;

fn main() {
    util::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let n = |i: usize| a.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    match a.get(1).map(|s| s.as_str()) {
        Some("stream") => stream::replay(&a[2], &a[3], seed, n(4), false),
        Some("stream-places") => stream::replay(&a[2], &a[3], seed, n(4), true),
        Some("stream-sim") => stream::sim(&a[2], &a[3], seed, n(4), false),
        Some("stream-sim-places") => stream::sim(&a[2], &a[3], seed, n(4), true),
        Some("runs") => runs::replay(&a[2], &a[3], seed),
        Some("runs-record") => runs::record(&a[2], &a[3], seed, n(4)),
        Some("torn") => torn::replay(&a[2], &a[3], seed),
        Some("mft") => mft::replay(&a[2], &a[3], seed, n(4)),
        Some("attrs") => attrs::replay(&a[2], &a[3], seed, n(4)),
        Some("index") => index::replay(&a[2], &a[3], seed, n(4), &a[5]),
        Some("vcn") => vcn::replay(&a[2], &a[3], seed, n(4)),
        Some("upcase") => upcase::replay(&a[2], &a[3], seed, n(4)),
        Some("upcase-record") => upcase::record(&a[2], &a[3], seed, n(4)),
        Some("boot") => boot::replay(&a[2], &a[3], seed),
        Some("boot-record") => boot::record(&a[2], &a[3], seed, n(4)),
        Some("time") => times::replay(&a[2], &a[3], seed),
        Some("time-record") => times::record(&a[2], &a[3], seed, n(4)),
        Some("sector") => sector::replay(&a[2], &a[3]),
        Some("sector-record") => sector::record(&a[2], &a[3], seed, n(4)),
        Some("layout") => layout::replay(&a[2], &a[3], seed),
        Some("layout-record") => layout::record(&a[2], &a[3], seed, n(4)),
        Some("contain") => contain::replay(&a[2], &a[3], seed),
        Some("objects") => objects::record(&a[2], &a[3], &a[4], seed, n(5), n(6), n(7)),
        Some("objects-sweep") => objects::sweep(&a[2], &a[3], seed, n(4)),
        Some("positions") => positions::replay(&a[2], &a[3], seed, n(4)),
        Some("damage") => damage::replay(&a[2], &a[3], &a[4], seed, n(5)),
        Some("damage-sweep") => damage::sweep(&a[2], &a[3], seed, n(4)),
        Some("graph") => graph::replay(&a[2], &a[3], seed),
        x => {
            eprintln!("unknown command {:?}", x);
            std::process::exit(2);
        }
    }
}
